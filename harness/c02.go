package main

import (
	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/matcher"
)

// usesP tells whether the expression reads a field of the rule.
func usesP(e Expr) bool {
	found := false
	walk(e, func(x Expr) {
		if _, ok := x.(pArg); ok {
			found = true
		}
	})
	return found
}

func usesR(e Expr) bool {
	found := false
	walk(e, func(x Expr) {
		switch x.(type) {
		case rArg, rField:
			found = true
		}
	})
	return found
}

func usesIP(e Expr) bool {
	found := false
	walk(e, func(x Expr) {
		if y, ok := x.(callExpr); ok && y.fn == "ipMatch" {
			found = true
		}
	})
	return found
}

func walk(e Expr, fn func(Expr)) {
	fn(e)
	switch x := e.(type) {
	case andExpr:
		for _, y := range x.xs {
			walk(y, fn)
		}
	case orExpr:
		for _, y := range x.xs {
			walk(y, fn)
		}
	case notExpr:
		walk(x.x, fn)
	case cmpExpr:
		walk(x.l, fn)
		walk(x.r, fn)
	case arithExpr:
		walk(x.l, fn)
		walk(x.r, fn)
	case reExpr:
		walk(x.x, fn)
	case inExpr:
		walk(x.x, fn)
	case methodExpr:
		walk(x.arg, fn)
		for _, y := range x.args {
			walk(y, fn)
		}
	case signExpr:
		walk(x.x, fn)
	case inNumExpr:
		walk(x.x, fn)
	case terExpr:
		walk(x.c, fn)
		walk(x.a, fn)
		walk(x.b, fn)
	case callExpr:
		for _, y := range x.args {
			walk(y, fn)
		}
	case rField:
		walk(x.arg, fn)
	}
}

// gView is the scenario seen through grouping rules: fields user, role, domain.
func (s *Scen) gView(g gDef) *Scen {
	v := *s
	v.PKey = g.key
	v.PArgs = []string{"user", "role"}
	v.PCats = []cat{cName, cName}
	if g.doms > 0 {
		v.PArgs = append(v.PArgs, "domain")
		v.PCats = append(v.PCats, cDom)
	}
	v.Eft = -1
	return &v
}

// adhoc generates a matcher for the view that reads at least one field.
func (s *Scen) adhoc(c *C, leafs int) (Expr, string) {
	m := s.genBool(c, leafs)
	if !usesP(m) {
		i := 0
		for i == s.Eft {
			i++
		}
		p := pArg{s.PKey, s.PArgs[i], i}
		m = andExpr{[]Expr{m, cmpExpr{"==", p, strLit{c.Pick(s.vocab(s.PCats[i]))}}}}
	}
	return m, render(c, m)
}

// query runs a filter in one of the ways the API offers.
func query(c *C, e *fastac.Enforcer, opts []interface{}, req []interface{}) ([][]string, error, string) {
	params := []interface{}{}
	if c.Chance(50) {
		params = append(append(params, opts...), req...)
	} else {
		params = append(append(params, req...), opts...)
	}
	switch c.Intn(3) {
	case 0:
		res, err := e.Filter(params...)
		return res, err, "filter"
	case 1:
		res := [][]string{}
		err := e.RangeMatches(params, func(r []string) bool {
			res = append(res, append([]string{}, r...))
			return true
		})
		return res, err, "range"
	}
	co := []fastac.ContextOption{}
	for _, o := range opts {
		co = append(co, o.(fastac.ContextOption))
	}
	ctx, err := fastac.NewContext(e.GetModel(), co...)
	if err != nil {
		return nil, err, "context"
	}
	if c.Chance(50) {
		if c.Chance(30) { // the context is used before
			old, _ := e.FilterWithContext(ctx, req...)
			c.keep("filter with context", old...)
		}
		res, err := e.FilterWithContext(ctx, req...)
		return res, err, "filter with context"
	}
	res := [][]string{}
	err = e.RangeMatchesWithContext(ctx, req, func(r []string) bool {
		res = append(res, append([]string{}, r...))
		return true
	})
	return res, err, "range with context"
}

// matcherOption passes a matcher as text, definition or object.
func matcherOption(c *C, e *fastac.Enforcer, text string) interface{} {
	switch c.Intn(4) {
	case 0:
		return fastac.SetMatcher(defs.NewMatcherDef("x", text))
	case 1:
		m, err := e.GetModel().BuildMatcherFromDef(defs.NewMatcherDef("", text))
		if err != nil {
			c.Failf("matcher %s rejected: %v", text, err)
		}
		var im matcher.IMatcher = m
		return fastac.SetMatcher(im)
	}
	return fastac.SetMatcher(text)
}

func (v *Scen) checkFilter(c *C, e *fastac.Enforcer, st *Store, m Expr, text string, opts []interface{}, req []interface{}) {
	want := v.Matching(st, m, req)
	got, err, how := query(c, e, opts, req)
	c.Logf("%s %s (%s) => %d rules, %v", how, text, showReq(req), len(got), err)
	if err != nil {
		c.Failf("%s with matcher %s, request (%s): unexpected error %v", how, text, showReq(req), err)
	}
	c.Eval()
	c.Count("query " + how)
	switch {
	case len(want) == 0:
		c.Count("queries without matching rule")
	case len(want) == st.Len():
		c.Count("queries matching all rules")
	default:
		c.Count("queries matching some rules")
	}
	if ruleSet(got) != ruleSet(want) {
		c.Failf("%s with matcher %s, request (%s) returned\n%s\nexpected\n%s\nstored\n%s", how, text, showReq(req), ruleSet(got), ruleSet(want), ruleSet(st.All()))
	}
	c.Distinct(text, ruleSet(st.All()), showReq(req))
	for _, r := range got { // results belong to the caller
		for i := range r {
			r[i] = "overwritten"
		}
	}
}

func runC02(c *C) {
	if c.rare(300) {
		scaleC02(c)
		return
	}
	if c.rare(300) {
		scaleAlternatives(c, true)
		return
	}
	blank := c.Chance(20)
	s := genScen(c, scenOpts{weird: 30, noIP: blank})
	e := s.newEnforcer(c)
	c.Logf("model:\n%s", s.Text())
	st := newStore()
	s.populate(c, e, st, c.Intn(12), c.Intn(9))
	if blank { // a rule that consists of empty fields is a rule like any other
		r := make([]string, len(s.PArgs)+1)
		r[0] = s.PKey
		s.edit(c, e, st, true, r)
	}
	empty := len(st.rules[s.PKey]) == 0
	for i := 0; i < 4; i++ {
		req := s.requestNear(c, st, s.genRequest(c))
		if !(empty && usesIP(s.M)) {
			s.checkFilter(c, e, st, s.M, s.MText, nil, req)
		}
		m, text := s.adhoc(c, 1+c.Intn(5))
		if !(empty && usesIP(m)) {
			s.checkFilter(c, e, st, m, text, []interface{}{matcherOption(c, e, text)}, req)
			c.Count("ad-hoc matcher on permissions")
		}
	}
	// without request values
	np := *s
	np.RCats, np.RArgs = nil, nil
	for i := 0; i < 2; i++ {
		m, text := np.adhoc(c, 1+c.Intn(4))
		if empty && usesIP(m) {
			continue
		}
		np.checkFilter(c, e, st, m, text, []interface{}{matcherOption(c, e, text)}, nil)
		c.Count("ad-hoc matcher without request")
	}
	for _, g := range s.Gs {
		v := s.gView(g)
		for i := 0; i < 3; i++ {
			var req []interface{}
			w := v
			if c.Chance(50) {
				x := *v
				x.RCats, x.RArgs = nil, nil
				w = &x
			} else {
				req = s.genRequest(c)
			}
			m, text := w.adhoc(c, 1+c.Intn(4))
			if len(st.rules[g.key]) == 0 && usesIP(m) {
				continue
			}
			w.checkFilter(c, e, st, m, text, []interface{}{matcherOption(c, e, text)}, req)
			c.Count("ad-hoc matcher on grouping rules")
		}
	}
	// the queries did not change the rules
	if got := listRules(e); ruleSet(got) != ruleSet(st.All()) {
		c.Failf("stored rules after the queries:\n%s\nexpected:\n%s", ruleSet(got), ruleSet(st.All()))
	}
	c.Sample("matcher %s; rules %s", s.MText, trim(ruleSet(st.All()), 400))
}

func listRules(e *fastac.Enforcer) [][]string {
	res := [][]string{}
	e.GetModel().RangeRules(func(r []string) bool {
		res = append(res, append([]string{}, r...))
		return true
	})
	return res
}

func init() {
	register(&Check{ID: "C02", Level: "exploration", Quick: 16000, Full: 250000, Run: runC02,
		Rule:   "random models, rules and links as in C01; filters and iterations (four API variants) with the model's matcher, ad-hoc matchers given as text, definition or object, with and without request values, over permission rules and over grouping rules; results compared as multisets with a naive evaluation; rarely thousands of matching rules. Non-trivial: distinct (matcher, rules, request).",
		Assume: []string{"the reference evaluator of the harness implements the operators of the matcher language as documented by govaluate", "grouping rules with two domain levels expose user, role and first domain"}})
}
