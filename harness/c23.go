package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/abichinger/fastac"
)

const cCond cat = 100

// evalExpr is eval(p.field): the condition of the rule decides.
type evalExpr struct {
	p     pArg
	conds map[string]Expr
}

func (e evalExpr) prec() int { return precAtom }

func (e evalExpr) Render(st *style) string { return "eval(" + wrap(e.p, st, precOr) + ")" }

func (e evalExpr) Eval(env *Env) interface{} {
	x, ok := e.conds[e.p.Eval(env).(string)]
	if !ok {
		return false // invalid conditions hold for nothing
	}
	return x.Eval(env)
}

type evalScen struct {
	*Scen
	conds   map[string]Expr
	texts   []string // valid conditions
	invalid []string
	fields  []pArg // the fields that hold conditions
	guard   Expr   // for the tests of invalid conditions
}

func newEvalScen(c *C, simple bool) *evalScen {
	s := genScen(c, scenOpts{weird: 20, noIP: true, minP: 2, stdKeys: true})
	es := &evalScen{Scen: s, conds: map[string]Expr{}}
	n := 1
	if !simple && c.Chance(35) {
		n = 2
	}
	for i := 0; i < n; i++ {
		name := []string{"cond", "when", "sub_rule", "p"}[c.Intn(4)] + fmt.Sprint(i)
		at := c.Intn(len(s.PArgs) + 1)
		if at <= s.Eft {
			s.Eft++
		}
		s.PArgs = append(s.PArgs[:at:at], append([]string{name}, s.PArgs[at:]...)...)
		s.PCats = append(s.PCats[:at:at], append([]cat{cCond}, s.PCats[at:]...)...)
	}
	for i, k := range s.PCats {
		if k == cCond {
			es.fields = append(es.fields, pArg{s.PKey, s.PArgs[i], i})
		}
	}
	// conditions
	for i := 0; i < 3+c.Intn(5); i++ {
		e := s.genBool(c, 1+c.Intn(3))
		t := render(c, e)
		es.conds[t] = e
		es.texts = append(es.texts, t)
	}
	if c.Chance(50) {
		for t, b := range map[string]bool{"true": true, "false": false} {
			es.conds[t] = boolLit{b}
		}
		es.texts = append(es.texts, "true", "false")
	}
	es.invalid = []string{"", "r." + s.RArgs[0] + " ==", "nosuch(1)", "r.nothing == \"a\"", "p.nothing == \"a\"", "(", "unknown", "r." + s.RArgs[0] + " > 3"}
	// the matcher
	es.guard = s.genBool(c, 1+c.Intn(3))
	var ev Expr = evalExpr{es.fields[0], es.conds}
	if simple {
		s.M = andExpr{[]Expr{es.guard, ev}}
	} else {
		leaf := func() Expr { return evalExpr{es.fields[c.Intn(len(es.fields))], es.conds} }
		xs := []Expr{es.guard, ev}
		switch c.Intn(7) {
		case 0:
			s.M = ev
		case 1:
			s.M = andExpr{xs}
		case 2:
			s.M = andExpr{[]Expr{ev, es.guard}}
		case 3:
			s.M = orExpr{xs}
		case 4:
			s.M = andExpr{[]Expr{es.guard, orExpr{[]Expr{ev, s.genBool(c, 1), leaf()}}}}
		case 5:
			s.M = orExpr{[]Expr{andExpr{xs}, andExpr{[]Expr{s.genBool(c, 2), leaf()}}}}
		case 6:
			s.M = andExpr{[]Expr{s.genBool(c, 1), notExpr{leaf()}, ev}}
		}
	}
	s.MText = render(c, s.M)
	return es
}

func (es *evalScen) genRule(c *C, invalid int) []string {
	rule := []string{es.PKey}
	for i, k := range es.PCats {
		switch {
		case i == es.Eft:
			rule = append(rule, genEft(c))
		case k == cCond && c.Chance(invalid):
			rule = append(rule, c.Pick(es.invalid))
		case k == cCond:
			rule = append(rule, c.Pick(es.texts))
		default:
			rule = append(rule, c.Pick(es.vocab(k)))
		}
	}
	return rule
}

// sibling shares all fields with another rule except for one
func (es *evalScen) sibling(c *C, r []string) []string {
	r = append([]string{}, r...)
	i := 1 + es.fields[c.Intn(len(es.fields))].idx
	if c.Chance(40) {
		i = 1 + c.Intn(len(r)-1)
	}
	n := es.genRule(c, 0)
	r[i] = n[i]
	return r
}

func runC23(c *C) {
	if c.Chance(25) {
		c23Invalid(c)
		return
	}
	es := newEvalScen(c, false)
	s := es.Scen
	e := s.newEnforcer(c)
	c.Logf("%s", s.Text())
	st := newStore()
	edit := func() {
		all := st.Rules(s.PKey)
		switch {
		case len(s.Gs) > 0 && c.Chance(25):
			s.edit(c, e, st, true, s.genLink(c))
		case len(all) > 1 && c.Chance(30):
			s.edit(c, e, st, false, all[c.Intn(len(all))])
		case len(all) > 0 && c.Chance(60):
			s.edit(c, e, st, true, es.sibling(c, all[c.Intn(len(all))]))
		default:
			s.edit(c, e, st, true, es.genRule(c, 0))
		}
	}
	for i := 0; i < 3+c.Intn(9); i++ {
		edit()
	}
	for len(st.Rules(s.PKey)) == 0 {
		s.edit(c, e, st, true, es.genRule(c, 0))
	}
	reqs := [][]interface{}{}
	for i := 0; i < 10; i++ {
		req := s.genRequest(c)
		if c.Chance(60) {
			req = s.requestNear(c, st, req)
		}
		reqs = append(reqs, req)
		s.checkDecision(c, e, st, req)
		c.Distinct(s.MText, ruleSet(st.All()), showReq(req))
		want := s.Matching(st, s.M, req)
		got, err := e.Filter(req...)
		if err != nil || ruleSet(got) != ruleSet(want) {
			c.Failf("matcher %s\nfilter (%s): %q %v\nexpected %q", s.MText, showReq(req), got, err, want)
		}
		c.Eval()
		if len(want) > 0 && len(want) < len(st.Rules(s.PKey)) {
			c.Count("requests that match some but not all rules")
		}
		if c.Chance(25) {
			edit()
			for len(st.Rules(s.PKey)) == 0 {
				s.edit(c, e, st, true, es.genRule(c, 0))
			}
		}
		// written in place of eval, for a single rule
		if r := st.Rules(s.PKey); c.Chance(30) {
			rule := r[c.Intn(len(r))]
			text := s.MText
			for _, f := range es.fields {
				for _, w := range []string{"." + f.name, "_" + f.name} {
					for _, o := range []string{"eval(" + s.PKey + w + ")", "eval((" + s.PKey + w + "))"} {
						text = strings.ReplaceAll(text, o, "("+rule[1+f.idx]+")")
					}
				}
			}
			s2 := *s
			s2.MText = text
			e2 := s2.newEnforcer(c)
			mustEdit(c, e2.AddRule, rule)
			for _, l := range st.All() {
				if l[0][0] == 'g' {
					mustEdit(c, e2.AddRule, l)
				}
			}
			list, err := e2.Filter(req...)
			if want := s.holds(st, s.M, req, rule[1:]); err != nil || (len(list) == 1) != want {
				c.Failf("inlined matcher %s\nrule %q\nrequest (%s): %q %v, with eval: %v", text, rule, showReq(req), list, err, want)
			}
			c.Count("comparisons with an inlined condition")
		}
	}
	c.Sample("matcher %s; rules %s", s.MText, trim(ruleSet(st.All()), 400))
	if !c.Chance(30) {
		return
	}
	wants := make([]bool, len(reqs))
	lists := make([]string, len(reqs))
	for i, r := range reqs {
		wants[i], lists[i] = s.Decide(st, r), ruleSet(s.Matching(st, s.M, r))
	}
	var wg sync.WaitGroup
	bad := make(chan string, 8)
	for w := 0; w < 4; w++ {
		order := c.R.Perm(len(reqs))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, i := range append(order, order...) {
				ok, err := e.Enforce(reqs[i]...)
				list, lerr := e.Filter(reqs[i]...)
				if err != nil || lerr != nil || ok != wants[i] || ruleSet(list) != lists[i] {
					bad <- fmt.Sprintf("among concurrent requests (%s): %v %v %q %v, expected %v %s", showReq(reqs[i]), ok, err, list, lerr, wants[i], lists[i])
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case m := <-bad:
		c.Failf("matcher %s\n%s", s.MText, m)
	default:
	}
	c.Count("concurrent runs")
}

// c23Invalid: invalid conditions are errors that never grant access.
func c23Invalid(c *C) {
	es := newEvalScen(c, true)
	s := es.Scen
	e := s.newEnforcer(c)
	c.Logf("%s", s.Text())
	st := newStore()
	for i := 0; i < 3+c.Intn(7); i++ {
		s.edit(c, e, st, true, es.genRule(c, 35))
	}
	for i := 0; len(s.Gs) > 0 && i < 5; i++ {
		s.edit(c, e, st, true, s.genLink(c))
	}
	check := func(label string) {
		for i := 0; i < 8; i++ {
			req := s.requestNear(c, st, s.genRequest(c))
			reached := false // an invalid condition has to be evaluated
			for _, r := range st.Rules(s.PKey) {
				if _, valid := es.conds[r[1+es.fields[0].idx]]; !valid && s.holds(st, es.guard, req, r[1:]) {
					reached = true
				}
			}
			anyInvalid := false
			allow, deny := false, false
			for _, r := range st.Rules(s.PKey) {
				if _, valid := es.conds[r[1+es.fields[0].idx]]; !valid {
					anyInvalid = true
				}
			}
			for _, r := range s.Matching(st, s.M, req) {
				switch eftOf(s, r[1:]) {
				case 1:
					allow = true
				case -1:
					deny = true
				}
			}
			ok, err := e.Enforce(req...)
			c.Eval()
			if err != nil && ok {
				c.Failf("request (%s) is allowed together with the error %v", showReq(req), err)
			}
			early := false // a rule that decides before all rules are evaluated
			switch s.Effect {
			case 0:
				early = allow
			default:
				early = deny
			}
			switch {
			case err != nil:
				if !anyInvalid {
					c.Failf("%s: request (%s): error %v although all conditions are valid", label, showReq(req), err)
				}
				c.Count("errors of invalid conditions")
			case reached && !early:
				c.Failf("matcher %s\nrequest (%s): %v without an error, although a rule with an invalid condition has to be evaluated\nrules:\n%s", s.MText, showReq(req), ok, ruleSet(st.All()))
			case ok != s.Decide(st, req):
				c.Failf("matcher %s\nrequest (%s): %v, the rules with valid conditions yield %v\nrules:\n%s", s.MText, showReq(req), ok, !ok, ruleSet(st.All()))
			default:
				c.Count("decisions besides invalid conditions")
			}
			c.Distinct(s.MText, ruleSet(st.All()), showReq(req))
			list, ferr := e.Filter(req...)
			if ferr == nil && (reached || ruleSet(list) != ruleSet(s.Matching(st, s.M, req))) {
				c.Failf("matcher %s\nfilter (%s): %q without an error, expected %q (an invalid condition is evaluated: %v)", s.MText, showReq(req), list, s.Matching(st, s.M, req), reached)
			}
		}
	}
	for len(st.Rules(s.PKey)) == 0 {
		s.edit(c, e, st, true, es.genRule(c, 35))
	}
	check("with invalid conditions")
	// without the invalid rules everything works
	for _, r := range st.Rules(s.PKey) {
		if _, valid := es.conds[r[1+es.fields[0].idx]]; !valid {
			s.edit(c, e, st, false, r)
		}
	}
	if len(st.Rules(s.PKey)) > 0 {
		check("after removing the invalid rules")
	}
}

func init() {
	register(&Check{
		ID: "C23", Level: "exploration", Quick: 7000, Full: 100000,
		Rule:   "random models whose matcher calls eval() on one or two rule fields in random positions; conditions are random well-typed expressions over request, object attributes, roles and all fields of the rule; many rules differ in their condition or a single field only; decisions and matches against the reference evaluation of the rule's own condition and against inlined matchers, partly concurrent; invalid conditions must be errors; non-trivial: distinct (matcher, rules, request)",
		Run:    runC23,
		Assume: []string{"conditions are not nested in other conditions", "the policy is not empty (eval of the empty rule is an error)"},
	})
}

var _ = fastac.SetMatcher
