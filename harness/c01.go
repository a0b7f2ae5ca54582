package main

import (
	"fmt"
	"strings"

	"github.com/abichinger/fastac"
)

func (s *Scen) populate(c *C, e *fastac.Enforcer, st *Store, rules, links int) {
	if len(s.Gs) > 0 {
		for i := 0; i < links; i++ {
			s.edit(c, e, st, true, s.genLink(c))
		}
	}
	for i := 0; i < rules; i++ {
		s.edit(c, e, st, true, s.genRule(c))
	}
	if c.Chance(1) {
		s.crowd(c, e, st)
	}
}

// edit applies an edit to both sides and compares the return value.
func (s *Scen) edit(c *C, e *fastac.Enforcer, st *Store, add bool, rule []string) bool {
	var ok, want bool
	var err error
	if add {
		ok, err = e.AddRule(append([]string{}, rule...))
		want = st.Add(rule)
	} else {
		ok, err = e.RemoveRule(append([]string{}, rule...))
		want = st.Remove(rule)
	}
	op := map[bool]string{true: "add", false: "remove"}[add]
	c.Logf("%s %q => %v %v", op, rule, ok, err)
	if err != nil {
		c.Failf("%s %q: unexpected error %v", op, rule, err)
	}
	if ok != want {
		c.Failf("%s %q returned %v, expected %v", op, rule, ok, want)
	}
	return ok
}

func (s *Scen) checkDecision(c *C, e *fastac.Enforcer, st *Store, req []interface{}) bool {
	if s.usesIPOnP && len(st.rules[s.PKey]) == 0 {
		return false // ipMatch of an empty rule is an error, see C06
	}
	want := s.Decide(st, req)
	got, err := e.Enforce(req...)
	c.Logf("enforce (%s) => %v %v", showReq(req), got, err)
	if err != nil {
		c.Failf("matcher %s\nrequest (%s): unexpected error %v", s.MText, showReq(req), err)
	}
	c.Eval()
	if got {
		c.Count("decision allow")
	} else {
		c.Count("decision deny")
	}
	if got != want {
		c.Failf("matcher %s\nrequest (%s): decision %v, evaluating every rule yields %v\nrules:\n%s", s.MText, showReq(req), got, want, ruleSet(st.All()))
	}
	return want
}

func runC01(c *C) {
	if c.rare(300) {
		scaleAlternatives(c, false)
		return
	}
	glue := c.Chance(12) // rules that join to the same text
	leafs := 0
	if !glue && c.rare(40) { // long matchers
		leafs = 20 + c.Intn(180)
		c.Count("matchers with up to 200 conditions")
	}
	s := genScen(c, scenOpts{weird: 35, glue: glue, minP: map[bool]int{true: 2}[glue], maxLeafs: leafs})
	e := s.newEnforcer(c)
	c.Logf("model:\n%s", s.Text())
	st := newStore()
	n := c.Intn(9)
	if glue {
		n += 5
	}
	s.populate(c, e, st, n, c.Intn(7))
	seen := map[bool]bool{}
	for i := 0; i < 12; i++ {
		req := s.genRequest(c)
		if i > 0 && len(st.Rules(s.PKey)) > 0 && c.Chance(60) {
			req = s.requestNear(c, st, req)
		}
		seen[s.checkDecision(c, e, st, req)] = true
		c.Distinct(s.MText, ruleSet(st.All()), showReq(req))
	}
	if len(seen) == 2 {
		c.Count("scenarios with both decisions")
	}
	c.Count("shape " + shape(s.M))
	if len(st.rules[s.PKey]) == 0 {
		c.Count("scenarios with empty policy")
	}
	c.Sample("matcher %s; %d rules; effect %s", s.MText, st.Len(), effects[s.Effect])

	// the same meaning written differently decides the same
	if c.Chance(40) {
		s2 := *s
		s2.M = rewrite(c, s.M)
		s2.MText = render(c, s2.M)
		e2 := s2.newEnforcer(c)
		st2 := newStore()
		for _, r := range st.All() {
			s2.edit(c, e2, st2, true, r)
		}
		for i := 0; i < 6; i++ {
			req := s.requestNear(c, st, s.genRequest(c))
			s2.checkDecision(c, e2, st2, req)
			if !(s.usesIPOnP && len(st.rules[s.PKey]) == 0) {
				if a, b := s.Decide(st, req), s2.Decide(st2, req); a != b {
					panic(fmt.Sprintf("harness: rewriting changed the meaning: %s => %s", s.MText, s2.MText))
				}
			}
			c.Count("rewritten matcher decisions")
		}
	}
}

// requestNear copies values of a rule into a request
func (s *Scen) requestNear(c *C, st *Store, req []interface{}) []interface{} {
	rules := st.Rules(s.PKey)
	if len(rules) == 0 {
		return req
	}
	rule := rules[c.Intn(len(rules))][1:]
	if len(rule) == len(s.PCats) && c.Chance(45) {
		c.Count("requests aimed at a rule")
		s.aim(c, s.M, c.Chance(85), rule, req)
		return req
	}
	for i, k := range s.RCats {
		switch k {
		case cName, cDom, cAct, cPath:
			cand := []string{}
			for j, pk := range s.PCats {
				if pk == k && j != s.Eft {
					cand = append(cand, rule[j])
				}
			}
			if len(cand) > 0 && c.Chance(85) {
				req[i] = c.Pick(cand)
			}
		}
	}
	return req
}

// aim changes the request such that the expression is likely to yield want for the given rule
func (s *Scen) aim(c *C, e Expr, want bool, rule []string, req []interface{}) {
	switch x := e.(type) {
	case andExpr, orExpr:
		xs, all := []Expr{}, want
		if a, ok := x.(andExpr); ok {
			xs = a.xs
		} else {
			xs, all = x.(orExpr).xs, !want
		}
		j := c.Intn(len(xs))
		for i := range xs {
			if all || i == j || c.Chance(30) {
				s.aim(c, xs[i], want, rule, req)
			}
		}
	case notExpr:
		s.aim(c, x.x, !want, rule, req)
	case terExpr:
		s.aim(c, x.c, true, rule, req)
		s.aim(c, x.a, want, rule, req)
	case cmpExpr:
		if want == (x.op == "==" || x.op == "<=" || x.op == ">=") {
			s.equate(c, x.l, x.r, rule, req)
		}
	case inExpr:
		if r, ok := x.x.(rArg); ok && want {
			req[r.idx] = c.Pick(x.list)
		}
	case callExpr:
		if want && len(x.args) >= 2 && x.fn != "eval" && x.fn != "ipMatch" {
			for i := 1; i < len(x.args) && i < 2; i++ {
				s.equate(c, x.args[0], x.args[i], rule, req)
			}
		}
	}
}

// equate assigns an argument of the request such that l equals r
func (s *Scen) equate(c *C, l, r Expr, rule []string, req []interface{}) {
	if _, ok := r.(rArg); ok {
		if _, both := l.(rArg); !both {
			l, r = r, l
		}
	}
	if a, ok := l.(arithExpr); ok {
		if b, ok := r.(arithExpr); ok && a.op == "+" && b.op == "+" {
			s.equate(c, a.l, b.l, rule, req)
			s.equate(c, a.r, b.r, rule, req)
		}
		return
	}
	a, ok := l.(rArg)
	if !ok {
		return
	}
	if _, ok := req[a.idx].(string); !ok {
		return
	}
	switch v := r.(type) {
	case strLit:
		req[a.idx] = v.s
	case pArg:
		req[a.idx] = rule[v.idx]
	case rArg:
		if t, ok := req[v.idx].(string); ok {
			req[a.idx] = t
		}
	}
}

func shape(e Expr) string {
	switch x := e.(type) {
	case andExpr:
		if hasOr(e) {
			return "and with nested or"
		}
		return "and"
	case orExpr:
		return fmt.Sprintf("or of %d", min(len(x.xs), 4))
	case notExpr:
		return "not"
	case terExpr:
		return "ternary"
	}
	return "leaf"
}

func hasOr(e Expr) bool {
	switch x := e.(type) {
	case orExpr:
		return true
	case andExpr:
		for _, y := range x.xs {
			if hasOr(y) {
				return true
			}
		}
	}
	return false
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// rewrite returns a logically equivalent expression
func rewrite(c *C, e Expr) Expr {
	switch x := e.(type) {
	case andExpr:
		ys := rewriteAll(c, x.xs)
		if c.Chance(25) {
			return notExpr{orExpr{negAll(ys)}}
		}
		if len(ys) > 2 && c.Chance(40) {
			return andExpr{[]Expr{andExpr{ys[:2]}, group(ys[2:], true)}}
		}
		for i, y := range ys { // distribute
			if o, ok := y.(orExpr); ok && c.Chance(50) && len(ys) <= 4 {
				rest := append(append([]Expr{}, ys[:i]...), ys[i+1:]...)
				alts := []Expr{}
				for _, z := range o.xs {
					alts = append(alts, andExpr{append([]Expr{z}, rest...)})
				}
				return orExpr{alts}
			}
		}
		return andExpr{ys}
	case orExpr:
		ys := rewriteAll(c, x.xs)
		if c.Chance(25) {
			return notExpr{andExpr{negAll(ys)}}
		}
		if len(ys) > 2 && c.Chance(40) {
			return orExpr{[]Expr{orExpr{ys[:2]}, group(ys[2:], false)}}
		}
		return orExpr{ys}
	case notExpr:
		return notExpr{rewrite(c, x.x)}
	case cmpExpr:
		switch {
		case x.op == "==" && c.Chance(30):
			return notExpr{cmpExpr{"!=", x.l, x.r}}
		case (x.op == "==" || x.op == "!=") && c.Chance(40):
			return cmpExpr{x.op, x.r, x.l}
		}
	}
	if c.Chance(8) {
		return orExpr{[]Expr{e, boolLit{false}}}
	}
	if c.Chance(8) {
		return andExpr{[]Expr{boolLit{true}, e}}
	}
	return e
}

func group(xs []Expr, and bool) Expr {
	if len(xs) == 1 {
		return xs[0]
	}
	if and {
		return andExpr{xs}
	}
	return orExpr{xs}
}

func rewriteAll(c *C, xs []Expr) []Expr {
	ys := []Expr{}
	for _, i := range c.R.Perm(len(xs)) {
		ys = append(ys, rewrite(c, xs[i]))
	}
	return ys
}

func negAll(xs []Expr) []Expr {
	ys := []Expr{}
	for _, x := range xs {
		ys = append(ys, notExpr{x})
	}
	return ys
}

func trim(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " / ")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func init() {
	register(&Check{ID: "C01", Level: "exploration", Quick: 28000, Full: 400000, Run: runC01,
		Rule:   "random model (1-5 request and policy fields, 0-2 role definitions with 0-2 domain levels, one of three effects), random well-typed matcher tree of 1-7 conditions (rarely up to 200; conditional expressions, arithmetic, bit operators, methods of attributes) rendered in random style, 0-8 rules and 0-6 links over a small vocabulary (35% with separators, quotes and expression-like text), 12 requests, 60% close to a rule; 40% of the models are decided again with a logically equivalent matcher. Non-trivial: distinct (matcher, rules, request).",
		Assume: []string{"the reference evaluator of the harness implements the operators of the matcher language as documented by govaluate"}})
}
