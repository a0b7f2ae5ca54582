package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/rbac"
)

// iteration is one way to iterate over something.
type iteration struct {
	name string
	run  func(fn func(elem []string) bool) error
	want []string // rendered elements in any order
	own  bool     // the elements belong to the visitor
}

func (it *iteration) check(c *C, nested func(), state func() string) {
	sort.Strings(it.want)
	pass := func(stopAfter int, always bool) []string {
		got, kept := []string{}, [][]string{}
		stopped := false
		err := it.run(func(elem []string) bool {
			if stopped {
				c.Failf("%s: the visitor was called again (call %d, %q) after it had returned false at call %d of %d", it.name, len(got)+1, elem, stopAfter, len(it.want))
			}
			got = append(got, rkey(elem))
			kept = append(kept, elem)
			if nested != nil {
				nested()
			}
			if stopAfter > 0 && len(got) >= stopAfter {
				stopped = true
				return false
			}
			return true
		})
		if err != nil {
			c.Failf("%s, stopping at call %d: %v", it.name, stopAfter, err)
		}
		for i := range kept {
			if it.own && rkey(kept[i]) != got[i] {
				c.Failf("%s: element %d was %s when it was visited, and is %s after the iteration", it.name, i, got[i], rkey(kept[i]))
			}
		}
		return got
	}
	full := pass(0, false)
	sort.Strings(full)
	if strings.Join(full, "\n") != strings.Join(it.want, "\n") {
		c.Failf("%s: the complete iteration visited\n%s\nexpected\n%s", it.name, strings.Join(full, "\n"), strings.Join(it.want, "\n"))
	}
	c.Eval()
	c.Count("complete iterations")
	before := ""
	if state != nil {
		before = state()
	}
	n := len(it.want)
	ks := []int{}
	for k := 1; k <= n+1; k++ {
		ks = append(ks, k)
	}
	if n > 12 {
		ks = append(append([]int{}, ks[:4]...), ks[n-3:]...)
		for i := 0; i < 5; i++ {
			ks = append(ks, 5+c.Intn(n-8))
		}
	}
	for _, k := range ks {
		got := pass(k, false)
		want := k
		if want > n {
			want = n
		}
		if len(got) != want {
			c.Failf("%s over %d elements, stopping at call %d: %d calls", it.name, n, k, len(got))
		}
		seen := map[string]bool{}
		for _, g := range got {
			i := sort.SearchStrings(it.want, g)
			if seen[g] || i >= n || it.want[i] != g {
				c.Failf("%s, stopping at call %d: visited %s (unknown or twice)", it.name, k, g)
			}
			seen[g] = true
		}
		c.Eval()
		if k <= n {
			c.Count("stopped iterations")
			c.Distinct(it.name, k, strings.Join(it.want, ";"))
		}
	}
	if state != nil {
		if after := state(); after != before {
			c.Failf("%s: stopping early changed\n%s\ninto\n%s", it.name, before, after)
		}
	}
	if n > 2 {
		c.Sample("%s over %d elements, stopped at every position", it.name, n)
	}
}

func keysOf(rules [][]string) []string {
	res := []string{}
	for _, r := range rules {
		res = append(res, rkey(r))
	}
	return res
}

func runC21(c *C) {
	switch c.Intn(10) {
	case 0, 1, 2:
		c21Roles(c)
	case 3, 4:
		c21Eval(c)
	default:
		c21Scen(c)
	}
}

func c21Scen(c *C) {
	s := genScen(c, scenOpts{weird: 20, maxLeafs: 5})
	for s.PKey == "p2" { // see below
		s = genScen(c, scenOpts{weird: 20, maxLeafs: 5})
	}
	m, err := s.newModel()
	if err != nil {
		c.Failf("model rejected: %v\n%s", err, s.Text())
	}
	// further definitions that take part in the listing
	p2, g5 := c.Chance(50), c.Chance(50)
	if p2 {
		if err := m.SetDef(model.P_SEC, "p2", "a, b"); err != nil {
			c.Failf("%v", err)
		}
	}
	if g5 {
		if err := m.SetDef(model.G_SEC, "g5", "_, _, _, _"); err != nil {
			c.Failf("%v", err)
		}
	}
	e, err := fastac.NewEnforcer(m, nil)
	if err != nil {
		c.Failf("%v", err)
	}
	c.Logf("%s", s.Text())
	st := newStore()
	add := func(r []string) {
		st.Add(r)
		mustEdit(c, e.AddRule, r)
		c.Logf("add %q", r)
	}
	reqs := [][]interface{}{}
	for i := 0; i < 3; i++ {
		reqs = append(reqs, s.genRequest(c))
	}
	for i := 0; i < 3+c.Intn(14); i++ {
		add(s.genRule(c))
	}
	if len(s.Gs) > 0 {
		for i := 0; i < c.Intn(10); i++ {
			add(s.genLink(c))
		}
	}
	crowd := c.Chance(2)
	if crowd {
		s.crowd(c, e, st)
	}
	for i := 0; p2 && i < c.Intn(5); i++ {
		add([]string{"p2", c.Pick(s.names), c.Pick(s.names)})
	}
	for i := 0; g5 && i < c.Intn(8); i++ {
		add([]string{"g5", c.Pick(s.names), c.Pick(s.names), c.Pick(domNames), c.Pick(domNames)})
	}
	if c.Chance(30) {
		all := st.All()
		for _, r := range all {
			if c.Chance(25) {
				st.Remove(r)
				mustEdit(c, e.RemoveRule, r)
				c.Logf("remove %q", r)
			}
		}
	}
	var nested func()
	if c.Chance(30) && !crowd {
		i := 0
		nested = func() {
			if i++; i%3 == 0 {
				_, _ = e.Enforce(reqs[0]...)
				_ = e.RangeMatches(reqs[1], func([]string) bool { return false })
				for _, g := range s.Gs {
					if rm, ok := e.GetModel().GetRoleManager(g.key); ok {
						doms := domNames[:g.doms]
						_, _ = rm.HasLink("alice", "bob", doms...)
					}
				}
			}
		}
		c.Count("runs with a visitor that asks questions")
	}
	state := func() string {
		t := ruleSet(listRules(e))
		for _, r := range reqs {
			ok, err := e.Enforce(r...)
			t += fmt.Sprint(ok, err != nil)
		}
		return t
	}
	its := []iteration{{"RangeRules", func(fn func([]string) bool) error { m.RangeRules(fn); return nil }, keysOf(st.All()), true}}
	policies := []string{s.PKey}
	if p2 {
		policies = append(policies, "p2")
	}
	for _, g := range s.Gs {
		policies = append(policies, g.key)
	}
	if g5 {
		policies = append(policies, "g5")
	}
	for _, key := range policies {
		pol, ok := m.GetPolicy(key)
		if !ok {
			c.Failf("no policy %s", key)
		}
		want := []string{}
		for _, r := range st.Rules(key) {
			want = append(want, rkey(r[1:])) // policies list their rules without the key
		}
		its = append(its, iteration{"Range of policy " + key, func(fn func([]string) bool) error { pol.Range(fn); return nil }, want, false})
		if key[0] == 'g' {
			rm, _ := m.GetRoleManager(key)
			its = append(its, iteration{"Range of role manager " + key, func(fn func([]string) bool) error {
				rm.Range(func(a, b string, d ...string) bool { return fn(append([]string{a, b}, d...)) })
				return nil
			}, want, false})
		}
	}
	for _, r := range reqs {
		r := r
		want := keysOf(s.Matching(st, s.M, r))
		its = append(its, iteration{"RangeMatches " + showReq(r), func(fn func([]string) bool) error { return e.RangeMatches(r, fn) }, want, true})
		ctx, err := fastac.NewContext(m)
		if err != nil {
			c.Failf("%v", err)
		}
		its = append(its, iteration{"RangeMatchesWithContext " + showReq(r), func(fn func([]string) bool) error { return e.RangeMatchesWithContext(ctx, r, fn) }, want, true})
		if st.Len() > 0 && len(st.Rules(s.PKey)) > 0 {
			mt, _ := m.GetMatcher("m")
			rd, _ := m.GetRequestDef("r")
			its = append(its, iteration{"model.RangeMatches " + showReq(r), func(fn func([]string) bool) error { return m.RangeMatches(mt, rd, r, fn) }, want, true})
		}
		// alternatives which hold for the same rules
		c2 := s.genBool(c, 2)
		twice := orExpr{[]Expr{s.M, c2, s.M}}
		text := render(c, twice)
		its = append(its, iteration{"RangeMatches with " + text, func(fn func([]string) bool) error {
			return e.RangeMatches(append([]interface{}{fastac.SetMatcher(text)}, r...), fn)
		}, keysOf(s.Matching(st, twice, r)), true})
	}
	for _, g := range s.Gs {
		lit := strLit{c.Pick(s.names)}
		text := fmt.Sprintf("%s.user != %s || %s.role == %s", g.key, lit.Render(&style{pick: c.R.Intn}), g.key, lit.Render(&style{pick: c.R.Intn}))
		want := []string{}
		for _, l := range st.Rules(g.key) {
			if l[1] != lit.s || l[2] == lit.s {
				want = append(want, rkey(l))
			}
		}
		its = append(its, iteration{"links with " + text, func(fn func([]string) bool) error {
			return e.RangeMatches([]interface{}{fastac.SetMatcher(text)}, fn)
		}, want, true})
	}
	c.R.Shuffle(len(its), func(i, j int) { its[i], its[j] = its[j], its[i] })
	for i := range its {
		its[i].check(c, nested, state)
	}
}

// c21Eval iterates over the matches of matchers that are evaluated in several stages.
func c21Eval(c *C) {
	m := model.NewModel()
	set := func(sec byte, key, val string) {
		if err := m.SetDef(sec, key, val); err != nil {
			c.Failf("%v", err)
		}
	}
	set(model.R_SEC, "r", "sub, n")
	set(model.P_SEC, "p", "sub, cond")
	set(model.G_SEC, "g", "_, _")
	set(model.E_SEC, "e", effects[0])
	alts := []string{"g(r.sub, p.sub)", "r.sub == p.sub", "p.sub != r.sub && r.n > 2"}
	mt := []string{
		"eval(p.cond)",
		"g(r.sub, p.sub) && eval(p.cond)",
		"(" + alts[0] + " || " + alts[1] + " || " + alts[2] + ") && eval(p.cond)",
		"g(r.sub, p.sub) && eval(p.cond) || r.n > 2 && eval(p.cond)",
	}
	k := c.Intn(len(mt))
	set(model.M_SEC, "m", mt[k])
	if err := m.BuildMatchers(); err != nil {
		c.Failf("%v", err)
	}
	e, err := fastac.NewEnforcer(m, nil)
	if err != nil {
		c.Failf("%v", err)
	}
	st := newStore()
	conds := map[string]func(n int) bool{
		"true": func(int) bool { return true }, "false": func(int) bool { return false },
		"r.n > 2": func(n int) bool { return n > 2 }, "r.n < 4": func(n int) bool { return n < 4 }, "r.n == 3 || r.n == 1": func(n int) bool { return n == 3 || n == 1 },
	}
	cs := []string{"true", "false", "r.n > 2", "r.n < 4", "r.n == 3 || r.n == 1"}
	names := plainNames[:4]
	for i := 0; i < 4+c.Intn(12); i++ {
		r := []string{"p", c.Pick(names), c.Pick(cs)}
		st.Add(r)
		mustEdit(c, e.AddRule, r)
	}
	for i := 0; i < c.Intn(6); i++ {
		r := []string{"g", c.Pick(names), c.Pick(names)}
		st.Add(r)
		mustEdit(c, e.AddRule, r)
	}
	for i := 0; i < 3; i++ {
		sub, n := c.Pick(names), c.Intn(6)
		want := []string{}
		for _, r := range st.Rules("p") {
			g := st.has("g", []string{sub, r[1]})
			var b bool
			switch k {
			case 0:
				b = true
			case 1:
				b = g
			case 2:
				b = g || sub == r[1] || (sub != r[1] && n > 2)
			case 3:
				b = g || n > 2
			}
			if b && conds[r[2]](n) {
				want = append(want, rkey(r))
			}
		}
		it := iteration{fmt.Sprintf("RangeMatches of %s for %s %d", mt[k], sub, n), func(fn func([]string) bool) error {
			return e.RangeMatches([]interface{}{sub, n}, fn)
		}, want, true}
		it.check(c, nil, func() string { return ruleSet(listRules(e)) })
	}
}

// c21Roles iterates over the links of a role manager.
func c21Roles(c *C) {
	levels := c.Intn(4)
	rp, dp := roleProfiles[1+c.Intn(3)], domProfiles[3]
	var rm rbac.IRoleManager = rbac.NewRoleManager(10)
	if levels > 0 || c.Chance(30) {
		rm = rbac.NewDomainManager(10)
	}
	doms := []string{"x1", "x2", "y1"}
	names := rp.names[:4]
	if c.Chance(50) {
		rm.(rbac.IDefaultRoleManager).SetMatcher(rp.m)
		names = append(append([]string{}, names...), rp.patterns...)
	}
	if levels > 0 && c.Chance(50) {
		rm.(rbac.IDefaultRoleManager).SetDomainMatcher(dp.m)
		doms = append(doms, dp.patterns...)
	}
	links := map[string]link{}
	for i := 0; i < 4+c.Intn(16); i++ {
		l := link{c.Pick(names), c.Pick(names), []string{}}
		for j := c.Intn(levels + 1); j > 0; j-- {
			l.doms = append(l.doms, c.Pick(doms))
		}
		k := rkey(append([]string{l.a, l.b}, l.doms...))
		if _, ok := links[k]; ok && c.Chance(70) {
			if _, err := rm.DeleteLink(l.a, l.b, l.doms...); err != nil {
				c.Failf("%v", err)
			}
			delete(links, k)
			continue
		}
		if _, err := rm.AddLink(l.a, l.b, l.doms...); err != nil {
			c.Failf("%v", err)
		}
		links[k] = l
		if c.Chance(25) {
			_, _ = rm.HasLink(c.Pick(names), c.Pick(names), l.doms...)
		}
	}
	want := []string{}
	for k := range links {
		want = append(want, k)
	}
	it := iteration{fmt.Sprintf("Range of a role manager with %d domain levels", levels), func(fn func([]string) bool) error {
		rm.Range(func(a, b string, d ...string) bool { return fn(append([]string{a, b}, d...)) })
		return nil
	}, want, false}
	var nested func()
	if c.Chance(40) {
		nested = func() {
			_, _ = rm.HasLink(names[0], names[1])
			_, _ = rm.GetRoles(names[0])
			n := 0
			rm.Range(func(a, b string, d ...string) bool { n++; return n < 2 })
		}
		c.Count("runs with a visitor that asks questions")
	}
	it.check(c, nested, nil)
	c.Count("role managers")
}

func init() {
	register(&Check{
		ID: "C21", Level: "exploration", Quick: 5000, Full: 40000,
		Rule:   "random rule sets, role graphs and matchers (several policies, overlapping alternatives, eval stages, domain levels and patterns); every kind of iteration is run completely and stopped at every position, partly with a visitor that asks questions itself; non-trivial: distinct (iteration, stop position within the elements, contents)",
		Run:    runC21,
		Assume: []string{"visitors do not edit the rules they iterate over"},
	})
}
