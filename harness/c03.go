package main

import (
	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/api"
)

// memAdapter is a storage adapter that serves fixed rules.
type memAdapter struct{ rules [][]string }

func (a *memAdapter) LoadPolicy(m api.IAddRuleBool) error {
	for _, r := range a.rules {
		if _, err := m.AddRule(append([]string{}, r...)); err != nil {
			return err
		}
	}
	return nil
}
func (a *memAdapter) SavePolicy(m api.IRangeRules) error {
	a.rules = nil
	m.RangeRules(func(r []string) bool {
		a.rules = append(a.rules, append([]string{}, r...))
		return true
	})
	return nil
}
func (a *memAdapter) AddRule(rule []string) error    { return nil }
func (a *memAdapter) RemoveRule(rule []string) error { return nil }

type lview struct {
	v    *Scen
	m    Expr
	text string
	ctx  *fastac.Context
}

func runC03(c *C) {
	s := genScen(c, scenOpts{weird: 20, minP: 3 * c.Intn(5)})
	m, err := s.newModel()
	if err != nil {
		c.Failf("model rejected: %v\n%s", err, s.Text())
	}
	ad := &memAdapter{}
	var opts []fastac.Option
	if c.Chance(50) {
		opts = append(opts, fastac.OptionAutosave(true))
	}
	e, err := fastac.NewEnforcer(m, ad, opts...)
	if err != nil {
		c.Failf("enforcer: %v", err)
	}
	c.Logf("model:\n%s", s.Text())
	st := newStore()
	removed := [][]string{}
	ips := usesIP(s.M)

	// matchers that live as long as the enforcer
	views := []lview{}
	addView := func() {
		v := s
		if len(s.Gs) > 0 && c.Chance(40) {
			v = s.gView(s.Gs[c.Intn(len(s.Gs))])
		}
		m, text := v.adhoc(c, 1+c.Intn(5))
		if usesIP(m) {
			return
		}
		ctx, err := fastac.NewContext(e.GetModel(), matcherOption(c, e, text).(fastac.ContextOption))
		if err != nil {
			c.Failf("matcher %s rejected: %v", text, err)
		}
		c.Logf("long-lived matcher %s", text)
		views = append(views, lview{v, m, text, ctx})
	}
	newRule := func() []string {
		if len(removed) > 0 && c.Chance(30) {
			return removed[c.Intn(len(removed))]
		}
		if len(s.Gs) > 0 && c.Chance(35) {
			return s.genLink(c)
		}
		r := s.genRule(c)
		if rules := st.Rules(s.PKey); len(rules) > 0 && c.Chance(60) { // share fields with an existing rule
			o := rules[c.Intn(len(rules))]
			for i := 1; i < len(r); i++ {
				if c.Chance(60) {
					r[i] = o[i]
				}
			}
		}
		return r
	}
	check := func() {
		for i := 0; i < 3; i++ {
			if ips && len(st.rules[s.PKey]) == 0 {
				break
			}
			s.checkDecision(c, e, st, s.requestNear(c, st, s.genRequest(c)))
		}
		for _, l := range views {
			req := s.requestNear(c, st, s.genRequest(c))
			want := l.v.Matching(st, l.m, req)
			got, err := e.FilterWithContext(l.ctx, req...)
			c.Logf("filter %s (%s) => %d rules, %v", l.text, showReq(req), len(got), err)
			if err != nil {
				c.Failf("filter %s: unexpected error %v", l.text, err)
			}
			c.Eval()
			c.Count("long-lived matcher compared")
			if ruleSet(got) != ruleSet(want) {
				c.Failf("long-lived matcher %s (%s) returned\n%s\nexpected\n%s", l.text, showReq(req), ruleSet(got), ruleSet(want))
			}
			c.keep("FilterWithContext", got...)
		}
		if got := listRules(e); ruleSet(got) != ruleSet(st.All()) {
			c.Failf("stored rules:\n%s\nexpected:\n%s", ruleSet(got), ruleSet(st.All()))
		}
	}
	n := 25 + c.Intn(25)
	for i := 0; i < n; i++ {
		switch k := c.Intn(100); {
		case k < 45:
			s.edit(c, e, st, true, newRule())
		case k < 75:
			all := st.All()
			r := newRule()
			if len(all) > 0 && c.Chance(85) {
				r = all[c.Intn(len(all))]
			}
			if s.edit(c, e, st, false, r) {
				removed = append(removed, r)
				c.Count("effective removals")
			}
		case k < 79: // remove everything rule by rule
			all := st.All()
			for _, j := range c.R.Perm(len(all)) {
				s.edit(c, e, st, false, all[j])
				removed = append(removed, all[j])
			}
			c.Count("emptied rule by rule")
		case k < 83:
			key := s.PKey
			if len(s.Gs) > 0 && c.Chance(50) {
				key = s.Gs[c.Intn(len(s.Gs))].key
			}
			removed = append(removed, st.Rules(key)...)
			st.Clear(key)
			if err := e.GetModel().ClearPolicy(key); err != nil {
				c.Failf("clear %s: %v", key, err)
			}
			c.Logf("clear %s", key)
			c.Count("cleared")
		case k < 87: // save, clear, load again
			ad.rules = nil
			if err := e.SavePolicy(); err != nil {
				c.Failf("save: %v", err)
			}
			if c.Chance(70) {
				for _, key := range append([]string{s.PKey}, gKeys(s)...) {
					if err := e.GetModel().ClearPolicy(key); err != nil {
						c.Failf("clear %s: %v", key, err)
					}
				}
			}
			if err := e.LoadPolicy(); err != nil {
				c.Failf("load: %v", err)
			}
			c.Logf("reload")
			c.Count("reloaded")
		case k < 90:
			rules := [][]string{}
			for j := 0; j < 3; j++ {
				r := newRule()
				rules = append(rules, r)
			}
			var err error
			if c.Chance(50) {
				err = e.AddRules(rules)
				for _, r := range rules {
					st.Add(r)
				}
			} else {
				err = e.RemoveRules(rules)
				for _, r := range rules {
					st.Remove(r)
				}
			}
			if err != nil {
				c.Failf("batch: %v", err)
			}
			c.Logf("batch %q", rules)
		case k < 93 && len(views) < 4:
			addView()
		case k < 96:
			s.visitors(c, e, st, newRule)
			check()
		default:
			check()
		}
	}
	check()

	// a fresh enforcer with the surviving rules, inserted in any order
	f := s.newEnforcer(c)
	all := st.All()
	for _, j := range c.R.Perm(len(all)) {
		if ok, err := f.AddRule(append([]string{}, all[j]...)); !ok || err != nil {
			c.Failf("fresh enforcer: add %q => %v %v", all[j], ok, err)
		}
	}
	for i := 0; i < 6; i++ {
		if ips && len(st.rules[s.PKey]) == 0 {
			break
		}
		req := s.requestNear(c, st, s.genRequest(c))
		a, err1 := e.Enforce(req...)
		b, err2 := f.Enforce(req...)
		c.Eval()
		c.Distinct(s.MText, ruleSet(all), showReq(req))
		if a != b || (err1 == nil) != (err2 == nil) {
			c.Failf("request (%s): long-lived enforcer %v %v, fresh enforcer %v %v\nmatcher %s\nrules\n%s", showReq(req), a, err1, b, err2, s.MText, ruleSet(all))
		}
		x, _ := e.Filter(req...)
		y, _ := f.Filter(req...)
		if ruleSet(x) != ruleSet(y) {
			c.Failf("request (%s): long-lived enforcer filters\n%s\nfresh enforcer\n%s\nmatcher %s", showReq(req), ruleSet(x), ruleSet(y), s.MText)
		}
	}
	c.CountN("surviving rules", len(all))
	c.Sample("matcher %s; %d operations; surviving rules %s", s.MText, n, trim(ruleSet(all), 300))
}

// visitors adds rules that cannot be evaluated, sends requests and removes the rules again.
func (s *Scen) visitors(c *C, e *fastac.Enforcer, st *Store, newRule func() []string) {
	rules := [][]string{}
	for i, n := 0, 1+c.Intn(3); i < n; i++ {
		r := append([]string{}, s.genRule(c)...)
		if all := st.Rules(s.PKey); len(all) > 0 && c.Chance(70) {
			r = append([]string{}, all[c.Intn(len(all))]...)
		}
		switch c.Intn(4) {
		case 0, 1: // too short
			r = r[:1+c.Intn(len(r)-1)]
		case 2: // too long
			for j := 0; j <= c.Intn(3); j++ {
				r = append(r, c.Pick(s.names))
			}
		case 3: // invalid patterns
			for j := 1; j < len(r); j++ {
				if k := s.PCats[j-1]; k == cRegex || k == cGlob || k == cIP || c.Chance(20) {
					r[j] = []string{"(", "[", "10.0.0.0/99", "\\"}[c.Intn(4)]
				}
			}
		}
		if st.Has(r) {
			continue
		}
		ok, err := e.AddRule(append([]string{}, r...))
		c.Logf("add visitor %q => %v %v", r, ok, err)
		if err != nil {
			continue // rejected
		}
		dup := false
		for _, o := range rules {
			dup = dup || rkey(o) == rkey(r)
		}
		if ok == dup {
			c.Failf("add %q returned %v", r, ok)
		}
		if ok {
			rules = append(rules, r)
		}
	}
	for i := 0; i < 2; i++ {
		req := s.requestNear(c, st, s.genRequest(c))
		if ok, err := e.Enforce(req...); ok && err != nil {
			c.Failf("request (%s) is allowed together with the error %v", showReq(req), err)
		}
		_, _ = e.Filter(req...)
	}
	if c.Chance(30) {
		r := newRule()
		for _, o := range rules {
			if rkey(o) == rkey(r) {
				r = nil
				break
			}
		}
		if r != nil {
			s.edit(c, e, st, true, r)
		}
	}
	for _, j := range c.R.Perm(len(rules)) {
		if st.Has(rules[j]) {
			continue // added in the meantime
		}
		ok, err := e.RemoveRule(append([]string{}, rules[j]...))
		c.Logf("remove visitor %q => %v %v", rules[j], ok, err)
		if !ok || err != nil {
			c.Failf("remove %q returned %v %v", rules[j], ok, err)
		}
		c.Count("rules that cannot be evaluated, removed again")
	}
}

func gKeys(s *Scen) []string {
	res := []string{}
	for _, g := range s.Gs {
		res = append(res, g.key)
	}
	return res
}

func init() {
	register(&Check{ID: "C03", Level: "exploration", Quick: 13500, Full: 120000, Run: runC03,
		Rule:   "random models as in C01 and histories of 25-50 additions, removals, clears, save/clear/load cycles and batches over rules that share fields; decisions, long-lived matchers and listings compared with the reference after random steps and with a fresh enforcer at the end. Non-trivial: distinct (matcher, surviving rules, request).",
		Assume: []string{"the reference evaluator of the harness implements the operators of the matcher language as documented by govaluate"}})
}
