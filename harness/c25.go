package main

import (
	"fmt"
	"path"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/fm"
)

var tenantFns = []string{"startsWith", "sameLen", "regexMatch", "globMatch", "pathMatch", "pathMatch2"}

func refFn(name, a, b string) bool {
	switch name {
	case "startsWith":
		return strings.HasPrefix(a, b)
	case "sameLen":
		return len(a) == len(b)
	case "regexMatch":
		return regexp.MustCompile(b).MatchString(a)
	case "globMatch":
		ok, _ := path.Match(b, a)
		return ok
	case "pathMatch":
		return refPathMatch(a, b, 1)
	case "pathMatch2":
		return refPathMatch(a, b, 2)
	}
	panic("harness: " + name)
}

func fnVariant(v int, name, a, b string) bool {
	switch v {
	case 0:
		return refFn(name, a, b)
	case 1:
		return !refFn(name, a, b)
	case 2:
		return true
	}
	return a == b
}

// tenant is an enforcer with its own reference.
type tenant struct {
	id      int
	s       *Scen
	e       *fastac.Enforcer
	m       *model.Model
	st      *Store
	variant map[string]int // replaced functions
	removed map[string]bool
	calls   int64 // of functions that were registered with this tenant
	foreign *int64
}

func newTenant(c *C, id int, s Scen) *tenant {
	t := &tenant{id: id, s: &s, st: newStore(), variant: map[string]int{}, removed: map[string]bool{}}
	t.s.fn = func(name string, args []string) (bool, bool) {
		v, ok := t.variant[name]
		if !ok || len(args) != 2 {
			return false, false
		}
		return fnVariant(v, name, args[0], args[1]), true
	}
	t.e = t.s.newEnforcer(c)
	t.m = t.e.GetModel().(*model.Model)
	return t
}

func (t *tenant) mentionsRemoved(text string) bool {
	text = stripLits(text)
	for f := range t.removed {
		if strings.Contains(text, f+"(") {
			return true
		}
	}
	return false
}

func (t *tenant) act(c *C, shared *sharedDefs) {
	s := t.s
	switch k := c.Intn(100); {
	case k < 45:
		rule := s.genRule(c)
		if len(s.Gs) > 0 && c.Chance(35) {
			rule = s.genLink(c)
		}
		add := c.Chance(70)
		if all := t.st.All(); !add && len(all) > 0 && c.Chance(80) {
			rule = all[c.Intn(len(all))]
		}
		c.Logf("tenant %d", t.id)
		s.edit(c, t.e, t.st, add, rule)
	case k < 62:
		f, v := c.Pick(tenantFns), 1+c.Intn(3)
		t.variant[f] = v
		delete(t.removed, f)
		c.Logf("tenant %d: %s is replaced by variant %d", t.id, f, v)
		t.m.SetFunction(f, func(a ...interface{}) (interface{}, error) {
			atomic.AddInt64(&t.calls, 1)
			return fnVariant(v, f, a[0].(string), a[1].(string)), nil
		})
		c.Count("functions replaced")
	case k < 70:
		f := c.Pick(tenantFns)
		c.Logf("tenant %d: %s is removed", t.id, f)
		if ok := t.m.RemoveFunction(f); ok == t.removed[f] {
			c.Failf("tenant %d: RemoveFunction(%s) returned %v", t.id, f, ok)
		}
		t.removed[f] = true
		delete(t.variant, f)
		c.Count("functions removed")
	case k < 80:
		e := s.genBool(c, 1+c.Intn(4))
		text := render(c, e)
		if t.mentionsRemoved(text) {
			return
		}
		c.Logf("tenant %d: matcher %s", t.id, text)
		if err := t.m.SetDef(model.M_SEC, "m", text); err != nil {
			c.Failf("tenant %d: %v", t.id, err)
		}
		if err := t.m.BuildMatcher("m"); err != nil {
			c.Failf("tenant %d: %v", t.id, err)
		}
		s.M, s.MText = e, text
		c.Count("matchers replaced")
	case k < 86:
		s.Effect = c.Intn(3)
		c.Logf("tenant %d: effect %d", t.id, s.Effect)
		if err := t.m.SetDef(model.E_SEC, "e", effects[s.Effect]); err != nil {
			c.Failf("%v", err)
		}
		c.Count("effects replaced")
	case k < 92:
		if err := t.m.ClearPolicy(s.PKey); err != nil {
			c.Failf("%v", err)
		}
		t.st.Clear(s.PKey)
		c.Logf("tenant %d: cleared", t.id)
	default:
		_, _ = t.e.Enforce(append([]interface{}{fastac.SetMatcher(render(c, s.genBool(c, 3))), fastac.SetEffector(effects[c.Intn(3)])}, s.genRequest(c)...)...)
		_, _ = t.e.Filter(fastac.SetMatcher("p."+s.PArgs[0]+" =="), 1)
	}
}

func (t *tenant) judge(c *C, n int) {
	s := t.s
	for i := 0; i < n; i++ {
		req := s.requestNear(c, t.st, s.genRequest(c))
		ok, err := t.e.Enforce(req...)
		if t.mentionsRemoved(s.MText) {
			if ok && err != nil {
				c.Failf("tenant %d: allowed with error %v", t.id, err)
			}
			c.Count("requests with a removed function")
			if r, err := t.e.Enforce(append([]interface{}{fastac.SetMatcher(s.MText)}, req...)...); r || err == nil {
				c.Failf("tenant %d: a matcher with a removed function yields %v %v: %s", t.id, r, err, s.MText)
			}
			continue
		}
		if want := s.Decide(t.st, req); err != nil || ok != want {
			c.Failf("tenant %d, matcher %s, functions %v, request (%s): %v %v, on its own %v\nrules:\n%s", t.id, s.MText, t.variant, showReq(req), ok, err, want, ruleSet(t.st.All()))
		}
		c.Eval()
		c.Distinct(t.id, s.MText, ruleSet(t.st.All()), showReq(req), fmt.Sprint(t.variant))
	}
	if c.Chance(20) {
		if got := ruleSet(listRules(t.e)); got != ruleSet(t.st.All()) {
			c.Failf("tenant %d has the rules\n%s\nexpected\n%s", t.id, got, ruleSet(t.st.All()))
		}
	}
}

// sharedDefs are definition objects that requests of several tenants use.
type sharedDefs struct {
	s    *Scen
	m    *defs.MatcherDef
	r    *defs.RequestDef
	e    *defs.EffectDef
	expr Expr
	text string
	eff  int
}

func newSharedDefs(c *C, s *Scen) *sharedDefs {
	sd := &sharedDefs{s: s, expr: s.genBool(c, 1+c.Intn(4)), eff: c.Intn(3)}
	sd.text = render(c, sd.expr)
	sd.m = defs.NewMatcherDef("m", sd.text)
	sd.r = defs.NewRequestDef(s.RKey, strings.Join(s.RArgs, ", "))
	sd.e = defs.NewEffectDef("e", effects[sd.eff])
	return sd
}

// ask uses the shared objects with a tenant of the same scenario.
func (sd *sharedDefs) ask(c *C, t *tenant) {
	req := t.s.requestNear(c, t.st, t.s.genRequest(c))
	opts := []interface{}{fastac.SetMatcher(sd.m), fastac.SetRequestDef(sd.r), fastac.SetEffector(sd.e)}
	if c.Chance(40) {
		opts = []interface{}{fastac.SetMatcher(sd.text), fastac.SetEffector(effects[sd.eff])}
		c.Count("requests with shared texts")
	}
	ok, err := t.e.Enforce(append(opts, req...)...)
	if t.mentionsRemoved(sd.m.String()) {
		if ok || err == nil {
			c.Failf("tenant %d: %v %v with a removed function in %s", t.id, ok, err, sd.m)
		}
		return
	}
	if want := t.s.decideWith(t.st, sd.expr, sd.eff, req); err != nil || ok != want {
		c.Failf("tenant %d, shared definition %s, functions %v, request (%s): %v %v, on its own %v", t.id, sd.m, t.variant, showReq(req), ok, err, want)
	}
	c.Eval()
	c.Count("requests with shared definition objects")
}

func (c *C) sub(i int) *C {
	return &C{ID: c.ID, Tier: c.Tier, Seed: c.Seed, Idx: c.Idx, R: caseRand(fmt.Sprint(c.ID, "/sub", i), c.Seed, c.Idx), st: c.st, dir: c.dir}
}

// parallel runs one goroutine per function and reports the first failure.
func parallel(c *C, n int, f func(c *C, i int)) {
	var wg sync.WaitGroup
	type res struct {
		c *C
		r interface{}
	}
	fails := make(chan res, n)
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		sc := c.sub(i)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fails <- res{sc, r}
				}
			}()
			<-start
			f(sc, i)
		}(i)
	}
	close(start)
	wg.Wait()
	select {
	case r := <-fails:
		for _, l := range r.c.trace {
			c.Logf("%s", l)
		}
		if f, ok := r.r.(failure); ok {
			c.Failf("%s", f.msg)
		}
		c.Failf("panic: %v", r.r)
	default:
	}
}

func runC25(c *C) {
	switch k := c.Intn(10); {
	case k < 3:
		c25Tenants(c)
	case k < 4:
		c25Eval(c)
	case k < 6:
		c25Concurrent(c)
	case k < 8:
		c25Roles(c)
	case k < 9:
		c25Storage(c)
	default:
		c25Global(c)
	}
}

func c25Scens(c *C, n int) []Scen {
	base := genScen(c, scenOpts{weird: 10, noIP: true, stdKeys: true})
	ss := []Scen{}
	for i := 0; i < n; i++ {
		if i == 0 || c.Chance(65) {
			ss = append(ss, *base)
		} else {
			ss = append(ss, *genScen(c, scenOpts{noIP: true, stdKeys: true}))
		}
	}
	return ss
}

func c25Tenants(c *C) {
	n := 2 + c.Intn(3)
	ss := c25Scens(c, n)
	ts := []*tenant{}
	for i := range ss {
		if i < 2 || c.Chance(50) {
			ts = append(ts, newTenant(c, i, ss[i]))
			c.Logf("tenant %d: %s", i, ss[i].Text())
		}
	}
	sd := newSharedDefs(c, &ss[0])
	for step := 0; step < 24; step++ {
		if len(ts) < 5 && c.Chance(6) { // created while others are in use
			ts = append(ts, newTenant(c, len(ts)+10, ss[c.Intn(len(ss))]))
			c.Logf("new tenant %d", ts[len(ts)-1].id)
		}
		t := ts[c.Intn(len(ts))]
		t.act(c, sd)
		before := []int64{}
		for _, o := range ts {
			before = append(before, atomic.LoadInt64(&o.calls))
		}
		i := c.Intn(len(ts))
		ts[i].judge(c, 1)
		for j, o := range ts {
			if j != i && atomic.LoadInt64(&o.calls) != before[j] {
				c.Failf("a request of tenant %d called a function of tenant %d", ts[i].id, o.id)
			}
		}
		if c.Chance(30) {
			for _, o := range ts {
				o.judge(c, 2)
			}
		}
		if c.Chance(25) {
			for _, o := range ts {
				if strings.Join(o.s.RArgs, ",") == strings.Join(ss[0].RArgs, ",") && strings.Join(o.s.PArgs, ",") == strings.Join(ss[0].PArgs, ",") && fmt.Sprint(o.s.Gs) == fmt.Sprint(ss[0].Gs) {
					sd.ask(c, o)
				}
			}
		}
	}
	for _, o := range ts {
		o.judge(c, 6)
	}
	c.Count("interleaved histories")
	c.Sample("%d enforcers, first matcher %s, functions %v", len(ts), ts[0].s.MText, ts[0].variant)
}

// c25Eval: the same conditions in the rules of several enforcers, which define their functions
// and roles differently.
func c25Eval(c *C) {
	es := newEvalScen(c, false)
	for try := 0; try < 20; try++ { // conditions that mean something else in every tenant
		text := stripLits(strings.Join(es.texts, " "))
		calls := strings.Contains(text, "g(") || strings.Contains(text, "g2(")
		for _, f := range tenantFns {
			calls = calls || strings.Contains(text, f+"(")
		}
		if calls {
			break
		}
		es = newEvalScen(c, false)
	}
	c.Logf("%s", es.Text())
	ts := []*tenant{}
	for i := 0; i < 2+c.Intn(3); i++ {
		t := newTenant(c, i, *es.Scen)
		t.s.edit(c, t.e, t.st, true, es.genRule(c, 0))
		ts = append(ts, t)
	}
	for step := 0; step < 30; step++ {
		t := ts[c.Intn(len(ts))]
		s := t.s
		all := t.st.Rules(s.PKey)
		switch k := c.Intn(10); {
		case k < 3:
			s.edit(c, t.e, t.st, true, es.genRule(c, 0))
		case k < 5 && len(s.Gs) > 0:
			s.edit(c, t.e, t.st, true, s.genLink(c))
		case k < 6 && len(all) > 1:
			s.edit(c, t.e, t.st, false, all[c.Intn(len(all))])
		case k < 7:
			f, v := c.Pick(tenantFns), 1+c.Intn(3)
			t.variant[f] = v
			t.m.SetFunction(f, func(a ...interface{}) (interface{}, error) {
				return fnVariant(v, f, a[0].(string), a[1].(string)), nil
			})
			c.Logf("tenant %d: %s is replaced by variant %d", t.id, f, v)
		}
		// the same request everywhere
		req := s.requestNear(c, t.st, s.genRequest(c))
		for _, j := range c.R.Perm(len(ts)) {
			o := ts[j]
			ok, err := o.e.Enforce(req...)
			if want := o.s.Decide(o.st, req); err != nil || ok != want {
				c.Failf("tenant %d, matcher %s, functions %v, request (%s): %v %v, on its own %v\nrules:\n%s", o.id, o.s.MText, o.variant, showReq(req), ok, err, want, ruleSet(o.st.All()))
			}
			c.Eval()
			c.Distinct(j, o.s.MText, ruleSet(o.st.All()), showReq(req), fmt.Sprint(o.variant))
		}
	}
	c.Count("interleaved histories with conditions in rules")
}

// c25Concurrent: every enforcer is used by one goroutine, which also edits it.
func c25Concurrent(c *C) {
	n := 2 + c.Intn(4)
	ss := c25Scens(c, n)
	doms := c.Chance(50)
	parallel(c, n, func(c *C, i int) {
		t := newTenant(c, i, ss[i])
		for step := 0; step < 10; step++ {
			t.act(c, nil)
			t.judge(c, 2)
		}
		if doms {
			s := newRoleSimFor(c)
			for step := 0; step < 8; step++ {
				s.step(step)
			}
		}
	})
	c.Count("concurrent histories")
}

func newRoleSimFor(c *C) *roleSim {
	rp, dp := roleProfiles[c.Intn(len(roleProfiles))], domProfiles[c.Intn(len(domProfiles))]
	levels := c.Intn(4) - 1
	s := newRoleSim(c, levels, c.Chance(30))
	s.limit = 5 + s.levels
	s.doms = domNames[:2]
	// the same names mean something else in every role manager
	s.names = append([]string{"a1", "/u/1", "dev1"}, roleProfiles[c.Intn(len(roleProfiles))].patterns[:2]...)
	s.names = append(s.names, rp.patterns[0])
	if c.Chance(70) {
		s.setRole(rp.m)
		// patterns of the profile do not match each other, others are plain names
		s.names = append([]string{"a1", "/u/1", "dev1", "b1"}, rp.patterns[:2]...)
	}
	if s.levels > 0 && c.Chance(60) {
		s.doms = append([]string{"x1", "/t/1"}, dp.patterns[:2]...)
		s.setDom(dp.m)
	}
	return s
}

func c25Roles(c *C) {
	sims := []*roleSim{}
	for i := 0; i < 2+c.Intn(2); i++ {
		sims = append(sims, newRoleSimFor(c))
	}
	for i := 0; i < 40; i++ {
		sims[c.Intn(len(sims))].step(i)
	}
	for _, s := range sims {
		s.queries(10)
		s.checkRange()
	}
	c.Count("interleaved role managers")
}

func c25Storage(c *C) {
	sims := []*storeSim{}
	for i := 0; i < 2; i++ {
		sims = append(sims, newStoreSim(c, c.Intn(3), c.Chance(50)))
	}
	for i := 0; i < 40; i++ {
		s := sims[c.Intn(len(sims))]
		switch k := c.Intn(10); {
		case k < 4:
			s.edit(true, s.pick(true))
		case k < 6:
			s.edit(false, s.pick(false))
		case k < 7:
			s.flush()
		case k < 8:
			s.setAuto(c.Chance(50))
		case k < 9:
			rules := [][]string{}
			for j := c.Intn(4); j > 0; j-- {
				rules = append(rules, s.pick(true))
			}
			s.editMany(true, rules)
		default:
			s.setOn(c.Chance(60))
		}
		for _, o := range sims {
			o.check("after an operation of one of two enforcers")
		}
	}
	c.Count("interleaved storages")
}

// c25Global: global functions are defaults of models that are created later.
func c25Global(c *C) {
	def := func(v int) {
		fm.SetFunction("gfn", func(a ...interface{}) (interface{}, error) {
			return fnVariant(v, "sameLen", a[0].(string), a[1].(string)), nil
		})
	}
	type late struct {
		e *fastac.Enforcer
		v int // -1: removed
	}
	ls := []*late{}
	v := c.Intn(4)
	def(v)
	for i := 0; i < 12; i++ {
		switch c.Intn(4) {
		case 0:
			v = c.Intn(4)
			def(v)
			c.Logf("global variant %d", v)
		case 1:
			m := model.NewModel()
			if err := m.LoadModelFromText(modelText("r", []string{"a", "b"}, "p", []string{"x"}, nil, "e", effects[0], "m", "gfn(r.a, p.x) && r.b == \"\"")); err != nil {
				c.Failf("%v", err)
			}
			e, _ := fastac.NewEnforcer(m, nil)
			mustEdit(c, e.AddRule, []string{"p", "bob"})
			ls = append(ls, &late{e, v})
		case 2:
			if len(ls) > 0 {
				l := ls[c.Intn(len(ls))]
				own := c.Intn(4)
				l.v = own
				l.e.GetModel().SetFunction("gfn", func(a ...interface{}) (interface{}, error) {
					return fnVariant(own, "sameLen", a[0].(string), a[1].(string)), nil
				})
			}
		case 3:
			if len(ls) > 0 && c.Chance(40) {
				l := ls[c.Intn(len(ls))]
				l.e.GetModel().RemoveFunction("gfn")
				l.v = -1
			}
		}
		for j, l := range ls {
			for _, a := range []string{"bob", "eve", "alice"} {
				ok, err := l.e.Enforce(a, "")
				if l.v < 0 {
					if ok || err == nil {
						c.Failf("model %d: %v %v with a removed function", j, ok, err)
					}
				} else if err != nil || ok != fnVariant(l.v, "sameLen", a, "bob") {
					c.Failf("model %d: gfn(%q, bob) = %v %v, expected variant %d", j, a, ok, err, l.v)
				}
				c.Eval()
				c.Distinct("global", i, j, l.v, a)
			}
		}
	}
	c.Count("global functions")
}

func init() {
	register(&Check{
		ID: "C25", Level: "exploration", Quick: 1200, Full: 30000, Race: true,
		Rule:   "2-5 enforcers with equal or different models and their own references: rules, functions (also built-in ones), matchers and effects are replaced and removed in one of them and all are judged; definition objects shared by requests of several models; role managers with different matchers and enforcers with storages interleaved; enforcers created and edited by concurrent goroutines (one each) under the race detector; global functions; non-trivial: distinct (enforcer, matcher, functions, rules, request)",
		Run:    runC25,
		Assume: []string{"enforcers that are given the same model object share it on purpose", "global functions are registered while no model is created"},
	})
}
