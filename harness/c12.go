package main

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/rbac"
)

type ask struct {
	what string
	run  func(t *c12Target) string
}

type c12Target struct {
	e  *fastac.Enforcer
	rm rbac.IRoleManager
	// contexts that are shared by all goroutines
	ctx []*fastac.Context
}

func sorted(s []string) string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return fmt.Sprintf("%q", s)
}

func dedup(s []string) []string {
	res, seen := []string{}, map[string]bool{}
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			res = append(res, x)
		}
	}
	return res
}

// c12Roles returns questions about roles
func c12Roles(c *C, names, doms []string, levels, n int) []ask {
	res := []ask{}
	for i := 0; i < n; i++ {
		a, b := c.Pick(names), c.Pick(names)
		if c.Chance(20) {
			a = fmt.Sprint(c.Pick([]string{"ghost", "/u/", "a", "dev", "ops"}), c.Intn(40))
		}
		if c.Chance(15) {
			b = fmt.Sprint(c.Pick([]string{"ghost", "/u/", "b", "dev", "ops"}), c.Intn(40))
		}
		p := []string{}
		for j := c.Intn(levels + 1); j > 0; j-- {
			if c.Chance(25) {
				p = append(p, fmt.Sprint(c.Pick([]string{"x", "/t/", "y", "nowhere"}), c.Intn(40)))
			} else {
				p = append(p, c.Pick(doms))
			}
		}
		switch c.Intn(6) {
		case 0, 1, 2:
			res = append(res, ask{fmt.Sprintf("HasLink(%q, %q, %q)", a, b, p), func(t *c12Target) string {
				ok, err := t.rm.HasLink(a, b, p...)
				return fmt.Sprint(ok, err)
			}})
		case 3:
			res = append(res, ask{fmt.Sprintf("GetRoles(%q, %q)", a, p), func(t *c12Target) string {
				r, err := t.rm.GetRoles(a, p...)
				return fmt.Sprint(sorted(dedup(r)), err)
			}})
		case 4:
			res = append(res, ask{fmt.Sprintf("GetUsers(%q, %q)", a, p), func(t *c12Target) string {
				r, err := t.rm.GetUsers(a, p...)
				return fmt.Sprint(sorted(dedup(r)), err)
			}})
		case 5:
			res = append(res, ask{fmt.Sprintf("GetDomains(%q), Range", a), func(t *c12Target) string {
				out := []string{}
				t.rm.Range(func(x, y string, d ...string) bool {
					out = append(out, fmt.Sprintf("%q %q %q", x, y, d))
					return true
				})
				dom, all := []string{}, []string{}
				if dl, ok := t.rm.(domainLister); ok {
					dom, _ = dl.GetDomains(a)
					all, _ = dl.GetAllDomains()
				}
				return sorted(out) + sorted(dom) + sorted(all)
			}})
		}
	}
	return res
}

var c12Matchers = []string{
	"g(r.sub, p.sub, r.dom) && pathMatch(r.obj, p.obj) && eval(p.cond)",
	"regexMatch(r.obj, p.obj) || globMatch(r.obj, p.obj) && g(r.sub, p.sub, r.dom)",
	"pathMatch2(r.obj, p.obj) && (g(r.sub, p.sub, r.dom) || regexMatch(r.sub, p.sub))",
	"(g(r.sub, p.sub, r.dom) || r.sub == p.sub) && slow(r.dom, p.dom) && eval(p.cond)",
	"eval(p.cond) && regexMatch(r.obj, p.obj) && g(r.sub, p.sub, r.dom)",
	"r.sub == \"root\" || slow(r.obj, p.obj) && eval(p.cond) || g(r.sub, p.sub, r.dom) && r.who.Age > 20",
}

var c12Conds = []string{"r.who.Age > 18", "r.who.Age < 60 && r.obj != \"/u/1\"", "true", "g(r.sub, \"adm\", r.dom)", "p.obj == r.obj", "r.who.Admin", "slow(r.dom, p.dom)", "p.sub == r.sub || r.who.Owner.Name == r.sub"}

func runC12(c *C) {
	rp := roleProfiles[1+c.Intn(3)]
	dp := domProfiles[3]
	names := append(append([]string{}, rp.names[:4]...), "adm", "root")
	names = append(names, rp.patterns[:1+c.Intn(len(rp.patterns))]...)
	doms := append([]string{"x1", "x2", "y1"}, dp.patterns[:2]...)
	roleM, domM := c.Chance(60), c.Chance(60)
	onlyRoles := c.Chance(25)
	levels := 1
	var asks []ask
	var build func() *c12Target
	if onlyRoles {
		levels = c.Intn(3)
		links := []link{}
		for i := 0; i < 12+c.Intn(12); i++ {
			l := link{c.Pick(names), c.Pick(names), nil}
			for j := c.Intn(levels + 1); j > 0; j-- {
				l.doms = append(l.doms, c.Pick(doms))
			}
			links = append(links, l)
		}
		build = func() *c12Target {
			var rm rbac.IRoleManager = rbac.NewRoleManager(10)
			if levels > 0 {
				rm = rbac.NewDomainManager(10)
			}
			if roleM {
				rm.(rbac.IDefaultRoleManager).SetMatcher(rp.m)
			}
			if domM {
				rm.(rbac.IDefaultRoleManager).SetDomainMatcher(dp.m)
			}
			for _, l := range links {
				if _, err := rm.AddLink(l.a, l.b, l.doms...); err != nil {
					c.Failf("%v", err)
				}
			}
			return &c12Target{rm: rm}
		}
		asks = c12Roles(c, names, doms, levels, 24)
		c.Count("targets: role manager")
	} else {
		mt := c12Matchers[c.Intn(len(c12Matchers))]
		effect := effects[c.Intn(3)]
		rules := [][]string{}
		fresh := fmt.Sprintf("%d_%d", c.Idx, c.Intn(1000)) // values that never occurred before
		objs := []string{"/u/1", "/u/*", "/r/:id", "/r/2"}
		if c.Chance(60) {
			objs = append(objs, "/u/"+fresh, "/u/"+fresh+".*", "/"+fresh+"/:id", "^/u/"+fresh)
		}
		for i := 0; i < 3+c.Intn(8); i++ {
			cond := c.Pick(c12Conds)
			rules = append(rules, []string{"p", c.Pick(names), c.Pick(objs), c.Pick(doms), cond, c.Pick([]string{"allow", "allow", "deny", ""})})
		}
		for i := 0; i < 4+c.Intn(8); i++ {
			rules = append(rules, []string{"g", c.Pick(names), c.Pick(names), c.Pick(doms)})
		}
		longLived := "g(r.sub, p.sub, r.dom) && p.obj != \"-\" && eval(p.cond)"
		build = func() *c12Target {
			m := model.NewModel()
			m.SetFunction("slow", func(a ...interface{}) (interface{}, error) {
				runtime.Gosched()
				return a[0] == a[1], nil
			})
			set := func(sec byte, key, val string) {
				if err := m.SetDef(sec, key, val); err != nil {
					c.Failf("%v", err)
				}
			}
			set(model.R_SEC, "r", "sub, obj, dom, who")
			set(model.R_SEC, "r2", "sub, dom")
			set(model.P_SEC, "p", "sub, obj, dom, cond, eft")
			set(model.G_SEC, "g", "_, _, _")
			set(model.E_SEC, "e", effect)
			set(model.E_SEC, "e2", effects[1])
			set(model.M_SEC, "m", mt)
			set(model.M_SEC, "m2", "r2.sub == p.sub && r2.dom == p.dom")
			if err := m.BuildMatchers(); err != nil {
				c.Failf("%v", err)
			}
			rm, _ := m.GetRoleManager("g")
			if roleM {
				rm.(rbac.IDefaultRoleManager).SetMatcher(rp.m)
			}
			if domM {
				rm.(rbac.IDefaultRoleManager).SetDomainMatcher(dp.m)
			}
			e, err := fastac.NewEnforcer(m, nil)
			if err != nil {
				c.Failf("%v", err)
			}
			for _, r := range rules {
				if _, err := e.AddRule(r); err != nil {
					c.Failf("%v", err)
				}
			}
			t := &c12Target{e: e, rm: rm}
			for _, o := range [][]fastac.ContextOption{nil, {fastac.SetMatcher(longLived)}, {fastac.SetEffector("e2")}} {
				ctx, err := fastac.NewContext(m, o...)
				if err != nil {
					c.Failf("%v", err)
				}
				t.ctx = append(t.ctx, ctx)
			}
			return t
		}
		show := func(res [][]string, err error) string { return fmt.Sprint(ruleSet(res), errText(err)) }
		for i := 0; i < 24; i++ {
			dom := c.Pick(doms)
			if c.Chance(20) {
				dom = fmt.Sprint("x", c.Intn(200))
			}
			sub := c.Pick(names)
			if c.Chance(25) {
				sub = fmt.Sprint(c.Pick([]string{"ghost", "/u/", "dev"}), c.Intn(200))
			}
			req := []interface{}{sub, c.Pick(objs), dom, Attr{Name: sub, Age: float64(10 + 10*c.Intn(7)), Admin: c.Chance(50), Owner: Person{Name: c.Pick(names)}}}
			what := showReq(req)
			if c.Chance(8) { // whether a rule grants before another one fails is a matter of order
				short := req[:2]
				asks = append(asks, ask{"incomplete " + what, func(t *c12Target) string {
					_, _ = t.e.Enforce(short...)
					_, _ = t.e.Filter(short...)
					_, _ = t.e.Filter(append([]interface{}{fastac.SetMatcher("p.sub == r.sub && unknown(p.sub)")}, req...)...)
					return "answered"
				}})
			}
			with := func(o ...interface{}) []interface{} { return append(append([]interface{}{}, req...), o...) }
			switch k := c.Intn(13); k {
			case 0, 1, 2, 3:
				asks = append(asks, ask{"enforce " + what, func(t *c12Target) string {
					ok, err := t.e.Enforce(req...)
					return fmt.Sprint(ok, errText(err))
				}})
			case 4:
				asks = append(asks, ask{"filter " + what, func(t *c12Target) string { return show(t.e.Filter(req...)) }})
			case 5:
				mt := c.Pick([]string{"g(r.sub, p.sub, r.dom)", "p.sub == r.sub && eval(p.cond)", "p.eft == \"deny\"", "p.sub ==", "g.role == r.sub", "g.domain == r.dom && slow(g.user, r.sub)", "regexMatch(p.obj, \"^/u/" + fresh + "\")", "pathMatch(r.obj, p.obj) || pathMatch2(\"/x/" + fresh + "\", p.obj) || globMatch(r.obj, \"*" + fresh + "\")", "p.obj =~ \"" + fresh + "\" || ipMatch(\"10.0.0.1\", \"10.0.0.0/8\")"})
				asks = append(asks, ask{"filter " + mt + " " + what, func(t *c12Target) string { return show(t.e.Filter(with(fastac.SetMatcher(mt))...)) }})
			case 6:
				asks = append(asks, ask{"enforce r2 m2 e2 " + what, func(t *c12Target) string {
					ok, err := t.e.Enforce(fastac.SetRequestDef("r2"), fastac.SetMatcher("m2"), fastac.SetEffector("e2"), sub, dom)
					return fmt.Sprint(ok, errText(err))
				}})
			case 7, 8:
				j := c.Intn(3)
				asks = append(asks, ask{fmt.Sprint("shared context ", j, what), func(t *c12Target) string {
					ok, err := t.e.EnforceWithContext(t.ctx[j], req...)
					return fmt.Sprint(ok, errText(err), show(t.e.FilterWithContext(t.ctx[j], req...)))
				}})
			case 9:
				asks = append(asks, ask{"listing", func(t *c12Target) string { return ruleSet(listRules(t.e)) + t.e.GetModel().String() }})
			case 10:
				asks = append(asks, ask{"ad-hoc definitions " + what, func(t *c12Target) string {
					ok, err := t.e.Enforce(with(fastac.SetRequestDef(defs.NewRequestDef("r", "sub, obj, dom, who")), fastac.SetMatcher("r.sub == p.sub && eval(p.cond)"), fastac.SetEffector(effects[0]))...)
					return fmt.Sprint(ok, errText(err))
				}})
			case 12:
				md, rd, ed := defs.NewMatcherDef("", c.Pick(c12Matchers)), defs.NewRequestDef("r", "sub, obj, dom, who"), defs.NewEffectDef("", effects[c.Intn(3)])
				asks = append(asks, ask{"shared definition objects " + what, func(t *c12Target) string {
					ok, err := t.e.Enforce(with(fastac.SetRequestDef(rd), fastac.SetMatcher(md), fastac.SetEffector(ed))...)
					return fmt.Sprint(ok, errText(err))
				}})
			case 11:
				n := c.Intn(3)
				asks = append(asks, ask{"early stop " + what, func(t *c12Target) string {
					k := 0
					_ = t.e.RangeMatches(with(), func([]string) bool { k++; return k <= n })
					return "stopped" // the order of the rules is not determined
				}})
			}
		}
		asks = append(asks, c12Roles(c, names, doms, 1, 8)...)
		c.Count("targets: enforcer")
	}

	// cold: nothing of what is asked was asked before in this process
	cold := c.Chance(50)
	want := make([]string, len(asks))
	askAlone := func() {
		alone := build()
		for i, q := range asks {
			want[i] = q.run(alone)
		}
	}
	if !cold {
		askAlone()
	}
	t := build()
	type answer struct {
		i   int
		got string
	}
	answers := make([][]answer, 16)
	workers := 4 + c.Intn(5)
	perm := [][]int{}
	for w := 0; w < workers; w++ {
		p := append(c.R.Perm(len(asks)), c.R.Perm(len(asks))...)
		if c.Chance(25) {
			p = append(p, p...)
		}
		perm = append(perm, p)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	var inside, maxInside, overlaps int64
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					bad = fmt.Sprintf("panic: %v", r)
					mu.Unlock()
				}
			}()
			<-start
			for k, i := range perm[w] {
				if (k+w)%5 == 0 {
					runtime.Gosched()
				}
				n := atomic.AddInt64(&inside, 1)
				if n > 1 {
					atomic.AddInt64(&overlaps, 1)
				}
				for {
					m := atomic.LoadInt64(&maxInside)
					if n <= m || atomic.CompareAndSwapInt64(&maxInside, m, n) {
						break
					}
				}
				got := asks[i].run(t)
				atomic.AddInt64(&inside, -1)
				if cold {
					answers[w] = append(answers[w], answer{i, got})
				} else if got != want[i] {
					mu.Lock()
					if bad == "" {
						bad = fmt.Sprintf("%s\nanswer among other queries: %s\nanswer alone:               %s", asks[i].what, got, want[i])
					}
					mu.Unlock()
					return
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	if cold {
		c.Count("cold runs")
		askAlone()
		for _, as := range answers {
			for _, a := range as {
				if a.got != want[a.i] && bad == "" {
					bad = fmt.Sprintf("%s\nanswer among other queries: %s\nanswer alone, afterwards:    %s", asks[a.i].what, a.got, want[a.i])
				}
			}
		}
	}
	if bad != "" {
		c.Failf("%s", bad)
	}
	total := 0
	for w := range perm {
		total += len(perm[w])
	}
	for i := range asks {
		c.Distinct(asks[i].what, want[i])
	}
	c.st.mu.Lock()
	c.st.Evals += int64(total)
	c.st.mu.Unlock()
	c.CountN("calls compared", total)
	c.CountN("calls that overlapped another call", int(overlaps))
	c.Count(fmt.Sprintf("most calls at the same time: %d", maxInside))
	// nothing is left behind
	for i, q := range asks {
		if got := q.run(t); got != want[i] {
			c.Failf("%s\nanswer after the concurrent queries: %s\nanswer before: %s", q.what, got, want[i])
		}
	}
	c.Sample("%d goroutines, %d questions, e.g. %s => %s", workers, len(asks), asks[0].what, trim(want[0], 200))
}

// errText keeps only the fact: which of several failing rules is reported
// depends on the order of evaluation.
func errText(err error) string {
	if err == nil {
		return ""
	}
	return " error"
}

func init() {
	register(&Check{ID: "C12", Level: "exploration", Quick: 400, Full: 8000, Race: true, Run: runC12,
		Rule:   "enforcers and role managers with role patterns, domain patterns, eval() rules, several definitions and functions that yield; 4-8 goroutines issue 24-32 different questions (requests, filters, shared and ad-hoc contexts, invalid input, listings, role queries, unknown names) in different orders under the race detector; every answer is compared with the answer of a twin that was asked sequentially. Non-trivial: distinct (question, answer); overlapping calls are counted.",
		Assume: []string{"which of several errors is reported is not determined"}})
}
