package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
	em "github.com/vansante/go-event-emitter"
)

// view is everything a user can observe of a role manager.
func rmView(c *C, rm rbac.IRoleManager, names []string, paths [][]string) string {
	out := []string{}
	rm.Range(func(a, b string, doms ...string) bool {
		out = append(out, "link "+link{a, b, doms}.key())
		return true
	})
	sort.Strings(out)
	for _, p := range paths {
		for _, a := range names {
			bits := ""
			for _, b := range names {
				ok, err := rm.HasLink(a, b, p...)
				if err != nil {
					c.Failf("HasLink(%q, %q, %q): %v", a, b, p, err)
				}
				bits += map[bool]string{true: "1", false: "0"}[ok]
			}
			roles, err1 := rm.GetRoles(a, p...)
			users, err2 := rm.GetUsers(a, p...)
			sort.Strings(roles)
			sort.Strings(users)
			out = append(out, fmt.Sprintf("%q %q %s %q %q %v %v", p, a, bits, roles, users, err1, err2))
		}
	}
	if dl, ok := rm.(domainLister); ok {
		all, err := dl.GetAllDomains()
		sort.Strings(all)
		out = append(out, fmt.Sprintf("domains %q %v", all, err))
		for _, a := range names {
			d, err := dl.GetDomains(a)
			sort.Strings(d)
			out = append(out, fmt.Sprintf("domains of %q %q %v", a, d, err))
		}
	}
	return strings.Join(out, "\n")
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var l, r string
		if i < len(x) {
			l = x[i]
		}
		if i < len(y) {
			r = y[i]
		}
		if l != r {
			return fmt.Sprintf("asked before: %s\nnever asked:  %s", l, r)
		}
	}
	return ""
}

// askRM queries a role manager at random, partly with nonsense
func askRM(c *C, rm rbac.IRoleManager, names, doms []string, levels int, deep bool) {
	name := func() string {
		switch {
		case c.Chance(20):
			return c.Pick([]string{"ghost", "", "p'^gh", "/ghost/*", "gh*", "\\", "/u/77", "dev77"})
		}
		return c.Pick(names)
	}
	path := func() []string {
		n := c.Intn(levels + 1)
		if deep && c.Chance(15) {
			n = c.Intn(levels + 2)
		}
		p := []string{}
		for i := 0; i < n; i++ {
			if c.Chance(20) {
				p = append(p, c.Pick([]string{"nowhere", "", "p'^no", "/t/*/x", "no*", "*"}))
			} else {
				p = append(p, c.Pick(doms))
			}
		}
		return p
	}
	for i := 0; i < 4+c.Intn(12); i++ {
		p := path()
		keep := append([]string{}, p...)
		switch c.Intn(7) {
		case 0, 1:
			_, _ = rm.HasLink(name(), name(), p...)
		case 2:
			res, _ := rm.GetRoles(name(), p...)
			for i := range res {
				res[i] = "overwritten"
			}
		case 3:
			res, _ := rm.GetUsers(name(), p...)
			for i := range res {
				res[i] = "overwritten"
			}
		case 4:
			if dl, ok := rm.(domainLister); ok {
				_, _ = dl.GetDomains(name())
				res, _ := dl.GetAllDomains()
				for i := range res {
					res[i] = "overwritten"
				}
			}
		case 5:
			n := c.Intn(4)
			rm.Range(func(a, b string, doms ...string) bool {
				n--
				return n > 0
			})
		case 6: // removing or deleting what is not there
			if ok, _ := rm.DeleteLink("ghost"+name(), "no role", p...); ok {
				c.Failf("removed a link that was never added")
			}
		}
		if !reflect.DeepEqual(p, keep) {
			c.Failf("the domains of the caller changed from %q to %q", keep, p)
		}
		c.Count("role queries in between")
	}
}

func c11Roles(c *C) {
	levels := c.Intn(3)
	mk := func() rbac.IRoleManager {
		if levels == 0 {
			return rbac.NewRoleManager(10)
		}
		return rbac.NewDomainManager(10)
	}
	a, b := mk(), mk()
	names := append([]string{}, graphNames[:4]...)
	doms := []string{"x1", "x2", "y1"}
	var rm, dm util.IMatcher
	if c.Chance(70) {
		p := roleProfiles[c.Intn(len(roleProfiles))]
		rm = p.m
		names = append(append([]string{}, p.names[:3]...), p.patterns...)
	}
	if levels > 0 && c.Chance(70) {
		p := domProfiles[c.Intn(len(domProfiles))]
		dm = p.m
		doms = append(append([]string{}, p.names[:2]...), p.patterns...)
	}
	if rm == nil && dm == nil || c.Chance(30) {
		c.Count("role managers without patterns or patterns set late")
	}
	setAt := c.Intn(12)
	if c.Chance(50) {
		setAt = 0
	}
	links := []link{}
	paths := [][]string{{}}
	for _, d := range doms {
		if levels > 0 {
			paths = append(paths, []string{d})
		}
	}
	if levels > 1 {
		for i := 0; i < 5; i++ {
			paths = append(paths, []string{c.Pick(doms), c.Pick(doms)})
		}
	}
	n := 12 + c.Intn(14)
	for i := 0; i < n; i++ {
		if i == setAt {
			for _, x := range []rbac.IRoleManager{a, b} {
				if rm != nil {
					x.(rbac.IDefaultRoleManager).SetMatcher(rm)
				}
				if dm != nil {
					x.(rbac.IDefaultRoleManager).SetDomainMatcher(dm)
				}
			}
		}
		l := link{c.Pick(names), c.Pick(names), nil}
		for j := c.Intn(levels + 1); j > 0; j-- {
			l.doms = append(l.doms, c.Pick(doms))
		}
		add := c.Chance(65) || len(links) == 0
		var okA, okB bool
		if add {
			okA, _ = a.AddLink(l.a, l.b, append([]string{}, l.doms...)...)
			okB, _ = b.AddLink(l.a, l.b, append([]string{}, l.doms...)...)
			links = append(links, l)
		} else {
			l = links[c.Intn(len(links))]
			okA, _ = a.DeleteLink(l.a, l.b, append([]string{}, l.doms...)...)
			okB, _ = b.DeleteLink(l.a, l.b, append([]string{}, l.doms...)...)
		}
		c.Logf("add=%v %s => %v", add, l.key(), okA)
		c.Eval()
		if okA != okB {
			c.Failf("add=%v %s returned %v after queries, %v without", add, l.key(), okA, okB)
		}
		askRM(c, a, names, doms, levels, levels > 0)
	}
	va := rmView(c, a, names, paths)
	vb := rmView(c, b, names, paths)
	c.Eval()
	c.Count("role manager twins compared")
	c.Distinct(va)
	if va != vb {
		c.Failf("queries changed the role manager:\n%s", firstDiff(va, vb))
	}
	if v := rmView(c, a, names, paths); v != va {
		c.Failf("listing twice differs:\n%s", firstDiff(va, v))
	}
	c.Sample("%d links, %d levels, patterns %v/%v", len(links), levels, rm != nil, dm != nil)
}

// deepCopy copies request values for comparison
func deepShow(v []interface{}) string {
	out := ""
	for _, x := range v {
		if p, ok := x.(*Attr); ok {
			out += fmt.Sprintf("*%#v;", *p)
			continue
		}
		out += fmt.Sprintf("%#v;", x)
	}
	return out
}

func c11Enforcer(c *C) {
	s := genScen(c, scenOpts{weird: 25, minP: 2})
	a, b := s.newEnforcer(c), s.newEnforcer(c)
	ad := &memAdapter{}
	c.Logf("model:\n%s", s.Text())
	text := a.GetModel().String()
	st := newStore()
	events, storage := 0, 0
	for _, ev := range []em.EventType{model.RULE_ADDED, model.RULE_REMOVED} {
		a.GetModel().AddListener(ev, func(args ...interface{}) { events++ })
	}
	rec := &countAdapter{memAdapter: *ad, n: &storage}
	a.SetAdapter(rec)
	_ = a.SetOption(fastac.OptionAutosave(true))

	both := func(add bool, rule []string) {
		before := events
		want := st.Add
		if !add {
			want = st.Remove
		}
		if want(rule) {
			before++
		}
		for _, e := range []*fastac.Enforcer{a, b} {
			var err error
			if add {
				_, err = e.AddRule(append([]string{}, rule...))
			} else {
				_, err = e.RemoveRule(append([]string{}, rule...))
			}
			if err != nil {
				c.Failf("edit %q: %v", rule, err)
			}
		}
		c.Logf("add=%v %q", add, rule)
		if events != before {
			c.Failf("edit %q: %d events, expected %d", rule, events, before)
		}
	}
	junk := func() interface{} {
		switch c.Intn(8) {
		case 0:
			return fastac.SetMatcher("nope")
		case 1:
			return fastac.SetMatcher("p.unknown == 1 &&")
		case 2:
			return fastac.SetMatcher(fmt.Sprintf("%s.%s == %s.nothing", s.PKey, s.PArgs[0], s.RKey))
		case 3:
			return fastac.SetRequestDef("r99")
		case 4:
			return fastac.SetRequestDef(defs.NewRequestDef("r9", "a, b"))
		case 5:
			return fastac.SetEffector("e77")
		case 6:
			return fastac.SetEffector(effects[c.Intn(3)])
		}
		return fastac.SetMatcher(fmt.Sprintf("unknownFn(%s.%s)", s.PKey, s.PArgs[0]))
	}
	ask := func() {
		req := s.requestNear(c, st, s.genRequest(c))
		for i := range req {
			if c.Chance(8) {
				req[i] = []interface{}{"ghost", "", nil, 3, []string{"x", "y"}, map[string]interface{}{"Name": "z"}, &Attr{Name: "q"}}[c.Intn(7)]
			}
		}
		if c.Chance(10) {
			req = req[:c.Intn(len(req)+1)]
		} else if c.Chance(8) {
			req = append(req, "too", "many")
		}
		params := append([]interface{}{}, req...)
		if c.Chance(45) {
			v := s
			if len(s.Gs) > 0 && c.Chance(40) {
				v = s.gView(s.Gs[c.Intn(len(s.Gs))])
			}
			_, mt := v.adhoc(c, 1+c.Intn(4))
			params = append(params, fastac.SetMatcher(mt))
		}
		if c.Chance(20) {
			params = append([]interface{}{junk()}, params...)
		}
		shown := deepShow(req)
		keep := append([]interface{}{}, params...)
		ev, sn := events, storage
		how := ""
		switch c.Intn(9) {
		case 0, 1, 2:
			how = "enforce"
			_, _ = a.Enforce(params...)
		case 3, 4:
			how = "filter"
			res, _ := a.Filter(params...)
			for _, r := range res {
				for i := range r {
					r[i] = "overwritten"
				}
			}
		case 5:
			how = "range"
			n := c.Intn(4)
			_ = a.RangeMatches(params, func(r []string) bool {
				for i := range r {
					r[i] = "overwritten"
				}
				n--
				return n > 0
			})
		case 6:
			how = "listing"
			n := c.Intn(6)
			a.GetModel().RangeRules(func(r []string) bool {
				for i := range r {
					r[i] = "overwritten"
				}
				n--
				return n > 0
			})
		case 7:
			how = "rendering"
			if got := a.GetModel().String(); got != text {
				c.Failf("the model is rendered as\n%s\nit was\n%s", got, text)
			}
			_, _ = a.GetModel().GetDef(byte("rpgem"[c.Intn(5)]), c.Pick([]string{"r", "p", "g", "x", "", "p9"}))
			_, _ = a.GetModel().GetPolicy("p77")
			_, _ = a.GetModel().GetMatcher("m77")
			_, _ = a.GetModel().GetEffector("e77")
			for _, k := range append(gKeys(s), s.PKey) {
				if p, ok := a.GetModel().GetPolicy(k); ok {
					_, _ = policy.GetDistinct(p, []int{0})
				}
			}
		case 8:
			how = "role query"
			for _, g := range s.Gs {
				if rm, ok := a.GetModel().GetRoleManager(g.key); ok {
					askRM(c, rm, s.names, append([]string{"d"}, s.doms...), g.doms, false)
				}
			}
		}
		c.Eval()
		c.Count("asked: " + how)
		if events != ev || storage != sn {
			c.Failf("%s (%s) raised %d events and %d storage operations", how, showReq(req), events-ev, storage-sn)
		}
		if deepShow(req) != shown || len(keep) != len(params) {
			c.Failf("%s changed the request from %s to %s", how, shown, deepShow(req))
		}
	}
	compare := func() {
		la, lb := listRules(a), listRules(b)
		c.Eval()
		if ruleSet(la) != ruleSet(lb) || ruleSet(la) != ruleSet(st.All()) {
			c.Failf("after queries the rules are\n%s\nwithout queries\n%s\nadded\n%s", ruleSet(la), ruleSet(lb), ruleSet(st.All()))
		}
		if a.GetModel().String() != text {
			c.Failf("queries changed the model to\n%s\nfrom\n%s", a.GetModel().String(), text)
		}
		for i := 0; i < 4; i++ {
			req := s.requestNear(c, st, s.genRequest(c))
			x, err1 := a.Enforce(req...)
			y, err2 := b.Enforce(req...)
			c.Eval()
			c.Count("answers compared")
			c.Distinct(s.MText, ruleSet(la), showReq(req))
			if x != y || fmt.Sprint(err1) != fmt.Sprint(err2) {
				c.Failf("request (%s): %v %v after queries, %v %v without", showReq(req), x, err1, y, err2)
			}
			fx, _ := a.Filter(req...)
			fy, _ := b.Filter(req...)
			if ruleSet(fx) != ruleSet(fy) {
				c.Failf("filter (%s):\n%s\nafter queries, without\n%s", showReq(req), ruleSet(fx), ruleSet(fy))
			}
		}
		for _, g := range s.Gs {
			x, _ := a.GetModel().GetRoleManager(g.key)
			y, _ := b.GetModel().GetRoleManager(g.key)
			paths := [][]string{}
			for _, d := range s.doms {
				p := []string{}
				for i := 0; i < g.doms; i++ {
					p = append(p, d)
				}
				paths = append(paths, p)
				if g.doms == 0 {
					break
				}
			}
			vx, vy := rmView(c, x, s.names, paths), rmView(c, y, s.names, paths)
			if vx != vy {
				c.Failf("queries changed the roles:\n%s", firstDiff(vx, vy))
			}
		}
	}
	for i := 0; i < 20; i++ {
		switch k := c.Intn(100); {
		case k < 45 && len(s.Gs) > 0 && c.Chance(45):
			both(true, s.genLink(c))
		case k < 45:
			both(true, s.genRule(c))
		case k < 60 && st.Len() > 0:
			all := st.All()
			both(false, all[c.Intn(len(all))])
		default:
			for j := 0; j < 5; j++ {
				ask()
			}
		}
	}
	for j := 0; j < 10; j++ {
		ask()
	}
	compare()
	c.Sample("matcher %s, %d rules", s.MText, st.Len())
}

// countAdapter counts the storage operations
type countAdapter struct {
	memAdapter
	n *int
}

func (a *countAdapter) AddRule(rule []string) error    { *a.n++; return nil }
func (a *countAdapter) RemoveRule(rule []string) error { *a.n++; return nil }

func runC11(c *C) {
	if c.Idx%3 == 0 {
		c11Roles(c)
	} else {
		c11Enforcer(c)
	}
}

func init() {
	register(&Check{ID: "C11", Level: "exploration", Quick: 4800, Full: 130000, Run: runC11,
		Rule: "twins that receive the same random edits, one of which is also asked many random, partly invalid questions (requests, filters, early stopped iterations, listings, rendering, role queries with unknown names, domains and patterns, ad-hoc matchers, results overwritten by the caller); afterwards rules, rendering, links, domains, direct roles and users, answers of the twins must be equal, no events or storage operations may have occurred and the values of the caller must be unchanged. Non-trivial: distinct (matcher, rules, request) and role manager views."})
}
