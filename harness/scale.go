package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/storage/adapter"
	"github.com/abichinger/fastac/util"
)

// Rare cases with far more rules, names, domains or operations than usual. The
// expected results follow from the way the contents are built, they are not
// derived with the references of the usual cases.

// rare is true in about one of n cases
func (c *C) rare(n int) bool { return c.Intn(n) == 0 }

const scaleModel = `[request_definition]
r = sub, obj
[policy_definition]
p = sub, obj
p2 = sub, obj
[role_definition]
g = _, _
g2 = _, _, _
[policy_effect]
e = some(where (p.eft == allow))
[matchers]
m = r.sub == p.sub && r.obj == p.obj
`

func scaleEnforcer(c *C, text string, adapter interface{}, opts ...fastac.Option) *fastac.Enforcer {
	m := model.NewModel()
	if err := m.LoadModelFromText(text); err != nil {
		c.Failf("%v", err)
	}
	e, err := fastac.NewEnforcer(m, adapter, opts...)
	if err != nil {
		c.Failf("%v", err)
	}
	return e
}

func scaleSize(c *C) int { return []int{120, 260, 515, 1030, 2100, 4200}[c.Intn(6)] + c.Intn(9) }

func sameRules(c *C, what string, got, want [][]string) {
	c.Eval()
	a, b := []string{}, []string{}
	for _, r := range got {
		a = append(a, rkey(r))
	}
	for _, r := range want {
		b = append(b, rkey(r))
	}
	sort.Strings(a)
	sort.Strings(b)
	if len(a) != len(b) {
		c.Failf("%s: %d rules, expected %d", what, len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			c.Failf("%s: %s is there, expected %s (%d rules)", what, a[i], b[i], len(a))
		}
	}
}

func pickRules(rules [][]string, f func(r []string) bool) [][]string {
	res := [][]string{}
	for _, r := range rules {
		if f(r) {
			res = append(res, r)
		}
	}
	return res
}

// scaleC02: filters that match a large part of thousands of rules
func scaleC02(c *C) {
	e := scaleEnforcer(c, scaleModel, nil)
	n, objs := scaleSize(c), 1+c.Intn(4)
	key := []string{"p", "p2", "g"}[c.Intn(3)]
	a0, a1 := key+".sub", key+".obj"
	if key == "g" {
		a0, a1 = "g.user", "g.role"
	}
	rules := [][]string{}
	for i := 0; i < n; i++ {
		rules = append(rules, []string{key, fmt.Sprint("u", i), fmt.Sprint("o", i%objs)})
	}
	if c.Chance(50) {
		for _, r := range rules {
			if _, err := e.AddRule(r); err != nil {
				c.Failf("%v", err)
			}
		}
	} else if err := e.AddRules(rules); err != nil {
		c.Failf("%v", err)
	}
	check := func() {
		obj := fmt.Sprint("o", c.Intn(objs))
		user := fmt.Sprint("u", c.Intn(n))
		for _, q := range []struct {
			text string
			f    func(r []string) bool
		}{
			{a1 + " == '" + obj + "'", func(r []string) bool { return r[2] == obj }},
			{a0 + " != '" + user + "'", func(r []string) bool { return r[1] != user }},
			{a0 + " == '" + user + "' || " + a1 + " == '" + obj + "'", func(r []string) bool { return r[1] == user || r[2] == obj }},
			{a0 + " == '" + user + "'", func(r []string) bool { return r[1] == user }},
			{a0 + " != 'x' && " + a1 + " != '" + obj + "'", func(r []string) bool { return r[2] != obj }},
		} {
			want := pickRules(rules, q.f)
			got, err, how := query(c, e, []interface{}{matcherOption(c, e, q.text)}, nil)
			if err != nil {
				c.Failf("%s %s: %v", how, q.text, err)
			}
			sameRules(c, fmt.Sprintf("%s %s over %d rules", how, q.text, len(rules)), got, want)
			c.CountN("rules returned by large queries", len(got))
			// stop early
			stop, calls := 1+c.Intn(len(want)+1), 0
			if err := e.RangeMatches([]interface{}{fastac.SetMatcher(q.text)}, func([]string) bool { calls++; return calls < stop }); err != nil {
				c.Failf("%v", err)
			}
			if calls != min(stop, len(want)) {
				c.Failf("%s: an iteration stopped after %d rules called %d times", q.text, stop, calls)
			}
		}
	}
	check()
	k := 2 + c.Intn(3)
	gone := [][]string{}
	for i, r := range rules {
		if i%k == 0 {
			gone = append(gone, r)
			if ok, err := e.RemoveRule(r); !ok || err != nil {
				c.Failf("remove %q: %v %v", r, ok, err)
			}
		}
	}
	rules = pickRules(rules, func(r []string) bool { return (atoi(r[1][1:]))%k != 0 })
	check()
	for i, r := range gone {
		if i%2 == 0 {
			if ok, err := e.AddRule(r); !ok || err != nil {
				c.Failf("add %q again: %v %v", r, ok, err)
			}
			rules = append(rules, r)
		}
	}
	check()
	sameRules(c, "listing", listRules(e), rules)
	c.Count("large queries")
	c.Distinct("scale", key, n, objs, k)
}

func atoi(s string) int {
	n := 0
	for _, d := range s {
		n = n*10 + int(d-'0')
	}
	return n
}

// scaleC04: a set of thousands of rules
func scaleC04(c *C) {
	e := scaleEnforcer(c, scaleModel, nil)
	m := e.GetModel()
	n := scaleSize(c)
	universe := [][]string{}
	for i := 0; i < n; i++ {
		switch i % 4 {
		case 0:
			universe = append(universe, []string{"p", fmt.Sprint(i), fmt.Sprint(i * 7)})
		case 1:
			universe = append(universe, []string{"p2", fmt.Sprint(i), fmt.Sprint(i - 1)})
		case 2:
			universe = append(universe, []string{"g", fmt.Sprint(i / 11), fmt.Sprint(i)})
		default:
			universe = append(universe, []string{"g2", fmt.Sprint(i % 13), fmt.Sprint(i), fmt.Sprint(i % 5)})
		}
	}
	in := make([]bool, n)
	op := func(i int, add bool) {
		var ok bool
		var err error
		if add {
			ok, err = e.AddRule(universe[i])
		} else {
			ok, err = e.RemoveRule(universe[i])
		}
		if err != nil || ok != (in[i] != add) {
			c.Failf("add=%v %q returned %v %v, it was present: %v (%d rules in total)", add, universe[i], ok, err, in[i], n)
		}
		in[i] = add
	}
	check := func() {
		want := [][]string{}
		for i, r := range universe {
			if in[i] {
				want = append(want, r)
			}
		}
		sameRules(c, "listing", listRules(e), want)
		for _, key := range []string{"p", "p2", "g", "g2"} {
			p, _ := m.GetPolicy(key)
			got := [][]string{}
			p.Range(func(r []string) bool { got = append(got, append([]string{key}, r...)); return true })
			sameRules(c, "listing of "+key, got, pickRules(want, func(r []string) bool { return r[0] == key }))
		}
		p, _ := m.GetPolicy("p2")
		d, err := policy.GetDistinct(p, []int{0})
		if w := len(pickRules(want, func(r []string) bool { return r[0] == "p2" })); err != nil || len(d) != w {
			c.Failf("%d distinct values, expected %d (%v)", len(d), w, err)
		}
	}
	for i := range universe {
		op(i, true)
	}
	check()
	for k := 0; k < 2; k++ {
		for i := 0; i < n; i++ {
			op(c.Intn(n), c.Chance(40))
		}
		check()
	}
	for _, i := range c.R.Perm(n) {
		op(i, false)
	}
	check()
	for i := 0; i < n; i += 3 {
		op(i, true)
	}
	check()
	c.Count("large rule sets")
	c.Distinct("scale", n)
}

// scaleGraph is a role graph without patterns
type scaleGraph struct {
	c    *C
	rm   rbac.IRoleManager
	doms []string
	up   map[string]map[string]bool
	down map[string]map[string]bool
}

func newScaleGraph(c *C, rm rbac.IRoleManager, doms ...string) *scaleGraph {
	return &scaleGraph{c, rm, doms, map[string]map[string]bool{}, map[string]map[string]bool{}}
}

func (g *scaleGraph) add(a, b string) {
	ok, err := g.rm.AddLink(a, b, g.doms...)
	if err != nil || ok == g.up[a][b] {
		g.c.Failf("AddLink(%q, %q, %q) => %v %v", a, b, g.doms, ok, err)
	}
	if g.up[a] == nil {
		g.up[a] = map[string]bool{}
	}
	if g.down[b] == nil {
		g.down[b] = map[string]bool{}
	}
	g.up[a][b], g.down[b][a] = true, true
}

func (g *scaleGraph) del(a, b string) {
	ok, err := g.rm.DeleteLink(a, b, g.doms...)
	if err != nil || ok != g.up[a][b] {
		g.c.Failf("DeleteLink(%q, %q, %q) => %v %v", a, b, g.doms, ok, err)
	}
	delete(g.up[a], b)
	delete(g.down[b], a)
}

func (g *scaleGraph) has(a, b string, want bool) {
	g.c.Eval()
	got, err := g.rm.HasLink(a, b, g.doms...)
	if err != nil || got != want {
		g.c.Failf("HasLink(%q, %q, %q) => %v %v, expected %v", a, b, g.doms, got, err, want)
	}
}

func (g *scaleGraph) lists(n string) {
	cmp := func(kind string, got []string, err error, want map[string]bool) {
		g.c.Eval()
		seen := map[string]bool{}
		for _, x := range got {
			if seen[x] || !want[x] {
				g.c.Failf("%s(%q, %q) lists %q (again: %v)", kind, n, g.doms, x, seen[x])
			}
			seen[x] = true
		}
		if err != nil || len(seen) != len(want) {
			g.c.Failf("%s(%q, %q) lists %d names, expected %d (%v)", kind, n, g.doms, len(seen), len(want), err)
		}
	}
	got, err := g.rm.GetRoles(n, g.doms...)
	cmp("GetRoles", got, err, g.up[n])
	got, err = g.rm.GetUsers(n, g.doms...)
	cmp("GetUsers", got, err, g.down[n])
}

func (g *scaleGraph) size() int {
	n := 0
	for _, x := range g.up {
		n += len(x)
	}
	return n
}

func (g *scaleGraph) ranged(total int) {
	n := 0
	g.rm.Range(func(a, b string, doms ...string) bool { n++; return true })
	g.c.Eval()
	if n != total {
		g.c.Failf("%d links are listed, expected %d", n, total)
	}
}

// scaleC07: hubs with hundreds or thousands of users and roles, wide layers
func scaleC07(c *C) {
	var rm rbac.IRoleManager = rbac.NewRoleManager(10)
	doms := []string{}
	if c.Chance(50) {
		rm = rbac.NewDomainManager(10)
		if c.Chance(50) {
			doms = []string{"d"}
		}
	}
	g := newScaleGraph(c, rm, doms...)
	n := scaleSize(c)
	switch c.Intn(3) {
	case 0: // one role with many users, one user with many roles
		for i := 0; i < n; i++ {
			g.add(fmt.Sprint("u", i), "hub")
			g.add("hub", fmt.Sprint("r", i))
		}
		probe := func(linked func(i int) bool, up func(i int) bool) {
			for k := 0; k < 60; k++ {
				i, j := c.Intn(n), c.Intn(n)
				g.has(fmt.Sprint("u", i), "hub", linked(i))
				g.has("hub", fmt.Sprint("r", j), up(j))
				g.has(fmt.Sprint("u", i), fmt.Sprint("r", j), linked(i) && up(j))
				g.has(fmt.Sprint("r", i), fmt.Sprint("u", j), false)
			}
			g.lists("hub")
			g.lists(fmt.Sprint("u", c.Intn(n)))
			g.ranged(g.size())
		}
		all := func(int) bool { return true }
		probe(all, all)
		k := 2 + c.Intn(4)
		for i := 0; i < n; i += k {
			g.del(fmt.Sprint("u", i), "hub")
		}
		probe(func(i int) bool { return i%k != 0 }, all)
		for i := 1; i < n; i += k {
			g.del("hub", fmt.Sprint("r", i))
		}
		probe(func(i int) bool { return i%k != 0 }, func(i int) bool { return i%k != 1 })
		for i := 0; i < n; i += k {
			g.add(fmt.Sprint("u", i), "hub")
		}
		probe(all, func(i int) bool { return i%k != 1 })
		c.Count("large hubs")
	case 1: // wide layers, everything is linked with everything of the next layer
		depth, width := 2+c.Intn(5), 6+c.Intn(25)
		name := func(l, i int) string { return fmt.Sprint("l", l, "n", i) }
		for l := 0; l < depth; l++ {
			for i := 0; i < width; i++ {
				for j := 0; j < width; j++ {
					g.add(name(l, i), name(l+1, j))
				}
			}
		}
		for k := 0; k < 80; k++ {
			a, b := c.Intn(depth+1), c.Intn(depth+1)
			i, j := c.Intn(width), c.Intn(width)
			g.has(name(a, i), name(b, j), a < b || a == b && i == j)
		}
		// a single link between two layers remains
		cut := c.Intn(depth)
		for i := 0; i < width; i++ {
			for j := 0; j < width; j++ {
				if i != 0 || j != width-1 {
					g.del(name(cut, i), name(cut+1, j))
				}
			}
		}
		for k := 0; k < 120; k++ {
			a, b := c.Intn(depth+1), c.Intn(depth+1)
			i, j := c.Intn(width), c.Intn(width)
			want := a < b
			if a <= cut && b > cut {
				want = (a < cut || i == 0) && (b > cut+1 || j == width-1)
			}
			g.has(name(a, i), name(b, j), want || a == b && i == j)
		}
		g.lists(name(cut, 0))
		g.ranged(g.size())
		c.Count("wide layers")
	default: // many separate pairs
		for i := 0; i < n; i++ {
			g.add(fmt.Sprint("u", i), fmt.Sprint("r", i))
		}
		for k := 0; k < 100; k++ {
			i, j := c.Intn(n), c.Intn(n)
			g.has(fmt.Sprint("u", i), fmt.Sprint("r", j), i == j)
			g.has(fmt.Sprint("u", i), fmt.Sprint("r", i), true)
			g.lists(fmt.Sprint("u", i))
		}
		g.ranged(n)
		for _, i := range c.R.Perm(n) {
			g.del(fmt.Sprint("u", i), fmt.Sprint("r", i))
		}
		g.ranged(0)
		g.has("u1", "r1", false)
		g.add("u1", "r1")
		g.has("u1", "r1", true)
		c.Count("many pairs")
	}
	c.Distinct("scale", n, c.Idx)
}

// scaleC08: hundreds of domains
func scaleC08(c *C) {
	rm := rbac.NewDomainManager(10)
	n, levels := 30+c.Intn(500)*(1+c.Intn(3)), 1+c.Intn(3)
	path := func(i int) []string {
		switch levels {
		case 1:
			return []string{fmt.Sprint("d", i)}
		case 2:
			return []string{fmt.Sprint("d", i/7), fmt.Sprint("s", i%7)}
		}
		return []string{fmt.Sprint("d", i/9), fmt.Sprint("s", i/3%3), fmt.Sprint("t", i%3)}
	}
	in := make([]bool, n)
	set := func(i int, add bool) {
		var ok bool
		var err error
		if add {
			ok, err = rm.AddLink(fmt.Sprint("u", i%10), "admin", path(i)...)
		} else {
			ok, err = rm.DeleteLink(fmt.Sprint("u", i%10), "admin", path(i)...)
		}
		if err != nil || ok != (in[i] != add) {
			c.Failf("add=%v u%d admin %q => %v %v", add, i%10, path(i), ok, err)
		}
		in[i] = add
	}
	check := func() {
		mine := map[string]map[string]bool{}
		for i := range in {
			if in[i] {
				u := fmt.Sprint("u", i%10)
				if mine[u] == nil {
					mine[u] = map[string]bool{}
				}
				mine[u][strings.Join(path(i), "/")] = true
			}
		}
		for k := 0; k < 150; k++ {
			i, u := c.Intn(n), c.Intn(10)
			c.Eval()
			got, err := rm.HasLink(fmt.Sprint("u", u), "admin", path(i)...)
			if want := in[i] && i%10 == u; err != nil || got != want {
				c.Failf("HasLink(u%d, admin, %q) => %v %v, expected %v (%d domains)", u, path(i), got, err, want, n)
			}
			users, err := rm.GetUsers("admin", path(i)...)
			if err != nil || in[i] != (len(users) == 1 && users[0] == fmt.Sprint("u", i%10)) || !in[i] && len(users) > 0 {
				c.Failf("GetUsers(admin, %q) => %q %v, linked: %v", path(i), users, err, in[i])
			}
		}
		for u := 0; u < 10; u++ {
			user := fmt.Sprint("u", u)
			got, err := rm.GetDomains(user)
			c.Eval()
			for _, d := range got {
				if d != "" && !mine[user][d] {
					c.Failf("GetDomains(%s) lists %q", user, d)
				}
			}
			if err != nil || len(dedup(got)) != len(got) || len(got) < len(mine[user]) || len(got) > len(mine[user])+1 {
				c.Failf("GetDomains(%s) lists %d domains, expected %d (%v)", user, len(got), len(mine[user]), err)
			}
		}
		all := 0
		for _, x := range mine {
			all += len(x)
		}
		got, err := rm.GetAllDomains()
		c.Eval()
		known := map[string]bool{}
		for _, d := range got {
			known[d] = true
		}
		for _, x := range mine {
			for d := range x {
				if !known[d] {
					c.Failf("GetAllDomains misses %q (%v)", d, err)
				}
			}
		}
		links := 0
		rm.Range(func(a, b string, doms ...string) bool { links++; return true })
		if links != all {
			c.Failf("%d links are listed, expected %d", links, all)
		}
	}
	for _, i := range c.R.Perm(n) {
		set(i, true)
	}
	check()
	for i := range in {
		if c.Chance(50) {
			set(i, false)
		}
	}
	check()
	for i := range in {
		if !in[i] && c.Chance(50) {
			set(i, true)
		}
	}
	check()
	c.Count("hundreds of domains")
	c.Distinct("scale", n, levels)
}

// scaleC09: hundreds of names and several patterns, more pairs than a cache of matches can hold
func scaleC09(c *C) {
	var rm rbac.IDefaultRoleManager = rbac.NewRoleManager(10)
	doms := []string{}
	if c.Chance(40) {
		rm = rbac.NewDomainManager(10)
		if c.Chance(50) {
			doms = []string{"d"}
		}
	}
	n, groups := 60+c.Intn(400), 2+c.Intn(6)
	type vocab struct {
		m       util.IMatcher
		name    func(g, i int) string
		pattern func(g int) string
	}
	v := []vocab{
		{starMatcher, func(g, i int) string { return fmt.Sprintf("%c%d", 'a'+g, i) }, func(g int) string { return fmt.Sprintf("%c*", 'a'+g) }},
		{util.PathMatcher, func(g, i int) string { return fmt.Sprintf("/%d/%d", g, i) }, func(g int) string { return fmt.Sprintf("/%d/:id", g) }},
		{util.PathMatcher2, func(g, i int) string { return fmt.Sprintf("/%d/%d", g, i) }, func(g int) string { return fmt.Sprintf("/%d/{id}", g) }},
		{util.RegexMatcher, func(g, i int) string { return fmt.Sprintf("%c%d", 'a'+g, i) }, func(g int) string { return fmt.Sprintf("p'^%c\\d+$", 'a'+g) }},
	}[c.Intn(4)]
	early := c.Chance(50)
	if early {
		rm.SetMatcher(v.m)
	}
	linked := make([]bool, groups)
	own := map[int]bool{} // names with a link of their own
	link := func(add bool, a, b string, want bool) {
		var ok bool
		var err error
		if add {
			ok, err = rm.AddLink(a, b, doms...)
		} else {
			ok, err = rm.DeleteLink(a, b, doms...)
		}
		if ok != want || err != nil {
			c.Failf("add=%v %q %q %q => %v %v, expected %v", add, a, b, doms, ok, err, want)
		}
	}
	for i := 0; i < n; i++ {
		if i%3 == 0 {
			own[i] = true
			link(true, v.name(i%groups, i), "own", true)
		}
	}
	for g := range linked {
		linked[g] = true
		link(true, v.pattern(g), fmt.Sprint("role", g), true)
	}
	link(true, "role0", "top", true)
	if !early {
		rm.SetMatcher(v.m)
	}
	check := func() {
		for _, i := range c.R.Perm(n)[:60+c.Intn(n-59)] {
			g, h := i%groups, c.Intn(groups)
			a := v.name(g, i)
			for _, q := range []struct {
				role string
				want bool
			}{{fmt.Sprint("role", h), h == g && linked[g]}, {fmt.Sprint("role", g), linked[g]}, {"top", g == 0 && linked[0]}, {"own", own[i]}, {"none", false}} {
				c.Eval()
				got, err := rm.HasLink(a, q.role, doms...)
				if err != nil || got != q.want {
					c.Failf("HasLink(%q, %q, %q) => %v %v, expected %v; %d names, patterns linked: %v", a, q.role, doms, got, err, q.want, n, linked)
				}
			}
			if own[i] {
				roles, err := rm.GetRoles(a, doms...)
				want := []string{"own"}
				if linked[g] {
					want = append(want, fmt.Sprint("role", g))
				}
				sort.Strings(roles)
				if err != nil || strings.Join(dedup(roles), " ") != strings.Join(want, " ") {
					c.Failf("GetRoles(%q, %q) => %q %v, expected %q", a, doms, roles, err, want)
				}
			}
		}
		g := c.Intn(groups)
		users, err := rm.GetUsers(fmt.Sprint("role", g), doms...)
		want := map[string]bool{}
		if linked[g] {
			for i := range own {
				if i%groups == g {
					want[v.name(g, i)] = true
				}
			}
		}
		for _, u := range users {
			if u != v.pattern(g) && !want[u] {
				c.Failf("GetUsers(role%d) lists %q", g, u)
			}
			delete(want, u)
		}
		if err != nil || len(want) > 0 {
			c.Failf("GetUsers(role%d, %q) misses %d names (%v), it lists %d", g, doms, len(want), err, len(users))
		}
	}
	check()
	for k := 0; k < 2+c.Intn(4); k++ {
		g := c.Intn(groups)
		link(!linked[g], v.pattern(g), fmt.Sprint("role", g), true)
		linked[g] = !linked[g]
		i := 3 * c.Intn(n/3)
		link(!own[i], v.name(i%groups, i), "own", true)
		if own[i] {
			delete(own, i)
		} else {
			own[i] = true
		}
		check()
	}
	c.Count("hundreds of names and several patterns")
	c.Distinct("scale", n, groups, c.Idx)
}

// scaleC10: hundreds of domains and several patterns of domains
func scaleC10(c *C) {
	rm := rbac.NewDomainManager(10)
	n, groups := 20+c.Intn(220), 2+c.Intn(4)
	rm2 := rbac.IDefaultRoleManager(rm)
	dom := func(g, i int) string { return fmt.Sprintf("%c%d", 'a'+g, i) }
	pat := func(g int) string { return fmt.Sprintf("%c*", 'a'+g) }
	early := c.Chance(50)
	if early {
		rm2.SetDomainMatcher(starMatcher)
	}
	own, linked := make([]bool, n), make([]bool, groups)
	every := false
	edit := func(add bool, a, b string, d string) {
		var ok bool
		var err error
		if add {
			ok, err = rm.AddLink(a, b, d)
		} else {
			ok, err = rm.DeleteLink(a, b, d)
		}
		if !ok || err != nil {
			c.Failf("add=%v %q %q %q => %v %v", add, a, b, d, ok, err)
		}
	}
	order := c.R.Perm(n)
	for k, i := range order {
		if i%2 == 0 {
			own[i] = true
			edit(true, "u", "own", dom(i%groups, i))
		}
		if k == n/2 {
			for g := range linked {
				if c.Chance(70) {
					linked[g] = true
					edit(true, "u", fmt.Sprint("role", g), pat(g))
				}
			}
		}
	}
	if c.Chance(50) {
		every = true
		edit(true, "u", "all", "*")
	}
	if !early {
		rm2.SetDomainMatcher(starMatcher)
	}
	check := func() {
		for _, i := range c.R.Perm(n)[:min(n, 60)] {
			g := i % groups
			h := c.Intn(groups)
			for _, q := range []struct {
				role string
				want bool
			}{{"own", own[i]}, {fmt.Sprint("role", g), linked[g]}, {fmt.Sprint("role", h), h == g && linked[g]}, {"all", every}} {
				c.Eval()
				got, err := rm.HasLink("u", q.role, dom(g, i))
				if err != nil || got != q.want {
					c.Failf("HasLink(u, %q, %q) => %v %v, expected %v; patterns linked %v", q.role, dom(g, i), got, err, q.want, linked)
				}
			}
		}
		for g := range linked { // a domain that is not part of any link
			got, err := rm.HasLink("u", fmt.Sprint("role", g), dom(g, n+7))
			if err != nil || got != linked[g] {
				c.Failf("HasLink(u, role%d, %q) => %v %v, expected %v", g, dom(g, n+7), got, err, linked[g])
			}
		}
	}
	check()
	for k := 0; k < 2+c.Intn(4); k++ {
		g := c.Intn(groups)
		edit(!linked[g], "u", fmt.Sprint("role", g), pat(g))
		linked[g] = !linked[g]
		for j := 0; j < 10; j++ {
			i := c.Intn(n)
			edit(!own[i], "u", "own", dom(i%groups, i))
			own[i] = !own[i]
		}
		if c.Chance(40) {
			edit(!every, "u", "all", "*")
			every = !every
		}
		check()
	}
	links := 0
	rm.Range(func(a, b string, doms ...string) bool { links++; return true })
	want := 0
	for _, b := range append(append([]bool{every}, own...), linked...) {
		if b {
			want++
		}
	}
	if links != want {
		c.Failf("%d links are listed, expected %d", links, want)
	}
	c.Count("hundreds of domains and several patterns")
	c.Distinct("scale", n, groups, c.Idx)
}

// scaleC15: thousands of rules in a file
func scaleC15(c *C, path string) {
	n := scaleSize(c) * (1 + c.Intn(3))
	pad := strings.Repeat("x,\"\n", c.Intn(20))
	rules := [][]string{}
	for i := 0; i < n; i++ {
		r := []string{"p", fmt.Sprint("u", i), pad + fmt.Sprint("o", i%100)}
		if i%5 == 0 {
			r = []string{"g", fmt.Sprint("u", i), "r"}
		}
		rules = append(rules, r)
	}
	for k := 0; k < 3; k++ { // rules with many fields
		r := []string{"p"}
		for i := 0; i < 30+c.Intn(300); i++ {
			r = append(r, c.Pick([]string{"", pad, "a,b", "x\"y", "z", fmt.Sprint(k, i)}))
		}
		rules = append(rules, append(r, fmt.Sprint("end", k)))
	}
	a := adapter.NewFileAdapter(path)
	if err := a.SavePolicy(&rulesOf{rules: rules, fail: -1}); err != nil {
		c.Failf("%v", err)
	}
	check := func(what string) {
		got, err := loadFile(path)
		if err != nil {
			c.Failf("%s: %v", what, err)
		}
		sameRules(c, what, got, rules)
	}
	check("saved")
	added := [][]string{}
	for i := 0; i < 50+c.Intn(2000); i++ {
		added = append(added, []string{"p", fmt.Sprint("new", i), pad})
	}
	if err := a.AddRules(added); err != nil {
		c.Failf("%v", err)
	}
	rules = append(rules, added...)
	check("added")
	k := 2 + c.Intn(4)
	gone, rest := [][]string{}, [][]string{}
	for i, r := range rules {
		if i%k == 0 {
			gone = append(gone, r)
		} else {
			rest = append(rest, r)
		}
	}
	if err := a.RemoveRules(gone); err != nil {
		c.Failf("%v", err)
	}
	rules = rest
	check("removed")
	if st, err := os.Stat(path); err == nil {
		c.CountN("bytes in large files", int(st.Size()))
	}
	c.Count("large files")
	c.Distinct("scale", n, len(pad), k)
}

// scaleC29: large batches
func scaleC29(c *C) {
	n := scaleSize(c)
	path := filepath.Join(c.Dir(), fmt.Sprintf("batch-%d.csv", c.Idx))
	defer os.Remove(path)
	if err := os.WriteFile(path, nil, 0644); err != nil {
		c.Failf("%v", err)
	}
	var ad interface{}
	stored := c.Chance(60)
	if stored {
		ad = adapter.NewFileAdapter(path)
	}
	e := scaleEnforcer(c, scaleModel, ad, fastac.OptionAutosave(c.Chance(50)))
	st := newStore()
	batch := [][]string{}
	for i := 0; i < n; i++ {
		j := i
		if i%10 == 9 { // again
			j = c.Intn(i)
		}
		switch j % 3 {
		case 0:
			batch = append(batch, []string{"p", fmt.Sprint("u", j), "o"})
		case 1:
			batch = append(batch, []string{"g", fmt.Sprint("u", j), "r"})
		default:
			batch = append(batch, []string{"p2", fmt.Sprint("u", j), fmt.Sprint("o", j)})
		}
	}
	if err := e.AddRules(batch); err != nil {
		c.Failf("%v", err)
	}
	for _, r := range batch {
		st.Add(r)
	}
	check := func(what string) {
		sameRules(c, what, listRules(e), st.All())
		if stored {
			if err := e.Flush(); err != nil {
				c.Failf("%v", err)
			}
			got, err := loadFile(path)
			if err != nil {
				c.Failf("%v", err)
			}
			sameRules(c, what+", stored", got, st.All())
		}
	}
	check("added")
	if !stored { // an invalid rule in the middle
		bad := append([][]string{}, batch...)
		at := c.Intn(n)
		for i := range bad {
			bad[i] = []string{"p", fmt.Sprint("v", i), "o"}
		}
		bad[at] = []string{"p9", "x"}
		if err := e.AddRules(bad); err == nil {
			c.Failf("a batch with an invalid rule was accepted")
		}
		got := listRules(e)
		// whatever is in effect was part of the batch
		extra := len(got) - len(st.All())
		if extra < 0 || extra > n-1 {
			c.Failf("%d rules after a failed batch of %d on %d rules", len(got), n, len(st.All()))
		}
		if err := e.RemoveRules(pickRules(bad, func(r []string) bool { return r[0] == "p" })); err != nil {
			c.Failf("%v", err)
		}
		check("restored")
	}
	gone := [][]string{}
	for i, r := range batch {
		if i%3 != 1 {
			gone = append(gone, r)
		}
	}
	if err := e.RemoveRules(gone); err != nil {
		c.Failf("%v", err)
	}
	for _, r := range gone {
		st.Remove(r)
	}
	check("removed")
	c.Count("large batches")
	c.Distinct("scale", n, stored)
}

// scaleC26: thousands of events
func scaleC26(c *C) {
	e := scaleEnforcer(c, scaleModel, nil)
	m := e.GetModel()
	n := scaleSize(c)
	got := map[string]int{}
	total := 0
	order := []string{}
	listener := func(add bool) func(args ...interface{}) {
		return func(args ...interface{}) {
			r := args[0].([]string)
			got[opText(add, r)]++
			total++
			if len(order) < 5000 {
				order = append(order, opText(add, r))
			}
		}
	}
	m.AddListener(model.RULE_ADDED, listener(true))
	m.AddListener(model.RULE_REMOVED, listener(false))
	others := c.Intn(200)
	calls := 0
	for i := 0; i < others; i++ {
		m.AddListener(model.RULE_ADDED, func(...interface{}) { calls++ })
	}
	want := []string{}
	adds := 0
	in := map[int]bool{}
	for i := 0; i < n; i++ {
		j := c.Intn(n / 3)
		r := []string{[]string{"p", "g"}[j%2], fmt.Sprint("u", j), "x"}
		add := c.Chance(60)
		var err error
		if add {
			_, err = e.AddRule(r)
		} else {
			_, err = e.RemoveRule(r)
		}
		if err != nil {
			c.Failf("%v", err)
		}
		if in[j] != add {
			in[j] = add
			want = append(want, opText(add, r))
			if add {
				adds++
			}
		}
	}
	c.Eval()
	if total != len(want) || calls != adds*others {
		c.Failf("%d events for %d effective edits, %d additions announced %d times to %d listeners", total, len(want), adds, calls, others)
	}
	for i, x := range want {
		if i < len(order) && order[i] != x {
			c.Failf("event %d is %s, expected %s", i, order[i], x)
		}
	}
	c.CountN("events in long histories", total)
	c.Count("long histories")
	c.Distinct("scale", n, others)
}
