package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/rbac"
)

// scaleAlternatives: matchers with dozens of alternatives. An alternative is
// rendered from the values that its counterpart in Go compares.
func scaleAlternatives(c *C, filters bool) {
	type alt struct {
		text string
		f    func(r, p []string) bool
	}
	args := []string{"sub", "obj", "act"}
	val := func(col, i int) string { return fmt.Sprintf("%c%d", "soa"[col], i) }
	vals := 3 + c.Intn(40)
	term := func() alt {
		col, v := c.Intn(3), val(c.Intn(3), c.Intn(vals))
		switch c.Intn(4) {
		case 0:
			return alt{"r." + args[col] + " == p." + args[col], func(r, p []string) bool { return r[col] == p[col] }}
		case 1:
			return alt{"r." + args[col] + " == '" + v + "'", func(r, p []string) bool { return r[col] == v }}
		case 2:
			return alt{"p." + args[col] + " == '" + v + "'", func(r, p []string) bool { return p[col] == v }}
		}
		col2 := c.Intn(3)
		return alt{"r." + args[col] + " + p." + args[col2] + " == '" + v + val(col2, 1) + "'", func(r, p []string) bool { return r[col]+p[col2] == v+val(col2, 1) }}
	}
	gen := func(k int) ([]alt, string) {
		alts, texts := []alt{}, []string{}
		for len(alts) < k {
			a, b := term(), term()
			fa, fb := a.f, b.f
			x := alt{a.text + " && " + b.text, func(r, p []string) bool { return fa(r, p) && fb(r, p) }}
			if c.Chance(40) {
				d := term()
				fx := x.f
				x = alt{x.text + " && " + d.text, func(r, p []string) bool { return fx(r, p) && d.f(r, p) }}
			}
			if c.Chance(20) {
				d := term()
				x = alt{a.text + " && ( " + b.text + " || " + d.text + " )", func(r, p []string) bool { return fa(r, p) && (fb(r, p) || d.f(r, p)) }}
			}
			alts = append(alts, x)
			texts = append(texts, x.text)
		}
		return alts, strings.Join(texts, " || ")
	}
	k := []int{20, 45, 60, 100, 126, 140}[c.Intn(6)]
	alts, text := gen(k)
	e := scaleEnforcer(c, "[request_definition]\nr = sub, obj, act\n[policy_definition]\np = sub, obj, act\n[policy_effect]\ne = some(where (p.eft == allow))\n[matchers]\nm = "+text+"\n", nil)
	stored := map[string][]string{}
	edit := func(add bool) {
		r := []string{"p", val(c.Intn(3), c.Intn(vals)), val(c.Intn(3), c.Intn(vals)), val(c.Intn(3), c.Intn(vals))}
		if !add && len(stored) > 0 {
			keys := []string{}
			for x := range stored {
				keys = append(keys, x)
			}
			sort.Strings(keys)
			r = stored[keys[c.Intn(len(keys))]]
		}
		var ok bool
		var err error
		if add {
			ok, err = e.AddRule(r)
		} else {
			ok, err = e.RemoveRule(r)
		}
		if _, in := stored[rkey(r)]; err != nil || ok != (in != add) {
			c.Failf("add=%v %q => %v %v, it was present: %v", add, r, ok, err, in)
		}
		if add {
			stored[rkey(r)] = r
		} else {
			delete(stored, rkey(r))
		}
	}
	holds := func(alts []alt, r, p []string) bool {
		for _, a := range alts {
			if a.f(r, p) {
				return true
			}
		}
		return false
	}
	check := func() {
		for q := 0; q < 12; q++ {
			r := []string{val(c.Intn(3), c.Intn(vals)), val(c.Intn(3), c.Intn(vals)), val(c.Intn(3), c.Intn(vals))}
			req := []interface{}{r[0], r[1], r[2]}
			want := [][]string{}
			for _, p := range stored {
				if holds(alts, r, p[1:]) {
					want = append(want, p)
				}
			}
			c.Eval()
			if filters {
				got, err, how := query(c, e, nil, req)
				if err != nil {
					c.Failf("%s: %v", how, err)
				}
				sameRules(c, fmt.Sprintf("%s with %d alternatives, request %q", how, k, r), got, want)
				continue
			}
			got, err := e.Enforce(req...)
			expect := len(want) > 0
			if len(stored) == 0 {
				expect = holds(alts, r, []string{"", "", ""})
			}
			if err != nil || got != expect {
				c.Failf("%d alternatives, request %q => %v %v, expected %v; %d rules match: %.300q\nmatcher %s", k, r, got, err, expect, len(want), want, text)
			}
		}
		if filters { // a matcher that is built for this query only
			some, text := gen(k)
			r := []string{val(0, c.Intn(vals)), val(1, c.Intn(vals)), val(2, c.Intn(vals))}
			want := [][]string{}
			for _, p := range stored {
				if holds(some, r, p[1:]) {
					want = append(want, p)
				}
			}
			got, err, how := query(c, e, []interface{}{matcherOption(c, e, text)}, []interface{}{r[0], r[1], r[2]})
			if err != nil {
				c.Failf("%s: %v", how, err)
			}
			sameRules(c, fmt.Sprintf("%s with %d alternatives of its own, request %q", how, k, r), got, want)
		}
	}
	for i := 0; i < 4; i++ {
		for j := 0; j < 5+c.Intn(60); j++ {
			edit(true)
		}
		check()
		for j := 0; j < c.Intn(60) && len(stored) > 0; j++ {
			edit(false)
		}
		check()
	}
	c.Count("matchers with dozens of alternatives")
	c.Distinct("alternatives", text)
}

// scalePatterns: dozens of domain patterns that match the same domains, at
// the top or below another domain or pattern
func scalePatterns(c *C) {
	dm := rbac.NewDomainManager(10)
	var rm rbac.IDefaultRoleManager = dm
	early := c.Chance(60)
	if early {
		rm.SetDomainMatcher(starMatcher)
	}
	n := 42 + c.Intn(60)
	above := []string{} // where the patterns are
	asked := []string{} // where the domains are
	switch c.Intn(3) {
	case 1:
		above, asked = []string{"top"}, []string{"top"}
	case 2:
		above, asked = []string{"to*"}, []string{"top"}
	}
	pat := func(i int) []string { return append(append([]string{}, above...), strings.Repeat("x", i)+"*") }
	dom := func(i int) []string { return append(append([]string{}, asked...), strings.Repeat("x", i)) }
	linked := make([]bool, n)
	own := map[int]bool{}
	edit := func(add bool, a, b string, path []string) {
		var ok bool
		var err error
		if add {
			ok, err = rm.AddLink(a, b, path...)
		} else {
			ok, err = rm.DeleteLink(a, b, path...)
		}
		if !ok || err != nil {
			c.Failf("add=%v %q %q %q => %v %v", add, a, b, path, ok, err)
		}
	}
	flip := func(i int) {
		edit(!linked[i], "u", fmt.Sprint("role", i), pat(i))
		linked[i] = !linked[i]
	}
	flipOwn := func(l int) {
		edit(!own[l], "u", "own", dom(l))
		own[l] = !own[l]
	}
	// many links in a single pattern
	many := 0
	if c.Chance(50) {
		many = 42 + c.Intn(100)
		for i := 0; i < many; i++ {
			edit(true, "u", fmt.Sprint("many", i), pat(1))
		}
	}
	check := func() {
		for k := 0; k < 6; k++ {
			l := c.Intn(n + 3)
			for j := 0; j < 25; j++ {
				i := c.Intn(n)
				c.Eval()
				got, err := rm.HasLink("u", fmt.Sprint("role", i), dom(l)...)
				if want := linked[i] && i <= l; err != nil || got != want {
					c.Failf("HasLink(u, role%d, %q) => %v %v, expected %v; linked %v, own links %v", i, dom(l), got, err, want, linked, own)
				}
				if many > 0 {
					i := c.Intn(many)
					got, err := rm.HasLink("u", fmt.Sprint("many", i), dom(l)...)
					if want := l >= 1; err != nil || got != want {
						c.Failf("HasLink(u, many%d, %q) => %v %v, expected %v", i, dom(l), got, err, want)
					}
				}
			}
			got, err := rm.HasLink("u", "own", dom(l)...)
			if err != nil || got != own[l] {
				c.Failf("HasLink(u, own, %q) => %v %v, expected %v", dom(l), got, err, own[l])
			}
		}
	}
	for _, i := range c.R.Perm(n) {
		if c.Chance(90) {
			flip(i)
		}
		if c.Chance(10) {
			flipOwn(c.Intn(n + 3))
		}
	}
	if !early {
		rm.SetDomainMatcher(starMatcher)
	}
	check()
	for k := 0; k < 4; k++ {
		for j := 0; j < 5+c.Intn(30); j++ {
			flip(c.Intn(n))
		}
		for j := 0; j < 6; j++ {
			flipOwn(c.Intn(n + 3))
		}
		check()
	}
	links := 0
	rm.Range(func(a, b string, doms ...string) bool { links++; return true })
	want := many
	for _, b := range linked {
		if b {
			want++
		}
	}
	for _, b := range own {
		if b {
			want++
		}
	}
	if links != want {
		c.Failf("%d links are listed, expected %d", links, want)
	}
	c.Count("dozens of patterns for the same domain")
	c.Distinct("patterns", n, len(above), many, c.Idx)
}

// scaleMatcherLater: patterns of names in dozens of domains, the matcher is set
// when the links are there
func scaleMatcherLater(c *C) {
	dm := rbac.NewDomainManager(10)
	var rm rbac.IDefaultRoleManager = dm
	n, levels := 42+c.Intn(200), 1+c.Intn(3)
	path := func(i int) []string {
		switch levels {
		case 1:
			return []string{fmt.Sprint("d", i)}
		case 2:
			return []string{fmt.Sprint("d", i%3), fmt.Sprint("s", i/3)}
		}
		return []string{"d", fmt.Sprint("s", i%2), fmt.Sprint("t", i/2)}
	}
	edit := func(a, b string, i int) {
		if ok, err := rm.AddLink(a, b, path(i)...); !ok || err != nil {
			c.Failf("AddLink(%q, %q, %q) => %v %v", a, b, path(i), ok, err)
		}
	}
	for i := 0; i < n; i++ {
		edit("bob*", "role", i)
		edit("bobby", "own", i)
	}
	check := func(want bool) {
		for _, i := range c.R.Perm(n) {
			c.Eval()
			for _, name := range []string{"bobby", "bob1"} {
				if got, err := rm.HasLink(name, "role", path(i)...); err != nil || got != want {
					c.Failf("HasLink(%s, role, %q) => %v %v, expected %v, %d domains", name, path(i), got, err, want, n)
				}
			}
			if got, err := rm.HasLink("bobby", "own", path(i)...); err != nil || !got {
				c.Failf("HasLink(bobby, own, %q) => %v %v", path(i), got, err)
			}
		}
	}
	check(false)
	rm.SetMatcher(starMatcher)
	check(true)
	rm.SetMatcher(nil)
	check(false)
	rm.SetMatcher(starMatcher)
	check(true)
	c.Count("matchers set with dozens of domains")
	c.Distinct("later", n, levels)
}

// scaleC17: dozens of definitions of each kind
func scaleC17(c *C) {
	n := 42 + c.Intn(60)
	want := map[string]string{}
	m := model.NewModel()
	texts := map[byte][]string{}
	for _, i := range c.R.Perm(n) {
		sfx := ""
		if i > 0 {
			sfx = fmt.Sprint(i)
		}
		for _, d := range []defn{
			{'r', "r" + sfx, fmt.Sprint("a", i, ", obj")},
			{'p', "p" + sfx, fmt.Sprint("b", i, ", obj")},
			{'g', "g" + sfx, "_, _"},
			{'e', "e" + sfx, effects[i%2]},
			{'m', "m" + sfx, fmt.Sprintf("r%s.a%d == p%s.b%d", sfx, i, sfx, i)},
		} {
			want[d.key] = strings.ReplaceAll(d.key+"="+d.val, " ", "")
			texts[d.sec] = append(texts[d.sec], d.key+" = "+d.val)
		}
	}
	conf := ""
	for _, s := range []byte("rpgem") {
		conf += "[" + secNames[s] + "]\n" + strings.Join(texts[s], "\n") + "\n"
	}
	if err := m.LoadModelFromText(conf); err != nil {
		c.Failf("%v", err)
	}
	for round := 0; round < 2; round++ {
		e, err := fastac.NewEnforcer(m, nil)
		if err != nil {
			c.Failf("%v", err)
		}
		for _, i := range c.R.Perm(n)[:20] {
			sfx := ""
			if i > 0 {
				sfx = fmt.Sprint(i)
			}
			rule := []string{"p" + sfx, fmt.Sprint("v", i), "o"}
			if ok, err := e.AddRule(rule); !ok || err != nil {
				c.Failf("%q => %v %v", rule, ok, err)
			}
			for _, v := range []string{fmt.Sprint("v", i), "w"} {
				c.Eval()
				got, err := e.Enforce(fastac.SetRequestDef("r"+sfx), fastac.SetMatcher("m"+sfx), v, "o")
				if err != nil || got != (v != "w") {
					c.Failf("definition %d of %d, request %q => %v %v", i, n, v, got, err)
				}
			}
			if ok, err := e.RemoveRule(rule); !ok || err != nil {
				c.Failf("%q => %v %v", rule, ok, err)
			}
		}
		// the text of the model
		text := m.String()
		lines := map[string]bool{}
		for _, l := range strings.Split(text, "\n") {
			lines[strings.ReplaceAll(l, " ", "")] = true
		}
		for key, l := range want {
			if !lines[l] {
				c.Failf("%s is missing in the text of a model with %d definitions of each kind\n%s", key, n, text)
			}
		}
		m2 := model.NewModel()
		if err := m2.LoadModelFromText(text); err != nil {
			c.Failf("%v\n%s", err, text)
		}
		if m2.String() != text {
			c.Failf("the text changes when it is loaded")
		}
		m = m2
	}
	c.Count("dozens of definitions")
	c.Distinct("definitions", n)
}
