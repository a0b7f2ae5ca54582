package main

import (
	"fmt"
	"strings"

	"github.com/abichinger/fastac"
)

// simNames returns names for a role graph, the names of some cases differ only
// in details
func simNames(c *C, n int) []string {
	var pool []string
	switch c.Intn(12) {
	case 0, 1:
		pool = append(pool, variants(c)...)
	case 2:
		pool = append(pool, longNames(c)...)
		if len(pool[0]) > 300 {
			pool = append([]string{}, variants(c)...)
		}
	case 3:
		pool = append(pool, weirdNames...)
	default:
		return append([]string{}, graphNames[:n]...)
	}
	c.Count("graphs with peculiar names")
	names := []string{}
	seen := map[string]bool{}
	for _, i := range c.R.Perm(len(pool)) {
		if !seen[pool[i]] && !strings.HasPrefix(pool[i], "\x00") && len(names) < n {
			seen[pool[i]] = true
			names = append(names, pool[i])
		}
	}
	if len(names) < n {
		return append([]string{}, graphNames[:n]...)
	}
	return names
}

var graphNames = []string{"alice", "bob", "admin", "root", "editor", "a,b", "a", ""}

func runC07(c *C) {
	if c.rare(200) {
		scaleC07(c)
		return
	}
	levels := []int{-1, -1, 0, 1, 2, 1}[c.Idx%6]
	viaE := c.Chance(35)
	s := newRoleSim(c, levels, viaE)
	if s.e == nil && c.Chance(15) {
		s.setDepth(6+c.Intn(4), levels < 0)
		c.Count("role managers of a small depth")
	}
	s.names = simNames(c, 4+c.Intn(5))
	s.doms = domNames[:1+c.Intn(2)]
	if c.Chance(20) {
		s.doms = simNames(c, 2)
	}
	switch {
	case c.Chance(30): // a long chain, built in random order
		limit := s.limit - s.levels
		n := 2 + c.Intn(limit-1)
		if c.Chance(40) {
			n = limit
		} else if c.Chance(20) {
			n = limit + 1 + c.Intn(3)
		}
		s.fixedLen = true
		doms := s.pickDoms()
		names := []string{}
		for i := 0; i <= n; i++ {
			names = append(names, fmt.Sprint("n", i))
		}
		s.names = append(names, "side1", "side2")
		for _, i := range c.R.Perm(n) {
			s.edit(true, link{names[i], names[i+1], doms})
			if c.Chance(30) {
				s.edit(true, link{names[i], "side1", doms})
			}
		}
		s.checkHas(names[0], names[n], doms)
		s.checkHas(names[n], names[0], doms)
		c.Count(fmt.Sprintf("chain of %d, %d domain levels", n, s.levels))
		// a shortcut, a cycle, a gap
		cut := link{names[0], names[n], doms}
		s.edit(true, cut)
		s.checkHas(names[0], names[n], doms)
		s.edit(false, cut)
		s.checkHas(names[0], names[n], doms)
		s.edit(true, link{names[n], names[0], doms})
		s.queries(10)
		i := c.Intn(n)
		s.edit(false, link{names[i], names[i+1], doms})
		s.checkHas(names[0], names[n], doms)
		s.queries(5)
		s.edit(true, link{names[i], names[i+1], doms})
		s.edit(false, link{names[n], names[0], doms})
		s.checkHas(names[0], names[n], doms)
		s.run(5, nil)
	case c.Chance(12): // everything linked with everything
		s.names = s.names[:4]
		s.fixedLen = true
		doms := s.pickDoms()
		for _, a := range s.names {
			for _, b := range s.names {
				s.edit(true, link{a, b, doms})
			}
		}
		c.Count("complete graph")
		s.queries(8)
		s.run(20, nil)
	default:
		s.run(35, nil)
	}
	// every pair of the final graph
	for _, a := range s.names {
		for _, b := range s.names {
			s.checkHas(a, b, s.pickDoms())
		}
	}
	c.Count(fmt.Sprintf("role manager with %d domain levels, as rules: %v", levels, viaE))
	if s.e != nil {
		s.checkGMatchers()
	}
	c.Sample("%d levels, %d links, %d judged lookups", levels, len(s.links), s.judged)
}

// checkGMatchers uses the roles in a policy and in queries over grouping rules
func (s *roleSim) checkGMatchers() {
	c := s.c
	if s.levels > 1 {
		return
	}
	g := "g(r.a, p.x)"
	if s.levels == 1 {
		g = "g(r.a, p.x, r.d0)"
	}
	role := c.Pick(s.names)
	rule := []string{"p", role}
	if _, err := s.e.AddRule(rule); err != nil {
		c.Failf("%v", err)
	}
	for i := 0; i < 5; i++ {
		a, doms := s.queryName(), s.queryDoms()
		links := s.applicable(doms)
		uni := map[string]bool{a: true, role: true}
		for _, l := range links {
			uni[l.a], uni[l.b] = true, true
		}
		d := s.reach(links, uni, a, role)
		if d > s.limit-len(doms) {
			continue
		}
		dx := s.reach(links, map[string]bool{a: true, "x": true}, a, "x")
		if role != "x" && dx >= 0 {
			continue
		}
		req := []interface{}{a, "-"}
		for _, x := range doms {
			req = append(req, x)
		}
		got, err := s.e.Enforce(append(req, fastac.SetMatcher(g))...)
		c.Eval()
		c.Count("roles of a policy")
		if err != nil || got != (d >= 0) {
			c.Failf("matcher %s, role %q: request %q => %v %v, chain of %d; links:\n%s", g, role, req, got, err, d, s.dump())
		}
	}
	if _, err := s.e.RemoveRule(rule); err != nil {
		c.Failf("%v", err)
	}
}

func runC08(c *C) {
	if c.rare(120) {
		scaleC08(c)
		return
	}
	viaE := c.Chance(25)
	levels := 1 + c.Intn(3)
	if viaE {
		levels = 1 + c.Intn(2)
	}
	s := newRoleSim(c, levels, viaE)
	if s.e == nil && c.Chance(15) {
		s.setDepth(6+c.Intn(4), levels < 0)
		c.Count("role managers of a small depth")
	}
	s.names = simNames(c, 3+c.Intn(3))
	s.doms = [][]string{{"d1", "d2", "d3"}, {"d", "d/d", "d/d/d"}, {"", "a", "a,b", "b"}, {"RoleManager", "redundant_role", "default", "*"}, {"d1", "d1 ", "D1"}, {"a", "b", "a\\", ",b"}, {"/a", "/a/", "a", "a/", "//a"}, {"d1", "d1.", "d1;", "d1\n", "d1\x00"}}[c.Intn(8)]
	if c.Chance(20) {
		s.doms = simNames(c, 3+c.Intn(2))
	}
	// a fixed set of observers in all domains: an edit in one domain changes nothing elsewhere
	paths := [][]string{}
	var rec func(p []string, n int)
	rec = func(p []string, n int) {
		if !s.fixedLen || len(p) == s.levels {
			paths = append(paths, append([]string{}, p...))
		}
		if n == 0 || len(paths) > 40 {
			return
		}
		for _, d := range s.doms {
			rec(append(p, d), n-1)
		}
	}
	rec(nil, s.levels)
	observe := func() map[string]string {
		res := map[string]string{}
		for _, p := range paths {
			out := ""
			for _, a := range s.names[:3] {
				for _, b := range s.names[:3] {
					ok, err := s.has(a, b, p)
					if err != nil {
						c.Failf("HasLink %q %q %q: %v", a, b, p, err)
					}
					out += fmt.Sprint(ok, " ")
				}
			}
			res[fmt.Sprintf("%q", p)] = out
		}
		return res
	}
	s.run(12+c.Intn(12), nil)
	for i := 0; i < 6; i++ {
		before := observe()
		l := s.pickLink()
		if c.Chance(50) {
			s.edit(true, l)
		} else {
			if len(s.links) > 0 && c.Chance(80) {
				l = s.anyLink()
			}
			s.edit(false, l)
		}
		after := observe()
		for p, o := range before {
			c.Eval()
			if p != fmt.Sprintf("%q", append([]string{}, l.doms...)) && after[p] != o {
				c.Failf("editing %s changed the answers in domain %s; links:\n%s", l.key(), p, s.dump())
			}
		}
		c.Count("edits observed from all domains")
	}
	for _, n := range s.names {
		s.checkDomains(n)
	}
	s.run(8, nil)
	c.Sample("domains %q, %d levels, links %s", s.doms, levels, trim(s.dump(), 300))
}

func runC09(c *C) {
	if c.rare(120) {
		scaleC09(c)
		return
	}
	if c.rare(120) {
		scaleMatcherLater(c)
		return
	}
	p := roleProfiles[c.Idx%len(roleProfiles)]
	levels := []int{-1, -1, 1, 2}[c.Intn(4)]
	viaE := c.Chance(30)
	s := newRoleSim(c, levels, viaE)
	s.limit = 5 + s.levels // chains through patterns are only judged if they are short
	s.names = append(append([]string{}, p.names[:3+c.Intn(len(p.names)-2)]...), p.patterns...)
	s.doms = domNames[:2]
	at := c.Intn(20) // when the matcher is set
	if c.Chance(50) {
		at = 0
	}
	switches := c.Chance(35)
	decoy := func() { // another matcher, or none, is used for a while
		if c.Chance(25) {
			s.setRole(nil)
		} else {
			s.setRole(roleProfiles[c.Intn(len(roleProfiles))].m)
		}
		s.queries(c.Intn(6))
		c.Count("other matcher used for a while")
	}
	if switches && c.Chance(60) { // while there are no links
		decoy()
		s.queries(8)
		s.setRole(nil)
		if at > 0 && c.Chance(50) {
			decoy()
		}
	}
	s.run(30, func(step int) {
		if switches && c.Chance(8) {
			back := s.realRole
			decoy()
			s.step(step)
			if step > at || c.Chance(50) {
				s.setRole(back)
			}
		}
		if step == at {
			s.setRole(p.m)
			c.Count("matcher " + p.name)
		}
		if step == 24 && c.Chance(15) { // set again
			s.setRole(p.m)
		}
	})
	if s.role == nil {
		s.setRole(p.m)
		s.queries(10)
	}
	for _, a := range s.names {
		for _, b := range s.names {
			s.checkHas(a, b, s.pickDoms())
		}
	}
	s.checkRange()
	c.Sample("%s: links %s", p.name, trim(s.dump(), 300))
}

func runC10(c *C) {
	if c.rare(120) {
		scaleC10(c)
		return
	}
	if c.rare(100) {
		scalePatterns(c)
		return
	}
	p := domProfiles[c.Idx%len(domProfiles)]
	levels := 1 + c.Intn(3)
	viaE := c.Chance(25)
	if viaE && levels > 2 {
		levels = 2
	}
	s := newRoleSim(c, levels, viaE)
	s.limit = 5 + s.levels
	s.names = simNames(c, 3+c.Intn(2))
	s.doms = append(append([]string{}, p.names...), p.patterns...)
	if c.Chance(50) {
		s.doms = append(append([]string{}, p.names[:2]...), p.patterns[c.Intn(len(p.patterns))], p.patterns[c.Intn(len(p.patterns))])
	}
	at := c.Intn(20)
	if c.Chance(60) {
		at = 0
	}
	var rp *profile
	if c.Chance(25) { // together with role patterns
		rp = &roleProfiles[c.Intn(len(roleProfiles))]
		s.names = append(append([]string{}, rp.names[:2]...), rp.patterns[:2]...)
	}
	roleAt := c.Intn(15)
	switches := c.Chance(35)
	decoy := func() {
		if c.Chance(25) {
			s.setDom(nil)
		} else {
			s.setDom(domProfiles[c.Intn(len(domProfiles))].m)
		}
		s.queries(c.Intn(6))
		c.Count("other matcher used for a while")
	}
	if switches && c.Chance(60) { // while there are no links
		decoy()
		s.queries(8)
		s.setDom(nil)
	}
	s.run(34, func(step int) {
		if switches && c.Chance(8) {
			back := s.realDom
			decoy()
			s.step(step)
			if step > at || c.Chance(50) {
				s.setDom(back)
			}
		}
		if step == at {
			s.setDom(p.m)
			c.Count("matcher " + p.name)
		}
		if rp != nil && step == roleAt {
			s.setRole(rp.m)
			c.Count("with role patterns")
		}
		if step == 25 && c.Chance(15) {
			s.setDom(p.m)
		}
	})
	if s.dom == nil {
		s.setDom(p.m)
	}
	s.queries(25)
	s.checkRange()
	if s.e != nil { // saving yields the explicit links
		ad := &memAdapter{}
		s.e.SetAdapter(ad)
		if err := s.e.SavePolicy(); err != nil {
			c.Failf("save: %v", err)
		}
		n := 0
		for _, r := range ad.rules {
			if r[0] != "g" {
				continue
			}
			n++
			if _, ok := s.links[link{r[1], r[2], append([]string{}, r[3:]...)}.key()]; !ok {
				c.Failf("saved %q, which was never added; links:\n%s", r, s.dump())
			}
		}
		if n != len(s.links) {
			c.Failf("saved %d links, expected %d", n, len(s.links))
		}
		c.Count("saved and compared")
	}
	c.Sample("%s, %d levels: links %s", p.name, levels, trim(s.dump(), 300))
}

func init() {
	register(&Check{ID: "C07", Level: "exploration", Quick: 15000, Full: 160000, Run: runC07,
		Rule:   "random link histories (adds, removals, duplicates, clears), long chains in random order with shortcuts, cycles and gaps, complete graphs; role managers without, with one and with two domain levels, edited directly or as grouping rules; lookups compared with breadth-first search, direct roles and users and listings with the set of links. Non-trivial: distinct (links, lookup).",
		Assume: []string{"a role manager of depth n follows chains of n-1 links, a domain manager of n-2 links, one less per domain level"}})
	register(&Check{ID: "C08", Level: "exploration", Quick: 4800, Full: 80000, Run: runC08,
		Rule: "random link histories over up to three domain levels, mixing links without domain, with domain and with subdomain, and domain names that are prefixes of each other, empty or special; after single edits all other domains are observed completely. Non-trivial: distinct (links, lookup)."})
	register(&Check{ID: "C09", Level: "exploration", Quick: 12000, Full: 140000, Run: runC09,
		Rule:   "random histories of links, pattern links, removals and queries with four kinds of matchers (regular expressions, two path languages, custom), matcher set before, in between or after, partly another matcher (or none) for a while; lookups compared with reachability over the links extended by direct pattern matching. Non-trivial: distinct (links, lookup).",
		Assume: []string{"role patterns of one model do not match each other", "a chain that needs a name nobody mentioned is not judged"}})
	register(&Check{ID: "C10", Level: "exploration", Quick: 9000, Full: 140000, Run: runC10,
		Rule:   "random histories of links in up to three levels of domains and domain patterns (overlapping), matcher set at any time, partly another matcher (or none) for a while, partly with role patterns, edited directly or as grouping rules; lookups compared with component-wise matching of the explicit links, return values, listings and saved rules with the set of explicit links. Non-trivial: distinct (links, lookup).",
		Assume: []string{"the path of a query has as many components as the path of the link"}})
}
