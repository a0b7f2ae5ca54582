package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
)

// profile is a vocabulary with a matcher; the patterns of a role profile do
// not match each other.
type profile struct {
	name     string
	names    []string
	patterns []string
	m        util.IMatcher
}

var starMatcher = util.NewMatcher(func(s string) bool { return strings.HasSuffix(s, "*") }, func(s, p string) bool { return strings.HasPrefix(s, strings.TrimSuffix(p, "*")) })

var longTail = strings.Repeat("x", 80)

var roleProfiles = []profile{
	{"regex", []string{"a1", "a2", "b1", "b2", "ab", "c"}, []string{"p'^a", "p'^b", "p'1$", "p'^(ab|c)$", "p'^zz"}, util.RegexMatcher},
	{"path", []string{"/u/1", "/u/2", "/r/1", "/r/2", "/r/x/y", "plain"}, []string{"/u/*", "/r/:id", "/:x/1"}, util.PathMatcher},
	{"path2", []string{"/u/1", "/u/2", "/r/1", "/r/2", "/r/x/y", "plain"}, []string{"/u/*", "/r/{id}", "/{x}/1"}, util.PathMatcher2},
	{"star", []string{"dev1", "dev2", "ops1", "ops2", "adm", "root"}, []string{"dev*", "ops*", "adm*"}, starMatcher},
	{"star with peculiar names", []string{"dev1", "Dev1", "d\n1", "dev\"1", " dev1", "dev'1", "y" + longTail + "1", "y" + longTail + "2", "d\u00e9v1", "d\\v"}, []string{"dev*", "Dev*", "d\n*", "y" + longTail + "1*", "d\u00e9*", "d\\*"}, starMatcher},
	{"regex with patterns like the prefix", []string{"p1", "''3", "pp2", "q1", "p", "'", "2p1"}, []string{"p'p\\d$", "p''+\\d$", "p'^pp", "p'''3$", "p'^'p"}, util.RegexMatcher},
}

var domProfiles = []profile{
	{"regex", []string{"x1", "x2", "y1", "y2"}, []string{"p'^x", "p'^y", "p'1$", "p'.*"}, util.RegexMatcher},
	{"path", []string{"/t/1", "/t/2", "/s/1", "/s/1/u"}, []string{"/t/*", "/:a/1", "*", "/s/*"}, util.PathMatcher},
	{"path2", []string{"/t/1", "/t/2", "/s/1", "z"}, []string{"/t/*", "/{a}/1", "*"}, util.PathMatcher2},
	{"star", []string{"x1", "x2", "y1", "y2"}, []string{"x*", "*", "y*"}, starMatcher},
	{"star with peculiar names", []string{"x1", "X1", "x\n1", "x\"1", "x" + longTail + "1", "x" + longTail + "2", "x\u00e91", "x\u00e81"}, []string{"x*", "X*", "x\n*", "x" + longTail + "1*"}, starMatcher},
	{"regex with patterns like the prefix", []string{"p1", "''3", "pp2", "q1"}, []string{"p'p\\d$", "p''+\\d$", "p'pp", "p'.*"}, util.RegexMatcher},
}

// refMatcher is the reference of the matchers of the library
type refMatcher struct {
	isPattern func(s string) bool
	match     func(s, pattern string) bool
}

func (m refMatcher) IsPattern(s string) bool      { return m.isPattern(s) }
func (m refMatcher) Match(s, pattern string) bool { return m.match(s, pattern) }

var refRegex sync.Map

func refSegments(dynamic func(seg string) bool) refMatcher {
	var match func(path, pattern []string) bool
	match = func(path, pattern []string) bool {
		if len(pattern) == 0 {
			return len(path) == 0
		}
		if pattern[0] == "*" { // one or more segments
			for i := 1; i <= len(path); i++ {
				if match(path[i:], pattern[1:]) {
					return true
				}
			}
			return false
		}
		return len(path) > 0 && (path[0] == pattern[0] || dynamic(pattern[0])) && match(path[1:], pattern[1:])
	}
	return refMatcher{func(s string) bool {
		for _, seg := range strings.Split(s, "/") {
			if seg == "*" || dynamic(seg) {
				return true
			}
		}
		return false
	}, func(s, pattern string) bool { return match(strings.Split(s, "/"), strings.Split(pattern, "/")) }}
}

// refOf returns what a matcher of the library should do
func refOf(m util.IMatcher) util.IMatcher {
	switch m {
	case util.IMatcher(util.RegexMatcher):
		return refMatcher{func(s string) bool { return len(s) > 1 && s[:2] == "p'" }, func(s, pattern string) bool {
			if len(pattern) < 2 || pattern[:2] != "p'" {
				return false
			}
			re, ok := refRegex.Load(pattern)
			if !ok {
				re = regexp.MustCompile(pattern[2:])
				refRegex.Store(pattern, re)
			}
			return re.(*regexp.Regexp).MatchString(s)
		}}
	case util.IMatcher(util.PathMatcher):
		return refSegments(func(seg string) bool { return strings.HasPrefix(seg, ":") })
	case util.IMatcher(util.PathMatcher2):
		return refSegments(func(seg string) bool { return strings.HasPrefix(seg, "{") && strings.HasSuffix(seg, "}") })
	}
	return m
}

type link struct {
	a, b string
	doms []string
}

func (l link) key() string { return fmt.Sprintf("%q %q %q", l.a, l.b, l.doms) }

// roleSim drives a role manager and the reference side by side.
type roleSim struct {
	c        *C
	rm       rbac.IRoleManager
	e        *fastac.Enforcer // links are edited as rules, if set
	levels   int              // -1: role manager without domains
	fixedLen bool
	names    []string // names and role patterns
	doms     []string
	role     util.IMatcher // references of the matchers that are set now
	dom      util.IMatcher
	realRole util.IMatcher // the matchers that are set now
	realDom  util.IMatcher
	links    map[string]link
	gone     []link // removed links
	limit    int    // chains up to this length are judged
	deepest  int    // longer chains are not followed
	judged   int
}

func (s *roleSim) isPat(m util.IMatcher, n string) bool { return m != nil && m.IsPattern(n) }

func (s *roleSim) covers(m util.IMatcher, pattern, name string) bool {
	return pattern == name || s.isPat(m, pattern) && !s.isPat(m, name) && m.Match(name, pattern)
}

func (s *roleSim) applies(d, q []string) bool {
	if len(d) != len(q) {
		return false
	}
	for i := range d {
		if !s.covers(s.dom, d[i], q[i]) {
			return false
		}
	}
	return true
}

func (s *roleSim) applicable(q []string) []link {
	res := []link{}
	for _, l := range s.links {
		if s.applies(l.doms, q) {
			res = append(res, l)
		}
	}
	return res
}

func (s *roleSim) edge(links []link, x, y string) bool {
	for _, l := range links {
		if s.covers(s.role, l.a, x) && s.covers(s.role, l.b, y) {
			return true
		}
	}
	return false
}

// reach returns the length of the shortest chain within the universe, -1: none
func (s *roleSim) reach(links []link, universe map[string]bool, from, to string) int {
	hit := func(n string) bool { return n == to || s.role != nil && s.role.Match(n, to) }
	if hit(from) {
		return 0
	}
	dist := map[string]int{from: 0}
	queue := []string{from}
	for len(queue) > 0 {
		x := queue[0]
		queue = queue[1:]
		for y := range universe {
			if _, ok := dist[y]; !ok && s.edge(links, x, y) {
				dist[y] = dist[x] + 1
				if hit(y) {
					return dist[y]
				}
				queue = append(queue, y)
			}
		}
	}
	return -1
}

func (s *roleSim) pickDoms() []string {
	if s.levels <= 0 {
		return nil
	}
	n := s.levels
	if !s.fixedLen {
		n = s.c.Intn(s.levels + 1)
	}
	res := []string{}
	for i := 0; i < n; i++ {
		res = append(res, s.c.Pick(s.doms))
	}
	return res
}

func (s *roleSim) pickLink() link {
	c := s.c
	if len(s.links) > 0 && c.Chance(30) { // near an existing link
		l := s.anyLink()
		switch c.Intn(3) {
		case 0:
			l.a, l.b = l.b, c.Pick(s.names)
		case 1:
			l.doms = s.pickDoms()
		case 2:
			l.b = c.Pick(s.names)
		}
		return l
	}
	if len(s.gone) > 0 && c.Chance(25) {
		return s.gone[c.Intn(len(s.gone))]
	}
	return link{c.Pick(s.names), c.Pick(s.names), s.pickDoms()}
}

func (s *roleSim) anyLink() link {
	keys := []string{}
	for k := range s.links {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return s.links[keys[s.c.Intn(len(keys))]]
}

func (s *roleSim) edit(add bool, l link) {
	c := s.c
	_, present := s.links[l.key()]
	var ok bool
	var err error
	mine := append([]string{}, l.doms...)
	switch {
	case s.e != nil && add:
		ok, err = s.e.AddRule(append([]string{"g", l.a, l.b}, l.doms...))
	case s.e != nil:
		ok, err = s.e.RemoveRule(append([]string{"g", l.a, l.b}, l.doms...))
	case add:
		ok, err = s.rm.AddLink(l.a, l.b, mine...)
	default:
		ok, err = s.rm.DeleteLink(l.a, l.b, mine...)
	}
	for i := range mine { // the slice is ours
		mine[i] = "overwritten"
	}
	c.Logf("add=%v %s => %v %v", add, l.key(), ok, err)
	c.Eval()
	if err != nil {
		c.Failf("add=%v %s: error %v", add, l.key(), err)
	}
	if want := add != present; ok != want {
		c.Failf("add=%v %s returned %v, expected %v; links:\n%s", add, l.key(), ok, want, s.dump())
	}
	if add {
		s.links[l.key()] = l
	} else if present {
		delete(s.links, l.key())
		s.gone = append(s.gone, l)
	}
	c.Count(fmt.Sprintf("edit add=%v effective=%v", add, add != present))
}

func (s *roleSim) dump() string {
	ks := []string{}
	for k := range s.links {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

func (s *roleSim) has(a, b string, doms []string) (bool, error) {
	if s.e == nil {
		mine := append([]string{}, doms...)
		ok, err := s.rm.HasLink(a, b, mine...)
		for i := range mine {
			if mine[i] != doms[i] {
				s.c.Failf("HasLink changed the slice of the caller")
			}
		}
		return ok, err
	}
	req := []interface{}{a, b}
	for _, d := range doms {
		req = append(req, d)
	}
	return s.e.Enforce(req...)
}

func (s *roleSim) checkHas(a, b string, doms []string) {
	c := s.c
	links := s.applicable(doms)
	// only names that are part of a link or of the question exist
	known := map[string]bool{a: true, b: true}
	for _, l := range links {
		known[l.a], known[l.b] = true, true
	}
	dist := s.reach(links, known, a, b)
	limit := s.limit - len(doms)
	got, err := s.has(a, b, doms)
	c.Logf("has %q %q %q => %v %v (chain of %d)", a, b, doms, got, err, dist)
	if err != nil {
		c.Failf("HasLink(%q, %q, %q): error %v", a, b, doms, err)
	}
	switch {
	case dist >= 0 && dist <= limit:
		c.Eval()
		if !got {
			c.Failf("HasLink(%q, %q, %q) = false, a chain of %d links exists; links:\n%s", a, b, doms, dist, s.dump())
		}
		c.Count(fmt.Sprintf("linked by a chain of %d", dist))
	case dist < 0:
		c.Eval()
		if got {
			c.Failf("HasLink(%q, %q, %q) = true, there is no chain of links; links:\n%s", a, b, doms, s.dump())
		}
		c.Count("not linked")
	case s.role != nil || dist <= s.deepest-len(doms):
		c.Count("not judged (too long)") // links by patterns do not count
		return
	default:
		c.Eval()
		if got {
			c.Failf("HasLink(%q, %q, %q) = true, the shortest chain has %d links, the depth is limited to %d; links:\n%s", a, b, doms, dist, s.deepest-len(doms), s.dump())
		}
		c.Count("chain beyond the depth limit")
	}
	s.judged++
	c.Distinct(s.dump(), a, b, doms, s.role != nil, s.dom != nil)
}

func (s *roleSim) checkNeighbours(n string, doms []string) {
	if s.e != nil {
		return
	}
	c := s.c
	links := s.applicable(doms)
	known := map[string]bool{}
	for _, l := range links {
		known[l.a], known[l.b] = true, true
	}
	judge := func(kind string, got []string, err error, edge func(y string) bool, direct func(l link) (string, bool)) {
		c.Logf("%s %q %q => %q", kind, n, doms, got)
		if err != nil {
			c.Failf("%s(%q, %q): error %v", kind, n, doms, err)
		}
		c.Eval()
		c.Count(kind + " compared")
		set := map[string]int{}
		for _, y := range got {
			set[y]++
			if !known[y] && y != n {
				c.Failf("%s(%q, %q) = %q, %q is not part of any link; links:\n%s", kind, n, doms, got, y, s.dump())
			}
			if !edge(y) {
				c.Failf("%s(%q, %q) = %q, %q is not linked; links:\n%s", kind, n, doms, got, y, s.dump())
			}
		}
		if len(set) != len(got) {
			c.Failf("%s(%q, %q) = %q contains duplicates; links:\n%s", kind, n, doms, got, s.dump())
		}
		for _, l := range links {
			if y, ok := direct(l); ok && set[y] == 0 {
				c.Failf("%s(%q, %q) = %q misses %q; links:\n%s", kind, n, doms, got, y, s.dump())
			}
		}
		for y := range known {
			if !s.isPat(s.role, y) && edge(y) && y != n && set[y] == 0 {
				c.Failf("%s(%q, %q) = %q misses %q; links:\n%s", kind, n, doms, got, y, s.dump())
			}
		}
	}
	got, err := s.rm.GetRoles(n, doms...)
	judge("GetRoles", got, err, func(y string) bool { return s.edge(links, n, y) }, func(l link) (string, bool) { return l.b, s.covers(s.role, l.a, n) })
	s.c.keep("GetRoles", got)
	got, err = s.rm.GetUsers(n, doms...)
	judge("GetUsers", got, err, func(y string) bool { return s.edge(links, y, n) }, func(l link) (string, bool) { return l.a, s.covers(s.role, l.b, n) })
	s.c.keep("GetUsers", got)
}

func (s *roleSim) checkRange() {
	c := s.c
	got := []string{}
	if s.e != nil {
		s.e.GetModel().RangeRules(func(r []string) bool {
			if r[0] == "g" {
				got = append(got, link{r[1], r[2], append([]string{}, r[3:]...)}.key())
			}
			return true
		})
	} else {
		s.rm.Range(func(a, b string, doms ...string) bool {
			got = append(got, link{a, b, append([]string{}, doms...)}.key())
			return true
		})
	}
	want := []string{}
	for _, l := range s.links {
		l.doms = append([]string{}, l.doms...)
		want = append(want, l.key())
	}
	sort.Strings(got)
	sort.Strings(want)
	c.Eval()
	c.Count("listings compared")
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		c.Failf("listed links:\n%s\nexpected:\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
}

type domainLister interface {
	GetDomains(name string) ([]string, error)
	GetAllDomains() ([]string, error)
}

// checkDomains compares the listed domains (only without domain patterns)
func (s *roleSim) checkDomains(n string) {
	dl, ok := s.rm.(domainLister)
	if !ok || s.e != nil || s.levels < 1 || s.dom != nil {
		return
	}
	all, mine := map[string]bool{}, map[string]bool{}
	for _, l := range s.links {
		d := strings.Join(l.doms, "/")
		all[d] = true
		if s.covers(s.role, l.a, n) || s.covers(s.role, l.b, n) {
			mine[d] = true
		}
	}
	cmp := func(kind string, got []string, err error, want map[string]bool) {
		if err != nil {
			s.c.Failf("%s: error %v", kind, err)
		}
		set := map[string]bool{}
		for _, d := range got {
			if d == "" {
				continue // links without a domain
			}
			if set[d] {
				s.c.Failf("%s lists %q twice: %q", kind, d, got)
			}
			set[d] = true
			if !want[d] {
				s.c.Failf("%s lists %q; links:\n%s", kind, d, s.dump())
			}
		}
		for d := range want {
			if d != "" && !set[d] {
				s.c.Failf("%s = %q misses %q; links:\n%s", kind, got, d, s.dump())
			}
		}
		s.c.Eval()
		s.c.Count("domain lists compared")
	}
	got, err := dl.GetDomains(n)
	if s.role == nil {
		cmp(fmt.Sprintf("GetDomains(%q)", n), got, err, mine)
	}
	s.c.keep("GetDomains", got)
	got, err = dl.GetAllDomains()
	cmp("GetAllDomains", got, err, all)
	s.c.keep("GetAllDomains", got)
}

// queryNames may be unknown to the role manager
func (s *roleSim) queryName() string {
	if s.c.Chance(6) {
		return s.c.Pick([]string{"unknown", "a9", "/u/9", "dev9", "/r/9", ""})
	}
	return s.c.Pick(s.names)
}

func (s *roleSim) queryDoms() []string {
	doms := s.pickDoms()
	if len(doms) > 0 && s.c.Chance(8) {
		doms[s.c.Intn(len(doms))] = s.c.Pick([]string{"unknown", "x9", "/t/9", "y9", ""})
	}
	return doms
}

func (s *roleSim) queries(n int) {
	for i := 0; i < n; i++ {
		doms := s.queryDoms()
		a, b := s.queryName(), s.queryName()
		if len(s.links) > 0 && s.c.Chance(50) { // ask about something that is near a link
			l := s.anyLink()
			if s.c.Chance(60) {
				a = l.a
			}
			if s.c.Chance(60) {
				b = l.b
			}
			if s.c.Chance(60) {
				doms = append([]string{}, l.doms...)
				if s.dom != nil && len(doms) > 0 && s.c.Chance(60) {
					k := s.c.Intn(len(doms))
					doms[k] = s.c.Pick(s.doms)
				}
			}
			if s.role != nil && s.c.Chance(40) {
				a = s.c.Pick(s.names)
			}
		}
		s.checkHas(a, b, doms)
		if s.c.Chance(30) {
			s.checkNeighbours(s.queryName(), s.queryDoms())
			s.checkNeighbours(a, doms)
		}
		if s.c.Chance(15) {
			s.checkDomains(s.queryName())
		}
	}
}

func (s *roleSim) clear() {
	var err error
	if s.e != nil {
		err = s.e.GetModel().ClearPolicy("g")
	} else {
		err = s.rm.Clear()
	}
	if err != nil {
		s.c.Failf("clear: %v", err)
	}
	s.links = map[string]link{}
	s.c.Logf("clear")
	s.c.Count("cleared")
}

// newRoleSim creates a role manager (levels < 0), a domain manager or an
// enforcer with a role definition.
func newRoleSim(c *C, levels int, viaEnforcer bool) *roleSim {
	s := &roleSim{c: c, levels: levels, links: map[string]link{}}
	if levels < 0 {
		s.levels = 0
	}
	if viaEnforcer {
		args, g := []string{"a", "b"}, []string{"r.a", "r.b"}
		for i := 0; i < s.levels; i++ {
			args = append(args, fmt.Sprint("d", i))
			g = append(g, fmt.Sprint("r.d", i))
		}
		s.fixedLen = true
		text := modelText("r", args, "p", []string{"x"}, []gDef{{"g", s.levels}}, "e", effects[0], "m", "g("+strings.Join(g, ", ")+")")
		m := model.NewModel()
		if err := m.LoadModelFromText(text); err != nil {
			c.Failf("%v", err)
		}
		e, err := fastac.NewEnforcer(m, nil)
		if err != nil {
			c.Failf("%v", err)
		}
		if _, err := e.AddRule([]string{"p", "x"}); err != nil {
			c.Failf("%v", err)
		}
		s.e = e
		s.rm, _ = m.GetRoleManager("g")
		s.limit = 9
		if s.levels > 0 {
			s.limit = 8 // one less per domain level
		}
		s.deepest = s.limit
		return s
	}
	if s.setDepth(10, levels < 0); c.Chance(15) {
		s.setDepth(11+c.Intn(8), levels < 0)
		c.Count("role managers of another depth")
	}
	return s
}

// setDepth starts with a new role manager
func (s *roleSim) setDepth(depth int, plain bool) {
	if plain {
		s.rm = rbac.NewRoleManager(depth)
		s.limit = depth - 1
	} else {
		s.rm = rbac.NewDomainManager(depth)
		s.limit = depth - 2
	}
	s.deepest = s.limit
}

func (s *roleSim) setRole(m util.IMatcher) {
	s.role, s.realRole = refOf(m), m
	s.rm.(rbac.IDefaultRoleManager).SetMatcher(m)
	s.c.Logf("set role matcher")
}

func (s *roleSim) setDom(m util.IMatcher) {
	s.dom, s.realDom = refOf(m), m
	s.rm.(rbac.IDefaultRoleManager).SetDomainMatcher(m)
	s.c.Logf("set domain matcher")
}

// step executes a random edit or some queries.
func (s *roleSim) step(i int) {
	c := s.c
	switch k := c.Intn(100); {
	case k < 45:
		s.edit(true, s.pickLink())
	case k < 68:
		l := s.pickLink()
		if len(s.links) > 0 && c.Chance(85) {
			l = s.anyLink()
		}
		s.edit(false, l)
	case k < 69 && i > 5 && c.Chance(30):
		s.clear()
	case k < 92:
		s.queries(3)
	default:
		s.checkRange()
	}
}

// run executes a random history.
func (s *roleSim) run(steps int, hook func(step int)) {
	c := s.c
	for i := 0; i < steps; i++ {
		if hook != nil {
			hook(i)
		}
		s.step(i)
	}
	s.queries(12)
	s.checkRange()
	// remove everything, in random order
	if c.Chance(40) {
		for len(s.links) > 0 {
			s.edit(false, s.anyLink())
			s.queries(1)
		}
		s.checkRange()
		s.queries(6)
		c.Count("emptied link by link")
	}
}
