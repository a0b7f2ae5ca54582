package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/api"
	flog "github.com/abichinger/fastac/log"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/fm"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/storage/adapter"
	"github.com/abichinger/fastac/util"
	"github.com/sirupsen/logrus"
)

// leakWorld is the system whose footprint is observed.
type leakWorld struct {
	e      *fastac.Enforcer
	m      *model.Model
	rms    []rbac.IRoleManager
	levels []int
	rArgs  int
	rKey   string
	p0     string // a policy argument
	r0     string
	gKey   string
	evalP  bool
	probes int64 // calls of matching functions
	fixed  []interface{}
	edits  [][]string
	ctx    *fastac.Context
}

type leakModel struct {
	name, text string
	rules      [][]string
	fixed      []interface{}
	levels     int
	setup      func(w *leakWorld)
}

var leakModels = []leakModel{
	{"acl", "[request_definition]\nr = sub, obj, act\n[policy_definition]\np = sub, obj, act\n[policy_effect]\ne = some(where (p.eft == allow))\n[matchers]\nm = probe(r.sub, p.sub) && r.obj == p.obj && (r.act == p.act || p.act == \"*\")\n",
		[][]string{{"p", "s1", "o1", "read"}, {"p", "s2", "o1", "*"}, {"p", "s1", "o2", "write"}}, []interface{}{"s9", "o1", "read"}, -1, nil},
	{"functions", "[request_definition]\nr = sub, obj, act\n[policy_definition]\np = sub, obj, act\n[policy_effect]\ne = !some(where (p.eft == deny))\n[matchers]\nm = probe(r.sub, p.sub) && pathMatch(r.obj, p.obj) && (regexMatch(r.act, p.act) || globMatch(r.obj, p.act) || pathMatch2(r.obj, r.obj))\n",
		[][]string{{"p", "s1", "/a/:x", "read"}, {"p", "s2", "/a/*", "(read|write)"}, {"p", "s1", "/b", ".*"}}, []interface{}{"s1", "/a/1", "read"}, -1, nil},
	{"roles", "[request_definition]\nr = sub, obj, act\n[policy_definition]\np = sub, obj, act\n[role_definition]\ng = _, _\n[policy_effect]\ne = some(where (p.eft == allow)) && !some(where (p.eft == deny))\n[matchers]\nm = g(r.sub, p.sub) && probe(r.obj, p.obj) && r.act == p.act\n",
		[][]string{{"p", "admin", "o1", "read"}, {"p", "dev", "o1", "read"}, {"g", "alice", "admin"}, {"g", "/u/*", "dev"}, {"g", "dev", "/grp/:x"}}, []interface{}{"alice", "o1", "write"}, 0,
		func(w *leakWorld) { w.rms[0].(rbac.IDefaultRoleManager).SetMatcher(util.PathMatcher) }},
	{"domains", "[request_definition]\nr = sub, dom, obj\n[policy_definition]\np = sub, dom, obj\n[role_definition]\ng = _, _, _\n[policy_effect]\ne = some(where (p.eft == allow))\n[matchers]\nm = g(r.sub, p.sub, r.dom) && probe(r.dom, p.dom) && r.obj == p.obj\n",
		[][]string{{"p", "admin", "/t/1", "o1"}, {"p", "dev", "/t/1", "o1"}, {"g", "alice", "admin", "/t/1"}, {"g", "/u/*", "dev", "/t/*"}, {"g", "bob", "dev", "/t/2"}}, []interface{}{"alice", "/t/1", "o7"}, 1,
		func(w *leakWorld) {
			w.rms[0].(rbac.IDefaultRoleManager).SetMatcher(util.PathMatcher)
			w.rms[0].(rbac.IDefaultRoleManager).SetDomainMatcher(util.PathMatcher)
		}},
	{"plain domains", "[request_definition]\nr = sub, dom, obj\n[policy_definition]\np = sub, dom, obj\n[role_definition]\ng = _, _, _, _\n[policy_effect]\ne = some(where (p.eft == allow))\n[matchers]\nm = g(r.sub, p.sub, r.dom, r.obj) && probe(r.dom, p.dom) && r.obj == p.obj\n",
		[][]string{{"p", "admin", "t1", "o1"}, {"p", "dev", "t1", "o1"}, {"g", "alice", "admin", "t1", "o1"}, {"g", "alice", "admin", "t2", "o2"}}, []interface{}{"alice", "t1", "o7"}, 2, nil},
	{"eval", "[request_definition]\nr = sub, obj, act\n[policy_definition]\np = rule, obj, act\n[policy_effect]\ne = some(where (p.eft == allow))\n[matchers]\nm = probe(r.obj, p.obj) && eval(p.rule) && r.act == p.act\n",
		[][]string{{"p", "r.sub.Age > 18", "o1", "read"}, {"p", "r.sub.Name == \"x\" || r.sub.Admin", "o1", "read"}, {"p", "r.sub.Age < 3 && p.act == \"read\"", "o2", "read"}}, []interface{}{Attr{Name: "n", Age: 30}, "o1", "none"}, -1, nil},
}

func newLeakWorld(c *C) (*leakWorld, *leakModel) {
	lm := &leakModels[c.Intn(len(leakModels))]
	w := &leakWorld{rArgs: len(lm.fixed), fixed: lm.fixed, evalP: lm.name == "eval"}
	m := model.NewModel()
	m.SetFunction("probe", func(a ...interface{}) (interface{}, error) {
		atomic.AddInt64(&w.probes, 1)
		return len(fmt.Sprint(a[0])) > 0, nil
	})
	m.SetFunction("explode", func(a ...interface{}) (interface{}, error) { panic("explode") })
	m.SetFunction("fails", func(a ...interface{}) (interface{}, error) { return nil, fmt.Errorf("fails") })
	if err := m.LoadModelFromText(lm.text); err != nil {
		c.Failf("model %s: %v", lm.name, err)
	}
	w.m = m
	if rm, ok := m.GetRoleManager("g"); ok {
		w.rms = append(w.rms, rm)
		w.gKey = "g"
	}
	w.levels = []int{lm.levels}
	var err error
	var store interface{}
	if c.Chance(30) { // storage listens to the rules, too
		store = nullStore{}
		c.Count("worlds with storage")
	}
	if store == nil {
		w.e, err = fastac.NewEnforcer(m, nil)
	} else {
		w.e, err = fastac.NewEnforcer(m, store, fastac.OptionAutosave(true))
	}
	if err != nil {
		c.Failf("enforcer: %v", err)
	}
	if c.Chance(20) {
		l := logrus.New()
		l.SetOutput(io.Discard)
		flog.SetLogger(l)
	} else {
		flog.SetLogger(flog.NullLogger())
	}
	if lm.setup != nil && c.Chance(75) {
		lm.setup(w)
	}
	for _, r := range lm.rules {
		if _, err := w.e.AddRule(r); err != nil {
			c.Failf("rule %q: %v", r, err)
		}
	}
	for i := 0; i < 6; i++ {
		r := append([]string{}, lm.rules[i%len(lm.rules)]...)
		r[len(r)-1] += fmt.Sprint("edit", i)
		w.edits = append(w.edits, r)
	}
	args := strings.Split(strings.Split(lm.text, "\n")[3], " = ")[1]
	w.p0 = strings.Split(args, ", ")[1]
	args = strings.Split(strings.Split(lm.text, "\n")[1], " = ")[1]
	w.r0 = strings.Split(args, ", ")[1]
	if w.ctx, err = fastac.NewContext(m, fastac.SetMatcher(fmt.Sprintf("p.%s == \"o1\"", w.p0))); err != nil {
		c.Failf("context: %v", err)
	}
	return w, lm
}

// value is a request value that never occurred before.
func (w *leakWorld) value(i, pos int) interface{} {
	if w.evalP && pos == 0 {
		return Attr{Name: fmt.Sprint("n", i), Age: float64(i % 50)}
	}
	switch (i + pos) % 7 {
	case 0:
		return fmt.Sprint("/u/", i)
	case 1:
		return fmt.Sprint("/t/", i)
	case 2:
		return fmt.Sprint("/a/", i, "/x")
	case 3:
		if f, ok := w.fixed[pos].(string); ok {
			return f
		}
	case 4:
		return fmt.Sprint("/t/", i%4, "/:x", i)
	}
	return fmt.Sprint("fresh", i, "_", pos)
}

func (w *leakWorld) request(i int) []interface{} {
	res := make([]interface{}, w.rArgs)
	for j := range res {
		res[j] = w.value(i, j)
	}
	return res
}

func (w *leakWorld) with(i int, opts ...interface{}) []interface{} {
	return append(opts, w.request(i)...)
}

func (w *leakWorld) rm(i int) (rbac.IRoleManager, []string) {
	rm := w.rms[i%len(w.rms)]
	doms := []string{}
	for j := 0; j < w.levels[0]; j++ {
		doms = append(doms, fmt.Sprint("/t/", i+j))
	}
	return rm, doms
}

// nullStore accepts everything and keeps nothing
type nullStore struct{}

func (nullStore) LoadPolicy(api.IAddRuleBool) error { return nil }
func (nullStore) SavePolicy(api.IRangeRules) error  { return nil }
func (nullStore) AddRule([]string) error            { return nil }
func (nullStore) RemoveRule([]string) error         { return nil }

type leakKind struct {
	name string
	rm   bool
	do   func(w *leakWorld, i int)
}

var leakKinds = []leakKind{
	{"requests with fresh values", false, func(w *leakWorld, i int) { _, _ = w.e.Enforce(w.request(i)...) }},
	{"filters with fresh values", false, func(w *leakWorld, i int) { _, _ = w.e.Filter(w.request(i)...) }},
	{"stopped iterations", false, func(w *leakWorld, i int) {
		n := i % 3
		_ = w.e.RangeMatches(w.request(i), func([]string) bool { n--; return n > 0 })
	}},
	{"requests with ad-hoc matchers", false, func(w *leakWorld, i int) {
		_, _ = w.e.Enforce(w.with(i, fastac.SetMatcher(fmt.Sprintf("p.%s == \"v%d\" || r.%s == p.%s", w.p0, i, w.r0, w.p0)))...)
	}},
	{"filters with ad-hoc matchers", false, func(w *leakWorld, i int) {
		_, _ = w.e.Filter(fastac.SetMatcher(fmt.Sprintf("p.%s == \"v%d\" || p.%s != \"o1\"", w.p0, i, w.p0)))
	}},
	{"the same ad-hoc matcher", false, func(w *leakWorld, i int) {
		_, _ = w.e.Filter(fastac.SetMatcher(fmt.Sprintf("p.%s == \"o1\"", w.p0)))
	}},
	{"stopped iterations with ad-hoc matchers", false, func(w *leakWorld, i int) {
		_ = w.e.RangeMatches([]interface{}{fastac.SetMatcher(fmt.Sprintf("p.%s != \"v%d\"", w.p0, i))}, func([]string) bool { return false })
	}},
	{"panicking visitors", false, func(w *leakWorld, i int) {
		defer func() { _ = recover() }()
		_ = w.e.RangeMatches([]interface{}{fastac.SetMatcher(fmt.Sprintf("p.%s != \"v%d\"", w.p0, i))}, func([]string) bool { panic("visitor") })
	}},
	{"filters of grouping rules", true, func(w *leakWorld, i int) {
		_, _ = w.e.Filter(fastac.SetMatcher(fmt.Sprintf("g.role == \"v%d\" || g.user != \"x\"", i)))
	}},
	{"matcher objects", false, func(w *leakWorld, i int) {
		_, _ = w.e.Enforce(w.with(i, fastac.SetMatcher(defs.NewMatcherDef(fmt.Sprint("m", i), fmt.Sprintf("p.%s == \"v%d\"", w.p0, i))))...)
	}},
	{"request definitions", false, func(w *leakWorld, i int) {
		_, _ = w.e.Enforce("a", "b", fastac.SetRequestDef(fmt.Sprintf("r%d = x%d, y", 2+i%5, i)), fastac.SetMatcher(fmt.Sprintf("r%d.y == p.%s", 2+i%5, w.p0)))
		_, _ = w.e.Enforce("a", "b", fastac.SetRequestDef(defs.NewRequestDef("r", fmt.Sprintf("x%d, y", i))), fastac.SetMatcher(fmt.Sprintf("r.y == p.%s", w.p0)))
	}},
	{"effectors", false, func(w *leakWorld, i int) {
		_, _ = w.e.Enforce(w.with(i, fastac.SetEffector(effects[i%3]))...)
		_, _ = w.e.Enforce(w.with(i, fastac.SetEffector(fmt.Sprint("unknown effect", i)))...)
	}},
	{"contexts", false, func(w *leakWorld, i int) {
		ctx, err := fastac.NewContext(w.m, fastac.SetMatcher(fmt.Sprintf("p.%s == \"v%d\"", w.p0, i)))
		if err == nil {
			_, _ = w.e.EnforceWithContext(ctx, w.request(i)...)
			_, _ = w.e.FilterWithContext(ctx, w.request(i)...)
			ctx.Close()
		}
	}},
	{"a context of the caller", false, func(w *leakWorld, i int) {
		_, _ = w.e.EnforceWithContext(w.ctx, w.request(i)...)
		_, _ = w.e.FilterWithContext(w.ctx, w.request(i)...)
	}},
	{"surplus and missing values", false, func(w *leakWorld, i int) {
		_, _ = w.e.Enforce(append(w.request(i), "surplus")...)
		_, _ = w.e.Enforce(w.request(i)[:i%w.rArgs]...)
		_, _ = w.e.Filter()
	}},
	{"values of wrong types", false, func(w *leakWorld, i int) {
		req := w.request(i)
		req[i%len(req)] = []interface{}{nil, i, []string{"x"}, map[string]interface{}{"x": i}, func() {}, make(chan int)}[i%6]
		_, _ = w.e.Enforce(req...)
	}},
	{"malformed matchers", false, func(w *leakWorld, i int) {
		bad := []string{"p.%s == \"v%d\" &&", "(p.%s == %d", "p.%s ==== %d", "p.%s == r.unknown%d", "unknown%[2]d(p.%[1]s)", "regexMatch(p.%s, \"(%d\")"}
		_, _ = w.e.Enforce(w.with(i, fastac.SetMatcher(fmt.Sprintf(bad[i%len(bad)], w.p0, i)))...)
		_, _ = w.e.Filter(fastac.SetMatcher(fmt.Sprintf(bad[i%len(bad)], w.p0, i)))
	}},
	{"a good matcher and a bad option", false, func(w *leakWorld, i int) {
		bad := []interface{}{fastac.SetMatcher(fmt.Sprintf("(p.%s == %d", w.p0, i)), fastac.SetRequestDef(fmt.Sprint("r", i+100)), fastac.SetEffector(i), fastac.SetMatcher(i)}[i%4]
		req := w.with(i, fastac.SetMatcher(fmt.Sprintf("p.%s == \"v%d\"", w.p0, i)))
		_, _ = w.e.Enforce(append(req, bad)...)
		_, _ = w.e.Filter(append(req, bad)...)
	}},
	{"failing matchers", false, func(w *leakWorld, i int) {
		bad := []string{"explode(p.%s, %d)", "fails(p.%s, %d)", "p.%s + %d > 3", "pathMatch(p.%s, %d)", "p.%s == \"o1\" && explode(%d)"}
		_, _ = w.e.Enforce(w.with(i, fastac.SetMatcher(fmt.Sprintf(bad[i%len(bad)], w.p0, i)))...)
		_, _ = w.e.Filter(w.with(i, fastac.SetMatcher(fmt.Sprintf(bad[i%len(bad)], w.p0, i)))...)
	}},
	{"unknown definitions", false, func(w *leakWorld, i int) {
		_, _ = w.e.Enforce(w.with(i, fastac.SetMatcher(fmt.Sprint("m", i)))...)
		_, _ = w.e.Enforce(w.with(i, fastac.SetRequestDef(fmt.Sprint("r", i)))...)
		_, _ = w.m.GetPolicy(fmt.Sprint("p", i))
		_, _ = w.m.GetMatcher(fmt.Sprint("m", i))
		_, _ = w.m.GetEffector(fmt.Sprint("e", i))
		_, _ = w.m.GetRoleManager(fmt.Sprint("g", i))
		_, _ = w.m.GetDef("rpgem"[i%5], fmt.Sprint("k", i))
		_, _ = w.m.GetRequestDef(fmt.Sprint("r", i))
	}},
	{"rejected edits", false, func(w *leakWorld, i int) {
		_, _ = w.e.AddRule([]string{fmt.Sprint("x", i), "a"})
		_, _ = w.e.AddRule([]string{})
		_, _ = w.e.RemoveRule([]string{fmt.Sprint("x", i), "a"})
		_, _ = w.e.AddRule([]string{"g", fmt.Sprint("u", i)})
	}},
	{"edits without effect", false, func(w *leakWorld, i int) {
		_, _ = w.e.RemoveRule([]string{"p", fmt.Sprint("x", i), "a", "b"})
		if w.gKey != "" {
			doms := []string{"g", fmt.Sprint("u", i), fmt.Sprint("r", i)}
			for j := 0; j < w.levels[0]; j++ {
				doms = append(doms, fmt.Sprint("/t/", i))
			}
			_, _ = w.e.RemoveRule(doms)
		}
	}},
	{"listings", false, func(w *leakWorld, i int) {
		n := i % 4
		w.m.RangeRules(func([]string) bool { n--; return n > 0 })
		_ = w.m.String()
		_ = w.e.GetModel()
	}},
	{"links of unknown names", true, func(w *leakWorld, i int) {
		rm, d := w.rm(i)
		_, _ = rm.HasLink(fmt.Sprint("u", i), fmt.Sprint("r", i), d...)
		_, _ = rm.HasLink("alice", fmt.Sprint("r", i), d...)
		_, _ = rm.HasLink(fmt.Sprint("/u/", i), "dev", d...)
	}},
	{"roles of unknown names", true, func(w *leakWorld, i int) {
		rm, d := w.rm(i)
		_, _ = rm.GetRoles(fmt.Sprint("u", i), d...)
		_, _ = rm.GetRoles(fmt.Sprint("/u/", i), d...)
		_, _ = rm.GetRoles("alice", d...)
	}},
	{"users of unknown names", true, func(w *leakWorld, i int) {
		rm, d := w.rm(i)
		_, _ = rm.GetUsers(fmt.Sprint("u", i), d...)
		_, _ = rm.GetUsers(fmt.Sprint("/grp/", i), d...)
		_, _ = rm.GetUsers("dev", d...)
	}},
	{"patterns as names", true, func(w *leakWorld, i int) {
		rm, d := w.rm(i)
		for j := range d {
			d[j] += "/*"
		}
		_, _ = rm.HasLink(fmt.Sprint("/u/:x", i), fmt.Sprint("/r/:x/", i), d...)
		_, _ = rm.GetRoles(fmt.Sprint("/u/", i, "/*"), d...)
		_, _ = rm.GetUsers(fmt.Sprint("/grp/", i, "/*"), d...)
	}},
	{"known names in unknown domains", true, func(w *leakWorld, i int) {
		rm, d := w.rm(i)
		_, _ = rm.HasLink("alice", "admin", d...)
		_, _ = rm.GetRoles("alice", d...)
		_, _ = rm.GetUsers("admin", d...)
		_, _ = rm.HasLink("bob", "dev", d...)
	}},
	{"domain paths of any depth", true, func(w *leakWorld, i int) {
		rm, d := w.rm(i)
		for j := 0; j < i%3; j++ {
			d = append(d, fmt.Sprint("deep", i))
		}
		_, _ = rm.HasLink("alice", "admin", d...)
		_, _ = rm.HasLink("alice", "admin")
		_, _ = rm.GetRoles("alice", append([]string{fmt.Sprint("dom", i)}, d...)...)
	}},
	{"domain lists", true, func(w *leakWorld, i int) {
		if dl, ok := w.rms[0].(domainLister); ok {
			_, _ = dl.GetDomains(fmt.Sprint("u", i))
			_, _ = dl.GetDomains("alice")
			_, _ = dl.GetAllDomains()
		}
		n := i % 3
		w.rms[0].Range(func(a, b string, d ...string) bool { n--; return n > 0 })
	}},
	{"deleting unknown links", true, func(w *leakWorld, i int) {
		rm, d := w.rm(i)
		_, _ = rm.DeleteLink(fmt.Sprint("u", i), "admin", d...)
		_, _ = rm.DeleteLink("alice", fmt.Sprint("/r/", i), d...)
	}},
	{"matching functions", false, func(w *leakWorld, i int) {
		defer func() { _ = recover() }() // called directly, patterns must be valid
		a, b := fmt.Sprint("/a/", i), fmt.Sprint("/a/:x/", i)
		_ = util.PathMatch(a, b)
		_ = util.PathMatch2(a, fmt.Sprint("/a/{x", i, "}"))
		_ = util.RegexMatch(a, fmt.Sprint("^/a/", i, "$"))
		_, _ = util.GlobMatch(a, fmt.Sprint("/a/", i, "*"))
		_ = util.IPMatch(fmt.Sprintf("10.0.%d.%d", i/250%250, i%250), fmt.Sprintf("10.0.%d.0/24", i/250%250))
		_, _ = util.PathMatchFunc(a)
		_, _ = util.RegexMatchFunc(a, fmt.Sprint("(", i))
	}},
	{"matching functions in requests", false, func(w *leakWorld, i int) {
		fn := []string{"regexMatch", "pathMatch", "pathMatch2", "globMatch"}[i%4]
		_, _ = w.e.Enforce(w.with(i, fastac.SetMatcher(fmt.Sprintf("%s(p.%s, r.%s)", fn, w.p0, w.r0)))...)
	}},
	{"added and removed rules", false, func(w *leakWorld, i int) {
		r := append([]string{}, w.edits[i%len(w.edits)]...)
		r[1] += fmt.Sprint("churn", i)
		if w.evalP {
			r[1] = fmt.Sprintf("r.sub.Age > %d", i)
		}
		_, _ = w.e.AddRule(r)
		if i%5 == 0 {
			_, _ = w.e.Enforce(w.request(i)...)
		}
		_, _ = w.e.RemoveRule(r)
	}},
	{"added and removed links", true, func(w *leakWorld, i int) {
		r := []string{"g", fmt.Sprint([]string{"u", "/u/", "/p/*", ":x"}[i%4], i), fmt.Sprint([]string{"r", "/grp/", "/p/:x", ":y"}[i/4%4], i)}
		for l := 0; l < w.levels[0]; l++ { // domains that were not used before, and patterns
			n := i
			if i%3 == l {
				n %= 7
			}
			r = append(r, fmt.Sprint([]string{"d", "/dom/", "/dom/*/"}[(i/16+i*l)%3], n))
		}
		_, _ = w.e.AddRule(r)
		if i%5 == 0 {
			_, _ = w.e.Enforce(w.request(i)...)
		}
		_, _ = w.e.RemoveRule(r)
	}},
}

type footprint struct {
	objects, bytes int64
	goroutines     int
	files          int
}

func measure() footprint {
	var ms runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	return footprint{int64(ms.HeapObjects), int64(ms.HeapAlloc), runtime.NumGoroutine(), openFiles()}
}

func (a footprint) grew(b footprint, n int) string {
	if d := b.objects - a.objects; d > int64(n)/5+60 {
		return fmt.Sprintf("%d queries left %d objects behind", n, d)
	}
	if d := b.bytes - a.bytes; d > int64(n)*4+8192 {
		return fmt.Sprintf("%d queries left %d bytes behind", n, d)
	}
	return ""
}

// costs of fixed edits and requests
type costs struct {
	edits, request uint64 // allocations
	probes         int64
}

func (w *leakWorld) costs(c *C) costs {
	res := costs{}
	var a, b runtime.MemStats
	for k := 0; k < 4; k++ {
		runtime.ReadMemStats(&a)
		for _, r := range w.edits {
			if ok, err := w.e.AddRule(r); !ok || err != nil {
				c.Failf("adding %q: %v %v", r, ok, err)
			}
		}
		for _, r := range w.edits {
			if ok, err := w.e.RemoveRule(r); !ok || err != nil {
				c.Failf("removing %q: %v %v", r, ok, err)
			}
		}
		runtime.ReadMemStats(&b)
		if d := b.Mallocs - a.Mallocs; k == 0 || d < res.edits {
			res.edits = d
		}
	}
	for k := 0; k < 4; k++ {
		n := atomic.LoadInt64(&w.probes)
		runtime.ReadMemStats(&a)
		_, err := w.e.Filter(w.fixed...)
		runtime.ReadMemStats(&b)
		if err != nil {
			c.Failf("filter %v: %v", w.fixed, err)
		}
		if d := b.Mallocs - a.Mallocs; k == 0 || d < res.request {
			res.request = d
		}
		if p := atomic.LoadInt64(&w.probes) - n; k == 0 || p < res.probes {
			res.probes = p
		}
	}
	return res
}

// c28Files: loading and saving does not rely on the garbage collector to close files.
func c28Files(c *C) {
	dir, err := os.MkdirTemp(c.dir, "files")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	lm := &leakModels[c.Intn(len(leakModels))]
	text := strings.ReplaceAll(lm.text, "probe(", "sameText(")
	fn := func(a ...interface{}) (interface{}, error) { return a[0] == a[1], nil }
	fm.SetFunction("sameText", fn)
	mpath, ppath := filepath.Join(dir, "model.conf"), filepath.Join(dir, "policy.csv")
	write := func(path, text string) {
		if err := os.WriteFile(path, []byte(text), 0644); err != nil {
			panic(err)
		}
	}
	good := ""
	for _, r := range lm.rules {
		good += fmt.Sprintf("%s, \"%s\"\n", r[0], strings.Join(quoteAll(r[1:]), "\", \""))
	}
	write(mpath, text)
	write(ppath, good)
	e, err := fastac.NewEnforcer(mpath, ppath, fastac.OptionAutosave(c.Chance(50)))
	if err != nil {
		c.Failf("enforcer of %s: %v\n%s", lm.name, err, good)
	}
	fa := adapter.NewFileAdapter(ppath)
	ops := []struct {
		name string
		do   func(i int)
	}{
		{"load", func(int) { _ = e.LoadPolicy() }},
		{"save", func(int) { _ = e.SavePolicy() }},
		{"edit", func(i int) {
			_, _ = e.AddRule(append([]string{}, lm.rules[0]...))
			_, _ = e.RemoveRule(append([]string{}, lm.rules[i%len(lm.rules)]...))
			_ = e.Flush()
		}},
		{"malformed rules", func(i int) {
			write(ppath, good+[]string{"p, \"a", "p, a\"b, c", "x, unknown", "g, a", "\xff\"\n"}[i%5])
			_ = e.LoadPolicy()
			_ = fa.LoadPolicy(e.GetModel())
			write(ppath, good)
		}},
		{"missing file", func(i int) {
			_ = os.Remove(ppath)
			_ = e.LoadPolicy()
			_, _ = fastac.NewEnforcer(mpath, ppath)
			_, _ = fastac.NewEnforcer(mpath+"x", ppath)
			write(ppath, good)
		}},
		{"batch edits", func(i int) {
			_ = fa.AddRules([][]string{{"p", fmt.Sprint(i)}, {"p", "x"}})
			_ = fa.RemoveRules([][]string{{"p", fmt.Sprint(i)}, {"p", "x"}})
			_ = fa.AddRule([]string{"p", "y"})
			_ = fa.RemoveRule([]string{"p", "y"})
		}},
		{"failing receiver", func(i int) { _ = fa.LoadPolicy(failingRules{}) }},
		{"panicking receiver", func(i int) {
			defer func() { _ = recover() }()
			_ = fa.LoadPolicy(panickingRules{})
		}},
		{"panicking source", func(i int) {
			defer func() { _ = recover() }()
			_ = fa.SavePolicy(panickingRules{})
		}},
		{"models", func(i int) {
			_ = model.NewModel().LoadModel(mpath)
			write(mpath, text+[]string{"\n[", "\n= x", "\nm = ((", "\n[matchers]\nm = r.", "\n[x]\ny"}[i%5])
			_ = model.NewModel().LoadModel(mpath)
			_, _ = model.NewModelFromFile(mpath)
			write(mpath, text)
		}},
	}
	for i := range ops { // the runtime opens files for its poller once
		ops[i].do(i)
	}
	for k := 0; k < 4; k++ {
		op := ops[c.Intn(len(ops))]
		before := openFiles()
		n := 5 + c.Intn(20)
		for i := 0; i < n; i++ {
			op.do(i)
		}
		c.Eval()
		c.Distinct("files", lm.name, op.name, n)
		c.CountN("with files: "+op.name, n)
		if after := openFiles(); after > before {
			c.Failf("model %s: %d files were open before and %d after %d times %s", lm.name, before, after, n, op.name)
		}
	}
	left, _ := os.ReadDir(dir)
	if len(left) > 2 {
		names := []string{}
		for _, f := range left {
			names = append(names, f.Name())
		}
		c.Failf("files left behind: %q", names)
	}
	c.Count("open files compared without garbage collection")
}

func quoteAll(rule []string) []string {
	res := []string{}
	for _, f := range rule {
		res = append(res, strings.ReplaceAll(f, "\"", "\"\""))
	}
	return res
}

type failingRules struct{}

func (failingRules) AddRule([]string) (bool, error) { return false, fmt.Errorf("rejected") }

type panickingRules struct{}

func (panickingRules) AddRule([]string) (bool, error)         { panic("receiver") }
func (panickingRules) RangeRules(fn func(rule []string) bool) { panic("source") }

func runC28(c *C) {
	if c.Idx%8 == (c.Idx/8)%8 {
		c28Files(c)
		return
	}
	w, lm := newLeakWorld(c)
	kinds := []leakKind{}
	for n := 1 + c.Intn(2)*c.Intn(4); n > 0; n-- {
		k := leakKinds[c.Intn(len(leakKinds))]
		if len(kinds) == 0 { // every kind is the main one regularly
			k = leakKinds[(c.Idx/8)%len(leakKinds)]
		}
		for k.rm && len(w.rms) == 0 {
			w, lm = newLeakWorld(c)
		}
		kinds = append(kinds, k)
		c.Count("with " + k.name)
	}
	names := []string{}
	for _, k := range kinds {
		names = append(names, k.name)
	}
	workers := 1
	if c.Chance(20) {
		workers = 4
		c.Count("concurrent queries")
	}
	next := 0
	serve := func(n int) {
		if workers == 1 {
			for i := 0; i < n; i++ {
				kinds[next%len(kinds)].do(w, next/len(kinds))
				next++
			}
			return
		}
		var wg sync.WaitGroup
		for j := 0; j < workers; j++ {
			wg.Add(1)
			go func(from int) {
				defer wg.Done()
				for i := from; i < from+n/workers; i++ {
					k := kinds[i%len(kinds)]
					if k.name == "added and removed rules" || k.name == "added and removed links" || k.name == "edits without effect" || k.name == "rejected edits" || k.name == "deleting unknown links" {
						continue // edits need a lock of the caller
					}
					k.do(w, i/len(kinds))
				}
			}(next + j*(n/workers))
		}
		wg.Wait()
		next += n
	}
	rules := len(listRules(w.e))

	serve(700) // fill caches
	before := w.costs(c)
	last := measure()
	first := last
	n := 1500
	why := ""
	for round := 0; round < 3; round++ {
		serve(n)
		now := measure()
		c.Eval()
		c.CountN("queries", n)
		why = last.grew(now, n)
		if why == "" {
			break
		}
		c.Count("rounds repeated because the heap grew")
		last = now
		n *= 3
	}
	c.Distinct(lm.name, names, workers)
	if why != "" {
		c.Failf("model %s, %s: the heap keeps growing, the last %s", lm.name, strings.Join(names, " + "), why)
	}
	end := measure()
	for i := 0; i < 200 && (end.goroutines > first.goroutines || end.files > first.files); i++ {
		time.Sleep(10 * time.Millisecond) // goroutines that are about to end
		end = measure()
	}
	if end.goroutines > first.goroutines {
		c.Failf("model %s, %s: %d goroutines before, %d after", lm.name, strings.Join(names, " + "), first.goroutines, end.goroutines)
	}
	if end.files > first.files {
		c.Failf("model %s, %s: %d open files before, %d after", lm.name, strings.Join(names, " + "), first.files, end.files)
	}
	after := w.costs(c)
	c.Eval()
	if after.edits > before.edits+before.edits/4+40 {
		c.Failf("model %s: %d edits made %d allocations before and %d after %d queries (%s)", lm.name, 2*len(w.edits), before.edits, after.edits, next, strings.Join(names, " + "))
	}
	if after.request > before.request+before.request/4+40 {
		c.Failf("model %s: a filter made %d allocations before and %d after %d queries (%s)", lm.name, before.request, after.request, next, strings.Join(names, " + "))
	}
	if after.probes > before.probes {
		c.Failf("model %s: a filter called a matching function %d times before and %d times after %d queries (%s)", lm.name, before.probes, after.probes, next, strings.Join(names, " + "))
	}
	if r := len(listRules(w.e)); r != rules {
		c.Failf("%d rules before, %d after the queries", rules, r)
	}
	c.Count("footprints compared")
	c.Sample("model %s, %s: %d objects, %d bytes more after %d queries; edits %d -> %d allocations", lm.name, strings.Join(names, " + "), end.objects-first.objects, end.bytes-first.bytes, next, before.edits, after.edits)
	runtime.KeepAlive(w)
}

func init() {
	register(&Check{ID: "C28", Level: "exploration", Quick: 8 * 34 * 6, Full: 8 * 34 * 40, Run: runC28,
		Rule: "an enforcer (plain, functions, roles with patterns, domains with patterns, nested domains, eval; with and without storage and logger) serves thousands of queries of one or a few kinds, with values, names, domains and matchers that never occurred before, sequentially or from several goroutines; live heap objects and bytes after garbage collection, goroutines and open files are compared after a warm-up and after the queries - growth counts only if it persists in proportion over three rounds of 1500, 4500 and 13500 queries, so bounded caches are accepted - as well as the allocations of fixed edits and of a fixed filter and the number of matching function calls. Non-trivial: distinct (model, kinds, concurrency)."})
}
