package main

import (
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/storage/adapter"
	"github.com/abichinger/fastac/util"
)

// guard runs fn and reports a panic of the code under test.
func (c *C) guard(what string, fn func()) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				panic(f)
			}
			c.Failf("%s: panic %v", what, r)
		}
	}()
	fn()
}

// denied judges the answer to a request that can not be processed
func (c *C) denied(what string, got bool, err error) {
	c.Eval()
	c.Logf("%s => %v, %v", what, got, err)
	if err == nil {
		c.Failf("%s: no error (decision %v)", what, got)
	}
	if got {
		c.Failf("%s: access granted together with the error %v", what, err)
	}
}

// fixed is an enforcer with known answers, every broken request goes through it
type fixed struct {
	e      *fastac.Enforcer
	effect int
	rules  string
	extra  *faulty
}

// faulty is a matching function that fails on demand
type faulty struct {
	plan   int // fail at this call, -1: never
	mode   int
	calls  int
	raised bool
}

var errFaulty = errors.New("faulty function")

func (f *faulty) call(args ...interface{}) (interface{}, error) {
	f.calls++
	if f.plan >= 0 && f.calls > f.plan {
		f.raised = true
		switch f.mode {
		case 0:
			return nil, errFaulty
		case 1:
			return true, errFaulty
		case 2:
			panic("faulty function")
		case 3:
			var p *Attr
			return p.Name == "x", nil // nil pointer dereference
		case 4:
			var l []string
			return l[len(args)+3] == "", nil // index out of range
		case 5:
			panic(errFaulty)
		}
	}
	return true, nil
}

func (f *faulty) arm(plan, mode int) { f.plan, f.mode, f.calls, f.raised = plan, mode, 0, false }

const fixedModel = `[request_definition]
r = sub, obj, act
r2 = sub
[policy_definition]
p = sub, obj, act, eft
p2 = cond
[role_definition]
g = _, _
g2 = _, _, _
[policy_effect]
e = %s
[matchers]
m = g(r.sub, p.sub) && r.obj == p.obj && r.act == p.act
m2 = eval(p2.cond)
`

func newFixed(c *C) *fixed {
	f := &fixed{effect: c.Intn(3), extra: &faulty{plan: -1}}
	m := model.NewModel()
	m.SetFunction("faulty", f.extra.call)
	if err := m.LoadModelFromText(fmt.Sprintf(fixedModel, effects[f.effect])); err != nil {
		c.Failf("model: %v", err)
	}
	e, err := fastac.NewEnforcer(m, nil)
	if err != nil {
		c.Failf("%v", err)
	}
	for _, r := range [][]string{
		{"p", "admin", "data1", "read", "allow"}, {"p", "bob", "data2", "write", "allow"}, {"p", "bob", "data1", "read", "deny"},
		{"g", "alice", "admin"}, {"g", "root", "alice"}, {"g2", "alice", "admin", "d1"},
		{"p2", "r2.sub == 'alice'"},
	} {
		if ok, err := e.AddRule(r); !ok || err != nil {
			c.Failf("add %q: %v %v", r, ok, err)
		}
	}
	f.e = e
	f.rules = ruleSet(listRules(e))
	return f
}

// sound checks that valid requests are still decided correctly
func (f *fixed) sound(c *C, after string) {
	if got := ruleSet(listRules(f.e)); got != f.rules {
		c.Failf("%s changed the rules:\n%s\nbefore:\n%s", after, got, f.rules)
	}
	for _, q := range []struct {
		req  []interface{}
		efts []int
	}{
		{[]interface{}{"alice", "data1", "read"}, []int{1}},
		{[]interface{}{"root", "data1", "read"}, []int{1}},
		{[]interface{}{"bob", "data2", "write"}, []int{1}},
		{[]interface{}{"bob", "data1", "read"}, []int{-1}},
		{[]interface{}{"alice", "data2", "write"}, nil},
		{[]interface{}{"carol", "data1", "read"}, nil},
	} {
		got, err := f.e.Enforce(q.req...)
		c.Eval()
		if want := combine(f.effect, q.efts); err != nil || got != want {
			c.Failf("after %s: request %v => %v %v, expected %v", after, q.req, got, err, want)
		}
	}
	got, err := f.e.Enforce("alice", fastac.SetMatcher("m2"), fastac.SetRequestDef("r2"))
	if err != nil || !got {
		c.Failf("after %s: eval request => %v %v", after, got, err)
	}
	rm, _ := f.e.GetModel().GetRoleManager("g")
	if ok, err := rm.HasLink("root", "admin"); !ok || err != nil {
		c.Failf("after %s: role lookup => %v %v", after, ok, err)
	}
}

// brokenMatchers can not be parsed or refer to things that do not exist.
// Every condition is reached by the request alice, data1, read.
var brokenMatchers = []string{
	"r.sub ==", "== r.sub", "&& r.sub == p.sub", "r.sub == p.sub &&", "r.sub == p.sub || ", "(r.sub == p.sub", "r.sub == p.sub)",
	"nope(r.sub, p.sub)", "r.nope == p.sub", "g(r.sub, p.nope)", "q.sub == p.sub", "r.sub == 'x", `r.sub == "x`, "r.sub = p.sub",
	"r.sub === p.sub", "r.sub + ", "r3.sub == p.sub", "p9.sub == r.sub", "r.sub == p.sub == ", "g(r.sub, p.sub", "g(", ")", "()",
	"r.sub in", "r.sub in (", "r.sub == p.sub ? true :", "r.sub =~ '('", "r.sub =~ '['", "1 +", "@", "r.sub == #", "r.sub.Name == p.sub",
	"r.sub.Name.First == p.sub", "r.sub > 5", "r.sub - p.sub == 0", "!r.sub", "-r.sub == 1",
	"regexMatch(r.sub)", "regexMatch(r.sub, '(')", "globMatch(r.sub, '[')", "globMatch(r.sub)", "ipMatch(r.sub, p.sub)", "ipMatch('1.2.3.4', 'x')",
	"pathMatch(r.sub)", "pathMatch(r.sub, 1)", "pathMatch2(r.sub, true)", "regexMatch(1, 'a')", "ipMatch(1, 2)", "g(r.sub)", "g()", "g(1, 2)", "g2(r.sub, p.sub, 1)",
	"eval(r.sub)", "eval('r.sub ==')", "eval(1)", "eval('a', 'b')", "eval('nope(1)')", "eval('r.sub.Name == 1')", "r.sub == p.sub && r.nope == p.obj || p.sub == p.sub && r.nope2 == p.act",
	"p.sub == p.sub && p.obj == p.obj && r.nope == 1", "(p.sub == p.sub || p.obj == p.obj) && r.nope == 1",
	"p.sub == p.sub && (r.nope == 1 || r.nope2 == 1)", "g(r.sub, p.sub) && r.obj == p.obj && faultyy(r.act)",
}

func runC06(c *C) {
	kinds := []func(*C){c06Fault, c06Fault, c06Broken, c06Arity, c06Types, c06Edits, c06Incomplete, c06Soup, c06Args, c06RolePatterns, c06Patterns, c06Fault}
	k := c.Idx % len(kinds)
	c.Count([]string{"failing function", "failing function", "broken matcher", "wrong number of values", "wrong type of values", "invalid edits", "incomplete model",
		"random matcher text", "invalid arguments", "malformed role pattern", "malformed pattern in a rule", "failing function"}[k])
	kinds[k](c)
}

// c06Fault: a function fails at any call, at any place of a random matcher
func c06Fault(c *C) {
	s := genScen(c, scenOpts{weird: 10, noIP: true, maxLeafs: 5})
	f := &faulty{plan: -1}
	mode := c.Intn(6)
	// put the function into the matcher
	call := callExpr{"faulty", []Expr{s.str(c, cName)}}
	var ins func(e Expr) Expr
	done := 0
	ins = func(e Expr) Expr {
		switch x := e.(type) {
		case andExpr:
			ys := append([]Expr{}, x.xs...)
			i := c.Intn(len(ys))
			if c.Chance(50) {
				ys[i] = ins(ys[i])
				return andExpr{ys}
			}
			done++
			ys = append(ys[:i:i], append([]Expr{call}, ys[i:]...)...)
			return andExpr{ys}
		case orExpr:
			ys := append([]Expr{}, x.xs...)
			for i := range ys {
				if c.Chance(60) || i == 0 {
					ys[i] = ins(ys[i])
				}
			}
			return orExpr{ys}
		case notExpr:
			return notExpr{ins(x.x)}
		}
		done++
		if c.Chance(50) {
			return andExpr{[]Expr{e, call}}
		}
		return andExpr{[]Expr{call, e}}
	}
	plain := s.M
	s.M = ins(s.M)
	s.MText = render(c, s.M)
	m, err := func() (*model.Model, error) {
		m := model.NewModel()
		setCustom(m)
		m.SetFunction("faulty", f.call)
		for _, d := range []struct {
			sec        byte
			key, value string
		}{{'r', s.RKey, strings.Join(s.RArgs, ", ")}, {'p', s.PKey, strings.Join(s.PArgs, ", ")}, {'e', "e", effects[s.Effect]}} {
			if err := m.SetDef(d.sec, d.key, d.value); err != nil {
				return nil, err
			}
		}
		for _, g := range s.Gs {
			if err := m.SetDef('g', g.key, "_, _"+strings.Repeat(", _", g.doms)); err != nil {
				return nil, err
			}
		}
		if err := m.SetDef('m', "m", s.MText); err != nil {
			return nil, err
		}
		return m, m.BuildMatchers()
	}()
	if err != nil {
		c.Failf("model: %v\n%s", err, s.MText)
	}
	e, err := fastac.NewEnforcer(m, nil)
	if err != nil {
		c.Failf("%v", err)
	}
	st := newStore()
	s.populate(c, e, st, 1+c.Intn(6), c.Intn(5))
	c.Logf("matcher %s, mode %d", s.MText, mode)
	before := ruleSet(listRules(e))
	for i := 0; i < 8; i++ {
		req := s.requestNear(c, st, s.genRequest(c))
		want := s.decideWith(st, plain, s.Effect, req) // faulty() is true when it does not fail
		f.arm([]int{0, 0, 1, 2, 3, -1}[c.Intn(6)], mode)
		filter := c.Chance(30)
		var got bool
		var rules [][]string
		c.guard("request with failing function", func() {
			if filter {
				rules, err = e.Filter(req...)
			} else {
				got, err = e.Enforce(req...)
			}
		})
		c.Eval()
		c.Logf("request (%s): raised %v => %v %v %v", showReq(req), f.raised, got, rules, err)
		switch {
		case f.raised && err == nil:
			c.Failf("matcher %s (%s): the function failed (mode %d) but no error was returned, decision %v", s.MText, showReq(req), mode, got)
		case f.raised && got:
			c.Failf("matcher %s (%s): the function failed (mode %d), access granted with error %v", s.MText, showReq(req), mode, err)
		case !f.raised && err != nil:
			c.Failf("matcher %s (%s): unexpected error %v", s.MText, showReq(req), err)
		case !f.raised && !filter && got != want:
			c.Failf("matcher %s (%s): decision %v, expected %v", s.MText, showReq(req), got, want)
		case !f.raised && filter && ruleSet(rules) != ruleSet(s.Matching(st, plain, req)):
			c.Failf("matcher %s (%s): filter %v", s.MText, showReq(req), rules)
		}
		if f.raised {
			c.Count(fmt.Sprintf("function failed, mode %d", mode))
			c.Distinct(s.MText, showReq(req), mode, f.plan, before)
		}
	}
	f.arm(-1, 0)
	for i := 0; i < 4; i++ { // everything is fine again
		req := s.requestNear(c, st, s.genRequest(c))
		got, err := e.Enforce(req...)
		c.Eval()
		if want := s.decideWith(st, plain, s.Effect, req); err != nil || got != want {
			c.Failf("after the failures: matcher %s (%s): %v %v, expected %v", s.MText, showReq(req), got, err, want)
		}
	}
	if got := ruleSet(listRules(e)); got != before {
		c.Failf("the failures changed the rules: %s", got)
	}
}

func c06Broken(c *C) {
	f := newFixed(c)
	text := brokenMatchers[(c.Idx/12)%len(brokenMatchers)]
	what := fmt.Sprintf("broken matcher %q", text)
	req := []interface{}{"alice", "data1", "read"}
	c.Distinct(text, f.effect)
	// as option
	var opt interface{} = fastac.SetMatcher(text)
	if c.Chance(40) {
		opt = fastac.SetMatcher(defs.NewMatcherDef("m", text))
	}
	c.guard(what, func() {
		got, err := f.e.Enforce(append(req, opt)...)
		c.denied(what+" as option", got, err)
		_, err = f.e.Filter(append(req, opt)...)
		c.denied(what+" as option of a filter", false, err)
		visited := false
		err = f.e.RangeMatches(append([]interface{}{opt}, req...), func([]string) bool { visited = true; return true })
		c.denied(what+" as option of an iteration", visited, err)
	})
	f.sound(c, what)
	// as definition of another model
	c.guard(what, func() {
		m := model.NewModel()
		err := m.LoadModelFromText(fmt.Sprintf(fixedModel, effects[f.effect]))
		if err != nil {
			c.Failf("%v", err)
		}
		if err = m.SetDef(model.M_SEC, "m", text); err == nil {
			err = m.BuildMatchers()
		}
		e, err2 := fastac.NewEnforcer(m, nil)
		if err2 != nil {
			c.Failf("%v", err2)
		}
		for _, r := range listRules(f.e) {
			if _, err := e.AddRule(r); err != nil {
				c.Failf("add: %v", err)
			}
		}
		if err != nil {
			c.Count("matcher rejected when it was defined")
			c.Eval()
			// the definition was rejected, the previous matcher is still in place or requests fail
			got, err := e.Enforce("mallory", "data1", "read")
			if err == nil && got != combine(f.effect, nil) {
				c.Failf("%s: rejected, request of a stranger => %v", what, got)
			}
			return
		}
		got, err := e.Enforce(req...)
		c.denied(what+" as definition", got, err)
	})
	// as condition of a rule
	cond := strings.NewReplacer("r.sub", "r2.sub", "p.sub", "p2.cond", "p.obj", "p2.cond", "p.act", "p2.cond").Replace(text)
	c.guard(what, func() {
		if strings.Contains(text, "eval") || text == "()" { // () is no condition, but it has a value
			return
		}
		r := []string{"p2", cond}
		if ok, err := f.e.AddRule(r); !ok || err != nil {
			c.Failf("add %q: %v %v", r, ok, err)
		}
		if _, err := f.e.RemoveRule([]string{"p2", "r2.sub == 'alice'"}); err != nil {
			c.Failf("%v", err)
		}
		got, err := f.e.Enforce("alice", fastac.SetMatcher("m2"), fastac.SetRequestDef("r2"))
		c.denied(fmt.Sprintf("condition %q", cond), got, err)
		if _, err := f.e.RemoveRule(r); err != nil {
			c.Failf("%v", err)
		}
		if _, err := f.e.AddRule([]string{"p2", "r2.sub == 'alice'"}); err != nil {
			c.Failf("%v", err)
		}
	})
	f.sound(c, what+" as condition")
	c.Sample("%s => error and deny", what)
}

func c06Arity(c *C) {
	f := newFixed(c)
	full := []interface{}{"alice", "data1", "read"}
	for n := 0; n < 3; n++ {
		req := append([]interface{}{}, full[:n]...)
		what := fmt.Sprintf("request %v with missing values", req)
		c.guard(what, func() {
			got, err := f.e.Enforce(req...)
			c.denied(what, got, err)
			_, err = f.e.Filter(req...)
			c.denied(what+" (filter)", false, err)
		})
		c.Distinct("missing", n, f.effect)
		f.sound(c, what)
	}
	for n := 1; n <= 3; n++ {
		req := append([]interface{}{}, full...)
		for i := 0; i < n; i++ {
			req = append(req, []interface{}{"x", 1, nil, "allow", "r"}[c.Intn(5)])
		}
		if c.Chance(30) { // surplus value in front
			req = append([]interface{}{[]interface{}{"x", "p", "r2", 7}[c.Intn(4)]}, full...)
		}
		what := fmt.Sprintf("request %v with surplus values", req)
		c.guard(what, func() {
			got, err := f.e.Enforce(req...)
			c.denied(what, got, err)
			_, err = f.e.Filter(req...)
			c.denied(what+" (filter)", false, err)
		})
		c.Distinct("surplus", fmt.Sprint(req), f.effect)
		f.sound(c, what)
	}
	// with alternatives and another definition
	text := []string{"r2.sub == p.sub || r2.sub == 'alice'", "g(r2.sub, p.sub) || r2.sub == p.obj", "r2.sub != ''"}[c.Intn(3)]
	for _, req := range [][]interface{}{{}, {"alice", "data1"}, {"alice", "data1", "read"}} {
		what := fmt.Sprintf("request %v for definition r2, matcher %s", req, text)
		c.guard(what, func() {
			got, err := f.e.Enforce(append(append([]interface{}{}, req...), fastac.SetMatcher(text), fastac.SetRequestDef("r2"))...)
			c.denied(what, got, err)
		})
		c.Distinct(what)
		f.sound(c, what)
	}
	// request definition and matcher do not belong together
	what := "matcher m with request definition r2"
	c.guard(what, func() {
		got, err := f.e.Enforce("alice", fastac.SetRequestDef("r2"))
		c.denied(what, got, err)
	})
	f.sound(c, what)
}

type strange struct{ X chan int }

func (strange) Fail() (string, error) { return "", errors.New("fails") }
func (strange) Panic() string         { panic("method panics") }

func strangeValues() []interface{} {
	var np *Attr
	return []interface{}{nil, 1, 1.5, true, []string{"alice"}, map[string]string{"a": "b"}, struct{}{}, np, func() {}, make(chan int), strange{}, errors.New("x"),
		[]byte("alice"), [2]string{"alice", "bob"}, complex(1, 2), math.NaN(), &strange{}, rune('a'), int8(3)}
}

func c06Types(c *C) {
	f := newFixed(c)
	v := strangeValues()[(c.Idx/12)%len(strangeValues())]
	what := fmt.Sprintf("value %T", v)
	mustFail := []string{"regexMatch(r.sub, 'a')", "globMatch(r.sub, 'a*')", "pathMatch(r.sub, '/a')", "pathMatch2(r.sub, p.sub)", "ipMatch(r.sub, '1.2.3.4')", "g(r.sub, p.sub)", "g2(r.sub, p.sub, 'd1')",
		"g2('alice', p.sub, r.sub)", "r.sub =~ 'a.*'", "eval(r.sub)", "r.sub.Nope == 1", "r.sub.Nope.Nope == 1", "p.obj == 'data1' && g(r.sub, p.sub)", "p.obj == 'data1' && (g(r.sub, p.sub) || regexMatch(r.sub, 'a'))", "!g(r.sub, p.sub)"}
	for _, text := range mustFail {
		c.guard(what+" with "+text, func() {
			got, err := f.e.Enforce(v, "data1", "read", fastac.SetMatcher(text))
			c.denied(what+" with "+text, got, err)
			_, err = f.e.Filter(v, "data1", "read", fastac.SetMatcher(text))
			c.denied(what+" with "+text+" (filter)", false, err)
		})
		c.Distinct(what, text)
	}
	// no answer is wrong here, as long as nothing crashes and nobody gets in by being equal to nothing
	mayFail := []string{"r.sub == p.sub", "p.sub == r.sub && r.obj == p.obj", "r.sub in ('alice', 'bob')", "r.sub == r.obj", "r.sub == p.sub || r.sub == p.obj", "r.sub < p.sub", "r.sub > 100 && r.sub < 50", "r.sub == 'alice' && true"}
	for _, text := range mayFail {
		for _, w := range []interface{}{"data1", v} {
			if w != interface{}("data1") && strings.Contains(text, "r.obj") {
				continue
			}
			c.guard(what+" with "+text, func() {
				got, err := f.e.Enforce(v, w, "read", fastac.SetMatcher(text), fastac.SetEffector(effects[0]))
				c.Eval()
				if got {
					c.Failf("%s with %s: granted (%v)", what, text, err)
				}
			})
		}
	}
	// two uncomparable values
	c.guard(what+" compared with itself", func() {
		got, err := f.e.Enforce(v, v, "read", fastac.SetMatcher("r.sub == r.obj && p.sub == 'nobody'"), fastac.SetEffector(effects[0]))
		if got {
			c.Failf("%s compared with itself: %v %v", what, got, err)
		}
	})
	if _, ok := v.(strange); ok {
		for _, text := range []string{"r.sub.Fail() == 'x'", "r.sub.Panic() == 'x'", "r.sub.X == 'x' && r.sub.Nope() == 'x'", "r.sub.Nope() == 'x'"} {
			if strings.HasPrefix(text, "r.sub.X") {
				continue
			}
			c.guard(what+" with "+text, func() {
				got, err := f.e.Enforce(v, "data1", "read", fastac.SetMatcher(text))
				c.denied(what+" with "+text, got, err)
			})
		}
	}
	f.sound(c, what)
	c.Sample("%s with %d matchers", what, len(mustFail)+len(mayFail))
}

func c06Edits(c *C) {
	f := newFixed(c)
	events := 0
	f.e.GetModel().AddListener(model.RULE_ADDED, func(...interface{}) { events++ })
	f.e.GetModel().AddListener(model.RULE_REMOVED, func(...interface{}) { events++ })
	bad := [][]string{nil, {}, {""}, {"p9", "a", "b", "c"}, {"x", "a"}, {"g9", "a", "b"}, {"g"}, {"g", "a"}, {"r", "a"}, {"m", "a"}, {"e"}, {"", "a"}, {"pp", "a"}, {"P", "a"}, {" p", "a"}, {"g2"}, {"gg", "a", "b"}, {"\x00"}}
	for _, r := range bad {
		what := fmt.Sprintf("edit with invalid rule %q", r)
		c.guard(what, func() {
			ok, err := f.e.AddRule(r)
			c.denied(what+" (add)", ok, err)
			ok, err = f.e.RemoveRule(r)
			c.denied(what+" (remove)", ok, err)
			c.denied(what+" (batch add)", false, f.e.AddRules([][]string{r}))
			c.denied(what+" (batch remove)", false, f.e.RemoveRules([][]string{r}))
		})
		c.Distinct(what)
	}
	m := f.e.GetModel()
	for _, k := range []string{"p9", "", "x", "g9", "m", "e"} {
		what := fmt.Sprintf("unknown key %q", k)
		c.guard(what, func() {
			c.denied(what+" (clear)", false, m.ClearPolicy(k))
			if _, ok := m.GetPolicy(k); ok {
				c.Failf("%s: policy found", what)
			}
			if _, ok := m.GetRoleManager(k); ok {
				c.Failf("%s: role manager found", what)
			}
			if k != "m" {
				if _, ok := m.GetMatcher(k); ok {
					c.Failf("%s: matcher found", what)
				}
			}
			if _, ok := m.GetRequestDef(k); ok {
				c.Failf("%s: request definition found", what)
			}
			if k != "e" {
				if _, ok := m.GetEffector(k); ok {
					c.Failf("%s: effector found", what)
				}
			}
			for _, sec := range []byte{'r', 'p', 'g', 'x', 0} {
				if _, ok := m.GetDef(sec, k); ok {
					c.Failf("%s: definition found in %c", what, sec)
				}
			}
		})
	}
	for _, d := range []struct {
		sec        byte
		key, value string
	}{{'x', "x", "1"}, {'p', "", "a"}, {'p', "q", "a"}, {'g', "p", "_, _"}, {'m', "x", "true"}, {0, "p", "a"}, {'r', "m", "a"}, {'e', "", ""}} {
		what := fmt.Sprintf("definition %c %q", d.sec, d.key)
		c.guard(what, func() { c.denied(what, false, m.SetDef(d.sec, d.key, d.value)) })
	}
	c.guard("removal of a definition in an unknown section", func() { c.denied("unknown section", false, m.RemoveDef('x', "x")) })
	if events != 0 {
		c.Failf("failed edits emitted %d events", events)
	}
	f.sound(c, "invalid edits")

	// rules with a wrong number of fields never grant by accident
	short := [][]string{{"p"}, {"p", "alice"}, {"p", "admin", "data7"}, {"p", "alice", "data1", "read"}, {"p", "x", "y", "z", "allow", "more", "fields"}}
	r := short[c.Intn(len(short))]
	what := fmt.Sprintf("rule %q with a wrong number of fields", r)
	var added bool
	c.guard(what, func() {
		ok, err := f.e.AddRule(r)
		added = ok && err == nil
		for _, q := range [][]interface{}{{"carol", "data1", "read"}, {"mallory", "data7", "write"}, {"", "", ""}} {
			got, err := f.e.Enforce(q...)
			c.Eval()
			if err == nil && got != combine(f.effect, nil) || err != nil && got {
				c.Failf("%s: request %v => %v %v", what, q, got, err)
			}
		}
	})
	if added {
		c.guard(what, func() {
			if ok, err := f.e.RemoveRule(r); !ok || err != nil {
				c.Failf("%s: removal => %v %v", what, ok, err)
			}
		})
	}
	f.sound(c, what)
}

func c06Incomplete(c *C) {
	lines := map[byte]string{'r': "[request_definition]\nr = sub, obj\n", 'p': "[policy_definition]\np = sub, obj\n", 'g': "[role_definition]\ng = _, _\n",
		'e': "[policy_effect]\ne = " + effects[c.Intn(3)] + "\n", 'm': "[matchers]\nm = g(r.sub, p.sub) && r.obj == p.obj\n"}
	drop := "rpgem"[(c.Idx/12)%5]
	text := ""
	for _, k := range []byte("rpgem") {
		if k != drop {
			text += lines[k]
		}
	}
	what := fmt.Sprintf("model without section %c", drop)
	c.Distinct(what)
	c.guard(what, func() {
		m := model.NewModel()
		err := m.LoadModelFromText(text)
		c.Logf("%s: %v", what, err)
		e, err2 := fastac.NewEnforcer(m, nil)
		if err2 != nil {
			return
		}
		_, _ = e.AddRule([]string{"p", "alice", "data1"})
		_, _ = e.AddRule([]string{"p", "*", "data1"})
		_, _ = e.AddRule([]string{"g", "alice", "admin"})
		got, err := e.Enforce("alice", "data1")
		c.denied(what, got, err)
		if drop != 'e' { // a filter does not need an effect
			_, err = e.Filter("alice", "data1")
			c.denied(what+" (filter)", false, err)
		}
		_ = m.String()
		// completed later
		lines['m'] = "[matchers]\nm = g(r.sub, p.sub) && r.obj == p.obj\n"
		if err := m.LoadModelFromText(lines[drop] + lines['m']); err != nil {
			if drop == 'p' || drop == 'g' || drop == 'm' || drop == 'r' || drop == 'e' {
				c.Failf("%s: completing the model: %v", what, err)
			}
		}
		_, _ = e.AddRule([]string{"p", "admin", "data1"})
		_, _ = e.AddRule([]string{"g", "alice", "admin"})
		if got, err := e.Enforce("alice", "data1"); !got || err != nil {
			c.Failf("%s: after completing it: %v %v\n%s", what, got, err, m.String())
		}
	})
	// removed definitions
	f := newFixed(c)
	m := f.e.GetModel()
	sec, key := drop, string(drop)
	what = fmt.Sprintf("removed definition %s", key)
	c.guard(what, func() {
		for k, text := range map[string]string{"m8": "g.role == 'admin'", "m9": "p.obj == r.obj"} {
			if err := m.SetDef('m', k, text); err != nil {
				c.Failf("%s: %v", text, err)
			}
		}
		if err := m.(*model.Model).BuildMatchers(); err != nil {
			c.Failf("%v", err)
		}
		for k, n := range map[string]int{"m8": 1, "m9": 2} {
			if rules, err := f.e.Filter("alice", "data1", "read", fastac.SetMatcher(k)); err != nil || len(rules) != n {
				c.Failf("filter %s: %q %v", k, rules, err)
			}
		}
		if err := m.RemoveDef(sec, key); err != nil {
			c.Failf("%s: %v", what, err)
		}
		if sec == 'p' { // the matcher was built for the removed policy
			got, err := f.e.Enforce("mallory", "data1", "read")
			if got {
				c.Failf("%s: granted %v", what, err)
			}
			for _, k := range []string{"m", "m9", "p.obj == 'data1'"} {
				rules, err := f.e.Filter("alice", "data1", "read", fastac.SetMatcher(k))
				c.Eval()
				if len(rules) > 0 {
					c.Failf("%s: filter %s => %q %v", what, k, rules, err)
				}
			}
			return
		}
		got, err := f.e.Enforce("alice", "data1", "read")
		c.denied(what, got, err)
		if sec == 'g' {
			for _, k := range []string{"m8", "g.role == 'admin'"} {
				rules, err := f.e.Filter("alice", "data1", "read", fastac.SetMatcher(k))
				c.Eval()
				if len(rules) > 0 {
					c.Failf("%s: filter %s => %q %v", what, k, rules, err)
				}
			}
		}
	})
	// a function, which the matcher calls, is removed and comes back
	f = newFixed(c)
	m = f.e.GetModel()
	concrete := m.(*model.Model)
	equal := func(a ...interface{}) (interface{}, error) { return a[0] == a[1], nil }
	m.SetFunction("verifEq", equal)
	call := c.Pick([]string{"verifEq(r.act, p.act) && g(r.sub, p.sub) && r.obj == p.obj", "verifEq(r.act, p.act) && (g(r.sub, p.sub) && r.obj == p.obj || p.sub == 'x')",
		"verifEq(r.act, 'read') && g(r.sub, p.sub) && r.obj == p.obj", "(verifEq(r.obj, p.obj) || verifEq(p.sub, 'x')) && g(r.sub, p.sub) && r.act == p.act",
		"!verifEq(r.obj, 'nothing') && g(r.sub, p.sub) && r.obj == p.obj && r.act == p.act"})
	what = fmt.Sprintf("matcher %q after its function was removed", call)
	c.guard(what, func() {
		opts := []interface{}{"alice", "data1", "read"}
		if c.Chance(50) {
			if err := m.SetDef('m', "m", call); err != nil {
				c.Failf("%s: %v", what, err)
			}
			if err := concrete.BuildMatchers(); err != nil {
				c.Failf("%s: %v", what, err)
			}
		} else {
			opts = append(opts, fastac.SetMatcher(call))
		}
		for i := 0; i < 2; i++ {
			if got, err := f.e.Enforce(opts...); err != nil || got != combine(f.effect, []int{1}) {
				c.Failf("matcher %q: %v %v", call, got, err)
			}
			if !m.RemoveFunction("verifEq") {
				c.Failf("%s: RemoveFunction did not find it", what)
			}
			for j := 0; j < 2; j++ {
				got, err := f.e.Enforce(opts...)
				c.denied(what, got, err)
				_, err = f.e.Filter(opts...)
				c.denied(what+" (filter)", false, err)
			}
			m.SetFunction("verifEq", equal)
			for _, k := range []string{"g9.user == 'alice'", "g9.user == p9.sub", "p9.sub == 'alice'"} {
				_, err := f.e.Filter("alice", "data1", "read", fastac.SetMatcher(k))
				c.denied("filter "+k, false, err)
			}
			c.Count("functions removed and restored")
		}
		if got, err := f.e.Enforce(opts...); err != nil || got != combine(f.effect, []int{1}) {
			c.Failf("matcher %q after its function is back: %v %v", call, got, err)
		}
		if m.RemoveFunction("verifNone") {
			c.Failf("%s: an unknown function was removed", what)
		}
		for _, k := range []string{"m7", "p", "g", ""} {
			if err := concrete.BuildMatcher(k); err == nil {
				c.Failf("BuildMatcher(%q) returned no error", k)
			}
		}
	})
	// a matcher is replaced with a malformed one: the old one must not decide on
	f = newFixed(c)
	m = f.e.GetModel()
	bad := c.Pick([]string{"r.sub == (", "", "r.sub == p.sub &&", "p7.sub == r.sub", "nofunction(r.sub)", "r.sub == 'x"})
	what = fmt.Sprintf("matcher replaced with %q", bad)
	c.guard(what, func() {
		if err := m.SetDef('m', "m", bad); err == nil && c.Chance(50) {
			if err := m.(*model.Model).BuildMatchers(); err == nil {
				c.Failf("%s: BuildMatchers returned no error", what)
			}
		}
		got, err := f.e.Enforce("alice", "data1", "read")
		c.denied(what, got, err)
		_, err = f.e.Filter("alice", "data1", "read")
		c.denied(what+" (filter)", false, err)
	})
	// broken configuration text never panics
	junk := []string{"[matchers", "m = x", "[matchers]\nm", "[matchers]\nm = ", "[policy_definition]\nq = a", "[request_definition]\np = a", "[role_definition]\nr = _, _", "[matchers]\nm = r.sub == ",
		"[policy_effect]\nx = y", "=\n", "[policy_definition]\n= a", "[[matchers]]\nm = true", "[matchers]\nm = p.sub == r.sub", "\x00", "[policy_definition]\np = sub\np = obj", "[role_definition]\ng = \n", "[role_definition]\ng = _\n", "[request_definition]\nr =\n[policy_definition]\np =\n[policy_effect]\ne =\n[matchers]\nm = true"}
	for _, t := range junk {
		c.guard(fmt.Sprintf("model text %q", t), func() {
			m := model.NewModel()
			err := m.LoadModelFromText(t)
			e, err2 := fastac.NewEnforcer(m, nil)
			if err2 != nil {
				return
			}
			_, _ = e.AddRule([]string{"p", "a"})
			_, _ = e.AddRule([]string{"g", "a", "b"})
			got, err3 := e.Enforce("a")
			c.Eval()
			if got {
				c.Failf("model text %q: granted (%v, %v)", t, err, err3)
			}
		})
	}
}

var soup = []string{"r.sub", "p.sub", "r.obj", "p.obj", "p.act", "g", "(", ")", "(", ")", "&&", "||", "&&", "||", "==", "!=", "!", ",", "'a'", "1", "+", "-", "in", "?", ":", "true", "eval", "regexMatch", "[", "]", "=~", "faulty", "r", "p", ".", "_", "p.eft", "r.sub.Name", "'", "\\", ">=", "**", "??", "p2.cond", "r2.sub"}

func c06Soup(c *C) {
	f := newFixed(c)
	for i := 0; i < 12; i++ {
		toks := []string{}
		for j, n := 0, 1+c.Intn(10); j < n; j++ {
			toks = append(toks, c.Pick(soup))
		}
		text := strings.Join(toks, []string{" ", ""}[c.Intn(2)])
		if c.Chance(50) { // a valid matcher with one mutation
			text = "g(r.sub, p.sub) && r.obj == p.obj && (r.act == p.act || p.act == 'x')"
			pos := c.Intn(len(text))
			switch c.Intn(3) {
			case 0:
				text = text[:pos] + text[pos+1:]
			case 1:
				text = text[:pos] + c.Pick(soup) + text[pos:]
			case 2:
				text = text[:pos]
			}
		}
		if text == "" {
			continue
		}
		what := fmt.Sprintf("matcher text %q", text)
		c.guard(what, func() {
			got, err := f.e.Enforce("alice", "data1", "read", fastac.SetMatcher(text))
			c.Eval()
			c.Logf("%s => %v %v", what, got, err)
			if err != nil && got {
				c.Failf("%s: granted together with error %v", what, err)
			}
			if err != nil {
				c.Count("random matcher text, error")
			} else {
				c.Count("random matcher text, decided")
			}
			_, _ = f.e.Filter("alice", "data1", "read", fastac.SetMatcher(text))
			m := model.NewModel()
			_ = m.LoadModelFromText(fmt.Sprintf(fixedModel, effects[0]))
			if m.SetDef('m', "m", text) == nil && m.BuildMatchers() == nil {
				if e, err := fastac.NewEnforcer(m, nil); err == nil {
					_, _ = e.AddRule([]string{"p", "alice", "data1", "read", "allow"})
					if got, err := e.Enforce("alice", "data1", "read"); got && err != nil {
						c.Failf("%s: granted together with error %v", what, err)
					}
				}
			}
		})
		c.Distinct(text)
		f.sound(c, what)
	}
}

func c06Args(c *C) {
	f := newFixed(c)
	dir := c.Dir()
	missing := filepath.Join(dir, "does-not-exist")
	junk := filepath.Join(dir, fmt.Sprint("junk", c.Idx))
	_ = os.WriteFile(junk, []byte("p, \"a\nb"), 0600)
	defer os.Remove(junk)
	conf := filepath.Join(dir, fmt.Sprint("model", c.Idx))
	_ = os.WriteFile(conf, []byte(fmt.Sprintf(fixedModel, effects[0])), 0600)
	defer os.Remove(conf)
	badRule := filepath.Join(dir, fmt.Sprint("badrule", c.Idx))
	_ = os.WriteFile(badRule, []byte("p, alice, data1, read, allow\nq, x, y\n"), 0600)
	defer os.Remove(badRule)
	for i, a := range []struct{ m, a interface{} }{
		{nil, nil}, {1, nil}, {missing, nil}, {junk, nil}, {(*model.Model)(nil), nil}, {[]byte("x"), nil}, {conf, missing}, {conf, junk}, {conf, badRule}, {conf, dir}, {"", nil}, {dir, nil},
		{conf, 42}, {conf, false}, {conf, []string{conf}}, {conf, []byte(conf)}, {conf, struct{}{}}, {conf, *adapter.NewFileAdapter(junk)}, {conf, fastac.OptionAutosave(true)},
	} {
		what := fmt.Sprintf("NewEnforcer with invalid arguments #%d", i)
		c.guard(what, func() {
			e, err := fastac.NewEnforcer(a.m, a.a)
			c.denied(what, false, err)
			if e != nil {
				c.Failf("%s: returned an enforcer together with %v", what, err)
			}
		})
		c.Distinct(what)
	}
	c.guard("failing option", func() {
		_, err := fastac.NewEnforcer(conf, nil, func(*fastac.Enforcer) error { return errFaulty })
		c.denied("failing option", false, err)
		got, err := f.e.Enforce("alice", "data1", "read", fastac.ContextOption(func(*fastac.Context) error { return errFaulty }))
		c.denied("failing request option", got, err)
	})
	for _, o := range []interface{}{fastac.SetRequestDef("r9"), fastac.SetRequestDef("nope"), fastac.SetMatcher("m9"), fastac.SetMatcher("m9 && true"), fastac.SetEffector("e9"), fastac.SetRequestDef("p"), fastac.SetMatcher("e")} {
		c.guard("unknown definition", func() {
			got, err := f.e.Enforce("alice", "data1", "read", o)
			c.denied("unknown definition", got, err)
			if c.Chance(50) {
				_, err = fastac.NewContext(f.e.GetModel(), o.(fastac.ContextOption))
				_ = err
			}
		})
	}
	for i, o := range []interface{}{
		fastac.SetMatcher(42), fastac.SetMatcher(true), fastac.SetMatcher([]string{"m"}), fastac.SetMatcher(*defs.NewMatcherDef("x", "true")),
		fastac.SetRequestDef(1), fastac.SetRequestDef([]byte("r")), fastac.SetRequestDef(*defs.NewRequestDef("r", "sub, obj, act")),
		fastac.SetEffector(3.5), fastac.SetEffector(true), fastac.SetEffector(*defs.NewEffectDef("e", effects[2])),
	} {
		what := fmt.Sprintf("option of an unsupported type #%d", i)
		c.guard(what, func() {
			got, err := f.e.Enforce("alice", "data1", "read", o)
			c.denied(what, got, err)
			_, err = f.e.Filter("alice", "data1", "read", o)
			c.denied(what, false, err)
			c.Distinct(what)
		})
	}
	f.sound(c, "invalid options")
	// a file with an invalid rule: error, the enforcer keeps working
	f.e.SetAdapter(mustFile(badRule))
	before := f.rules
	c.guard("loading a bad file", func() { c.denied("loading a bad file", false, f.e.LoadPolicy()) })
	_, _ = f.e.RemoveRule([]string{"p", "alice", "data1", "read", "allow"})
	f.rules = before
	f.sound(c, "loading a bad file")
}

func c06RolePatterns(c *C) {
	m := model.NewModel()
	if err := m.LoadModelFromText(fmt.Sprintf(fixedModel, effects[0])); err != nil {
		c.Failf("%v", err)
	}
	g, _ := m.GetRoleManager("g")
	g.(rbac.IDefaultRoleManager).SetMatcher(util.RegexMatcher)
	g2, _ := m.GetRoleManager("g2")
	g2.(rbac.IDefaultRoleManager).SetMatcher(util.RegexMatcher)
	g2.(rbac.IDefaultRoleManager).SetDomainMatcher(util.RegexMatcher)
	e, err := fastac.NewEnforcer(m, nil)
	if err != nil {
		c.Failf("%v", err)
	}
	badPat := []string{"p'(", "p'[", "p'*", "p'a{2,1}", "p'\\", "p'(?P<", "p'a**"}
	reject := func(r []string) {
		what := fmt.Sprintf("malformed pattern %q", r)
		c.guard(what, func() {
			ok, err := e.AddRule(r)
			c.denied(what+" (add)", ok, err)
		})
		c.Distinct(what)
	}
	// a malformed pattern may be accepted as long as nothing has to be matched with it, it is harmless once it is removed
	lenient := func(r []string) {
		what := fmt.Sprintf("malformed pattern %q, which matches nothing yet", r)
		c.guard(what, func() {
			before := ruleSet(listRules(e))
			ok, err := e.AddRule(r)
			c.Eval()
			c.Logf("%s => %v %v", what, ok, err)
			if ok == (err != nil) {
				c.Failf("%s: %v %v", what, ok, err)
			}
			if ok {
				if ok, err := e.RemoveRule(r); !ok || err != nil {
					c.Failf("%s: removal => %v %v", what, ok, err)
				}
			}
			if got := ruleSet(listRules(e)); got != before {
				c.Failf("%s: the rules became %s", what, got)
			}
		})
		c.Distinct(what)
	}
	if c.Chance(70) {
		for i := 0; i < 6; i++ {
			p, p2 := c.Pick(badPat), c.Pick(badPat)
			lenient([][]string{{"g", p, p}, {"g", p, p2}, {"g2", "alice", "admin", p}, {"g2", p, p2, "d1"}, {"g2", p, p2, "p'^x.*"}, {"g2", p, p, p2}}[i])
		}
	}
	if c.Chance(50) { // the same with a domain that can not be matched
		dm := rbac.NewDomainManager(10)
		dm.SetDomainMatcher(util.NewMatcher(func(s string) bool { return strings.Contains(s, "/") }, util.IPMatch))
		path := []string{c.Pick([]string{"net1", "", "10.1.2", "::g"})}
		if c.Chance(40) {
			path = append([]string{"10.9.9.9"}, path...)
		}
		pat := append(append([]string{}, path[:len(path)-1]...), "10.0.0.0/8")
		q := append(append([]string{}, path[:len(path)-1]...), "10.1.2.3")
		steps := []string{}
		do := func(what string, got bool, err error) {
			c.Eval()
			steps = append(steps, what)
			if !got || err != nil {
				c.Failf("domain patterns: %q => %v %v", steps, got, err)
			}
		}
		got, err := dm.AddLink("alice", "admin", path...)
		do("link in "+strings.Join(path, "|"), got, err)
		got, err = dm.DeleteLink("alice", "admin", path...)
		do("deleted", got, err)
		got, err = dm.AddLink("bob", "admin", pat...)
		do("link in "+strings.Join(pat, "|"), got, err)
		got, err = dm.HasLink("bob", "admin", q...)
		do("bob has admin in "+strings.Join(q, "|"), got, err)
		got, err = dm.HasLink("alice", "admin", q...)
		do("alice does not", !got, err)
	}
	good := [][]string{{"p", "admin", "data1", "read", "allow"}, {"g", "p'^a.*", "admin"}, {"g", "bob", "admin"}, {"g2", "alice", "admin", "d1"}, {"g2", "carol", "admin", "p'^d.*"},
		{"g", "x1", "p'^z.*"}, {"g", "p'.*d$", "admin2"}} // a name such as zed would connect them
	for _, r := range good {
		if ok, err := e.AddRule(r); !ok || err != nil {
			c.Failf("add %q: %v %v", r, ok, err)
		}
	}
	before := ruleSet(listRules(e))
	check := func(what string) {
		if got := ruleSet(listRules(e)); got != before {
			c.Failf("%s changed the rules: %s", what, got)
		}
		for sub, want := range map[string]bool{"alice": true, "bob": true, "carol": false, "abc": true, "xyz": false} {
			got, err := e.Enforce(sub, "data1", "read")
			c.Eval()
			if err != nil || got != want {
				c.Failf("after %s: request of %s => %v %v", what, sub, got, err)
			}
		}
		if has, err := g.HasLink("x1", "admin2"); has || err != nil {
			c.Failf("after %s: x1 has admin2: %v %v", what, has, err)
		}
		for _, q := range []struct {
			sub, dom string
			want     bool
		}{{"alice", "d1", true}, {"carol", "d1", true}, {"carol", "d7", true}, {"alice", "d2", false}, {"carol", "x1", false}} {
			got, err := e.Enforce(q.sub, q.dom, fastac.SetMatcher("g2(r4.sub, 'admin', r4.dom) && p.sub == 'admin'"), fastac.SetRequestDef(defs.NewRequestDef("r4", "sub, dom")))
			c.Eval()
			if err != nil || got != q.want {
				c.Failf("after %s: request of %s in %s => %v %v", what, q.sub, q.dom, got, err)
			}
		}
	}
	check("nothing")
	for _, p := range badPat {
		rules := [][]string{{"g", p, "admin"}, {"g", "bob", p}, {"g", "zed", p}, {"g", p, "zed"}, {"g2", "alice", "admin", p}, {"g2", p, "admin", "d1"}, {"g2", "alice", p, "d1"}}
		for _, r := range rules {
			what := fmt.Sprintf("malformed pattern %q", r)
			reject(r)
			check(what)
			if c.Chance(30) {
				c.guard(what, func() {
					ok, err := e.RemoveRule(r)
					if ok { // the rule is not there, with or without an error
						c.Failf("%s was removed: %v %v", what, ok, err)
					}
				})
				check("removal of " + what)
			}
		}
		lenient([]string{"g", p, p})
		lenient([]string{"g2", p, p, "p'^x.*"})
		check("removal of malformed patterns")
		what := fmt.Sprintf("request with malformed pattern %q", p)
		c.guard(what, func() {
			got, _ := e.Enforce(p, "data1", "read")
			if got {
				c.Failf("%s: granted", what)
			}
			for _, q := range [][2]string{{p, "admin"}, {"alice", p}, {"zed", p}, {p, "zed"}} {
				if has, err := g.HasLink(q[0], q[1]); has {
					c.Failf("%s: %q has %q: %v %v", what, q[0], q[1], has, err)
				}
			}
			_, _ = g.GetRoles(p)
			_, _ = g.GetUsers(p)
			if has, err := g2.HasLink("bob", "admin", p); has {
				c.Failf("%s: HasLink in a malformed domain: %v %v", what, has, err)
			}
			_, _ = g2.GetRoles("alice", p)
			_, _ = g2.GetUsers("admin", p)
		})
		check(what)
	}
	c.Sample("malformed patterns %q rejected, rules unchanged", badPat)
	c06UndecidedLinks(c, badPat)
}

// c06UndecidedLinks: matchers ask for a link that cannot be decided, because a name is a malformed pattern.
// The request must fail, whether the matcher wants the link or its absence
func c06UndecidedLinks(c *C, bad []string) {
	role := c.Pick([]string{"_, _", "_, _, _", "_, _, _, _"})
	levels := strings.Count(role, "_") - 2
	m := model.NewModel()
	for _, d := range []defn{{'r', "r", "sub, dom"}, {'p', "p", "sub"}, {'g', "g", role}, {'e', "e", effects[0]}} {
		if err := m.SetDef(d.sec, d.key, d.val); err != nil {
			c.Failf("%v: %v", d, err)
		}
	}
	rm, _ := m.GetRoleManager("g")
	rm.(rbac.IDefaultRoleManager).SetMatcher(util.RegexMatcher)
	if levels > 0 && c.Chance(50) {
		rm.(rbac.IDefaultRoleManager).SetDomainMatcher(util.RegexMatcher)
	}
	e, err := fastac.NewEnforcer(m, nil)
	if err != nil {
		c.Failf("%v", err)
	}
	link := append([]string{"g", "alice", "admin"}, []string{"d1", "d2"}[:levels]...)
	if c.Chance(80) {
		if ok, err := e.AddRule(link); !ok || err != nil {
			c.Failf("%q: %v %v", link, ok, err)
		}
	}
	p := c.Pick(bad)
	rule := []string{"p", p}
	sub := c.Pick([]string{"alice", "alice", "bob", "admin"})
	if c.Chance(30) { // the other way round
		rule, sub = []string{"p", c.Pick([]string{"admin", "alice"})}, p
	}
	if ok, err := e.AddRule(rule); !ok || err != nil {
		c.Failf("%q: %v %v", rule, ok, err)
	}
	doms := ""
	if levels > 0 && c.Chance(85) {
		doms = c.Pick([]string{", r.dom", ", 'd1'", ", 'd7'"})
		if levels > 1 {
			doms += ", 'd2'"
		}
	}
	call := c.Pick([]string{"g(r.sub, p.sub%s)", "g(p.sub, r.sub%s)"})
	text := c.Pick([]string{"", "!", "!!", "r.sub != 'x' && !", "false == ", "r.sub == 'x' || !"}) + fmt.Sprintf(call, doms)
	what := fmt.Sprintf("undecided link: %s with rules %q %q, request of %s", text, link, rule, sub)
	c.guard(what, func() {
		got, err := e.Enforce(sub, "d1", fastac.SetMatcher(text))
		c.denied(what, got, err)
		_, err = e.Filter(sub, "d1", fastac.SetMatcher(text))
		c.denied(what+" (filter)", false, err)
	})
	c.Distinct(what)
	c.Count("undecided links")
}

// c06Patterns: a malformed pattern in a rule that is reached
func c06Patterns(c *C) {
	f := newFixed(c)
	type pat struct{ fn, good, bad, value string }
	pats := []pat{{"regexMatch", "da.*", "(", "data1"}, {"regexMatch", "da.*", "a{3,1}", "data1"}, {"globMatch", "data*", "[", "data1"}, {"globMatch", "data*", "d[a-", "data1"}, {"globMatch", "data*", "data\\", "data1"}, {"ipMatch", "10.0.0.0/8", "10.0.0", "10.1.2.3"}, {"ipMatch", "10.0.0.0/8", "10.0.0.0/99", "10.1.2.3"}, {"ipMatch", "10.0.0.0/8", "", "10.1.2.3"}}
	p := pats[c.Intn(len(pats))]
	r := []string{"p", "zoe", p.bad, "x", "allow"}
	if ok, err := f.e.AddRule(r); !ok || err != nil {
		c.Failf("%v %v", ok, err)
	}
	good := []string{"p", "zoe", p.good, "x", "allow"}
	order := []string{"r.sub == p.sub && " + p.fn + "(r.obj, p.obj)", "p.sub == r.sub && (" + p.fn + "(r.obj, p.obj) || r.act == 'never')", p.fn + "(r.obj, p.obj) && r.sub == p.sub", "r.act == p.act && r.sub == p.sub && (p.act == 'q' || " + p.fn + "(r.obj, p.obj))", "r.sub == p.sub && !" + p.fn + "(r.obj, p.obj)"}
	k := c.Intn(len(order))
	text := order[k]
	what := fmt.Sprintf("malformed pattern %q in %s", p.bad, text)
	c.guard(what, func() {
		got, err := f.e.Enforce("zoe", p.value, "x", fastac.SetMatcher(text))
		if k == 2 && p.fn != "ipMatch" || k != 2 {
			c.denied(what, got, err)
		} else if got {
			c.Failf("%s: granted", what)
		}
		_, err = f.e.Filter("zoe", p.value, "x", fastac.SetMatcher(text))
		c.denied(what+" (filter)", false, err)
	})
	if ok, err := f.e.RemoveRule(r); !ok || err != nil {
		c.Failf("%v %v", ok, err)
	}
	f.sound(c, what)
	if k != 2 && k != 4 {
		if ok, err := f.e.AddRule(good); !ok || err != nil {
			c.Failf("%v %v", ok, err)
		}
		if got, err := f.e.Enforce("zoe", p.value, "x", fastac.SetMatcher(text)); !got || err != nil {
			c.Failf("well-formed pattern %q in %s: %v %v", p.good, text, got, err)
		}
	}
	c.Distinct(what)
}

func init() {
	register(&Check{ID: "C06", Level: "fault_enumeration", Quick: 10000, Full: 150000, Run: runC06,
		Rule:   "faults of twelve kinds, rotated: a matching function that errs or panics (six modes) at its 1st..4th call at any position of a random matcher, 70 broken matchers as option, definition and rule condition, too few and too many request values, 19 value types x 22 matchers, invalid rules, keys and definitions, models without one section, random and mutated matcher text, invalid constructor arguments and options, malformed role and domain patterns, malformed patterns in rules, links that cannot be decided because a name is malformed. Every fault is followed by valid requests with known answers and a comparison of the rules. Non-trivial: distinct faults that were actually raised.",
		Assume: []string{"a matching function is expected to be evaluated only when the matcher reaches it, so that the oracle is driven by whether the fault was raised"}})
}
