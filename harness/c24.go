package main

import (
	"fmt"
	"path"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/casbin/casbin/v2"
	cmodel "github.com/casbin/casbin/v2/model"
)

// a kind of model that both libraries document
type kindModel struct {
	name    string
	r, p    string
	gs      []gDef
	eff     int // -1: any
	m       string
	request func(c *C) []interface{}
	rule    func(c *C) []string // without key
	conds   bool
}

var ckNames = []string{"alice", "bob", "carol", "dave", "root", "staff", "admin"}
var ckObjs = []string{"data1", "data2", "/res/1", "/res/2", "group1"}
var ckDoms = []string{"dom1", "dom2", "d3"}

// names that a normalisation would confuse
var ckVariants = []string{"alice", "alice ", " alice", "Alice", "ALICE", "bob", "Bob", "bob ", "al ice"}

func ckName(c *C) string {
	if c.Chance(25) {
		return c.Pick(ckVariants)
	}
	return c.Pick(ckNames)
}

func ckEft(c *C) string { return c.Pick([]string{"allow", "allow", "deny", "other"}) }

var kindModels = []kindModel{
	{name: "ACL", r: "sub, obj, act", p: "sub, obj, act", eff: 0, m: "r.sub == p.sub && r.obj == p.obj && r.act == p.act"},
	{name: "ACL with superuser", r: "sub, obj, act", p: "sub, obj, act", eff: 0, m: "r.sub == p.sub && r.obj == p.obj && r.act == p.act || r.sub == \"root\""},
	{name: "ACL without users", r: "obj, act", p: "obj, act", eff: 0, m: "r.obj == p.obj && r.act == p.act"},
	{name: "ACL without resources", r: "sub, act", p: "sub, act", eff: 0, m: "r.sub == p.sub && r.act == p.act"},
	{name: "RBAC", r: "sub, obj, act", p: "sub, obj, act", gs: []gDef{{"g", 0}}, eff: 0, m: "g(r.sub, p.sub) && r.obj == p.obj && r.act == p.act"},
	{name: "RBAC with resource roles", r: "sub, obj, act", p: "sub, obj, act", gs: []gDef{{"g", 0}, {"g2", 0}}, eff: 0, m: "g(r.sub, p.sub) && g2(r.obj, p.obj) && r.act == p.act"},
	{name: "RBAC with domains", r: "sub, dom, obj, act", p: "sub, dom, obj, act", gs: []gDef{{"g", 1}}, eff: 0, m: "g(r.sub, p.sub, r.dom) && r.dom == p.dom && r.obj == p.obj && r.act == p.act"},
	{name: "RBAC with domains and deny", r: "sub, dom, obj, act", p: "sub, dom, obj, act, eft", gs: []gDef{{"g", 1}}, eff: -1, m: "g(r.sub, p.sub, r.dom) && r.dom == p.dom && r.obj == p.obj && r.act == p.act"},
	{name: "RBAC with deny", r: "sub, obj, act", p: "sub, obj, act, eft", gs: []gDef{{"g", 0}}, eff: 2, m: "g(r.sub, p.sub) && r.obj == p.obj && r.act == p.act"},
	{name: "RBAC with not-deny", r: "sub, obj, act", p: "sub, obj, act, eft", gs: []gDef{{"g", 0}}, eff: 1, m: "g(r.sub, p.sub) && r.obj == p.obj && r.act == p.act"},
	{name: "eft in front", r: "sub, obj, act", p: "eft, sub, obj, act", eff: -1, m: "r.sub == p.sub && r.obj == p.obj && r.act == p.act"},
	{name: "ABAC", r: "sub, attr, act", p: "sub, act", eff: 0, m: "r.sub == r.attr.Owner.Name || r.sub == p.sub && r.act == p.act && r.attr.Level < 2"},
	{name: "ABAC with eval", r: "attr, obj, act", p: "cond, obj, act", eff: 0, m: "eval(p.cond) && r.obj == p.obj && r.act == p.act", conds: true},
	{name: "ABAC with eval and deny", r: "attr, obj, act", p: "cond, obj, act, eft", gs: []gDef{{"g", 0}}, eff: -1, m: "eval(p.cond) && g(r.obj, p.obj) && r.act == p.act", conds: true},
	{name: "in operator", r: "sub, obj, act", p: "sub, obj, act", eff: 0, m: "r.sub == p.sub && r.obj == p.obj && r.act == p.act || r.act in ('read', 'list') && r.sub == p.sub"},
	{name: "in operator with brackets", r: "sub, obj, act", p: "sub, obj, act", gs: []gDef{{"g", 0}}, eff: 0, m: "g(r.sub, p.sub) && (r.obj in (\"data2\", \"data1\")) && r.act == p.act"},
	{name: "regular expressions", r: "sub, obj, act", p: "sub, obj, re", eff: 0, m: "r.sub == p.sub && r.obj == p.obj && regexMatch(r.act, p.re)"},
	{name: "globs", r: "sub, obj, act", p: "sub, gl, act", eff: 0, m: "r.sub == p.sub && globMatch(r.obj, p.gl) && r.act == p.act"},
	{name: "addresses", r: "ip, obj", p: "net, obj", eff: 0, m: "r.obj == p.obj && ipMatch(r.ip, p.net)"},
	{name: "negation", r: "sub, obj, act", p: "sub, obj, act, eft", gs: []gDef{{"g", 0}}, eff: -1, m: "!(r.sub == p.sub) && r.obj == p.obj && r.act != p.act || g(r.sub, p.sub)"},
	{name: "underscores", r: "sub, obj, act", p: "sub, obj, act", eff: 0, m: "r_sub == p_sub && r.obj == p_obj && r_act == p.act"},
}

var ckConds = []string{"r.attr.Age > 18", "r.attr.Age > 18 && r.attr.Age < 60", "r.attr.Name == \"alice\" || r.attr.Admin", "true", "r.attr.Level == 1", "r.attr.Owner.Name == 'bob'", "p.obj == 'data1'", "r.obj == p.obj && r.attr.Age >= 30"}

func ckValue(c *C, arg string, rule bool) interface{} {
	switch arg {
	case "sub":
		return ckName(c)
	case "obj":
		return c.Pick(ckObjs)
	case "act":
		return c.Pick([]string{"read", "write", "list"})
	case "dom":
		return c.Pick(ckDoms)
	case "eft":
		return ckEft(c)
	case "re":
		return c.Pick([]string{"read|write", "^r", ".*", "l.st", "(write)+"})
	case "gl":
		return c.Pick([]string{"data*", "/res/*", "*", "data?", "/res/[0-1]"})
	case "ip":
		return c.Pick(rIPs)
	case "net":
		return c.Pick(pIPs)
	case "cond":
		return c.Pick(ckConds)
	case "attr":
		a := Attr{Name: ckName(c), Age: float64(10 * c.Intn(8)), Level: float64(c.Intn(4)), Admin: c.Chance(30), Owner: Person{ckName(c), 3}}
		if c.Chance(40) {
			return &a
		}
		return a
	}
	panic("harness: " + arg)
}

func ckValues(c *C, args string, rule bool) []interface{} {
	res := []interface{}{}
	for _, a := range strings.Split(args, ", ") {
		res = append(res, ckValue(c, a, rule))
	}
	return res
}

// twin runs both libraries.
type twin struct {
	fe     *fastac.Enforcer
	ce     *casbin.Enforcer
	gs     []gDef
	name   string
	text   string
	rules  func(c *C) []string
	links  func(c *C) []string
	req    func(c *C) []interface{}
	st     *Store
	noEval bool // the policy must not be empty
	skip   bool
}

func newTwin(c *C, text string) *twin {
	t := &twin{text: text, st: newStore()}
	fm := model.NewModel()
	setCustom(fm)
	err := fm.LoadModelFromText(text)
	if err != nil {
		c.Failf("FastAC rejects the model: %v\n%s", err, text)
	}
	t.fe, err = fastac.NewEnforcer(fm, nil)
	if err != nil {
		c.Failf("%v", err)
	}
	cm, err := cmodel.NewModelFromString(text)
	if err != nil {
		c.Count("models which Casbin rejects")
		t.skip = true
		return t
	}
	t.ce, err = casbin.NewEnforcer(cm)
	if err != nil {
		c.Count("models which Casbin rejects")
		t.skip = true
	}
	return t
}

func (t *twin) functions() {
	t.ce.AddFunction("startsWith", func(a ...interface{}) (interface{}, error) {
		return strings.HasPrefix(a[0].(string), a[1].(string)), nil
	})
	t.ce.AddFunction("sameLen", func(a ...interface{}) (interface{}, error) {
		return len(a[0].(string)) == len(a[1].(string)), nil
	})
	t.ce.AddFunction("pathMatch", func(a ...interface{}) (interface{}, error) {
		return refPathMatch(a[0].(string), a[1].(string), 1), nil
	})
	t.ce.AddFunction("pathMatch2", func(a ...interface{}) (interface{}, error) {
		return refPathMatch(a[0].(string), a[1].(string), 2), nil
	})
	t.ce.AddFunction("globMatch", func(a ...interface{}) (interface{}, error) { // Casbin reports malformed globs
		ok, _ := path.Match(a[1].(string), a[0].(string))
		return ok, nil
	})
}

func (t *twin) edit(c *C, add bool, r []string) {
	var fok, cok bool
	var ferr, cerr error
	vals := make([]interface{}, len(r)-1)
	for i, v := range r[1:] {
		vals[i] = v
	}
	switch {
	case add && r[0][0] == 'p':
		cok, cerr = t.ce.AddNamedPolicy(r[0], vals...)
	case add:
		cok, cerr = t.ce.AddNamedGroupingPolicy(r[0], vals...)
	case r[0][0] == 'p':
		cok, cerr = t.ce.RemoveNamedPolicy(r[0], vals...)
	default:
		cok, cerr = t.ce.RemoveNamedGroupingPolicy(r[0], vals...)
	}
	if add {
		fok, ferr = t.fe.AddRule(r)
		t.st.Add(r)
	} else {
		fok, ferr = t.fe.RemoveRule(r)
		t.st.Remove(r)
	}
	c.Logf("%v %q", map[bool]string{true: "add", false: "remove"}[add], r)
	if ferr != nil || (cerr == nil && fok != cok) {
		c.Failf("%s: add=%v %q: FastAC %v %v, Casbin %v %v", t.name, add, r, fok, ferr, cok, cerr)
	}
	if cerr != nil {
		panic("harness: casbin " + cerr.Error())
	}
}

func (t *twin) randomEdit(c *C) {
	all := t.st.All()
	if len(all) > 0 && c.Chance(35) {
		r := all[c.Intn(len(all))]
		if !t.noEval || r[0][0] == 'g' || len(t.st.Rules(r[0])) > 1 {
			t.edit(c, false, r)
		}
		return
	}
	if len(t.gs) > 0 && c.Chance(40) {
		t.edit(c, true, t.links(c))
		return
	}
	t.edit(c, true, t.rules(c))
}

func (t *twin) compare(c *C, s *Scen, fopts []interface{}, cctx []interface{}, req []interface{}) {
	fok, ferr := t.fe.Enforce(append(append([]interface{}{}, fopts...), req...)...)
	cok, cerr := t.ce.Enforce(append(append([]interface{}{}, cctx...), req...)...)
	c.Logf("request (%s): FastAC %v %v, Casbin %v %v", showReq(req), fok, ferr, cok, cerr)
	if cerr != nil {
		c.Count("requests which Casbin rejects")
		return
	}
	if s != nil && ferr == nil && fok != cok && s.Decide(t.st, req) == fok {
		// the govaluate version of Casbin misjudges some mixtures of literal conditions, in and ||
		c.Count("decisions in which Casbin departs from the written matcher")
		return
	}
	if ferr != nil || fok != cok {
		c.Failf("%s, request (%s): FastAC %v %v, Casbin %v\n%s\nrules:\n%s", t.name, showReq(req), fok, ferr, cok, t.text, ruleSet(t.st.All()))
	}
	c.Eval()
	c.Count(fmt.Sprintf("equal decisions (%v)", fok))
	c.Distinct(t.text, ruleSet(t.st.All()), showReq(req))
}

func runC24(c *C) {
	switch {
	case c.Chance(55):
		c24Kind(c)
	case c.Chance(60):
		c24Scen(c)
	default:
		c24Multi(c)
	}
}

func c24Kind(c *C) {
	k := kindModels[c.Intn(len(kindModels))]
	eff := k.eff
	if eff < 0 {
		eff = c.Intn(3)
	}
	text := modelText("r", strings.Split(k.r, ", "), "p", strings.Split(k.p, ", "), k.gs, "e", effects[eff], "m", k.m)
	t := newTwin(c, text)
	if t.skip {
		return
	}
	t.name, t.gs, t.noEval = k.name, k.gs, k.conds || k.name == "addresses"
	t.rules = func(c *C) []string {
		r := []string{"p"}
		for _, v := range ckValues(c, k.p, true) {
			r = append(r, v.(string))
		}
		return r
	}
	t.links = func(c *C) []string {
		g := k.gs[c.Intn(len(k.gs))]
		names := append(append([]string{}, ckNames...), ckVariants[:6]...)
		if g.key == "g2" || k.conds {
			names = ckObjs
		}
		r := []string{g.key, c.Pick(names), c.Pick(names)}
		for i := 0; i < g.doms; i++ {
			r = append(r, c.Pick(ckDoms))
		}
		return r
	}
	for t.noEval && len(t.st.Rules("p")) == 0 {
		t.edit(c, true, t.rules(c))
	}
	for i := 0; i < c.Intn(16); i++ {
		t.randomEdit(c)
	}
	near := func() []interface{} { // a request close to a rule
		req := ckValues(c, k.r, false)
		rules := t.st.Rules("p")
		if len(rules) == 0 || c.Chance(30) {
			return req
		}
		rule := rules[c.Intn(len(rules))]
		for i, a := range strings.Split(k.r, ", ") {
			for j, b := range strings.Split(k.p, ", ") {
				if a == b && c.Chance(80) {
					req[i] = rule[1+j]
				}
			}
		}
		return req
	}
	for i := 0; i < 14; i++ {
		t.compare(c, nil, nil, nil, near())
		if c.Chance(35) {
			t.randomEdit(c)
		}
	}
	c.Count("kind: " + k.name)
	c.Sample("%s: %d rules, 14 requests with equal decisions", k.name, t.st.Len())
}

// usable tells whether Casbin documents the same meaning: it evaluates a matcher without rule arguments only once.
func usable(s *Scen) bool {
	t := stripLits(s.MText)
	return strings.Contains(t, s.PKey+"_") || strings.Contains(t, s.PKey+".")
}

func c24Gen(c *C, key int, gs []gDef) *Scen {
	for {
		s := genScen(c, scenOpts{noIP: true, noRoles: true, stdKeys: true})
		s.names, s.doms = ckNames[:5], ckDoms
		if c.Chance(25) {
			s.names = ckVariants[:6]
		}
		s.RKey, s.PKey, s.Gs = casbinKey("r", key), casbinKey("p", key), gs
		s.M = s.genBool(c, 1+c.Intn(5))
		s.MText = render(c, s.M)
		if usable(s) {
			return s
		}
	}
}

// quoted regular expressions and globs must not contain what only one of the libraries interprets
func plainText(text string) bool {
	return !strings.ContainsAny(text, "#\\") && !strings.Contains(text, "r.obj ==")
}

func (t *twin) scen(c *C, s *Scen) {
	t.rules = func(c *C) []string {
		r := s.genRule(c)
		if s.Eft >= 0 && r[1+s.Eft] == "" { // Casbin does not treat an empty effect as allow
			r[1+s.Eft] = "allow"
		}
		return r
	}
	t.links = func(c *C) []string { return s.genLink(c) }
}

func c24Gs(c *C) []gDef {
	gs := []gDef{}
	for i, n := 0, c.Intn(3); i < n; i++ {
		gs = append(gs, gDef{casbinKey("g", i), c.Intn(2)})
	}
	return gs
}

func c24Scen(c *C) {
	gs := c24Gs(c)
	s := c24Gen(c, 0, gs)
	text := s.Text()
	if !plainText(text) {
		c.Count("skipped models")
		return
	}
	t := newTwin(c, text)
	if t.skip {
		return
	}
	t.name, t.gs = "generated model", gs
	t.functions()
	t.scen(c, s)
	for i := 0; i < 2+c.Intn(12); i++ {
		t.randomEdit(c)
	}
	for i := 0; i < 12; i++ {
		t.compare(c, s, nil, nil, s.requestNear(c, t.st, s.genRequest(c)))
		if c.Chance(30) {
			t.randomEdit(c)
		}
	}
	c.Count("generated models")
}

// c24Multi compares models with two sets of definitions.
func c24Multi(c *C) {
	gs := c24Gs(c)
	ss := []*Scen{c24Gen(c, 0, gs), c24Gen(c, 1, gs)}
	b := strings.Builder{}
	sec := func(name string, f func(i int, s *Scen) string) {
		fmt.Fprintf(&b, "[%s]\n", name)
		for i, s := range ss {
			b.WriteString(f(i, s) + "\n")
		}
		b.WriteString("\n")
	}
	sec("request_definition", func(i int, s *Scen) string { return s.RKey + " = " + strings.Join(s.RArgs, ", ") })
	sec("policy_definition", func(i int, s *Scen) string { return s.PKey + " = " + strings.Join(s.PArgs, ", ") })
	if len(gs) > 0 {
		b.WriteString("[role_definition]\n")
		for _, g := range gs {
			b.WriteString(g.Text() + "\n")
		}
		b.WriteString("\n")
	}
	sec("policy_effect", func(i int, s *Scen) string { return casbinKey("e", i) + " = " + effects[s.Effect] })
	sec("matchers", func(i int, s *Scen) string { return casbinKey("m", i) + " = " + s.MText })
	text := b.String()
	if !plainText(text) {
		c.Count("skipped models")
		return
	}
	t := newTwin(c, text)
	if t.skip {
		return
	}
	t.name, t.gs = "generated model with several definitions", gs
	t.functions()
	for i := 0; i < 2+c.Intn(14); i++ {
		t.scen(c, ss[c.Intn(2)])
		t.randomEdit(c)
	}
	for i := 0; i < 12; i++ {
		j := c.Intn(2)
		s := ss[j]
		// Casbin reads the effect of p only if the policies use the same name
		fopts := []interface{}{fastac.SetRequestDef(s.RKey), fastac.SetMatcher(casbinKey("m", j)), fastac.SetEffector(casbinKey("e", j))}
		cctx := []interface{}{casbin.EnforceContext{RType: s.RKey, PType: s.PKey, EType: casbinKey("e", j), MType: casbinKey("m", j)}}
		if j == 0 && c.Chance(60) {
			fopts, cctx = nil, nil
		}
		t.compare(c, s, fopts, cctx, s.requestNear(c, t.st, s.genRequest(c)))
		if c.Chance(30) {
			t.scen(c, s)
			t.randomEdit(c)
		}
	}
	c.Count("generated models with several definitions")
}

func init() {
	register(&Check{
		ID: "C24", Level: "exploration", Quick: 16000, Full: 200000,
		Rule:   "21 documented kinds of models (ACL, superuser, RBAC, resource roles, domains, deny, ABAC, eval, in, regular expressions, globs, addresses, ...) and random models (also with two sets of definitions), the same model text, edit history and requests given to FastAC and to Casbin v2.44.3; non-trivial: distinct (model, rules, request)",
		Run:    runC24,
		Assume: []string{"Casbin v2.44.3 is the reference", "effect values are not empty (Casbin does not treat them as allow)", "the matcher mentions an argument of the rule (otherwise Casbin evaluates it once)"},
	})
}

// casbinKey numbers the definitions one after the other, Casbin reads no others
func casbinKey(prefix string, i int) string {
	if i == 0 {
		return prefix
	}
	return fmt.Sprint(prefix, i+1)
}
