package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/effector"
	"github.com/abichinger/fastac/model/eft"
	"github.com/abichinger/fastac/model/fm"
	"github.com/abichinger/fastac/model/matcher"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/model/types"
	"github.com/abichinger/fastac/rbac"
	em "github.com/vansante/go-event-emitter"
)

// ownPolicy implements policy.IPolicy with a list
type ownPolicy struct {
	rules [][]string
	*em.Emitter
	failSwitch
}

// failSwitch makes the next edit of an own component fail
type failSwitch struct{ next bool }

func (f *failSwitch) take() error {
	if f.next {
		f.next = false
		return errors.New("the component failed")
	}
	return nil
}

func (p *ownPolicy) find(rule []string) int {
	for i, r := range p.rules {
		if rkey(r) == rkey(rule) {
			return i
		}
	}
	return -1
}

func (p *ownPolicy) AddRule(rule []string) (bool, error) {
	if err := p.take(); err != nil {
		return false, err
	}
	if p.find(rule) >= 0 {
		return false, nil
	}
	p.rules = append(p.rules, rule)
	p.EmitEvent(policy.EVT_RULE_ADDED, rule)
	return true, nil
}

func (p *ownPolicy) RemoveRule(rule []string) (bool, error) {
	if err := p.take(); err != nil {
		return false, err
	}
	i := p.find(rule)
	if i < 0 {
		return false, nil
	}
	p.rules = append(p.rules[:i:i], p.rules[i+1:]...)
	p.EmitEvent(policy.EVT_RULE_REMOVED, rule)
	return true, nil
}

func (p *ownPolicy) Clear() error {
	if err := p.take(); err != nil {
		return err
	}
	p.rules = nil
	p.EmitEvent(policy.EVT_CLEARED)
	return nil
}

func (p *ownPolicy) Range(fn func(rule []string) bool) {
	for _, r := range p.rules {
		if !fn(r) {
			return
		}
	}
}

// ownRM implements rbac.IRoleManager with a list of links
type ownRM struct {
	links [][]string
	roles RoleRef
	failSwitch
}

func (rm *ownRM) Clear() error {
	if err := rm.take(); err != nil {
		return err
	}
	rm.links, rm.roles = nil, RoleRef{}
	return nil
}
func (rm *ownRM) AddLink(a, b string, d ...string) (bool, error) {
	if err := rm.take(); err != nil {
		return false, err
	}
	if !rm.roles.Add(a, b, d...) {
		return false, nil
	}
	rm.links = append(rm.links, append([]string{a, b}, d...))
	return true, nil
}
func (rm *ownRM) DeleteLink(a, b string, d ...string) (bool, error) {
	if err := rm.take(); err != nil {
		return false, err
	}
	if !rm.roles.Del(a, b, d...) {
		return false, nil
	}
	for i, l := range rm.links {
		if rkey(l) == rkey(append([]string{a, b}, d...)) {
			rm.links = append(rm.links[:i:i], rm.links[i+1:]...)
			break
		}
	}
	return true, nil
}
func (rm *ownRM) HasLink(a, b string, d ...string) (bool, error) {
	return rm.roles.Has(a, b, d...), nil
}
func (rm *ownRM) GetRoles(a string, d ...string) ([]string, error) {
	return rm.roles.Roles(a, d...), nil
}
func (rm *ownRM) GetUsers(b string, d ...string) ([]string, error) {
	return rm.roles.Users(b, d...), nil
}
func (rm *ownRM) Range(fn func(a, b string, domain ...string) bool) {
	for _, l := range rm.links {
		if !fn(l[0], l[1], l[2:]...) {
			return
		}
	}
}

// ownEffector allows if at least k rules allow, and watches how it is called
type ownEffector struct {
	k, denies int
	fail      bool
	last      int  // effects of the last call
	done      bool // a decision was made
	calls     int
	wrong     string
}

func (e *ownEffector) begin() { e.last, e.done, e.calls, e.wrong = 0, false, 0, "" }

func (e *ownEffector) MergeEffects(effects []types.Effect, matches [][]string, complete bool) (types.Effect, []string, error) {
	e.calls++
	switch {
	case e.done:
		e.wrong = "called after it had made the decision"
	case len(effects) != len(matches):
		e.wrong = fmt.Sprintf("%d effects of %d rules", len(effects), len(matches))
	case !complete && len(effects) != e.last+1, complete && len(effects) != e.last:
		e.wrong = fmt.Sprintf("called with %d effects (complete: %v), %d before", len(effects), complete, e.last)
	}
	e.last = len(effects)
	if complete {
		e.done = true
		if e.fail {
			return eft.Allow, nil, errors.New("no decision")
		}
	}
	a, d := 0, 0
	for _, x := range effects {
		switch x {
		case eft.Allow:
			a++
		case eft.Deny:
			d++
		}
	}
	if complete {
		if a >= e.k && d <= e.denies {
			return eft.Allow, nil, nil
		}
		return eft.Deny, nil, nil
	}
	if d > e.denies && !e.fail {
		e.done = true
		return eft.Deny, nil, nil
	}
	return eft.Indeterminate, nil, nil
}

// ownMatcher matches fixed rules
type ownMatcher struct {
	key   string
	rules [][]string
	fail  bool
}

func (m *ownMatcher) GetPolicyKey() string { return m.key }
func (m *ownMatcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap fm.FunctionMap, fn func(rule []string) bool) error {
	for _, r := range m.rules {
		if !fn(append([]string{}, r...)) {
			return nil
		}
	}
	if m.fail {
		return errors.New("matching failed")
	}
	return nil
}

// part is a policy or a role manager together with its expected contents (rules without key)
type part struct {
	name  string
	pol   policy.IPolicy
	rm    rbac.IRoleManager
	rules map[string][]string
}

func (p *part) edit(add bool, rule []string) bool {
	_, ok := p.rules[rkey(rule)]
	if add {
		p.rules[rkey(rule)] = append([]string{}, rule...)
	} else {
		delete(p.rules, rkey(rule))
	}
	return ok != add
}

// own returns the switch of a component of the harness
func (p *part) own() *failSwitch {
	if x, ok := p.pol.(*ownPolicy); ok {
		return &x.failSwitch
	}
	if x, ok := p.rm.(*ownRM); ok {
		return &x.failSwitch
	}
	return nil
}

func (p *part) list() [][]string {
	res := [][]string{}
	if p.pol != nil {
		p.pol.Range(func(r []string) bool { res = append(res, append([]string{}, r...)); return true })
	} else {
		p.rm.Range(func(a, b string, d ...string) bool { res = append(res, append([]string{a, b}, d...)); return true })
	}
	return res
}

func (p *part) want() [][]string {
	res := [][]string{}
	for _, r := range p.rules {
		res = append(res, r)
	}
	return res
}

// host is a model with the parts it currently consists of
type host struct {
	s      *Scen
	e      *fastac.Enforcer
	m      *model.Model
	cur    map[string]*part // per key
	own    *ownEffector
	ownM   *ownMatcher
	fns    map[string]func(a, b string) bool
	stale  map[string]bool // role managers that were edited without telling this model
	events []string
	wants  []string
}

func (h *host) store() *Store {
	st := newStore()
	for k, p := range h.cur {
		for _, r := range p.rules {
			st.Add(append([]string{k}, r...))
		}
	}
	return st
}

// noRoleManager checks role functions that were made without a role manager: they compare the names
func noRoleManager(c *C) {
	m := model.NewModel()
	m.SetFunction("same", rbac.GenerateGFunction(nil))
	call := "same(r.sub, p.sub)"
	if c.Chance(30) {
		call = "same(r.sub, p.sub, 'dom')"
	}
	if err := m.LoadModelFromText("[request_definition]\nr = sub, obj\n[policy_definition]\np = sub, obj\n[policy_effect]\ne = " + effects[0] + "\n[matchers]\nm = " + call + " && r.obj == p.obj\n"); err != nil {
		c.Failf("%v", err)
	}
	e, err := fastac.NewEnforcer(m, nil)
	if err != nil {
		c.Failf("%v", err)
	}
	rules := map[string]bool{}
	names := []string{"alice", "bob", "", "x y", "*", "al*", "Alice"}
	for i := 0; i < 8; i++ {
		rule := []string{"p", c.Pick(names), c.Pick(names)}
		if _, err := e.AddRule(rule); err != nil {
			c.Failf("AddRule(%q): %v", rule, err)
		}
		rules[rkey(rule[1:])] = true
		req := []string{c.Pick(names), c.Pick(names)}
		got, err := e.Enforce(req[0], req[1])
		c.Eval()
		if want := rules[rkey(req)]; err != nil || got != want {
			c.Failf("matcher %s with a role function without role manager, rules %v, request %q => %v %v, expected %v", call, rules, req, got, err, want)
		}
	}
	c.Count("role functions without a role manager")
}

func runC30(c *C) {
	if c.Chance(5) {
		noRoleManager(c)
	}
	base := genScen(c, scenOpts{weird: 20, noIP: true, maxLeafs: 4})
	hosts := []*host{}
	parts := map[string][]*part{} // per key
	n := 0
	newPart := func(key string, doms int) *part {
		n++
		p := &part{name: fmt.Sprintf("%s#%d", key, n), rules: map[string][]string{}}
		switch {
		case key[0] == 'p' && c.Chance(50):
			p.pol = &ownPolicy{Emitter: em.NewEmitter(false)}
		case key[0] == 'p':
			p.pol = policy.NewPolicy(defs.NewPolicyDef(key, strings.Join(base.PArgs, ",")))
		case c.Chance(40):
			p.rm = &ownRM{roles: RoleRef{}}
		case doms > 0:
			p.rm = rbac.NewDomainManager(10)
		default:
			p.rm = rbac.NewRoleManager(10)
		}
		for i := c.Intn(5); i > 0; i-- {
			rule := base.genRule(c)
			if key[0] == 'g' {
				for rule = base.genLink(c); rule[0] != key; {
					rule = base.genLink(c)
				}
			}
			p.direct(c, true, rule[1:])
		}
		c.Logf("new part %s: %T with %q", p.name, map[bool]interface{}{true: p.pol, false: p.rm}[p.pol != nil], p.want())
		parts[key] = append(parts[key], p)
		return p
	}
	edited := func(p *part, by *host) { // role managers do not announce their edits
		for _, o := range hosts {
			for k, q := range o.cur {
				if q == p && o != by {
					o.stale[k] = true
				}
			}
		}
	}
	keys := []string{base.PKey}
	for _, g := range base.Gs {
		keys = append(keys, g.key)
	}
	doms := func(key string) int {
		for _, g := range base.Gs {
			if g.key == key {
				return g.doms
			}
		}
		return 0
	}
	for i := 0; i < 1+c.Intn(2); i++ {
		s := *base
		h := &host{s: &s, cur: map[string]*part{}, stale: map[string]bool{}, fns: map[string]func(a, b string) bool{}}
		s.fn = func(name string, args []string) (bool, bool) {
			f, ok := h.fns[name]
			if !ok {
				return false, false
			}
			return f(args[0], args[1]), true
		}
		h.e = s.newEnforcer(c)
		h.m = h.e.GetModel().(*model.Model)
		for _, k := range keys { // what the model created itself
			p := &part{name: fmt.Sprintf("%s of model %d", k, i), rules: map[string][]string{}}
			if k[0] == 'p' {
				p.pol, _ = h.m.GetPolicy(k)
			} else {
				p.rm, _ = h.m.GetRoleManager(k)
				if err := h.m.SetDef(model.M_SEC, "mlist"+k, fmt.Sprintf("%s.user != '#1' && (%s.role != '#2' || %s.user == '#3')", k, k, k)); err != nil {
					c.Failf("%v", err)
				}
				if err := h.m.BuildMatcher("mlist" + k); err != nil {
					c.Failf("%v", err)
				}
			}
			h.cur[k] = p
			parts[k] = append(parts[k], p)
		}
		h.m.AddListener(model.RULE_ADDED, func(a ...interface{}) { h.events = append(h.events, "add "+rkey(a[0].([]string))) })
		h.m.AddListener(model.RULE_REMOVED, func(a ...interface{}) { h.events = append(h.events, "remove "+rkey(a[0].([]string))) })
		hosts = append(hosts, h)
	}
	c.Logf("%s", base.Text())
	for i, steps := 0, 12+c.Intn(14); i < steps; i++ {
		hi := c.Intn(len(hosts))
		h := hosts[hi]
		s := h.s
		key := keys[c.Intn(len(keys))]
		what := ""
		switch k := c.Intn(100); {
		case k < 30: // edits through the enforcer
			for j := 1 + c.Intn(3); j > 0; j-- {
				rule := s.genRule(c)
				if len(s.Gs) > 0 && c.Chance(45) {
					rule = s.genLink(c)
				}
				add := c.Chance(65)
				if r := h.cur[rule[0]].want(); !add && len(r) > 0 && c.Chance(80) {
					sort.Slice(r, func(i, j int) bool { return rkey(r[i]) < rkey(r[j]) })
					rule = append([]string{rule[0]}, r[c.Intn(len(r))]...)
				}
				op, f := "remove ", h.e.RemoveRule
				if add {
					op, f = "add ", h.e.AddRule
				}
				if own := h.cur[rule[0]].own(); own != nil && c.Chance(15) {
					own.next = true
					ok, err := f(append([]string{}, rule...))
					if ok || err == nil || own.next {
						c.Failf("model %d, %s: %s%q of a failing component returned %v %v", hi, h.cur[rule[0]].name, op, rule, ok, err)
					}
					c.Count("failed edits")
				}
				want := h.cur[rule[0]].edit(add, rule[1:])
				ok, err := f(append([]string{}, rule...))
				edited(h.cur[rule[0]], h)
				c.Logf("model %d: %s%q => %v %v", hi, op, rule, ok, err)
				c.Eval()
				if ok != want || err != nil {
					c.Failf("model %d, %s: %s%q returned %v %v, expected %v", hi, h.cur[rule[0]].name, op, rule, ok, err, want)
				}
				if want {
					h.wants = append(h.wants, op+rkey(rule))
				}
			}
			what = "edits"
		case k < 40: // edits of a part, whether it is in use or not
			p := parts[key][c.Intn(len(parts[key]))]
			rule := s.genRule(c)
			if key[0] == 'g' {
				for rule = s.genLink(c); rule[0] != key; {
					rule = s.genLink(c)
				}
			}
			add := c.Chance(70)
			if r := p.want(); !add && len(r) > 0 {
				sort.Slice(r, func(i, j int) bool { return rkey(r[i]) < rkey(r[j]) })
				rule = append([]string{key}, r[c.Intn(len(r))]...)
			}
			p.direct(c, add, rule[1:])
			edited(p, nil)
			what = "edit of a part"
		case k < 62: // another part
			p := parts[key][c.Intn(len(parts[key]))]
			redefine := c.Chance(20)
			if redefine {
				n++
				p = &part{name: fmt.Sprintf("%s#%d (definition)", key, n), rules: map[string][]string{}}
				parts[key] = append(parts[key], p)
			} else if c.Chance(60) || len(parts[key]) == 1 {
				p = newPart(key, doms(key))
			}
			if redefine {
				text := strings.Join(base.PArgs, ", ")
				if key[0] == 'g' {
					text = strings.TrimPrefix(gDef{key: key, doms: doms(key)}.Text(), key+" = ")
				}
				if err := h.m.SetDef(key[0], key, text); err != nil {
					c.Failf("%v", err)
				}
				if key[0] == 'p' {
					p.pol, _ = h.m.GetPolicy(key)
				} else {
					p.rm, _ = h.m.GetRoleManager(key)
					delete(h.fns, key)
					h.stale[key] = false
				}
				c.Count("parts replaced by a definition")
			} else if key[0] == 'p' {
				h.m.SetPolicy(key, p.pol)
			} else {
				h.m.SetRoleManager(key, p.rm)
				delete(h.fns, key)
				h.stale[key] = false
			}
			h.cur[key] = p
			what = map[bool]string{true: "policy set", false: "role manager set"}[key[0] == 'p']
			c.Logf("model %d uses %s", hi, p.name)
			for j, o := range hosts {
				if j != hi && o.cur[key] == p {
					c.Count("parts shared by two models")
				}
			}
		case k < 72:
			switch c.Intn(3) {
			case 0:
				h.own = &ownEffector{k: c.Intn(4), denies: c.Intn(2), fail: c.Chance(15)}
				h.m.SetEffector("e", h.own)
				what = "own effector set"
			default:
				h.own = nil
				s.Effect = c.Intn(3)
				if c.Chance(50) {
					h.m.SetEffector("e", effector.NewEffector(defs.NewEffectDef("e", effects[s.Effect])))
				} else if err := h.m.SetDef(model.E_SEC, "e", effects[s.Effect]); err != nil {
					c.Failf("%v", err)
				}
				what = "effector set"
			}
			c.Logf("model %d: %s", hi, what)
		case k < 84:
			switch c.Intn(3) {
			case 0:
				m := &ownMatcher{key: s.PKey, fail: c.Chance(15)}
				for j := c.Intn(4); j > 0; j-- {
					r := s.genRule(c)[1:]
					if strings.Join(r, "") != "" {
						m.rules = append(m.rules, r)
					}
				}
				h.ownM = m
				h.m.SetMatcher("m", m)
				what = "own matcher set"
			default:
				// objects keep to the policy they were built for, definitions do not
				h.ownM = nil
				s.usesIPOnP = false
				s.newMatcher(c, 4)
				if err := h.m.SetDef(model.M_SEC, "m", s.MText); err != nil {
					c.Failf("%v", err)
				}
				if err := h.m.BuildMatcher("m"); err != nil {
					c.Failf("matcher %s: %v", s.MText, err)
				}
				what = "matcher set"
			}
			c.Logf("model %d: %s %s", hi, what, s.MText)
		case k < 90:
			if len(s.RArgs) > len(base.RArgs) && c.Chance(50) {
				s.RArgs, s.RCats = s.RArgs[:len(base.RArgs):len(base.RArgs)], s.RCats[:len(base.RArgs):len(base.RArgs)]
			} else {
				s.RArgs = append(s.RArgs[:len(s.RArgs):len(s.RArgs)], fmt.Sprint("more", i))
				s.RCats = append(s.RCats[:len(s.RCats):len(s.RCats)], cName)
			}
			rd := defs.NewRequestDef(s.RKey, strings.Join(s.RArgs, ", "))
			h.m.SetRequestDef(s.RKey, rd)
			if got, ok := h.m.GetRequestDef(s.RKey); !ok || got != rd {
				c.Failf("the request definition is not the one that was set")
			}
			s.newMatcher(c, 4) // may not use a value that is not there any more
			h.ownM = nil
			if err := h.m.SetDef(model.M_SEC, "m", s.MText); err != nil {
				c.Failf("%v", err)
			}
			if err := h.m.BuildMatcher("m"); err != nil {
				c.Failf("matcher %s: %v", s.MText, err)
			}
			what = "request definition set"
			c.Logf("model %d: request %q, matcher %s", hi, s.RArgs, s.MText)
		case k < 95:
			name := c.Pick([]string{"startsWith", "sameLen", "pathMatch", "regexMatch"})
			v := c.Intn(3)
			f := func(a, b string) bool { return fnVariant(v, name, a, b) }
			h.fns[name] = f
			h.m.SetFunction(name, func(args ...interface{}) (interface{}, error) {
				return f(args[0].(string), args[1].(string)), nil
			})
			what = "function set"
			c.Logf("model %d: function %s, variant %d", hi, name, v)
		default:
			if own := h.cur[key].own(); own != nil && c.Chance(40) {
				own.next = true
				if err := h.m.ClearPolicy(key); err == nil || own.next {
					c.Failf("model %d: clearing %s, which fails, returned %v", hi, key, err)
				}
				c.Count("failed clears")
				what = "failed clear"
				break
			}
			h.cur[key].rules = map[string][]string{}
			edited(h.cur[key], h)
			h.stale[key] = false
			if err := h.m.ClearPolicy(key); err != nil {
				c.Failf("clear %s: %v", key, err)
			}
			what = "policy cleared"
			c.Logf("model %d: clear %s", hi, key)
		}
		c.Count(what)
		for j, h := range hosts {
			h.check(c, fmt.Sprintf("%s of model %d; model %d", what, hi, j), 2)
		}
		for _, k := range keys {
			for _, p := range parts[k] {
				c.Eval()
				if a, b := ruleSet(p.list()), ruleSet(p.want()); a != b {
					c.Failf("%s of model %d: %s holds\n%s\nexpected\n%s", what, hi, p.name, a, b)
				}
			}
		}
	}
	for _, h := range hosts {
		c.Distinct(h.s.MText, ruleSet(h.store().All()))
	}
}

// direct edits a part without a model
func (p *part) direct(c *C, add bool, rule []string) {
	want := p.edit(add, rule)
	var ok bool
	var err error
	mine := append([]string{}, rule...)
	switch {
	case p.pol != nil && add:
		ok, err = p.pol.AddRule(mine)
	case p.pol != nil:
		ok, err = p.pol.RemoveRule(mine)
	case add:
		ok, err = p.rm.AddLink(mine[0], mine[1], mine[2:]...)
	default:
		ok, err = p.rm.DeleteLink(mine[0], mine[1], mine[2:]...)
	}
	c.Logf("%s itself: add=%v %q => %v %v", p.name, add, rule, ok, err)
	if ok != want || err != nil {
		c.Failf("%s: add=%v %q returned %v %v, expected %v", p.name, add, rule, ok, err, want)
	}
}

func (h *host) check(c *C, what string, n int) {
	s, st := h.s, h.store()
	c.Eval()
	if a, b := strings.Join(h.events, "\n"), strings.Join(h.wants, "\n"); a != b {
		c.Failf("%s: events\n%s\nexpected\n%s", what, a, b)
	}
	if a, b := ruleSet(listRules(h.e)), ruleSet(st.All()); a != b {
		c.Failf("%s: rules\n%s\nexpected\n%s", what, a, b)
	}
	for k, p := range h.cur {
		if k[0] == 'p' {
			if got, ok := h.m.GetPolicy(k); !ok || got != p.pol {
				c.Failf("%s: policy %s is not the one that was set", what, k)
			}
		} else if got, ok := h.m.GetRoleManager(k); !ok || got != p.rm {
			c.Failf("%s: role manager %s is not the one that was set", what, k)
		} else if !h.stale[k] {
			got, err := h.e.Filter(fastac.SetMatcher("mlist" + k))
			want := [][]string{}
			for _, r := range p.want() {
				want = append(want, append([]string{k}, r...))
			}
			c.Count("links listed by a matcher definition")
			if a, b := ruleSet(got), ruleSet(want); err != nil || a != b {
				c.Failf("%s: matcher over %s yields %v\n%s\nexpected\n%s", what, k, err, a, b)
			}
		}
	}
	for i := 0; i < n; i++ {
		req := s.requestNear(c, st, s.genRequest(c))
		matching := s.Matching(st, s.M, req)
		empty := len(st.rules[s.PKey]) == 0
		if empty {
			matching = nil
			if e := make([]string, len(s.PArgs)); h.ownM == nil && s.holds(st, s.M, req, e) {
				matching = [][]string{append([]string{s.PKey}, e...)}
			}
		}
		fails := false
		if h.ownM != nil {
			matching = nil
			for _, r := range h.ownM.rules {
				matching = append(matching, append([]string{s.PKey}, r...))
			}
			fails = h.ownM.fail
		}
		efts, a, d := []int{}, 0, 0
		for _, r := range matching {
			x := eftOf(s, r[1:])
			efts = append(efts, x)
			if x > 0 {
				a++
			} else if x < 0 {
				d++
			}
		}
		want := combine(s.Effect, efts)
		// a decision that is made before the matcher fails is valid
		early := (s.Effect == 0 && a > 0) || (s.Effect > 0 && d > 0)
		if h.own != nil {
			h.own.begin()
			want = a >= h.own.k && d <= h.own.denies
			early = d > h.own.denies && !h.own.fail
			fails = fails || h.own.fail
		}
		got, err := h.e.Enforce(req...)
		c.Eval()
		c.Logf("%s: request (%s) => %v %v", what, showReq(req), got, err)
		if h.own != nil {
			if h.own.wrong != "" {
				c.Failf("%s: the effector was %s", what, h.own.wrong)
			}
			if !h.own.done && err == nil {
				c.Failf("%s: the effector was not asked for the decision", what)
			}
			c.Count("decisions of an own effector")
		}
		switch {
		case fails && !early:
			c.Count("failing parts")
			if got || err == nil {
				c.Failf("%s: request (%s): %v %v, expected an error", what, showReq(req), got, err)
			}
		case err != nil || got != want:
			c.Failf("%s: matcher %s, own matcher %v, own effector %v, effect %s\nrequest (%s): %v %v, expected %v\nrules\n%s", what, s.MText, h.ownM, h.own, effects[s.Effect], showReq(req), got, err, want, ruleSet(st.All()))
		}
		if h.ownM != nil && h.ownM.fail {
			continue
		}
		if empty && h.ownM == nil {
			matching = nil
		}
		res, err := h.e.Filter(req...)
		c.Eval()
		if err != nil || ruleSet(res) != ruleSet(matching) {
			c.Failf("%s: matcher %s, own matcher %v: filter (%s) returned %v\n%s\nexpected\n%s", what, s.MText, h.ownM, showReq(req), err, ruleSet(res), ruleSet(matching))
		}
	}
	// queries for rules and links
	v, key := s, s.PKey
	if len(s.Gs) > 0 && c.Chance(50) {
		g := s.Gs[c.Intn(len(s.Gs))]
		v, key = s.gView(g), g.key
	}
	if h.cur[key].rm != nil && len(h.cur[key].rules) == 0 {
		return
	}
	mt, text := v.adhoc(c, 1+c.Intn(3))
	req := s.genRequest(c)
	want := v.Matching(st, mt, req)
	res, err := h.e.Filter(append([]interface{}{fastac.SetMatcher(text)}, req...)...)
	c.Eval()
	if err != nil || ruleSet(res) != ruleSet(want) {
		c.Failf("%s: filter %s (%s) returned %v\n%s\nexpected\n%s", what, text, showReq(req), err, ruleSet(res), ruleSet(want))
	}
}

var _ matcher.IMatcher = &ownMatcher{}

func init() {
	register(&Check{ID: "C30", Level: "exploration", Quick: 6000, Full: 80000, Run: runC30,
		Rule:   "one or two models of a random scenario, whose policies, role managers, effectors, matchers, request definitions and functions are exchanged by others (the built-in ones, empty or filled, and own implementations of the interfaces, partly shared by both models or used again later), with edits through the enforcer and of the parts themselves in between. After every step each model is compared with a reference composed of the contents of its current parts: decisions, filters (own and ad-hoc matchers), listing, events, identity of the parts, and the contents of all parts including those not in use. Own effectors also check the protocol they are called with. Non-trivial: distinct (matcher, rules).",
		Assume: []string{"matcher objects and contexts stick to the policy they were built for", "own implementations announce their changes like the built-in ones"}})
}
