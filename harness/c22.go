package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/effector"
	"github.com/abichinger/fastac/model/eft"
	"github.com/abichinger/fastac/model/types"
)

// majority is an effector of the user: more allowing than denying rules.
type majority struct{ bad string }

func (m *majority) MergeEffects(effects []types.Effect, matches [][]string, complete bool) (types.Effect, []string, error) {
	if len(effects) != len(matches) {
		return eft.Allow, nil, fmt.Errorf("%d effects but %d matches", len(effects), len(matches))
	}
	if !complete {
		return eft.Indeterminate, nil, nil
	}
	n := 0
	for _, e := range effects {
		switch e {
		case eft.Allow:
			n++
		case eft.Deny:
			n--
		}
	}
	if n > 0 {
		return eft.Allow, nil, nil
	}
	return eft.Deny, nil, nil
}

const effMajority, effUnsupported = 3, 4

// view is a matcher over one request and one policy definition.
type view struct {
	*Scen
	ri, pi int
	mKey   string // "" for ad-hoc matchers
}

type multi struct {
	names, doms []string
	rs, ps      []*Scen // sources of request and policy definitions
	views       []*view
	eKeys       []string
	eIdx        []int
	m           *model.Model
	e           *fastac.Enforcer
	st          *Store
}

func multiKey(prefix string, i int) string {
	if i == 0 {
		return prefix
	}
	return fmt.Sprint(prefix, []int{0, 12, 1, 305}[i])
}

func (mu *multi) newView(c *C, ri, pi int) *view {
	r, p := mu.rs[ri], mu.ps[pi]
	s := &Scen{RKey: r.RKey, RArgs: r.RArgs, RCats: r.RCats, PKey: p.PKey, PArgs: p.PArgs, PCats: p.PCats, Eft: p.Eft, Gs: mu.rs[0].Gs, names: mu.names, doms: mu.doms}
	for {
		s.M = s.genBool(c, 1+c.Intn(4))
		s.MText = render(c, s.M)
		// a matcher belongs to the policy whose arguments it uses
		if s.PKey == "p" || strings.Contains(stripLits(s.MText), s.PKey+".") || strings.Contains(stripLits(s.MText), s.PKey+"_") {
			return &view{Scen: s, ri: ri, pi: pi}
		}
	}
}

// stripLits removes string literals of rendered expressions
func stripLits(t string) string {
	b := strings.Builder{}
	for i := 0; i < len(t); i++ {
		if q := t[i]; q == '"' || q == '\'' {
			for i++; i < len(t) && t[i] != q; i++ {
				if t[i] == '\\' {
					i++
				}
			}
			continue
		}
		b.WriteByte(t[i])
	}
	return b.String()
}

func newMulti(c *C) *multi {
	mu := &multi{st: newStore()}
	base := genScen(c, scenOpts{weird: 15, noIP: true})
	mu.names, mu.doms = base.names, base.doms
	for i, n := 0, 1+c.Intn(3); i < n; i++ {
		s := genScen(c, scenOpts{noIP: true})
		s.Gs = base.Gs
		s.RKey = multiKey("r", i)
		mu.rs = append(mu.rs, s)
	}
	for i, n := 0, 1+c.Intn(3); i < n; i++ {
		s := genScen(c, scenOpts{noIP: true})
		s.PKey = multiKey("p", i)
		mu.ps = append(mu.ps, s)
	}
	mu.rs[0].Gs = base.Gs
	n := 1 + c.Intn(4)
	for i := 0; i < n; i++ {
		v := mu.newView(c, c.Intn(len(mu.rs)), c.Intn(len(mu.ps)))
		if i == 0 {
			v = mu.newView(c, 0, c.Intn(len(mu.ps)))
		}
		v.mKey = multiKey("m", i)
		mu.views = append(mu.views, v)
	}
	for i, n := 0, 1+c.Intn(3); i < n; i++ {
		mu.eKeys = append(mu.eKeys, multiKey("e", i))
		mu.eIdx = append(mu.eIdx, c.Intn(3))
	}
	mu.m = model.NewModel()
	setCustom(mu.m)
	type def struct {
		sec      byte
		key, val string
	}
	ds := []def{}
	for _, r := range mu.rs {
		ds = append(ds, def{model.R_SEC, r.RKey, strings.Join(r.RArgs, ", ")})
	}
	for _, p := range mu.ps {
		ds = append(ds, def{model.P_SEC, p.PKey, strings.Join(p.PArgs, ", ")})
	}
	for _, g := range base.Gs {
		ds = append(ds, def{model.G_SEC, g.key, "_, _" + strings.Repeat(", _", g.doms)})
	}
	for i, k := range mu.eKeys {
		ds = append(ds, def{model.E_SEC, k, effects[mu.eIdx[i]]})
	}
	c.R.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
	for _, v := range mu.views {
		ds = append(ds, def{model.M_SEC, v.mKey, v.MText})
	}
	for _, d := range ds {
		c.Logf("def %s = %s", d.key, d.val)
		if err := mu.m.SetDef(d.sec, d.key, d.val); err != nil {
			c.Failf("definition %s = %s: %v", d.key, d.val, err)
		}
	}
	if err := mu.m.BuildMatchers(); err != nil {
		c.Failf("%v", err)
	}
	e, err := fastac.NewEnforcer(mu.m, nil)
	if err != nil {
		c.Failf("%v", err)
	}
	mu.e = e
	return mu
}

func (mu *multi) edit(c *C) {
	var r []string
	g := len(mu.rs[0].Gs) > 0 && c.Chance(35)
	if g {
		r = (&Scen{Gs: mu.rs[0].Gs, names: mu.names, doms: mu.doms}).genLink(c)
	} else {
		p := mu.ps[c.Intn(len(mu.ps))]
		r = (&Scen{PKey: p.PKey, PCats: p.PCats, Eft: p.Eft, names: mu.names, doms: mu.doms}).genRule(c)
	}
	if c.Chance(20) {
		if all := mu.st.All(); len(all) > 0 {
			r = all[c.Intn(len(all))]
			mu.st.Remove(r)
			mustEdit(c, mu.e.RemoveRule, r)
			c.Logf("remove %q", r)
			return
		}
	}
	mu.st.Add(r)
	mustEdit(c, mu.e.AddRule, r)
	c.Logf("add %q", r)
}

// selection is a request with options.
type selection struct {
	what   string
	view   *view
	effect int
	vals   []interface{}
	oracle []interface{} // the values in the order of the view
	opts   []fastac.ContextOption
}

func (mu *multi) matcherObject(c *C, v *view) interface{} {
	if v.mKey != "" && c.Chance(50) {
		m, ok := mu.m.GetMatcher(v.mKey)
		if !ok {
			c.Failf("the model has no matcher %s", v.mKey)
		}
		return m
	}
	key := c.Pick([]string{"", "m", "m2", "mine"})
	return defs.NewMatcherDef(key, v.MText)
}

func (mu *multi) selection(c *C) selection {
	s := selection{effect: mu.eIdx[0]}
	d := []string{}
	add := func(o fastac.ContextOption, f string, a ...interface{}) {
		s.opts = append(s.opts, o)
		d = append(d, fmt.Sprintf(f, a...))
	}
	// the matcher
	switch c.Intn(6) {
	case 0, 1:
		s.view = mu.views[0]
		if c.Chance(20) {
			add(fastac.SetMatcher(""), "matcher \"\"")
		}
	case 2, 3:
		s.view = mu.views[c.Intn(len(mu.views))]
		add(fastac.SetMatcher(s.view.mKey), "matcher %s", s.view.mKey)
	case 4:
		s.view = mu.newView(c, c.Intn(len(mu.rs)), c.Intn(len(mu.ps)))
		add(fastac.SetMatcher(s.view.MText), "matcher text %s", s.view.MText)
	case 5:
		s.view = mu.views[c.Intn(len(mu.views))]
		if c.Chance(50) {
			s.view = mu.newView(c, c.Intn(len(mu.rs)), c.Intn(len(mu.ps)))
		}
		add(fastac.SetMatcher(mu.matcherObject(c, s.view)), "matcher object %s", s.view.MText)
	}
	// the request definition
	r := mu.rs[s.view.ri]
	s.vals = s.view.genRequest(c)
	if rules := mu.st.Rules(s.view.PKey); len(rules) > 0 && c.Chance(70) {
		s.vals = s.view.requestNear(c, mu.st, s.vals)
	}
	s.oracle = s.vals
	switch {
	case c.Chance(30): // a definition of its own, in another order
		perm := c.R.Perm(len(r.RArgs))
		args := make([]string, len(perm))
		vals := make([]interface{}, len(perm))
		for i, j := range perm {
			args[i], vals[i] = r.RArgs[j], s.vals[j]
		}
		add(fastac.SetRequestDef(defs.NewRequestDef(r.RKey, strings.Join(args, ", "))), "request object %s = %q", r.RKey, args)
		s.vals = vals
	case s.view.ri != 0 || c.Chance(30):
		add(fastac.SetRequestDef(r.RKey), "request %s", r.RKey)
	case c.Chance(10):
		add(fastac.SetRequestDef(""), "request \"\"")
	}
	return mu.withEffect(c, s, d)
}

// withEffect selects the effect.
func (mu *multi) withEffect(c *C, s selection, d []string) selection {
	add := func(o fastac.ContextOption, f string, a ...interface{}) {
		s.opts = append(s.opts, o)
		d = append(d, fmt.Sprintf(f, a...))
	}
	switch c.Intn(9) {
	case 0, 1:
		i := c.Intn(len(mu.eKeys))
		s.effect = mu.eIdx[i]
		add(fastac.SetEffector(mu.eKeys[i]), "effect %s", mu.eKeys[i])
	case 2:
		s.effect = c.Intn(3)
		add(fastac.SetEffector(effects[s.effect]), "effect text %s", effects[s.effect])
	case 3:
		s.effect = c.Intn(3)
		add(fastac.SetEffector(defs.NewEffectDef(c.Pick([]string{"", "e", "e2"}), effects[s.effect])), "effect object %s", effects[s.effect])
	case 4:
		s.effect = c.Intn(3)
		add(fastac.SetEffector(effector.NewEffector(defs.NewEffectDef("e", effects[s.effect]))), "effector %s", effects[s.effect])
	case 5:
		s.effect = effMajority
		add(fastac.SetEffector(&majority{}), "effector of the user")
	case 6:
		if c.Chance(50) {
			s.effect = effUnsupported
			add(fastac.SetEffector(c.Pick([]string{"e99", "some(where (p.eft == deny))", "!some(where (p_eft == allow))"})), "unsupported effect")
		}
	}
	// later options win
	if c.Chance(12) {
		if strings.HasPrefix(strings.Join(d, ""), "matcher") && !strings.HasPrefix(d[0], "matcher \"\"") {
			s.opts = append([]fastac.ContextOption{fastac.SetMatcher(mu.views[c.Intn(len(mu.views))].mKey)}, s.opts...)
			d = append([]string{"overridden matcher"}, d...)
		}
		if s.effect != mu.eIdx[0] && s.effect != effUnsupported {
			s.opts = append([]fastac.ContextOption{fastac.SetEffector(c.Pick([]string{mu.eKeys[0], "nonsense"}))}, s.opts...)
			d = append([]string{"overridden effect"}, d...)
		}
	}
	s.what = fmt.Sprintf("[%s] (%s)", strings.Join(d, "; "), showReq(s.oracle))
	return s
}

func (s *selection) want(mu *multi) (allow, fails bool, rules [][]string) {
	vals := s.oracle
	rules = s.view.Matching(mu.st, s.view.M, vals)
	switch s.effect {
	case effUnsupported:
		return false, true, rules
	case effMajority:
		n := 0
		rs := rules
		if len(mu.st.Rules(s.view.PKey)) == 0 {
			if s.view.holds(mu.st, s.view.M, vals, make([]string, len(s.view.PArgs))) {
				rs = [][]string{make([]string, len(s.view.PArgs)+1)}
			}
		}
		for _, r := range rs {
			switch eftOf(s.view.Scen, r[1:]) {
			case 1:
				n++
			case -1:
				n--
			}
		}
		return n > 0, false, rules
	}
	return s.view.decideWith(mu.st, s.view.M, s.effect, vals), false, rules
}

func (s *selection) params(c *C) []interface{} {
	p := append([]interface{}{}, s.vals...)
	// options may stand anywhere between the values, their order is kept
	pos := 0
	for _, o := range s.opts {
		pos += c.Intn(len(p) - pos + 1)
		p = append(p[:pos:pos], append([]interface{}{o}, p[pos:]...)...)
		pos++
	}
	return p
}

func runC22(c *C) {
	mu := newMulti(c)
	for i := 0; i < 3+c.Intn(12); i++ {
		mu.edit(c)
	}
	type held struct {
		s   selection
		ctx *fastac.Context
	}
	kept := []held{}
	judge := func(s *selection, how string, ok bool, err error, list [][]string, lerr error) {
		want, fails, rules := s.want(mu)
		if fails {
			if err == nil || ok {
				c.Failf("%s %s: %v %v, expected an error", how, s.what, ok, err)
			}
		} else if err != nil || ok != want {
			c.Failf("%s %s: %v %v, expected %v\nmatcher %s\nrules:\n%s", how, s.what, ok, err, want, s.view.MText, ruleSet(mu.st.All()))
		}
		if lerr != nil || ruleSet(list) != ruleSet(rules) {
			c.Failf("%s %s: matching rules %q %v, expected %q\nmatcher %s", how, s.what, list, lerr, rules, s.view.MText)
		}
		c.Eval()
		c.Count(fmt.Sprintf("%s with %d options", how, len(s.opts)))
		if want {
			c.Count("allowed")
		}
	}
	for i := 0; i < 14; i++ {
		s := mu.selection(c)
		if c.Chance(30) {
			ctx, err := fastac.NewContext(mu.m, s.opts...)
			if err != nil {
				c.Failf("context %s: %v", s.what, err)
			}
			kept = append(kept, held{s, ctx})
			c.Logf("context %s", s.what)
		}
		c.Logf("request %s", s.what)
		ok, err := mu.e.Enforce(s.params(c)...)
		list, lerr := mu.e.Filter(s.params(c)...)
		judge(&s, "request", ok, err, list, lerr)
		c.keep("Filter", list...)
		c.Distinct(s.what, s.view.MText, ruleSet(mu.st.All()))
		c.Sample("%s => %v; %d rules", s.what, ok, mu.st.Len())
		if c.Chance(25) {
			mu.edit(c)
		}
		if c.Chance(10) { // invalid selections
			bad := [][]interface{}{{fastac.SetRequestDef("r99")}, {fastac.SetMatcher("r.x ==")}, {fastac.SetMatcher("nosuch")}, {fastac.SetMatcher(defs.NewMatcherDef("m", "p9.a == \"\""))}}[c.Intn(4)]
			if ok, err := mu.e.Enforce(append(bad, mu.views[0].genRequest(c)...)...); ok || err == nil {
				c.Failf("invalid selection: %v %v", ok, err)
			}
			c.Count("invalid selections")
		}
		for _, h := range kept {
			ok, err := mu.e.EnforceWithContext(h.ctx, h.s.vals...)
			list, lerr := mu.e.FilterWithContext(h.ctx, h.s.vals...)
			judge(&h.s, "held context", ok, err, list, lerr)
			c.keep("held context", list...)
		}
		if len(kept) > 2 {
			kept[0].ctx.Close()
			kept = kept[1:]
		}
	}
	if !c.Chance(30) {
		return
	}
	// at the same time
	sels := []selection{}
	type out struct {
		allow, fails bool
		rules        string
	}
	wants := []out{}
	params := [][]interface{}{}
	for i := 0; i < 10; i++ {
		s := mu.selection(c)
		a, f, r := s.want(mu)
		sels, wants, params = append(sels, s), append(wants, out{a, f, ruleSet(r)}), append(params, s.params(c))
	}
	var wg sync.WaitGroup
	errs := make(chan string, 100)
	for w := 0; w < 4; w++ {
		order := c.R.Perm(len(sels))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, i := range append(order, order...) {
				ok, err := mu.e.Enforce(params[i]...)
				list, lerr := mu.e.Filter(params[i]...)
				if ok != wants[i].allow || (err != nil) != wants[i].fails || lerr != nil || ruleSet(list) != wants[i].rules {
					errs <- fmt.Sprintf("among concurrent requests %s: %v %v %q %v, expected %+v", sels[i].what, ok, err, list, lerr, wants[i])
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case m := <-errs:
		c.Failf("%s", m)
	default:
	}
	c.Count("concurrent runs")
}

func init() {
	register(&Check{
		ID: "C22", Level: "exploration", Quick: 7500, Full: 60000,
		Rule:   "random models with up to 3 request, policy, effect and 4 matcher definitions; requests with random selections by key, text and object, permuted request definitions, effectors of the user, held contexts and concurrent selections against the reference decision with exactly the selected parts; non-trivial: distinct (selection, matcher, rules)",
		Run:    runC22,
		Assume: []string{"a matcher that mentions no policy argument belongs to policy p"},
	})
}
