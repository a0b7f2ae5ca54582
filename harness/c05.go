package main

import (
	"fmt"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/effector"
	"github.com/abichinger/fastac/model/eft"
	"github.com/abichinger/fastac/model/types"
)

var eftValues = []string{"allow", "deny", "", "foo"}
var otherEfts = []string{"foo", "Allow", "DENY", " allow", "deny ", "allow,deny", "indeterminate", "true", "1", "alow"}

// effects that are not supported
var badEffects = []string{"some(where (p.eft == deny))", "priority(p.eft) || deny", "true", "", "!some(where (p.eft == allow))",
	"some(where (p.eft == allow)) || !some(where (p.eft == deny))", "subjectPriority(p.eft) || deny", "some(where (p.eft == allow)) && some(where (p.eft == deny))", "max(p.eft)"}

// multisets of up to n effects, enumerated as counts
func eftCounts(max int) [][4]int {
	res := [][4]int{}
	for n := 0; n <= max; n++ {
		for a := 0; a <= n; a++ {
			for d := 0; a+d <= n; d++ {
				for b := 0; a+d+b <= n; b++ {
					res = append(res, [4]int{a, d, b, n - a - d - b})
				}
			}
		}
	}
	return res
}

var eftMultisets = eftCounts(5)

type eftLayout struct {
	args string
	pos  int // of eft, -1: none
}

var eftLayouts = []eftLayout{{"sub, id, eft", 2}, {"eft, sub, id", 0}, {"sub, eft, id", 1}, {"sub, id", -1}, {"sub, id, eft2", -1}}

// matchers, all of them hold exactly for the rules of the subject
var eftMatchers = []string{
	"r.sub == p.sub",
	"r.sub == p.sub && p.id != 'none'",
	"p.id != 'none' && r.sub == p.sub || r.sub == p.sub && p.id == 'none'",
	"(r.sub == p.sub || r.sub == p.sub) && (p.id == p.id || p.id != 'x')",
	"!(r.sub != p.sub)",
	"r.sub == p.sub && (p.id == '0' || p.id != '0') && true",
}

func spaced(c *C, effect string) string {
	switch c.Intn(3) {
	case 0:
		return effect
	case 1:
		return strings.ReplaceAll(effect, " ", "")
	}
	return strings.NewReplacer("(", "( ", "==", " ==  ", ")", " )").Replace(effect)
}

func eftMeaning(v string) int {
	switch v {
	case "allow", "":
		return 1
	case "deny":
		return -1
	}
	return 0
}

func runC05(c *C) {
	nSys := len(eftMultisets) * 3 * len(eftLayouts)
	effect := c.Idx % 3
	layout := eftLayouts[(c.Idx/3)%len(eftLayouts)]
	counts := eftMultisets[(c.Idx/(3*len(eftLayouts)))%len(eftMultisets)]
	large := false
	if c.Idx >= nSys { // larger random multisets
		counts = [4]int{c.Intn(7) * c.Intn(2), c.Intn(3) * c.Intn(2), c.Intn(4), c.Intn(12) * c.Intn(2)}
		if large = c.Chance(4); large { // a few decisive rules among many others
			for i := range counts {
				counts[i] = c.Intn(3) * c.Intn(2)
			}
			counts[c.Intn(4)] += []int{63, 64, 100, 129, 256, 300, 513, 1100}[c.Intn(8)] + c.Intn(3)
			c.Count("more than 60 matching rules")
		}
	}
	efts := []string{}
	for k, n := range counts {
		for i := 0; i < n; i++ {
			v := eftValues[k]
			if k == 3 {
				v = c.Pick(otherEfts)
			}
			efts = append(efts, v)
		}
	}
	pKey := []string{"p", "p2", "p10"}[c.Intn(3)]
	mText := c.Pick(eftMatchers)
	if pKey != "p" {
		mText = strings.ReplaceAll(mText, "p.", pKey+".")
	}
	if c.Chance(30) {
		mText = strings.ReplaceAll(mText, pKey+".", pKey+"_")
	}
	build := func(effectText string) (*fastac.Enforcer, error) {
		m := model.NewModel()
		for _, d := range []struct {
			sec        byte
			key, value string
		}{{'r', "r", "sub"}, {'p', pKey, layout.args}, {'e', "e", effectText}, {'m', "m", mText}} {
			if err := m.SetDef(d.sec, d.key, d.value); err != nil {
				return nil, err
			}
		}
		if err := m.BuildMatchers(); err != nil {
			return nil, err
		}
		return fastac.NewEnforcer(m, nil)
	}
	effectText := spaced(c, effects[effect])
	e, err := build(effectText)
	if err != nil {
		c.Failf("model: %v", err)
	}
	c.Logf("p = %s; e = %s; m = %s", layout.args, effectText, mText)
	mkRule := func(sub, id, ev string) []string {
		r := []string{pKey}
		for _, a := range strings.Split(layout.args, ", ") {
			switch a {
			case "sub":
				r = append(r, sub)
			case "id":
				r = append(r, id)
			default:
				r = append(r, ev)
			}
		}
		return r
	}
	rules := [][]string{}
	distinct := 0
	for i, v := range efts {
		rules = append(rules, mkRule("alice", fmt.Sprint(i), v))
		distinct++
	}
	for i, n := 0, 1+c.Intn(4); i < n; i++ { // rules that do not match
		rules = append(rules, mkRule("bob", fmt.Sprint(i), c.Pick(eftValues)))
	}
	for _, i := range c.R.Perm(len(rules)) {
		if ok, err := e.AddRule(rules[i]); !ok || err != nil {
			c.Failf("add %q => %v %v", rules[i], ok, err)
		}
		c.Logf("rule %q", rules[i])
	}
	meaning := []int{}
	for _, v := range efts {
		if layout.pos < 0 {
			v = "allow"
		}
		meaning = append(meaning, eftMeaning(v))
	}
	want := combine(effect, meaning)
	var opts []interface{}
	if c.Chance(30) {
		opts = append(opts, fastac.SetEffector(effectText))
	}
	reps := 6
	if large {
		reps = 24
	}
	for rep := 0; rep < reps; rep++ { // rules are visited in random order
		got, err := e.Enforce(append([]interface{}{"alice"}, opts...)...)
		c.Eval()
		if err != nil || got != want {
			c.Failf("effect %s, matching rules with effects %q: decision %v %v, expected %v", effectText, efts, got, err, want)
		}
	}
	c.Count(fmt.Sprintf("effect %d decision %v", effect, want))
	if got, err := e.Enforce("nobody"); err != nil || got != combine(effect, nil) {
		c.Failf("effect %s, no matching rule: decision %v %v", effectText, got, err)
	}
	c.Distinct(effect, layout.args, mText, efts)

	// removing the rules one by one, every intermediate multiset counts
	perm := c.R.Perm(len(efts))
	for k, i := range perm {
		if _, err := e.RemoveRule(rules[i]); err != nil {
			c.Failf("remove: %v", err)
		}
		if large && k%41 > 0 && k < len(perm)-8 {
			continue
		}
		rest := []int{}
		for _, j := range perm[k+1:] {
			rest = append(rest, meaning[j])
		}
		got, err := e.Enforce("alice")
		c.Eval()
		if w := combine(effect, rest); err != nil || got != w {
			c.Failf("effect %s after removal of %d of %q (removed in order %v): decision %v %v, expected %v", effectText, k+1, efts, perm, got, err, w)
		}
	}
	c.Count("multisets reduced rule by rule")

	// the effector itself, fed in every order
	if len(efts) <= 7 {
		c.checkEffector(effect, effectText, meaning)
	}
	// unsupported effects
	bad := c.Pick(badEffects)
	checkBad := func(got bool, err error, how string) {
		c.Eval()
		c.Count("unsupported effect")
		if err == nil || got {
			c.Failf("unsupported effect %q (%s) with effects %q: decision %v, error %v", bad, how, efts, got, err)
		}
	}
	be, err := build(bad)
	if err == nil {
		for _, r := range rules {
			if _, err := be.AddRule(r); err != nil {
				c.Failf("add: %v", err)
			}
		}
		got, err := be.Enforce("alice")
		checkBad(got, err, "model")
	}
	for _, r := range rules {
		_, _ = e.AddRule(r)
	}
	if bad != "" {
		got, err := e.Enforce("alice", fastac.SetEffector(bad))
		checkBad(got, err, "option")
	}
	got, err := e.Enforce("alice", fastac.SetEffector(defs.NewEffectDef("e", bad)))
	checkBad(got, err, "definition")
	if got, err := e.Enforce("alice"); err != nil || got != want {
		c.Failf("after an unsupported effect: decision %v %v, expected %v", got, err, want)
	}
	c.Sample("effect %s, p = %s, matching effects %q => %v", effectText, layout.args, efts, want)
}

// checkEffector feeds all orders of up to five effects (some of the larger ones) to the effector
func (c *C) checkEffector(effect int, text string, meaning []int) {
	eff := effector.NewEffector(defs.NewEffectDef("e", text))
	conv := map[int]types.Effect{1: eft.Allow, -1: eft.Deny, 0: eft.Indeterminate}
	want := combine(effect, meaning)
	one := func(order []int) {
		var es []types.Effect
		var ms [][]string
		var rule []string
		res, _, err := eff.MergeEffects(es, ms, false)
		if err != nil || res != eft.Indeterminate {
			c.Failf("effector %s without any rule: %v %v", text, res, err)
		}
		for k, i := range order {
			es = append(es, conv[meaning[i]])
			ms = append(ms, []string{"p", fmt.Sprint(k)})
			res, rule, err = eff.MergeEffects(es, ms, false)
			if err != nil || res != eft.Indeterminate {
				break
			}
		}
		if err == nil && res == eft.Indeterminate {
			res, rule, err = eff.MergeEffects(es, ms, true)
		}
		c.Eval()
		// the decisive rule
		reason := map[bool]types.Effect{true: eft.Allow, false: eft.Deny}[want]
		by := false
		for k, x := range es {
			by = by || x == reason && len(rule) == 2 && rule[1] == fmt.Sprint(k)
		}
		due := false
		for _, i := range order {
			due = due || conv[meaning[i]] == reason && !(want && effect == 1) && !(!want && effect == 0)
		}
		if err == nil && (due && !by || !due && len(rule) > 0) {
			c.Failf("effector %s fed with %v: %v because of the rule %q", text, es, res, rule)
		}
		c.Count("orders fed to the effector")
		if err != nil || (res == eft.Allow) != want {
			c.Failf("effector %s fed with %v: %v %v, expected allow=%v", text, es, res, err, want)
		}
	}
	if len(meaning) > 5 {
		for k := 0; k < 20; k++ {
			one(c.R.Perm(len(meaning)))
		}
		return
	}
	order := []int{}
	used := make([]bool, len(meaning))
	var rec func()
	rec = func() {
		if len(order) == len(meaning) {
			one(order)
			return
		}
		tried := map[int]bool{}
		for i := range meaning {
			if used[i] || tried[meaning[i]] {
				continue
			}
			tried[meaning[i]] = true
			used[i] = true
			order = append(order, i)
			rec()
			order = order[:len(order)-1]
			used[i] = false
		}
	}
	rec()
}

func init() {
	register(&Check{ID: "C05", Level: "exploration", Quick: 5670, Full: 120000, Run: runC05,
		Rule:   "every multiset of up to five effects (allow, deny, empty, unknown) x three policy effects x five layouts of the effect field, each added in random order, asked repeatedly (rules are visited in random order) and reduced rule by rule; larger random multisets; every order of up to five effects fed to the effector; nine unsupported effects as model, option and definition. Non-trivial: distinct (effect, layout, matcher, sequence of effects).",
		Assume: []string{"effects other than the three documented ones count as unsupported"}})
}
