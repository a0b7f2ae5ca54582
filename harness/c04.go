package main

import (
	"fmt"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/policy"
)

var trickyParts = []string{"a", "b", ",", "\\", "", " ", "\"", "'", "|", "\n", "\t", "é", "p", "g", "0", "\\,", "%", "::", "\x01", "日本"}

// tricky returns strings whose concatenations collide easily.
func tricky(c *C) string {
	var sb strings.Builder
	for i, n := 0, c.Intn(4); i < n; i++ {
		sb.WriteString(c.Pick(trickyParts))
	}
	return sb.String()
}

type setDef struct {
	key   string
	arity int
}

func runC04(c *C) {
	if c.rare(250) {
		scaleC04(c)
		return
	}
	m := model.NewModel()
	sets := []setDef{}
	def := func(sec byte, key, val string, arity int) {
		if err := m.SetDef(sec, key, val); err != nil {
			c.Failf("define %s: %v", key, err)
		}
		sets = append(sets, setDef{key, arity})
	}
	argNames := []string{"sub", "obj", "act", "dom", "eft"}
	for i, key := range []string{"p", "p2", "p3"} {
		if i > 0 && c.Chance(40) {
			continue
		}
		k := 1 + c.Intn(4)
		def(model.P_SEC, key, strings.Join(argNames[:k], ", "), k)
	}
	for i, key := range []string{"g", "g2", "g3"} {
		if c.Chance(35) {
			continue
		}
		def(model.G_SEC, key, "_, _"+strings.Repeat(", _", i%3), 2+i%3)
	}
	_ = m.SetDef(model.R_SEC, "r", "sub")
	_ = m.SetDef(model.E_SEC, "e", effects[0])
	_ = m.SetDef(model.M_SEC, "m", "r.sub == p.sub")
	if err := m.BuildMatchers(); err != nil {
		c.Failf("%v", err)
	}
	e, err := fastac.NewEnforcer(m, nil)
	if err != nil {
		c.Failf("%v", err)
	}
	st := newStore()
	pool := []string{}
	for i, n := 0, 3+c.Intn(4); i < n; i++ {
		pool = append(pool, tricky(c))
	}
	sep := c.Pick(separators)
	glue := c.Chance(40)
	if glue {
		pool = append(glueNames(sep), "")
	} else if c.Chance(15) {
		pool = variants(c)
	} else if c.Chance(15) {
		pool = longNames(c)
	} else if c.Chance(15) {
		pool = keyNames
	}
	gen := func() []string {
		d := sets[c.Intn(len(sets))]
		rule := []string{d.key}
		for i := 0; i < d.arity; i++ {
			rule = append(rule, c.Pick(pool))
		}
		return rule
	}
	n := 20 + c.Intn(60)
	for i := 0; i < n; i++ {
		rule := gen()
		if c.Chance(40) { // aim at an existing rule, possibly with its text split differently
			if all := st.All(); len(all) > 0 {
				rule = append([]string{}, all[c.Intn(len(all))]...)
				if c.Chance(40) && len(rule) > 2 {
					if glue && c.Chance(60) {
						rule = shiftSep(c, rule, sep)
						c.Count("rules that join to the same text as another one")
					} else {
						rule = resplit(c, rule)
					}
				}
			}
		}
		add := c.Chance(65)
		mine := make([]string, len(rule), len(rule)+c.Intn(3))
		copy(mine, rule)
		var ok, want bool
		var err error
		target := interface {
			AddRule([]string) (bool, error)
			RemoveRule([]string) (bool, error)
		}(e)
		if c.Chance(30) {
			target = m
		}
		if add {
			ok, err = target.AddRule(mine)
			want = st.Add(rule)
		} else {
			ok, err = target.RemoveRule(mine)
			want = st.Remove(rule)
		}
		c.Logf("%v %q => %v %v", add, rule, ok, err)
		if err != nil {
			c.Failf("add=%v %q: unexpected error %v", add, rule, err)
		}
		c.Eval()
		c.Count(fmt.Sprintf("edit add=%v effective=%v", add, want))
		if ok != want {
			c.Failf("add=%v %q returned %v, expected %v; stored:\n%s", add, rule, ok, want, ruleSet(st.All()))
		}
		for j := range mine { // the slice belongs to the caller
			if mine[j] != rule[j] {
				c.Failf("add=%v modified the slice of the caller: %q, was %q", add, mine, rule)
			}
			mine[j] = "overwritten"
		}
		if c.Chance(25) {
			c.compareListing(e, st)
		}
		if c.Chance(4) {
			d := sets[c.Intn(len(sets))]
			if err := m.ClearPolicy(d.key); err != nil {
				c.Failf("clear %s: %v", d.key, err)
			}
			c.Logf("clear %s", d.key)
			st.Clear(d.key)
		}
	}
	c.compareListing(e, st)
	// policy objects list the rules without key
	for _, d := range sets {
		p, ok := m.GetPolicy(d.key)
		if !ok {
			c.Failf("policy %s not found", d.key)
		}
		got := [][]string{}
		p.Range(func(r []string) bool {
			got = append(got, append([]string{d.key}, r...))
			return true
		})
		c.Eval()
		if ruleSet(got) != ruleSet(st.Rules(d.key)) {
			c.Failf("policy %s lists\n%s\nexpected\n%s", d.key, ruleSet(got), ruleSet(st.Rules(d.key)))
		}
	}
	// distinct values of columns
	for _, d := range sets {
		p, _ := m.GetPolicy(d.key)
		cols := []int{}
		for i, n := 0, c.Intn(d.arity+1); i < n; i++ {
			cols = append(cols, c.Intn(d.arity))
		}
		want := map[string]bool{}
		for _, r := range st.Rules(d.key) {
			vals := []string{}
			for _, i := range cols {
				vals = append(vals, r[1+i])
			}
			want[fmt.Sprintf("%q", vals)] = true
		}
		got, err := policy.GetDistinct(p, cols)
		if x, ok := p.(interface {
			GetDistinct([]int) ([][]string, error)
		}); ok && c.Chance(50) {
			got, err = x.GetDistinct(cols)
		}
		c.Eval()
		c.Count("distinct values compared")
		if err != nil {
			c.Failf("distinct values of columns %v: %v", cols, err)
		}
		for _, vals := range got {
			if k := fmt.Sprintf("%q", vals); !want[k] {
				c.Failf("distinct values of columns %v of %s: %s is listed twice or does not occur in\n%s", cols, d.key, k, ruleSet(st.Rules(d.key)))
			} else {
				delete(want, k)
			}
		}
		if len(want) != 0 {
			c.Failf("distinct values of columns %v of %s: missing %v", cols, d.key, want)
		}
		if len(st.Rules(d.key)) > 0 {
			for _, bad := range []int{-1, d.arity} {
				if res, err := policy.GetDistinct(p, append(cols, bad)); err == nil {
					c.Failf("distinct values of column %d of %s: %q, expected an error", bad, d.key, res)
				}
			}
		}
	}
	c.Distinct(ruleSet(st.All()), n)
	c.CountN("stored rules", st.Len())
	c.Sample("%d edits, stored at the end: %s", n, trim(ruleSet(st.All()), 500))
}

// shiftSep moves the separator: the rule has the same text if its fields are joined
func shiftSep(c *C, rule []string, sep string) []string {
	i := 1 + c.Intn(len(rule)-2)
	n := strings.Count(rule[i]+rule[i+1], sep)
	if n == 0 || sep == "" {
		return resplit(c, rule)
	}
	text := rule[i] + sep + rule[i+1]
	at := -len(sep)
	for k := c.Intn(n + 1); k >= 0; k-- {
		next := strings.Index(text[at+len(sep):], sep)
		if next < 0 {
			break
		}
		at += len(sep) + next
	}
	if at < 0 {
		return rule
	}
	rule[i], rule[i+1] = text[:at], text[at+len(sep):]
	return rule
}

// resplit moves a character from one field to its neighbour.
func resplit(c *C, rule []string) []string {
	i := 1 + c.Intn(len(rule)-2)
	switch c.Intn(3) {
	case 0:
		if r := []rune(rule[i]); len(r) > 0 {
			rule[i], rule[i+1] = string(r[:len(r)-1]), string(r[len(r)-1])+rule[i+1]
		}
	case 1:
		rule[i], rule[i+1] = rule[i+1], rule[i]
	case 2:
		if r := []rune(rule[i+1]); len(r) > 0 {
			rule[i], rule[i+1] = rule[i]+string(r[0]), string(r[1:])
		}
	}
	return rule
}

func (c *C) compareListing(e *fastac.Enforcer, st *Store) {
	got := [][]string{}
	e.GetModel().RangeRules(func(r []string) bool {
		got = append(got, append([]string{}, r...))
		for i := range r { // the listed slices belong to the visitor
			r[i] = "overwritten"
		}
		return true
	})
	c.Eval()
	if ruleSet(got) != ruleSet(st.All()) {
		c.Failf("listing the rules yields\n%s\nexpected\n%s", ruleSet(got), ruleSet(st.All()))
	}
}

func init() {
	register(&Check{ID: "C04", Level: "exploration", Quick: 24000, Full: 300000, Run: runC04,
		Rule:   "1-3 policy and 0-3 role definitions with 1-4 fields; 20-80 additions, removals and clears of rules whose fields are concatenations of separators, escapes, quotes and control characters, 40% aimed at stored rules and at rules with the same text split differently; return values, listings and ownership of slices compared with a reference set; rarely tens of thousands of rules. Non-trivial: distinct (final rule set, number of edits).",
		Assume: []string{"rules have as many fields as their definition", "fields do not start with a NUL byte (reserved names of the role manager)"}})
}
