package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"unicode"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/api"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/storage"
	"github.com/abichinger/fastac/storage/adapter"
)

// rulesOf is a rule source and a rule sink
type rulesOf struct {
	rules [][]string
	at    func(i int) // called before the i-th rule is handed out
	fail  int         // the sink rejects this rule, -1: none
}

func (s *rulesOf) RangeRules(fn func(rule []string) bool) {
	for i, r := range s.rules {
		if s.at != nil {
			s.at(i)
		}
		if !fn(append([]string{}, r...)) {
			return
		}
	}
	if s.at != nil {
		s.at(len(s.rules))
	}
}

func (s *rulesOf) AddRule(rule []string) (bool, error) {
	if s.fail >= 0 && len(s.rules) == s.fail {
		return false, errInjected
	}
	s.rules = append(s.rules, append([]string{}, rule...))
	return true, nil
}

// loadFile reads a policy file with a fresh adapter
func loadFile(path string) ([][]string, error) {
	sink := &rulesOf{fail: -1}
	err := adapter.NewFileAdapter(path).LoadPolicy(sink)
	if err == nil { // the rule sets of the package hold the same rules
		set := adapter.NewRuleSet()
		if err := adapter.NewFileAdapter(path).LoadPolicy(set); err != nil {
			return nil, err
		}
		ranged := [][]string{}
		set.RangeRules(func(r []string) bool { ranged = append(ranged, r); return true })
		want := ruleSet(setOf(sink.rules))
		if ruleSet(set.Rules()) != want || ruleSet(ranged) != want {
			return nil, fmt.Errorf("the rule set holds %q and ranges over %q, the file contains %q", set.Rules(), ranged, sink.rules)
		}
	}
	return sink.rules, err
}

var fieldParts = []string{"a", "b", "alice", "data1", ",", ", ", "\"", "\"\"", "'", "\n", "\r", "\r\n", "\r\r\n", "\n\n", " ", "  ", "\t", "#", "# x", ";", "\\", "\\n", "\x00", "\u0085", "\u00a0", "\u2028", "\ufeff", "\u3000", "é", "日本", "\U0001F600", "\xff", "\xc3", "|", "=", "*", "/", "r.sub.Age > 18 && r.obj == \"x, y\"", "in ('a','b')", "p", "g", "\v", "\f", "\x1a"}

func anyField(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return ""
	case 1, 2, 3:
		return fieldParts[r.Intn(4)]
	case 4:
		if r.Intn(40) == 0 {
			return strings.Repeat(fieldParts[r.Intn(len(fieldParts))], 1+r.Intn(70000))
		}
		return strings.Repeat(fieldParts[r.Intn(len(fieldParts))], 1+r.Intn(30))
	case 5:
		return string(rune(r.Intn(0x3000)))
	}
	s := ""
	for n := 1 + r.Intn(5); n > 0; n-- {
		s += fieldParts[r.Intn(len(fieldParts))]
	}
	return s
}

func anyRule(r *rand.Rand) []string {
	key := []string{"p", "g", "p2", "g2"}[r.Intn(4)]
	if r.Intn(15) == 0 {
		key = anyField(r)
	}
	rule := []string{key}
	for n := r.Intn(6); n > 0; n-- {
		rule = append(rule, anyField(r))
	}
	return rule
}

func setOf(rules [][]string) [][]string {
	seen := map[string]bool{}
	res := [][]string{}
	for _, r := range rules {
		if !seen[rkey(r)] {
			seen[rkey(r)] = true
			res = append(res, r)
		}
	}
	return res
}

func withoutRule(rules [][]string, rule []string) [][]string {
	res := [][]string{}
	for _, r := range rules {
		if rkey(r) != rkey(rule) {
			res = append(res, r)
		}
	}
	return res
}

func features(rules [][]string) string {
	f := map[string]bool{}
	for _, r := range rules {
		for i, x := range r {
			at := ""
			if i == 0 {
				at = "first:"
			} else if i == len(r)-1 {
				at = "last:"
			}
			for _, t := range []string{",", "\"", "\n", "\r", "\r\n", "#", "\x00", "\\"} {
				if strings.HasPrefix(x, t) {
					f[at+"^"+t] = true
				} else if strings.HasSuffix(x, t) {
					f[at+t+"$"] = true
				} else if strings.Contains(x, t) {
					f[at+t] = true
				}
			}
			if x == "" {
				f[at+"empty"] = true
			}
			if len(x) > 65536 {
				f[at+"long"] = true
			}
			for j, y := range x {
				if unicode.IsSpace(y) && j == 0 {
					f[fmt.Sprintf("%sspace^%x", at, y)] = true
				}
				if y == unicode.ReplacementChar {
					f[at+"invalid"] = true
				}
			}
		}
	}
	return ruleSetStrings(f)
}

func ruleSetStrings(m map[string]bool) string {
	rules := [][]string{}
	for k := range m {
		rules = append(rules, []string{k})
	}
	return ruleSet(rules)
}

func runC15(c *C) {
	path := filepath.Join(c.Dir(), fmt.Sprintf("rules-%d.csv", c.Idx))
	defer os.Remove(path)
	if c.rare(250) {
		scaleC15(c, path)
		return
	}
	switch {
	case c.Chance(20):
		c15Plain(c, path)
		return
	case c.Chance(12):
		c15Bad(c, path)
		return
	case c.Chance(20):
		c15Enforcer(c, path)
		return
	}
	rules := [][]string{}
	for n := c.Intn(12); n > 0; n-- {
		rules = append(rules, anyRule(c.R))
	}
	rules = setOf(rules)
	a := adapter.NewFileAdapter(path)
	c.Logf("save %s", trim(fmt.Sprintf("%q", rules), 2000))
	if err := a.SavePolicy(&rulesOf{rules: rules, fail: -1}); err != nil {
		c.Failf("save: %v", err)
	}
	verify := func(what string) {
		c.Eval()
		got, err := loadFile(path)
		if err != nil {
			b, _ := os.ReadFile(path)
			c.Failf("%s: load: %v\nfile: %s", what, err, trim(fmt.Sprintf("%q", b), 1000))
		}
		if x, y := ruleSet(got), ruleSet(rules); x != y || len(got) != len(rules) {
			c.Failf("%s: the file contains %s\nexpected %s", what, trim(fmt.Sprintf("%q", got), 1200), trim(fmt.Sprintf("%q", rules), 1200))
		}
	}
	verify("saved")
	for i := range rules { // each rule on its own, in one line
		if c.Chance(20) {
			sink := &rulesOf{fail: -1}
			b, err := os.ReadFile(path)
			if err == nil && !strings.ContainsAny(strings.Join(rules[i], ""), "\r\n") && len(rules) == 1 {
				if err := adapter.LoadPolicyLine(strings.TrimSuffix(string(b), "\n"), sink); err != nil || ruleSet(sink.rules) != ruleSet(rules) {
					c.Failf("line %q: %q %v", b, sink.rules, err)
				}
				c.Count("single lines")
			}
		}
	}
	c.Distinct(features(rules))
	for i, n := 0, c.Intn(6); i < n; i++ {
		if c.Chance(15) {
			a = adapter.NewFileAdapter(path)
		}
		k := 1
		many := c.Chance(50)
		if many {
			k = c.Intn(4)
		}
		add := c.Chance(55)
		edits := [][]string{}
		for ; k > 0; k-- {
			r := anyRule(c.R)
			if len(rules) > 0 && (add && c.Chance(20) || !add && c.Chance(75)) {
				r = append([]string{}, rules[c.Intn(len(rules))]...)
				if c.Chance(20) { // nearly the same rule
					j := c.Intn(len(r))
					r[j] += c.Pick([]string{" ", "\n", "\r", ",", "\"", "#"})
				}
			}
			edits = append(edits, r)
			if add {
				rules = setOf(append(rules, r))
			} else {
				rules = withoutRule(rules, r)
			}
		}
		given := fmt.Sprintf("%q", edits)
		var err error
		switch {
		case many && add:
			err = a.AddRules(edits)
		case many:
			err = a.RemoveRules(edits)
		case add:
			err = a.AddRule(edits[0])
		default:
			err = a.RemoveRule(edits[0])
		}
		c.Logf("add=%v %s => %v", add, trim(given, 500), err)
		if err != nil {
			c.Failf("add=%v %s: %v", add, trim(given, 1000), err)
		}
		if s := fmt.Sprintf("%q", edits); s != given {
			c.Failf("the rules of the caller were changed to %s", s)
		}
		verify(fmt.Sprintf("add=%v %s", add, trim(given, 500)))
		c.Count(fmt.Sprintf("edits of the file add=%v batch=%v", add, many))
		c.Distinct(features(rules))
	}
	if c.Chance(30) { // save again, with fewer rules
		rules = rules[:len(rules)/2]
		if err := a.SavePolicy(&rulesOf{rules: rules, fail: -1}); err != nil {
			c.Failf("save: %v", err)
		}
		verify("saved again")
	}
	c.Sample("%s", trim(fmt.Sprintf("%q", rules), 400))
}

// c15Enforcer saves and loads by means of enforcers
func c15Enforcer(c *C, path string) {
	st := newStore()
	m := newStoreModel(c)
	if err := os.WriteFile(path, nil, 0644); err != nil {
		panic(err)
	}
	e, err := fastac.NewEnforcer(m, path)
	if err != nil {
		c.Failf("%v", err)
	}
	for n := c.Intn(12); n > 0; n-- {
		d := setDefs[c.Intn(len(setDefs))]
		rule := []string{d.key}
		for i := 0; i < d.arity; i++ {
			rule = append(rule, anyField(c.R))
		}
		if strings.Contains(strings.Join(rule, ""), "\x00") && d.key[0] == 'g' {
			continue // reserved names
		}
		st.Add(rule)
		if _, err := e.AddRule(rule); err != nil {
			c.Failf("%q: %v", rule, err)
		}
	}
	var ad storage.Adapter = e.GetAdapter()
	if c.Chance(50) {
		err = e.SavePolicy()
	} else {
		err = ad.SavePolicy(m)
	}
	if err != nil {
		c.Failf("save: %v", err)
	}
	f, err := fastac.NewEnforcer(newStoreModel(c), path)
	if err != nil {
		b, _ := os.ReadFile(path)
		c.Failf("load: %v\nfile %s", err, trim(fmt.Sprintf("%q", b), 1000))
	}
	c.Eval()
	if a, b := ruleSet(listRules(f)), ruleSet(st.All()); a != b {
		c.Failf("loaded\n%s\nexpected\n%s", trim(a, 1500), trim(b, 1500))
	}
	for _, r := range st.Rules("p") { // the loaded rules decide
		ok, err := f.Enforce(r[1], r[2], r[3], fastac.SetMatcher("r.sub == p.sub && r.obj == p.obj && r.act == p.act"))
		if !ok || err != nil {
			c.Failf("request for the loaded rule %q: %v %v", r, ok, err)
		}
	}
	c.Count("enforcers saved and loaded")
	c.Distinct(features(st.All()))
}

var plainWords = []string{"p", "g", "alice", "bob", "data1", "/a/:id", "*", "r.sub.Age > 18", "it's", "x y", "a#b", "#x", "日本", "a;b", "key=val", "(GET)|(POST)", "^/a/[0-9]+$", "C:\\x", "10.0.0.0/8", "1", "\ttab"}

// c15Plain loads files that were written by hand
func c15Plain(c *C, path string) {
	nl := "\n"
	if c.Chance(25) {
		nl = "\r\n"
	}
	text := ""
	want := [][]string{}
	for n := c.Intn(14); n > 0; n-- {
		switch k := c.Intn(10); {
		case k < 2:
			text += nl
		case k < 4:
			text += "#" + c.Pick([]string{"", " comment", "p, a, b", " it's \"quoted\"", "\""}) + nl
		default:
			rule := []string{c.Pick([]string{"p", "g", "p2"})}
			line := rule[0]
			if c.Chance(10) {
				line = c.Pick([]string{" ", "\t"}) + line
			}
			for i := 1 + c.Intn(4); i > 0; i-- {
				w := c.Pick(plainWords)
				if c.Chance(8) {
					w = ""
				}
				sep := c.Pick([]string{", ", ",", ",  ", ",\t"})
				if c.Chance(15) { // quoted by hand
					w += c.Pick([]string{", x", " \"y\" ", "#", ""})
					line += sep + "\"" + strings.ReplaceAll(w, "\"", "\"\"") + "\""
				} else {
					line += sep + w
					w = strings.TrimLeft(w, "\t")
				}
				rule = append(rule, w)
			}
			want = append(want, rule)
			text += line + nl
		}
	}
	if c.Chance(30) {
		text = strings.TrimSuffix(text, nl)
	}
	if err := os.WriteFile(path, []byte(text), 0644); err != nil {
		panic(err)
	}
	c.Logf("file %q", text)
	got, err := loadFile(path)
	c.Eval()
	if err != nil || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		c.Failf("file %q\nloaded %q %v\nexpected %q", text, got, err, want)
	}
	if b, _ := os.ReadFile(path); string(b) != text {
		c.Failf("loading changed the file from %q to %q", text, b)
	}
	c.Count("plain files")
	c.Distinct(text)
	// edits keep the other rules
	extra := anyRule(c.R)
	if err := adapter.NewFileAdapter(path).AddRule(extra); err != nil {
		c.Failf("add %q: %v", extra, err)
	}
	got, err = loadFile(path)
	c.Eval()
	if a, b := ruleSet(setOf(got)), ruleSet(setOf(append(want, extra))); err != nil || a != b {
		c.Failf("after adding %q to %q: %s %v\nexpected %s", extra, text, a, err, b)
	}
}

// c15Bad loads files that cannot be loaded
func c15Bad(c *C, path string) {
	c.Eval()
	switch c.Intn(4) {
	case 0:
		os.Remove(path)
		if rules, err := loadFile(path); err == nil {
			c.Failf("loading a missing file: %q without an error", rules)
		}
		if _, err := fastac.NewEnforcer(newStoreModel(c), path); err == nil {
			c.Failf("an enforcer was created with a missing file")
		}
		c.Count("missing files")
	case 1:
		if rules, err := loadFile(c.Dir()); err == nil {
			c.Failf("loading a directory: %q without an error", rules)
		}
		c.Count("directories")
	case 2: // broken quoting after some valid lines
		line := c.Pick([]string{"p, a\"b, c", "p, \"a", "p, \"a\"b, c", "\"", "p, \"a\" , c", "p, \"a\nb, c"})
		single := &rulesOf{fail: -1}
		if err := adapter.LoadPolicyLine(line, single); err == nil || len(single.rules) > 0 {
			c.Failf("LoadPolicyLine(%q) => %v, added %q", line, err, single.rules)
		}
		for _, l := range []string{"", "#" + line, "# p, a, b"} {
			if err := adapter.LoadPolicyLine(l, single); err != nil || len(single.rules) > 0 {
				c.Failf("LoadPolicyLine(%q) => %v, added %q", l, err, single.rules)
			}
		}
		if err := adapter.LoadPolicyLine("p, a, b", &rulesOf{fail: 0}); err == nil {
			c.Failf("LoadPolicyLine: an error of the rule sink was not reported")
		}
		text := strings.Repeat("p, alice, data1, read\n", c.Intn(3)) + line + c.Pick([]string{"", "\n", "\np, bob, data1, read\n"})
		if err := os.WriteFile(path, []byte(text), 0644); err != nil {
			panic(err)
		}
		if strings.Count(text, "\"")%2 == 0 && strings.HasSuffix(text, "\"") {
			return
		}
		if rules, err := loadFile(path); err == nil {
			c.Failf("the malformed file %q was loaded as %q without an error", text, rules)
		}
		if _, err := fastac.NewEnforcer(newStoreModel(c), path); err == nil {
			c.Failf("an enforcer was created with the malformed file %q", text)
		}
		before := text
		for i, err := range []error{adapter.NewFileAdapter(path).AddRule([]string{"p", "x"}), adapter.NewFileAdapter(path).RemoveRules([][]string{{"p", "x"}})} {
			b, _ := os.ReadFile(path)
			if err == nil || string(b) != before {
				c.Failf("edit %d of the malformed file %q: %v, file %q", i, text, err, b)
			}
		}
		c.Count("malformed files")
		c.Distinct(text)
	default: // rules that the model does not accept
		text := "p, alice, data1, read\n" + c.Pick([]string{"p9, a, b, c", "x", "g, a", "r, a, b, c"}) + "\np, bob, data1, read\n"
		if err := os.WriteFile(path, []byte(text), 0644); err != nil {
			panic(err)
		}
		m := newStoreModel(c)
		if _, err := fastac.NewEnforcer(m, path); err == nil {
			c.Failf("an enforcer was created with the invalid file %q", text)
		}
		var sink api.IAddRuleBool = &rulesOf{fail: c.Intn(3)}
		if err := adapter.NewFileAdapter(path).LoadPolicy(sink); err == nil {
			c.Failf("an error of the rule sink was not reported")
		}
		c.Count("invalid rules")
		c.Distinct(text)
	}
	_ = model.P_SEC
}

func init() {
	register(&Check{ID: "C15", Level: "exploration", Quick: 20000, Full: 400000, Run: runC15,
		Rule: "random rule sets over 46 field fragments (separators, quotes, line breaks, blanks of all kinds, comment characters, NUL, BOM, invalid UTF-8, values of up to 1 MB) are saved and read back by a fresh adapter, then edited one by one or in batches through the adapter, the set being compared after each step; also through enforcers, hand-written files with comments, blank lines, CRLF and quoting against a parser-free expectation, and missing, malformed and rejected files; rarely files of many thousand rules. Non-trivial: distinct sets of (position, special character) features."})
}
