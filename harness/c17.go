package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
)

// iniSafe: configuration files have their own quoting and comment rules, texts
// that are subject to them cannot be written into a file
func iniSafe(s string) bool {
	t := strings.TrimSpace(s)
	return t == s && s != "" && !strings.ContainsAny(s, "\n\r`#;\\%") && !strings.Contains(s, `"""`) && s[0] != '"' && s[0] != '\'' && s[len(s)-1] != '"' && s[len(s)-1] != '\''
}

type defn struct {
	sec      byte
	key, val string
}

var secNames = map[byte]string{'r': "request_definition", 'p': "policy_definition", 'g': "role_definition", 'e': "policy_effect", 'm': "matchers"}

// roleArgs returns the arguments of a role definition, only their number counts
func roleArgs(c *C, n int) string {
	args := make([]string, n)
	for i := range args {
		args[i] = "_"
		if c != nil && c.Chance(20) {
			args[i] = c.Pick([]string{"user", "role", "_x", "a_b", "__", "domain", "x", "_1"})
		}
	}
	if c == nil {
		return strings.Join(args, ", ")
	}
	return strings.Join(args, c.Pick([]string{", ", ", ", ",", " , ", ",  "}))
}

// defns of a scenario
func (s *Scen) defns() []defn {
	d := []defn{{'r', s.RKey, strings.Join(s.RArgs, ", ")}, {'p', s.PKey, strings.Join(s.PArgs, ", ")}, {'e', "e", effects[s.Effect]}, {'m', "m", s.MText}}
	for _, g := range s.Gs {
		d = append(d, defn{'g', g.key, "_, _" + strings.Repeat(", _", g.doms)})
	}
	return d
}

// confText writes definitions like a person would
func confText(c *C, ds []defn) string {
	secs := []byte("rpgem")
	if c.Chance(60) {
		c.R.Shuffle(len(secs), func(i, j int) { secs[i], secs[j] = secs[j], secs[i] })
	}
	noise := func() string {
		t := ""
		for c.Chance(25) {
			t += c.Pick([]string{"\n", "   \n", "# comment\n", "; m = true\n", "  # p = sub\n", "#[matchers]\n", "\t\n"})
		}
		return t
	}
	other := func() string {
		if c.Chance(15) {
			return c.Pick([]string{"[unknown]\nm = true\ne = !some(where (p.eft == deny))\n", "[Matchers]\nm = true\n", "[policy]\np = a, b\n", "[request_definitions]\nr = x\n"}) + noise()
		}
		return ""
	}
	t := noise()
	if c.Chance(15) {
		t += "m = true\ntitle = x\n" // no section at all
	}
	for _, sec := range secs {
		mine := []defn{}
		for _, d := range ds {
			if d.sec == sec {
				mine = append(mine, d)
			}
		}
		if len(mine) == 0 && c.Chance(70) {
			continue
		}
		c.R.Shuffle(len(mine), func(i, j int) { mine[i], mine[j] = mine[j], mine[i] })
		parts := 1
		if c.Chance(15) {
			parts = 2 // a section may be continued
		}
		for p := 0; p < parts; p++ {
			t += other() + "[" + secNames[sec] + "]\n" + noise()
			for i, d := range mine {
				if d.sec == 'g' {
					d.val = roleArgs(c, strings.Count(d.val, ",")+1)
				}
				if d.sec == 'r' || d.sec == 'p' {
					d.val = strings.ReplaceAll(d.val, ", ", c.Pick([]string{", ", ", ", ",", ",\t", " , ", "\t,  "}))
				} else if d.sec == 'e' && c.Chance(40) {
					d.val = strings.ReplaceAll(d.val, " ", c.Pick([]string{"", "  ", "\t", " \t "}))
				}
				if i%parts == p {
					t += c.Pick([]string{"", "", " ", "\t"}) + d.key + c.Pick([]string{" = ", "=", "  =  ", " =\t"}) + d.val + c.Pick([]string{"", "", " ", "  "}) + "\n" + noise()
				}
			}
		}
	}
	t += other()
	if c.Chance(20) {
		t = strings.ReplaceAll(t, "\n", "\r\n")
	}
	return t
}

func loadText(c *C, text string, file bool) (*model.Model, error) {
	if !file {
		m := model.NewModel()
		setCustom(m)
		return m, m.LoadModelFromText(text)
	}
	path := filepath.Join(c.Dir(), "model.conf")
	if err := os.WriteFile(path, []byte(text), 0644); err != nil {
		panic(err)
	}
	defer os.Remove(path)
	if c.Chance(50) && !strings.Contains(text, "startsWith") && !strings.Contains(text, "sameLen") {
		m, err := model.NewModelFromFile(path)
		if err == nil {
			setCustom(m)
		}
		return m, err
	}
	m := model.NewModel()
	setCustom(m)
	return m, m.LoadModel(path)
}

// textScen is a scenario whose definitions can be written into a file
func textScen(c *C) *Scen {
	for {
		s := genScen(c, scenOpts{weird: 20, noIP: c.Chance(60)})
		ok := s.PKey != "p2" // see below
		for _, d := range s.defns() {
			ok = ok && iniSafe(d.val)
		}
		if ok {
			return s
		}
		c.Count("scenarios without a textual form skipped")
	}
}

// sameDecisions compares an enforcer over m with the reference
func (s *Scen) sameDecisions(c *C, what string, e *fastac.Enforcer, st *Store, n int) {
	for i := 0; i < n; i++ {
		req := s.genRequest(c)
		if c.Chance(60) {
			req = s.requestNear(c, st, req)
		}
		if s.usesIPOnP && len(st.rules[s.PKey]) == 0 {
			continue
		}
		want := s.Decide(st, req)
		got, err := e.Enforce(req...)
		c.Eval()
		c.Count(fmt.Sprintf("decisions %v", want))
		if err != nil || got != want {
			c.Failf("%s: matcher %s\nrequest (%s): %v %v, expected %v\nrules\n%s\nmodel\n%s", what, s.MText, showReq(req), got, err, want, ruleSet(st.All()), e.GetModel())
		}
	}
}

func (s *Scen) fill(c *C, e *fastac.Enforcer, st *Store) {
	for _, r := range st.All() {
		if ok, err := e.AddRule(r); !ok || err != nil {
			c.Failf("add %q: %v %v", r, ok, err)
		}
	}
}

func runC17(c *C) {
	if c.rare(150) {
		scaleC17(c)
		return
	}
	s := textScen(c)
	st := newStore()
	if len(s.Gs) > 0 {
		for i := c.Intn(6); i > 0; i-- {
			st.Add(s.genLink(c))
		}
	}
	for i := c.Intn(7); i > 0; i-- {
		st.Add(s.genRule(c))
	}
	ds := s.defns()
	if c.Chance(40) { // further definitions
		for _, d := range []defn{{'r', "r2", "a, b"}, {'p', "p2", "x, y"}, {'e', "e2", effects[c.Intn(3)]}, {'m', "m2", "r2.a == p2.x && r2.b == p2.y"}, {'g', "g7", "_, _, _"}} {
			if c.Chance(70) || d.sec == 'p' {
				ds = append(ds, d)
			}
		}
	}
	if c.rare(80) { // many definitions of all kinds
		for i, n := 0, 10+c.Intn(80); i < n; i++ {
			k := 100 + i
			ds = append(ds, []defn{{'r', fmt.Sprint("r", k), fmt.Sprintf("a%d, b", i)}, {'p', fmt.Sprint("p", k), fmt.Sprintf("x, y%d", i)}, {'e', fmt.Sprint("e", k), effects[i%3]}, {'m', fmt.Sprint("m", k), fmt.Sprintf("%s.%s == '%d'", s.PKey, s.PArgs[0], i)}, {'g', fmt.Sprint("g", k), "_, _" + strings.Repeat(", _", i%3)}}[c.Intn(5)])
		}
		c.Count("models with many definitions")
	}
	text := confText(c, ds)
	c.Logf("text:\n%s", text)
	m, err := loadText(c, text, c.Chance(40))
	if err != nil {
		c.Failf("the text was rejected: %v\n%s", err, text)
	}
	byAPI := model.NewModel()
	setCustom(byAPI)
	for _, i := range c.R.Perm(len(ds)) {
		val := ds[i].val
		if ds[i].sec == 'g' {
			val = roleArgs(c, strings.Count(val, ",")+1)
		}
		if err := byAPI.SetDef(ds[i].sec, ds[i].key, val); err != nil {
			c.Failf("%v %q: %v", ds[i], val, err)
		}
	}
	if err := byAPI.BuildMatchers(); err != nil {
		c.Failf("build: %v", err)
	}
	c.Eval()
	if a, b := m.String(), byAPI.String(); a != b {
		c.Failf("the model loaded from\n%s\nis rendered as\n%s\nthe same model defined by SetDef as\n%s", text, a, b)
	}
	// every definition is there, under its key and nothing else
	checkDefs := func(what string, m *model.Model, ds []defn, built bool) {
		c.Eval()
		have := map[string]bool{}
		for _, d := range ds {
			have[d.key] = true
			def, ok := m.GetDef(d.sec, d.key)
			if !ok || def.GetKey() != d.key {
				c.Failf("%s: definition %s is missing\n%s", what, d.key, m)
			}
			a := strings.ReplaceAll(def.String(), " ", "")
			if b := strings.ReplaceAll(d.key+"="+d.val, " ", ""); a != b {
				c.Failf("%s: definition %s is %s, expected %s", what, d.key, a, b)
			}
			switch d.sec {
			case 'r':
				r, ok := m.GetRequestDef(d.key)
				if !ok || !r.Has(d.key+"_"+strings.Split(d.val, ", ")[0]) {
					c.Failf("%s: request definition %s is missing", what, d.key)
				}
			case 'p':
				if _, ok := m.GetPolicy(d.key); !ok {
					c.Failf("%s: policy %s is missing", what, d.key)
				}
			case 'g':
				if _, ok := m.GetRoleManager(d.key); !ok {
					c.Failf("%s: role manager %s is missing", what, d.key)
				}
			case 'e':
				if _, ok := m.GetEffector(d.key); !ok {
					c.Failf("%s: effector %s is missing", what, d.key)
				}
			case 'm':
				if _, ok := m.GetMatcher(d.key); !ok && built {
					c.Failf("%s: matcher %s is missing", what, d.key)
				}
			}
		}
		for _, k := range []string{"r", "r2", "p", "p2", "g", "g2", "g7", "e", "e2", "m", "m2", "m9"} {
			if _, ok := m.GetDef(k[0], k); ok && !have[k] {
				c.Failf("%s: there is an unexpected definition %s\n%s", what, k, m)
			}
		}
	}
	checkDefs("loaded", m, ds, true)
	rendered := m.String()
	again, err := loadText(c, rendered, c.Chance(30))
	if err != nil {
		c.Failf("the rendered text was rejected: %v\n%s", err, rendered)
	}
	c.Eval()
	if a := again.String(); a != rendered {
		c.Failf("rendered model\n%s\nloaded and rendered again\n%s", rendered, a)
	}
	checkDefs("loaded again", again, ds, true)
	c.Count("round trips")
	models := map[string]*model.Model{"loaded from text": m, "loaded from the rendered text": again, "defined by SetDef": byAPI}
	names := []string{}
	for n := range models {
		names = append(names, n)
	}
	sort.Strings(names)
	var e *fastac.Enforcer
	for _, n := range names {
		x, err := fastac.NewEnforcer(models[n], nil)
		if err != nil {
			c.Failf("%s: %v", n, err)
		}
		s.fill(c, x, st)
		s.sameDecisions(c, n, x, st, 4)
		if models[n].String() != rendered {
			c.Failf("%s: rules or requests changed the rendered model", n)
		}
		e = x
		m = models[n]
	}
	c.Distinct(rendered)
	c.Sample("%s", rendered)

	// editing definitions
	cur := append([]defn{}, ds...)
	set := func(d defn) {
		for i := range cur {
			if cur[i].key == d.key {
				cur[i] = d
				return
			}
		}
		cur = append(cur, d)
	}
	drop := func(key string) {
		for i := range cur {
			if cur[i].key == key {
				cur = append(cur[:i:i], cur[i+1:]...)
				return
			}
		}
	}
	apply := func(d defn) {
		set(d)
		if d.sec == 'g' {
			d.val = roleArgs(c, strings.Count(d.val, ",")+1)
		}
		how := c.Intn(3)
		if !iniSafe(d.val) {
			how = 0
		}
		var err error
		switch how {
		case 0, 1:
			err = m.SetDef(d.sec, d.key, d.val)
			if how == 1 || d.sec == 'm' { // what else has to be built is built
				if err == nil {
					err = m.BuildMatchers()
				}
			}
		case 2:
			err = m.LoadModelFromText(confText(c, []defn{d}))
		}
		c.Logf("set %s = %s (%d) => %v", d.key, d.val, how, err)
		if err != nil {
			c.Failf("set %s = %s: %v", d.key, d.val, err)
		}
		if d.sec == 'p' || d.sec == 'g' { // what becomes of the rules is not specified
			if err := m.ClearPolicy(d.key); err != nil {
				c.Failf("clear: %v", err)
			}
			st.Clear(d.key)
		}
	}
	for i := 0; i < 6; i++ {
		what := ""
		switch k := c.Intn(12); {
		case k < 2:
			s.Effect = c.Intn(3)
			apply(defn{'e', "e", effects[s.Effect]})
			what = "effect replaced"
		case k < 4:
			s.usesIPOnP = false
			s.newMatcher(c, 5)
			apply(defn{'m', "m", s.MText})
			what = "matcher replaced"
		case k < 5:
			s.RArgs = append(s.RArgs[:len(s.RArgs):len(s.RArgs)], fmt.Sprint("more", i))
			s.RCats = append(s.RCats[:len(s.RCats):len(s.RCats)], cName)
			apply(defn{'r', "r", strings.Join(s.RArgs, ", ")})
			what = "request definition replaced"
		case k < 6:
			s.PArgs = append(s.PArgs[:len(s.PArgs):len(s.PArgs)], fmt.Sprint("more", i))
			s.PCats = append(s.PCats[:len(s.PCats):len(s.PCats)], cName)
			apply(defn{'p', s.PKey, strings.Join(s.PArgs, ", ")})
			what = "policy definition replaced"
		case k < 7 && len(s.Gs) > 0:
			g := s.Gs[c.Intn(len(s.Gs))]
			apply(defn{'g', g.key, roleArgs(nil, 2+g.doms)})
			what = "role definition replaced"
		case k < 8: // a definition of its own
			d := []defn{{'r', "r2", "x, y, z"}, {'e', "e2", effects[c.Intn(3)]}, {'p', "p2", "x, y, z"}, {'m', "m9", s.PKey + "." + s.PArgs[0] + " == 'x'"}, {'g', "g7", "_,_"}}[c.Intn(5)]
			apply(d)
			what = d.key + " set"
		case k < 9:
			key := c.Pick([]string{"r2", "e2", "m2", "m9", "g7"})
			if err := m.RemoveDef(key[0], key); err == nil {
				drop(key)
			}
			what = key + " removed"
		case k < 10: // invalid edits
			before := m.String()
			bad := []defn{{'x', "x", "a"}, {'r', "p", "a, b"}, {'p', "r", "a"}, {'m', "e", "true"}, {'e', "", effects[0]}, {'g', "p", "_, _"}, {0, "m", "true"}}[c.Intn(7)]
			err := m.SetDef(bad.sec, bad.key, bad.val)
			c.Eval()
			if after := m.String(); err == nil || after != before {
				c.Failf("SetDef(%q, %q): %v, model\n%s\nbefore\n%s", bad.sec, bad.key, err, after, before)
			}
			if bad.sec == 'x' || bad.sec == 0 {
				if err := m.RemoveDef(bad.sec, bad.key); err == nil {
					c.Failf("RemoveDef(%q, %q) returned no error", bad.sec, bad.key)
				}
			}
			what = "invalid edit"
		default: // a definition is removed, and restored later
			key := []string{"r", s.PKey, "e", "m"}[c.Intn(4)]
			if len(s.Gs) > 0 && c.Chance(30) {
				key = s.Gs[c.Intn(len(s.Gs))].key
			}
			var d defn
			for _, x := range cur {
				if x.key == key {
					d = x
				}
			}
			if err := m.RemoveDef(key[0], key); err != nil {
				c.Failf("remove %s: %v", key, err)
			}
			drop(key)
			checkRemoved := func() {
				checkDefs("removed "+key, m, cur, key[0] != 'p' && key[0] != 'g')
				req := s.requestNear(c, st, s.genRequest(c))
				ok, err := e.Enforce(req...)
				c.Eval()
				c.Logf("removed %s, request (%s) => %v %v", key, showReq(req), ok, err)
				if key[0] == 'g' {
					// an error only where the function is called
					if err == nil && strings.HasPrefix(s.MText, key+"(") {
						c.Failf("definition %s was removed: request (%s) => %v without an error, matcher %s", key, showReq(req), ok, s.MText)
					}
				} else if ok || err == nil {
					c.Failf("definition %s was removed: request (%s) => %v %v\n%s", key, showReq(req), ok, err, m)
				}
				if key[0] == 'p' || key[0] == 'g' {
					if ok, err := e.AddRule([]string{key, "a", "b", "c", "d"}); ok || err == nil {
						c.Failf("definition %s was removed: a rule could be added: %v", key, ok)
					}
				}
			}
			checkRemoved()
			if c.Chance(40) {
				_ = m.BuildMatchers()
				checkRemoved()
			}
			if err := m.SetDef(d.sec, d.key, d.val); err != nil {
				c.Failf("restore %s: %v", key, err)
			}
			set(d)
			if err := m.BuildMatchers(); err != nil {
				c.Failf("restore %s: %v", key, err)
			}
			if key[0] == 'p' || key[0] == 'g' {
				if err := m.ClearPolicy(key); err != nil {
					c.Failf("clear: %v", err)
				}
				st.Clear(key)
			}
			what = key[:1] + " removed and restored"
		}
		c.Logf("%s", what)
		if what == "" {
			continue
		}
		c.Count(what)
		checkDefs(what, m, cur, true)
		if x, err := loadText(c, m.String(), false); allSafe(cur) && (err != nil || x.String() != m.String()) {
			c.Failf("%s: rendered model\n%s\nloaded and rendered again\n%s %v", what, m, x, err)
		}
		if c.Chance(60) {
			for j := c.Intn(4); j > 0; j-- {
				s.edit(c, e, st, true, s.genRule(c))
			}
			if len(s.Gs) > 0 {
				s.edit(c, e, st, c.Chance(70), s.genLink(c))
			}
		}
		s.sameDecisions(c, what, e, st, 4)
		if a, b := ruleSet(listRules(e)), ruleSet(st.All()); a != b {
			c.Failf("%s: rules\n%s\nexpected\n%s", what, a, b)
		}
	}
}

func allSafe(ds []defn) bool {
	for _, d := range ds {
		if !iniSafe(d.val) {
			return false
		}
	}
	return true
}

func init() {
	register(&Check{ID: "C17", Level: "exploration", Quick: 10000, Full: 120000, Run: runC17,
		Rule:   "random models (1-9 definitions, several keys per section) are written as text with random section order, blanks, comments and unknown sections, loaded from text or file, compared with the same model defined by SetDef, rendered, loaded and rendered again; all three must hold exactly the given definitions and decide like the reference. Then definitions are replaced (SetDef or partial texts), added, removed and restored, or edited with invalid keys, and definitions, rendering, rules and decisions are compared after each step. Non-trivial: distinct rendered models.",
		Assume: []string{"texts that the ini format itself would alter (comment characters, line continuation, surrounding quotes) are not written into files", "what becomes of the rules when their definition is replaced is not specified"}})
}
