package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/storage"
	"github.com/abichinger/fastac/storage/adapter"
	em "github.com/vansante/go-event-emitter"
)

// ---- C26 ----

type observer struct {
	id      int
	l       []*em.Listener
	got     []string
	want    []string
	removed bool
}

func runC26(c *C) {
	if c.rare(200) {
		scaleC26(c)
		return
	}
	m := newStoreModel(c)
	rec := newRecorder("storage")
	var ad interface{} = newAdapter(c.Intn(3), rec)
	if c.Chance(30) {
		ad = nil
	}
	e, err := fastac.NewEnforcer(m, ad, fastac.OptionAutosave(c.Chance(50)))
	if err != nil {
		c.Failf("%v", err)
	}
	st := newStore()
	obs := []*observer{}
	problem := ""
	loading := false
	loaded := map[string]bool{}
	probing := c.Chance(40)
	events := 0
	watch := func() {
		o := &observer{id: len(obs)}
		for _, ev := range []em.EventType{model.RULE_ADDED, model.RULE_REMOVED} {
			add := ev == model.RULE_ADDED
			o.l = append(o.l, m.AddListener(ev, func(a ...interface{}) {
				rule := a[0].([]string)
				events++
				o.got = append(o.got, opText(add, rule))
				if o.removed {
					problem = fmt.Sprintf("a removed listener was called with %q", rule)
				}
				// the change is visible already
				visible := false
				for _, r := range listRules(e) {
					visible = visible || rkey(r) == rkey(rule)
				}
				if visible != add {
					problem = fmt.Sprintf("event %s: the rule is listed: %v", opText(add, rule), visible)
				}
				if p, ok := m.GetPolicy(rule[0]); !ok {
					problem = fmt.Sprintf("event %s names an unknown policy", opText(add, rule))
				} else {
					in := false
					p.Range(func(r []string) bool { in = in || rkey(r) == rkey(rule[1:]); return true })
					if in != add {
						problem = fmt.Sprintf("event %s: the rule is in the policy: %v", opText(add, rule), in)
					}
				}
				if probing && rule[0] == "p" && strings.Join(rule[1:4], "") != "" { // and decides requests
					ok, err := e.Enforce(rule[1], rule[2], rule[3], fastac.SetMatcher("r.sub == p.sub && r.obj == p.obj && r.act == p.act"))
					ok2, err2 := e.Enforce(rule[1], rule[2], rule[3])
					if err != nil || err2 != nil || ok != add || add && !ok2 {
						problem = fmt.Sprintf("event %s: request for the rule: %v %v, %v %v", opText(add, rule), ok, err, ok2, err2)
					}
				}
				if rule[0] == "g" && probing {
					rm, _ := m.GetRoleManager("g")
					if has, _ := rm.HasLink(rule[1], rule[2]); add && !has {
						problem = fmt.Sprintf("event %s: the link does not exist", opText(add, rule))
					}
				}
			}))
		}
		obs = append(obs, o)
		c.Logf("listener %d added", o.id)
	}
	// events of a single policy carry the rule without its key
	type pol struct{ got, want []string }
	pols := map[string]*pol{}
	for _, d := range setDefs {
		if !c.Chance(50) {
			continue
		}
		p, _ := m.GetPolicy(d.key)
		x := &pol{}
		pols[d.key] = x
		p.AddListener(policy.EVT_RULE_ADDED, func(a ...interface{}) { x.got = append(x.got, opText(true, a[0].([]string))) })
		p.AddListener(policy.EVT_RULE_REMOVED, func(a ...interface{}) { x.got = append(x.got, opText(false, a[0].([]string))) })
		p.AddListener(policy.EVT_CLEARED, func(a ...interface{}) { x.got = append(x.got, "cleared") })
	}
	expect := func(add bool, rule []string) bool {
		var eff bool
		if add {
			eff = st.Add(rule)
		} else {
			eff = st.Remove(rule)
		}
		if eff {
			for _, o := range obs {
				if !o.removed {
					o.want = append(o.want, opText(add, rule))
				}
			}
			if x := pols[rule[0]]; x != nil {
				x.want = append(x.want, opText(add, rule[1:]))
			}
		}
		return eff
	}
	pick := func() []string {
		if all := st.All(); len(all) > 0 && c.Chance(45) {
			return append([]string{}, all[c.Intn(len(all))]...)
		}
		return storeRule(c)
	}
	compare := func(what string) {
		c.Eval()
		if problem != "" {
			c.Failf("%s: %s", what, problem)
		}
		for _, o := range obs {
			if loading { // order of loading is not determined
				tail := o.got[len(o.want):]
				for _, x := range tail {
					if !loaded[x] {
						c.Failf("%s: listener %d received %s, which was not loaded", what, o.id, x)
					}
				}
				if !o.removed {
					if len(tail) != len(loaded) || len(dedup(tail)) != len(tail) {
						c.Failf("%s: listener %d received %q, loaded were %v", what, o.id, tail, loaded)
					}
					o.want = append(o.want, tail...)
				}
			}
			if strings.Join(o.got, "\n") != strings.Join(o.want, "\n") {
				c.Failf("%s: listener %d received\n%s\nexpected\n%s", what, o.id, strings.Join(o.got, "\n"), strings.Join(o.want, "\n"))
			}
		}
		for k, x := range pols {
			if loading {
				x.want = append([]string{}, x.got...)
			}
			if strings.Join(x.got, "\n") != strings.Join(x.want, "\n") {
				c.Failf("%s: policy %s announced\n%s\nexpected\n%s", what, k, strings.Join(x.got, "\n"), strings.Join(x.want, "\n"))
			}
		}
		loading = false
	}
	watch()
	for i, n := 0, 20+c.Intn(25); i < n; i++ {
		what := ""
		switch k := c.Intn(100); {
		case k < 55:
			add := c.Chance(60)
			rule := pick()
			eff := expect(add, rule)
			mine := append([]string{}, rule...)
			var ok bool
			var err error
			switch {
			case add && c.Chance(70):
				ok, err = e.AddRule(mine)
			case add:
				ok, err = m.AddRule(mine)
			case c.Chance(70):
				ok, err = e.RemoveRule(mine)
			default:
				ok, err = m.RemoveRule(mine)
			}
			for j := range mine {
				mine[j] = "overwritten"
			}
			what = fmt.Sprintf("%s => %v %v", opText(add, rule), ok, err)
			if ok != eff || err != nil {
				c.Failf("%s, expected %v", what, eff)
			}
			c.Count(fmt.Sprintf("edits, effective=%v", eff))
		case k < 63:
			add := c.Chance(60)
			rules := [][]string{}
			for j := c.Intn(5); j > 0; j-- {
				r := pick()
				rules = append(rules, r)
			}
			for _, r := range rules {
				expect(add, r)
			}
			var err error
			if add {
				err = e.AddRules(rules)
			} else {
				err = e.RemoveRules(rules)
			}
			what = fmt.Sprintf("batch add=%v %q => %v", add, rules, err)
			if err != nil {
				c.Failf("%s", what)
			}
			c.Count("batch edits")
		case k < 70:
			bad := invalidRule(c)
			var err error
			if c.Chance(60) {
				_, err = e.AddRule(bad)
			} else {
				_, err = e.RemoveRule(bad)
			}
			what = fmt.Sprintf("invalid %q => %v", bad, err)
			c.Count("failed edits")
		case k < 78:
			_, _ = e.Enforce(pick()[1], "a", "b")
			_, _ = e.Filter(fastac.SetMatcher("g.user == \"a\""))
			_, _ = e.Enforce("a")
			_ = m.String()
			what = "queries"
		case k < 84:
			what = "listener added"
			watch()
		case k < 89:
			o := obs[c.Intn(len(obs))]
			if !o.removed {
				m.RemoveListener(model.RULE_ADDED, o.l[0])
				m.RemoveListener(model.RULE_REMOVED, o.l[1])
				o.removed = true
				what = fmt.Sprintf("listener %d removed", o.id)
				c.Count("listeners removed")
			}
		case k < 93 && ad != nil:
			what = "load"
			loading = true
			loaded = map[string]bool{}
			for j := c.Intn(4); j > 0; j-- {
				r := storeRule(c)
				rec.contents[rkey(r)] = r
			}
			for _, r := range rec.rules() {
				if st.Add(r) {
					loaded[opText(true, r)] = true
				}
			}
			if err := e.LoadPolicy(); err != nil {
				c.Failf("load: %v", err)
			}
			c.Count("loads")
		case k < 95:
			_ = e.Flush()
			_ = e.SavePolicy()
			what = "flush and save"
		case k < 97 && len(pols) > 0:
			for _, d := range setDefs {
				if x := pols[d.key]; x != nil {
					if err := m.ClearPolicy(d.key); err != nil {
						c.Failf("%v", err)
					}
					st.Clear(d.key)
					x.want = append(x.want, "cleared")
					for _, o := range obs { // whether clearing is announced by the model is not specified
						o.want = append([]string{}, o.got...)
					}
					what = "clear " + d.key
					c.Count("cleared")
					break
				}
			}
		}
		c.Logf("%s", what)
		compare(what)
	}
	if a, b := ruleSet(listRules(e)), ruleSet(st.All()); a != b {
		c.Failf("rules\n%s\nexpected\n%s", a, b)
	}
	c.CountN("events", events)
	c.Distinct(strings.Join(obs[0].got, "|"), len(obs))
	c.Sample("%d listeners, first received %s", len(obs), trim(strings.Join(obs[0].got, " "), 300))
}

// ---- C27 ----

type c27Store struct {
	rec  *recorder
	want int // operations expected so far
}

func runC27(c *C) {
	if c.Chance(35) {
		c27File(c)
		return
	}
	models := []*model.Model{newStoreModel(c), newStoreModel(c), newStoreModel(c)}
	sets := []*Store{newStore(), newStore(), newStore()}
	recs := []*recorder{newRecorder("a"), newRecorder("b"), newRecorder("c")}
	wants := make([][]string, len(recs))
	kind := c.Intn(3)
	cur, store := 0, 0
	auto := c.Chance(50)
	opts := []fastac.Option{}
	if auto || c.Chance(50) {
		opts = append(opts, fastac.OptionAutosave(auto))
	}
	var first interface{} = newAdapter(kind, recs[0])
	on := true
	switch c.Intn(5) {
	case 0:
		first, on, store = nil, false, -1
	case 1:
		opts = append(opts, fastac.OptionStorage(false))
		on = false
	case 2:
		opts = append(opts, fastac.OptionStorage(true))
	}
	var e *fastac.Enforcer
	var err error
	if c.Chance(20) { // options can be given as values or applied later
		e, err = fastac.NewEnforcer(models[0], first)
		for _, o := range opts {
			if err == nil {
				err = e.SetOption(o)
			}
		}
	} else {
		e, err = fastac.NewEnforcer(models[0], first, opts...)
	}
	if err != nil {
		c.Failf("%v", err)
	}
	if e.GetStorageController().Enabled() != on || e.GetStorageController().AutosaveEnabled() != auto {
		c.Failf("new enforcer: enabled=%v autosave=%v, expected %v %v", e.GetStorageController().Enabled(), e.GetStorageController().AutosaveEnabled(), on, auto)
	}
	c.Logf("adapter %v, storage %v, autosave %v", store, on, auto)
	pending := []string{}
	deliver := func() {
		if store >= 0 {
			wants[store] = append(wants[store], pending...)
		}
		pending = nil
	}
	check := func(what string) {
		c.Logf("%s", what)
		c.Eval()
		for i, r := range recs {
			if strings.Join(r.log, " ") != strings.Join(wants[i], " ") {
				c.Failf("%s: storage %s executed\n%s\nexpected\n%s", what, r.name, strings.Join(r.log, "\n"), strings.Join(wants[i], "\n"))
			}
		}
		for i, m := range models {
			x := [][]string{}
			m.RangeRules(func(r []string) bool { x = append(x, append([]string{}, r...)); return true })
			if ruleSet(x) != ruleSet(sets[i].All()) {
				c.Failf("%s: model %d holds\n%s\nexpected\n%s", what, i, ruleSet(x), ruleSet(sets[i].All()))
			}
		}
		sc := e.GetStorageController()
		if sc.Enabled() != on || sc.AutosaveEnabled() != auto {
			c.Failf("%s: storage enabled=%v autosave=%v, expected %v %v", what, sc.Enabled(), sc.AutosaveEnabled(), on, auto)
		}
	}
	check("created")
	// controllers that were replaced together with their adapter
	former := []*storage.StorageController{}
	replaced := func(old *storage.StorageController) {
		if e.GetStorageController() == old {
			return
		}
		former = append(former, old)
	}
	for i, n := 0, 20+c.Intn(25); i < n; i++ {
		switch k := c.Intn(100); {
		case k < 45:
			mi := cur
			via := c.Intn(3)
			if via == 2 {
				mi = c.Intn(3) // edit any of the models directly
			}
			st := sets[mi]
			add := c.Chance(65)
			rule := storeRule(c)
			if all := st.All(); len(all) > 0 && c.Chance(45) {
				rule = append([]string{}, all[c.Intn(len(all))]...)
			}
			var eff bool
			if add {
				eff = st.Add(rule)
			} else {
				eff = st.Remove(rule)
			}
			if eff && mi == cur && on {
				pending = append(pending, opText(add, rule))
				if auto {
					deliver()
				}
			}
			var ok bool
			var err error
			switch {
			case via == 2 && add:
				ok, err = models[mi].AddRule(rule)
			case via == 2:
				ok, err = models[mi].RemoveRule(rule)
			case add:
				ok, err = e.AddRule(rule)
			default:
				ok, err = e.RemoveRule(rule)
			}
			if ok != eff || err != nil {
				c.Failf("%s on model %d: %v %v, expected %v", opText(add, rule), mi, ok, err, eff)
			}
			check(fmt.Sprintf("%s on model %d", opText(add, rule), mi))
			c.Count(fmt.Sprintf("edits, storage=%v current=%v", on, mi == cur))
		case k < 52:
			rules := [][]string{}
			for j := c.Intn(4); j > 0; j-- {
				rules = append(rules, storeRule(c))
			}
			for _, r := range rules {
				if sets[cur].Add(r) && on {
					pending = append(pending, opText(true, r))
				}
			}
			if auto {
				deliver()
			}
			if err := e.AddRules(rules); err != nil {
				c.Failf("%v", err)
			}
			check("batch")
		case k < 60:
			deliver()
			if store >= 0 || on {
				if err := e.Flush(); err != nil {
					c.Failf("flush: %v", err)
				}
			}
			check("flush")
			if len(former) > 0 && c.Chance(50) {
				for _, sc := range former {
					if err := sc.Flush(); err != nil {
						c.Failf("flush of a replaced storage controller: %v", err)
					}
				}
				check("flush of replaced storage controllers")
				c.Count("replaced storage controllers flushed")
			}
		case k < 70: // also repeatedly
			for j := 1 + c.Intn(3); j > 0; j-- {
				on = c.Chance(50)
				if c.Chance(50) {
					if err := e.SetOption(fastac.OptionStorage(on)); err != nil {
						c.Failf("%v", err)
					}
				} else if on {
					e.GetStorageController().Enable()
				} else {
					e.GetStorageController().Disable()
				}
				check(fmt.Sprint("storage ", on))
			}
			c.Count("storage switched")
		case k < 76:
			auto = c.Chance(50)
			if err := e.SetOption(fastac.OptionAutosave(auto)); err != nil {
				c.Failf("%v", err)
			}
			check(fmt.Sprint("autosave ", auto))
		case k < 84: // another adapter
			deliver()
			_ = e.Flush()
			store = c.Intn(len(recs))
			a := newAdapter(c.Intn(3), recs[store])
			old := e.GetStorageController()
			e.SetAdapter(a)
			replaced(old)
			if e.GetAdapter() != a {
				c.Failf("GetAdapter does not return the adapter that was set")
			}
			// whether a disabled storage stays disabled is not specified
			on = e.GetStorageController().Enabled()
			check(fmt.Sprint("adapter ", store))
			c.Count("adapter exchanged")
		case k < 91: // another model
			deliver()
			_ = e.Flush()
			cur = c.Intn(len(models))
			old := e.GetStorageController()
			e.SetModel(models[cur])
			replaced(old)
			if e.GetModel() != models[cur] {
				c.Failf("GetModel does not return the model that was set")
			}
			check(fmt.Sprint("model ", cur))
			c.Count("model exchanged")
		case k < 95 && store >= 0:
			deliver()
			_ = e.Flush()
			for _, r := range recs[store].rules() {
				sets[cur].Add(r)
			}
			loads := recs[store].loads
			if err := e.LoadPolicy(); err != nil || recs[store].loads != loads+1 {
				c.Failf("load: %v", err)
			}
			check("load")
			c.Count("loads")
		case store >= 0:
			deliver()
			_ = e.Flush()
			if err := e.SavePolicy(); err != nil {
				c.Failf("save: %v", err)
			}
			if a, b := ruleSet(recs[store].rules()), ruleSet(sets[cur].All()); a != b {
				c.Failf("saved\n%s\nthe model holds\n%s", a, b)
			}
			check("save")
			c.Count("saves")
		}
	}
	c.Distinct(fmt.Sprint(wants))
	c.Sample("operations per storage %d %d %d", len(wants[0]), len(wants[1]), len(wants[2]))
}

// fileRules reads a policy file independently of the enforcer under test
func fileRules(c *C, path string) [][]string {
	rs := adapter.NewRuleSet()
	if err := adapter.NewFileAdapter(path).LoadPolicy(rs); err != nil {
		c.Failf("policy file: %v", err)
	}
	return rs.Rules()
}

// c27File uses an enforcer that was created with the path of a policy file.
var plainField = regexp.MustCompile(`^[A-Za-z0-9_./:*%-]+$`)

func c27File(c *C) {
	path := filepath.Join(c.Dir(), fmt.Sprintf("policy-%d.csv", c.Idx))
	defer os.Remove(path)
	st := newStore()
	text := ""
	for i := c.Intn(6); i > 0; i-- {
		r := storeRule(c)
		plain := true // what needs no quotes
		for _, v := range r {
			plain = plain && plainField.MatchString(v)
		}
		if !plain {
			continue
		}
		st.Add(r)
		text += strings.Join(r, ", ") + "\n"
	}
	if err := os.WriteFile(path, []byte(text), 0644); err != nil {
		panic(err)
	}
	if _, err := fastac.NewEnforcer(newStoreModel(c), path+".missing"); err == nil {
		c.Failf("an enforcer was created with a missing policy file")
	}
	auto := c.Chance(50)
	e, err := fastac.NewEnforcer(newStoreModel(c), path, fastac.OptionAutosave(auto))
	if err != nil {
		c.Failf("%v", err)
	}
	c.Eval()
	if a, b := ruleSet(listRules(e)), ruleSet(st.All()); a != b {
		c.Failf("loaded from the policy file:\n%s\nexpected\n%s", a, b)
	}
	stored := ruleSet(st.All())
	for i := 0; i < 8; i++ {
		add := c.Chance(65)
		rule := storeRule(c)
		if all := st.All(); len(all) > 0 && !add {
			rule = all[c.Intn(len(all))]
		}
		var eff, ok bool
		if add {
			eff = st.Add(rule)
			ok, err = e.AddRule(rule)
		} else {
			eff = st.Remove(rule)
			ok, err = e.RemoveRule(rule)
		}
		c.Logf("%s => %v %v", opText(add, rule), ok, err)
		if ok != eff || err != nil {
			c.Failf("%s => %v %v, expected %v", opText(add, rule), ok, err, eff)
		}
		if auto && eff {
			stored = ruleSet(st.All())
		}
		if c.Chance(20) {
			if err := e.Flush(); err != nil {
				c.Failf("flush: %v", err)
			}
			stored = ruleSet(st.All())
		}
		c.Eval()
		if got := ruleSet(fileRules(c, path)); got != stored {
			c.Failf("the policy file contains\n%s\nexpected\n%s", got, stored)
		}
	}
	if err := e.Flush(); err != nil {
		c.Failf("flush: %v", err)
	}
	if c.Chance(40) {
		if err := e.SavePolicy(); err != nil {
			c.Failf("save: %v", err)
		}
	}
	f, err := fastac.NewEnforcer(newStoreModel(c), path)
	if err != nil {
		c.Failf("%v", err)
	}
	if a, b := ruleSet(listRules(f)), ruleSet(st.All()); a != b {
		c.Failf("a second enforcer loaded\n%s\nexpected\n%s", a, b)
	}
	if err := e.LoadPolicy(); err != nil {
		c.Failf("load: %v", err)
	}
	if a, b := ruleSet(fileRules(c, path)), ruleSet(st.All()); a != b {
		c.Failf("after loading the policy file contains\n%s\nexpected\n%s", a, b)
	}
	c.Count("enforcers with a policy file")
	c.Distinct(ruleSet(st.All()), auto)
}

// ---- C29 ----

func runC29(c *C) {
	if c.rare(200) {
		scaleC29(c)
		return
	}
	sep := ""
	glue := c.Chance(30)
	if glue {
		sep = c.Pick(commonSeparators)
		c.words = append(glueNames(sep), "a")
	}
	kind := c.Intn(3)
	auto := c.Chance(55)
	a := newStoreSim(c, kind, auto) // batches
	b := newStoreSim(c, kind, auto) // one by one
	kept := c.Intn(4)
	for i := 0; i < kept; i++ {
		r := storeRule(c)
		a.st.Add(r)
		if _, err := a.e.AddRule(r); err != nil {
			c.Failf("%v", err)
		}
		if _, err := b.e.AddRule(r); err != nil {
			c.Failf("%v", err)
		}
	}
	toggled := false
	for i, n := 0, 4+c.Intn(6); i < n; i++ {
		add := c.Chance(60)
		rules := [][]string{}
		for j := c.Intn(8); j > 0; j-- {
			r := a.pick(add)
			rules = append(rules, r)
			if c.Chance(15) {
				rules = append(rules, append([]string{}, r...)) // duplicate
			}
			if glue && len(r) > 2 && c.Chance(40) {
				rules = append(rules, shiftSep(c, append([]string{}, r...), sep))
				c.Count("rules that join to the same text as another one")
			}
		}
		invalid := -1
		if len(rules) > 0 && c.Chance(30) {
			invalid = c.Intn(len(rules))
			rules[invalid] = invalidRule(c)
		}
		given := fmt.Sprintf("%q", rules)
		var err1, err2 error
		if add {
			err1 = a.e.AddRules(rules)
		} else {
			err1 = a.e.RemoveRules(rules)
		}
		if s := fmt.Sprintf("%q", rules); s != given {
			c.Failf("the batch changed the rules of the caller from %s to %s", given, s)
		}
		for _, r := range rules {
			if add {
				_, err2 = b.e.AddRule(r)
			} else {
				_, err2 = b.e.RemoveRule(r)
			}
			if err2 != nil {
				break
			}
			if add {
				a.st.Add(r)
			} else {
				a.st.Remove(r)
			}
		}
		c.Logf("batch add=%v %s => %v, one by one => %v", add, given, err1, err2)
		c.Eval()
		if (err1 == nil) != (err2 == nil) || (invalid >= 0) != (err1 != nil) {
			c.Failf("batch add=%v %s returned %v, one by one %v", add, given, err1, err2)
		}
		if err1 != nil && err1.Error() != err2.Error() {
			c.Failf("batch add=%v %s returned the error %v, one by one %v", add, given, err1, err2)
		}
		c.Count(fmt.Sprintf("batches add=%v, invalid element=%v, autosave=%v", add, invalid >= 0, a.auto))
		for _, s := range []*storeSim{a, b} {
			if s.e.GetStorageController().AutosaveEnabled() != a.auto {
				c.Failf("batch add=%v %s: autosave is %v, configured %v", add, given, s.e.GetStorageController().AutosaveEnabled(), a.auto)
			}
		}
		if x, y, z := ruleSet(listRules(a.e)), ruleSet(listRules(b.e)), ruleSet(a.st.All()); x != y || x != z {
			c.Failf("batch add=%v %s: rules\n%s\none by one\n%s\nexpected\n%s", add, given, x, y, z)
		}
		if x, y := strings.Join(a.events, "\n"), strings.Join(b.events, "\n"); x != y {
			c.Failf("batch add=%v %s: events\n%s\none by one\n%s", add, given, x, y)
		}
		if a.auto { // nothing is pending
			if x, y := strings.Join(a.rec.log, "\n"), strings.Join(b.rec.log, "\n"); x != y && !toggled {
				c.Failf("batch add=%v %s: the storage executed\n%s\none by one\n%s", add, given, x, y)
			}
		} else if len(a.rec.log) != len(b.rec.log) && !toggled {
			c.Failf("batch add=%v %s without autosave: the storage executed %d operations, one by one %d", add, given, len(a.rec.log), len(b.rec.log))
		}
		for j := 0; j < 3; j++ {
			req := []interface{}{c.Pick(wordsOf(c)), c.Pick(wordsOf(c)), c.Pick(wordsOf(c))}
			if all := a.st.Rules("p"); len(all) > 0 && c.Chance(70) {
				r := all[c.Intn(len(all))]
				req = []interface{}{r[1], r[2], r[3]}
			}
			x, err1 := a.e.Enforce(req...)
			y, err2 := b.e.Enforce(req...)
			x2, _ := a.e.Enforce(append(req, fastac.SetMatcher("m2"))...)
			y2, _ := b.e.Enforce(append(req, fastac.SetMatcher("m2"))...)
			c.Eval()
			if x != y || x2 != y2 || err1 != nil || err2 != nil {
				c.Failf("request (%s): %v %v %v after batches, %v %v %v one by one", showReq(req), x, x2, err1, y, y2, err2)
			}
		}
		if c.Chance(25) {
			if err := a.e.Flush(); err != nil {
				c.Failf("%v", err)
			}
			if err := b.e.Flush(); err != nil {
				c.Failf("%v", err)
			}
			if x, y := strings.Join(a.rec.log, "\n"), strings.Join(b.rec.log, "\n"); x != y {
				c.Failf("after a flush the storage executed\n%s\none by one\n%s", x, y)
			}
			toggled = false
		}
		if c.Chance(15) {
			on := c.Chance(50)
			a.setAuto(on)
			b.setAuto(on)
			toggled = true // operations that were pending leave with the next effective edit or batch
		}
		c.Distinct(kind, a.auto, given, ruleSet(listRules(a.e)))
	}
	if err := a.e.Flush(); err != nil {
		c.Failf("%v", err)
	}
	if err := b.e.Flush(); err != nil {
		c.Failf("%v", err)
	}
	c.Eval()
	if x, y := strings.Join(a.rec.log, "\n"), strings.Join(b.rec.log, "\n"); x != y {
		c.Failf("the storage executed\n%s\none by one\n%s", x, y)
	}
	if x, y := ruleSet(a.rec.rules()), ruleSet(a.st.All()); x != y {
		c.Failf("the storage contains\n%s\nthe model\n%s", x, y)
	}
	c.Sample("%s adapter, autosave %v, %d rules at the end", adapterKinds[kind], a.auto, a.st.Len())
}

func init() {
	register(&Check{ID: "C26", Level: "exploration", Quick: 10000, Full: 250000, Run: runC26,
		Rule:   "random histories of 20-45 effective and ineffective, valid and invalid single and batch edits (slices overwritten afterwards), loads, queries, clears; up to ten listeners added and removed in between; each event is compared with the log of effective edits, and inside the listener the rule must be listed, linked and decisive already. Events of single policies are compared as well. Non-trivial: distinct event histories.",
		Assume: []string{"the order in which loaded rules are announced is not determined", "whether clearing a policy is announced by the model is not specified"}})
	register(&Check{ID: "C27", Level: "exploration", Quick: 8000, Full: 200000, Run: runC27,
		Rule:   "random histories over three models and three storages: edits through the enforcer and directly on current and former models, batches, flushes, repeated switching of storage and autosave, exchange of adapter and model, loads and saves; after each step the operations received by every storage are compared with the reference. 35% use an enforcer created with the path of a policy file. Non-trivial: distinct operation logs.",
		Assume: []string{"operations are flushed before adapter or model are exchanged", "whether setting an adapter enables a disabled storage is not specified"}})
	register(&Check{ID: "C29", Level: "exploration", Quick: 9000, Full: 220000, Run: runC29,
		Rule: "twins receive the same random lists of rules (duplicates, present and absent rules, permission and grouping rules, 30% with an invalid element), one as a batch, the other one by one until the first error; errors, rules, decisions, events, storage operations and autosave setting compared. Non-trivial: distinct (adapter, batch, rules)."})
}
