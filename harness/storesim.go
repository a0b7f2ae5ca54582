package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/api"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/storage"
)

var errInjected = errors.New("injected storage failure")

// recorder is the storage behind the instrumented adapters.
type recorder struct {
	name     string
	log      []string // operations that were executed, in order
	batches  []string // the same operations as received
	contents map[string][]string
	calls    int
	fail     func(call int, rules [][]string) bool
	failed   int // failed calls
	loads    int
	saves    int
	loadFail int // rules that are loaded before loading fails, -1: never
	saveFail bool
	kept     [][]string // slices received, they belong to the storage
	keptAs   []string
	keptSets [][][]string // the same for batches
	keptSetA []string
}

func newRecorder(name string) *recorder {
	return &recorder{name: name, contents: map[string][]string{}, loadFail: -1}
}

func opText(add bool, rule []string) string {
	if add {
		return "+" + rkey(rule)
	}
	return "-" + rkey(rule)
}

func (r *recorder) apply(add bool, rules [][]string) error {
	r.calls++
	if r.fail != nil && r.fail(r.calls, rules) {
		r.failed++
		return fmt.Errorf("%s: %w", r.name, errInjected)
	}
	b := []string{}
	r.keptSets = append(r.keptSets, rules)
	r.keptSetA = append(r.keptSetA, fmt.Sprintf("%q", rules))
	for _, rule := range rules {
		r.kept = append(r.kept, rule)
		r.keptAs = append(r.keptAs, rkey(rule))
		b = append(b, opText(add, rule))
		if add {
			r.contents[rkey(rule)] = append([]string{}, rule...)
		} else {
			delete(r.contents, rkey(rule))
		}
	}
	r.log = append(r.log, b...)
	r.batches = append(r.batches, strings.Join(b, " "))
	return nil
}

func (r *recorder) rules() [][]string {
	res := [][]string{}
	for _, x := range r.contents {
		res = append(res, x)
	}
	return res
}

func (r *recorder) LoadPolicy(m api.IAddRuleBool) error {
	r.loads++
	rules := r.rules()
	sortRules(rules)
	for i, x := range rules {
		if i == r.loadFail {
			return fmt.Errorf("%s: %w", r.name, errInjected)
		}
		if _, err := m.AddRule(append([]string{}, x...)); err != nil {
			return err
		}
	}
	if r.loadFail >= len(rules) {
		return fmt.Errorf("%s: %w", r.name, errInjected)
	}
	return nil
}

func (r *recorder) SavePolicy(m api.IRangeRules) error {
	r.saves++
	if r.saveFail {
		return fmt.Errorf("%s: %w", r.name, errInjected)
	}
	r.contents = map[string][]string{}
	m.RangeRules(func(rule []string) bool {
		r.contents[rkey(rule)] = append([]string{}, rule...)
		return true
	})
	return nil
}

// simple stores rules one by one, batch in batches, both offers both ways
type simple struct{ *recorder }

func (a simple) AddRule(rule []string) error    { return a.apply(true, [][]string{rule}) }
func (a simple) RemoveRule(rule []string) error { return a.apply(false, [][]string{rule}) }

type batch struct{ *recorder }

func (a batch) AddRules(rules [][]string) error    { return a.apply(true, rules) }
func (a batch) RemoveRules(rules [][]string) error { return a.apply(false, rules) }

type both struct {
	simple
	batch
	*recorder
}

func newAdapter(kind int, r *recorder) storage.Adapter {
	switch kind % 3 {
	case 0:
		return simple{r}
	case 1:
		return batch{r}
	}
	return both{simple{r}, batch{r}, r}
}

var adapterKinds = []string{"simple", "batch", "both"}

// setDefs are the rule definitions of the models used with storages
var setDefs = []setDef{{"p", 3}, {"p2", 2}, {"g", 2}, {"g2", 3}}

func newStoreModel(c *C) *model.Model {
	m := model.NewModel()
	for _, d := range []struct {
		sec      byte
		key, val string
	}{
		{model.R_SEC, "r", "sub, obj, act"},
		{model.P_SEC, "p", "sub, obj, act"}, {model.P_SEC, "p2", "sub, obj"},
		{model.G_SEC, "g", "_, _"}, {model.G_SEC, "g2", "_, _, _"},
		{model.E_SEC, "e", effects[0]},
		{model.M_SEC, "m", "g(r.sub, p.sub) && r.obj == p.obj && r.act == p.act"},
		{model.M_SEC, "m2", "r.sub == p2.sub && g2(r.sub, p2.obj, r.obj)"},
	} {
		if err := m.SetDef(d.sec, d.key, d.val); err != nil {
			c.Failf("%v", err)
		}
	}
	if err := m.BuildMatchers(); err != nil {
		c.Failf("%v", err)
	}
	return m
}

var storeWords = []string{"a", "b", "c", "a,b", "", "x y"}

// wordsOf returns the vocabulary of a case
func wordsOf(c *C) []string {
	if c.words == nil {
		c.words = storeWords
		switch c.Intn(8) {
		case 0, 1:
			c.words = append([]string{"a"}, glueNames(c.Pick(commonSeparators))...)
			c.Count("vocabularies that join to the same texts")
		case 2:
			c.words = append([]string{"a"}, longNames(c)...)
			c.Count("vocabularies of long names")
		case 3:
			c.words = keyNames
		case 4:
			c.words = append([]string{"a"}, variants(c)...)
		}
	}
	return c.words
}

func storeRule(c *C) []string {
	d := setDefs[c.Intn(len(setDefs))]
	words := wordsOf(c)
	rule := []string{d.key}
	for i := 0; i < d.arity; i++ {
		rule = append(rule, words[c.Intn(2+c.Intn(len(words)-1))])
	}
	return rule
}

// invalidRule is rejected by the model
func invalidRule(c *C) []string {
	return [][]string{{}, {""}, {"p9", "a", "b", "c"}, {"x", "a"}, {"g", "a"}, {"g"}, {"r", "a", "b", "c"}, {"g2", "a"}, nil, {"g9", "a", "b"}, {"P", "a", "b", "c"}}[c.Intn(11)]
}

// storeSim drives an enforcer with a recording storage and the reference.
type storeSim struct {
	c       *C
	e       *fastac.Enforcer
	m       *model.Model
	rec     *recorder
	st      *Store   // rules of the model
	pending []pend   // operations not yet executed by the storage
	want    []string // operations the storage has to have executed
	auto    bool
	on      bool // storage enabled
	events  []string
	wantEv  []string
	wait    int  // effective edits until autosave delivers again
	synced  bool // the storage equals the model once everything is flushed
}

type pend struct {
	add  bool
	rule []string
}

func newStoreSim(c *C, kind int, auto bool) *storeSim {
	s := &storeSim{c: c, m: newStoreModel(c), rec: newRecorder("storage"), st: newStore(), auto: auto, on: true, synced: true}
	var opts []fastac.Option
	if auto || c.Chance(30) {
		opts = append(opts, fastac.OptionAutosave(auto))
	}
	e, err := fastac.NewEnforcer(s.m, newAdapter(kind, s.rec), opts...)
	if err != nil {
		c.Failf("%v", err)
	}
	s.e = e
	s.m.AddListener(model.RULE_ADDED, func(a ...interface{}) { s.events = append(s.events, opText(true, a[0].([]string))) })
	s.m.AddListener(model.RULE_REMOVED, func(a ...interface{}) { s.events = append(s.events, opText(false, a[0].([]string))) })
	c.Count("adapter " + adapterKinds[kind%3])
	return s
}

// note records an effective edit of the model
func (s *storeSim) note(add bool, rule []string) bool {
	var eff bool
	if add {
		eff = s.st.Add(rule)
	} else {
		eff = s.st.Remove(rule)
	}
	if eff {
		s.wantEv = append(s.wantEv, opText(add, rule))
		if s.on {
			s.pending = append(s.pending, pend{add, append([]string{}, rule...)})
		} else {
			s.synced = false
		}
	}
	return eff
}

// deliver moves the pending operations to the storage
func (s *storeSim) deliver() {
	s.wait = 0
	for _, p := range s.pending {
		s.want = append(s.want, opText(p.add, p.rule))
	}
	s.pending = nil
}

func (s *storeSim) pick(add bool) []string {
	c := s.c
	rule := storeRule(c)
	if all := s.st.All(); len(all) > 0 && (!add && c.Chance(80) || add && c.Chance(20)) {
		rule = all[c.Intn(len(all))]
	} else if len(s.pending) > 0 && c.Chance(40) {
		rule = s.pending[c.Intn(len(s.pending))].rule
	}
	return append([]string{}, rule...)
}

// edit runs a single edit that the storage must accept
func (s *storeSim) edit(add bool, rule []string) {
	c := s.c
	eff := s.note(add, rule)
	if eff && s.on && s.auto {
		if s.wait--; s.wait <= 0 {
			s.deliver()
		} else {
			c.Count("edits held back by AddWait")
		}
	}
	mine := append([]string{}, rule...)
	target := interface {
		AddRule([]string) (bool, error)
		RemoveRule([]string) (bool, error)
	}(s.e)
	if c.Chance(20) {
		target = s.m
	}
	var ok bool
	var err error
	if add {
		ok, err = target.AddRule(mine)
	} else {
		ok, err = target.RemoveRule(mine)
	}
	for i := range mine {
		mine[i] = "overwritten"
	}
	c.Logf("%s => %v %v", opText(add, rule), ok, err)
	if ok != eff || err != nil {
		c.Failf("%s returned %v %v, expected %v", opText(add, rule), ok, err, eff)
	}
	c.Count(fmt.Sprintf("edits, effective=%v", eff))
}

func (s *storeSim) editMany(add bool, rules [][]string) {
	c := s.c
	n := 0
	for _, r := range rules {
		if s.note(add, r) {
			n++
		}
	}
	if s.auto { // a batch edit flushes what is pending
		s.deliver()
	}
	mine := [][]string{}
	for _, r := range rules {
		mine = append(mine, append([]string{}, r...))
	}
	var err error
	if add {
		err = s.e.AddRules(mine)
	} else {
		err = s.e.RemoveRules(mine)
	}
	for _, r := range mine {
		for i := range r {
			r[i] = "overwritten"
		}
	}
	c.Logf("many add=%v %q => %v", add, rules, err)
	if err != nil {
		c.Failf("many add=%v %q: %v", add, rules, err)
	}
	c.Count("batch edits")
}

func (s *storeSim) flush() {
	s.deliver()
	var err error
	if s.c.Chance(50) {
		err = s.e.Flush()
	} else {
		err = s.e.GetStorageController().Flush()
	}
	s.c.Logf("flush => %v", err)
	if err != nil {
		s.c.Failf("flush: %v", err)
	}
	s.c.Count("flushes")
}

// addWait postpones autosave
func (s *storeSim) addWait(n int) {
	s.wait += n
	s.e.GetStorageController().AddWait(n)
	s.c.Logf("wait %d", n)
}

func (s *storeSim) setAuto(on bool) {
	s.auto = on
	var err error
	sc := s.e.GetStorageController()
	switch {
	case s.c.Chance(50):
		err = s.e.SetOption(fastac.OptionAutosave(on))
	case on:
		sc.EnableAutosave()
	default:
		sc.DisableAutosave()
	}
	if err != nil || sc.AutosaveEnabled() != on {
		s.c.Failf("set autosave %v: %v, AutosaveEnabled() = %v", on, err, sc.AutosaveEnabled())
	}
	s.c.Logf("autosave %v", on)
	s.c.Count("autosave switched")
}

func (s *storeSim) setOn(on bool) {
	s.on = on
	var err error
	sc := s.e.GetStorageController()
	switch {
	case s.c.Chance(50):
		err = s.e.SetOption(fastac.OptionStorage(on))
	case on:
		sc.Enable()
	default:
		sc.Disable()
	}
	if err != nil || sc.Enabled() != on {
		s.c.Failf("enable storage %v: %v, Enabled() = %v", on, err, sc.Enabled())
	}
	s.c.Logf("storage %v", on)
	s.c.Count("storage switched")
}

func (s *storeSim) load() {
	s.e.GetModel() // the model is not cleared
	for _, r := range s.rec.rules() {
		if s.st.Add(r) {
			s.wantEv = append(s.wantEv, "loaded "+rkey(r))
			if len(s.pending) > 0 {
				s.synced = false
			}
		}
	}
	err := s.e.LoadPolicy()
	s.c.Logf("load => %v", err)
	if err != nil {
		s.c.Failf("load: %v", err)
	}
	if s.e.GetStorageController().Enabled() != s.on || s.e.GetStorageController().AutosaveEnabled() != s.auto {
		s.c.Failf("loading changed the storage settings to enabled=%v autosave=%v", s.e.GetStorageController().Enabled(), s.e.GetStorageController().AutosaveEnabled())
	}
	s.c.Count("loads")
}

func (s *storeSim) save() {
	err := s.e.SavePolicy()
	s.c.Logf("save => %v", err)
	if err != nil {
		s.c.Failf("save: %v", err)
	}
	s.synced = s.synced || len(s.pending) == 0
	s.c.Eval()
	if a, b := ruleSet(s.rec.rules()), ruleSet(s.st.All()); a != b {
		s.c.Failf("saved rules:\n%s\nrules of the model:\n%s", a, b)
	}
	s.c.Count("saves")
}

// check compares what the storage received with what it had to receive
func (s *storeSim) check(when string) {
	c := s.c
	c.Eval()
	if a, b := strings.Join(s.rec.log, "\n"), strings.Join(s.want, "\n"); a != b {
		c.Failf("%s: the storage executed\n%s\nexpected\n%s", when, a, b)
	}
	if len(s.pending) == 0 && s.synced {
		if a, b := ruleSet(s.rec.rules()), ruleSet(s.st.All()); a != b {
			c.Failf("%s: the storage contains\n%s\nthe model\n%s", when, a, b)
		}
		c.Count("storage equals model")
	}
	for i, r := range s.rec.kept {
		if rkey(r) != s.rec.keptAs[i] {
			c.Failf("%s: a rule that was handed to the storage changed from %s to %q", when, s.rec.keptAs[i], r)
		}
	}
	for i, r := range s.rec.keptSets {
		if fmt.Sprintf("%q", r) != s.rec.keptSetA[i] {
			c.Failf("%s: a batch that was handed to the storage changed from %s to %q", when, s.rec.keptSetA[i], r)
		}
	}
}

func (s *storeSim) checkRules(when string) {
	s.c.Eval()
	if a, b := ruleSet(listRules(s.e)), ruleSet(s.st.All()); a != b {
		s.c.Failf("%s: rules of the model\n%s\nexpected\n%s", when, a, b)
	}
}

// checkEvents compares the events of the model (loads in any order)
func (s *storeSim) checkEvents(when string) {
	s.c.Eval()
	if len(s.events) != len(s.wantEv) {
		s.c.Failf("%s: events\n%s\nexpected\n%s", when, strings.Join(s.events, "\n"), strings.Join(s.wantEv, "\n"))
	}
	for i := 0; i < len(s.events); {
		j := i
		loaded := map[string]bool{}
		for ; j < len(s.wantEv) && strings.HasPrefix(s.wantEv[j], "loaded "); j++ {
			loaded["+"+strings.TrimPrefix(s.wantEv[j], "loaded ")] = true
		}
		if j == i {
			if s.events[i] != s.wantEv[i] {
				s.c.Failf("%s: event %d is %s, expected %s", when, i, s.events[i], s.wantEv[i])
			}
			i++
			continue
		}
		for ; i < j; i++ {
			if !loaded[s.events[i]] {
				s.c.Failf("%s: event %d is %s, expected a loaded rule", when, i, s.events[i])
			}
			delete(loaded, s.events[i])
		}
	}
}
