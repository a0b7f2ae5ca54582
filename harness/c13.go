package main

import (
	"errors"
	"fmt"

	"strings"
)

func runC13(c *C) {
	kind := c.Idx % 3
	s := newStoreSim(c, kind, c.Chance(50))
	if c.Chance(30) { // rules that are stored already
		for i := 0; i < 4; i++ {
			r := storeRule(c)
			s.rec.contents[rkey(r)] = r
		}
		s.load()
		s.check("after the first load")
	}
	toggles := c.Chance(30)
	n := 25 + c.Intn(30)
	if c.Chance(2) { // a long queue
		auto := s.auto
		s.setAuto(false)
		words := append([]string{}, wordsOf(c)...)
		added := [][]string{}
		for i, n := 0, []int{60, 130, 260, 520, 1100}[c.Intn(5)]; i < n; i++ {
			c.words = []string{fmt.Sprint("n", c.Intn(n)), words[c.Intn(len(words))], fmt.Sprint("m", c.Intn(n))}
			if len(added) > 0 && c.Chance(25) {
				s.edit(false, added[c.Intn(len(added))])
				continue
			}
			added = append(added, storeRule(c))
			s.edit(true, added[len(added)-1])
		}
		c.words = words
		c.Count("long queues")
		s.setAuto(auto)
	}
	for i := 0; i < n; i++ {
		switch k := c.Intn(100); {
		case k < 35:
			s.edit(true, s.pick(true))
		case k < 60:
			s.edit(false, s.pick(false))
		case k < 68:
			rules := [][]string{}
			add := c.Chance(50)
			for j := c.Intn(6); j > 0; j-- {
				rules = append(rules, s.pick(add))
			}
			s.editMany(add, rules)
		case k < 76:
			s.flush()
		case k < 80:
			before := s.rec.calls
			s.flush()
			calls := s.rec.calls
			s.flush()
			if s.rec.calls != calls {
				c.Failf("flushing again sent %d calls", s.rec.calls-calls)
			}
			_ = before
			c.Count("flushed twice")
		case k < 85:
			s.setAuto(c.Chance(50))
		case k < 88:
			if len(s.pending) > 0 {
				s.flush()
			}
			calls := s.rec.calls
			s.load()
			if s.rec.calls != calls {
				c.Failf("loading sent operations to the storage")
			}
		case k < 91:
			calls := s.rec.calls
			s.save()
			if s.rec.calls != calls {
				c.Failf("saving sent operations to the storage")
			}
		case k < 92 && s.on:
			s.addWait(c.Intn(6))
		case k < 94:
			bad := invalidRule(c)
			var err error
			var ok bool
			if c.Chance(50) {
				ok, err = s.e.AddRule(bad)
			} else {
				ok, err = s.e.RemoveRule(bad)
			}
			c.Logf("invalid %q => %v %v", bad, ok, err)
			if err == nil || ok {
				c.Failf("invalid rule %q: %v %v", bad, ok, err)
			}
			c.Count("invalid edits")
		case k < 97 && toggles:
			s.setOn(c.Chance(60))
		default:
			_, _ = s.e.Enforce("a", "b", "c")
			_, _ = s.e.Filter("a", "b", "c")
		}
		s.check(fmt.Sprint("step ", i))
	}
	s.flush()
	s.check("after the last flush")
	s.checkRules("at the end")
	c.Distinct(kind, strings.Join(s.rec.batches, "|"))
	c.CountN("operations received by the storage", len(s.rec.log))
	c.CountN("calls received by the storage", len(s.rec.batches))
	c.Sample("%s adapter received %s", adapterKinds[kind], trim(strings.Join(s.rec.batches, " | "), 400))
}

// runC14 injects failures: the reference is the sequence of effective edits;
// what the storage executed must always be a prefix of it.
func runC14(c *C) {
	kind := c.Idx % 3
	s := newStoreSim(c, kind, c.Chance(60))
	ops := []string{} // effective edits in order
	mode := c.Intn(4)
	down := false
	k := 1 + c.Intn(12)
	run := 1 + c.Intn(3)
	s.rec.fail = func(call int, rules [][]string) bool {
		switch mode {
		case 0: // a window of failures
			return call >= k && call < k+run
		case 1: // every now and then
			return call%(k+1) == 0
		case 2: // failures for a while, switched below
			return down
		}
		for _, r := range rules { // a rule the storage rejects for some time
			if r[1] == "a" && call < 6*k {
				return true
			}
		}
		return false
	}
	executed := func(when string) {
		c.Eval()
		if len(s.rec.log) > len(ops) {
			c.Failf("%s: the storage executed\n%s\nbut only these edits were made\n%s", when, strings.Join(s.rec.log, "\n"), strings.Join(ops, "\n"))
		}
		for i, o := range s.rec.log {
			if ops[i] != o {
				c.Failf("%s: operation %d executed by the storage is %s, expected %s", when, i, o, ops[i])
			}
		}
	}
	do := func(add bool, rule []string) bool {
		var eff bool
		if add {
			eff = s.st.Add(rule)
		} else {
			eff = s.st.Remove(rule)
		}
		if eff {
			ops = append(ops, opText(add, rule))
		}
		return eff
	}
	// result compares the error that was returned with what happened in the storage
	result := func(what string, err error, failedBefore int, mustDeliver bool) {
		failed := s.rec.failed > failedBefore
		c.Logf("%s => %v (failed calls: %d)", what, err, s.rec.failed-failedBefore)
		c.Eval()
		if failed {
			c.Count("storage failures, " + strings.Fields(what)[0])
			if err == nil {
				c.Failf("%s: the storage failed, but no error was returned", what)
			}
			if !errors.Is(err, errInjected) {
				c.Failf("%s: the storage failed, but the error is %v", what, err)
			}
		} else if err != nil {
			c.Failf("%s: error %v, the storage did not fail", what, err)
		} else if mustDeliver && len(s.rec.log) != len(ops) {
			c.Failf("%s: succeeded, but the storage executed\n%s\nexpected\n%s", what, strings.Join(s.rec.log, "\n"), strings.Join(ops, "\n"))
		}
		executed(what)
	}
	n := 15 + c.Intn(25)
	for i := 0; i < n; i++ {
		if mode == 2 && c.Chance(20) {
			down = !down
			c.Logf("storage down: %v", down)
		}
		failed := s.rec.failed
		switch x := c.Intn(100); {
		case x < 62:
			add := c.Chance(60)
			s.pending = nil
			rule := s.pick(add)
			eff := do(add, rule)
			var ok bool
			var err error
			direct := c.Chance(12)
			var target interface {
				AddRule([]string) (bool, error)
				RemoveRule([]string) (bool, error)
			} = s.e
			if direct {
				target = s.m
			}
			if add {
				ok, err = target.AddRule(append([]string{}, rule...))
			} else {
				ok, err = target.RemoveRule(append([]string{}, rule...))
			}
			if ok != eff {
				c.Failf("%s returned %v %v, expected %v", opText(add, rule), ok, err, eff)
			}
			if direct {
				if err != nil {
					c.Failf("editing the model directly: %v", err)
				}
				err = s.e.GetStorageController().AutosaveError()
			}
			result(fmt.Sprintf("edit %s", opText(add, rule)), err, failed, s.auto && eff)
		case x < 76:
			add := c.Chance(60)
			rules := [][]string{}
			for j := 1 + c.Intn(5); j > 0; j-- {
				r := s.pick(add)
				rules = append(rules, r)
				do(add, r)
			}
			var err error
			if add {
				err = s.e.AddRules(rules)
			} else {
				err = s.e.RemoveRules(rules)
			}
			result(fmt.Sprintf("batch add=%v %q", add, rules), err, failed, s.auto)
		case x < 90:
			result("flush", s.e.Flush(), failed, true)
		case x < 94:
			s.setAuto(c.Chance(60))
		case x < 97: // loading fails half way
			if len(s.rec.log) != len(ops) {
				continue
			}
			s.rec.loadFail = c.Intn(len(s.rec.contents) + 1)
			err := s.e.LoadPolicy()
			s.rec.loadFail = -1
			c.Logf("load => %v", err)
			c.Count("storage failures, load")
			if !errors.Is(err, errInjected) {
				c.Failf("loading failed, but returned %v", err)
			}
		default:
			s.rec.saveFail = true
			err := s.e.SavePolicy()
			s.rec.saveFail = false
			c.Logf("save => %v", err)
			c.Count("storage failures, save")
			if !errors.Is(err, errInjected) {
				c.Failf("saving failed, but returned %v", err)
			}
		}
		if s.e.GetStorageController().AutosaveEnabled() != s.auto || !s.e.GetStorageController().Enabled() {
			c.Failf("the storage settings changed to autosave=%v enabled=%v", s.e.GetStorageController().AutosaveEnabled(), s.e.GetStorageController().Enabled())
		}
		if c.Chance(25) {
			s.checkRules("after failures")
		}
	}
	s.checkRules("after failures")
	// the storage works again
	s.rec.fail = nil
	failed := s.rec.failed
	if s.auto && c.Chance(40) {
		r := storeRule(c)
		add := !s.st.Has(r)
		do(add, r)
		var err error
		if add {
			_, err = s.e.AddRule(r)
		} else {
			_, err = s.e.RemoveRule(r)
		}
		result("autosaved edit after recovery", err, failed, true)
		c.Count("recovered by an autosaved edit")
	} else {
		result("flush after recovery", s.e.Flush(), failed, true)
		c.Count("recovered by a flush")
	}
	calls := s.rec.calls
	if err := s.e.Flush(); err != nil || s.rec.calls != calls {
		c.Failf("flushing again: %v, %d calls", err, s.rec.calls-calls)
	}
	if a, b := ruleSet(s.rec.rules()), ruleSet(s.st.All()); a != b {
		c.Failf("the storage contains\n%s\nthe model\n%s", a, b)
	}
	s.checkRules("at the end")
	c.Distinct(kind, mode, k, run, strings.Join(ops, "|"))
	c.CountN("failed storage calls", s.rec.failed)
	c.CountN("operations delivered", len(s.rec.log))
	c.Count(fmt.Sprintf("failure mode %d", mode))
	c.Sample("%s adapter, %d edits, %d failed calls", adapterKinds[kind], len(ops), s.rec.failed)
}

func init() {
	register(&Check{ID: "C13", Level: "exploration", Quick: 12000, Full: 300000, Run: runC13,
		Rule:   "random histories of 25-55 edits (through enforcer and model), batch edits, flushes, loads, saves, invalid edits, autosave and storage switches with adapters that store rules one by one, in batches or offer both; after each step the operations the adapter executed are compared with the log of effective edits, its contents with the rules. Non-trivial: distinct (adapter, received calls).",
		Assume: []string{"rules are loaded when no operations are pending", "ClearPolicy is not a rule edit and is not stored"}})
	register(&Check{ID: "C14", Level: "fault_enumeration", Quick: 24000, Full: 300000, Run: runC14,
		Rule:   "random histories of edits, batch edits, flushes, loads, saves and autosave switches with adapters whose calls fail at chosen positions, periodically, during outages or for particular rules; after each step the executed operations must be a prefix of the effective edits, errors must be reported exactly if a call failed, the rules must be those of the edits, and after recovery everything must have been delivered once. Non-trivial: distinct (adapter, failure plan, edits).",
		Assume: []string{"a failed adapter call has no effect (batches are atomic)"}})
}
