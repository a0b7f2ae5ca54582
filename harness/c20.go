package main

import (
	"fmt"
	"io"
	"regexp"
	"strings"
	"sync"

	"github.com/abichinger/fastac"
	flog "github.com/abichinger/fastac/log"
	"github.com/sirupsen/logrus"
)

// auditHook collects what is logged.
type auditHook struct {
	mu sync.Mutex
	e  []string
}

func (h *auditHook) Levels() []logrus.Level { return logrus.AllLevels }

func (h *auditHook) Fire(e *logrus.Entry) error {
	text := e.Message
	for k, v := range e.Data {
		if k == "duration" || k == "app" {
			continue
		}
		text += fmt.Sprintf(" {%s: %v}", k, v)
	}
	h.mu.Lock()
	h.e = append(h.e, text)
	h.mu.Unlock()
	return nil
}

func (h *auditHook) take() []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	e := h.e
	h.e = nil
	return e
}

var reAllow = regexp.MustCompile(`(?i)\b(allow|allowed|true|granted?|permit(ted)?)\b`)
var reDeny = regexp.MustCompile(`(?i)\b(deny|denied|false|refused?|forbid(den)?)\b`)

// auditRest checks that an entry names the values and returns the remaining text.
func auditRest(entry string, vals []interface{}) (rest string, missing string) {
	whole := fmt.Sprint(vals)
	if i := strings.Index(entry, whole); i >= 0 {
		return entry[:i] + " " + entry[i+len(whole):], ""
	}
	rest = entry
	for _, v := range vals {
		s := fmt.Sprint(v)
		if i := strings.Index(rest, s); i >= 0 {
			rest = rest[:i] + " " + rest[i+len(s):]
		} else {
			return rest, s
		}
	}
	return rest, ""
}

func auditCheck(c *C, entries []string, vals []interface{}, dec bool, err error, what string) {
	if err != nil {
		for _, e := range entries {
			rest, _ := auditRest(e, vals)
			if reAllow.MatchString(rest) || reDeny.MatchString(rest) {
				c.Failf("%s failed with %q but is logged as %q", what, err, e)
			}
		}
		c.Count("failed requests without an entry")
		c.Eval()
		return
	}
	if len(entries) != 1 {
		c.Failf("%s was decided (%v), expected one entry but got %d: %q", what, dec, len(entries), entries)
	}
	rest, missing := auditRest(entries[0], vals)
	if missing != "" {
		c.Failf("%s was decided (%v), its entry %q does not name the value %q", what, dec, entries[0], missing)
	}
	al, de := reAllow.MatchString(rest), reDeny.MatchString(rest)
	if al == de || al != dec {
		c.Failf("%s was decided: %v, but its entry says %q", what, dec, entries[0])
	}
	c.Eval()
	c.Count(fmt.Sprintf("entries with decision %v", dec))
	c.Sample("%s -> %v, logged as %q", what, dec, entries[0])
}

type verboseValue struct{ S string }

func (v verboseValue) String() string { return "<" + v.S + ">" }

func runC20(c *C) {
	hook := &auditHook{}
	defer flog.SetLogger(flog.NullLogger())
	s := genScen(c, scenOpts{weird: 25})
	e := s.newEnforcer(c)
	silent := s.newEnforcer(c)
	st := newStore()
	edit := func() {
		r := s.genRule(c)
		if len(s.Gs) > 0 && c.Chance(30) {
			r = s.genLink(c)
		}
		if c.Chance(75) {
			st.Add(r)
			mustEdit(c, e.AddRule, r)
			mustEdit(c, silent.AddRule, r)
		} else {
			st.Remove(r)
			mustEdit(c, e.RemoveRule, r)
			mustEdit(c, silent.RemoveRule, r)
		}
	}
	newLogger := func() *logrus.Logger {
		l := logrus.New()
		l.SetOutput(io.Discard)
		l.AddHook(hook)
		if c.Chance(40) {
			l.SetLevel(logrus.InfoLevel)
		} else if c.Chance(50) {
			l.SetLevel(logrus.TraceLevel)
		}
		return l
	}
	set := func() {
		if c.Chance(30) {
			flog.SetLogger(newLogger().WithField("app", "test"))
		} else {
			flog.SetLogger(newLogger())
		}
	}
	set()
	for i := 0; i < 4+c.Intn(8); i++ {
		edit()
	}
	c.Logf("%s", s.Text())
	concurrent := c.Chance(35)
	off := false
	for i := 0; i < 14; i++ {
		if c.Chance(25) {
			edit()
		}
		if c.Chance(8) {
			flog.SetLogger(nil) // back to no logging
			off = true
		} else if c.Chance(12) || (off && c.Chance(50)) {
			set()
			off = false
		}
		vals := s.genRequest(c)
		odd := ""
		switch {
		case c.Chance(8):
			vals = vals[:c.Intn(len(vals))]
			odd = "too few values"
		case c.Chance(6):
			vals = append(vals, c.Pick([]string{"surplus", "=> allow", "deny"}))
			odd = "surplus value"
		case c.Chance(8):
			vals[c.Intn(len(vals))] = []interface{}{nil, 17, verboseValue{"v"}, []string{"a"}, struct{}{}, func() {}}[c.Intn(6)]
			odd = "value of another type"
		}
		if c.Chance(10) {
			vals[0:1:1][0] = nil
		}
		for j := range vals { // values that look like a decision
			if _, ok := vals[j].(string); ok && c.Chance(4) {
				vals[j] = c.Pick([]string{"x => allow", "deny", "[a] => deny", "%s %d %v", "a\n=> allow", "true", "%!v(MISSING)"})
			}
		}
		params := append([]interface{}{}, vals...)
		switch c.Intn(8) {
		case 0:
			params = insertAt(c, params, fastac.SetMatcher(s.MText))
		case 1:
			params = insertAt(c, params, fastac.SetEffector(effects[c.Intn(3)]))
		case 2:
			params = insertAt(c, params, fastac.SetMatcher(c.Pick([]string{"p.sub ==", "true && unknownFn(p.x)", "r.nothing == \"a\"", "true", "false"})))
		case 3:
			params = insertAt(c, params, fastac.SetRequestDef("r9"))
		}
		what := fmt.Sprintf("request %d %q (%s)", i, fmt.Sprint(vals), odd)
		hook.take()
		var dec bool
		var err error
		if c.Chance(25) && len(params) == len(vals) {
			ctx, cerr := fastac.NewContext(e.GetModel())
			if cerr != nil {
				c.Failf("%v", cerr)
			}
			dec, err = e.EnforceWithContext(ctx, vals...)
			ctx.Close()
			c.Count("requests with a context")
		} else {
			dec, err = e.Enforce(params...)
		}
		entries := hook.take()
		if off {
			if len(entries) > 0 {
				c.Failf("entries after the logger was reset: %q", entries)
			}
		} else {
			auditCheck(c, entries, vals, dec, err, what)
			c.Distinct(s.MText, what, dec, err != nil)
		}
		// without a logger
		flog.SetLogger(flog.NullLogger())
		d2, err2 := silent.Enforce(params...)
		// with several rules, whether an error or a decision comes first depends on their order
		if (err == nil) == (err2 == nil) && d2 != dec {
			c.Failf("%s: with logger %v %v, without %v %v", what, dec, err, d2, err2)
		}
		c.Count("decisions compared with those of a silent twin")
		if off {
			flog.SetLogger(nil)
		} else {
			set()
		}
		// queries are not decisions
		hook.take()
		_, _ = e.Filter(vals...)
		_ = e.RangeMatches(vals, func([]string) bool { return c.Chance(50) })
		for _, en := range hook.take() {
			rest, _ := auditRest(en, vals)
			if reAllow.MatchString(rest) || reDeny.MatchString(rest) {
				c.Failf("filtering with %q logged a decision: %q", fmt.Sprint(vals), en)
			}
		}
	}
	if concurrent {
		auditConcurrent(c, hook, newLogger())
	}
}

func mustEdit(c *C, f func([]string) (bool, error), r []string) {
	if _, err := f(r); err != nil {
		c.Failf("edit %q: %v", r, err)
	}
}

func insertAt(c *C, s []interface{}, v interface{}) []interface{} {
	i := c.Intn(len(s) + 1)
	return append(s[:i:i], append([]interface{}{v}, s[i:]...)...)
}

// auditConcurrent: every decision of many goroutines has its own entry.
func auditConcurrent(c *C, hook *auditHook, l *logrus.Logger) {
	s := &Scen{RKey: "r", PKey: "p", RArgs: []string{"sub", "tag"}, RCats: []cat{cName, cName}, PArgs: []string{"sub"}, PCats: []cat{cName}, Eft: -1, MText: "r.sub == p.sub && r.tag != \"\""}
	e := s.newEnforcer(c)
	mustEdit(c, e.AddRule, []string{"p", "alice"})
	flog.SetLogger(l)
	hook.take()
	type want struct {
		dec bool
		err error
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	wants := map[string]want{}
	workers, per := 4, 15
	plan := make([][]string, workers)
	for w := range plan {
		for i := 0; i < per; i++ {
			plan[w] = append(plan[w], c.Pick([]string{"alice", "bob", "-"}))
		}
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < per; i++ {
				tag := fmt.Sprintf("tag%d#%d#", w, i)
				var ok bool
				var err error
				if plan[w][i] == "-" {
					ok, err = e.Enforce(fastac.SetMatcher("r.sub =="), plan[w][i], tag)
				} else {
					ok, err = e.Enforce(plan[w][i], tag)
				}
				mu.Lock()
				wants[tag] = want{ok, err}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	entries := hook.take()
	for w := range plan {
		for i := range plan[w] {
			tag := fmt.Sprintf("tag%d#%d#", w, i)
			mine := []string{}
			for _, en := range entries {
				if strings.Contains(en, tag) {
					mine = append(mine, en)
				}
			}
			auditCheck(c, mine, []interface{}{plan[w][i], tag}, wants[tag].dec, wants[tag].err, "concurrent request "+tag+" of "+plan[w][i])
			if (wants[tag].err == nil) != (plan[w][i] != "-") || wants[tag].dec != (plan[w][i] == "alice") {
				c.Failf("concurrent request %s of %s: %v", tag, plan[w][i], wants[tag])
			}
		}
	}
	c.Count("concurrent runs")
}

func init() {
	register(&Check{
		ID: "C20", Level: "exploration", Quick: 3000, Full: 60000,
		Rule:   "random models, rules and requests (also with options, contexts, wrong values, values that look like decisions) with a recording log hook: one entry per decided request with its values and the returned decision, none for failed requests and queries, same decisions as a twin without logger; non-trivial: distinct (matcher, request, outcome)",
		Run:    runC20,
		Assume: []string{"the logger is set while no request is running", "an entry states its decision with a word such as allow/deny outside of the request values"},
	})
}
