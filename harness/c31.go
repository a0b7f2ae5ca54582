package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/rbac"
)

// workExpr is a matcher, whose conditions count how often they are evaluated.
type workExpr struct {
	op   string   // "cond", "not", "tern", "and", "or"
	id   int      // number of the function of a condition, -1 stands for g
	args []string // arguments of a condition
	xs   []*workExpr
}

func (x *workExpr) text(outer string) string {
	switch x.op {
	case "cond":
		name := fmt.Sprintf("f%d", x.id)
		if x.id < 0 {
			name = "g"
		}
		return name + "(" + strings.Join(x.args, ", ") + ")"
	case "not":
		if x.xs[0].op == "cond" {
			return "!" + x.xs[0].text("not")
		}
		return "!(" + x.xs[0].text("") + ")"
	case "tern":
		parts := []string{}
		for _, y := range x.xs {
			t := y.text("")
			if y.op != "cond" && y.op != "tern" {
				t = "(" + t + ")"
			}
			parts = append(parts, t)
		}
		return "(" + parts[0] + " ? " + parts[1] + " : " + parts[2] + ")"
	}
	parts := []string{}
	for _, y := range x.xs {
		parts = append(parts, y.text(x.op))
	}
	sep := " && "
	if x.op == "or" {
		sep = " || "
	}
	t := strings.Join(parts, sep)
	if x.op == "or" && outer == "and" || outer == "or" && x.op == "and" && len(x.xs) == 2 {
		t = "(" + t + ")"
	}
	return t
}

// conds lists the conditions of an expression
func (x *workExpr) conds() []*workExpr {
	if x.op == "cond" {
		return []*workExpr{x}
	}
	res := []*workExpr{}
	for _, y := range x.xs {
		res = append(res, y.conds()...)
	}
	return res
}

// alternatives is the number of conjunctions to which the expression expands
func (x *workExpr) alternatives() int {
	switch x.op {
	case "and":
		n := 1
		for _, y := range x.xs {
			n *= y.alternatives()
		}
		return n
	case "or":
		n := 0
		for _, y := range x.xs {
			n += y.alternatives()
		}
		return n
	}
	return 1
}

type workWorld struct {
	fields []string
	g      *RoleRef
	truth  map[int]int // chance of a condition to hold
	salt   int64
	calls  map[int]int
}

func (w *workWorld) holds(id int, args []string) bool {
	if id < 0 {
		return w.g.Has(args[0], args[1])
	}
	h := fnv.New32a()
	fmt.Fprint(h, w.salt, id, fmt.Sprintf("%q", args))
	return int(h.Sum32()>>3)%100 < w.truth[id]
}

func (w *workWorld) args(x *workExpr, rule, req []string) []string {
	vals := []string{}
	for _, a := range x.args {
		i := 0
		for w.fields[i] != a[2:] {
			i++
		}
		if a[0] == 'p' {
			vals = append(vals, rule[i])
		} else {
			vals = append(vals, req[i])
		}
	}
	return vals
}

func (w *workWorld) eval(x *workExpr, rule, req []string) bool {
	switch x.op {
	case "cond":
		return w.holds(x.id, w.args(x, rule, req))
	case "not":
		return !w.eval(x.xs[0], rule, req)
	case "tern":
		if w.eval(x.xs[0], rule, req) {
			return w.eval(x.xs[1], rule, req)
		}
		return w.eval(x.xs[2], rule, req)
	case "and":
		for _, y := range x.xs {
			if !w.eval(y, rule, req) {
				return false
			}
		}
		return true
	}
	for _, y := range x.xs {
		if w.eval(y, rule, req) {
			return true
		}
	}
	return false
}

// bound adds up how often every condition is evaluated at most: the conditions of a conjunction
// are evaluated from left to right, once for all the rules that agree in the fields in use.
func (w *workWorld) bound(x *workExpr, rest []*workExpr, rules [][]string, req []string, calls map[int]int) {
	switch x.op {
	case "or":
		for _, y := range x.xs {
			w.bound(y, rest, rules, req, calls)
		}
		return
	case "and":
		w.bound(x.xs[0], append(append([]*workExpr{}, x.xs[1:]...), rest...), rules, req, calls)
		return
	}
	used := []string{}
	for _, cond := range x.conds() {
		for _, a := range cond.args {
			if a[0] == 'p' {
				used = append(used, a)
			}
		}
	}
	groups := map[string][][]string{}
	for _, rule := range rules {
		key := rule
		if len(rest) > 0 && len(used) > 0 {
			key = w.args(&workExpr{args: used}, rule, req)
		}
		groups[rkey(key)] = append(groups[rkey(key)], rule)
	}
	for _, group := range groups {
		for _, cond := range x.conds() {
			calls[cond.id]++
		}
		if len(rest) > 0 && w.eval(x, group[0], req) {
			w.bound(rest[0], rest[1:], group, req, calls)
		}
	}
}

// countedRM counts the questions of the function g
type countedRM struct {
	rbac.IRoleManager
	n *int
}

func (rm *countedRM) HasLink(a, b string, d ...string) (bool, error) {
	*rm.n++
	return rm.IRoleManager.HasLink(a, b, d...)
}

func genWork(c *C, w *workWorld, depth int, next *int) *workExpr {
	kind := c.Intn(10)
	if depth <= 0 {
		kind = 0
	}
	arg := func(side string) string { return side + "." + c.Pick(w.fields) }
	switch {
	case kind < 4:
		x := &workExpr{op: "cond", id: *next}
		*next++
		switch c.Intn(6) {
		case 0:
			x.args = []string{arg("r")}
		case 1:
			x.args = []string{arg("p")}
		case 2:
			x.args = []string{arg("p"), arg("p"), arg("r")}
		case 3:
			if w.g != nil {
				*next--
				x.id = -1
				x.args = []string{arg("r"), arg("p")}
				break
			}
			fallthrough
		default:
			x.args = []string{arg("r"), arg("p")}
		}
		return x
	case kind < 5 && c.Chance(40):
		x := &workExpr{op: "tern"}
		for i := 0; i < 3; i++ {
			x.xs = append(x.xs, genWork(c, w, depth-1-c.Intn(2), next))
		}
		c.Count("ternary conditions")
		return x
	case kind < 5:
		return &workExpr{op: "not", xs: []*workExpr{genWork(c, w, depth-1, next)}}
	case kind < 8:
		x := &workExpr{op: "and"}
		for i := 2 + c.Intn(3); i > 0; i-- {
			x.xs = append(x.xs, genWork(c, w, depth-1, next))
		}
		return x
	default:
		x := &workExpr{op: "or"}
		for i := 2 + c.Intn(2); i > 0; i-- {
			x.xs = append(x.xs, genWork(c, w, depth-1, next))
		}
		return x
	}
}

func runC31(c *C) {
	w := &workWorld{truth: map[int]int{}, salt: c.R.Int63(), calls: map[int]int{}}
	for i := 1 + c.Intn(4); i > 0; i-- {
		w.fields = append(w.fields, fmt.Sprintf("a%d", len(w.fields)))
	}
	if c.Chance(40) {
		w.g = &RoleRef{}
	}
	n := 0
	var x *workExpr
	for x == nil || x.alternatives() > 40 {
		n = 0
		x = &workExpr{op: "and"}
		for i := 2 + c.Intn(4); i > 0; i-- {
			x.xs = append(x.xs, genWork(c, w, 1+c.Intn(2), &n))
		}
		if c.Chance(15) {
			x = genWork(c, w, 3, &n)
		}
	}
	text := x.text("")
	other := &workExpr{op: "cond", id: n, args: []string{"r.a0", "p.a0"}} // a model that uses other matchers
	adhoc := c.Chance(30)
	def := text
	if adhoc {
		def = other.text("")
	}
	eff := c.Pick(effects[:3])
	conf := "[request_definition]\nr = " + strings.Join(w.fields, ", ") + "\n[policy_definition]\np = " + strings.Join(w.fields, ", ") +
		"\n[policy_effect]\ne = " + eff + "\n[matchers]\nm = " + def + "\n"
	if w.g != nil {
		conf += "[role_definition]\ng = _, _\n"
	}
	c.Logf("matcher %s (ad hoc: %v), effect %s", text, adhoc, eff)
	m := model.NewModel()
	for i := 0; i <= n; i++ {
		i := i
		w.truth[i] = 20 + c.Intn(80)
		m.SetFunction(fmt.Sprintf("f%d", i), func(args ...interface{}) (interface{}, error) {
			w.calls[i]++
			vals := []string{}
			for _, a := range args {
				vals = append(vals, a.(string))
			}
			return w.holds(i, vals), nil
		})
	}
	if err := m.LoadModelFromText(conf); err != nil {
		c.Failf("%s: %v", conf, err)
	}
	links := 0
	if w.g != nil {
		m.SetRoleManager("g", &countedRM{rbac.NewRoleManager(10), &links})
	}
	e, err := fastac.NewEnforcer(m, nil)
	if err != nil {
		c.Failf("%s: %v", conf, err)
	}
	sizes := []int{}
	for range w.fields {
		sizes = append(sizes, 1+c.Intn(7))
	}
	value := func(i int) string { return fmt.Sprintf("v%d", c.Intn(sizes[i])) }
	tuple := func() []string {
		t := []string{}
		for i := range w.fields {
			t = append(t, value(i))
		}
		return t
	}
	rules := map[string][]string{}
	list := func() [][]string {
		keys := []string{}
		for k := range rules {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		res := [][]string{}
		for _, k := range keys {
			res = append(res, rules[k])
		}
		return res
	}
	edit := func(rule []string, add bool) {
		row := append([]string{"p"}, rule...)
		op := e.RemoveRule
		if add {
			op = e.AddRule
		}
		if _, err := op(row); err != nil {
			c.Failf("editing %q: %v", row, err)
		}
		if add {
			rules[rkey(rule)] = rule
		} else {
			delete(rules, rkey(rule))
		}
	}
	for round := 0; round < 4; round++ {
		switch k := c.Intn(10); {
		case k < 1 && round > 0:
			for _, rule := range list() {
				edit(rule, false)
			}
		case k < 4:
			for _, rule := range list() {
				if c.Chance(60) {
					edit(rule, false)
				}
			}
		}
		for i := c.Intn(50); i > 0; i-- {
			edit(tuple(), true)
		}
		if w.g != nil {
			for i := c.Intn(3); i > 0; i-- {
				a, b := value(0), fmt.Sprintf("v%d", c.Intn(7))
				ok, err := e.AddRule([]string{"g", a, b})
				if err != nil || ok != w.g.Add(a, b) {
					c.Failf("link %s %s: %v %v", a, b, ok, err)
				}
			}
		}
		for ask := 0; ask < 3; ask++ {
			req := tuple()
			params := []interface{}{}
			for _, v := range req {
				params = append(params, v)
			}
			if adhoc {
				params = append(params, fastac.SetMatcher(text))
			}
			all := list()
			want := 0
			for _, rule := range all {
				if w.eval(x, rule, req) {
					want++
				}
			}
			bound := map[int]int{}
			if len(all) == 0 {
				empty := [][]string{make([]string, len(w.fields))}
				w.bound(x, nil, empty, req, bound)
			} else {
				w.bound(x, nil, all, req, bound)
			}
			w.calls, links = map[int]int{}, 0
			kind := c.Pick([]string{"Filter", "Enforce", "RangeMatches"})
			switch kind {
			case "Filter":
				got, err := e.Filter(params...)
				if err != nil || len(got) != want {
					c.Failf("request %q: %d rules, want %d (%v)", req, len(got), want, err)
				}
			case "Enforce":
				if _, err := e.Enforce(params...); err != nil {
					c.Failf("request %q: %v", req, err)
				}
			default:
				stop := c.Intn(3)
				seen := 0
				if err := e.RangeMatches(params, func([]string) bool { seen++; return seen <= stop }); err != nil {
					c.Failf("request %q: %v", req, err)
				}
			}
			if links > 0 {
				w.calls[-1] = links
			}
			tight := true
			for id := range w.calls {
				c.Eval()
				if w.calls[id] > bound[id] {
					cond := other
					for _, y := range x.conds() {
						if y.id == id {
							cond = y
						}
					}
					c.Failf("%s of %q with %d rules evaluates %s %d times, %d times are sufficient", kind, req, len(all), cond.text(""), w.calls[id], bound[id])
				}
				c.CountN("evaluated conditions", w.calls[id])
			}
			saved := false
			for id := range bound {
				tight = tight && w.calls[id] == bound[id]
				saved = saved || bound[id] < len(all)
			}
			if kind == "Filter" && tight {
				c.Count("bounds reached exactly")
			}
			if saved {
				c.Count("requests with fewer evaluations than rules")
				c.Distinct(text, rkey(req), len(all), kind)
			}
			c.Count(kind)
		}
	}
	c.Sample("matcher %s, %d rules at the end", text, len(rules))
}

func init() {
	register(&Check{
		ID: "C31", Level: "exploration", Quick: 4000, Full: 150000,
		Rule:   "random matchers of counting conditions (also g of a counting role manager, negations and nested alternatives), random rules with few or many distinct values, edits in between; no condition is evaluated more often than once per distinct combination of the policy fields which it and the conditions before it use; non-trivial: distinct (matcher, request, number of rules, operation) with a condition that is evaluated for fewer than all rules",
		Run:    runC31,
		Assume: []string{"conditions of a conjunction are evaluated from left to right", "at most 40 alternatives per matcher"},
	})
}
