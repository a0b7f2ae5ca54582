package main

import (
	"fmt"
	"math"
	"net/netip"
	"path"
	"reflect"
	"regexp"
	"strings"
)

// ---- typed expressions: the harness' own representation of matchers ----

type kind int

const (
	kBool kind = iota
	kStr
	kNum
)

// Attr is a request attribute object.
type Attr struct {
	Name  string
	Dept  string
	Age   float64
	Level float64
	Admin bool
	Owner Person
}

type Person struct {
	Name string
	Age  float64
}

// Env is everything an expression may refer to.
type Env struct {
	RKey, PKey string
	RArgs      []string
	R          []interface{}
	PArgs      []string
	P          []string
	Has        func(g string, args []string) bool              // role lookup
	Inline     func(env *Env, cond string) bool                // eval()
	Fn         func(name string, args []string) (res, ok bool) // replaced functions
}

// Expr is a total expression (its evaluation never fails on well-typed input).
type Expr interface {
	Eval(env *Env) interface{}
	Render(st *style) string
	prec() int // 0 = atom
}

// style varies how an expression is written.
type style struct {
	pick func(n int) int
	// fixed key names used for arguments
}

const (
	precAtom = iota
	precPrefix
	precMul
	precAdd
	precCmp
	precAnd
	precOr
	precTer
)

func wrap(e Expr, st *style, max int) string {
	s := e.Render(st)
	if e.prec() > max {
		return "(" + s + ")"
	}
	if st.pick(12) == 0 {
		return "(" + s + ")"
	}
	return s
}

type strLit struct{ s string }

func (e strLit) Eval(*Env) interface{} { return e.s }
func (e strLit) prec() int             { return precAtom }
func (e strLit) Render(st *style) string {
	return quote(e.s, st.pick(2) == 0)
}

func quote(s string, single bool) string {
	q := `"`
	if single {
		q = `'`
	}
	var sb strings.Builder
	sb.WriteString(q)
	for _, r := range s {
		if r == '\'' || r == '"' || r == '\\' {
			sb.WriteByte('\\')
		}
		sb.WriteRune(r)
	}
	sb.WriteString(q)
	return sb.String()
}

type numLit struct{ f float64 }

func (e numLit) Eval(*Env) interface{} { return e.f }
func (e numLit) prec() int             { return precAtom }
func (e numLit) Render(*style) string {
	return strings.TrimSuffix(fmt.Sprintf("%g", e.f), ".0")
}

type boolLit struct{ b bool }

func (e boolLit) Eval(*Env) interface{} { return e.b }
func (e boolLit) prec() int             { return precAtom }
func (e boolLit) Render(*style) string  { return fmt.Sprint(e.b) }

func sep(st *style) string {
	if st.pick(3) == 0 {
		return "_"
	}
	return "."
}

type rArg struct {
	key, name string
	idx       int
}

func (e rArg) Eval(env *Env) interface{} { return norm(env.R[e.idx]) }
func (e rArg) prec() int                 { return precAtom }
func (e rArg) Render(st *style) string   { return e.key + sep(st) + e.name }

type pArg struct {
	key, name string
	idx       int
}

func (e pArg) Eval(env *Env) interface{} { return env.P[e.idx] }
func (e pArg) prec() int                 { return precAtom }
func (e pArg) Render(st *style) string   { return e.key + sep(st) + e.name }

// rField is r.obj.Field or r.obj.Owner.Field
type rField struct {
	arg  rArg
	path []string
}

func (e rField) Eval(env *Env) interface{} {
	v := reflect.ValueOf(env.R[e.arg.idx])
	for _, f := range e.path {
		if v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		v = v.FieldByName(f)
	}
	return norm(v.Interface())
}
func (e rField) prec() int { return precAtom }
func (e rField) Render(st *style) string {
	return e.arg.Render(st) + "." + strings.Join(e.path, ".")
}

// methods, which can be called by matchers
func (a Attr) Is(name string) bool             { return a.Name == name || a.Owner.Name == name }
func (a Attr) Between(x, y float64) bool       { return x <= a.Age && a.Age <= y }
func (a Attr) Label(sep string) string         { return a.Dept + sep + a.Name }
func (a Attr) Same(x, y string, all bool) bool { return x == y && (all || a.Admin) }

// methodExpr is r.obj.Method(args)
type methodExpr struct {
	arg  rArg
	name string
	args []Expr
}

func (e methodExpr) Eval(env *Env) interface{} {
	var a Attr
	switch x := env.R[e.arg.idx].(type) {
	case Attr:
		a = x
	case *Attr:
		a = *x
	}
	vals := []interface{}{}
	for _, x := range e.args {
		vals = append(vals, x.Eval(env))
	}
	switch e.name {
	case "Is":
		return a.Is(vals[0].(string))
	case "Between":
		return a.Between(vals[0].(float64), vals[1].(float64))
	case "Label":
		return a.Label(vals[0].(string))
	case "Same":
		return a.Same(vals[0].(string), vals[1].(string), vals[2].(bool))
	}
	panic("method " + e.name)
}
func (e methodExpr) prec() int { return precAtom }
func (e methodExpr) Render(st *style) string {
	args := []string{}
	for _, x := range e.args {
		args = append(args, wrap(x, st, precOr))
	}
	// govaluate applies whatever follows to the arguments of the method
	return "(" + e.arg.Render(st) + "." + e.name + "(" + strings.Join(args, ", ") + "))"
}

func norm(v interface{}) interface{} {
	switch n := v.(type) {
	case int:
		return float64(n)
	case int64:
		return float64(n)
	case uint8:
		return float64(n)
	case float32:
		return float64(n)
	}
	return v
}

type andExpr struct{ xs []Expr }
type orExpr struct{ xs []Expr }
type notExpr struct{ x Expr }

func (e andExpr) Eval(env *Env) interface{} {
	for _, x := range e.xs {
		if !x.Eval(env).(bool) {
			return false
		}
	}
	return true
}
func (e andExpr) prec() int { return precAnd }
func (e andExpr) Render(st *style) string {
	parts := []string{}
	for _, x := range e.xs {
		parts = append(parts, wrap(x, st, precCmp))
	}
	return strings.Join(parts, " && ")
}
func (e orExpr) Eval(env *Env) interface{} {
	for _, x := range e.xs {
		if x.Eval(env).(bool) {
			return true
		}
	}
	return false
}
func (e orExpr) prec() int { return precOr }
func (e orExpr) Render(st *style) string {
	parts := []string{}
	for _, x := range e.xs {
		parts = append(parts, wrap(x, st, precAnd))
	}
	return strings.Join(parts, " || ")
}
func (e notExpr) Eval(env *Env) interface{} { return !e.x.Eval(env).(bool) }
func (e notExpr) prec() int                 { return precPrefix }
func (e notExpr) Render(st *style) string {
	if e.x.prec() == precAtom {
		return "!" + e.x.Render(st)
	}
	return "!(" + e.x.Render(st) + ")"
}

type cmpExpr struct {
	op   string
	l, r Expr
}

func (e cmpExpr) Eval(env *Env) interface{} {
	l, r := e.l.Eval(env), e.r.Eval(env)
	switch e.op {
	case "==":
		return l == r
	case "!=":
		return l != r
	}
	if a, ok := l.(string); ok {
		b := r.(string)
		switch e.op {
		case "<":
			return a < b
		case "<=":
			return a <= b
		case ">":
			return a > b
		case ">=":
			return a >= b
		}
	}
	a, b := l.(float64), r.(float64)
	switch e.op {
	case "<":
		return a < b
	case "<=":
		return a <= b
	case ">":
		return a > b
	case ">=":
		return a >= b
	}
	panic("op " + e.op)
}
func (e cmpExpr) prec() int { return precCmp }
func (e cmpExpr) Render(st *style) string {
	return wrap(e.l, st, precAdd) + " " + e.op + " " + wrap(e.r, st, precAdd)
}

// reExpr is x =~ 'regexp'
type reExpr struct {
	x  Expr
	re string
	n  bool
}

func (e reExpr) Eval(env *Env) interface{} {
	return regexp.MustCompile(e.re).MatchString(e.x.Eval(env).(string)) != e.n
}
func (e reExpr) prec() int { return precCmp }
func (e reExpr) Render(st *style) string {
	op := "=~"
	if e.n {
		op = "!~"
	}
	return wrap(e.x, st, precAdd) + " " + op + " " + quote(e.re, st.pick(2) == 0)
}

type inExpr struct {
	x    Expr
	list []string
}

func (e inExpr) Eval(env *Env) interface{} {
	v := e.x.Eval(env)
	for _, s := range e.list {
		if v == interface{}(s) {
			return true
		}
	}
	return false
}
func (e inExpr) prec() int { return precCmp }
func (e inExpr) Render(st *style) string {
	qs := []string{}
	for _, s := range e.list {
		qs = append(qs, quote(s, st.pick(2) == 0))
	}
	return wrap(e.x, st, precAtom) + " in (" + strings.Join(qs, ", ") + ")"
}

type arithExpr struct {
	op   string
	l, r Expr
}

func (e arithExpr) Eval(env *Env) interface{} {
	l, r := e.l.Eval(env), e.r.Eval(env)
	if e.op == "+" {
		_, ls := l.(string)
		_, rs := r.(string)
		if ls || rs {
			return fmt.Sprintf("%v%v", l, r)
		}
	}
	a, b := l.(float64), r.(float64)
	switch e.op {
	case "+":
		return a + b
	case "-":
		return a - b
	case "*":
		return a * b
	case "/":
		return a / b
	case "%":
		return math.Mod(a, b)
	case "**":
		return math.Pow(a, b)
	case "&":
		return float64(int64(a) & int64(b))
	case "|":
		return float64(int64(a) | int64(b))
	case "^":
		return float64(int64(a) ^ int64(b))
	case "<<":
		return float64(uint64(a) << uint64(b))
	case ">>":
		return float64(uint64(a) >> uint64(b))
	}
	panic("op " + e.op)
}
func (e arithExpr) prec() int {
	if e.op == "+" || e.op == "-" {
		return precAdd
	}
	return precMul
}
func (e arithExpr) Render(st *style) string {
	// operands are atoms or bracketed, so that associativity does not matter
	return wrap(e.l, st, precAtom) + " " + e.op + " " + wrap(e.r, st, precAtom)
}

// signExpr is -x or ~x
type signExpr struct {
	op string
	x  Expr
}

func (e signExpr) Eval(env *Env) interface{} {
	x := e.x.Eval(env).(float64)
	if e.op == "~" {
		return float64(^int64(x))
	}
	return -x
}
func (e signExpr) prec() int { return precPrefix }
func (e signExpr) Render(st *style) string {
	return e.op + wrap(e.x, st, precAtom)
}

// inNumExpr is x in (1, 2, 3)
type inNumExpr struct {
	x    Expr
	list []float64
}

func (e inNumExpr) Eval(env *Env) interface{} {
	v := e.x.Eval(env)
	for _, n := range e.list {
		if v == interface{}(n) {
			return true
		}
	}
	return false
}
func (e inNumExpr) prec() int { return precCmp }
func (e inNumExpr) Render(st *style) string {
	xs := []string{}
	for _, n := range e.list {
		xs = append(xs, numLit{n}.Render(st))
	}
	return wrap(e.x, st, precAtom) + " in (" + strings.Join(xs, ", ") + ")"
}

// terExpr is (c ? a : b)
type terExpr struct{ c, a, b Expr }

func (e terExpr) Eval(env *Env) interface{} {
	if e.c.Eval(env).(bool) {
		return e.a.Eval(env)
	}
	return e.b.Eval(env)
}
func (e terExpr) prec() int { return precTer } // weaker than any other operator
func (e terExpr) Render(st *style) string {
	if st.pick(3) == 0 {
		return "(" + e.c.Render(st) + ") ? (" + e.a.Render(st) + ") : (" + e.b.Render(st) + ")"
	}
	part := func(x Expr) string {
		s := wrap(x, st, precOr)
		if strings.Contains(s, " =~ ") || strings.Contains(s, " !~ ") { // a pattern must not be followed by ? or :
			return "(" + s + ")"
		}
		return s
	}
	return part(e.c) + " ? " + part(e.a) + " : " + wrap(e.b, st, precOr)
}

type callExpr struct {
	fn   string
	args []Expr
}

func (e callExpr) Eval(env *Env) interface{} {
	vals := []string{}
	for _, a := range e.args {
		vals = append(vals, a.Eval(env).(string))
	}
	if env.Fn != nil {
		if res, ok := env.Fn(e.fn, vals); ok {
			return res
		}
	}
	switch e.fn {
	case "pathMatch":
		return refPathMatch(vals[0], vals[1], 1)
	case "pathMatch2":
		return refPathMatch(vals[0], vals[1], 2)
	case "regexMatch":
		return regexp.MustCompile(vals[1]).MatchString(vals[0])
	case "globMatch":
		ok, _ := path.Match(vals[1], vals[0])
		return ok
	case "ipMatch":
		return refIPMatch(vals[0], vals[1])
	case "startsWith":
		return strings.HasPrefix(vals[0], vals[1])
	case "sameLen":
		return len(vals[0]) == len(vals[1])
	case "eval":
		return env.Inline(env, vals[0])
	}
	return env.Has(e.fn, vals)
}
func (e callExpr) prec() int { return precAtom }
func (e callExpr) Render(st *style) string {
	as := []string{}
	for _, a := range e.args {
		as = append(as, a.Render(st))
	}
	s := ", "
	if st.pick(4) == 0 {
		s = ","
	}
	return e.fn + "(" + strings.Join(as, s) + ")"
}

// refPathMatch decides with one anchored regular expression.
func refPathMatch(p, pattern string, variant int) bool {
	if p == pattern {
		return true
	}
	segs := strings.Split(pattern, "/")
	re := "(?s)^"
	for i, s := range segs {
		last := i == len(segs)-1
		dyn := variant == 1 && strings.HasPrefix(s, ":") ||
			variant == 2 && strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}")
		switch {
		case s == "*" && last:
			re += ".*"
		case s == "*":
			re += "[^/]*(?:/[^/]*)*"
		case dyn:
			re += "[^/]*"
		default:
			re += regexp.QuoteMeta(s)
		}
		if !last {
			re += "/"
		}
	}
	return regexp.MustCompile(re + "$").MatchString(p)
}

func refIPMatch(a, b string) bool {
	x := netip.MustParseAddr(a).Unmap()
	if p, err := netip.ParsePrefix(b); err == nil {
		return p.Contains(x)
	}
	return netip.MustParseAddr(b).Unmap() == x
}
