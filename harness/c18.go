package main

import (
	"fmt"
	"math/big"
	"net"
	"net/netip"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
)

// matchFn is a matching function with all the ways to call it
type matchFn struct {
	name   string
	direct func(a, b string) (bool, error)
	fn     func(args ...interface{}) (interface{}, error)
	role   util.IMatcher // as role or domain matcher, nil: none
	prefix string        // of patterns of the role matcher
}

func safely(fn func(a, b string) bool) func(a, b string) (bool, error) {
	return func(a, b string) (ok bool, err error) {
		defer func() {
			if r := recover(); r != nil {
				ok, err = false, fmt.Errorf("%v", r)
			}
		}()
		return fn(a, b), nil
	}
}

var matchFns = map[string]*matchFn{
	"pathMatch":  {"pathMatch", safely(util.PathMatch), util.PathMatchFunc, util.PathMatcher, ""},
	"pathMatch2": {"pathMatch2", safely(util.PathMatch2), util.PathMatchFunc2, util.PathMatcher2, ""},
	"regexMatch": {"regexMatch", safely(util.RegexMatch), util.RegexMatchFunc, util.RegexMatcher, "p'"},
	"ipMatch":    {"ipMatch", safely(util.IPMatch), util.IPMatchFunc, util.NewPrefixMatcher("net:", util.IPMatch), "net:"},
	"globMatch": {"globMatch", util.GlobMatch, util.GlobMatchFunc, util.NewPrefixMatcher("glob:", func(a, b string) bool {
		ok, err := util.GlobMatch(a, b)
		if err != nil {
			panic(err)
		}
		return ok
	}), "glob:"},
}

// askEverywhere asks fn in every way and expects the same answer; want is 1, 0 or -1 for an error
func (f *matchFn) askEverywhere(c *C, a, b string, want int) {
	show := func(ok interface{}, err error) int {
		if err != nil {
			if ok == true {
				return 2
			}
			return -1
		}
		if ok == true {
			return 1
		}
		return 0
	}
	judge := func(how string, got int) {
		c.Eval()
		c.Count(how)
		if got != want {
			c.Failf("%s(%q, %q) %s: %d, expected %d (1: true, 0: false, -1: error)", f.name, a, b, how, got, want)
		}
	}
	ok, err := f.direct(a, b)
	judge("called directly", show(ok, err))
	if got, err := func() (res interface{}, err error) {
		defer func() {
			if r := recover(); r != nil && want < 0 { // the enforcer reports panics as errors
				res, err = nil, fmt.Errorf("%v", r)
			} else if r != nil {
				panic(r)
			}
		}()
		return f.fn(a, b)
	}(); true {
		judge("called as function", show(got, err))
	}
	// inside matchers
	m := model.NewModel()
	for _, d := range []defn{{'r', "r", "x, y"}, {'p', "p", "x, y"}, {'e', "e", effects[0]}, {'m', "m", f.name + "(r.x, p.x)"}, {'m', "m2", f.name + "(p.y, r.y)"}, {'m', "m3", "p.y != 'zz' && (r.x == '?!' || " + f.name + "(r.x, p.x))"}} {
		if err := m.SetDef(d.sec, d.key, d.val); err != nil {
			c.Failf("%v", err)
		}
	}
	if err := m.BuildMatchers(); err != nil {
		c.Failf("%v", err)
	}
	e, err := fastac.NewEnforcer(m, nil)
	if err != nil {
		c.Failf("%v", err)
	}
	if _, err := e.AddRule([]string{"p", b, a}); err != nil {
		c.Failf("%v", err)
	}
	for _, key := range []string{"m", "m2", "m3"} {
		ok, err := e.Enforce(a, b, fastac.SetMatcher(key))
		judge("called in a matcher", show(ok, err))
	}
	lit := fmt.Sprintf("%s(%s, %s)", f.name, quote(a, c.Chance(50)), quote(b, c.Chance(50)))
	if ok, err := e.Enforce("", "", fastac.SetMatcher(lit)); !strings.ContainsAny(a+b, "\"'") {
		judge("called with literals", show(ok, err))
	}
	rules, err := e.Filter("", b, fastac.SetMatcher("m2"))
	judge("called by a filter", show(len(rules) == 1, err))

	if f.role == nil {
		return
	}
	// as role and domain matcher
	pat := f.prefix + b
	if f.role.IsPattern(a) || !f.role.IsPattern(pat) || a == pat {
		return
	}
	if f.name != "ipMatch" { // the name of the role would have to be an address as well
		rm := rbac.NewRoleManager(10)
		rm.SetMatcher(f.role)
		_, err1 := rm.AddLink(pat, "group")
		if c.Chance(30) && want >= 0 {
			_, _ = rm.AddLink("other", a)
		}
		if a != "group" {
			ok, err := rm.HasLink(a, "group")
			if err == nil {
				err = err1
			}
			judge("called as role matcher", show(ok, err))
		}
	}
	dm := rbac.NewDomainManager(10)
	dm.SetDomainMatcher(f.role)
	if c.Chance(30) && want >= 0 {
		_, _ = dm.AddLink("x", "y", a)
	}
	_, err1 := dm.AddLink("alice", "admin", pat)
	ok, err = dm.HasLink("alice", "admin", a)
	if err == nil {
		err = err1
	}
	judge("called as domain matcher", show(ok, err))
}

// ---- regular expressions ----

// rx is a regular expression with a matcher of its own: ends returns all the
// positions where a match that starts at i may end
type rx interface {
	text() string
	ends(s []rune, i int) map[int]bool
}

type (
	rxLit rune
	rxAny struct{}
	rxSet struct {
		neg bool
		rs  []rune
	}
	rxCat []rx
	rxAlt []rx
	rxRep struct {
		x        rx
		min, max int
	}
	rxBegin struct{}
	rxEnd   struct{}
)

func (x rxLit) text() string {
	if strings.ContainsRune(`.*+?()[]{}|^$\`, rune(x)) {
		return `\` + string(rune(x))
	}
	return string(rune(x))
}
func (x rxLit) ends(s []rune, i int) map[int]bool {
	if i < len(s) && s[i] == rune(x) {
		return map[int]bool{i + 1: true}
	}
	return nil
}
func (rxAny) text() string { return "." }
func (rxAny) ends(s []rune, i int) map[int]bool {
	if i < len(s) && s[i] != '\n' {
		return map[int]bool{i + 1: true}
	}
	return nil
}
func (x rxSet) text() string {
	t := "["
	if x.neg {
		t += "^"
	}
	for _, r := range x.rs {
		t += string(r)
	}
	return t + "]"
}
func (x rxSet) ends(s []rune, i int) map[int]bool {
	if i < len(s) {
		in := false
		for _, r := range x.rs {
			in = in || r == s[i]
		}
		if in != x.neg {
			return map[int]bool{i + 1: true}
		}
	}
	return nil
}
func (x rxCat) text() string {
	t := ""
	for _, y := range x {
		if _, ok := y.(rxAlt); ok {
			t += "(" + y.text() + ")"
		} else {
			t += y.text()
		}
	}
	return t
}
func (x rxCat) ends(s []rune, i int) map[int]bool {
	cur := map[int]bool{i: true}
	for _, y := range x {
		next := map[int]bool{}
		for j := range cur {
			for k := range y.ends(s, j) {
				next[k] = true
			}
		}
		cur = next
	}
	return cur
}
func (x rxAlt) text() string {
	ts := []string{}
	for _, y := range x {
		ts = append(ts, y.text())
	}
	return strings.Join(ts, "|")
}
func (x rxAlt) ends(s []rune, i int) map[int]bool {
	res := map[int]bool{}
	for _, y := range x {
		for k := range y.ends(s, i) {
			res[k] = true
		}
	}
	return res
}
func (x rxRep) text() string {
	suffix := "*"
	switch {
	case x.min == 1 && x.max < 0:
		suffix = "+"
	case x.min == 0 && x.max == 1:
		suffix = "?"
	case x.max >= 0:
		suffix = fmt.Sprintf("{%d,%d}", x.min, x.max)
	}
	return "(?:" + x.x.text() + ")" + suffix
}
func (x rxRep) ends(s []rune, i int) map[int]bool {
	res := map[int]bool{}
	cur := map[int]bool{i: true}
	for n := 0; ; n++ {
		if n >= x.min {
			fresh := false
			for k := range cur {
				fresh = fresh || !res[k]
				res[k] = true
			}
			if !fresh {
				return res
			}
		}
		if n == x.max || n > x.min+len(s)+1 {
			return res
		}
		next := map[int]bool{}
		for j := range cur {
			for k := range x.x.ends(s, j) {
				next[k] = true
			}
		}
		cur = next
	}
}
func (rxBegin) text() string { return "^" }
func (rxBegin) ends(s []rune, i int) map[int]bool {
	if i == 0 {
		return map[int]bool{i: true}
	}
	return nil
}
func (rxEnd) text() string { return "$" }
func (rxEnd) ends(s []rune, i int) map[int]bool {
	if i == len(s) {
		return map[int]bool{i: true}
	}
	return nil
}

var rxRunes = []rune("abcx/.-1é\nA\n\t 日")

func genRx(c *C, depth int) rx {
	if depth == 0 || c.Chance(30) {
		switch c.Intn(8) {
		case 0:
			return rxAny{}
		case 1:
			return rxSet{c.Chance(40), []rune{rxRunes[c.Intn(4)], rxRunes[c.Intn(4)]}}
		default:
			return rxLit(rxRunes[c.Intn(len(rxRunes))])
		}
	}
	switch c.Intn(5) {
	case 0:
		x := rxAlt{}
		for n := 2 + c.Intn(2); n > 0; n-- {
			x = append(x, genRx(c, depth-1))
		}
		return x
	case 1:
		return rxRep{genRx(c, depth-1), []int{0, 1, 0, 2}[c.Intn(4)], []int{-1, -1, 1, 3}[c.Intn(4)]}.fix()
	}
	x := rxCat{}
	for n := 1 + c.Intn(4); n > 0; n-- {
		x = append(x, genRx(c, depth-1))
	}
	return x
}

func (x rxRep) fix() rx {
	if x.max >= 0 && x.min > x.max {
		x.max = x.min + 1
	}
	if x.min == 2 && x.max < 0 {
		x.min = 1
	}
	return x
}

// sampleRx returns a text that x matches (roughly)
func sampleRx(c *C, x rx) string {
	switch y := x.(type) {
	case rxLit:
		return string(rune(y))
	case rxAny:
		return string(rxRunes[c.Intn(len(rxRunes))])
	case rxSet:
		if y.neg {
			return "/"
		}
		return string(y.rs[c.Intn(len(y.rs))])
	case rxCat:
		s := ""
		for _, z := range y {
			s += sampleRx(c, z)
		}
		return s
	case rxAlt:
		return sampleRx(c, y[c.Intn(len(y))])
	case rxRep:
		s := ""
		for n := y.min + c.Intn(3); n > 0; n-- {
			s += sampleRx(c, y.x)
		}
		return s
	}
	return ""
}

// ---- globs ----

type globItem struct {
	kind byte // l: literal, ?: one character, *: any characters, s: set
	r    rune
	neg  bool
	from rune
	to   rune
}

func globText(g []globItem) string {
	t := ""
	for _, x := range g {
		switch x.kind {
		case 'l':
			if strings.ContainsRune(`*?[\`, x.r) {
				t += `\`
			}
			t += string(x.r)
		case 's':
			t += "["
			if x.neg {
				t += "^"
			}
			t += string(x.from) + "-" + string(x.to) + "]"
		default:
			t += string(rune(x.kind))
		}
	}
	return t
}

func globRef(g []globItem, s []rune) bool {
	if len(g) == 0 {
		return len(s) == 0
	}
	x := g[0]
	if x.kind == '*' {
		for i := 0; ; i++ {
			if globRef(g[1:], s[i:]) {
				return true
			}
			if i == len(s) || s[i] == '/' {
				return false
			}
		}
	}
	if len(s) == 0 {
		return false
	}
	ok := false
	switch x.kind {
	case 'l':
		ok = s[0] == x.r
	case '?':
		ok = s[0] != '/'
	case 's':
		ok = (s[0] >= x.from && s[0] <= x.to) != x.neg
	}
	return ok && globRef(g[1:], s[1:])
}

// ---- IP addresses ----

// genIP returns an address, its value and its number of bits
func genIP(c *C) (string, *big.Int, int) {
	bytes := make([]byte, 4)
	if c.Chance(45) {
		bytes = make([]byte, 16)
	}
	for i := range bytes {
		bytes[i] = byte([]int{0, 0, 1, 10, 127, 128, 192, 255, c.Intn(256)}[c.Intn(9)])
	}
	v := new(big.Int).SetBytes(bytes)
	if len(bytes) == 4 {
		t := fmt.Sprintf("%d.%d.%d.%d", bytes[0], bytes[1], bytes[2], bytes[3])
		if c.Chance(15) {
			return "::ffff:" + t, v, 32
		}
		return t, v, 32
	}
	bytes[0] = 0x20 // not a mapped address
	v.SetBytes(bytes)
	groups := []string{}
	for i := 0; i < 16; i += 2 {
		f := "%x"
		if c.Chance(30) {
			f = "%04X"
		}
		groups = append(groups, fmt.Sprintf(f, int(bytes[i])<<8|int(bytes[i+1])))
	}
	t := strings.Join(groups, ":")
	if c.Chance(50) {
		t = net.IP(bytes).String()
	}
	return t, v, 128
}

func runC18(c *C) {
	n := 0
	for n < 6 {
		n++
		switch c.Intn(10) {
		case 9:
			c18OwnLanguage(c)
		case 0, 1, 2, 3:
			c18Path(c)
		case 4:
			x := genRx(c, 3)
			if c.Chance(40) {
				y := rxCat{x}
				if _, ok := x.(rxCat); ok {
					y = append(rxCat{}, x.(rxCat)...)
				}
				if c.Chance(70) {
					y = append(rxCat{rxBegin{}}, y...)
				}
				if c.Chance(70) {
					y = append(y, rxEnd{})
				}
				x = y
			}
			s := sampleRx(c, x)
			switch c.Intn(4) {
			case 0:
				s = c.Pick([]string{"", "a", "/"}) + s + c.Pick([]string{"", "b", "é"})
			case 1:
				rs := []rune(s)
				if len(rs) > 0 {
					rs[c.Intn(len(rs))] = rxRunes[c.Intn(len(rxRunes))]
				}
				s = string(rs)
			}
			if len(s) > 60 {
				continue
			}
			want := 0
			rs := []rune(s)
			for i := 0; i <= len(rs); i++ {
				if len(x.ends(rs, i)) > 0 {
					want = 1
				}
			}
			matchFns["regexMatch"].askEverywhere(c, s, x.text(), want)
			c.Distinct("regex", x.text(), s)
			c.Count(fmt.Sprintf("regexMatch %d", want))
		case 5:
			g := []globItem{}
			for n := c.Intn(7); n > 0; n-- {
				r := []rune("abcd/.é*[x\nA ")[c.Intn(13)]
				switch c.Intn(6) {
				case 0:
					g = append(g, globItem{kind: '?'})
				case 1:
					g = append(g, globItem{kind: '*'})
				case 2:
					g = append(g, globItem{kind: 's', neg: c.Chance(40), from: 'a' + rune(c.Intn(2)), to: 'b' + rune(c.Intn(3))})
				default:
					g = append(g, globItem{kind: 'l', r: r})
				}
			}
			s := ""
			neg := false
			for _, x := range g {
				neg = neg || x.neg
				switch {
				case c.Chance(6):
				case x.kind == 'l':
					s += string(x.r)
				case x.kind == '?':
					s += c.Pick([]string{"a", "é", "/", "."})
				case x.kind == 's':
					s += string([]rune("abcde")[c.Intn(5)])
				default:
					s += c.Pick([]string{"", "a", "bc", "a.b", "/", "a/b", "éé"})
				}
			}
			if neg && strings.Contains(s, "/") {
				continue // whether [^a] matches a separator is not specified
			}
			want := 0
			if globRef(g, []rune(s)) {
				want = 1
			}
			matchFns["globMatch"].askEverywhere(c, s, globText(g), want)
			c.Distinct("glob", globText(g), s)
			c.Count(fmt.Sprintf("globMatch %d", want))
		case 6:
			at, av, abits := genIP(c)
			bt, bv, bbits := genIP(c)
			if c.Chance(60) { // near
				for bbits != abits {
					bt, bv, bbits = genIP(c)
				}
				bv = new(big.Int).Set(av)
				if c.Chance(70) {
					i := c.Intn(bbits)
					bv.SetBit(bv, i, bv.Bit(i)^1)
				}
				b := bv.FillBytes(make([]byte, bbits/8))
				if bbits == 128 {
					b[0] = 0x20
					bv.SetBytes(b)
				}
				bt = net.IP(b).String()
			}
			want := 0
			if c.Chance(70) && !strings.HasPrefix(bt, "::ffff:") {
				bits := []int{0, bbits, bbits - 1, 8, 24, c.Intn(bbits + 1)}[c.Intn(6)]
				bt += fmt.Sprint("/", bits)
				if abits == bbits && new(big.Int).Rsh(av, uint(abits-bits)).Cmp(new(big.Int).Rsh(bv, uint(bbits-bits))) == 0 {
					want = 1
				}
			} else if abits == bbits && av.Cmp(bv) == 0 {
				want = 1
			}
			matchFns["ipMatch"].askEverywhere(c, at, bt, want)
			c.Distinct("ip", at, bt)
			c.Count(fmt.Sprintf("ipMatch %d", want))
		case 7:
			c18Invalid(c)
		default:
			c18Arguments(c)
		}
	}
}

var pathSegs = []string{"a", "b", "foo", "1", "", ".", "..", "é", "x y", "%2F", "a:b", "b{", "?", "[a-z]", ".*", "a*", "**", "$", "\\", "A", "a ", " a", "\ta", "a\n"}

func c18Path(c *C) {
	f := matchFns[c.Pick([]string{"pathMatch", "pathMatch2"})]
	variant := 1
	if f.name == "pathMatch2" {
		variant = 2
	}
	dyn := func() string {
		if variant == 1 {
			return c.Pick([]string{":id", ":", ":name", ":a:b", ":*"})
		}
		return c.Pick([]string{"{id}", "{}", "{a}{b}", "{*}"})
	}
	k := 1 + c.Intn(6)
	pool := 3 + c.Intn(len(pathSegs)-2)
	pat := []string{}
	for i := 0; i < k; i++ {
		switch c.Intn(6) {
		case 0, 1:
			pat = append(pat, "*")
		case 2:
			pat = append(pat, dyn())
		case 3:
			if c.Chance(30) { // of the other language
				pat = append(pat, c.Pick([]string{":id", "{id}", "{id", "id}", "x:y"}))
				break
			}
			fallthrough
		default:
			pat = append(pat, pathSegs[c.Intn(pool)])
		}
	}
	if c.Chance(60) {
		pat = append([]string{""}, pat...)
	}
	inst := []string{}
	for _, s := range pat {
		isDyn := variant == 1 && strings.HasPrefix(s, ":") || variant == 2 && strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}")
		switch {
		case s == "*":
			for n := 1 + c.Intn(3); n > 0; n-- {
				inst = append(inst, pathSegs[c.Intn(pool)])
			}
		case isDyn:
			inst = append(inst, pathSegs[c.Intn(pool)])
		default:
			inst = append(inst, s)
		}
	}
	for c.Chance(45) && len(inst) > 0 { // nearly
		i := c.Intn(len(inst))
		switch c.Intn(4) {
		case 0:
			inst = append(inst[:i:i], inst[i+1:]...)
		case 1:
			inst = append(inst[:i:i], append([]string{pathSegs[c.Intn(pool)]}, inst[i:]...)...)
		case 2:
			s := inst[i]
			inst[i] = c.Pick([]string{s + "x", s + "x", s + " ", " " + s, s + "\n", s + "\t", strings.ToUpper(s), "x" + s})
		default:
			inst[i] = pathSegs[c.Intn(pool)]
		}
	}
	p, pattern := strings.Join(inst, "/"), strings.Join(pat, "/")
	if c.Chance(1) && c.Chance(40) { // long paths with many wildcards
		n := 20 + c.Intn(20)
		pattern = strings.Repeat("*/a/", n/2) + "b"
		p = strings.Repeat("a/", 2*n) + c.Pick([]string{"b", "a", "a/b/a"})
		c.Count("long paths")
	}
	want := 0
	if refPathMatch(p, pattern, variant) {
		want = 1
	}
	f.askEverywhere(c, p, pattern, want)
	// what is a pattern
	is := false
	for _, s := range strings.Split(pattern, "/") {
		is = is || s == "*" || variant == 1 && strings.HasPrefix(s, ":") || variant == 2 && strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}")
	}
	if got := f.role.IsPattern(pattern); got != is {
		c.Failf("%s: IsPattern(%q) is %v, expected %v", f.name, pattern, got, is)
	}
	c.Distinct(f.name, pattern, p)
	c.Count(fmt.Sprintf("%s %d", f.name, want))
	c.Sample("%s(%q, %q) = %d", f.name, p, pattern, want)
}

// refOwnPath matches paths of a language with its own separator and dynamic segments
func refOwnPath(path, pattern []string, dyn func(s string) bool) bool {
	// ok[j]: the pattern from j on matches the path from i on
	ok := make([]bool, len(pattern)+1)
	ok[len(pattern)] = true
	for i := len(path) - 1; i >= 0; i-- {
		next := make([]bool, len(pattern)+1)
		for j := range pattern {
			switch {
			case pattern[j] == "*":
				next[j] = ok[j+1] || ok[j]
			case pattern[j] == path[i] || dyn(pattern[j]):
				next[j] = ok[j+1]
			}
		}
		ok = next
	}
	return ok[0]
}

// c18OwnLanguage: path languages of the user, made with PathMatchHelper
func c18OwnLanguage(c *C) {
	sep := c.Pick([]string{"/", ".", "-", "::", "//", " "})
	prefix := []byte{0, ':', '{', '<', '%', 'a'}[c.Intn(6)]
	suffix := []byte{0, 0, '}', '>', '%', 'a'}[c.Intn(6)]
	dyn := func(s string) bool {
		return s != "" && (prefix == 0 || s[0] == prefix) && (suffix == 0 || s[len(s)-1] == suffix)
	}
	seg := func() string {
		s := c.Pick([]string{"", "a", "b", "ab", "ba", "1", "é", "x_y"})
		if c.Chance(35) {
			s = c.Pick([]string{"{", "<", "%", "a", ":"}) + s
		}
		if c.Chance(25) {
			s += c.Pick([]string{"}", ">", "%", "a"})
		}
		return s
	}
	path, pat := []string{}, []string{}
	for i := 1 + c.Intn(5); i > 0; i-- {
		s := seg()
		for s == "" && sep != "/" { // stays one separator
			s = seg()
		}
		switch c.Intn(6) {
		case 0:
			pat = append(pat, "*")
			for n := c.Intn(3); n > 0; n-- {
				path = append(path, "z"+seg())
			}
		case 1:
			d := "d"
			if prefix != 0 {
				d = string(prefix) + d
			}
			if suffix != 0 {
				d += string(suffix)
			}
			pat = append(pat, d)
		case 2:
			pat = append(pat, seg()+"q")
		default:
			pat = append(pat, s)
		}
		path = append(path, s)
	}
	p, pattern := strings.Join(path, sep), strings.Join(pat, sep)
	path, pat = strings.Split(p, sep), strings.Split(pattern, sep)
	want := p == pattern || refOwnPath(path, pat, dyn)
	is := false
	for _, s := range pat {
		is = is || s == "*" || dyn(s)
	}
	match := func(a, b string) bool { return util.PathMatchHelper(a, b, sep, prefix, suffix) }
	isPattern := func(a string) bool { return util.IsPathPatternHelper(a, sep, prefix, suffix) }
	what := fmt.Sprintf("path %q, pattern %q, separator %q, dynamic %q..%q", p, pattern, sep, prefix, suffix)
	c.Eval()
	if got := match(p, pattern); got != want {
		c.Failf("%s: match %v, expected %v", what, got, want)
	}
	if got := isPattern(pattern); got != is {
		c.Failf("%s: pattern %v, expected %v", what, got, is)
	}
	if is && !isPattern(p) && p != "admin" {
		rm := rbac.NewRoleManager(10)
		rm.SetMatcher(util.NewMatcher(isPattern, match))
		_, _ = rm.AddLink(pattern, "#admin#")
		if got, err := rm.HasLink(p, "#admin#"); got != want || err != nil {
			c.Failf("%s: linked %v %v, expected %v", what, got, err, want)
		}
	}
	fn := util.WrapMatchingFunc(match)
	if got, err := fn(p, pattern); got != want || err != nil {
		c.Failf("%s: function %v %v, expected %v", what, got, err, want)
	}
	for _, args := range [][]interface{}{{}, {p}, {p, pattern, p}, {p, 1}, {nil, pattern}, {[]string{p}, pattern}} {
		if got, err := fn(args...); err == nil || got == true {
			c.Failf("function with %v: %v %v", args, got, err)
		}
	}
	c.Distinct("own", sep, prefix, suffix, p, pattern)
	c.Count(fmt.Sprintf("own path language %v", want))
}

// c18Invalid: patterns and addresses that are none
func c18Invalid(c *C) {
	var f *matchFn
	a, b := "10.0.0.1", ""
	switch c.Intn(6) {
	case 0:
		f, b = matchFns["regexMatch"], c.Pick([]string{"(", "[a", "a**b)", "*", "(?P<x", "a{2,1}", "\\", "[z-a]", "(?<!a)b"})
	case 1:
		f, b = matchFns["globMatch"], c.Pick([]string{"[", "[a", "1[", "\\", "[]a]", "1*[a-", "10*["})
	case 2:
		f, b = matchFns["ipMatch"], c.Pick([]string{"", "10.0.0", "10.0.0.0/33", "10.0.0.0/", "a", "10.0.0.256", "::/129", "10.0.0.0/-1", "10.0.0.1 ", "10.0.0.*"})
	case 4: // an address with one defect
		f = matchFns["ipMatch"]
		t, _, _ := genIP(c)
		good := t
		switch c.Intn(4) {
		case 0:
			t = c.Pick([]string{" ", "%", "[", "0x", "-", "+", "/", ","}) + t
		case 1:
			i := 1 + c.Intn(len(t)-1)
			t = t[:i] + c.Pick([]string{" ", "%", "g", "-", "_", "/", ".."}) + t[i:]
		default:
			t += c.Pick([]string{"%eth0", "%", "%1", "/", " ", "g", "]", "%25eth0", ".", ",10.0.0.1", "_", "-10.0.0.9"})
		}
		if c.Chance(50) {
			a, b = t, c.Pick([]string{good, t, "10.0.0.0/8", "::/0", "0.0.0.0/0"})
		} else {
			if c.Chance(50) {
				t += c.Pick([]string{"/8", "/24", "/0"})
			}
			a, b = good, t
		}
		if _, err := netip.ParseAddr(t); err == nil && !strings.Contains(t, "%") {
			return
		}
		if _, _, err := net.ParseCIDR(t); err == nil && b == t {
			return // "1.2.3.4/08" is a prefix for some parsers
		}
	default:
		f, a, b = matchFns["ipMatch"], c.Pick([]string{"", "10.0.0", "x", "10.0.0.0/8", "::g", "10.0.0.1:80", "010.0.0.1"}), "10.0.0.0/8"
	}
	f.askEverywhere(c, a, b, -1)
	c.Distinct("invalid", f.name, a, b)
	c.Count("invalid patterns")
}

// c18Arguments: wrong numbers and types of arguments
func c18Arguments(c *C) {
	names := []string{"pathMatch", "pathMatch2", "regexMatch", "ipMatch", "globMatch"}
	f := matchFns[c.Pick(names)]
	vals := []interface{}{"10.0.0.1", "10.0.0.0/8", "/a", 1, 2.5, true, nil, []string{"a"}, struct{ A string }{"a"}}
	n := c.Intn(4)
	args := []interface{}{}
	strs := 0
	for i := 0; i < n; i++ {
		v := vals[c.Intn(len(vals))]
		if _, ok := v.(string); ok {
			strs++
		}
		args = append(args, v)
	}
	if n == 2 && strs == 2 {
		return
	}
	c.Eval()
	if res, err := f.fn(args...); err == nil || res == true {
		c.Failf("%s with the arguments %#v: %v %v", f.name, args, res, err)
	}
	m := model.NewModel()
	for _, d := range []defn{{'r', "r", "a, b, c"}, {'p', "p", "a"}, {'e', "e", c.Pick(effects)}} {
		if err := m.SetDef(d.sec, d.key, d.val); err != nil {
			c.Failf("%v", err)
		}
	}
	e, err := fastac.NewEnforcer(m, nil)
	if err != nil {
		c.Failf("%v", err)
	}
	if _, err := e.AddRule([]string{"p", "10.0.0.1"}); err != nil {
		c.Failf("%v", err)
	}
	req := append(append([]interface{}{}, args...), "x", "x", "x")[:3]
	names2 := []string{"r.a", "r.b", "r.c"}[:n]
	if n > 0 && c.Chance(30) {
		if _, ok := args[n-1].(string); ok {
			names2[n-1] = "p.a"
		}
	}
	text := f.name + "(" + strings.Join(names2, ", ") + ")"
	ok, err := e.Enforce(append(req, fastac.SetMatcher(text))...)
	c.Eval()
	if ok || err == nil {
		c.Failf("%s, request (%s): %v %v", text, showReq(req), ok, err)
	}
	c.Count("wrong arguments")
	c.Distinct("args", f.name, fmt.Sprintf("%#v", args))
}

func init() {
	register(&Check{ID: "C18", Level: "exploration", Quick: 40000, Full: 500000, Run: runC18,
		Rule:   "random patterns with texts derived from them and then disturbed: path patterns of both languages (incl. 40 wildcards and 80 segments) against an anchored regular expression, regular expressions against a set-based matcher of their syntax tree, globs against a recursive matcher of their items, IPv4/IPv6/mapped addresses and prefixes against integer arithmetic; each asked directly, as function, in matchers (request, rule, literal arguments), by a filter, as role and as domain matcher. Invalid patterns, addresses with one defect and wrong arguments must be errors everywhere. Non-trivial: distinct (function, text, pattern).",
		Assume: []string{"whether a negated character set of a glob matches a separator is not specified"}})
}
