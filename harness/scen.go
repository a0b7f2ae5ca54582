package main

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
)

// ---- reference role graph ----

// RoleRef maps a domain path to its links.
type RoleRef map[string]map[[2]string]bool

func domKey(doms []string) string {
	parts := []string{}
	for _, d := range doms {
		parts = append(parts, fmt.Sprintf("%q", d))
	}
	return strings.Join(parts, "|")
}

func (r RoleRef) Add(a, b string, doms ...string) bool {
	k := domKey(doms)
	if r[k] == nil {
		r[k] = map[[2]string]bool{}
	}
	l := [2]string{a, b}
	if r[k][l] {
		return false
	}
	r[k][l] = true
	return true
}

func (r RoleRef) Del(a, b string, doms ...string) bool {
	k := domKey(doms)
	l := [2]string{a, b}
	if !r[k][l] {
		return false
	}
	delete(r[k], l)
	return true
}

// Dist returns the number of links on the shortest chain from a to b, -1 if there is none.
func (r RoleRef) Dist(a, b string, doms ...string) int {
	links := r[domKey(doms)]
	dist := map[string]int{a: 0}
	queue := []string{a}
	for len(queue) > 0 {
		x := queue[0]
		queue = queue[1:]
		if x == b {
			return dist[x]
		}
		for l := range links {
			if l[0] == x {
				if _, seen := dist[l[1]]; !seen {
					dist[l[1]] = dist[x] + 1
					queue = append(queue, l[1])
				}
			}
		}
	}
	return -1
}

func (r RoleRef) Has(a, b string, doms ...string) bool { return r.Dist(a, b, doms...) >= 0 }

func (r RoleRef) Roles(a string, doms ...string) []string {
	res := []string{}
	for l := range r[domKey(doms)] {
		if l[0] == a {
			res = append(res, l[1])
		}
	}
	sort.Strings(res)
	return res
}

func (r RoleRef) Users(b string, doms ...string) []string {
	res := []string{}
	for l := range r[domKey(doms)] {
		if l[1] == b {
			res = append(res, l[0])
		}
	}
	sort.Strings(res)
	return res
}

// ---- scenarios ----

type cat int

const (
	cName cat = iota
	cDom
	cPath
	cRegex
	cGlob
	cIP
	cNum
	cFlag
	cObj
	cAct
)

type gDef struct {
	key  string
	doms int
}

// Scen is a model together with the meaning of its matcher.
type Scen struct {
	RKey, PKey string
	RArgs      []string
	RCats      []cat
	PArgs      []string
	PCats      []cat
	Eft        int // index of the eft argument, -1 if there is none
	Gs         []gDef
	Effect     int
	M          Expr
	MText      string
	usesIPOnP  bool
	names      []string
	doms       []string
	weird      bool
	glue       *string // rules that read the same when joined with it are generated on purpose
	last       []string
	glued      []int
	fn         func(name string, args []string) (res, ok bool) // replaced functions
}

var effects = []string{
	"some(where (p.eft == allow))",
	"!some(where (p.eft == deny))",
	"some(where (p.eft == allow)) && !some(where (p.eft == deny))",
}

var plainNames = []string{"alice", "bob", "carol", "admin", "editor", "root"}
var weirdNames = []string{"a,b", "a", "b", "", "o'neil", `say "x"`, "p.sub", "r.obj == p.obj", "a b", `back\slash`, "ünï", "x||y", ",", `\,`, "p_sub", "true", "1"}
var acts = []string{"read", "write", "own"}
var domNames = []string{"d1", "d2", "d3"}
var rPaths = []string{"/foo", "/foo/1", "/foo/1/bar", "/bar", "/", "", "foo", "/foo/", "/foo/{x}"}
var pPaths = []string{"/foo", "/foo/*", "/foo/:id", "*", "/foo/:id/bar", "/*", "/*/bar", "/{x}", "/foo/{x}", ""}
var regexes = []string{"^a.*", "alice|bob", "[a-c]+", ".*", "^$", "^o"}
var globs = []string{"a*", "*", "b?b", "/foo/*", "[a-b]*", ""}
var rIPs = []string{"10.0.0.1", "10.0.1.7", "192.168.0.1", "::1"}
var pIPs = []string{"10.0.0.0/24", "10.0.0.0/16", "10.0.0.1", "::/64", "192.168.0.0/30"}

// vocab returns the values of a policy field of category k
func (s *Scen) vocab(k cat) []string {
	switch k {
	case cName:
		return s.names
	case cDom:
		return s.doms
	case cPath:
		return pPaths
	case cRegex:
		return regexes
	case cGlob:
		return globs
	case cIP:
		return pIPs
	case cAct:
		return acts
	}
	panic("vocab")
}

type scenOpts struct {
	noRoles  bool
	noObj    bool
	weird    int // percent
	simple   bool
	maxLeafs int
	noIP     bool
	minP     int
	stdKeys  bool // no other keys than p
	glue     bool // rules that join to the same text
}

// separators that an implementation might use to join the fields of a rule to a key
var separators = []string{",", ", ", "|", "||", ":", "::", ";", " ", "/", "\t", "\n", "\r\n", "\x00", "\x01", "\x1e", "\x1f", "-", "->", "_", ".", "\\", "#", "$", "&", "=", "+", "~", "%", "@", "^", "'", "\"", "", "\u2028", "\ufffd"}

var commonSeparators = []string{",", ", ", "|", ":", " ", "/", "\x00", "\x1f", ""}

// variantNames differ only in details that a normalisation would remove
var variantNames = []string{"alice", "Alice", "ALICE", " alice", "alice ", "alice\t", "\talice", "alice\n", "alic\u00e9", "alice\u0301", "al ice", "'alice'", "alice\x00", "a", "A", "*", "alice*", "%", "100%s", "%d", "alice/", "/alice", "//alice", "alice//", "alice.", "./alice", "alice\u200b", "alice\u00a0", "alice;", "alice:", "alice#1", "al\u0131ce", "al\\ice", "al/ice", "al\"ice", "al'ice", "al\nice", "alic\u00e8", "alic?"}

// variantGroups are names that are the same after some normalisation
var variantGroups = [][]string{
	{"alice", "Alice", "ALICE", "aLICE", "al\u0131ce"},
	{"alice", " alice", "alice ", "alice\t", "\talice", "alice\n", "alice\r\n", "alice\u00a0"},
	{"al ice", "al  ice", "al\tice", "al\nice", "al\r\nice", "alice"},
	{"al\\ice", "al/ice", "al//ice", "al|ice", "al.ice"},
	{"al\"ice", "al'ice", "al`ice", "al\"\"ice", "al''ice", "al\\\"ice"},
	{"alic\u00e9", "alic\u00e8", "alice\u0301", "alic?", "alic\ufffd", "alic??", "alice"},
	{"alice", "'alice'", "\"alice\"", "alice*", "alice\x00", "alice\u200b", "alice;", "alice:", "alice,", "alice#1"},
	{"1", "01", "1.0", "+1", "1e0", " 1"},
	{"a", "A", "aa", "\u00e4", "\u00c4"},
}

// variants returns names that are easily confused
func variants(c *C) []string {
	if c.Chance(30) {
		return variantNames
	}
	names := append([]string{}, variantGroups[c.Intn(len(variantGroups))]...)
	if c.Chance(40) {
		names = append(names, variantGroups[c.Intn(len(variantGroups))]...)
	}
	return names
}

// glueNames returns names which cannot be told apart when several of them are joined with sep
func glueNames(sep string) []string {
	return []string{"x", "y", "z", "x" + sep + "y", "y" + sep + "z", "y" + sep + "x", "x" + sep + "y" + sep + "z", sep + "x", "x" + sep}
}

// keyNames read like the keys, arguments, functions and effects of a model
var keyNames = []string{"p", "p2", "g", "g2", "r", "m", "e", "p1", "g1", "sub", "obj", "p_sub", "r.sub", "p.sub", "eft", "allow", "deny", "eval", "eval(p.sub)", "pathMatch", "_", "user", "role", "domain"}

// longNames are long and differ in a single place
func longNames(c *C) []string {
	n := []int{20, 33, 64, 65, 100, 128, 129, 256, 300, 1000, 1025, 5000}[c.Intn(12)]
	base := strings.Repeat("x/y-", n)[:n]
	names := []string{base, base + "1", base + "2", "1" + base, "2" + base, base[:n-1], base + base}
	for _, at := range []int{n / 2, n - 1, 1, n - 10, 16, n - 17} {
		names = append(names, base[:at]+"1"+base[at+1:], base[:at]+"2"+base[at+1:])
	}
	return names
}

func genNames(c *C, weird bool) []string {
	names, _ := genNamesGlue(c, weird)
	return names
}

func genNamesGlue(c *C, weird bool) (names []string, glue *string) {
	pool := plainNames
	if weird {
		switch c.Intn(14) {
		case 0, 1, 2, 3, 4, 5, 6:
			sep := c.Pick(separators)
			if c.Chance(65) {
				sep = c.Pick(commonSeparators)
			}
			glue = &sep
			pool = glueNames(sep)
		case 7:
			pool = variants(c)
		case 8, 9:
			pool = longNames(c)
		case 10, 11:
			pool = keyNames
		default:
			pool = append(append([]string{}, weirdNames...), plainNames[:2]...)
		}
	}
	for len(names) < 5 {
		names = append(names, c.Pick(pool))
	}
	if glue != nil {
		names = append(names, "x", "y", "z", "x"+*glue+"y", "y"+*glue+"z")
	}
	return names, glue
}

// reglue moves a separator from one field of the last rule to another one: the fields
// differ, but not what they look like when they are joined
func (s *Scen) reglue(c *C) []string {
	if s.glue == nil || len(s.last) != len(s.PCats)+1 || s.last[0] != s.PKey {
		return nil
	}
	cols := []int{}
	for i, k := range s.PCats {
		if i != s.Eft && k == cName {
			cols = append(cols, i+1)
		}
	}
	for try := 0; try < 6 && len(cols) > 1; try++ {
		// the rule reads the same when column i is followed by column j
		p := c.R.Perm(len(cols))
		i, j := cols[p[0]], cols[p[1]]
		if s.glued != nil && c.Chance(70) {
			i, j = s.glued[0], s.glued[1]
		}
		rule := append([]string{}, s.last...)
		sep := *s.glue
		if c.Chance(50) { // the end of i moves to j
			at := strings.LastIndex(rule[i], sep)
			if sep == "" {
				at = len(rule[i]) / 2
			}
			if at < 0 || rule[i] == "" {
				continue
			}
			rule[i], rule[j] = rule[i][:at], rule[i][at+len(sep):]+sep+rule[j]
		} else { // the beginning of j moves to i
			at := strings.Index(rule[j], sep)
			if sep == "" {
				at = (len(rule[j]) + 1) / 2
			}
			if at < 0 || rule[j] == "" {
				continue
			}
			rule[i], rule[j] = rule[i]+sep+rule[j][:at], rule[j][at+len(sep):]
		}
		return rule
	}
	return nil
}

func genScen(c *C, o scenOpts) *Scen {
	s := &Scen{RKey: "r", PKey: "p", Eft: -1}
	s.weird = c.Chance(o.weird)
	s.names, s.glue = genNamesGlue(c, s.weird)
	for o.glue && s.glue == nil {
		s.weird = true
		s.names, s.glue = genNamesGlue(c, true)
	}
	s.doms = domNames
	if s.weird {
		s.doms = append([]string{"", "a,b", "d1|d2"}, domNames...)
		if c.Chance(40) {
			s.doms = append([]string{"d1/", "D1", " d1", "d1 ", "/d1", "d1."}, domNames[:2]...)
		}
	}
	// grouping definitions
	if !o.noRoles {
		for i, n := 0, c.Intn(3); i < n; i++ {
			key := "g"
			if i > 0 {
				key = fmt.Sprint("g", []int{2, 2, 2, 3, 10, 21, 0}[c.Intn(7)])
			} else if c.Chance(8) {
				key = "g1"
			}
			s.Gs = append(s.Gs, gDef{key, c.Intn(3)})
		}
	}
	rCats := []cat{cName, cName, cAct, cDom, cPath}
	if !o.noObj {
		rCats = append(rCats, cNum, cFlag, cObj)
	}
	pCats := []cat{cName, cName, cAct, cDom, cPath, cRegex, cGlob}
	if !o.noIP {
		rCats = append(rCats, cIP)
		pCats = append(pCats, cIP)
	}
	rn, pn := 2+c.Intn(3), 2+c.Intn(3)
	switch c.Intn(12) {
	case 0:
		rn = 1
	case 1:
		rn = 5 + c.Intn(3)
	}
	switch c.Intn(12) {
	case 0:
		pn = 1
	case 1:
		pn = 5 + c.Intn(3)
	}
	if pn < o.minP {
		pn = o.minP
	}
	for i := 0; i < rn; i++ {
		k := rCats[c.Intn(len(rCats))]
		if i == 0 {
			k = cName
		}
		s.RCats = append(s.RCats, k)
		s.RArgs = append(s.RArgs, argName(c, k, i))
	}
	for i := 0; i < pn; i++ {
		k := pCats[c.Intn(len(pCats))]
		if i == 0 || (i == 1 && s.glue != nil) {
			k = cName
		}
		s.PCats = append(s.PCats, k)
		s.PArgs = append(s.PArgs, argName(c, k, i))
	}
	if c.Chance(60) {
		s.Eft = c.Intn(pn + 1)
		s.PArgs = append(s.PArgs[:s.Eft:s.Eft], append([]string{"eft"}, s.PArgs[s.Eft:]...)...)
		s.PCats = append(s.PCats[:s.Eft:s.Eft], append([]cat{cAct}, s.PCats[s.Eft:]...)...)
	}
	s.Effect = c.Intn(3)
	max := o.maxLeafs
	if max == 0 {
		max = 7
	}
	if o.glue {
		max = 2
	}
	if !o.stdKeys && c.Chance(12) {
		s.PKey = []string{"p2", "p10", "p12", "p007", "p1"}[c.Intn(5)]
	}
	s.genMatcher(c, o, max)
	if !s.readsPolicy() { // it belongs to the policy p
		s.PKey = "p"
		s.genMatcher(c, o, max)
	}
	return s
}

// readsPolicy returns true if the matcher belongs to the policy whatever its key is
func (s *Scen) readsPolicy() bool {
	t := stripLits(s.MText)
	for _, a := range s.PArgs {
		if strings.Contains(t, s.PKey+"."+a) || strings.Contains(t, s.PKey+"_"+a) {
			return true
		}
	}
	return false
}

// newMatcher generates another matcher of the same policy
func (s *Scen) newMatcher(c *C, max int) {
	for {
		s.M = s.genBool(c, 1+c.Intn(max))
		s.MText = render(c, s.M)
		if s.PKey == "p" || s.readsPolicy() {
			return
		}
	}
}

func (s *Scen) genMatcher(c *C, o scenOpts, max int) {
	s.M = s.genBool(c, 1+c.Intn(max))
	if s.glue != nil && (o.glue || c.Chance(60)) {
		if e := s.glueLeaf(c); e != nil {
			s.M = andExpr{[]Expr{e, s.M}}
		}
	}
	s.MText = render(c, s.M)
}

func argName(c *C, k cat, i int) string {
	base := map[cat]string{cName: "sub", cDom: "dom", cPath: "obj", cRegex: "re", cGlob: "gl", cIP: "ip", cNum: "num", cFlag: "flag", cObj: "attr", cAct: "act"}[k]
	switch c.Intn(4) {
	case 0:
		return fmt.Sprintf("%s%d", base, i)
	case 1:
		return fmt.Sprintf("%s_%d", base, i)
	}
	if c.rare(15) {
		base += strings.Repeat("_long", 10+c.Intn(20)) // names that differ at the end only
	}
	return fmt.Sprintf("%s%c", base, 'a'+i)
}

func render(c *C, e Expr) string {
	return e.Render(&style{pick: c.R.Intn})
}

func (s *Scen) rOf(c *C, ks ...cat) (rArg, bool) {
	idx := []int{}
	for i, k := range s.RCats {
		for _, k2 := range ks {
			if k == k2 {
				idx = append(idx, i)
			}
		}
	}
	if len(idx) == 0 {
		return rArg{}, false
	}
	i := idx[c.Intn(len(idx))]
	return rArg{s.RKey, s.RArgs[i], i}, true
}

func (s *Scen) pOf(c *C, ks ...cat) (pArg, bool) {
	idx := []int{}
	for i, k := range s.PCats {
		if i == s.Eft {
			continue
		}
		for _, k2 := range ks {
			if k == k2 {
				idx = append(idx, i)
			}
		}
	}
	if len(idx) == 0 {
		return pArg{}, false
	}
	i := idx[c.Intn(len(idx))]
	return pArg{s.PKey, s.PArgs[i], i}, true
}

// str is any string-valued expression of category k
func (s *Scen) str(c *C, k cat) Expr {
	r, rok := s.rOf(c, k)
	p, pok := s.pOf(c, k)
	switch {
	case rok && c.Chance(50):
		return r
	case pok && c.Chance(70):
		return p
	case k == cName && c.Chance(30):
		if o, ok := s.rOf(c, cObj); ok {
			return rField{o, [][]string{{"Name"}, {"Owner", "Name"}}[c.Intn(2)]}
		}
	}
	if rok && c.Chance(40) {
		return r
	}
	if pok && c.Chance(40) {
		return p
	}
	return strLit{c.Pick(s.vocab(k))}
}

func (s *Scen) num(c *C, depth int) Expr {
	if depth > 0 && c.Chance(35) {
		op := []string{"+", "-", "*", "%", "/", "**", "&", "|", "^", "<<", ">>", "-x", "~x"}[c.Intn(13)]
		l := s.num(c, depth-1)
		switch op {
		case "-x", "~x":
			return signExpr{op[:1], l}
		case "<<", ">>":
			return arithExpr{op, numLit{[]float64{0, 1, 5, 18, 200}[c.Intn(5)]}, numLit{float64(c.Intn(4))}}
		case "**":
			return arithExpr{op, l, numLit{float64(c.Intn(3))}}
		}
		r := s.num(c, depth-1)
		if op == "%" || op == "/" {
			r = numLit{float64(2 + c.Intn(3))}
		}
		return arithExpr{op, l, r}
	}
	if r, ok := s.rOf(c, cNum); ok && c.Chance(50) {
		return r
	}
	if o, ok := s.rOf(c, cObj); ok && c.Chance(70) {
		return rField{o, [][]string{{"Age"}, {"Level"}, {"Owner", "Age"}}[c.Intn(3)]}
	}
	return numLit{[]float64{0, 1, 2, 5, 18, 0.5, 2.5}[c.Intn(7)]}
}

func (s *Scen) genBool(c *C, leafs int) Expr {
	if leafs <= 1 {
		if c.Chance(8) {
			return notExpr{s.leaf(c)}
		}
		return s.leaf(c)
	}
	if c.Chance(6) {
		return notExpr{s.genBool(c, leafs)}
	}
	if c.Chance(5) && leafs >= 3 {
		k := 1 + c.Intn(leafs-2)
		j := 1 + c.Intn(leafs-k-1)
		return terExpr{s.genBool(c, k), s.genBool(c, j), s.genBool(c, leafs-k-j)}
	}
	n := 2
	if leafs > 2 && c.Chance(50) {
		n = 2 + c.Intn(leafs-1)
	}
	xs := []Expr{}
	rest := leafs
	for i := 0; i < n; i++ {
		k := 1
		if i == n-1 {
			k = rest
		} else if rest-(n-1-i) > 1 {
			k = 1 + c.Intn(rest-(n-1-i))
		}
		rest -= k
		xs = append(xs, s.genBool(c, k))
		if rest <= 0 {
			break
		}
	}
	if len(xs) == 1 {
		return xs[0]
	}
	if c.Chance(55) {
		return andExpr{xs}
	}
	return orExpr{xs}
}

func (s *Scen) leaf(c *C) Expr {
	for {
		if e := s.tryLeaf(c); e != nil {
			return e
		}
	}
}

func (s *Scen) tryLeaf(c *C) Expr {
	strCats := []cat{cName, cName, cName, cAct, cDom, cPath}
	k := strCats[c.Intn(len(strCats))]
	if s.glue != nil && c.Chance(25) {
		if e := s.glueLeaf(c); e != nil {
			return e
		}
	}
	switch c.Intn(25) {
	case 0, 1, 2, 3, 4, 5: // r == p
		r, ok := s.rOf(c, k)
		p, ok2 := s.pOf(c, k)
		if !ok || !ok2 {
			return nil
		}
		op := "=="
		if c.Chance(12) {
			op = "!="
		}
		if c.Chance(50) {
			return cmpExpr{op, r, p}
		}
		return cmpExpr{op, p, r}
	case 6: // comparison with a literal
		l := s.str(c, k)
		return cmpExpr{[]string{"==", "!=", "==", "<", ">="}[c.Intn(5)], l, strLit{c.Pick(s.vocab(k))}}
	case 7:
		return cmpExpr{[]string{"==", "!=", "<", "<=", ">", ">="}[c.Intn(6)], s.str(c, k), s.str(c, k)}
	case 8, 9, 10: // roles
		if len(s.Gs) == 0 {
			return nil
		}
		g := s.Gs[c.Intn(len(s.Gs))]
		args := []Expr{s.str(c, cName), s.str(c, cName)}
		if c.Chance(60) {
			if r, ok := s.rOf(c, cName); ok {
				args[0] = r
			}
			if p, ok := s.pOf(c, cName); ok {
				args[1] = p
			}
		}
		for i := 0; i < g.doms; i++ {
			args = append(args, s.str(c, cDom))
		}
		return callExpr{g.key, args}
	case 11:
		p, ok := s.pOf(c, cPath)
		if !ok {
			return nil
		}
		var a Expr = strLit{c.Pick(rPaths)}
		if r, ok := s.rOf(c, cPath); ok && c.Chance(80) {
			a = r
		}
		return callExpr{[]string{"pathMatch", "pathMatch2"}[c.Intn(2)], []Expr{a, p}}
	case 12:
		p, ok := s.pOf(c, cRegex)
		if !ok {
			return callExpr{"regexMatch", []Expr{s.str(c, cName), strLit{c.Pick(regexes)}}}
		}
		return callExpr{"regexMatch", []Expr{s.str(c, cName), p}}
	case 13:
		p, ok := s.pOf(c, cGlob)
		if !ok {
			return nil
		}
		return callExpr{"globMatch", []Expr{s.str(c, k), p}}
	case 14:
		r, ok := s.rOf(c, cIP)
		if !ok {
			return nil
		}
		if p, ok := s.pOf(c, cIP); ok && c.Chance(70) {
			s.usesIPOnP = true
			return callExpr{"ipMatch", []Expr{r, p}}
		}
		return callExpr{"ipMatch", []Expr{r, strLit{c.Pick(pIPs)}}}
	case 15:
		v := s.vocab(k)
		list := []string{}
		for i, n := 0, 2+c.Intn(2); i < n; i++ {
			list = append(list, c.Pick(v))
		}
		return inExpr{s.str(c, k), list}
	case 16:
		return cmpExpr{[]string{"==", "!=", "<", "<=", ">", ">="}[c.Intn(6)], s.num(c, 2), s.num(c, 1)}
	case 17:
		if o, ok := s.rOf(c, cObj); ok && c.Chance(50) {
			switch c.Intn(4) {
			case 0:
				return methodExpr{o, "Is", []Expr{s.str(c, cName)}}
			case 1:
				return methodExpr{o, "Between", []Expr{s.num(c, 1), s.num(c, 1)}}
			case 2:
				return cmpExpr{"==", methodExpr{o, "Label", []Expr{s.str(c, cAct)}}, s.str(c, cName)}
			}
			return methodExpr{o, "Same", []Expr{s.str(c, cName), s.str(c, k), s.genBool(c, 1+c.Intn(2))}}
		}
		if o, ok := s.rOf(c, cObj); ok && c.Chance(60) {
			return rField{o, []string{"Admin"}}
		}
		if r, ok := s.rOf(c, cFlag); ok {
			return r
		}
		return nil
	case 18:
		return reExpr{s.str(c, k), c.Pick(regexes), c.Chance(30)}
	case 19: // concatenation
		var sepr Expr = strLit{[]string{"/", ":", ",", ""}[c.Intn(4)]}
		return cmpExpr{"==", arithExpr{"+", arithExpr{"+", s.str(c, cName), sepr}, s.str(c, k)}, arithExpr{"+", arithExpr{"+", s.str(c, cName), sepr}, s.str(c, k)}}
	case 20:
		return callExpr{[]string{"startsWith", "sameLen"}[c.Intn(2)], []Expr{s.str(c, cName), s.str(c, cName)}}
	case 21:
		if c.Chance(25) {
			return boolLit{c.Chance(60)}
		}
		return nil
	case 22: // booleans are compared
		if c.Chance(50) {
			return nil
		}
		return cmpExpr{[]string{"==", "!="}[c.Intn(2)], s.genBool(c, 1+c.Intn(2)), s.genBool(c, 1)}
	case 23: // a choice of values
		if c.Chance(50) {
			return nil
		}
		return cmpExpr{[]string{"==", "!=", "=="}[c.Intn(3)], s.str(c, k), terExpr{s.genBool(c, 1+c.Intn(2)), s.str(c, k), s.str(c, cName)}}
	case 24:
		if c.Chance(60) {
			return nil
		}
		return inNumExpr{s.num(c, 1), [][]float64{{0, 1}, {1, 2, 18}, {5, 2.5, 0.5}}[c.Intn(3)]}
	}
	return nil
}

// glueLeaf reads two fields of the rule at once
func (s *Scen) glueLeaf(c *C) Expr {
	p1, ok1 := s.pOf(c, cName)
	p2, ok2 := s.pOf(c, cName)
	if !ok1 || !ok2 || p1.idx == p2.idx {
		return nil
	}
	s.glued = []int{p1.idx + 1, p2.idx + 1}
	var a, b Expr = strLit{c.Pick(s.names)}, strLit{c.Pick(s.names)}
	if r, ok := s.rOf(c, cName); ok && c.Chance(60) {
		a = r
	}
	if r, ok := s.rOf(c, cName); ok && c.Chance(60) {
		b = r
	}
	switch c.Intn(4) {
	case 0:
		return callExpr{"sameLen", []Expr{p1, p2}}
	case 1:
		return orExpr{[]Expr{boolLit{false}, notExpr{orExpr{[]Expr{cmpExpr{"!=", a, p1}, cmpExpr{"!=", b, p2}}}}}}
	case 2:
		return notExpr{orExpr{[]Expr{cmpExpr{"!=", a, p1}, cmpExpr{"!=", b, p2}}}}
	}
	mid := strLit{[]string{"/", "", "<>"}[c.Intn(3)]}
	return cmpExpr{"==", arithExpr{"+", arithExpr{"+", p1, mid}, p2}, arithExpr{"+", arithExpr{"+", a, mid}, b}}
}

// Text is the model in the configuration language.
func (s *Scen) Text() string {
	return modelText(s.RKey, s.RArgs, s.PKey, s.PArgs, s.Gs, "e", effects[s.Effect], "m", s.MText)
}

func modelText(rKey string, rArgs []string, pKey string, pArgs []string, gs []gDef, eKey, effect, mKey, matcher string) string {
	t := "[request_definition]\n" + rKey + " = " + strings.Join(rArgs, ", ") + "\n\n[policy_definition]\n" + pKey + " = " + strings.Join(pArgs, ", ") + "\n\n"
	if len(gs) > 0 {
		t += "[role_definition]\n"
		for _, g := range gs {
			t += g.Text() + "\n"
		}
		t += "\n"
	}
	t += "[policy_effect]\n" + eKey + " = " + effect + "\n\n[matchers]\n"
	if matcher != "" {
		t += mKey + " = " + matcher + "\n"
	}
	return t
}

func (g gDef) Text() string {
	return g.key + " = _, _" + strings.Repeat(", _", g.doms)
}

func customFns(m interface {
	SetFunction(string, func(args ...interface{}) (interface{}, error))
}) {
}

// newModel creates the model of a scenario through the definition API, which,
// unlike configuration text, takes every matcher literally.
func (s *Scen) newModel() (*model.Model, error) {
	m := model.NewModel()
	setCustom(m)
	set := func(sec byte, key, value string) error {
		return m.SetDef(sec, key, value)
	}
	if err := set(model.R_SEC, s.RKey, strings.Join(s.RArgs, ", ")); err != nil {
		return nil, err
	}
	if err := set(model.P_SEC, s.PKey, strings.Join(s.PArgs, ", ")); err != nil {
		return nil, err
	}
	for _, g := range s.Gs {
		if err := set(model.G_SEC, g.key, "_, _"+strings.Repeat(", _", g.doms)); err != nil {
			return nil, err
		}
	}
	if err := set(model.E_SEC, "e", effects[s.Effect]); err != nil {
		return nil, err
	}
	if err := set(model.M_SEC, "m", s.MText); err != nil {
		return nil, err
	}
	if err := m.BuildMatchers(); err != nil {
		return nil, err
	}
	return m, nil
}

func setCustom(m *model.Model) {
	m.SetFunction("startsWith", func(a ...interface{}) (interface{}, error) {
		if len(a) != 2 {
			return nil, errors.New("startsWith: two arguments expected")
		}
		return strings.HasPrefix(a[0].(string), a[1].(string)), nil
	})
	m.SetFunction("sameLen", func(a ...interface{}) (interface{}, error) {
		if len(a) != 2 {
			return nil, errors.New("sameLen: two arguments expected")
		}
		return len(a[0].(string)) == len(a[1].(string)), nil
	})
}

func (s *Scen) newEnforcer(c *C) *fastac.Enforcer {
	m, err := s.newModel()
	if err != nil {
		c.Failf("model rejected: %v\n%s", err, s.Text())
	}
	var given interface{} = m
	if c.Chance(20) {
		given = *m // a model may be passed by value too
		c.Count("models passed by value")
	}
	e, err := fastac.NewEnforcer(given, nil)
	if err != nil {
		c.Failf("enforcer: %v", err)
	}
	return e
}

// genRule returns a rule with its key
func (s *Scen) genRule(c *C) []string {
	if c.Chance(40) {
		if rule := s.reglue(c); rule != nil {
			c.Count("rules that join to the same text as another one")
			s.last = rule
			return append([]string{}, rule...)
		}
	}
	rule := []string{s.PKey}
	defer func() { s.last = append([]string{}, rule...) }()
	for i, k := range s.PCats {
		if i == s.Eft {
			rule = append(rule, genEft(c))
		} else {
			rule = append(rule, c.Pick(s.vocab(k)))
		}
	}
	return rule
}

// crowd adds many rules and links: what is stored, indexed, cached or grouped must not
// depend on how many there are
func (s *Scen) crowd(c *C, e *fastac.Enforcer, st *Store) {
	n := []int{65, 130, 260, 300, 520, 1030}[c.Intn(6)]
	name := func() string { return fmt.Sprint("n", c.Intn(n/2)) }
	for i := 0; i < n; i++ {
		if len(s.Gs) > 0 && c.Chance(25) {
			l := s.genLink(c)
			l[1] = name()
			if c.Chance(50) {
				l[2] = name()
			}
			s.edit(c, e, st, true, l)
			continue
		}
		rule := s.genRule(c)
		for j, k := range s.PCats {
			if k == cName && j != s.Eft && c.Chance(75) {
				rule[j+1] = name()
			}
		}
		s.edit(c, e, st, true, rule)
	}
	for i := 0; i < 4; i++ {
		s.names = append(s.names, name())
	}
	c.Count("scenarios with 60 to 1000 rules")
}

func genEft(c *C) string {
	switch c.Intn(10) {
	case 0, 1, 2, 3:
		return "allow"
	case 4, 5, 6:
		return "deny"
	case 7, 8:
		return ""
	}
	return []string{"foo", "Allow", "indeterminate", "DENY", "deny ", " allow", "denied", "a", "0", "1", "true", "Deny"}[c.Intn(12)]
}

func (s *Scen) genLink(c *C) []string {
	g := s.Gs[c.Intn(len(s.Gs))]
	rule := []string{g.key, c.Pick(s.names), c.Pick(s.names)}
	for i := 0; i < g.doms; i++ {
		rule = append(rule, c.Pick(s.doms))
	}
	return rule
}

func (s *Scen) genRequest(c *C) []interface{} {
	vals := []interface{}{}
	for _, k := range s.RCats {
		switch k {
		case cPath:
			vals = append(vals, c.Pick(rPaths))
		case cIP:
			vals = append(vals, c.Pick(rIPs))
		case cNum:
			f := []float64{0, 1, 2, 5, 18, 2.5}[c.Intn(6)]
			if f == float64(int(f)) && c.Chance(50) {
				vals = append(vals, int(f))
			} else {
				vals = append(vals, f)
			}
		case cFlag:
			vals = append(vals, c.Chance(50))
		case cObj:
			a := Attr{Name: c.Pick(s.names), Dept: c.Pick(acts), Age: float64(c.Intn(4) * 9), Level: float64(c.Intn(3)), Admin: c.Chance(40), Owner: Person{c.Pick(s.names), float64(c.Intn(3) * 9)}}
			if c.Chance(30) {
				vals = append(vals, &a)
			} else {
				vals = append(vals, a)
			}
		default:
			vals = append(vals, c.Pick(s.vocab(k)))
		}
	}
	return vals
}

// ---- reference rule store ----

// Store is the reference rule set: a set per key, and the role graphs.
type Store struct {
	rules map[string]map[string][]string // policy key -> hash -> rule (with key)
	roles map[string]RoleRef
	order []string
}

func newStore() *Store {
	return &Store{rules: map[string]map[string][]string{}, roles: map[string]RoleRef{}}
}

func rkey(rule []string) string { return fmt.Sprintf("%q", rule) }

func (st *Store) Add(rule []string) bool {
	k := rule[0]
	if st.rules[k] == nil {
		st.rules[k] = map[string][]string{}
	}
	h := rkey(rule)
	if _, ok := st.rules[k][h]; ok {
		return false
	}
	st.rules[k][h] = append([]string{}, rule...)
	if k[0] == 'g' {
		if st.roles[k] == nil {
			st.roles[k] = RoleRef{}
		}
		st.roles[k].Add(rule[1], rule[2], rule[3:]...)
	}
	return true
}

func (st *Store) Remove(rule []string) bool {
	k := rule[0]
	h := rkey(rule)
	if _, ok := st.rules[k][h]; !ok {
		return false
	}
	delete(st.rules[k], h)
	if k[0] == 'g' {
		st.roles[k].Del(rule[1], rule[2], rule[3:]...)
	}
	return true
}

func (st *Store) Has(rule []string) bool {
	_, ok := st.rules[rule[0]][rkey(rule)]
	return ok
}

func (st *Store) Clear(key string) {
	delete(st.rules, key)
	delete(st.roles, key)
}

// Rules returns the rules of key (with key), sorted.
func (st *Store) Rules(key string) [][]string {
	hashes := make([]string, 0, len(st.rules[key]))
	for h := range st.rules[key] {
		hashes = append(hashes, h)
	}
	sort.Strings(hashes)
	res := make([][]string, 0, len(hashes))
	for _, h := range hashes {
		res = append(res, st.rules[key][h])
	}
	return res
}

func (st *Store) All() [][]string {
	keys := []string{}
	for k := range st.rules {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return strconv.Quote(keys[i]) < strconv.Quote(keys[j]) })
	res := [][]string{}
	for _, k := range keys {
		res = append(res, st.Rules(k)...)
	}
	return res
}

func (st *Store) Len() int {
	n := 0
	for _, m := range st.rules {
		n += len(m)
	}
	return n
}

func sortRules(rules [][]string) {
	sort.Slice(rules, func(i, j int) bool { return rkey(rules[i]) < rkey(rules[j]) })
}

func ruleSet(rules [][]string) string {
	ks := []string{}
	for _, r := range rules {
		ks = append(ks, rkey(r))
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

func (st *Store) has(g string, args []string) bool {
	return st.roles[g].Has(args[0], args[1], args[2:]...)
}

// Matching returns the rules (with key) of the scenario's policy that satisfy m.
func (s *Scen) Matching(st *Store, m Expr, req []interface{}) [][]string {
	res := [][]string{}
	for _, rule := range st.Rules(s.PKey) {
		if s.holds(st, m, req, rule[1:]) {
			res = append(res, rule)
		}
	}
	return res
}

func (s *Scen) holds(st *Store, m Expr, req []interface{}, rule []string) bool {
	env := &Env{RKey: s.RKey, PKey: s.PKey, RArgs: s.RArgs, R: req, PArgs: s.PArgs, P: rule, Has: st.has, Fn: s.fn}
	return m.Eval(env).(bool)
}

func eftOf(s *Scen, rule []string) int { // 1 allow, -1 deny, 0 neither
	if s.Eft < 0 {
		return 1
	}
	switch rule[s.Eft] {
	case "", "allow":
		return 1
	case "deny":
		return -1
	}
	return 0
}

func combine(effect int, efts []int) bool {
	allow, deny := false, false
	for _, e := range efts {
		allow = allow || e == 1
		deny = deny || e == -1
	}
	switch effect {
	case 0:
		return allow
	case 1:
		return !deny
	}
	return allow && !deny
}

// Decide is the reference decision.
func (s *Scen) Decide(st *Store, req []interface{}) bool {
	return s.decideWith(st, s.M, s.Effect, req)
}

func (s *Scen) decideWith(st *Store, m Expr, effect int, req []interface{}) bool {
	efts := []int{}
	if len(st.rules[s.PKey]) == 0 {
		empty := make([]string, len(s.PArgs))
		if s.holds(st, m, req, empty) {
			efts = append(efts, eftOf(s, empty))
		}
	} else {
		for _, rule := range s.Matching(st, m, req) {
			efts = append(efts, eftOf(s, rule[1:]))
		}
	}
	return combine(effect, efts)
}

func showReq(req []interface{}) string {
	parts := []string{}
	for _, v := range req {
		if p, ok := v.(*Attr); ok {
			parts = append(parts, fmt.Sprintf("&%+v", *p))
			continue
		}
		parts = append(parts, fmt.Sprintf("%#v", v))
	}
	return strings.Join(parts, ", ")
}
