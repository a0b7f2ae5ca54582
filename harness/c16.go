package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/storage/adapter"
)

// fileScene is one edit of a policy file.
type fileScene struct {
	op       string // save, add, remove, addmany, removemany, esave, eadd, eremove
	old      [][]string
	edit     [][]string // rules that are saved, added or removed
	next     [][]string // rules of the file afterwards
	missing  bool       // there is no old file
	layout   string     // plain, symlink, relative symlink, mode 0600
	relative bool
}

var fileOps = []string{"save", "add", "remove", "addmany", "removemany", "esave", "eadd", "eaddmany", "eremove"}

func fileRule(r *rand.Rand, wide bool) []string {
	rule := []string{"p"}
	for i := 0; i < 3; i++ {
		f := fmt.Sprint("f", r.Intn(60))
		if r.Intn(5) == 0 {
			f = anyField(r)
		}
		if wide {
			f += strings.Repeat("x", r.Intn(60))
		}
		rule = append(rule, f)
	}
	return rule
}

func newFileScene(seed int64) *fileScene {
	r := rand.New(rand.NewSource(seed))
	s := &fileScene{op: fileOps[r.Intn(len(fileOps))], layout: []string{"plain", "plain", "symlink", "relative symlink", "mode 0600"}[r.Intn(5)]}
	n := []int{0, 1, 3, 10, 200, 700}[r.Intn(6)]
	for i := 0; i < n; i++ {
		s.old = append(s.old, fileRule(r, n > 50))
	}
	s.old = setOf(s.old)
	s.missing = (s.op == "save") && r.Intn(5) == 0
	if s.missing {
		s.old, s.layout = nil, "plain"
	}
	switch s.op {
	case "save", "esave":
		m := []int{0, 1, 5, 150, 900}[r.Intn(5)]
		for i := 0; i < m; i++ {
			s.edit = append(s.edit, fileRule(r, m > 50))
		}
		if r.Intn(3) == 0 { // the new rules share a prefix with the old ones
			s.edit = append(append([][]string{}, s.old...), s.edit...)
		}
		s.edit = setOf(s.edit)
		s.next = s.edit
	case "add", "eadd":
		s.edit = [][]string{fileRule(r, true)}
		s.next = setOf(append(append([][]string{}, s.old...), s.edit...))
	case "addmany", "eaddmany":
		for i := 1 + r.Intn(200); i > 0; i-- {
			s.edit = append(s.edit, fileRule(r, true))
		}
		s.next = setOf(append(append([][]string{}, s.old...), s.edit...))
	default:
		k := 1
		if s.op == "removemany" {
			k = 1 + r.Intn(50)
		}
		s.next = s.old
		for ; k > 0; k-- {
			x := fileRule(r, true)
			if len(s.old) > 0 && r.Intn(4) > 0 {
				x = s.old[r.Intn(len(s.old))]
			}
			s.edit = append(s.edit, x)
			s.next = withoutRule(s.next, x)
		}
	}
	return s
}

func fileModel() *model.Model {
	m := model.NewModel()
	for _, d := range [][3]string{{"r", "r", "sub, obj, act"}, {"p", "p", "sub, obj, act"}, {"e", "e", effects[0]}, {"m", "m", "r.sub == p.sub"}} {
		if err := m.SetDef(d[0][0], d[1], d[2]); err != nil {
			panic(err)
		}
	}
	return m
}

// prepare returns an operation that edits the file
func (s *fileScene) prepare(path string) (func() error, error) {
	a := adapter.NewFileAdapter(path)
	if s.op[0] == 'e' {
		m := fileModel()
		var e *fastac.Enforcer
		var err error
		if s.op != "esave" {
			e, err = fastac.NewEnforcer(m, path, fastac.OptionAutosave(true))
			if err != nil {
				return nil, err
			}
		} else {
			e, err = fastac.NewEnforcer(m, a, fastac.OptionStorage(false))
			if err != nil {
				return nil, err
			}
			if err := e.AddRules(s.edit); err != nil {
				return nil, err
			}
		}
		return func() (err error) {
			switch s.op {
			case "esave":
				return e.SavePolicy()
			case "eadd":
				_, err = e.AddRule(s.edit[0])
			case "eaddmany":
				err = e.AddRules(s.edit)
			case "eremove":
				_, err = e.RemoveRule(s.edit[0])
			}
			return err
		}, nil
	}
	return func() error {
		switch s.op {
		case "save":
			return a.SavePolicy(&rulesOf{rules: s.edit, fail: -1})
		case "add":
			return a.AddRule(s.edit[0])
		case "remove":
			return a.RemoveRule(s.edit[0])
		case "addmany":
			return a.AddRules(s.edit)
		}
		return a.RemoveRules(s.edit)
	}, nil
}

// setup creates the directory with the old file and returns the path to use
func (s *fileScene) setup(c *C, dir string) string {
	removeIn(dir)
	real := filepath.Join(dir, "real", "rules.csv")
	path := real
	for _, d := range []string{"real", "link"} {
		if err := os.MkdirAll(filepath.Join(dir, d), 0755); err != nil {
			panic(err)
		}
	}
	if !s.missing {
		if err := adapter.NewFileAdapter(real).SavePolicy(&rulesOf{rules: s.old, fail: -1}); err != nil {
			c.Failf("save: %v", err)
		}
	}
	switch s.layout {
	case "symlink":
		path = filepath.Join(dir, "link", "rules.csv")
		if err := os.Symlink(real, path); err != nil {
			panic(err)
		}
	case "relative symlink":
		path = filepath.Join(dir, "link", "rules.csv")
		if err := os.Symlink("../real/rules.csv", path); err != nil {
			panic(err)
		}
	case "mode 0600":
		_ = os.Chmod(real, 0600)
	}
	return path
}

// removeIn empties a scratch directory of the check
func removeIn(dir string) {
	if !strings.Contains(dir, "scene-") {
		panic("not a scratch directory: " + dir)
	}
	if err := os.RemoveAll(dir); err != nil {
		panic(err)
	}
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
}

func listing(dir string) []string {
	res := []string{}
	_ = filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			res = append(res, strings.TrimPrefix(p, dir))
		}
		return nil
	})
	sort.Strings(res)
	return res
}

// extra returns the files that do not belong into the directory
func (s *fileScene) extra(dir string) []string {
	res := []string{}
	for _, f := range listing(dir) {
		if f != "/real/rules.csv" && f != "/link/rules.csv" {
			res = append(res, f)
		}
	}
	return res
}

// state is "old", "new" or a description of the damage
func (s *fileScene) state(path string) string {
	if _, err := os.Stat(path); os.IsNotExist(err) {
		if s.missing {
			return "old"
		}
		return "the file is gone"
	}
	rules, err := loadFile(path)
	if err != nil {
		return fmt.Sprintf("the file cannot be loaded: %v", err)
	}
	got := ruleSet(rules)
	if got == ruleSet(s.next) && len(rules) == len(s.next) {
		return "new"
	}
	if got == ruleSet(s.old) && !s.missing {
		return "old"
	}
	return fmt.Sprintf("the file contains %d rules, neither the %d old nor the %d new ones: %s", len(rules), len(s.old), len(s.next), trim(fmt.Sprintf("%q", rules), 600))
}

func (s *fileScene) String() string {
	return fmt.Sprintf("%s (%s, old file missing=%v, %d old rules, %d edited, %d new rules)", s.op, s.layout, s.missing, len(s.old), len(s.edit), len(s.next))
}

// judge checks the directory after an operation; res is what it returned
func (s *fileScene) judge(c *C, dir, path, what, res string, mayLeave bool) {
	c.Eval()
	st := s.state(path)
	if st != "old" && st != "new" {
		c.Failf("%s, %s: %s => %s", s, what, res, st)
	}
	if res == "ok" && st != "new" && ruleSet(s.next) != ruleSet(s.old) {
		c.Failf("%s, %s: reported as successful, but the file holds the old rules", s, what)
	}
	if info, err := os.Stat(path); err == nil && s.layout == "mode 0600" && !s.missing && info.Mode().Perm() != 0600 {
		c.Failf("%s, %s: %s => a private file (mode 0600) got the mode %o", s, what, res, info.Mode().Perm())
	}
	if info, err := os.Lstat(path); strings.Contains(s.layout, "symlink") && !s.missing && (err != nil || info.Mode()&os.ModeSymlink == 0) {
		c.Failf("%s, %s: %s => the symbolic link was replaced", s, what, res)
	}
	if x := s.extra(dir); len(x) > 0 && !mayLeave {
		c.Failf("%s, %s: %s => left behind %q", s, what, res, x)
	}
	c.Count(res + ", file " + st)
}

// again checks that a later save succeeds
func (s *fileScene) again(c *C, dir, path, what string) {
	before := len(s.extra(dir))
	if err := adapter.NewFileAdapter(path).SavePolicy(&rulesOf{rules: s.next, fail: -1}); err != nil {
		c.Failf("%s, %s: a later save returned %v", s, what, err)
	}
	st := s.state(path)
	if st != "new" && ruleSet(s.next) != ruleSet(s.old) || len(s.extra(dir)) > before {
		c.Failf("%s, %s: after a later save: %s, %q", s, what, st, s.extra(dir))
	}
}

func runC16(c *C) {
	if c.Idx%25 == 0 {
		c16Trace(c)
		return
	}
	dir := filepath.Join(c.Dir(), "scene-in")
	defer os.RemoveAll(dir)
	seed := c.R.Int63()
	s := newFileScene(seed)
	path := s.setup(c, dir)
	c.Logf("%s", s)
	op, err := s.prepare(path)
	if err != nil {
		c.Failf("%s: %v", s, err)
	}
	gc := debug.SetGCPercent(-1) // forgotten files stay open
	defer debug.SetGCPercent(gc)
	defer debug.SetMemoryLimit(debug.SetMemoryLimit(512 << 20))
	fds := openFiles()
	run := func(f func() error) (res string) {
		defer func() {
			if r := recover(); r != nil {
				res = fmt.Sprint("panic: ", r)
			}
		}()
		if err := f(); err != nil {
			return "error"
		}
		return "ok"
	}
	what := ""
	switch k := c.Intn(10); {
	case k < 4: // what a kill in the middle of the save would leave
		what = "observed during the save"
		seen := map[string]bool{}
		src := &rulesOf{rules: s.next, fail: -1}
		src.at = func(i int) {
			if i == 0 || i == len(src.rules) || i == len(src.rules)/2 || c.Chance(3) {
				c.Eval()
				st := s.state(path)
				if st != "old" && st != "new" {
					c.Failf("%s, after %d of %d rules were written: %s", s, i, len(src.rules), st)
				}
				seen[st] = true
				c.Count("states during a save")
			}
		}
		res := run(func() error { return adapter.NewFileAdapter(path).SavePolicy(src) })
		if strings.HasPrefix(res, "panic") {
			c.Failf("%s: %s", s, res)
		}
		s.judge(c, dir, path, what, res, false)
		if res != "ok" {
			c.Failf("%s: a save failed", s)
		}
		c.Distinct(what, s.op, s.layout, len(s.old), len(s.next), seen["old"], seen["new"])
	case k < 6: // the rule source fails half way
		at := 0
		if len(s.next) > 0 {
			at = c.Intn(len(s.next) + 1)
		}
		what = fmt.Sprintf("rule source panics at %d", at)
		src := &rulesOf{rules: s.next, fail: -1}
		src.at = func(i int) {
			if i == at {
				panic(errInjected)
			}
		}
		res := run(func() error { return adapter.NewFileAdapter(path).SavePolicy(src) })
		if res == "ok" {
			c.Failf("%s, %s: reported as successful", s, what)
		}
		if strings.HasPrefix(res, "panic") {
			res = "error"
		}
		s.judge(c, dir, path, what, res, false)
		if st := s.state(path); st != "old" && ruleSet(s.old) != ruleSet(s.next) {
			c.Failf("%s, %s: %s rules", s, what, st)
		}
		c.Count("failing rule sources")
		c.Distinct("source", s.layout, len(s.old), len(s.next), at)
	case k < 8: // disk full
		limit := c.Intn(1 + c.Intn(60000))
		what = fmt.Sprintf("file size limit %d", limit)
		signal.Ignore(syscall.SIGXFSZ)
		var lim syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			panic(err)
		}
		small := syscall.Rlimit{Cur: uint64(limit), Max: lim.Max}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &small); err != nil {
			panic(err)
		}
		res := run(op)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			panic(err)
		}
		if strings.HasPrefix(res, "panic") {
			c.Failf("%s, %s: %s", s, what, res)
		}
		s.judge(c, dir, path, what, res, false)
		c.Count("disk full: " + res)
		c.Distinct("full", s.op, s.layout, len(s.old), len(s.next), res)
	case k < 9: // places that cannot be written
		bad := ""
		switch c.Intn(4) {
		case 0:
			bad = filepath.Join(dir, "none", "rules.csv")
			if os.RemoveAll(filepath.Join(dir, "none")); c.Chance(50) {
				bad = filepath.Join(dir, "none", "deeper", "rules.csv")
			}
		case 1: // a directory that is not empty
			bad = filepath.Join(dir, "real")
			if s.missing {
				_ = os.WriteFile(filepath.Join(bad, "rules.csv"), nil, 0644)
				s.missing = false
				s.old = nil
			}
		case 2: // below a file
			bad = filepath.Join(dir, "file", "rules.csv")
			_ = os.WriteFile(filepath.Join(dir, "file"), []byte("x"), 0644)
		default: // below something that does not exist any more
			bad = filepath.Join(dir, "dangling", "rules.csv")
			_ = os.Symlink(filepath.Join(dir, "nowhere"), filepath.Join(dir, "dangling"))
		}
		what = fmt.Sprintf("saving to %s", strings.TrimPrefix(bad, dir))
		before := strings.Join(listing(dir), " ")
		a := adapter.NewFileAdapter(bad)
		for i, f := range []func() error{
			func() error { return a.SavePolicy(&rulesOf{rules: s.next, fail: -1}) },
			func() error { return a.AddRule([]string{"p", "a", "b", "c"}) },
			func() error { return a.AddRules([][]string{{"p", "a", "b", "c"}}) },
		} {
			if res := run(f); res != "error" {
				c.Failf("%s, %s: operation %d: %s", s, what, i, res)
			}
		}
		if after := strings.Join(listing(dir), " "); after != before {
			c.Failf("%s, %s: files before: %s, after: %s", s, what, before, after)
		}
		if st := s.state(path); st != "old" && ruleSet(s.old) != ruleSet(s.next) {
			c.Failf("%s, %s: %s rules", s, what, st)
		}
		c.Count("unwritable places")
		c.Distinct(what[:12], bad[len(dir):], len(s.next))
	default: // no files can be opened
		what = "too many open files"
		var lim syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
			panic(err)
		}
		n := maxFD() + 4
		small := syscall.Rlimit{Cur: uint64(n), Max: lim.Max}
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &small); err != nil {
			panic(err)
		}
		dummies := []*os.File{}
		for {
			f, err := os.Open("/dev/null")
			if err != nil {
				break
			}
			dummies = append(dummies, f)
		}
		free := c.Intn(3)
		for i, f := range dummies {
			if i < free {
				_ = f.Close()
			}
		}
		res := run(op)
		for i, f := range dummies {
			if i >= free {
				_ = f.Close()
			}
		}
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
			panic(err)
		}
		if strings.HasPrefix(res, "panic") {
			c.Failf("%s, %s: %s", s, what, res)
		}
		s.judge(c, dir, path, what, res, false)
		c.Count("no file descriptors: " + res)
		c.Distinct("nofile", s.op, len(s.old), len(s.next), res)
	}
	if n := openFiles(); n != fds {
		c.Failf("%s, %s: %d files are open, %d were open before", s, what, n, fds)
	}
	s.again(c, dir, path, what)
	if n := openFiles(); n != fds {
		c.Failf("%s, %s: after a later save %d files are open, %d were open before", s, what, n, fds)
	}
	c.Sample("%s, %s", s, what)
}

func openFiles() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	n := 0
	for _, x := range d {
		if l, err := os.Readlink("/proc/self/fd/" + x.Name()); err == nil && strings.HasPrefix(l, "/") {
			n++
		}
	}
	return n
}

// maxFD is the lowest limit that leaves the open files usable
func maxFD() int {
	d, _ := os.ReadDir("/proc/self/fd")
	m := 0
	for _, x := range d {
		if n, err := strconv.Atoi(x.Name()); err == nil {
			if _, err := os.Readlink("/proc/self/fd/" + x.Name()); err == nil && n > m {
				m = n
			}
		}
	}
	return m + 1
}

const (
	exitError = 10
	exitPanic = 11
)

func init() {
	// helper file SEED PATH: runs the operation of a scene
	helpers["file"] = func(args []string) {
		runtime.LockOSThread()
		seed, _ := strconv.ParseInt(args[0], 10, 64)
		s := newFileScene(seed)
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintln(os.Stderr, r)
				os.Exit(exitPanic)
			}
		}()
		op, err := s.prepare(args[1])
		if err == nil {
			err = op()
		}
		if err != nil {
			os.Exit(exitError)
		}
		os.Exit(0)
	}
}

const fileCalls = "openat,open,creat,read,pread64,write,pwrite64,writev,fsync,fdatasync,sync_file_range,close,rename,renameat,renameat2,unlink,unlinkat,link,linkat,symlinkat,ftruncate,truncate,fallocate,fchmod,fchmodat,chmod,fchown,newfstatat,fstat,readlinkat,copy_file_range,sendfile,lseek,flock"

var fileErrors = map[string][]string{
	"openat": {"EACCES", "ENOSPC", "EMFILE", "EROFS"}, "read": {"EIO"}, "write": {"ENOSPC", "EIO", "EDQUOT"},
	"fsync": {"EIO", "ENOSPC"}, "close": {"EIO"}, "renameat": {"EACCES", "EXDEV", "EROFS", "ENOSPC"}, "fchmod": {"EPERM"},
	"newfstatat": {"EACCES"}, "unlinkat": {"EACCES", "EROFS"}, "ftruncate": {"EIO"}, "truncate": {"EIO"}, "copy_file_range": {"EIO"},
	"readlinkat": {"EACCES"}, "linkat": {"EPERM"}, "fchmodat": {"EPERM"}, "writev": {"ENOSPC"}, "pwrite64": {"ENOSPC"}, "fdatasync": {"EIO"},
}

var straceLine = regexp.MustCompile(`^(\d+) +([a-z0-9_]+)\(`)

var (
	traceOpen   = regexp.MustCompile(`openat\(\S+ "([^"]*)", (\S+?)(?:, \d+)?\) += (\d+)$`)
	traceFd     = regexp.MustCompile(`\b(write|pwrite64|writev|fsync|fdatasync|close|ftruncate|sync_file_range)\((\d+)`)
	traceRename = regexp.MustCompile(`\brename(?:at2?)?\((?:AT_FDCWD, )?"([^"]*)", (?:AT_FDCWD, )?"([^"]*)"`)
)

// unsynced returns the name of a file that was renamed to the policy file while its contents could
// still be lost, if the machine stops
func unsynced(trace, path string) string {
	names := map[string]string{} // descriptor => file
	dirty := map[string]bool{}   // files
	for _, l := range strings.Split(trace, "\n") {
		if m := traceOpen.FindStringSubmatch(l); m != nil {
			names[m[3]] = m[1]
			if strings.Contains(m[2], "SYNC") {
				delete(names, m[3])
			}
		} else if m := traceRename.FindStringSubmatch(l); m != nil {
			if filepath.Base(m[2]) == filepath.Base(path) && dirty[m[1]] {
				return m[1]
			}
		} else if m := traceFd.FindStringSubmatch(l); m != nil {
			name, ok := names[m[2]]
			switch m[1] {
			case "close":
				delete(names, m[2])
			case "fsync", "fdatasync", "sync_file_range":
				delete(dirty, name)
			default:
				if ok {
					dirty[name] = true
				}
			}
		}
	}
	return ""
}

// c16Trace kills the process, or lets a system call fail, at every point
func c16Trace(c *C) {
	strace, err := exec.LookPath("strace")
	if err != nil {
		c.Count("strace is not available")
		return
	}
	dir := filepath.Join(c.Dir(), "scene-trace")
	defer os.RemoveAll(dir)
	seed := c.R.Int63()
	s := newFileScene(seed)
	self, _ := os.Executable()
	log := filepath.Join(c.Dir(), fmt.Sprintf("trace-%d", c.Idx))
	defer os.Remove(log)
	exe := func(path string, opts ...string) (string, string) {
		args := append([]string{"-f", "-qq", "--signal=none", "-o", log, "-e", "trace=" + fileCalls}, opts...)
		args = append(args, self, "helper", "file", fmt.Sprint(seed), path)
		cmd := exec.Command(strace, args...)
		cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "PATH=/usr/bin:/bin"}
		out, err := cmd.CombinedOutput()
		if err == nil {
			return "ok", ""
		}
		code := -1
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
		}
		switch code {
		case exitError:
			return "error", ""
		case exitPanic:
			return "panic", string(out)
		}
		return "interrupted", fmt.Sprintf("%v %s", err, out)
	}
	path := s.setup(c, dir)
	res, out := exe(path)
	if res == "interrupted" {
		c.Count("strace cannot trace")
		c.Logf("%s", out)
		return
	}
	if res != "ok" {
		c.Failf("%s: %s %s", s, res, out)
	}
	s.judge(c, dir, path, "traced", res, false)
	b, err := os.ReadFile(log)
	if err != nil {
		panic(err)
	}
	if f := unsynced(string(b), path); f != "" {
		c.Failf("%s: %s replaces the policy file before its contents were written to the disk:\n%s", s, f, b)
	}
	c.Count("traces with synchronised contents")
	count := map[string]int{}
	first := ""
	started := false
	skip := map[string]int{} // calls before the file is touched
	for _, l := range strings.Split(string(b), "\n") {
		m := straceLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		if first == "" {
			first = m[1]
		}
		if m[1] != first {
			continue
		}
		if !started && strings.Contains(l, "rules.csv") {
			started = true
			for k, v := range count {
				skip[k] = v
			}
		}
		count[m[2]]++
	}
	calls := []string{}
	for k := range count {
		calls = append(calls, k)
	}
	sort.Strings(calls)
	points := 0
	for _, call := range calls {
		for n := skip[call] + 1; n <= count[call]; n++ {
			if count[call]-skip[call] > 24 && n > skip[call]+6 && n < count[call]-6 && !c.Chance(15) {
				continue // the middle of a long series of writes
			}
			faults := []string{"signal=KILL"}
			if errs := fileErrors[call]; len(errs) > 0 {
				faults = append(faults, "error="+c.Pick(errs))
			}
			for _, f := range faults {
				when := fmt.Sprint(n)
				if f != faults[0] && c.Chance(40) {
					when += "+" // keeps failing
				}
				what := fmt.Sprintf("%s of %s at call %s", f, call, when)
				path := s.setup(c, dir)
				res, out := exe(path, fmt.Sprintf("--inject=%s:%s:when=%s", call, f, when))
				if res == "panic" {
					c.Failf("%s, %s: %s", s, what, out)
				}
				mayLeave := res == "interrupted" || strings.HasPrefix(call, "unlink")
				s.judge(c, dir, path, what, res, mayLeave)
				s.again(c, dir, path, what)
				if f == faults[0] {
					c.Count("killed at " + call)
				} else {
					c.Count("failed " + call)
				}
				c.Distinct(s.op, s.layout, f, call, n-skip[call], len(s.old) > 50, len(s.next) > 50)
				points++
			}
		}
	}
	c.CountN("fault points", points)
	c.Sample("%s: %d fault points in %v", s, points, calls)
}

func init() {
	register(&Check{ID: "C16", Level: "fault_enumeration", Quick: 1200, Full: 30000, Run: runC16,
		Rule:   "one of 25 cases runs an edit of a policy file (save, single and batch edits, through adapter or enforcer; plain, symlinked, missing files; up to 900 rules) in a child process and repeats it once for every file system call that it makes (strace fault injection): killed at that call, and with that call failing (disk full, I/O error, missing permission, ...). The others observe the file from within the rule source while it is being saved, let the rule source panic at a random rule, limit the file size or the number of file descriptors, or save to impossible places. The file must hold the complete old or new rules, success implies the new ones, no files or descriptors are left, and a later save works; in the recorded calls, contents are flushed to the disk before they replace the file. Non-trivial: distinct (operation, layout, fault, call, position, size).",
		Assume: []string{"process kills and failing system calls, not power loss", "a killed process may leave a temporary file"}})
}
