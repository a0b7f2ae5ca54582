// Package main is the runtime monitor of FastAC: every check drives the real
// code of /repo through its public API and compares what it observes with an
// independent reference (oracle).
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is a monitor for one property.
type Check struct {
	ID          string
	Level       string
	Rule        string // how cases are made and what makes one non-trivial
	Quick, Full int    // number of cases per tier
	Race        bool   // informational: built with the race detector
	Run         func(c *C)
	Assume      []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type failure struct{ msg string }

// C is one case.
type C struct {
	ID    string
	Tier  string
	Seed  int64
	Idx   int
	R     *rand.Rand
	st    *Stats
	mu    sync.Mutex
	trace []string
	dir   string
	words []string
	kept  []keptResult
}

// Stats is what a worker observed.
type Stats struct {
	mu       sync.Mutex
	Evals    int64
	Counts   map[string]int64
	Samples  []string
	distinct map[uint64]struct{}
}

func newStats() *Stats {
	return &Stats{Counts: map[string]int64{}, distinct: map[uint64]struct{}{}}
}

const maxDistinct = 400000

func (c *C) Logf(f string, a ...interface{}) {
	c.mu.Lock()
	if len(c.trace) < 400 {
		c.trace = append(c.trace, fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

// Failf reports a violation of the property.
func (c *C) Failf(f string, a ...interface{}) {
	panic(failure{fmt.Sprintf(f, a...)})
}

// Eval counts one judged observation.
func (c *C) Eval() { c.st.mu.Lock(); c.st.Evals++; c.st.mu.Unlock() }

func (c *C) Count(k string) { c.CountN(k, 1) }
func (c *C) CountN(k string, n int) {
	c.st.mu.Lock()
	c.st.Counts[k] += int64(n)
	c.st.mu.Unlock()
}

// Distinct records a non-trivial observation, equal keys count once.
func (c *C) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.st.mu.Lock()
	if len(c.st.distinct) < maxDistinct {
		c.st.distinct[h.Sum64()] = struct{}{}
	}
	c.st.mu.Unlock()
}

func (c *C) Sample(f string, a ...interface{}) {
	c.st.mu.Lock()
	if len(c.st.Samples) < 2 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 900 {
			s = s[:900] + "..."
		}
		c.st.Samples = append(c.st.Samples, s)
	}
	c.st.mu.Unlock()
}

// Dir is a scratch directory of the worker.
func (c *C) Dir() string { return c.dir }

func (c *C) Intn(n int) int         { return c.R.Intn(n) }
func (c *C) Chance(p int) bool      { return c.R.Intn(100) < p }
func (c *C) Pick(s []string) string { return s[c.R.Intn(len(s))] }

func caseRand(id string, seed int64, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", id, seed, idx)
	return rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
}

func runCase(ch *Check, tier string, seed int64, idx int, st *Stats, dir string) (msg string, trace []string) {
	c := &C{ID: ch.ID, Tier: tier, Seed: seed, Idx: idx, R: caseRand(ch.ID, seed, idx), st: st, dir: dir}
	defer func() {
		if r := recover(); r != nil {
			trace = c.trace
			if f, ok := r.(failure); ok {
				msg = f.msg
			} else {
				msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}
	}()
	ch.Run(c)
	c.checkKept()
	return "", nil
}

type result struct {
	Evals   int64
	Counts  map[string]int64
	Samples []string
	Failed  bool
	Index   int
	Msg     string
	Trace   []string
}

// worker runs the cases shard, shard+n, shard+2n, ...
func worker(ch *Check, tier string, seed int64, shard, n, total int, out string) {
	debug.SetMaxStack(256 << 20)
	st := newStats()
	prog, err := os.Create(out + ".progress")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	dir := out + ".dir"
	if err := os.MkdirAll(dir, 0777); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	res := result{}
	buf := make([]byte, 8)
	for i := shard; i < total; i += n {
		binary.LittleEndian.PutUint64(buf, uint64(i))
		_, _ = prog.WriteAt(buf, 0)
		msg, trace := runCase(ch, tier, seed, i, st, dir)
		if msg != "" {
			res.Failed, res.Index, res.Msg, res.Trace = true, i, msg, trace
			break
		}
	}
	res.Evals, res.Counts, res.Samples = st.Evals, st.Counts, st.Samples
	hashes := make([]byte, 0, 8*len(st.distinct))
	for h := range st.distinct {
		binary.LittleEndian.PutUint64(buf, h)
		hashes = append(hashes, buf...)
	}
	_ = os.WriteFile(out+".hashes", hashes, 0644)
	b, _ := json.Marshal(res)
	if err := os.WriteFile(out+".json", b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

type replay struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     int64    `json:"seed"`
	Index    int      `json:"index"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
	How      string   `json:"how_to_replay"`
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.buf) < 16<<10 { // keep the beginning, the first report matters
		t.buf = append(t.buf, p...)
	}
	return len(p), nil
}

const watchdog = 240 * time.Second

func parent(ch *Check, tier string, seed int64, verif string) int {
	start := time.Now()
	total := ch.Quick
	if tier == "thorough" {
		total = ch.Full
	}
	n := 8
	if total < n {
		n = total
	}
	tmp, err := os.MkdirTemp("", "vmon-"+ch.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)

	self, _ := os.Executable()
	results := make([]result, n)
	var peak int64
	var wg sync.WaitGroup
	var mu sync.Mutex
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprint("w", w))
			t := &tail{}
			cmd := exec.Command(self, "worker", ch.ID, tier, fmt.Sprint(seed), fmt.Sprint(w), fmt.Sprint(n), fmt.Sprint(total), out)
			cmd.Stderr = t
			cmd.Stdout = t
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "GOMAXPROCS="+fmt.Sprint(maxprocs(ch)))
			hung, huge := false, false
			err := cmd.Start()
			if err == nil {
				done := make(chan error, 1)
				go func() { done <- cmd.Wait() }()
				last, lastAt := int64(-1), time.Now()
			loop:
				for {
					select {
					case err = <-done:
						break loop
					case <-time.After(500 * time.Millisecond):
						m := int64(resident(cmd.Process.Pid))
						for {
							old := atomic.LoadInt64(&peak)
							if m <= old || atomic.CompareAndSwapInt64(&peak, old, m) {
								break
							}
						}
						if m > memoryLimit {
							huge = true
							_ = cmd.Process.Kill()
							err = <-done
							break loop
						}
						if p := progress(out); p != last {
							last, lastAt = p, time.Now()
						} else if time.Since(lastAt) > watchdog {
							hung = true
							_ = cmd.Process.Kill()
							err = <-done
							break loop
						}
					}
				}
			}
			res := result{}
			b, rerr := os.ReadFile(out + ".json")
			if rerr == nil && err == nil {
				_ = json.Unmarshal(b, &res)
			} else {
				res.Failed = true
				res.Index = int(progress(out))
				if huge {
					res.Msg = fmt.Sprintf("the process needed more than %d MB of memory", memoryLimit>>20)
				} else if hung {
					res.Msg = fmt.Sprintf("no progress within %v (deadlock or endless loop)", watchdog)
				} else {
					res.Msg = fmt.Sprintf("the process crashed (%v):\n%s", err, string(t.buf))
				}
			}
			mu.Lock()
			results[w] = res
			mu.Unlock()
		}(w)
	}
	wg.Wait()

	st := newStats()
	var bad *result
	for w := range results {
		r := &results[w]
		st.Evals += r.Evals
		for k, v := range r.Counts {
			st.Counts[k] += v
		}
		st.Samples = append(st.Samples, r.Samples...)
		if h, err := os.ReadFile(filepath.Join(tmp, fmt.Sprint("w", w)+".hashes")); err == nil {
			for i := 0; i+8 <= len(h); i += 8 {
				st.distinct[binary.LittleEndian.Uint64(h[i:])] = struct{}{}
			}
		}
		if r.Failed && (bad == nil || r.Index < bad.Index) {
			bad = r
		}
	}
	if len(st.Samples) > 4 {
		st.Samples = st.Samples[:4]
	}
	violations := 0
	if bad != nil {
		violations = 1
	}
	evDir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(evDir, 0755)
	cov := map[string]interface{}{
		"evaluations":         st.Evals,
		"distinct_nontrivial": len(st.distinct),
		"rule":                ch.Rule,
		"samples":             st.Samples,
		"cases":               total,
		"workers":             n,
		"worker_peak_mb":      peak >> 20,
		"observed":            st.Counts,
	}
	ev := map[string]interface{}{
		"property": ch.ID, "tier": tier, "seed": seed, "level": ch.Level,
		"coverage": cov, "assumptions": ch.Assume,
		"wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(filepath.Join(evDir, ch.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d observations judged, %d distinct non-trivial, %.1fs, at most %d MB\n", ch.ID, tier, seed, total, st.Evals, len(st.distinct), time.Since(start).Seconds(), peak>>20)
	keys := []string{}
	for k := range st.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %-44s %d\n", k, st.Counts[k])
	}
	if bad == nil {
		return 0
	}
	rp := filepath.Join(evDir, ch.ID+".replay.json")
	rb, _ := json.MarshalIndent(replay{ch.ID, tier, seed, bad.Index, bad.Msg, bad.Trace, "bash run.sh replay evidence/" + ch.ID + ".replay.json"}, "", "  ")
	_ = os.WriteFile(rp, rb, 0644)
	for i, l := range bad.Trace {
		if i >= len(bad.Trace)-40 {
			fmt.Println("  |", l)
		}
	}
	msg := bad.Msg
	if len(msg) > 3000 {
		msg = msg[:3000]
	}
	fmt.Printf("case %d: %s\n", bad.Index, msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, rp)
	return 1
}

const memoryLimit = 3 << 30

// resident returns the memory of a worker in bytes
func resident(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if f := strings.Fields(string(b)); err == nil && len(f) > 1 {
		n, _ := strconv.ParseInt(f[1], 10, 64)
		return n * int64(os.Getpagesize())
	}
	return 0
}

func maxprocs(ch *Check) int {
	if ch.Race {
		return 4
	}
	return 2
}

func progress(out string) int64 {
	b, err := os.ReadFile(out + ".progress")
	if err != nil || len(b) < 8 {
		return -1
	}
	return int64(binary.LittleEndian.Uint64(b))
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vmon run ID TIER | replay FILE | ids")
		os.Exit(2)
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "."
	}
	get := func(id string) *Check {
		ch, ok := checks[id]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown check", id)
			os.Exit(2)
		}
		return ch
	}
	atoi := func(s string) int { n, _ := strconv.Atoi(s); return n }
	switch os.Args[1] {
	case "ids":
		ids := []string{}
		for id, ch := range checks {
			ids = append(ids, fmt.Sprintf("%s %v", id, ch.Race))
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "run":
		os.Exit(parent(get(os.Args[2]), os.Args[3], seed, verif))
	case "worker":
		s, _ := strconv.ParseInt(os.Args[4], 10, 64)
		worker(get(os.Args[2]), os.Args[3], s, atoi(os.Args[5]), atoi(os.Args[6]), atoi(os.Args[7]), os.Args[8])
	case "helper": // re-executed by checks that need a victim process
		helper(os.Args[2:])
	case "case": // vmon case ID TIER INDEX
		dir, _ := os.MkdirTemp("", "vmon-case-")
		defer os.RemoveAll(dir)
		msg, trace := runCase(get(os.Args[2]), os.Args[3], seed, atoi(os.Args[4]), newStats(), dir)
		for _, l := range trace {
			fmt.Println("  |", l)
		}
		fmt.Println("result:", msg)
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		r := replay{}
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		dir, _ := os.MkdirTemp("", "vmon-replay-")
		msg, trace := runCase(get(r.Property), r.Tier, r.Seed, r.Index, newStats(), dir)
		_ = os.RemoveAll(dir)
		if msg == "" {
			fmt.Println("the case holds")
			return
		}
		for _, l := range trace {
			fmt.Println("  |", l)
		}
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, os.Args[2])
		os.Exit(1)
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}
