//go:build go1.21

package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"weak"

	"github.com/abichinger/fastac/util"
	"github.com/anishathalye/porcupine"
)

type lruOp struct {
	put bool
	key int
	val int // value of a put
}

type lruOut struct {
	val int
	ok  bool
}

// lruRef is the reference: entries from the most to the least recently used.
type lruRef struct {
	cap int
	e   [][2]int
}

func (l *lruRef) find(k int) int {
	for i, e := range l.e {
		if e[0] == k {
			return i
		}
	}
	return -1
}

func (l *lruRef) front(i int) {
	e := l.e[i]
	copy(l.e[1:i+1], l.e[:i])
	l.e[0] = e
}

func (l *lruRef) Get(k int) (int, bool) {
	i := l.find(k)
	if i < 0 {
		return 0, false
	}
	l.front(i)
	return l.e[0][1], true
}

func (l *lruRef) Put(k, v int) (evicted int) {
	evicted = -1
	if l.cap <= 0 {
		return
	}
	if i := l.find(k); i >= 0 {
		l.front(i)
		l.e[0][1] = v
		return
	}
	if len(l.e) >= l.cap {
		evicted = l.e[len(l.e)-1][0]
		l.e = l.e[:len(l.e)-1]
	}
	l.e = append(l.e, [2]int{})
	copy(l.e[1:], l.e)
	l.e[0] = [2]int{k, v}
	return
}

func (l *lruRef) String() string {
	b := strings.Builder{}
	for _, e := range l.e {
		fmt.Fprintf(&b, "%d=%d ", e[0], e[1])
	}
	return b.String()
}

func parseLRU(cap int, s string) *lruRef {
	l := &lruRef{cap: cap}
	for _, f := range strings.Fields(s) {
		var k, v int
		fmt.Sscanf(f, "%d=%d", &k, &v)
		l.e = append(l.e, [2]int{k, v})
	}
	return l
}

func lruModel(cap int) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return "" },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			l := parseLRU(cap, st.(string))
			op := in.(lruOp)
			if op.put {
				l.Put(op.key, op.val)
				return true, l.String()
			}
			v, ok := l.Get(op.key)
			o := out.(lruOut)
			return ok == o.ok && v == o.val, l.String()
		},
	}
}

type cacheAPI interface {
	Get(key interface{}) (interface{}, bool)
	Put(key, value interface{})
}

type lruPoint struct{ X, Y int }

// lruKey makes keys of different dynamic types that must not be confused.
func lruKey(kind, k int) interface{} {
	switch kind {
	case 0:
		return k
	case 1:
		return fmt.Sprint("key", k)
	case 2:
		return lruPoint{k / 3, k % 3}
	}
	switch k % 4 {
	case 0:
		return k / 4
	case 1:
		return int64(k / 4)
	case 2:
		return fmt.Sprint(k / 4)
	}
	return [2]string{fmt.Sprint(k / 4), ""}
}

type lruVal struct {
	id  int
	pad [64]byte
}

func runC19(c *C) {
	if c.Chance(45) {
		c19Concurrent(c)
		return
	}
	sync_ := c.Chance(40)
	capacity := []int{-1, 0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 16, 40}[c.Intn(14)]
	var cache cacheAPI
	if sync_ {
		cache = util.NewSyncLRUCache(capacity)
	} else {
		cache = util.NewLRUCache(capacity)
	}
	kind := c.Intn(4)
	universe := 1 + c.Intn(2*capacity+4+2)
	if universe < 2 {
		universe = 2
	}
	ref := &lruRef{cap: capacity}
	pointers := c.Chance(35)
	refs := []weak.Pointer[lruVal]{}
	next := 0
	n := 40 + c.Intn(260)
	hits, evictions := 0, 0
	c.Logf("capacity %d, %d keys of kind %d, sync %v", capacity, universe, kind, sync_)
	value := func(got interface{}, ok bool) (int, bool) {
		if !ok {
			if got != nil {
				c.Failf("Get returned a value (%v) together with false", got)
			}
			return 0, false
		}
		switch v := got.(type) {
		case *lruVal:
			return v.id, true
		case int:
			return v, true
		case nil:
			return -2, true
		}
		c.Failf("Get returned %T", got)
		return 0, false
	}
	get := func(k int) {
		v, ok := value(cache.Get(lruKey(kind, k)))
		wv, wok := ref.Get(k)
		c.Logf("get %d -> %d %v", k, v, ok)
		if ok != wok || v != wv {
			c.Failf("get of key %d returned (%d, %v), expected (%d, %v); capacity %d, contents from most to least recently used: %s", k, v, ok, wv, wok, capacity, ref)
		}
		if ok {
			hits++
		}
		c.Eval()
		c.Distinct(capacity, universe, ref.String())
	}
	hot := c.Chance(50)
	for i := 0; i < n; i++ {
		k := c.Intn(universe)
		if hot && c.Chance(50) {
			k = c.Intn(1 + universe/3)
		}
		if c.Chance(50) {
			next++
			var v interface{} = next
			id := next
			if pointers {
				p := &lruVal{id: next}
				refs = append(refs, weak.Make(p))
				v = p
			} else if c.Chance(5) {
				v, id = nil, -2
			}
			c.Logf("put %d = %d", k, id)
			cache.Put(lruKey(kind, k), v)
			if ref.Put(k, id) >= 0 {
				evictions++
			}
		} else {
			get(k)
		}
		if c.Chance(4) { // look at everything
			for _, k := range c.R.Perm(universe) {
				get(k)
			}
		}
	}
	for _, k := range c.R.Perm(universe) {
		get(k)
	}
	if pointers {
		runtime.GC()
		live := 0
		for _, r := range refs {
			if r.Value() != nil {
				live++
			}
		}
		if live > len(ref.e)+4 {
			c.Failf("the cache holds %d entries, but %d of the %d values that were stored are still referenced", len(ref.e), live, len(refs))
		}
		c.Count("runs with checked value references")
		runtime.KeepAlive(cache)
	}
	c.CountN("hits", hits)
	c.CountN("evictions", evictions)
	c.Count("sequential runs")
	if evictions > 0 && hits > 0 {
		c.Sample("capacity %d, %d keys, %d operations: %d hits, %d evictions; final contents %s", capacity, universe, n, hits, evictions, ref)
	}
}

func c19Concurrent(c *C) {
	rounds := 6
	for r := 0; r < rounds; r++ {
		capacity := 1 + c.Intn(3)
		keys := 2 + c.Intn(4)
		workers := 2 + c.Intn(3)
		per := 24 / workers
		kind := c.Intn(4)
		cache := util.NewSyncLRUCache(capacity)
		plan := make([][]lruOp, workers)
		delay := make([][]int, workers)
		id := 0
		for w := range plan {
			for i := 0; i < per; i++ {
				id++
				plan[w] = append(plan[w], lruOp{c.Chance(45), c.Intn(keys), id})
				delay[w] = append(delay[w], c.Intn(6))
			}
		}
		var clock int64
		var wg sync.WaitGroup
		hist := make([][]porcupine.Operation, workers)
		start := make(chan struct{})
		panics := make(chan interface{}, workers)
		for w := range plan {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						panics <- r
					}
				}()
				<-start
				for i, op := range plan[w] {
					if delay[w][i] == 0 {
						runtime.Gosched()
					}
					call := atomic.AddInt64(&clock, 1)
					out := lruOut{}
					if op.put {
						cache.Put(lruKey(kind, op.key), op.val)
					} else if v, ok := cache.Get(lruKey(kind, op.key)); ok {
						out = lruOut{v.(int), true}
					}
					hist[w] = append(hist[w], porcupine.Operation{ClientId: w, Input: op, Call: call, Output: out, Return: atomic.AddInt64(&clock, 1)})
				}
			}(w)
		}
		close(start)
		wg.Wait()
		select {
		case p := <-panics:
			c.Failf("panic of a concurrent cache operation: %v", p)
		default:
		}
		all := []porcupine.Operation{}
		for _, h := range hist {
			all = append(all, h...)
		}
		// the final contents belong to the history
		for _, k := range c.R.Perm(keys) {
			call := atomic.AddInt64(&clock, 1)
			out := lruOut{}
			if v, ok := cache.Get(lruKey(kind, k)); ok {
				out = lruOut{v.(int), true}
			}
			all = append(all, porcupine.Operation{ClientId: 0, Input: lruOp{key: k}, Call: call, Output: out, Return: atomic.AddInt64(&clock, 1)})
		}
		overlap := 0
		for i := range all {
			for j := range all {
				if i < j && all[i].Call < all[j].Return && all[j].Call < all[i].Return {
					overlap++
				}
			}
		}
		switch porcupine.CheckOperationsTimeout(lruModel(capacity), all, 20*time.Second) {
		case porcupine.Illegal:
			sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
			for _, o := range all {
				c.Logf("[%d..%d] client %d: %+v -> %+v", o.Call, o.Return, o.ClientId, o.Input, o.Output)
			}
			c.Failf("no sequential order explains the concurrent history of a cache with capacity %d", capacity)
		case porcupine.Unknown:
			c.Count("histories not decided")
		default:
			c.Count("linearizable histories")
			c.Eval()
		}
		c.CountN("overlapping pairs of operations", overlap)
		if overlap > 0 {
			c.Count("histories with overlap")
			sig := []interface{}{}
			sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
			for _, o := range all {
				sig = append(sig, o.ClientId, o.Call, o.Return)
			}
			c.Distinct(sig...)
			c.Sample("capacity %d, %d goroutines, %d operations of which %d pairs overlap: linearizable", capacity, workers, len(all), overlap)
		}
	}
}

func init() {
	register(&Check{
		ID: "C19", Level: "exploration", Quick: 4000, Full: 120000, Race: true,
		Rule:   "random put/get sequences over capacities -1..40 and keys of mixed types against a reference recency list, plus concurrent histories of the synchronised cache checked for linearizability under the race detector; non-trivial: distinct cache contents at a get, and distinct histories with overlapping operations",
		Run:    runC19,
		Assume: []string{"keys are comparable and equal to themselves (no NaN)", "a capacity of zero or less stores nothing"},
	})
}
