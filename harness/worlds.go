package main

import (
	"fmt"
	"sort"
	"sync"
	"time"
)

// Several scenarios at once, on objects that have nothing in common: either one
// call at a time in a seeded order, or all running freely.

type baton struct {
	mu    sync.Mutex
	cond  *sync.Cond
	turn  int
	alive []bool
	rng   *rng
}

func newBaton(n int, r *rng) *baton {
	b := &baton{alive: make([]bool, n), rng: r}
	b.cond = sync.NewCond(&b.mu)
	for i := range b.alive {
		b.alive[i] = true
	}
	return b
}

// pass the turn to any running world
func (b *baton) next() {
	left := []int{}
	for i, a := range b.alive {
		if a {
			left = append(left, i)
		}
	}
	if len(left) > 0 {
		b.turn = left[b.rng.n(len(left))]
	}
	b.cond.Broadcast()
}

func (b *baton) wait(i int) {
	b.mu.Lock()
	for b.turn != i {
		b.cond.Wait()
	}
	b.mu.Unlock()
}

func (b *baton) yield(i int) {
	b.mu.Lock()
	b.next()
	for b.turn != i {
		b.cond.Wait()
	}
	b.mu.Unlock()
}

func (b *baton) leave(i int) {
	b.mu.Lock()
	b.alive[i] = false
	b.next()
	b.mu.Unlock()
}

func together(r *rng, seed uint64, idx int, props []string, free bool) []*tape {
	n := r.in(2, 4)
	if free {
		n = r.in(2, 6)
	}
	ts := make([]*tape, n)
	ps := make([]string, n)
	for i := range ts {
		ts[i] = &tape{timed: true}
		ps[i] = props[r.n(len(props))]
	}
	var b *baton
	if !free {
		b = newBaton(n, r)
	}
	var wg sync.WaitGroup
	for i := range ts {
		wg.Add(1)
		i := i
		if b != nil {
			ts[i].after = func() { b.yield(i) }
		}
		run := func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					ts[i].after = nil
					ts[i].add(ev{"e": "crash", "what": fmt.Sprint(x)})
				}
				if b != nil {
					b.leave(i)
				}
			}()
			if b != nil {
				b.wait(i)
			}
			scenarios[ps[i]](seed, 1000000+idx*8+i, ts[i])
		}
		go run()
	}
	wg.Wait()
	return ts
}

// one log of all, in the order the calls were made
func merge(t *tape, ts []*tape) {
	type item struct {
		at int64
		w  int
		e  ev
	}
	all := []item{}
	for w, x := range ts {
		var last int64
		for _, e := range x.events {
			if s, ok := e["at"].(int64); ok {
				delete(e, "at")
				if s > last {
					last = s
				}
			}
			if e["e"] == "reset" {
				e["e"] = "begin"
			}
			e["world"] = w + 1
			all = append(all, item{last, w, e})
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].at < all[j].at })
	t.add(ev{"e": "reset", "worlds": len(ts)})
	for _, x := range all {
		t.add(x.e)
	}
}

var epoch = time.Now()

func stamp() int64 { return int64(time.Since(epoch)) }

func init() {
	for name, props := range map[string][]string{
		"C19T": {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C12T"},
		"C19N": {"C08", "C09", "C10", "C11", "C12", "C13", "C14", "C18"},
		"C19A": {"C17"},
		"C19I": {"C16"},
		"C19S": {"C15"},
	} {
		name, props := name, props
		scenarios[name] = func(seed uint64, idx int, t *tape) bool {
			r := newRng(seed, hash(name), uint64(idx))
			ts := together(r, seed, idx, props, freeRun)
			if len(props) > 1 {
				merge(t, ts)
				return true
			}
			// calls without a state of their own: one after another
			for _, x := range ts {
				for _, e := range x.events {
					delete(e, "at")
					t.add(e)
				}
			}
			return true
		}
	}
}
