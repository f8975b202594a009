package main

import (
	"flag"
	"fmt"
	"os"
	"time"
)

// run scenario number idx of the property on the tape; returns false if there
// is no such scenario
type scenario func(seed uint64, idx int, t *tape) bool

var scenarios = map[string]scenario{}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "seed")
	from := flag.Int("from", 0, "first scenario")
	to := flag.Int("to", 100, "one past the last scenario")
	step := flag.Int("step", 1, "step")
	out := flag.String("out", "", "trace file")
	in := flag.String("in", "", "input file (specification-generated scenarios)")
	limit := flag.Int("limit", 60, "seconds per scenario")
	flag.BoolVar(&freeRun, "free", false, "run the worlds freely")
	flag.Parse()
	inputFile = *in
	sc, ok := scenarios[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	s := newSink(*out)
	progress, _ := os.Create(*out + ".at")
	for i := *from; i < *to; i += *step {
		progress.WriteAt([]byte(fmt.Sprintf("%d        \n", i)), 0)
		t := &tape{}
		done := make(chan bool, 1)
		fail := make(chan any, 1)
		go func() {
			defer func() {
				if x := recover(); x != nil {
					fail <- x
				}
			}()
			done <- sc(*seed, i, t)
		}()
		more := true
		select {
		case more = <-done:
		case x := <-fail:
			fmt.Fprintln(os.Stderr, "harness panic in scenario", i, x)
			t.add(ev{"e": "crash", "what": fmt.Sprint(x)})
		case <-time.After(time.Duration(*limit) * time.Second):
			t.mu.Lock()
			t.closed = true
			t.events = append(t.events, ev{"e": "hang"})
			t.mu.Unlock()
		}
		if !more {
			break
		}
		hung := len(t.events) > 0 && t.events[len(t.events)-1]["e"] == "hang"
		for j, e := range t.events {
			if j == 0 || e["e"] == "reset" {
				e["sc"] = i
			}
			s.write(e)
		}
		if hung {
			break // one is enough; the goroutine cannot be stopped
		}
	}
	s.close()
	progress.Close()
	os.Remove(*out + ".at")
}

var inputFile string
var freeRun bool

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
