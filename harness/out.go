package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sync"
)

type ev map[string]any

// events of one scenario; frozen when its time is up
type tape struct {
	mu     sync.Mutex
	events []ev
	closed bool
	after  func() // after each call
	timed  bool
}

func (t *tape) add(e ev) {
	t.mu.Lock()
	if t.closed {
		t.mu.Unlock()
		select {} // the scenario was given up
	}
	if t.timed {
		e["at"] = stamp()
	}
	t.events = append(t.events, e)
	t.mu.Unlock()
	if t.after != nil {
		t.after()
	}
}

type sink struct {
	w *bufio.Writer
	f *os.File
	n int
}

func newSink(path string) *sink {
	f, err := os.Create(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return &sink{bufio.NewWriterSize(f, 1<<20), f, 0}
}

func (s *sink) write(e ev) {
	b, err := json.Marshal(e)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err, e)
		os.Exit(3)
	}
	s.w.Write(b)
	s.w.WriteByte('\n')
	s.n++
}

func (s *sink) close() {
	s.w.Flush()
	s.f.Close()
}

// nearest rational with denominator <= maxDen; {0,-1} when there is none close
func rational(v float64, maxDen int64, tol float64) [2]int64 {
	if math.IsNaN(v) || math.IsInf(v, 0) || math.Abs(v) > 1e9 {
		return [2]int64{0, -1}
	}
	// continued fraction
	x := v
	var p0, q0, p1, q1 int64 = 0, 1, 1, 0
	for it := 0; it < 64; it++ {
		a := math.Floor(x)
		if math.Abs(a) > 2e9 {
			break
		}
		p2 := int64(a)*p1 + p0
		q2 := int64(a)*q1 + q0
		if q2 > maxDen {
			break
		}
		p0, q0, p1, q1 = p1, q1, p2, q2
		if math.Abs(float64(p1)/float64(q1)-v) <= tol*math.Max(1, math.Abs(v)) {
			return [2]int64{p1, q1}
		}
		fr := x - a
		if fr < 1e-15 {
			break
		}
		x = 1 / fr
	}
	return [2]int64{0, -1}
}
