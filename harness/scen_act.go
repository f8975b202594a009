package main

import (
	"math"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/types"
)

func actOf[T types.Number](f string, a, l T) activation.Activation[T] {
	switch f {
	case "linear":
		return activation.Linear[T]{}
	case "relu":
		return activation.Relu[T]{Alpha: a}
	case "elu":
		return activation.ELU[T]{Alpha: a}
	case "selu":
		return activation.SELU[T]{ELU: activation.ELU[T]{Alpha: a}, Lambda: l}
	case "sigmoid":
		return activation.Sigmoid[T]{}
	case "tanh":
		return activation.Tanh[T]{}
	case "sin":
		return activation.Sin[T]{}
	case "swish":
		return activation.Swish[T]{}
	case "gelu":
		return activation.GELU[T]{}
	}
	panic(f)
}

var actNames = []string{"linear", "relu", "elu", "selu", "sigmoid", "tanh", "sin", "swish", "gelu"}

// units of 1e-7; anything that does not fit is not fine
type fixer struct{ fine bool }

func (p *fixer) fix(v float64) int {
	if math.IsNaN(v) || math.Abs(v) > 100 {
		p.fine = false
		return 0
	}
	return int(math.Round(v * 1e7))
}

type actScen[T types.Number] struct {
	r    *rng
	t    *tape
	typ  string
	f    string
	a, l int // eighths
}

func (s *actScen[T]) act(f string) activation.Activation[T] {
	return actOf[T](f, T(float64(s.a)/8), T(float64(s.l)/8))
}

// everything known about the function at xi/1024
func (s *actScen[T]) eval(xi int) {
	x := T(float64(xi) / 1024)
	h := 1.0 / 64
	g := s.act(s.f)
	p := &fixer{true}
	var d int
	first := s.r.p(50)
	if first {
		d = p.fix(float64(g.Derive(x)))
	}
	ys := [5]int{}
	for k := 0; k < 5; k++ {
		j := k
		if first {
			j = 4 - k
		}
		ys[j] = p.fix(float64(g.Activate(T(float64(xi)/1024 + float64(j-2)*h))))
	}
	if !first {
		d = p.fix(float64(g.Derive(x)))
	}
	sg, elu := s.act("sigmoid"), s.act("elu")
	e := ev{"e": "eval", "f": s.f, "type": s.typ, "a": s.a, "l": s.l, "x": xi, "ys": ys, "y": ys[2], "d": d,
		"yn": p.fix(float64(g.Activate(-x))), "dn": p.fix(float64(g.Derive(-x))),
		"s": p.fix(float64(sg.Activate(x))), "s2": p.fix(float64(sg.Activate(2 * x))),
		"ev": p.fix(float64(elu.Activate(x))), "ed": p.fix(float64(elu.Derive(x)))}
	e["fine"] = p.fine
	s.t.add(e)
}

func (s *actScen[T]) end(kind string, x T) {
	g := s.act(s.f)
	y, d := float64(g.Activate(x)), float64(g.Derive(x))
	p := &fixer{true}
	e := ev{"e": kind, "f": s.f, "type": s.typ, "a": s.a, "l": s.l, "sg": 1}
	if x < 0 {
		e["sg"] = -1
	}
	e["q"] = 0
	if q := y / float64(x); math.Abs(q) < 100 || math.IsNaN(q) {
		e["q"] = p.fix(q)
	}
	e["d"] = p.fix(d)
	e["y"] = 0
	if math.Abs(y) < 100 {
		e["y"] = p.fix(y)
	} else if s.f == "sigmoid" || s.f == "tanh" || s.f == "sin" {
		p.fine = false
	}
	e["fine"] = p.fine
	s.t.add(e)
}

func (s *actScen[T]) ends() {
	far := []float64{20, 31.5, 60, 90, 100, 750, 4096, 1e6, 1e18, 1e30, 1e38}
	if s.typ == "float64" {
		far = append(far, 1e60, 1e110, 1e160, 1e300)
	}
	for _, v := range far {
		s.end("far", T(v))
		s.end("far", T(-v))
	}
	v := 1.0 / 8192
	s.end("tiny", T(v))
	s.end("tiny", T(-v))
}

func runAct[T types.Number](r *rng, t *tape, typ string, idx int, grid bool) {
	s := &actScen[T]{r: r, t: t, typ: typ}
	t.add(ev{"e": "reset", "prop": "C17", "type": typ})
	s.f = actNames[idx%len(actNames)]
	s.a, s.l = pick(r, 8, 1, 2, 3, 13, 16, 0, -1, -4, -9), pick(r, 8, 9, 10, 12, 4, -5)
	if grid {
		for xi := -12 * 1024; xi <= 12*1024; xi += 16 {
			s.eval(xi)
		}
		s.ends()
		return
	}
	for k := 0; k < 60; k++ {
		s.eval(pick(r, r.in(-12288, 12288), r.in(-2048, 2048), r.in(-100, 100)))
	}
	s.ends()
}

func runActInt[T types.Number](r *rng, t *tape, typ string) {
	t.add(ev{"e": "reset", "prop": "C17", "type": typ})
	for k := 0; k < 20; k++ {
		f := pick(r, "linear", "relu")
		a := r.in(-3, 5)
		x := r.in(-500, 500)
		g := actOf[T](f, T(a), 1)
		t.add(ev{"e": "int", "f": f, "type": typ, "a": a, "x": x, "y": int(g.Activate(T(x))), "d": int(g.Derive(T(x)))})
	}
}

func init() {
	// each function on the whole grid in both precisions, with three parameter choices
	scenarios["C17grid"] = func(seed uint64, idx int, t *tape) bool {
		if idx >= 9*2*3 {
			return false
		}
		r := newRng(seed, hash("C17grid"), uint64(idx))
		if idx/9%2 == 0 {
			runAct[float64](r, t, "float64", idx, true)
		} else {
			runAct[float32](r, t, "float32", idx, true)
		}
		return true
	}
	scenarios["C17"] = func(seed uint64, idx int, t *tape) bool {
		r := newRng(seed, hash("C17"), uint64(idx))
		switch r.n(9) {
		case 0:
			pick(r, runActInt[int16], runActInt[int32], runActInt[int64], runActInt[int])(r, t, "int")
		case 1, 2, 3, 4:
			runAct[float32](r, t, "float32", r.n(9), false)
		default:
			runAct[float64](r, t, "float64", r.n(9), false)
		}
		return true
	}
}
