package main

import "github.com/julioguillermo/godeep/types"

// the scenarios of one property on one element type
type tensorScen interface{ run(prop string) }

func (w *W[T]) run(prop string) {
	if prop[0] == 'C' && w.n(1000) < 20 {
		w.cap = pick(w.rng, 150, 300, 600, 1500)
	}
	switch prop {
	case "C01":
		w.scenC01()
	case "C02":
		w.scenC02()
	case "C03":
		w.scenC03()
	case "C04":
		w.scenC04()
	case "C05":
		w.scenC05()
	case "C07":
		w.scenC07()
	case "C06":
		w.scenC06()
	case "C12T":
		w.scenC12T()
	default:
		w.scenLarge(prop, w.idx)
	}
}

func start[T types.Number](r *rng, t *tape, prop, typ, mode string, f32 bool, width int) {
	t.add(ev{"e": "reset", "mode": mode, "type": typ, "prop": prop})
	w := newW[T](r, t, mode, f32, width)
	w.idx = r.idx
	w.run(prop)
}

// values are opaque bit patterns
func startTok[T types.Number](r *rng, t *tape, prop, typ string, width int) {
	t.add(ev{"e": "reset", "mode": "int", "type": typ + "-bits", "prop": prop})
	w := newW[T](r, t, "int", false, width)
	w.tok = map[uint64]int{}
	w.run(prop)
}

func tokens(r *rng, t *tape, prop string) {
	switch r.n(6) {
	case 0:
		startTok[int16](r, t, prop, "int16", 2)
	case 1:
		startTok[int](r, t, prop, "int", 8)
	case 2:
		startTok[int32](r, t, prop, "int32", 4)
	case 3:
		startTok[int64](r, t, prop, "int64", 8)
	case 4:
		startTok[float32](r, t, prop, "float32", 4)
	case 5:
		startTok[float64](r, t, prop, "float64", 8)
	}
}

func tensorProp(prop string) {
	scenarios[prop] = func(seed uint64, idx int, t *tape) bool {
		r := newRng(seed, hash(prop), uint64(idx))
		r.idx = idx
		if bits := map[string]int{"C02": 30, "C12T": 70}[prop]; bits > 0 && r.p(bits) {
			tokens(r, t, prop)
			return true
		}
		switch r.n(10) {
		default:
			start[int16](r, t, prop, "int16", "i16", false, 2)
		case 4:
			start[int](r, t, prop, "int", "i64", false, 8)
		case 5:
			start[int32](r, t, prop, "int32", "i32", false, 4)
		case 6:
			start[int64](r, t, prop, "int64", "i64", false, 8)
		case 7:
			start[float32](r, t, prop, "float32", "rat", true, 4)
		case 8, 9:
			start[float64](r, t, prop, "float64", "rat", false, 8)
		}
		return true
	}
}

func init() {
	for _, p := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C12T", "L01", "L03", "L04", "L06"} {
		tensorProp(p)
	}
}
