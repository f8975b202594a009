package main

import (
	"math"

	"github.com/julioguillermo/godeep/scalar"
)

// (-1)^s * n * 2^x with n odd; specials as in Half.tla
func num3(v float64) [3]int {
	s := 0
	if math.Signbit(v) {
		s = 1
	}
	switch {
	case math.IsNaN(v):
		return [3]int{0, -2, 0}
	case math.IsInf(v, 0):
		return [3]int{s, -1, 0}
	case v == 0:
		return [3]int{s, 0, 0}
	}
	f, e := math.Frexp(math.Abs(v))
	n := uint64(f * (1 << 53))
	e -= 53
	for n%2 == 0 {
		n /= 2
		e++
	}
	if n >= 1<<30 {
		return [3]int{0, -4, 0}
	}
	return [3]int{s, int(n), e}
}

func fields32(v float32) [3]int {
	b := math.Float32bits(v)
	return [3]int{int(b >> 31), int(b >> 23 & 255), int(b & (1<<23 - 1))}
}
func fields64(v float64) [4]int {
	b := math.Float64bits(v)
	return [4]int{int(b >> 63), int(b >> 52 & 2047), int(b >> 26 & (1<<26 - 1)), int(b & (1<<26 - 1))}
}

// all float32 of a sign and 8 exponents through one conversion, as ranges with equal results
func convSteps(t *tape, form string, sign, group int) {
	t.add(ev{"e": "reset", "prop": "C15", "form": form})
	cell := &scalar.F16{}
	// warm: the register holds something else before each conversion
	conv := map[string]func(float32) uint16{
		"S32": func(v float32) uint16 { cell.S32(v); return cell.Value },
		"S64": func(v float32) uint16 { cell.S64(float64(v)); return cell.Value },
		"from32": func(v float32) uint16 {
			return scalar.F16fromF32(v).Value
		},
		"from64": func(v float32) uint16 {
			return scalar.F16fromF64(float64(v)).Value
		},
	}[form]
	first := uint32(sign)<<31 | uint32(group*8)<<23
	last := first + 8<<23 - 1
	class := func(u uint32) int {
		h := conv(math.Float32frombits(u))
		if h&0x7c00 == 0x7c00 && h&0x3ff != 0 {
			return -1
		}
		return int(h)
	}
	var iv [][5]int
	from := first
	flush := func(to uint32) {
		a, b := first+0, to
		_ = a
		t.add(ev{"e": "steps", "s": sign, "from": [2]int{int(from >> 23 & 255), int(from & (1<<23 - 1))},
			"to": [2]int{int(b >> 23 & 255), int(b & (1<<23 - 1))}, "iv": iv})
		iv = nil
		from = to + 1
	}
	start, cur := first, class(first)
	for u := first; ; u++ {
		end := u == last
		var nx int
		if !end {
			nx = class(u + 1)
		}
		if end || nx != cur {
			iv = append(iv, [5]int{int(start >> 23 & 255), int(start & (1<<23 - 1)), int(u >> 23 & 255), int(u & (1<<23 - 1)), cur})
			start, cur = u+1, nx
			if len(iv) == 256 && !end {
				flush(u)
			}
		}
		if end {
			break
		}
	}
	if len(iv) > 0 {
		flush(last)
	}
}

var convForms = []string{"S32", "from64", "S64", "from32"}

func init() {
	// 64 scenarios per form
	scenarios["C15conv"] = func(seed uint64, idx int, t *tape) bool {
		if idx >= 64*len(convForms) {
			return false
		}
		convSteps(t, convForms[idx/64], idx%2, idx%64/2)
		return true
	}
	// 64 scenarios: what each half denotes and how it is classified
	scenarios["C15all"] = func(seed uint64, idx int, t *tape) bool {
		if idx >= 64 {
			return false
		}
		t.add(ev{"e": "reset", "prop": "C15"})
		k := 1 + idx%3
		nan, pinf, ninf := scalar.F16NaN(), scalar.F16Inf(k-1), scalar.F16Inf(-k)
		t.add(ev{"e": "consts", "nan": nan.Value, "pinf": pinf.Value, "ninf": ninf.Value})
		var l []ev
		for h := idx * 1024; h < idx*1024+1024; h++ {
			p := &scalar.F16{Value: uint16(h)}
			b32, b64 := &scalar.F16{Value: 0x1234}, &scalar.F16{Value: 0x4321}
			g32, g64 := p.G32(), p.G64()
			b32.S32(g32)
			b64.S64(g64)
			l = append(l, ev{"h": h, "g32": fields32(g32), "g64": fields64(g64), "b32": b32.Value, "b64": b64.Value,
				"c": ev{"nan": p.IsNaN(), "quiet": p.IsQuietNaN(), "inf": p.IsInf(0), "pinf": p.IsInf(1),
					"ninf": p.IsInf(-1), "finite": p.IsFinite(), "normal": p.IsNormal(), "neg": p.Signbit()}})
			if len(l) == 128 {
				t.add(ev{"e": "denote", "l": l})
				l = nil
			}
		}
		return true
	}
	scenarios["C15"] = func(seed uint64, idx int, t *tape) bool {
		(&regs{r: newRng(seed, hash("C15"), uint64(idx)), t: t}).run()
		return true
	}
}

// registers of scalars
type regs struct {
	r *rng
	t *tape
	s []scalar.Scalar
	k []string
}

func (m *regs) seen() []ev {
	out := []ev{}
	for _, s := range m.s {
		h := -1
		if f, ok := s.(*scalar.F16); ok {
			h = int(f.Value)
		}
		out = append(out, ev{"h": h, "g32": num3(float64(s.G32())), "g64": num3(s.G64())})
	}
	return out
}

func (m *regs) half() float64 {
	r := m.r
	switch r.n(12) {
	case 0:
		return pick(r, 0.0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), 1, -1)
	case 1: // subnormal
		return math.Ldexp(float64(r.in(-1023, 1023)), -24)
	case 2: // largest
		return math.Ldexp(float64(r.in(2040, 2047)*(1-2*r.n(2))), 5)
	case 3: // around the smallest normal
		return math.Ldexp(float64(r.in(1020, 1030)*(1-2*r.n(2))), -24)
	case 4:
		return math.Ldexp(float64(1-2*r.n(2)), r.in(-24, 15))
	case 5, 6, 7:
		return math.Ldexp(float64(r.in(1024, 2047)*(1-2*r.n(2))), r.in(-12, -8))
	default:
		return math.Ldexp(float64(r.in(1024, 2047)*(1-2*r.n(2))), r.in(-24, 5))
	}
}

// mostly halves, sometimes a float32 between two of them
func (m *regs) number() float64 {
	r := m.r
	if r.p(65) {
		return m.half()
	}
	x := r.in(-26, 6)
	h := float64(r.in(1024, 2047))
	switch r.n(4) {
	case 0:
		h += 0.5
	case 1:
		h += 0.5 + math.Ldexp(1, -13)*float64(1-2*r.n(2))
	case 2:
		h += math.Ldexp(float64(r.n(8192)), -13)
	case 3:
		h = math.Floor(h / pick(r, 2.0, 4, 64))
		h += pick(r, 0, 0.25, 0.5, 0.75)
	}
	return float64(1-2*r.n(2)) * math.Ldexp(h, x)
}

func (m *regs) add(e ev) {
	e["seen"] = m.seen()
	m.t.add(e)
}

func (m *regs) make() {
	r := m.r
	v := m.number()
	k := pick(r, "f16", "f16", "f16", "f32", "f64")
	var s scalar.Scalar
	switch k {
	case "f16":
		s = pick(r, func() scalar.Scalar { return scalar.F16fromF32(float32(v)) },
			func() scalar.Scalar { return scalar.F16fromF64(v) })()
	case "f32":
		s = pick(r, func() scalar.Scalar { return scalar.NewF32(float32(v)) },
			func() scalar.Scalar { return scalar.F32fromF64(v) })()
	case "f64":
		s = pick(r, func() scalar.Scalar { return scalar.NewF64(v) },
			func() scalar.Scalar { return scalar.F64fromF32(float32(v)) })()
	}
	m.s, m.k = append(m.s, s), append(m.k, k)
	m.add(ev{"e": "new", "k": k, "v": num3(v)})
}

func (m *regs) run() {
	r := m.r
	m.t.add(ev{"e": "reset", "prop": "C15"})
	for i := r.in(2, 4); i > 0; i-- {
		m.make()
	}
	ops := []string{"add", "sub", "mul", "div"}
	for n := r.in(6, 16); n > 0; n-- {
		a, b := r.n(len(m.s)), r.n(len(m.s))
		op := pick(r, ops...)
		if len(m.s) >= 7 {
			m.s, m.k = nil, nil
			m.t.add(ev{"e": "reset", "prop": "C15"})
			m.make()
			m.make()
			continue
		}
		switch r.n(10) {
		case 0:
			m.make()
		case 1:
			v := m.number()
			if r.p(50) {
				m.s[a].S32(float32(v))
			} else {
				m.s[a].S64(v)
			}
			m.add(ev{"e": "put", "a": a + 1, "v": num3(v)})
		case 2:
			m.s, m.k = append(m.s, m.s[a].Copy()), append(m.k, m.k[a])
			m.add(ev{"e": "copy", "a": a + 1})
		case 3, 4, 5:
			x, y := m.s[a], m.s[b]
			var z scalar.Scalar
			switch op {
			case "add":
				z = x.Add(y)
			case "sub":
				z = x.Sub(y)
			case "mul":
				z = x.Mul(y)
			case "div":
				z = x.Div(y)
			}
			m.s, m.k = append(m.s, z), append(m.k, m.k[a])
			m.add(ev{"e": "op", "op": op, "a": a + 1, "b": b + 1})
		case 6, 7:
			x, y := m.s[a], m.s[b]
			switch op {
			case "add":
				x.SelfAdd(y)
			case "sub":
				x.SelfSub(y)
			case "mul":
				x.SelfMul(y)
			case "div":
				x.SelfDiv(y)
			}
			m.add(ev{"e": "self", "op": op, "a": a + 1, "b": b + 1})
		default:
			res := map[scalar.CmpRes]string{scalar.CmpL: "<", scalar.CmpE: "=", scalar.CmpG: ">"}[m.s[a].Cmp(m.s[b])]
			m.add(ev{"e": "cmp", "a": a + 1, "b": b + 1, "r": res})
		}
	}
}
