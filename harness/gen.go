package main

import "github.com/julioguillermo/godeep/types"

// ---- shapes and acceptance, used only to steer the generator

func accepts(k string, p par, sa, sb []int) (bool, []int) {
	if sa == nil {
		return false, nil
	}
	cp := func(s []int) []int { return append([]int{}, s...) }
	switch k {
	case "add", "sub", "mul", "div":
		if sb == nil || !eqSh(sa, sb) {
			return false, nil
		}
		return true, cp(sa)
	case "sum", "avg", "min", "max":
		return true, []int{1}
	case "dsum", "davg", "dmin", "dmax":
		if p.dim >= len(sa) {
			return false, nil
		}
		return true, cp(sa[:p.dim+1])
	case "transpose":
		r := cp(sa)
		for i := range r {
			r[i] = sa[len(sa)-1-i]
		}
		return true, r
	case "reshape":
		return true, cp(p.shape)
	case "flatten":
		return true, []int{size(sa)}
	case "subt", "subx":
		if p.dim >= len(sa) || p.from >= p.to || (k == "subt" && p.to > sa[p.dim]) {
			return false, nil
		}
		r := cp(sa)
		r[p.dim] = p.to - p.from
		return true, r
	case "concat":
		if sb == nil || len(sa) != len(sb) || p.dim >= len(sa) {
			return false, nil
		}
		for i := range sa {
			if i != p.dim && sa[i] != sb[i] {
				return false, nil
			}
		}
		r := cp(sa)
		r[p.dim] += sb[p.dim]
		return true, r
	case "dot", "dotat":
		if sb == nil || len(sa) == 0 || len(sb) == 0 {
			return false, nil
		}
		da, db := dotDims(k, p, sa, sb)
		if da >= len(sa) || db >= len(sb) || sa[da] != sb[db] {
			return false, nil
		}
		if len(sa) == 1 && len(sb) == 1 {
			return true, []int{1}
		}
		r := append(cp(sa[:da]), sa[da+1:]...)
		r = append(r, sb[:db]...)
		r = append(r, sb[db+1:]...)
		return true, r
	case "copy":
		if sb == nil || size(sa) != size(sb) {
			return false, nil
		}
		return true, cp(sb)
	}
	return true, cp(sa) // scalar, unary, softmax, fill
}

func dotDims(k string, p par, sa, sb []int) (int, int) {
	if k == "dotat" {
		return p.da, p.db
	}
	db := len(sb) - 1
	if db > 0 {
		db--
	}
	return len(sa) - 1, db
}

// ---- keeping numbers small enough for exact comparison

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (w *W[T]) small(m *meta) bool {
	switch w.mode {
	case "i16", "i32", "i64":
		return true
	case "int":
		return m.mag <= 1000000
	}
	if w.f32 {
		return m.den <= 256 && m.mag*m.den <= 32768
	}
	return m.den <= 2000 && m.mag*m.den <= 32768
}

func pow2(n int) bool { return n&(n-1) == 0 }

// bounds of the result of k; ok=false when it could not be compared exactly
func (w *W[T]) bounds(k string, p par, a, b *meta, s int, rs []int) (m *meta, ok bool) {
	m = &meta{sh: rs, mag: a.mag, den: a.den, inexact: a.inexact}
	if w.wraps() || rs == nil {
		return m, true
	}
	comb := func() {
		if b != nil {
			m.den = a.den * b.den / gcd(a.den, b.den)
			if a.irr() || b.irr() {
				m.den = a.den * b.den
			}
			m.inexact = a.inexact || b.inexact
		}
	}
	n := 1
	if a.sh != nil {
		n = size(a.sh)
	}
	if rs != nil && (k == "dsum" || k == "davg") {
		n = n / size(rs)
	}
	switch k {
	case "add", "sub":
		comb()
		m.mag = a.mag + b.mag
	case "mul":
		m.den, m.mag = a.den*b.den, a.mag*b.mag
		m.inexact = a.inexact || b.inexact
	case "adds", "subs":
		m.mag += w.smag[s-1]
	case "muls":
		m.mag *= w.smag[s-1]
	case "div", "divs":
		dv := k == "divs" && w.sdiv[s-1] || k == "div" && b.div
		if w.mode == "rat" {
			if !dv {
				return nil, false
			}
			if w.f32 {
				m.den *= 4
			} else {
				m.den *= 12
			}
		}
	case "avg", "davg":
		if w.f32 && !pow2(n) {
			return nil, false
		}
		if w.mode == "rat" {
			m.den *= int64(n)
		}
		m.mag *= int64(n) // the running sum
	case "sum", "dsum":
		m.mag *= int64(n)
	case "concat":
		comb()
		if b.mag > m.mag {
			m.mag = b.mag
		}
	case "dot", "dotat":
		da, _ := dotDims(k, p, a.sh, b.sh)
		m.mag = a.mag * b.mag * int64(a.sh[da])
		m.den = a.den * b.den
		m.inexact = a.inexact || b.inexact
	case "softmax":
		if w.mode == "int" {
			if a.mag*int64(n)*2 > 1000000 {
				return nil, false
			}
			m.mag = 1
			break
		}
		bound := 2 * a.mag * int64(n) * a.den
		if w.f32 && bound > 100 || bound > 200 || a.inexact {
			return nil, false
		}
		if bound == 0 {
			bound = 1
		}
		m.den, m.mag, m.inexact = bound, 1, true
		m.soft = true
	case "act":
		switch p.f {
		case "relu2":
			m.mag *= 2
		case "sq":
			m.den, m.mag = a.den*a.den, a.mag*a.mag
		case "aff":
			m.mag = 3*a.mag + 1
		}
	}
	if w.f32 && m.inexact {
		switch k {
		case "softmax", "neg", "abs", "min", "max", "dmin", "dmax", "transpose", "reshape", "flatten", "subt", "subx", "concat":
		default:
			return nil, false
		}
	}
	if a.soft || (b != nil && b.soft) {
		m.soft = true
	}
	return m, w.small(m)
}

func (m *meta) irr() bool { return m.soft }

// ---- random material

func (w *W[T]) shape() []int {
	if w.cap > 0 && w.p(75) {
		return w.large()
	}
	switch w.n(20) {
	case 0: // many dimensions
		for {
			sh := make([]int, w.in(5, 8))
			for i := range sh {
				sh[i] = pick(w.rng, 1, 1, 2, 2, 3)
			}
			if size(sh) <= 48 {
				return sh
			}
		}
	case 1: // many elements
		if w.p(12) {
			return pick(w.rng, []int{w.in(100, 520)}, []int{w.in(100, 300), w.in(1, 2)}, []int{w.in(1, 2), w.in(100, 300)},
				[]int{w.in(8, 20), w.in(8, 20)}, []int{w.in(4, 8), w.in(4, 8), w.in(4, 8)})
		}
		sh := []int{w.in(9, 40)}
		if w.p(50) {
			sh = []int{w.in(6, 12), w.in(1, 5)}
			if w.p(50) {
				sh[0], sh[1] = sh[1], sh[0]
			}
		}
		return sh
	}
	for {
		rank := pick(w.rng, 1, 1, 2, 2, 2, 3, 3, 4)
		sh := make([]int, rank)
		for i := range sh {
			sh[i] = pick(w.rng, 1, 2, 2, 3, 3, 4, 5)
		}
		if size(sh) <= 30 {
			return sh
		}
	}
}

// the most elements a result may have
func (w *W[T]) room() int {
	if w.cap > 0 {
		return w.cap
	}
	return 60
}

// a shape of about cap/3 to cap elements
func (w *W[T]) large() []int {
	sh := make([]int, pick(w.rng, 1, 2, 2, 2, 3, 3, 4))
	n := w.in(w.cap/3, w.cap)
	for i := range sh {
		sh[i] = 1
	}
	for i := w.n(len(sh)); ; i = w.n(len(sh)) {
		f := pick(w.rng, 2, 3, 4, 5, 7, n)
		if len(sh) > 1 && f == n && w.p(70) {
			continue
		}
		if f < 1 || f > n {
			break
		}
		sh[i] *= f
		n /= f
	}
	if w.p(50) {
		if i := w.n(len(sh)); size(sh)/sh[i]*(sh[i]+1) <= w.cap {
			sh[i]++
		}
	}
	return sh
}

// a random value and the denominator it may have
func (w *W[T]) val() T {
	if w.tok != nil {
		return w.anyBits()
	}
	switch w.mode {
	case "i16":
		switch w.n(6) {
		case 0:
			return T(pick(w.rng, -32768, 32767, -1, 0, 1, 256, -256, 181, 20000))
		case 1:
			return T(w.in(-32768, 32767))
		}
		return T(w.in(-20, 20))
	case "i32", "i64":
		return w.wideVal()
	case "int":
		return T(w.in(-12, 12))
	}
	return T(w.in(-8, 8))
}

// arithmetic of the mode wraps around: no value is too large
func (w *W[T]) wraps() bool { return w.mode == "i16" || w.mode == "i32" || w.mode == "i64" }

// any value of the type, often one that other types can not hold
func (w *W[T]) wideVal() T {
	bits := uint(w.width * 8)
	var v int64
	switch w.n(8) {
	case 0:
		v = pick(w.rng, int64(-1)<<(bits-1), int64(1)<<(bits-2)-1+int64(1)<<(bits-2), -1, 0, 1, int64(1)<<24+1, int64(-1)<<24-1, int64(1)<<(bits/2), int64(1)<<(bits/2-1)-1)
	case 1:
		v = int64(w.next())
	case 2: // near a power of two
		v = int64(1)<<w.n(int(bits)) + int64(w.in(-2, 2))
	case 3:
		v = -(int64(1)<<w.n(int(bits)) + int64(w.in(-2, 2)))
	case 4:
		v = int64(w.in(-3000, 3000))
	default:
		v = int64(w.in(-20, 20))
	}
	if bits == 32 {
		v = int64(int32(v))
	}
	return T(v)
}

func (w *W[T]) vals(n int, div bool) ([]T, int64) {
	den := int64(1)
	if w.mode == "rat" && !div && w.p(30) {
		den = pick(w.rng, int64(2), int64(4))
	}
	r := make([]T, n)
	for i := range r {
		if div {
			r[i] = w.divisor()
		} else if den > 1 {
			r[i] = T(float64(w.in(-16, 16)) / float64(den))
		} else {
			r[i] = w.val()
		}
	}
	return r, den
}

// new contents for a tensor within the bounds the generator assumed for it
func (w *W[T]) valsLike(m *meta) []T {
	n := size(m.sh)
	if m.div {
		v, _ := w.vals(n, true)
		return v
	}
	r := make([]T, n)
	for i := range r {
		if w.wraps() || w.tok != nil {
			r[i] = w.val()
		} else {
			d := m.den
			if m.inexact {
				d = 1
			}
			b := m.mag
			if b > 1000 {
				b = 1000
			}
			k := w.in(-int(b*d), int(b*d))
			r[i] = T(float64(k) / float64(d))
		}
	}
	return r
}
func (w *W[T]) valLike(m *meta) T {
	one := *m
	one.sh = []int{1}
	return w.valsLike(&one)[0]
}

func (w *W[T]) divisor() T {
	ds := []int{1, -1, 2, -2, 3, -3, 4, -4}
	if w.f32 {
		ds = []int{1, -1, 2, -2, 4, -4}
	}
	return T(pick(w.rng, ds...))
}

func (w *W[T]) newLeaf(sh []int) int {
	v, den := w.vals(size(sh), false)
	id := w.leaf(sh, v, false, den)
	if w.mode == "rat" && w.ms[id-1].mag < 4 {
		w.ms[id-1].mag = 4
	}
	if w.mode == "int" && w.ms[id-1].mag < 8 {
		w.ms[id-1].mag = 8
	}
	return id
}
func (w *W[T]) newDiv(sh []int) int {
	v, _ := w.vals(size(sh), true)
	id := w.leaf(sh, v, true, 1)
	w.ms[id-1].mag = 4
	return id
}
func (w *W[T]) newScal(div bool) int {
	if div {
		s := w.scal(w.divisor(), true)
		w.smag[s-1] = 4
		return s
	}
	if w.wraps() {
		return w.scal(w.val(), false)
	}
	s := w.scal(T(w.in(-5, 5)), false)
	w.smag[s-1] = 5
	return s
}

var twoArg = map[string]bool{"add": true, "sub": true, "mul": true, "div": true, "dot": true, "dotat": true, "concat": true, "copy": true}
var withScal = map[string]bool{"adds": true, "subs": true, "muls": true, "divs": true, "fill": true}
var noImm = map[string]bool{"flatten": true, "copy": true, "fill": true}

var arith = []string{"add", "sub", "mul", "div", "adds", "subs", "muls", "divs", "neg", "abs", "act"}
var reduces = []string{"sum", "avg", "min", "max", "dsum", "davg", "dmin", "dmax"}
var dots = []string{"dot", "dotat"}
var views = []string{"transpose", "reshape", "flatten", "subt", "subx", "concat"}
var allKinds = append(append(append(append([]string{"softmax"}, arith...), reduces...), dots...), views...)

// random usable tensors
func (w *W[T]) choose(ok func(i int) bool) int {
	c := []int{}
	for i, m := range w.ms {
		if m.kind != "hidden" && w.tens[i] != nil && ok(i+1) {
			c = append(c, i+1)
			if i >= len(w.ms)-4 { // prefer recent ones: deeper expressions
				c = append(c, i+1)
			}
		}
	}
	if len(c) == 0 {
		return 0
	}
	return c[w.n(len(c))]
}

// fill in random parameters for kind k on operand of shape sa; bad: probably unacceptable
func (w *W[T]) params(k string, sa []int, bad bool) par {
	p := par{}
	rank := len(sa)
	switch k {
	case "dsum", "davg", "dmin", "dmax":
		p.dim = 0
		if rank > 0 {
			p.dim = w.n(rank)
		}
		if bad {
			p.dim = rank + w.n(3)
		}
	case "act":
		p.f = pick(w.rng, "lin", "relu2", "relu0", "sq", "aff")
	case "reshape":
		n := size(sa)
		switch w.n(3) {
		case 0: // a factorisation of the same size
			p.shape = []int{}
			for n > 1 && len(p.shape) < 3 {
				f := w.in(1, n)
				for n%f != 0 {
					f--
				}
				p.shape = append(p.shape, f)
				n /= f
			}
			if n > 1 || len(p.shape) == 0 {
				p.shape = append(p.shape, n)
			}
		default:
			p.shape = w.shape()
		}
	case "subt", "subx":
		if rank == 0 {
			return p
		}
		p.dim = w.n(rank)
		d := sa[p.dim]
		p.from = w.n(d)
		p.to = w.in(p.from+1, d)
		if k == "subx" {
			p.from = w.n(d + 2)
			p.to = p.from + w.in(1, 3)
			if w.p(70) {
				p.fill = 0
			} else {
				p.fill = w.in(-3, 3)
			}
		}
		if bad {
			switch w.n(4) {
			case 0:
				p.dim = rank + w.n(2)
			case 1:
				p.to = p.from
			case 2:
				p.from, p.to = p.to, p.from
			case 3:
				p.to = d + w.in(1, 2)
			}
		}
	case "dotat":
		if rank > 0 {
			p.da = w.n(rank)
		}
		if bad && w.p(50) {
			p.da = rank + w.n(2)
		}
	}
	return p
}

type choice struct {
	k string
	a []int
	p par
	s int
	m *meta
}

// a random application of kind k; ok=false when nothing comparable was found
func (w *W[T]) pickOp(k string, bad bool, first int) (c choice, ok bool) {
	c.k = k
	x := first
	if x == 0 {
		x = w.choose(func(i int) bool { return w.ms[i-1].sh != nil })
	}
	if x == 0 {
		return c, false
	}
	mx := w.ms[x-1]
	sa := mx.sh
	c.p = w.params(k, sa, bad)
	c.a = []int{x}
	if withScal[k] {
		if w.wraps() && w.p(50) && k != "divs" || len(w.scals) == 0 {
			c.s = w.newScal(k == "divs")
		} else {
			c.s = 1 + w.n(len(w.scals))
			if k == "divs" && !w.sdiv[c.s-1] && !(w.wraps() && w.p(30)) {
				c.s = w.newScal(true)
			}
		}
	}
	var mb *meta
	if twoArg[k] {
		var want []int
		switch k {
		case "add", "sub", "mul", "div":
			want = sa
		case "copy":
			want = sa
		case "concat":
			if sa == nil || len(sa) == 0 {
				return c, false
			}
			c.p.dim = w.n(len(sa))
			want = append([]int{}, sa...)
			want[c.p.dim] = w.in(1, 3)
		case "dot", "dotat":
			if sa == nil || len(sa) == 0 {
				return c, false
			}
			rb := w.in(1, 3)
			want = make([]int, rb)
			for i := range want {
				want[i] = w.in(1, 3)
			}
			db := rb - 1
			if db > 0 {
				db--
			}
			da := len(sa) - 1
			if k == "dotat" {
				db = w.n(rb)
				c.p.db = db
				da = c.p.da
			}
			if da < len(sa) {
				want[db] = sa[da]
			}
			if bad && k == "dotat" && w.p(30) {
				c.p.db = rb + w.n(2)
			}
		}
		if len(want) == 0 {
			want = w.shape()
		}
		if bad && (k != "dotat" || w.p(50)) {
			// spoil the second operand's shape
			want = append([]int{}, want...)
			if k == "concat" && w.p(30) {
				c.p.dim = len(sa) + w.n(2)
			} else {
				switch w.n(5) {
				case 0:
					want = append(want, w.in(1, 2))
				case 1:
					if len(want) > 1 {
						want = want[:len(want)-1]
					} else {
						want = append(want, 1)
					}
				case 2:
					// the same elements, other dimensions
					i, j := w.n(len(want)), w.n(len(want))
					want[i], want[j] = want[j], want[i]
				default:
					i := w.n(len(want))
					want[i] += w.in(1, 2)
				}
			}
		}
		y := 0
		if !bad && w.p(65) {
			y = w.choose(func(i int) bool {
				m := w.ms[i-1]
				if k == "div" && w.mode == "rat" && !m.div {
					return false
				}
				a, _ := accepts(k, c.p, sa, m.sh)
				return a
			})
		}
		if y == 0 {
			if size(want) > 48 && size(want) > w.cap {
				return c, false
			}
			if k == "div" && w.p(85) || k == "div" && w.mode == "rat" {
				y = w.newDiv(want)
			} else {
				y = w.newLeaf(want)
			}
		}
		c.a = append(c.a, y)
		mb = w.ms[y-1]
	}
	var sb []int
	if mb != nil {
		sb = mb.sh
	}
	acc, rs := accepts(k, c.p, sa, sb)
	if !acc {
		rs = nil
	}
	if rs != nil && size(rs) > w.room() {
		return c, false
	}
	if sa == nil || mb != nil && sb == nil {
		c.m = &meta{mag: 1, den: 1}
		return c, true
	}
	if !acc {
		c.m = &meta{mag: 1, den: 1}
		return c, true
	}
	c.m, ok = w.bounds(k, c.p, mx, mb, c.s, rs)
	return c, ok
}

// append a random node; 0 if none of a few attempts was usable
func (w *W[T]) randNode(kinds []string, bad bool, first int) int {
	for try := 0; try < 12; try++ {
		k := kinds[w.n(len(kinds))]
		c, ok := w.pickOp(k, bad, first)
		if !ok {
			continue
		}
		if bad && c.m.sh != nil {
			continue
		}
		if !bad && c.m.sh == nil && first == 0 {
			continue
		}
		return w.node(c.k, c.a, c.p, c.s, c.m)
	}
	return 0
}

// change some leaf elements, in one of the several ways of writing
func (w *W[T]) mutate(t int) {
	m := w.ms[t-1]
	if len(m.sh) == 0 {
		return
	}
	ix := make([]int, len(m.sh))
	for i, d := range m.sh {
		ix[i] = w.n(d)
	}
	switch w.n(5) {
	case 0:
		w.load(t, w.valsLike(m))
	case 1:
		w.set(t, ix, w.valLike(m))
	case 2:
		w.setOp(t, ix, w.valLike(m))
	case 3:
		if w.p(50) {
			w.fillData(t, w.valLike(m))
		} else {
			w.fillScal(t, w.valLike(m))
		}
	case 4:
		u := w.choose(func(i int) bool {
			x := w.ms[i-1]
			return m.kind == "leaf" && x.kind == "leaf" && i != t && eqSh(x.sh, m.sh) && x.mag <= m.mag && m.den%x.den == 0 && (!m.div || x.div)
		})
		if u > 0 {
			w.loadT(t, u)
		} else {
			w.load(t, w.valsLike(m))
		}
	}
}

func (w *W[T]) leaves() []int {
	r := []int{}
	for i, m := range w.ms {
		if m.kind == "leaf" && w.tens[i] != nil {
			r = append(r, i+1)
		}
	}
	return r
}

func newW[T types.Number](r *rng, t *tape, mode string, f32 bool, width int) *W[T] {
	return &W[T]{rng: r, t: t, mode: mode, f32: f32, width: width}
}
