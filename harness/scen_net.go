package main

import (
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func (n *N[T]) opt() genOpt {
	o := genOpt{maxP: 40, maxE: 36, depth: n.in(1, 4), inDen: true}
	if n.mode == "rat" {
		o.maxP, o.maxE, o.depth, o.small = 16, 18, n.in(1, 3), true
		return o
	}
	switch c := n.n(100); {
	case c < 3: // large
		o.maxP, o.maxE, o.depth, o.wide = 260, 260, n.in(1, 4), true
	case c < 8: // deep
		o.depth = n.in(5, 10)
	case c < 20: // pictures
		o.maxP, o.maxE, o.depth, o.pict = 130, 150, n.in(1, 4), true
	}
	return o
}
func (n *N[T]) alpha() T {
	if n.mode == "rat" {
		return T(pick(n.rng, 0.5, 0.25, 1, 2))
	}
	return T(pick(n.rng, 1, 2, 3, -1, 5))
}
func (n *N[T]) momentum() T {
	if n.mode == "rat" {
		return T(pick(n.rng, 0, 0.5, 1))
	}
	return T(pick(n.rng, 0, 1, 2, -3))
}
func (n *N[T]) xbig() int {
	if n.mode == "rat" {
		return 3
	}
	return pick(n.rng, 3, 20, 30000)
}

// ready a model: compiled (explicitly or by another call) with known parameters
func (n *N[T]) ready(m int) {
	md := n.models[m-1]
	switch n.n(6) {
	default:
		n.compile(m)
	case 0:
		if n.mode != "rat" {
			// use first, look at the random parameters afterwards
			x := n.input(m, n.xbig()).Copy()
			cut := len(n.t.events)
			r := n.predict(m, x)
			e := n.t.events[cut]
			n.t.events = n.t.events[:cut]
			n.adopt(m)
			n.t.events = append(n.t.events, e)
			if r != "ok" {
				return
			}
		} else {
			n.resetIS(m)
		}
	case 1:
		r := try(md.m.CompileBackPropagation)
		n.add(ev{"e": "compile", "m": m, "r": r})
	case 2:
		n.train(m, []tensor.Tensor[T]{n.input(m, 3)}, []tensor.Tensor[T]{n.target(m, 3)}, 0, 1, 1, 0)
		if n.mode != "rat" {
			// zero epochs: the parameters in the event are the random initial ones
			e := n.t.events[len(n.t.events)-1]
			n.t.events = n.t.events[:len(n.t.events)-1]
			if e["r"] == "ok" {
				n.t.events = append(n.t.events, ev{"e": "adopt", "m": m, "v": e["after"]})
			}
			n.t.events = append(n.t.events, e)
		} else {
			n.t.events = n.t.events[:len(n.t.events)-1]
			n.compile(m)
		}
	case 3:
		x := n.misfit(md.inSh)
		n.predict(m, x)
	}
	if n.dead {
		return
	}
	if n.p(30) {
		n.compile(m)
	}
	n.setAll(md.pls)
}

// a model of the same architecture
func (n *N[T]) twin(m int) int {
	md := n.models[m-1]
	ds := []desc{}
	for l := md.first; l <= md.last; l++ {
		d := n.ds[l-1]
		pre := []int{}
		if l != md.first {
			for _, x := range d.pre {
				pre = append(pre, x-md.first+1)
			}
		}
		ds = append(ds, desc{d.k, pre, d.p, d.act})
	}
	return n.addModel(ds)
}

// random calls
type acts struct{ predict, misfit, one, badone, many, badmany, set, freeze, freezem, save, outs, resets, momentum int }

func (n *N[T]) act1(m int, a acts, st *sess) {
	md := n.models[m-1]
	tot := a.predict + a.misfit + a.one + a.badone + a.many + a.badmany + a.set + a.freeze + a.freezem + a.save + a.outs + a.resets
	c := n.n(tot)
	take := func(k int) bool {
		c -= k
		return c < 0
	}
	mo := func() T {
		if n.p(a.momentum) {
			return n.momentum()
		}
		return 0
	}
	switch {
	case take(a.predict):
		n.predict(m, n.input(m, n.xbig()))
	case take(a.misfit):
		n.predict(m, n.misfit(md.inSh))
		n.params(md.pls)
	case take(a.one):
		n.step(m, mo(), st)
	case take(a.badone):
		x, y := n.input(m, n.xbig()), n.target(m, 5)
		if n.p(50) {
			x = n.misfit(md.inSh)
		} else {
			y = n.misfit(md.outSh)
		}
		n.trainOne(m, x, y, n.alpha(), mo())
		if !n.dead {
			n.params(md.pls)
		}
	case take(a.many):
		n.many(m, mo(), st, false)
	case take(a.badmany):
		n.many(m, mo(), st, true)
	case take(a.set):
		if len(md.pls) > 0 {
			n.setp(md.pls[n.n(len(md.pls))])
		}
	case take(a.freeze):
		l := md.first + n.n(md.last-md.first+1)
		if a.momentum > 0 && !st.canUnfreeze() {
			n.freeze(l, false)
		} else {
			n.freeze(l, n.p(50))
		}
	case take(a.freezem):
		n.freezeM(m, n.p(50) && (a.momentum == 0 || st.canUnfreeze()))
	case take(a.save):
		n.save(m, -1)
	case take(a.outs):
		if n.p(30) {
			n.setOut()
		}
		n.seeOuts()
	case take(a.resets):
		switch n.n(3) {
		case 0:
			n.resetIS(m)
		case 1:
			n.str(m)
		default:
			n.compile(m)
		}
	}
}

type sess struct {
	steps int // training steps so far
	limit int
}

func (s *sess) canUnfreeze() bool { return s.steps == 0 }

func (n *N[T]) step(m int, mo T, st *sess) {
	if st.steps >= st.limit {
		n.params(n.models[m-1].pls)
		return
	}
	st.steps++
	if n.trainOne(m, n.input(m, n.xbig()), n.target(m, n.xbig()), n.alpha(), mo) == "ok" {
		n.params(n.models[m-1].pls)
	}
}

func (n *N[T]) many(m int, mo T, st *sess, bad bool) {
	md := n.models[m-1]
	if n.mode != "rat" && !bad && n.p(15) {
		// many steps, but all on the same sample
		k, e, b := n.in(1, 9), n.in(1, 12), n.in(0, 9)
		most := 60
		if len(md.pls) < 3 && n.p(5) {
			k, e, b, most = n.in(1, 40), n.in(1, 150), n.in(0, 150), 250
		}
		eff := b
		if b == 0 {
			eff = k
		}
		for e*eff > most && e > 1 {
			e--
		}
		x, y := n.input(m, n.xbig()), n.target(m, n.xbig())
		xs, ys := []tensor.Tensor[T]{}, []tensor.Tensor[T]{}
		for i := 0; i < k; i++ {
			xs, ys = append(xs, x), append(ys, y)
		}
		st.steps += e * eff
		n.train(m, xs, ys, e, b, n.alpha(), mo)
		return
	}
	k := n.in(1, 3)
	e, b := n.in(0, 3), n.in(0, 3)
	lim := map[int]int{1: 6, 2: 5, 3: 3}[k]
	eff := b
	if b == 0 {
		eff = k
	}
	for e*eff > lim || st.steps+e*eff > st.limit && e > 0 {
		e--
	}
	st.steps += e * eff
	xs, ys := []tensor.Tensor[T]{}, []tensor.Tensor[T]{}
	for i := 0; i < k; i++ {
		xs = append(xs, n.input(m, n.xbig()))
		ys = append(ys, n.target(m, n.xbig()))
	}
	if bad {
		switch n.n(5) {
		case 4:
			xs, ys = xs[:0], ys[:0]
			e = n.n(3)
		case 0:
			xs = append(xs, n.input(m, 3))
		case 1:
			ys = ys[:len(ys)-1]
		case 2:
			xs[n.n(k)] = n.misfit(md.inSh)
		case 3:
			ys[n.n(k)] = n.misfit(md.outSh)
		}
	}
	if k > 1 {
		mo = 0
	}
	n.train(m, xs, ys, e, b, n.alpha(), mo)
}

func (n *N[T]) scenC08() {
	o := n.opt()
	o.scale = !n.exact
	ds := n.genNet(o)
	if n.p(30) {
		ds = n.spoil(ds)
		m := n.addModel(ds)
		md := n.models[m-1]
		if md.valid {
			panic("generator: not spoiled")
		}
		x := n.input(m, 3)
		y := n.target(m, 3)
		for k := n.in(2, 5); k > 0 && !n.dead; k-- {
			switch n.n(6) {
			case 0:
				n.compile(m)
			case 1:
				n.predict(m, x)
			case 2:
				n.trainOne(m, x, y, 1, 0)
			case 3:
				xs, ys := []tensor.Tensor[T]{x}, []tensor.Tensor[T]{y}
				r := try(func() error { return md.m.Train(xs, ys, 1, 1, 1, 0) })
				n.add(ev{"e": "train", "m": m, "xs": []ev{n.tj(x)}, "ys": []ev{n.tj(y)}, "e0": 1, "b": 1, "a": n.enc(1), "mo": n.enc(0), "r": r, "after": []ev{}})
			case 4:
				c := &capped{lim: -1}
				r := try(func() error { return md.m.Save(c) })
				n.add(ev{"e": "save", "m": m, "lim": -1, "r": r, "n": c.buf.Len()})
			case 5:
				r := try(md.m.ResetIS)
				n.add(ev{"e": "resetis", "m": m, "r": r})
			}
		}
		return
	}
	m := n.addModel(ds)
	n.ready(m)
	for k := n.in(2, 4); k > 0 && !n.dead; k-- {
		n.predict(m, n.input(m, n.xbig()))
	}
	if !n.dead {
		n.params(n.models[m-1].pls)
		n.seeOuts()
	}
}

func (n *N[T]) scenC09() {
	o := n.opt()
	o.train = true
	o.scale = n.mode == "rat" && !n.exact
	m := n.addModel(n.genNet(o))
	n.ready(m)
	if n.dead {
		return
	}
	md := n.models[m-1]
	x := n.input(m, n.xbig()).Copy()
	n.predict(m, x)
	if n.p(1) {
		// many times
		for k := n.in(50, 300); k > 0 && !n.dead; k-- {
			n.predict(m, n.input(m, n.xbig()))
		}
	}
	if n.dead {
		return
	}
	n.save(m, -1)
	st := &sess{limit: 3}
	if n.mode == "rat" {
		st.limit = 1
	}
	for k := n.in(3, 8); k > 0 && !n.dead; k-- {
		n.act1(m, acts{predict: 3, misfit: 2, one: 2, badone: 1, save: 1, outs: 2, resets: 3, freeze: 1}, st)
	}
	if n.dead {
		return
	}
	n.load(m, 1, -1)
	n.params(md.pls)
	n.predict(m, x)
	if !n.dead {
		n.seeOuts()
	}
}

func (n *N[T]) scenC10() {
	o := n.opt()
	o.train = true
	o.scale = n.mode == "rat" && !n.exact
	m := n.addModel(n.genNet(o))
	n.ready(m)
	st := &sess{limit: 4}
	if n.mode == "rat" {
		st.limit = 1
	}
	for k := n.in(1, 4); k > 0 && !n.dead; k-- {
		n.act1(m, acts{one: 6, predict: 1, badone: 1, resets: 1, set: 1}, st)
	}
}

func (n *N[T]) scenC11() {
	o := n.opt()
	o.train = true
	o.depth++
	o.scale = n.mode == "rat" && !n.exact
	m := n.addModel(n.genNet(o))
	early := n.p(50)
	st := &sess{limit: 5}
	if n.mode == "rat" {
		st.limit = 2
	}
	mom := 0
	if n.p(30) {
		mom = 50
	}
	a := acts{freeze: 3, freezem: 1, momentum: mom}
	if early {
		for k := n.in(1, 2); k > 0; k-- {
			n.act1(m, a, st)
		}
	}
	n.ready(m)
	a.one, a.predict = 5, 1
	for k := n.in(3, 7); k > 0 && !n.dead; k-- {
		n.act1(m, a, st)
	}
}

// parts and whole of a composed model, saved and loaded in any order, some of it failing
func (n *N[T]) scenC12parts() {
	o := n.opt()
	o.train = true
	o.maxP, o.maxE, o.depth, o.wide = 16, 36, n.in(1, 2), false
	if n.mode == "rat" {
		o.maxP, o.maxE = 8, 8
	}
	ms, c := n.chainOfModels(o)
	if c == 0 || n.dead {
		return
	}
	all := append([]int{c}, ms...)
	pls := n.models[c-1].pls
	n.setAll(pls)
	whose := []int{}
	size := map[int]int{}
	for k := n.in(5, 10); k > 0 && !n.dead; k-- {
		m := all[n.n(len(all))]
		switch n.n(6) {
		case 0, 1:
			if r, sz := n.save(m, -1); r == "ok" {
				whose = append(whose, m)
				size[m] = sz
			}
		case 2:
			if r, _ := n.save(m, n.n(size[m]+9)); r == "ok" {
				whose = append(whose, m)
			}
		case 3:
			n.setAll(n.models[m-1].pls)
		default:
			if len(whose) == 0 {
				continue
			}
			f := n.n(len(whose))
			cut := -1
			if n.p(25) {
				cut = n.n(size[whose[f]] + 1)
			}
			n.load(whose[f], f+1, cut)
		}
		n.params(pls)
	}
}

func (n *N[T]) scenC12() {
	if n.p(30) {
		n.scenC12parts()
		return
	}
	o := n.opt()
	if !o.wide {
		o.maxP = 24
	}
	o.train = n.p(50)
	o.scale = !n.exact
	m := n.addModel(n.genNet(o))
	m2 := n.twin(m)
	n.ready(m)
	if n.dead {
		return
	}
	md, md2 := n.models[m-1], n.models[m2-1]
	r, size := n.save(m, -1)
	if r != "ok" || n.dead {
		return
	}
	if n.p(50) {
		// change the source: the file must not
		n.setAll(md.pls)
	}
	if n.p(60) {
		n.ready(m2)
	}
	if n.dead {
		return
	}
	n.load(m2, 1, -1)
	n.params(md2.pls)
	n.predict(m2, n.input(m2, n.xbig()))
	if n.dead {
		return
	}
	// damaged streams, at some or all bytes
	step := 1
	if size > 24 {
		step = n.in(1, 7)
	}
	full := n.p(40)
	for k := 0; k < size; k += step {
		if !full && n.p(70) {
			continue
		}
		if n.p(50) {
			n.save(m2, k)
		} else {
			n.load(m2, 1, k)
		}
	}
	n.params(md2.pls)
	n.save(m2, size)
	if n.p(50) {
		n.setAll(md2.pls)
	}
	if n.p(30) {
		n.resetIS(m2)
	}
	n.save(m2, -1)
	n.load(m, len(n.files), -1)
	n.load(m2, 1, -1)
	n.params(md.pls)
	n.params(md2.pls)
}

func (n *N[T]) scenC13() {
	o := n.opt()
	o.train = true
	if !o.wide {
		o.maxP = 24
	}
	o.scale = n.mode == "rat" && !n.exact
	m := n.addModel(n.genNet(o))
	m2 := n.twin(m)
	n.ready(m)
	if n.dead {
		return
	}
	n.save(m, -1)
	// the twin gets its parameters by loading, whatever was called first
	if n.p(50) {
		md := n.models[m2-1]
		switch n.n(3) {
		case 0:
			n.predict(m2, n.misfit(md.inSh))
		case 1:
			n.trainOne(m2, n.misfit(md.inSh), n.target(m2, 3), 1, 0)
		case 2:
			n.resetIS(m2)
		}
	}
	if n.dead {
		return
	}
	n.load(m2, 1, -1)
	st, st2 := &sess{limit: 6}, &sess{limit: 6}
	if n.mode == "rat" {
		st.limit, st2.limit = 1, 1
	}
	a := acts{predict: 2, one: 2, badone: 1, many: 4, badmany: 2, resets: 1, misfit: 1, momentum: 20}
	for k := n.in(2, 5); k > 0 && !n.dead; k-- {
		n.act1(m, a, st)
		if !n.dead {
			n.act1(m2, a, st2)
		}
	}
}

// two or more models, composed; c is 0 if that was refused
func (n *N[T]) chainOfModels(o genOpt) (ms []int, c int) {
	parts := 2
	if n.p(25) && n.mode != "rat" {
		parts = n.in(3, 4)
	}
	for len(ms) < parts {
		var in []int
		if len(ms) > 0 {
			in = n.models[ms[len(ms)-1]-1].outSh
		}
		ds := n.genNet(o)
		if len(ms) < parts-1 && !ownCells(ds) {
			continue
		}
		if in != nil {
			// the next part must accept what the previous one gives
			if ds[0].k == "input" {
				ds[0].p.shape = in
			} else {
				ds[0].p.ins = prod(in)
			}
			if !n.okDescs(ds) {
				continue
			}
		}
		ms = append(ms, n.addModel(ds))
	}
	if n.p(20) {
		n.compile(ms[0])
	}
	if n.p(6) {
		n.compile(ms[n.in(1, len(ms)-1)]) // then it cannot be connected
	}
	if n.p(6) {
		// refused, without connecting anything: a model twice, one without layers
		switch k := n.n(len(ms)); n.n(3) {
		case 0:
			n.compose(append(append([]int{}, ms...), ms[k]))
		case 1:
			n.compose([]int{ms[k], ms[k]})
		case 2:
			e := n.addModel([]desc{})
			bad := append(append([]int{}, ms[:k]...), e)
			n.compose(append(bad, ms[k:]...))
		}
		if n.dead {
			return ms, 0
		}
	}
	if len(ms) > 2 && n.p(50) {
		// a composed model as the first part of another
		k := n.in(2, len(ms)-1)
		c1 := n.compose(ms[:k])
		if c1 == 0 || n.dead {
			return ms, 0
		}
		rest := append([]int{c1}, ms[k:]...)
		return append(append([]int{}, ms...), c1), n.compose(rest)
	}
	c = n.compose(ms)
	if c > 0 && !n.dead && n.p(12) {
		// the same parts, or the first of them, once more
		k := pick(n.rng, 1, len(ms))
		if c2 := n.compose(ms[:k]); c2 > 0 {
			ms = append(append([]int{}, ms...), c2)
		}
	}
	return ms, c
}

// whether the output has one cell per element: a later part is fed on its own
// through these cells
func ownCells(ds []desc) bool {
	ok := true
	var roots func(l int) map[int]bool
	roots = func(l int) map[int]bool {
		d := ds[l-1]
		r := map[int]bool{}
		switch d.k {
		case "concat", "flatten", "subt":
			for _, x := range d.pre {
				for y := range roots(x) {
					if r[y] {
						ok = false
					}
					r[y] = true
				}
			}
		default:
			r[l] = true
		}
		return r
	}
	roots(len(ds))
	return ok
}

func (n *N[T]) scenC14() {
	o := n.opt()
	o.train = true
	o.maxP, o.maxE, o.depth, o.wide = 16, 36, n.in(1, 2), false
	if n.mode == "rat" {
		o.maxP, o.maxE = 8, 8
	}
	if n.p(3) {
		n.compose([]int{}) // refused
	}
	ms, c := n.chainOfModels(o)
	if n.dead {
		return
	}
	st := &sess{limit: 5}
	if c == 0 {
		// refused: the parts are still separate models
		for _, m := range ms {
			if n.ready(m); n.dead {
				return
			}
		}
		if n.mode == "rat" {
			st.limit = 1
		}
		for k := n.in(3, 6); k > 0 && !n.dead; k-- {
			n.act1(ms[n.n(len(ms))], acts{predict: 3, one: 3, misfit: 1, freezem: 1}, st)
			for _, m := range ms {
				if !n.dead {
					n.params(n.models[m-1].pls)
				}
			}
		}
		return
	}
	all := append([]int{c}, ms...)
	n.setAll(n.models[c-1].pls)
	if n.mode == "rat" {
		st.limit = 1
	}
	mom := 0
	if n.p(30) {
		mom = 50
	}
	a := acts{predict: 4, one: 3, misfit: 1, badone: 1, freezem: 2, outs: 1, momentum: mom, many: 1, resets: 1}
	for k := n.in(4, 9); k > 0 && !n.dead; k-- {
		m := all[n.n(len(all))]
		n.act1(m, a, st)
		if !n.dead {
			n.params(n.models[c-1].pls)
		}
	}
	if n.dead {
		return
	}
	// saving and loading a part, or the whole
	if n.p(40) {
		m := all[n.n(len(all))]
		n.save(m, -1)
		n.setAll(n.models[c-1].pls)
		n.load(m, 1, -1)
		n.params(n.models[c-1].pls)
		for _, m := range all {
			if !n.dead {
				n.predict(m, n.input(m, n.xbig()))
			}
		}
	}
}

func (n *N[T]) okDescs(ds []desc) bool {
	shs := [][]int{}
	np := 0
	for _, d := range ds {
		ins := [][]int{}
		for _, x := range d.pre {
			ins = append(ins, shs[x-1])
		}
		s := outShape(d, ins)
		if s == nil || prod(s) > 36 {
			return false
		}
		np += paramCount(d, ins)
		shs = append(shs, s)
	}
	return np <= 40
}

func (n *N[T]) scenC18() {
	o := n.opt()
	o.train = true
	o.depth = n.in(1, 3)
	m := n.addModel(n.genNet(o))
	n.ready(m)
	st := &sess{limit: 8}
	if n.mode == "rat" {
		st.limit = 2
	}
	for k := n.in(3, 8); k > 0 && !n.dead; k-- {
		n.act1(m, acts{one: 10, predict: 1, badone: 1, set: 1, many: 1, resets: 1, momentum: 80}, st)
	}
}

func (n *N[T]) run(prop string) {
	switch prop {
	case "C08":
		n.scenC08()
	case "C09":
		n.scenC09()
	case "C10":
		n.scenC10()
	case "C11":
		n.scenC11()
	case "C12":
		n.scenC12()
	case "C13":
		n.scenC13()
	case "C14":
		n.scenC14()
	case "C18":
		n.scenC18()
	case "C20":
		n.scenC20()
	case "T13":
		n.scenT13()
	}
}

func startN[T types.Number](r *rng, t *tape, prop, typ, mode string, exact, f32 bool, width int) {
	t.add(ev{"e": "reset", "mode": mode, "type": typ, "width": width, "prop": prop})
	n := &N[T]{rng: r, t: t, mode: mode, exact: exact, f32: f32, width: width}
	n.big = 2
	if mode == "i16" {
		n.big = pick(r, 3, 9, 30000)
	}
	n.run(prop)
}

func netProp(prop string) {
	scenarios[prop] = func(seed uint64, idx int, t *tape) bool {
		r := newRng(seed, hash(prop), uint64(idx))
		switch r.n(10) {
		default:
			startN[int16](r, t, prop, "int16", "i16", false, false, 2)
		case 6:
			startN[float32](r, t, prop, "float32", "rat", true, true, 4)
		case 7:
			startN[float64](r, t, prop, "float64", "rat", true, false, 8)
		case 8, 9:
			startN[float64](r, t, prop, "float64", "rat", false, false, 8)
		}
		return true
	}
}

func init() {
	for _, p := range []string{"C08", "C09", "C10", "C11", "C12", "C13", "C14", "C18", "C20", "T13"} {
		netProp(p)
	}
}
