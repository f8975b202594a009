package main

// ---- C01: one graph, executed repeatedly on changing inputs

func (w *W[T]) expression(kinds []string, nodes int) []int {
	if w.cap > 0 && nodes > 3 {
		nodes = 3
	}
	for n := w.in(1, 3); n > 0; n-- {
		w.newLeaf(w.shape())
	}
	if w.p(30) {
		w.newScal(w.p(50))
	}
	ids := []int{}
	for i := 0; i < nodes; i++ {
		if id := w.randNode(kinds, false, 0); id > 0 {
			ids = append(ids, id)
		}
	}
	return ids
}

func (w *W[T]) mutateSome(n int) {
	for i := 0; i < n; i++ {
		ls := w.leaves()
		w.mutate(ls[w.n(len(ls))])
	}
	for s := range w.scals {
		if w.p(30) {
			if w.sdiv[s] {
				w.setScal(s+1, w.divisor())
			} else if w.wraps() {
				w.setScal(s+1, w.val())
			} else {
				w.setScal(s+1, T(w.in(-5, 5)))
			}
		}
	}
}

func (w *W[T]) scenC01() {
	ids := w.expression(allKinds, w.in(2, 9))
	if len(ids) == 0 {
		return
	}
	root := ids[len(ids)-1]
	g := w.graph(root)
	if g == 0 {
		return
	}
	rounds := w.in(1, 3)
	if w.cap > 0 {
		rounds = 1
	}
	for ; rounds > 0 && !w.dead; rounds-- {
		w.exec(g)
		w.seeAll()
		if w.dead {
			return
		}
		if w.p(40) && w.cap == 0 {
			w.exec(g)
			w.seeAll()
			if w.dead {
				return
			}
		}
		w.mutateSome(w.in(1, 3))
		if w.p(30) {
			w.seeAll()
		}
	}
	w.exec(g)
	w.seeAll()
}

// ---- C02: addressing, constructors, copies

func (w *W[T]) badIndex(sh []int) []int {
	ix := make([]int, len(sh))
	for i, d := range sh {
		ix[i] = w.n(d)
	}
	switch w.n(4) {
	case 0:
		return append(ix, 0)
	case 1:
		if len(ix) > 0 {
			return ix[:len(ix)-1]
		}
		return []int{0}
	}
	if len(ix) == 0 {
		return []int{1, 0}
	}
	i := w.n(len(ix))
	ix[i] = sh[i] + pick(w.rng, 0, 0, 1, 2, 7)
	return ix
}

func (w *W[T]) scenC02() {
	for n := w.in(1, 3); n > 0; n-- {
		sh := w.shape()
		if w.p(4) {
			sh = []int{}
		}
		switch w.n(7) {
		case 0:
			w.leafZeros(sh)
		case 1:
			w.leafOnes(sh)
		case 2:
			lo := w.in(-5, 5)
			id := w.leafRand(sh, lo, lo+w.in(0, 6))
			if w.p(60) {
				w.ms[id-1].mag = 8
				w.load(id, w.valsLike(w.ms[id-1]))
			}
		case 3:
			id := w.leafNorm(sh)
			w.ms[id-1].mag = 8
			w.load(id, w.valsLike(w.ms[id-1]))
		default:
			n := size(sh)
			if w.p(40) { // too few or too many values
				n = w.n(2*n + 2)
			}
			v, den := w.vals(n, false)
			w.leaf(sh, v, false, den)
		}
	}
	if w.tok == nil && w.p(40) { // tensors made by rearranging others are addressed the same way
		for n := w.in(1, 2); n > 0; n-- {
			w.randImm(views)
		}
	}
	for i := range w.ms {
		if w.ms[i].mag < 4 || w.ms[i].mag > 1000 {
			w.ms[i].mag = 8
		}
	}
	for n := w.in(4, 14); n > 0; n-- {
		t := 1 + w.n(len(w.tens))
		m := w.ms[t-1]
		ix := make([]int, len(m.sh))
		for i, d := range m.sh {
			ix[i] = w.n(d)
		}
		switch w.n(12) {
		case 0, 1:
			w.set(t, ix, w.valLike(m))
		case 2:
			w.setOp(t, ix, w.valLike(m))
		case 3:
			w.get(t, ix)
			w.getOp(t, ix)
		case 4:
			w.get(t, w.badIndex(m.sh))
			w.getOp(t, w.badIndex(m.sh))
		case 5:
			w.set(t, w.badIndex(m.sh), w.valLike(m))
			w.setOp(t, w.badIndex(m.sh), w.valLike(m))
		case 6:
			w.load(t, w.valsLike(m))
		case 7:
			v := w.valsLike(m)
			if w.p(50) {
				v = append(v, 1)
			} else {
				v = v[:len(v)-1]
			}
			w.load(t, v)
		case 8:
			u := 1 + w.n(len(w.tens))
			w.loadT(t, u)
		case 9:
			if w.p(50) {
				w.fillData(t, w.valLike(m))
			} else {
				w.fillScal(t, w.valLike(m))
			}
		case 10:
			w.copyT(t)
		case 11:
			w.see(t)
		}
		if w.p(35) {
			w.seeAll()
		}
	}
	w.seeAll()
	for t := range w.tens {
		sh := w.ms[t].sh
		eachIndex(sh, func(ix []uint) {
			if w.p(50) {
				w.get(t+1, ints(ix))
			}
		})
	}
}

// ---- C03: rearranging operations are live views

func (w *W[T]) scenC03() {
	for n := w.in(1, 2); n > 0; n-- {
		w.newLeaf(w.shape())
	}
	if w.p(25) {
		// before anything is built from them
		if w.p(60) {
			w.newLeaf(w.ms[w.n(len(w.ms))].sh)
		}
		for k := w.in(1, 2); k > 0; k-- {
			w.bind(1+w.n(len(w.tens)), 1+w.n(len(w.tens)))
			w.seeAll()
		}
	}
	mix := views
	if w.p(50) {
		mix = append(append([]string{"neg", "adds", "add", "dsum"}, views...), views...)
	}
	ids := []int{}
	for n := w.in(1, 6); n > 0; n-- {
		if id := w.randNode(mix, false, 0); id > 0 {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return
	}
	gs := []int{}
	root := ids[len(ids)-1]
	if g := w.graph(root); g > 0 {
		gs = append(gs, g)
	}
	for _, id := range ids {
		if !w.ms[id-1].built && w.p(70) {
			if g := w.graph(id); g > 0 {
				gs = append(gs, g)
			}
		}
	}
	for _, g := range gs {
		w.exec(g)
		if w.dead {
			return
		}
	}
	w.seeAll()
	for n := w.in(2, 5); n > 0; n-- {
		s := w.seeable()
		t := s[w.n(len(s))]
		m := w.ms[t-1]
		if m.kind != "leaf" && !w.wraps() {
			// keep within the bounds assumed for its sources
			lm := *m
			lm.mag, lm.den = 2, 1
			ix := make([]int, len(m.sh))
			for i, d := range m.sh {
				ix[i] = w.n(d)
			}
			if w.p(50) {
				w.set(t, ix, w.valLike(&lm))
			} else {
				w.load(t, w.valsLike(&lm))
			}
		} else {
			w.mutate(t)
		}
		w.seeAll()
	}
	for _, g := range gs {
		w.exec(g)
		if w.dead {
			return
		}
	}
	w.seeAll()
}

// ---- C04: dot products and reductions

func (w *W[T]) scenC04() {
	for n := w.in(1, 2); n > 0; n-- {
		w.newLeaf(w.shape())
	}
	ks := append(append(append([]string{}, dots...), dots...), reduces...)
	if w.p(30) {
		ks = append(ks, "transpose", "reshape", "subt")
	}
	ids := []int{}
	for n := w.in(1, 4); n > 0; n-- {
		if id := w.randNode(ks, false, 0); id > 0 {
			ids = append(ids, id)
		}
	}
	for _, id := range ids {
		if w.ms[id-1].built {
			continue
		}
		if g := w.graph(id); g > 0 {
			w.exec(g)
			if w.dead {
				return
			}
			w.seeAll()
			if w.p(50) {
				w.mutateSome(2)
				w.exec(g)
				w.seeAll()
			}
		}
	}
	for n := w.in(0, 2); n > 0 && !w.dead; n-- {
		w.randImm(ks)
	}
	w.seeAll()
}

// a random immediate operation on tensors that are ready
func (w *W[T]) randImm(kinds []string) int {
	for try := 0; try < 8; try++ {
		k := kinds[w.n(len(kinds))]
		if noImm[k] {
			continue
		}
		x := w.choose(func(i int) bool { m := w.ms[i-1]; return m.sh != nil && (m.kind == "leaf" || m.built) })
		if x == 0 {
			return 0
		}
		c, ok := w.pickOp(k, w.p(15), x)
		if !ok {
			continue
		}
		if len(c.a) > 1 && !(w.ms[c.a[1]-1].kind == "leaf" || w.ms[c.a[1]-1].built) {
			continue
		}
		if k == "dot" && w.p(40) {
			c.p.f = "vec"
		}
		if c.p.fill != 0 && int64(abs(c.p.fill)) > c.m.mag {
			c.m.mag = int64(abs(c.p.fill))
		}
		id := w.imm(c.k, c.a, c.p, c.s, c.m)
		if id == 0 {
			// rejected as expected, or (int division by zero) the end
			if c.m.sh != nil {
				w.dead = true
			}
			return 0
		}
		return id
	}
	return 0
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// ---- C05: rejected operands

func (w *W[T]) scenC05() {
	ids := w.expression(allKinds, w.in(0, 4))
	good := append([]int{}, ids...)
	bad := w.randNode(allKinds, true, 0)
	if bad == 0 {
		return
	}
	top := bad
	tops := []int{bad}
	for n := w.n(4); n > 0; n-- { // wrap it
		var id int
		if w.p(50) {
			id = w.randNode(allKinds, false, top)
		} else { // as second operand
			x := w.choose(func(i int) bool { return w.ms[i-1].sh != nil })
			k := pick(w.rng, "add", "mul", "concat", "dot", "sub", "copy")
			id = w.node(k, []int{x, top}, par{}, 0, &meta{mag: 1, den: 1})
		}
		if id > 0 {
			top = id
			tops = append(tops, id)
		}
	}
	var c, g int
	if w.p(60) && len(good) > 0 { // part of the good ones first
		if x := good[w.n(len(good))]; !w.ms[x-1].built {
			g = w.graph(x)
			if g > 0 {
				w.exec(g)
				if w.dead {
					return
				}
				w.seeAll()
			}
		}
	}
	c = w.ctx()
	if w.p(50) && len(good) > 0 {
		w.build(c, good[w.n(len(good))])
	}
	for n := w.in(1, 3); n > 0; n-- {
		t := tops[w.n(len(tops))]
		switch w.n(4) {
		case 0:
			w.graph(t)
		case 1:
			w.build(c, t)
		case 2:
			y := w.choose(func(i int) bool { return w.ms[i-1].kind == "leaf" })
			if w.p(50) {
				w.transfer(c, t, y)
			} else {
				w.transfer(c, y, t)
			}
		case 3: // copy between different sizes
			a := w.choose(func(i int) bool { return w.ms[i-1].sh != nil })
			b := w.choose(func(i int) bool { return w.ms[i-1].sh != nil && size(w.ms[i-1].sh) != size(w.ms[a-1].sh) })
			if b > 0 {
				w.transfer(c, a, b)
			} else {
				w.graph(t)
			}
		}
		w.seeAll()
	}
	// immediate forms are rejected too
	for n := w.n(3); n > 0; n-- {
		k := pick(w.rng, "add", "sub", "mul", "div", "dot", "dotat", "concat", "subt", "subx", "dsum", "davg", "dmin", "dmax")
		x := w.choose(func(i int) bool { m := w.ms[i-1]; return m.kind == "leaf" && m.sh != nil })
		if x == 0 {
			break
		}
		ch, ok := w.pickOp(k, true, x)
		if ok && ch.m.sh == nil && (len(ch.a) == 1 || w.ms[ch.a[1]-1].kind == "leaf" || w.ms[ch.a[1]-1].built) {
			w.imm(ch.k, ch.a, ch.p, ch.s, ch.m)
		}
	}
	// the valid ones still work
	gs := []int{}
	for _, t := range good {
		if !w.ms[t-1].built && w.p(70) {
			if w.p(50) {
				if g := w.graph(t); g > 0 {
					gs = append(gs, g)
				}
			} else {
				w.build(c, t)
			}
		}
	}
	gc := w.fromCtx(c)
	// contexts and graphs were filled alternately: everything that is needed
	// by a graph may be in the context, so run the context first, then all
	w.exec(gc)
	for _, g := range gs {
		if !w.dead {
			w.exec(g)
		}
	}
	if !w.dead {
		w.exec(gc)
		for _, g := range gs {
			if !w.dead {
				w.exec(g)
			}
		}
	}
	w.seeAll()
}

// ---- C06: immediate operations

func (w *W[T]) scenC06() {
	for n := w.in(1, 3); n > 0; n-- {
		w.newLeaf(w.shape())
	}
	if w.p(30) { // a computed operand
		if id := w.randNode(allKinds, false, 0); id > 0 {
			if g := w.graph(id); g > 0 {
				w.exec(g)
				if w.dead {
					return
				}
			}
		}
	}
	for n := w.in(1, 4); n > 0 && !w.dead; n-- {
		k := allKinds[w.n(len(allKinds))]
		if noImm[k] {
			continue
		}
		x := w.choose(func(i int) bool { m := w.ms[i-1]; return m.sh != nil && (m.kind == "leaf" || m.built) })
		c, ok := w.pickOp(k, w.p(15), x)
		if !ok || len(c.a) > 1 && !(w.ms[c.a[1]-1].kind == "leaf" || w.ms[c.a[1]-1].built) {
			continue
		}
		if k == "dot" && w.p(40) {
			c.p.f = "vec"
		}
		if k == "subx" && w.p(50) {
			c.p.fill = 0
		}
		if int64(abs(c.p.fill)) > c.m.mag {
			c.m.mag = int64(abs(c.p.fill))
		}
		mi, mg := *c.m, *c.m
		ri := w.imm(c.k, c.a, c.p, c.s, &mi)
		if ri == 0 && c.m.sh != nil {
			return // integer division by zero
		}
		w.see(c.a...)
		p := c.p
		p.f = map[bool]string{true: p.f, false: ""}[k == "act"]
		nd := w.node(c.k, c.a, p, c.s, &mg)
		g := w.graph(nd)
		if g > 0 {
			w.exec(g)
			if w.dead {
				return
			}
		}
		w.seeAll()
		if ri > 0 {
			// independence
			lm := mi
			if !w.wraps() {
				lm.mag, lm.den, lm.inexact, lm.div = 2, 1, false, false
			}
			w.load(ri, w.valsLike(&lm))
			w.seeAll()
			for _, a := range c.a {
				if w.ms[a-1].kind == "leaf" {
					w.mutate(a)
				}
			}
			w.seeAll()
		}
	}
}

// ---- one operation on large operands, each kind in turn

var largeKinds = map[string][]string{"L01": allKinds, "L03": views, "L04": append(append([]string{}, reduces...), dots...), "L06": allKinds}

func (w *W[T]) scenLarge(prop string, idx int) {
	kinds := largeKinds[prop]
	k := kinds[idx%len(kinds)]
	w.cap = []int{130, 270, 80, 530, 1100}[idx/len(kinds)%5]
	for try := 0; try < 30; try++ {
		x := w.newLeaf(w.large())
		c, ok := w.pickOp(k, false, x)
		if !ok || c.m.sh == nil {
			if len(w.ms) > 3 {
				return
			}
			continue
		}
		if prop == "L06" && !noImm[k] {
			mi := *c.m
			ri := w.imm(c.k, c.a, c.p, c.s, &mi)
			if ri == 0 {
				return // integer division by zero
			}
			if w.dead {
				return
			}
			w.see(append([]int{ri}, c.a...)...)
			m := w.ms[c.a[0]-1]
			w.load(c.a[0], w.valsLike(m))
			w.see(ri)
		}
		p := c.p
		p.f = map[bool]string{true: p.f, false: ""}[k == "act"]
		nd := w.node(c.k, c.a, p, c.s, c.m)
		g := w.graph(nd)
		if g == 0 || w.dead {
			return
		}
		w.exec(g)
		if w.dead {
			return
		}
		w.seeAll()
		if w.p(50) {
			w.mutate(c.a[w.n(len(c.a))])
			w.exec(g)
			if !w.dead {
				w.see(nd)
			}
		}
		return
	}
}
