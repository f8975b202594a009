package main

// ---- C07: dividing the building among graphs and contexts

// may the elements of u be written into t (bounded modes)?
func (w *W[T]) fits(u, t int) bool {
	if w.wraps() {
		return true
	}
	a, b := w.ms[u-1], w.ms[t-1]
	return a.kind == "leaf" && a.mag <= b.mag && b.den%a.den == 0 && (!b.div || a.div) && !a.inexact
}

func (w *W[T]) isView(k string) bool {
	switch k {
	case "transpose", "reshape", "flatten", "subt", "subx", "concat":
		return true
	}
	return false
}

func (w *W[T]) anyCell(ok func(i int) bool) (c [2]int, found bool) {
	t := w.choose(ok)
	if t == 0 {
		return c, false
	}
	return [2]int{t, 1 + w.n(size(w.ms[t-1].sh))}, true
}

// a random single operation on elements of tensors that exist
func (w *W[T]) randUserOp() (o string, d [2]int, s [][2]int, ok bool) {
	ready := func(i int) bool {
		m := w.ms[i-1]
		return m.sh != nil && size(m.sh) > 0 && (m.kind == "leaf" || m.built)
	}
	leaf := func(i int) bool { return ready(i) && w.ms[i-1].kind == "leaf" && !w.ms[i-1].div }
	d, ok = w.anyCell(leaf)
	if w.wraps() && w.p(30) {
		d, ok = w.anyCell(ready)
	}
	if !ok {
		return
	}
	src := func() [2]int {
		c, f := w.anyCell(func(i int) bool { return ready(i) && (w.wraps() || w.fits(i, d[0])) })
		if !f {
			ok = false
		}
		return c
	}
	if w.wraps() {
		o = pick(w.rng, "add", "sub", "mul", "eq", "neg", "abs", "set", "sum", "avg", "min", "max", "sq", "aff", "relu2", "div")
	} else {
		o = pick(w.rng, "neg", "abs", "set", "min", "max")
	}
	n := 1
	switch o {
	case "add", "sub", "mul", "div", "eq":
		n = 2
	case "sum", "avg", "min", "max":
		n = w.in(1, 4)
	}
	for i := 0; i < n; i++ {
		s = append(s, src())
	}
	return
}

// graphs and contexts as lists of operations: pushed to, copied, appended, in
// any order, and all run in the end
func (w *W[T]) scenGraphLists() {
	for n := w.in(1, 2); n > 0; n-- {
		w.newLeaf([]int{w.in(1, 4)})
	}
	gs, cs := []int{}, []int{}
	g := func() int {
		if len(gs) == 0 || w.p(15) {
			gs = append(gs, w.emptyGraph())
		}
		return gs[w.n(len(gs))]
	}
	c := func() int {
		if len(cs) == 0 || w.p(15) {
			cs = append(cs, w.ctx())
		}
		return cs[w.n(len(cs))]
	}
	push := func(h, most int) {
		for k := w.in(1, most); k > 0; k-- {
			if o, d, s, ok := w.randUserOp(); ok {
				w.pushOp(h, o, d, s)
			}
		}
	}
	cpush := func(h, most int) {
		for k := w.in(1, most); k > 0; k-- {
			if o, d, s, ok := w.randUserOp(); ok {
				w.cpushOp(h, o, d, s)
			}
		}
	}
	for n := w.in(3, 12); n > 0 && !w.dead; n-- {
		switch w.n(8) {
		case 0, 1, 2:
			push(g(), 4)
		case 3:
			cpush(c(), 4)
		case 4:
			x := c()
			h := w.fromCtx(x)
			gs = append(gs, h)
			if w.p(50) {
				push(h, 2)
				cpush(x, 2)
			}
		case 5:
			x := g()
			h := w.copyGraph(x)
			gs = append(gs, h)
			if w.p(50) {
				push(h, 2)
				push(x, 2)
			}
		case 6, 7:
			x, y := g(), g()
			if w.p(40) {
				x = w.emptyGraph()
				gs = append(gs, x)
			}
			w.addGraph(x, y)
			if w.p(50) {
				push(x, 2)
				push(y, 2)
			}
		}
	}
	for i := range gs {
		if w.dead {
			return
		}
		w.exec(gs[len(gs)-1-i])
		w.seeAll()
	}
}

func (w *W[T]) scenC07() {
	if w.wraps() && w.p(30) {
		w.scenGraphLists()
		return
	}
	for n := w.in(1, 3); n > 0; n-- {
		w.newLeaf(w.shape())
	}
	ids := []int{}
	for n := w.in(3, 8); n > 0; n-- {
		if id := w.randNode(allKinds, false, 0); id > 0 {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return
	}
	order := []int{} // graphs in the order they were built
	open := []int{}  // contexts
	node := func() int { return ids[w.n(len(ids))] }
	target := func() int {
		if w.wraps() && w.p(30) { // an expression, built or not, with elements of its own
			if t := w.choose(func(i int) bool {
				m := w.ms[i-1]
				return m.sh != nil && m.kind != "hidden" && !w.isView(m.kind)
			}); t > 0 {
				return t
			}
		}
		return w.choose(func(i int) bool { return w.ms[i-1].kind == "leaf" })
	}
	for n := w.in(3, 9); n > 0; n-- {
		switch w.n(9) {
		case 0, 1:
			if g := w.graph(node()); g > 0 {
				order = append(order, g)
			}
		case 2:
			open = append(open, w.ctx())
		case 3, 4:
			if len(open) == 0 {
				open = append(open, w.ctx())
			}
			w.build(open[w.n(len(open))], node())
		case 5: // a copy: from any expression to a leaf of that size
			if len(open) == 0 {
				open = append(open, w.ctx())
			}
			c := open[w.n(len(open))]
			t := target()
			u := w.choose(func(i int) bool {
				m := w.ms[i-1]
				return m.sh != nil && i != t && size(m.sh) == size(w.ms[t-1].sh) && w.fits(i, t) && !w.isView(m.kind)
			})
			if u > 0 {
				if w.p(60) {
					w.transfer(c, u, t)
				} else {
					id := w.node("copy", []int{u, t}, par{}, 0, &meta{mag: 1, den: 1})
					w.ms[id-1].kind = "hidden"
					if w.p(50) {
						w.build(c, id)
					} else if g := w.graph(id); g > 0 {
						order = append(order, g)
					}
				}
			}
		case 6: // a fill
			if len(open) == 0 {
				open = append(open, w.ctx())
			}
			c := open[w.n(len(open))]
			t := target()
			var s int
			if w.wraps() {
				s = w.newScal(false)
			} else if w.ms[t-1].div {
				s = w.newScal(true)
			} else {
				s = w.scal(T(w.in(-2, 2)), false)
				w.smag[s-1] = 5
				if w.ms[t-1].mag < 2 {
					break
				}
			}
			if w.p(60) {
				w.cfill(c, t, s)
			} else {
				id := w.node("fill", []int{t}, par{}, s, &meta{mag: 1, den: 1})
				w.ms[id-1].kind = "hidden"
				if w.p(50) {
					w.build(c, id)
				} else if g := w.graph(id); g > 0 {
					order = append(order, g)
				}
			}
		case 7: // a graph of what the context holds now
			if len(open) > 0 {
				order = append(order, w.fromCtx(open[w.n(len(open))]))
			}
		case 8: // single operations
			if o, d, s, ok := w.randUserOp(); ok {
				if len(open) > 0 && w.p(50) {
					w.cpushOp(open[w.n(len(open))], o, d, s)
				} else if len(order) > 0 {
					w.pushOp(order[w.n(len(order))], o, d, s)
				}
			}
		}
	}
	for _, c := range open {
		order = append(order, w.fromCtx(c))
	}
	if len(order) == 0 {
		if g := w.graph(ids[len(ids)-1]); g > 0 {
			order = append(order, g)
		} else {
			return
		}
	}
	all := append([]int{}, order...)
	for n := w.in(1, 4); n > 0; n-- { // copies and sums of graphs
		g := all[w.n(len(all))]
		h := all[w.n(len(all))]
		switch w.n(5) {
		case 0:
			all = append(all, w.copyGraph(g))
		case 1:
			w.addGraph(g, h)
		case 2:
			e := w.emptyGraph()
			all = append(all, e)
			for _, x := range order {
				w.addGraph(e, x)
			}
		case 3:
			c := w.copyGraph(g)
			all = append(all, c)
			if o, d, s, ok := w.randUserOp(); ok {
				if w.p(50) {
					w.pushOp(g, o, d, s)
				} else {
					w.pushOp(c, o, d, s)
				}
			}
		case 4:
			if o, d, s, ok := w.randUserOp(); ok {
				w.pushOp(g, o, d, s)
			}
		}
	}
	for _, g := range order {
		if w.dead {
			return
		}
		w.exec(g)
	}
	w.seeAll()
	for n := w.in(1, 4); n > 0 && !w.dead; n-- {
		if w.p(50) {
			w.mutateSome(1)
		}
		switch {
		case w.p(30) && w.wraps():
			if o, d, s, ok := w.randUserOp(); ok {
				w.cal(o, d, s)
			}
		default:
			w.exec(all[w.n(len(all))])
		}
		w.seeAll()
	}
}
