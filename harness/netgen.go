package main

// random networks

type genOpt struct {
	train bool // with parameters at or before the last layer
	scale bool // norm and softmax allowed
	maxP  int  // most parameters
	maxE  int  // most elements of one output
	depth int
	inDen bool // may start with an input-less dense layer
	small bool
	wide  bool // large inputs and layers
	pict  bool // pictures, with larger kernels, steps and numbers of filters
}

type netGen struct {
	*rng
	o     genOpt
	ds    []desc
	shs   [][]int
	par   []bool // parameters at or before this layer
	used  []int  // consumers
	np    int
	nsc   int // scaling layers
	acts  []string
	kinds []int // layers to start with, last one first
}

func (g *netGen) put(d desc) int {
	ins := [][]int{}
	par := hasParams(d.k)
	for _, x := range d.pre {
		ins = append(ins, g.shs[x-1])
		g.used[x-1]++
		par = par || g.par[x-1]
	}
	sh := outShape(d, ins)
	if sh == nil {
		panic("generator: invalid layer " + d.k)
	}
	g.np += paramCount(d, ins)
	g.ds = append(g.ds, d)
	g.shs = append(g.shs, sh)
	g.par = append(g.par, par)
	g.used = append(g.used, 0)
	return len(g.ds)
}

func (g *netGen) fits(d desc, cur int) bool {
	ins := [][]int{g.shs[cur-1]}
	sh := outShape(d, ins)
	return sh != nil && prod(sh) <= g.o.maxE && g.np+paramCount(d, ins) <= g.o.maxP
}

func (g *netGen) actName() string { return g.acts[g.n(len(g.acts))] }

// one more layer after cur (cur itself if nothing fits)
func (g *netGen) extend(cur int, rankKeep bool) int {
	for try := 0; try < 12; try++ {
		s := g.shs[cur-1]
		d := desc{pre: []int{cur}}
		more := 0
		if g.o.pict {
			more = g.n(3)
		}
		often := 75
		kind := g.n(5)
		if g.o.pict {
			often = 92
			kind = pick(g.rng, 0, 0, 0, 1, 1, 1, 2, 3, 4)
			if l := len(g.kinds); l > 0 && try < 9 {
				kind, often = g.kinds[l-1], 100
			}
		}
		if len(s) == 3 && g.p(often) {
			switch kind {
			case 0:
				d.k, d.act = "conv", g.actName()
				d.p = lp{f: g.in(1, 2+more), kw: g.in(1, s[1]), kh: g.in(1, s[2]), sx: g.in(1, 3+more), sy: g.in(1, 3+more)}
				if g.o.pict && g.p(50) {
					d.p.kw, d.p.kh = atMost(d.p.kw, 3), atMost(d.p.kh, 3)
				} else if g.p(50) {
					d.p.kw, d.p.kh = atMost(d.p.kw, 2), atMost(d.p.kh, 2)
				}
			case 1:
				d.k, d.act = "deconv", g.actName()
				d.p = lp{f: g.in(1, 2+more), kw: g.in(1, 3+more), kh: g.in(1, 3+more), sx: g.in(1, 3+more), sy: g.in(1, 3+more)}
				if g.o.pict && s[1]*s[2] < 10 {
					d.p.kw, d.p.kh, d.p.sx, d.p.sy = g.in(2, 6), g.in(2, 6), g.in(1, 2), g.in(1, 2)
				}
			case 2, 3:
				d.k = "pool"
				d.p = lp{sx: g.in(1, 3+2*more), sy: g.in(1, 3+2*more)}
			case 4:
				d.k = "up"
				d.p = lp{sx: g.in(1, 2+more), sy: g.in(1, 3+more)}
			}
		} else {
			switch c := g.n(10); {
			case c < 5 && !rankKeep:
				d.k, d.act = "dense", g.actName()
				d.p = lp{n: g.in(1, 3)}
				if g.o.wide && g.p(50) {
					d.p.n = g.in(4, 40)
				}
				if g.p(8) {
					d.p.ins = g.in(1, 3) // ignored when connected
				}
			case c < 6 && !rankKeep:
				d.k = "flatten"
			case c < 8:
				d.k = "subt"
				dim := g.n(len(s))
				from := g.n(s[dim])
				d.p = lp{dim: dim, from: from, to: g.in(from+1, s[dim])}
			case c == 8 && g.o.scale && g.nsc == 0:
				d.k = "norm"
				d.p = lp{lo: -g.n(2), hi: 1}
			case c == 9 && g.o.scale && g.nsc == 0:
				d.k = "softmax"
			default:
				continue
			}
		}
		if !g.fits(d, cur) {
			continue
		}
		if d.k == "norm" || d.k == "softmax" {
			g.nsc++
		}
		if l := len(g.kinds); l > 0 {
			g.kinds = g.kinds[:l-1]
		}
		return g.put(d)
	}
	return cur
}

func (g *netGen) branchFrom(cur int, k int) int {
	for i := 0; i < k; i++ {
		cur = g.extend(cur, false)
	}
	return cur
}

// concatenate two layers, flattening them if their shapes do not fit
func (g *netGen) join(a, b int) int {
	for round := 0; round < 2; round++ {
		sa, sb := g.shs[a-1], g.shs[b-1]
		if len(sa) == len(sb) {
			dims := []int{}
			for d := range sa {
				if outShape(desc{k: "concat", p: lp{dim: d}}, [][]int{sa, sb}) != nil {
					dims = append(dims, d)
				}
			}
			if len(dims) > 0 {
				d := desc{k: "concat", pre: []int{a, b}, p: lp{dim: dims[g.n(len(dims))]}}
				if prod(sa)+prod(sb) <= g.o.maxE {
					return g.put(d)
				}
				return a
			}
		}
		if prod(sa)+prod(sb) > g.o.maxE {
			return a
		}
		if len(sa) > 1 {
			a = g.put(desc{k: "flatten", pre: []int{a}})
		}
		if len(sb) > 1 {
			b = g.put(desc{k: "flatten", pre: []int{b}})
		}
	}
	return a
}

func (g *netGen) run() []desc {
	var cur int
	big := 4
	if g.o.small {
		big = 3
	}
	if g.o.inDen && !g.o.pict && g.p(20) {
		cur = g.put(desc{k: "dense", pre: []int{}, p: lp{n: g.in(1, 3), ins: g.in(1, 3)}, act: g.actName()})
	} else {
		var sh []int
		switch c := g.n(10); {
		case c < 4:
			sh = []int{g.in(1, 4)}
		case c < 5:
			sh = []int{g.in(1, 3), g.in(1, 3)}
		default:
			sh = []int{g.in(1, 2), g.in(1, big), g.in(1, big)}
		}
		if g.o.pict {
			sh = []int{g.in(1, 4), g.in(3, 7), g.in(3, 7)}
			if g.p(50) { // large kernels of transposed convolutions, something to train before them
				sh = []int{g.in(1, 3), g.in(1, 3), g.in(1, 3)}
				g.kinds = []int{1, 0}
				g.o.depth += g.n(2)
			}
		}
		if g.o.wide {
			sh = pick(g.rng, []int{g.in(20, 255)}, []int{g.in(4, 15), g.in(4, 15)}, []int{g.in(1, 3), g.in(5, 9), g.in(5, 9)})
		}
		cur = g.put(desc{k: "input", pre: []int{}, p: lp{shape: sh}})
	}
	first := cur
	for i := 0; i < g.o.depth; i++ {
		if g.p(22) {
			// two branches: from here (or from the input) and joined again
			from := cur
			if g.p(30) {
				from = pick(g.rng, first, g.in(1, len(g.ds)))
			}
			a := cur
			if from == cur || g.p(40) {
				a = g.branchFrom(cur, g.n(3))
			}
			b := g.branchFrom(from, g.n(3))
			cur = g.join(a, b)
			continue
		}
		cur = g.extend(cur, false)
	}
	if g.np == 0 || g.o.train && !g.par[cur-1] {
		d := desc{k: "dense", pre: []int{cur}, p: lp{n: g.in(1, 2)}, act: g.actName()}
		if g.fits(d, cur) {
			cur = g.put(d)
		}
	}
	return g.prune(cur)
}

// keep the layers the last one needs, in order
func (g *netGen) prune(last int) []desc {
	need := map[int]bool{}
	var mark func(l int)
	mark = func(l int) {
		if need[l] {
			return
		}
		need[l] = true
		for _, x := range g.ds[l-1].pre {
			mark(x)
		}
	}
	mark(last)
	pos := map[int]int{}
	out := []desc{}
	for i, d := range g.ds {
		if !need[i+1] {
			continue
		}
		pre := []int{}
		for _, x := range d.pre {
			pre = append(pre, pos[x])
		}
		out = append(out, desc{d.k, pre, d.p, d.act})
		pos[i+1] = len(out)
	}
	return out
}

// the last description must come last and the first be the only source
func (n *N[T]) genNet(o genOpt) []desc {
	for {
		g := &netGen{rng: n.rng, o: o}
		g.acts = []string{"lin", "relu2", "relu0", "aff"}
		if n.mode == "i16" {
			g.acts = append(g.acts, "sq")
		}
		ds := g.run()
		if len(ds) < 2 && ds[0].k == "input" {
			continue
		}
		return ds
	}
}

// make a description meaningless
func (n *N[T]) spoil(ds []desc) []desc {
	out := append([]desc{}, ds...)
	shs := [][]int{}
	for _, d := range ds {
		ins := [][]int{}
		for _, x := range d.pre {
			ins = append(ins, shs[x-1])
		}
		shs = append(shs, outShape(d, ins))
	}
	last := len(out)
	s := shs[last-1]
	after := func(k string, p lp) {
		out = append(out, desc{k: k, pre: []int{last}, p: p, act: "lin"})
	}
	c := n.n(12)
	if c < 4 && len(s) != 3 {
		switch c {
		case 0:
			after("conv", lp{f: 1, kw: 1, kh: 1, sx: 1, sy: 1})
		case 1:
			after("deconv", lp{f: 1, kw: 1, kh: 1, sx: 1, sy: 1})
		case 2:
			after("pool", lp{sx: 1, sy: 1})
		case 3:
			after("up", lp{sx: 1, sy: 1})
		}
	} else if c < 4 {
		p := lp{f: 1, kw: 1, kh: 1, sx: 1, sy: 1}
		switch n.n(8) {
		case 0:
			p.kw = s[1] + 1
			after("conv", p)
		case 1:
			p.kh = s[2] + 1
			after("conv", p)
		case 2:
			p.sx = 0
			after("conv", p)
		case 3:
			p.sy = 0
			after("deconv", p)
		case 4:
			p.kh = 0
			after(pick(n.rng, "conv", "deconv"), p)
		case 5:
			after("pool", lp{sx: 0, sy: 1})
		case 6:
			after("up", lp{sx: 1, sy: 0})
		case 7:
			p.kw, p.kh = s[1]+2, s[2]+2
			after("conv", p)
		}
	} else {
		switch c {
		case 4, 5:
			d := n.n(len(s) + 1)
			p := lp{dim: d, from: 0, to: 1}
			if d < len(s) {
				p.from = n.n(s[d] + 1)
				p.to = pick(n.rng, p.from, s[d]+1, s[d]+2)
			}
			after("subt", p)
		case 6, 7:
			out = append(out, desc{k: "concat", pre: []int{last, last}, p: lp{dim: len(s)}})
		case 8:
			if len(s) > 1 {
				out = append(out, desc{k: "flatten", pre: []int{last}},
					desc{k: "concat", pre: []int{last, last + 1}, p: lp{dim: 0}})
			} else {
				out = append(out, desc{k: "concat", pre: []int{last}, p: lp{dim: 0}})
			}
		case 9:
			return []desc{{k: pick(n.rng, "flatten", "pool", "up", "norm", "softmax", "subt", "conv", "deconv", "dense"),
				pre: []int{}, p: lp{f: 1, kw: 1, kh: 1, sx: 1, sy: 1, to: 1, n: 2, hi: 1}, act: "lin"},
				{k: "dense", pre: []int{1}, p: lp{n: 2}, act: "lin"}}
		case 10:
			return []desc{{k: pick(n.rng, "dense", "conv", "flatten"), pre: []int{},
				p: lp{f: 1, kw: 1, kh: 1, sx: 1, sy: 1, n: 2}, act: "lin"}}
		case 11:
			return []desc{}
		}
	}
	// the meaningless part need not be last
	if n.p(50) {
		out = append(out, desc{k: "dense", pre: []int{len(out)}, p: lp{n: 2}, act: "lin"})
	}
	return out
}
