package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"testing/iotest"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

// an activation with exact meaning in every number type
type actFn[T types.Number] struct{ f string }

func (a actFn[T]) Activate(x T) T {
	dawdle()
	switch a.f {
	case "relu2":
		if x < 0 {
			return x * 2
		}
		return x
	case "relu0":
		if x < 0 {
			return 0
		}
		return x
	case "sq":
		return x * x
	case "aff":
		return x*3 + 1
	}
	return x
}
func (a actFn[T]) Derive(x T) T {
	switch a.f {
	case "relu2":
		if x < 0 {
			return 2
		}
		return 1
	case "relu0":
		if x < 0 {
			return 0
		}
		return 1
	case "sq":
		return x * 2
	case "aff":
		return 3
	}
	return 1
}

type lp struct { // layer parameters
	n, ins, f, kw, kh, sx, sy, dim, from, to, lo, hi int
	shape                                            []int
}

func (p lp) json(k string) ev {
	switch k {
	case "input":
		return ev{"shape": p.shape}
	case "dense":
		return ev{"n": p.n, "ins": p.ins}
	case "conv", "deconv":
		return ev{"f": p.f, "kw": p.kw, "kh": p.kh, "sx": p.sx, "sy": p.sy}
	case "pool", "up":
		return ev{"sx": p.sx, "sy": p.sy}
	case "subt":
		return ev{"dim": p.dim, "from": p.from, "to": p.to}
	case "concat":
		return ev{"dim": p.dim}
	case "norm":
		return ev{"lo": p.lo, "hi": p.hi}
	}
	return ev{"none": 0}
}

// description of a layer
type desc struct {
	k   string
	pre []int // positions in the list of descriptions, 1-based
	p   lp
	act string
}

type mod[T types.Number] struct {
	m           *model.Model[T]
	first, last int
	valid       bool
	inSh, outSh []int
	pls         []int // layers with parameters
}

type N[T types.Number] struct {
	*rng
	t      *tape
	mode   string
	exact  bool // rationals are dyadic: no rounding anywhere
	f32    bool
	width  int
	layers []layer.Layer[T]
	ds     []desc
	shs    [][]int // expected output shapes, nil when there is none
	models []*mod[T]
	outs   []tensor.Tensor[T]
	files  [][]byte
	dead   bool
	big    int // parameters' magnitude
	used   map[string]tensor.Tensor[T]
}

func (n *N[T]) add(e ev) { n.t.add(e) }

func dyadic(v float64) [2]int64 {
	if math.IsNaN(v) || math.IsInf(v, 0) || math.Abs(v) > 1e9 {
		return [2]int64{0, -1}
	}
	den := int64(1)
	for v != math.Trunc(v) {
		v *= 2
		den *= 2
		if den > 1<<20 {
			return [2]int64{0, -1}
		}
	}
	if math.Abs(v) > 2e9 {
		return [2]int64{0, -1}
	}
	return [2]int64{int64(v), den}
}
func (n *N[T]) enc(v T) any {
	if n.mode == "rat" {
		var r [2]int64
		if n.exact {
			r = dyadic(float64(v))
		} else {
			r = rational(float64(v), 10000, 1e-12)
		}
		return []int64{r[0], r[1]}
	}
	return int64(v)
}
func (n *N[T]) encs(d []T) []any {
	r := make([]any, len(d))
	for i, v := range d {
		r[i] = n.enc(v)
	}
	return r
}
func prod(s []int) int {
	r := 1
	for _, v := range s {
		r *= v
	}
	return r
}
func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// the shape of a layer's output; nil: no valid meaning
func outShape(d desc, ins [][]int) []int {
	for _, s := range ins {
		if s == nil {
			return nil
		}
	}
	p := d.p
	one := len(ins) == 1
	r3 := one && len(ins[0]) == 3
	switch d.k {
	case "input":
		if one {
			return ins[0]
		}
		return p.shape
	case "dense":
		if one || p.ins > 0 {
			return []int{p.n}
		}
	case "conv":
		if r3 && p.f > 0 && p.kw > 0 && p.kh > 0 && p.sx > 0 && p.sy > 0 && p.kw <= ins[0][1] && p.kh <= ins[0][2] {
			return []int{p.f, (ins[0][1]-p.kw)/p.sx + 1, (ins[0][2]-p.kh)/p.sy + 1}
		}
	case "deconv":
		if r3 && p.f > 0 && p.kw > 0 && p.kh > 0 && p.sx > 0 && p.sy > 0 {
			return []int{p.f, (ins[0][1]-1)*p.sx + p.kw, (ins[0][2]-1)*p.sy + p.kh}
		}
	case "pool":
		if r3 && p.sx > 0 && p.sy > 0 {
			return []int{ins[0][0], (ins[0][1] + p.sx - 1) / p.sx, (ins[0][2] + p.sy - 1) / p.sy}
		}
	case "up":
		if r3 && p.sx > 0 && p.sy > 0 {
			return []int{ins[0][0], ins[0][1] * p.sx, ins[0][2] * p.sy}
		}
	case "flatten":
		if one {
			return []int{prod(ins[0])}
		}
	case "norm", "softmax":
		if one {
			return ins[0]
		}
	case "subt":
		if one && p.dim < len(ins[0]) && p.from < p.to && p.to <= ins[0][p.dim] {
			s := append([]int{}, ins[0]...)
			s[p.dim] = p.to - p.from
			return s
		}
	case "concat":
		if len(ins) == 2 && len(ins[0]) == len(ins[1]) && p.dim < len(ins[0]) {
			s := append([]int{}, ins[0]...)
			for i := range s {
				if i != p.dim && s[i] != ins[1][i] {
					return nil
				}
			}
			s[p.dim] += ins[1][p.dim]
			return s
		}
	}
	return nil
}
func hasParams(k string) bool { return k == "dense" || k == "conv" || k == "deconv" }

func paramCount(d desc, ins [][]int) int {
	o := outShape(d, ins)
	switch d.k {
	case "dense":
		in := d.p.ins
		if len(ins) == 1 {
			in = prod(ins[0])
		}
		return d.p.n * (in + 1)
	case "conv", "deconv":
		return d.p.f*ins[0][0]*d.p.kw*d.p.kh + prod(o)
	}
	return 0
}

func (n *N[T]) act(f string) activation.Activation[T] {
	switch n.n(3) {
	case 0:
		switch f {
		case "lin":
			return activation.Linear[T]{}
		case "relu2":
			return &activation.Relu[T]{Alpha: 2}
		case "relu0":
			return activation.Relu[T]{}
		}
	}
	return actFn[T]{f}
}

// make the real layer, unconnected (a concatenation is made connected)
func (n *N[T]) newLayer(d desc, pre []layer.Layer[T]) layer.Layer[T] {
	p := d.p
	u := func(x int) uint { return uint(x) }
	switch d.k {
	case "input":
		return layer.NewInput[T](uints(p.shape)...)
	case "dense":
		if p.ins > 0 {
			return layer.NewInDense[T](u(p.ins), u(p.n), n.act(d.act))
		}
		return layer.NewDense[T](u(p.n), n.act(d.act))
	case "conv":
		if p.kw == p.kh && p.sx == p.sy && n.p(60) {
			return layer.NewConv2D[T](u(p.f), u(p.kw), u(p.sx), n.act(d.act))
		}
		return layer.NewConv2Dwh[T](u(p.f), u(p.kw), u(p.kh), u(p.sx), u(p.sy), n.act(d.act))
	case "deconv":
		if p.kw == p.kh && p.sx == p.sy && n.p(60) {
			return layer.NewDeconv2D[T](u(p.f), u(p.kw), u(p.sx), n.act(d.act))
		}
		return layer.NewDeconv2Dwh[T](u(p.f), u(p.kw), u(p.kh), u(p.sx), u(p.sy), n.act(d.act))
	case "pool":
		if p.sx == p.sy && n.p(60) {
			return layer.NewMaxPool2D[T](u(p.sx))
		}
		return layer.NewMaxPool2Dxy[T](u(p.sx), u(p.sy))
	case "up":
		if p.sx == p.sy && n.p(60) {
			return layer.NewUpSampling2D[T](u(p.sx))
		}
		return layer.NewUpSampling2Dxy[T](u(p.sx), u(p.sy))
	case "flatten":
		return layer.NewFlatten[T]()
	case "subt":
		return layer.NewSubTensor[T](u(p.dim), u(p.from), u(p.to))
	case "concat":
		var a, b layer.Layer[T]
		if len(pre) > 0 {
			a = pre[0]
		}
		if len(pre) > 1 {
			b = pre[1]
		}
		return layer.NewConcat[T](a, b, u(p.dim))
	case "norm":
		if p.lo < 0 {
			return layer.NewENorm[T]()
		}
		return layer.NewNorm[T]()
	case "softmax":
		return layer.NewSoftMax[T]()
	}
	panic("layer kind " + d.k)
}

// create the layers of a description and a model of them; the descriptions'
// positions are relative, ids absolute.  Returns the model's number.
func (n *N[T]) addModel(ds []desc) int {
	base := len(n.layers)
	chain := len(ds) > 0 && len(ds[0].pre) == 0
	for i := 1; i < len(ds); i++ {
		if len(ds[i].pre) != 1 || ds[i].pre[0] != i {
			chain = false
		}
	}
	style := n.n(3) // 0,1: Push for chains; 2: Connect and FromInOut
	push := chain && style < 2
	// a stretch of a chain may itself be a model, used as a layer
	nestFrom, nestTo := -1, -1
	if push && len(ds) >= 3 && n.p(25) {
		nestFrom = 1 + n.n(len(ds)-1)
		nestTo = nestFrom + n.n(len(ds)-nestFrom)
	}
	var m *model.Model[T]
	if push {
		m = model.NewModel[T]()
	}
	var nested *model.Model[T]
	for i, d := range ds {
		pres := []layer.Layer[T]{}
		pre := []int{}
		ins := [][]int{}
		for _, x := range d.pre {
			pres = append(pres, n.layers[base+x-1])
			pre = append(pre, base+x)
			ins = append(ins, n.shs[base+x-1])
		}
		l := n.newLayer(d, pres)
		if push {
			switch {
			case i == nestFrom:
				nested = model.NewModel[T]().Push(l)
			case i > nestFrom && i <= nestTo:
				nested.Push(l)
			default:
				m.Push(l)
			}
			if i == nestTo {
				m.Push(nested)
			}
		} else if d.k != "concat" && len(pres) == 1 {
			l.Connect(pres[0])
		}
		n.layers = append(n.layers, l)
		n.ds = append(n.ds, desc{d.k, pre, d.p, d.act})
		n.shs = append(n.shs, outShape(d, ins))
		act := d.act
		if act == "" {
			act = "lin"
		}
		n.add(ev{"e": "layer", "k": d.k, "pre": pre, "p": d.p.json(d.k), "act": act})
	}
	last := len(n.layers)
	first := base + 1
	if len(ds) == 0 {
		first, last = 0, 0
		m = model.NewModel[T]()
	} else if !push {
		var err error
		m, err = model.FromInOut[T](n.layers[first-1], n.layers[last-1])
		if err != nil {
			panic(err)
		}
	}
	n.add(ev{"e": "model", "first": first, "last": last})
	md := &mod[T]{m: m, first: first, last: last}
	n.models = append(n.models, md)
	n.refresh(md)
	return len(n.models)
}

// recompute what the harness expects of a model (after it was connected)
func (n *N[T]) refresh(md *mod[T]) {
	if md.last == 0 {
		return
	}
	var order []int
	var visit func(l int)
	visit = func(l int) {
		for _, x := range order {
			if x == l {
				return
			}
		}
		if l != md.first {
			for _, x := range n.ds[l-1].pre {
				visit(x)
			}
		}
		ins := [][]int{}
		for _, x := range n.ds[l-1].pre {
			ins = append(ins, n.shs[x-1])
		}
		n.shs[l-1] = outShape(n.ds[l-1], ins)
		order = append(order, l)
	}
	visit(md.last)
	md.pls = nil
	for _, l := range order {
		if hasParams(n.ds[l-1].k) {
			md.pls = append(md.pls, l)
		}
	}
	md.outSh = n.shs[md.last-1]
	md.valid = md.outSh != nil
	fd := n.ds[md.first-1]
	switch {
	case len(fd.pre) == 1:
		md.inSh = n.shs[fd.pre[0]-1]
	case fd.k == "input":
		md.inSh = fd.p.shape
	case fd.k == "dense":
		md.inSh = []int{fd.p.ins}
	}
}

func (n *N[T]) wb(l int) (tensor.Tensor[T], tensor.Tensor[T]) {
	switch x := n.layers[l-1].(type) {
	case *layer.Dense[T]:
		return x.Weights, x.Bias
	case *layer.Conv2D[T]:
		return x.Weights, x.Bias
	case *layer.Deconv2D[T]:
		return x.Weights, x.Bias
	}
	panic("no parameters")
}

func (n *N[T]) par(l int) ev {
	w, b := n.wb(l)
	if w == nil || b == nil {
		return ev{"l": l, "w": []int{}, "b": []int{}, "wsh": []int{}, "bsh": []int{}}
	}
	return ev{"l": l, "w": n.encs(w.GetData()), "b": n.encs(b.GetData()),
		"wsh": ints(w.GetShape()), "bsh": ints(b.GetShape())}
}
func (n *N[T]) pars(ls []int) []ev {
	r := []ev{}
	for _, l := range ls {
		r = append(r, n.par(l))
	}
	return r
}
func (n *N[T]) params(ls []int) {
	if !n.dead {
		n.add(ev{"e": "params", "v": n.pars(ls)})
	}
}
func (n *N[T]) adopt(m int) {
	n.add(ev{"e": "adopt", "m": m, "v": n.pars(n.models[m-1].pls)})
}

func (n *N[T]) val(big int) T {
	v := n.in(-big, big)
	if n.mode == "rat" && n.p(30) && big > 1 {
		return T(float64(v) / 2)
	}
	return T(v)
}
func (n *N[T]) vals(k, big int) []T {
	r := make([]T, k)
	for i := range r {
		r[i] = n.val(big)
	}
	return r
}

// write random parameters into a layer
func (n *N[T]) setp(l int) {
	w, b := n.wb(l)
	wv, bv := []T{}, []T{}
	r := "err"
	if w != nil && b != nil {
		wv, bv = n.vals(int(w.GetSize()), n.big), n.vals(int(b.GetSize()), n.big)
		r = try(func() error {
			if err := w.LoadData(wv); err != nil {
				return err
			}
			return b.LoadData(bv)
		})
	}
	e := n.par(l)
	e["e"], e["r"] = "setp", r
	e["w"], e["b"] = n.encs(wv), n.encs(bv)
	n.add(e)
}
func (n *N[T]) setAll(ls []int) {
	for _, l := range ls {
		n.setp(l)
	}
}

func (n *N[T]) ten(sh []int, d []T) tensor.Tensor[T] {
	return tensor.NewFromValues[T](d, uints(sh)...)
}
func (n *N[T]) tj(t tensor.Tensor[T]) ev {
	return ev{"sh": ints(t.GetShape()), "d": n.encs(t.GetData())}
}
func (n *N[T]) input(m int, big int) tensor.Tensor[T] {
	md := n.models[m-1]
	sh := md.inSh
	if sh == nil {
		sh = []int{2}
	}
	return n.fresh("x", sh, n.vals(prod(sh), big))
}

// a tensor with these contents: new, or the one of an earlier call written
// anew, or an earlier output
func (n *N[T]) fresh(what string, sh []int, d []T) tensor.Tensor[T] {
	if n.used == nil {
		n.used = map[string]tensor.Tensor[T]{}
	}
	key := fmt.Sprint(what, sh)
	if t := n.used[key]; t != nil && n.p(25) && t.LoadData(d) == nil {
		return t
	}
	if k := len(n.outs); k > 0 && n.mode == "i16" && n.p(5) {
		if o := n.outs[n.n(k)]; same(ints(o.GetShape()), sh) {
			return o
		}
	}
	t := n.ten(sh, d)
	n.used[key] = t
	return t
}
func (n *N[T]) target(m int, big int) tensor.Tensor[T] {
	sh := n.models[m-1].outSh
	if sh == nil {
		sh = []int{2}
	}
	return n.fresh("y", sh, n.vals(prod(sh), big))
}

// a tensor of a different shape
func (n *N[T]) misfit(sh []int) tensor.Tensor[T] {
	for {
		var s []int
		switch n.n(4) {
		case 0:
			s = append(append([]int{}, sh...), 1)
		case 1:
			s = append([]int{}, sh...)
			if len(s) > 0 {
				s[n.n(len(s))]++
			}
		case 2:
			s = []int{prod(sh)}
		case 3:
			s = []int{}
			for i := range sh {
				s = append(s, sh[len(sh)-1-i])
			}
		}
		if len(s) > 0 && !same(s, sh) {
			return n.ten(s, n.vals(prod(s), 5))
		}
	}
}

func (n *N[T]) compile(m int) string {
	r := try(n.models[m-1].m.Compile)
	n.add(ev{"e": "compile", "m": m, "r": r})
	n.dead = n.dead || r == "panic"
	return r
}

func (n *N[T]) predict(m int, x tensor.Tensor[T]) string {
	var o tensor.Tensor[T]
	xj := n.tj(x)
	r := try(func() (err error) { o, err = n.models[m-1].m.Predict(x); return })
	e := ev{"e": "predict", "m": m, "x": xj, "r": r, "xa": n.encs(x.GetData())}
	if r == "ok" {
		n.outs = append(n.outs, o)
		e["o"] = n.tj(o)
	}
	n.add(e)
	n.dead = n.dead || r == "panic"
	return r
}

func (n *N[T]) trainOne(m int, x, y tensor.Tensor[T], a, mo T) string {
	var loss T
	xj, yj := n.tj(x), n.tj(y)
	r := try(func() (err error) { loss, err = n.models[m-1].m.TrainOne(x, y, a, mo); return })
	n.add(ev{"e": "trainone", "m": m, "x": xj, "y": yj, "a": n.enc(a), "mo": n.enc(mo), "r": r,
		"loss": n.enc(loss), "xa": n.encs(x.GetData()), "ya": n.encs(y.GetData())})
	n.dead = n.dead || r == "panic"
	return r
}

func (n *N[T]) train(m int, xs, ys []tensor.Tensor[T], epochs, batch int, a, mo T) string {
	xj, yj := []ev{}, []ev{}
	for _, x := range xs {
		xj = append(xj, n.tj(x))
	}
	for _, y := range ys {
		yj = append(yj, n.tj(y))
	}
	r := try(func() error { return n.models[m-1].m.Train(xs, ys, uint(epochs), uint(batch), a, mo) })
	n.add(ev{"e": "train", "m": m, "xs": xj, "ys": yj, "e0": epochs, "b": batch, "a": n.enc(a), "mo": n.enc(mo),
		"r": r, "after": n.pars(n.models[m-1].pls)})
	n.dead = n.dead || r == "panic"
	return r
}

func (n *N[T]) freeze(l int, t bool) {
	n.layers[l-1].SetTrainable(t)
	n.add(ev{"e": "freeze", "l": l, "t": t})
}
func (n *N[T]) freezeM(m int, t bool) {
	r := always(func() { n.models[m-1].m.SetTrainable(t) })
	n.add(ev{"e": "freezem", "m": m, "t": t, "r": r})
	n.dead = n.dead || r == "panic"
}

func (n *N[T]) seeOuts() {
	v := [][]any{}
	for _, o := range n.outs {
		v = append(v, n.encs(o.GetData()))
	}
	n.add(ev{"e": "outs", "v": v})
}
func (n *N[T]) setOut() {
	if len(n.outs) == 0 {
		return
	}
	i := n.n(len(n.outs))
	d := n.vals(int(n.outs[i].GetSize()), 9)
	if n.outs[i].LoadData(d) == nil {
		n.add(ev{"e": "setout", "i": i + 1, "d": n.encs(d)})
	}
}

func (n *N[T]) resetIS(m int) {
	r := try(n.models[m-1].m.ResetIS)
	n.add(ev{"e": "resetis", "m": m, "r": r})
	n.dead = n.dead || r == "panic"
}
func (n *N[T]) str(m int) {
	r := always(func() { _ = n.models[m-1].m.String() })
	n.add(ev{"e": "str", "m": m, "r": r})
	n.dead = n.dead || r == "panic"
}

// a writer with room for lim bytes (lim < 0: unlimited)
type capped struct {
	buf bytes.Buffer
	lim int
}

func (c *capped) Write(p []byte) (int, error) {
	if c.lim < 0 {
		return c.buf.Write(p)
	}
	room := c.lim - c.buf.Len()
	if len(p) <= room {
		return c.buf.Write(p)
	}
	if room > 0 {
		c.buf.Write(p[:room])
	} else {
		room = 0
	}
	return room, errors.New("disk full")
}

// a reader giving a byte or a few at a time
type dribble struct {
	r   io.Reader
	max int
}

func (d dribble) Read(p []byte) (int, error) {
	if len(p) > d.max {
		p = p[:d.max]
	}
	return d.r.Read(p)
}

func (n *N[T]) save(m, lim int) (string, int) {
	c := &capped{lim: lim}
	n.models[m-1].m.ResetSave()
	r := try(func() error { return n.models[m-1].m.Save(c) })
	n.add(ev{"e": "save", "m": m, "lim": lim, "r": r, "n": c.buf.Len()})
	n.dead = n.dead || r == "panic"
	if r == "ok" {
		n.files = append(n.files, c.buf.Bytes())
	}
	return r, c.buf.Len()
}
func (n *N[T]) load(m, f, cut int) string {
	data := n.files[f-1]
	if cut >= 0 && cut < len(data) {
		data = data[:cut]
	}
	br := bytes.NewReader(data)
	var rd io.Reader = br
	switch n.n(5) {
	case 0:
		rd = dribble{br, 1}
	case 1:
		rd = dribble{br, 3}
	case 2:
		rd = iotest.DataErrReader(br) // the end comes with the last bytes
	case 3:
		if cut >= 0 && cut < len(n.files[f-1]) {
			rd = io.MultiReader(br, iotest.ErrReader(errors.New("disk broken")))
		}
	}
	n.models[m-1].m.ResetLoad()
	r := try(func() error { return n.models[m-1].m.Load(rd) })
	e := ev{"e": "load", "m": m, "f": f, "cut": cut, "r": r, "left": br.Len(), "after": n.pars(n.models[m-1].pls)}
	n.add(e)
	n.dead = n.dead || r == "panic"
	return r
}

func (n *N[T]) compose(ms []int) int {
	real := []*model.Model[T]{}
	for _, m := range ms {
		real = append(real, n.models[m-1].m)
	}
	var c *model.Model[T]
	r := try(func() (err error) { c, err = model.FromModels[T](real...); return })
	n.add(ev{"e": "compose", "ms": ms, "r": r})
	n.dead = n.dead || r == "panic"
	if r != "ok" {
		return 0
	}
	for i := 1; i < len(ms); i++ {
		f := n.models[ms[i]-1].first
		n.ds[f-1].pre = []int{n.models[ms[i-1]-1].last}
	}
	for _, m := range ms {
		n.refresh(n.models[m-1])
	}
	md := &mod[T]{m: c, first: n.models[ms[0]-1].first, last: n.models[ms[len(ms)-1]-1].last}
	n.models = append(n.models, md)
	n.refresh(md)
	return len(n.models)
}
