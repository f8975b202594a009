package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/operation"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

// parameters of an operation (the fields the specification reads)
type par struct {
	dim, from, to, da, db int
	shape                 []int
	f                     string
	fill                  int
}

func (p par) json(k string, enc func(int) any) ev {
	e := ev{"dim": p.dim}
	switch k {
	case "subt", "subx":
		e["from"], e["to"] = p.from, p.to
		e["fill"] = enc(p.fill)
	case "dotat":
		e["da"], e["db"] = p.da, p.db
	case "reshape":
		e["shape"] = p.shape
	case "act":
		e["f"] = p.f
	}
	return e
}

// what the generator knows about a tensor: enough to keep numbers small
type meta struct {
	kind    string
	a       []int
	sh      []int // nil: unknown (rejected expression)
	built   bool
	mag     int64 // bound of |value|
	den     int64 // every value is a multiple of 1/den (bounded modes)
	inexact bool  // float rounding happened: compare-only
	div     bool  // all values are in +-1..4 (safe divisors)
	soft    bool  // denominator depends on the data
}

// W: one scenario on the library with element type T
type W[T types.Number] struct {
	*rng
	t      *tape
	mode   string
	f32    bool
	width  int
	tens   []tensor.Tensor[T]
	ms     []*meta
	scals  []*number.Scalar[T]
	smag   []int64
	sdiv   []bool
	graphs []*graph.Graph
	ctxs   []*context.Context
	files  [][]byte
	fmeta  []*meta
	dead   bool
	idx    int
	cap    int            // most elements, when larger than usual
	tok    map[uint64]int // bit patterns met, when values are only moved
}

// every bit pattern is a token: moving, saving and loading must keep it
func (w *W[T]) token(v T) any {
	if v == 1 {
		return 1
	}
	var b uint64
	switch x := any(v).(type) {
	case float32:
		b = uint64(math.Float32bits(x))
	case float64:
		b = math.Float64bits(x)
	default:
		b = uint64(int64(v))
	}
	if b == 0 {
		return 0
	}
	if _, ok := w.tok[b]; !ok {
		w.tok[b] = len(w.tok) + 2
	}
	return w.tok[b]
}
func (w *W[T]) anyBits() T {
	b := w.next()
	var z T
	switch p := any(&z).(type) {
	case *float32:
		*p = pick(w.rng, math.Float32frombits(uint32(b)), float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.Copysign(0, -1)), math.SmallestNonzeroFloat32, math.MaxFloat32, 0.1, float32(w.in(-3, 3)))
		if *p != *p {
			*p = float32(math.NaN())
		}
	case *float64:
		*p = pick(w.rng, math.Float64frombits(b), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), math.SmallestNonzeroFloat64, math.MaxFloat64, 0.1, float64(w.in(-3, 3)))
		if *p != *p {
			*p = math.NaN()
		}
	case *int:
		*p = pick(w.rng, int(b), math.MaxInt64, math.MinInt64, -1, w.in(-3, 3))
	case *int16:
		*p = pick(w.rng, int16(b), math.MaxInt16, math.MinInt16, -1)
	case *int32:
		*p = pick(w.rng, int32(b), math.MaxInt32, math.MinInt32, -1, int32(w.in(-3, 3)))
	case *int64:
		*p = pick(w.rng, int64(b), math.MaxInt64, math.MinInt64, -1, int64(w.in(-3, 3)))
	}
	return z
}

func (w *W[T]) enc(v T) any {
	if w.tok != nil {
		return w.token(v)
	}
	if w.mode == "rat" {
		maxDen, tol := int64(4000), 1e-10
		if w.f32 {
			maxDen, tol = 256, 3e-6
		}
		r := rational(float64(v), maxDen, tol)
		return []int64{r[0], r[1]}
	}
	if w.mode == "i32" || w.mode == "i64" {
		n := int64(v)
		digits := []int64{}
		for k := 8*w.width - 12; k > 0; k -= 12 {
			digits = append(digits, n&4095)
			n >>= 12
		}
		return append(digits, n&(1<<(8*w.width%12)-1))
	}
	f := float64(v)
	if math.Abs(f) > 1e9 {
		return 999999999
	}
	return int64(v)
}
func (w *W[T]) encInt(n int) any {
	if w.mode == "rat" {
		return []int{n, 1}
	}
	if w.mode == "i32" || w.mode == "i64" {
		return w.enc(T(n))
	}
	return n
}
func (w *W[T]) encAll(d []T) []any {
	r := make([]any, len(d))
	for i, v := range d {
		r[i] = w.enc(v)
	}
	return r
}

func (w *W[T]) add(e ev) { w.t.add(e) }

// run f, returning ok / err / panic
func try(f func() error) (r string) {
	defer func() {
		if x := recover(); x != nil {
			r = "panic"
		}
	}()
	if err := f(); err != nil {
		return "err"
	}
	return "ok"
}
func always(f func()) string {
	return try(func() error { f(); return nil })
}

func uints(s []int) []uint {
	r := make([]uint, len(s))
	for i, x := range s {
		r[i] = uint(x)
	}
	return r
}
func ints(s []uint) []int {
	r := make([]int, len(s))
	for i, x := range s {
		r[i] = int(x)
	}
	return r
}
func size(s []int) int {
	n := 1
	for _, x := range s {
		n *= x
	}
	return n
}
func eqSh(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (w *W[T]) push(t tensor.Tensor[T], m *meta) int {
	w.tens = append(w.tens, t)
	w.ms = append(w.ms, m)
	return len(w.tens) // 1-based
}

func maxAbs[T types.Number](v []T) int64 {
	var m float64
	for _, x := range v {
		if f := math.Abs(float64(x)); f > m {
			m = f
		}
	}
	return int64(math.Ceil(m))
}

// ---- leaves

func (w *W[T]) observeLeaf(e ev, sh []int, mk func(sh []uint) *tensor.TensorMat[T], m *meta) int {
	if sh == nil {
		sh = []int{}
		e["sh"] = sh
	}
	us := uints(sh)
	var t *tensor.TensorMat[T]
	r := always(func() { t = mk(us) })
	if r == "ok" {
		for i := range us {
			us[i] = 77 // the tensor must have its own copy
		}
		e["osh"] = ints(t.GetShape())
		e["d"] = w.encAll(t.GetData())
	} else {
		e["osh"], e["d"] = []int{}, []int{}
	}
	w.add(e)
	m.kind = "leaf"
	m.sh = sh
	if m.den == 0 {
		m.den = 1
	}
	return w.push(t, m)
}

func (w *W[T]) leaf(sh []int, vals []T, div bool, den int64) int {
	vs := append([]T{}, vals...)
	e := ev{"e": "leaf", "c": "vals", "sh": sh, "v": w.encAll(vals)}
	id := w.observeLeaf(e, sh, func(us []uint) *tensor.TensorMat[T] {
		return tensor.NewFromValues(vs, us...)
	}, &meta{mag: maxAbs(vals), div: div, den: den})
	for i := range vs {
		vs[i] = 99
	}
	return id
}
func (w *W[T]) leafZeros(sh []int) int {
	return w.observeLeaf(ev{"e": "leaf", "c": "zeros", "sh": sh}, sh, func(us []uint) *tensor.TensorMat[T] {
		return tensor.NewZeros[T](us...)
	}, &meta{})
}
func (w *W[T]) leafOnes(sh []int) int {
	return w.observeLeaf(ev{"e": "leaf", "c": "ones", "sh": sh}, sh, func(us []uint) *tensor.TensorMat[T] {
		return tensor.NewOnes[T](us...)
	}, &meta{mag: 1})
}
func (w *W[T]) leafRand(sh []int, lo, hi int) int {
	e := ev{"e": "leaf", "c": "rand", "sh": sh, "lo": lo, "hi": hi, "k": []int{}}
	return w.observeLeaf(e, sh, func(us []uint) *tensor.TensorMat[T] {
		t := tensor.NewRand[T](float64(lo), float64(hi), us...)
		k := []int64{}
		for _, v := range t.GetData() {
			k = append(k, int64(math.Floor(float64(v)*1000)))
		}
		e["k"] = k
		return t
	}, &meta{mag: 1 << 40})
}
func (w *W[T]) leafNorm(sh []int) int {
	return w.observeLeaf(ev{"e": "leaf", "c": "norm", "sh": sh}, sh, func(us []uint) *tensor.TensorMat[T] {
		return tensor.NewNormRand[T](us...)
	}, &meta{mag: 1 << 40})
}

// ---- scalars

func (w *W[T]) scal(v T, div bool) int {
	w.scals = append(w.scals, number.NewScalar(v))
	w.smag = append(w.smag, maxAbs([]T{v}))
	w.sdiv = append(w.sdiv, div)
	w.add(ev{"e": "scal", "v": w.enc(v)})
	return len(w.scals)
}
func (w *W[T]) setScal(s int, v T) {
	w.scals[s-1].Value = v
	w.add(ev{"e": "sets", "s": s, "v": w.enc(v)})
}

// ---- functions

func fun[T types.Number](f string) func(T) T {
	switch f {
	case "lin":
		return func(x T) T { return x }
	case "relu2":
		return func(x T) T {
			if x < 0 {
				return 2 * x
			}
			return x
		}
	case "relu0":
		return func(x T) T {
			if x < 0 {
				return 0
			}
			return x
		}
	case "sq":
		return func(x T) T { return x * x }
	case "aff":
		return func(x T) T { return 3*x + 1 }
	case "one":
		return func(x T) T { return 1 }
	}
	panic("fun " + f)
}
func der[T types.Number](f string) func(T) T {
	switch f {
	case "lin":
		return func(x T) T { return 1 }
	case "relu2":
		return func(x T) T {
			if x < 0 {
				return 2
			}
			return 1
		}
	case "relu0":
		return func(x T) T {
			if x < 0 {
				return 0
			}
			return 1
		}
	case "sq":
		return func(x T) T { return 2 * x }
	case "aff":
		return func(x T) T { return 3 }
	}
	panic("der " + f)
}

// ---- expression nodes

func (w *W[T]) mkNode(k string, a []int, p par, s int) tensor.Tensor[T] {
	var x, y tensor.Tensor[T]
	x = w.tens[a[0]-1]
	if len(a) > 1 {
		y = w.tens[a[1]-1]
	}
	var sc *number.Scalar[T]
	if s > 0 {
		sc = w.scals[s-1]
	}
	u := func(n int) uint { return uint(n) }
	switch k {
	case "add":
		return tensor.Add(x, y)
	case "sub":
		return tensor.Sub(x, y)
	case "mul":
		return tensor.Mul(x, y)
	case "div":
		return tensor.Div(x, y)
	case "adds":
		return tensor.AddScalar(x, sc)
	case "subs":
		return tensor.SubScalar(x, sc)
	case "muls":
		return tensor.MulScalar(x, sc)
	case "divs":
		return tensor.DivScalar(x, sc)
	case "neg":
		return tensor.Neg(x)
	case "abs":
		return tensor.Abs(x)
	case "act":
		return tensor.Activate(x, fun[T](p.f))
	case "sum":
		return tensor.Sum(x)
	case "avg":
		return tensor.Avg(x)
	case "min":
		return tensor.Min(x)
	case "max":
		return tensor.Max(x)
	case "dsum":
		return tensor.DSum(x, u(p.dim))
	case "davg":
		return tensor.DAvg(x, u(p.dim))
	case "dmin":
		return tensor.DMin(x, u(p.dim))
	case "dmax":
		return tensor.DMax(x, u(p.dim))
	case "transpose":
		return tensor.Transpose(x)
	case "reshape":
		sh := uints(p.shape)
		r := tensor.Reshape(x, sh...)
		for i := range sh {
			sh[i] = 55
		}
		return r
	case "flatten":
		return tensor.Flatten(x)
	case "subt":
		return tensor.SubTensor(x, u(p.dim), u(p.from), u(p.to))
	case "subx":
		return tensor.SubExtendedTensor(x, u(p.dim), u(p.from), u(p.to))
	case "concat":
		return tensor.Concat(x, y, u(p.dim))
	case "dot":
		return tensor.Dot(x, y)
	case "dotat":
		return tensor.DotAt(x, y, u(p.da), u(p.db))
	case "softmax":
		return tensor.SoftMax(x)
	case "copy":
		return tensor.CopyTo(x, y)
	case "fill":
		return tensor.FillWith(x, sc)
	}
	panic("kind " + k)
}

func (w *W[T]) node(k string, a []int, p par, s int, m *meta) int {
	t := w.mkNode(k, a, p, s)
	w.add(ev{"e": "node", "k": k, "a": a, "p": p.json(k, w.encInt), "s": s})
	m.kind = k
	m.a = a
	return w.push(t, m)
}

// the immediate method corresponding to k
func (w *W[T]) immCall(k string, x, y *tensor.TensorMat[T], p par, sc *number.Scalar[T]) (r *tensor.TensorMat[T], err error) {
	u := func(n int) uint { return uint(n) }
	switch k {
	case "add":
		return x.Add(y)
	case "sub":
		return x.Sub(y)
	case "mul":
		return x.Mul(y)
	case "div":
		return x.Div(y)
	case "adds":
		return x.AddScalar(sc), nil
	case "subs":
		return x.SubScalar(sc), nil
	case "muls":
		return x.MulScalar(sc), nil
	case "divs":
		return x.DivScalar(sc), nil
	case "neg":
		return x.Neg(), nil
	case "abs":
		return x.Abs(), nil
	case "act":
		return x.Activate(fun[T](p.f)), nil
	case "sum":
		return x.Sum(), nil
	case "avg":
		return x.Avg(), nil
	case "min":
		return x.Min(), nil
	case "max":
		return x.Max(), nil
	case "dsum":
		return x.DSum(u(p.dim))
	case "davg":
		return x.DAvg(u(p.dim))
	case "dmin":
		return x.DMin(u(p.dim))
	case "dmax":
		return x.DMax(u(p.dim))
	case "transpose":
		return x.Transpose()
	case "reshape":
		sh := uints(p.shape)
		r := x.Reshape(sh...)
		for i := range sh {
			sh[i] = 55
		}
		return r, nil
	case "subt":
		return x.SubTensor(u(p.dim), u(p.from), u(p.to))
	case "subx":
		return x.FOSubTensor(u(p.dim), u(p.from), u(p.to), T(p.fill))
	case "concat":
		return x.Concat(y, u(p.dim))
	case "dot":
		if len(x.Shape) == 1 && len(y.Shape) == 1 && p.f == "vec" {
			return x.DotVector(y)
		}
		return x.Dot(y)
	case "dotat":
		return x.DotAt(y, u(p.da), u(p.db))
	case "softmax":
		return x.SoftMax(), nil
	}
	panic("imm " + k)
}

func (w *W[T]) imm(k string, a []int, p par, s int, m *meta) int {
	var y *tensor.TensorMat[T]
	var sc *number.Scalar[T]
	var res *tensor.TensorMat[T]
	if s > 0 {
		sc = w.scals[s-1]
	}
	r := try(func() (err error) {
		x := w.tens[a[0]-1].GetMatrix()
		if len(a) > 1 {
			y = w.tens[a[1]-1].GetMatrix()
		}
		res, err = w.immCall(k, x, y, p, sc)
		if err == nil && res == nil {
			panic("no result")
		}
		return err
	})
	w.add(ev{"e": "imm", "k": k, "a": a, "p": p.json(k, w.encInt), "s": s, "r": r})
	if r != "ok" {
		return 0
	}
	m.kind = "leaf"
	m.built = true
	return w.push(res, m)
}

// ---- graphs and contexts

func (w *W[T]) markBuilt(t int) {
	m := w.ms[t-1]
	if m.built {
		return
	}
	m.built = true
	for _, a := range m.a {
		w.markBuilt(a)
	}
}

func (w *W[T]) graph(t int) int {
	var g *graph.Graph
	r := try(func() (err error) {
		g, err = graph.NewGraph(w.tens[t-1])
		return
	})
	w.add(ev{"e": "graph", "t": t, "r": r})
	if r != "ok" {
		return 0
	}
	w.markBuilt(t)
	w.graphs = append(w.graphs, g)
	return len(w.graphs)
}
func (w *W[T]) ctx() int {
	w.ctxs = append(w.ctxs, context.NewCTX())
	w.add(ev{"e": "ctx"})
	return len(w.ctxs)
}
func (w *W[T]) build(c, t int) bool {
	r := try(func() error { return w.tens[t-1].BuildGraph(w.ctxs[c-1]) })
	w.add(ev{"e": "build", "c": c, "t": t, "r": r})
	if r == "ok" {
		w.markBuilt(t)
	}
	return r == "ok"
}
func (w *W[T]) transfer(c, from, to int) bool {
	r := try(func() error { return tensor.Transfer(w.ctxs[c-1], w.tens[from-1], w.tens[to-1]) })
	w.add(ev{"e": "transfer", "c": c, "a": []int{from, to}, "s": 0, "r": r})
	w.push(nil, &meta{kind: "hidden"})
	if r == "ok" {
		w.markBuilt(from)
		w.markBuilt(to)
	}
	return r == "ok"
}
func (w *W[T]) cfill(c, t, s int) bool {
	r := try(func() error { return tensor.Fill(w.ctxs[c-1], w.tens[t-1], w.scals[s-1]) })
	w.add(ev{"e": "cfill", "c": c, "a": []int{t}, "s": s, "r": r})
	w.push(nil, &meta{kind: "hidden"})
	if r == "ok" {
		w.markBuilt(t)
	}
	return r == "ok"
}
func (w *W[T]) addGraphOf(e ev, f func() *graph.Graph) int {
	var g *graph.Graph
	if always(func() { g = f() }) != "ok" || g == nil {
		e = ev{"e": "crash"}
	}
	w.add(e)
	w.graphs = append(w.graphs, g)
	return len(w.graphs)
}
func (w *W[T]) fromCtx(c int) int {
	return w.addGraphOf(ev{"e": "from", "c": c}, func() *graph.Graph {
		g, err := graph.NewGraphFrom[T](w.ctxs[c-1])
		if err != nil {
			return nil
		}
		return g
	})
}
func (w *W[T]) emptyGraph() int {
	return w.addGraphOf(ev{"e": "empty"}, func() *graph.Graph { return graph.NewEmptyGraph[T]() })
}
func (w *W[T]) copyGraph(g int) int {
	return w.addGraphOf(ev{"e": "copyg", "g": g}, func() *graph.Graph { return graph.NewFromGraph[T](w.graphs[g-1]) })
}
func (w *W[T]) addGraph(g, h int) {
	e := ev{"e": "addg", "g": g, "h": h}
	if always(func() { w.graphs[g-1].AddFromGraph(w.graphs[h-1]) }) != "ok" {
		e = ev{"e": "crash"}
	}
	w.add(e)
}

// element j (1-based) of tensor t
func (w *W[T]) cell(x [2]int) *number.Scalar[T] { return w.tens[x[0]-1].GetOperands()[x[1]-1] }

func (w *W[T]) userOp(o string, d [2]int, s [][2]int) operation.Operation {
	D := w.cell(d)
	A := w.cell(s[0])
	var B *number.Scalar[T]
	if len(s) > 1 {
		B = w.cell(s[1])
	}
	args := []*number.Scalar[T]{}
	for _, x := range s {
		args = append(args, w.cell(x))
	}
	switch o {
	case "add":
		return &operation.Add[T]{Scalar: D, A: A, B: B}
	case "sub":
		return &operation.Sub[T]{Scalar: D, A: A, B: B}
	case "mul":
		return &operation.Mul[T]{Scalar: D, A: A, B: B}
	case "div":
		return &operation.Div[T]{Scalar: D, A: A, B: B}
	case "eq":
		return &operation.Equals[T]{Scalar: D, A: A, B: B}
	case "neg":
		return &operation.Neg[T]{Scalar: D, O: A}
	case "abs":
		return &operation.Abs[T]{Scalar: D, O: A}
	case "set":
		return &operation.Set[T]{Scalar: D, O: A}
	case "sum":
		return &operation.Sum[T]{Scalar: D, Args: args}
	case "avg":
		return &operation.Avg[T]{Scalar: D, Args: args}
	case "min":
		return &operation.Min[T]{Scalar: D, Args: args}
	case "max":
		return &operation.Max[T]{Scalar: D, Args: args}
	case "relu2", "sq", "aff":
		return &operation.Func[T]{Scalar: D, O: A, F: fun[T](o)}
	}
	panic("userOp " + o)
}
func (w *W[T]) pushOp(g int, o string, d [2]int, s [][2]int) {
	e := ev{"e": "push", "g": g, "o": o, "d": d, "s": s}
	if always(func() { w.graphs[g-1].PushOperations(w.userOp(o, d, s)) }) != "ok" {
		e = ev{"e": "crash"}
	}
	w.add(e)
}
func (w *W[T]) cpushOp(c int, o string, d [2]int, s [][2]int) {
	e := ev{"e": "cpush", "c": c, "o": o, "d": d, "s": s}
	if always(func() { w.ctxs[c-1].Push(w.userOp(o, d, s)) }) != "ok" {
		e = ev{"e": "crash"}
	}
	w.add(e)
}
func (w *W[T]) cal(o string, d [2]int, s [][2]int) {
	r := always(func() { w.userOp(o, d, s).Cal() })
	w.add(ev{"e": "cal", "o": o, "d": d, "s": s, "r": r})
	if r == "panic" {
		w.dead = true
	}
}
func (w *W[T]) exec(g int) {
	r := always(func() { w.graphs[g-1].Exec() })
	w.add(ev{"e": "exec", "g": g, "r": r})
	if r == "panic" {
		w.dead = true
	}
}

// ---- observing

func eachIndex(sh []int, f func(ix []uint)) {
	ix := make([]uint, len(sh))
	n := size(sh)
	for i := 0; i < n; i++ {
		f(append([]uint{}, ix...))
		for d := len(sh) - 1; d >= 0; d-- {
			ix[d]++
			if int(ix[d]) < sh[d] {
				break
			}
			ix[d] = 0
		}
	}
}

// read all elements of t in one of several ways
func (w *W[T]) read(t tensor.Tensor[T], how int) (sh []int, d []T) {
	us := t.GetShape()
	sh = ints(us)
	switch how {
	case 1:
		eachIndex(sh, func(ix []uint) {
			v, err := t.Get(ix...)
			if err != nil {
				panic(err)
			}
			d = append(d, v)
		})
	case 2:
		s := t.String()
		s = s[strings.LastIndex(s, "[")+1 : strings.LastIndex(s, "]")]
		for _, x := range strings.Split(s, ",") {
			x = strings.TrimSpace(x)
			if x == "" {
				continue
			}
			if n, err := strconv.ParseInt(x, 10, 64); err == nil {
				d = append(d, T(n))
				continue
			}
			v, err := strconv.ParseFloat(x, 64)
			if err != nil {
				panic(err)
			}
			d = append(d, T(v))
		}
	case 3:
		c := t.Copy()
		d = c.GetData()
		c.GetMatrix().FillData(3) // must not reach t
	case 4:
		for _, o := range t.GetOperands() {
			d = append(d, o.Value)
		}
	default:
		data := t.GetData()
		d = append([]T{}, data...)
		for i := range data {
			data[i] = 88 // a copy
		}
	}
	for i := range us {
		us[i] = 66 // a copy
	}
	if len(d) != int(t.GetSize()) {
		panic(fmt.Sprint("size ", len(d), t.GetSize()))
	}
	return
}

func (w *W[T]) see(ts ...int) {
	v := []ev{}
	for _, t := range ts {
		var sh []int
		var d []T
		how := w.n(5)
		if w.tok != nil && how == 2 {
			how = 0 // text is for humans
		}
		r := always(func() { sh, d = w.read(w.tens[t-1], how) })
		if r != "ok" {
			sh, d = []int{-1}, nil
		}
		v = append(v, ev{"t": t, "sh": sh, "d": w.encAll(d), "how": how})
	}
	w.add(ev{"e": "see", "v": v})
}
func (w *W[T]) seeable() []int {
	r := []int{}
	for i, m := range w.ms {
		if w.tens[i] != nil && (m.kind == "leaf" || m.built) {
			r = append(r, i+1)
		}
	}
	return r
}
func (w *W[T]) seeAll() {
	if !w.dead {
		w.see(w.seeable()...)
	}
}
func (w *W[T]) seeScal(s int) {
	w.add(ev{"e": "sees", "s": s, "v": w.enc(w.scals[s-1].Value)})
}
func (w *W[T]) get(t int, ix []int) {
	var v T
	r := try(func() (err error) { v, err = w.tens[t-1].Get(uints(ix)...); return })
	w.add(ev{"e": "get", "t": t, "ix": ix, "v": w.enc(v), "r": r})
}
func (w *W[T]) getOp(t int, ix []int) {
	var v T
	r := try(func() error {
		o, err := w.tens[t-1].GetOperand(uints(ix)...)
		if err != nil {
			return err
		}
		v = o.Value
		return nil
	})
	w.add(ev{"e": "get", "t": t, "ix": ix, "v": w.enc(v), "r": r})
}
func (w *W[T]) set(t int, ix []int, v T) {
	r := try(func() error { return w.tens[t-1].Set(v, uints(ix)...) })
	w.add(ev{"e": "set", "t": t, "ix": ix, "v": w.enc(v), "r": r})
}
func (w *W[T]) setOp(t int, ix []int, v T) {
	r := try(func() error {
		o, err := w.tens[t-1].GetOperand(uints(ix)...)
		if err != nil {
			return err
		}
		o.Value = v
		return nil
	})
	w.add(ev{"e": "set", "t": t, "ix": ix, "v": w.enc(v), "r": r})
}
func (w *W[T]) load(t int, vals []T) {
	vs := append([]T{}, vals...)
	r := try(func() error { return w.tens[t-1].LoadData(vs) })
	w.add(ev{"e": "load", "t": t, "v": w.encAll(vals), "r": r})
	for i := range vs {
		vs[i] = 44
	}
}
func (w *W[T]) loadT(t, u int) {
	r := try(func() error { return w.tens[t-1].LoadFromTensor(w.tens[u-1]) })
	w.add(ev{"e": "loadt", "t": t, "u": u, "r": r})
}
func (w *W[T]) fillData(t int, v T) {
	r := always(func() { w.tens[t-1].GetMatrix().FillData(v) })
	w.add(ev{"e": "fill", "t": t, "v": w.enc(v), "r": r})
}
func (w *W[T]) fillScal(t int, v T) {
	s := number.NewScalar(v)
	r := always(func() { w.tens[t-1].GetMatrix().Fill(s) })
	w.add(ev{"e": "fill", "t": t, "v": w.enc(v), "r": r})
	s.Value = 13
}
func (w *W[T]) copyT(t int) int {
	var c tensor.Tensor[T]
	r := always(func() { c = w.tens[t-1].Copy() })
	w.add(ev{"e": "copy", "t": t, "r": r})
	m := *w.ms[t-1]
	m.kind, m.built, m.a = "leaf", false, nil
	return w.push(c, &m)
}
func (w *W[T]) bind(t, u int) {
	r := try(func() error { return w.tens[t-1].Bind(w.tens[u-1]) })
	w.add(ev{"e": "bind", "t": t, "u": u, "r": r})
	if r == "ok" {
		w.ms[t-1].mag, w.ms[t-1].den, w.ms[t-1].div = w.ms[u-1].mag, w.ms[u-1].den, false
	}
}

// ---- saving and loading tensors

// a writer that accepts n bytes and then fails
type failWriter struct {
	n   int
	buf bytes.Buffer
}

func (f *failWriter) Write(p []byte) (int, error) {
	if len(p) <= f.n {
		f.n -= len(p)
		return f.buf.Write(p)
	}
	k := f.n
	f.n = 0
	f.buf.Write(p[:k])
	return k, fmt.Errorf("disk full")
}

// a reader that returns one byte at a time
type oneByte struct{ r *bytes.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

func (w *W[T]) tsave(t int, full bool) int {
	var buf bytes.Buffer
	r := try(func() error {
		if full {
			return w.tens[t-1].SaveFull(&buf)
		}
		return w.tens[t-1].Save(&buf)
	})
	w.add(ev{"e": "tsave", "t": t, "full": full, "fail": false, "n": buf.Len(), "w": w.width, "r": r})
	if r != "ok" {
		return 0
	}
	w.files = append(w.files, append([]byte{}, buf.Bytes()...))
	m := *w.ms[t-1]
	w.fmeta = append(w.fmeta, &m)
	return len(w.files)
}
func (w *W[T]) tsaveFail(t int, full bool, at int) {
	r := try(func() error {
		fw := &failWriter{n: at}
		if full {
			return w.tens[t-1].SaveFull(fw)
		}
		return w.tens[t-1].Save(fw)
	})
	w.add(ev{"e": "tsave", "t": t, "full": full, "fail": true, "n": at, "w": w.width, "r": r})
}
func (w *W[T]) tload(t, f int, full bool, cut int, slow bool) {
	data := w.files[f-1]
	isCut := cut >= 0
	if isCut {
		data = data[:cut]
	}
	br := bytes.NewReader(data)
	var rd io.Reader = br
	switch {
	case slow:
		rd = oneByte{br}
	case w.p(20):
		rd = iotest.DataErrReader(br) // the end comes with the last bytes
	case isCut && w.p(30):
		rd = io.MultiReader(br, iotest.ErrReader(fmt.Errorf("disk broken")))
	}
	r := try(func() error {
		if full {
			return w.tens[t-1].LoadFull(rd)
		}
		return w.tens[t-1].Load(rd)
	})
	e := ev{"e": "tload", "t": t, "f": f, "full": full, "cut": isCut, "at": cut, "r": r}
	e["osh"] = ints(w.tens[t-1].GetShape())
	e["d"] = w.encAll(w.tens[t-1].GetData())
	w.add(e)
}
