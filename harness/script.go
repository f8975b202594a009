package main

import (
	"bufio"
	"encoding/json"
	"os"

	"github.com/julioguillermo/godeep/types"
)

// Scripts generated by the specification: one scenario per line,
// {"s": [event, ...]} where the events carry no outcomes.

var scripts [][]map[string]any

func loadScripts() {
	if scripts != nil {
		return
	}
	f, err := os.Open(inputFile)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var l struct {
			S []map[string]any `json:"s"`
		}
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			panic(err)
		}
		scripts = append(scripts, l.S)
	}
}

func num(x any) int {
	if f, ok := x.(float64); ok {
		return int(f)
	}
	return 0
}
func nums(x any) []int {
	r := []int{}
	if a, ok := x.([]any); ok {
		for _, v := range a {
			r = append(r, num(v))
		}
	}
	return r
}

func (w *W[T]) value(x any) T {
	if a, ok := x.([]any); ok {
		return T(float64(num(a[0])) / float64(num(a[1])))
	}
	return T(num(x))
}
func (w *W[T]) values(x any) []T {
	r := []T{}
	if a, ok := x.([]any); ok {
		for _, v := range a {
			r = append(r, w.value(v))
		}
	}
	return r
}
func parOf(x any) par {
	p := par{}
	m, ok := x.(map[string]any)
	if !ok {
		return p
	}
	p.dim, p.from, p.to = num(m["dim"]), num(m["from"]), num(m["to"])
	p.da, p.db, p.fill = num(m["da"]), num(m["db"]), num(m["fill"])
	p.shape = nums(m["shape"])
	p.f, _ = m["f"].(string)
	return p
}
func pair(x any) [2]int {
	n := nums(x)
	return [2]int{n[0], n[1]}
}
func pairs(x any) [][2]int {
	r := [][2]int{}
	for _, v := range x.([]any) {
		r = append(r, pair(v))
	}
	return r
}

func (w *W[T]) play(events []map[string]any) {
	for _, e := range events {
		if w.dead {
			return
		}
		switch e["e"] {
		case "leaf":
			switch e["c"] {
			case "zeros":
				w.leafZeros(nums(e["sh"]))
			case "ones":
				w.leafOnes(nums(e["sh"]))
			default:
				w.leaf(nums(e["sh"]), w.values(e["v"]), false, 1)
			}
		case "scal":
			w.scal(w.value(e["v"]), false)
		case "sets":
			w.setScal(num(e["s"]), w.value(e["v"]))
		case "node":
			w.node(e["k"].(string), nums(e["a"]), parOf(e["p"]), num(e["s"]), &meta{mag: 1, den: 1})
		case "graph":
			if w.graph(num(e["t"])) == 0 && e["must"] != nil {
				return
			}
		case "ctx":
			w.ctx()
		case "build":
			w.build(num(e["c"]), num(e["t"]))
		case "transfer":
			a := nums(e["a"])
			w.transfer(num(e["c"]), a[0], a[1])
		case "cfill":
			w.cfill(num(e["c"]), nums(e["a"])[0], num(e["s"]))
		case "from":
			w.fromCtx(num(e["c"]))
		case "empty":
			w.emptyGraph()
		case "copyg":
			w.copyGraph(num(e["g"]))
		case "addg":
			w.addGraph(num(e["g"]), num(e["h"]))
		case "push":
			w.pushOp(num(e["g"]), e["o"].(string), pair(e["d"]), pairs(e["s"]))
		case "cpush":
			w.cpushOp(num(e["c"]), e["o"].(string), pair(e["d"]), pairs(e["s"]))
		case "cal":
			w.cal(e["o"].(string), pair(e["d"]), pairs(e["s"]))
		case "exec":
			w.exec(num(e["g"]))
		case "see":
			ts := []int{}
			for _, v := range e["v"].([]any) {
				ts = append(ts, num(v.(map[string]any)["t"]))
			}
			w.see(ts...)
		case "get":
			w.get(num(e["t"]), nums(e["ix"]))
		case "set":
			w.set(num(e["t"]), nums(e["ix"]), w.value(e["v"]))
		case "load":
			w.load(num(e["t"]), w.values(e["v"]))
		case "loadt":
			w.loadT(num(e["t"]), num(e["u"]))
		case "fill":
			w.fillData(num(e["t"]), w.value(e["v"]))
		case "copy":
			w.copyT(num(e["t"]))
		case "imm":
			if w.imm(e["k"].(string), nums(e["a"]), parOf(e["p"]), num(e["s"]), &meta{mag: 1, den: 1}) == 0 {
				w.push(nil, &meta{kind: "hidden"})
			}
		}
	}
}

func playTyped[T types.Number](r *rng, t *tape, s []map[string]any, mode, typ string, f32 bool, width int) {
	t.add(ev{"e": "reset", "mode": mode, "type": typ, "prop": "script"})
	newW[T](r, t, mode, f32, width).play(s[1:])
}

func init() {
	scenarios["script"] = func(seed uint64, idx int, t *tape) bool {
		loadScripts()
		if idx >= len(scripts) {
			return false
		}
		s := scripts[idx]
		r := newRng(seed, hash("script"), uint64(idx))
		mode := s[0]["mode"].(string)
		switch s[0]["type"] {
		case "int":
			playTyped[int](r, t, s, mode, "int", false, 8)
		case "float64":
			playTyped[float64](r, t, s, mode, "float64", false, 8)
		default:
			playTyped[int16](r, t, s, mode, "int16", false, 2)
		}
		return true
	}
}
