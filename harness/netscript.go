package main

import (
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

// Histories of calls on models, generated by the specification.  The numbers
// are chosen here.

func descsOf(x any) []desc {
	r := []desc{}
	for _, v := range x.([]any) {
		e := v.(map[string]any)
		d := desc{k: e["k"].(string), pre: nums(e["pre"]), act: e["act"].(string)}
		p, _ := e["p"].(map[string]any)
		d.p = lp{n: num(p["n"]), ins: num(p["ins"]), f: num(p["f"]), kw: num(p["kw"]), kh: num(p["kh"]),
			sx: num(p["sx"]), sy: num(p["sy"]), dim: num(p["dim"]), from: num(p["from"]), to: num(p["to"]),
			lo: num(p["lo"]), hi: num(p["hi"]), shape: nums(p["shape"])}
		r = append(r, d)
	}
	return r
}

func (n *N[T]) playNet(events []map[string]any) {
	known := map[int]bool{} // models whose parameters were seen
	sc := events[0]
	ms := []int{}
	for _, d := range sc["ds"].([]any) {
		ms = append(ms, n.addModel(descsOf(d)))
	}
	if c, _ := sc["composed"].(bool); c {
		if c := n.compose(ms); c == 0 || n.dead {
			return
		}
		for m := range n.models {
			known[m+1] = true
			n.setAll(n.models[m].pls)
		}
	} else if b, _ := sc["ready"].(bool); b || n.p(50) {
		for _, m := range ms {
			if !n.models[m-1].valid {
				continue
			}
			n.ready(m)
			known[m] = true
			if n.dead {
				return
			}
		}
	}
	var file, fileOf, size int
	for _, e := range events[1:] {
		if n.dead {
			return
		}
		m, how := num(e["m"]), ""
		if h, ok := e["how"].(string); ok {
			how = h
		}
		cut := len(n.t.events)
		a, mo := n.alpha(), T(num(e["mo"]))
		if m > 0 && !known[m] {
			a = 0 // the first parameters are the library's choice: look before they change
		}
		var md *mod[T]
		if m > 0 {
			md = n.models[m-1]
		}
		fitx := func() tensor.Tensor[T] { return n.input(m, n.xbig()) }
		fity := func() tensor.Tensor[T] { return n.target(m, n.xbig()) }
		switch e["e"] {
		case "predict":
			if how == "bad" {
				n.predict(m, n.misfit(md.inSh))
			} else {
				n.predict(m, fitx())
			}
		case "trainone":
			x, y := fitx(), fity()
			if how == "badx" {
				x = n.misfit(md.inSh)
			} else if how == "bady" {
				y = n.misfit(md.outSh)
			}
			n.trainOne(m, x, y, a, mo)
		case "train":
			xs, ys := []tensor.Tensor[T]{fitx()}, []tensor.Tensor[T]{fity()}
			ep, b := 1, 0
			switch how {
			case "1x2":
				xs, ys = append(xs, fitx()), append(ys, fity())
			case "2x1":
				ep, b = 2, 1
			case "0x1":
				ep = 0
			case "none":
				xs, ys, b = xs[:0], ys[:0], 1
			case "uneven":
				xs = append(xs, fitx())
			case "badx":
				xs = append(xs, n.misfit(md.inSh))
				ys = append(ys, fity())
			}
			n.train(m, xs, ys, ep, b, a, mo)
		case "compile":
			n.compile(m)
		case "print":
			n.print(m)
			n.printLayer(m)
		case "resetis":
			n.resetIS(m)
		case "setp":
			if !known[m] {
				n.compile(m)
				known[m] = true
			}
			n.setAll(md.pls)
		case "setout":
			n.setOut()
		case "freeze":
			n.freeze(num(e["l"]), e["t"].(bool))
		case "freezem":
			n.freezeM(m, e["t"].(bool))
		case "save":
			if how == "all" || size == 0 {
				r, sz := n.save(m, -1)
				if r == "ok" {
					file, fileOf, size = len(n.files), m, sz
				}
			} else {
				n.save(m, n.n(size))
			}
		case "load":
			if file > 0 && fileOf == m {
				if how == "all" {
					n.load(m, file, -1)
				} else {
					n.load(m, file, n.n(size))
				}
			}
		}
		if n.dead {
			return
		}
		if m > 0 && !known[m] && md.valid && len(n.t.events) > cut {
			all := true
			for _, l := range md.pls {
				if w, b := n.wb(l); w == nil || b == nil {
					all = false
				}
			}
			if all {
				rest := append([]ev{}, n.t.events[cut:]...)
				n.t.events = n.t.events[:cut]
				n.adopt(m)
				n.t.events = append(n.t.events, rest...)
				known[m] = true
			}
		}
		if m > 0 && known[m] {
			n.params(md.pls)
		}
		if len(n.outs) > 0 && n.p(40) {
			n.seeOuts()
		}
	}
	for m := range n.models {
		if !n.dead && known[m+1] {
			n.params(n.models[m].pls)
			n.predict(m+1, n.input(m+1, n.xbig()))
		}
	}
}

func playN[T types.Number](r *rng, t *tape, s []map[string]any, typ, mode string, exact, f32 bool, width int) {
	t.add(ev{"e": "reset", "mode": mode, "type": typ, "width": width, "prop": "netscript"})
	n := &N[T]{rng: r, t: t, mode: mode, exact: exact, f32: f32, width: width, big: 2}
	if mode == "i16" {
		n.big = pick(r, 3, 9, 30000)
	}
	n.playNet(s)
}

func init() {
	scenarios["netscript"] = func(seed uint64, idx int, t *tape) bool {
		loadScripts()
		if idx >= len(scripts) {
			return false
		}
		r := newRng(seed, hash("netscript"), uint64(idx))
		playN[int16](r, t, scripts[idx], "int16", "i16", false, false, 2)
		return true
	}
}
