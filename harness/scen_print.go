package main

import (
	"regexp"
	"strconv"
	"strings"
)

var lineRx = regexp.MustCompile(`^<Layer\[(\d+)\](?: \(([\d, ]+)\))? => (\w*):(?: I\[[\d, ]*\])? O\[([\d, ]*)\]>$`)

func numbers(s string) []int {
	r := []int{}
	for _, f := range strings.Split(s, ", ") {
		if f != "" {
			x, err := strconv.Atoi(f)
			if err != nil {
				x = -1
			}
			r = append(r, x)
		}
	}
	return r
}

// a printed layer; text of another form keeps its text as its kind
func line(s string) ev {
	m := lineRx.FindStringSubmatch(s)
	if m == nil {
		return ev{"n": -1, "from": []int{}, "kind": s, "out": []int{}}
	}
	return ev{"n": numbers(m[1])[0], "from": numbers(m[2]), "kind": m[3], "out": numbers(m[4])}
}

func (n *N[T]) print(m int) {
	var s string
	r := always(func() { s = n.models[m-1].m.String() })
	ls := []ev{}
	if body, ok := strings.CutPrefix(s, "<Model => [\n"); ok && strings.HasSuffix(body, "]>\n") {
		for _, l := range strings.Split(strings.TrimSuffix(body, "]>\n"), "\n") {
			if l != "" {
				ls = append(ls, line(l))
			}
		}
	} else {
		ls = append(ls, line("not a model: "+s))
	}
	n.add(ev{"e": "print", "m": m, "r": r, "lines": ls})
	n.dead = n.dead || r == "panic"
}

func (n *N[T]) printLayer(m int) {
	md := n.models[m-1]
	if md.last == 0 {
		return
	}
	l := md.first + n.n(md.last-md.first+1)
	if !n.reached(md, l) {
		return
	}
	var s string
	r := always(func() { s = n.layers[l-1].String() })
	n.add(ev{"e": "printl", "m": m, "l": l, "r": r, "line": line(s)})
	n.dead = n.dead || r == "panic"
}

func (n *N[T]) reached(md *mod[T], l int) bool {
	seen := map[int]bool{}
	var visit func(int)
	visit = func(x int) {
		if !seen[x] {
			seen[x] = true
			for _, y := range n.ds[x-1].pre {
				visit(y)
			}
		}
	}
	visit(md.last)
	return seen[l]
}

func (n *N[T]) prints(m int) {
	for k := n.in(1, 2); k > 0 && !n.dead; k-- {
		if n.p(70) {
			n.print(m)
		} else {
			n.printLayer(m)
		}
	}
}

func (n *N[T]) scenC20() {
	o := n.opt()
	o.scale = !n.exact
	if n.p(10) {
		m := n.addModel(n.spoil(n.genNet(o)))
		for k := n.in(2, 4); k > 0 && !n.dead; k-- {
			switch n.n(3) {
			case 0:
				n.compile(m)
			default:
				n.prints(m)
			}
		}
		return
	}
	all := []int{}
	var pls []int
	if n.p(25) {
		o.train = true
		o.maxP, o.maxE, o.depth, o.wide = 16, 36, n.in(1, 3), false
		ms, c := n.chainOfModels(o)
		if c == 0 || n.dead {
			return
		}
		all = append(append(all, c, c), ms...)
		pls = n.models[c-1].pls
		n.setAll(pls)
	} else {
		if !o.wide {
			o.depth = n.in(1, 9)
		}
		o.train = true
		m := n.addModel(n.genNet(o))
		if n.p(40) {
			n.prints(m)
		}
		if n.dead {
			return
		}
		n.ready(m)
		all = append(all, m)
		pls = n.models[m-1].pls
	}
	st := &sess{limit: 1}
	if o.scale && n.mode != "rat" {
		st.limit = 0 // no derivative is defined for scaling integers
	}
	for k := n.in(2, 6); k > 0 && !n.dead; k-- {
		m := all[n.n(len(all))]
		n.prints(m)
		if !n.dead && n.p(40) {
			n.act1(m, acts{predict: 3, misfit: 1, one: 1, save: 1, resets: 1, freeze: 1}, st)
		}
	}
	if !n.dead {
		n.params(pls)
		n.predict(all[0], n.input(all[0], n.xbig()))
	}
}
