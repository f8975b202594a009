package main

// ---- C12: tensors saved with or without their shape

func (w *W[T]) scenC12T() {
	for n := w.in(1, 3); n > 0; n-- {
		w.newLeaf(w.shape())
	}
	if w.tok == nil && w.p(40) {
		// a computed tensor or a view
		if id := w.randNode(views, false, 0); id > 0 {
			if g := w.graph(id); g > 0 {
				w.exec(g)
				if w.dead {
					return
				}
			}
		}
	}
	type file struct {
		id, size int
		full     bool
		sh       []int
	}
	files := []file{}
	ready := func(i int) bool { m := w.ms[i-1]; return m.sh != nil && (m.kind == "leaf" || m.built) }
	plain := func(i int) bool { return w.ms[i-1].kind == "leaf" }
	for n := w.in(3, 9); n > 0 && !w.dead; n-- {
		t := w.choose(ready)
		switch c := w.n(10); {
		case c < 4 || len(files) == 0:
			full := w.p(50)
			id := w.tsave(t, full)
			if id == 0 {
				return
			}
			f := file{id, len(w.files[id-1]), full, append([]int{}, w.ms[t-1].sh...)}
			files = append(files, f)
			if w.p(40) { // the medium fails at some byte
				all := w.p(30)
				for at := 0; at < f.size; at++ {
					if all || w.n(f.size) < 2 {
						w.tsaveFail(t, full, at)
					}
				}
			}
		case c < 6:
			m := w.ms[t-1]
			if m.kind == "leaf" {
				w.load(t, w.valsLike(m))
			}
		default:
			f := files[w.n(len(files))]
			slow := w.p(30)
			cut := -1
			if w.p(40) {
				cut = w.n(f.size)
			}
			if f.full {
				t = w.choose(plain) // gets the shape of the file
				if w.choose(func(i int) bool { return !plain(i) }) > 0 {
					t = w.leafZeros(w.shape()) // nothing may depend on it
				}
				if cut < 0 {
					w.ms[t-1].sh = f.sh
				}
			} else {
				t = w.choose(func(i int) bool { return plain(i) && size(w.ms[i-1].sh) == size(f.sh) })
				if t == 0 {
					t = w.leafZeros(pick(w.rng, f.sh, []int{size(f.sh)}, []int{1, size(f.sh)}))
				}
			}
			w.tload(t, f.id, f.full, cut, slow)
			if f.full {
				// whatever it has now
				w.ms[t-1].sh = ints(w.tens[t-1].GetShape())
			}
		}
		w.seeAll()
	}
}
