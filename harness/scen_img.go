package main

import (
	"bytes"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"math"
	"os"
	"path/filepath"

	"github.com/julioguillermo/godeep/img"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

type imgScen[T types.Number] struct {
	r     *rng
	t     *tape
	typ   string
	whole bool // an integer type
	dir   string
	pics  []tensor.Tensor[T]
	saved [][]T
	files []string
	unit  float64 // what one unit of a recorded value is worth
}

func toUints(a []int) []uint {
	r := []uint{}
	for _, x := range a {
		r = append(r, uint(x))
	}
	return r
}
func toInts(a []uint) []int {
	r := []int{}
	for _, x := range a {
		r = append(r, int(x))
	}
	return r
}

// a value in multiples of the unit; -999999 when it is none
func (s *imgScen[T]) rec(v T) int {
	x := float64(v) / s.unit
	k := math.Round(x)
	if math.IsNaN(x) || math.Abs(x) > 1e6 || math.Abs(x-k) > 0.02 {
		return -999999
	}
	return int(k)
}
func (s *imgScen[T]) recs(t tensor.Tensor[T]) []int {
	r := []int{}
	for _, v := range t.GetData() {
		r = append(r, s.rec(v))
	}
	return r
}

func (s *imgScen[T]) kept() []bool {
	r := []bool{}
	for i, p := range s.pics {
		d, same := p.GetData(), true
		if len(d) != len(s.saved[i]) {
			same = false
		}
		for j := range d {
			if same && d[j] != s.saved[i][j] {
				same = false
			}
		}
		r = append(r, same)
	}
	return r
}

func (s *imgScen[T]) keep(p tensor.Tensor[T]) {
	s.pics = append(s.pics, p)
	s.saved = append(s.saved, append([]T{}, p.GetData()...))
}

func (s *imgScen[T]) pic(sh []int, d []int) {
	v := []T{}
	for _, x := range d {
		v = append(v, T(float64(x)*s.unit))
	}
	t := tensor.NewFromValues(v, toUints(sh)...)
	s.keep(t)
	s.t.add(ev{"e": "pic", "sh": sh, "d": d})
}

func panics(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return
}

func outcome(panicked bool, err error) string {
	if panicked {
		return "panic"
	}
	if err != nil {
		return "err"
	}
	return "ok"
}

func (s *imgScen[T]) scale(kind string, p, w, h int) {
	var res tensor.Tensor[T]
	var err error
	pan := panics(func() {
		if kind == "simple" {
			res, err = img.SimpleScale(s.pics[p-1], uint(w), uint(h))
		} else {
			res, err = img.SmoothScale(s.pics[p-1], uint(w), uint(h))
		}
	})
	e := ev{"e": kind, "p": p, "w": w, "h": h, "r": outcome(pan, err), "kept": s.kept(), "int": s.whole,
		"sh": []int{}, "d": []int{}, "x": []int{}}
	if e["r"] == "ok" && res != nil {
		e["sh"] = toInts(res.GetShape())
		if kind == "simple" {
			e["d"] = s.recs(res)
			s.keep(res)
		} else {
			x := []int{}
			for _, v := range res.GetData() {
				f := float64(v)
				if !s.whole {
					f = math.Round(f * 1e4)
				}
				if math.IsNaN(f) || math.Abs(f) > 1e7 {
					f = -9999999
				}
				x = append(x, int(f))
			}
			e["x"] = x
		}
	}
	s.t.add(e)
}

func (s *imgScen[T]) poke() {
	p := s.r.n(len(s.pics))
	sh := s.pics[p].GetShape()
	if len(sh) != 3 {
		return
	}
	ix := []uint{uint(s.r.n(int(sh[0]))), uint(s.r.n(int(sh[1]))), uint(s.r.n(int(sh[2])))}
	v := s.r.in(0, 90)
	s.pics[p].Set(T(float64(v)*s.unit), ix...)
	j := (ix[0]*sh[1]+ix[1])*sh[2] + ix[2]
	s.saved[p][j] = T(float64(v) * s.unit)
	s.t.add(ev{"e": "poke", "p": p + 1, "j": j + 1, "v": v, "kept": s.kept()})
}

func (s *imgScen[T]) scaling() {
	r := s.r
	s.unit = 1
	for n := r.in(1, 2); n > 0; n-- {
		sh := []int{r.in(1, 5), r.in(1, 7), r.in(1, 7)}
		if r.p(15) {
			sh = pick(r, []int{r.in(1, 6)}, []int{r.in(1, 4), r.in(1, 4)}, []int{4, 2, 2, 2}, []int{1, 4, 3, 3})
		} else if r.p(15) {
			sh = pick(r, []int{1, r.in(1, 60), 1}, []int{1, 1, r.in(1, 60)}, []int{2, r.in(1, 20), r.in(1, 3)})
		}
		n := 1
		for _, x := range sh {
			n *= x
		}
		d := []int{}
		for i := 0; i < n; i++ {
			d = append(d, r.in(-20, 100))
		}
		s.pic(sh, d)
	}
	for n := r.in(2, 6); n > 0; n-- {
		p := r.in(1, len(s.pics))
		sh := s.pics[p-1].GetShape()
		w, h := r.in(1, 9), r.in(1, 9)
		if len(sh) == 3 && r.p(40) {
			w, h = pick(r, int(sh[1]), w, 2*int(sh[1])), pick(r, int(sh[2]), h, 2*int(sh[2]))
		}
		kind := pick(r, "simple", "smooth")
		if len(sh) == 3 && sh[0]*sh[1]*sh[2] < 70 && r.p(20) {
			if sh[1] > sh[2] {
				w, h = r.in(1, 220), 1
			} else {
				w, h = 1, r.in(1, 220)
			}
		}
		if w*h > 300 {
			w, h = 9, 9
		}
		switch {
		case r.p(15):
			s.poke()
		default:
			s.scale(kind, p, w, h)
		}
	}
}

// values (65535ths) of a picture, channel-major
func pixels(m image.Image) ([]int, []int) {
	b := m.Bounds()
	w, h := b.Dx(), b.Dy()
	d := make([]int, 4*w*h)
	for x := 0; x < w; x++ {
		for y := 0; y < h; y++ {
			r, g, bl, a := m.At(b.Min.X+x, b.Min.Y+y).RGBA()
			for c, v := range []uint32{r, g, bl, a} {
				d[(c*w+x)*h+y] = int(v)
			}
		}
	}
	return []int{4, w, h}, d
}

func (s *imgScen[T]) path(name string) string { return filepath.Join(s.dir, name) }

func (s *imgScen[T]) file() {
	r := s.r
	w, h := r.in(1, 7), r.in(1, 7)
	var m image.Image
	k := pick(r, "png8", "png16", "gray", "gif", "junk")
	p := s.path(k + string(rune('a'+len(s.files))))
	var buf bytes.Buffer
	switch k {
	case "png8":
		n := image.NewNRGBA(image.Rect(0, 0, w, h))
		for x := 0; x < w; x++ {
			for y := 0; y < h; y++ {
				n.SetNRGBA(x, y, color.NRGBA{uint8(r.n(256)), uint8(r.n(256)), uint8(r.n(256)), pick(r, uint8(255), 255, 255, 0)})
			}
		}
		m = n
		png.Encode(&buf, m)
	case "png16":
		n := image.NewNRGBA64(image.Rect(0, 0, w, h))
		for x := 0; x < w; x++ {
			for y := 0; y < h; y++ {
				n.SetNRGBA64(x, y, color.NRGBA64{uint16(r.n(65536)), uint16(r.n(65536)), uint16(r.n(65536)), 65535})
			}
		}
		m = n
		png.Encode(&buf, m)
	case "gray":
		n := image.NewGray(image.Rect(0, 0, w, h))
		for i := range n.Pix {
			n.Pix[i] = uint8(r.n(256))
		}
		m = n
		png.Encode(&buf, m)
	case "gif":
		pal := color.Palette{}
		for i := 0; i < 8; i++ {
			pal = append(pal, color.RGBA{uint8(r.n(256)), uint8(r.n(256)), uint8(r.n(256)), 255})
		}
		ox, oy := pick(r, 0, 0, r.n(4)), pick(r, 0, 0, r.n(4))
		n := image.NewPaletted(image.Rect(ox, oy, ox+w, oy+h), pal)
		for i := range n.Pix {
			n.Pix[i] = uint8(r.n(8))
		}
		m = n
		gif.EncodeAll(&buf, &gif.GIF{Image: []*image.Paletted{n}, Delay: []int{0},
			Config: image.Config{ColorModel: pal, Width: ox + w, Height: oy + h}})
	case "junk":
		m = image.NewGray(image.Rect(0, 0, 1, 1))
		buf.WriteString(pick(r, "", "not a picture", "\x89PNG\r\n\x1a\n", "GIF89a"))
		if r.p(25) {
			p = s.path("nodir/none.png") // does not exist
			s.files = append(s.files, p)
			s.t.add(ev{"e": "file", "k": "junk", "sh": []int{4, 1, 1}, "d": []int{0, 0, 0, 0}})
			return
		}
	}
	if err := os.WriteFile(p, buf.Bytes(), 0o600); err != nil {
		panic(err)
	}
	sh, d := pixels(m)
	s.files = append(s.files, p)
	s.t.add(ev{"e": "file", "k": k, "sh": sh, "d": d})
}

func (s *imgScen[T]) load(f int) {
	r := s.r
	how := pick(r, "plain", "plain", "simple", "smooth")
	w, h := r.in(1, 9), r.in(1, 9)
	var res tensor.Tensor[T]
	var err error
	pan := panics(func() {
		switch how {
		case "plain":
			res, err = img.LoadImage[T](s.files[f])
		case "simple":
			res, err = img.LoadSimpleScaled[T](s.files[f], uint(w), uint(h))
		case "smooth":
			res, err = img.LoadSmoothScaled[T](s.files[f], uint(w), uint(h))
		}
	})
	e := ev{"e": "load", "file": f + 1, "how": how, "w": w, "h": h, "r": outcome(pan, err), "kept": s.kept(),
		"sh": []int{}, "d": []int{}}
	if e["r"] == "ok" && res != nil {
		e["sh"] = toInts(res.GetShape())
		e["d"] = s.recs(res)
	}
	s.t.add(e)
}

func (s *imgScen[T]) save(p int, how string) {
	r := s.r
	t := s.pics[p]
	var m image.Image
	var err error
	bad := how != "toimg" && r.p(10)
	path := s.path("out" + string(rune('a'+len(s.files))))
	if bad {
		path = s.path("nodir/x")
	}
	pan := panics(func() {
		switch how {
		case "toimg":
			m, err = img.ToImg(t)
		case "png":
			err = img.PngSave(t, path)
		case "jpg":
			err = img.JpgSave(t, path, r.in(95, 100))
		}
	})
	e := ev{"e": "save", "p": p + 1, "how": how, "bad": bad, "r": outcome(pan, err), "kept": s.kept(),
		"sh": []int{}, "d": []int{}}
	if e["r"] == "ok" {
		if how != "toimg" {
			b, err := os.ReadFile(path)
			if err == nil {
				if how == "png" {
					m, err = png.Decode(bytes.NewReader(b))
				} else {
					m, err = jpeg.Decode(bytes.NewReader(b))
				}
			}
			if err != nil {
				e["r"] = "unreadable"
			}
			if how == "png" {
				s.files = append(s.files, path)
			}
		}
		if m != nil {
			sh, d := pixels(m)
			for i := range d {
				d[i] >>= 8
			}
			e["sh"], e["d"] = sh, d
		}
	}
	s.t.add(e)
}

func (s *imgScen[T]) picture() {
	r := s.r
	s.unit = 1.0 / 65535
	for n := r.in(1, 2); n > 0; n-- {
		sh := []int{pick(r, 4, 4, 4, 4, 5), r.in(1, 6), r.in(1, 6)}
		how := pick(r, "png", "png", "toimg", "jpg")
		if r.p(15) {
			sh = pick(r, []int{3, 2, 2}, []int{1, 3, 3}, []int{4, 3}, []int{4}, []int{4, 2, 2, 1})
		}
		if how == "jpg" && len(sh) == 3 && sh[0] == 4 {
			sh = []int{4, pick(r, 16, 32), pick(r, 16, 32)}
		}
		size := 1
		for _, x := range sh {
			size *= x
		}
		d := make([]int, size)
		eight := r.p(60)
		for i := range d {
			d[i] = r.n(65536)
			if eight {
				d[i] = r.n(256) * 257
			}
		}
		if len(sh) == 3 && sh[0] >= 4 {
			pl := sh[1] * sh[2]
			for i := 0; i < pl; i++ {
				if how != "toimg" {
					d[3*pl+i] = 65535
				}
			}
			if how == "jpg" {
				lev := [4]int{r.n(65536), r.n(65536), r.n(65536), r.n(65536)}
				for i := 0; i < pl; i++ {
					v := lev[i/sh[2]/16%2*2+i%sh[2]/16%2]
					d[i], d[pl+i], d[2*pl+i] = v, v, v
				}
			}
		}
		s.pic(sh, d)
		nf := len(s.files)
		s.save(len(s.pics)-1, how)
		if len(s.files) > nf {
			s.load(nf)
		}
	}
	for n := r.in(1, 2); n > 0; n-- {
		s.file()
		s.load(len(s.files) - 1)
		s.load(len(s.files) - 1)
	}
}

func runImg[T types.Number](r *rng, t *tape, typ string, whole bool, script []map[string]any) {
	t.add(ev{"e": "reset", "prop": "C16", "type": typ})
	s := &imgScen[T]{r: r, t: t, typ: typ, whole: whole, unit: 1}
	if script != nil {
		for _, c := range script {
			switch c["e"] {
			case "pic":
				s.pic(nums(c["sh"]), nums(c["d"]))
			case "simple", "smooth":
				s.scale(c["e"].(string), num(c["p"]), num(c["w"]), num(c["h"]))
			}
		}
		return
	}
	if whole || r.p(60) {
		s.scaling()
		return
	}
	dir, err := os.MkdirTemp("", "verif-img-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	s.dir = dir
	s.picture()
}

func imgAny(r *rng, t *tape, k int, script []map[string]any) {
	switch k {
	case 0:
		runImg[int16](r, t, "int16", true, script)
	case 1:
		runImg[int](r, t, "int", true, script)
	case 2:
		runImg[int64](r, t, "int64", true, script)
	case 3, 4, 5, 6:
		runImg[float32](r, t, "float32", false, script)
	default:
		runImg[float64](r, t, "float64", false, script)
	}
}

func init() {
	scenarios["C16"] = func(seed uint64, idx int, t *tape) bool {
		r := newRng(seed, hash("C16"), uint64(idx))
		imgAny(r, t, r.n(12), nil)
		return true
	}
	scenarios["C16script"] = func(seed uint64, idx int, t *tape) bool {
		loadScripts()
		if idx >= len(scripts) {
			return false
		}
		r := newRng(seed, hash("C16script"), uint64(idx))
		imgAny(r, t, r.n(12), scripts[idx])
		return true
	}
}
