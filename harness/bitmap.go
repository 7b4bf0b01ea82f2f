package main

import (
	"bytes"
	"encoding/json"
	"image"
	"math/rand"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() { drivers["bitmap"] = bitmapDriver }

type bitmapSim struct {
	tr *Trace
	r  *rand.Rand
	vs []anansi.Bitmap
}

func (s *bitmapSim) ev(e E, f func()) bool {
	ok := s.tr.Do(e, f)
	s.tr.Emit(e)
	return ok
}

func bitInts(bs []bool) []int {
	out := make([]int, len(bs))
	for i, b := range bs {
		if b {
			out[i] = 1
		}
	}
	return out
}

func imgRect(r image.Rectangle) [4]int { return [4]int{r.Min.X, r.Min.Y, r.Max.X, r.Max.Y} }

func (s *bitmapSim) start() {
	s.vs = nil
	s.tr.Episode(E{})
}

func (s *bitmapSim) load(stride int, d []bool) bool {
	e := E{"ev": "load", "stride": stride, "d": bitInts(d)}
	return s.ev(e, func() {
		var bi anansi.Bitmap
		bi.Load(stride, d)
		e["r"] = imgRect(bi.Rect)
		s.vs = append(s.vs, bi)
	})
}

func (s *bitmapSim) resize(w, h int) bool {
	e := E{"ev": "resize", "w": w, "h": h}
	return s.ev(e, func() {
		var bi anansi.Bitmap
		if len(s.vs) > 0 && s.r.Intn(2) == 0 {
			bi = s.vs[s.r.Intn(len(s.vs))]
		}
		bi.Resize(image.Pt(w, h))
		e["r"] = imgRect(bi.Rect)
		s.vs = append(s.vs, bi)
	})
}

func (s *bitmapSim) sub(i int, kind string, a []int) bool {
	e := E{"ev": "sub", "i": i, "kind": kind, "a": a}
	return s.ev(e, func() {
		bi := s.vs[i-1]
		switch kind {
		case "rect":
			bi = bi.SubRect(image.Rectangle{image.Pt(a[0], a[1]), image.Pt(a[2], a[3])})
		case "at":
			bi = bi.SubAt(image.Pt(a[0], a[1]))
		case "size":
			bi = bi.SubSize(image.Pt(a[0], a[1]))
		}
		e["r"] = imgRect(bi.Rect)
		s.vs = append(s.vs, bi)
	})
}

func (s *bitmapSim) get(i, x, y int) bool {
	e := E{"ev": "get", "i": i, "x": x, "y": y}
	return s.ev(e, func() { e["out"] = bitInts([]bool{s.vs[i-1].Get(image.Pt(x, y))})[0] })
}

func (s *bitmapSim) set(i, x, y, k int) bool {
	e := E{"ev": "set", "i": i, "x": x, "y": y, "k": k}
	return s.ev(e, func() { s.vs[i-1].Set(image.Pt(x, y), k == 1) })
}

func (s *bitmapSim) rune(i, x, y int) bool {
	e := E{"ev": "rune", "i": i, "x": x, "y": y}
	return s.ev(e, func() { e["out"] = int(s.vs[i-1].Rune(image.Pt(x, y))) })
}

func (s *bitmapSim) size(i int) bool {
	e := E{"ev": "size", "i": i}
	return s.ev(e, func() {
		sz := s.vs[i-1].RuneSize()
		e["out"] = []int{sz.X, sz.Y}
	})
}

func makeStyles(sts []styleT) (ss []anansi.Style) {
	for _, st := range sts {
		ss = append(ss, st.make())
	}
	return ss
}

// draw into a part of a larger grid, which has to stay as it is around it.
func (s *bitmapSim) draw(i, w, h int, sts []styleT) bool {
	gs := gridSim{r: s.r}
	var g anansi.Grid
	g.Resize(image.Pt(w+3, h+2))
	gs.fill(g, gs.content(len(g.Rune)))
	full := logGrid(g)
	dst := g.SubRect(ansi.Rect(2, 2, 2+w, 2+h))
	part := func(cs [][4]int) (in, out [][4]int) {
		for j, c := range cs {
			x, y := j%(w+3), j/(w+3)
			if x >= 1 && x < 1+w && y >= 1 && y < 1+h {
				in = append(in, c)
			} else {
				out = append(out, c)
			}
		}
		return in, out
	}
	in, around := part(full)
	e := E{"ev": "draw", "i": i, "w": w, "h": h, "c": in, "st": styleTs(sts)}
	ok := s.tr.Do(e, func() { anansi.DrawBitmap(dst, s.vs[i-1], makeStyles(sts)...) })
	out, around2 := part(logGrid(g))
	e["out"] = out
	for j := range around {
		if around[j] != around2[j] {
			e["bad"] = "drew beyond the destination"
			ok = false
		}
	}
	s.tr.Emit(e)
	return ok
}

func (s *bitmapSim) write(i int, sts []styleT) bool {
	e := E{"ev": "write", "i": i, "st": styleTs(sts)}
	return s.ev(e, func() {
		var buf bytes.Buffer
		var n int
		if s.r.Intn(2) == 0 {
			var ab anansi.Buffer
			n, _ = anansi.WriteBitmap(&ab, s.vs[i-1], makeStyles(sts)...)
			buf.Write(ab.Bytes())
		} else {
			n, _ = anansi.WriteBitmap(&buf, s.vs[i-1], makeStyles(sts)...)
		}
		toks, rest := tokenize(buf.Bytes())
		if len(rest) > 0 {
			toks = append(toks, []int{tokBad, 0})
		}
		e["n"], e["len"], e["toks"] = n, buf.Len(), nn(toks)
	})
}

func runesOf(s string) []int {
	out := []int{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

func (s *bitmapSim) parse(set string, lines []string, must bool) (stride int, d []bool, ok bool) {
	ls := [][]int{}
	for _, l := range lines {
		ls = append(ls, runesOf(l))
	}
	e := E{"ev": "parse", "set": runesOf(set), "lines": ls, "must": must, "err": false}
	s.ev(e, func() {
		var err error
		if must {
			stride, d = anansi.MustParseBitmap(set, lines...)
		} else {
			stride, d, err = anansi.ParseBitmap(set, lines...)
			e["err"] = err != nil
		}
		e["stride"], e["d"] = stride, bitInts(d)
		ok = err == nil
	})
	return stride, d, ok
}

var bitmapStyles = []string{"noop", "zero", "zero", "fill", "default", "attr", "attr", "runes", "bg", "fg", "bgfg", "under", "dots"}

func (s *bitmapSim) styles() (sts []styleT) {
	r := s.r
	for n := r.Intn(4); n > 0; n-- {
		st := styleT{bitmapStyles[r.Intn(len(bitmapStyles))], 0x2800 + r.Intn(3), smallAttr(r)}
		if st.K == "dots" { // makes some cells another attribute
			st.K = "zero"
		}
		sts = append(sts, st)
	}
	return sts
}

func (s *bitmapSim) bits(n int) []bool {
	d := make([]bool, n)
	m := 1 + s.r.Intn(4)
	for i := range d {
		d[i] = s.r.Intn(m) == 0
	}
	return d
}

func (s *bitmapSim) episode() {
	r := s.r
	s.start()
	for k := 3 + r.Intn(20); k > 0; k-- {
		ok := true
		op := r.Intn(14)
		if len(s.vs) == 0 {
			op = r.Intn(3)
		}
		var i int
		var rc image.Rectangle
		if len(s.vs) > 0 {
			i = 1 + r.Intn(len(s.vs))
			rc = s.vs[i-1].Rect
		}
		switch op {
		case 0:
			stride := 1 + r.Intn(7)
			n := stride * r.Intn(10)
			if r.Intn(2) == 0 {
				n = r.Intn(40)
			}
			ok = s.load(stride, s.bits(n))
		case 1:
			ok = s.resize(r.Intn(8), r.Intn(10))
		case 2:
			sets := []string{"1", "#", "##", ".#", "é", "λ☃", "", "abc"}
			set := sets[r.Intn(len(sets))]
			alpha := append([]rune(set), '.', ' ', '☃')
			w := 1 + r.Intn(4)
			if r.Intn(8) == 0 {
				w = 0
			}
			per := len([]rune(set))
			if r.Intn(12) == 0 {
				per++
			}
			var lines []string
			for h := r.Intn(6); h > 0; h-- {
				l := []rune{}
				n := w * per
				if r.Intn(16) == 0 && w > 0 && len(lines) > 0 {
					n += 1 + r.Intn(2)
				}
				for len(l) < n {
					if r.Intn(2) == 0 {
						l = append(l, []rune(set)...)
					} else {
						l = append(l, alpha[r.Intn(len(alpha))])
					}
				}
				lines = append(lines, string(l[:n]))
			}
			if stride, d, pok := s.parse(set, lines, r.Intn(3) == 0); pok {
				ok = s.load(stride, d)
			}
		case 3, 4:
			x0, y0 := rc.Min.X+r.Intn(rc.Dx()+1), rc.Min.Y+r.Intn(rc.Dy()+1)
			w, h := r.Intn(rc.Dx()+3), r.Intn(rc.Dy()+3)
			if r.Intn(8) == 0 {
				x0--
			}
			switch r.Intn(6) {
			case 0:
				if x0 <= rc.Max.X && y0 <= rc.Max.Y {
					ok = s.sub(i, "at", []int{x0, y0})
				}
			case 1:
				ok = s.sub(i, "size", []int{w, h})
			default:
				ok = s.sub(i, "rect", []int{x0, y0, x0 + w, y0 + h})
			}
		case 5:
			ok = s.get(i, r.Intn(9)-1, r.Intn(11)-1)
		case 6, 7:
			ok = s.set(i, r.Intn(9)-1, r.Intn(11)-1, r.Intn(2))
		case 8:
			if rc.Empty() {
				continue
			}
			ok = s.rune(i, rc.Min.X+r.Intn(rc.Dx()), rc.Min.Y+r.Intn(rc.Dy()))
		case 9:
			ok = s.size(i)
		case 10, 11:
			ok = s.draw(i, 1+r.Intn(4), 1+r.Intn(3), s.styles())
		default:
			ok = s.write(i, s.styles())
		}
		if !ok {
			return
		}
	}
}

func (s *bitmapSim) replay(raw json.RawMessage) error {
	var h struct {
		W int
		B []int
		R []int
	}
	if err := json.Unmarshal(raw, &h); err != nil {
		return err
	}
	s.start()
	var d []bool
	for _, b := range h.B {
		d = append(d, b == 1)
	}
	_ = s.load(h.W, d) && s.sub(1, "rect", h.R) && s.size(2) && s.write(2, nil) &&
		s.draw(2, 2, 2, []styleT{{"zero", 0x2800, attrT{}}}) &&
		s.set(2, h.R[0], h.R[1], 1) && s.rune(2, h.R[0], h.R[1]) && s.write(1, nil)
	return nil
}

func bitmapDriver(env *Env, tr *Trace) error {
	s := &bitmapSim{tr: tr, r: rand.New(rand.NewSource(env.Seed))}
	if env.Gen != "" {
		if err := readGen(env, s.replay); err != nil {
			return err
		}
	}
	for i := 0; i < env.N; i++ {
		s.r = rand.New(rand.NewSource(env.Seed*1000003 + int64(i)))
		s.episode()
	}
	return nil
}
