package main

import (
	"encoding/json"
	"image"
	"math/rand"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() { drivers["grid"] = gridDriver }

type gridSim struct {
	tr    *Trace
	r     *rand.Rand
	bases []anansi.Grid // full grids, in order of creation
	views []anansi.Grid
	of    []int // base of each view, -1 for none
	dead  []bool
}

type styleT struct {
	K string `json:"k"`
	R int    `json:"r"`
	A attrT  `json:"a"`
}

func (st styleT) make() anansi.Style {
	switch st.K {
	case "noop":
		return anansi.NoopStyle
	case "zero":
		return anansi.ZeroRuneStyle(st.R)
	case "fill":
		return anansi.FillRuneStyle(st.R)
	case "default":
		return anansi.DefaultRuneStyle(st.R)
	case "attr":
		return anansi.AttrStyle(mkAttr(st.A))
	case "runes":
		return anansi.TransparentRunes
	case "bg":
		return anansi.TransparentAttrBG
	case "fg":
		return anansi.TransparentAttrFG
	case "bgfg":
		return anansi.TransparentAttrBGFG
	case "pos":
		return anansi.StyleFunc(func(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
			if r == 0 {
				return r, a
			}
			return 19968 + rune(64*p.Y+p.X), a
		})
	case "under":
		return anansi.StyleFunc(func(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
			if pr != 0 {
				return pr, pa
			}
			return r, a
		})
	}
	return nil
}

func styleTs(sts []styleT) []styleT {
	if sts == nil {
		return []styleT{}
	}
	return sts
}

func rectT(r ansi.Rectangle) [4]int { return [4]int{r.Min.X, r.Min.Y, r.Max.X, r.Max.Y} }

func (s *gridSim) ev(e E, f func()) bool {
	ok := s.tr.Do(e, f)
	s.tr.Emit(e)
	return ok
}

func (s *gridSim) evb(e E, f func()) bool {
	ok := s.tr.Do(e, f)
	var bs [][][4]int
	for _, b := range s.bases {
		bs = append(bs, logGrid(b))
	}
	e["bs"] = bs
	s.tr.Emit(e)
	return ok
}

func (e E) grid(g anansi.Grid) {
	e["r"], e["stride"], e["n"] = rectT(g.Rect), g.Stride, len(g.Rune)
	if len(g.Attr) != len(g.Rune) {
		e["n"] = -1
	}
}

func (s *gridSim) start() {
	s.bases, s.views, s.of, s.dead = nil, nil, nil, nil
	s.tr.Episode(E{})
}

func (s *gridSim) fill(g anansi.Grid, cs [][4]int) {
	for i, c := range cs {
		if i < len(g.Rune) && i < len(g.Attr) {
			g.Rune[i], g.Attr[i] = rune(c[0]), mkAttr(attrT{c[1], c[2], c[3]})
		}
	}
}

func (s *gridSim) base(w, h int, cs [][4]int) bool {
	e := E{"ev": "base", "w": w, "h": h, "c": cs}
	var g anansi.Grid
	ok := s.tr.Do(e, func() { e["out"] = g.Resize(image.Pt(w, h)) })
	s.fill(g, cs)
	e.grid(g)
	s.bases, s.views, s.of, s.dead = append(s.bases, g), append(s.views, g), append(s.of, len(s.bases)), append(s.dead, false)
	s.tr.Emit(e)
	return ok
}

func (s *gridSim) sub(i int, kind string, a []int) bool {
	e := E{"ev": "sub", "i": i, "kind": kind, "a": a, "issub": false}
	g := s.views[i-1]
	var v anansi.Grid
	ok := s.tr.Do(e, func() {
		switch kind {
		case "rect":
			var r ansi.Rectangle
			r.Min.X, r.Min.Y, r.Max.X, r.Max.Y = a[0], a[1], a[2], a[3]
			v = g.SubRect(r)
		case "at":
			v = g.SubAt(ansi.Pt(a[0], a[1]))
		case "size":
			v = g.SubSize(image.Pt(a[0], a[1]))
		case "full":
			v = g.Full()
		}
		e["issub"] = v.IsSub()
	})
	e.grid(v)
	of := s.of[i-1]
	if v.Rune == nil {
		of = -1
	}
	s.views, s.of, s.dead = append(s.views, v), append(s.of, of), append(s.dead, s.dead[i-1])
	s.tr.Emit(e)
	return ok
}

func (s *gridSim) draw(d, sr int, sts []styleT) bool {
	var ss []anansi.Style
	for i := 0; i < len(sts); i++ {
		if i+1 < len(sts) && s.r.Intn(4) == 0 {
			ss = append(ss, anansi.Styles(sts[i].make(), sts[i+1].make()))
			i++
			continue
		}
		ss = append(ss, sts[i].make())
	}
	return s.evb(E{"ev": "draw", "d": d, "s": sr, "st": styleTs(sts)}, func() {
		anansi.DrawGrid(s.views[d-1], s.views[sr-1], ss...)
	})
}

func (s *gridSim) clear(i int) bool {
	return s.evb(E{"ev": "clear", "i": i}, func() { s.views[i-1].Clear() })
}

func (s *gridSim) off(i, x, y int, c [4]int) bool {
	g := s.views[i-1]
	e := E{"ev": "off", "i": i, "x": x, "y": y, "c": c}
	return s.ev(e, func() {
		off, ok := g.CellOffset(ansi.Pt(x, y))
		e["off"], e["ok"] = off, ok
		if ok {
			g.Rune[off], g.Attr[off] = rune(c[0]), mkAttr(attrT{c[1], c[2], c[3]})
		}
	})
}

func (s *gridSim) eq(i, j int, z rune) bool {
	e := E{"ev": "eq", "i": i, "j": j, "z": int(z)}
	return s.ev(e, func() { e["out"] = s.views[i-1].Eq(s.views[j-1], z) })
}

// resize a view; one of a whole grid leaves all others of it dead, since
// whether they still share anything is not said.
func (s *gridSim) resize(i, w, h int) bool {
	g := &s.views[i-1]
	e := E{"ev": "resize", "i": i, "w": w, "h": h}
	wasSub := g.IsSub()
	same := g.Rect.Size() == image.Pt(w, h)
	n := len(g.Rune)
	ok := s.tr.Do(e, func() { e["out"] = g.Resize(image.Pt(w, h)) })
	if !same && !wasSub {
		for j, of := range s.of {
			if j != i-1 && of == s.of[i-1] {
				s.dead[j] = true
			}
		}
		s.bases[s.of[i-1]] = anansi.Grid{}
		e["new"] = [][]int{}
		if n < len(g.Rune) {
			e["new"] = logGrid(anansi.Grid{Rect: g.Rect, Stride: g.Stride, Rune: g.Rune[n:], Attr: g.Attr[n:]})
		}
		s.fill(*g, s.content(len(g.Rune)))
		s.of[i-1] = len(s.bases)
		s.bases = append(s.bases, *g)
	}
	e.grid(*g)
	e["c"] = logGrid(*g)
	s.tr.Emit(e)
	return ok
}

func (s *gridSim) cell() [4]int {
	r := s.r
	a := smallAttr(r)
	if r.Intn(3) == 0 {
		a = randAttr(r)
	}
	c := [4]int{int(randRune(r)), a[0], a[1], a[2]}
	if r.Intn(4) == 0 {
		c[0] = 0
	}
	return c
}

func (s *gridSim) content(n int) [][4]int {
	cs := make([][4]int, n)
	for i := range cs {
		cs[i] = s.cell()
	}
	return cs
}

var styleKinds = []string{"noop", "zero", "fill", "default", "attr", "runes", "bg", "fg", "bgfg", "pos", "under"}

func (s *gridSim) styles() (sts []styleT) {
	r := s.r
	for n := r.Intn(4); n > 0; n-- {
		sts = append(sts, styleT{styleKinds[r.Intn(len(styleKinds))], int(randRune(r)), randAttr(r)})
	}
	return sts
}

// live picks a view that still is one of a known grid.
func (s *gridSim) live() int {
	for k := 0; k < 50; k++ {
		if i := s.r.Intn(len(s.views)); !s.dead[i] && s.of[i] >= 0 {
			return i + 1
		}
	}
	return 1
}

func (s *gridSim) episode() {
	r := s.r
	s.start()
	for k := 2 + r.Intn(2); k > 0; k-- {
		w, h := 1+r.Intn(6), 1+r.Intn(5)
		if r.Intn(12) == 0 {
			w = 0
		}
		if w > 0 && r.Intn(12) == 0 {
			h = 0
		}
		if !s.base(w, h, s.content(w*h)) {
			return
		}
	}
	for k := 6 + r.Intn(12); k > 0; k-- {
		ok := true
		i := s.live()
		if s.dead[i-1] {
			return
		}
		rc := s.views[i-1].Rect
		switch r.Intn(12) {
		case 0, 1, 2:
			x0, y0 := rc.Min.X+r.Intn(rc.Dx()+1)/(1+r.Intn(2)), rc.Min.Y+r.Intn(rc.Dy()+1)/(1+r.Intn(2))
			if r.Intn(10) == 0 {
				x0, y0 = 1+r.Intn(6), 1+r.Intn(6)
			}
			w, h := r.Intn(rc.Dx()+3), r.Intn(rc.Dy()+3)
			if r.Intn(3) > 0 {
				w, h = w+1, h+1
			}
			switch r.Intn(8) {
			case 0:
				if x0 <= rc.Max.X && y0 <= rc.Max.Y {
					ok = s.sub(i, "at", []int{x0, y0})
				}
			case 1:
				ok = s.sub(i, "size", []int{w, h})
			case 2:
				ok = s.sub(i, "full", []int{})
			default:
				ok = s.sub(i, "rect", []int{x0, y0, x0 + w, y0 + h})
			}
		case 3, 4, 5, 6, 7:
			j := s.live()
			if s.dead[j-1] || s.of[i-1] == s.of[j-1] && s.views[i-1].Rect.Overlaps(s.views[j-1].Rect) {
				continue
			}
			ok = s.draw(i, j, s.styles())
			if ok && r.Intn(2) == 0 {
				ok = s.eq(i, j, randRune(r))
			}
		case 8:
			ok = s.clear(i)
		case 9:
			ok = s.off(i, 1+r.Intn(7), 1+r.Intn(6), s.cell())
		case 10:
			ok = s.eq(i, s.live(), []rune{0, ' ', 'x'}[r.Intn(3)])
		case 11:
			w, h := r.Intn(7), r.Intn(6)
			if r.Intn(4) == 0 {
				w, h = rc.Dx(), rc.Dy()
			}
			ok = s.resize(i, w, h)
			if ok && r.Intn(2) == 0 {
				ok = s.resize(i, 1+r.Intn(6), 1+r.Intn(5))
			}
		}
		if !ok {
			return
		}
	}
}

func (s *gridSim) replay(raw json.RawMessage) error {
	var ops []struct {
		Op   string
		I    int
		D, S int
		R    []int
		St   []styleT
	}
	if err := json.Unmarshal(raw, &ops); err != nil {
		return err
	}
	s.start()
	for _, sz := range []image.Point{{2, 2}, {2, 1}} {
		s.base(sz.X, sz.Y, s.content(sz.X*sz.Y))
	}
	for _, op := range ops {
		ok := true
		switch op.Op {
		case "sub":
			ok = s.sub(op.I, "rect", op.R)
		case "draw":
			ok = s.draw(op.D, op.S, op.St)
		case "clear":
			ok = s.clear(op.I)
		}
		if !ok {
			return nil
		}
	}
	s.eq(len(s.views), 1, 0)
	return nil
}

func gridDriver(env *Env, tr *Trace) error {
	s := &gridSim{tr: tr, r: rand.New(rand.NewSource(env.Seed))}
	if env.Gen != "" {
		if err := readGen(env, s.replay); err != nil {
			return err
		}
	}
	for i := 0; i < env.N; i++ {
		s.r = rand.New(rand.NewSource(env.Seed*1000003 + int64(i)))
		s.episode()
	}
	return nil
}
