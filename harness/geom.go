package main

import (
	"encoding/json"
	"image"
	"math/rand"

	"github.com/jcorbin/anansi/ansi"
)

func init() { drivers["geom"] = geomDriver }

type geomSim struct {
	tr *Trace
	r  *rand.Rand
	n  int
}

func (s *geomSim) ev(e E, f func()) bool {
	if s.n%8 == 0 {
		s.tr.Episode(E{})
	}
	s.n++
	ok := s.tr.Do(e, f)
	s.tr.Emit(e)
	return ok
}

func mkRect(a []int) (r ansi.Rectangle) {
	r.Min.X, r.Min.Y, r.Max.X, r.Max.Y = a[0], a[1], a[2], a[3]
	return r
}

func ptT(p ansi.Point) []int   { return []int{p.X, p.Y} }
func imgT(p image.Point) []int { return []int{p.X, p.Y} }
func mkPt(a []int) (p ansi.Point) {
	p.X, p.Y = a[0], a[1]
	return p
}

func (s *geomSim) pair(a, b, d []int, n int) {
	e := E{"ev": "pair", "r": a, "s": b, "d": d, "n": n}
	s.ev(e, func() {
		r, q, dp := mkRect(a), mkRect(b), image.Pt(d[0], d[1])
		e["in"], e["eq"], e["ov"] = r.In(q), r.Eq(q), r.Overlaps(q)
		e["meet"], e["join"] = rectT(r.Intersect(q)), rectT(r.Union(q))
		e["add"], e["sub"] = rectT(r.Add(dp)), rectT(r.Sub(dp))
		e["empty"], e["canon"] = r.Empty(), rectT(r.Canon())
		e["size"], e["dx"], e["dy"] = imgT(r.Size()), r.Dx(), r.Dy()
		e["inset"] = rectT(r.Canon().Inset(n))
		e["str"] = r.String()
	})
}

func (s *geomSim) point(p, d, rc []int, k int) {
	e := E{"ev": "point", "p": p, "d": d, "r": rc, "k": k}
	s.ev(e, func() {
		a, dp := mkPt(p), image.Pt(d[0], d[1])
		e["in"] = a.In(mkRect(rc))
		e["add"], e["sub"], e["diff"] = ptT(a.Add(dp)), ptT(a.Sub(dp)), imgT(a.Diff(mkPt(d)))
		e["mul"], e["div"] = ptT(a.Mul(k)), ptT(a.Div(k))
		e["valid"], e["eq"] = a.Valid(), a.Eq(mkPt(d))
	})
}

func (s *geomSim) conv(kind string, a []int) {
	e := E{"ev": kind, "a": a}
	s.ev(e, func() {
		switch kind {
		case "pt":
			e["out"] = ptT(ansi.Pt(a[0], a[1]))
		case "rect":
			e["out"] = rectT(ansi.Rect(a[0], a[1], a[2], a[3]))
		case "fromp":
			e["out"] = ptT(ansi.PtFromImage(image.Pt(a[0], a[1])))
		case "fromr":
			e["out"] = rectT(ansi.RectFromImage(image.Rectangle{image.Pt(a[0], a[1]), image.Pt(a[2], a[3])}))
		case "top":
			e["out"] = imgT(mkPt(a).ToImage())
		case "tor":
			e["out"] = imgRect(mkRect(a).ToImage())
		}
	})
}

func (s *geomSim) nums(n, lo, hi int) (a []int) {
	for i := 0; i < n; i++ {
		a = append(a, lo+s.r.Intn(hi-lo+1))
	}
	return a
}

func geomDriver(env *Env, tr *Trace) error {
	s := &geomSim{tr: tr, r: rand.New(rand.NewSource(env.Seed))}
	if env.Gen != "" {
		if err := readGen(env, func(raw json.RawMessage) error {
			var h struct{ R, S []int }
			if err := json.Unmarshal(raw, &h); err != nil {
				return err
			}
			s.pair(h.R, h.S, s.nums(2, -3, 3), s.r.Intn(4)-1)
			return nil
		}); err != nil {
			return err
		}
	}
	for i := 0; i < env.N; i++ {
		lo, hi := -2, 8
		if s.r.Intn(2) == 0 {
			lo, hi = 1, 300
		}
		s.pair(s.nums(4, lo, hi), s.nums(4, lo, hi), s.nums(2, -9, 9), s.r.Intn(8)-3)
		s.point(s.nums(2, lo, hi), s.nums(2, lo, hi), s.nums(4, lo, hi), 1+s.r.Intn(9))
		for _, kind := range []string{"pt", "rect", "fromp", "fromr", "top", "tor"} {
			n := 4
			if kind == "pt" || kind == "fromp" || kind == "top" {
				n = 2
			}
			l := lo
			if s.r.Intn(2) == 0 {
				l = 1
			}
			s.conv(kind, s.nums(n, l, hi))
		}
	}
	return nil
}
