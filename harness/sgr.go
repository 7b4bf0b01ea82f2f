package main

import (
	"encoding/json"
	"fmt"
	"image/color"
	"math/rand"
	"strings"

	"github.com/jcorbin/anansi/ansi"
)

func init() { drivers["sgr"] = sgrDriver }

type sgrSim struct {
	tr *Trace
	r  *rand.Rand
	n  int
}

// vector starts a new episode every so many events: each stands alone.
func (ss *sgrSim) vector(e E, f func()) {
	if ss.n%8 == 0 {
		ss.tr.Episode(E{})
	}
	ss.n++
	ss.tr.Do(e, f)
	ss.tr.Emit(e)
}

func (ss *sgrSim) pair(a, b attrT) {
	e := E{"ev": "pair", "a": a, "b": b, "bits": []int{}}
	ss.vector(e, func() {
		x, y := mkAttr(a), mkAttr(b)
		d := x.Diff(y)
		e["merge"], e["diff"], e["mdiff"] = rawAttr(x.Merge(y)), rawAttr(d), rawAttr(x.Merge(d))
		e["zero"] = d == 0
	})
}

// rawAttr projects without the cache of attributes that were built.
func rawAttr(a ansi.SGRAttr) attrT {
	t := attrT{0, -1, -1}
	for _, fb := range flagBits {
		if a&fb.a != 0 {
			t[0] |= fb.f
		}
	}
	if c, ok := a.FG(); ok {
		t[1] = unColor(c)
	}
	if c, ok := a.BG(); ok {
		t[2] = unColor(c)
	}
	return t
}

func (ss *sgrSim) enc(a attrT, priors []attrT) {
	e := E{"ev": "enc", "a": a, "priors": priors}
	ss.vector(e, func() {
		x := mkAttr(a)
		pre := "x\x1b"[:ss.r.Intn(3)]
		e["pre"] = ints([]byte(pre))
		b := x.AppendTo([]byte(pre))
		e["b"], e["size"], e["cs"] = ints(b), x.Size(), ints([]byte(x.ControlString()))
		args := strings.TrimSuffix(strings.TrimPrefix(string(b[len(pre):]), "\x1b["), "m")
		d, n, err := ansi.DecodeSGR([]byte(args))
		e["dec"], e["n"], e["ok"], e["alen"] = rawAttr(d), n, err == nil, len(args)
		e["sansfg"], e["sansbg"] = rawAttr(x.SansFG()), rawAttr(x.SansBG())
		fg, fok := x.FG()
		bg, bok := x.BG()
		e["fg"], e["bg"] = -1, -1
		if fok {
			e["fg"] = unColor(fg)
		}
		if bok {
			e["bg"] = unColor(bg)
		}
	})
}

// dec decodes a list of arguments
func (ss *sgrSim) dec(arg []byte, priors []attrT) {
	e := E{"ev": "dec", "arg": ints(arg), "priors": priors}
	ss.vector(e, func() {
		d, n, err := ansi.DecodeSGR(append([]byte(nil), arg...))
		e["dec"], e["n"], e["ok"] = rawAttr(d), n, err == nil
	})
}

func (ss *sgrSim) color(c int) {
	e := E{"ev": "color", "c": c}
	ss.vector(e, func() {
		x := mkColor(c)
		r, g, b := x.RGB()
		e["rgb"] = []int{int(r), int(g), int(b)}
		t := x.To24Bit()
		e["to24"], e["to24x2"] = unColor(t), unColor(t.To24Bit())
		r, g, b = t.RGB()
		e["trgb"] = []int{int(r), int(g), int(b)}
		cr, cg, cb, ca := x.RGBA()
		e["rgba"] = []int{int(cr), int(cg), int(cb), int(ca)}
		e["back"] = unColor(ansi.RGBA(cr, cg, cb, ca))
		var cc color.Color = x
		_ = cc
		fg, fok := x.FG().FG()
		bg, bok := x.BG().BG()
		_, fb := x.FG().BG()
		_, bf := x.BG().FG()
		e["fg"], e["bg"], e["set"] = unColor(fg), unColor(bg), []bool{fok, bok, fb, bf}
	})
}

func (ss *sgrSim) rgba(r, g, b uint32) {
	e := E{"ev": "rgba", "in": []int{int(r), int(g), int(b)}}
	ss.vector(e, func() { e["out"] = unColor(ansi.RGBA(r, g, b, uint32(ss.r.Intn(0x10000)))) })
}

func (ss *sgrSim) randCodes() []byte {
	r := ss.r
	var parts []string
	col := func() string {
		v := []int{0, 7, 8, 15, 16, 99, 100, 200, 255}
		n := v[r.Intn(len(v))]
		if r.Intn(2) == 0 {
			n = r.Intn(256)
		}
		if r.Intn(12) == 0 {
			return fmt.Sprintf("%03d", n)
		}
		return fmt.Sprint(n)
	}
	for k := 1 + r.Intn(5); k > 0; k-- {
		switch r.Intn(10) {
		case 0:
			parts = append(parts, fmt.Sprint(30+r.Intn(8)))
		case 1:
			parts = append(parts, fmt.Sprint(40+r.Intn(8)))
		case 2:
			parts = append(parts, fmt.Sprint(90+r.Intn(8)))
		case 3:
			parts = append(parts, fmt.Sprint(100+r.Intn(8)))
		case 4:
			parts = append(parts, []string{"38", "48"}[r.Intn(2)]+";5;"+col())
		case 5:
			parts = append(parts, []string{"38", "48"}[r.Intn(2)]+";2;"+col()+";"+col()+";"+col())
		case 6:
			parts = append(parts, []string{"0", "00", "01", "5", "6"}[r.Intn(5)])
		default:
			parts = append(parts, fmt.Sprint([]int{1, 2, 3, 4, 7, 8}[r.Intn(6)]))
		}
	}
	return []byte(strings.Join(parts, ";"))
}

func (ss *sgrSim) fullAttr() attrT {
	a := randAttr(ss.r)
	if ss.r.Intn(4) == 0 {
		a[0] |= fClear
	}
	return a
}

func (ss *sgrSim) priors() []attrT {
	return []attrT{{0, -1, -1}, {63, 3, 4}, randAttr(ss.r)}
}

func (ss *sgrSim) replay(raw json.RawMessage) error {
	var v struct{ A, B attrT }
	if err := json.Unmarshal(raw, &v); err != nil {
		return err
	}
	ss.pair(v.A, v.B)
	return nil
}

func sgrDriver(env *Env, tr *Trace) error {
	ss := &sgrSim{tr: tr, r: rand.New(rand.NewSource(env.Seed))}
	r := ss.r
	if env.Gen != "" {
		if err := readGen(env, ss.replay); err != nil {
			return err
		}
	}
	for f := 0; f < 128; f++ {
		for _, c := range [][2]int{{-1, -1}, {1, -1}, {-1, 9}, {200, rgbBase + 0x0a63ff}} {
			ss.enc(attrT{f, c[0], c[1]}, []attrT{{0, -1, -1}, {63, 3, 4}})
		}
	}
	for c := 0; c < 256; c++ {
		ss.enc(attrT{0, c, -1}, []attrT{{0, -1, -1}})
		ss.enc(attrT{0, -1, c}, []attrT{{0, -1, -1}})
		ss.color(c)
	}
	for v := 0; v < 256; v++ { // every value of every component
		for k := uint(0); k < 24; k += 8 {
			ss.enc(attrT{0, rgbBase + v<<k, rgbBase + (255-v)<<k}, []attrT{{0, -1, -1}})
			ss.color(rgbBase + v<<k)
		}
	}
	for i := 0; i < env.N; i++ {
		switch r.Intn(6) {
		case 0:
			ss.enc(ss.fullAttr(), ss.priors())
		case 1, 2:
			ss.dec(ss.randCodes(), ss.priors())
		case 3:
			ss.color(randColor(r))
		case 4:
			v := []uint32{0, 0xff, 0x100, 0xffff, 0x10000, 0x7fff, 0xfffff}
			ss.rgba(v[r.Intn(7)], uint32(r.Intn(0x10000)), v[r.Intn(7)])
		default:
			a, b := ss.fullAttr(), ss.fullAttr()
			if r.Intn(2) == 0 { // alike, but for something
				b = a
				switch r.Intn(4) {
				case 0:
					b[0] ^= 1 << uint(r.Intn(7))
				case 1:
					b[1] = randColor(r)
				case 2:
					b[2] = -1
				case 3:
					b[1] = -1
				}
			}
			ss.pair(a, b)
		}
		if i%16 == 0 { // malformed: must be an error, or at least no harm
			b := ss.randCodes()
			switch r.Intn(4) {
			case 0:
				b = b[:r.Intn(len(b)+1)]
			case 1:
				b[r.Intn(len(b))] = "x:? -;9"[r.Intn(7)]
			case 2:
				b = append(b, []string{";38", ";38;5", ";38;5;", ";38;2;1;2", ";48;5;256", ";300", ";38;7", ";1x", ";9", ";10", ";99"}[r.Intn(11)]...)
			default:
				b = []byte{"0123456789;x"[r.Intn(12)], "0123456789;x"[r.Intn(12)]}[:1+r.Intn(2)]
			}
			e := E{"ev": "junk", "arg": ints(b)}
			ss.vector(e, func() {
				_, n, err := ansi.DecodeSGR(append([]byte(nil), b...))
				e["n"], e["ok"] = n, err == nil
			})
		}
	}
	return nil
}
