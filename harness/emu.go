package main

import (
	"encoding/json"
	"fmt"
	"image"
	"math/rand"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() { drivers["emu"] = emuDriver }

// emuTarget is a virtual screen, or a plain Screen fed through Process.
type emuTarget struct {
	v  anansi.VirtualScreen
	s  anansi.Screen
	sc *anansi.Screen
}

type emuSim struct {
	tr *Trace
	r  *rand.Rand
	t  *emuTarget
	// plain: use the Screen, which only ever takes complete sequences
	plain bool
}

func (es *emuSim) do(e E, f func()) bool {
	ok := es.tr.Do(e, f)
	c := es.t.sc.Cursor
	e["x"], e["y"], e["a"], e["v"] = c.X, c.Y, unAttr(c.Attr), c.Visible
	e["c"] = logGrid(es.t.sc.Grid)
	es.tr.Emit(e)
	return ok
}

func (es *emuSim) start(w, h int, plain bool) {
	es.t = &emuTarget{}
	es.plain = plain
	es.t.sc = &es.t.v.Screen
	if plain {
		es.t.sc = &es.t.s
	}
	es.t.sc.Resize(image.Pt(w, h))
	es.tr.Episode(E{"w": w, "h": h})
}

func (es *emuSim) write(b []byte) bool {
	e := E{"ev": "write", "b": ints(b), "n": 0}
	return es.do(e, func() {
		n := 0
		if es.plain {
			n = anansi.Process(es.t.sc, append([]byte(nil), b...))
		} else {
			switch k := es.r.Intn(4); {
			case k == 0:
				n, _ = es.t.v.WriteString(string(b))
			case k == 1 && len(b) == 1:
				es.t.v.WriteByte(b[0])
				n = 1
			case k == 2 && len(b) > 0 && b[0] >= 0x20 && len([]rune(string(b))) == 1 && string([]rune(string(b))) == string(b):
				n, _ = es.t.v.WriteRune([]rune(string(b))[0])
			default:
				n, _ = es.t.v.Write(b)
			}
		}
		e["n"] = n
	})
}

// writeSeq uses the sequence and escape writers; the bytes are those that a
// Buffer gets from the same call.
func (es *emuSim) writeSeq() bool {
	r := es.r
	var seqs []ansi.Seq
	for k := 1 + r.Intn(3); k > 0; k-- {
		seqs = append(seqs, []ansi.Seq{
			ansi.CUP.WithInts(r.Intn(9), r.Intn(9)), ansi.CUF.WithInts(1 + r.Intn(9)), ansi.CUU.With(), ansi.CUD.WithInts(2), ansi.CUB.WithInts(1),
			ansi.ED.With('0' + byte(r.Intn(3))), ansi.EL.With('0' + byte(r.Intn(3))), ansi.SGRReset,
			ansi.ShowCursor.Set(), ansi.ShowCursor.Reset(), ansi.SGR.WithInts(1, 34), ansi.Escape('\r').With('\n'),
			ansi.ModeMouseSgrExt.Set(), ansi.ModeAlternateScreen.Reset(), ansi.SMprivate.WithInts(25, 1000), ansi.Seq{},
		}[r.Intn(16)])
	}
	var buf anansi.Buffer
	buf.WriteSeq(seqs...)
	e := E{"ev": "write", "b": ints(buf.Bytes()), "n": 0}
	return es.do(e, func() { e["n"] = es.t.v.WriteSeq(seqs...) })
}

func (es *emuSim) sgr(attrs ...attrT) bool {
	return es.do(E{"ev": "sgr", "attrs": attrs}, func() {
		as := make([]ansi.SGRAttr, len(attrs))
		for i := range attrs {
			as[i] = mkAttr(attrs[i])
		}
		es.t.v.WriteSGR(as...)
	})
}

func (es *emuSim) to(x, y int) bool {
	return es.do(E{"ev": "to", "px": x, "py": y}, func() {
		var p ansi.Point
		p.X, p.Y = x, y
		es.t.sc.To(p)
	})
}

func (es *emuSim) piece() string {
	r := es.r
	num := func() string {
		return fmt.Sprint([]int{1, 1, 2, 3, 4, 5, 9, 40, 99999, 123456789}[r.Intn(10)])
	}
	csi := []string{"\x1b[", "\x1b[", "\x1b[", "\u009b"}[r.Intn(4)]
	switch r.Intn(16) {
	case 0, 1, 2:
		return []string{"a", "b", "Z", " ", "~", "hello", "0123456789"}[r.Intn(7)]
	case 3:
		return []string{"é", "☃", "─", "€", "😀", "\u00a0", "\ufffd", "\xff", "⢕", "\u2003"}[r.Intn(10)]
	case 4:
		return []string{"\r", "\n", "\r\n", "\n", "\t", "\x07", "\x08", "\x00", "\x7f", "\u0085", "\ufeff", "\ue000", "\U0010ffff", "\u00ad", "\u200b"}[r.Intn(15)]
	case 5, 6:
		return csi + []string{"", num()}[r.Intn(2)] + string(rune('A'+r.Intn(4)))
	case 7, 8:
		return csi + []string{"", num() + ";" + num(), num() + ";" + num(), "0;0"}[r.Intn(4)] + "H"
	case 9:
		return csi + []string{"", "0", "1", "2", "3"}[r.Intn(5)] + "J"
	case 10:
		return csi + []string{"", "0", "1", "2", "3"}[r.Intn(5)] + "K"
	case 11, 12:
		s := csi
		for k := r.Intn(4); k > 0; k-- {
			s += []string{"0", "1", "2", "3", "4", "7", "8", "31", "97", "44", "105", "38;5;200", "48;2;1;22;255", "38;2;0;0;0", "5", "00", "01"}[r.Intn(17)]
			if k > 1 {
				s += ";"
			}
		}
		return s + "m"
	case 13:
		return csi + "?" + []string{"25", "25;1000", "1049;25", "7;25;1", "1000", "?", "1:", "", ";", "1;", "2"}[r.Intn(11)] + []string{"h", "l"}[r.Intn(2)]
	case 14:
		return []string{"\x1b7", "\x1b8", "\x1bM", "\x1bD", "\x1b(B", "\x1b[1L", "\x1b[5n", "\x1b]0;title\x1b\\", "\x1bP1$r\x1b\\", "\x1b[4h", "\x1b[2 q", "\x1b[>c", "\x1b[1;5r"}[r.Intn(13)]
	default:
		return "x" + csi + "D" + "y\r\n"
	}
}

func (es *emuSim) episode() {
	r := es.r
	w, h := 1+r.Intn(6), 1+r.Intn(4)
	es.start(w, h, r.Intn(4) == 0)
	for i := 6 + r.Intn(20); i > 0; i-- {
		var b []byte
		for k := 1 + r.Intn(3); k > 0; k-- {
			b = append(b, es.piece()...)
		}
		ok := true
		switch k := r.Intn(20); {
		case k < 3:
			ok = es.to(r.Intn(w+3)-1, r.Intn(h+3)-1)
		case k == 3:
			ok = es.do(E{"ev": "clear"}, func() { es.t.sc.Clear() })
		case k == 4:
			w, h = 1+r.Intn(6), 1+r.Intn(4)
			ok = es.do(E{"ev": "resize", "w": w, "h": h}, func() { es.t.sc.Resize(image.Pt(w, h)) })
		case es.plain || k < 9:
			ok = es.write(b)
		case k < 12:
			ok = es.writeSeq()
		case k == 12:
			ok = es.sgr(randAttr(r))
		case k == 13:
			a := randAttr(r)
			a[0] |= fClear
			ok = es.sgr(smallAttr(r), a)
		default:
			for len(b) > 0 && ok {
				m := 1 + r.Intn(5)
				if m > len(b) {
					m = len(b)
				}
				ok = es.write(b[:m])
				b = b[m:]
				if ok && !es.plain && len(b) > 0 && r.Intn(6) == 0 {
					ok = es.sgr(smallAttr(r))
				}
			}
		}
		if !ok {
			return
		}
	}
}

func emuDriver(env *Env, tr *Trace) error {
	es := &emuSim{tr: tr, r: rand.New(rand.NewSource(env.Seed))}
	if env.Gen != "" {
		if err := readGen(env, func(raw json.RawMessage) error {
			var chunks [][]int
			if err := json.Unmarshal(raw, &chunks); err != nil {
				return err
			}
			es.start(3, 2, es.r.Intn(3) == 0)
			for _, c := range chunks {
				b := make([]byte, len(c))
				for i := range c {
					b[i] = byte(c[i])
				}
				if !es.write(b) {
					return nil
				}
			}
			return nil
		}); err != nil {
			return err
		}
	}
	for i := 0; i < env.N; i++ {
		es.r = rand.New(rand.NewSource(env.Seed*1000003 + int64(i)))
		es.episode()
	}
	return nil
}
