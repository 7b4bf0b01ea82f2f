package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"syscall"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() { drivers["cursor"] = cursorDriver }

type cursorSim struct {
	tr   *Trace
	r    *rand.Rand
	c    *anansi.VirtualCursor
	lost bool // delivery was cut: go somewhere known before writing text
}

func (cs *cursorSim) do(e E, f func()) bool {
	ok := cs.tr.Do(e, f)
	e["cur"], e["real"] = logCursor(cs.c.Cursor), logCursor(cs.c.Real)
	cs.tr.Emit(e)
	return ok
}

func (cs *cursorSim) start() {
	cs.c = &anansi.VirtualCursor{}
	cs.lost = false
	a := smallAttr(cs.r)
	cs.tr.Episode(E{"x": 1 + cs.r.Intn(4), "y": 1 + cs.r.Intn(4), "a": a, "v": cs.r.Intn(2) == 0})
}

func (cs *cursorSim) to(x, y int) bool {
	cs.lost = false
	return cs.do(E{"ev": "to", "px": x, "py": y}, func() { cs.c.To(ansi.Pt(x, y)) })
}

func (cs *cursorSim) sgr(attrs ...attrT) bool {
	as := make([]ansi.SGRAttr, len(attrs))
	for i := range as {
		as[i] = mkAttr(attrs[i])
	}
	return cs.do(E{"ev": "sgr", "attrs": attrs}, func() { cs.c.WriteSGR(as...) })
}

func (cs *cursorSim) vis(on bool) bool {
	if on {
		return cs.do(E{"ev": "show"}, func() { cs.c.Show() })
	}
	return cs.do(E{"ev": "hide"}, func() { cs.c.Hide() })
}

func (cs *cursorSim) apply(x, y int, a attrT, v bool) bool {
	var k anansi.Cursor
	k.X, k.Y, k.Attr, k.Visible = x, y, mkAttr(a), v
	return cs.do(E{"ev": "apply", "px": x, "py": y, "pa": a, "pv": v}, func() { cs.c.Apply(k) })
}

func (cs *cursorSim) write(b []byte) bool {
	e := E{"ev": "write", "b": ints(b), "n": 0}
	return cs.do(e, func() {
		n := 0
		switch k := cs.r.Intn(3); {
		case k == 0:
			n, _ = cs.c.WriteString(string(b))
		case k == 1 && len(b) == 1:
			cs.c.WriteByte(b[0])
			n = 1
		default:
			n, _ = cs.c.Write(b)
		}
		e["n"] = n
	})
}

func (cs *cursorSim) writeSeq() bool {
	r := cs.r
	if r.Intn(3) == 0 {
		ru := []rune{'x', 'é', '☃', '😀'}[r.Intn(4)]
		e := E{"ev": "write", "b": ints([]byte(string(ru))), "n": 0}
		return cs.do(e, func() { n, _ := cs.c.WriteRune(ru); e["n"] = n })
	}
	if r.Intn(4) == 0 {
		e := E{"ev": "write", "b": ints([]byte("\r\n")), "n": 0}
		return cs.do(e, func() { e["n"] = cs.c.WriteESC('\r', '\n') })
	}
	seqs := []ansi.Seq{{}, ansi.SGRReset}
	for k := 1 + r.Intn(3); k > 0; k-- {
		seqs = append(seqs, []ansi.Seq{
			ansi.CUP.WithInts(1+r.Intn(9), 1+r.Intn(9)), ansi.CUF.WithInts(1 + r.Intn(9)), ansi.CUU.With(), ansi.CUD.WithInts(2), ansi.CUB.WithInts(1),
			ansi.ED.With('2'), ansi.EL.With('0'), ansi.SGRReset,
			ansi.ShowCursor.Set(), ansi.ShowCursor.Reset(), ansi.SGR.WithInts(1, 34), ansi.Escape('\r').With('\n'), ansi.CUP.WithInts(),
		}[r.Intn(13)])
	}
	var buf anansi.Buffer
	buf.WriteSeq(seqs...)
	e := E{"ev": "write", "b": ints(buf.Bytes()), "n": 0}
	return cs.do(e, func() { e["n"] = cs.c.WriteSeq(seqs...) })
}

func (cs *cursorSim) flushTo(fw *faultWriter) (string, bool) {
	res := "ok"
	e := E{"ev": "flush"}
	ok := cs.do(e, func() {
		n, err := cs.c.WriteTo(fw)
		if err != nil {
			res = "err"
			for _, ae := range faultErrs[:nAgainErrs] {
				if err == ae {
					res = "again"
				}
			}
		}
		e["n"], e["res"], e["got"] = n, res, ints(fw.got)
	})
	if res == "err" {
		cs.lost = true
	}
	return res, ok
}

func (cs *cursorSim) drop() bool {
	cs.lost = true
	return cs.do(E{"ev": "drop"}, func() { cs.c.Reset() })
}

func (cs *cursorSim) piece() string {
	r := cs.r
	num := func() string { return fmt.Sprint([]int{1, 1, 2, 3, 5, 9, 40}[r.Intn(7)]) }
	switch r.Intn(12) {
	case 0, 1, 2:
		return []string{"a", "b", " ", "~", "hello", "é☃", "😀", "€x", "\u00a0", "x\u2003y"}[r.Intn(10)]
	case 3, 4:
		return []string{"\r", "\n", "\r\n"}[r.Intn(3)]
	case 5, 6, 7:
		return "\x1b[" + []string{"", num()}[r.Intn(2)] + string(rune('A'+r.Intn(4)))
	case 8:
		return "\x1b[" + []string{"", num() + ";" + num(), num() + ";" + num()}[r.Intn(3)] + "H"
	case 9, 10:
		return "\x1b[" + []string{"", "0", "1", "7", "31", "0;32", "44", "38;5;200", "48;2;1;22;255", "8", "0;1;97"}[r.Intn(11)] + "m"
	default:
		return "\x1b[" + []string{"?25h", "?25l", "?25;7h", "2J", "K", "?1049h", "?7;25l"}[r.Intn(7)]
	}
}

func (cs *cursorSim) episode() {
	r := cs.r
	cs.start()
	for i := 6 + r.Intn(25); i > 0; i-- {
		ok := true
		if cs.lost && r.Intn(2) == 0 {
			if !cs.to(1+r.Intn(6), 1+r.Intn(5)) {
				return
			}
			continue
		}
		switch k := r.Intn(20); {
		case k < 5:
			ok = cs.to(1+r.Intn(6), 1+r.Intn(5))
		case k < 7:
			ok = cs.sgr(smallAttr(r))
		case k == 7:
			a, b := randAttr(r), randAttr(r)
			if r.Intn(2) == 0 {
				b[0] |= fClear
			}
			ok = cs.sgr(a, b)
		case k < 10:
			ok = cs.vis(k == 8)
		case k == 10:
			ok = cs.apply(1+r.Intn(6), 1+r.Intn(5), smallAttr(r), r.Intn(4) > 0)
		case k == 11:
			ok = cs.apply(r.Intn(2), 0, smallAttr(r), r.Intn(4) > 0)
		case k < 15:
			if cs.lost {
				break
			}
			b := []byte(cs.piece() + cs.piece())
			for len(b) > 0 && ok {
				m := 1 + r.Intn(8)
				if m > len(b) {
					m = len(b)
				}
				ok = cs.write(b[:m])
				b = b[m:]
				// what comes in between may cut a sequence short
				if ok && len(b) > 0 && (b[0] < 0x80 || b[0] >= 0xC0) && r.Intn(8) == 0 {
					if r.Intn(3) > 0 {
						ok = cs.sgr(smallAttr(r))
					} else {
						ok = cs.vis(r.Intn(2) == 0)
					}
				}
			}
		case k == 15:
			if !cs.lost {
				ok = cs.writeSeq()
			}
		case k == 16 && r.Intn(2) == 0:
			ok = cs.drop()
		default:
			fw := &faultWriter{budget: -1}
			if r.Intn(3) == 0 {
				fw.budget, fw.err = r.Intn(20), faultErrs[r.Intn(len(faultErrs))]
			}
			var res string
			res, ok = cs.flushTo(fw)
			if ok && res == "again" && r.Intn(2) == 0 {
				_, ok = cs.flushTo(&faultWriter{budget: -1})
			}
		}
		if !ok {
			return
		}
	}
	cs.flushTo(&faultWriter{budget: -1})
}

func (cs *cursorSim) replay(raw json.RawMessage) error {
	var ops []struct {
		Op   string
		X, Y int
		A    attrT
		B    []int
		K    int
		Err  string
	}
	if err := json.Unmarshal(raw, &ops); err != nil {
		return err
	}
	cs.start()
	for _, op := range ops {
		ok := true
		switch op.Op {
		case "to":
			ok = cs.to(op.X, op.Y)
		case "sgr":
			ok = cs.sgr(op.A)
		case "show", "hide":
			ok = cs.vis(op.Op == "show")
		case "write":
			b := make([]byte, len(op.B))
			for i := range b {
				b[i] = byte(op.B[i])
			}
			if cs.lost && !cs.to(2, 2) {
				return nil
			}
			ok = cs.write(b)
		case "reset":
			ok = cs.drop()
		case "flush":
			fw := &faultWriter{budget: -1}
			if op.Err != "" {
				fw.budget, fw.byTok, fw.extra = op.K, true, cs.r.Intn(3)
				fw.err = map[string]error{"again": syscall.EWOULDBLOCK, "hard": syscall.EIO}[op.Err]
			}
			_, ok = cs.flushTo(fw)
		default:
			return fmt.Errorf("unknown op %q", op.Op)
		}
		if !ok {
			return nil
		}
	}
	if cs.to(4, 4) && cs.sgr(attrT{2, -1, 3}) && cs.vis(true) {
		cs.flushTo(&faultWriter{budget: -1})
	}
	return nil
}

func cursorDriver(env *Env, tr *Trace) error {
	cs := &cursorSim{tr: tr, r: rand.New(rand.NewSource(env.Seed))}
	if env.Gen != "" {
		if err := readGen(env, cs.replay); err != nil {
			return err
		}
	}
	for i := 0; i < env.N; i++ {
		cs.r = rand.New(rand.NewSource(env.Seed*1000003 + int64(i)))
		cs.episode()
	}
	return nil
}
