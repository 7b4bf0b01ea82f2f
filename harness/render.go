package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"image"
	"io"
	"math/rand"
	"os"
	"syscall"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() {
	drivers["render"] = func(env *Env, tr *Trace) error { return renderDriver(env, tr, false) }
	drivers["renderfault"] = func(env *Env, tr *Trace) error { return renderDriver(env, tr, true) }
}

// faultWriter accepts bytes until its budget runs out and then fails.
type faultWriter struct {
	budget int  // <0: unlimited
	byTok  bool // budget counts tokens of the first write, plus extra bytes
	extra  int
	err    error
	got    []byte
	calls  int
}

func (fw *faultWriter) Write(p []byte) (int, error) {
	fw.calls++
	if fw.byTok && fw.budget >= 0 {
		fw.budget, fw.byTok = tokOffset(p, fw.budget)+fw.extra, false
		if fw.budget >= len(p) && len(p) > 0 {
			fw.budget = len(p) - 1
		}
	}
	if fw.budget < 0 || len(p) <= fw.budget {
		if fw.budget >= 0 {
			fw.budget -= len(p)
		}
		fw.got = append(fw.got, p...)
		return len(p), nil
	}
	n := fw.budget
	fw.budget = 0
	fw.got = append(fw.got, p[:n]...)
	return n, fw.err
}

var faultErrs = []error{
	syscall.EWOULDBLOCK,
	&os.PathError{Op: "write", Path: "tty", Err: syscall.EWOULDBLOCK},
	os.NewSyscallError("write", syscall.EAGAIN),
	syscall.EIO,
	&os.PathError{Op: "write", Path: "tty", Err: syscall.EPIPE},
	errors.New("broken"),
	io.ErrClosedPipe,
}

const nAgainErrs = 3

// streamTok tokenizes a byte stream delivered in pieces.
type streamTok struct{ rest []byte }

func (st *streamTok) feed(p []byte) [][]int {
	b := append(append([]byte(nil), st.rest...), p...)
	toks, rest := tokenize(b)
	st.rest = append([]byte(nil), rest...)
	return nn(toks)
}

func cellOf(r rune, a ansi.SGRAttr) [4]int {
	t := unAttr(a)
	return [4]int{int(r), t[0], t[1], t[2]}
}

func logGrid(g anansi.Grid) [][4]int {
	cells := make([][4]int, 0, len(g.Rune))
	for i := range g.Rune {
		cells = append(cells, cellOf(g.Rune[i], g.Attr[i]))
	}
	return cells
}

func logCursor(c anansi.Cursor) E {
	return E{"x": c.X, "y": c.Y, "a": unAttr(c.Attr), "v": c.Visible}
}

func garbage(r *rand.Rand, n int) [][4]int {
	cells := make([][4]int, n)
	for i := range cells {
		a := smallAttr(r)
		cells[i] = [4]int{'a' + r.Intn(26), a[0], a[1], a[2]}
		if r.Intn(3) == 0 {
			cells[i] = [4]int{32, 0, -1, -1}
		}
	}
	return cells
}

var someRunes = []rune{'a', 'b', 'x', '#', '~', ' ', 'é', 'λ', '─', '⢕', '€', '☃', '\u00a0', '\u2003'}

func randRune(r *rand.Rand) rune { return someRunes[r.Intn(len(someRunes))] }

type renderSim struct {
	env    *Env
	tr     *Trace
	r      *rand.Rand
	ts     *anansi.TermScreen
	sc     *anansi.ScreenDiffer
	term   *anansi.Term // over a pipe
	out    *os.File     // its other end
	st     streamTok
	tw, th int
	faults bool
}

func (rs *renderSim) start(w, h int, bce bool, cells [][4]int) {
	rs.tw, rs.th = w, h
	rs.st = streamTok{}
	rs.ts = &anansi.TermScreen{}
	rs.sc = &rs.ts.ScreenDiffer
	rs.tr.Episode(E{"w": w, "h": h, "bce": bce, "cells": cells})
}

func (rs *renderSim) do(e E, f func()) bool {
	ok := rs.tr.Do(e, f)
	rs.tr.Emit(e)
	return ok
}

func (rs *renderSim) resizeTerm(w, h int, cells [][4]int, x, y int) bool {
	rs.tw, rs.th = w, h
	sizeToTerm := rs.r.Intn(2) == 0
	return rs.do(E{"ev": "tsize", "w": w, "h": h, "cells": cells, "x": x, "y": y}, func() {
		// a change of size invalidates; SizeToTerm does so even without
		if !rs.sc.Resize(image.Pt(w, h)) || sizeToTerm {
			rs.sc.Invalidate()
		}
	})
}

func (rs *renderSim) garble(cells [][4]int, x, y int) bool {
	return rs.do(E{"ev": "garble", "cells": cells, "x": x, "y": y}, func() { rs.sc.Invalidate() })
}

func (rs *renderSim) resizeGrid(w, h int) bool {
	return rs.do(E{"ev": "edit", "what": "resize"}, func() { rs.sc.Resize(image.Pt(w, h)) })
}

// flush through a plain writer with a budget (or -1) and error, or through an
// ansi Buffer when viaBuf is set.
func (rs *renderSim) flush(budget int, ferr error, viaBuf bool) (res string, ok bool) {
	return rs.flushTo(&faultWriter{budget: budget, err: ferr}, viaBuf)
}

func (rs *renderSim) flushTo(fw *faultWriter, viaBuf bool) (res string, ok bool) {
	sc := rs.sc
	b := sc.Bounds()
	e := E{"ev": "flush", "gw": b.Dx(), "gh": b.Dy(), "g": logGrid(sc.Grid), "u": logCursor(sc.UserCursor)}
	var n int64
	var err error
	var got []byte
	ok = rs.tr.Do(e, func() {
		if viaBuf {
			var buf anansi.Buffer
			n, err = sc.WriteTo(&buf)
			got = append(got, buf.Bytes()...)
		} else {
			n, err = sc.WriteTo(fw)
			got = fw.got
		}
	})
	res = "ok"
	if err != nil {
		res = "err"
		for _, ae := range faultErrs[:nAgainErrs] {
			if err == ae {
				res = "again"
			}
		}
	}
	e["res"], e["n"], e["nb"] = res, n, len(got)
	e["toks"] = rs.st.feed(got)
	e["rest"] = len(rs.st.rest)
	rs.tr.Emit(e)
	return res, ok
}

// exit leaves the terminal, as a context of it; what that writes goes straight
// to the terminal.
func (rs *renderSim) exit() bool {
	e := E{"ev": "exit"}
	ok := rs.tr.Do(e, func() { e["err"] = errStr(rs.ts.Exit(rs.term)) })
	if !ok {
		rs.tr.Emit(e)
		return false
	}
	rs.term.Output.File.Write([]byte{0xff})
	var got []byte
	for p := make([]byte, 4096); len(got) == 0 || got[len(got)-1] != 0xff; {
		n, err := rs.out.Read(p)
		must(err)
		got = append(got, p[:n]...)
	}
	got = got[:len(got)-1]
	e["toks"] = rs.st.feed(got)
	e["rest"] = len(rs.st.rest)
	rs.tr.Emit(e)
	return true
}

// edit applies one random change to the virtual screen.
func (rs *renderSim) edit() bool {
	r, sc := rs.r, rs.sc
	b := sc.Bounds()
	w, h := b.Dx(), b.Dy()
	rpt := func() ansi.Point {
		if w < 1 || h < 1 {
			return ansi.Pt(1, 1)
		}
		// corners and margins more often
		x, y := 1+r.Intn(w), 1+r.Intn(h)
		switch r.Intn(4) {
		case 0:
			x = w
		case 1:
			x = 1
		}
		return ansi.Pt(x, y)
	}
	switch k := r.Intn(16); k {
	case 0, 1, 2, 3: // single cells
		m := 1 + r.Intn(3)
		return rs.do(E{"ev": "edit", "what": "cell"}, func() {
			for ; m > 0; m-- {
				if i, ok := sc.CellOffset(rpt()); ok {
					sc.Grid.Rune[i], sc.Grid.Attr[i] = randRune(r), mkAttr(smallAttr(r))
				}
			}
		})
	case 4: // unset a cell, maybe leaving an attribute
		a := smallAttr(r)
		return rs.do(E{"ev": "edit", "what": "unset"}, func() {
			if i, ok := sc.CellOffset(rpt()); ok {
				sc.Grid.Rune[i], sc.Grid.Attr[i] = 0, mkAttr(a)
			}
		})
	case 5: // fill a row or column
		a := smallAttr(r)
		row := r.Intn(2) == 0
		p := rpt()
		return rs.do(E{"ev": "edit", "what": "fill"}, func() {
			for y := 1; y <= h; y++ {
				for x := 1; x <= w; x++ {
					if row && y == p.Y || !row && x == p.X {
						if i, ok := sc.CellOffset(ansi.Pt(x, y)); ok {
							sc.Grid.Rune[i], sc.Grid.Attr[i] = randRune(r), mkAttr(a)
						}
					}
				}
			}
		})
	case 6, 7, 8: // text through the emulation
		a := randAttr(r)
		if r.Intn(2) == 0 {
			a = smallAttr(r)
		}
		s := make([]rune, 1+r.Intn(2*w+2))
		for i := range s {
			s[i] = randRune(r)
		}
		seq := r.Intn(3)
		p := rpt()
		split := r.Intn(4)
		return rs.do(E{"ev": "edit", "what": "text"}, func() {
			sc.To(p)
			switch seq {
			case 0:
				sc.WriteSGR(mkAttr(a))
			case 1:
				sc.WriteSeq(ansi.SGRReset)
				sc.WriteSGR(mkAttr(a))
			}
			switch split {
			case 0:
				sc.WriteString(string(s))
			case 1:
				for _, ru := range s {
					sc.WriteRune(ru)
				}
			case 2:
				sc.Write([]byte(string(s)))
			case 3:
				for _, c := range []byte("hi") {
					sc.WriteByte(c)
				}
			}
			if r.Intn(2) == 0 {
				sc.WriteSGR(mkAttr(smallAttr(r)))
			}
		})
	case 9: // clear
		return rs.do(E{"ev": "edit", "what": "clear"}, func() { sc.Clear() })
	case 10: // reset, as the platform does each frame
		return rs.do(E{"ev": "edit", "what": "resetscreen"}, func() { sc.Reset() })
	case 11: // a dangling partial sequence in the emulation's input
		s := []string{"\x1b", "\x1b[", "\x1b[3", "x\x1b[1;", "\x1b]0;t"}[r.Intn(5)]
		return rs.do(E{"ev": "edit", "what": "dangle"}, func() { sc.WriteString(s) })
	default:
		return rs.do(E{"ev": "edit", "what": "ucur"}, func() {
			u := &sc.UserCursor
			switch r.Intn(6) {
			case 0:
				*u = anansi.Cursor{}
			case 1:
				u.Visible = !u.Visible
			case 2:
				u.Attr = mkAttr(smallAttr(r))
			case 3:
				u.Point = ansi.Pt(1+r.Intn(w+4), 1+r.Intn(h+3)) // maybe beyond the margins
				u.Visible = true
			default:
				u.Point = rpt()
				u.Visible = r.Intn(4) > 0
			}
		})
	}
}

func (rs *renderSim) episode(n int) {
	r := rs.r
	dims := [][2]int{{1, 1}, {2, 1}, {1, 3}, {2, 2}, {3, 2}, {4, 3}, {5, 4}, {7, 3}, {6, 5}, {12, 4}}
	d := dims[r.Intn(len(dims))]
	bce := !rs.faults && r.Intn(3) == 0
	rs.start(d[0], d[1], bce, garbage(r, d[0]*d[1]))
	gw, gh := d[0], d[1]
	if r.Intn(5) == 0 {
		gw, gh = 1+r.Intn(gw), 1+r.Intn(gh)
	}
	if !rs.resizeGrid(gw, gh) {
		return
	}
	for i := 0; i < n; i++ {
		switch k := r.Intn(24); {
		case k == 0: // the terminal changes size
			d := dims[r.Intn(len(dims))]
			if r.Intn(3) == 0 {
				d = [2]int{rs.tw, rs.th}
			}
			back := [2]int{rs.tw, rs.th}
			if !rs.resizeTerm(d[0], d[1], garbage(r, d[0]*d[1]), 1+r.Intn(d[0]), 1+r.Intn(d[1])) {
				return
			}
			if d = back; r.Intn(3) == 0 {
				if !rs.resizeTerm(d[0], d[1], garbage(r, d[0]*d[1]), 1+r.Intn(d[0]), 1+r.Intn(d[1])) {
					return
				}
			}
		case k == 1:
			if !rs.garble(garbage(r, rs.tw*rs.th), 1+r.Intn(rs.tw), 1+r.Intn(rs.th)) {
				return
			}
		case k == 2 && rs.faults && r.Intn(3) > 0:
			if !rs.exit() {
				return
			}
			if r.Intn(2) == 0 && !rs.resizeTerm(rs.tw, rs.th, garbage(r, rs.tw*rs.th), 1+r.Intn(rs.tw), 1+r.Intn(rs.th)) {
				return
			}
		case k == 2 && r.Intn(2) == 0: // grid smaller than the terminal
			if !rs.resizeGrid(1+r.Intn(rs.tw), 1+r.Intn(rs.th)) {
				return
			}
		case k <= 10:
			budget, viaBuf := -1, r.Intn(4) == 0
			var ferr error
			if rs.faults {
				viaBuf = false
				if r.Intn(2) == 0 {
					budget = r.Intn(12)
					if r.Intn(3) == 0 {
						budget = r.Intn(120)
					}
					ferr = faultErrs[r.Intn(len(faultErrs))]
					if r.Intn(3) > 0 {
						ferr = faultErrs[r.Intn(nAgainErrs)]
					}
				}
			}
			res, ok := rs.flush(budget, ferr, viaBuf)
			if !ok {
				return
			}
			if res == "again" && r.Intn(8) == 0 { // the program ends there
				if !rs.exit() {
					return
				}
			} else if res == "again" && r.Intn(3) > 0 { // usual immediate resume
				if _, ok := rs.flush(-1, nil, false); !ok {
					return
				}
			}
		default:
			if !rs.edit() {
				return
			}
		}
	}
	if _, ok := rs.flush(-1, nil, false); !ok {
		return
	}
	rs.flush(-1, nil, false)
}

// genOp is one step of a history generated by TLC from spec/Render.tla.
type genOp struct {
	Op     string  `json:"op"`
	I      int     `json:"i"`
	R      int     `json:"r"`
	A      attrT   `json:"a"`
	X      int     `json:"x"`
	Y      int     `json:"y"`
	V      bool    `json:"v"`
	W      int     `json:"w"`
	H      int     `json:"h"`
	Bce    bool    `json:"bce"`
	Budget int     `json:"k"`
	Err    string  `json:"err"`
	Cells  [][]int `json:"cells"`
}

func (rs *renderSim) replayGen(raw json.RawMessage) error {
	var ops []genOp
	if err := json.Unmarshal(raw, &ops); err != nil {
		return err
	}
	for _, op := range ops {
		switch op.Op {
		case "init":
			rs.start(op.W, op.H, op.Bce, garbage(rs.r, op.W*op.H))
			rs.resizeGrid(op.W, op.H)
		case "cell":
			if !rs.do(E{"ev": "edit", "what": "cell"}, func() {
				rs.sc.Grid.Rune[op.I-1], rs.sc.Grid.Attr[op.I-1] = rune(op.R), mkAttr(op.A)
			}) {
				return nil
			}
		case "ucur":
			if !rs.do(E{"ev": "edit", "what": "ucur"}, func() {
				rs.sc.UserCursor.X, rs.sc.UserCursor.Y = op.X, op.Y
				rs.sc.UserCursor.Visible = op.V
				rs.sc.UserCursor.Attr = mkAttr(op.A)
			}) {
				return nil
			}
		case "exit":
			if !rs.exit() {
				return nil
			}
		case "garble":
			if !rs.garble(garbage(rs.r, rs.tw*rs.th), op.X, op.Y) {
				return nil
			}
		case "flush":
			fw := &faultWriter{budget: -1}
			if op.Err != "" {
				fw.budget, fw.byTok, fw.extra = op.Budget, true, rs.r.Intn(3)
				fw.err = map[string]error{"again": syscall.EWOULDBLOCK, "hard": syscall.EIO}[op.Err]
			}
			if _, ok := rs.flushTo(fw, false); !ok {
				return nil
			}
		default:
			return fmt.Errorf("unknown generated op %q", op.Op)
		}
	}
	// the history must end in sync
	if _, ok := rs.flush(-1, nil, false); !ok {
		return nil
	}
	rs.flush(-1, nil, false)
	return nil
}

func renderDriver(env *Env, tr *Trace, faults bool) error {
	rs := &renderSim{env: env, tr: tr, faults: faults, r: rand.New(rand.NewSource(env.Seed))}
	pr, pw, err := os.Pipe()
	must(err)
	rs.term, rs.out = anansi.NewTerm(os.Stdin, pw), pr
	if env.Gen != "" {
		if err := readGen(env, rs.replayGen); err != nil {
			return err
		}
	}
	n := env.N
	for i := 0; i < n; i++ {
		rs.r = rand.New(rand.NewSource(env.Seed*1000003 + int64(i)))
		rs.episode(12 + rs.r.Intn(30))
	}
	return nil
}
