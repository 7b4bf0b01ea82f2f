package main

import (
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() { drivers["esc"] = escDriver }

type escSim struct {
	tr    *Trace
	r     *rand.Rand
	n     int
	slots []ansi.Seq
	mode  anansi.Mode
}

func (s *escSim) ev(e E, f func()) bool {
	ok := s.tr.Do(e, f)
	s.tr.Emit(e)
	return ok
}

func (s *escSim) vector(e E, f func()) {
	if s.n%8 == 0 {
		s.tr.Episode(E{})
	}
	s.n++
	s.ev(e, f)
}

// esc encodes an identifier, with an argument
func (s *escSim) esc(id int, arg []byte) {
	e := E{"ev": "esc", "id": id, "arg": ints(arg)}
	s.vector(e, func() {
		x := ansi.Escape(id)
		pre := []byte("a\x1b"[:s.r.Intn(3)])
		e["pre"] = ints(pre)
		e["size"] = x.Size()
		e["b0"] = ints(x.AppendTo(append([]byte(nil), pre...)))
		e["b"] = ints(x.AppendWith(append([]byte(nil), pre...), arg...))
		eb, eok := x.ESC()
		cb, cok := x.CSI()
		e["isesc"], e["esc"], e["escok"], e["csi"], e["csiok"] = x.IsEscape(), int(eb), eok, int(cb), cok
		e["cs"], e["name"] = x.IsCharacterSetControl(), ascii(x.String())
		e["nameb"] = ints([]byte(x.String()))
		var buf anansi.Buffer
		n := buf.WriteESC(x)
		e["wn"], e["wb"] = n, ints(buf.Bytes())
	})
}

func (s *escSim) snap(e E) {
	out := [][]int{}
	sizes, ids := []int{}, []int{}
	for _, q := range s.slots {
		out = append(out, ints(q.AppendTo(nil)))
		sizes = append(sizes, q.Size())
		ids = append(ids, int(q.ID()))
		_ = q.String()
	}
	e["enc"], e["sizes"], e["ids"] = out, sizes, ids
}

func (s *escSim) reset() {
	s.slots = nil
	s.mode = anansi.Mode{}
	s.n = 0
	s.tr.Episode(E{})
}

func (s *escSim) newSeq(id int, how int, bs []byte, ns []int) bool {
	e := E{"ev": "new", "id": id, "bs": ints(bs), "ns": nonNil(ns)}
	return s.ev(e, func() {
		x := ansi.Escape(id)
		var q ansi.Seq
		switch {
		case len(ns) == 2 && len(bs) == 0 && how == 0 && ns[0] > 0 && ns[1] > 0:
			q = x.WithPoint(ansi.Pt(ns[1], ns[0]))
		case len(ns) > 0 && len(bs) == 0:
			q = x.WithInts(ns...)
		default:
			q = x.With(bs...)
			if len(ns) > 0 {
				q = q.WithInts(ns...)
			}
		}
		s.slots = append(s.slots, q)
		s.snap(e)
	})
}

func nonNil(ns []int) []int {
	if ns == nil {
		return []int{}
	}
	return ns
}

// with adds to a copy of the sequence in slot i.
func (s *escSim) with(i int, bs []byte, ns []int, pt bool) bool {
	e := E{"ev": "with", "i": i + 1, "bs": ints(bs), "ns": nonNil(ns)}
	return s.ev(e, func() {
		bsc, nsc := append([]byte(nil), bs...), append([]int(nil), ns...)
		q := s.slots[i].With(bsc...)
		if pt && len(ns) == 2 && ns[0] > 0 && ns[1] > 0 {
			q = q.WithPoint(ansi.Pt(ns[1], ns[0]))
		} else {
			q = q.WithInts(nsc...)
		}
		for k := range bsc { // the arguments were ours
			bsc[k] = '!'
		}
		for k := range nsc {
			nsc[k] = -7
		}
		s.slots = append(s.slots, q)
		s.snap(e)
	})
}

// write writes sequences one after the other
func (s *escSim) write(is []int) bool {
	one := []int{}
	for _, i := range is {
		one = append(one, i+1)
	}
	e := E{"ev": "wseq", "is": one}
	return s.ev(e, func() {
		qs := make([]ansi.Seq, len(is))
		for k, i := range is {
			qs[k] = s.slots[i]
		}
		var buf anansi.Buffer
		e["n"] = buf.WriteSeq(qs...)
		e["b"] = ints(buf.Bytes())
	})
}

func (s *escSim) randNums(max int) []int {
	var ns []int
	for k := s.r.Intn(max + 1); k > 0; k-- {
		ns = append(ns, []int{0, 1, 9, 10, 25, 99, 100, 1049, 65535, 99999999}[s.r.Intn(10)])
	}
	return ns
}

func (s *escSim) randBytes(max int, lo, hi int) []byte {
	var bs []byte
	for k := s.r.Intn(max + 1); k > 0; k-- {
		bs = append(bs, byte(lo+s.r.Intn(hi-lo+1)))
	}
	return bs
}

func (s *escSim) randNew() bool {
	r := s.r
	switch r.Intn(8) {
	case 0: // C0, other than ESC
		return s.newSeq(1+r.Intn(26), 0, s.randBytes(2, 'a', 'z'), nil)
	case 1:
		return s.newSeq(0xEF20+r.Intn(16), 0, []byte{byte(0x30 + r.Intn(0x4F))}, nil)
	case 2:
		fin := 0x30 + r.Intn(16)
		if r.Intn(2) == 0 {
			fin = 0x60 + r.Intn(0x1F)
		}
		bs := s.randBytes(3, 0x20, 0x2F)
		if len(bs) == 1 {
			bs = nil
		}
		return s.newSeq(0xEF00+fin, 0, bs, nil)
	default:
		return s.newSeq(0xEFC0+r.Intn(0x3F), r.Intn(2), s.randBytes(r.Intn(5), 0x3C, 0x3F), s.randNums(5))
	}
}

func (s *escSim) seqEpisode() {
	r := s.r
	s.reset()
	if !s.randNew() {
		return
	}
	for k := 3 + r.Intn(10); k > 0; k-- {
		i := r.Intn(len(s.slots))
		if r.Intn(2) == 0 {
			i = len(s.slots) - 1
		}
		switch r.Intn(6) {
		case 0:
			if !s.randNew() {
				return
			}
		case 1:
			if !s.write([]int{i, r.Intn(len(s.slots)), i}) {
				return
			}
		default:
			id := int(s.slots[i].ID())
			ok := true
			switch {
			case id > 0xEF80:
				ok = s.with(i, s.randBytes(2, 0x3C, 0x3F), s.randNums(3), r.Intn(2) == 0)
			case id < 0x20:
				ok = s.with(i, s.randBytes(3, 'a', 'z'), nil, false)
			default:
				ok = s.with(i, nil, nil, false)
			}
			if !ok {
				return
			}
		}
	}
}

func (s *escSim) modeVector(m int, priv bool) {
	e := E{"ev": "mode", "m": m, "priv": priv}
	s.vector(e, func() {
		x := ansi.Mode(m)
		if priv {
			x |= ansi.ModePrivate
		}
		e["set"], e["reset"] = ints(x.Set().AppendTo(nil)), ints(x.Reset().AppendTo(nil))
		arg := []byte(fmt.Sprint(m))
		e["pre"] = s.r.Intn(2) == 0
		if e["pre"] == true {
			arg = append([]byte{';'}, arg...)
		}
		arg = append(arg, ";7"[:2*s.r.Intn(2)]...)
		d, n, err := ansi.DecodeMode(priv, arg)
		e["dm"], e["dp"], e["dn"], e["ok"] = int(d&^ansi.ModePrivate), d&ansi.ModePrivate != 0, n, err == nil
	})
}

// modeEpisode collects modes for entering and leaving
func (s *escSim) modeEpisode() {
	r := s.r
	s.reset()
	for k := 1 + r.Intn(6); k > 0; k-- {
		e := E{"ev": "addmode"}
		var seqs []ansi.Seq
		for k := 1 + r.Intn(3); k > 0; k-- {
			seqs = append(seqs, ansi.Mode(r.Intn(3000)).Set(), ansi.CUP.WithInts(r.Intn(9), 2), ansi.DECSC.With(), ansi.ESC('(').With('B'), ansi.Escape(7).With('y'))
		}
		r.Shuffle(len(seqs), func(i, j int) { seqs[i], seqs[j] = seqs[j], seqs[i] })
		sets, resets := [][]int{}, [][]int{}
		var f func()
		switch r.Intn(3) {
		case 0:
			seqs = seqs[:1+r.Intn(3)]
			for _, q := range seqs {
				sets = append(sets, ints(q.AppendTo(nil)))
			}
			resets = sets
			f = func() { s.mode.AddModeSeq(seqs...) }
		case 1:
			sets, resets = append(sets, ints(seqs[0].AppendTo(nil))), append(resets, ints(seqs[1].AppendTo(nil)))
			f = func() { s.mode.AddModePair(seqs[0], seqs[1]) }
		default:
			var ms []ansi.Mode
			for k := 1 + r.Intn(4); k > 0; k-- {
				m := ansi.Mode(r.Intn(3000))
				if r.Intn(2) == 0 {
					m |= ansi.ModePrivate
				}
				ms = append(ms, m)
				sets = append(sets, ints(m.Set().AppendTo(nil)))
				resets = append(resets, ints(m.Reset().AppendTo(nil)))
			}
			f = func() { s.mode.AddMode(ms...) }
		}
		e["sets"], e["resets"] = sets, resets
		if !s.ev(e, func() { f(); e["set"], e["reset"] = ints(s.mode.Set), ints(s.mode.Reset) }) {
			return
		}
	}
}

func (s *escSim) mouse(id int, arg []byte) {
	e := E{"ev": "mouse", "id": id, "arg": ints(arg)}
	s.vector(e, func() {
		ms, p, err := ansi.DecodeXtermExtendedMouse(ansi.Escape(id), append([]byte(nil), arg...))
		e["s"], e["x"], e["y"], e["ok"], e["errs"] = int(ms), p.X, p.Y, err == nil, ""
		if err != nil {
			_ = err.Error()
		}
	})
}

func (s *escSim) mouseState(v int) {
	e := E{"ev": "mstate", "s": v}
	s.vector(e, func() {
		ms := ansi.MouseState(v)
		id, is := ms.IsPress()
		e["button"], e["mod"], e["motion"], e["release"] = int(ms.ButtonID()), int(ms.Modifier()), ms.IsMotion(), ms.IsRelease()
		e["press"], e["pid"], e["drag"], e["name"] = is, int(id), ms.IsDrag(), ms.String()
	})
}

func (s *escSim) number(arg []byte) {
	e := E{"ev": "num", "arg": ints(arg)}
	s.vector(e, func() {
		v, n, err := ansi.DecodeNumber(append([]byte(nil), arg...))
		e["v"], e["n"], e["ok"] = v, n, err == nil
		if v > 1<<30 || v < -1<<30 {
			e["v"] = 0 // out of the model's range, and of this check
			e["big"] = true
		} else {
			e["big"] = false
		}
	})
}

func (s *escSim) point(x, y int, tail string) {
	arg := []byte(fmt.Sprintf("%d;%d%s", y, x, tail))
	e := E{"ev": "point", "px": x, "py": y, "len": len(arg) - len(tail)}
	s.vector(e, func() {
		p, n, err := ansi.DecodePoint(arg)
		e["x"], e["y"], e["n"], e["ok"] = p.X, p.Y, n, err == nil
	})
}

func (s *escSim) replay(raw json.RawMessage) error {
	var ops []struct {
		Op string
		Id int
		I  int
		Bs []int
		Ns []int
	}
	if err := json.Unmarshal(raw, &ops); err != nil {
		return err
	}
	s.reset()
	for _, op := range ops {
		bs := make([]byte, len(op.Bs))
		for i := range bs {
			bs[i] = byte(op.Bs[i])
		}
		ok := true
		if op.Op == "new" {
			ok = s.newSeq(op.Id, s.r.Intn(2), bs, op.Ns)
		} else {
			ok = s.with(op.I-1, bs, op.Ns, s.r.Intn(2) == 0)
		}
		if !ok {
			return nil
		}
	}
	return nil
}

func escDriver(env *Env, tr *Trace) error {
	s := &escSim{tr: tr, r: rand.New(rand.NewSource(env.Seed))}
	r := s.r
	// every identifier; C0 other than ESC, C1, ESC, character sets, CSI
	for id := 1; id < 0x20; id++ {
		if id != 0x1b {
			s.esc(id, nil)
		}
	}
	for id := 0x80; id < 0xA0; id++ {
		s.esc(id, nil)
	}
	for id := 0xEF20; id < 0xEF30; id++ {
		for _, f := range []byte{'0', 'A', 'B', '`', '~', byte(0x30 + r.Intn(0x4F))} {
			s.esc(id, []byte{f})
		}
	}
	for id := 0xEF30; id < 0xEF7F; id++ {
		if id >= 0xEF40 && id < 0xEF60 {
			continue // they are C1 controls
		}
		s.esc(id, nil)
		s.esc(id, []byte{byte(0x20 + r.Intn(16)), byte(0x20 + r.Intn(16))})
	}
	for id := 0xEFC0; id < 0xEFFF; id++ {
		s.esc(id, nil)
		s.esc(id, []byte("?25"))
		s.esc(id, append(s.randBytes(6, 0x30, 0x3F), s.randBytes(2, 0x20, 0x2F)...))
	}
	for v := 0; v < 256; v++ {
		s.mouseState(v)
		s.mouse(0xEF80+'M', []byte(fmt.Sprintf("<%d;%d;%d", v, 1+r.Intn(300), 1+r.Intn(300))))
		s.mouse(0xEF80+'m', []byte(fmt.Sprintf("<%d;%d;%d", v, 1+r.Intn(300), 1+r.Intn(300))))
	}
	for _, a := range []string{"", "<", "<1", "<1;2", "<1;2;3;4", "<;1;2", "<256;1;1", "<-1;2;3", "<1;2;3x", "<x;1;1", "<1;;2", "<1;2;", "1;2;3", "M", "<1;2;3;", "<99999999999999999999;1;1"} {
		for _, id := range []int{0xEF80 + 'M', 0xEF80 + 'm', 0xEF80 + 'A', 'M'} {
			s.mouse(id, []byte(a))
		}
	}
	s.names()
	for _, id := range []int{0xEF7F, 0xEFFF} {
		e := E{"ev": "desc", "id": id}
		s.vector(e, func() {
			str := ansi.Escape(id).String()
			e["name"], e["nameb"] = ascii(str), ints([]byte(str))
		})
	}
	for m := 0; m < 64; m++ {
		s.modeVector(m, m%2 == 0)
	}
	for _, a := range []string{"", ";", "0", "00", "-", "+", "-1", "+1", ";-12", ";+7x", "7;", ";;", "12a", "99999999", "123456789", "4294967295", "4294967296", "18446744073709551616", "-99999999999999999999999"} {
		s.number([]byte(a))
	}
	if env.Gen != "" {
		s.n = 0
		if err := readGen(env, s.replay); err != nil {
			return err
		}
	}
	s.n = 0
	for i := 0; i < env.N; i++ {
		s.r = rand.New(rand.NewSource(env.Seed*1000003 + int64(i)))
		r = s.r
		switch i % 4 {
		case 0, 1:
			s.seqEpisode()
		case 2:
			s.modeEpisode()
		default:
			s.n = 0
			for k := 0; k < 8; k++ {
				switch r.Intn(5) {
				case 0:
					s.modeVector(r.Intn(10000), r.Intn(2) == 0)
				case 1:
					s.number([]byte(fmt.Sprintf("%s%d%s", []string{"", ";", "-", "+", ";-"}[r.Intn(5)], r.Intn(1<<uint(r.Intn(28))), []string{"", ";", ";3", "x", " "}[r.Intn(5)])))
				case 2:
					s.point(1+r.Intn(3000), 1+r.Intn(300), []string{"", ";", ";9"}[r.Intn(3)])
				case 3:
					s.esc(0xEFC0+r.Intn(0x3F), append(s.randBytes(8, 0x30, 0x3F), s.randBytes(2, 0x20, 0x2F)...))
				default:
					s.mouse(0xEF80+[]int{'M', 'm'}[r.Intn(2)], []byte(fmt.Sprintf("<%d;%d;%d", r.Intn(256), r.Intn(1000), r.Intn(1000))))
				}
			}
		}
	}
	return nil
}
