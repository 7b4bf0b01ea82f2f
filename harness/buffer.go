package main

import (
	"encoding/json"
	"math/rand"
	"syscall"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() { drivers["buffer"] = bufferDriver }

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return r
}

func outOf(e ansi.Escape, a []byte) []int { return append([]int{int(e)}, ints(a)...) }

type outsProc struct{ outs [][]int }

func (op *outsProc) ProcessANSI(e ansi.Escape, a []byte) { op.outs = append(op.outs, outOf(e, a)) }

type bufSim struct {
	tr *Trace
	r  *rand.Rand
	b  *anansi.Buffer
}

func (bs *bufSim) do(e E, f func()) bool {
	ok := bs.tr.Do(e, f)
	e["buf"] = ints(bs.b.Bytes())
	bs.tr.Emit(e)
	return ok
}

func (bs *bufSim) start() {
	bs.b = &anansi.Buffer{}
	bs.tr.Episode(E{})
}

func (bs *bufSim) process() bool {
	op := &outsProc{outs: [][]int{}}
	e := E{"ev": "process"}
	return bs.do(e, func() { bs.b.Process(op); e["outs"] = op.outs })
}

func (bs *bufSim) write(c []byte) bool {
	e := E{"ev": "write", "b": ints(c), "n": 0}
	return bs.do(e, func() {
		n := 0
		switch k := bs.r.Intn(3); {
		case k == 0:
			n, _ = bs.b.WriteString(string(c))
		case k == 1 && len(c) == 1:
			bs.b.WriteByte(c[0])
			n = 1
		default:
			n, _ = bs.b.Write(c)
		}
		e["n"] = n
	})
}

// writeSeqs writes sequences; what was appended is taken as what was written.
func (bs *bufSim) writeSeqs() bool {
	e := E{"ev": "write"}
	r := bs.r
	return bs.do(e, func() {
		old := bs.b.Len()
		n := 0
		switch r.Intn(4) {
		case 0:
			n = bs.b.WriteESC(ansi.DECSC, ansi.CSI('H'), ansi.Escape(0x84))
		case 1:
			n = bs.b.WriteSeq(ansi.CUP.WithInts(r.Intn(300), r.Intn(300)), ansi.Seq{}, ansi.SGR.WithInts(1), ansi.SM.With('?').WithInts(25, 1000, 7, 1049))
		case 2:
			n = bs.b.WriteSGR(0, ansi.SGRAttrBold|ansi.SGRRed.FG(), ansi.SGRAttrClear|ansi.RGB(1, 22, 255).BG())
		case 3:
			n, _ = bs.b.WriteRune(rune([]int{'x', 0xe9, 0x2603, 0x1f600}[r.Intn(4)]))
		}
		e["n"] = n
		e["b"] = ints(bs.b.Bytes()[old:])
	})
}

func (bs *bufSim) skip() bool {
	// write something and have it skipped
	op := []byte("\x1b[7;7H")
	if !bs.process() || !bs.write(op) {
		return false
	}
	return bs.do(E{"ev": "skip", "n": len(op)}, func() { bs.b.Skip(len(op)) })
}

func (bs *bufSim) writeTo(budget int) bool {
	fw := &faultWriter{budget: budget, err: syscall.EAGAIN}
	e := E{"ev": "writeto", "n": 0, "err": "", "got": []int{}}
	return bs.do(e, func() {
		n, err := bs.b.WriteTo(fw)
		e["n"], e["got"] = n, ints(fw.got)
		if err != nil {
			e["err"] = err.Error()
		}
	})
}

func (bs *bufSim) episode() {
	r := bs.r
	g := &items{r: r}
	bs.start()
	for _, c := range g.chunks(4+r.Intn(30), 1+r.Intn(9), r.Intn(4) == 0) {
		if !bs.write(c) {
			return
		}
		if r.Intn(3) > 0 && !bs.process() {
			return
		}
		ok := true
		switch r.Intn(30) {
		case 0, 1:
			ok = bs.process() && bs.writeTo(-1)
		case 2, 3:
			ok = bs.process() && bs.writeTo(r.Intn(1+bs.b.Len()))
		case 4, 5, 6:
			ok = bs.do(E{"ev": "discard"}, func() { bs.b.Discard() })
		}
		if !ok {
			return
		}
	}
	bs.process()
	bs.writeTo(-1)
}

// seqEpisode mixes writes of complete sequences with skipping and resets.
func (bs *bufSim) seqEpisode() {
	r := bs.r
	g := &items{r: r, noDangle: true}
	bs.start()
	for i := 0; i < 25; i++ {
		ok := true
		switch r.Intn(12) {
		case 0, 1, 2:
			ok = bs.writeSeqs()
		case 3, 4:
			ok = bs.write([]byte(g.item()))
		case 5:
			ok = bs.skip()
		case 6:
			ok = bs.do(E{"ev": "discard"}, func() { bs.b.Discard() })
		case 7:
			if r.Intn(3) == 0 {
				ok = bs.do(E{"ev": "clear"}, func() { bs.b.Reset() })
			}
		case 8:
			ok = bs.process() && bs.writeTo(r.Intn(1+bs.b.Len()))
		case 9:
			ok = bs.process() && bs.writeTo(-1)
		default:
			ok = bs.process()
		}
		if !ok {
			return
		}
	}
	bs.process()
	bs.writeTo(-1)
}

func bufferDriver(env *Env, tr *Trace) error {
	bs := &bufSim{tr: tr, r: rand.New(rand.NewSource(env.Seed))}
	if env.Gen != "" {
		if err := readGen(env, func(raw json.RawMessage) error {
			var chunks [][]int
			if err := json.Unmarshal(raw, &chunks); err != nil {
				return err
			}
			bs.start()
			for _, c := range chunks {
				b := make([]byte, len(c))
				for i := range c {
					b[i] = byte(c[i])
				}
				if !bs.write(b) || !bs.process() {
					return nil
				}
				if bs.r.Intn(4) == 0 && !bs.do(E{"ev": "discard"}, func() { bs.b.Discard() }) {
					return nil
				}
			}
			bs.writeTo(-1)
			return nil
		}); err != nil {
			return err
		}
	}
	for i := 0; i < env.N; i++ {
		bs.r = rand.New(rand.NewSource(env.Seed*1000003 + int64(i)))
		if bs.r.Intn(3) == 0 {
			bs.seqEpisode()
		} else {
			bs.episode()
		}
	}
	return nil
}
