package main

import (
	"encoding/json"
	"fmt"
	"image"
	"math/rand"
	"strings"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
)

func init() { drivers["logview"] = logviewDriver }

type viewSim struct {
	tr   *Trace
	r    *rand.Rand
	sink *platform.LogSink
	lv   *platform.LogView
	out  anansi.TermScreen
	w, h int
	ends []int // sizes of the lines yet to be read, if all are terminated
	cut  bool
	dead bool
}

func (s *viewSim) start(lines int, ex bool, top int) {
	s.sink = new(platform.LogSink)
	s.lv = platform.NewLogView(s.sink)
	s.lv.LogViewState = platform.LogViewState{ViewLines: lines, Expanded: ex, Line: top}
	s.out = anansi.TermScreen{}
	s.ends, s.cut, s.dead = nil, false, false
	s.tr.Episode(E{"vl": lines, "ex": ex, "top": top})
}

func (s *viewSim) size(w, h int) {
	s.w, s.h = w, h
	s.out.Resize(image.Pt(w, h))
}

func (s *viewSim) log(t string) {
	_, err := s.sink.Write([]byte(t))
	works("writing to the log", err)
	cps := []int{}
	for _, r := range t {
		cps = append(cps, int(r))
		n := len(string(r))
		if s.cut {
			s.ends[len(s.ends)-1] += n
		} else {
			s.ends = append(s.ends, n)
		}
		s.cut = r != '\n'
	}
	s.tr.Emit(E{"ev": "log", "t": cps})
}

// read some whole lines from the log.
func (s *viewSim) read(n int) {
	if s.cut {
		s.log("\n")
	}
	if n > len(s.ends) {
		n = len(s.ends)
	}
	size := 0
	for _, m := range s.ends[:n] {
		size += m
	}
	p := make([]byte, size)
	for got := 0; got < size; {
		m, err := s.sink.Read(p[got:])
		works("reading the log", err)
		got += m
	}
	s.ends = s.ends[n:]
	s.tr.Emit(E{"ev": "read", "n": n})
}

func (s *viewSim) rows() [][]int {
	rows := [][]int{}
	for y := 0; y < s.h; y++ {
		row := []int{}
		for x := 0; x < s.w; x++ {
			row = append(row, int(s.out.Grid.Rune[y*s.w+x]))
		}
		rows = append(rows, row)
	}
	return rows
}

// update with some input.
func (s *viewSim) update(in string) {
	if s.dead {
		return
	}
	e := E{"ev": "upd", "w": s.w, "h": s.h}
	s.dead = !s.tr.Do(e, func() {
		var es platform.Events
		es.DecodeBytes([]byte(in))
		q := [][]int{}
		for i, k := range es.Type {
			m := es.Mouse(i)
			q = append(q, []int{int(k), int(es.Escape(i).ID), int(m.State), m.X, m.Y})
		}
		e["q"] = q
		s.out.Reset()
		for i := range s.out.Grid.Rune {
			s.out.Grid.Rune[i] = rune("xyz\x00 "[s.r.Intn(5)])
		}
		if s.w > 0 && s.h > 0 && s.r.Intn(2) == 0 { // somebody drew before
			s.out.To(ansi.Pt(1+s.r.Intn(s.w), 1+s.r.Intn(s.h)))
		}
		e["was"] = s.rows()
		ctx := platform.Context{Platform: &platform.Platform{}, Input: &es, Output: &s.out}
		if err := s.lv.Update(&ctx); err != nil {
			panic(err)
		}
		e["now"], e["ex"] = s.rows(), s.lv.Expanded
		kinds := []int{}
		for _, k := range es.Type {
			kinds = append(kinds, int(k))
		}
		e["kinds"] = kinds
	})
	s.tr.Emit(e)
}

func (s *viewSim) line() string {
	r := s.r
	n := r.Intn(2 * (s.w + 2))
	if r.Intn(4) == 0 {
		n = s.w + r.Intn(3) - 1
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune([]rune("abcdefgh ijklé☃→")[r.Intn(16)])
	}
	return sb.String()
}

// find the row of the header, or of the only line.
func (s *viewSim) find() int {
	for y := 0; y < s.h; y++ {
		n := s.w
		if n > 6 {
			n = 6
		}
		if n > 1 && strings.HasPrefix("Logs (", string(s.out.Grid.Rune[y*s.w:y*s.w+n-1])) {
			return y + 1
		}
	}
	return s.h
}

func (s *viewSim) input() string {
	r := s.r
	in := ""
	at := func(y int) {
		x := 1 + r.Intn(s.w+1)
		switch r.Intn(10) {
		case 0:
			y = 1 + r.Intn(s.h+1)
		case 1:
			y++
		}
		in += fmt.Sprintf("%d;%d", x, y)
	}
	for n := r.Intn(3); n >= 0 && s.w > 0 && s.h > 0; n-- {
		switch k := r.Intn(10); {
		case k < 3:
			in += "\x1b[<0;"
			at(s.find())
			in += "M"
			if r.Intn(2) == 0 {
				in += "\x1b[<0;1;1m"
			}
		case k < 7:
			for m, b := r.Intn(4), r.Intn(2); m >= 0; m-- {
				in += fmt.Sprintf("\x1b[<%d;", 64+b)
				at(s.find() + r.Intn(s.h-s.find()+1))
				in += "M"
			}
		case k < 8:
			in += []string{"a", "\x1b[A", "\x1b[<35;1;1M", "\x1b[<2;1;1M", "\x1b[<32;2;1M"}[r.Intn(5)]
		}
	}
	return in
}

func logviewDriver(env *Env, tr *Trace) error {
	s := &viewSim{tr: tr, r: rand.New(rand.NewSource(env.Seed))}
	r := s.r
	if env.Gen != "" {
		if err := readGen(env, func(raw json.RawMessage) error {
			var ops [][2]interface{}
			if err := json.Unmarshal(raw, &ops); err != nil {
				return err
			}
			num := func(v interface{}) int { return int(v.(float64)) }
			for i, op := range ops {
				if i == 0 {
					s.start(2, num(op[1]) == 1, 0)
					s.size(3+r.Intn(20), num(op[0]))
					s.update("")
					continue
				}
				in := ""
				switch arg := num(op[1]); op[0] {
				case "l":
					s.log(s.line() + "\n")
				case "r":
					s.size(s.w, arg)
				case "t":
					in = fmt.Sprintf("\x1b[<0;%d;%dM", 1+r.Intn(s.w), s.find())
				case "c":
					s.read(arg)
				case "s":
					b := 65
					if arg < 0 {
						b, arg = 64, -arg
					}
					for ; arg > 0; arg-- {
						in += fmt.Sprintf("\x1b[<%d;%d;%dM", b, 1+r.Intn(s.w), s.h)
					}
				}
				s.update(in)
			}
			return nil
		}); err != nil {
			return err
		}
	}
	size := func() {
		s.size(1+r.Intn(20), 1+r.Intn(9))
		if r.Intn(12) == 0 {
			s.size(r.Intn(2), r.Intn(3))
		}
		if r.Intn(12) == 0 {
			s.size(1+r.Intn(40), 10+r.Intn(5))
		}
	}
	for i := 0; i < env.N; i++ {
		lines, top := r.Intn(6), 0
		if r.Intn(4) == 0 {
			lines = 10 + r.Intn(3)
		}
		if r.Intn(3) == 0 { // restored
			top = r.Intn(8)
		}
		s.start(lines, r.Intn(2) == 0, top)
		size()
		if r.Intn(8) == 0 {
			for k := 0; k < 8+r.Intn(8); k++ {
				s.log(s.line() + "\n")
			}
		}
		for k := 5 + r.Intn(20); k > 0 && !s.dead; k-- {
			switch r.Intn(7) {
			case 0:
				size()
			case 1, 2:
				for n := 1 + r.Intn(4); n > 0; n-- {
					s.log(s.line() + "\n")
				}
			case 3:
				if r.Intn(3) == 0 {
					s.log(s.line())
				} else if r.Intn(3) == 0 {
					s.read(r.Intn(4))
				}
			}
			s.update(s.input())
		}
	}
	return nil
}
