package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"strings"
	"syscall"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
)

func init() { drivers["events"] = eventsDriver }

type evSim struct {
	tr   *Trace
	r    *rand.Rand
	es   platform.Events
	in   *anansi.Input
	wfd  int
	dead bool
}

func (s *evSim) snap() []E {
	q := []E{}
	for i, k := range s.es.Type {
		esc := s.es.Escape(i)
		m := s.es.Mouse(i)
		q = append(q, E{"k": int(k), "id": int(esc.ID), "r": int(s.es.Rune(i)), "arg": ints(esc.Arg),
			"m": []int{int(m.State), m.X, m.Y}})
	}
	return q
}

func (s *evSim) ev(e E, f func()) {
	if s.dead {
		return
	}
	s.dead = !s.tr.Do(e, func() {
		f()
		e["q"] = s.snap()
	})
	s.tr.Emit(e)
}

func (s *evSim) start() {
	s.dead = false
	s.es = platform.Events{}
	s.tr.Episode(E{})
}

func (s *evSim) query(op string, rs, box []int, btn int, consume bool) {
	e := E{"ev": op}
	s.ev(e, func() {
		switch op {
		case "empty":
			e["res"] = s.es.Empty()
		case "term":
			e["r"] = rs[0]
			e["res"] = s.es.HasTerminal(rune(rs[0]))
		case "count":
			e["rs"] = rs
			var q []rune
			for _, r := range rs {
				q = append(q, rune(r))
			}
			e["res"] = s.es.CountRune(q...)
		case "press":
			e["box"], e["btn"] = box, btn
			e["res"] = s.es.CountPressesIn(mkRect(box), uint8(btn))
		case "outside":
			e["box"] = box
			e["res"] = s.es.AnyPressesOutside(mkRect(box))
		case "scroll":
			e["box"] = box
			e["res"] = s.es.TotalScrollIn(mkRect(box))
		case "moves":
			e["res"] = imgT(s.es.TotalCursorMovement())
		case "last":
			e["consume"] = consume
			m, have := s.es.LastMouse(consume)
			res := []int{}
			if have {
				res = []int{int(m.State), m.X, m.Y}
			}
			e["res"] = res
		default:
			panic("driver: no op " + op)
		}
	})
}

func (s *evSim) bytes(b []byte) {
	e := E{"ev": "bytes", "b": ints(b)}
	s.ev(e, func() {
		p := append([]byte(nil), b...)
		s.es.DecodeBytes(p)
		for i := range p { // the caller may reuse its buffer
			p[i] = '!'
		}
	})
}

func (s *evSim) open() error {
	var p [2]int
	if err := syscall.Pipe2(p[:], syscall.O_CLOEXEC); err != nil {
		return err
	}
	s.in = &anansi.Input{File: os.NewFile(uintptr(p[0]), "in")}
	s.wfd = p[1]
	return nil
}

func (s *evSim) input(b []byte) {
	e := E{"ev": "input", "b": ints(b)}
	s.ev(e, func() {
		if n, err := syscall.Write(s.wfd, b); n != len(b) || err != nil {
			fmt.Fprintln(os.Stderr, "pipe write:", n, err)
			os.Exit(2)
		}
		if n, err := s.in.ReadAny(); n != len(b) || err != nil {
			panic(fmt.Sprint("ReadAny: ", n, err))
		}
		s.es.DecodeInput(s.in)
	})
}

// item is an input of one event, mostly.
func evItem(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0, 1:
		return string([]rune("abq\r\x0c\x12\x7fλ☃")[r.Intn(9)])
	case 2:
		return []string{"\x1b", "\x1bOA", "\x1b[15~", "\x1b[1;2P", "\x1b[Z", "\x1b]0;x\x1b\\", "\x1b\x1b[A", "\x1b[M", "\x1b[m", "\x1b[H"}[r.Intn(10)]
	case 3, 4:
		c := "ABCDE"[r.Intn(5)]
		switch r.Intn(4) {
		case 0:
			return fmt.Sprintf("\x1b[%d%c", 1+r.Intn(30), c)
		case 1:
			return fmt.Sprintf("\x1b[1;5%c", c)
		}
		return fmt.Sprintf("\x1b[%c", c)
	case 5:
		return []string{"\x1b[<0;1M", "\x1b[<300;1;1M", "\x1b[<0;1;1;1M", "\x1b[<a;1;1M", "\x1b[<0;0;0M", "\x1b[0;1;1M", "\x1b[<0;x;1m", "\x1b[<3;0;0m"}[r.Intn(8)]
	}
	st := []int{0, 1, 2, 3, 64, 65, 66, 32, 33, 35, 4, 16, 68, 81}[r.Intn(14)]
	f := byte('M')
	if st < 64 && r.Intn(3) == 0 {
		f = 'm'
	}
	return fmt.Sprintf("\x1b[<%d;%d;%d%c", st, 1+r.Intn(6), 1+r.Intn(4), f)
}

func (s *evSim) episode() {
	r := s.r
	s.start()
	if r.Intn(5) == 0 {
		if err := s.open(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer func() {
			syscall.Close(s.wfd)
			s.in.File.Close()
			s.in = nil
		}()
	}
	var pending []byte
	for i, n := 0, 2+r.Intn(14); i < n; i++ {
		switch {
		case r.Intn(12) == 0:
			s.ev(E{"ev": "clear"}, func() { s.es.Clear() })
		case i == 0 || r.Intn(4) == 0:
			var sb strings.Builder
			for k := r.Intn(7); k >= 0; k-- {
				sb.WriteString(evItem(r))
			}
			b := []byte(sb.String())
			if s.in == nil {
				s.bytes(b)
				break
			}
			pending = append(pending, b...)
			k := r.Intn(len(pending) + 1)
			s.input(pending[:k:k])
			pending = pending[k:]
		default:
			op := []string{"empty", "term", "count", "press", "outside", "scroll", "moves", "last"}[r.Intn(8)]
			rs := []int{}
			for k := r.Intn(4); k >= 0; k-- {
				rs = append(rs, int([]rune("abq\r\x0c\x12\x7fλ☃\x1b")[r.Intn(10)]))
			}
			x, y := 1+r.Intn(5), 1+r.Intn(3)
			s.query(op, rs, []int{x, y, x + r.Intn(5), y + r.Intn(4)}, r.Intn(6), r.Intn(2) == 0)
		}
	}
}

func eventsDriver(env *Env, tr *Trace) error {
	log.SetOutput(io.Discard)
	s := &evSim{tr: tr, r: rand.New(rand.NewSource(env.Seed))}
	if env.Gen != "" {
		if err := readGen(env, func(raw json.RawMessage) error {
			var h struct {
				Log []struct {
					Op      string
					O       []int
					R       int
					Rs, Box []int
					Btn     int
					Consume bool
				}
			}
			if err := json.Unmarshal(raw, &h); err != nil {
				return err
			}
			s.start()
			for _, v := range h.Log {
				if v.Op == "add" {
					a := make([]byte, len(v.O)-1)
					for i := range a {
						a[i] = byte(v.O[1+i])
					}
					s.bytes(ansi.Escape(v.O[0]).AppendWith(nil, a...))
					continue
				}
				rs := v.Rs
				if v.Op == "term" {
					rs = []int{v.R}
				}
				s.query(v.Op, rs, v.Box, v.Btn, v.Consume)
			}
			return nil
		}); err != nil {
			return err
		}
	}
	for i := 0; i < env.N; i++ {
		s.episode()
	}
	return nil
}
