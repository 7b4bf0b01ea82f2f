package main

import (
	"encoding/json"
	"fmt"
	"image"
	"io"
	"log"
	"math/rand"
	"strings"
	"unicode"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
)

func init() { drivers["editline"] = editlineDriver }

type editSim struct {
	tr   *Trace
	r    *rand.Rand
	edl  platform.EditLine
	out  anansi.TermScreen
	size image.Point
	box  []int
	dead bool
}

func (s *editSim) start(size image.Point, box []int) {
	s.edl = platform.EditLine{}
	s.out = anansi.TermScreen{}
	s.out.Resize(size)
	s.size, s.box, s.dead = size, box, false
	s.tr.Episode(E{})
}

// update runs a frame with input in over a background of x.
func (s *editSim) update(in string) {
	if s.dead {
		return
	}
	e := E{"ev": "upd", "in": in, "box": s.box}
	s.dead = !s.tr.Do(e, func() {
		var es platform.Events
		es.DecodeBytes([]byte(in))
		evs := []E{}
		for i, k := range es.Type {
			x := es.Escape(i)
			evs = append(evs, E{"k": int(k), "id": int(x.ID), "arg": ints(x.Arg), "g": k == platform.EventRune && unicode.IsGraphic(rune(x.ID))})
		}
		e["evs"] = evs
		s.out.Reset()
		for i := range s.out.Grid.Rune {
			s.out.Grid.Rune[i] = 'x'
		}
		if s.r.Intn(2) == 0 { // somebody drew before
			s.out.To(ansi.Pt(1+s.r.Intn(s.size.X), 1+s.r.Intn(s.size.Y)))
		}
		ctx := platform.Context{Platform: &platform.Platform{}, Input: &es, Output: &s.out}
		s.edl.Box = mkRect(s.box)
		s.edl.Update(&ctx)
		kinds := []int{}
		for _, k := range es.Type {
			kinds = append(kinds, int(k))
		}
		e["kinds"] = kinds
		text := []int{}
		for _, r := range string(s.edl.Buf) {
			text = append(text, int(r))
		}
		e["text"], e["cur"] = text, s.edl.Cur
		e["active"], e["done"], e["canceled"] = s.edl.Active(), s.edl.Done(), s.edl.Canceled()
		rows := [][]int{}
		for y := 0; y < s.size.Y; y++ {
			row := []int{}
			for x := 0; x < s.size.X; x++ {
				row = append(row, int(s.out.Grid.Rune[y*s.size.X+x]))
			}
			rows = append(rows, row)
		}
		e["rows"], e["vis"] = rows, s.out.UserCursor.Visible
		e["uc"] = []int{s.out.UserCursor.X, s.out.UserCursor.Y}
	})
	s.tr.Emit(e)
}

func (s *editSim) again() {
	if s.dead {
		return
	}
	e := E{"ev": "again"}
	s.dead = !s.tr.Do(e, func() { s.edl.Reset() })
	s.tr.Emit(e)
}

var editKeys = map[int]string{1: "a", 2: "☃", 10: "\x7f", 11: "\x1b[D", 12: "\x1b[C", 13: "\x1b[9D", 14: "\x1b[9C", 15: "\r", 16: "\x1b"}

func (s *editSim) randBox() {
	r := s.r
	x, y := 1+r.Intn(s.size.X), 1+r.Intn(s.size.Y)
	w := 1 + r.Intn(s.size.X-x+1)
	s.box = []int{x, y, x + w, y + 1}
}

func (s *editSim) key() string {
	r := s.r
	switch r.Intn(12) {
	case 0:
		return "\x7f"
	case 1:
		return []string{"\x1b[D", "\x1b[C", "\x1b[A", "\x1b[B"}[r.Intn(4)]
	case 2:
		return fmt.Sprintf("\x1b[%d%c", 1+r.Intn(6), "CD"[r.Intn(2)])
	case 3:
		return []string{"\x1b[99D", "\x1b[99C", "\x1b[1;5D", "\x1bOA", "\x1b[<0;1;1M", "\x01", "\t", "\n", "\x1b[H", "\u200b"}[r.Intn(10)]
	case 4:
		if r.Intn(8) == 0 {
			return "\r"
		}
		if r.Intn(8) == 0 {
			return "\x1b\x18\x1b" // a cancelled sequence, then ESC
		}
	}
	return string([]rune("abcdefgh   éλ☃😀\u00a0ß")[r.Intn(17)])
}

func editlineDriver(env *Env, tr *Trace) error {
	log.SetOutput(io.Discard)
	s := &editSim{tr: tr, r: rand.New(rand.NewSource(env.Seed))}
	if env.Gen != "" {
		i := 0
		if err := readGen(env, func(raw json.RawMessage) error {
			var keys []int
			if err := json.Unmarshal(raw, &keys); err != nil {
				return err
			}
			i++
			w := 1 + i%4
			s.start(image.Pt(5, 2), []int{2, 1 + i%2, 2 + w, 2 + i%2})
			if i%3 == 0 { // all in one frame
				in := ""
				for _, k := range keys {
					in += editKeys[k]
				}
				s.update(in)
				return nil
			}
			for _, k := range keys {
				s.update(editKeys[k])
			}
			return nil
		}); err != nil {
			return err
		}
	}
	for i := 0; i < env.N; i++ {
		r := s.r
		s.start(image.Pt(1+r.Intn(9), 1+r.Intn(3)), nil)
		s.randBox()
		for n := 2 + r.Intn(12); n > 0; n-- {
			var sb strings.Builder
			for k := r.Intn(7); k >= 0; k-- {
				sb.WriteString(s.key())
			}
			s.update(sb.String())
			if r.Intn(6) == 0 {
				s.randBox()
			}
			if r.Intn(12) == 0 || !s.dead && !s.edl.Active() && r.Intn(2) == 0 {
				s.again()
			}
		}
	}
	return nil
}
