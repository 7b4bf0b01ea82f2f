package main

import (
	"encoding/json"
	"math/rand"

	"github.com/jcorbin/anansi/ansi"
)

func init() { drivers["colors"] = colorsDriver }

type colorsSim struct {
	tr     *Trace
	r      *rand.Rand
	models []ansi.ColorModel
}

func (s *colorsSim) start() {
	s.models = nil
	p := []int{}
	for _, c := range ansi.Palette8Colors {
		p = append(p, unColor(c))
	}
	s.tr.Episode(E{"p8": p})
}

func (s *colorsSim) ev(e E, f func()) bool {
	ok := s.tr.Do(e, f)
	s.tr.Emit(e)
	return ok
}

func mkColors(cs []int) (out []ansi.SGRColor) {
	for _, c := range cs {
		out = append(out, mkColor(c))
	}
	return out
}

// def defines a model: id, 24, canon, palette, theme, map; t is its table.
func (s *colorsSim) def(kind string, t []int) bool {
	return s.ev(E{"ev": "def", "kind": kind, "t": nonNil(t)}, func() {
		var m ansi.ColorModel
		switch kind {
		case "id":
			m = ansi.ColorModelID
		case "24":
			m = ansi.ColorModel24
		case "canon":
			m = ansi.SGRColorCanon
		case "palette":
			m = ansi.Palette(mkColors(t))
		case "theme":
			m = ansi.ColorTheme(mkColors(t))
		case "map":
			cm := ansi.SGRColorMap{}
			for i := 0; i+1 < len(t); i += 2 {
				cm[mkColor(t[i])] = mkColor(t[i+1])
			}
			m = cm
		}
		s.models = append(s.models, m)
	})
}

// compose combines models; 0 stands for none.
func (s *colorsSim) compose(is []int) bool {
	return s.ev(E{"ev": "compose", "is": is}, func() {
		var ms []ansi.ColorModel
		for _, i := range is {
			if i == 0 {
				ms = append(ms, nil)
			} else {
				ms = append(ms, s.models[i-1])
			}
		}
		s.models = append(s.models, ansi.ColorModels(ms...))
	})
}

func (s *colorsSim) convert(i, c int) bool {
	e := E{"ev": "convert", "i": i, "c": c}
	return s.ev(e, func() { e["out"] = unColor(s.models[i-1].Convert(mkColor(c))) })
}

func (s *colorsSim) index(t []int, c int) bool {
	e := E{"ev": "index", "t": t, "c": c}
	return s.ev(e, func() { e["out"] = ansi.Palette(mkColors(t)).Index(mkColor(c)) })
}

func (s *colorsSim) near(c int) int {
	r := s.r
	if c < rgbBase {
		return c
	}
	k := uint(8 * r.Intn(3))
	v := (c >> k) & 255
	n := v + r.Intn(5) - 2
	if n < 0 || n > 255 {
		return c
	}
	return c + (n-v)<<k
}

func (s *colorsSim) table(max int) (t []int) {
	for k := 1 + s.r.Intn(max); k > 0; k-- {
		if len(t) > 0 && s.r.Intn(2) == 0 {
			t = append(t, s.near(t[s.r.Intn(len(t))]))
		} else {
			t = append(t, randColor(s.r))
		}
	}
	return t
}

func (s *colorsSim) episode() {
	r := s.r
	s.start()
	kinds := []string{"id", "24", "canon", "palette", "theme", "map"}
	var simple []int
	var seen []int
	for k := 3 + r.Intn(3); k > 0; k-- {
		kind := kinds[r.Intn(6)]
		var t []int
		switch kind {
		case "palette", "map":
			t = s.table(8)
			if len(t)%2 == 1 && kind == "map" {
				t = append(t, randColor(r))
			}
		case "theme":
			for i := r.Intn(17); i > 0; i-- {
				t = append(t, rgbBase+r.Intn(1<<24))
			}
		}
		seen = append(seen, t...)
		if !s.def(kind, t) {
			return
		}
		simple = append(simple, len(s.models))
	}
	for k := 2 + r.Intn(5); k > 0; k-- {
		var is []int
		for j := 1 + r.Intn(3); j > 0; j-- {
			is = append(is, 1+r.Intn(len(s.models)))
		}
		if r.Intn(3) == 0 {
			is = append(is, 0)
			r.Shuffle(len(is), func(i, j int) { is[i], is[j] = is[j], is[i] })
		}
		if !s.compose(is) {
			return
		}
	}
	for k := 0; k < 12; k++ {
		c := randColor(r)
		if len(seen) > 0 && r.Intn(2) == 0 {
			c = s.near(seen[r.Intn(len(seen))])
		}
		if !s.convert(1+r.Intn(len(s.models)), c) {
			return
		}
	}
	t := s.table(12)
	s.index(t, s.near(t[r.Intn(len(t))]))
}

func (s *colorsSim) replay(raw json.RawMessage) error {
	var ops []struct {
		Op string
		Is []int
	}
	if err := json.Unmarshal(raw, &ops); err != nil {
		return err
	}
	s.start()
	// three maps, of which no two commute
	tables := [][]int{{1, 2, 2, 3}, {2, 4, 3, 1}, {4, 1, 1, 2, 3, 5}}
	for _, t := range tables {
		s.def("map", t)
	}
	for _, op := range ops {
		if !s.compose(op.Is) {
			return nil
		}
	}
	for i := range s.models {
		for c := 1; c < 5; c++ {
			if !s.convert(i+1, c) {
				return nil
			}
		}
	}
	return nil
}

func colorsDriver(env *Env, tr *Trace) error {
	s := &colorsSim{tr: tr, r: rand.New(rand.NewSource(env.Seed))}
	if env.Gen != "" {
		if err := readGen(env, s.replay); err != nil {
			return err
		}
	}
	for i := 0; i < env.N; i++ {
		s.r = rand.New(rand.NewSource(env.Seed*1000003 + int64(i)))
		s.episode()
	}
	return nil
}
