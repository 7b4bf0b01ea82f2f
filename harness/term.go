package main

import (
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/jcorbin/anansi"
)

func init() { drivers["term"] = termDriver }

type idErr int

func (e idErr) Error() string { return fmt.Sprintf("error %d", int(e)) }

func errID(err error) int {
	if err == nil {
		return 0
	}
	if id, ok := err.(idErr); ok {
		return int(id)
	}
	return -1
}

// termDecider plays the user and the contexts of a terminal.
type termDecider interface {
	ctx() bool                                       // shall this context call fail?
	next(e, p int, first bool) (op string, fail int) // in a function: "with", "without", or return with 0 e, 1 fresh error, 2 fresh panic
}

type termSim struct {
	tr     *Trace
	term   *anansi.Term
	dec    termDecider
	id     int
	n      int
	off    bool // a call did not return as it was told to; let everything unwind
	broken bool
}

func (s *termSim) ev(e E) {
	e["ev"] = "life"
	e["bad"] = ""
	s.tr.Emit(e)
}

func (s *termSim) call(op string, i int) error {
	id := 0
	if s.dec.ctx() {
		s.id++
		id = s.id
	}
	s.ev(E{"k": "ctx", "op": op, "i": i, "e": id})
	if id != 0 {
		return idErr(id)
	}
	return nil
}

type plainCtx struct {
	s *termSim
	i int
}

func (c *plainCtx) Enter(term *anansi.Term) error { return c.s.call("enter", c.i) }
func (c *plainCtx) Exit(term *anansi.Term) error  { return c.s.call("exit", c.i) }

type closeCtx struct{ plainCtx }

func (c *closeCtx) Close() error { return c.s.call("close", c.i) }

func (s *termSim) mk(cl bool) anansi.Context {
	s.n++
	if cl {
		return &closeCtx{plainCtx{s, s.n}}
	}
	return &plainCtx{s, s.n}
}

// run calls op, and reports how it ended.
func (s *termSim) run(op string) (e, p int) {
	s.ev(E{"k": "call", "op": op})
	func() {
		defer func() {
			if r := recover(); r != nil {
				id, ok := r.(idErr)
				if !ok {
					panic(r)
				}
				p = int(id)
			}
		}()
		if op == "with" {
			e = errID(s.term.RunWith(s.body))
		} else {
			e = errID(s.term.RunWithout(s.body))
		}
	}()
	if p != 0 {
		e = 0
	}
	s.ev(E{"k": "done", "e": e, "p": p})
	return e, p
}

func (s *termSim) body(term *anansi.Term) error {
	s.ev(E{"k": "body"})
	e, p := 0, 0
	for first := true; ; first = false {
		op, fail := "", 0
		if p == 0 {
			op, fail = s.dec.next(e, p, first)
		}
		if op == "add" {
			s.add(1)
			continue
		}
		if op != "" {
			e, p = s.run(op)
			continue
		}
		if p == 0 && fail != 0 {
			s.id++
			if fail == 2 {
				p = s.id
			} else {
				e = s.id
			}
		}
		if p != 0 {
			s.ev(E{"k": "ret", "e": 0, "p": p})
			panic(idErr(p))
		}
		s.ev(E{"k": "ret", "e": e, "p": 0})
		if e != 0 {
			return idErr(e)
		}
		return nil
	}
}

func (s *termSim) add(n int) {
	cl := []bool{}
	var cs []anansi.Context
	was := s.n
	for i := 0; i < n; i++ {
		cl = append(cl, s.n%2 == 0)
		cs = append(cs, s.mk(s.n%2 == 0))
	}
	e := E{"ev": "add", "cl": cl, "bad": ""}
	func() {
		defer func() {
			if r := recover(); r != nil {
				e["bad"] = fmt.Sprint(r)
				s.n = was
			}
		}()
		s.term.AddContext(cs...)
	}()
	s.tr.Emit(e)
}

func (s *termSim) start(cl []bool) {
	s.tr.Episode(E{"n": len(cl), "cl": cl})
	var cs []anansi.Context
	for _, c := range cl {
		cs = append(cs, s.mk(c))
	}
	s.term = anansi.NewTerm(nil, nil, cs...)
}

// top makes one outermost call.
func (s *termSim) top(op string) {
	e := E{"ev": "life", "k": "crash"}
	if !s.tr.Do(e, func() { s.run(op) }) {
		s.tr.Emit(e)
	}
}

// logDecider replays the decisions of a TLC generated history.
type logDecider struct {
	log []logEv
	s   *termSim
	i   int
}

type logEv struct {
	K  string
	Op string
	I  int
	E  int
	P  int
}

// seek the next event of one of the kinds, and step over it.
func (d *logDecider) seek(kinds ...string) logEv {
	for d.i < len(d.log) {
		v := d.log[d.i]
		for _, k := range kinds {
			if v.K == k {
				d.i++
				return v
			}
		}
		if v.K == "ctx" || v.K == "call" || v.K == "ret" {
			break // not where the history is
		}
		d.i++
	}
	return logEv{}
}

func (d *logDecider) ctx() bool { return d.seek("ctx").E != 0 }

func (d *logDecider) next(e, p int, first bool) (string, int) {
	v := d.seek("call", "ret")
	switch {
	case v.K == "call":
		return v.Op, 0
	case v.P != 0:
		return "", 2
	case v.E != 0 && v.E != e:
		return "", 1
	}
	return "", 0
}

// randDecider decides at random; it only passes on an error that came out of
// a call which may have left the contexts half way.
type randDecider struct {
	r     *rand.Rand
	s     *termSim
	pf    int // one in pf context calls fail
	ncall int
	depth int
	cf    bool // some context call failed during the last call
}

func (d *randDecider) ctx() bool {
	if d.r.Intn(d.pf) == 0 {
		d.cf = true
		return true
	}
	return false
}

func (d *randDecider) next(e, p int, first bool) (string, int) {
	if first {
		d.cf = false
	}
	if d.cf && e != 0 {
		return "", 0
	}
	switch n := d.r.Intn(20); {
	case d.ncall > 0 && n < 6:
		d.ncall--
		return "with", 0
	case d.ncall > 0 && n < 12:
		d.ncall--
		return "without", 0
	case n == 12:
		return "", 1
	case n == 13:
		return "", 2
	case n == 14:
		return "add", 0
	}
	return "", 0
}

// compose exercises Contexts.
func (s *termSim) compose(r *rand.Rand) {
	s.tr.Episode(E{"n": 0, "cl": []bool{}})
	var calls []int
	var op string
	fails := map[int]bool{}
	hit := func(k string, i int) error {
		if k != op {
			i = -i
		}
		calls = append(calls, i)
		if fails[i] {
			return idErr(i)
		}
		return nil
	}
	var one [7]anansi.Context
	for i := 1; i <= 6; i++ {
		if i%2 == 0 {
			one[i] = &hitClose{hitCtx{hit, i}}
		} else {
			one[i] = &hitCtx{hit, i}
		}
	}
	var comps []anansi.Context
	for k, n := 0, 3+r.Intn(8); k < n; k++ {
		parts := [][]int{}
		var cs []anansi.Context
		for i, m := 0, r.Intn(5); i < m; i++ {
			switch j := r.Intn(8); {
			case j == 0:
				parts = append(parts, []int{})
				cs = append(cs, nil)
			case j < 5 && len(comps) > 0:
				c := r.Intn(len(comps))
				if r.Intn(2) == 0 {
					c = len(comps) - 1
				}
				parts = append(parts, []int{0, c + 1})
				cs = append(cs, comps[c])
			default:
				c := 1 + r.Intn(6)
				parts = append(parts, []int{c})
				cs = append(cs, one[c])
			}
		}
		e := E{"ev": "mk", "parts": parts}
		ok := s.tr.Do(e, func() {
			c := anansi.Contexts(cs...)
			comps = append(comps, c)
			e["nil"] = c == nil
		})
		s.tr.Emit(e)
		if !ok {
			return
		}
		for i := 0; i < 2; i++ {
			c := r.Intn(len(comps))
			op = []string{"enter", "exit", "close"}[r.Intn(3)]
			for f := range fails {
				delete(fails, f)
			}
			fl := []int{}
			for i := r.Intn(3); i > 0; i-- {
				if f := 1 + r.Intn(6); !fails[f] {
					fails[f] = true
					fl = append(fl, f)
				}
			}
			calls = []int{}
			e := E{"ev": "run", "c": c + 1, "op": op, "fails": fl}
			ok := s.tr.Do(e, func() {
				var err error
				if x := comps[c]; x != nil {
					switch op {
					case "enter":
						err = x.Enter(nil)
					case "exit":
						err = x.Exit(nil)
					case "close":
						if cl, ok := x.(interface{ Close() error }); ok {
							err = cl.Close()
						}
					}
				}
				e["err"] = errID(err)
				e["calls"] = calls
			})
			s.tr.Emit(e)
			if !ok {
				return
			}
		}
	}
}

type hitCtx struct {
	hit func(string, int) error
	i   int
}

func (c *hitCtx) Enter(term *anansi.Term) error { return c.hit("enter", c.i) }
func (c *hitCtx) Exit(term *anansi.Term) error  { return c.hit("exit", c.i) }

type hitClose struct{ hitCtx }

func (c *hitClose) Close() error { return c.hit("close", c.i) }

func termDriver(env *Env, tr *Trace) error {
	r := rand.New(rand.NewSource(env.Seed))
	if env.Gen != "" {
		if err := readGen(env, func(raw json.RawMessage) error {
			var h struct{ Log []logEv }
			if err := json.Unmarshal(raw, &h); err != nil {
				return err
			}
			s := &termSim{tr: tr}
			s.dec = &logDecider{log: h.Log[1:], s: s}
			s.start([]bool{false, true})
			s.top(h.Log[0].Op)
			return nil
		}); err != nil {
			return err
		}
	}
	for i := 0; i < env.N; i++ {
		s := &termSim{tr: tr}
		d := &randDecider{r: r, s: s, pf: []int{8, 30, 100}[r.Intn(3)]}
		s.dec = d
		cl := []bool{}
		for j := r.Intn(5); j > 0; j-- {
			cl = append(cl, r.Intn(3) > 0)
		}
		s.start(cl)
		for j, n := 0, 1+r.Intn(3); j < n; j++ {
			d.ncall = r.Intn(8)
			s.top([]string{"with", "with", "with", "without"}[r.Intn(4)])
			if r.Intn(4) == 0 {
				s.add(r.Intn(3))
			}
		}
		s.compose(r)
	}
	return nil
}
