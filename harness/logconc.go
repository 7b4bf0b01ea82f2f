package main

import (
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"time"

	"github.com/jcorbin/anansi/x/platform"
)

func init() { drivers["logconc"] = logconcDriver }

type concSim struct {
	mu  sync.Mutex
	tr  *Trace
	r   *rand.Rand
	dir string
	s   *platform.LogSink
	f   *os.File
	got []byte // that was read
}

func (s *concSim) emit(e E) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.tr.Emit(e)
}

// recIDs is runs [first, count] of the numbers of records in p, without any
// incomplete one at its end if loose.
func recIDs(p []byte, loose bool) [][]int {
	ids := [][]int{}
	for len(p) > 0 {
		id := -1
		if len(p) >= 8 {
			if n, err := strconv.Atoi(string(p[1:7])); err == nil && p[0] == '#' && (p[7] == '\n' || p[7] == '.') {
				id = n
			}
			p = p[8:]
		} else {
			p = nil
			if loose {
				break
			}
		}
		if n := len(ids); n > 0 && id >= 0 && ids[n-1][0]+ids[n-1][1] == id {
			ids[n-1][1]++
		} else {
			ids = append(ids, []int{id, 1})
		}
	}
	return ids
}

func (s *concSim) nap(r *rand.Rand) {
	if r.Intn(3) == 0 {
		time.Sleep(time.Duration(r.Intn(60)) * time.Microsecond)
	}
}

func (s *concSim) writer(n int, r *rand.Rand, done chan struct{}) {
	defer close(done)
	for i := 1; i <= n; i++ {
		end := '\n'
		if r.Intn(3) == 0 {
			end = '.'
		}
		p := []byte(fmt.Sprintf("#%06d%c", i, end))
		s.emit(E{"ev": "begin", "nl": end == '\n'})
		e := E{"ev": "end"}
		s.tr.Do(e, func() {
			n, err := s.s.Write(p)
			e["n"], e["err"] = n, errStr(err)
		})
		s.emit(e)
		if e["bad"] != "" {
			return
		}
		s.nap(r)
	}
}

func (s *concSim) call(op string, f func(e E)) bool {
	s.emit(E{"ev": "call", "op": op})
	e := E{"ev": op}
	ok := s.tr.Do(e, func() { f(e) })
	s.emit(e)
	return ok
}

func (s *concSim) look(e E) {
	b, eols := s.s.Contents()
	s.nap(s.r) // while more is written
	e["ids"] = recIDs(append(append([]byte{}, s.got...), b...), false)
	e["size"], e["eols"] = len(b), append([]int{}, eols...)
}

func (s *concSim) file(e E) {
	b, err := os.ReadFile(s.f.Name())
	must(err)
	e["ids"] = recIDs(b, true)
}

func (s *concSim) episode() {
	r := s.r
	s.s, s.got = new(platform.LogSink), nil
	s.tr.Episode(E{})
	f, err := os.Create(filepath.Join(s.dir, fmt.Sprintf("conc%p", s)))
	must(err)
	s.f = f
	defer os.Remove(f.Name())
	defer f.Close()
	if err := s.s.SetFile(f); err != nil {
		s.emit(E{"ev": "start", "bad": "", "err": err.Error()})
		return
	}
	done := make(chan struct{})
	go s.writer(1+r.Intn(60), rand.New(rand.NewSource(r.Int63())), done)
	reads, ok, busy := r.Intn(2) == 0, true, true
	step := func() {
		switch k := r.Intn(10); {
		case k < 4:
			ok = s.call("look", s.look)
		case k < 5 && reads:
			ok = s.call("read", func(e E) {
				b := make([]byte, r.Intn(30))
				n, err := s.s.Read(b)
				s.got = append(s.got, b[:n]...)
				e["n"], e["max"], e["err"], e["eof"] = n, len(b), errStr(err), err == io.EOF
			})
		case k < 6:
			ok = s.call("start", func(e E) { e["err"] = errStr(s.s.Start()) })
		case k < 7:
			ok = s.call("stop", func(e E) { e["err"] = errStr(s.s.Stop()) })
		case k < 8:
			ok = s.call("notify", func(e E) { e["err"] = errStr(s.s.Notify()) })
		default:
			ok = s.call("file", s.file)
		}
	}
	for ok && busy {
		step()
		select {
		case <-done:
			busy = false
		default:
			s.nap(r)
		}
	}
	<-done
	for n := r.Intn(5); ok && n > 0; n-- {
		step()
	}
	for _, f := range []func(){
		func() { ok = s.call("stop", func(e E) { e["err"] = errStr(s.s.Stop()) }) },
		func() { ok = s.call("file", s.file) },
		func() { ok = s.call("look", s.look) },
	} {
		if ok {
			f()
		}
	}
}

func logconcDriver(env *Env, tr *Trace) error {
	log.SetOutput(io.Discard)
	var jobs []func(tr *Trace, r *rand.Rand)
	for i := 0; i < env.N; i++ {
		jobs = append(jobs, func(tr *Trace, r *rand.Rand) { (&concSim{tr: tr, r: r, dir: env.Dir}).episode() })
	}
	parallel(env, tr, jobs)
	return nil
}
