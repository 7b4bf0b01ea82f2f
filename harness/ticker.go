package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/jcorbin/anansi/x/platform"
)

func init() { drivers["ticker"] = tickerDriver }

type tickSim struct {
	mu   sync.Mutex
	tr   *Trace
	base time.Time
}

func (s *tickSim) us(t time.Time) int { return int(t.Sub(s.base) / time.Microsecond) }

func (s *tickSim) emit(e E) {
	s.mu.Lock()
	defer s.mu.Unlock()
	e["u"] = s.us(time.Now())
	s.tr.Emit(e)
}

func tickerEpisode(tr *Trace, r *rand.Rand) {
	s := &tickSim{tr: tr, base: time.Now()}
	tr.Episode(E{})
	var ct platform.Ticker
	fast, n := r.Intn(4) == 0, 10+r.Intn(20)
	if fast {
		n += 200
	}
	nap := func() {
		if fast && r.Intn(20) != 0 {
			return
		}
		switch r.Intn(4) {
		case 0:
			time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
		case 1:
			time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
		}
	}
	wait := func(done chan struct{}) {
		defer close(done)
		s.emit(E{"ev": "wait"})
		e := E{"ev": "waited"}
		tr.Do(e, func() {
			t := ct.Wait()
			if e["zero"] = t.IsZero(); !t.IsZero() {
				e["t"] = s.us(t)
			}
		})
		s.emit(e)
	}
	var waiting chan struct{}
	idle := func(block bool) bool {
		if waiting == nil {
			return true
		}
		if block {
			<-waiting
			waiting = nil
			return true
		}
		select {
		case <-waiting:
			waiting = nil
			return true
		default:
			return false
		}
	}
	for ; n > 0; n-- {
		switch k := r.Intn(10); {
		case k < 2:
			s.emit(E{"ev": "enter"})
			err := try(func() error { return ct.Enter(nil) })
			s.emit(E{"ev": "entered", "err": errStr(err)})
		case k < 4:
			s.emit(E{"ev": "exit"})
			err := try(func() error { return ct.Exit(nil) })
			s.emit(E{"ev": "exited", "err": errStr(err)})
		case k < 7:
			if idle(false) {
				waiting = make(chan struct{})
				go wait(waiting)
			}
		case k < 9:
			idle(true)
			for m := 1 + r.Intn(4); m > 0; m-- {
				done := make(chan struct{})
				wait(done)
			}
		}
		nap()
	}
	idle(true)
	s.emit(E{"ev": "exit"})
	s.emit(E{"ev": "exited", "err": errStr(ct.Exit(nil))})
}

func try(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}

func tickerDriver(env *Env, tr *Trace) error {
	jobs := []func(tr *Trace, r *rand.Rand){}
	for i := 0; i < env.N; i++ {
		jobs = append(jobs, tickerEpisode)
	}
	parallel(env, tr, jobs)
	return nil
}
