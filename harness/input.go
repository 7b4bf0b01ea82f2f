package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
)

func init() { drivers["input"] = inputDriver }

type inSim struct {
	tr     *Trace
	r      *rand.Rand
	in     *anansi.Input
	rf     *os.File
	rfd    int
	wfd    int
	kern   int // bytes in the pipe
	open   bool
	dead   bool
	eof    bool
	small  bool
	notify chan os.Signal
}

func fdFlags(fd int) []bool {
	fl, _, _ := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_GETFL, 0)
	return []bool{fl&syscall.O_NONBLOCK != 0, fl&syscall.O_ASYNC != 0}
}

func orFlag(fd int, bit uintptr) {
	fl, _, _ := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_GETFL, 0)
	syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_SETFL, fl|bit)
}

func (is *inSim) do(e E, f func()) bool {
	ok := is.tr.Do(e, f)
	is.tr.Emit(e)
	is.dead = is.dead || !ok
	return ok
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func (is *inSim) start(nonblock bool) error {
	var p [2]int
	if err := syscall.Pipe2(p[:], syscall.O_CLOEXEC); err != nil {
		return err
	}
	*is = inSim{tr: is.tr, r: is.r, rfd: p[0], wfd: p[1], open: true}
	if is.r.Intn(6) == 0 {
		nonblock = true
		orFlag(is.rfd, syscall.O_NONBLOCK) // the Go runtime will poll it
	}
	is.rf = os.NewFile(uintptr(p[0]), "in")
	is.in = &anansi.Input{File: is.rf}
	if nonblock {
		orFlag(is.rfd, syscall.O_NONBLOCK)
	}
	if is.r.Intn(6) == 0 {
		is.in.MinReadSize = 1 + is.r.Intn(8)
		is.small = true
	}
	is.tr.Episode(E{"flags": fdFlags(is.rfd)})
	is.enter()
	return nil
}

func (is *inSim) enter() {
	e := E{"ev": "enter", "err": ""}
	is.do(e, func() { e["err"] = errStr(is.in.Enter(nil)) })
}

func (is *inSim) doExit() {
	if is.dead {
		return
	}
	e := E{"ev": "exit", "err": ""}
	ok := is.tr.Do(e, func() { e["err"] = errStr(is.in.Exit(nil)) })
	e["flags"] = fdFlags(is.rfd)
	is.tr.Emit(e)
	is.dead = !ok
}

func (is *inSim) stop() {
	is.in.Close()
	if is.open {
		syscall.Close(is.wfd)
	}
	if !is.dead {
		is.rf.Close()
	}
}

func (is *inSim) put(b []byte) {
	if n, err := syscall.Write(is.wfd, b); n != len(b) || err != nil {
		fmt.Fprintln(os.Stderr, "pipe write:", n, err)
		os.Exit(2)
	}
	is.kern += len(b)
}

func (is *inSim) feed(b []byte) {
	is.put(b)
	is.tr.Emit(E{"ev": "feed", "b": ints(b)})
}

func (is *inSim) close() {
	syscall.Close(is.wfd)
	is.open = false
	is.tr.Emit(E{"ev": "close"})
}

func (is *inSim) readAny() {
	e := E{"ev": "readany"}
	is.do(e, func() {
		n, err := is.in.ReadAny()
		e["n"], e["err"], e["ateof"] = n, errStr(err), is.in.AtEOF()
		is.kern -= n
		is.eof = is.in.AtEOF()
	})
}

func (is *inSim) readMore(late []byte) {
	e := E{"ev": "readmore", "late": []int{}, "small": is.small}
	done := make(chan struct{})
	if is.kern == 0 && is.open {
		e["late"] = ints(late)
		go func() {
			time.Sleep(time.Duration(200+is.r.Intn(1500)) * time.Microsecond)
			is.put(late)
			close(done)
		}()
	} else {
		close(done)
	}
	is.do(e, func() {
		n, err := is.in.ReadMore()
		e["n"], e["err"], e["ateof"] = n, errStr(err), is.in.AtEOF()
		<-done
		is.kern -= n
		is.eof = is.in.AtEOF()
	})
}

func (is *inSim) drain() {
	outs := [][]int{}
	e := E{"ev": "drain"}
	is.do(e, func() {
		for {
			c, a, ok := is.in.Decode()
			if !ok {
				break
			}
			if len(outs) > 10000 {
				panic("endless decode")
			}
			outs = append(outs, outOf(c, a))
		}
		e["outs"] = outs
	})
}

func (is *inSim) some(max int) {
	outs := [][]int{}
	e := E{"ev": "some", "max": max}
	is.do(e, func() {
		for len(outs) < max {
			c, a, ok := is.in.Decode()
			if !ok {
				break
			}
			outs = append(outs, outOf(c, a))
		}
		e["outs"] = outs
	})
}

// setNotify turns async notification on or off, and feeds something.
func (is *inSim) setNotify(on bool, b []byte) {
	e := E{"ev": "notify", "on": on, "b": ints(b)}
	is.do(e, func() {
		ch := is.notify
		if on {
			ch = make(chan os.Signal, 8)
			e["err"] = errStr(is.in.Notify(ch))
		} else {
			e["err"] = errStr(is.in.Notify(nil))
			for drained := false; !drained; {
				select {
				case <-ch:
				default:
					drained = true
				}
			}
		}
		e["async"] = fdFlags(is.rfd)[1]
		is.put(b)
		wait := 4 * time.Millisecond
		if on {
			wait = 3 * time.Second
		}
		got := false
		select {
		case <-ch:
			got = true
		case <-time.After(wait):
		}
		e["signaled"] = got
		is.notify = ch
	})
	for is.notify != nil {
		select {
		case <-is.notify:
			continue
		default:
		}
		break
	}
}

func (is *inSim) read(late func() []byte) {
	if is.r.Intn(2) == 0 || is.kern == 0 && is.r.Intn(3) > 0 && is.open {
		is.readAny()
		return
	}
	var b []byte
	if is.kern == 0 && is.open {
		b = late()
	}
	is.readMore(b)
}

func (is *inSim) finish() {
	if is.dead {
		return
	}
	is.close()
	for i := 0; i < 200 && !is.dead && !is.eof; i++ {
		if is.r.Intn(2) == 0 {
			is.readAny()
		} else {
			is.readMore(nil)
		}
		if is.r.Intn(2) == 0 && !is.dead {
			is.drain()
		}
	}
	if is.dead {
		return
	}
	is.drain()
	is.doExit()
}

func (is *inSim) episode() error {
	r := is.r
	aligned := r.Intn(4) == 0
	g := &items{r: r}
	chunks := g.chunks(3+r.Intn(25), 1+r.Intn(12), aligned)
	for i := range chunks {
		if len(chunks[i]) > 90 {
			chunks[i] = chunks[i][:90]
		}
	}
	if err := is.start(r.Intn(5) == 0); err != nil {
		return err
	}
	defer is.stop()
	notify := r.Intn(12) == 0
	for len(chunks) > 0 && !is.dead {
		next := func() []byte {
			c := chunks[0]
			chunks = chunks[1:]
			return c
		}
		switch k := r.Intn(40); {
		case k == 0:
			orFlag(is.rfd, syscall.O_NONBLOCK)
			is.tr.Emit(E{"ev": "ext"})
		case k == 1:
			is.doExit()
			if !is.dead {
				is.enter()
			}
		case k == 2 && notify:
			is.setNotify(is.notify == nil, next())
			if !is.dead && is.notify != nil && r.Intn(2) == 0 && len(chunks) > 0 {
				is.setNotify(false, next())
				is.notify = nil
			}
		case k < 20:
			is.feed(next())
		case k < 30:
			is.read(next)
		default:
			if aligned && !is.eof && r.Intn(2) == 0 {
				is.some(1 + r.Intn(4))
			} else {
				is.drain()
			}
		}
	}
	is.finish()
	return nil
}

func inputDriver(env *Env, tr *Trace) error {
	is := &inSim{tr: tr, r: rand.New(rand.NewSource(env.Seed))}
	if env.Gen != "" {
		if err := readGen(env, func(raw json.RawMessage) error {
			var chunks [][]int
			if err := json.Unmarshal(raw, &chunks); err != nil {
				return err
			}
			if err := is.start(false); err != nil {
				return err
			}
			defer is.stop()
			for _, c := range chunks {
				b := make([]byte, len(c))
				for i := range c {
					b[i] = byte(c[i])
				}
				is.feed(b)
				is.readAny()
				if is.dead {
					return nil
				}
				is.drain()
				if is.dead {
					return nil
				}
			}
			is.finish()
			return nil
		}); err != nil {
			return err
		}
	}
	for i := 0; i < env.N; i++ {
		is.r = rand.New(rand.NewSource(env.Seed*1000003 + int64(i)))
		if err := is.episode(); err != nil {
			return err
		}
	}
	return nil
}
