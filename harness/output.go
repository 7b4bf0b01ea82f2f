package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"syscall"
	"time"
	"unsafe"

	"github.com/jcorbin/anansi"
)

func init() { drivers["output"] = outputDriver }

const pipeRoom = 4096

type outSim struct {
	tr     *Trace
	r      *rand.Rand
	out    *anansi.Output
	buf    anansi.Buffer
	rfd    int
	wfd    int
	pos    int // next stream byte
	closed bool
	polled bool
	dead   bool
}

func rawFlags(fd int) uintptr {
	fl, _, _ := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_GETFL, 0)
	return fl
}

func setFlags(fd int, fl uintptr) {
	syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_SETFL, fl)
}

func readable(fd int) (n int) {
	var v int32
	syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0x541b /* FIONREAD */, uintptr(unsafe.Pointer(&v)))
	return int(v)
}

func flagsE(fd int) E {
	fl := rawFlags(fd)
	return E{"nonblock": fl&syscall.O_NONBLOCK != 0, "raw": int(fl)}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// works is for what may only fail if the code under test is wrong.
func works(what string, err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "unexpected: "+what+" fails:", err)
		os.Exit(3)
	}
}

// runs of consecutive bytes, mod 251
func runs(p []byte) [][]int {
	rs := [][]int{}
	for i := range p {
		if n := len(rs); n > 0 && int(p[i]) == (rs[n-1][0]+rs[n-1][1])%251 {
			rs[n-1][1]++
		} else if n > 20 {
			return append(rs, []int{-1, len(p) - i})
		} else {
			rs = append(rs, []int{int(p[i]), 1})
		}
	}
	return rs
}

func (s *outSim) start() {
	var p [2]int
	must(syscall.Pipe2(p[:], syscall.O_CLOEXEC))
	s.rfd, s.wfd = p[0], p[1]
	syscall.Syscall(syscall.SYS_FCNTL, uintptr(s.wfd), 1031 /* F_SETPIPE_SZ */, pipeRoom)
	setFlags(s.rfd, rawFlags(s.rfd)|syscall.O_NONBLOCK)
	s.pos, s.closed, s.dead = 0, false, false
	s.polled = s.r.Intn(12) == 0
	if s.polled {
		setFlags(s.wfd, rawFlags(s.wfd)|syscall.O_NONBLOCK)
	}
	s.out = &anansi.Output{File: os.NewFile(uintptr(s.wfd), "out")}
	s.buf.Reset()
	s.tr.Episode(E{})
}

func (s *outSim) stop() {
	if s.dead {
		return
	}
	s.out.File.Close()
	if !s.closed {
		syscall.Close(s.rfd)
	}
}

// read up to max bytes that are there
func (s *outSim) read(got *[]byte, max int) int {
	b := make([]byte, max)
	n, err := syscall.Read(s.rfd, b)
	if n > 0 && err == nil {
		*got = append(*got, b[:n]...)
		return n
	}
	return 0
}

func (s *outSim) flush(n int) {
	if s.dead {
		return
	}
	r := s.r
	p := make([]byte, n)
	for i := range p {
		p[i] = byte((s.pos + i) % 251)
	}
	s.pos += n
	s.buf.Write(p)
	total := s.buf.Len()

	mode := "eager"
	switch {
	case s.closed:
		mode = "gone"
	case r.Intn(20) == 0:
		mode = "close"
	case total <= pipeRoom && r.Intn(2) == 0:
		mode = "none"
	case total > pipeRoom && r.Intn(2) == 0:
		mode = "late"
	}
	if !s.polled && r.Intn(3) == 0 {
		setFlags(s.wfd, rawFlags(s.wfd)^syscall.O_NONBLOCK)
	}
	if r.Intn(8) == 0 {
		setFlags(s.wfd, rawFlags(s.wfd)^syscall.O_APPEND)
	}
	e := E{"ev": "flush", "add": n, "room": pipeRoom, "reader": mode, "fl0": flagsE(s.wfd), "polled": s.polled}

	var got []byte
	stop, done := make(chan struct{}), make(chan struct{})
	seed := r.Int63()
	closeAt := r.Intn(total + 1)
	go func() {
		defer close(done)
		r := rand.New(rand.NewSource(seed))
		if mode == "none" || mode == "gone" {
			return
		}
		if mode == "late" { // only once the writer got stuck
			full := false
			for t0 := time.Now(); ; time.Sleep(50 * time.Microsecond) {
				full = full || readable(s.rfd) == pipeRoom
				if full && rawFlags(s.wfd)&syscall.O_NONBLOCK == 0 {
					break
				}
				if full && s.polled && time.Since(t0) > 5*time.Millisecond {
					break // it is the runtime's poller that waits, flags unchanged
				}
				if full && time.Since(t0) > 5*time.Second {
					break
				}
				if time.Since(t0) > 15*time.Second {
					return
				}
			}
		}
		for {
			if mode == "close" && len(got) >= closeAt {
				syscall.Close(s.rfd)
				return
			}
			max := 1 + r.Intn(3000)
			if mode == "close" && max > closeAt-len(got) {
				max = closeAt - len(got)
			}
			if s.read(&got, max) == 0 {
				select {
				case <-stop:
					if mode == "close" {
						syscall.Close(s.rfd)
					}
					return
				case <-time.After(20 * time.Microsecond):
				}
			}
		}
	}()
	ok := s.tr.Do(e, func() { e["err"] = errStr(s.out.Flush(&s.buf)) })
	close(stop)
	<-done
	if mode == "close" {
		s.closed = true
	}
	if !s.closed {
		for s.read(&got, 1<<16) > 0 {
		}
	}
	e["fl1"] = flagsE(s.wfd)
	e["flushed"], e["left"] = s.out.Flushed, s.buf.Len()
	e["got"] = runs(got)
	s.dead = !ok
	s.tr.Emit(e)
}

func outputDriver(env *Env, tr *Trace) error {
	s := &outSim{tr: tr, r: rand.New(rand.NewSource(env.Seed))}
	r := s.r
	for i := 0; i < env.N; i++ {
		s.start()
		for n := 1 + r.Intn(8); n > 0 && !s.dead; n-- {
			switch r.Intn(6) {
			case 0:
				k := r.Intn(4)
				e := E{"ev": "track", "n": k}
				s.dead = !tr.Do(e, func() { s.out.TrackStalls(k) })
				tr.Emit(e)
			case 1:
				e := E{"ev": "stalls", "consume": r.Intn(2) == 0}
				s.dead = !tr.Do(e, func() { e["n"] = len(s.out.Stalls(e["consume"].(bool))) })
				tr.Emit(e)
			default:
				k := []int{0, 1 + r.Intn(20), r.Intn(pipeRoom), pipeRoom, pipeRoom + 1, 2 * pipeRoom, r.Intn(5 * pipeRoom), pipeRoom + r.Intn(300)}[r.Intn(8)]
				s.flush(k)
			}
		}
		s.stop()
	}
	return nil
}

var _ io.WriterTo = (*anansi.Buffer)(nil)
