package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/jcorbin/anansi/x/platform"
)

func init() { drivers["logsink"] = logsinkDriver }

// rle is maximal runs [byte, count] of equal bytes
func rle(p []byte) [][]int {
	rs := [][]int{}
	for _, c := range p {
		if n := len(rs); n > 0 && rs[n-1][0] == int(c) {
			rs[n-1][1]++
		} else {
			rs = append(rs, []int{int(c), 1})
		}
	}
	return rs
}

type sinkFile struct {
	kind string // "file", "pipe", "ro", "gone", "closed"
	name string
	f    *os.File
	rfd  int // pipes
	got  []byte
	want int  // bytes logged since it is in use
	told bool // an error was reported
}

type sinkSim struct {
	tr    *Trace
	r     *rand.Rand
	dir   string
	s     *platform.LogSink
	files []*sinkFile
	cur   *sinkFile
	run   bool
	big   bool
	dead  bool
}

func (ss *sinkSim) start() {
	ss.s, ss.files, ss.cur, ss.run, ss.dead = new(platform.LogSink), nil, nil, false, false
	ss.tr.Episode(E{})
}

func (ss *sinkSim) stop() {
	for _, f := range ss.files {
		f.f.Close()
		if f.rfd >= 0 {
			syscall.Close(f.rfd)
		}
		os.Remove(f.name)
	}
}

func (ss *sinkSim) newFile(kind string) *sinkFile {
	f := &sinkFile{kind: kind, rfd: -1}
	var err error
	f.name = filepath.Join(ss.dir, fmt.Sprintf("log%p-%d", ss, len(ss.files)))
	switch kind {
	case "file", "closed":
		f.f, err = os.Create(f.name)
		if kind == "closed" {
			f.f.Close()
		}
	case "ro":
		err = os.WriteFile(f.name, nil, 0600)
		if err == nil {
			f.f, err = os.Open(f.name)
		}
	case "pipe", "gone":
		var p [2]int
		must(syscall.Pipe2(p[:], syscall.O_CLOEXEC|syscall.O_NONBLOCK))
		syscall.Syscall(syscall.SYS_FCNTL, uintptr(p[1]), 1031 /* F_SETPIPE_SZ */, pipeRoom)
		f.f = os.NewFile(uintptr(p[1]), "pipe")
		if kind == "gone" {
			syscall.Close(p[0])
		} else {
			f.rfd = p[0]
		}
	}
	must(err)
	ss.files = append(ss.files, f)
	return f
}

// see takes what a pipe has to offer
func (f *sinkFile) see() {
	switch f.kind {
	case "pipe":
		var b [8192]byte
		for {
			n, err := syscall.Read(f.rfd, b[:])
			if n <= 0 || err != nil {
				break
			}
			f.got = append(f.got, b[:n]...)
		}
	case "gone":
	default:
		b, err := os.ReadFile(f.name)
		must(err)
		f.got = b
	}
}

// do runs a call, while pipes are drained, unless held
func (ss *sinkSim) do(e E, hold bool, f func()) {
	if ss.dead {
		return
	}
	stop, done := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(done)
		if c := ss.cur; c != nil && c.kind == "pipe" && !hold {
			for {
				c.see()
				select {
				case <-stop:
					return
				case <-time.After(20 * time.Microsecond):
				}
			}
		}
	}()
	ok := ss.tr.Do(e, f)
	close(stop)
	<-done
	ss.dead = !ok
	e["held"] = hold
	if ok {
		b, eols := ss.s.Contents()
		e["c"], e["eols"] = rle(b), append([]int{}, eols...)
	}
	fs := []E{}
	for _, f := range ss.files {
		if !(hold && f == ss.cur) {
			f.see()
		}
		_, err := f.f.Stat()
		fs = append(fs, E{"got": rle(f.got), "closed": err != nil})
	}
	e["files"] = fs
	ss.tr.Emit(e)
}

func (ss *sinkSim) write() {
	r := ss.r
	var p []byte
	for n := r.Intn(4); n >= 0; n-- {
		switch r.Intn(4) {
		case 0:
			p = append(p, '\n')
		case 1:
			for k := r.Intn(4); k > 0; k-- {
				p = append(p, byte('a'+r.Intn(3)))
			}
		default:
			p = append(p, byte('a'+r.Intn(3)))
		}
	}
	if r.Intn(3) > 0 && len(p) > 0 {
		p[len(p)-1] = '\n'
	}
	if r.Intn(15) == 0 {
		p = nil
	}
	if ss.big && r.Intn(3) == 0 {
		for k := 0; k < 5000; k++ {
			p = append(p, 'z')
		}
	}
	ss.put(p, false)
}

func (ss *sinkSim) put(p []byte, hold bool) {
	e := E{"ev": "write", "d": rle(p)}
	if ss.cur != nil {
		ss.cur.want += len(p)
	}
	ss.do(e, hold, func() {
		n, err := ss.s.Write(append([]byte{}, p...))
		e["n"], e["err"] = n, errStr(err)
	})
	if ss.cur != nil && e["err"] != "" {
		ss.cur.told = true
	}
}

func (ss *sinkSim) call(name string, hold bool, f func() error) {
	e := E{"ev": name}
	ss.do(e, hold, func() { e["err"] = errStr(f()) })
	ss.run = e["err"] == "" && (ss.run && name != "stop" || ss.cur != nil && !ss.cur.told && name == "start")
	if ss.cur != nil && e["err"] != "" {
		ss.cur.told = true
	}
}

func (ss *sinkSim) set(kind string) {
	e := E{"ev": "setfile", "kind": kind}
	var f *os.File
	old := ss.cur
	var nf *sinkFile
	if kind == "same" && old != nil {
		f = old.f
	} else if kind != "" && kind != "same" {
		nf = ss.newFile(kind)
		f = nf.f
	} else {
		e["kind"] = ""
	}
	ss.do(e, false, func() { e["err"] = errStr(ss.s.SetFile(f)) })
	if e["kind"] != "same" {
		ss.cur, ss.run = nf, nf != nil
		if e["err"] != "" {
			ss.cur, ss.run = nil, false
		}
	}
}

// settle waits until what was logged arrived in the file
func (ss *sinkSim) settle() {
	c := ss.cur
	if c == nil || ss.dead || !ss.run || c.want == 0 {
		return
	}
	e := E{"ev": "settle"}
	ss.do(e, false, func() {
		e["err"] = ""
		for t0 := time.Now(); time.Since(t0) < 5*time.Second; time.Sleep(50 * time.Microsecond) {
			if c.kind == "pipe" {
				if len(c.got) >= c.want {
					break // racing with the goroutine that drains, which only adds
				}
				continue
			}
			if c.kind == "file" {
				if st, err := os.Stat(c.name); err == nil && int(st.Size()) >= c.want {
					break
				}
				continue
			}
			if err := ss.s.Notify(); err != nil {
				e["err"] = err.Error()
				break
			}
		}
	})
	if e["err"] != "" {
		c.told, ss.run = true, false
	}
}

func (ss *sinkSim) op(v string) {
	r := ss.r
	switch v {
	case "write":
		ss.write()
	case "start":
		ss.call("start", false, ss.s.Start)
	case "stop":
		ss.call("stop", false, ss.s.Stop)
	case "notify":
		ss.call("notify", false, ss.s.Notify)
		if ss.cur != nil && r.Intn(3) == 0 {
			ss.settle()
		}
	case "none":
		ss.set("")
	case "new":
		k := []string{"file", "file", "file", "pipe", "pipe", "ro", "gone", "closed"}[r.Intn(8)]
		ss.big = k == "pipe" && r.Intn(2) == 0
		ss.set(k)
	case "same":
		ss.set("same")
	case "read":
		e := E{"ev": "read", "max": r.Intn(6)}
		ss.do(e, false, func() {
			b := make([]byte, e["max"].(int))
			n, err := ss.s.Read(b)
			if n < 0 || n > len(b) {
				n = 0
				err = fmt.Errorf("bad count")
			}
			e["got"], e["err"] = rle(b[:n]), errStr(err)
			e["eof"] = err == io.EOF
		})
	case "error":
		ss.call("error", false, ss.s.Error)
	case "stuck":
		// the worker gets stuck half way through a write, while more is logged
		c := ss.cur
		if c == nil || c.kind != "pipe" {
			return
		}
		p := make([]byte, 5000+r.Intn(4000))
		for i := range p {
			p[i] = 'y'
		}
		ss.call("start", false, ss.s.Start)
		ss.put(p, true)
		ss.call("notify", true, ss.s.Notify)
		for t0 := time.Now(); readable(c.rfd) < pipeRoom && time.Since(t0) < 2*time.Second; {
			time.Sleep(20 * time.Microsecond)
		}
		for n := r.Intn(3); n > 0; n-- {
			ss.put([]byte{byte('a' + r.Intn(3)), '\n'}[r.Intn(2):], true)
			if r.Intn(2) == 0 {
				ss.call("notify", true, ss.s.Notify)
			}
		}
	}
}

func logsinkDriver(env *Env, tr *Trace) error {
	var jobs []func(tr *Trace, r *rand.Rand)
	one := func(ops []string, gen bool) {
		jobs = append(jobs, func(tr *Trace, r *rand.Rand) {
			ss := &sinkSim{tr: tr, r: r, dir: env.Dir}
			ss.start()
			if !gen {
				for n := 2 + r.Intn(14); n > 0; n-- {
					v := []string{"write", "write", "write", "write", "start", "stop", "notify", "notify", "new", "none", "same", "read", "read", "error", "stuck"}[r.Intn(15)]
					if n > 10 && r.Intn(2) == 0 {
						v = "new"
					}
					ss.op(v)
				}
			}
			for _, v := range ops {
				ss.op(v)
			}
			if !ss.dead && r.Intn(2) == 0 {
				ss.op("stop")
			}
			if !ss.dead {
				ss.op("none")
			}
			ss.stop()
		})
	}
	if env.Gen != "" {
		err := readGen(env, func(raw json.RawMessage) error {
			var h struct{ Log []string }
			if err := json.Unmarshal(raw, &h); err != nil {
				return err
			}
			one(h.Log, true)
			return nil
		})
		if err != nil {
			return err
		}
	}
	for i := 0; i < env.N; i++ {
		one(nil, false)
	}
	parallel(env, tr, jobs)
	return nil
}
