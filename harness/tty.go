package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
)

func init() { drivers["tty"] = ttyDriver }

func ioctl(fd int, req uintptr, arg unsafe.Pointer) {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), req, uintptr(arg)); e != 0 {
		must(os.NewSyscallError("ioctl", e))
	}
}

// pty is a pseudo terminal; everything that is written to it is collected.
type pty struct {
	master, slave int
	name          string
	mu            sync.Mutex
	cond          *sync.Cond
	buf           []byte
	marks         int
	gone          chan struct{}
}

// It calls slow, if any, before each read.
func openPty(slow ...func(*pty)) *pty {
	p := &pty{gone: make(chan struct{})}
	p.cond = sync.NewCond(&p.mu)
	var err error
	p.master, err = syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	must(err)
	var n int32
	ioctl(p.master, syscall.TIOCSPTLCK, unsafe.Pointer(&n))
	ioctl(p.master, syscall.TIOCGPTN, unsafe.Pointer(&n))
	p.name = "/dev/pts/" + strconv.Itoa(int(n))
	p.slave = p.open(syscall.O_RDWR)
	go func() {
		defer close(p.gone)
		b := make([]byte, 4096)
		for {
			for _, f := range slow {
				f(p)
			}
			n, err := syscall.Read(p.master, b)
			if err == syscall.EINTR {
				continue
			}
			if n <= 0 || err != nil {
				return
			}
			p.mu.Lock()
			p.buf = append(p.buf, b[:n]...)
			p.cond.Broadcast()
			p.mu.Unlock()
		}
	}()
	return p
}

func (p *pty) open(mode int) int {
	fd, err := syscall.Open(p.name, mode|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	must(err)
	return fd
}

// close hangs up; all other slave descriptors have to be closed before.
func (p *pty) close() {
	syscall.Close(p.slave)
	<-p.gone // reads fail once no slave is open
	syscall.Close(p.master)
}

// out is what was written since the last call.
func (p *pty) out() []byte {
	p.marks++
	mark := []byte(fmt.Sprintf("\x01mark%d\x02", p.marks))
	for b := mark; len(b) > 0; {
		n, err := syscall.Write(p.slave, b)
		if err != nil && err != syscall.EINTR && err != syscall.EAGAIN {
			must(err)
		}
		if n > 0 {
			b = b[n:]
		}
	}
	late := time.AfterFunc(30*time.Second, func() {
		fmt.Fprintln(os.Stderr, "pty: the mark did not arrive")
		os.Exit(2)
	})
	defer late.Stop()
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if i := bytes.Index(p.buf, mark); i >= 0 {
			b := append([]byte(nil), p.buf[:i]...)
			p.buf = append(p.buf[:0], p.buf[i+len(mark):]...)
			return b
		}
		p.cond.Wait()
	}
}

func (p *pty) size(w, h int) {
	ws := [4]uint16{uint16(h), uint16(w)}
	ioctl(p.slave, syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
}

func (p *pty) termios() (t syscall.Termios) {
	ioctl(p.slave, syscall.TCGETS, unsafe.Pointer(&t))
	return t
}

func (p *pty) setTermios(t syscall.Termios) {
	ioctl(p.slave, syscall.TCSETS, unsafe.Pointer(&t))
}

func bitList(v uint64) []int {
	l := []int{}
	for i := 0; v != 0; i, v = i+1, v>>1 {
		if v&1 != 0 {
			l = append(l, i)
		}
	}
	return l
}

func logTermios(t syscall.Termios) E {
	rest := []int{int(t.Line), int(t.Ispeed), int(t.Ospeed)}
	for i, c := range t.Cc {
		if i != syscall.VMIN && i != syscall.VTIME {
			rest = append(rest, int(c))
		}
	}
	return E{"i": bitList(uint64(t.Iflag)), "o": bitList(uint64(t.Oflag)), "c": bitList(uint64(t.Cflag)), "l": bitList(uint64(t.Lflag)),
		"min": t.Cc[syscall.VMIN], "time": t.Cc[syscall.VTIME], "rest": rest}
}

func randTermios(r *rand.Rand, t syscall.Termios) syscall.Termios {
	flip := func(v *uint32, bits ...uint32) {
		for _, b := range bits {
			if r.Intn(2) == 0 {
				*v ^= b
			}
		}
	}
	flip(&t.Iflag, syscall.BRKINT, syscall.ICRNL, syscall.INPCK, syscall.ISTRIP, syscall.IXON, syscall.IXOFF, syscall.IUTF8)
	flip(&t.Oflag, syscall.OPOST, syscall.ONLCR)
	flip(&t.Lflag, syscall.ECHO, syscall.ICANON, syscall.IEXTEN, syscall.ISIG, syscall.ECHOE, syscall.NOFLSH, syscall.ECHOCTL)
	flip(&t.Cflag, syscall.PARODD, syscall.CSTOPB, syscall.HUPCL)
	t.Cc[syscall.VMIN] = uint8(r.Intn(3))
	t.Cc[syscall.VTIME] = uint8(r.Intn(2) * 7)
	t.Cc[syscall.VINTR] = uint8(3 + r.Intn(2)*20)
	return t
}

// flagCtx is a context of the user, that fails when told to.
type flagCtx struct{ enter, exit bool }

var errCtx = errors.New("context error")
var errUser = errors.New("user error")

func (c *flagCtx) Enter(term *anansi.Term) error {
	if c.enter {
		c.enter = false
		return errCtx
	}
	return nil
}

func (c *flagCtx) Exit(term *anansi.Term) error {
	if c.exit {
		c.exit = false
		return errCtx
	}
	return nil
}

type ttySim struct {
	tr      *Trace
	r       *rand.Rand
	p       *pty
	infd    int
	outfd   int
	outmode int // how the output is opened
	shared  bool
	term    *anansi.Term
	ts      *anansi.TermScreen
	fc      [2]flagCtx
	st      streamTok
	w, h    int
	dead    bool
	depth   int
	active  bool
	under   bool
	dirty   bool
	failing bool // errors are passed on to the outermost call
	want    string
	step    func(s *ttySim) bool // one step of a function; false: it is to return
	raw     bool
	echo    string
	budget  int
}

func (s *ttySim) obs(e E) E {
	e["tio"] = logTermios(s.p.termios())
	e["flin"], e["flout"] = bitList(uint64(rawFlags(s.infd))), bitList(uint64(rawFlags(s.outfd)))
	e["toks"] = s.st.feed(s.p.out())
	e["rest"] = len(s.st.rest)
	if s.ts != nil {
		b := s.ts.Bounds()
		e["sw"], e["sh"] = b.Dx(), b.Dy()
	} else {
		e["sw"], e["sh"] = 0, 0
	}
	return e
}

func (s *ttySim) emit(e E) {
	if _, have := e["bad"]; !have {
		e["bad"] = ""
	}
	s.tr.Emit(s.obs(e))
}

func (s *ttySim) do(e E, f func()) {
	if !s.tr.Do(e, f) {
		s.dead = true
	}
	s.emit(e)
}

func (s *ttySim) setSize(w, h int) {
	s.w, s.h = w, h
	s.p.size(w, h)
}

func (s *ttySim) start(scr, sig bool, fin, fout uintptr, shared bool) {
	r := s.r
	s.p = openPty()
	s.shared = shared
	s.depth, s.active, s.under, s.failing, s.dead, s.dirty, s.raw, s.echo, s.want = 0, false, false, false, false, false, false, "unset", ""
	s.st, s.ts, s.fc = streamTok{}, nil, [2]flagCtx{}
	s.setSize(1+r.Intn(6), 1+r.Intn(4))
	s.infd = s.p.open(syscall.O_RDWR)
	s.outfd = s.infd
	in := os.NewFile(uintptr(s.infd), "in")
	out := in
	if !shared {
		s.outfd = s.p.open(s.outmode)
		out = os.NewFile(uintptr(s.outfd), "out")
	}
	setFlags(s.infd, rawFlags(s.infd)|fin)
	if !shared {
		setFlags(s.outfd, rawFlags(s.outfd)|fout)
	}
	var cs []anansi.Context
	cs = append(cs, &s.fc[0])
	if sig {
		cs = append(cs, &anansi.InputSignal{Signal: anansi.Notify()})
	}
	if scr {
		s.ts = &anansi.TermScreen{}
		cs = append(cs, s.ts)
	}
	cs = append(cs, &s.fc[1])
	s.term = anansi.NewTerm(in, out, cs...)
	cells := garbage(r, s.w*s.h)
	s.tr.Episode(s.obs(E{"w": s.w, "h": s.h, "cells": cells, "shared": shared, "scr": scr}))
}

// unwritable is an episode whose output fails, at entering or at leaving.
func (s *ttySim) unwritable() {
	r := s.r
	late := r.Intn(2) == 0
	if !late {
		s.outmode = syscall.O_RDONLY
	}
	s.start(r.Intn(2) == 0, r.Intn(3) == 0, uintptr(r.Intn(2))*syscall.O_NONBLOCK, 0, false)
	s.addModes()
	if r.Intn(2) == 0 {
		s.setRaw(r.Intn(3) > 0)
	}
	if r.Intn(2) == 0 {
		s.setEcho(r.Intn(2) == 0)
	}
	e := E{"ev": "nowrite", "late": late, "body": false, "err": ""}
	s.do(e, func() {
		e["err"] = errStr(s.term.RunWith(func(*anansi.Term) error {
			e["body"] = true
			if late {
				fd := s.p.open(syscall.O_RDONLY)
				must(syscall.Dup2(fd, s.outfd))
				must(syscall.Close(fd))
			}
			return nil
		}))
	})
	s.stop()
}

func (s *ttySim) stop() {
	s.term.Input.File.Close()
	if !s.shared {
		s.term.Output.File.Close()
	}
	s.p.close()
}

// deep calls f some way down the stack, so that it has to grow at any point.
//
//go:noinline
func deep(n int, f func()) byte {
	var pad [64]byte
	if n == 0 {
		f()
		return 0
	}
	pad[n%64] = deep(n-1, f)
	return pad[(n+1)%64]
}

// call makes a RunWith or RunWithout call, with one of the contexts failing.
func (s *ttySim) call(op string, fail int) (err error) {
	full := (op == "with") != s.active
	if fail != 0 && full {
		c := &s.fc[s.r.Intn(2)]
		if op == "with" && fail == 1 || op == "without" && fail == 2 {
			c.enter = true
		} else {
			c.exit = true
		}
	}
	s.emit(E{"ev": "call", "op": op})
	if full && op == "with" {
		s.active, s.under, s.dirty = true, true, false
	} else if full {
		s.active = false
	}
	s.depth++
	res := "panic"
	defer func() {
		s.depth--
		if s.fc[0].enter || s.fc[1].enter || s.fc[0].exit || s.fc[1].exit {
			s.fc = [2]flagCtx{} // never got there
		}
		if res != "" {
			s.failing = s.failing || err == errCtx || res == "panic"
		}
		if full && op == "with" {
			s.active = false
			s.failing = s.failing && s.depth > 0
		} else if full && res == "" {
			s.active, s.dirty = true, false
		}
		s.emit(E{"ev": "done", "res": res})
	}()
	if op == "with" {
		deep(s.r.Intn(120), func() { err = s.term.RunWith(s.body) })
	} else {
		err = s.term.RunWithout(s.body)
	}
	res = ""
	if err != nil {
		res = map[error]string{errCtx: "ctx", errUser: "user"}[err]
		if res == "" {
			res = "other"
		}
	}
	return err
}

func (s *ttySim) body(term *anansi.Term) error {
	s.emit(E{"ev": "body"})
	s.want = ""
	for !s.dead && !s.failing && s.step(s) { // errors are passed on
	}
	res := s.want
	s.want = ""
	if s.dead || s.failing {
		res = "user"
	}
	s.emit(E{"ev": "ret", "res": res})
	switch res {
	case "panic":
		panic(errUser)
	case "user":
		return errUser
	}
	return nil
}

// top makes an outermost call.
func (s *ttySim) top(op string, fail int) {
	e := E{"ev": "crash"}
	ok := s.tr.Do(e, func() {
		defer func() {
			if r := recover(); r != nil && r != errUser {
				panic(r)
			}
		}()
		s.call(op, fail)
	})
	s.depth, s.active, s.failing = 0, false, false
	if !ok {
		s.tr.Emit(e)
		s.dead = true
	}
}

func (s *ttySim) setRaw(v bool) {
	e := E{"ev": "raw", "v": v}
	if s.active && s.raw != v {
		s.dirty = false
	}
	s.raw = v
	s.do(e, func() { e["err"] = errStr(s.term.SetRaw(v)) })
}

func (s *ttySim) setEcho(v bool) {
	e := E{"ev": "echo", "v": v}
	s.echo = map[bool]string{true: "on", false: "off"}[v]
	s.do(e, func() { e["err"] = errStr(s.term.SetEcho(v)) })
}

func (s *ttySim) stty(t syscall.Termios) {
	s.p.setTermios(t)
	s.dirty = s.active
	s.emit(E{"ev": "stty"})
}

func (s *ttySim) chfl(fin, fout uintptr) {
	setFlags(s.infd, fin)
	if !s.shared {
		setFlags(s.outfd, fout)
	}
	s.emit(E{"ev": "chfl"})
}

func (s *ttySim) readAny() {
	e := E{"ev": "read"}
	s.do(e, func() { s.term.ReadAny() })
}

// type types something, and reads it.
func (s *ttySim) typeKeys() {
	n := 1 + s.r.Intn(5)
	keys := make([]byte, n)
	for i := range keys {
		keys[i] = []byte{3, 4, 13, 10, 17, 19, 26, 28, 21, 22, 127, 'a', 'b', 'q', '~', 0}[s.r.Intn(16)]
	}
	e := E{"ev": "type", "keys": bytesOf(keys)}
	got := []int{}
	s.do(e, func() {
		defer func() { e["got"] = got }()
		for b := keys; len(b) > 0; {
			n, err := syscall.Write(s.p.master, b)
			if err != nil && err != syscall.EINTR && err != syscall.EAGAIN {
				must(err)
			}
			if n > 0 {
				b = b[n:]
			}
		}
		for len(got) < n {
			if _, err := s.term.ReadMore(); err != nil {
				got = append(got, -1)
				return
			}
			for {
				es, _, ok := s.term.Decode()
				if !ok {
					break
				}
				got = append(got, int(es))
			}
		}
	})
}

func bytesOf(p []byte) []int {
	l := make([]int, len(p))
	for i := range p {
		l[i] = int(p[i])
	}
	return l
}

func (s *ttySim) flush() {
	b := s.ts.Bounds()
	e := E{"ev": "flush", "gw": b.Dx(), "gh": b.Dy(), "g": logGrid(s.ts.Grid), "u": logCursor(s.ts.UserCursor)}
	s.do(e, func() { e["err"] = errStr(s.term.Flush(s.ts)) })
}

func (s *ttySim) edit() {
	r := s.r
	ts := s.ts
	e := E{"ev": "edit"}
	s.do(e, func() {
		switch r.Intn(6) {
		case 0:
			ts.Clear()
		case 1:
			ts.UserCursor.Point = ansi.Pt(1+r.Intn(s.w), 1+r.Intn(s.h))
			ts.UserCursor.Visible = r.Intn(3) > 0
			ts.UserCursor.Attr = mkAttr(smallAttr(r))
		case 2:
			ts.To(ansi.Pt(1+r.Intn(s.w), 1+r.Intn(s.h)))
			ts.WriteSGR(mkAttr(smallAttr(r)))
			ts.WriteString([]string{"hello", "x", "ab"}[r.Intn(3)])
		default:
			for k := 1 + r.Intn(4); k > 0; k-- {
				if i := r.Intn(len(ts.Grid.Rune) + 1); i < len(ts.Grid.Rune) {
					ts.Grid.Rune[i], ts.Grid.Attr[i] = randRune(r), mkAttr(smallAttr(r))
				}
			}
		}
	})
}

// print is what the user shows outside; it leaves default attributes.
func (s *ttySim) print() {
	t := []string{"$ ls", "\r", "a", "\x1b[1mbold\x1b[0m", "\x1b[2J", "\x1b[2;2H", "xyz"}[s.r.Intn(7)]
	syscall.Write(s.p.slave, []byte(t))
	s.emit(E{"ev": "print"})
}

func (s *ttySim) resize() {
	w, h := 1+s.r.Intn(6), 1+s.r.Intn(4)
	e := E{"ev": "size", "w": w, "h": h, "cells": garbage(s.r, w*h), "x": 1 + s.r.Intn(w), "y": 1 + s.r.Intn(h)}
	s.setSize(w, h)
	if s.active {
		s.do(e, func() { s.ts.SizeToTerm(s.term) })
	} else {
		s.emit(e)
	}
}

var ttyModes = []ansi.Mode{ansi.ModeAlternateScreen, ansi.ModeMouseSgrExt, ansi.ModeMouseBtnEvent, ansi.ModeBracketedPaste, 4, 20, ansi.ModeMouseVt200}

func (s *ttySim) addModes() {
	ms := []int{}
	var l []ansi.Mode
	for n := 1 + s.r.Intn(2); n > 0; n-- {
		m := ttyModes[s.r.Intn(len(ttyModes))]
		l = append(l, m)
		k := int(m &^ ansi.ModePrivate)
		if m&ansi.ModePrivate == 0 {
			k = -k
		}
		ms = append(ms, k)
	}
	e := E{"ev": "mode", "ms": ms}
	s.do(e, func() { s.term.AddMode(l...) })
}

// randStep is one random step; false to return.
func (s *ttySim) randStep() bool {
	r := s.r
	s.budget--
	if s.depth > 0 && (s.budget <= 0 || r.Intn(9) == 0) {
		s.want = []string{"", "", "", "user", "panic"}[r.Intn(5)]
		return false
	}
	switch k := r.Intn(17); {
	case k == 0:
		s.setRaw(r.Intn(3) > 0)
	case k == 1:
		s.setEcho(r.Intn(2) == 0)
	case k == 2:
		s.stty(randTermios(r, s.p.termios()))
	case k == 3 && !s.active:
		f := func(fd int) uintptr {
			fl := rawFlags(fd)
			for _, b := range []uintptr{syscall.O_NONBLOCK, syscall.O_APPEND, syscall.O_ASYNC} {
				if r.Intn(3) == 0 {
					fl ^= b
				}
			}
			return fl
		}
		s.chfl(f(s.infd), f(s.outfd))
	case k == 4 && s.active:
		s.readAny()
	case k <= 6 && s.active && s.raw && s.echo != "on" && !s.dirty:
		s.typeKeys()
	case k <= 10 && s.active && s.ts != nil:
		s.edit()
		if r.Intn(2) == 0 {
			s.flush()
		}
	case k == 11 && s.active && s.ts != nil:
		s.flush()
	case k == 12 && !s.active:
		s.print()
	case k == 13 && (!s.active || s.ts != nil):
		s.resize()
	case k == 14 && !s.under:
		s.addModes()
	case k == 15 && s.depth > 0 && s.depth < 4:
		s.sub("without")
	case k == 16 && s.depth > 0 && s.depth < 4:
		s.sub("with")
	}
	return true
}

func (s *ttySim) sub(op string) {
	fail := 0
	if s.r.Intn(8) == 0 {
		fail = 1 + s.r.Intn(2)
	}
	s.call(op, fail)
}

func (s *ttySim) episode() {
	r := s.r
	pick := func() (fl uintptr) {
		if r.Intn(3) == 0 {
			fl |= syscall.O_NONBLOCK
		}
		if r.Intn(4) == 0 {
			fl |= syscall.O_APPEND
		}
		return fl
	}
	s.start(r.Intn(3) > 0, r.Intn(4) == 0, pick(), pick(), r.Intn(3) == 0)
	s.step = (*ttySim).randStep
	for n := 1 + r.Intn(3); n > 0 && !s.dead; n-- {
		s.under = false
		s.budget = r.Intn(4)
		for s.budget > 0 && !s.dead {
			s.randStep()
		}
		if s.dead {
			break
		}
		s.budget = 5 + r.Intn(25)
		fail := 0
		if r.Intn(8) == 0 {
			fail = 1 + r.Intn(2)
		}
		s.top("with", fail)
	}
	s.stop()
}

type ttyOp struct {
	Op    string   `json:"op"`
	V     bool     `json:"v"`
	T     int      `json:"t"`
	Err   bool     `json:"err"`
	InFl  []string `json:"infl"`
	OutFl []string `json:"outfl"`
}

func (s *ttySim) replay(ops []ttyOp) {
	fl := func(l []string) uintptr {
		if len(l) > 0 {
			return syscall.O_NONBLOCK
		}
		return 0
	}
	s.start(s.r.Intn(2) == 0, false, fl(ops[0].InFl), fl(ops[0].OutFl), false)
	s.under = false
	s.addModes()
	orig := s.p.termios()
	i := 1
	s.step = func(s *ttySim) bool {
		if i >= len(ops) {
			return false
		}
		op := ops[i]
		i++
		switch op.Op {
		case "ret":
			if op.Err {
				s.want = []string{"user", "panic"}[s.r.Intn(2)]
			}
			return false
		case "with", "without":
			s.call(op.Op, 0)
		case "raw":
			s.setRaw(op.V)
		case "echo":
			s.setEcho(op.V)
		case "stty":
			t := orig
			if op.T == 1 {
				t.Iflag = syscall.ISTRIP
				t.Oflag = 0
				t.Cflag |= syscall.CSTOPB
				t.Lflag = syscall.ICANON
				t.Cc[syscall.VMIN], t.Cc[syscall.VTIME] = 5, 3
			}
			s.stty(t)
		case "chfl":
			s.chfl(rawFlags(s.infd)&^syscall.O_NONBLOCK|fl(op.InFl), rawFlags(s.outfd)&^syscall.O_NONBLOCK|fl(op.OutFl))
		case "readany":
			s.readAny()
		case "readmore":
			if s.raw && s.echo != "on" && !s.dirty {
				s.typeKeys()
			}
		case "flush":
			if s.ts != nil {
				s.edit()
				s.flush()
			}
		}
		return true
	}
	for i < len(ops) && !s.dead {
		op := ops[i]
		switch op.Op {
		case "with", "without": // the latter only if what was entered failed
			i++
			s.top(op.Op, 0)
		case "withfail":
			i++
			s.top("with", 1)
		case "ret": // passed on
			i++
		default:
			s.step(s)
		}
	}
	s.stop()
}

// parallel runs jobs on sub traces; each job has a seed of its own.
func parallel(env *Env, tr *Trace, jobs []func(tr *Trace, r *rand.Rand)) {
	var wg sync.WaitGroup
	next := make(chan int)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sub := tr.Sub()
			for i := range next {
				jobs[i](sub, rand.New(rand.NewSource(env.Seed*1000003+int64(i))))
				sub.Commit()
			}
		}()
	}
	for i := range jobs {
		next <- i
	}
	close(next)
	wg.Wait()
}

func ttyDriver(env *Env, tr *Trace) error {
	var jobs []func(tr *Trace, r *rand.Rand)
	if env.Gen != "" {
		if err := readGen(env, func(raw json.RawMessage) error {
			var ops []ttyOp
			if err := json.Unmarshal(raw, &ops); err != nil {
				return err
			}
			jobs = append(jobs, func(tr *Trace, r *rand.Rand) { (&ttySim{tr: tr, r: r, outmode: syscall.O_WRONLY}).replay(ops) })
			return nil
		}); err != nil {
			return err
		}
	}
	for i := 0; i < env.N; i++ {
		jobs = append(jobs, func(tr *Trace, r *rand.Rand) {
			s := &ttySim{tr: tr, r: r, outmode: syscall.O_WRONLY}
			if r.Intn(15) == 0 {
				s.unwritable()
				return
			}
			s.episode()
		})
	}
	parallel(env, tr, jobs)
	return nil
}
