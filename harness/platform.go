package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
)

func init() {
	drivers["platform"] = func(env *Env, tr *Trace) error { return platformDriver(env, tr, "live") }
	drivers["replay"] = func(env *Env, tr *Trace) error { return platformDriver(env, tr, "replay") }
	children["platform"] = platformChild
}

// platformDriver fans out to child processes, since signals and recordings
// are process wide.
func platformDriver(env *Env, tr *Trace, mode string) error {
	const kids = 8
	var wg sync.WaitGroup
	errs := make([]error, kids)
	for k := 0; k < kids; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			errs[k] = runKid(env, tr, "platform", k, kids, mode)
		}(k)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

// runKid runs a child process in a scratch directory, and takes over its trace.
func runKid(env *Env, tr *Trace, child string, k, kids int, args ...string) error {
	dir, err := os.MkdirTemp(env.Dir, "kid")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	n := env.N / kids
	if k < env.N%kids {
		n++
	}
	out := filepath.Join(dir, "trace")
	cmd := exec.Command(os.Args[0], append([]string{"-child", child,
		strconv.FormatInt(env.Seed*1000003+int64(k), 10), strconv.Itoa(n), out, env.Gen,
		strconv.Itoa(k), strconv.Itoa(kids), strconv.Itoa(env.GenMax)}, args...)...)
	cmd.Dir = filepath.Join(dir, "cwd")
	if err := os.Mkdir(cmd.Dir, 0777); err != nil {
		return err
	}
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runErr := cmd.Run()
	f, err := os.Open(out + ".0")
	if err != nil {
		return fmt.Errorf("child %s: %v %v\n%s", child, runErr, err, stderr.String())
	}
	defer f.Close()
	sub := tr.Sub()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var e struct{ Ev string }
		b := append([]byte(nil), sc.Bytes()...)
		if json.Unmarshal(b, &e) != nil {
			break // cut short
		}
		if e.Ev == "reset" {
			sub.Commit()
		}
		sub.lines, sub.names = append(sub.lines, b), append(sub.names, e.Ev)
	}
	if runErr != nil {
		msg := stderr.String()
		st, _ := cmd.ProcessState.Sys().(syscall.WaitStatus)
		if !st.Signaled() && !strings.Contains(msg, "panic:") && !strings.Contains(msg, "fatal error:") && !strings.Contains(msg, "DATA RACE") {
			return fmt.Errorf("child %s: %v\n%s", child, runErr, msg)
		}
		if len(msg) > 1500 {
			msg = msg[:1500]
		}
		sub.Emit(E{"ev": "crash", "bad": fmt.Sprint(runErr, ": ", msg)})
	}
	sub.Commit()
	return nil
}

type kidArgs struct {
	seed          int64
	n             int
	tr            *Trace
	gen           string
	k, kids, gmax int
	rest          []string
}

func parseKid(args []string) (ka kidArgs, err error) {
	num := func(s string) int {
		v, nerr := strconv.ParseInt(s, 10, 64)
		if nerr != nil {
			err = nerr
		}
		return int(v)
	}
	ka = kidArgs{seed: int64(num(args[0])), n: num(args[1]), gen: args[3], k: num(args[4]), kids: num(args[5]), gmax: num(args[6]), rest: args[7:]}
	if err == nil {
		ka.tr, err = NewTrace(args[2], 1)
	}
	theTrace = ka.tr
	return ka, err
}

func platformChild(args []string) error {
	ka, err := parseKid(args)
	if err != nil {
		return err
	}
	s := &platSim{tr: ka.tr, mode: ka.rest[0], base: time.Now().Round(0), mbase: time.Now()}
	s.watch = make(chan os.Signal, 100)
	signal.Notify(s.watch, syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP, syscall.SIGWINCH)
	if ka.gen != "" {
		i := 0
		env := &Env{Seed: ka.seed / 1000003, Gen: ka.gen, GenMax: ka.gmax}
		if err := readGen(env, func(raw json.RawMessage) error {
			if i++; i%ka.kids != ka.k {
				return nil
			}
			var g struct{ H []string }
			if err := json.Unmarshal(raw, &g); err != nil {
				return err
			}
			s.script = g.H
			s.r = rand.New(rand.NewSource(ka.seed + int64(i)))
			s.episode()
			return nil
		}); err != nil {
			return err
		}
	}
	s.script = nil
	for i := 0; i < ka.n; i++ {
		s.r = rand.New(rand.NewSource(ka.seed*7919 + int64(i)))
		s.episode()
	}
	return ka.tr.Close()
}

// Model is the client's state, that recordings have to preserve.
type Model struct {
	N     int
	Text  string
	Count map[string]int
	Flag  bool
	Pos   struct{ X, Y int }
	Opt   *int
	List  [][]int

	cache int // not recorded
}

func (m *Model) handle(es *platform.Events, id int) {
	m.N++
	switch es.Type[id] {
	case platform.EventEscape:
		switch es.Escape(id).ID {
		case ansi.CSI('A'):
			m.Pos.Y--
		case ansi.CSI('B'):
			m.Pos.Y++
		case ansi.CSI('C'):
			m.Pos.X++
		case ansi.CSI('D'):
			m.Pos.X--
		}
	case platform.EventRune:
		switch r := es.Rune(id); {
		case r == '!':
			m.Text, m.Count, m.List, m.N = "", nil, nil, 0
		case r == 't':
			m.Flag = !m.Flag
		case r == 'o':
			n := m.N
			m.Opt = &n
		case r == 'n':
			m.Opt = nil
		case r == 'l':
			m.List = append(m.List, []int{m.N, 0})
		case r == 'm':
			if n := len(m.List); n > 0 {
				m.List = m.List[:n-1]
			}
		case r >= 'a' && r <= 'k':
			m.Text += string(r)
			if m.Count == nil {
				m.Count = map[string]int{}
			}
			m.Count[string(r)]++
		}
	}
}

func (m *Model) log() E {
	count := [][]int{}
	for k, v := range m.Count {
		count = append(count, []int{int(k[0]), v})
	}
	sort.Slice(count, func(i, j int) bool { return count[i][0] < count[j][0] })
	opt := -1
	if m.Opt != nil {
		opt = *m.Opt
	}
	list := [][]int{}
	for _, l := range m.List {
		list = append(list, append([]int{}, l...))
	}
	return E{"n": m.N, "text": bytesOf([]byte(m.Text)), "count": count, "flag": m.Flag, "x": m.Pos.X, "y": m.Pos.Y, "opt": opt, "list": list}
}

type platClient struct {
	Model
	s *platSim
}

var errStuck = errors.New("stuck")

type platSim struct {
	tr     *Trace
	r      *rand.Rand
	mode   string
	base   time.Time
	mbase  time.Time // with monotonic time
	watch  chan os.Signal
	sent   map[os.Signal]bool // signals that may not have been delivered
	script []string
	half   []string

	p      *pty
	st     streamTok
	in     *os.File
	out    *os.File
	infd   int
	outfd  int
	w, h   int
	plat   *platform.Platform
	modes  map[int]bool
	frames int // in this run
	runs   int
	max    int
	typed  int // bytes
	drew   bool
	cl     *platClient

	mu    sync.Mutex // typing
	burst sync.WaitGroup

	// settling
	marks   int
	ahead   rune      // mark typed before the run
	once    bool      // the mark was typed once
	again   time.Time // to type the mark again, if not zero
	mark    rune      // waiting for it to be seen
	since   time.Time
	then    func() // once settled
	recs    int    // recording: 0 off, 1 starting, 2 on
	replays bool   // a replay is loaded
	pausing bool   // in this run
	keys    int
	ended   bool // the recording
	flight  bool // what was typed may not have arrived yet
	stopped bool // Ctrl-C was typed
	noRedr  bool // a size change is not settled
	ending  bool
	done    bool // no more runs
}

func (s *platSim) us(t time.Time) int {
	if t.IsZero() {
		return -1
	}
	return int(t.Round(0).Sub(s.base) / time.Microsecond)
}

// mono is monotonic time, in so far as t has it.
func (s *platSim) mono(t time.Time) int { return int(t.Sub(s.mbase) / time.Microsecond) }

func (s *platSim) write(b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.tr.Emit(E{"ev": "type", "b": bytesOf(b)})
	s.typed += len(b)
	s.flight = true
	for len(b) > 0 {
		n, err := syscall.Write(s.p.master, b)
		if err != nil && err != syscall.EINTR && err != syscall.EAGAIN {
			must(err)
		}
		if n > 0 {
			b = b[n:]
		}
	}
}

// arrive is write, but waits until it may be read, in a frame.
func (s *platSim) arrive(b []byte) {
	n, flight := readable(s.infd)+len(b), s.flight
	s.write(b)
	for t0 := time.Now(); !flight && readable(s.infd) < n; {
		flight = time.Since(t0) > 50*time.Millisecond
	}
	s.flight = flight
}

var halves = [][]string{{"\x1b[", "A"}, {"\x1b[<35;1", ";2M"}, {"\xe2\x98", "\x83"}, {"\x1b[1", "5~"}, {"\xf0\x9f", "\x98\x80"}, {"a\x1b[", "Cb"}}

// whole is an item that is not in parts.
func (s *platSim) whole() string {
	for {
		if it := s.item(s.r); len(it) == 1 && (s.mode != "replay" || !strings.Contains(it[0], "\x0c")) {
			return it[0]
		}
	}
}

// item is some input, possibly in two parts.
func (s *platSim) item(r *rand.Rand) []string {
	one := func(ss ...string) []string { return []string{ss[r.Intn(len(ss))]} }
	switch k := r.Intn(14); {
	case k < 6:
		return one("a", "b", "c", "d", "e", "t", "o", "n", "l", "m", "!", "k")
	case k < 7:
		return one("x", "\r", "λ", "☃", "\x1b", "😀")
	case k < 9:
		return one("\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1b[15~", "\x1bOP")
	case k < 11:
		return one(fmt.Sprintf("\x1b[<35;%d;%dM", 1+r.Intn(9), 1+r.Intn(6)), fmt.Sprintf("\x1b[<64;%d;%dM", 1+r.Intn(9), 1+r.Intn(6)),
			fmt.Sprintf("\x1b[<2;%d;%dM", 1+r.Intn(9), 1+r.Intn(6)), fmt.Sprintf("\x1b[<2;%d;%dm", 1+r.Intn(9), 1+r.Intn(6)))
	case k < 12:
		return one("\x0b", "∥", "\x0b∥")
	case k < 13:
		if s.noRedr {
			return one("f", "g")
		}
		return one("\x0c", "f\x0cg")
	default:
		return halves[r.Intn(len(halves))]
	}
}

func (s *platSim) room() bool { return s.typed < 200 }

func (s *platSim) typeItems(n int) {
	if !s.room() {
		return
	}
	var items []string
	for ; n > 0; n-- {
		items = append(items, s.item(s.r)...)
	}
	if len(items) == 1 {
		s.burst.Wait()
		s.write([]byte(items[0]))
		return
	}
	gap := s.r.Intn(4000)
	r := rand.New(rand.NewSource(s.r.Int63()))
	s.burst.Wait()
	s.burst.Add(1)
	go func() {
		defer s.burst.Done()
		for _, it := range items {
			if gap > 0 && r.Intn(3) > 0 {
				time.Sleep(time.Duration(r.Intn(gap)) * time.Microsecond)
			}
			s.write([]byte(it))
		}
	}()
}

func (s *platSim) resize(signal bool) {
	s.w, s.h = 1+s.r.Intn(8), 1+s.r.Intn(5)
	s.p.size(s.w, s.h)
	s.tr.Emit(E{"ev": "size", "w": s.w, "h": s.h, "winch": signal, "cells": garbage(s.r, s.w*s.h)})
	if signal {
		s.kill(syscall.SIGWINCH)
	}
}

// kill sends a signal to this process, but not more than one at a time.
func (s *platSim) kill(sig syscall.Signal) {
	if s.sent[sig] {
		s.delivered()
	}
	s.sent[sig] = true
	must(syscall.Kill(syscall.Getpid(), sig))
}

// delivered waits until all signals have been delivered to all channels.
func (s *platSim) delivered() {
	for deadline := time.After(20 * time.Second); len(s.sent) > 0; {
		select {
		case sig := <-s.watch:
			delete(s.sent, sig)
		case <-deadline:
			panic("signals are not delivered")
		}
	}
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.SIGUSR2)
	signal.Stop(ch) // waits for deliveries under way
}

func (s *platSim) raise(sig syscall.Signal) {
	s.tr.Emit(E{"ev": "sig", "err": anansi.SigErr(sig).Error()})
	s.kill(sig)
	s.since = time.Now()
}

// settle types a mark, and waits until it was seen.
func (s *platSim) settle(then func()) {
	s.burst.Wait()
	s.delivered()
	s.marks++
	s.mark = rune(0x4e00 + s.marks)
	s.since = time.Now()
	s.then, s.once = then, true
	if s.replays {
		s.arrive([]byte(string(s.mark)))
	} else {
		s.write([]byte(string(s.mark)))
	}
}

var modeRE = regexp.MustCompile("\x1b\\[\\?([0-9;]+)([hl])")

// output is what was written since; modes are tracked.
func (s *platSim) output() [][]int {
	b := s.p.out()
	for _, m := range modeRE.FindAllSubmatch(b, -1) {
		for _, n := range strings.Split(string(m[1]), ";") {
			v, _ := strconv.Atoi(n)
			s.modes[v] = m[2][0] == 'h'
		}
	}
	return s.st.feed(b)
}

func (s *platSim) modesOn() []int {
	on := []int{}
	for m, v := range s.modes {
		if v {
			on = append(on, m)
		}
	}
	sort.Ints(on)
	return on
}

func (c *platClient) Update(ctx *platform.Context) error {
	s := c.s
	if s.drew {
		s.tr.Emit(E{"ev": "flush", "toks": s.output(), "rest": len(s.st.rest)})
		s.drew = false
	}
	now := time.Now()
	b := ctx.Output.Bounds()
	q := []E{}
	seen := false
	pauses, fail := 0, false
	for i, k := range ctx.Input.Type {
		if k == platform.EventNone {
			continue
		}
		esc, m := ctx.Input.Escape(i), ctx.Input.Mouse(i)
		q = append(q, E{"k": int(k), "id": int(esc.ID), "r": int(ctx.Input.Rune(i)), "arg": ints(esc.Arg), "m": []int{int(m.State), m.X, m.Y}})
		if k == platform.EventRune {
			switch ctx.Input.Rune(i) {
			case s.mark:
				seen = s.mark != 0
			case '∥':
				pauses++
			case '€':
				fail = true
			}
		}
		c.handle(ctx.Input, i)
	}
	blank := ctx.Output.UserCursor == anansi.Cursor{} && b.Dx()*b.Dy() == len(ctx.Output.Grid.Rune)
	for i := range ctx.Output.Grid.Rune {
		blank = blank && ctx.Output.Grid.Rune[i] == 0 && ctx.Output.Grid.Attr[i] == 0
	}
	s.mu.Lock()
	unread := -1
	if !s.flight {
		unread = readable(s.infd)
	}
	s.tr.Emit(E{"ev": "frame", "q": q, "redraw": ctx.Redraw, "w": b.Dx(), "h": b.Dy(), "lw": ctx.LastSize.X, "lh": ctx.LastSize.Y,
		"t": s.us(ctx.Time), "lt": s.us(ctx.LastTime), "pt": s.us(ctx.Platform.Time), "now": s.us(now), "mt": s.mono(ctx.Platform.Time), "mnow": s.mono(now), "paused": ctx.Paused,
		"hud": ctx.HUD.Visible, "err": errStr(ctx.Err), "blank": blank, "unread": unread})
	s.mu.Unlock()
	s.frames++

	// draw something
	r := s.r
	if n := len(ctx.Output.Grid.Rune); n > 0 && r.Intn(5) > 0 {
		for k := r.Intn(7); k > 0; k-- {
			i := r.Intn(n)
			ctx.Output.Grid.Rune[i], ctx.Output.Grid.Attr[i] = randRune(r), mkAttr(smallAttr(r))
		}
	}
	if r.Intn(3) > 0 {
		ctx.Output.UserCursor.Point = ansi.Pt(1+r.Intn(8), 1+r.Intn(5))
		ctx.Output.UserCursor.Visible = r.Intn(4) > 0
		if r.Intn(3) == 0 {
			ctx.Output.UserCursor.Attr = mkAttr(smallAttr(r))
		}
	}
	if pauses%2 == 1 {
		ctx.Paused = !ctx.Paused
	}

	s.act(seen)

	var ret error
	if fail {
		ret = errUser
	}
	if s.mark != 0 || s.ending {
		if late := time.Since(s.since); late > 8*time.Second {
			s.tr.Emit(E{"ev": "settled", "ok": false, "why": fmt.Sprint("waits for ", string(s.mark), s.ending)})
			ret, s.done = errStuck, true
		} else if late > 400*time.Millisecond {
			time.Sleep(50 * time.Millisecond) // not too many frames
		}
	}
	s.tr.Emit(E{"ev": "drawn", "g": logGrid(ctx.Output.Grid), "u": logCursor(ctx.Output.UserCursor), "st": c.log(), "ret": errStr(ret)})
	s.drew = true
	return ret
}

// act does something to the platform, from within a frame.
func (s *platSim) act(seen bool) {
	r := s.r
	if s.mark != 0 {
		if !seen {
			if !s.again.IsZero() && time.Now().After(s.again) {
				s.once = false
				s.arrive([]byte(string(s.mark)))
				s.again = time.Now().Add(300 * time.Millisecond)
			}
			return
		}
		s.mark, s.again = 0, time.Time{}
		s.noRedr = false
		s.flight = s.flight && !s.once // it was the last
		s.stopped, s.replays = false, s.replays && !s.stopped
		s.tr.Emit(E{"ev": "settled", "ok": true, "why": ""})
		if f := s.then; f != nil {
			s.then = nil
			f()
			return
		}
	}
	if s.ending {
		return
	}
	if s.script != nil {
		if s.mode == "replay" && s.recs == 0 {
			s.record()
			return
		}
		for len(s.script) > 0 {
			op := s.script[0]
			s.script = s.script[1:]
			switch op {
			case "k":
				s.write([]byte(s.whole()))
			case "h1":
				s.half = halves[r.Intn(len(halves))]
				s.write([]byte(s.half[0]))
			case "h2":
				s.write([]byte(s.half[1]))
				s.half = nil
			case "s":
				s.resize(true)
			case "f":
				return
			}
		}
		if s.half != nil {
			s.write([]byte(s.half[1]))
			s.half = nil
		}
		if s.mode == "replay" {
			s.script = nil
			s.settle(func() { s.frames = s.max + 1; s.act(false) }) // replay it
			return
		}
		s.settle(func() { s.finish() })
		return
	}
	if s.replays {
		switch {
		case r.Intn(30) == 0 || s.runs > 8:
			s.finish()
		case s.pausing && s.room() && s.keys < 5 && r.Intn(4) == 0:
			s.keys++ // TLC has to consider when each was read
			s.arrive([]byte([]string{" ", " ", ".", ".", "  ", " .", "..", ". ", "   ", "..."}[r.Intn(10)]))
		case !s.pausing && s.room() && s.recs == 0 && r.Intn(25) == 0:
			s.arrive([]byte("q"))
		case s.room() && (s.frames > s.max || r.Intn(40) == 0):
			s.burst.Wait()
			s.stopped = true
			if r.Intn(2) == 0 {
				s.arrive([]byte("ab\x03c"))
			} else {
				s.arrive([]byte{3})
			}
			s.settle(nil)
			s.again = time.Now().Add(20 * time.Millisecond) // what is read with Ctrl-C is dropped
			if s.flight {
				s.again = s.again.Add(300 * time.Millisecond)
			}
		case s.frames > s.max:
			s.finish()
		case r.Intn(60) == 0:
			s.resize(true)
		}
		return
	}
	if s.frames > s.max {
		if s.recs == 2 {
			s.burst.Wait()
			s.write([]byte{18})
			s.ended = true
			s.recs, s.replays = 0, true
			s.ending, s.since = true, time.Now()
			return
		}
		s.settle(func() { s.finish() })
		return
	}
	switch k := r.Intn(40); {
	case k < 14:
	case k < 22:
		s.typeItems(1)
	case k < 27:
		s.typeItems(2 + r.Intn(5))
	case k < 30:
		s.noRedr = true
		s.resize(true)
		if r.Intn(2) == 0 {
			s.settle(nil)
		}
	case k < 31:
		if s.mode == "live" && s.room() {
			s.resize(false)
			s.burst.Wait()
			s.write([]byte{12})
		}
	case k < 33:
		time.Sleep(time.Duration(r.Intn(6000)) * time.Microsecond)
	case k < 35:
		s.settle(nil)
	case k < 36:
		if s.mode == "live" {
			s.finish()
		}
	default:
		if s.mode == "replay" && s.room() {
			switch s.recs {
			case 0:
				s.record()
			case 2:
				if s.frames > s.max/2 {
					s.frames = s.max
				}
			}
		}
	}
}

// record starts a recording.
func (s *platSim) record() {
	s.recs = 1
	s.settle(func() { // before, nothing is in flight
		s.write([]byte("\x12\x0c"))
		s.recs = 2
		s.settle(nil)
	})
}

// finish ends the run, one way or another.
func (s *platSim) finish() {
	s.burst.Wait()
	s.ending, s.since = true, time.Now()
	switch s.r.Intn(5) {
	case 0, 1:
		if !s.replays {
			s.write([]byte("€"))
			return
		}
	case 2:
		s.raise(syscall.SIGINT)
		return
	case 3:
		s.raise(syscall.SIGHUP)
		return
	}
	s.raise(syscall.SIGTERM)
}

func (s *platSim) run(p *platform.Platform, again bool) error {
	s.modesAt("enter")
	for runs := 1 + s.r.Intn(2); ; runs-- {
		if s.cl == nil || s.recs == 0 && s.r.Intn(3) == 0 {
			s.cl = &platClient{s: s}
		}
		s.tr.Emit(E{"ev": "run", "st": s.cl.log()})
		s.ending, s.frames, s.drew = false, 0, false
		s.ended = false
		s.pausing, s.keys = s.r.Intn(2) == 0, 0
		if s.pausing && s.replays {
			s.max += 20
		}
		s.mark, s.then, s.again = s.ahead, nil, time.Time{}
		s.ahead, s.since, s.once = 0, time.Now(), false
		s.runs++
		if s.recs == 1 {
			s.recs = 0
		}
		if s.r.Intn(3) == 0 {
			time.Sleep(time.Duration(s.r.Intn(9000)) * time.Microsecond)
		}
		err := p.Run(s.cl)
		s.burst.Wait()
		s.tr.Emit(E{"ev": "ran", "err": errStr(err), "toks": s.output(), "drew": s.drew, "rest": len(s.st.rest), "isdone": platform.IsReplayDone(err)})
		s.drew = false
		if s.done || err == nil {
			return err
		}
		if platform.IsReplayDone(err) && s.ended {
			s.flight = false // that was the last
		}
		s.ended = false
		if platform.IsReplayDone(err) && s.room() {
			s.max = 4 + s.r.Intn(25)
			runs++
			continue
		}
		if runs <= 1 || !s.room() || s.script != nil {
			return err
		}
		s.max = 4 + s.r.Intn(15)
	}
}

func (s *platSim) modesAt(ev string) {
	s.output()
	s.tr.Emit(E{"ev": ev, "modes": s.modesOn()})
}

func (s *platSim) state() E {
	return E{"tio": logTermios(s.p.termios()), "flin": bitList(uint64(rawFlags(s.infd))), "flout": bitList(uint64(rawFlags(s.outfd)))}
}

func (s *platSim) episode() {
	r := s.r
	s.p = openPty()
	s.st, s.modes = streamTok{}, map[int]bool{}
	s.w, s.h = 1+r.Intn(8), 1+r.Intn(5)
	s.p.size(s.w, s.h)
	s.typed, s.marks, s.ahead, s.mark, s.recs, s.runs, s.half, s.sent = 0, 0, 0, 0, 0, 0, nil, map[os.Signal]bool{}
	s.replays, s.stopped, s.noRedr, s.done, s.cl, s.then = false, false, false, false, nil, nil
	s.flight, s.ended = true, false
	s.max = 4 + r.Intn(25)
	if s.mode == "replay" {
		s.max = 15 + r.Intn(25)
	}
	s.infd = s.p.open(syscall.O_RDWR)
	s.in = os.NewFile(uintptr(s.infd), "in")
	s.out, s.outfd = s.in, s.infd
	if r.Intn(2) == 0 {
		s.outfd = s.p.open(syscall.O_WRONLY)
		s.out = os.NewFile(uintptr(s.outfd), "out")
	}
	fps := []int{400, 400, 500, 250, 1000}[r.Intn(5)]
	e := s.state()
	e["w"], e["h"], e["cells"], e["period"] = s.w, s.h, garbage(r, s.w*s.h), 1000000/fps
	s.tr.Episode(e)
	e = E{"ev": "end"}
	s.tr.Do(e, func() {
		var opts []platform.Option
		opts = append(opts, platform.FrameRate(fps), platform.Config{})
		if r.Intn(2) == 0 {
			opts[0], opts[1] = opts[1], opts[0]
		}
		p, err := platform.New(s.in, s.out, opts...)
		if err != nil {
			panic(fmt.Sprint("New: ", err))
		}
		s.plat = p
		for again := false; ; again = true {
			if r.Intn(3) == 0 && s.room() {
				b := "abc"[:1+r.Intn(3)] // ahead
				if !s.replays && r.Intn(2) == 0 {
					s.marks++
					s.ahead = rune(0x4e00 + s.marks)
					b += string(s.ahead)
				}
				s.write([]byte(b))
				if r.Intn(2) == 0 {
					time.Sleep(2 * time.Millisecond)
				}
			}
			err = p.RunWith(func(p *platform.Platform) error { return s.run(p, again) })
			s.output()
			l := s.state()
			l["ev"], l["modes"], l["err"] = "left", s.modesOn(), errStr(err)
			s.delivered()
			s.tr.Emit(l)
			if s.done || again || !s.room() || s.script != nil || r.Intn(4) > 0 {
				break
			}
			s.max = 3 + r.Intn(10)
		}
	})
	s.tr.Emit(e)
	s.in.Close()
	if s.out != s.in {
		s.out.Close()
	}
	s.p.close()
	if e["bad"] != "" {
		s.delivered()
	}
	_ = os.Remove("auto.rec")
}
