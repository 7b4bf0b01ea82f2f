package main

import (
	"encoding/json"
	"fmt"
	"image"
	"io"
	"log"
	"math"
	"math/rand"
	"os"
	"regexp"
	"runtime/pprof"
	"runtime/trace"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
)

func init() {
	drivers["hud"] = hudDriver
	children["hud"] = hudChild
}

var hudSegs = regexp.MustCompile(`(?P<mouse>\S+@\(\d+,\d+\))|(?P<W>W:[ \d]{4}\d)|(?P<size>\(\d+,\d+\))|(?P<prof>[⊙◴◷◶◵])|(?P<fps>FPS:\S+/s)|(?P<time>\d+:\d+:\d+\.\d+)`)

// numbers that a text shows, of its kind: times and durations in microseconds, fractions in thousandths.
func numbers(v string) []int {
	ns := []int{}
	var a, b, c, d int
	if n, _ := fmt.Sscanf(v, "%d:%d:%d.%6d", &a, &b, &c, &d); n == 4 {
		return append(ns, (a*60+b)*60+c, d)
	}
	if i := strings.IndexByte(v, '('); i >= 0 {
		fmt.Sscanf(v[i:], "(%d,%d)", &a, &b)
		return append(ns, a, b)
	}
	var f float64
	if strings.HasSuffix(v, "%") {
		fmt.Sscanf(v, "%g", &f)
		return append(ns, int(math.Round(f*100)))
	}
	if t, err := time.ParseDuration(v); err == nil && strings.HasSuffix(v, "s") {
		return append(ns, int(t/time.Microsecond))
	}
	if v = strings.TrimSuffix(strings.TrimPrefix(v, "FPS:"), "/s"); v != "" {
		if n, _ := fmt.Sscanf(strings.TrimPrefix(v, "W:"), "%d", &a); n == 1 {
			ns = append(ns, a)
		}
	}
	return ns
}

var mouseSeq = regexp.MustCompile(`\x1b\[<\d+;(\d+);(\d+)[mM]`)

// TLC has its strings in ASCII.
var plain = strings.NewReplacer("∂", "d", "∑", "sum", "…", "...")

func hudDriver(env *Env, tr *Trace) error {
	const kids = 8
	var wg sync.WaitGroup
	errs := make([]error, kids)
	for k := 0; k < kids; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			errs[k] = runKid(env, tr, "hud", k, kids)
		}(k)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

type hudRow struct{ k, v, x string }

// hudSpot is something on the screen that may be clicked.
type hudSpot struct {
	c, what  string
	x, x2, y int // columns x to x2
}

type hudSim struct {
	tr   *Trace
	r    *rand.Rand
	p    *platform.Platform
	ctx  platform.Context
	w, h int
	tiny bool
	dead bool

	eat   bool // the client takes clicks
	kinds []int
	seen  []int
	user  []int
	left  []rune // that the client drew
	mouse []int
	st    []int

	spots []hudSpot
}

func (s *hudSim) start(tiny bool) {
	p, err := platform.New(os.Stdin, os.Stdin, platform.Config{})
	works("platform.New", err)
	s.p, s.tiny, s.dead, s.spots, s.mouse, s.st = p, tiny, false, nil, []int{}, nil
	s.p.Time = time.Now()
	all := []string{}
	for _, prof := range pprof.Profiles() {
		all = append(all, prof.Name())
	}
	s.tr.Episode(E{"tiny": tiny, "all": all})
	s.ctx = s.p.Context()
	s.ctx.Time = s.p.Time
	s.size()
}

func (s *hudSim) size() {
	s.w, s.h = 90+s.r.Intn(30), 70+s.r.Intn(10)
	if s.tiny {
		s.w, s.h = s.r.Intn(1+s.r.Intn(60)), s.r.Intn(1+s.r.Intn(30))
	}
	s.ctx.Output.Resize(image.Pt(s.w, s.h))
}

// stop all that is process wide, and remove all files.
func (s *hudSim) stop() {
	pprof.StopCPUProfile()
	trace.Stop()
	for _, f := range s.disk() {
		must(os.Remove(f))
	}
	_, err := io.Copy(io.Discard, &platform.Logs)
	works("reading the log", err)
}

func (s *hudSim) disk() []string {
	names := []string{}
	fs, err := os.ReadDir(".")
	must(err)
	for _, f := range fs {
		names = append(names, f.Name())
	}
	return names
}

func (s *hudSim) Update(ctx *platform.Context) error {
	r := s.r
	s.seen = []int{}
	for i, k := range ctx.Input.Type {
		s.seen = append(s.seen, int(k))
		if s.eat && k == platform.EventMouse {
			ctx.Input.Type[i] = platform.EventNone
		}
	}
	ctx.Output.Clear()
	s.left = nil
	if s.w > 0 && s.h > 0 {
		for n := r.Intn(20); n > 0; n-- {
			ctx.Output.To(ansi.Pt(1+r.Intn(1+s.w/3), 1+r.Intn(s.h)))
			ctx.Output.WriteRune(rune('a' + r.Intn(26)))
		}
		ctx.Output.WriteSGR(ansi.SGRGreen.FG())
		ctx.Output.To(ansi.Pt(1+r.Intn(s.w), 1+r.Intn(s.h)))
		ctx.Output.UserCursor.Point = ansi.Pt(1+r.Intn(1+s.w/3), 1+r.Intn(s.h))
	}
	ctx.Output.UserCursor.Visible = r.Intn(4) == 0
	s.left = append([]rune{}, ctx.Output.Grid.Rune...)
	s.user = s.userCursor()
	return nil
}

func (s *hudSim) userCursor() []int {
	c := s.ctx.Output.UserCursor
	return []int{c.X, c.Y, int(c.Attr & 0xffff), int(c.Attr >> 16 & 0xffff), int(c.Attr >> 32 & 0xffff), int(c.Attr >> 48), map[bool]int{true: 1}[c.Visible]}
}

func (s *hudSim) row(y int) []rune { // with 1 <= y
	return s.ctx.Output.Grid.Rune[(y-1)*s.w : y*s.w]
}

func text(rs []rune) string {
	var sb strings.Builder
	for _, r := range rs {
		if r == 0 {
			r = ' '
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

// scan what is on the screen.
func (s *hudSim) scan(e E) {
	s.spots = nil
	segs, edit := []string{}, ""
	segn := [][]int{}
	hud := &s.p.HUD
	if s.tiny || !hud.Visible {
		e["segs"], e["segn"], e["rows"], e["edit"] = segs, segn, []E{}, edit
		return
	}
	// right of what the client may draw
	from := s.w/3 + 2
	top := text(s.row(1))
	for _, m := range hudSegs.FindAllStringSubmatchIndex(top, -1) {
		for i, name := range hudSegs.SubexpNames() {
			if i == 0 || m[2*i] < 0 {
				continue
			}
			at, end := len([]rune(top[:m[2*i]])), len([]rune(top[:m[2*i+1]]))
			seg := top[m[2*i]:m[2*i+1]]
			if name != "mouse" && at >= from {
				s.spots = append([]hudSpot{{c: name, x: at + 1, x2: end, y: 1}}, s.spots...)
			}
			if name == "prof" {
				if name = "on"; seg == "⊙" {
					name = "off"
				}
			}
			segs, segn = append([]string{name}, segs...), append([][]int{numbers(seg)}, segn...)
		}
	}
	logs := []E{}
	selecting := false
	uc := s.ctx.Output.UserCursor
	for y := 2; y <= s.h-12; y++ {
		rs := s.row(y)
		key := strings.TrimSpace(text(rs[from : s.w-16]))
		val := strings.TrimSpace(text(rs[s.w-16:]))
		if key == "" && val == "" {
			break
		}
		x := s.w - 16
		for x > from && rs[x-1] != 0 && (rs[x-1] != ' ' || rs[x-2] != 0) {
			x--
		}
		ro := hudRow{k: key, v: val}
		if sp, n := utf8.DecodeLastRuneInString(key); strings.ContainsRune("⊙◴◷◶◵", sp) {
			ro.k, ro.x = strings.TrimSpace(key[:len(key)-n]), "on"
			if sp == '⊙' {
				ro.x = "off"
			}
			s.spots = append(s.spots, hudSpot{c: ro.k, what: "spin", x: s.w - 16, x2: s.w - 16, y: y})
		}
		button := strings.HasPrefix(val, "[ ") && strings.HasSuffix(val, " ]")
		switch {
		case strings.HasPrefix(key, "# "):
			ro.v = ""
			s.spots = append(s.spots, hudSpot{c: ro.k, x: s.w - 16 - len(key), x2: s.w, y: y})
		case key == "PProf" && !button || key == "" && selecting:
			selecting = true
			s.spots = append(s.spots, hudSpot{c: val, what: "sel", x: s.w - 15, x2: s.w, y: y})
		case key == "recording":
		case button || uc.Visible && uc.Y == y && uc.X >= s.w-15:
			s.spots = append(s.spots, hudSpot{c: ro.k, x: s.w - 15, x2: s.w, y: y})
		}
		if key != "" && key != "PProf" {
			selecting = false
		}
		if button {
			ro.v = strings.TrimSpace(val[1 : len(val)-1])
		} else if uc.Visible && uc.Y == y && uc.X >= s.w-15 {
			edit = ro.k
		}
		logs = append(logs, E{"k": plain.Replace(ro.k), "v": plain.Replace(ro.v), "x": ro.x, "n": numbers(ro.v)})
	}
	e["segs"], e["segn"], e["rows"], e["edit"] = segs, segn, logs, edit
}

// measured sets what is shown of statistics; rates in fourths, the others in microseconds.
func (s *hudSim) measured(e E) {
	q := s.st
	if q == nil || e["op"] != "click" { // else the controls would move
		q = []int{}
		s.stats(&q)
	}
	s.st = q
	t := s.ctx.Time
	e["st"] = q
	e["t"] = []int{(t.Hour()*60+t.Minute())*60 + t.Second(), t.Nanosecond() / 1000}
	e["dt"] = int(t.Sub(s.ctx.LastTime) / time.Microsecond)
	e["size"], e["mouse"] = []int{s.w, s.h}, s.mouse
}

func (s *hudSim) stats(to *[]int) {
	tel, r, q := &s.p.Telemetry, s.r, *to
	rate := func() float64 {
		n := r.Intn(1 << uint(r.Intn(12)))
		q = append(q, n)
		return float64(n) / 4
	}
	span := func() time.Duration {
		n := r.Intn(1 << uint(1+r.Intn(26)))
		q = append(q, n)
		return time.Duration(n) * time.Microsecond
	}
	tel.FPSEstimate.Value, tel.Timing.Stats.FPS = rate(), rate()
	st := &tel.Timing.Stats
	st.Min, st.Q1, st.Q2, st.Q3, st.Max = span(), span(), span(), span(), span()
	n := r.Intn(200)
	q = append(q, n)
	ss := &tel.Stalls.Stats
	ss.N, ss.Min, ss.Max, ss.Sum = n, span(), span(), span()
	n = r.Intn(10001)
	q = append(q, n)
	ss.Pct = float64(n) / 10000
	*to = q
}

// frame with some input.
func (s *hudSim) frame(e E, in string) {
	if s.dead {
		return
	}
	e["ev"] = "frame"
	p, hud := s.p, &s.p.HUD
	s.dead = !s.tr.Do(e, func() {
		p.LastTime = s.ctx.Time
		p.Time = p.Time.Add(time.Duration(1+s.r.Intn(400)) * time.Millisecond)
		es := s.ctx.Input
		es.Clear()
		es.DecodeBytes([]byte(in))
		s.kinds = []int{}
		for i, k := range es.Type {
			n := int(k)
			if k == platform.EventRune && es.Rune(i) == '\x0b' {
				n = 99
			}
			s.kinds = append(s.kinds, n)
		}
		if s.ctx.Time = p.Time; s.ctx.Paused {
			s.ctx.Time = p.LastTime
		}
		for _, m := range mouseSeq.FindAllStringSubmatch(in, -1) {
			x, _ := strconv.Atoi(m[1])
			y, _ := strconv.Atoi(m[2])
			s.mouse = []int{x, y}
		}
		s.measured(e)
		if err := hud.Update(&s.ctx, s); err != nil {
			panic(err)
		}
		e["kinds"], e["seen"] = s.kinds, s.seen
		e["vis"], e["td"], e["fd"], e["pd"], e["fc"] = hud.Visible, hud.TimeDetail, hud.FPSDetail, hud.ProfDetail, hud.FPSControl
		tel := p.Telemetry.TelemetryState
		e["paused"], e["timing"], e["stalls"], e["logt"], e["logs"] = s.ctx.Paused, tel.TimingEnabled, tel.StallDataEnabled, tel.LogTiming, tel.LogStallData
		e["user"] = [][]int{s.user, s.userCursor()}
		e["txt"], e["cur"] = string(hud.EdLin.Buf), hud.EdLin.Cur
		e["disk"] = s.disk()
		s.scan(e)
		dirt := 0
		for y := 1; y <= s.h; y++ {
			for x := 1; x <= s.w; x++ {
				if i := (y-1)*s.w + x - 1; s.ctx.Output.Grid.Rune[i] != s.left[i] &&
					(!hud.Visible || !s.tiny && y > 1 && (x <= s.w/3+2 || y > 60) && y < s.h-11) {
					dirt++
				}
			}
		}
		e["dirt"] = dirt
	})
	s.tr.Emit(e)
}

func (s *hudSim) press(x, y int) string {
	return fmt.Sprintf("\x1b[<0;%d;%dM", x, y)
}

func (s *hudSim) click(sp hudSpot, n int) {
	in := ""
	for i := 0; i < n; i++ {
		in += s.press(sp.x+s.r.Intn(sp.x2-sp.x+1), sp.y)
		if s.r.Intn(2) == 0 {
			in += fmt.Sprintf("\x1b[<0;%d;%dm", sp.x, sp.y)
		}
	}
	defer s.frame(E{"op": "idle"}, "")
	s.frame(E{"op": "click", "in": fmt.Sprintf("%q", in), "c": sp.c, "what": sp.what, "n": n, "eaten": s.eat}, in)
}

func (s *hudSim) blank() hudSpot {
	x := 1 + s.r.Intn(s.w/3)
	return hudSpot{x: x, x2: x, y: 2 + s.r.Intn(s.h-15)}
}

func (s *hudSim) keys(k int) { s.frame(E{"op": "key", "k": k}, strings.Repeat("\x0b", k)) }

func (s *hudSim) typed(q ...string) {
	in := ""
	for _, k := range q {
		in += map[string]string{"Enter": "\r", "Del": "\x7f"}[k]
		if len(k) == 1 {
			in += k
		}
	}
	s.frame(E{"op": "type", "q": q}, in)
}

// find a spot by what it is.
func (s *hudSim) find(c, what string) (hudSpot, bool) {
	for _, sp := range s.spots {
		if sp.c == c && sp.what == what {
			return sp, true
		}
	}
	return hudSpot{}, false
}

func (s *hudSim) step() {
	r := s.r
	if s.tiny {
		in := ""
		k := 0
		for n := r.Intn(4); n > 0; n-- {
			switch r.Intn(5) {
			case 0:
				in += "a"
			case 1:
				k++
				in += "\x0b"
			default:
				in += s.press(1+r.Intn(s.w+1), 1+r.Intn(s.h+1))
			}
		}
		s.frame(E{"op": "any", "k": k}, in)
		return
	}
	switch k := r.Intn(20); {
	case k < 2:
		s.frame(E{"op": "idle"}, []string{"", "\x1b[<35;40;3M", "\x1b[A"}[r.Intn(3)])
	case k < 3:
		s.keys(1 + r.Intn(3))
	case k < 8:
		q := []string{}
		for n := 1 + r.Intn(3); n > 0; n-- {
			q = append(q, []string{"a", "b", "c", "x", "y", "Del", "Enter"}[r.Intn(7)])
		}
		if r.Intn(2) == 0 { // once only
			q = q[:1]
		}
		for i, k := range q { // nothing after that
			if k == "Enter" {
				q = q[:i+1]
				break
			}
		}
		s.typed(q...)
	case k < 9:
		s.click(s.blank(), 1)
	default:
		if len(s.spots) == 0 {
			s.keys(1)
			return
		}
		sp := s.spots[r.Intn(len(s.spots))]
		n := 1
		if r.Intn(8) == 0 {
			n = 1 + r.Intn(3)
		}
		s.eat = r.Intn(15) == 0
		s.click(sp, n)
		s.eat = false
	}
}

func hudChild(args []string) error {
	ka, err := parseKid(args)
	if err != nil {
		return err
	}
	s := &hudSim{tr: ka.tr}
	if ka.gen != "" {
		i := 0
		env := &Env{Seed: ka.seed / 1000003, Gen: ka.gen, GenMax: ka.gmax}
		if err := readGen(env, func(raw json.RawMessage) error {
			if i++; i%ka.kids != ka.k {
				return nil
			}
			var ops [][]string
			if err := json.Unmarshal(raw, &ops); err != nil {
				return err
			}
			s.r = rand.New(rand.NewSource(ka.seed + int64(i)))
			s.start(false)
			for _, op := range ops {
				switch op[0] {
				case "key":
					s.keys(1)
				case "type":
					s.typed(op[1])
				case "click":
					sp, have := s.find(op[1], op[2])
					if op[1] == "" {
						sp, have = s.blank(), true
					}
					if have {
						s.click(sp, 1)
					}
				}
			}
			s.stop()
			return nil
		}); err != nil {
			return err
		}
	}
	for i := 0; i < ka.n; i++ {
		s.r = rand.New(rand.NewSource(ka.seed*7919 + int64(i)))
		s.start(s.r.Intn(5) == 0)
		for n := s.r.Intn(3); n > 0; n-- {
			log.Printf("line %d", n)
		}
		for n := 20 + s.r.Intn(40); n > 0 && !s.dead; n-- {
			if s.r.Intn(30) == 0 || s.tiny && s.r.Intn(3) == 0 {
				s.size()
				s.frame(E{"op": "idle", "k": 0}, "")
			}
			s.step()
		}
		s.stop()
	}
	return ka.tr.Close()
}
