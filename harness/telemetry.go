package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"log"
	"math/rand"
	"os"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
)

func init() {
	drivers["telemetry"] = telemetryDriver
	children["telemetry"] = telemetryChild
}

func telemetryDriver(env *Env, tr *Trace) error {
	const kids = 40 // that sleep most of the time
	var wg sync.WaitGroup
	errs := make([]error, kids)
	for k := 0; k < kids; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			errs[k] = runKid(env, tr, "telemetry", k, kids)
		}(k)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

const telCap = 2000000000

func clip(v int64) int64 {
	if v > telCap {
		return telCap
	}
	if v < -telCap {
		return -telCap
	}
	return v
}

func milli(v float64) int64 {
	if !(v*1000 < telCap) { // NaN too
		return telCap
	}
	return int64(v * 1000)
}

type telSim struct {
	tr   *Trace
	r    *rand.Rand
	p    *platform.Platform
	pty  *pty
	file *os.File
	base time.Time
	last time.Time // of a frame
	n    int       // frames of a run yet to come

	hold int32 // 1: asked for, 2: holding, 3: held
	held int64
}

// slow is called before what is written is read.
func (s *telSim) slow(p *pty) {
	p.mu.Lock()
	p.buf = p.buf[:0]
	p.mu.Unlock()
	for end := time.Now().Add(2 * time.Second); atomic.LoadInt32(&s.hold) == 1 && time.Now().Before(end); time.Sleep(200 * time.Microsecond) {
		flags, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(p.slave), syscall.F_GETFL, 0)
		if e == 0 && flags&syscall.O_NONBLOCK == 0 && atomic.CompareAndSwapInt32(&s.hold, 1, 2) {
			t := time.Now()
			time.Sleep(10 * time.Millisecond)
			s.held = time.Since(t).Nanoseconds()
			atomic.StoreInt32(&s.hold, 3)
			return
		}
	}
	atomic.CompareAndSwapInt32(&s.hold, 1, 0)
}

func (s *telSim) flags(e E) {
	p := s.p
	e["te"], e["lt"], e["se"], e["ls"] = p.TimingEnabled, p.Telemetry.LogTiming, p.StallDataEnabled, p.Telemetry.LogStallData
}

func (s *telSim) frame() {
	p := s.p
	if atomic.LoadInt32(&s.hold) == 3 {
		s.tr.Emit(E{"ev": "held", "ns": clip(s.held)})
	}
	atomic.StoreInt32(&s.hold, 0)
	since := func(t time.Time) int64 {
		if t.IsZero() {
			return -1
		}
		return clip(p.Time.Sub(t).Nanoseconds())
	}
	e := E{"ev": "frame", "bad": "", "t": p.Time.UnixNano()/1000 - s.base.UnixNano()/1000, "dt": since(s.last), "ldt": since(p.LastTime)}
	s.last = p.Time
	s.flags(e)
	ts := p.Timing.Stats
	e["tm"] = E{"fps": milli(ts.FPS), "el": clip(int64(ts.Elapsed)), "min": clip(int64(ts.Min)), "max": clip(int64(ts.Max)),
		"q1": clip(int64(ts.Q1)), "q2": clip(int64(ts.Q2)), "q3": clip(int64(ts.Q3)), "zero": ts.Time.IsZero()}
	e["age"] = since(ts.Time)
	ss := p.Stalls.Stats
	e["st"] = E{"n": ss.N, "min": clip(int64(ss.Min)), "max": clip(int64(ss.Max)), "sum": clip(int64(ss.Sum)), "pct": milli(ss.Pct), "zero": ss.Time.IsZero()}
	e["sage"] = since(ss.Time)
	e["est"], e["fps"] = milli(p.FPSEstimate.Value), milli(p.Telemetry.FPS())
	s.tr.Emit(e)
}

func (s *telSim) set() {
	p, v := s.p, s.r.Intn(3) > 0
	e := E{"ev": "set", "v": v}
	s.tr.Do(e, func() {
		switch k := s.r.Intn(8); {
		case k < 2:
			e["what"] = "timing"
			p.SetTimingEnabled(v)
		case k < 4:
			e["what"] = "logt"
			p.Telemetry.LogTiming = v
		case k < 6:
			e["what"] = "stalls"
			p.SetStallTracking(v)
		default:
			e["what"] = "logs"
			p.Telemetry.LogStallData = v
		}
	})
	s.tr.Emit(e)
}

var errOver = errors.New("over")

// Update is a frame.
func (s *telSim) Update(ctx *platform.Context) error {
	s.frame()
	if s.n--; s.n < 0 {
		return errOver
	}
	r := s.r
	for r.Intn(25) == 0 {
		s.set()
	}
	ctx.Output.To(ansi.Pt(1+r.Intn(9), 1+r.Intn(9)))
	ctx.Output.WriteRune(rune('a' + r.Intn(26)))
	if r.Intn(12) == 0 {
		g := ctx.Output.Grid
		for i := range g.Rune {
			a, b := r.Int(), r.Int()
			g.Rune[i] = rune('a' + a&15)
			g.Attr[i] = ansi.RGB(uint8(a>>8), uint8(a>>16), uint8(a>>24)).FG() | ansi.RGB(uint8(b>>8), uint8(b>>16), uint8(b>>24)).BG()
		}
		atomic.StoreInt32(&s.hold, 1)
	}
	return nil
}

var telText = regexp.MustCompile(`(timing data:|output stalls) \[(.*)\]`)

// logged is what was logged to the file, or else as text.
func (s *telSim) logged(file string, text []byte) {
	recs := []E{}
	ns := func(ds []int64) []int64 {
		out := []int64{}
		for _, d := range ds {
			out = append(out, clip(d))
		}
		return out
	}
	bad := ""
	if file != "" {
		b, err := os.ReadFile(file)
		must(err)
		for _, line := range bytes.Split(bytes.TrimSuffix(b, []byte("\n")), []byte("\n")) {
			if len(b) == 0 {
				break
			}
			var v struct {
				T      int64
				Name   string
				Data   json.RawMessage
				Stalls []int64
			}
			err := json.Unmarshal(line, &v)
			e := E{"name": v.Name, "t": v.T/1000 - s.base.UnixNano()/1000, "data": []int{}}
			switch {
			case err != nil:
			case v.Name == "timing":
				var ds []int64
				err = json.Unmarshal(v.Data, &ds)
				e["data"] = ns(ds)
			case v.Name == "stalls":
				e["data"] = ns(v.Stalls)
			case v.Name == "rusage_delta":
				var ds []struct{ DT, UTime, STime int64 }
				err = json.Unmarshal(v.Data, &ds)
				out := [][]int64{}
				for _, d := range ds {
					out = append(out, []int64{clip(d.DT / 1000), clip(d.UTime / 1000), clip(d.STime / 1000)})
				}
				e["name"], e["data"] = "rusage", out
			}
			if err != nil {
				bad = err.Error()
			}
			recs = append(recs, e)
		}
	} else {
		for _, m := range telText.FindAllSubmatch(text, -1) {
			ds := []int64{}
			for _, f := range strings.Fields(string(m[2])) {
				d, err := time.ParseDuration(f)
				if err != nil {
					bad = err.Error()
				}
				ds = append(ds, int64(d))
			}
			name := "timing"
			if m[1][0] == 'o' {
				name = "stalls"
			}
			recs = append(recs, E{"name": name, "t": 0, "data": ns(ds)})
		}
	}
	s.tr.Emit(E{"ev": "logged", "bad": bad, "file": file != "", "recs": recs})
}

func (s *telSim) episode() {
	r := s.r
	for _, n := range []string{"tel.log"} {
		if err := os.Remove(n); err != nil && !os.IsNotExist(err) {
			must(err)
		}
	}
	cfg := platform.Config{StartTiming: r.Intn(2) == 0, LogTiming: r.Intn(2) == 0}
	if r.Intn(2) == 0 {
		cfg.TelemetryLogFileName = "tel.log"
	}
	opts := []platform.Option{cfg}
	fps := []int{2, 3, 4, 7, 8, 20, 40, 60, 60, 100, 200}[r.Intn(11)]
	if fps != 60 {
		opts = append(opts, platform.FrameRate(fps))
	}
	n := fps / 4
	if n < 1 {
		n = 1
	}
	s.last, s.base = time.Time{}, time.Now()
	log.SetOutput(&platform.Logs)
	b, _ := platform.Logs.Contents()
	mark := len(b)
	s.tr.Episode(E{"n": n, "rate": fps, "te": cfg.StartTiming || cfg.LogTiming, "lt": cfg.LogTiming})
	p, err := platform.New(s.file, s.file, opts...)
	works("platform.New", err)
	s.p = p
	if r.Intn(2) == 0 {
		s.set()
	}
	for runs := 1 + r.Intn(2); runs > 0; runs-- {
		e := E{"ev": "ran", "want": errOver.Error()}
		ok := s.tr.Do(e, func() {
			e["err"] = errStr(p.RunWith(func(p *platform.Platform) error {
				for inner := 1 + r.Intn(5)/4; inner > 0; inner-- {
					secs := 1 + r.Float64()
					if r.Intn(15) == 0 {
						secs = 5 + 5*r.Float64()
					}
					s.n = int(secs * float64(fps))
					if err := p.Run(s); err != errOver {
						return err
					}
				}
				return errOver
			}))
		})
		s.tr.Emit(e)
		if !ok {
			return
		}
	}
	b, _ = platform.Logs.Contents()
	s.logged(cfg.TelemetryLogFileName, b[mark:])
}

func telemetryChild(args []string) error {
	ka, err := parseKid(args)
	if err != nil {
		return err
	}
	s := &telSim{tr: ka.tr}
	s.pty = openPty(s.slow)
	s.pty.size(80, 40)
	s.file = os.NewFile(uintptr(s.pty.slave), "pty")
	for i := 0; i < ka.n; i++ {
		s.r = rand.New(rand.NewSource(ka.seed*7919 + int64(i)))
		s.episode()
	}
	return ka.tr.Close()
}
