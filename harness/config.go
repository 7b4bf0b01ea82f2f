package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime/pprof"
	"runtime/trace"
	"strings"
	"sync"

	"github.com/jcorbin/anansi/x/platform"
)

func init() {
	drivers["config"] = configDriver
	children["config"] = configChild
}

func configDriver(env *Env, tr *Trace) error {
	const kids = 24 // that wait for profilers most of the time
	var wg sync.WaitGroup
	errs := make([]error, kids)
	for k := 0; k < kids; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			errs[k] = runKid(env, tr, "config", k, kids)
		}(k)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

func cfgLog(c platform.Config) E {
	return E{"log": c.LogFileName, "cpu": c.CPUProfileName, "trace": c.TraceFileName, "mem": c.MemProfileName,
		"tel": c.TelemetryLogFileName, "timing": c.StartTiming, "logt": c.LogTiming}
}

type cfgJSON struct {
	Log, CPU, Trace, Mem, Tel string
	Timing, Logt              bool
}

func (c cfgJSON) config() platform.Config {
	return platform.Config{LogFileName: c.Log, CPUProfileName: c.CPU, TraceFileName: c.Trace, MemProfileName: c.Mem,
		TelemetryLogFileName: c.Tel, StartTiming: c.Timing, LogTiming: c.Logt}
}

type cfgSim struct {
	tr   *Trace
	r    *rand.Rand
	p    *platform.Platform
	pty  *pty
	file *os.File
	id   int
	logs []string
}

func (s *cfgSim) name(k string, full int) string {
	switch n := s.r.Intn(20); {
	case n < full:
		if def := map[string]string{"c": "prof.cpu", "t": "prof.trace", "m": "prof.heap"}[k]; def != "" && s.r.Intn(4) == 0 {
			return def
		}
		return k + string('1'+rune(s.r.Intn(2)))
	case n == 19 && full > 0 && s.r.Intn(3) == 0:
		return "no/" + k
	case n == 18 && s.r.Intn(3) == 0 && strings.Contains("ctm", k):
		return "/dev/full" // that can be created, but not written to
	}
	return ""
}

func (s *cfgSim) config() platform.Config {
	r := s.r
	return platform.Config{
		LogFileName:          s.name("l", 7),
		CPUProfileName:       s.name("c", 5),
		TraceFileName:        s.name("t", 5),
		MemProfileName:       s.name("m", 6),
		TelemetryLogFileName: s.name("e", 4),
		StartTiming:          r.Intn(4) == 0,
		LogTiming:            r.Intn(4) == 0,
	}
}

// args is some flags for a prefix, as given, and what they are.
func (s *cfgSim) args(pre string) (given []string, are [][]interface{}, ok bool) {
	r := s.r
	ok, are, given = true, [][]interface{}{}, []string{}
	for n := r.Intn(4); n > 0; n-- {
		dash := "-"
		if r.Intn(3) == 0 {
			dash = "--"
		}
		k := []string{"log", "cpu", "trace", "mem", "timing", "logt"}[r.Intn(6)]
		flag := map[string]string{"log": "logfile", "cpu": "cpuprofile", "trace": "tracefile", "mem": "memprofile", "timing": "timing", "logt": "timing.log"}[k]
		if k == "timing" || k == "logt" {
			v := r.Intn(3) > 0
			arg := dash + pre + flag
			if !v || r.Intn(2) == 0 {
				arg += fmt.Sprintf("=%v", v)
			}
			given, are = append(given, arg), append(are, []interface{}{k, v})
			if pre == "" {
				return given, are, false // there is none
			}
			continue
		}
		v := s.name(k[:1], 18)
		if r.Intn(2) == 0 {
			given = append(given, dash+pre+flag+"="+v)
		} else {
			given = append(given, dash+pre+flag, v)
		}
		are = append(are, []interface{}{k, v})
	}
	if r.Intn(15) == 0 {
		given = append(given, "-"+pre+"nosuch")
		ok = false
	}
	return given, are, ok
}

func (s *cfgSim) merge() {
	a, b := s.config(), s.config()
	e := E{"ev": "merge", "a": cfgLog(a), "b": cfgLog(b)}
	s.tr.Do(e, func() { a.Merge(b) })
	e["c"] = cfgLog(a)
	s.tr.Emit(e)
}

func (s *cfgSim) flags() {
	c := s.config()
	pre := []string{"", "platform.", "x"}[s.r.Intn(3)]
	given, are, ok := s.args(pre)
	e := E{"ev": "flags", "pre": pre, "init": cfgLog(c), "args": are, "given": given, "ok": ok}
	s.tr.Do(e, func() {
		fs := flag.NewFlagSet("x", flag.ContinueOnError)
		fs.SetOutput(io.Discard)
		c.AddFlags(fs, pre)
		e["err"] = errStr(fs.Parse(given))
	})
	e["c"] = cfgLog(c)
	s.tr.Emit(e)
}

func (s *cfgSim) new(cs ...platform.Config) bool {
	r := s.r
	e := E{"ev": "new", "parse": false, "args": [][]interface{}{}}
	opts, cfgs := []platform.Option{}, []E{}
	for _, c := range cs {
		cfgs = append(cfgs, cfgLog(c))
		opts = append(opts, c)
	}
	e["opts"] = cfgs
	if r.Intn(3) == 0 {
		i := r.Intn(len(opts) + 1)
		opts = append(opts[:i:i], append([]platform.Option{platform.FrameRate(30 + r.Intn(100))}, opts[i:]...)...)
	}
	if len(cs) == 0 || r.Intn(5) == 0 {
		given, are, _ := []string{}, [][]interface{}{}, true
		for {
			var ok bool
			if given, are, ok = s.args("platform."); ok {
				break
			}
		}
		os.Args = append(os.Args[:1:1], given...)
		flag.CommandLine = flag.NewFlagSet("x", flag.ContinueOnError)
		e["args"], e["given"], e["parse"] = are, given, len(cs) == 0
	}
	ok := s.tr.Do(e, func() {
		p, err := platform.New(s.file, s.file, opts...)
		if e["err"] = errStr(err); err == nil {
			s.p = p
			e["c"], e["timing"], e["logt"] = cfgLog(p.Config), p.TimingEnabled, p.Telemetry.LogTiming
		}
	})
	e["made"] = s.disk()
	ok = ok && e["err"] == ""
	if ok {
		if n := s.p.Config.LogFileName; n != "" {
			s.logs = append(s.logs, n)
		}
	}
	s.tr.Emit(e)
	return ok
}

func (s *cfgSim) disk() []string {
	ds, err := os.ReadDir(".")
	must(err)
	names := []string{}
	for _, d := range ds {
		names = append(names, d.Name())
	}
	return names
}

func (s *cfgSim) log() {
	for n := 1 + s.r.Intn(3); n > 0; n-- {
		s.id++
		s.tr.Emit(E{"ev": "log", "id": s.id})
		log.Printf("#%d;", s.id)
	}
}

// running is which profilers run.
func (s *cfgSim) running(e E) {
	err := pprof.StartCPUProfile(io.Discard)
	if err == nil {
		pprof.StopCPUProfile()
	}
	e["cpu"], e["trace"] = err != nil, trace.IsEnabled()
}

var errSome = errors.New("some error")

func (s *cfgSim) run() bool {
	r := s.r
	s.tr.Emit(E{"ev": "run"})
	e := E{"ev": "ran", "panic": "", "want": ""}
	bang, fail := r.Intn(8) == 0, r.Intn(6) == 0
	if bang {
		e["panic"] = "panic: bang"
	} else if fail {
		e["want"] = errSome.Error()
	}
	ok := s.tr.Do(e, func() {
		e["err"] = errStr(s.p.RunWith(func(p *platform.Platform) error {
			in := E{"ev": "in"}
			s.running(in)
			s.tr.Emit(in)
			for n := r.Intn(3); n > 0; n-- {
				s.log()
				if r.Intn(3) == 0 {
					n := 1 + r.Intn(3)
					_ = p.Run(platform.ClientFunc(func(ctx *platform.Context) error {
						if n--; n <= 0 {
							return errSome
						}
						return nil
					}))
				}
			}
			if bang {
				panic("bang")
			}
			if fail {
				return errSome
			}
			return nil
		}))
	})
	s.running(e)
	s.tr.Emit(e)
	return (ok || bang) && e["cpu"] != true && e["trace"] != true
}

// busy is a run while another one profiles.
func (s *cfgSim) busy() bool {
	e := E{"ev": "busy", "which": "cpu", "ran": false}
	if s.r.Intn(2) == 0 {
		must(pprof.StartCPUProfile(io.Discard))
	} else {
		e["which"] = "trace"
		must(trace.Start(io.Discard))
	}
	ok := s.tr.Do(e, func() {
		e["err"] = errStr(s.p.RunWith(func(p *platform.Platform) error {
			e["ran"] = true
			return nil
		}))
	})
	if e["which"] == "cpu" {
		pprof.StopCPUProfile()
	} else {
		trace.Stop()
	}
	s.running(e)
	s.tr.Emit(e)
	return ok && e["cpu"] != true && e["trace"] != true
}

func (s *cfgSim) scrub() {
	s.tr.Emit(E{"ev": "scrub"})
	for _, n := range s.disk() {
		if n[0] != 'l' && n[0] != 'e' {
			must(os.Truncate(n, 0))
		}
	}
}

func fileKind(n string) string {
	b, err := os.ReadFile(n)
	must(err)
	switch {
	case len(b) == 0:
		return "empty"
	case bytes.HasPrefix(b, []byte("heap profile:")) && bytes.Contains(b, []byte("# Sys = ")) && bytes.Count(b, []byte("heap profile:")) == 1:
		return "heap"
	case bytes.HasPrefix(b, []byte("go 1.")) && bytes.Count(b, []byte(" trace\x00\x00\x00")) == 1:
		return "trace"
	}
	br := bytes.NewReader(b)
	if z, err := gzip.NewReader(br); err == nil {
		z.Multistream(false)
		if d, err := io.ReadAll(z); err == nil && len(d) > 0 && br.Len() == 0 {
			return "gz"
		}
	}
	return "other"
}

func (s *cfgSim) files() {
	fs, logs := [][]string{}, [][]interface{}{}
	for _, n := range s.disk() {
		if n[0] != 'l' && n[0] != 'e' {
			fs = append(fs, []string{n, fileKind(n)})
		}
	}
	seen := map[string]bool{}
	for _, n := range s.logs {
		if seen[n] {
			continue
		}
		seen[n] = true
		b, err := os.ReadFile(n)
		must(err)
		ids := []int{}
		for _, line := range strings.Split(string(b), "\n") {
			if i := strings.LastIndex(line, " #"); i >= 0 {
				id := -1
				fmt.Sscanf(line[i:], " #%d;", &id)
				ids = append(ids, id)
			}
		}
		logs = append(logs, []interface{}{n, ids})
	}
	s.tr.Emit(E{"ev": "files", "files": fs, "logs": logs})
}

func (s *cfgSim) start() {
	for _, n := range s.disk() {
		must(os.Remove(n))
	}
	pprof.StopCPUProfile() // if left running
	trace.Stop()
	must(platform.Logs.SetFile(nil))
	log.SetOutput(&platform.Logs)
	s.p, s.id, s.logs = nil, 0, nil
	s.tr.Episode(E{})
}

func (s *cfgSim) episode() {
	r := s.r
	s.start()
	for n := r.Intn(30); n > 0; n-- {
		s.merge()
		s.flags()
	}
	for n := 2 + r.Intn(8); n > 0; n-- {
		switch k := r.Intn(10); {
		case s.p == nil || k < 1:
			var cs []platform.Config
			for n := r.Intn(4); n > 0; n-- {
				cs = append(cs, s.config())
			}
			if !s.new(cs...) {
				return
			}
			s.files()
		case k < 3:
			s.log()
		case k < 4:
			s.scrub()
		case k < 5:
			if !s.busy() {
				return
			}
			s.files()
		default:
			if !s.run() {
				return
			}
			if r.Intn(2) == 0 {
				s.log()
			}
			s.files()
		}
	}
}

func (s *cfgSim) replay(ops [][]json.RawMessage) {
	s.start()
	on := false
	for _, op := range ops {
		var name string
		must(json.Unmarshal(op[0], &name))
		switch name {
		case "new":
			var cs []platform.Config
			for _, raw := range op[1:] {
				var c cfgJSON
				must(json.Unmarshal(raw, &c))
				cs = append(cs, c.config())
			}
			if !s.new(cs...) {
				return
			}
			s.files()
		case "log":
			s.log()
		case "scrub":
			s.scrub()
		case "enter":
			on = true
		case "leave":
			on = false
			if !s.run() {
				return
			}
			s.files()
		}
	}
	if on && s.run() {
		s.files()
	}
}

func configChild(args []string) error {
	ka, err := parseKid(args)
	if err != nil {
		return err
	}
	s := &cfgSim{tr: ka.tr, pty: openPty()}
	s.file = os.NewFile(uintptr(s.pty.slave), "pty")
	if ka.gen != "" {
		i := 0
		env := &Env{Seed: ka.seed / 1000003, Gen: ka.gen, GenMax: ka.gmax}
		if err := readGen(env, func(raw json.RawMessage) error {
			if i++; i%ka.kids != ka.k {
				return nil
			}
			var ops [][]json.RawMessage
			if err := json.Unmarshal(raw, &ops); err != nil {
				return err
			}
			s.r = rand.New(rand.NewSource(ka.seed + int64(i)))
			s.replay(ops)
			return nil
		}); err != nil {
			return err
		}
	}
	for i := 0; i < ka.n; i++ {
		s.r = rand.New(rand.NewSource(ka.seed*7919 + int64(i)))
		s.episode()
	}
	return ka.tr.Close()
}
