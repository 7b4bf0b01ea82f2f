package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"strconv"
	"sync"
	"syscall"

	"github.com/jcorbin/anansi"
)

func init() {
	drivers["signals"] = signalsDriver
	children["signals"] = signalsChild
	children["mustrun"] = mustrunChild
}

func signalsDriver(env *Env, tr *Trace) error {
	const kids = 8
	var wg sync.WaitGroup
	errs := make([]error, kids)
	for k := 0; k < kids; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			errs[k] = runKid(env, tr, "signals", k, kids)
		}(k)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

var someSigs = []syscall.Signal{syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGWINCH, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM}

type sigSim struct {
	tr    *Trace
	r     *rand.Rand
	watch chan os.Signal
	objs  []*anansi.Signal
	old   []chan os.Signal // that were closed
}

func sigNums(ss []os.Signal) []int {
	nums := []int{}
	for _, s := range ss {
		nums = append(nums, int(s.(syscall.Signal)))
	}
	return nums
}

// sigNum is the number of a signal, or 100 more than that in its message.
func sigNum(s os.Signal) int {
	if n, is := s.(syscall.Signal); is {
		return int(n)
	}
	n, err := strconv.Atoi(s.String())
	if err != nil {
		return -1
	}
	return 100 + n
}

func (s *sigSim) start(sets ...[]os.Signal) {
	s.objs, s.old = nil, nil
	nums := [][]int{}
	for _, set := range sets {
		sig := anansi.Notify(set...)
		s.objs = append(s.objs, &sig)
		nums = append(nums, sigNums(set))
	}
	s.tr.Episode(E{"n": len(sets), "notify": nums})
}

func (s *sigSim) emit(e E, f func()) {
	s.tr.Do(e, f)
	open, lens := []bool{}, []int{}
	for _, o := range s.objs {
		open, lens = append(open, o.C != nil), append(lens, len(o.C))
	}
	e["open"], e["len"] = open, lens
	stale := 0
	for _, c := range s.old {
		stale += len(c)
	}
	e["stale"] = stale
	s.tr.Emit(e)
}

func (s *sigSim) op(name string, i, arg int) {
	o := s.objs[i-1]
	e := E{"ev": name, "i": i}
	fail := func(err error) { e["err"] = errStr(err) }
	switch name {
	case "notify":
		o.Notify = nil
		for b, g := range someSigs {
			if arg&(2<<uint(b)) != 0 {
				o.Notify = append(o.Notify, g)
			}
		}
		e["to"] = sigNums(o.Notify)
		s.emit(e, func() {})
	case "open":
		s.emit(e, func() {
			if s.r.Intn(2) == 0 {
				fail(o.Open())
			} else {
				fail(o.Enter(nil))
			}
		})
	case "exit":
		s.emit(e, func() { fail(o.Exit(nil)) })
	case "close":
		if o.C != nil {
			s.old = append(s.old, o.C)
		}
		s.emit(e, func() {
			fail(o.Close())
			for _, c := range s.old {
				for len(c) > 0 {
					<-c
				}
			}
		})
	case "send":
		m := s.r.Intn(50)
		e["m"] = 100 + m
		s.emit(e, func() { o.Send(strconv.Itoa(m)) })
	case "aserr":
		e["ev"] = "take"
		got := []int{}
		s.emit(e, func() {
			if s.r.Intn(2) == 0 {
				select {
				case sig := <-o.C:
					got = append(got, sigNum(sig))
				default:
				}
			} else if err := o.AsErr(); err != nil {
				n := -1
				if se, is := err.(anansi.SignalError); is {
					n = sigNum(se.Sig)
				}
				got = append(got, n)
			}
			e["got"] = got
		})
	}
}

func (s *sigSim) raise(g syscall.Signal) {
	signal.Notify(s.watch, g) // whatever was done to it before
	must(syscall.Kill(os.Getpid(), g))
	for sig := range s.watch {
		if sig == g {
			break
		}
	}
	signal.Notify(s.watch, g) // waits until it is with all others
	s.emit(E{"ev": "raise", "g": int(g)}, func() {})
}

func (s *sigSim) stop() {
	for _, o := range s.objs {
		if o.C != nil {
			signal.Stop(o.C)
		}
	}
}

// err is about the error for a signal.
func (s *sigSim) err(sig os.Signal) {
	e := E{"ev": "err", "g": sigNum(sig), "name": sig.String()}
	s.tr.Do(e, func() {
		err := anansi.SigErr(sig)
		e["err"] = err.Error()
		se, is := err.(anansi.SignalError)
		e["same"] = is && se.Sig == sig
		e["str"] = se.String()
		e["code"] = se.ExitCode()
		var _ os.Signal = se
	})
	s.tr.Emit(e)
}

type codeErr int

func (c codeErr) Error() string { return "code " + strconv.Itoa(int(c)) }
func (c codeErr) ExitCode() int { return int(c) }

func mustrunChild(args []string) error {
	n, err := strconv.Atoi(args[1])
	must(err)
	err = nil
	switch args[0] {
	case "sig":
		err = anansi.SigErr(syscall.Signal(n))
	case "sent":
		var sig anansi.Signal
		sig.Send("x")
		err = sig.AsErr()
	case "code":
		err = codeErr(n)
	case "other":
		err = errors.New("other")
	}
	log.SetOutput(os.Stderr) // rather than that of platforms
	anansi.MustRun(err)
	fmt.Println("returned")
	return nil
}

func (s *sigSim) mustRun(kind string, n int) {
	e := E{"ev": "ran", "kind": kind, "n": n}
	s.tr.Do(e, func() {
		cmd := exec.Command(os.Args[0], "-child", "mustrun", kind, strconv.Itoa(n))
		var out, logged bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &logged
		if err := cmd.Run(); err != nil {
			if _, is := err.(*exec.ExitError); !is {
				must(err)
			}
		}
		e["returned"] = out.String() == "returned\n"
		e["status"] = cmd.ProcessState.ExitCode()
		e["logged"] = logged.Len()
	})
	s.tr.Emit(e)
}

func signalsChild(args []string) error {
	ka, err := parseKid(args)
	if err != nil {
		return err
	}
	s := &sigSim{tr: ka.tr, watch: make(chan os.Signal, 100)}
	for _, g := range someSigs {
		signal.Notify(s.watch, g)
	}
	if ka.gen != "" {
		i := 0
		env := &Env{Seed: ka.seed / 1000003, Gen: ka.gen, GenMax: ka.gmax}
		if err := readGen(env, func(raw json.RawMessage) error {
			if i++; i%ka.kids != ka.k {
				return nil
			}
			var ops [][]interface{}
			if err := json.Unmarshal(raw, &ops); err != nil {
				return err
			}
			s.r = rand.New(rand.NewSource(ka.seed + int64(i)))
			s.start([]os.Signal{someSigs[0]}, []os.Signal{someSigs[0], someSigs[1]})
			for _, op := range ops {
				name, o, a := op[0].(string), int(op[1].(float64)), int(op[2].(float64))
				if name == "raise" {
					s.raise(someSigs[a-1])
				} else {
					s.op(name, o, a)
				}
			}
			s.stop()
			return nil
		}); err != nil {
			return err
		}
	}
	for i := 0; i < ka.n; i++ {
		s.r = rand.New(rand.NewSource(ka.seed*7919 + int64(i)))
		r := s.r
		sets := make([][]os.Signal, 1+r.Intn(4))
		for j := range sets {
			for _, g := range someSigs {
				if r.Intn(3) == 0 {
					sets[j] = append(sets[j], g)
				}
			}
		}
		s.start(sets...)
		for k := 10 + r.Intn(40); k > 0; k-- {
			o := 1 + r.Intn(len(sets))
			switch n := r.Intn(20); {
			case n < 6:
				s.raise(someSigs[r.Intn(len(someSigs))])
			case n < 7:
				s.op("notify", o, r.Intn(128))
			case n < 11:
				s.op("open", o, 0)
			case n < 12:
				s.op("exit", o, 0)
			case n < 14:
				s.op("close", o, 0)
			case n < 16:
				s.op("send", o, 0)
			default:
				s.op("aserr", o, 0)
			}
		}
		s.stop()
		s.objs = nil
		s.err(syscall.Signal(1 + r.Intn(31)))
		var syn anansi.Signal
		syn.Send(strconv.Itoa(r.Intn(50)))
		s.err(<-syn.C)
		if i%10 == 0 {
			switch r.Intn(5) {
			case 0:
				s.mustRun("nil", 0)
			case 1:
				s.mustRun("other", 0)
			case 2:
				s.mustRun("sent", 0)
			case 3:
				s.mustRun("code", []int{0, 1, 2, 3, 77, 255}[r.Intn(6)])
			default:
				s.mustRun("sig", 1+r.Intn(31))
			}
		}
	}
	return ka.tr.Close()
}
