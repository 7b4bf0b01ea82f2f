package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
)

func init() { drivers["record"] = recordDriver }

var (
	apcRE  = regexp.MustCompile(`(?s)\x1b_[^\x1b]*\x1b\\`)
	markRE = regexp.MustCompile(`\x1b_recTime:([^\x1b]*)\x1b\\`)
)

type recDest struct {
	bytes.Buffer
	fail bool
}

var errDest = errors.New("dest failed")

func (d *recDest) Write(p []byte) (int, error) {
	if d.fail {
		return 0, errDest
	}
	return d.Buffer.Write(p)
}

type recSim struct {
	tr   *Trace
	r    *rand.Rand
	dir  string
	in   *anansi.Input
	rf   *os.File
	rfd  int
	wfd  int
	open bool
	kern int
	fed  []byte
	dest *recDest
	t0   time.Time
	dead bool
	ro   bool
}

func (rs *recSim) us(t time.Time) int { return int(t.Sub(rs.t0) / time.Microsecond) }

func (rs *recSim) start() {
	var p [2]int
	must(syscall.Pipe2(p[:], syscall.O_CLOEXEC))
	rs.rfd, rs.wfd, rs.open, rs.kern, rs.fed, rs.dest, rs.dead = p[0], p[1], true, 0, nil, nil, false
	if rs.r.Intn(6) == 0 {
		orFlag(rs.rfd, syscall.O_NONBLOCK) // the Go runtime will poll it
	}
	rs.rf = os.NewFile(uintptr(p[0]), "in")
	rs.in = &anansi.Input{File: rs.rf}
	if rs.r.Intn(4) == 0 {
		rs.in.MinReadSize = 1 + rs.r.Intn(20)
	}
	rs.t0 = time.Now().Round(0) // as recorded: wall clock time
	rs.tr.Episode(E{})
}

func (rs *recSim) stop() {
	if rs.open {
		syscall.Close(rs.wfd)
	}
	if !rs.dead {
		rs.rf.Close()
	}
}

// clean tells whether b can be fed without completing an APC string
func (rs *recSim) clean(b []byte) bool {
	return !apcRE.Match(append(append([]byte{}, rs.fed...), b...))
}

func (rs *recSim) put(b []byte) {
	n, err := syscall.Write(rs.wfd, b)
	if n != len(b) {
		must(fmt.Errorf("pipe: %v %v", n, err))
	}
	rs.kern += len(b)
	rs.fed = append(rs.fed, b...)
}

func (rs *recSim) raw(max int) []byte {
	r := rs.r
	for {
		b := make([]byte, r.Intn(max+1))
		for i := range b {
			switch r.Intn(5) {
			case 0:
				b[i] = []byte{0x1b, '_', '\\', '[', ']', 'O', 0, 0x7f}[r.Intn(8)]
			case 1:
				b[i] = byte(r.Intn(256))
			default:
				b[i] = byte('a' + r.Intn(26))
			}
		}
		if k := r.Intn(6); k == 0 {
			b = append(b, []string{"\x1b", "\x1b_", "\x1b[", "\x1b[1;", "\x1b]0;", "\x1bP", "\xe2\x82", "\xe2\x82\xac", "\x1b_rec", "\x1b_recTime:", "\x1b[A", "\x1bOP", "\x9f", "\xc2\x9f", "\x90x", "\xff"}[r.Intn(16)]...)
		}
		if rs.clean(b) {
			return b
		}
	}
}

func (rs *recSim) feed(b []byte) {
	if rs.open && !rs.ro && rs.clean(b) {
		rs.put(b)
		rs.tr.Emit(E{"ev": "feed", "b": ints(b)})
	}
}

func (rs *recSim) record(on bool) {
	e := E{"ev": "record", "on": on}
	rs.dest = nil
	if on {
		rs.dest = &recDest{}
	}
	rs.dead = !rs.tr.Do(e, func() {
		if on {
			rs.in.SetRecording(rs.dest)
		} else {
			rs.in.SetRecording(nil)
		}
		e["is"] = rs.in.IsRecording(nil)
	})
	rs.tr.Emit(e)
}

// tail of what the recording got since it had n bytes
func (rs *recSim) tail(e E, n int) {
	rec := []byte{}
	if rs.dest != nil {
		rec = rs.dest.Bytes()[n:]
	}
	tm := [][]interface{}{}
	for _, m := range markRE.FindAllSubmatch(rec, -1) {
		t, err := time.Parse(time.RFC3339Nano, string(m[1]))
		if err == nil {
			tm = append(tm, []interface{}{ints(m[1]), strconv.FormatInt(t.UnixNano(), 10), rs.us(t)})
		}
	}
	e["rec"], e["tm"] = ints(rec), tm
}

func (rs *recSim) read(more bool) {
	name := "readany"
	if more {
		name = "readmore"
	}
	e := E{"ev": name, "late": []int{}, "fail": rs.dest != nil && rs.dest.fail, "ro": rs.ro}
	n0 := 0
	if rs.dest != nil {
		n0 = rs.dest.Len()
	}
	done := make(chan struct{})
	lo := time.Now()
	if more && rs.kern == 0 && rs.open && !rs.ro {
		late := rs.raw(10)
		late = append(late, 'l')
		e["late"] = ints(late)
		go func() {
			time.Sleep(time.Duration(100+rs.r.Intn(800)) * time.Microsecond)
			lo = time.Now()
			rs.put(late)
			close(done)
		}()
	} else {
		close(done)
	}
	rs.dead = !rs.tr.Do(e, func() {
		read := rs.in.ReadAny
		if more {
			read = rs.in.ReadMore
		}
		n, err := read()
		e["n"], e["err"], e["errb"], e["dest"] = n, errStr(err), ints([]byte(errStr(err))), err == errDest
		<-done
		rs.kern -= n
	})
	if !rs.dead {
		e["lo"], e["hi"] = rs.us(lo), rs.us(time.Now())
		rs.tail(e, n0)
	}
	rs.tr.Emit(e)
	if e["fail"] == true && !rs.dead {
		rs.record(false)
	}
	// what was decoded is not of interest here
	for i := 0; i < 1000 && !rs.dead && rs.r.Intn(3) > 0; i++ {
		if _, _, ok := rs.in.Decode(); !ok {
			break
		}
	}
}

func (rs *recSim) message(text string) {
	if rs.dest != nil && !rs.dest.fail {
		fmt.Fprintf(rs.dest, "\x1b_%s\x1b\\", text)
		rs.tr.Emit(E{"ev": "message", "m": ints([]byte(text))})
	}
}

func (rs *recSim) replay() {
	if rs.dest == nil {
		return
	}
	r := rs.r
	name := filepath.Join(rs.dir, fmt.Sprintf("rec%p", rs))
	f, err := os.Create(name)
	must(err)
	defer os.Remove(name)
	defer f.Close()
	pre := make([]byte, r.Intn(3)*r.Intn(1000))
	f.Write(pre)
	f.Write(rs.dest.Bytes())
	_, err = f.Seek(int64(len(pre)), 0)
	must(err)
	e := E{"ev": "replay"}
	rs.dead = !rs.tr.Do(e, func() {
		rep, err := anansi.ReadInputReplay(f)
		e["err"] = errStr(err)
		fs := []E{}
		us := []int{}
		for _, frm := range rep {
			x := E{"t": []string{}, "e": [][]int{}, "m": [][]int{}, "b": ints(frm.B)}
			if !frm.T.IsZero() {
				x["t"] = []string{strconv.FormatInt(frm.T.UnixNano(), 10)}
				us = append(us, rs.us(frm.T))
			}
			if frm.E != nil {
				x["e"] = [][]int{ints([]byte(frm.E.Error()))}
			}
			if frm.M != nil {
				x["m"] = [][]int{ints(frm.M)}
			}
			x["s"] = ints([]byte(frm.String()))
			fs = append(fs, x)
		}
		e["fs"] = fs
		e["us"] = us
		if us == nil {
			e["us"] = []int{}
		}
		d := rep.Duration() / time.Microsecond
		if d > 1<<30 || d < -1<<30 {
			d = -1 << 30
		}
		e["dur"] = int(d)
	})
	rs.tr.Emit(e)
}

func (rs *recSim) step() {
	r := rs.r
	switch r.Intn(12) {
	case 0, 1, 2:
		rs.feed(rs.raw([]int{12, 12, 12, 12, 12, 12, 60, 400}[r.Intn(8)]))
	case 3, 4:
		rs.read(false)
	case 5, 6:
		if rs.kern > 0 || r.Intn(4) == 0 || !rs.open {
			rs.read(true)
		}
	case 7:
		rs.message([]string{"", "hi", "resize:80,24", "x;y", "recTim", "rec", "frob:1"}[r.Intn(7)])
	case 8:
		if r.Intn(3) == 0 {
			rs.record(r.Intn(3) > 0)
		}
	case 9:
		rs.replay()
	case 10:
		if r.Intn(4) == 0 && rs.open {
			syscall.Close(rs.wfd)
			rs.open = false
			rs.tr.Emit(E{"ev": "close"})
		}
	case 11:
		if rs.dest != nil && r.Intn(6) == 0 {
			rs.dest.fail = true
		}
	}
}

// wronly makes all further reads fail
func (rs *recSim) wronly() {
	rs.ro = true
	rs.rf.Close()
	f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	must(err)
	rs.rf, rs.in.File = f, f
}

func recordDriver(env *Env, tr *Trace) error {
	var jobs []func(tr *Trace, r *rand.Rand)
	if env.Gen != "" {
		err := readGen(env, func(raw json.RawMessage) error {
			var h struct {
				Fs []struct {
					E, M [][]int
					B    []int
				}
			}
			if err := json.Unmarshal(raw, &h); err != nil {
				return err
			}
			jobs = append(jobs, func(tr *Trace, r *rand.Rand) {
				rs := &recSim{tr: tr, r: r, dir: env.Dir}
				rs.start()
				rs.record(true)
				for _, f := range h.Fs {
					if len(f.M) > 0 {
						rs.message(string(toBytes(f.M[0])))
						continue
					}
					if len(f.B) > 0 {
						b := toBytes(f.B)
						if !rs.clean(b) {
							b = append([]byte{0x1b}, b...)
						}
						rs.feed(b)
					}
					rs.read(rs.kern > 0 && r.Intn(2) == 0)
				}
				rs.replay()
				rs.stop()
			})
			return nil
		})
		if err != nil {
			return err
		}
	}
	for i := 0; i < env.N; i++ {
		jobs = append(jobs, func(tr *Trace, r *rand.Rand) {
			rs := &recSim{tr: tr, r: r, dir: env.Dir}
			rs.start()
			if r.Intn(6) > 0 {
				rs.record(true)
			}
			for n := 2 + r.Intn(18); n > 0 && !rs.dead; n-- {
				if !rs.ro && r.Intn(40) == 0 {
					rs.wronly()
				}
				rs.step()
			}
			if !rs.dead {
				rs.replay()
			}
			rs.stop()
		})
	}
	parallel(env, tr, jobs)
	return nil
}

func toBytes(x []int) []byte {
	b := make([]byte, len(x))
	for i, c := range x {
		b[i] = byte(c)
	}
	return b
}
