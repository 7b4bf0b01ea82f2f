package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"time"
	"unicode/utf8"
)

func init() { drivers["filter"] = filterDriver }

// filterRun feeds b to a command, a read for each part of it, cut as told.
func filterRun(tr *Trace, r *rand.Rand, tool string, b []byte, cuts []int) {
	tr.Episode(E{})
	e := E{"ev": tool, "b": ints(b), "cuts": cuts, "out": []int{}, "rc": 0}
	if cuts == nil {
		e["cuts"] = []int{}
	}
	args := []string{}
	if tool == "strip" {
		args = append(args, "-strip")
	}
	tr.Do(e, func() {
		cmd := exec.Command(os.Getenv("VH_"+strings.ToUpper(tool)), args...)
		pr, pw, err := os.Pipe()
		must(err)
		var out bytes.Buffer
		cmd.Stdin, cmd.Stdout = pr, &out
		must(cmd.Start())
		kill := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
		at := 0
		for _, c := range append(append([]int{}, cuts...), len(b)) {
			for at < c {
				n := c - at
				if n > 4096 {
					n = 4096
				}
				if _, err := pw.Write(b[at : at+n]); err != nil {
					break
				}
				at += n
				for t0 := time.Now(); readable(int(pr.Fd())) > 0 && time.Since(t0) < 20*time.Second; {
					time.Sleep(20 * time.Microsecond)
				}
			}
		}
		pw.Close()
		err = cmd.Wait()
		pr.Close()
		if !kill.Stop() {
			panic("command hangs")
		}
		if err != nil {
			e["rc"] = cmd.ProcessState.ExitCode()
		}
		if tool == "strip" {
			rs := []int{}
			for _, c := range out.String() {
				rs = append(rs, int(c))
			}
			e["out"] = rs
		} else {
			e["out"] = ints(out.Bytes())
		}
	})
	tr.Emit(e)
}

func filterInput(r *rand.Rand, strip bool) []byte {
	var b bytes.Buffer
	csi := func() string {
		if r.Intn(6) == 0 {
			return "\u009b"
		}
		return "\x1b["
	}
	sgr := func() string {
		var ps []string
		for k := r.Intn(5); k > 0; k-- {
			switch r.Intn(8) {
			case 0:
				ps = append(ps, fmt.Sprint([]int{0, 1, 2, 3, 4, 7, 8}[r.Intn(7)]))
			case 1, 2:
				ps = append(ps, fmt.Sprint([]int{30, 40, 90, 100}[r.Intn(4)]+r.Intn(8)))
			case 3, 4:
				ps = append(ps, fmt.Sprintf("%d;5;%d", 38+10*r.Intn(2), r.Intn(256)))
			case 5:
				ps = append(ps, fmt.Sprintf("%d;2;%d;%d;%d", 38+10*r.Intn(2), r.Intn(256), r.Intn(256), r.Intn(256)))
			case 6:
				ps = append(ps, fmt.Sprint(30+r.Intn(8)), fmt.Sprint(40+r.Intn(8)))
			case 7:
				if r.Intn(4) == 0 {
					ps = append(ps, []string{"39", "49", "22", "58;5;1", "38", "38;5", "48;2;1", "38;5;256", "00", "031", "5"}[r.Intn(11)])
				}
			}
		}
		return csi() + strings.Join(ps, ";") + "m"
	}
	n := 1 + r.Intn(14)
	long := r.Intn(60) == 0
	for ; n > 0; n-- {
		switch r.Intn(12) {
		case 0, 1, 2, 3:
			b.WriteString(sgr())
		case 4, 5:
			b.WriteString([]string{"text", " ", "\n", "\r\n", "\t", "x", "[31m", "m"}[r.Intn(8)])
		case 6:
			b.WriteString([]string{"é", "☃", "😀", "\u00a0", "±", "\u00ff", "Â", "\ufffd"}[r.Intn(8)])
		case 7:
			if r.Intn(2) == 0 {
				b.WriteString([]string{"\xff", "\xc2", "\xe2\x82", "\x9b", "\xc3\x28", "\xf0\x9f"}[r.Intn(6)])
			}
		case 8:
			b.WriteString(csi() + []string{"H", "2J", "3;4H", "?25l", "?1049h", "1 q", ">c", "<0;1;2M", "0;31t", "31 m", "?31m", "K"}[r.Intn(12)])
		case 9:
			b.WriteString([]string{"\x1b7", "\x1b(B", "\x1b)0", "\x1bc", "\x1b=", "\x1b#8", "\x1bM", "\x1b\x1b7", "\x1b\x18", "\x1b\r7"}[r.Intn(10)])
		case 10:
			b.WriteString([]string{"\x1b]0;title\x1b\\", "\x1bP1$r0m\x1b\\", "\u009d2;é\u009c", "\x1b_x\x1b\\", "\x1b^31m\x1b\\"}[r.Intn(5)])
			if !strip && r.Intn(6) == 0 {
				b.WriteString("\x1b]0;title\x07")
			}
		case 11:
			if long {
				b.WriteString(strings.Repeat([]string{"é", "abc", "☃b", "xyz\n"}[r.Intn(4)], map[bool]int{true: 100, false: 300 + r.Intn(1200)}[strip]))
				long = false
			}
		}
	}
	if r.Intn(8) == 0 { // ends too early
		if k := b.Len(); k > 1 {
			b.Truncate(k - 1 - r.Intn(2))
		}
	}
	return b.Bytes()
}

func filterDriver(env *Env, tr *Trace) error {
	var jobs []func(tr *Trace, r *rand.Rand)
	if env.Gen != "" {
		if err := readGen(env, func(raw json.RawMessage) error {
			var g struct{ B, Cuts []int }
			if err := json.Unmarshal(raw, &g); err != nil {
				return err
			}
			b := make([]byte, len(g.B))
			for i := range b {
				b[i] = byte(g.B[i])
			}
			jobs = append(jobs, func(tr *Trace, r *rand.Rand) {
				filterRun(tr, r, []string{"to24bit", "strip"}[r.Intn(2)], b, g.Cuts)
			})
			return nil
		}); err != nil {
			return err
		}
	}
	for i := 0; i < env.N; i++ {
		jobs = append(jobs, func(tr *Trace, r *rand.Rand) {
			strip := r.Intn(3) == 0
			b := filterInput(r, strip)
			var cuts []int
			for c, every := 0, 1+r.Intn(12); every < 10; {
				c += 1 + r.Intn(every)
				if len(b) > 300 {
					c += r.Intn(1500)
				}
				if c >= len(b) {
					break
				}
				cuts = append(cuts, c)
			}
			if strip {
				if !utf8.Valid(b) && r.Intn(2) == 0 {
					b = bytes.ToValidUTF8(b, []byte("?"))
					cuts = nil
				}
				filterRun(tr, r, "strip", b, cuts)
			} else {
				filterRun(tr, r, "to24bit", b, cuts)
			}
		})
	}
	parallel(env, tr, jobs)
	return nil
}
