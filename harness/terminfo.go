package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/user"
	"path/filepath"
	"strings"
	"testing/iotest"

	"github.com/jcorbin/anansi/terminfo"
)

func init() { drivers["terminfo"] = terminfoDriver }

type tiSim struct {
	tr  *Trace
	r   *rand.Rand
	dir string
	sys [][]byte
	id  int
	ptr map[string]*terminfo.Terminfo
}

// seeker reads through another reader.
type seeker struct {
	*bytes.Reader
	wrap func(io.Reader) io.Reader
	r    io.Reader
}

func (s *seeker) Read(p []byte) (int, error) { return s.r.Read(p) }
func (s *seeker) Seek(off int64, whence int) (int64, error) {
	n, err := s.Reader.Seek(off, whence)
	s.r = s.wrap(s.Reader)
	return n, err
}

func newSeeker(b []byte, wrap func(io.Reader) io.Reader) *seeker {
	s := &seeker{Reader: bytes.NewReader(b), wrap: wrap}
	s.r = wrap(s.Reader)
	return s
}

func intsOf(s string) []int {
	out := []int{}
	for i := 0; i < len(s); i++ {
		out = append(out, int(s[i]))
	}
	return out
}

// entry is a compiled entry; id, if any, is what clears the screen.
func (s *tiSim) entry(id string) []byte {
	r := s.r
	names, bools, nums := []byte("q|some terminal"[:1+r.Intn(15)]+"\x00"), make([]byte, r.Intn(45)), r.Intn(40)
	for i := range bools {
		bools[i] = byte(r.Intn(2))
	}
	count := []int{0, r.Intn(100), 218, 217, 216, 414, 50 + r.Intn(370)}[r.Intn(7)]
	if id != "" && count < 6 {
		count = 6
	}
	table := []byte{}
	offs := make([]uint16, count)
	absent, cancel := r.Intn(10), r.Intn(12)
	for i := range offs {
		switch k := r.Intn(12); {
		case i == 5 && id != "":
			offs[i] = uint16(len(table))
			table = append(append(table, id...), 0)
		case k < absent:
			offs[i] = 0xffff
		case k < cancel:
			offs[i] = 0xfffe
		case len(table) > 0 && r.Intn(6) == 0:
			offs[i] = uint16(r.Intn(len(table))) // shared
		default:
			offs[i] = uint16(len(table))
			for n := r.Intn(12); n > 0; n-- {
				table = append(table, byte(1+r.Intn(255)))
			}
			table = append(table, 0)
		}
	}
	var b bytes.Buffer
	header := []uint16{0432, uint16(len(names)), uint16(len(bools)), uint16(nums), uint16(count), uint16(len(table))}
	if id == "" && r.Intn(8) == 0 {
		switch i := r.Intn(6); {
		case i == 0:
			header[i] = []uint16{01036, 0, 0433, uint16(r.Intn(1 << 16))}[r.Intn(4)]
		case r.Intn(3) == 0:
			header[i] = uint16(0x8000 + r.Intn(0x8000))
		default:
			header[i] += uint16(r.Intn(5))
			header[i] -= uint16(r.Intn(3))
		}
	}
	if id == "" && count > 0 && r.Intn(6) == 0 {
		offs[[]int{5, 66, 216, r.Intn(count)}[r.Intn(4)]%count] = uint16(r.Intn(len(table)+40) + r.Intn(2)*r.Intn(60000))
	}
	le := func(v interface{}) { must(binary.Write(&b, binary.LittleEndian, v)) }
	le(header)
	b.Write(names)
	b.Write(bools)
	if (len(names)+len(bools))%2 != 0 {
		b.WriteByte(0)
	}
	for i := 0; i < nums; i++ {
		le(uint16(r.Intn(1 << 16)))
	}
	le(offs)
	b.Write(table)
	if r.Intn(4) == 0 {
		for n := r.Intn(60); n > 0; n-- {
			b.WriteByte(byte(r.Intn(256))) // further capabilities
		}
	}
	return b.Bytes()
}

func (s *tiSim) read(ti *terminfo.Terminfo, b []byte) {
	r := s.r
	wrap := []func(io.Reader) io.Reader{func(r io.Reader) io.Reader { return r }, iotest.OneByteReader, iotest.HalfReader, iotest.DataErrReader}[r.Intn(4)]
	file := []int{}
	for _, c := range b {
		file = append(file, int(c))
	}
	e := E{"ev": "read", "file": file}
	s.tr.Do(e, func() { e["err"] = errStr(ti.ReadFrom(newSeeker(b, wrap))) })
	keys, funcs, km, fm := [][]int{}, [][]int{}, E{}, E{}
	for _, k := range ti.Keys[1:] {
		keys = append(keys, intsOf(k))
	}
	for _, f := range ti.Funcs[1:] {
		funcs = append(funcs, intsOf(f))
	}
	for k, v := range ti.KeyMap() {
		km[k] = intsOf(v)
	}
	for k, v := range ti.FuncMap() {
		fm[k] = intsOf(v)
	}
	e["keys"], e["funcs"], e["km"], e["fm"] = keys, funcs, km, fm
	s.tr.Emit(e)
}

var tiDirs = []string{"a", "b", "c"}

// env sets some environment, and is it.
func (s *tiSim) env() (info string, dirs []string) {
	r := s.r
	dirs = []string{}
	os.Unsetenv("TERMINFO")
	os.Unsetenv("TERMINFO_DIRS")
	if r.Intn(3) == 0 {
		info = filepath.Join(s.dir, tiDirs[r.Intn(3)])
		os.Setenv("TERMINFO", info)
	}
	if r.Intn(4) > 0 {
		for n := 1 + r.Intn(4); n > 0; n-- {
			if r.Intn(4) == 0 {
				dirs = append(dirs, "")
			} else {
				dirs = append(dirs, filepath.Join(s.dir, tiDirs[r.Intn(3)]))
			}
		}
		if len(dirs) == 1 && dirs[0] == "" {
			dirs = []string{}
		}
		os.Setenv("TERMINFO_DIRS", strings.Join(dirs, ":"))
	}
	return info, dirs
}

func (s *tiSim) home() string {
	u, err := user.Current()
	must(err)
	return filepath.Join(u.HomeDir, ".terminfo")
}

func (s *tiSim) path() {
	info, dirs := s.env()
	e := E{"ev": "path", "info": info, "dirs": dirs, "home": s.home()}
	s.tr.Do(e, func() { e["got"] = terminfo.SearchPath() })
	s.tr.Emit(e)
}

func (s *tiSim) put(term string) {
	r := s.r
	d := filepath.Join(s.dir, tiDirs[r.Intn(3)])
	layout, sub := "letter", term[:1]
	if r.Intn(2) == 0 {
		layout, sub = "hex", hex.EncodeToString([]byte(term[:1]))
	}
	must(os.MkdirAll(filepath.Join(d, sub), 0777))
	name := filepath.Join(d, sub, term)
	must(os.RemoveAll(name))
	e := E{"ev": "put", "dir": d, "layout": layout, "term": term, "id": 0}
	switch r.Intn(6) {
	case 0:
		must(os.Mkdir(name, 0777))
	case 1:
		must(os.WriteFile(name, s.entry("x")[:r.Intn(12)], 0666))
	case 2:
		b := s.entry("x")
		b[1] ^= 1
		must(os.WriteFile(name, b, 0666))
	default:
		s.id++
		e["id"] = s.id
		must(os.WriteFile(name, s.entry(fmt.Sprintf("#%d", s.id)), 0666))
	}
	s.tr.Emit(e)
}

func (s *tiSim) load(term string) {
	info, dirs := s.env()
	e := E{"ev": "load", "info": info, "dirs": dirs, "home": s.home(), "term": term, "id": 0, "name": "", "exact": "", "same": false, "err": ""}
	parts := []string{}
	for _, p := range []string{"Eterm", "linux", "rxvt", "screen", "xterm", "cygwin", "st"} {
		if strings.Contains(term, p) {
			parts = append(parts, p)
		}
	}
	e["parts"] = parts
	s.tr.Do(e, func() {
		ti, err := terminfo.Load(term)
		if e["err"] = errStr(err); err == nil {
			if ti == nil {
				panic(errors.New("no terminfo"))
			}
			var id int
			if n, _ := fmt.Sscanf(ti.Funcs[terminfo.FuncClearScreen], "#%d", &id); n == 1 {
				e["id"] = id
			}
			e["name"] = ti.Name
			e["same"] = s.ptr[term] == ti
			s.ptr[term] = ti
		}
	})
	s.tr.Emit(e)
}

func (s *tiSim) builtin(term string) {
	info, dirs := s.env()
	e := E{"ev": "load", "info": info, "dirs": dirs, "home": s.home(), "term": term, "id": 0, "name": "", "exact": term, "parts": []string{}, "same": false, "err": ""}
	s.tr.Do(e, func() {
		ti, err := terminfo.GetBuiltin(term)
		if e["err"] = errStr(err); err == nil {
			e["name"] = ti.Name
		}
	})
	s.tr.Emit(e)
}

func terminfoDriver(env *Env, tr *Trace) error {
	s := &tiSim{tr: tr, dir: filepath.Join(env.Dir, "ti"), ptr: map[string]*terminfo.Terminfo{}}
	filepath.Walk("/usr/share/terminfo", func(name string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && fi.Size() < 5000 {
			if b, err := os.ReadFile(name); err == nil {
				s.sys = append(s.sys, b)
			}
		}
		return nil
	})
	for i := 0; i < env.N; i++ {
		s.r = rand.New(rand.NewSource(env.Seed*1000003 + int64(i)))
		r := s.r
		tr.Episode(E{"i": i})
		var ti terminfo.Terminfo
		for n := 1 + r.Intn(3); n > 0; n-- {
			b := s.entry("")
			if len(s.sys) > 0 && r.Intn(10) == 0 {
				b = s.sys[r.Intn(len(s.sys))]
			}
			switch r.Intn(6) {
			case 0:
				b = b[:r.Intn(len(b)+1)]
			case 1:
				if len(b) > 20 {
					b = b[:len(b)-r.Intn(20)]
				}
			}
			s.read(&ti, b)
		}
		s.path()
		must(os.RemoveAll(s.dir))
		first := "qQ7"[r.Intn(3)]
		terms := []string{""}
		for n := 1 + r.Intn(3); n > 0; n-- {
			terms = append(terms, fmt.Sprintf("%c%d.%d%s", first, i, n, []string{"", "xterm-x", "rxvt", "-screen-linux", "Eterm", "x-cygwin", "zst", "1"}[r.Intn(8)]))
		}
		for n := r.Intn(16); n > 0; n-- {
			term := terms[r.Intn(len(terms))]
			if r.Intn(2) == 0 && term != "" {
				s.put(term)
			} else {
				s.load(term)
			}
		}
		s.builtin([]string{"Eterm", "linux", "rxvt-256color", "rxvt-unicode", "screen", "xterm"}[r.Intn(6)])
	}
	return os.RemoveAll(s.dir)
}
