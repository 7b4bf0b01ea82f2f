// Command verifharness drives the real anansi code and records what it did as
// newline delimited JSON events, which the TLA+ trace specifications in
// /verif/spec then judge.  It holds no verdict logic of its own.
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
)

// Env is what every driver gets.
type Env struct {
	Seed     int64
	Thorough bool
	N        int    // scale factor: number of random episodes (0: driver default)
	Gen      string // file with TLC generated histories (ndjson), may be ""
	GenMax   int    // replay at most about this many of them, picked by seed
	Only     int    // run only this episode (-1: all)
	Dir      string // scratch dir, removed by the caller
}

type driver func(env *Env, tr *Trace) error

var drivers = map[string]driver{}

func main() {
	var env Env
	var out string
	flag.Int64Var(&env.Seed, "seed", 1, "seed")
	flag.BoolVar(&env.Thorough, "thorough", false, "thorough tier")
	flag.IntVar(&env.N, "n", 0, "episodes")
	flag.StringVar(&env.Gen, "gen", "", "generated histories")
	flag.IntVar(&env.GenMax, "genmax", 0, "replay at most so many generated histories")
	flag.StringVar(&out, "out", "", "output trace prefix")
	flag.IntVar(&env.Only, "only", -1, "only this episode")
	flag.StringVar(&env.Dir, "dir", "", "scratch dir")
	shards := flag.Int("shards", 1, "number of trace shards")
	child := flag.String("child", "", "internal: child mode")
	flag.Parse()
	if *child != "" {
		if err := runChild(*child, flag.Args()); err != nil {
			fmt.Fprintln(os.Stderr, "child:", err)
			os.Exit(3)
		}
		return
	}
	name := flag.Arg(0)
	d := drivers[name]
	if d == nil {
		var names []string
		for n := range drivers {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Fprintln(os.Stderr, "unknown driver", name, "have", names)
		os.Exit(2)
	}
	if env.Dir == "" {
		dir, err := os.MkdirTemp("", "verifharness")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer os.RemoveAll(dir)
		env.Dir = dir
	}
	tr, err := NewTrace(out, *shards)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	theTrace = tr
	if err := d(&env, tr); err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(2)
	}
	if log := os.Getenv("VERIF_RACELOG"); log != "" {
		emitRaces(tr, log)
	}
	if err := tr.Close(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

var children = map[string]func(args []string) error{}

func runChild(name string, args []string) error {
	f := children[name]
	if f == nil {
		return fmt.Errorf("unknown child %q", name)
	}
	return f(args)
}
