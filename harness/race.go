package main

import (
	"os"
	"path/filepath"
	"strings"
)

// emitRaces adds an episode with one event that tells where the code under test
// raced, as the race detector logged it.
func emitRaces(tr *Trace, log string) {
	where := []string{}
	seen := map[string]bool{}
	files, _ := filepath.Glob(log + ".*")
	for _, f := range files {
		b, err := os.ReadFile(f)
		must(err)
		for _, report := range strings.Split(string(b), "WARNING: DATA RACE")[1:] {
			at, mine := raceFuncs(report)
			if mine && !seen[at] && len(where) < 10 {
				seen[at] = true
				where = append(where, at)
			}
		}
	}
	tr.Episode(E{"raced": true})
	tr.Emit(E{"ev": "race", "bad": "", "n": len(where), "where": strings.Join(where, "; ")})
}

// raceFuncs returns the functions of both accesses, and whether one is of the
// code under test (or what it calls in the standard library).
func raceFuncs(report string) (at string, mine bool) {
	funcs := []string{}
	for _, stack := range strings.Split(report, "\n\n") {
		lines := strings.Split(strings.Trim(stack, "\n"), "\n")
		if !strings.Contains(lines[0], " by ") {
			continue
		}
		for i := 1; i < len(lines); i += 2 {
			name := strings.TrimSpace(lines[i])
			if strings.HasPrefix(name, "main.") {
				break
			}
			if strings.HasPrefix(name, "github.com/jcorbin/anansi") {
				funcs = append(funcs, name)
				mine = true
				break
			}
		}
	}
	return strings.Join(funcs, " and "), mine
}
