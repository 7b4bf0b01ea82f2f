package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"time"
)

// E is one event.
type E map[string]interface{}

var theTrace *Trace

// Trace writes events to one or more shards; an episode never spans shards.
type Trace struct {
	mu     sync.Mutex
	files  []*os.File
	ws     []*bufio.Writer
	cur    int
	ep     int
	kinds  map[string]int
	events int
	parent *Trace   // not nil: buffers an episode, to be committed to it
	lines  [][]byte // of the episode
	names  []string
}

// Sub is a trace of one episode at a time, that can run next to others.
func (tr *Trace) Sub() *Trace { return &Trace{parent: tr} }

// Commit a buffered episode.
func (tr *Trace) Commit() {
	p := tr.parent
	if len(tr.lines) == 0 {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.ep++
	p.cur = p.ep % len(p.ws)
	for i, b := range tr.lines {
		p.line(tr.names[i], b)
	}
	tr.lines, tr.names = nil, nil
}

func (tr *Trace) line(name string, b []byte) {
	tr.events++
	tr.kinds[name]++
	w := tr.ws[tr.cur]
	w.Write(b)
	w.WriteByte('\n')
}

// NewTrace opens the shards out.0, out.1 ...
func NewTrace(out string, shards int) (*Trace, error) {
	tr := &Trace{ep: -1, kinds: map[string]int{}}
	for i := 0; i < shards; i++ {
		f, err := os.Create(fmt.Sprintf("%s.%d", out, i))
		if err != nil {
			return nil, err
		}
		tr.files = append(tr.files, f)
		tr.ws = append(tr.ws, bufio.NewWriterSize(f, 1<<16))
	}
	return tr, nil
}

// Episode starts a new episode; its first event is "reset".
func (tr *Trace) Episode(e E) int {
	if tr.parent != nil {
		tr.Commit()
		e["ev"], e["ep"] = "reset", 0
		tr.Emit(e)
		return 0
	}
	tr.mu.Lock()
	tr.ep++
	tr.cur = tr.ep % len(tr.ws)
	tr.mu.Unlock()
	e["ev"] = "reset"
	e["ep"] = tr.ep
	tr.Emit(e)
	return tr.ep
}

// Emit one event.
func (tr *Trace) Emit(e E) {
	b, err := json.Marshal(e)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(2)
	}
	if tr.parent != nil {
		tr.lines, tr.names = append(tr.lines, b), append(tr.names, fmt.Sprint(e["ev"]))
		return
	}
	tr.mu.Lock()
	defer tr.mu.Unlock()
	tr.line(fmt.Sprint(e["ev"]), b)
}

// Close flushes everything.
func (tr *Trace) Close() error {
	if tr.parent != nil {
		tr.Commit()
		return tr.parent.Close()
	}
	tr.mu.Lock()
	defer tr.mu.Unlock()
	for i, w := range tr.ws {
		if err := w.Flush(); err != nil {
			return err
		}
		if err := tr.files[i].Close(); err != nil {
			return err
		}
	}
	b, _ := json.Marshal(map[string]interface{}{
		"episodes": tr.ep + 1, "events": tr.events, "kinds": tr.kinds,
	})
	fmt.Println(string(b))
	return nil
}

// Do runs f, which performs one call into the code under test; a panic or a
// hang is recorded in e under "bad" (else ""), and reported as false.  A hang
// ends the run after the event was emitted: the stuck goroutine cannot be
// stopped.
func (tr *Trace) Do(e E, f func()) bool {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panic: %v", r)
				if os.Getenv("VERIF_STACK") != "" {
					debug.PrintStack()
				}
			}
		}()
		f()
		done <- ""
	}()
	select {
	case bad := <-done:
		e["bad"] = bad
		return bad == ""
	case <-time.After(20 * time.Second):
		e2 := E{}
		for k, v := range e {
			e2[k] = v
		}
		e2["bad"] = "hang"
		tr.Emit(e2)
		tr.Close()
		os.Exit(0)
	}
	return false
}
