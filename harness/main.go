// Command harness drives the code under /repo through its exported interface,
// following scenarios derived from the TLA+ specifications, and records what
// the code did as events (one JSON object per line) that TLC then checks
// against those specifications.
//
// It is never part of /repo: run.py overlays this directory as a package of
// the module while building.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"

	"pol/pol"
)

type Event map[string]interface{}

type Recorder struct {
	mu  sync.Mutex
	w   *bufio.Writer
	f   *os.File
	sid int
	n   int
}

func (r *Recorder) Emit(e Event) {
	r.mu.Lock()
	defer r.mu.Unlock()
	e["sid"] = r.sid
	b, err := json.Marshal(e)
	if err != nil {
		fatal("cannot encode event: %v", err)
	}
	r.w.Write(b)
	r.w.WriteByte('\n')
	r.w.Flush() // a crash of the code under test must leave the events before it
	r.n++
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(3)
}

// Scenario is one line of the scenario file.
type Scenario struct {
	Sid  int                        `json:"sid"`
	Kind string                     `json:"kind"`
	Par  bool                       `json:"par"` // parallel mode of the library
	Cfg  map[string]json.RawMessage `json:"cfg"`
	Ops  []json.RawMessage          `json:"ops"`
}

func (s *Scenario) Int(name string, def int) int {
	if raw, ok := s.Cfg[name]; ok {
		var v int
		if err := json.Unmarshal(raw, &v); err != nil {
			fatal("scenario %d: %s: %v", s.Sid, name, err)
		}
		return v
	}
	return def
}

func (s *Scenario) Str(name, def string) string {
	if raw, ok := s.Cfg[name]; ok {
		var v string
		if err := json.Unmarshal(raw, &v); err != nil {
			fatal("scenario %d: %s: %v", s.Sid, name, err)
		}
		return v
	}
	return def
}

func (s *Scenario) Get(name string, v interface{}) bool {
	raw, ok := s.Cfg[name]
	if !ok {
		return false
	}
	if err := json.Unmarshal(raw, v); err != nil {
		fatal("scenario %d: %s: %v", s.Sid, name, err)
	}
	return true
}

var kinds = map[string]func(*Recorder, *Scenario){}

func main() {
	if len(os.Args) != 3 {
		fatal("usage: harness SCENARIOS TRACE")
	}
	in, err := os.Open(os.Args[1])
	if err != nil {
		fatal("%v", err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		fatal("%v", err)
	}
	rec := &Recorder{w: bufio.NewWriterSize(out, 1<<20), f: out}
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) == 0 {
			continue
		}
		s := &Scenario{}
		if err := json.Unmarshal(sc.Bytes(), s); err != nil {
			fatal("scenario: %v", err)
		}
		run, ok := kinds[s.Kind]
		if !ok {
			fatal("unknown scenario kind %q", s.Kind)
		}
		rec.sid = s.Sid
		pol.ParallelismEnabled = s.Par
		run(rec, s)
		runtime.GC()
	}
	rec.w.Flush()
	out.Close()
}

// try runs f and reports the panic it raised, if any.
func try(f func()) (p interface{}) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(harnessBug); ok {
				panic(e)
			}
			p = e
		}
	}()
	f()
	return nil
}

type harnessBug string

func panicText(p interface{}) string {
	s := fmt.Sprint(p)
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}
