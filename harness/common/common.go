// Package verifdrv drives one package of the repository with scripts and records what it did.
// The files of this directory are compiled together with one component directory, through an
// overlay, as the tests of a package that exists only in the overlay.
package verifdrv

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"time"
)

// J is a JSON object: a configuration, an operation or an observed event
type J = map[string]interface{}

// Script is one sequence of operations for one configuration
type Script struct {
	ID  string `json:"id"`
	Cfg J      `json:"cfg"`
	Ops []J    `json:"ops"`
	// Par runs the scripts concurrently when > 1 (only for components that allow it)
	Meta J `json:"meta,omitempty"`
}

// Trace is what was observed
type Trace struct {
	ID  string `json:"id"`
	Cfg J      `json:"cfg"`
	Ev  []J    `json:"ev"`
	// Note holds details that are not part of the specification, such as a stack trace
	Note string `json:"note,omitempty"`
}

// Rec records events of one script
type Rec struct {
	mu   sync.Mutex
	ev   []J
	note []string
}

func (r *Rec) Add(e J) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.ev = append(r.ev, e)
}

func (r *Rec) Note(format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.note) < 20 {
		r.note = append(r.note, fmt.Sprintf(format, a...))
	}
}

func (r *Rec) Events() []J {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]J{}, r.ev...)
}

// Catch runs f and returns a description of a panic, or ""
func (r *Rec) Catch(f func()) (p string) {
	defer func() {
		if v := recover(); v != nil {
			p = fmt.Sprint(v)
			r.Note("panic: %v\n%s", v, debug.Stack())
		}
	}()
	f()
	return ""
}

type runner func(t *testing.T, s Script, r *Rec)

var runners = map[string]runner{}

func str(v interface{}) string {
	s, _ := v.(string)
	return s
}

func num(v interface{}) int {
	f, _ := v.(float64)
	return int(f)
}

func boolean(v interface{}) bool {
	b, _ := v.(bool)
	return b
}

func list(v interface{}) []interface{} {
	l, _ := v.([]interface{})
	return l
}

func strs(v interface{}) []string {
	out := []string{}
	for _, x := range list(v) {
		out = append(out, str(x))
	}
	return out
}

// TestDrive reads scripts from VERIF_IN and writes traces to VERIF_OUT, one JSON document per line.
// A line is flushed before and after each script so that a crash of the process can be attributed.
func TestDrive(t *testing.T) {
	in, out := os.Getenv("VERIF_IN"), os.Getenv("VERIF_OUT")
	if in == "" {
		t.Skip("no scripts")
	}
	data, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	f, err := os.OpenFile(out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	var mu sync.Mutex
	write := func(v interface{}) {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		mu.Lock()
		defer mu.Unlock()
		f.Write(append(b, '\n'))
	}
	par := 1
	fmt.Sscan(os.Getenv("VERIF_PAR"), &par)
	sem := make(chan bool, par)
	watch := 30 * time.Second
	if d, err := time.ParseDuration(os.Getenv("VERIF_WATCH")); err == nil {
		watch = d
	}
	var wg sync.WaitGroup
	for _, line := range strings.Split(string(data), "\n") {
		if line == "" {
			continue
		}
		var s Script
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			t.Fatal(err)
		}
		sem <- true
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			write(J{"begin": s.ID})
			r := &Rec{}
			comp := str(s.Cfg["comp"])
			run, ok := runners[comp]
			if !ok {
				panic("no runner for component " + comp)
			}
			// a script that makes no progress ends the process, the rest is run by another one
			stop := make(chan bool)
			go func() {
				select {
				case <-stop:
				case <-time.After(watch):
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, true)]
					write(Trace{ID: s.ID, Cfg: s.Cfg, Ev: append(r.Events(), J{"op": "hang", "res": "no progress"}), Note: string(buf)})
					os.Exit(7)
				}
			}()
			if p := r.Catch(func() { run(t, s, r) }); p != "" {
				r.Add(J{"op": "panic", "res": p})
			}
			close(stop)
			write(Trace{ID: s.ID, Cfg: s.Cfg, Ev: r.Events(), Note: strings.Join(r.note, "\n")})
		}()
	}
	wg.Wait()
	write(J{"end": true})
}
