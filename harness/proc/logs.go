package verifdrv

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/pkg/monny/proc"
)

func stacks() string {
	buf := make([]byte, 1<<18)
	return string(buf[:runtime.Stack(buf, true)])
}

type childWrite struct {
	To  string
	B   []byte
	End bool
}

// child obeys the commands on its stdin: what to write to which stream, or to close a stream
func init() {
	runners["logs"] = runLogs
	if os.Getenv("VERIF_CHILD") == "" {
		return
	}
	in := json.NewDecoder(os.Stdin)
	for {
		var w childWrite
		if err := in.Decode(&w); err != nil {
			os.Exit(0)
		}
		f := os.Stdout
		if w.To == "e" {
			f = os.Stderr
		}
		f.Write(w.B)
		if w.End {
			f.Close()
		}
	}
}

// lineText is the content of line n of a stream.  The kind selects its shape.
func lineText(s string, n int, kind string) string {
	id := fmt.Sprintf("%s:%d:", s, n)
	switch kind {
	case "long":
		return id + strings.Repeat("0123456789", 7000) // more than 64K
	case "edge":
		return id + strings.Repeat("x", 4096-len(id)) // as long as a usual buffer
	case "huge":
		return id + strings.Repeat("0123456789abcdef", 20000)
	case "giant":
		return id + strings.Repeat("0123456789abcdef", 200000)
	case "atlas":
		return id + strings.Repeat("0123456789abcdef", 1300000) // more than 16M
	case "same": // lines that repeat each other
		return "the same line of " + s
	case "empty":
		return ""
	case "binary":
		return id + "\x00\xff\xfe\r\t\x1b[0m\x80 end"
	case "spaces":
		return id + "  two  spaces  "
	}
	return id + "text"
}

// parseLine says which line l is.  Lines without a number are the first of their kind that was not seen before, of
// several streams the one that was sent first.
func parseLine(l string, kinds map[string][]string, seen map[string]int, streams []string, at map[string][]int) (string, int) {
	best, num, which := "", 0, ""
	for _, s := range streams {
		for _, kind := range []string{"same", "empty"} {
			if l != lineText(s, 0, kind) {
				continue
			}
			for n := seen[s+kind]; n < len(kinds[s]); n++ {
				if kinds[s][n] == kind {
					if best == "" || at != nil && at[s][n] < at[best][num-1] {
						best, num, which = s, n+1, s+kind
					}
					break
				}
			}
		}
	}
	if best != "" {
		seen[which] = num
		return best, num
	}
	p := strings.SplitN(l, ":", 3)
	if len(p) < 3 {
		return "?", 0
	}
	n := 0
	fmt.Sscan(p[1], &n)
	k := kinds[p[0]]
	if n < 1 || n > len(k) || l != lineText(p[0], n, k[n-1]) {
		return "?", 0
	}
	return p[0], n
}

var logOptions = map[string]func() proc.LogProcessorOption{
	"noStdoutOut": proc.WithNoStdoutOutput,
	"noStderrOut": proc.WithNoStderrOutput,
	"noOutput":    proc.WithNoOutput,
	"noStdoutIn":  proc.WithNoStdoutInput,
	"noStderrIn":  proc.WithNoStderrInput,
}

// runLogs: cfg.piped, cfg.opts, cfg.hist (-1: not set), cfg.at (position of the command among the options).
// Ops: lines{s, kinds, cut}: writes lines to a stream, cut: in pieces of this size, last: no newline after the last one;
// eof{s}, wait{early}: calls Wait; cancel; join: waits for Wait; pause
func runLogs(t *testing.T, s Script, r *Rec) {
	race := os.Getenv("VERIF_RACE") != ""
	add := func(e J) {
		if !race {
			r.Add(e)
		}
	}
	dir := t.TempDir()
	var outF, errF *os.File
	outF, err := os.Create(dir + "/out")
	errF, err2 := os.Create(dir + "/err")
	inR, inW, err3 := os.Pipe()
	if err != nil || err2 != nil || err3 != nil {
		t.Fatal(err, err2, err3)
	}
	full := map[string]bool{}
	for _, x := range strs(s.Cfg["broken"]) {
		full[x] = true
	}
	// broken returns a file that nothing can be written to
	broken := func() *os.File {
		switch str(s.Cfg["how"]) {
		case "closed":
			f, _ := os.Create(dir + "/closed")
			f.Close()
			return f
		case "pipe":
			pr, pw, _ := os.Pipe()
			pr.Close()
			return pw
		case "short": // takes a part of the first line, which is longer than a pipe holds
			pr, pw, _ := os.Pipe()
			go func() {
				pr.Read(make([]byte, 1))
				time.Sleep(5 * time.Millisecond)
				pr.Close()
			}()
			return pw
		case "readonly":
			f, _ := os.Open(os.DevNull)
			return f
		}
		f, _ := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		return f
	}
	if full["stdout"] {
		outF = broken()
	}
	if full["stderr"] {
		errF = broken()
	}
	saved := []*os.File{os.Stdin, os.Stdout, os.Stderr}
	defer func() { os.Stdin, os.Stdout, os.Stderr = saved[0], saved[1], saved[2] }()
	os.Stdin, os.Stdout, os.Stderr = inR, outF, errF

	b := eventbus.New()
	type got struct {
		s          string
		n          int
		line       string
		ok         bool
		made, seen int
	}
	// microseconds since the start of the script
	began := time.Now()
	micros := func(t time.Time) int {
		d := t.UnixMicro() - began.UnixMicro()
		if d < -1<<30 {
			return -1 << 30
		}
		if d > 1<<30 {
			return 1 << 30
		}
		return int(d)
	}
	var mu sync.Mutex
	var evts []got
	kinds := map[string][]string{}
	known := map[string]int{}
	sentAt := map[string][]int{}
	var reads []string
	for _, st := range []string{"i", "o", "e"} {
		skip := false
		for _, o := range strs(s.Cfg["opts"]) {
			skip = skip || o == "noStdoutIn" && st == "o" || o == "noStderrIn" && st == "e"
		}
		if !skip {
			reads = append(reads, st)
		}
	}
	c, fin := b.Subscribe(proc.LogTopic)
	go func() {
		defer fin()
		for evt := range c {
			var p proc.LogEvent
			g := got{s: "?", seen: micros(time.Now())}
			if err := evt.Decode(&p); err == nil && evt.Type() == proc.LogLine {
				g.line, g.ok, g.made = string(p.Line), true, micros(p.Timestamp)
			}
			mu.Lock()
			evts = append(evts, g)
			mu.Unlock()
		}
	}()

	errs := []bool{}
	if boolean(s.Cfg["errs"]) {
		ec, efin := b.Subscribe(eventbus.OnErrorTopic())
		go func() {
			defer efin()
			for evt := range ec {
				var text string
				err := evt.Decode(&text)
				mu.Lock()
				errs = append(errs, err == nil && text != "" && strings.Contains(string(evt.Type()), "SinkError"))
				mu.Unlock()
			}
		}()
	}

	var cmd *exec.Cmd
	var opts []proc.LogProcessorOption
	piped := boolean(s.Cfg["piped"])
	if piped {
		cmd = exec.Command("")
		if boolean(s.Cfg["bare"]) {
			cmd = &exec.Cmd{}
		}
	} else {
		cmd = exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "VERIF_CHILD=1")
	}
	for _, o := range strs(s.Cfg["opts"]) {
		opts = append(opts, logOptions[o]())
	}
	insert := func(o proc.LogProcessorOption, at int) {
		if at > len(opts) {
			at = len(opts)
		}
		opts = append(opts[:at], append([]proc.LogProcessorOption{o}, opts[at:]...)...)
	}
	if h := num(s.Cfg["hist"]); h >= 0 {
		insert(proc.WithHistory(h), num(s.Cfg["histAt"]))
	}
	insert(proc.WithCommand(cmd), num(s.Cfg["at"]))

	var ctl io.WriteCloser = inW
	if !piped {
		if ctl, err = cmd.StdinPipe(); err != nil {
			t.Fatal(err)
		}
	}
	lp, err := proc.NewLogProcessor(b, opts...)
	if err != nil {
		r.Add(J{"op": "panic", "res": err.Error()})
		return
	}
	if !piped {
		if err := cmd.Start(); err != nil {
			t.Fatal(err)
		}
		defer func() { cmd.Process.Kill(); cmd.Process.Wait() }()
	}
	write := func(to string, data []byte, end bool) {
		if piped {
			ctl.Write(data)
			if end {
				ctl.Close()
			}
			return
		}
		j, _ := json.Marshal(childWrite{to, data, end})
		ctl.Write(j)
	}
	snapshot := func() {
		for _, x := range []struct {
			name, path string
			streams    []string
		}{{"stdout", dir + "/out", []string{"i", "o"}}, {"stderr", dir + "/err", []string{"e"}}} {
			data, _ := os.ReadFile(x.path)
			known := map[string]int{}
			br := bufio.NewReader(strings.NewReader(string(data)))
			for {
				l, err := br.ReadString('\n')
				if err != nil {
					if l != "" { // output that is not a complete line
						add(J{"op": "part", "sink": x.name})
					}
					break
				}
				st, n := parseLine(strings.TrimSuffix(l, "\n"), kinds, known, x.streams, nil)
				add(J{"op": "out", "sink": x.name, "s": st, "n": n})
			}
		}
		add(J{"op": "snap"})
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ret := make(chan bool)
	wait := func() {
		err := lp.Wait(ctx)
		res := "ok"
		if err != nil {
			res = "error"
		}
		add(J{"op": "ret", "res": res})
		close(ret)
	}
	waiting := false
	for _, op := range s.Ops {
		st := str(op["s"])
		switch str(op["op"]) {
		case "lines":
			var all []byte
			ks := strs(op["kinds"])
			for i, k := range ks {
				mu.Lock()
				kinds[st] = append(kinds[st], k)
				n := len(kinds[st])
				mu.Unlock()
				now := micros(time.Now())
				sentAt[st] = append(sentAt[st], now)
				add(J{"op": "send", "s": st, "n": n, "at": now})
				all = append(all, lineText(st, n, k)...)
				if !boolean(op["last"]) || i < len(ks)-1 {
					all = append(all, '\n')
				}
			}
			if cut := num(op["cut"]); cut > 0 {
				for len(all) > cut {
					write(st, all[:cut], false)
					all = all[cut:]
				}
			}
			write(st, all, false)
		case "eof":
			add(J{"op": "eof", "s": st})
			write(st, nil, true)
		case "wait":
			waiting = true
			go wait()
		case "cancel":
			add(J{"op": "cancel"})
			cancel()
		case "pause":
			time.Sleep(time.Duration(num(op["n"])) * time.Millisecond)
		}
	}
	if !waiting {
		go wait()
	}
	select {
	case <-ret:
	case <-time.After(20 * time.Second):
		r.Add(J{"op": "hang", "res": "Wait does not return"})
		return
	}
	snapshot()
	// events are delivered asynchronously: wait for the expected number, then a little longer
	want := 0
	for st, k := range kinds {
		skip := false
		for _, o := range strs(s.Cfg["opts"]) {
			skip = skip || o == "noStdoutIn" && st == "o" || o == "noStderrIn" && st == "e"
		}
		if !skip {
			want += len(k)
		}
	}
	if boolean(s.Cfg["errs"]) {
		for st, k := range kinds {
			sink, skip := "stdout", false
			if st == "e" {
				sink = "stderr"
			}
			for _, o := range strs(s.Cfg["opts"]) {
				skip = skip || o == "noStdoutIn" && st == "o" || o == "noStderrIn" && st == "e" || o == "noOutput" || o == "noStdoutOut" && sink == "stdout" || o == "noStderrOut" && sink == "stderr"
			}
			if full[sink] && !skip {
				want += len(k)
			}
		}
	}
	count := func() int { mu.Lock(); defer mu.Unlock(); return len(evts) + len(errs) }
	limit := 10 * time.Second
	if ctx.Err() != nil {
		limit = 20 * time.Millisecond
	}
	for end := time.Now().Add(limit); count() < want && time.Now().Before(end); {
		time.Sleep(time.Millisecond)
	}
	time.Sleep(2 * time.Millisecond)
	mu.Lock()
	seen := append([]got{}, evts...)
	mu.Unlock()
	// they may arrive in any order; lines that are equal are told apart by their time
	sort.SliceStable(seen, func(i, j int) bool { return seen[i].made < seen[j].made })
	for _, g := range seen {
		if g.ok {
			g.s, g.n = parseLine(g.line, kinds, known, reads, sentAt)
		}
		add(J{"op": "evt", "s": g.s, "n": g.n, "made": g.made, "seen": g.seen})
	}
	mu.Lock()
	for _, ok := range errs {
		add(J{"op": "err", "ok": ok})
	}
	mu.Unlock()
	add(J{"op": "end"})
	if race {
		r.Add(J{"op": "race", "res": "none"})
	}
	inW.Close()
	inR.Close()
	outF.Close()
	errF.Close()
	sctx, scancel := context.WithTimeout(context.Background(), 5*time.Second)
	b.Shutdown(sctx)
	scancel()
}
