package verifdrv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"github.com/golang/protobuf/proto"
)

func init() { runners["sup"] = runSup }

// rules in the order in which they are configured; the expression and what it is applied to
var supRules = []struct {
	field string
	re    *regexp.Regexp
}{
	{"", regexp.MustCompile(`ALERT1`)},
	{"", regexp.MustCompile(`ALERT[2-9]+`)},
	{"f.x", regexp.MustCompile(`^v[0-9]+$`)},
	{"", regexp.MustCompile(`two  spaces  $`)},
	{"", regexp.MustCompile(`^  [oe]:`)},
	{"", regexp.MustCompile(`(?i)\bmany1\b`)},
	{"", regexp.MustCompile(`Many2`)},
	{"", regexp.MustCompile(`Many3|Many4`)},
	{"", regexp.MustCompile(`Many(4|5)`)},
	{"", regexp.MustCompile(`Many.?6`)},
	{"", regexp.MustCompile(`Many7 .*Many8`)},
	{"", regexp.MustCompile(`Many8`)},
	{"", regexp.MustCompile(`Many9$`)},
	{"", regexp.MustCompile(`\t Many`)},
}

// supLine is the text of line n of a stream
func supLine(st string, n int, kind string) string {
	id := fmt.Sprintf("%s:%d:", st, n)
	switch kind {
	case "empty":
		return ""
	case "long":
		return id + strings.Repeat("0123456789", 7000)
	case "huge":
		return id + strings.Repeat("0123456789abcdef", 20000)
	case "giant":
		return id + strings.Repeat("0123456789abcdef", 3<<16)
	case "atlas":
		return id + strings.Repeat("0123456789abcdef", 70<<16)
	case "edge":
		return id + strings.Repeat("x", 65536-len(id))
	case "binary":
		return id + "\x00\xff\xfe\r\t\x1b[0m\x80\xe2\x28 end"
	case "tail": // what could be taken for white space or padding at the end
		return id + "padded" + []string{"\x00\x00", "\t", "\x1a", "\u00a0", "\v\f", "\x04", "\xff", " \x00", "\u2028", "\b"}[n%10]
	case "head":
		return []string{"\ufeff", "\x00", "\t", "\v", "\x1b[2K", "\xff\xfe", "\x08", "#", "\u200b", "-"}[n%10] + id
	case "utf8":
		return id + "grüße, 世界 \u2028"
	case "spaces":
		return "  " + id + "  two  spaces  "
	case "percent":
		return id + "%s %d %!n(MISSING) \\n $HOME `x` 'y' \"z\""
	case "m1":
		return id + "an ALERT1 here"
	case "dup": // lines that are equal
		return "once more ALERT1"
	case "m2":
		return id + "another ALERT23 there"
	case "m12":
		return id + "ALERT2 and ALERT1 and ALERT9"
	case "mm":
		return id + "ALERT1 ALERT1"
	case "mmany":
		return id + strings.Repeat("ALERT1 and ALERT2 ", 1100)
	case "mlong":
		return id + strings.Repeat("z", 66000) + "ALERT1"
	case "mgiant":
		return id + strings.Repeat("0123456789abcdef", 1<<16) + "ALERT1" + strings.Repeat("z", 200000)
	case "mrules":
		return id + "MANY1 \t Many2 Many3 Many4 Many6 Many7 Many8 Many9"
	case "mlast":
		return id + "many1, Many2 \t Many"
	case "mbin":
		return id + "\xff\xfeALERT1\x80"
	case "j3":
		return `{"id":"` + id + `","f":{"x":"v12"}}`
	case "jno":
		return `{"id":"` + id + `","f":{"x":"w12"},"x":"v12"}`
	case "jbad":
		return `{"id":"` + id + `","f":{"x":"v12"}`
	case "secret":
		return id + "s3cr3t-line ALERT1"
	}
	return id + "text"
}

// supMatches are the positions that every configured rule must find in a line of this kind
func supMatches(text, kind string, rules int) map[int][][]int {
	out := map[int][][]int{}
	for i := 0; i < rules; i++ {
		t := text
		if supRules[i].field != "" {
			if kind != "j3" {
				continue
			}
			t = "v12"
		}
		if m := supRules[i].re.FindAllStringIndex(t, -1); m != nil {
			out[i+1] = m
		}
	}
	return out
}

// private is what must not become known to anyone but the collector
var private = []string{"s3cr3t", "owner-7f3a", "word-9c1e", "file-5d2b", "ALERT"}

// raw is a string of a script with its bytes written as \xNN
func raw(s string) string {
	out, err := strconv.Unquote(`"` + strings.ReplaceAll(s, `"`, `\"`) + `"`)
	if err != nil {
		return s
	}
	return out
}

// sizeOf is the size of a file as a number that the specification can hold: of a large one the GB and the bytes above
func sizeOf(n int64) int {
	switch {
	case n < 0:
		return -1
	case n < 1<<30:
		return int(n)
	}
	return 1<<30 + int(n>>30)<<10 + int(n&1023)
}

// fileFacts are the size and the time of modification of a file
func fileFacts(size int64, mod time.Time) []interface{} {
	return []interface{}{sizeOf(size), mod.UTC().Format(time.RFC3339Nano)}
}

// readable is text with whatever is not UTF-8 replaced
func readable(s string) string {
	s = strings.ToValidUTF8(s, "\uFFFD")
	for strings.Contains(s, "\uFFFD\uFFFD") {
		s = strings.ReplaceAll(s, "\uFFFD\uFFFD", "\uFFFD")
	}
	return s
}

// supConf is the configuration that a report describes, as text
func supConf(b []byte) string {
	var c struct {
		ID                                       string
		Rules                                    []struct{ Field, Regex string }
		RuleQuantity                             int
		RulePeriod, NotifyTimeout, KillTimeout   time.Duration
		MemoryWarn, MemoryKill                   uint64
		Daemon, NotifyOnSuccess, NotifyOnFailure bool
		Creates                                  []string
		StdoutHistory, StderrHistory             int
	}
	if err := json.Unmarshal(b, &c); err != nil {
		return "bad"
	}
	c.ID = readable(c.ID)
	return readable(fmt.Sprintf("%+v", c))
}

func (w *world) conf() string {
	cfg := w.s.Cfg
	m := J{"ID": w.id(), "RuleQuantity": num(cfg["qty"]), "RulePeriod": num(cfg["per"]) * 1000000, "NotifyTimeout": num(cfg["tw"]) * 1000000, "KillTimeout": num(cfg["tk"]) * 1000000,
		"MemoryWarn": num(cfg["mw"]), "MemoryKill": num(cfg["mk"]), "Daemon": boolean(cfg["daemon"]), "NotifyOnSuccess": !boolean(cfg["nos"]), "NotifyOnFailure": !boolean(cfg["nof"]),
		"StdoutHistory": num(cfg["ho"]), "StderrHistory": num(cfg["he"])}
	rules, creates := []J{}, []string{}
	for i := 0; i < w.rules; i++ {
		rules = append(rules, J{"Field": supRules[i].field, "Regex": supRules[i].re.String()})
	}
	for _, f := range strs(cfg["files"]) {
		creates = append(creates, filepath.Join(w.dir, f))
	}
	m["Rules"], m["Creates"] = rules, creates
	b, _ := json.Marshal(m)
	return supConf(b)
}

func (w *world) id() string {
	if id := str(w.s.Cfg["id"]); id != "" {
		return raw(id)
	}
	return "verif"
}

func (w *world) words() []string {
	out := []string{os.Args[0]}
	// what can not be started
	switch str(w.s.Cfg["nostart"]) {
	case "missing":
		out[0] = filepath.Join(w.dir, "nothing")
	case "name":
		out[0] = "no-such-command-9d1f"
	case "dir":
		out[0] = w.dir
	case "mode":
		out[0] = filepath.Join(w.dir, "plain")
		os.WriteFile(out[0], []byte("#!/bin/sh\nexit 0\n"), 0644)
	case "format":
		out[0] = filepath.Join(w.dir, "text")
		os.WriteFile(out[0], []byte("exit 0\n"), 0755)
	case "interpreter":
		out[0] = filepath.Join(w.dir, "script")
		os.WriteFile(out[0], []byte("#!"+w.dir+"/nothing\n"), 0755)
	}
	for _, x := range strs(w.s.Cfg["words"]) {
		out = append(out, raw(x))
	}
	return out
}

type lineRef struct {
	st string
	n  int
}

type world struct {
	errreps int
	r       *Rec
	s       Script
	mu      sync.Mutex // orders the events
	t0      time.Time
	u0      int64
	dir     string
	col     *collector
	rules   int
	kinds   map[string][]string
	out     map[string]int
	texts   map[string]lineRef
	dups    []lineRef             // equal lines that match, in order
	dupAt   map[time.Time]lineRef // those among them that were seen in reports, by the time of the match
	content map[string]int
	reqs    int
	ackedN  map[int]int
	reasons map[int]int // reason of request
	hist    map[string][]string

	conn   net.Conn
	enc    *json.Encoder
	hello  chan bool
	goneCh chan bool
	msgs   map[string]int // acknowledgements by the command
	notify chan bool

	cmd    *exec.Cmd
	exited chan bool
	code   int
	stdin  *os.File
	fed    int
	stop   bool
	died   bool
	tail   J // the last event
	errs   *errSink
	heldK  int
	due    map[string]int // lines that the command will have acknowledged
}

var stalls int64

// clock is the time as monny sees it, whose clock and timers may run faster: ms since its start and unix seconds
func (w *world) clock() (int, int) {
	since := time.Since(w.t0)
	if n := num(w.s.Cfg["speed"]); n > 1 {
		since *= time.Duration(n)
	}
	return int(since / time.Millisecond), int(w.t0.Add(since).Unix() - w.u0)
}

// add records an event.  The caller must not hold the lock.
func (w *world) add(e J) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.addLocked(e)
}

func (w *world) addLocked(e J) {
	if w.stop {
		return
	}
	if _, ok := e["t"]; !ok {
		e["t"], e["u"] = w.clock()
	}
	if !w.merge(e) {
		w.r.Add(e)
		w.tail = e
	}
	select {
	case w.notify <- true:
	default:
	}
}

// merge adds a line to the event of the lines just before it
func (w *world) merge(e J) bool {
	l := w.tail
	if l == nil || l["op"] != e["op"] || l["st"] != e["st"] {
		return false
	}
	w.r.mu.Lock()
	defer w.r.mu.Unlock()
	switch {
	case e["op"] == "out" && e["n"].(int) > 0 && l["n"].(int) > 0 && l["to"].(int)+1 == e["n"].(int):
		l["to"] = e["to"]
	case e["op"] == "line" && len(e["m"].([]int)) == 0 && len(l["m"].([]int)) == 0:
		l["n"] = e["n"]
	default:
		return false
	}
	return true
}

// wait until cond holds, which is evaluated with the lock held
func (w *world) wait(ms int, cond func() bool) bool {
	end := time.Now().Add(time.Duration(ms) * time.Millisecond)
	for {
		w.mu.Lock()
		ok := cond()
		w.mu.Unlock()
		if ok {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		select {
		case <-w.notify:
		case <-time.After(3 * time.Millisecond):
		}
	}
}

func (w *world) stall(what string) {
	w.mu.Lock()
	w.addLocked(J{"op": "stall", "what": what})
	w.stop = true
	w.mu.Unlock()
	atomic.AddInt64(&stalls, 1)
}

func jsonText(s string) string {
	b, _ := json.Marshal(s)
	var out string
	json.Unmarshal(b, &out)
	return out
}

// tell prepares lines: records that they are about to be written and returns the bytes
func (w *world) tell(st string, kinds []string, last bool) []byte {
	var b []byte
	for i, k := range kinds {
		w.mu.Lock()
		w.kinds[st] = append(w.kinds[st], k)
		n := len(w.kinds[st])
		text := supLine(st, n, k)
		if k == "dup" {
			w.dups = append(w.dups, lineRef{st, n})
		}
		if text != "" {
			for _, t := range []string{text, strings.ToValidUTF8(text, "\uFFFD"), jsonText(text)} {
				w.texts[t] = lineRef{st, n}
			}
		}
		m := []int{}
		found := supMatches(text, k, w.rules)
		for i := 1; i <= w.rules; i++ {
			if found[i] != nil {
				m = append(m, i)
			}
		}
		w.addLocked(J{"op": "line", "st": st, "n": n, "m": m})
		w.mu.Unlock()
		b = append(b, text...)
		if !(last && i == len(kinds)-1) {
			b = append(b, '\n')
		}
	}
	return b
}

// numbers maps lines of a report to line numbers
func (w *world) numbers(st string, lines []string) []int {
	kinds := w.kinds[st]
	limit := num(w.s.Cfg["h"+st])
	for k := len(kinds); k >= len(lines); k-- {
		// equal lines may have several numbers: a history below its limit starts at the first line
		if len(lines) < limit && k > len(lines) && len(kinds) >= len(lines) {
			k = len(lines)
		}
		ok := true
		for i := range lines {
			n := k - len(lines) + i + 1
			if lines[i] != strings.ToValidUTF8(supLine(st, n, kinds[n-1]), "\uFFFD") {
				ok = false
				break
			}
		}
		if ok {
			out := []int{}
			for i := range lines {
				out = append(out, k-len(lines)+i+1)
			}
			return out
		}
	}
	out := []int{}
	for _, l := range lines {
		ref := w.texts[l]
		if ref.st != st {
			ref.n = 0
		}
		out = append(out, ref.n)
	}
	return out
}

// request records a request and returns its number.
func (w *world) request(rep *pb.Report) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.reqs++
	q := w.reqs
	b, _ := proto.Marshal(rep)
	r, ok := w.content[string(b)]
	if !ok {
		r = len(w.content) + 1
		w.content[string(b)] = r
	}
	w.reasons[q] = int(rep.ReportReason)
	e := J{"op": "rep", "q": q, "r": r, "reason": int(rep.ReportReason), "o": w.numbers("o", rep.Stdout), "e": w.numbers("e", rep.Stderr),
		"success": rep.Success, "code": int(rep.ExitCode), "valid": rep.ExitCodeValid, "killed": rep.Killed, "kr": int(rep.KillReason),
		"u0": 0, "posok": true, "id": readable(rep.Id), "host": readable(rep.Hostname), "cmd": readable(rep.UserCommand), "conf": supConf(rep.Config)}
	clamp := func(x int64) int {
		x -= w.u0
		if x < -1000000 {
			x = -1000000
		}
		if x > 1000000 {
			x = 1000000
		}
		return int(x)
	}
	e["start"], e["finish"], e["cre"] = clamp(rep.Start), clamp(rep.Finish), clamp(rep.CreatedAt)
	e["maxmem"] = 1000000000
	if rep.MaxMemory < 1000000000 {
		e["maxmem"] = int(rep.MaxMemory)
	}
	d, err := time.ParseDuration(rep.Duration)
	if err != nil {
		d = -time.Hour
	}
	e["dur"] = int(d / time.Millisecond)
	if d < 0 {
		e["dur"] = -1
	}
	matches, times := []interface{}{}, []int{}
	var ms []struct {
		Time  time.Time
		Line  string
		Index [][]int
	}
	if err := json.Unmarshal(rep.Matches, &ms); err != nil {
		e["posok"] = false
	}
	// matches of several rules on the same line: in the order of the rules
	lastRule := map[lineRef]int{}
	for _, m := range ms {
		ref, ok := w.texts[m.Line]
		if ok && w.kinds[ref.st][ref.n-1] == "dup" {
			// each of them is a match of its own
			if ref, ok = w.dupAt[m.Time]; !ok && len(w.dupAt) < len(w.dups) {
				ref, ok = w.dups[len(w.dupAt)], true
				w.dupAt[m.Time] = ref
			}
		}
		rule := 0
		if ok {
			k := w.kinds[ref.st][ref.n-1]
			found := supMatches(supLine(ref.st, ref.n, k), k, w.rules)
			for i := lastRule[ref] + 1; i <= w.rules; i++ {
				if found[i] != nil && fmt.Sprint(found[i]) == fmt.Sprint(m.Index) {
					rule = i
					break
				}
			}
			if rule == 0 {
				e["posok"] = false
			} else {
				lastRule[ref] = rule
			}
		}
		matches = append(matches, []interface{}{ref.st, ref.n, rule})
		times = append(times, int(m.Time.Sub(w.t0)/time.Millisecond))
	}
	e["matches"], e["mtimes"] = matches, times
	missing := []int{}
	for _, m := range rep.Messages {
		best := 0
		for i, f := range strs(w.s.Cfg["files"]) {
			if p := filepath.Join(w.dir, f); strings.Contains(m, p) && (best == 0 || len(f) > len(strs(w.s.Cfg["files"])[best-1])) {
				best = i + 1
			}
		}
		missing = append(missing, best)
	}
	e["missing"] = missing
	created := []interface{}{}
	var fs []struct {
		Path string
		Size int64
		Time time.Time
	}
	json.Unmarshal(rep.Created, &fs)
	for _, f := range fs {
		created = append(created, []interface{}{f.Path, fileFacts(f.Size, f.Time)})
	}
	e["created"] = created
	w.addLocked(e)
	return q
}

func (w *world) acknowledge(q int, kind string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.addLocked(J{"op": "ack", "q": q, "kind": kind})
	if kind == "ok" {
		w.ackedN[w.reasons[q]]++
	}
}

// listen serves the connection of the command
func (w *world) listen(l net.Listener) {
	conn, err := l.Accept()
	if err != nil {
		return
	}
	w.mu.Lock()
	w.conn = conn
	w.enc = json.NewEncoder(conn)
	w.mu.Unlock()
	dec := json.NewDecoder(conn)
	for {
		var m ctlMsg
		if err := dec.Decode(&m); err != nil {
			w.add(J{"op": "gone"})
			close(w.goneCh)
			return
		}
		w.mu.Lock()
		switch m.Msg {
		case "hello":
			w.addLocked(J{"op": "hello"})
			close(w.hello)
		case "wrote":
			w.addLocked(J{"op": "wrote", "st": m.St, "n": m.N})
			w.msgs["wrote"+m.St] = m.N
		case "sig":
			w.addLocked(J{"op": "gotsig", "s": m.S})
			w.msgs["sig"]++
		case "in":
			w.addLocked(J{"op": "in", "n": m.N, "ok": m.OK, "eof": true})
			w.msgs["in"]++
		case "held":
			w.addLocked(J{"op": "held", "k": w.heldK})
			w.msgs["held"]++
		case "heir":
			w.msgs["heir"]++
		case "pong":
			w.addLocked(J{"op": "alive"})
			w.msgs["pong"]++
		}
		w.mu.Unlock()
	}
}

func (w *world) send(c ctlCmd) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.enc != nil {
		w.enc.Encode(c)
	}
}

func (w *world) reader(st string, f io.Reader, wg *sync.WaitGroup) {
	defer wg.Done()
	br := bufio.NewReaderSize(f, 1<<20)
	for {
		l, err := br.ReadString('\n')
		if l != "" || err == nil {
			text := strings.TrimSuffix(l, "\n")
			w.mu.Lock()
			n := 0
			if next := w.out[st] + 1; next <= len(w.kinds[st]) && text == supLine(st, next, w.kinds[st][next-1]) && err == nil {
				n = next
			} else if ref, ok := w.texts[text]; ok && ref.st == st && err == nil && text == supLine(st, ref.n, w.kinds[st][ref.n-1]) {
				n = ref.n
			}
			w.out[st]++
			if n == 0 && len(text) < 200 {
				w.r.Note("unexpected %s: %q", st, text)
			}
			w.addLocked(J{"op": "out", "st": st, "n": n, "to": n})
			w.mu.Unlock()
		}
		if err != nil {
			return
		}
	}
}

func (w *world) start(quick []ctlCmd) error {
	cfg := w.s.Cfg
	bins := map[string]string{}
	json.Unmarshal([]byte(os.Getenv("VERIF_BINS")), &bins)
	args := []string{"-i", w.id(), "--insecure", "--host", w.col.addr}
	if w.errs == nil || boolean(cfg["noerr"]) {
		args = append(args, "--no-error-reports")
	}
	flag := func(name, key string, none int, suffix string) {
		if n := num(cfg[key]); n != none {
			args = append(args, fmt.Sprintf("--%s=%d%s", name, n, suffix))
		}
	}
	flag("stdout-history", "ho", 30, "")
	flag("stderr-history", "he", 30, "")
	flag("timeout-warn", "tw", 0, "ms")
	flag("timeout-kill", "tk", 0, "ms")
	flag("memory-warn", "mw", 0, "K")
	flag("memory-kill", "mk", 0, "K")
	if boolean(cfg["nos"]) {
		args = append(args, "--no-notify-on-success")
	}
	if boolean(cfg["nof"]) {
		args = append(args, "--no-notify-on-failure")
	}
	if boolean(cfg["daemon"]) {
		args = append(args, "--daemon")
	}
	for i := 0; i < w.rules; i++ {
		if supRules[i].field != "" {
			args = append(args, "--rule-json", supRules[i].field+":"+supRules[i].re.String())
		} else {
			args = append(args, "--rule", supRules[i].re.String())
		}
	}
	for _, f := range strs(cfg["files"]) {
		args = append(args, "--creates", filepath.Join(w.dir, f))
	}
	args = append(args, "--")
	args = append(args, w.words()...)
	w.cmd = exec.Command(bins[str(cfg["bin"])], args...)
	host, _ := os.Hostname()
	if h := str(cfg["host"]); h != "" {
		if canName() {
			host = raw(h)
			w.cmd = exec.Command(os.Args[0], args...)
			w.cmd.SysProcAttr = ownHost()
		} else {
			w.r.Note("the host can not be given a name here")
		}
	}
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_") || strings.HasPrefix(e, "VERIF_YSLEEP=") {
			env = append(env, e)
		}
	}
	if n := num(cfg["speed"]); n > 1 {
		env = append(env, fmt.Sprintf("VERIF_SPEED=%d", n))
	}
	if e := str(cfg["env"]); e != "" {
		env = append(env, e)
	}
	env = append(env, "VERIF_MODE="+strings.Join(strs(cfg["mode"]), ","))
	if q := num(cfg["qty"]); q > 0 {
		env = append(env, fmt.Sprintf("VERIF_QTY=%d", q))
		if p := num(cfg["per"]); p > 0 {
			env = append(env, fmt.Sprintf("VERIF_PER=%dms", p))
		}
	}
	if w.errs != nil {
		env = append(env, w.errs.env()...)
	}
	if w.cmd.SysProcAttr != nil {
		env = append(env, "VERIF_HOSTNAME="+host, "VERIF_EXEC="+bins[str(cfg["bin"])])
	}
	w.add(J{"op": "begin", "t": 0, "u": 0, "id": readable(w.id()), "host": readable(host), "cmd": readable(strings.Join(w.words(), " ")), "conf": w.conf()})
	if quick != nil {
		b, _ := json.Marshal(quick)
		f := filepath.Join(w.dir, "quick")
		if err := os.WriteFile(f, b, 0644); err != nil {
			return err
		}
		env = append(env, "VERIF_QUICK="+f)
	} else {
		sock := filepath.Join(w.dir, "ctl")
		l, err := net.Listen("unix", sock)
		if err != nil {
			return err
		}
		env = append(env, "VERIF_CTL="+sock)
		go func() { w.listen(l); l.Close() }()
	}
	w.cmd.Env = env
	or, ow, err := os.Pipe()
	if err != nil {
		return err
	}
	er, ew, err := os.Pipe()
	if err != nil {
		return err
	}
	w.cmd.Stdout, w.cmd.Stderr = ow, ew
	for _, st := range strs(cfg["full"]) {
		// nothing can be written there
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return err
		}
		defer f.Close()
		if st == "o" {
			w.cmd.Stdout = f
		} else {
			w.cmd.Stderr = f
		}
	}
	var ir *os.File
	if has(strs(cfg["mode"]), "stdin") || has(strs(cfg["mode"]), "closein") {
		ir, w.stdin, err = os.Pipe()
		if err != nil {
			return err
		}
		w.cmd.Stdin = ir
	}
	w.mu.Lock()
	w.t0 = time.Now()
	w.u0 = w.t0.Unix()
	w.mu.Unlock()
	err = w.cmd.Start()
	ow.Close()
	ew.Close()
	if ir != nil {
		ir.Close()
	}
	if err != nil {
		return err
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go w.reader("o", or, &wg)
	go w.reader("e", er, &wg)
	go func() {
		w.cmd.Wait()
		fin := make(chan bool)
		go func() { wg.Wait(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(3 * time.Second):
		}
		w.code = w.cmd.ProcessState.ExitCode()
		or.Close()
		er.Close()
		if quick == nil {
			// that the command ended is known before monny can have ended
			select {
			case <-w.goneCh:
			case <-time.After(700 * time.Millisecond):
			}
		}
		w.mu.Lock()
		w.addLocked(J{"op": "exit", "code": w.code})
		w.stop = true
		w.mu.Unlock()
		close(w.exited)
	}()
	return nil
}

// ownHost are the attributes of a process with a host name of its own
func ownHost() *syscall.SysProcAttr {
	return &syscall.SysProcAttr{Cloneflags: syscall.CLONE_NEWUSER | syscall.CLONE_NEWUTS,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}}, GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}}}
}

var nameOnce sync.Once
var nameOK bool

// canName is whether a process can be given a host name of its own here
func canName() bool {
	nameOnce.Do(func() {
		c := exec.Command(os.Args[0])
		c.SysProcAttr = ownHost()
		c.Env = []string{"VERIF_HOSTNAME=own", "VERIF_EXEC=/bin/true"}
		nameOK = c.Run() == nil
	})
	return nameOK
}

func has(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

var ipCount int64

func runSup(t *testing.T, s Script, r *Rec) {
	if atomic.LoadInt64(&stalls) >= 6 {
		r.Note("skipped")
		return
	}
	n := atomic.AddInt64(&ipCount, 1)
	pid := os.Getpid()
	dir, err := os.MkdirTemp("", "verif-sup")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	w := &world{r: r, s: s, dir: dir, rules: num(s.Cfg["rules"]), kinds: map[string][]string{}, out: map[string]int{}, texts: map[string]lineRef{}, dupAt: map[time.Time]lineRef{},
		content: map[string]int{}, ackedN: map[int]int{}, reasons: map[int]int{}, hello: make(chan bool), goneCh: make(chan bool),
		msgs: map[string]int{}, due: map[string]int{}, notify: make(chan bool, 1), exited: make(chan bool), t0: time.Now(), u0: time.Now().Unix()}
	w.col = &collector{addr: fmt.Sprintf("127.%d.%d.%d:0", 1+pid%250, 1+(n/200)%250, 1+n%200), hold: make(chan bool), always: "ok"}
	if e := str(s.Cfg["errs"]); e != "" {
		if w.errs, err = newErrSink(w, e); err != nil {
			t.Fatal(err)
		}
		defer w.errs.close()
	}
	w.col.on = w.request
	w.col.ack = w.acknowledge
	if err := w.col.up(); err != nil {
		t.Fatal(err)
	}
	defer func() {
		w.mu.Lock()
		w.stop = true
		w.mu.Unlock()
		if w.conn != nil {
			w.conn.Close()
		}
		if w.cmd != nil && w.cmd.Process != nil {
			select {
			case <-w.exited:
			default:
				w.cmd.Process.Kill()
				<-w.exited
			}
		}
		if w.stdin != nil {
			w.stdin.Close()
		}
		w.col.down()
	}()
	for _, op := range s.Ops {
		w.mu.Lock()
		stop := w.stop && w.cmd != nil
		w.mu.Unlock()
		if stop {
			break
		}
		w.do(op)
	}
}

func (w *world) wrote(st string) func() bool {
	return func() bool { return w.msgs["wrote"+st] >= w.due[st] || w.stop }
}

func (w *world) do(op J) {
	ms := num(op["ms"])
	switch str(op["op"]) {
	case "start":
		if err := w.start(nil); err != nil {
			w.add(J{"op": "panic", "res": err.Error()})
			return
		}
		select {
		case <-w.hello:
		case <-w.exited:
		case <-time.After(15 * time.Second):
			w.stall("start")
		}
	case "quick":
		// everything the command will do is known before it starts
		var cmds []ctlCmd
		for _, o := range list(op["do"]) {
			o := o.(J)
			cmds = append(cmds, ctlCmd{Do: "write", St: str(o["st"]), B: w.tell(str(o["st"]), strs(o["kinds"]), boolean(o["last"]))})
		}
		cmds = append(cmds, ctlCmd{Do: "die", How: str(op["how"]), Code: num(op["code"])})
		w.add(J{"op": "die", "how": str(op["how"]), "code": num(op["code"]), "t": 0, "u": 0})
		if err := w.start(cmds); err != nil {
			w.add(J{"op": "panic", "res": err.Error()})
		}
	case "attempt": // the command can not be started
		if err := w.start([]ctlCmd{}); err != nil {
			w.add(J{"op": "panic", "res": err.Error()})
		}
	case "lines":
		st := str(op["st"])
		b := w.tell(st, strs(op["kinds"]), boolean(op["last"]))
		w.due[st] = len(w.kinds[st])
		w.send(ctlCmd{Do: "write", St: st, B: b, N: len(w.kinds[st])})
		if !boolean(op["async"]) && !w.wait(15000, w.wrote(st)) {
			w.stall("write")
		}
	case "both":
		bo := w.tell("o", strs(op["o"]), false)
		be := w.tell("e", strs(op["e"]), false)
		w.due["o"], w.due["e"] = len(w.kinds["o"]), len(w.kinds["e"])
		w.send(ctlCmd{Do: "write", St: "o", B: bo, N: len(w.kinds["o"])})
		w.send(ctlCmd{Do: "write", St: "e", B: be, N: len(w.kinds["e"])})
		if !w.wait(15000, w.wrote("o")) || !w.wait(15000, w.wrote("e")) {
			w.stall("write")
		}
	case "heir":
		// a process that the command leaves behind writes the last lines; the command is gone when both are.  What
		// the command writes itself comes first
		if !w.wait(15000, w.wrote("o")) || !w.wait(15000, w.wrote("e")) {
			w.stall("write")
		}
		var cmds []ctlCmd
		for _, o := range list(op["do"]) {
			o := o.(J)
			cmds = append(cmds, ctlCmd{N: num(o["ms"]), St: str(o["st"]), B: w.tell(str(o["st"]), strs(o["kinds"]), boolean(o["last"]))})
		}
		b, _ := json.Marshal(cmds)
		w.send(ctlCmd{Do: "heir", B: b})
		if !w.wait(8000, func() bool { return w.stop || w.msgs["heir"] > 0 }) {
			w.stall("heir")
		}
	case "acks":
		w.col.mu.Lock()
		w.col.kinds = append(w.col.kinds, strs(op["kinds"])...)
		if a := str(op["always"]); a != "" {
			w.col.always = a
		}
		w.col.mu.Unlock()
	case "release":
		w.col.mu.Lock()
		w.col.kinds = nil
		w.col.always = "ok"
		w.col.mu.Unlock()
		w.col.release()
	case "down":
		w.col.down()
	case "up":
		if err := w.col.up(); err != nil {
			w.add(J{"op": "panic", "res": err.Error()})
		}
	case "freeze":
		w.cmd.Process.Signal(syscall.SIGSTOP)
		for i := 0; i < 200; i++ {
			b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", w.cmd.Process.Pid))
			if f := strings.Fields(string(b)); len(f) > 2 && f[2] == "T" {
				break
			}
			time.Sleep(time.Millisecond)
		}
	case "thaw":
		w.cmd.Process.Signal(syscall.SIGCONT)
		w.add(J{"op": "thaw"})
	case "awaitdead": // the command has ended, monny may be frozen
		select {
		case <-w.goneCh:
		case <-time.After(10 * time.Second):
			w.r.Note("the command did not end")
		}
	case "sleep":
		time.Sleep(time.Duration(ms) * time.Millisecond)
	case "passed": // all lines written so far have passed through
		w.wait(10000, func() bool {
			return w.stop || w.out["o"] >= len(w.kinds["o"]) && w.out["e"] >= len(w.kinds["e"])
		})
	case "await": // n acknowledged reports with this reason
		if ms == 0 {
			ms = 12000
		}
		w.wait(ms, func() bool { return w.stop || w.ackedN[num(op["reason"])] >= num(op["n"]) })
	case "awaitreq": // n requests
		w.wait(12000, func() bool { return w.stop || w.reqs >= num(op["n"]) })
	case "quiet":
		w.add(J{"op": "quiet"})
	case "settle": // no requests for a while
		last, since := -1, time.Now()
		w.wait(10000, func() bool {
			if w.reqs != last {
				last, since = w.reqs, time.Now()
			}
			return w.stop || time.Since(since) > 800*time.Millisecond
		})
		w.add(J{"op": "settle"})
	case "sig":
		sig := syscall.SIGTERM
		if str(op["s"]) == "int" {
			sig = syscall.SIGINT
		}
		w.mu.Lock()
		got := w.msgs["sig"]
		w.addLocked(J{"op": "sig", "s": str(op["s"])})
		w.mu.Unlock()
		w.cmd.Process.Signal(sig)
		if boolean(op["caught"]) && !w.wait(8000, func() bool { return w.stop || w.msgs["sig"] > got }) {
			w.stall("signal")
		}
	case "mem":
		w.add(J{"op": "mem", "k": num(op["mb"]) << 10})
		w.mu.Lock()
		w.heldK = num(op["mb"]) << 10
		got := w.msgs["held"]
		w.mu.Unlock()
		w.send(ctlCmd{Do: "mem", N: num(op["mb"])})
		w.wait(10000, func() bool {
			select {
			case <-w.goneCh:
				return true
			default:
			}
			return w.stop || w.msgs["held"] > got
		})
	case "file":
		f := strs(w.s.Cfg["files"])[num(op["i"])-1]
		p := filepath.Join(w.dir, f)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.RemoveAll(p)
		size := num(op["size"])
		switch str(op["kind"]) {
		case "link": // to a file elsewhere
			os.WriteFile(p+".target", make([]byte, size), 0644)
			os.Symlink(p+".target", p)
		case "dir":
			os.Mkdir(p, 0755)
			if fi, err := os.Stat(p); err == nil {
				size = int(fi.Size())
			}
		case "big": // in units of 1 GB, and one byte
			size = size<<30 + 1
			os.WriteFile(p, nil, 0644)
			if err := os.Truncate(p, int64(size)); err != nil {
				w.r.Note("no large files here: %v", err)
				size = 0
			}
		default:
			os.WriteFile(p, make([]byte, size), 0644)
		}
		if age := num(op["age"]); age != 0 { // in seconds, negative in the future
			t := time.Now().Add(-time.Duration(age) * time.Second)
			os.Chtimes(p, t, t)
		}
		var mod time.Time
		if fi, err := os.Stat(p); err == nil {
			mod = fi.ModTime()
		}
		w.add(J{"op": "file", "i": num(op["i"]), "size": fileFacts(int64(size), mod)})
	case "nofile": // something that is not the file
		p := filepath.Join(w.dir, strs(w.s.Cfg["files"])[num(op["i"])-1])
		switch str(op["kind"]) {
		case "dangling":
			os.MkdirAll(filepath.Dir(p), 0755)
			os.Symlink(p+".nowhere", p)
		case "loop":
			os.MkdirAll(filepath.Dir(p), 0755)
			os.Symlink(p, p)
		case "below": // its directory is a file
			os.WriteFile(filepath.Dir(p), []byte("x"), 0644)
		case "similar":
			os.MkdirAll(filepath.Dir(p), 0755)
			os.WriteFile(p+"x", []byte("x"), 0644)
		}
	case "unfile": // the file is removed again
		os.RemoveAll(filepath.Join(w.dir, strs(w.s.Cfg["files"])[num(op["i"])-1]))
		w.add(J{"op": "unfile", "i": num(op["i"])})
	case "feed":
		n := num(op["n"])
		b := make([]byte, n)
		for i := range b {
			b[i] = stdinByte(w.fed + i)
		}
		w.fed += n
		w.add(J{"op": "feed", "n": n})
		done := make(chan bool)
		go func() { w.stdin.Write(b); close(done) }()
		select {
		case <-done:
		case <-time.After(15 * time.Second):
			w.stall("stdin")
		}
	case "feedeof":
		w.add(J{"op": "feedeof"})
		w.stdin.Close()
		if !w.wait(10000, func() bool { return w.stop || w.msgs["in"] > 0 }) {
			w.stall("stdin")
		}
	case "awaiterr": // for a report of an error of monny's own
		got := w.wait(15000, func() bool { return w.stop || w.errreps > 0 })
		w.add(J{"op": "errwait", "got": got})
	case "alive": // the command still answers
		w.mu.Lock()
		got := w.msgs["pong"]
		w.mu.Unlock()
		w.send(ctlCmd{Do: "ping"})
		if !w.wait(8000, func() bool { return w.stop || w.msgs["pong"] > got }) {
			w.stall("alive")
		}
	case "end":
		// everything that the command was told to write is written before it ends
		idle := func() bool {
			select {
			case <-w.goneCh:
				return true
			default:
			}
			return w.stop
		}
		if !w.wait(15000, func() bool { return idle() || w.wrote("o")() && w.wrote("e")() }) {
			w.stall("write")
			return
		}
		w.mu.Lock()
		w.died = true
		gone := false
		select {
		case <-w.goneCh:
			gone = true
		default:
			w.addLocked(J{"op": "die", "how": str(op["how"]), "code": num(op["code"])})
		}
		w.mu.Unlock()
		if !gone {
			w.send(ctlCmd{Do: "die", How: str(op["how"]), Code: num(op["code"])})
		}
	case "awaitgone":
		select {
		case <-w.goneCh:
		case <-time.After(time.Duration(ms) * time.Millisecond):
		}
		w.add(J{"op": "quiet"})
	case "join":
		select {
		case <-w.exited:
		case <-time.After(25 * time.Second):
			w.stall("exit")
		}
	}
}
