package verifdrv

import (
	"bytes"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/monny"
)

func init() {
	runners["parse"] = runParse
	runners["run"] = runRun
	runners["new"] = runNew
}

func clamp(n uint64) int {
	if n > 2000000000 {
		return -1
	}
	return int(n)
}

func whole(n int) int {
	if n > 2000000000 || n < -2000000000 {
		return -1
	}
	return n
}

func duration(d time.Duration) J {
	return J{"s": whole(int(d / time.Second)), "ns": int(d % time.Second)}
}

// effective describes the configuration that was built
func effective(c monny.Config) J {
	rules, jrules := []interface{}{}, []interface{}{}
	for _, r := range c.Rules {
		x := ""
		if r.Regex != nil {
			x = r.Regex.String()
		}
		if r.Field == "" {
			rules = append(rules, x)
		} else {
			jrules = append(jrules, J{"f": r.Field, "x": x})
		}
	}
	creates := []interface{}{}
	for _, f := range c.Creates {
		creates = append(creates, f)
	}
	addr, tls := J{"h": "?", "p": "?"}, "?"
	v := reflect.ValueOf(c)
	if h, p := v.FieldByName("host"), v.FieldByName("port"); h.IsValid() && p.IsValid() && h.Kind() == reflect.String && p.Kind() == reflect.String {
		addr = J{"h": h.String(), "p": p.String()}
	}
	if f := v.FieldByName("useTLS"); f.IsValid() && f.Kind() == reflect.Bool {
		tls = map[bool]string{true: "yes", false: "no"}[f.Bool()]
	}
	return J{"id": c.ID, "rules": rules, "jrules": jrules, "creates": creates, "so": whole(c.StdoutHistory), "se": whole(c.StderrHistory),
		"success": c.NotifyOnSuccess, "failure": c.NotifyOnFailure, "daemon": c.Daemon, "mw": clamp(c.MemoryWarn), "mk": clamp(c.MemoryKill),
		"tw": duration(c.NotifyTimeout), "tk": duration(c.KillTimeout), "shell": c.Shell, "noerr": monny.SuppressErrorReporting,
		"qty": whole(c.RuleQuantity), "per": duration(c.RulePeriod), "hostname": c.Hostname, "addr": addr, "tls": tls}
}

// prepare writes the configuration files of a script and returns its command line
func prepare(t *testing.T, s Script) (string, []string) {
	dir := t.TempDir()
	for name, text := range s.Meta["files"].(map[string]interface{}) {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(str(text)), 0644); err != nil {
			t.Fatal(err)
		}
	}
	var argv []string
	for _, a := range strs(s.Meta["argv"]) {
		argv = append(argv, strings.Replace(a, "@DIR@", dir, -1))
	}
	return dir, argv
}

func setShell(s Script) {
	if sh := str(s.Cfg["shell"]); sh != "" {
		os.Setenv("SHELL", sh)
	} else {
		os.Unsetenv("SHELL")
	}
	monny.SuppressErrorReporting = false
}

func texts(errs []error) (string, bool) {
	var all []string
	ok := true
	for _, e := range errs {
		if e == nil || strings.TrimSpace(e.Error()) == "" {
			ok = false
			continue
		}
		all = append(all, e.Error())
	}
	return strings.Join(all, "; "), ok && len(all) > 0
}

func words(q []string) []interface{} {
	out := []interface{}{}
	for _, w := range q {
		out = append(out, w)
	}
	return out
}

func runParse(t *testing.T, s Script, r *Rec) {
	_, argv := prepare(t, s)
	setShell(s)
	null, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	oldargs, oldout, olderr := os.Args, os.Stdout, os.Stderr
	os.Args, os.Stdout, os.Stderr = append([]string{"monny"}, argv...), null, null
	defer func() { os.Args, os.Stdout, os.Stderr = oldargs, oldout, olderr; null.Close() }()

	cmd, opts, err := monny.ParseCommandLine()
	if err != nil {
		text, ok := texts([]error{err})
		r.Add(J{"op": "parse", "res": "refused", "message": ok, "text": text})
		return
	}
	c, errs := monny.New(cmd, opts...)
	if len(errs) > 0 || c == nil {
		text, ok := texts(errs)
		r.Add(J{"op": "parse", "res": "refused", "message": ok, "text": text})
		return
	}
	r.Add(J{"op": "parse", "res": "ok", "f": effective(c.Config), "cmd": words(c.UserCommand)})
}

func runNew(t *testing.T, s Script, r *Rec) {
	setShell(s)
	var opts []monny.ConfigOption
	for _, a := range list(s.Meta["opts"]) {
		q := strs(a)
		v := q[1]
		switch q[0] {
		case "id":
			opts = append(opts, monny.ID(v))
		case "rule":
			opts = append(opts, monny.Rule(v))
		case "rule-json":
			opts = append(opts, monny.JSONRule(q[1], q[2]))
		case "rule-quantity":
			opts = append(opts, monny.RuleQuantity(v))
		case "rule-period":
			opts = append(opts, monny.RulePeriod(v))
		case "stdout-history":
			opts = append(opts, monny.StdoutHistory(v))
		case "stderr-history":
			opts = append(opts, monny.StderrHistory(v))
		case "no-notify-on-success":
			opts = append(opts, monny.NoNotifyOnSuccess())
		case "no-notify-on-failure":
			opts = append(opts, monny.NoNotifyOnFailure())
		case "daemon":
			opts = append(opts, monny.Daemon())
		case "memory-warn":
			opts = append(opts, monny.MemoryWarn(v))
		case "memory-kill":
			opts = append(opts, monny.MemoryKill(v))
		case "timeout-warn":
			opts = append(opts, monny.NotifyTimeout(v))
		case "timeout-kill":
			opts = append(opts, monny.KillTimeout(v))
		case "creates":
			opts = append(opts, monny.Creates(v))
		case "host":
			opts = append(opts, monny.Host(v))
		case "insecure":
			opts = append(opts, monny.Insecure())
		case "no-error-reports":
			opts = append(opts, monny.NoErrorReports())
		case "shell":
			opts = append(opts, monny.Shell(v))
		default:
			t.Fatal("option", q)
		}
	}
	c, errs := monny.New([]string{"true"}, opts...)
	if len(errs) > 0 || c == nil {
		text, ok := texts(errs)
		r.Add(J{"op": "new", "res": "refused", "n": len(errs), "message": ok && c == nil, "text": text})
		return
	}
	r.Add(J{"op": "new", "res": "ok", "n": 0, "f": effective(c.Config)})
}

// runRun runs the program itself
func runRun(t *testing.T, s Script, r *Rec) {
	dir, argv := prepare(t, s)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	var mu sync.Mutex
	contacts, tls := 0, "none"
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				c.SetReadDeadline(time.Now().Add(10 * time.Second))
				b := make([]byte, 3)
				n, _ := io.ReadFull(c, b)
				mu.Lock()
				defer mu.Unlock()
				if contacts == 0 {
					switch {
					case n == 3 && string(b) == "PRI":
						tls = "no"
					case n > 0 && b[0] == 0x16:
						tls = "yes"
					default:
						tls = "?"
					}
				}
				contacts++
			}()
		}
	}()
	_, port, _ := net.SplitHostPort(l.Addr().String())
	for i := range argv {
		argv[i] = strings.Replace(argv[i], "@PORT@", port, -1)
	}
	for _, name := range []string{"a.yml", "b.yml"} {
		f := filepath.Join(dir, name)
		if b, err := os.ReadFile(f); err == nil {
			os.WriteFile(f, bytes.Replace(b, []byte("@PORT@"), []byte(port), -1), 0644)
		}
	}

	mark := filepath.Join(dir, "started")
	cmd := exec.Command(os.Getenv("VERIF_MONNY"), argv...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "VERIF_MARK=" + mark}
	if sh := str(s.Cfg["shell"]); sh != "" {
		cmd.Env = append(cmd.Env, "SHELL="+sh)
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.WaitDelay = 5 * time.Second
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() { cmd.Wait(); close(done) }()
	exists := func() bool { _, err := os.Stat(mark); return err == nil }
	waited := boolean(s.Meta["wait"])
	ended := false
	for limit := time.Now().Add(20 * time.Second); time.Now().Before(limit) && !ended; {
		mu.Lock()
		n := contacts
		mu.Unlock()
		if exists() && (!waited || n > 0) {
			break
		}
		select {
		case <-done:
			ended = true
		case <-time.After(3 * time.Millisecond):
		}
	}
	exit := -1
	if !ended {
		if !waited {
			// whether it ends by itself does not matter
			select {
			case <-done:
			case <-time.After(20 * time.Millisecond):
			}
		}
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
	} else {
		exit = cmd.ProcessState.ExitCode()
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
	started, ws := exists(), []string{}
	if b, err := os.ReadFile(mark); err == nil {
		ws = strings.Split(string(b), "\x00")
		ws = ws[:len(ws)-1]
	}
	mu.Lock()
	defer mu.Unlock()
	text := out.String()
	r.Add(J{"op": "run", "exit": exit, "message": strings.TrimSpace(text) != "", "crash": strings.Contains(text, "panic:") || strings.Contains(text, "goroutine ") || strings.Contains(text, "fatal error:"),
		"started": started, "words": words(ws), "contacts": contacts, "tls": tls, "waited": waited})
	if len(text) > 300 {
		text = text[:300]
	}
	r.Note("%s", text)
}
