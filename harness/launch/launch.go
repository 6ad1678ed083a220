// The program is started around a copy of this binary that only notes how it was started.
package verifdrv

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"
)

func init() {
	if exe, err := os.Readlink("/proc/self/exe"); err == nil && strings.HasPrefix(filepath.Base(exe), "probe") {
		probe(filepath.Dir(filepath.Dir(exe)))
	}
	runners["launch"] = runLaunch
}

type seen struct {
	Words []string               `json:"words"`
	Ctx   map[string]interface{} `json:"ctx"`
	Group int                    `json:"group"`
	Par   int                    `json:"par"`
	At    int64                  `json:"at"`
}

// quote makes a text of some bytes; long ones are replaced by what identifies them
func quote(s string) string {
	if len(s) > 160 {
		return fmt.Sprintf("%q... %d bytes %x", s[:20], len(s), sha256.Sum256([]byte(s)))
	}
	return strconv.QuoteToASCII(s)
}

func quoted(l []string) []string {
	out := []string{}
	for _, x := range l {
		out = append(out, quote(x))
	}
	return out
}

// probe is the command: it notes how it was started and ends
func probe(dir string) {
	// the clock, the scheduler and the allocator are the runtime's own: only what was inherited is noted
	umask := syscall.Umask(0)
	syscall.Umask(umask)
	env, _ := os.ReadFile("/proc/self/environ")
	vars := strings.Split(strings.TrimSuffix(string(env), "\x00"), "\x00")
	sort.Strings(vars)
	cwd, _ := os.Readlink("/proc/self/cwd")
	groups, _ := syscall.Getgroups()
	sort.Ints(groups)
	nice, _ := syscall.Getpriority(syscall.PRIO_PROCESS, 0)
	sid, _, _ := syscall.RawSyscall(syscall.SYS_GETSID, 0, 0, 0)
	root, _ := os.Readlink("/proc/self/root")
	limits := []string{}
	for _, l := range []struct {
		name string
		n    int
	}{{"core", syscall.RLIMIT_CORE}, {"cpu", syscall.RLIMIT_CPU}, {"fsize", syscall.RLIMIT_FSIZE}, {"stack", syscall.RLIMIT_STACK}, {"data", syscall.RLIMIT_DATA}} {
		var v syscall.Rlimit
		syscall.Getrlimit(l.n, &v)
		limits = append(limits, fmt.Sprintf("%s %d %d", l.name, int64(v.Cur), int64(v.Max)))
	}
	var v syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &v)
	limits = append(limits, fmt.Sprintf("files %d", int64(v.Max)))
	files := []string{}
	if es, err := os.ReadDir("/proc/self/fd"); err == nil {
		for _, e := range es {
			n, _ := strconv.Atoi(e.Name())
			to, err := os.Readlink("/proc/self/fd/" + e.Name())
			if n > 2 && err == nil && !strings.HasPrefix(to, "anon_inode:") && !strings.HasPrefix(to, "/proc/") {
				if strings.HasPrefix(to, "pipe:") || strings.HasPrefix(to, "socket:") {
					to = to[:5]
				}
				files = append(files, strconv.Itoa(n)+" "+to)
			}
		}
		sort.Strings(files)
	}
	s := seen{Words: quoted(os.Args), Group: syscall.Getpgrp(), Par: os.Getppid(), At: time.Now().UnixNano(), Ctx: J{
		"env": quoted(vars), "dir": quote(cwd), "root": root, "user": fmt.Sprint(os.Getuid(), os.Geteuid(), os.Getgid(), os.Getegid(), groups),
		"umask": umask, "nice": nice, "hup": signal.Ignored(syscall.SIGHUP), "session": int(sid), "limits": limits, "files": files,
	}}
	b, _ := json.Marshal(s)
	tmp := filepath.Join(dir, fmt.Sprintf("tmp.%d", os.Getpid()))
	if os.WriteFile(tmp, b, 0666) != nil || os.Rename(tmp, filepath.Join(dir, fmt.Sprintf("ran.%d", os.Getpid()))) != nil {
		os.Exit(97)
	}
	if n, err := os.ReadFile(filepath.Join(dir, "out")); err == nil {
		k, _ := strconv.Atoi(string(n))
		for i := 0; i < k; i++ {
			fmt.Printf("line %d\n", i)
			fmt.Fprintf(os.Stderr, "problem %d\n", i)
		}
	}
	how, _ := os.ReadFile(filepath.Join(dir, "exit"))
	n, _ := strconv.Atoi(string(how))
	if n < 0 {
		signal.Reset()
		syscall.Kill(os.Getpid(), syscall.Signal(-n))
		time.Sleep(2 * time.Second)
	}
	os.Exit(n)
}

func bytesOf(v interface{}) string {
	b, err := base64.StdEncoding.DecodeString(str(v))
	if err != nil {
		panic(err)
	}
	return string(b)
}

func copyExe(to string) error {
	from, err := os.Readlink("/proc/self/exe")
	if err != nil {
		return err
	}
	if os.Link(from, to) == nil {
		return nil
	}
	b, err := os.ReadFile(from)
	if err != nil {
		return err
	}
	return os.WriteFile(to, b, 0755)
}

func runLaunch(t *testing.T, s Script, r *Rec) {
	var bins map[string]string
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_BINS")), &bins); err != nil {
		panic(err)
	}
	m := s.Meta
	exe, _ := os.Readlink("/proc/self/exe")
	dir, err := os.MkdirTemp(filepath.Dir(exe), "launch")
	if err != nil {
		panic(err)
	}
	dir, _ = filepath.EvalSymlinks(dir)
	defer os.RemoveAll(dir)
	name := "probe" + bytesOf(m["name"])
	for _, d := range []string{"bin", "other", "home"} {
		os.Mkdir(filepath.Join(dir, d), 0755)
	}
	if err := copyExe(filepath.Join(dir, "bin", name)); err != nil {
		panic(err)
	}
	cwd := filepath.Join(dir, "w"+bytesOf(m["cwd"]))
	if err := os.MkdirAll(cwd, 0755); err != nil {
		panic(err)
	}
	// what a pattern or a name among the words could be taken for
	for _, f := range []string{"file", "list", "a.txt", "b.txt", "~", "x"} {
		os.WriteFile(filepath.Join(cwd, f), []byte("one two\nthree\n"), 0644)
	}
	if boolean(m["cwdlink"]) {
		os.Symlink(cwd, filepath.Join(dir, "cwdlink"))
	}
	env := []string{"SHELL=" + str(m["shell"]), "HOME=" + filepath.Join(dir, "home")}
	path := "/usr/bin:/bin"
	var cmd string
	switch str(m["how"]) {
	case "path":
		cmd, path = name, filepath.Join(dir, "other")+":"+filepath.Join(dir, "bin")+":"+path
	case "relative":
		rel, err := filepath.Rel(cwd, filepath.Join(dir, "bin", name))
		if err != nil {
			panic(err)
		}
		cmd = rel
	case "here":
		os.Symlink(filepath.Join(dir, "bin", name), filepath.Join(cwd, name))
		cmd = "./" + name
	case "link":
		os.Symlink(filepath.Join(dir, "bin", name), filepath.Join(dir, "other", "run it"))
		cmd = filepath.Join(dir, "other", "run it")
	default:
		cmd = filepath.Join(dir, "bin", name)
	}
	env = append(env, "PATH="+path)
	for _, e := range list(m["env"]) {
		env = append(env, bytesOf(e))
	}
	if str(m["bin"]) != "plain" {
		env = append(env, "VERIF_YSLEEP=2000")
	}
	line := []string{cmd}
	for _, w := range list(m["words"]) {
		line = append(line, bytesOf(w))
	}
	os.WriteFile(filepath.Join(dir, "exit"), []byte(strconv.Itoa(num(m["exit"]))), 0644)
	os.WriteFile(filepath.Join(dir, "out"), []byte(strconv.Itoa(num(m["out"]))), 0644)

	start := func(prog string, args []string) *exec.Cmd {
		var c *exec.Cmd
		if sh := str(m["wrap"]); sh != "" {
			c = exec.Command("/bin/sh", append([]string{"-c", sh + `; exec "$0" "$@"`, prog}, args...)...)
		} else {
			c = exec.Command(prog, args...)
		}
		c.Env = append([]string{}, env...)
		c.Dir = cwd
		if boolean(m["cwdlink"]) {
			c.Dir = filepath.Join(dir, "cwdlink")
			c.Env = append(c.Env, "PWD="+c.Dir)
		} else {
			c.Env = append(c.Env, "PWD="+cwd)
		}
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		return c
	}
	var buf bytes.Buffer
	c := start(cmd, line[1:])
	if str(m["how"]) == "path" || str(m["how"]) == "relative" || str(m["how"]) == "here" {
		c = start(filepath.Join(dir, "bin", name), line[1:])
	}
	c.Stdout, c.Stderr = nil, &buf
	c.Run()
	ref := collect(dir)
	if len(ref) != 1 {
		r.Note("the probe did not run in the place of monny: %s", buf.String())
		r.Add(J{"op": "broken"})
		return
	}

	args := []string{}
	for _, o := range strs(m["opts"]) {
		args = append(args, strings.Replace(o, "@", dir, -1))
	}
	if y := str(m["yaml"]); y != "" {
		os.WriteFile(filepath.Join(dir, "c.yml"), []byte(y), 0644)
	}
	after := []string{}
	if boolean(m["sep"]) {
		after = append(after, "--")
	}
	after = append(after, line...)
	r.Add(J{"op": "given", "line": dashes(after), "ctx": ref[0].Ctx})
	c = start(bins[str(m["bin"])], append(args, after...))
	buf.Reset()
	c.Stdout, c.Stderr = &buf, &buf
	if err := c.Start(); err != nil {
		r.Note("monny can not be started: %s", err)
		r.Add(J{"op": "broken"})
		return
	}
	done := make(chan bool)
	go func() { c.Wait(); close(done) }()
	ended := false
	select {
	case <-done:
		ended = true
	case <-time.After(60 * time.Second):
	}
	for _, x := range collect(dir) {
		r.Add(J{"op": "run", "words": x.Words, "ctx": x.Ctx, "group": x.Group == c.Process.Pid})
	}
	if ended {
		r.Add(J{"op": "end"})
	} else {
		r.Add(J{"op": "stuck"})
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		c.Process.Kill()
		<-done
	}
	out := buf.String()
	if len(out) > 600 {
		out = out[:600]
	}
	r.Note("monny %q printed %q", args, out)
	runtime.KeepAlive(c)
}

// dashes keeps the separator as it is and quotes everything else
func dashes(l []string) []string {
	out := quoted(l)
	if l[0] == "--" {
		out[0] = "--"
	}
	return out
}

// collect reads and removes what the probes noted
func collect(dir string) []seen {
	out := []seen{}
	fs, _ := filepath.Glob(filepath.Join(dir, "ran.*"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		var x seen
		if err == nil && json.Unmarshal(b, &x) == nil {
			out = append(out, x)
		}
		os.Remove(f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].At < out[j].At })
	return out
}
