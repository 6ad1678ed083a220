package verifdrv

import (
	"bufio"
	"encoding/json"
	"io"
	"net"
	"os"
	"os/exec"
	"os/signal"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The monitored command.  It is this test binary started with VERIF_CTL, and does what it is told over that socket.

type ctlCmd struct {
	Do   string
	St   string
	B    []byte
	N    int
	How  string
	Code int
}

type ctlMsg struct {
	Msg string
	St  string
	N   int
	S   string
	OK  bool
}

func stdinByte(i int) byte { return byte(i*7 + i/251) }

var held, far []byte

func die(how string, code int) {
	if how == "exit" {
		os.Exit(code)
	}
	// the Go runtime turns some signals into an exit status, so the process becomes a shell that ends by the signal.
	// The connection stays open until it is dead.
	if ctl >= 0 {
		syscall.Dup(ctl)
	}
	syscall.Exec("/bin/sh", []string{"sh", "-c", "kill -" + strconv.Itoa(code) + " $$; sleep 10"}, nil)
	os.Exit(99)
}

// the connection to the world
var ctl = -1
var ctlFile *os.File

func init() {
	if h := os.Getenv("VERIF_HOSTNAME"); h != "" {
		// monny, on a host with this name
		if err := syscall.Sethostname([]byte(h)); err != nil {
			os.Exit(96)
		}
		env := []string{}
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "VERIF_HOSTNAME=") && !strings.HasPrefix(e, "VERIF_EXEC=") {
				env = append(env, e)
			}
		}
		b := os.Getenv("VERIF_EXEC")
		syscall.Exec(b, append([]string{b}, os.Args[1:]...), env)
		os.Exit(96)
	}
	if q := os.Getenv("VERIF_QUICK"); q != "" {
		// a command that does not wait for anything
		var cmds []ctlCmd
		b, _ := os.ReadFile(q)
		json.Unmarshal(b, &cmds)
		for _, c := range cmds {
			switch c.Do {
			case "write":
				if c.St == "o" {
					os.Stdout.Write(c.B)
				} else {
					os.Stderr.Write(c.B)
				}
			case "die":
				die(c.How, c.Code)
			}
		}
		os.Exit(0)
	}
	if q := os.Getenv("VERIF_HEIR"); q != "" {
		// started by the command: shares its output and outlives it
		var cmds []ctlCmd
		json.Unmarshal([]byte(q), &cmds)
		for _, c := range cmds {
			time.Sleep(time.Duration(c.N) * time.Millisecond)
			if c.St == "o" {
				os.Stdout.Write(c.B)
			} else if c.St == "e" {
				os.Stderr.Write(c.B)
			}
		}
		os.Exit(0)
	}
	path := os.Getenv("VERIF_CTL")
	if path == "" {
		return
	}
	mode := strings.Split(os.Getenv("VERIF_MODE"), ",")
	has := func(m string) bool {
		for _, x := range mode {
			if x == m {
				return true
			}
		}
		return false
	}
	if path == "none" {
		time.Sleep(time.Hour)
	}
	conn, err := net.Dial("unix", path)
	if err != nil {
		os.Exit(98)
	}
	if f, err := conn.(*net.UnixConn).File(); err == nil {
		ctl = int(f.Fd())
		ctlFile = f
	}
	var mu sync.Mutex
	enc := json.NewEncoder(conn)
	say := func(m ctlMsg) {
		mu.Lock()
		defer mu.Unlock()
		enc.Encode(m)
	}
	if has("catch") {
		c := make(chan os.Signal, 10)
		signal.Notify(c, syscall.SIGINT, syscall.SIGTERM)
		go func() {
			for s := range c {
				name := "term"
				if s == syscall.SIGINT {
					name = "int"
				}
				say(ctlMsg{Msg: "sig", S: name})
			}
		}()
	}
	if has("closein") {
		os.Stdin.Close()
	}
	say(ctlMsg{Msg: "hello"})
	if has("stdin") {
		go func() {
			buf := make([]byte, 1<<16)
			n, ok := 0, true
			for {
				k, err := os.Stdin.Read(buf)
				for i := 0; i < k; i++ {
					ok = ok && buf[i] == stdinByte(n+i)
				}
				n += k
				if err != nil {
					say(ctlMsg{Msg: "in", N: n, OK: ok && err == io.EOF})
					return
				}
			}
		}()
	}
	streams := map[string]chan ctlCmd{"o": make(chan ctlCmd, 1000), "e": make(chan ctlCmd, 1000)}
	for st, f := range map[string]*os.File{"o": os.Stdout, "e": os.Stderr} {
		st, f := st, f
		go func() {
			for c := range streams[st] {
				_, err := f.Write(c.B)
				say(ctlMsg{Msg: "wrote", St: st, N: c.N, OK: err == nil})
			}
		}()
	}
	dec := json.NewDecoder(bufio.NewReader(conn))
	for {
		var c ctlCmd
		if err := dec.Decode(&c); err != nil {
			os.Exit(97)
		}
		switch c.Do {
		case "write":
			streams[c.St] <- c
		case "heir":
			h := exec.Command(os.Args[0])
			h.Env = append(os.Environ(), "VERIF_HEIR="+string(c.B))
			h.Stdout, h.Stderr = os.Stdout, os.Stderr
			h.ExtraFiles = []*os.File{ctlFile}
			say(ctlMsg{Msg: "heir", OK: h.Start() == nil})
		case "ping":
			say(ctlMsg{Msg: "pong"})
		case "mem":
			// one half on the heap, the other far behind it with many small mappings in between
			held = nil
			if far != nil {
				syscall.Munmap(far)
				far = nil
			}
			debug.FreeOSMemory()
			held = make([]byte, c.N<<19)
			const pages = 800
			far, _ = syscall.Mmap(-1, 0, c.N<<19+pages*4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
			big := held[:0]
			if far == nil {
				held = make([]byte, c.N<<20)
			} else {
				for i := 0; i < pages; i += 2 {
					syscall.Mprotect(far[i*4096:(i+1)*4096], syscall.PROT_NONE)
				}
				big = far[pages*4096:]
			}
			for _, m := range [][]byte{held, big} {
				for i := 0; i < len(m); i += 4096 {
					m[i] = byte(i)
				}
			}
			say(ctlMsg{Msg: "held"})
		case "die":
			die(c.How, c.Code)
		}
	}
}
