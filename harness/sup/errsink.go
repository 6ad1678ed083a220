package verifdrv

import (
	"bytes"
	"io"
	"net"
	"net/http"
	"strings"
	"time"
)

// errSink is where reports of monny's own errors arrive, and a proxy for everything that monny sends elsewhere
type errSink struct {
	w    *world
	kind string // how it answers
	srv  net.Listener
	prox net.Listener
}

func newErrSink(w *world, kind string) (*errSink, error) {
	s := &errSink{w: w, kind: kind}
	var err error
	if s.srv, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		return nil, err
	}
	if s.prox, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		return nil, err
	}
	if kind == "refuse" {
		s.srv.Close()
	} else {
		go http.Serve(s.srv, s)
	}
	go func() {
		for {
			c, err := s.prox.Accept()
			if err != nil {
				return
			}
			w.add(J{"op": "errrep", "private": false, "what": "connection"})
			c.Close()
		}
	}()
	return s, nil
}

func (s *errSink) env() []string {
	p := "http://" + s.prox.Addr().String()
	return []string{"VERIF_ENDPOINT=http://" + s.srv.Addr().String() + "/api", "HTTPS_PROXY=" + p, "HTTP_PROXY=" + p, "ALL_PROXY=" + p, "NO_PROXY=127.0.0.1"}
}

func (s *errSink) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	b, _ := io.ReadAll(req.Body)
	found := false
	for _, x := range private {
		if bytes.Contains(b, []byte(x)) {
			found = true
			i := bytes.Index(b, []byte(x))
			lo := i - 80
			if lo < 0 {
				lo = 0
			}
			s.w.r.Note("error report contains %q: ...%s", x, strings.ToValidUTF8(string(b[lo:i+len(x)]), "?"))
		}
	}
	s.w.mu.Lock()
	s.w.errreps++
	s.w.addLocked(J{"op": "errrep", "private": found, "what": "report"})
	s.w.mu.Unlock()
	switch s.kind {
	case "fail":
		rw.WriteHeader(500)
	case "hang":
		select {
		case <-req.Context().Done():
		case <-time.After(20 * time.Second):
		}
	}
}

func (s *errSink) close() {
	s.srv.Close()
	s.prox.Close()
}
