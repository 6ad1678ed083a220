// The program sends its reports to servers that are what they should be, or are not.
package verifdrv

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

func init() { runners["secure"] = runSecure }

type authority struct {
	key  *ecdsa.PrivateKey
	cert *x509.Certificate
	der  []byte
}

var serial int64 = 1000

func sign(t *x509.Certificate, by *authority) *authority {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t.SerialNumber = big.NewInt(atomic.AddInt64(&serial, 1))
	parent, pk := t, key
	if by != nil {
		parent, pk = by.cert, by.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, &key.PublicKey, pk)
	if err != nil {
		panic(err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &authority{key, c, der}
}

const day = 24 * time.Hour

func newRoot(name string) *authority {
	return sign(&x509.Certificate{Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-9999 * day), NotAfter: time.Now().Add(9999 * day),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}, nil)
}

var roots struct {
	sync.Once
	good, evil *authority
}

// certificate makes what a server shows; via says who signed it
func certificate(m J, host string) tls.Certificate {
	roots.Do(func() { roots.good, roots.evil = newRoot("good root"), newRoot("evil root") })
	now := time.Now()
	t := &x509.Certificate{Subject: pkix.Name{CommonName: host}, NotBefore: now.Add(-400 * day), NotAfter: now.Add(400 * day),
		BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	if !boolean(m["timely"]) {
		if str(m["how"]) == "future" {
			t.NotBefore, t.NotAfter = now.Add(200*day), now.Add(600*day)
		} else {
			t.NotBefore, t.NotAfter = now.Add(-600*day), now.Add(-200*day)
		}
	}
	if !boolean(m["server"]) {
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	}
	name := host
	if !boolean(m["named"]) {
		name = map[string]string{"localhost": "127.0.0.1", "127.0.0.1": "localhost"}[host]
		if str(m["how"]) == "other" {
			name = map[string]string{"localhost": "localhost.example", "127.0.0.1": "127.0.0.2"}[host]
		}
	}
	if ip := net.ParseIP(name); ip != nil {
		t.IPAddresses = []net.IP{ip}
	} else {
		t.DNSNames = []string{name}
	}
	by := roots.good
	chain := [][]byte{}
	if !boolean(m["known"]) {
		switch str(m["how"]) {
		case "self":
			by = nil
		case "leaf": // signed by somebody who may not sign
			l := &x509.Certificate{Subject: pkix.Name{CommonName: "leaf"}, NotBefore: now.Add(-400 * day), NotAfter: now.Add(400 * day), BasicConstraintsValid: true,
				KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: t.ExtKeyUsage, DNSNames: []string{"leaf.example"}}
			by = sign(l, roots.good)
			chain = append(chain, by.der)
		default:
			by = roots.evil
			chain = append(chain, by.der)
		}
	} else if str(m["how"]) == "through" { // through another authority
		by = sign(&x509.Certificate{Subject: pkix.Name{CommonName: "between"}, NotBefore: now.Add(-999 * day), NotAfter: now.Add(999 * day),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}, roots.good)
		chain = append(chain, by.der)
	}
	c := sign(t, by)
	return tls.Certificate{Certificate: append([][]byte{c.der}, chain...), PrivateKey: c.key}
}

type listening struct {
	net.Listener
	on   func(c *noting)
	over func()
}

func (l listening) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	n := &noting{Conn: c}
	l.on(n)
	return n, nil
}

type noting struct {
	net.Conn
	mu  sync.Mutex
	got []byte
}

func (n *noting) Read(b []byte) (int, error) {
	k, err := n.Conn.Read(b)
	n.mu.Lock()
	if len(n.got) < 1<<20 {
		n.got = append(n.got, b[:k]...)
	}
	n.mu.Unlock()
	return k, err
}

type secureServer struct{ got func(*pb.Report) }

func (s secureServer) Create(ctx context.Context, r *pb.Report) (*pb.ReportAck, error) {
	s.got(r)
	return &pb.ReportAck{Success: true}, nil
}

func runSecure(t *testing.T, s Script, r *Rec) {
	var bins map[string]string
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_BINS")), &bins); err != nil {
		panic(err)
	}
	m := s.Meta
	dir, err := os.MkdirTemp("", "secure")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	host := str(m["host"])
	servers := list(m["servers"])
	certs := make([]tls.Certificate, len(servers))
	for i, x := range servers {
		if is := x.(J); boolean(is["tls"]) {
			certs[i] = certificate(is, host)
		}
	}
	certificate(J{}, "localhost")
	os.WriteFile(filepath.Join(dir, "roots.pem"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: roots.good.der}), 0644)
	os.Mkdir(filepath.Join(dir, "none"), 0755)

	// the address, and what every server there has seen
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	var mu sync.Mutex
	conns := []*noting{}
	count := func() int { mu.Lock(); defer mu.Unlock(); return len(conns) }
	secret := "secretxyz" + strconv.Itoa(port)

	args := []string{"--id", secret + "-id", "--no-error-reports", "--rule", "alert " + secret}
	yaml := ""
	switch str(m["say"]) {
	case "flag":
		args = append(args, "--insecure")
	case "true":
		args = append(args, "--insecure=true")
	case "false":
		args = append(args, "--insecure=false")
	case "yaml":
		yaml = "insecure: true\n"
	case "yamlfalse":
		yaml = "insecure: false\n"
	}
	addr := net.JoinHostPort(host, strconv.Itoa(port))
	if boolean(m["hostyaml"]) {
		yaml += "host: \"" + addr + "\"\n"
	} else {
		args = append(args, "--host", addr)
	}
	if yaml != "" {
		os.WriteFile(filepath.Join(dir, "c.yml"), []byte(yaml), 0644)
		args = append(args, "-c", filepath.Join(dir, "c.yml"))
	}
	sh := "echo out " + secret + "; echo err " + secret + " >&2; "
	if num(m["reports"]) == 2 {
		sh += "echo alert " + secret + "; sleep 0.3; "
	}
	args = append(args, "--", "/bin/sh", "-c", sh+"exit "+strconv.Itoa(num(m["exit"])))
	c := exec.Command(bins[str(m["bin"])], args...)
	c.Env = []string{"PATH=/usr/bin:/bin", "SHELL=/bin/sh", "HOME=" + dir, "SSL_CERT_FILE=" + filepath.Join(dir, "roots.pem"), "SSL_CERT_DIR=" + filepath.Join(dir, "none"), "VERIF_YSLEEP=2000"}
	c.Dir = dir
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var buf bytes.Buffer
	c.Stdout, c.Stderr = &buf, &buf
	done := make(chan bool)
	kill := func() {
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		c.Process.Kill()
		<-done
	}
	ended := func() bool {
		select {
		case <-done:
			return true
		default:
			return false
		}
	}
	for i, x := range servers {
		is := x.(J)
		if l == nil {
			for k := 0; k < 200; k++ {
				if l, err = net.Listen("tcp", "127.0.0.1:"+strconv.Itoa(port)); err == nil {
					break
				}
				time.Sleep(20 * time.Millisecond)
			}
			if err != nil {
				r.Note("address is taken: %v", err)
				r.Add(J{"op": "broken"})
				kill()
				return
			}
		}
		r.Add(J{"op": "serve", "is": J{"tls": boolean(is["tls"]), "known": boolean(is["known"]), "named": boolean(is["named"]), "timely": boolean(is["timely"]), "server": boolean(is["server"]), "modern": boolean(is["modern"])}})
		opts := []grpc.ServerOption{}
		if boolean(is["tls"]) {
			tc := &tls.Config{Certificates: []tls.Certificate{certs[i]}, NextProtos: []string{"h2"}}
			if !boolean(is["modern"]) {
				tc.MinVersion, tc.MaxVersion = tls.VersionTLS10, uint16(tls.VersionTLS11)
			} else if str(is["how"]) == "through" {
				tc.MaxVersion = tls.VersionTLS12
			}
			opts = append(opts, grpc.Creds(credentials.NewTLS(tc)))
		}
		srv := grpc.NewServer(opts...)
		pb.RegisterReportsServer(srv, secureServer{func(rep *pb.Report) { r.Add(J{"op": "got"}) }})
		mu.Lock()
		conns = nil
		mu.Unlock()
		go srv.Serve(listening{Listener: l, on: func(n *noting) { mu.Lock(); conns = append(conns, n); mu.Unlock() }})
		if i == 0 {
			if err := c.Start(); err != nil {
				r.Note("monny can not be started: %s", err)
				r.Add(J{"op": "broken"})
				srv.Stop()
				return
			}
			go func() { c.Wait(); close(done) }()
		}
		last := i == len(servers)-1
		right := boolean(is["right"])
		till := time.Now().Add(8 * time.Second)
		if last {
			till = time.Now().Add(time.Duration(num(m["patience"])) * time.Second)
		}
		for !ended() && time.Now().Before(till) && !(!right && count() >= num(m["attempts"])) && !(right && !last && count() > 0) {
			time.Sleep(20 * time.Millisecond)
		}
		if !ended() {
			time.Sleep(150 * time.Millisecond)
		}
		over := ended()
		if !over && last {
			r.Add(J{"op": "stop"})
			kill()
		}
		srv.Stop()
		l = nil
		mu.Lock()
		seen := map[string]bool{}
		for _, n := range conns {
			n.Close()
			n.mu.Lock()
			if len(n.got) > 0 {
				e := J{"op": "bytes", "tls": n.got[0] == 0x16, "clear": bytes.Contains(n.got, []byte(secret))}
				if k, _ := json.Marshal(e); !seen[string(k)] {
					seen[string(k)] = true
					r.Add(e)
				}
			}
			n.mu.Unlock()
		}
		mu.Unlock()
		r.Add(J{"op": "down"})
		if over {
			r.Add(J{"op": "end"})
			break
		}
		if last {
			break
		}
	}
	out := buf.String()
	if len(out) > 600 {
		out = out[:600]
	}
	r.Note("monny %q printed %q", strings.Join(args, " "), out)
}
