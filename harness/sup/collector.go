package verifdrv

import (
	"context"
	"errors"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"
)

// collector receives reports and answers as it is told
type collector struct {
	addr   string
	mu     sync.Mutex
	srv    *grpc.Server
	conns  map[string]net.Conn
	kinds  []string // answers for the next requests, "ok" when used up
	always string   // answer when used up
	hold   chan bool
	on     func(rep *pb.Report) int // records the request and returns its number
	ack    func(q int, kind string) // records the answer
}

type trackListener struct {
	net.Listener
	c *collector
}

func (l trackListener) Accept() (net.Conn, error) {
	conn, err := l.Listener.Accept()
	if err == nil {
		l.c.mu.Lock()
		l.c.conns[conn.RemoteAddr().String()] = conn
		l.c.mu.Unlock()
	}
	return conn, err
}

func (c *collector) up() error {
	l, err := net.Listen("tcp", c.addr)
	for i := 0; err != nil && i < 100; i++ {
		time.Sleep(10 * time.Millisecond)
		l, err = net.Listen("tcp", c.addr)
	}
	if err != nil {
		return err
	}
	c.mu.Lock()
	c.conns = map[string]net.Conn{}
	c.addr = l.Addr().String()
	c.srv = grpc.NewServer(grpc.MaxRecvMsgSize(64 << 20))
	srv := c.srv
	pb.RegisterReportsServer(srv, c)
	c.mu.Unlock()
	go srv.Serve(trackListener{l, c})
	return nil
}

func (c *collector) down() {
	c.mu.Lock()
	s := c.srv
	c.srv = nil
	c.mu.Unlock()
	if s != nil {
		s.Stop()
	}
}

func (c *collector) release() {
	c.mu.Lock()
	defer c.mu.Unlock()
	close(c.hold)
	c.hold = make(chan bool)
}

func (c *collector) Create(ctx context.Context, r *pb.Report) (*pb.ReportAck, error) {
	c.mu.Lock()
	kind := c.always
	if len(c.kinds) > 0 {
		kind, c.kinds = c.kinds[0], c.kinds[1:]
	}
	hold := c.hold
	q := c.on(r)
	c.mu.Unlock()
	switch kind {
	case "hold":
		select {
		case <-hold:
		case <-ctx.Done():
			c.ack(q, "lost")
			return nil, errors.New("lost")
		}
		kind = "ok"
	case "slow":
		time.Sleep(400 * time.Millisecond)
		kind = "ok"
	case "drop":
		c.ack(q, "drop")
		if p, ok := peer.FromContext(ctx); ok {
			c.mu.Lock()
			conn := c.conns[p.Addr.String()]
			c.mu.Unlock()
			if conn != nil {
				conn.Close()
			}
		}
		return nil, errors.New("dropped")
	case "error":
		c.ack(q, "error")
		return nil, errors.New("try again")
	case "nack":
		c.ack(q, "nack")
		return &pb.ReportAck{Success: false}, nil
	}
	if strings.HasPrefix(kind, "code") {
		n, _ := strconv.Atoi(kind[4:])
		c.ack(q, "error")
		return nil, status.Error(codes.Code(n), "not now")
	}
	if ctx.Err() != nil { // the connection is gone, the answer can not arrive
		c.ack(q, "lost")
		return nil, ctx.Err()
	}
	c.ack(q, "ok")
	return &pb.ReportAck{Success: true}, nil
}
