package verifdrv

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/BTBurke/monny/pkg/eventbus"
)

func init() { runners["bus"] = runBus }

type payload struct {
	ID   int
	Data []byte
}

type subscriber struct {
	id     int
	c      chan eventbus.Event
	done   chan struct{}
	fn     eventbus.ShutdownFunc
	resume chan bool
	finish chan bool
	once   sync.Once
}

type busRun struct {
	r       *Rec
	b       *eventbus.EventBus
	race    bool
	k       int64
	mu      sync.Mutex
	subs    map[int]*subscriber
	cancel  map[string]func()
	ev      int64
	wg      sync.WaitGroup
	threads int64
}

func (x *busRun) add(e J) {
	if !x.race {
		x.r.Add(e)
	}
}

func (x *busRun) call(f string, e J) (int, J) {
	k := int(atomic.AddInt64(&x.k, 1))
	c := J{"op": "call", "k": k, "f": f, "s": 0, "topics": []string{}, "ev": 0, "full": false, "eager": false, "ended": false}
	for a, b := range e {
		c[a] = b
	}
	return k, c
}

func (x *busRun) sub(id int) *subscriber {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.subs[id]
}

func topicsOf(l []string) []eventbus.Topic {
	var out []eventbus.Topic
	for _, t := range l {
		out = append(out, eventbus.Topic(t))
	}
	return out
}

// typeOf and dataOf are what an event with this number must carry
func typeOf(ev int) eventbus.EventType {
	if ev%7 == 5 {
		return ""
	}
	return eventbus.EventType(fmt.Sprintf("Type of%d", ev%3))
}
func dataOf(ev int) []byte {
	if ev >= 7000 && ev < 7010 { // large ones
		return bytes.Repeat([]byte{byte(ev), 'x'}, (ev-6999)<<20)
	}
	return []byte(fmt.Sprintf("payload of %d%s", ev, []string{"", "\x00", "\nmore"}[ev%3]))
}

func (x *busRun) dispatch(ev int, topics []string) {
	p := payload{ID: ev, Data: dataOf(ev)}
	var evt eventbus.Event
	var err error
	if ev%2 == 0 {
		evt, err = eventbus.NewEvent(typeOf(ev), p)
	} else {
		evt, err = eventbus.NewEvent(typeOf(ev), &p)
	}
	if err != nil {
		x.add(J{"op": "panic", "res": err.Error()})
		return
	}
	// the caller's list has spare capacity that belongs to the caller
	backing := append(topicsOf(topics), "spare1", "spare2")
	list := backing[:len(topics)]
	k, c := x.call("disp", J{"ev": ev, "topics": topics})
	x.add(c)
	x.b.Dispatch(evt, list...)
	res := "ok"
	for i, t := range append(append([]string{}, topics...), "spare1", "spare2") {
		if string(backing[i]) != t {
			res = "topics changed"
		}
	}
	for i := range p.Data {
		p.Data[i] = 'x'
	}
	p.ID = -1
	x.add(J{"op": "ret", "k": k, "res": res})
}

func (x *busRun) do(op J) {
	if p := x.r.Catch(func() { x.do1(op) }); p != "" {
		x.r.Add(J{"op": "panic", "res": p})
	}
}

func (x *busRun) do1(op J) {
	id := num(op["s"])
	switch str(op["op"]) {
	case "sub":
		s := &subscriber{id: id, resume: make(chan bool), finish: make(chan bool)}
		topics := strs(op["topics"])
		eager := str(op["mode"]) == "eager"
		k, c := x.call("sub", J{"s": id, "topics": topics, "eager": eager})
		x.add(c)
		// without access to the package (see build_test_driver) the done channel stays unknown
		v, ok := interface{}(x.b).(interface {
			VerifSubscribe(topics ...eventbus.Topic) (chan eventbus.Event, chan struct{})
		})
		if ok && boolean(op["full"]) {
			s.c, s.done = v.VerifSubscribe(topicsOf(topics)...)
		} else {
			s.c, s.fn = x.b.Subscribe(topicsOf(topics)...)
		}
		x.mu.Lock()
		x.subs[id] = s
		x.mu.Unlock()
		x.add(J{"op": "ret", "k": k, "res": "ok"})
		x.wg.Add(1)
		go x.receive(s, eager, boolean(op["manual"]), boolean(op["reenter"]))
	case "disp":
		x.dispatch(num(op["ev"]), strs(op["topics"]))
	case "unsub":
		s := x.sub(id)
		if id != 0 && s == nil {
			return
		}
		if s == nil { // a channel the bus does not know
			k, c := x.call("unsub", J{"s": 0, "full": true})
			x.add(c)
			x.b.Unsubscribe(make(chan eventbus.Event, 1), make(chan struct{}))
			x.add(J{"op": "ret", "k": k, "res": "ok"})
			return
		}
		full := s.done != nil
		k, c := x.call("unsub", J{"s": id, "full": full})
		x.add(c)
		x.b.Unsubscribe(s.c, s.done)
		x.add(J{"op": "ret", "k": k, "res": "ok"})
		if !full {
			x.fin(s)
		}
	case "shut":
		ctx, cancel := context.WithCancel(context.Background())
		k, c := x.call("shut", J{"ended": boolean(op["ended"])})
		x.mu.Lock()
		x.cancel[str(op["c"])] = func() { x.add(J{"op": "cancel", "k": k}); cancel() }
		x.mu.Unlock()
		if boolean(op["ended"]) {
			cancel()
		}
		x.add(c)
		err := x.b.Shutdown(ctx)
		res := "ok"
		if err == eventbus.ErrShutdownTimeout {
			res = "timeout"
		} else if err != nil {
			res = "error: " + err.Error()
		}
		x.add(J{"op": "ret", "k": k, "res": res})
		cancel()
	case "cancel":
		x.mu.Lock()
		f := x.cancel[str(op["c"])]
		delete(x.cancel, str(op["c"]))
		x.mu.Unlock()
		if f != nil {
			f()
		}
	case "pass": // nothing depends on how much time passes
		time.Sleep(time.Duration(num(op["n"])) * time.Second)
	case "resume":
		if s := x.sub(id); s != nil {
			s.wake(s.resume)
		}
	case "finish":
		if s := x.sub(id); s != nil {
			s.wake(s.finish)
		}
	}
}

func (s *subscriber) wake(c chan bool) {
	defer func() { recover() }()
	close(c)
}

func (x *busRun) fin(s *subscriber) {
	x.add(J{"op": "fin", "s": s.id})
	s.once.Do(func() {
		defer func() { recover() }() // Unsubscribe may have closed it already
		if s.fn != nil {
			s.fn()
			s.fn()
		} else {
			close(s.done)
		}
	})
}

func (x *busRun) receive(s *subscriber, eager, manual, reenter bool) {
	defer x.wg.Done()
	if !eager {
		<-s.resume
		x.add(J{"op": "resume", "s": s.id})
	}
	for evt := range s.c {
		var p payload
		ev := 0
		if err := evt.Decode(&p); err == nil && p.ID > 0 && evt.Type() == typeOf(p.ID) && string(p.Data) == string(dataOf(p.ID)) {
			ev = p.ID
		}
		x.add(J{"op": "recv", "s": s.id, "ev": ev})
	}
	x.add(J{"op": "closed", "s": s.id})
	if reenter {
		x.dispatch(int(atomic.AddInt64(&x.ev, 1)), []string{"a"})
	}
	if manual {
		<-s.finish
	}
	x.fin(s)
}

func runBus(t *testing.T, s Script, r *Rec) {
	x := &busRun{r: r, race: os.Getenv("VERIF_RACE") != "", subs: map[int]*subscriber{}, cancel: map[string]func(){}, ev: 1000}
	bubble(t, r, func() {
		x.b = eventbus.New()
		idle := func() {
			synctest.Wait()
			x.add(J{"op": "idle"})
		}
		for _, op := range s.Ops {
			if str(op["op"]) != "par" {
				if str(op["op"]) == "idle" {
					idle()
					continue
				}
				x.do(op)
				continue
			}
			start := make(chan bool)
			for _, th := range list(op["threads"]) {
				th := th
				atomic.AddInt64(&x.threads, 1)
				go func() {
					defer atomic.AddInt64(&x.threads, -1)
					<-start
					for _, o := range list(th) {
						x.do(o.(J))
					}
				}()
			}
			close(start)
			idle()
		}
		// let everybody finish: a script may still be in the middle of an operation that waits for others
		release := func() {
			x.mu.Lock()
			var ids []int
			for id := range x.subs {
				ids = append(ids, id)
			}
			x.mu.Unlock()
			for _, id := range ids {
				x.do(J{"op": "resume", "s": float64(id)})
				x.do(J{"op": "finish", "s": float64(id)})
			}
			idle()
		}
		cancelAll := func() {
			x.mu.Lock()
			cs := x.cancel
			x.cancel = map[string]func(){}
			x.mu.Unlock()
			for _, f := range cs {
				f()
			}
			idle()
		}
		for i := 0; i == 0 || i < 10 && atomic.LoadInt64(&x.threads) > 0; i++ {
			release()
			cancelAll()
		}
		go x.do(J{"op": "shut", "c": "last"})
		release()
		cancelAll()
	})
	if x.race {
		r.Add(J{"op": "race", "res": "none"})
	}
}
