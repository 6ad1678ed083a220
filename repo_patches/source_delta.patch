From 1ac821de6d64549074d7067d67f4b8d7c0aeb6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 01/46] fix: log history queue panics when its capacity is 0 or
 1

---
 pkg/monny/proc/queue.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/monny/proc/queue.go b/pkg/monny/proc/queue.go
index bd6dcf9..bd1ad5e 100644
--- a/pkg/monny/proc/queue.go
+++ b/pkg/monny/proc/queue.go
@@ -25,8 +25,9 @@ func (q *Queue) add(s string) {
 }
 
 func (q *Queue) pop() string {
+	head := q.q[0]
 	q.q = q.q[1:]
-	return q.q[0]
+	return head
 }
 
 // Add puts the string in the queue, popping the head if the queue is already filled to capacity
@@ -35,6 +36,9 @@ func (q *Queue) Add(s string) {
 	defer q.mu.Unlock()
 
 	switch {
+	case q.capacity <= 0:
+		// a queue without capacity retains nothing
+		return
 	case len(q.q) < q.capacity:
 		q.add(s)
 	default:
-- 
2.43.0


From 533f62ffa3f9dcbc090cd9356c4027998f85f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 02/46] fix: Dispatch overwrites the caller's topics slice

---
 pkg/eventbus/bus.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index 3f0ac1a..ad4e22e 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -126,9 +126,10 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 	}
 
 	// always send to the defaultTopic even if other topics specified
-	topics = append(topics, defaultTopic)
+	// (on a copy: the slice belongs to the caller and may have spare capacity)
+	all := append(append(make([]Topic, 0, len(topics)+1), topics...), defaultTopic)
 
-	for _, topic := range topics {
+	for _, topic := range all {
 		// it no subscribers on the topic, silently drop message.  This is probably the behavior we want since
 		// it should be ok to emit events on specialized channels where there may not be subscribers in some cases
 		channels, ok := e.subscribers[topic]
-- 
2.43.0


From 33313b3d77b602bc337f8545652c4a553c771f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 03/46] fix: closing subscriber channels panics with several
 topics and blocks behind slow subscribers

A subscriber to several topics had its channel closed once per topic, a
sender blocked on a full subscriber held the bus lock, and Shutdown kept
the lock while it waited for the subscribers to exit.
---
 pkg/eventbus/bus.go | 109 +++++++++++++++++++++++++++++---------------
 1 file changed, 72 insertions(+), 37 deletions(-)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index ad4e22e..d2a8bc2 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -25,15 +25,24 @@ const (
 type EventBus struct {
 	subscribers map[Topic][]chan Event
 	done        []chan struct{}
+	senders     map[chan Event]*senders
 	mutex       sync.RWMutex
 	sdStarted   bool
 }
 
+// senders tracks the go routines that are delivering events to one subscriber so that its channel can be closed
+// without waiting for a subscriber that is not receiving
+type senders struct {
+	quit chan struct{}
+	wg   sync.WaitGroup
+}
+
 // New returns a new event bus.  A default topic is created, but subscribers may create other topics
 // when they register.
 func New() *EventBus {
 	return &EventBus{
 		subscribers: make(map[Topic][]chan Event),
+		senders:     make(map[chan Event]*senders),
 	}
 }
 
@@ -47,7 +56,7 @@ type doneCloser struct {
 
 // atomic close to prevent race condition on shutdown and receive value at same time
 func (s *doneCloser) close() {
-	s.once.Do(func() { close(s.d) })
+	s.once.Do(func() { closeDone(s.d) })
 }
 
 // Subscribe will register a subscriber to 0 or more topics.  If no topic is defined, the subscriber will added to the default channel and receive all
@@ -72,6 +81,7 @@ func (e *EventBus) subscribe(topics ...Topic) (chan Event, chan struct{}) {
 	c := make(chan Event, 1)
 	done := make(chan struct{})
 	e.done = append(e.done, done)
+	e.senders[c] = &senders{quit: make(chan struct{})}
 
 	// subscribe to the default topic if no topics defined
 	if len(topics) == 0 {
@@ -87,29 +97,57 @@ func (e *EventBus) subscribe(topics ...Topic) (chan Event, chan struct{}) {
 			e.subscribers[topic] = append([]chan Event{}, c)
 		}
 	}
+
+	// nobody else will close the channel of a subscriber that comes after shutdown
+	if e.sdStarted {
+		e.closeChannel(c)
+	}
 	return c, done
 }
 
+// closeChannel abandons any events that the subscriber has not received yet and closes its channel once, no matter
+// how many topics it is subscribed to.  The caller must hold the lock.
+func (e *EventBus) closeChannel(c chan Event) {
+	s, ok := e.senders[c]
+	if !ok {
+		return
+	}
+	delete(e.senders, c)
+	close(s.quit)
+	s.wg.Wait()
+
+	// recover in case the channel was closed improperly by the subscriber
+	defer func() { recover() }()
+	close(c)
+}
+
+// closeDone closes the done channel of a subscriber, which may already have been closed by the subscriber
+func closeDone(d chan struct{}) {
+	defer func() { recover() }()
+	close(d)
+}
+
 // Unsubscribe removes the subscriber from receiving any more events and closes all its channels
 func (e *EventBus) Unsubscribe(c chan Event, done chan struct{}) {
 	e.mutex.Lock()
 	defer e.mutex.Unlock()
 
 	for topic, chs := range e.subscribers {
-		for i, ch := range chs {
-			if ch == c {
-				close(ch)
-				recover()
-				e.subscribers[topic] = append(e.subscribers[topic][0:i], e.subscribers[topic][i+1:]...)
+		remaining := []chan Event{}
+		for _, ch := range chs {
+			if ch != c {
+				remaining = append(remaining, ch)
 			}
 		}
+		e.subscribers[topic] = remaining
 	}
+	e.closeChannel(c)
 
 	for i, d := range e.done {
 		if d == done {
-			close(d)
-			recover()
+			closeDone(d)
 			e.done = append(e.done[0:i], e.done[i+1:]...)
+			break
 		}
 	}
 }
@@ -137,29 +175,29 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 			continue
 		}
 
-		// make a copy of the channels to preserve locking
-		chs := append([]chan Event{}, channels...)
-
-		go func(event Event, chs []chan Event) {
-			for _, ch := range chs {
-				// run in go func so that if channel is closed by subscriber improperly or
-				// blocks because channel buffer is full it won't prevent other subscribers
-				// from receiving the event
-
-				// this will pessimistically lock the send channel in case the event bus is behind in sending
-				// events and shutdown has started.  Events will be silently dropped if shutdown is called and there
-				// are still pending events because subscribers are blocking.
-				go func(evt Event, c chan Event) {
-					e.mutex.RLock()
-					defer e.mutex.RUnlock()
-					if e.sdStarted {
-						return
-					}
-					defer recover()
-					c <- evt
-				}(event, ch)
+		for _, ch := range channels {
+			s, ok := e.senders[ch]
+			if !ok {
+				continue
 			}
-		}(event, chs)
+
+			// run in go func so that if channel is closed by subscriber improperly or
+			// blocks because channel buffer is full it won't prevent other subscribers
+			// from receiving the event
+
+			// this does not hold the lock while sending because a subscriber may never receive.  Events will be
+			// silently dropped if the subscriber is removed or shutdown is called and there are still pending events
+			// because subscribers are blocking.
+			s.wg.Add(1)
+			go func(evt Event, c chan Event, s *senders) {
+				defer s.wg.Done()
+				defer func() { recover() }()
+				select {
+				case c <- evt:
+				case <-s.quit:
+				}
+			}(event, ch, s)
+		}
 	}
 }
 
@@ -169,7 +207,6 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 // successful shutdown.
 func (e *EventBus) Shutdown(ctx context.Context) error {
 	e.mutex.Lock()
-	defer e.mutex.Unlock()
 	e.sdStarted = true
 
 	done := make(chan struct{})
@@ -177,14 +214,12 @@ func (e *EventBus) Shutdown(ctx context.Context) error {
 
 	for _, chs := range e.subscribers {
 		for _, ch := range chs {
-			// close all subscriber channels to signal shutdown, recover above in case
-			// one of the channels is closed improperly by subscriber which would cause a panic
-			close(ch)
-			if r := recover(); r != nil {
-				continue
-			}
+			// close all subscriber channels to signal shutdown
+			e.closeChannel(ch)
 		}
 	}
+	// release the lock before waiting, subscribers may still use the bus while they finish
+	e.mutex.Unlock()
 
 	select {
 	case <-ctx.Done():
-- 
2.43.0


From 1c9067d34fbb28412e0031bedfa4a7015b2a05cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 04/46] fix: every event is printed to stderr by a leftover
 debug statement

---
 pkg/eventbus/event.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pkg/eventbus/event.go b/pkg/eventbus/event.go
index 0675460..93727c9 100644
--- a/pkg/eventbus/event.go
+++ b/pkg/eventbus/event.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
-	"log"
 )
 
 // EventType represents the type of event being passed on the bus.  It allows handlers receiving the event to
@@ -47,7 +46,6 @@ func NewEvent(t EventType, data interface{}) (Event, error) {
 		}
 	}
 
-	log.Printf("encoded: %v", string(b.Bytes()))
 	return Event{t: t, d: b.Bytes()}, nil
 }
 
-- 
2.43.0


From 9d6e92920b1a09e973b1087cb45dbb062f2d73d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 05/46] fix: ticker goroutine spins after the event bus is
 closed

---
 pkg/monny/proc/ticker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/monny/proc/ticker.go b/pkg/monny/proc/ticker.go
index 2e74597..183314d 100644
--- a/pkg/monny/proc/ticker.go
+++ b/pkg/monny/proc/ticker.go
@@ -22,6 +22,7 @@ func NewTicker(d time.Duration, e *eventbus.EventBus, evt eventbus.EventType) {
 				if !open {
 					t.Stop()
 					finished()
+					return
 				}
 
 			case <-t.C:
-- 
2.43.0


From f84c178f5fe688fd32ec10c6d9f99f2c669b7f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 06/46] fix: log processor stops at the first line longer than
 64K

---
 pkg/monny/proc/logs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/monny/proc/logs.go b/pkg/monny/proc/logs.go
index b971844..602c23b 100644
--- a/pkg/monny/proc/logs.go
+++ b/pkg/monny/proc/logs.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"context"
 	"fmt"
+	"math"
 	"sort"
 	"sync"
 	"time"
@@ -73,6 +74,8 @@ func startLogEmitter(bus eventbus.EventDispatcher, src source, sinks []sink, don
 		defer done()
 	}
 	scanner := bufio.NewScanner(src.in)
+	// by default the scanner gives up on the first line longer than 64K
+	scanner.Buffer(nil, math.MaxInt32)
 	for scanner.Scan() {
 		data := scanner.Bytes()
 		src.q.Add(string(data))
-- 
2.43.0


From 493caa807c128b1b5f2e113b9e1d596c122f83a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 07/46] fix: history returned by a windowed counter changes
 after it is returned

---
 pkg/metric/counter.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index c9aa9f1..3a5fb13 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -105,16 +105,21 @@ func (c *WindowedCounter) History() []Counter {
 	end := c.current.start.Add(c.current.duration)
 	switch {
 	case now.After(end) || c.current.duration == 0:
-		return newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+		return newHistory(append(c.copyHistory(), *c.current), c.MaxHistory, c.MaxHistoryDuration)
 	default:
-		return newHistory(c.hist, c.MaxHistory, c.MaxHistoryDuration)
+		return newHistory(c.copyHistory(), c.MaxHistory, c.MaxHistoryDuration)
 	}
 }
 
+// copyHistory returns a copy of the closed windows so that what callers receive does not share memory with the counter
+func (c *WindowedCounter) copyHistory() []Counter {
+	return append(make([]Counter, 0, len(c.hist)+1), c.hist...)
+}
+
 // HistoryInclusive will return the history of all counters, including the current value even if the window
 // is still open on the current counter
 func (c *WindowedCounter) HistoryInclusive() []Counter {
-	return newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+	return newHistory(append(c.copyHistory(), *c.current), c.MaxHistory, c.MaxHistoryDuration)
 }
 
 // filters the history based on both MaxHistoryDuration and MaxHistory
-- 
2.43.0


From 969c057f26541c777cfd09e1f5464eff7edaa4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 08/46] fix: windowed counter without a window always has value
 0

---
 pkg/metric/counter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index 3a5fb13..31be41a 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -78,7 +78,7 @@ func (c *WindowedCounter) Value() int {
 
 	// check if the current window has closed, if so return 0
 	switch {
-	case now.After(end) && c.current.duration >= 0:
+	case now.After(end) && c.current.duration > 0:
 		return 0
 	default:
 		return c.current.Value()
-- 
2.43.0


From 0c7ff3e0a47ef0766c7f1cc32ffbe9f3ffaca79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 09/46] fix: empty WindowedCounter panics on first use

---
 pkg/metric/counter.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index 31be41a..bec8aad 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -71,8 +71,16 @@ type WindowedCounter struct {
 	MaxHistoryDuration time.Duration
 }
 
+// init allows the empty struct to be used as a counter without windowing
+func (c *WindowedCounter) init() {
+	if c.current == nil {
+		c.current = &Counter{start: time.Now().UTC()}
+	}
+}
+
 // Value returns the current value of the counter in the most recent window
 func (c *WindowedCounter) Value() int {
+	c.init()
 	now := time.Now().UTC()
 	end := c.current.start.Add(c.current.duration)
 
@@ -87,6 +95,7 @@ func (c *WindowedCounter) Value() int {
 
 // Add will increment the current counter value within the window by i
 func (c *WindowedCounter) Add(i uint) {
+	c.init()
 	now := time.Now().UTC()
 	end := c.current.start.Add(c.current.duration)
 	switch {
@@ -101,6 +110,7 @@ func (c *WindowedCounter) Add(i uint) {
 
 // History will return the history of counters not including the current value if the window is still open
 func (c *WindowedCounter) History() []Counter {
+	c.init()
 	now := time.Now().UTC()
 	end := c.current.start.Add(c.current.duration)
 	switch {
@@ -119,6 +129,7 @@ func (c *WindowedCounter) copyHistory() []Counter {
 // HistoryInclusive will return the history of all counters, including the current value even if the window
 // is still open on the current counter
 func (c *WindowedCounter) HistoryInclusive() []Counter {
+	c.init()
 	return newHistory(append(c.copyHistory(), *c.current), c.MaxHistory, c.MaxHistoryDuration)
 }
 
@@ -144,6 +155,7 @@ func newHistory(hist []Counter, max int, maxduration time.Duration) []Counter {
 
 // Reset will clear the current counters history and start a new zero-valued counter with the same window duration
 func (c *WindowedCounter) Reset() {
+	c.init()
 	c.hist = []Counter{}
 	c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}
 }
-- 
2.43.0


From 2c196680947083bf760ea0abd945d3ad2750d83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 10/46] fix: adding metadata to a name created without any
 panics

---
 pkg/metric/name.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/metric/name.go b/pkg/metric/name.go
index 1fbb006..78a2842 100644
--- a/pkg/metric/name.go
+++ b/pkg/metric/name.go
@@ -31,6 +31,10 @@ func (n Name) String() string {
 
 // NewName returns a new name with the associated metadata
 func NewName(name string, md map[string]string) Name {
+	if md == nil {
+		// metadata can still be added later
+		md = make(map[string]string)
+	}
 	return Name{name: name, md: md}
 }
 
@@ -52,7 +56,7 @@ func (n Name) AddMetadata(md map[string]string) {
 // then is followed by (key, value) pairs k=v in sorted key order, the finally by annotations starting with @ in
 // sorted order.  Close with a ].  Example: [host=pod1 loc=us-west-1 @mean @summary]
 func MarshalText(m metadata) ([]byte, error) {
-	if m == nil {
+	if len(m) == 0 {
 		return []byte{}, nil
 	}
 	keys := make([]string, 0, len(m))
-- 
2.43.0


From 534fe765d43d66c67a8f8dfbb7aa3cc72cb0446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 11/46] fix: statistic restarted from the reset state tests the
 observation against the old limit

---
 pkg/stat/estimator.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index a9cce8d..0251f3f 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -54,7 +54,6 @@ func (e *TestStatistic) Record(o float64) error {
 			// re-record the current observation after reseting the series
 			e.series.Record(o)
 		}
-		fallthrough
 	case TestingUCL:
 		e.calculateCurrent(o)
 		if e.current >= e.limit {
-- 
2.43.0


From ee1bf5735818282bc0decd654fb854671e87c608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 12/46] fix: log normal statistic never establishes a baseline
 for observations below 1

---
 pkg/stat/estimator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index 0251f3f..b61b482 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -73,7 +73,7 @@ func (e *TestStatistic) Record(o float64) error {
 			values := e.series.Values()
 			mean := e.pdf.Mean(values)
 			variance := e.pdf.Variance(values, mean)
-			if mean > 0.0 && variance > 0.0 {
+			if variance > 0.0 {
 				if err := e.fsm.Transition(TestingUCL); err != nil {
 					return err
 				}
@@ -86,7 +86,7 @@ func (e *TestStatistic) Record(o float64) error {
 			values := e.series.Values()
 			mean := e.pdf.Mean(values)
 			variance := e.pdf.Variance(values, mean)
-			if mean > 0.0 && variance > 0.0 {
+			if variance > 0.0 {
 				if err := e.fsm.Transition(TestingLCL); err != nil {
 					return err
 				}
-- 
2.43.0


From e95b001c3b472b5124bbd493236690c79a4db178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 13/46] fix: rejected transition of a statistic discards its
 baseline observations

---
 pkg/stat/estimator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index b61b482..4d5a179 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -122,10 +122,13 @@ func (e *TestStatistic) calculateCurrent(o float64) {
 // Transition will attempt to transition to estimator to the desired state.  Optionally reset the series to
 // force it to collect new baseline observations before entering testing phase
 func (e *TestStatistic) Transition(state fsm.State, resetSeries bool) error {
+	if err := e.fsm.Transition(state); err != nil {
+		return err
+	}
 	if resetSeries {
 		e.series.Reset()
 	}
-	return e.fsm.Transition(state)
+	return nil
 }
 
 // calculateLimit will determine the UCL or LCL limit (UCL => direction +1, LCL => direction -1)
-- 
2.43.0


From 9142d2c006a63439d0573faf4a0ba509eb772486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 14/46] fix: test stops at the first statistic that rejects an
 observation or transition

---
 pkg/stat/stattest.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/stat/stattest.go b/pkg/stat/stattest.go
index f2a27e9..567f7fe 100644
--- a/pkg/stat/stattest.go
+++ b/pkg/stat/stattest.go
@@ -22,21 +22,25 @@ func (t *Test) Name() string {
 }
 
 func (t *Test) Record(obs float64) error {
+	// an error from one statistic must not keep the observation from the others
+	var first error
 	for _, s := range t.sub {
-		if err := s.Record(obs); err != nil {
-			return err
+		if err := s.Record(obs); err != nil && first == nil {
+			first = err
 		}
 	}
-	return nil
+	return first
 }
 
 func (t *Test) Transition(state fsm.State, reset bool) error {
+	// attempt to transition every statistic, even if one of them is not able to
+	var first error
 	for _, s := range t.sub {
-		if err := s.Transition(state, reset); err != nil {
-			return err
+		if err := s.Transition(state, reset); err != nil && first == nil {
+			first = err
 		}
 	}
-	return nil
+	return first
 }
 
 func (t *Test) HasAlarmed() bool {
-- 
2.43.0


From b6996bb29077f9a8ba9b409a6e60f12002175171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 15/46] fix: output history drops two lines at a time and
 panics when limited to 0 or 1

---
 pkg/monny/command.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 35c649a..4c09b1c 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -308,8 +308,10 @@ func (c *Command) processStdout(line []byte) {
 	history := len(c.Stdout)
 	c.mutex.Lock()
 	switch {
+	case c.Config.StdoutHistory <= 0:
+		// no history configured
 	case history >= c.Config.StdoutHistory:
-		c.Stdout = append(c.Stdout[2:], string(line))
+		c.Stdout = append(c.Stdout[1:], string(line))
 	default:
 		c.Stdout = append(c.Stdout, string(line))
 	}
@@ -333,8 +335,10 @@ func (c *Command) processStderr(line []byte) {
 	history := len(c.Stderr)
 	c.mutex.Lock()
 	switch {
+	case c.Config.StderrHistory <= 0:
+		// no history configured
 	case history >= c.Config.StderrHistory:
-		c.Stderr = append(c.Stderr[2:], string(line))
+		c.Stderr = append(c.Stderr[1:], string(line))
 	default:
 		c.Stderr = append(c.Stderr, string(line))
 	}
-- 
2.43.0


From f2dc7a3280ffa9ee0b236d59a2a05beb0bebe0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 16/46] fix: command blocks after writing a line longer than
 64K

---
 pkg/monny/command.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 4c09b1c..898c258 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"os/exec"
 	"os/signal"
@@ -123,6 +124,9 @@ func (c *Command) Exec() error {
 	}
 	stdoutScanner := bufio.NewScanner(stdoutReader)
 	stderrScanner := bufio.NewScanner(stderrReader)
+	// by default the scanners give up on the first line longer than 64K, which would block the command
+	stdoutScanner.Buffer(nil, math.MaxInt32)
+	stderrScanner.Buffer(nil, math.MaxInt32)
 
 	c.Start = time.Now()
 	if err := cmd.Start(); err != nil {
-- 
2.43.0


From 56b2e17a3770c71a700dc0445d124835b0d3ce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 17/46] fix: JSON rule on an array of numbers panics

---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 898c258..3acff84 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -281,9 +281,9 @@ func extractTextFromJSON(raw []byte, field string) []byte {
 				case string:
 					out = append(out, val.(string))
 				case float32:
-					out = append(out, fmt.Sprintf("%f", value.(float32)))
+					out = append(out, fmt.Sprintf("%f", val.(float32)))
 				case float64:
-					out = append(out, fmt.Sprintf("%f", value.(float64)))
+					out = append(out, fmt.Sprintf("%f", val.(float64)))
 				case bool:
 					out = append(out, fmt.Sprintf("%v", val.(bool)))
 				default:
-- 
2.43.0


From c990766d4df7bc25a5d0c9db29e0f814b499c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 18/46] fix: reporting an error while running a command panics

---
 pkg/monny/command.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 3acff84..6d1e2fe 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -83,8 +83,9 @@ func New(usercmd []string, options ...ConfigOption) (*Command, []error) {
 				errors: errorService{},
 			},
 		},
-		out: cfg.out,
-		err: cfg.err,
+		errors: errorService{},
+		out:    cfg.out,
+		err:    cfg.err,
 	}, nil
 }
 
-- 
2.43.0


From 60a10ed695697143d076663b75abdf0d2ff499b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 19/46] fix: running without a command panics

---
 pkg/monny/command.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 6d1e2fe..f192bed 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -98,6 +98,9 @@ func (c *Command) Wait() error {
 // Exec will execute the user's command in a forked process and monitor log output and process
 // metrics
 func (c *Command) Exec() error {
+	if len(c.UserCommand) == 0 {
+		return fmt.Errorf("no command to execute")
+	}
 	var cmd *exec.Cmd
 	wrappedCmd, cleanup, err := wrapComplexCommand(c.Config.Shell, c.UserCommand)
 	if err != nil {
-- 
2.43.0


From f2b07dfef1654b80e35a2176324ff5924c7ce73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 20/46] fix: memory and time warnings are never sent

The handlers mark a warning as sent before they trigger it, so that it is
triggered once; Send took the same mark as a reason not to send it.
---
 pkg/monny/report.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 39e5fc9..6569d45 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -109,17 +109,7 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 			closeChannels()
 			return
 		}
-	case proto.MemoryWarning:
-		if c.memWarnSent {
-			closeChannels()
-			return
-		}
-		go r.sender.sendBackground(pb, result, cancel)
-	case proto.TimeWarning:
-		if c.timeWarnSent {
-			closeChannels()
-			return
-		}
+	case proto.MemoryWarning, proto.TimeWarning:
 		go r.sender.sendBackground(pb, result, cancel)
 	case proto.Start:
 		if c.Config.Daemon {
-- 
2.43.0


From 179fe76e521b15444a27a015fc67c9a3555bd8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 21/46] fix: duration of a command killed on timeout is
 negative

---
 pkg/monny/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 9ecb99f..e32cd6f 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -81,7 +81,7 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 	c.Killed = true
 	c.KillReason = proto.Timeout
 	c.Finish = time.Now()
-	c.Duration = c.Start.Sub(c.Finish)
+	c.Duration = c.Finish.Sub(c.Start)
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-- 
2.43.0


From a9aef874e0a3192bc04c25a9d06a347713f5afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 22/46] fix: connection options grow with every report while
 earlier ones are read

---
 pkg/monny/report.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 6569d45..db4003e 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -41,17 +41,20 @@ type senderService struct {
 	port   string
 	opts   []grpc.DialOption
 	errors ErrorReporter
+	once   sync.Once
 	wg     sync.WaitGroup
 }
 
 // Create prepares a new report based on the current status of the command.
 func (s *senderService) create(c *Command, reason proto.ReportReason) *pb.Report {
 	pb := reportFromCommand(c, reason, s.errors.ReportError)
-	if c.Config.useTLS {
-		s.opts = append(s.opts, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{})))
-	} else {
-		s.opts = append(s.opts, grpc.WithInsecure())
-	}
+	s.once.Do(func() {
+		if c.Config.useTLS {
+			s.opts = append(s.opts, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{})))
+		} else {
+			s.opts = append(s.opts, grpc.WithInsecure())
+		}
+	})
 	return pb
 }
 
-- 
2.43.0


From c1cde344de08d1f09a0c154b5421e0232baed8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 23/46] fix: reports can not be sent when the output is not
 valid UTF-8

---
 pkg/monny/report.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index db4003e..e106d72 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -216,10 +216,10 @@ func calcAlertRate(matches []RuleMatch, quantity int, period time.Duration) bool
 // schema on the backend
 func reportFromCommand(c *Command, reason proto.ReportReason, onError func(e error)) *pb.Report {
 	return &pb.Report{
-		Id:            c.Config.ID,
-		Hostname:      c.Config.Hostname,
-		Stdout:        c.Stdout,
-		Stderr:        c.Stderr,
+		Id:            toUTF8(c.Config.ID),
+		Hostname:      toUTF8(c.Config.Hostname),
+		Stdout:        allToUTF8(c.Stdout),
+		Stderr:        allToUTF8(c.Stderr),
 		Success:       c.Success,
 		MaxMemory:     c.MaxMemory,
 		Killed:        c.Killed,
@@ -231,14 +231,27 @@ func reportFromCommand(c *Command, reason proto.ReportReason, onError func(e err
 		Duration:      c.Duration.String(),
 		ExitCode:      c.ExitCode,
 		ExitCodeValid: c.ExitCodeValid,
-		Messages:      c.Messages,
+		Messages:      allToUTF8(c.Messages),
 		Matches:       marshalMatches(c.RuleMatches, onError),
-		UserCommand:   strings.Join(c.UserCommand, " "),
+		UserCommand:   toUTF8(strings.Join(c.UserCommand, " ")),
 		Config:        marshalConfig(c.Config, onError),
 		CreatedAt:     time.Now().Unix(),
 	}
 }
 
+// toUTF8 replaces invalid UTF-8, which can not be sent in a string field of the report
+func toUTF8(s string) string {
+	return strings.ToValidUTF8(s, "\uFFFD")
+}
+
+func allToUTF8(lines []string) []string {
+	out := make([]string, 0, len(lines))
+	for _, line := range lines {
+		out = append(out, toUTF8(line))
+	}
+	return out
+}
+
 func marshalMatches(a []RuleMatch, onError func(e error)) []byte {
 	b, err := json.Marshal(a)
 	if err != nil {
-- 
2.43.0


From dfdd6a3fa62528ca6d5b87919d121ce9588bf6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 24/46] fix: program exits before reports that were just
 triggered are sent

---
 pkg/monny/command.go  | 29 +++++++++++++++++++++++++----
 pkg/monny/handlers.go | 16 ++++++++--------
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index f192bed..8470478 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -39,6 +39,8 @@ type Command struct {
 	Messages      []string
 
 	mutex        sync.Mutex
+	reports      sync.WaitGroup
+	waiting      bool
 	pid          int
 	memWarnSent  bool
 	timeWarnSent bool
@@ -92,9 +94,28 @@ func New(usercmd []string, options ...ConfigOption) (*Command, []error) {
 // Wait blocks program termination until the user's command finishes and all potential
 // reports and metrics are transmitted to the server
 func (c *Command) Wait() error {
+	c.mutex.Lock()
+	c.waiting = true
+	c.mutex.Unlock()
+	c.reports.Wait()
 	return c.report.Wait()
 }
 
+// sendReport triggers a report that is sent in the background, but registers it first so that Wait can not return
+// before the report is handled
+func (c *Command) sendReport(reason proto.ReportReason) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.waiting {
+		return
+	}
+	c.reports.Add(1)
+	go func() {
+		defer c.reports.Done()
+		c.report.Send(c, reason)
+	}()
+}
+
 // Exec will execute the user's command in a forked process and monitor log output and process
 // metrics
 func (c *Command) Exec() error {
@@ -308,9 +329,9 @@ func (c *Command) processStdout(line []byte) {
 	if len(c.RuleMatches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
-			go c.report.Send(c, proto.AlertRate)
+			c.sendReport(proto.AlertRate)
 		default:
-			go c.report.Send(c, proto.Alert)
+			c.sendReport(proto.Alert)
 		}
 	}
 	history := len(c.Stdout)
@@ -335,9 +356,9 @@ func (c *Command) processStderr(line []byte) {
 	if len(c.RuleMatches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
-			go c.report.Send(c, proto.AlertRate)
+			c.sendReport(proto.AlertRate)
 		default:
-			go c.report.Send(c, proto.Alert)
+			c.sendReport(proto.Alert)
 		}
 	}
 	history := len(c.Stderr)
diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index e32cd6f..3673111 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -38,7 +38,7 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ExitCodeValid = true
 		c.ReportReason = proto.Success
 		c.mutex.Unlock()
-		go c.report.Send(c, proto.Success)
+		c.sendReport(proto.Success)
 	default:
 		sysinfo, ok := cmd.ProcessState.Sys().(syscall.WaitStatus)
 		c.mutex.Lock()
@@ -49,7 +49,7 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ReportReason = proto.Failure
 		c.Success = false
 		c.mutex.Unlock()
-		go c.report.Send(c, proto.Failure)
+		c.sendReport(proto.Failure)
 	}
 	handleFileCreation(c)
 	return nil
@@ -66,7 +66,7 @@ func (h handler) Signal(c *Command, cmd *exec.Cmd, sig os.Signal) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.sendReport(proto.Killed)
 	if err := cmd.Process.Signal(sig); err != nil {
 		return err
 	}
@@ -85,7 +85,7 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.sendReport(proto.Killed)
 	if err := cmd.Process.Signal(os.Kill); err != nil {
 		return err
 	}
@@ -103,7 +103,7 @@ func (h handler) TimeWarning(c *Command) error {
 	c.timeWarnSent = true
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.TimeWarning)
+	c.sendReport(proto.TimeWarning)
 
 	return nil
 }
@@ -125,7 +125,7 @@ func (h handler) CheckMemory(c *Command, cmd *exec.Cmd) error {
 			c.memWarnSent = true
 			c.mutex.Unlock()
 
-			go c.report.Send(c, proto.MemoryWarning)
+			c.sendReport(proto.MemoryWarning)
 		}
 	}
 	if c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill {
@@ -144,7 +144,7 @@ func (h handler) KillOnHighMemory(c *Command, cmd *exec.Cmd) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.sendReport(proto.Killed)
 	if err := cmd.Process.Signal(os.Kill); err != nil {
 		return err
 	}
@@ -163,7 +163,7 @@ func handleFileCreation(c *Command) {
 			c.Messages = append(c.Messages, fmt.Sprintf("file not created: %s", f))
 			c.ReportReason = proto.FileNotCreated
 			c.mutex.Unlock()
-			go c.report.Send(c, proto.FileNotCreated)
+			c.sendReport(proto.FileNotCreated)
 		case err == nil:
 			c.mutex.Lock()
 			c.Created = append(c.Created, File{
-- 
2.43.0


From 60dfbee17d478cc64e823d0feecfaa1c94e81180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 25/46] fix: alerts lose matches and repeat for lines that do
 not match

Every line sent an alert as long as an earlier match had not been
delivered, and a delivered alert discarded the matches that were found
after it was created.
---
 pkg/monny/command.go |  4 ++--
 pkg/monny/report.go  | 31 ++++++++++++++++++++++---------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 8470478..194876a 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -326,7 +326,7 @@ func (c *Command) processStdout(line []byte) {
 	c.mutex.Lock()
 	c.RuleMatches = append(c.RuleMatches, matches...)
 	c.mutex.Unlock()
-	if len(c.RuleMatches) > 0 {
+	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
 			c.sendReport(proto.AlertRate)
@@ -353,7 +353,7 @@ func (c *Command) processStderr(line []byte) {
 	c.mutex.Lock()
 	c.RuleMatches = append(c.RuleMatches, matches...)
 	c.mutex.Unlock()
-	if len(c.RuleMatches) > 0 {
+	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
 			c.sendReport(proto.AlertRate)
diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index e106d72..6f8e1fc 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -26,6 +26,8 @@ type ReportSender interface {
 // Report is a wrapper for sending a report via GRPC. See pb.Report for details.
 type Report struct {
 	sender sender
+	// number of rule matches already delivered and removed from the command, guarded by the command's mutex
+	delivered int
 }
 
 // sender is an interface for creating and sending a report in the background.
@@ -64,7 +66,14 @@ func (s *senderService) create(c *Command, reason proto.ReportReason) *pb.Report
 // using exponential backoff if the call fails. (default)
 func (r *Report) Send(c *Command, reason proto.ReportReason) {
 	c.mutex.Lock()
+	if reason == proto.Alert && len(c.RuleMatches) == 0 && r.delivered > 0 {
+		// an earlier alert already delivered the match that triggered this one
+		c.mutex.Unlock()
+		return
+	}
 	pb := r.sender.create(c, reason)
+	alertRateExceeded := reason == proto.AlertRate && calcAlertRate(c.RuleMatches, c.Config.RuleQuantity, c.Config.RulePeriod)
+	reported := r.delivered + len(c.RuleMatches)
 	c.mutex.Unlock()
 
 	result := make(chan error, 1)
@@ -96,18 +105,11 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		go r.sender.sendBackground(pb, result, cancel)
 	case proto.Alert:
 		go r.sender.sendBackground(pb, result, cancel)
-		cb = func() {
-			c.RuleMatches = []RuleMatch{}
-			return
-		}
+		cb = func() { r.clearMatches(c, reported) }
 	case proto.AlertRate:
-		alertRateExceeded := calcAlertRate(c.RuleMatches, c.Config.RuleQuantity, c.Config.RulePeriod)
 		if alertRateExceeded {
 			go r.sender.sendBackground(pb, result, cancel)
-			cb = func() {
-				c.RuleMatches = []RuleMatch{}
-				return
-			}
+			cb = func() { r.clearMatches(c, reported) }
 		} else {
 			closeChannels()
 			return
@@ -140,6 +142,17 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 	closeChannels()
 }
 
+// clearMatches removes the matches that were part of a delivered report.  Matches found after the report was created
+// remain to be reported.
+func (r *Report) clearMatches(c *Command, reported int) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if n := reported - r.delivered; n > 0 {
+		c.RuleMatches = append([]RuleMatch{}, c.RuleMatches[n:]...)
+		r.delivered += n
+	}
+}
+
 // Wait will cause the process to block until the report is finished sending in the background.
 // This function is typically called on the Command at the top level to prevent the client
 // from exiting.  See Command.Wait().
-- 
2.43.0


From b52c5be7778fa5a38eeaed4ff2b782af9551ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 26/46] fix: success is reported when an expected file was not
 created

---
 pkg/monny/handlers.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 3673111..e4d7f3f 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -38,7 +38,6 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ExitCodeValid = true
 		c.ReportReason = proto.Success
 		c.mutex.Unlock()
-		c.sendReport(proto.Success)
 	default:
 		sysinfo, ok := cmd.ProcessState.Sys().(syscall.WaitStatus)
 		c.mutex.Lock()
@@ -49,9 +48,16 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ReportReason = proto.Failure
 		c.Success = false
 		c.mutex.Unlock()
-		c.sendReport(proto.Failure)
 	}
+
+	// artifacts are checked before reporting, the process was not successful if one of them is missing
 	handleFileCreation(c)
+	switch {
+	case !cmd.ProcessState.Success():
+		c.sendReport(proto.Failure)
+	case c.Success:
+		c.sendReport(proto.Success)
+	}
 	return nil
 }
 
-- 
2.43.0


From ceb5b103c081d4347b12ebebc623ab1edb71644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 27/46] fix: exit code of a process ended by a signal is
 reported as valid

---
 pkg/monny/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index e4d7f3f..c9a374f 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -43,7 +43,7 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.mutex.Lock()
 		if ok {
 			c.ExitCode = int32(sysinfo.ExitStatus())
-			c.ExitCodeValid = true
+			c.ExitCodeValid = sysinfo.Exited()
 		}
 		c.ReportReason = proto.Failure
 		c.Success = false
-- 
2.43.0


From 37884bd9324e3ab24d1944d5a3886e1f3b508b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 28/46] fix: program exits without sending reports when the
 process ends just before it is signaled

---
 pkg/monny/handlers.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index c9a374f..2bfe26c 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -1,6 +1,7 @@
 package monny
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"os/exec"
@@ -73,7 +74,7 @@ func (h handler) Signal(c *Command, cmd *exec.Cmd, sig os.Signal) error {
 	c.mutex.Unlock()
 
 	c.sendReport(proto.Killed)
-	if err := cmd.Process.Signal(sig); err != nil {
+	if err := cmd.Process.Signal(sig); err != nil && !errors.Is(err, os.ErrProcessDone) {
 		return err
 	}
 	//fmt.Printf("\n\nProcess received signal: %s\n", sig.String())
@@ -92,7 +93,7 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 	c.mutex.Unlock()
 
 	c.sendReport(proto.Killed)
-	if err := cmd.Process.Signal(os.Kill); err != nil {
+	if err := cmd.Process.Signal(os.Kill); err != nil && !errors.Is(err, os.ErrProcessDone) {
 		return err
 	}
 	//fmt.Printf("\n\nProcess timeout\n")
@@ -151,7 +152,7 @@ func (h handler) KillOnHighMemory(c *Command, cmd *exec.Cmd) error {
 	c.mutex.Unlock()
 
 	c.sendReport(proto.Killed)
-	if err := cmd.Process.Signal(os.Kill); err != nil {
+	if err := cmd.Process.Signal(os.Kill); err != nil && !errors.Is(err, os.ErrProcessDone) {
 		return err
 	}
 	return nil
-- 
2.43.0


From 08dbd8ee7bf394a3c3051c25e14970c11846abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 29/46] fix: SIGTERM ends the program without passing it on to
 the command

SIGKILL, which was asked for instead, can not be trapped.
---
 pkg/monny/command.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 194876a..b88e295 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -12,6 +12,7 @@ import (
 	"runtime"
 	"strings"
 	"sync"
+	"syscall"
 
 	"time"
 
@@ -153,8 +154,12 @@ func (c *Command) Exec() error {
 	stdoutScanner.Buffer(nil, math.MaxInt32)
 	stderrScanner.Buffer(nil, math.MaxInt32)
 
+	signals := make(chan os.Signal, 1)
+	signal.Notify(signals, os.Interrupt, syscall.SIGTERM)
+
 	c.Start = time.Now()
 	if err := cmd.Start(); err != nil {
+		signal.Stop(signals)
 		return err
 	}
 	c.pid = os.Getpid()
@@ -200,9 +205,7 @@ func (c *Command) Exec() error {
 	runFinished := make(chan bool, 1)
 	timeout := make(<-chan time.Time, 1)
 	timenotify := make(<-chan time.Time, 1)
-	signals := make(chan os.Signal, 1)
 	profileMemory := make(<-chan time.Time, 1)
-	signal.Notify(signals, os.Interrupt, os.Kill)
 
 	if c.Config.KillTimeout > 0 {
 		timeout = time.After(c.Config.KillTimeout)
-- 
2.43.0


From 092c2e3152e5194d75ea1df02e0804f4b93f74f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 30/46] fix: program does not end with the command while a
 previous piped process is still running

---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index b88e295..456a690 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -165,9 +165,9 @@ func (c *Command) Exec() error {
 	c.pid = os.Getpid()
 
 	var wg sync.WaitGroup
-	wg.Add(3)
+	// the command may end before the previous piped process does, so stdin is not waited for
+	wg.Add(2)
 	go func() {
-		defer wg.Done()
 		defer stdinWriter.Close()
 		// determine if a monny is after a previous piped process, copy to forked process stdin if necessary
 		fi, err := os.Stdin.Stat()
-- 
2.43.0


From 35b544ea3e85eaaa493b00aef2d1f23a35706de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 31/46] fix: program ends before a command that was signaled or
 killed

The output that the command writes while it shuts down was lost, although
Wait is meant to block until the command finishes.
---
 pkg/monny/command.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 456a690..956a03a 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -19,6 +19,9 @@ import (
 	"github.com/BTBurke/monny/pkg/proto"
 )
 
+// killWait limits how long to wait for the remaining output of a command after it was killed
+const killWait = 5 * time.Second
+
 // Command represents the current state of process execution
 type Command struct {
 	Config        Config
@@ -42,6 +45,7 @@ type Command struct {
 	mutex        sync.Mutex
 	reports      sync.WaitGroup
 	waiting      bool
+	finished     chan struct{}
 	pid          int
 	memWarnSent  bool
 	timeWarnSent bool
@@ -95,6 +99,13 @@ func New(usercmd []string, options ...ConfigOption) (*Command, []error) {
 // Wait blocks program termination until the user's command finishes and all potential
 // reports and metrics are transmitted to the server
 func (c *Command) Wait() error {
+	if c.finished != nil {
+		select {
+		case <-c.finished:
+		case <-time.After(killWait):
+			// killed, but its output is kept open by processes that it started
+		}
+	}
 	c.mutex.Lock()
 	c.waiting = true
 	c.mutex.Unlock()
@@ -203,6 +214,7 @@ func (c *Command) Exec() error {
 	}()
 
 	runFinished := make(chan bool, 1)
+	c.finished = make(chan struct{})
 	timeout := make(<-chan time.Time, 1)
 	timenotify := make(<-chan time.Time, 1)
 	profileMemory := make(<-chan time.Time, 1)
@@ -228,21 +240,42 @@ func (c *Command) Exec() error {
 		c.out.Close()
 		c.err.Close()
 		c.Cleanup()
+		close(c.finished)
 		runFinished <- true
 	}()
 
+	// once signaled, the command decides how it ends and that it was killed has already been reported
+	signaled := false
 	for {
 		select {
 		case <-runFinished:
+			if signaled {
+				return nil
+			}
 			return c.handler.Finished(c, cmd)
 		case sig := <-signals:
-			return c.handler.Signal(c, cmd, sig)
+			if signaled {
+				cmd.Process.Signal(sig)
+				continue
+			}
+			signaled = true
+			if err := c.handler.Signal(c, cmd, sig); err != nil {
+				return err
+			}
 		case <-timeout:
+			if signaled {
+				cmd.Process.Kill()
+				continue
+			}
 			return c.handler.Timeout(c, cmd)
 		case <-timenotify:
 			c.handler.TimeWarning(c)
 		case <-profileMemory:
 			if err := c.handler.CheckMemory(c, cmd); err != nil {
+				if signaled {
+					cmd.Process.Kill()
+					continue
+				}
 				return c.handler.KillOnHighMemory(c, cmd)
 			}
 		}
-- 
2.43.0


From 3747de963e96c654c70d84c29d3067062f447901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 32/46] fix: configured shell is replaced by the default shell

---
 pkg/monny/config.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index 2b35c30..0c05265 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -76,11 +76,13 @@ func newConfig(options ...ConfigOption) (Config, []error) {
 		}
 	}
 
-	shell, err := findDefaultShell()
-	if err != nil {
-		errors = append(errors, err)
+	if len(c.Shell) == 0 {
+		shell, err := findDefaultShell()
+		if err != nil {
+			errors = append(errors, err)
+		}
+		c.Shell = shell
 	}
-	c.Shell = shell
 	if len(c.ID) == 0 {
 		errors = append(errors, fmt.Errorf("id is required, use monny -i <id>; new ids are created with monctl create or pass your email address to get a notifications via email without an account"))
 	}
-- 
2.43.0


From 93ec0fed730e9598b4bbdc4d6e9eaf7c57fd7a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 33/46] fix: boolean options set to false are switched on

---
 pkg/monny/parse.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 91b89cc..6044995 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -102,11 +102,11 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	case "stderr-history":
 		return StderrHistory(value), nil
 	case "no-notify-on-success":
-		return NoNotifyOnSuccess(), nil
+		return boolOption(name, value, NoNotifyOnSuccess())
 	case "no-notify-on-failure":
-		return NoNotifyOnFailure(), nil
+		return boolOption(name, value, NoNotifyOnFailure())
 	case "daemon":
-		return Daemon(), nil
+		return boolOption(name, value, Daemon())
 	case "memory-warn":
 		return MemoryWarn(value), nil
 	case "memory-kill":
@@ -120,9 +120,9 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	case "host":
 		return Host(value), nil
 	case "insecure":
-		return Insecure(), nil
+		return boolOption(name, value, Insecure())
 	case "no-error-reports":
-		return NoErrorReports(), nil
+		return boolOption(name, value, NoErrorReports())
 	case "shell":
 		return Shell(value), nil
 	default:
@@ -130,6 +130,18 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	}
 }
 
+// boolOption returns the option when it is switched on, and an option that changes nothing when it is switched off
+func boolOption(name string, value string, option ConfigOption) (ConfigOption, error) {
+	on, err := strconv.ParseBool(value)
+	if err != nil {
+		return nil, fmt.Errorf("invalid value for %s, should be true or false: %s", name, value)
+	}
+	if !on {
+		return func(c *Config) error { return nil }, nil
+	}
+	return option, nil
+}
+
 func parseFromFile(fpath string) ([]ConfigOption, error) {
 	var options []ConfigOption
 	data, err := ioutil.ReadFile(fpath)
@@ -157,7 +169,7 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 			}
 			options = append(options, opt)
 		case bool:
-			opt, err := handleOption(k, "")
+			opt, err := handleOption(k, strconv.FormatBool(v.(bool)))
 			if err != nil {
 				return options, err
 			}
-- 
2.43.0


From 6e70a93f0915a04fa3b2dfd970a9d915ecdcb3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 34/46] fix: several lists in the configuration file are
 applied more than once

---
 pkg/monny/parse.go | 50 +++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 6044995..87f37b6 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -180,25 +180,20 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 			if err := yaml.Unmarshal(data, &alt); err != nil {
 				return options, fmt.Errorf("Could not unmarshal config value for key: %s", k)
 			}
-			if len(alt.Rule) == 0 && len(alt.JSONRule) == 0 && len(alt.Creates) == 0 {
+			// only the list of this key, the others are handled on their own
+			var vals []string
+			switch k {
+			case "rule":
+				vals = alt.Rule
+			case "rule-json":
+				vals = alt.JSONRule
+			case "creates":
+				vals = alt.Creates
+			default:
 				return options, fmt.Errorf("Unknown option: %s", k)
 			}
-			for _, val := range alt.Rule {
-				opt, err := handleOption("rule", val)
-				if err != nil {
-					return options, err
-				}
-				options = append(options, opt)
-			}
-			for _, val := range alt.JSONRule {
-				opt, err := handleOption("rule-json", val)
-				if err != nil {
-					return options, err
-				}
-				options = append(options, opt)
-			}
-			for _, val := range alt.Creates {
-				opt, err := handleOption("creates", val)
+			for _, val := range vals {
+				opt, err := handleOption(k, val)
 				if err != nil {
 					return options, err
 				}
@@ -212,7 +207,22 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 }
 
 type listFieldsYAML struct {
-	Rule     []string `yaml:"rule"`
-	JSONRule []string `yaml:"rule-json"`
-	Creates  []string `yaml:"creates"`
+	Rule     listYAML `yaml:"rule"`
+	JSONRule listYAML `yaml:"rule-json"`
+	Creates  listYAML `yaml:"creates"`
+}
+
+// listYAML accepts a single value in place of a list
+type listYAML []string
+
+func (l *listYAML) UnmarshalYAML(unmarshal func(interface{}) error) error {
+	var list []string
+	if err := unmarshal(&list); err == nil {
+		*l = list
+		return nil
+	}
+	var value string
+	err := unmarshal(&value)
+	*l = []string{value}
+	return err
 }
-- 
2.43.0


From 7aa6a32ffc0be28cb88830cb923c750e7047aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 35/46] fix: observations of an open sample window survive the
 reset of a statistic

---
 pkg/stat/estimator.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index 4d5a179..3e84080 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -48,12 +48,11 @@ func (e *TestStatistic) Record(o float64) error {
 		if err := e.fsm.Transition(UCLInitial); err != nil {
 			return err
 		}
-		// if forced into reset with existing observations, start series recording over again
-		if e.series.Count() > 0 {
-			e.series.Reset()
-			// re-record the current observation after reseting the series
-			e.series.Record(o)
-		}
+		// if forced into reset with existing observations, including those of a sample window that is still
+		// open, start series recording over again
+		e.series.Reset()
+		// re-record the current observation after reseting the series
+		e.series.Record(o)
 	case TestingUCL:
 		e.calculateCurrent(o)
 		if e.current >= e.limit {
-- 
2.43.0


From 3c348bd99fe5b1a67b1db172e5db87dbcc26869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 36/46] fix: creating an event panics when its type was used as
 value and as pointer

---
 pkg/eventbus/event.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/eventbus/event.go b/pkg/eventbus/event.go
index 93727c9..9d2edaf 100644
--- a/pkg/eventbus/event.go
+++ b/pkg/eventbus/event.go
@@ -39,7 +39,7 @@ func (e Event) Decode(receiver interface{}) error {
 func NewEvent(t EventType, data interface{}) (Event, error) {
 	var b bytes.Buffer
 	if data != nil {
-		gob.Register(data)
+		register(data)
 		enc := gob.NewEncoder(&b)
 		if err := enc.Encode(data); err != nil {
 			return Event{}, fmt.Errorf("failed to create event %s: %v", t, err)
@@ -49,6 +49,13 @@ func NewEvent(t EventType, data interface{}) (Event, error) {
 	return Event{t: t, d: b.Bytes()}, nil
 }
 
+// register makes the type of the data known to gob.  gob panics when the same type is registered both as a value and
+// as a pointer, but either registration is enough to encode the data of an event.
+func register(data interface{}) {
+	defer func() { recover() }()
+	gob.Register(data)
+}
+
 func NewErrorEvent(t EventType, err error) (Event, error) {
 	return NewEvent(t, err)
 }
-- 
2.43.0


From 3f79a7b35b71b3851960058533b916ba768826e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 37/46] fix: reports are given up after 15 minutes instead of
 an hour, and crash the program when answered later

---
 pkg/monny/report.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 6f8e1fc..8a48b98 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -17,6 +17,9 @@ import (
 	"google.golang.org/grpc/credentials"
 )
 
+// sendTimeout limits how long to attempt to send a report
+const sendTimeout = 1 * time.Hour
+
 // ReportSender is an interface for sending reports
 type ReportSender interface {
 	Send(c *Command, reason proto.ReportReason)
@@ -78,7 +81,7 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 
 	result := make(chan error, 1)
 	cancel := make(chan bool, 1)
-	timeout := time.After(1 * time.Hour)
+	timeout := time.After(sendTimeout)
 
 	closeChannels := func() {
 		close(result)
@@ -136,8 +139,10 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 			c.errors.ReportError(err)
 		}
 	case <-timeout:
+		// the channels are left open, the result may still arrive
 		cancel <- true
 		c.errors.ReportError(fmt.Errorf("timeout on background report send: msg=%+v", pb))
+		return
 	}
 	closeChannels()
 }
@@ -176,6 +181,8 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 	}
 	s.wg.Add(1)
 	defer s.wg.Done()
+	ctx, stop := context.WithTimeout(context.Background(), sendTimeout)
+	defer stop()
 	send := func() error {
 		conn, err := grpc.Dial(net.JoinHostPort(s.host, s.port), s.opts...)
 		if err != nil {
@@ -184,7 +191,7 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 		defer conn.Close()
 
 		client := pb.NewReportsClient(conn)
-		ack, err := client.Create(context.Background(), report)
+		ack, err := client.Create(ctx, report)
 		if err != nil {
 			return err
 		}
@@ -193,8 +200,12 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 		}
 		return nil
 	}
+	// by default attempts end after 15 minutes
+	retries := backoff.NewExponentialBackOff()
+	retries.MaxElapsedTime = sendTimeout
+	err := backoff.Retry(send, backoff.WithContext(retries, ctx))
 	select {
-	case result <- backoff.Retry(send, backoff.NewExponentialBackOff()):
+	case result <- err:
 	case <-cancel:
 	}
 }
-- 
2.43.0


From 37e2422038dc5bb80cdee93bd0deaf6fbd7f92a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 38/46] fix: a number out of range in another field hides the
 field of a json rule

---
 pkg/monny/command.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 956a03a..8f62059 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -316,11 +316,13 @@ func extractTextFromJSON(raw []byte, field string) []byte {
 		}
 		return extractTextFromJSON(res[fieldPath[0]], strings.Join(fieldPath[1:], "."))
 	default:
-		res := make(map[string]interface{})
+		// only the named field is decoded, so that numbers out of range in other fields do not matter
+		res := make(map[string]json.RawMessage)
 		if err := json.Unmarshal(raw, &res); err != nil {
 			return []byte{}
 		}
-		value := res[field]
+		var value interface{}
+		json.Unmarshal(res[field], &value)
 
 		switch value.(type) {
 		case string:
-- 
2.43.0


From 9fe7e6cbcca0f36612c282d7a396fd3f4584b207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 39/46] fix: a quoted "null" in the configuration file is
 refused when another option has a list

---
 pkg/monny/parse.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 87f37b6..a70b519 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -176,22 +176,34 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 			options = append(options, opt)
 		// handles the case of a list of rules
 		case interface{}:
-			alt := listFieldsYAML{}
-			if err := yaml.Unmarshal(data, &alt); err != nil {
-				return options, fmt.Errorf("Could not unmarshal config value for key: %s", k)
-			}
 			// only the list of this key, the others are handled on their own
-			var vals []string
+			var vals listYAML
+			var err error
 			switch k {
 			case "rule":
-				vals = alt.Rule
+				alt := struct {
+					List listYAML `yaml:"rule"`
+				}{}
+				err = yaml.Unmarshal(data, &alt)
+				vals = alt.List
 			case "rule-json":
-				vals = alt.JSONRule
+				alt := struct {
+					List listYAML `yaml:"rule-json"`
+				}{}
+				err = yaml.Unmarshal(data, &alt)
+				vals = alt.List
 			case "creates":
-				vals = alt.Creates
+				alt := struct {
+					List listYAML `yaml:"creates"`
+				}{}
+				err = yaml.Unmarshal(data, &alt)
+				vals = alt.List
 			default:
 				return options, fmt.Errorf("Unknown option: %s", k)
 			}
+			if err != nil {
+				return options, fmt.Errorf("Could not unmarshal config value for key: %s", k)
+			}
 			for _, val := range vals {
 				opt, err := handleOption(k, val)
 				if err != nil {
@@ -206,12 +218,6 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 	return options, nil
 }
 
-type listFieldsYAML struct {
-	Rule     listYAML `yaml:"rule"`
-	JSONRule listYAML `yaml:"rule-json"`
-	Creates  listYAML `yaml:"creates"`
-}
-
 // listYAML accepts a single value in place of a list
 type listYAML []string
 
-- 
2.43.0


From 8df480dca71ad3140d3c131fe8e740aee0cd4e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:00 +0000
Subject: [PATCH 40/46] fix: an expected file below a file that is no directory
 is taken as created

---
 pkg/monny/handlers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 2bfe26c..7da217c 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -164,7 +164,8 @@ func handleFileCreation(c *Command) {
 	for _, f := range c.Config.Creates {
 		finfo, err := os.Stat(f)
 		switch {
-		case os.IsNotExist(err):
+		case err != nil && !os.IsPermission(err):
+			// also paths that cannot exist: below a file, through a loop of links, too long
 			c.mutex.Lock()
 			c.Success = false
 			c.Messages = append(c.Messages, fmt.Sprintf("file not created: %s", f))
-- 
2.43.0


From 04a83e8583c706b0be25cecd565c0d335c0bbe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 41/46] fix: do not send the contents of a report with the
 error for a send timeout

---
 pkg/monny/report.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 8a48b98..0897542 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -141,7 +141,8 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 	case <-timeout:
 		// the channels are left open, the result may still arrive
 		cancel <- true
-		c.errors.ReportError(fmt.Errorf("timeout on background report send: msg=%+v", pb))
+		// the report itself may contain private data and is not part of the error
+		c.errors.ReportError(fmt.Errorf("timeout on background report send: reason=%v", pb.ReportReason))
 		return
 	}
 	closeChannels()
-- 
2.43.0


From 553c32e6d2d5d16e57e92b1b0fbaa7f841af8aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 42/46] fix: do not write failures of error reporting into the
 command's stderr

---
 pkg/monny/error.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/monny/error.go b/pkg/monny/error.go
index 176434f..271799a 100644
--- a/pkg/monny/error.go
+++ b/pkg/monny/error.go
@@ -28,6 +28,8 @@ func init() {
 		rollbar.Environment = "production"
 	}
 	rollbar.Token = "8046af1f8781407faad15c1f86c0dccc"
+	// stderr belongs to the output of the command
+	rollbar.ErrorWriter = nil
 }
 
 // ReportError will send the result of an unexpected error to Rollbar
-- 
2.43.0


From be4aec4d4b6d7325aea139252dba81b7eca1af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:13 +0000
Subject: [PATCH 43/46] fix: creating an event from a nil pointer panics

---
 pkg/eventbus/event.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/eventbus/event.go b/pkg/eventbus/event.go
index 9d2edaf..339d3c9 100644
--- a/pkg/eventbus/event.go
+++ b/pkg/eventbus/event.go
@@ -40,8 +40,7 @@ func NewEvent(t EventType, data interface{}) (Event, error) {
 	var b bytes.Buffer
 	if data != nil {
 		register(data)
-		enc := gob.NewEncoder(&b)
-		if err := enc.Encode(data); err != nil {
+		if err := encode(&b, data); err != nil {
 			return Event{}, fmt.Errorf("failed to create event %s: %v", t, err)
 		}
 	}
@@ -49,6 +48,16 @@ func NewEvent(t EventType, data interface{}) (Event, error) {
 	return Event{t: t, d: b.Bytes()}, nil
 }
 
+// encode returns an error for data that gob refuses with a panic, such as a nil pointer
+func encode(b *bytes.Buffer, data interface{}) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+	}()
+	return gob.NewEncoder(b).Encode(data)
+}
+
 // register makes the type of the data known to gob.  gob panics when the same type is registered both as a value and
 // as a pointer, but either registration is enough to encode the data of an event.
 func register(data interface{}) {
-- 
2.43.0


From 9640fe13e225df6cb1d7e623d84d1a8ffdbbb75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:21 +0000
Subject: [PATCH 44/46] fix: events can not be created from errors nor decoded
 into them

---
 pkg/eventbus/event.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/eventbus/event.go b/pkg/eventbus/event.go
index 339d3c9..194f0f9 100644
--- a/pkg/eventbus/event.go
+++ b/pkg/eventbus/event.go
@@ -3,6 +3,7 @@ package eventbus
 import (
 	"bytes"
 	"encoding/gob"
+	"errors"
 	"fmt"
 )
 
@@ -29,6 +30,15 @@ func (e Event) String() string {
 
 func (e Event) Type() EventType { return e.t }
 func (e Event) Decode(receiver interface{}) error {
+	// errors are encoded as their text
+	if r, ok := receiver.(*error); ok {
+		var msg string
+		if err := e.Decode(&msg); err != nil {
+			return err
+		}
+		*r = errors.New(msg)
+		return nil
+	}
 	dec := gob.NewDecoder(bytes.NewReader(e.d))
 	if err := dec.Decode(receiver); err != nil {
 		return fmt.Errorf("failed to decode event %s: %v", e.t, err)
@@ -65,6 +75,11 @@ func register(data interface{}) {
 	gob.Register(data)
 }
 
+// NewErrorEvent passes the text of the error, which most errors are not able to encode themselves.  It can be decoded as
+// an error or as a string.
 func NewErrorEvent(t EventType, err error) (Event, error) {
-	return NewEvent(t, err)
+	if err == nil {
+		return NewEvent(t, nil)
+	}
+	return NewEvent(t, err.Error())
 }
-- 
2.43.0


From 4032bdedbec7f3fa01c07d3957d98f73da0fd1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:13 +0000
Subject: [PATCH 45/46] fix: a report sent while the created files are checked
 claims success

---
 pkg/monny/handlers.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 7da217c..21448c4 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -35,7 +35,6 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 	switch cmd.ProcessState.Success() {
 	case true:
 		c.mutex.Lock()
-		c.Success = true
 		c.ExitCodeValid = true
 		c.ReportReason = proto.Success
 		c.mutex.Unlock()
@@ -52,11 +51,14 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 	}
 
 	// artifacts are checked before reporting, the process was not successful if one of them is missing
-	handleFileCreation(c)
+	created := handleFileCreation(c)
 	switch {
 	case !cmd.ProcessState.Success():
 		c.sendReport(proto.Failure)
-	case c.Success:
+	case created:
+		c.mutex.Lock()
+		c.Success = true
+		c.mutex.Unlock()
 		c.sendReport(proto.Success)
 	}
 	return nil
@@ -159,13 +161,16 @@ func (h handler) KillOnHighMemory(c *Command, cmd *exec.Cmd) error {
 }
 
 // handleFileCreation is called on process completion and checks for the existence of
-// files that should have been created if the configuration includes the created flag.
-func handleFileCreation(c *Command) {
+// files that should have been created if the configuration includes the created flag.  It
+// returns false if one of them is missing.
+func handleFileCreation(c *Command) bool {
+	created := true
 	for _, f := range c.Config.Creates {
 		finfo, err := os.Stat(f)
 		switch {
 		case err != nil && !os.IsPermission(err):
 			// also paths that cannot exist: below a file, through a loop of links, too long
+			created = false
 			c.mutex.Lock()
 			c.Success = false
 			c.Messages = append(c.Messages, fmt.Sprintf("file not created: %s", f))
@@ -184,5 +189,5 @@ func handleFileCreation(c *Command) {
 			continue
 		}
 	}
-	return
+	return created
 }
-- 
2.43.0


From 858e41d9e6cc8ff2ace786b975df013a1a18a632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:26 +0000
Subject: [PATCH 46/46] fix: Poisson generator with rate zero returns -1

---
 pkg/rng/poisson.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/rng/poisson.go b/pkg/rng/poisson.go
index 61163e6..693f728 100644
--- a/pkg/rng/poisson.go
+++ b/pkg/rng/poisson.go
@@ -20,11 +20,14 @@ func (r *PoissonRNG) Rand() float64 {
 	var k int64 = 0
 	var p float64 = 1.0
 
-	for p > L {
+	// at least one number is drawn, the product is not above L from the start when lambda is zero
+	for {
 		k++
 		p = p * r.r.Float64()
+		if p <= L {
+			return float64(k - 1)
+		}
 	}
-	return float64(k - 1)
 }
 
 func NewPoissonRNG(lambda float64) *PoissonRNG {
-- 
2.43.0

