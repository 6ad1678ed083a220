package verifdrv

import (
	"os"
	"sort"
	"sync"
	"sync/atomic"
)

// object is a concurrent object under test: it applies an operation and returns its result as integers
type object func(f string, v int) []int

// runLin runs the phases of a script: "par" runs the operations of several goroutines at the same time and
// records when each started and ended, any other operation is handed to other.
func runLin(s Script, r *Rec, obj object, other func(op J) bool) {
	race := os.Getenv("VERIF_RACE") != ""
	var seq int64
	var k int64
	for _, op := range s.Ops {
		if str(op["op"]) != "par" {
			if other(op) && !race {
				r.Add(op)
			}
			continue
		}
		type event struct {
			at int64
			e  J
		}
		threads := list(op["threads"])
		logs := make([][]event, len(threads))
		panics := make([]string, len(threads))
		var wg sync.WaitGroup
		start := make(chan bool)
		for i, th := range threads {
			i, th := i, th
			wg.Add(1)
			go func() {
				defer wg.Done()
				panics[i] = r.Catch(func() {
					<-start
					for _, o := range list(th) {
						f, v := str(o.(J)["f"]), num(o.(J)["v"])
						if race {
							obj(f, v)
							continue
						}
						id := int(atomic.AddInt64(&k, 1))
						logs[i] = append(logs[i], event{atomic.AddInt64(&seq, 1), J{"op": "call", "k": id, "f": f, "v": v}})
						res := obj(f, v)
						logs[i] = append(logs[i], event{atomic.AddInt64(&seq, 1), J{"op": "ret", "k": id, "res": res}})
					}
				})
			}()
		}
		close(start)
		wg.Wait()
		var all []event
		for _, l := range logs {
			all = append(all, l...)
		}
		sort.Slice(all, func(i, j int) bool { return all[i].at < all[j].at })
		for _, e := range all {
			r.Add(e.e)
		}
		for _, p := range panics {
			if p != "" {
				r.Add(J{"op": "panic", "res": p})
			}
		}
	}
	if race {
		r.Add(J{"op": "race", "res": "none"})
	}
}
