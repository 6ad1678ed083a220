package verifdrv

import (
	"context"
	"fmt"
	"os"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/pkg/monny/proc"
)

func init() { runners["ticker"] = runTicker }

// runTicker runs tickers under a fake clock.  cfg.d are the periods; cfg.delay slows the default subscriber down.
func runTicker(t *testing.T, s Script, r *Rec) {
	race := os.Getenv("VERIF_RACE") != ""
	add := func(e J) {
		if !race {
			r.Add(e)
		}
	}
	unit := unitOf(s)
	bubble(t, r, func() {
		b := eventbus.New()
		c, fin := b.Subscribe()
		go func() {
			defer fin()
			for evt := range c {
				var i int
				if n, _ := fmt.Sscanf(string(evt.Type()), "tick%d", &i); n == 1 {
					add(J{"op": "tick", "i": i})
				} else {
					add(J{"op": "other"})
				}
			}
		}()
		tc, tfin := b.Subscribe(eventbus.Topic("unrelated"))
		go func() {
			defer tfin()
			for range tc {
				add(J{"op": "topic"})
			}
		}()
		for i, d := range list(s.Cfg["d"]) {
			proc.NewTicker(time.Duration(num(d))*unit, b, eventbus.EventType(fmt.Sprintf("tick%d", i+1)))
		}
		// the tickers are now running; look just after each unit of time
		synctest.Wait()
		time.Sleep(unit / 2)
		now := 0
		for _, op := range s.Ops {
			switch str(op["op"]) {
			case "adv":
				for i := 0; i < num(op["n"]); i++ {
					add(J{"op": "adv"})
					time.Sleep(unit)
					now++
					if boolean(op["look"]) {
						synctest.Wait()
						add(J{"op": "idle"})
					}
				}
				synctest.Wait()
				add(J{"op": "idle"})
			case "other":
				evt, _ := eventbus.NewEvent(eventbus.EventType("something"), nil)
				for i := 0; i < num(op["n"]); i++ {
					b.Dispatch(evt)
				}
			case "tight":
				// shut down just when the next ticks are due
				add(J{"op": "adv"})
				time.Sleep(unit - unit/2)
			case "shut":
				ctx, cancel := context.WithTimeout(context.Background(), 1000*unit)
				err := b.Shutdown(ctx)
				cancel()
				res := "ok"
				if err != nil {
					res = err.Error()
				}
				add(J{"op": "shut", "res": res})
				synctest.Wait()
			}
		}
		add(J{"op": "left", "n": strings.Count(stacks(), "proc.NewTicker")})
	})
	if race {
		r.Add(J{"op": "race", "res": "none"})
	}
}
