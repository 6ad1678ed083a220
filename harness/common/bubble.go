package verifdrv

import (
	"testing"
	"testing/synctest"
	"time"
)

// bubble runs f under a fake clock
func bubble(t *testing.T, r *Rec, f func()) {
	if p := r.Catch(func() {
		synctest.Test(t, func(t *testing.T) {
			if p := r.Catch(f); p != "" {
				r.Add(J{"op": "panic", "res": p})
			}
		})
	}); p != "" {
		r.Add(J{"op": "panic", "res": p})
	}
}

func unitOf(s Script) time.Duration {
	if u := num(s.Cfg["unit"]); u > 0 {
		return time.Duration(u)
	}
	return time.Second
}
