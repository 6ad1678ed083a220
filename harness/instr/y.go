package PKG

import (
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"time"
)

// the longest sleep in microseconds
var verifSleep = func() uint64 {
	n, err := strconv.Atoi(os.Getenv("VERIF_YSLEEP"))
	if err != nil {
		return 0
	}
	return uint64(n)
}()

// verifY perturbs the schedule.  It takes no locks and orders nothing.
func verifY() {
	x := rand.Uint64()
	switch x % 8 {
	case 0, 1:
		runtime.Gosched()
	case 2:
		for i := uint64(0); i < (x>>8)%20; i++ {
			runtime.Gosched()
		}
	case 3:
		if verifSleep > 0 && (x>>32)%8 == 0 {
			time.Sleep(time.Duration((x>>8)%verifSleep) * time.Microsecond)
		}
	}
}
