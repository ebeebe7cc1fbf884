//go:build verif

package cachechk

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/liujiangwei/xxcache/cache"
)

var hookCalls int64

// hookDelays makes the map accesses of the cache slow at random, so that commands overlap inside.
func hookDelays(on bool) {
	if !on {
		cache.VerifDelay = nil
		return
	}
	cache.VerifDelay = func(op string) {
		atomic.AddInt64(&hookCalls, 1)
		switch x := rand.Uint32(); {
		case x&3 == 0:
			runtime.Gosched()
		case x&31 == 1:
			t := time.Now()
			d := time.Duration(x>>8&15) * time.Microsecond
			for time.Since(t) < d {
			}
		case x&511 == 2:
			time.Sleep(20 * time.Microsecond)
		}
	}
}

// hookSlow makes some map accesses take longer than the millisecond after which a Go mutex passes the lock on to
// those who wait, so that a command that takes the lock twice has others in between.
func hookSlow(g uint32) {
	cache.VerifDelay = func(op string) {
		atomic.AddInt64(&hookCalls, 1)
		if rand.Uint32()&1 == g&1 {
			time.Sleep(1200 * time.Microsecond)
		}
	}
}

func hookCount() int64 { return atomic.LoadInt64(&hookCalls) }
