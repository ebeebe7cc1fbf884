//go:build verif

package replchk

import (
	"sync/atomic"
	"time"

	"github.com/liujiangwei/xxcache/cache"
)

// Every access to the maps of a cache takes slowBy nanoseconds longer.
var slowBy int64

func init() {
	cache.VerifDelay = func(string) {
		if d := atomic.LoadInt64(&slowBy); d > 0 {
			for t := time.Now(); time.Since(t) < time.Duration(d); {
			}
		}
	}
}

func slow(d time.Duration) { atomic.StoreInt64(&slowBy, int64(d)) }
