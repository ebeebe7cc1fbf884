//go:build !verif

package replchk

import "time"

func slow(time.Duration) {}
