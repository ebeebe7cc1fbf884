package cachechk

import (
	"fmt"
	"math/rand"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/liujiangwei/xxcache/cache"

	"verif/harness/kit"
)

// What happens at sizes that a test does not reach: thresholds, buffers and batches that somebody may put in.

// bigEdits edits and slices strings of up to tens of megabytes.
func bigEdits(r *kit.Run) {
	g := r.Rng(31)
	sizes := []int{1<<16 - 1, 1<<17 + 1, 1<<20 + 3, 1<<22 + 1, r.N(1<<24+5, 1<<27+1)}
	for _, n := range sizes {
		r.Step(fmt.Sprintf("C02 strings of %d bytes", n))
		b := make([]byte, n)
		g.Read(b)
		v := string(b)
		s := newSeq(r, g)
		k := s.keys[0]
		s.opSet(k, v)
		for _, x := range [][2]int{{0, -1}, {0, n - 1}, {1, n}, {-n, -2}, {n / 2, -1}, {n - 1, n}, {-n - 5, n / 3}, {n, n + 1}, {0, n/2 + 1}, {n - 1, 0}, {n - 3, 5}, {-1, -n}, {-2, 1}, {n / 2, n/2 - 1}, {n + 1, 3}, {n - 2, -n + 1}, {5, -n - 7}, {n / 2, n / 2}} {
			s.opGetRange(k, x[0], x[1])
		}
		s.opAppend(k, "tail")
		s.checkKey(k)
		s.opAppend(k, v[:n/2])
		s.checkKey(k)
		s.opSetRange(k, n/2, "middle")
		s.opSetRange(k, 3, v[n/3:])
		s.opSetRange(k, len(s.m.live(k).str)+n/4, "past the end")
		s.checkKey(k)
		s.opStrLen(k)
		s.opGetSet(k, "short")
		s.opAppend(k, v)
		s.checkKey(k)
		s.opGetRange(k, 4, -1)
		s.opDel(k)
		s.opSetRange(k, n, v[:9])
		s.checkKey(k)
		s.opDel(k)
		// many small appends
		want := 0
		for i := 0; i < 300; i++ {
			p := v[:1+i*n/60000]
			want += len(p)
			if l, err := s.c.Append(k, p); err != nil || l != want {
				r.Violation("Append answers the wrong length", fmt.Sprintf("append %d of up to %d bytes: %d %v, want %d", i, n/200, l, err, want))
			}
			r.Beat()
		}
		var sb strings.Builder
		for i := 0; i < 300; i++ {
			sb.WriteString(v[:1+i*n/60000])
		}
		if got, err := s.c.Get(k); err != nil || got != sb.String() {
			r.Violation("Append lost bytes", fmt.Sprintf("300 appends of up to %d bytes: %d bytes %v, want %d", n/200, len(got), err, sb.Len()))
		}
		r.Case(fmt.Sprint("big edits", n), true)
		runtime.GC()
	}
	r.Max("largest_value", int64(sizes[len(sizes)-1]))
}

// overwrites replaces values by others of the same length that differ in one place only, which a comparison of heads,
// tails, lengths or samples does not tell from the old ones.
func overwrites(r *kit.Run) {
	g := r.Rng(34)
	for _, n := range []int{1, 2, 3, 15, 16, 17, 40, 64, 65, 100, 255, 1000, 4097, 9001, 70001, 1<<20 + 9, r.N(1<<22+3, 1<<25+1)} {
		r.Step(fmt.Sprintf("C01 overwriting %d bytes", n))
		for shape := 0; shape < 3; shape++ {
			b := make([]byte, n)
			switch shape {
			case 0:
				g.Read(b)
			case 1:
				for i := range b {
					b[i] = '0' + byte(i%9+1)%10
				}
			default:
				for i := range b {
					b[i] = 'x'
				}
			}
			next := func(at int) string {
				b[at] = b[at]%9 + '1' // another byte, a digit again
				return string(b)
			}
			// most in the middle, some near the ends
			spots := []int{n / 2, n / 3, n - 1, 0, n / 2, n - 1 - n/9, n / 7, g.Intn(n), g.Intn(n)}
			s := newSeq(r, g)
			k, f := s.keys[0], s.fields[0]
			at := func() int { return spots[g.Intn(len(spots))] }
			s.opSet(k, string(b))
			for _, write := range []func(v string){
				func(v string) { s.opSet(k, v) },
				func(v string) { s.opGetSet(k, v) },
				func(v string) { s.opMSet(map[string]string{k: v, "z": v}) },
				func(v string) { s.opSetEX(k, v, 100, false) },
				func(v string) { s.opSetEX(k, v, 100000, true) },
				func(v string) { s.opSetRange(k, 0, v) },
				func(v string) { s.opSetRange(k, n/4, v[n/4:]) },
				func(v string) { s.opSet(k, v) },
			} {
				for _, i := range []int{n / 2, at()} {
					write(next(i))
					s.checkKey(k)
				}
			}
			s.opDel(k)
			s.opHSet(k, f, string(b))
			for _, write := range []func(v string){
				func(v string) { s.opHSet(k, f, v) },
				func(v string) { s.opHMSet(k, map[string]string{f: v, "g": v}) },
				func(v string) { s.opHSet(k, f, v) },
			} {
				for _, i := range []int{n / 2, at(), at()} {
					write(next(i))
					s.opHGet(k, f)
					s.opHMGet(k, []string{f, "g"})
					s.opHVals(k)
					s.opHGetAll(k)
				}
			}
			// keys and fields that differ in one place only are different
			s.opFlush()
			a := string(b)
			c := next(n / 2)
			s.opSet(a, "1")
			s.opSet(c, "2")
			s.opGet(a)
			s.opGet(c)
			s.opDel(a)
			s.opGet(c)
			s.opHSet("h", a, "1")
			s.opHSet("h", c, "2")
			s.opHGet("h", a)
			s.opHLen("h")
			s.opHDel("h", []string{c})
			s.opHGetAll("h")
			r.Count("overwrites_of_same_length", 25)
			r.Case(fmt.Sprint("overwrites ", n, " ", shape), true)
		}
	}
}

// bigMulti calls the multi-key commands with very many keys.
func bigMulti(r *kit.Run) {
	g := r.Rng(32)
	for _, n := range []int{130, 1100, 17000, r.N(120000, 1100000)} {
		r.Step(fmt.Sprintf("C07 commands on %d keys", n))
		s := newSeq(r, g)
		kv := map[string]string{}
		var ks []string
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("key:%d", i)
			ks = append(ks, k)
			kv[k] = fmt.Sprintf("v%d", i*7)
		}
		dup := func(m map[string]string) map[string]string { // what is passed may be scribbled over
			o := make(map[string]string, len(m))
			for k, v := range m {
				o[k] = v
			}
			return o
		}
		list := func() []string { return append([]string(nil), ks...) }
		s.opMSet(dup(kv))
		s.opMGet(list())
		s.opExists(list())
		s.opExists(append(list(), ks...)) // twice each
		for i := 0; i < n; i += 1 + n/50 {
			s.opDel(ks[i])
		}
		s.opDel(ks[n-1])
		s.opMGet(list())
		s.opExists(list())
		for _, at := range []int{0, n / 2, n - 1} { // one key in the way refuses all
			last := dup(kv)
			s.opFlush()
			s.opSet(ks[at], "in the way")
			s.opMSetNX(last)
			s.opExists(list())
		}
		s.opFlush()
		s.opMSetNX(dup(kv))
		s.opMGet(list())
		for i := range ks {
			kv[ks[i]] = fmt.Sprintf("w%d", i)
		}
		s.opMSet(dup(kv))
		s.opMGet(list())
		s.opHSet("h", "f", "1")
		s.opMGet(append(list(), "h", ks[0]))
		s.opMSet(map[string]string{"h": "1", ks[n-1]: "2"})
		s.opMGet(append(list(), "h"))
		r.Case(fmt.Sprint("multi", n), true)
		r.Max("most_keys_in_a_command", int64(2*n))
	}
}

// bigSweep lets very many keys expire among keys that live on.
func bigSweep(r *kit.Run) {
	n := r.N(600000, 3000000)
	c := cache.New()
	c.Cron()
	pad := strings.Repeat("p", 300)
	r.Step("C05 many keys")
	base := heap()
	for i := 0; i < n; i++ {
		if i%4 != 0 {
			_, _ = c.SetEX(fmt.Sprintf("live:%d", i), "v", 100000)
		} else {
			_, _ = c.PSetEX(fmt.Sprintf("dead:%d", i), pad+fmt.Sprint(i), int64(10000+i%20000))
		}
		if i%1000 == 0 {
			r.Beat()
		}
	}
	full := heap() - base
	time.Sleep(31*time.Second + sweepSlack)
	synctest.Wait()
	left := heap() - base
	dead := (n + 3) / 4
	// four fifths of what the dead held
	limit := full - int64(dead)*350*4/5
	if left > limit {
		r.Violation("the memory of expired keys is not released by the sweeper", fmt.Sprintf("%d keys of which %d expire: %d bytes before, %d after they expired, want at most %d", n, dead, full, left, limit))
	}
	for i := 0; i < n; i++ {
		if i%4 != 0 {
			if v, err := c.Get(fmt.Sprintf("live:%d", i)); err != nil || v != "v" {
				r.Violation("the sweeper removed a key whose expiry lies in the future", fmt.Sprint(i, v, err))
			}
		} else if i%16 == 0 {
			if c.Exists(fmt.Sprintf("dead:%d", i)) != 0 {
				r.Violation("an expired key exists after the sweep", fmt.Sprint(i))
			}
		}
		if i%1000 == 0 {
			r.Beat()
		}
	}
	r.Count("swept_bytes", full-left)
	r.Max("keys_in_a_sweep", int64(n))
	r.Case("many keys", true)
	c.Flush()
	runtime.KeepAlive(c)
}

// manyRace runs commands on tens of thousands of keys against small ones on some of the same keys.
func manyRace(r *kit.Run) {
	hookDelays(false)
	g := r.Rng(33)
	n := r.N(30000, 200000)
	ks := make([]string, n)
	for i := range ks {
		ks[i] = fmt.Sprint("key:", i)
	}
	all := func(v string) map[string]string {
		kv := make(map[string]string, n)
		for _, k := range ks {
			kv[k] = v
		}
		return kv
	}
	some := func(g *rand.Rand, m int) (l []string) {
		for i := 0; i < m; i++ {
			l = append(l, ks[g.Intn(n)])
		}
		return l
	}
	c := cache.New()
	for round := 1; round <= r.N(10, 60); round++ {
		r.Step(fmt.Sprintf("C07 many keys, round %d", round))
		c.MSet(all("before"))
		kv := all(fmt.Sprint(round))
		var stop, whole int32
		together(r, P, func(p int) {
			if p == 0 {
				time.Sleep(time.Millisecond)
				c.MSet(kv)
				atomic.StoreInt32(&stop, 1)
				return
			}
			g := rand.New(rand.NewSource(r.Seed*1000 + int64(round*100+p)))
			for last := false; !last; {
				last = atomic.LoadInt32(&stop) != 0
				l := entries(c.MGet(some(g, 60)...))
				for _, x := range l {
					if x != l[0] {
						r.Violation("MGet saw part of a multi-key write", fmt.Sprintf("of %d keys: %s", n, strings.Join(l, " ")))
					}
				}
				atomic.AddInt32(&whole, 1)
			}
		})
		r.Count("mget_snapshots", int64(whole))
		// MSetNX of all against SetNX, Set and Del of single ones
		for try := 0; try < 3; try++ {
			c.Flush()
			kv := all("all")
			var set, won int32
			wait := time.Duration(g.Intn(8000)) * time.Microsecond
			how := g.Intn(3)
			together(r, P, func(p int) {
				g := rand.New(rand.NewSource(r.Seed*7000 + int64(round*100+p*10+try)))
				if p == 0 {
					if try == 2 {
						time.Sleep(wait / 20)
					}
					won = int32(c.MSetNX(kv))
					return
				}
				if try != 2 {
					time.Sleep(wait)
				}
				for i := 0; i < 60; i++ {
					k := ks[g.Intn(n)]
					switch how {
					case 0:
						if x, _ := c.SetNX(k, "one"); x == 1 {
							atomic.AddInt32(&set, 1)
						}
					case 1:
						_, _ = c.Set(k, "one")
					default:
						_, _ = c.Append(k, "one")
					}
				}
			})
			held := c.Exists(ks...)
			switch {
			case won != 0 && won != int32(n):
				r.Violation("MSetNX set some of its keys", fmt.Sprintf("%d of %d", won, n))
			case won != 0 && set != 0:
				r.Violation("MSetNX and SetNX of one of its keys both set it", fmt.Sprintf("%d, %d keys set by SetNX", won, set))
			case won != 0 && held != n, won == 0 && held > 60*P:
				r.Violation("MSetNX set keys it did not report", fmt.Sprintf("reported %d, %d exist", won, held))
			case how == 0 && won == 0 && held != int(set):
				r.Violation("MSetNX that returned 0 changed something", fmt.Sprintf("%d keys exist, %d were set", held, set))
			}
			for _, v := range entries(c.MGet(ks...)) {
				if won == 0 && strings.Contains(v, "all") {
					r.Violation("MSetNX that returned 0 set a key", v)
				}
			}
			if won != 0 {
				r.Count("msetnx_of_all_won", 1)
			} else {
				r.Count("msetnx_of_all_lost", 1)
			}
		}
		r.Case(fmt.Sprint("many keys ", round), true)
	}
}

// busySweep: the sweeper gets its turn however busy the cache is.
func busySweep(r *kit.Run) {
	c := cache.New()
	base := heap()
	c.Cron()
	begin := time.Now()
	n := 40000
	pad := strings.Repeat("p", 500)
	for i := 0; i < n; i++ {
		_, _ = c.PSetEX(fmt.Sprint("dead:", i), pad+fmt.Sprint(i), 700)
	}
	full := heap() - base
	var stop int32
	var ops int64
	_ = time.AfterFunc(time.Until(begin.Add(7*time.Second)), func() { atomic.StoreInt32(&stop, 1) })
	r.Step("C05 a busy cache")
	together(r, 2*P, func(p int) {
		k := fmt.Sprint("busy:", p)
		for i := 0; atomic.LoadInt32(&stop) == 0; i++ {
			switch (p + i) % 3 {
			case 0:
				_, _ = c.Set(k, "v")
			case 1:
				_, _ = c.Get(k)
			default:
				_ = c.Exists(k)
			}
			atomic.AddInt64(&ops, 1)
		}
	})
	left := heap() - base
	if took := time.Since(begin); took < 7800*time.Millisecond && left > full/2 {
		r.Violation("the memory of expired keys is not released by the sweeper", fmt.Sprintf("with %d commands going on: %d bytes before, %d after three sweeps", ops, full, left))
	} else if took < 7800*time.Millisecond {
		r.Count("sweeps_of_a_busy_cache", 1)
	}
	r.Count("commands_while_sweeping", ops)
	r.Case("busy", true)
	c.Flush()
}

// bigStress: the conservation laws with values, increments and hashes of every size, as a shortcut or a lock given up
// for something long may be taken at some size only.
func bigStress(r *kit.Run) {
	per := 60
	for round := 0; round < r.N(4, 60); round++ {
		hookDelays(round%3 != 0)
		r.Step(fmt.Sprintf("C06 sizes, round %d", round))
		c := cache.New()
		for i, start := range []int{0, 1, 1 << 15, 1<<31 - 50, 1 << 33, -(1 << 40), 1<<53 - 100, 1 << 61} {
			for j, step := range []int64{1, 100, 1 << 16, 1<<21 + 1, 1 << 33, 1<<51 + 7} {
				k := fmt.Sprintf("n%d.%d", i, j)
				_, _ = c.Set(k, strconv.Itoa(start))
				var seen sync.Map
				together(r, P, func(p int) {
					for x := 0; x < per; x++ {
						var n int
						var err error
						switch {
						case step == 1 && (x+p)%2 == 0:
							n, err = c.Incr(k)
						case (x+p)%3 == 0:
							n, err = c.DecrBy(k, -step)
						default:
							n, err = c.IncrBy(k, step)
						}
						if err != nil {
							r.Violation("a concurrent increment failed", err.Error())
						}
						if _, dup := seen.LoadOrStore(n, p); dup {
							r.Violation("two increments returned the same sum", fmt.Sprintf("%d, from %d by %d", n, start, step))
						}
					}
				})
				if v, _ := c.Get(k); v != strconv.Itoa(start+P*per*int(step)) {
					r.Violation("increments were lost", fmt.Sprintf("%d and %d x %d: %s", start, P*per, step, v))
				}
			}
		}
		for _, step := range []float64{0.25, 1, 1024.5, 1 << 30, -3.5} {
			k := fmt.Sprint("f", step)
			_, _ = c.Set(k, "1000000.5")
			together(r, P, func(p int) {
				for x := 0; x < per; x++ {
					_, _ = c.IncrByFloat(k, step)
				}
			})
			if v, _ := c.Get(k); v != strconv.FormatFloat(1000000.5+step*float64(P*per), 'f', -1, 64) {
				r.Violation("float increments were lost", fmt.Sprintf("by %v: %s", step, v))
			}
		}
		// the first increment of a number that is kept as a text, as the later ones find a number
		for i := 0; i < 400; i++ {
			k := fmt.Sprint("t", i)
			text := []string{"1.50", "01.5", "1.5e0", "+1.5", strings.Repeat("0", 900) + "1.5", "15e-1"}[i%6]
			_, _ = c.Set(k, text)
			together(r, P, func(p int) { _, _ = c.IncrByFloat(k, 0.5) })
			if v, _ := c.Get(k); v != "5.5" {
				r.Violation("float increments were lost", fmt.Sprintf("%d of 0.5 to %.20s: %s", P, text, v))
			}
		}
		for _, size := range []int{0, 900, 9000, 40000, 70000, 300000, 1100000} {
			for _, tok := range []int{8, 1500} {
				// appends
				n := 12 + 20000/(size/10+100)
				k := fmt.Sprintf("a%d.%d", size, tok)
				_, _ = c.Set(k, strings.Repeat("s", size))
				pad := strings.Repeat("-", tok)
				var seen sync.Map
				together(r, P, func(p int) {
					for i := 0; i < n; i++ {
						l, err := c.Append(k, fmt.Sprintf("<%d.%03d%s>", p, i, pad))
						if _, dup := seen.LoadOrStore(l, true); err != nil || dup {
							r.Violation("an append is lost, doubled or out of order", fmt.Sprintf("to %d bytes: length %d twice, %v", size, l, err))
						}
					}
				})
				v, _ := c.Get(k)
				if len(v) != size+P*n*(7+tok) || !strings.HasPrefix(v, strings.Repeat("s", size)) {
					r.Violation("an append is lost, doubled or out of order", fmt.Sprintf("to %d bytes: %d bytes after %d appends of %d", size, len(v), P*n, 7+tok))
				}
				for p := 0; p < P; p++ {
					at := 0
					for i := 0; i < n; i++ {
						x := strings.Index(v[at:], fmt.Sprintf("<%d.%03d%s>", p, i, pad))
						if x < 0 {
							r.Violation("an append is lost, doubled or out of order", fmt.Sprintf("<%d.%d to %d bytes", p, i, size))
						}
						at += x + 1
					}
				}
				// edits in place, each at places of its own
				k = fmt.Sprintf("r%d.%d", size, tok)
				n = 8
				_, _ = c.Set(k, strings.Repeat(".", size))
				gap := size / (P * n)
				if gap < 3 {
					gap = 3
				}
				together(r, P, func(p int) {
					for i := 0; i < n; i++ {
						_, _ = c.SetRange(k, (i*P+p)*gap, string(rune('a'+p))+string(rune('A'+i)))
					}
				})
				v, _ = c.Get(k)
				for p := 0; p < P; p++ {
					for i := 0; i < n; i++ {
						at := (i*P + p) * gap
						if at+2 > len(v) || v[at] != byte('a'+p) || v[at+1] != byte('A'+i) {
							r.Violation("a concurrent SetRange was lost", fmt.Sprintf("at %d of %d bytes", at, size))
						}
					}
				}
				// values taken out by GetSet
				k = fmt.Sprintf("g%d.%d", size, tok)
				big := strings.Repeat("v", size)
				_, _ = c.Set(k, "first")
				var outs sync.Map
				together(r, P, func(p int) {
					for i := 0; i < n; i++ {
						old, err := c.GetSet(k, fmt.Sprintf("%d.%d%s", p, i, big))
						if err != nil {
							r.Violation("GetSet failed", err.Error())
						}
						if len(old) > 20 {
							old = old[:20]
						}
						if _, dup := outs.LoadOrStore(old, true); dup {
							r.Violation("two GetSet calls returned the same old value", old)
						}
					}
				})
				var wins int32
				together(r, P, func(p int) {
					x, _ := c.SetNX(k+"nx", fmt.Sprint(p, big))
					atomic.AddInt32(&wins, int32(x))
				})
				if wins != 1 {
					r.Violation("competing SetNX calls on an absent key", fmt.Sprintf("%d winners, values of %d bytes", wins, size))
				}
				c.Flush()
			}
		}
		r.Case(fmt.Sprintf("sizes %d", round), true)
		r.Count("stress_of_sizes", 1)
	}
	hookDelays(false)
}

func bigHashStress(r *kit.Run) {
	for round := 0; round < r.N(4, 60); round++ {
		hookDelays(round%3 != 0)
		r.Step(fmt.Sprintf("C09 sizes, round %d", round))
		c := cache.New()
		per := 40
		for _, size := range []int{0, 40, 300, 3000} {
			k := fmt.Sprint("h", size)
			fv := map[string]string{}
			for i := 0; i < size; i++ {
				fv[fmt.Sprint("old", i)] = fmt.Sprint(i)
			}
			_, _ = c.HMSet(k, fv)
			fields := size
			for i, start := range []int{0, 1<<31 - 50, 1 << 33, -(1 << 40), 1<<53 - 100, 1 << 61} {
				for j, step := range []int{1, 1 << 21, 1 << 33, -(1 << 20)} {
					f := fmt.Sprintf("n%d.%d", i, j)
					_, _ = c.HSet(k, f, strconv.Itoa(start))
					fields++
					together(r, P, func(p int) {
						for x := 0; x < per; x++ {
							if _, err := c.HIncrBy(k, f, step); err != nil {
								r.Violation("a concurrent increment failed", err.Error())
							}
						}
					})
					if v, _ := c.HGet(k, f); v != strconv.Itoa(start+P*per*step) {
						r.Violation("hash increments were lost", fmt.Sprintf("%d and %d x %d: %s", start, P*per, step, v))
					}
				}
			}
			for _, step := range []float64{0.25, 1024.5, 1 << 30, -3.5} {
				f := fmt.Sprint("f", step)
				_, _ = c.HSet(k, f, "1000000.5")
				fields++
				together(r, P, func(p int) {
					for x := 0; x < per; x++ {
						_, _ = c.HIncrByFloat(k, f, step)
					}
				})
				if v, _ := c.HGet(k, f); v != strconv.FormatFloat(1000000.5+step*float64(P*per), 'f', -1, 64) {
					r.Violation("hash increments were lost", fmt.Sprintf("by %v: %s", step, v))
				}
			}
			// everyone adds fields of its own and competes for others
			var added, won int32
			long := strings.Repeat("l", 70000)
			together(r, P, func(p int) {
				for x := 0; x < 60; x++ {
					v := "v"
					if x%20 == 0 {
						v = long
					}
					var n int
					switch x % 3 {
					case 0:
						n, _ = c.HSet(k, fmt.Sprintf("own%d.%d", p, x), v)
					case 1:
						n, _ = c.HMSet(k, map[string]string{fmt.Sprintf("own%d.%d", p, x): v})
					default:
						n, _ = c.HSetNX(k, fmt.Sprintf("own%d.%d", p, x), v)
					}
					atomic.AddInt32(&added, int32(n))
					n, _ = c.HSetNX(k, fmt.Sprint("shared", x), v)
					atomic.AddInt32(&won, int32(n))
				}
			})
			fields += P*60 + 60
			if n, _ := c.HLen(k); won != 60 || added != P*60 || n != fields {
				r.Violation("fields written together are lost or counted twice", fmt.Sprintf("%d of 60 won, %d of %d added, HLen %d, want %d", won, added, P*60, n, fields))
			}
			// everyone removes all of many fields
			var all []string
			for x := 0; x < 60; x++ {
				all = append(all, fmt.Sprint("shared", x))
				for p := 0; p < P; p++ {
					all = append(all, fmt.Sprintf("own%d.%d", p, x))
				}
			}
			var gone int32
			together(r, P, func(p int) {
				n, _ := c.HDel(k, all...)
				atomic.AddInt32(&gone, int32(n))
			})
			fields -= len(all)
			m, _ := c.HGetAll(k)
			if n, _ := c.HLen(k); int(gone) != len(all) || n != fields || len(m) != fields {
				r.Violation("competing HDel calls", fmt.Sprintf("%d of %d reported removed, HLen %d, %d fields, want %d", gone, len(all), n, len(m), fields))
			}
		}
		// all of many fields are removed while others are written: what was written is there
		for i := 0; i < 60; i++ {
			n := []int{2, 20, 100, 300, 900}[i%5]
			k := fmt.Sprint("r", i)
			fv := map[string]string{}
			var all []string
			for x := 0; x < n; x++ {
				all = append(all, fmt.Sprint("old", x))
				fv[all[x]] = "1"
			}
			_, _ = c.HMSet(k, fv)
			var added int32
			together(r, P, func(p int) {
				if p == 0 {
					_, _ = c.HDel(k, all...)
					return
				}
				time.Sleep(time.Duration(p*i%7*n/20) * time.Microsecond)
				var n int
				f := fmt.Sprint("new", p)
				switch (p + i) % 5 {
				case 0:
					n, _ = c.HSet(k, f, "7")
				case 1:
					n, _ = c.HSetNX(k, f, "7")
				case 2:
					n, _ = c.HMSet(k, map[string]string{f: "7"})
				case 3:
					n, _ = c.HIncrBy(k, f, 7)
					n /= 7
				default:
					f, _ := c.HIncrByFloat(k, f, 7)
					n = int(f) / 7
				}
				atomic.AddInt32(&added, int32(n))
			})
			m, _ := c.HGetAll(k)
			for p := 1; p < P; p++ {
				if m[fmt.Sprint("new", p)] != "7" {
					r.Violation("a field written while all others were removed is lost", fmt.Sprintf("of %d, fields left: %v", n, m))
				}
			}
			if l, _ := c.HLen(k); added != P-1 || l != P-1 || len(m) != P-1 {
				r.Violation("fields written while all others were removed are counted wrong", fmt.Sprintf("%d new ones, HLen %d, %d fields", added, l, len(m)))
			}
		}
		r.Case(fmt.Sprintf("sizes %d", round), true)
		r.Count("stress_of_sizes", 1)
	}
	hookDelays(false)
}
