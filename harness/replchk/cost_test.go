package replchk

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/redis"
	"github.com/liujiangwei/xxcache/redis/intset"
	"github.com/liujiangwei/xxcache/redis/lzf"
	"github.com/liujiangwei/xxcache/redis/rdb"
	"github.com/liujiangwei/xxcache/redis/ziplist"
	"github.com/liujiangwei/xxcache/redis/zipmap"

	"verif/harness/gen"
	"verif/harness/kit"
)

// ---- X10

// cost is one operation whose time is taken at two sizes. make prepares size n and returns what is timed, which does
// the operation `times` times.
type cost struct {
	name  string
	small int
	times int // a timing at the small size
	flat  bool
	make  func(n int) func()
}

// memConn is a connection that gives some bytes and takes any.
type memConn struct {
	io.Reader
	net.Conn
}

func (m memConn) Read(b []byte) (int, error)       { return m.Reader.Read(b) }
func (m memConn) Write(b []byte) (int, error)      { return len(b), nil }
func (m memConn) Close() error                     { return nil }
func (m memConn) SetReadDeadline(time.Time) error  { return nil }
func (m memConn) SetWriteDeadline(time.Time) error { return nil }

func costs(r *kit.Run) (l []cost) {
	g := r.Rng(610)
	key := func(i int) string { return "key" + strconv.Itoa(i*7919) }
	// one command beside n keys, all with deadlines
	beside := func(name string, f func(c *cache.Cache, i int)) {
		l = append(l, cost{name + " beside many keys", 500, 400, true, func(n int) func() {
			c := cache.New()
			for i := 0; i < n; i++ {
				if i%3 == 0 {
					_, _ = c.Set(key(i), "v")
				} else {
					_, _ = c.SetEX(key(i), strconv.Itoa(i), 100000)
				}
			}
			_, _ = c.HSet("h", "f", "1")
			_, _ = c.Set("s", "some text")
			_, _ = c.Set("n", "1")
			_, _ = c.Set("x", "1.5")
			return func() {
				for i := 0; i < 400; i++ {
					f(c, i)
				}
			}
		}})
	}
	beside("Get", func(c *cache.Cache, i int) { _, _ = c.Get(key(i)) })
	beside("Get of a missing key", func(c *cache.Cache, i int) { _, _ = c.Get("no" + key(i)) })
	beside("Set", func(c *cache.Cache, i int) { _, _ = c.Set(key(i), "w") })
	beside("Set of a new key", func(c *cache.Cache, i int) { _, _ = c.Set("new"+key(i), "w") })
	beside("SetNX", func(c *cache.Cache, i int) { _, _ = c.SetNX(key(i), "w"); _, _ = c.SetNX("nx"+key(i), "w") })
	beside("SetEX", func(c *cache.Cache, i int) { _, _ = c.SetEX(key(i), "w", 1000) })
	beside("PSetEX", func(c *cache.Cache, i int) { _, _ = c.PSetEX(key(i), "w", 1000000) })
	beside("GetSet", func(c *cache.Cache, i int) { _, _ = c.GetSet(key(i), "w") })
	beside("StrLen", func(c *cache.Cache, i int) { _, _ = c.StrLen(key(i)) })
	beside("GetRange", func(c *cache.Cache, i int) { _, _ = c.GetRange("s", 1, 3) })
	beside("SetRange", func(c *cache.Cache, i int) { _, _ = c.SetRange("s", 1, "xy") })
	beside("Append", func(c *cache.Cache, i int) { _, _ = c.Set("a", "v"); _, _ = c.Append("a", "b") })
	beside("Incr", func(c *cache.Cache, i int) {
		_, _ = c.Incr("n")
		_, _ = c.IncrBy("n", 5)
		_, _ = c.Decr("n")
		_, _ = c.DecrBy("n", 3)
	})
	beside("IncrByFloat", func(c *cache.Cache, i int) { _, _ = c.IncrByFloat("x", 0.5) })
	beside("Exists", func(c *cache.Cache, i int) { c.Exists(key(i), "no", "s") })
	beside("Type", func(c *cache.Cache, i int) { c.Type(key(i)); c.Type("h") })
	beside("Del", func(c *cache.Cache, i int) { c.Del(key(i)); _, _ = c.SetEX(key(i), "v", 100) })
	beside("MSet, MGet, MSetNX", func(c *cache.Cache, i int) {
		c.MSet(map[string]string{"a": "1", "b": "2"})
		c.MSetNX(map[string]string{"a": "1", "b": "2"})
		c.MGet("a", "b", key(i))
	})
	beside("hash commands", func(c *cache.Cache, i int) {
		_, _ = c.HSet("h", "f", "1")
		_, _ = c.HGet("h", "f")
		_, _ = c.HDel("h", "g")
		_, _ = c.HLen("h")
		_, _ = c.HGetAll("h")
	})
	beside("a replicated SET", func(c *cache.Cache, i int) { _ = cache.HandleMessage(c, redis.ConvertToMessage("SET", key(i), "v")) })
	beside("a replicated DEL", func(c *cache.Cache, i int) { _ = cache.HandleMessage(c, redis.ConvertToMessage("DEL", "no"+key(i))) })
	beside("a replicated command that is not followed", func(c *cache.Cache, i int) {
		_ = cache.HandleMessage(c, redis.ConvertToMessage("LPUSH", "no"+key(i), "v"))
	})
	// in a hash of n fields
	in := func(name string, f func(c *cache.Cache, i int)) {
		l = append(l, cost{name + " in a large hash", 500, 400, true, func(n int) func() {
			c := cache.New()
			for i := 0; i < n; i++ {
				_, _ = c.HSet("h", key(i), strconv.Itoa(i))
			}
			return func() {
				for i := 0; i < 400; i++ {
					f(c, i)
				}
			}
		}})
	}
	in("HGet", func(c *cache.Cache, i int) { _, _ = c.HGet("h", key(i)) })
	in("HSet", func(c *cache.Cache, i int) { _, _ = c.HSet("h", key(i), "v") })
	in("HSet of a new field", func(c *cache.Cache, i int) { _, _ = c.HSet("h", "new"+key(i), "v") })
	in("HSetNX", func(c *cache.Cache, i int) { _, _ = c.HSetNX("h", key(i), "v"); _, _ = c.HSetNX("h", "nx"+key(i), "v") })
	in("HExists", func(c *cache.Cache, i int) { _, _ = c.HExists("h", key(i)); _, _ = c.HExists("h", "no") })
	in("HDel", func(c *cache.Cache, i int) { _, _ = c.HDel("h", key(i)); _, _ = c.HSet("h", key(i), "v") })
	in("HLen", func(c *cache.Cache, i int) { _, _ = c.HLen("h") })
	in("HStrLen", func(c *cache.Cache, i int) { _, _ = c.HStrLen("h", key(i)) })
	in("HIncrBy", func(c *cache.Cache, i int) { _, _ = c.HIncrBy("h", "n", 1) })
	in("HIncrByFloat", func(c *cache.Cache, i int) { _, _ = c.HIncrByFloat("h", "x", 0.5) })
	in("HMSet", func(c *cache.Cache, i int) { _, _ = c.HMSet("h", map[string]string{key(i): "1", "b": "2"}) })
	in("HMGet", func(c *cache.Cache, i int) { _, _ = c.HMGet("h", key(i), "b", "no") })
	in("Type and Exists", func(c *cache.Cache, i int) { c.Type("h"); c.Exists("h") })
	in("string commands that are refused", func(c *cache.Cache, i int) {
		_, _ = c.Get("h")
		_, _ = c.Append("h", "x")
		_, _ = c.Incr("h")
		_, _ = c.StrLen("h")
	})
	// n at once
	many := func(name string, small int, f func(n int) func()) { l = append(l, cost{name, small, 1, false, f}) }
	kv := func(n int) (ks []string, m map[string]string) {
		m = map[string]string{}
		for i := 0; i < n; i++ {
			ks = append(ks, key(i))
			m[key(i)] = strconv.Itoa(i)
		}
		return
	}
	filled := func(n int) (*cache.Cache, []string, map[string]string) {
		c := cache.New()
		ks, m := kv(n)
		c.MSet(m)
		_, _ = c.HMSet("h", m)
		return c, ks, m
	}
	many("MSet of many", 500, func(n int) func() { c, _, m := filled(n); return func() { c.MSet(m) } })
	many("MSetNX of many", 500, func(n int) func() { c, _, m := filled(n); return func() { c.Flush(); c.MSetNX(m) } })
	many("MGet of many", 500, func(n int) func() { c, ks, _ := filled(n); return func() { c.MGet(ks...) } })
	many("Exists of many", 500, func(n int) func() { c, ks, _ := filled(n); return func() { c.Exists(ks...) } })
	many("Set of many, one by one", 500, func(n int) func() {
		ks, _ := kv(n)
		return func() {
			c := cache.New()
			for _, k := range ks {
				_, _ = c.Set(k, "v")
			}
		}
	})
	many("Set and Del of many", 500, func(n int) func() {
		ks, _ := kv(n)
		return func() {
			c := cache.New()
			for _, k := range ks {
				_, _ = c.SetEX(k, "v", 100)
			}
			for _, k := range ks {
				c.Del(k)
			}
		}
	})
	many("HSet of many, one by one", 500, func(n int) func() {
		ks, _ := kv(n)
		return func() {
			c := cache.New()
			for _, k := range ks {
				_, _ = c.HSet("h", k, "v")
			}
		}
	})
	many("HDel of many, one by one", 500, func(n int) func() {
		ks, m := kv(n)
		return func() {
			c := cache.New()
			_, _ = c.HMSet("h", m)
			for _, k := range ks {
				_, _ = c.HDel("h", k)
			}
		}
	})
	many("HMSet of many", 500, func(n int) func() { c, _, m := filled(n); return func() { _, _ = c.HMSet("h", m) } })
	many("HMGet of many", 500, func(n int) func() { c, ks, _ := filled(n); return func() { _, _ = c.HMGet("h", ks...) } })
	many("HMSet and HDel of many", 500, func(n int) func() {
		c, ks, m := filled(n)
		return func() { _, _ = c.HMSet("g", m); _, _ = c.HDel("g", ks...) }
	})
	many("HKeys, HVals", 500, func(n int) func() { c, _, _ := filled(n); return func() { _, _ = c.HKeys("h"); _, _ = c.HVals("h") } })
	many("HGetAll", 500, func(n int) func() { c, _, _ := filled(n); return func() { _, _ = c.HGetAll("h") } })
	many("a replicated DEL of many", 500, func(n int) func() {
		c, ks, _ := filled(n)
		m := redis.ConvertToMessage(append([]string{"DEL"}, ks...)...)
		return func() { _ = cache.HandleMessage(c, m) }
	})
	many("a replicated MSET of many", 500, func(n int) func() {
		c, ks, _ := filled(n)
		m := redis.ConvertToMessage(append([]string{"MSET"}, ks...)...)
		return func() { _ = cache.HandleMessage(c, m) }
	})
	long := func(n int) string { return strings.Repeat("0123456789abcdef", n/16) }
	text := func(name string, f func(c *cache.Cache, v string) func()) {
		many(name+", long value", 1<<15, func(n int) func() { c := cache.New(); _, _ = c.Set("s", long(n)); return f(c, long(n)) })
	}
	text("Set and Get", func(c *cache.Cache, v string) func() { return func() { _, _ = c.Set("s", v); _, _ = c.Get("s") } })
	text("Append", func(c *cache.Cache, v string) func() { return func() { _, _ = c.Set("s", v); _, _ = c.Append("s", v) } })
	text("SetRange", func(c *cache.Cache, v string) func() { return func() { _, _ = c.SetRange("s", len(v)/2, v) } })
	text("SetRange of a gap", func(c *cache.Cache, v string) func() {
		return func() { c.Del("t"); _, _ = c.SetRange("t", len(v), "x") }
	})
	text("GetRange and StrLen", func(c *cache.Cache, v string) func() {
		return func() { _, _ = c.GetRange("s", 0, -1); _, _ = c.StrLen("s") }
	})
	text("GetSet", func(c *cache.Cache, v string) func() { return func() { _, _ = c.GetSet("s", v) } })
	text("Incr that is refused", func(c *cache.Cache, v string) func() {
		return func() { _, _ = c.Incr("s"); _, _ = c.IncrByFloat("s", 1) }
	})
	text("HSet and HGet", func(c *cache.Cache, v string) func() {
		return func() { _, _ = c.HSet("h", "f", v); _, _ = c.HGet("h", "f") }
	})
	// messages
	recv := func(name string, small int, f func(n int) string) {
		many("receiving "+name, small, func(n int) func() {
			b := []byte(f(n))
			return func() {
				if _, err := redis.NewConn(memConn{Reader: bytes.NewReader(b)}).Recv(); err != nil {
					r.Violation("a well-formed message is not received", name+": "+err.Error())
				}
			}
		})
	}
	recv("a long bulk string", 1<<15, func(n int) string { return fmt.Sprintf("$%d\r\n%s\r\n", n/16*16, long(n)) })
	recv("a long line", 1<<15, func(n int) string { return "+" + long(n) + "\r\n" })
	recv("a long error", 1<<15, func(n int) string { return "-" + long(n) + "\r\n" })
	recv("an array of many", 500, func(n int) string { return fmt.Sprintf("*%d\r\n%s", n, strings.Repeat("$3\r\nabc\r\n", n)) })
	recv("an array of many numbers", 500, func(n int) string { return fmt.Sprintf("*%d\r\n%s", n, strings.Repeat(":12\r\n", n)) })
	recv("an array of many arrays", 500, func(n int) string { return fmt.Sprintf("*%d\r\n%s", n, strings.Repeat("*2\r\n:1\r\n$-1\r\n", n)) })
	many("receiving many messages", 500, func(n int) func() {
		b := []byte(strings.Repeat("+OK\r\n$3\r\nabc\r\n:12\r\n*1\r\n-ERR\r\n", n))
		return func() {
			c := redis.NewConn(memConn{Reader: bytes.NewReader(b)})
			for i := 0; i < 4*n; i++ {
				if _, err := c.Recv(); err != nil {
					r.Violation("a well-formed message is not received", err.Error())
				}
			}
		}
	})
	many("sending a command of many arguments", 500, func(n int) func() {
		ks, _ := kv(n)
		return func() { _ = redis.NewConn(memConn{}).Send(redis.ConvertToMessage(ks...)) }
	})
	many("sending a long argument", 1<<15, func(n int) func() {
		v := long(n)
		return func() { _ = redis.NewConn(memConn{}).Send(redis.ConvertToMessage("set", "k", v)) }
	})
	many("the text of a message of many", 500, func(n int) func() {
		ks, _ := kv(n)
		m := redis.ConvertToMessage(ks...)
		return func() { _, _ = m.String(), m.Serialize() }
	})
	many("storing a transfer", 1<<15, func(n int) func() {
		b := []byte(fmt.Sprintf("$%d\r\n%s", n/16*16, long(n)))
		return func() { _, _, _ = redis.NewConn(memConn{Reader: bytes.NewReader(b)}).ReadWithWriter(io.Discard) }
	})
	// decoders
	many("LZF of text", 1<<13, func(n int) func() {
		s := string(gen.Compressible(g, n))
		return func() { c := lzf.Compress(s); _ = lzf.DeCompress(c, len(s)) }
	})
	many("LZF of noise", 1<<13, func(n int) func() {
		b := make([]byte, n)
		_, _ = g.Read(b)
		return func() { _ = lzf.Compress(string(b)) }
	})
	many("LZF of one byte", 1<<13, func(n int) func() {
		s := strings.Repeat("x", n)
		return func() { c := lzf.Compress(s); _ = lzf.DeCompress(c, len(s)) }
	})
	elems := func(n int) (e []string) {
		for i := 0; i < n; i++ {
			e = append(e, []string{"element" + strconv.Itoa(i), strconv.Itoa(i * 1000003)}[i%2])
		}
		return
	}
	many("ziplist.Load", 500, func(n int) func() {
		b := string(gen.Ziplist(g, elems(n), gen.Forms{}))
		return func() { ziplist.Load(b) }
	})
	many("intset.Load", 500, func(n int) func() {
		var v []int64
		for i := 0; i < n; i++ {
			v = append(v, int64(i)*1000003)
		}
		b := string(gen.Intset(v, 8))
		return func() { intset.Load(b) }
	})
	many("zipmap.Load", 500, func(n int) func() {
		var p []gen.Pair
		for i := 0; i < n; i++ {
			p = append(p, gen.Pair{F: key(i), V: strconv.Itoa(i)})
		}
		b := string(gen.Zipmap(g, p, func() int { return len(p) % 3 }, gen.Forms{}))
		return func() { zipmap.Load(b) }
	})
	many("rdb.LoadString", 1<<15, func(n int) func() {
		b := gen.RdbString(g, nil, long(n), gen.Forms{})
		return func() { _, _ = rdb.LoadString(bufio.NewReader(bytes.NewReader(b))) }
	})
	load := func(name string, small int, f func(n int) gen.Dataset) {
		many("loading a snapshot of "+name, small, func(n int) func() {
			b := gen.Write(g, gen.Dataset{0: f(n)[0]}, gen.Forms{}, "", 0).B
			path := rdbFile(r)
			if err := os.WriteFile(path, b, 0644); err != nil {
				panic(err)
			}
			return func() {
				repl := &redis.Replication{RdbFile: path, Messages: make(chan redis.ReplicationMessage, 64), Err: make(chan error, 4)}
				drain(repl, func() {
					if err := repl.Load(); err != nil {
						r.Violation("a well-formed snapshot is not loaded", name+": "+err.Error())
					}
				})
			}
		})
	}
	load("many keys", 200, func(n int) gen.Dataset {
		d := map[string]*gen.Val{}
		for i := 0; i < n; i++ {
			d[key(i)] = &gen.Val{Kind: gen.String, Str: "v"}
		}
		return gen.Dataset{0: d}
	})
	for _, k := range []gen.Kind{gen.List, gen.Set, gen.Hash, gen.ZSet} {
		k := k
		load("one large "+k.String(), 200, func(n int) gen.Dataset {
			v := &gen.Val{Kind: k, Hash: map[string]string{}, ZSet: map[string]float64{}}
			for i := 0; i < n; i++ {
				switch k {
				case gen.List, gen.Set:
					v.List = append(v.List, key(i))
				case gen.Hash:
					v.Hash[key(i)] = "v"
				default:
					v.ZSet[key(i)] = float64(i)
				}
			}
			return gen.Dataset{0: {"k": v}}
		})
	}
	return
}

// fastest is the shortest of some timings. What is far over the limit is not waited for again.
func fastest(r *kit.Run, n int, enough time.Duration, f func()) time.Duration {
	best, begin := time.Hour, time.Now()
	for i := 0; i <= n && (i == 0 || time.Since(begin) < enough); i++ {
		t := time.Now()
		f()
		if d := time.Since(t); d < best {
			best = d
		}
		r.Beat()
	}
	return best
}

func runX10(r *kit.Run) {
	const factor = 64
	worst := map[string]float64{}
	l := costs(r)
	for _, c := range l {
		r.Step("X10 " + c.name)
		debug.SetGCPercent(-1)
		limit := float64(factor * 8) // a quadratic cost is 4096 times
		if c.flat {
			limit = 12 // a linear cost would be 64 times
		}
		var ratio float64
		for try := 0; ; try++ {
			runtime.GC()
			small := c.make(c.small)
			large := c.make(c.small * factor)
			a := fastest(r, 8, time.Minute, small) + 2*time.Microsecond
			b := fastest(r, r.N(4, 12), 3*time.Second, large)
			ratio = float64(b) / float64(a)
			if ratio < limit {
				break
			}
			if try == 4 || try == 2 && ratio > 4*limit {
				r.Violation("the time grows faster than the size", fmt.Sprintf("%s: %v at size %d, %v at size %d, several times in a row", c.name, a, c.small, b, c.small*factor))
			}
			time.Sleep(time.Duration(try) * 300 * time.Millisecond) // somebody else may be busy
			r.Beat()
		}
		debug.SetGCPercent(100)
		worst[c.name] = ratio / limit
		r.Count("operations", 1)
		r.Case(c.name, true)
	}
	sort.Slice(l, func(i, j int) bool { return worst[l[i].name] > worst[l[j].name] })
	for _, c := range l[:8] {
		r.Sample(fmt.Sprintf("closest to its limit: %s, %.0f %%", c.name, worst[c.name]*100))
	}
	r.Finish()
}
