package racechk

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache"
	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/redis"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/master"
	. "verif/harness/resp"
)

func TestCheck(t *testing.T) {
	r := kit.Start("one evaluation per pair of commands run against each other, or per storm, under the race detector; distinct by the pair, the state of the keys and what overlapped", 60*time.Second)
	r.Guard(func() { run(r) })
}

func within(r *kit.Run, d time.Duration, what string, f func()) {
	done := make(chan struct{})
	go func() {
		r.Guard(f)
		close(done)
	}()
	select {
	case <-done:
		r.Beat()
	case <-time.After(d):
		r.Violation("a deadlock: does not return", fmt.Sprintf("%s: nothing after %v\n%s", what, d, kit.Stacks()))
	}
}

type op struct {
	name string
	f    func(c *cache.Cache, g *rand.Rand)
}

func key(g *rand.Rand) string   { return [...]string{"a", "b", "c"}[g.Intn(3)] }
func field(g *rand.Rand) string { return [...]string{"f", "g"}[g.Intn(2)] }

// callers own what they pass and what they get back, and change it afterwards
func scribble(l []interface{}) {
	for i := range l {
		l[i] = nil
	}
}

func msg(a ...string) redis.Message {
	c := redis.NewBaseCommand(a...)
	return c.Serialize()
}

var ops = []op{
	{"Set", func(c *cache.Cache, g *rand.Rand) { _, _ = c.Set(key(g), "7") }},
	{"SetNX", func(c *cache.Cache, g *rand.Rand) { _, _ = c.SetNX(key(g), "3") }},
	{"SetEX", func(c *cache.Cache, g *rand.Rand) { _, _ = c.SetEX(key(g), "5", 1) }},
	{"PSetEX", func(c *cache.Cache, g *rand.Rand) { _, _ = c.PSetEX(key(g), "5", 1+int64(g.Intn(3))) }},
	{"Get", func(c *cache.Cache, g *rand.Rand) { _, _ = c.Get(key(g)) }},
	{"GetSet", func(c *cache.Cache, g *rand.Rand) { _, _ = c.GetSet(key(g), "8") }},
	{"StrLen", func(c *cache.Cache, g *rand.Rand) { _, _ = c.StrLen(key(g)) }},
	{"Append", func(c *cache.Cache, g *rand.Rand) { _, _ = c.Append(key(g), "1") }},
	{"SetRange", func(c *cache.Cache, g *rand.Rand) { _, _ = c.SetRange(key(g), g.Intn(9), "12") }},
	{"GetRange", func(c *cache.Cache, g *rand.Rand) { _, _ = c.GetRange(key(g), 0, -1) }},
	{"Incr", func(c *cache.Cache, g *rand.Rand) { _, _ = c.Incr(key(g)) }},
	{"IncrBy", func(c *cache.Cache, g *rand.Rand) { _, _ = c.IncrBy(key(g), 5) }},
	{"IncrByFloat", func(c *cache.Cache, g *rand.Rand) { _, _ = c.IncrByFloat(key(g), 0.5) }},
	{"Decr", func(c *cache.Cache, g *rand.Rand) { _, _ = c.Decr(key(g)) }},
	{"DecrBy", func(c *cache.Cache, g *rand.Rand) { _, _ = c.DecrBy(key(g), 5) }},
	{"MSet", func(c *cache.Cache, g *rand.Rand) {
		m := map[string]string{"a": "1", key(g): "2"}
		c.MSet(m)
		m["a"] = "changed"
	}},
	{"MSetNX", func(c *cache.Cache, g *rand.Rand) {
		m := map[string]string{key(g): "1", key(g): "2"}
		c.MSetNX(m)
		m["a"] = "changed"
	}},
	{"MGet", func(c *cache.Cache, g *rand.Rand) {
		ks := []string{"a", "b", "c"}
		scribble(c.MGet(ks...))
		ks[0] = "z"
	}},
	{"Del", func(c *cache.Cache, g *rand.Rand) { c.Del(key(g)) }},
	{"Exists", func(c *cache.Cache, g *rand.Rand) { c.Exists("a", "b", "c") }},
	{"Type", func(c *cache.Cache, g *rand.Rand) { c.Type(key(g)) }},
	{"Flush", func(c *cache.Cache, g *rand.Rand) { c.Flush() }},
	{"HSet", func(c *cache.Cache, g *rand.Rand) { _, _ = c.HSet(key(g), field(g), "1") }},
	{"HSetNX", func(c *cache.Cache, g *rand.Rand) { _, _ = c.HSetNX(key(g), field(g), "2") }},
	{"HGet", func(c *cache.Cache, g *rand.Rand) { _, _ = c.HGet(key(g), field(g)) }},
	{"HExists", func(c *cache.Cache, g *rand.Rand) { _, _ = c.HExists(key(g), field(g)) }},
	{"HDel", func(c *cache.Cache, g *rand.Rand) {
		fs := []string{"f", "g"}[:1+g.Intn(2)]
		_, _ = c.HDel(key(g), fs...)
		fs[0] = "z"
	}},
	{"HLen", func(c *cache.Cache, g *rand.Rand) { _, _ = c.HLen(key(g)) }},
	{"HStrLen", func(c *cache.Cache, g *rand.Rand) { _, _ = c.HStrLen(key(g), field(g)) }},
	{"HIncrBy", func(c *cache.Cache, g *rand.Rand) { _, _ = c.HIncrBy(key(g), field(g), 3) }},
	{"HIncrByFloat", func(c *cache.Cache, g *rand.Rand) { _, _ = c.HIncrByFloat(key(g), field(g), 0.25) }},
	{"HMSet", func(c *cache.Cache, g *rand.Rand) {
		m := map[string]string{"f": "1", "g": "2"}
		_, _ = c.HMSet(key(g), m)
		m["f"] = "changed"
		delete(m, "g")
	}},
	{"HMGet", func(c *cache.Cache, g *rand.Rand) {
		fs := []string{"f", "g"}
		l, _ := c.HMGet(key(g), fs...)
		scribble(l)
		fs[0] = "z"
	}},
	{"HKeys", func(c *cache.Cache, g *rand.Rand) { l, _ := c.HKeys(key(g)); lend(l) }},
	{"HVals", func(c *cache.Cache, g *rand.Rand) { l, _ := c.HVals(key(g)); lend(l) }},
	{"HGetAll", func(c *cache.Cache, g *rand.Rand) { l, _ := c.HGetAll(key(g)); lend(l) }},
	{"replicated set", func(c *cache.Cache, g *rand.Rand) { _ = cache.HandleMessage(c, msg("SET", key(g), "9")) }},
	{"replicated command", func(c *cache.Cache, g *rand.Rand) { _ = cache.HandleMessage(c, msg("lpush", key(g), "9")) }},
	{"replicated flush", func(c *cache.Cache, g *rand.Rand) { _ = cache.HandleMessage(c, msg("flushall")) }},
}

func lend(v interface{}) {
	switch l := v.(type) {
	case map[string]string:
		for k := range l {
			l[k] = "x"
		}
	case []string:
		for i := range l {
			l[i] = ""
		}
	}
}

// prepare puts the keys into one of several states
func prepare(c *cache.Cache, state int) {
	c.Flush()
	switch state {
	case 1:
		for _, k := range []string{"a", "b", "c"} {
			_, _ = c.Set(k, "10")
		}
	case 2:
		for _, k := range []string{"a", "b", "c"} {
			_, _ = c.HMSet(k, map[string]string{"f": "1", "g": "2", "h": "x"})
		}
	case 3: // on the point of expiring
		for _, k := range []string{"a", "b", "c"} {
			_, _ = c.PSetEX(k, "1", 1)
		}
	case 4:
		_, _ = c.Set("a", "x")
		_, _ = c.HSet("b", "f", "1")
		_, _ = c.PSetEX("c", "1", 1)
	}
}

func run(r *kit.Run) {
	g := r.Rng(11)
	caches := make([]*cache.Cache, 4)
	for i := range caches {
		caches[i] = cache.New()
		caches[i].Cron()
	}
	caches[0].Cron() // two sweepers

	// every pair of commands against each other
	n := 0
	for i := range ops {
		for j := i; j < len(ops); j++ {
			for state := 0; state < 5; state++ {
				for rep := 0; rep < r.N(2, 20); rep++ {
					what := fmt.Sprintf("%s against %s, keys in state %d", ops[i].name, ops[j].name, state)
					if rep == 0 {
						r.Step("C11 " + what)
					}
					c := caches[n%len(caches)]
					n++
					prepare(c, state)
					var start, end sync.WaitGroup
					start.Add(1)
					for p, k := range []int{i, j, i, j} {
						end.Add(1)
						go func(p, k int) {
							defer end.Done()
							h := rand.New(rand.NewSource(int64(n*4 + p)))
							start.Wait()
							r.Guard(func() {
								for q := 0; q < 4; q++ {
									ops[k].f(c, h)
								}
							})
						}(p, k)
					}
					start.Done()
					wait(r, &end, what)
					r.Case(what, true)
				}
			}
		}
	}
	r.Count("pairs", int64(len(ops)*(len(ops)+1)/2))
	r.Sample(fmt.Sprintf("every pair of %d operations, five states of the keys", len(ops)))

	// storms of all commands, with sweepers at work on keys that expire
	var overlap sync.Map
	for round := 0; round < r.N(6, 120); round++ {
		r.Step(fmt.Sprintf("C11 storm %d", round))
		c := caches[round%len(caches)]
		prepare(c, 4)
		now := make([]int32, 12)
		var end sync.WaitGroup
		until := time.Now().Add(1500 * time.Millisecond)
		var calls int64
		for p := range now {
			h := rand.New(rand.NewSource(g.Int63()))
			end.Add(1)
			go func(p int) {
				defer end.Done()
				r.Guard(func() {
					for q := 0; q%64 != 0 || time.Now().Before(until); q++ {
						k := h.Intn(len(ops))
						if round%2 == 0 && strings.Contains(strings.ToLower(ops[k].name), "flush") {
							k = 0
						}
						atomic.StoreInt32(&now[p], int32(k+1))
						if q%16 == 0 {
							for o := range now {
								if m := atomic.LoadInt32(&now[o]); o != p && m > 0 {
									overlap.Store([2]int{k, int(m - 1)}, true)
								}
							}
						}
						ops[k].f(c, h)
						atomic.StoreInt32(&now[p], 0)
						atomic.AddInt64(&calls, 1)
					}
				})
			}(p)
		}
		wait(r, &end, fmt.Sprintf("storm %d", round))
		r.Count("storm_calls", calls)
		r.Case(fmt.Sprintf("storm %d of %d calls", round, calls), true)
	}
	pairs := 0
	overlap.Range(func(_, _ interface{}) bool { pairs++; return true })
	r.Count("ordered_pairs_seen_overlapping_in_storms", int64(pairs))

	// the sweeper against everything: keys that have expired when it runs
	r.Step("C11 sweeper")
	var end sync.WaitGroup
	until := time.Now().Add(4500 * time.Millisecond)
	for p := 0; p < 8; p++ {
		h := rand.New(rand.NewSource(g.Int63()))
		end.Add(1)
		go func() {
			defer end.Done()
			r.Guard(func() {
				for time.Now().Before(until) {
					c := caches[h.Intn(len(caches))]
					for i := 0; i < 200; i++ {
						_, _ = c.PSetEX(fmt.Sprint("e", h.Intn(500)), "1", 1+int64(h.Intn(5)))
					}
					for i := 0; i < 50; i++ {
						_, _ = c.Get(fmt.Sprint("e", h.Intn(500)))
						_, _ = c.Incr(fmt.Sprint("e", h.Intn(500)))
						c.Del(fmt.Sprint("e", h.Intn(500)))
						ops[h.Intn(len(ops))].f(c, h)
					}
					r.Beat()
				}
			})
		}()
	}
	wait(r, &end, "sweeper")
	r.Case("sweeper", true)
	r.Sample("four caches with sweepers while keys expire by the hundred")

	remote(r, g)
	connected(r, g)
	r.Finish()
}

func wait(r *kit.Run, wg *sync.WaitGroup, what string) {
	within(r, 60*time.Second, what, wg.Wait)
}

// ---- one remote client shared

func remote(r *kit.Run, g *rand.Rand) {
	for round := 0; round < r.N(4, 40); round++ {
		size := [...]int{1, 3, 20, 0}[round%4]
		r.Step(fmt.Sprintf("C11 remote client, pool size %d", size))
		srv := NewServer(func(c *Conn) {
			h := rand.New(rand.NewSource(int64(c.ID)))
			for {
				cmd, err := c.Cmd()
				if err != nil {
					return
				}
				var m Msg
				switch strings.ToLower(cmd[0]) {
				case "get", "getset", "getrange", "incrbyfloat":
					m = Bulk("1.5")
				case "mget":
					m = Array(Bulk("x"), Nil(), Bulk("y"))
				case "set", "setex", "psetex", "mset", "select", "auth":
					m = Simple("OK")
				default:
					m = Int(1)
				}
				switch h.Intn(40) {
				case 0:
					m = Error("ERR no")
				case 1:
					m = Nil()
				case 2:
					return
				}
				if c.Reply(m) != nil {
					return
				}
			}
		})
		c := redis.NewClient(redis.Option{Addr: srv.Addr, PoolSize: size, Password: "pw", Database: 1})
		var end sync.WaitGroup
		var calls int64
		until := time.Now().Add(1200 * time.Millisecond)
		for p := 0; p < 10; p++ {
			h := rand.New(rand.NewSource(g.Int63()))
			end.Add(1)
			go func() {
				defer end.Done()
				r.Guard(func() {
					for time.Now().Before(until) {
						k := key(h)
						switch h.Intn(17) {
						case 0:
							_, _ = c.Set(k, "v")
						case 1:
							_, _ = c.SetNX(k, "v")
						case 2:
							_, _ = c.SetEX(k, "v", 5)
						case 3:
							_, _ = c.PSetEX(k, "v", 5)
						case 4:
							_, _ = c.Get(k)
						case 5:
							_, _ = c.GetSet(k, "v")
						case 6:
							_, _ = c.StrLen(k)
						case 7:
							_, _ = c.Append(k, "v")
						case 8:
							_, _ = c.SetRange(k, 1, "v")
						case 9:
							_, _ = c.GetRange(k, 1, 2)
						case 10:
							_, _ = c.Incr(k)
						case 11:
							_, _ = c.IncrBy(k, 2)
						case 12:
							_, _ = c.IncrByFloat(k, 2)
						case 13:
							_, _ = c.DecrBy(k, 2)
						case 14:
							m := map[string]string{"a": "1", "b": "2"}
							_, _ = c.MSet(m)
							m["a"] = "changed"
						case 15:
							m := map[string]string{"a": "1", "b": "2"}
							_, _ = c.MSetNX(m)
							m["a"] = "changed"
						default:
							l, _ := c.MGet("a", "b", "c")
							scribble(l)
						}
						atomic.AddInt64(&calls, 1)
						r.Beat()
					}
				})
			}()
		}
		wait(r, &end, "sharing one remote client")
		r.Count("remote_calls", calls)
		r.Case(fmt.Sprintf("remote %d of %d calls", round, calls), true)
		srv.Close()
	}
}

// ---- one connected client shared

func connected(r *kit.Run, g *rand.Rand) {
	for round := 0; round < r.N(4, 40); round++ {
		r.Step(fmt.Sprintf("C11 connected client %d", round))
		m := master.New(g.Int63())
		d := gen.Dataset{0: {}}
		for i := 0; i < 300; i++ {
			d[0][fmt.Sprint("k", i)] = gen.Value(g, 4)
		}
		m.Snapshot = gen.Write(g, d, gen.Forms{}, "8371b4fb1155b71f4a04d3e1bc3e18c4a990aeeb", 77).B
		m.Answer(func(cmd []string) Msg {
			if strings.EqualFold(cmd[0], "get") {
				return Bulk("r")
			}
			return Simple("OK")
		})
		var c xxcache.Client
		var err error
		path := filepath.Join(os.Getenv("VERIF_TMP"), fmt.Sprintf("c11-%d.rdb", round))
		within(r, 30*time.Second, "connecting", func() {
			c, err = xxcache.New(xxcache.Option{RedisMasterAddr: m.Addr, RedisRdbFile: path})
		})
		if err != nil {
			r.Violation("connecting to a well-behaved master failed", err.Error())
		}
		link := m.Link(10 * time.Second)
		if link == nil {
			r.Violation("connected without a replication link", "")
		}
		var end sync.WaitGroup
		var calls int64
		until := time.Now().Add(2300 * time.Millisecond) // acknowledgements go out meanwhile
		for p := 0; p < 8; p++ {
			h := rand.New(rand.NewSource(g.Int63()))
			mine := c // clients are passed by value
			end.Add(1)
			go func() {
				defer end.Done()
				r.Guard(func() {
					for time.Now().Before(until) {
						k := fmt.Sprint("k", h.Intn(300))
						if h.Intn(10) == 0 {
							_, _ = mine.Set(k, "w")
						} else {
							_, _ = mine.Get(k)
						}
						atomic.AddInt64(&calls, 1)
						r.Beat()
					}
				})
			}()
		}
		_ = link.Send(master.Stream([]string{"SELECT", "0"}))
		cut := round%2 == 1
		for time.Now().Before(until) {
			var b []byte
			for i := 0; i < 50; i++ {
				k := fmt.Sprint("k", g.Intn(300))
				b = append(b, master.Stream([][]string{{"set", k, "v"}, {"del", k}, {"mset", k, "1", "k1", "2"}, {"PING"}, {"select", "0"}, {"flushall"}, {"set", k, gen.Elem(g)}}[g.Intn(7)])...)
			}
			if link.Send(b) != nil {
				r.Violation("the client ended the replication link", "")
			}
			time.Sleep(time.Millisecond)
			if cut && time.Until(until) < time.Second {
				_ = link.C.Close()
				break
			}
		}
		wait(r, &end, "sharing one connected client")
		if len(link.Acks()) == 0 {
			r.Count("clients_without_ack_yet", 1)
		}
		r.Count("client_calls", calls)
		r.Count("streamed_bytes", link.Sent())
		r.Case(fmt.Sprintf("connected %d of %d calls", round, calls), true)
		m.Close()
	}
	lost(r, g)
}

// lost: the replication link is lost while nothing else happens that could order its reader and its acknowledger
func lost(r *kit.Run, g *rand.Rand) {
	r.Step("C11 lost links")
	n := r.N(6, 24)
	var masters []*master.Master
	for i := 0; i < n; i++ {
		m := master.New(g.Int63())
		m.Snapshot = gen.Write(g, gen.Dataset{0: {}}, gen.Forms{}, "8371b4fb1155b71f4a04d3e1bc3e18c4a990aeeb", 7).B
		m.Answer(func(cmd []string) Msg { return Bulk("r") })
		masters = append(masters, m)
		var c xxcache.Client
		var err error
		within(r, 30*time.Second, "connecting", func() {
			c, err = xxcache.New(xxcache.Option{RedisMasterAddr: m.Addr, RedisRdbFile: filepath.Join(os.Getenv("VERIF_TMP"), fmt.Sprintf("c11-lost-%d.rdb", i))})
		})
		if err != nil {
			r.Violation("connecting to a well-behaved master failed", err.Error())
		}
		link := m.Link(10 * time.Second)
		if link == nil {
			r.Violation("connected without a replication link", "")
		}
		_ = link.Send(master.Stream([]string{"SET", "a", "b"}))
		cut, how := time.Duration(g.Intn(1800))*time.Millisecond, i%3
		go func() {
			time.Sleep(cut)
			switch t, ok := link.C.Conn.(*net.TCPConn); {
			case how == 0 && ok:
				_ = t.SetLinger(0)
			case how == 1:
				_, _ = link.C.Write([]byte("?\r\n")) // not a command
				time.Sleep(20 * time.Millisecond)
			}
			_ = link.C.Close()
			if how == 2 {
				_, _ = c.Get("a")
			}
		}()
	}
	for i := 0; i < 50; i++ { // several acknowledgements on the dead links
		time.Sleep(100 * time.Millisecond)
		r.Beat()
	}
	for _, m := range masters {
		m.Close()
	}
	r.Count("lost_links", int64(n))
	r.Case(fmt.Sprint("lost ", n), true)
}
