package replchk

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/liujiangwei/xxcache"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/master"
)

// ---- X09

func inUse() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// traffic is a stream that goes on for ever and leaves the local copy as it was.
type traffic struct {
	name string
	// part i of the stream
	part func(g *rand.Rand, i int) []byte
	size int // of one part, roughly
}

func cmds(l ...[]string) []byte { return master.Stream(l...) }

func traffics() []traffic {
	key := func(i int) string { return fmt.Sprintf("key%024d", i) }
	sel := func(db int, l ...[]string) []byte {
		l = append([][]string{{"SELECT", strconv.Itoa(db)}}, l...)
		return cmds(append(l, []string{"SELECT", "0"})...)
	}
	return []traffic{
		{"sets and deletions", func(g *rand.Rand, i int) []byte { return cmds([]string{"SET", key(i), "v"}, []string{"DEL", key(i)}) }, 150},
		{"sets with an expiry", func(g *rand.Rand, i int) []byte {
			return cmds([]string{"SET", key(i), "v", "PX", "1000"}, []string{"SET", key(i), "v"}, []string{"PEXPIREAT", key(i), "1"})
		}, 200},
		{"deadlines far away", func(g *rand.Rand, i int) []byte {
			far := strconv.FormatInt(time.Now().Add(time.Duration(100+i)*time.Hour).UnixNano()/1e6, 10)
			return cmds([]string{"SET", key(i), "v"}, []string{"PEXPIREAT", key(i), far}, []string{"SET", key(i), "v", "EX", "100000"}, []string{"EXPIRE", key(i), "100000"}, []string{"DEL", key(i)})
		}, 300},
		{"rewrites of one key", func(g *rand.Rand, i int) []byte {
			return cmds([]string{"SET", "one", key(i)}, []string{"SET", "two", strconv.Itoa(i * 1000003)}, []string{"SET", "three", strconv.Itoa(i) + ".5"})
		}, 200},
		{"commands that are not followed", func(g *rand.Rand, i int) []byte {
			return cmds([]string{"HSET", key(i), key(i + 1), "v"}, []string{"LPUSH", key(i), "v"}, []string{"SADD", key(i), "a", "b"}, []string{"INCR", key(i) + "n"}, []string{"XADD", key(i) + "s", "*", "f", "v"})
		}, 400},
		{"commands nobody knows", func(g *rand.Rand, i int) []byte {
			return cmds([]string{"what" + strconv.Itoa(i), key(i)}, []string{"PUBLISH", key(i), "news"}, []string{"SCRIPT", "LOAD", "return " + strconv.Itoa(i)})
		}, 250},
		{"transactions", func(g *rand.Rand, i int) []byte {
			return cmds([]string{"MULTI"}, []string{"SET", key(i), "v"}, []string{"DEL", key(i)}, []string{"EXEC"})
		}, 200},
		{"pings", func(g *rand.Rand, i int) []byte { return cmds([]string{"PING"}) }, 15},
		{"empty lines of text", func(g *rand.Rand, i int) []byte { return []byte("+" + key(i) + "\r\n:" + strconv.Itoa(i) + "\r\n") }, 40},
		{"selects", func(g *rand.Rand, i int) []byte { return sel(1 + i%1000) }, 50},
		{"sets in other databases", func(g *rand.Rand, i int) []byte { return sel(1+i%15, []string{"SET", key(i), "v"}) }, 120},
		{"flushes", func(g *rand.Rand, i int) []byte {
			return cmds([]string{"SET", key(i), "v"}, []string{"SET", key(i) + "b", "v"}, []string{"FLUSHALL"})
		}, 200},
		{"large values", func(g *rand.Rand, i int) []byte {
			if i%500 != 0 {
				return cmds([]string{"PING"})
			}
			return append(cmds([]string{"SET", "large", strings.Repeat(strconv.Itoa(i), 100000)}, []string{"SET", "large", "small"}), sel(3, []string{"SET", "large", strings.Repeat("x", 300000)})...)
		}, 1200},
		{"large commands that are not followed", func(g *rand.Rand, i int) []byte {
			if i%500 != 0 {
				return cmds([]string{"PING"})
			}
			c := []string{"MSET"}
			for j := 0; j < 200; j++ {
				c = append(c, key(i+j), strings.Repeat("x", 2000))
			}
			return cmds(c)
		}, 1200},
		{"everything", nil, 400},
	}
}

func runX09(r *kit.Run) {
	g := r.Rng(69)
	dir, err := filepath.EvalSymlinks(r.TmpDir)
	if err != nil {
		panic(err)
	}
	dir = filepath.Join(dir, "x09")
	if err := os.Mkdir(dir, 0755); err != nil {
		panic(err)
	}
	ts := traffics()
	// a client with nothing to do
	before := holds(dir)
	idle := plainMaster(r, g, 77)
	q := connect(r, idle, "idle")
	q.settle(0, 20*time.Second, "idle")
	time.Sleep(100 * time.Millisecond)
	started, since := holds(dir), time.Now()
	for round := 0; round < r.N(1, 6); round++ {
		for _, t := range ts {
			if t.part == nil {
				t.part = func(g *rand.Rand, i int) []byte { return ts[g.Intn(len(ts)-1)].part(g, i) }
			}
			what := fmt.Sprintf("%s, round %d", t.name, round)
			r.Step("X09 " + what)
			was := holds(dir)
			m := plainMaster(r, g, 77)
			p := connect(r, m, what)
			now := holds(dir)
			i := 0
			flow := func(n int) {
				for n > 0 {
					var b []byte
					for ; n > 0 && len(b) < 60000; n-- {
						b = append(b, t.part(g, i)...)
						i++
					}
					if err := p.link.Send(b); err != nil {
						r.Violation("the link ended", what+": "+err.Error())
					}
					r.Beat()
				}
				p.settle(0, 50*time.Second, what)
			}
			n := r.N(12000, 60000)
			flow(n) // what is there once is no growth
			var grown int64
			for try := 0; ; try++ {
				before := inUse()
				flow(n)
				grown = inUse() - before
				if grown < int64(n)*4+200<<10 {
					break
				}
				if try == 3 {
					r.Violation("memory grows with the length of the stream", fmt.Sprintf("%s: %d bytes more are in use after each %d parts of the stream, four times, and the local copy holds no more than before", what, grown, n))
				}
			}
			r.Count("parts_streamed", int64(i))
			r.Count("bytes_streamed", p.link.Sent())
			r.Max("most_bytes_grown", grown)
			for j := 0; ; j++ {
				h := holds(dir)
				// its first read may have asked the master
				if h.files <= now.files && h.sockets <= now.sockets+2 && h.running <= now.running+4 {
					break
				}
				if j > 100 {
					r.Violation("the client holds more and more", fmt.Sprintf("%s: sockets %d, were %d; files %d, were %d; goroutines %d, were %d\n%s", what, h.sockets, now.sockets, h.files, now.files, h.running, now.running, clip(h.text)))
				}
				time.Sleep(20 * time.Millisecond)
			}
			r.Case(what, true)
			r.Sample(fmt.Sprintf("%s: %d bytes streamed, %d bytes of memory more", what, p.link.Sent(), grown))
			m.Close()
			gone(r, dir, was, what+", link lost")
			runtime.KeepAlive(p.c)
		}
		losses(r, g, dir, round)
	}
	for time.Since(since) < 12*time.Second {
		time.Sleep(100 * time.Millisecond)
		r.Beat()
	}
	if h := holds(dir); h.running > started.running+2 {
		r.Violation("a client that has nothing to do holds more and more", fmt.Sprintf("%v after connecting: %d goroutines, were %d\n%s", time.Since(since), h.running-before.running, started.running-before.running, clip(h.text)))
	}
	r.Count("acknowledgements_of_the_idle_client", int64(len(q.link.Acks())))
	r.Case("idle", true)
	idle.Close()
	gone(r, dir, before, "idle, link lost")
	r.Finish()
}

// gone waits until nothing of a client whose link is lost runs any more. It keeps the idle connections of its pool.
func gone(r *kit.Run, dir string, was holding, what string) {
	for i := 0; ; i++ {
		h := holds(dir)
		if h.running <= was.running {
			return
		}
		if i > 400 {
			r.Violation("a client that lost its link goes on", fmt.Sprintf("%s: goroutines in the client %d, were %d\n%s", what, h.running, was.running, clip(h.text)))
		}
		time.Sleep(25 * time.Millisecond)
		r.Beat()
	}
}

// the memory of the local copy goes with the data: when it is replaced, removed, flushed, or when the link is lost
func losses(r *kit.Run, g *rand.Rand, dir string, round int) {
	ways := []string{"link lost", "FLUSHALL", "FLUSHDB", "SWAPDB", "DEL", "UNLINK", "DEL of many", "SET of less", "EVAL", "HSET over them", "PEXPIREAT", "snapshot, link lost", "snapshot, FLUSHALL", "many attempts that fail"}
	for _, way := range ways {
		what := fmt.Sprintf("%s, round %d", way, round)
		r.Step("X09 memory, " + what)
		m := plainMaster(r, g, 77)
		const n, size = 300, 40 << 10
		val := func(i int) string { return strings.Repeat(string(rune('a'+i%26)), size) }
		was := holds(dir)
		base := inUse()
		snap := strings.HasPrefix(way, "snapshot") || strings.HasPrefix(way, "many")
		if snap {
			d := gen.Dataset{0: {}}
			for i := 0; i < n; i++ {
				d[0][fmt.Sprint("k", i)] = &gen.Val{Kind: gen.String, Str: val(i)}
			}
			m.Snapshot = gen.Write(g, d, gen.Forms{}, "8371b4fb1155b71f4a04d3e1bc3e18c4a990aeeb", 77).B
		}
		if strings.HasPrefix(way, "many") {
			attempts(r, m, what)
			continue
		}
		p := connect(r, m, what)
		m.Snapshot = nil
		if !snap {
			for i := 0; i < n; i++ {
				_ = p.link.Send(cmds([]string{"SET", fmt.Sprint("k", i), val(i)}))
			}
		}
		p.settle(0, 50*time.Second, what)
		full := inUse() - base
		lost := strings.HasSuffix(way, "link lost")
		var many []string
		for i := 0; i < n; i++ {
			k := fmt.Sprint("k", i)
			switch way {
			case "DEL", "UNLINK":
				_ = p.link.Send(cmds([]string{way, k}))
			case "SET of less":
				_ = p.link.Send(cmds([]string{"SET", k, "1"}))
			case "HSET over them":
				_ = p.link.Send(cmds([]string{"DEL", k}, []string{"HSET", k, "f", "v"}))
			case "PEXPIREAT":
				_ = p.link.Send(cmds([]string{"PEXPIREAT", k, "1"}))
			}
			many = append(many, k)
		}
		switch {
		case way == "DEL of many":
			_ = p.link.Send(cmds(append([]string{"DEL"}, many...)))
		case way == "SWAPDB":
			_ = p.link.Send(cmds([]string{"SWAPDB", "0", "1"}))
		case way == "EVAL":
			_ = p.link.Send(cmds([]string{"EVAL", "return 1", "0"}))
		case strings.HasSuffix(way, "FLUSHALL"), way == "FLUSHDB":
			_ = p.link.Send(cmds([]string{strings.TrimPrefix(way, "snapshot, ")}))
		case lost:
			m.Close()
		}
		if !lost {
			p.settle(0, 50*time.Second, what)
		}
		for i := 0; ; i++ { // the loss is noticed at some time
			left := inUse() - base
			if left <= full/10 {
				r.Count("released_bytes", full-left)
				break
			}
			if i > 200 {
				r.Violation("the memory of a local copy that is gone is not released", fmt.Sprintf("%s: %d of %d bytes are still in use", what, left, full))
			}
			time.Sleep(25 * time.Millisecond)
			r.Beat()
		}
		if full < n*size*9/10 {
			r.Violation("there was no local copy", fmt.Sprintf("%s: %d bytes in use after %d", what, full, n*size))
		}
		r.Case("memory, "+what, true)
		m.Close()
		gone(r, dir, was, what)
		runtime.KeepAlive(p.c)
	}
}

// attempts to connect that fail once much was loaded keep nothing of it
func attempts(r *kit.Run, m *master.Master, what string) {
	m.Snapshot = m.Snapshot[:len(m.Snapshot)-9]
	try := func(n int) {
		for i := 0; i < n; i++ {
			within(r, 30*time.Second, "X09 "+what, func() {
				if _, err := xxcache.New(xxcache.Option{RedisMasterAddr: m.Addr, RedisRdbFile: rdbFile(r)}); err == nil {
					r.Violation("a snapshot that was cut is taken for a whole one", what)
				}
			})
			r.Beat()
		}
	}
	try(2)
	for i := 0; ; i++ {
		base := inUse()
		try(5)
		var grown int64
		for j := 0; j < 100; j++ { // what was started ends on its own
			if grown = inUse() - base; grown < 5<<20 {
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
		if grown < 5<<20 {
			break
		}
		if i == 2 {
			r.Violation("failed attempts to connect hold memory", fmt.Sprintf("%s: %d bytes more in use after each 5 attempts with %d bytes", what, grown, len(m.Snapshot)))
		}
	}
	r.Case("memory, "+what, true)
	m.Close()
}
