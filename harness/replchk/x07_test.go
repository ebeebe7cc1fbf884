package replchk

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/liujiangwei/xxcache"
	"github.com/liujiangwei/xxcache/redis"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/master"
	. "verif/harness/resp"
)

// held is what the process holds: open descriptors that lead to a file in dir or to a socket, and goroutines running
// the code under test.
type holding struct {
	files, sockets, running int
	text                    string
}

func holds(dir string) (h holding) {
	l, _ := os.ReadDir("/proc/self/fd")
	for _, e := range l {
		to, err := os.Readlink("/proc/self/fd/" + e.Name())
		switch {
		case err != nil:
		case strings.HasPrefix(to, "socket:"):
			h.sockets++
		case strings.HasPrefix(to, dir+"/"):
			h.files++
			h.text += to + "\n"
		}
	}
	b := make([]byte, 4<<20)
	for _, s := range strings.Split(string(b[:runtime.Stack(b, true)]), "\n\n") {
		if strings.Contains(s, "github.com/liujiangwei/xxcache") {
			h.running++
			h.text += s + "\n"
		}
	}
	return
}

// released waits until nothing more is held than was before. The garbage collector, which closes what is forgotten, does
// not run meanwhile: when it comes is nothing to rely on.
func released(r *kit.Run, dir string, was holding, open func() int, want int, what string) {
	for i := 0; ; i++ {
		now := holds(dir)
		if now.files <= was.files && now.sockets <= was.sockets && now.running <= was.running && open() == want {
			return
		}
		if i > 400 {
			r.Violation("something of a connection attempt is left behind", fmt.Sprintf("%s: %d connections open at the master, want %d; sockets %d, were %d; files %d, were %d; goroutines in the client %d, were %d\n%s",
				what, open(), want, now.sockets, was.sockets, now.files, was.files, now.running, was.running, clip(now.text)))
		}
		time.Sleep(25 * time.Millisecond)
		r.Beat()
	}
}

func runX07(r *kit.Run) {
	debug.SetGCPercent(-1)
	g := r.Rng(67)
	dir, err := filepath.EvalSymlinks(r.TmpDir)
	if err != nil {
		panic(err)
	}
	dir = filepath.Join(dir, "x07")
	if err := os.Mkdir(dir, 0755); err != nil {
		panic(err)
	}
	snap := func(n int) []byte {
		d := gen.Dataset{0: {}}
		for i := 0; i < n; i++ {
			d[0][fmt.Sprint("k", i)] = gen.Value(g, 4)
		}
		return gen.Write(g, d, gen.Forms{}, "8371b4fb1155b71f4a04d3e1bc3e18c4a990aeeb", 77).B
	}
	small, big := snap(20), snap(3000)
	many := gen.Dataset{0: {}} // more keys than fit between loading and applying
	for i := 0; i < 25000; i++ {
		many[0][fmt.Sprint("m", i)] = &gen.Val{Kind: gen.String, Str: "v"}
	}
	huge := gen.Write(g, many, gen.Forms{}, "8371b4fb1155b71f4a04d3e1bc3e18c4a990aeeb", 77).B
	cutAt := func(b []byte) []byte { return b[:9+g.Intn(len(b)-18)] } // somewhere before the end marker
	answer := func(s string, goOn bool) func(*Conn) bool {
		return func(c *Conn) bool { _, err := c.Write([]byte(s)); return err == nil && goOn }
	}
	type fault struct {
		what       string
		ping, sync func(*Conn) bool
		snapshot   []byte
		file       string
		load       bool // synchronising succeeds, only loading fails
	}
	var faults []fault
	add := func(f fault) { faults = append(faults, f) }
	for _, goOn := range []bool{true, false} {
		for _, s := range []string{"-NOAUTH Authentication required.\r\n", "+NOPE\r\n", ":1\r\n", "$-1\r\n", "?\r\n"} {
			add(fault{what: fmt.Sprintf("ping answered %q, link left open: %v", s, goOn), ping: answer(s, goOn)})
		}
		for _, s := range []string{"-ERR no\r\n", "-NOAUTH\r\n", "+OK\r\n", "$-1\r\n", "$abc\r\n", ":1\r\n", "*0\r\n", "?\r\n"} {
			add(fault{what: fmt.Sprintf("synchronisation answered %q, link left open: %v", s, goOn), sync: answer(s, goOn)})
		}
	}
	add(fault{what: "ping answered by the end of the link", ping: answer("+PO", false)})
	add(fault{what: "transfer cut", sync: answer("$1000\r\nREDIS0009", false)})
	add(fault{what: "transfer ended before it began", sync: answer("\n\n\n", false)})
	add(fault{what: "the file cannot be made", snapshot: small, file: filepath.Join(dir, "nowhere", "x")})
	add(fault{what: "no snapshot", snapshot: []byte("RUBBISH00000000"), load: true})
	add(fault{what: "empty snapshot", snapshot: []byte{}, load: true})
	add(fault{what: "unsupported object", snapshot: append([]byte("REDIS0009\xfe\x00"), 15, 1, 'k', 0), load: true})
	for i := 0; i < 6; i++ {
		add(fault{what: "snapshot cut", snapshot: cutAt(small), load: true})
		add(fault{what: "larger snapshot cut", snapshot: cutAt(big), load: true})
	}
	add(fault{what: "very large snapshot cut at its end", snapshot: huge[:len(huge)-12], load: true})
	ziplist := append([]byte("REDIS0009\xfe\x00"), 10, 1, 'k', 11, 11, 0, 0, 0, 10, 0, 0, 0, 99, 0, 0xff, 0xff) // a list that counts 99 items
	add(fault{what: "corrupt object", snapshot: append(ziplist, 0xff), load: true})

	path := filepath.Join(dir, "x.rdb")
	tries := 0
	for round := 0; round < r.N(3, 25); round++ {
		for _, f := range faults {
			r.Step("X07 " + f.what)
			m := master.New(g.Int63())
			m.Ping, m.Sync, m.Snapshot = f.ping, f.sync, f.snapshot
			m.Piece = []int{1 << 30, 100, 4096}[g.Intn(3)]
			runtime.GC()
			was := holds(dir)
			p := path
			if f.file != "" {
				p = f.file
			}
			for i := 0; i < 4; i++ {
				var err error
				if f.file == "" { // an earlier session left its snapshot
					if e := os.WriteFile(p, [][]byte{small, big}[g.Intn(2)], 0644); e != nil {
						panic(e)
					}
				}
				within(r, 30*time.Second, "X07 "+f.what, func() {
					if i%2 == 0 {
						_, err = xxcache.New(xxcache.Option{RedisMasterAddr: m.Addr, RedisRdbFile: p})
						return
					}
					repl := &redis.Replication{MasterAddr: m.Addr, RdbFile: p}
					if err = repl.SyncWithRedis(); err == nil && f.load {
						drain(repl, func() { err = repl.Load() })
						repl.Stop()
					}
				})
				if err == nil {
					r.Violation("a failed connection attempt is taken for a success", f.what)
				}
				tries++
			}
			released(r, dir, was, m.Open, 0, "4 attempts to connect, "+f.what)
			m.Close()
			r.Case(fmt.Sprint(f.what, len(f.snapshot)), true)
		}
		// no master
		runtime.GC()
		was := holds(dir)
		for i := 0; i < 10; i++ {
			if e := os.WriteFile(path, small, 0644); e != nil {
				panic(e)
			}
			within(r, 30*time.Second, "X07 no master", func() {
				if _, err := xxcache.New(xxcache.Option{RedisMasterAddr: "127.0.0.1:1", RedisRdbFile: path}); err == nil {
					r.Violation("a failed connection attempt is taken for a success", "no master")
				}
			})
			tries++
		}
		released(r, dir, was, func() int { return 0 }, 0, "10 attempts to connect, no master")
	}
	r.Count("failed_attempts", int64(tries))
	r.Count("faults", int64(len(faults)))
	r.Sample(fmt.Sprintf("%d ways for an attempt to fail, 4 attempts each", len(faults)))

	// attempts at the same time, some of which succeed
	for round := 0; round < r.N(4, 40); round++ {
		r.Step(fmt.Sprintf("X07 mixed attempts %d", round))
		runtime.GC()
		was := holds(dir)
		var mu sync.Mutex
		n := 0
		m := master.New(g.Int63())
		m.Snapshot = small
		fates := g.Perm(12)
		m.Sync = func(c *Conn) bool {
			mu.Lock()
			fate := fates[n%12]
			n++
			mu.Unlock()
			h := rand.New(rand.NewSource(int64(fate)))
			switch {
			case fate < 4:
				return master.Chunks(c, h, master.Announce(small), 4096)
			case fate < 8:
				return master.Chunks(c, h, master.Announce(small[:len(small)-9-fate]), 4096)
			}
			_, err := c.Write([]byte("-ERR busy\r\n"))
			return err == nil
		}
		var wg sync.WaitGroup
		good := 0
		for i := 0; i < 12; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				r.Guard(func() {
					c, err := xxcache.New(xxcache.Option{RedisMasterAddr: m.Addr, RedisRdbFile: filepath.Join(dir, fmt.Sprint(i, ".rdb"))})
					if err != nil {
						return
					}
					_, _ = c.Get("k1")
					mu.Lock()
					good++
					mu.Unlock()
				})
			}(i)
		}
		within(r, 60*time.Second, "mixed attempts", wg.Wait)
		if good != 4 {
			r.Violation("attempts to connect did not end as the master let them", fmt.Sprintf("%d succeeded, 4 snapshots were good", good))
		}
		// each client that connected has its link, and a connection for the value it asked for if it had no copy
		was.sockets += 1 << 20
		was.running += 1 << 20
		released(r, dir, was, func() int {
			if o := m.Open(); o > 8 {
				return o
			}
			return 4
		}, 4, "12 attempts of which 4 succeeded")
		r.Case(fmt.Sprint("mixed", fates), true)
		r.Count("mixed_attempts", 12)
		// a link is given up when it carries something else than commands: it is closed
		links := 0
		for {
			l := m.Link(100 * time.Millisecond)
			if l == nil {
				break
			}
			if !l.Gone() {
				links++
			}
			_ = l.Send(master.Stream([]string{"SET", "a", "b"}))
			_ = l.Send([]byte([]string{"?\r\n", "$x\r\n", "*1\r\n$3\r\nabcdef\r\n", "*-7\r\n", "\x00\r\n"}[g.Intn(5)]))
			for i := 0; !l.Gone(); i++ {
				if i > 400 {
					r.Violation("a replication link that is given up stays open", fmt.Sprintf("round %d", round))
				}
				time.Sleep(25 * time.Millisecond)
				r.Beat()
			}
		}
		r.Count("links_given_up", int64(links))
		m.Close()
	}
	r.Finish()
}

// drain runs f while the messages of a replication are taken away.
func drain(repl *redis.Replication, f func()) {
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-repl.Messages:
			case <-stop:
				return
			}
		}
	}()
	f()
	close(stop)
	wg.Wait()
}
