package redischk

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/liujiangwei/xxcache/redis"

	"verif/harness/kit"
	. "verif/harness/resp"
)

// ---- R08

// left is what the process holds: sockets, and goroutines running the code under test.
func left() (sockets, running int, text string) {
	l, _ := os.ReadDir("/proc/self/fd")
	for _, e := range l {
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(to, "socket:") {
			sockets++
		}
	}
	b := make([]byte, 8<<20)
	for _, s := range strings.Split(string(b[:runtime.Stack(b, true)]), "\n\n") {
		if strings.Contains(s, "github.com/liujiangwei/xxcache") {
			running++
			if len(text) < 3000 {
				text += s + "\n"
			}
		}
	}
	return
}

func inUse() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// trouble is how a server treats its connections and commands.
type trouble struct {
	name   string
	option redis.Option
	open   bool // no connection gets usable
	wait   bool // calls end by a timeout
	fails  bool // the calls have to fail
	big    int  // size of the arguments
	server func(c *Conn)
	listen string // "", "no" or "busy"
}

// until the client is gone
func drain(c *Conn) {
	b := make([]byte, 65536)
	for {
		if _, err := c.R.Read(b); err != nil {
			return
		}
	}
}

func serveWith(f func(c *Conn, cmd []string) bool) func(c *Conn) {
	return func(c *Conn) {
		for {
			cmd, err := c.Cmd()
			if err != nil || !f(c, cmd) {
				return
			}
		}
	}
}

func handshake(cmd []string) bool {
	return strings.EqualFold(cmd[0], "auth") || strings.EqualFold(cmd[0], "select")
}

func good(cmd []string) Msg {
	switch strings.ToLower(cmd[0]) {
	case "get":
		return Bulk(answer(cmd[1]))
	case "incrby":
		return Int(7)
	case "mget":
		m := Array()
		for _, k := range cmd[1:] {
			m.A = append(m.A, Bulk(answer(k)))
		}
		return m
	}
	return Simple("OK")
}

func troubles() (l []trouble) {
	answering := func(f func(c *Conn, cmd []string, b []byte) bool) func(c *Conn) {
		return serveWith(func(c *Conn, cmd []string) bool {
			if handshake(cmd) {
				return c.Reply(Simple("OK")) == nil
			}
			return f(c, cmd, good(cmd).Bytes())
		})
	}
	add := func(t trouble) { l = append(l, t) }
	full := redis.Option{Password: "pw", Database: 3}
	with := func(m Msg) func(c *Conn) {
		return answering(func(c *Conn, cmd []string, b []byte) bool { return c.Reply(m) == nil })
	}
	bytes := func(s string, stay bool) func(c *Conn) {
		return answering(func(c *Conn, cmd []string, b []byte) bool {
			_, err := c.Write([]byte(s))
			return err == nil && stay
		})
	}
	fine := answering(func(c *Conn, cmd []string, b []byte) bool { _, err := c.Write(b); return err == nil })
	add(trouble{name: "answered", server: fine})
	add(trouble{name: "answered, after a handshake", option: full, server: fine})
	add(trouble{name: "answered, large", option: full, server: fine, big: 100000})
	add(trouble{name: "answered, with timeouts", option: redis.Option{ReadTimeout: time.Minute, WriteTimeout: time.Minute, Timeout: time.Minute}, server: fine})
	add(trouble{name: "error replies", option: full, fails: true, server: with(Error("ERR no"))})
	add(trouble{name: "nil replies", fails: true, server: with(Nil())})
	add(trouble{name: "replies of another kind", server: with(Array(Int(1), Array(Bulk("x"))))})
	add(trouble{name: "dropped", option: full, fails: true, server: answering(func(*Conn, []string, []byte) bool { return false })})
	add(trouble{name: "reset", fails: true, server: answering(func(c *Conn, _ []string, _ []byte) bool { c.Reset(); return false })})
	add(trouble{name: "cut", option: full, fails: true, server: answering(func(c *Conn, cmd []string, b []byte) bool { _, _ = c.Write(b[:len(b)/2]); return false })})
	add(trouble{name: "garbled", fails: true, server: bytes("?what\r\n+OK\r\n", true)})
	add(trouble{name: "garbled and dropped", option: full, fails: true, server: bytes("$x\r\n", false)})
	add(trouble{name: "bad lengths", fails: true, server: bytes("*3\r\n:1\r\n$-9\r\n", true)})
	add(trouble{name: "too deep", fails: true, server: bytes(strings.Repeat("*1\r\n", 3000), true)})
	add(trouble{name: "answered and dropped", option: full, server: answering(func(c *Conn, cmd []string, b []byte) bool { _, _ = c.Write(b); return false })})
	add(trouble{name: "silent", wait: true, fails: true, option: redis.Option{ReadTimeout: 15 * time.Millisecond, Password: "pw"},
		server: answering(func(c *Conn, _ []string, _ []byte) bool { drain(c); return false })})
	add(trouble{name: "late", wait: true, fails: true, option: redis.Option{ReadTimeout: 10 * time.Millisecond},
		server: answering(func(c *Conn, _ []string, b []byte) bool {
			time.Sleep(25 * time.Millisecond)
			_, err := c.Write(b)
			return err == nil
		})})
	add(trouble{name: "not reading", wait: true, fails: true, big: 24 << 20, option: redis.Option{WriteTimeout: 25 * time.Millisecond},
		server: func(c *Conn) { // closed by the other side, which is noticed only by probing
			for one := make([]byte, 1); ; time.Sleep(2 * time.Millisecond) {
				_ = c.Conn.(*net.TCPConn).SetReadBuffer(4096)
				if _, err := c.Write(one[:0]); err != nil || c.S.Shut() {
					return
				}
			}
		}})
	add(trouble{name: "closed at once", open: true, fails: true, option: full, server: func(*Conn) {}})
	add(trouble{name: "reset at once", open: true, fails: true, option: full, server: func(c *Conn) { c.Reset() }})
	for _, h := range []string{"auth", "select"} {
		h := h
		at := func(name string, o redis.Option, wait bool, f func(c *Conn) bool) {
			add(trouble{name: h + " " + name, open: true, wait: wait, fails: true, option: o, server: serveWith(func(c *Conn, cmd []string) bool {
				if strings.EqualFold(cmd[0], h) {
					return f(c)
				}
				return c.Reply(Simple("OK")) == nil
			})})
		}
		slow := full
		slow.ReadTimeout = 15 * time.Millisecond
		at("refused", full, false, func(c *Conn) bool { return c.Reply(Error("ERR no")) == nil })
		at("dropped", full, false, func(c *Conn) bool { return false })
		at("cut", full, false, func(c *Conn) bool { _, _ = c.Write([]byte("+O")); return false })
		at("garbled", full, false, func(c *Conn) bool { _, err := c.Write([]byte("?\r\n")); return err == nil })
		at("nil", full, false, func(c *Conn) bool { return c.Reply(Nil()) == nil })
		at("silent", slow, true, func(c *Conn) bool { drain(c); return false })
	}
	add(trouble{name: "nobody listens", open: true, fails: true, listen: "no"})
	add(trouble{name: "not accepted", open: true, wait: true, fails: true, listen: "busy", option: redis.Option{Timeout: 40 * time.Millisecond}})
	return
}

// start runs the server of a trouble.
func (t trouble) start() (srv *Server, ok bool) {
	switch t.listen {
	case "no":
		srv = NewServer(func(*Conn) {})
		srv.Down(true)
		return srv, true
	case "busy":
		srv, _, err := Busy(func(*Conn) {})
		return srv, err == nil
	}
	return NewServer(t.server), true
}

// calls makes n calls from each of so many goroutines.
func (t trouble) calls(r *kit.Run, g *rand.Rand, c *redis.Redis, goroutines, n int, what string) (failed int64) {
	var wg sync.WaitGroup
	pad := strings.Repeat("p", t.big)
	for p := 0; p < goroutines; p++ {
		wg.Add(1)
		h := rand.New(rand.NewSource(g.Int63()))
		go func() {
			defer wg.Done()
			r.Guard(func() {
				for i := 0; i < n; i++ {
					var err error
					k := fmt.Sprint("key", h.Int63()) + pad
					switch h.Intn(4) {
					case 0:
						_, err = c.Set(k, pad)
					case 1:
						_, err = c.IncrBy(k, 3)
					case 2:
						_, err = c.MGet(k, "other")
					default:
						_, err = c.Get(k)
					}
					if err != nil {
						atomic.AddInt64(&failed, 1)
					}
					r.Beat()
				}
			})
		}()
	}
	within(r, 55*time.Second, what, wg.Wait)
	return
}

func runR08(r *kit.Run) {
	g := r.Rng(8)
	ts := troubles()
	gc := debug.SetGCPercent(-1) // which would close what is forgotten
	goroutines := 12
	for round := 0; round < r.N(3, 20); round++ {
		for ti, t := range ts {
			size := [...]int{1, 2, 5, 0, 30}[(round+ti)%5]
			limit := size
			if size == 0 {
				limit = 20
			}
			per := 24
			if t.wait {
				per = 3
				if t.big > 1<<20 {
					per = 1
				}
			}
			what := fmt.Sprintf("%s, pool size %d, round %d", t.name, size, round)
			r.Step("R08 " + what)
			was, ran, _ := left()
			srv, ok := t.start()
			if !ok {
				r.Count("servers_that_could_not_be_made", 1)
				continue
			}
			o := t.option
			o.Addr, o.PoolSize = srv.Addr, size
			c := redis.NewClient(o)
			failed := t.calls(r, g, c, goroutines, per, what)
			if t.fails && failed != int64(goroutines*per) {
				r.Violation("a call that cannot succeed did", fmt.Sprintf("%s: %d of %d failed", what, failed, goroutines*per))
			}
			r.Count("calls", int64(goroutines*per))
			r.Count("calls_failed", failed)
			srv.Close()
			// what is left of sockets is the client's
			may := limit
			if t.open {
				may = 0
			}
			for i := 0; ; i++ {
				sockets, running, text := left()
				if srv.Open() == 0 && sockets-was <= may && running-ran <= 2*limit {
					r.Max("most_connections_left", int64(sockets-was))
					break
				}
				if i > 400 {
					r.Violation("something of the calls is left behind", fmt.Sprintf("%s: %d calls made, %d failed; now %d sockets are open, may be %d; %d goroutines run in the client (%d at the server)\n%s", what, goroutines*per, failed, sockets-was, may, running-ran, srv.Open(), text))
				}
				time.Sleep(20 * time.Millisecond)
				r.Beat()
			}
			r.Case(what, true)
			if round == 0 && ti%9 == 0 {
				r.Sample(fmt.Sprintf("%s: %d calls, %d failed", what, goroutines*per, failed))
			}
			runtime.KeepAlive(c)
			if ti%6 == 5 {
				runtime.GC()
			}
		}
		pools(r, g, round)
	}
	debug.SetGCPercent(gc)
	// memory
	for ti, t := range ts {
		if t.wait || t.big > 0 {
			continue
		}
		t.big = 1000
		size := [...]int{1, 3, 8}[ti%3]
		what := fmt.Sprintf("memory, %s, pool size %d", t.name, size)
		r.Step("R08 " + what)
		srv, ok := t.start()
		if !ok {
			continue
		}
		o := t.option
		o.Addr, o.PoolSize = srv.Addr, size
		c := redis.NewClient(o)
		t.calls(r, g, c, 4, 60, what)
		var grown int64
		per := r.N(500, 5000)
		for try := 0; ; try++ { // growth that goes on counts
			before := inUse()
			t.calls(r, g, c, 4, per, what)
			grown = inUse() - before
			if grown < int64(per)*4*100 {
				break
			}
			if try == 3 {
				r.Violation("memory grows with the number of calls", fmt.Sprintf("%s: %d bytes more are in use after each %d calls, four times", what, grown, 4*per))
			}
		}
		r.Count("calls_measured", int64(4*per))
		r.Max("most_bytes_grown", grown)
		r.Case(what, true)
		srv.Close()
		runtime.KeepAlive(c)
	}
	r.Finish()
}

// pools that are used directly and closed in the end
func pools(r *kit.Run, g *rand.Rand, round int) {
	for n := 0; n < 12; n++ {
		size := 1 + g.Intn(6)
		bad := n % 4
		what := fmt.Sprintf("a pool of %d that is closed, round %d, kind %d", size, round, bad)
		r.Step("R08 " + what)
		was, ran, _ := left()
		var turn int32
		srv := NewServer(serveWith(func(c *Conn, cmd []string) bool {
			if bad == 1 && atomic.AddInt32(&turn, 1)%3 == 0 {
				_, _ = c.Write([]byte("?\r\n"))
				return atomic.LoadInt32(&turn)%2 == 0
			}
			return c.Reply(good(cmd)) == nil
		}))
		var pool redis.Pool
		pool.Init(size, srv.Addr)
		var opened int32
		if bad == 2 {
			pool.AddConnOpenHandler(func(*redis.Conn) error {
				if atomic.AddInt32(&opened, 1)%2 == 0 {
					return errors.New("not now")
				}
				return nil
			})
		}
		var wg sync.WaitGroup
		for p := 0; p < 10; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				r.Guard(func() {
					for i := 0; i < 10; i++ {
						ctx, cancel := context.WithCancel(context.Background())
						if bad == 3 && i%2 == 0 {
							cancel()
						}
						if i%3 == 0 {
							cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", fmt.Sprint(p, ".", i))}
							pool.ExecCommand(ctx, &cmd)
						} else {
							_ = pool.Exec(ctx, func(c *redis.Conn) error {
								if i%4 == 0 {
									return errors.New("no")
								}
								_, err := do(c, "get", "k")
								return err
							})
						}
						cancel()
						r.Beat()
					}
				})
			}(p)
		}
		within(r, 40*time.Second, what, wg.Wait)
		within(r, 10*time.Second, what, func() { _ = pool.Close() })
		r.Count("calls", 100)
		for i := 0; ; i++ { // the server notices; its own end is closed then
			sockets, running, text := left()
			if srv.Open() == 0 && sockets-was <= 1 && running <= ran {
				break
			}
			if i > 400 {
				r.Violation("a closed pool leaves something behind", fmt.Sprintf("%s: %d connections at the server, %d sockets, %d goroutines\n%s", what, srv.Open(), sockets-was-1, running-ran, text))
			}
			time.Sleep(20 * time.Millisecond)
			r.Beat()
		}
		r.Case(what, true)
		srv.Close()
		runtime.KeepAlive(&pool)
	}
}
