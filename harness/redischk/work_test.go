package redischk

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/liujiangwei/xxcache/redis"

	"verif/harness/kit"
	. "verif/harness/resp"
)

func do(c *redis.Conn, args ...string) (string, error) {
	cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand(args...)}
	c.ExecCommand(context.Background(), &cmd)
	return cmd.Val, cmd.Err
}

// touchy is a command that panics when it is given its reply
type touchy struct{ redis.StringCommand }

func (t *touchy) Parse(redis.Message) { panic("own") }

// work gives functions to a pool: each runs once, has its connection for itself while it runs, and what it returns is
// what the caller gets. A caller whose context ends while it waits gets an error, and no room is lost by that.
func work(r *kit.Run, seed int64, round, size, limit int) {
	what := fmt.Sprintf("functions given to a pool, round %d, pool size %d", round, size)
	r.Step("R04 " + what)
	var bad int64
	srv := NewServer(func(c *Conn) {
		mark := ""
		for {
			cmd, err := c.Cmd()
			if err != nil {
				return
			}
			switch cmd[0] {
			case "mark":
				mark = cmd[1]
				_ = c.Reply(Simple("OK"))
			case "break":
				atomic.AddInt64(&bad, 1)
				_, _ = c.Write([]byte("$3\r\nabcdef\r\n"))
			default:
				_ = c.Reply(Bulk(mark))
			}
		}
	})
	defer srv.Close()
	var pool redis.Pool
	pool.Init(size, srv.Addr)

	var wg sync.WaitGroup
	var ran int64
	for p := 0; p < 12; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			h := rand.New(rand.NewSource(seed + int64(p)))
			r.Guard(func() {
				for i := 0; i < 12; i++ {
					token := fmt.Sprintf("%d.%d", p, i)
					ctx, cancel := context.Background(), context.CancelFunc(func() {})
					if h.Intn(4) == 0 {
						ctx, cancel = context.WithTimeout(ctx, time.Duration(h.Intn(2000))*time.Microsecond)
					}
					limited := ctx.Done() != nil
					var want error
					if h.Intn(3) == 0 {
						want = errors.New("my own " + token)
					}
					breaks := h.Intn(12) == 0
					n := 0
					nap := time.Duration(h.Intn(300)) * time.Microsecond
					err := pool.Exec(ctx, func(c *redis.Conn) error {
						n++
						if v, e := do(c, "mark", token); e != nil || v != "OK" {
							r.Violation("a function got a connection that does not work", fmt.Sprintf("%s: mark gave %s, %v", what, kit.Q(v), e))
						}
						time.Sleep(nap)
						if v, e := do(c, "check"); e != nil || v != token {
							r.Violation("two functions used one connection at a time", fmt.Sprintf("%s: check gave %s, %v, want %s", what, kit.Q(v), e, token))
						}
						if breaks {
							if v, e := do(c, "break"); e == nil {
								r.Violation("a garbled reply was taken for one", v)
							}
						}
						return want
					})
					cancel()
					atomic.AddInt64(&ran, int64(n))
					switch {
					case n > 1:
						r.Violation("a function given to the pool ran more than once", fmt.Sprintf("%s: %d times", what, n))
					case n == 0 && !limited:
						r.Violation("a function given to the pool did not run", fmt.Sprintf("%s: %v", what, err))
					case n == 0 && err == nil:
						r.Violation("a function that did not run is reported as done", what)
					case n == 1 && err != want:
						r.Violation("the pool returned another error than the function", fmt.Sprintf("%s: %v, want %v", what, err, want))
					}
					r.Beat()
				}
			})
		}(p)
	}
	within(r, 50*time.Second, what, wg.Wait)
	overLimit(r, srv, limit, what)

	// the pool is full: who waits with a limit gives up, and nothing is lost by that
	for pass := 0; pass < 2; pass++ {
		gate := make(chan struct{})
		var under, late int32
		var held sync.WaitGroup
		for p := 0; p < limit; p++ {
			held.Add(1)
			go func(p int) {
				defer held.Done()
				err := pool.Exec(context.Background(), func(c *redis.Conn) error {
					atomic.AddInt32(&under, 1)
					<-gate
					token := fmt.Sprintf("h%d", p)
					if v, e := do(c, "mark", token); e != nil || v != "OK" {
						return fmt.Errorf("mark gave %q, %v", v, e)
					}
					return nil
				})
				if err != nil {
					r.Violation("a function got a connection that does not work", what+": "+err.Error())
				}
			}(p)
		}
		for i := 0; int(atomic.LoadInt32(&under)) < limit; i++ {
			if i > 2000 {
				r.Violation("a call within the pool size waits for another", fmt.Sprintf("%s: %d functions under way, pass %d", what, atomic.LoadInt32(&under), pass))
			}
			time.Sleep(2 * time.Millisecond)
			r.Beat()
		}
		for _, d := range []time.Duration{0, time.Millisecond, 5 * time.Millisecond} {
			ctx, cancel := context.WithTimeout(context.Background(), d)
			within(r, 10*time.Second, what+", waiting with a limit for a full pool", func() {
				if err := pool.Exec(ctx, func(*redis.Conn) error { atomic.AddInt32(&late, 1); return nil }); err == nil {
					r.Violation("a call that gave up waiting reports success", what)
				}
				cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("check")}
				pool.ExecCommand(ctx, &cmd)
				if cmd.Err == nil {
					r.Violation("a call that gave up waiting reports success", what)
				}
			})
			cancel()
		}
		if atomic.LoadInt32(&late) != 0 {
			r.Violation("more functions than connections are under way", what)
		}
		close(gate)
		within(r, 30*time.Second, what, held.Wait)
	}
	overLimit(r, srv, limit, what)

	// functions that panic, or end their goroutine, more of them than there is room: all give their connection back
	for i := 0; i < 4*(limit+1); i++ {
		mode := i / (limit + 1)
		done := make(chan interface{})
		go func() {
			var got interface{} = "ended"
			defer func() {
				if x := recover(); x != nil {
					got = x
				}
				done <- got
			}()
			if mode == 3 { // a command of the caller's own
				pool.ExecCommand(context.Background(), &touchy{redis.StringCommand{BaseCommand: redis.NewBaseCommand("check")}})
				return
			}
			_ = pool.Exec(context.Background(), func(c *redis.Conn) error {
				if mode != 0 {
					_, _ = do(c, "mark", "panics")
				}
				if mode == 2 {
					runtime.Goexit()
				}
				panic("own")
			})
		}()
		want := interface{}("own")
		if mode == 2 {
			want = "ended"
		}
		within(r, 20*time.Second, fmt.Sprintf("%s, after %d functions that did not return", what, i), func() {
			if got := <-done; got != want {
				r.Violation("a panic in a function given to the pool is lost", fmt.Sprintf("%s: %v, want %v", what, got, want))
			}
		})
		r.Count("functions_that_did_not_return", 1)
	}
	var after sync.WaitGroup
	for p := 0; p < limit+1; p++ {
		after.Add(1)
		go func() {
			defer after.Done()
			if err := pool.Exec(context.Background(), func(c *redis.Conn) error { _, err := do(c, "mark", "after"); return err }); err != nil {
				r.Violation("a function got a connection that does not work", what+", after functions that did not return: "+err.Error())
			}
		}()
	}
	within(r, 30*time.Second, what+", after functions that did not return", after.Wait)
	overLimit(r, srv, limit, what)
	r.Count("functions_run", ran+int64(2*limit))
	r.Count("waits_given_up", 12)
	r.Case(fmt.Sprintf("%s ran %d broke %d", what, ran, atomic.LoadInt64(&bad)), true)
}

// unready: a function is given to a pool whose connections cannot be made ready; it must not run
func unready(r *kit.Run, e string) {
	what := fmt.Sprintf("function given to a pool whose connections are refused with %q", e)
	r.Step("R06 " + what)
	var mu sync.Mutex
	var carried []string
	refuse := true
	srv := NewServer(func(c *Conn) {
		for {
			cmd, err := c.Cmd()
			if err != nil {
				return
			}
			mu.Lock()
			no := refuse
			if no && cmd[0] != "auth" {
				carried = append(carried, strings.Join(cmd, " "))
			}
			mu.Unlock()
			if no && cmd[0] == "auth" {
				_ = c.Reply(Error(e))
			} else {
				_ = c.Reply(Simple("OK"))
			}
		}
	})
	defer srv.Close()
	var pool redis.Pool
	pool.Init(2, srv.Addr)
	var order []string
	pool.AddConnOpenHandler(func(c *redis.Conn) error { order = append(order, "first"); _, err := do(c, "auth", "pw"); return err })
	pool.AddConnOpenHandler(func(c *redis.Conn) error { order = append(order, "second"); _, err := do(c, "select", "3"); return err })
	for i := 0; i < 3; i++ {
		within(r, 10*time.Second, what, func() {
			n := 0
			if err := pool.Exec(context.Background(), func(c *redis.Conn) error { n++; return nil }); n != 0 || err == nil {
				r.Violation("a function ran on a connection whose handshake failed", fmt.Sprintf("%s: ran %d times, %v", what, n, err))
			}
			c, err := pool.Get(context.Background())
			if err == nil {
				r.Violation("a connection whose handshake failed was handed out", what)
			}
			_ = c
		})
	}
	mu.Lock()
	refuse = false
	order = nil
	mu.Unlock()
	within(r, 10*time.Second, what, func() {
		n := 0
		if err := pool.Exec(context.Background(), func(c *redis.Conn) error { n++; return nil }); n != 1 || err != nil {
			r.Violation("a function did not run although the handshake succeeds", fmt.Sprintf("%s: ran %d times, %v", what, n, err))
		}
	})
	if fmt.Sprint(order) != "[first second]" {
		r.Violation("the steps of the handshake ran in another order", fmt.Sprintf("%s: %v", what, order))
	}
	mu.Lock()
	defer mu.Unlock()
	if len(carried) > 0 {
		r.Violation("a connection whose handshake failed was used again", fmt.Sprintf("%s: %q", what, carried))
	}
	r.Count("functions_refused", 3)
}

// handshakes: while the server holds back the handshakes of some connections, calls on the others go on, those that
// open a connection of their own and those that wait for one to be free.
func handshakes(r *kit.Run, round, limit int) {
	if limit < 2 {
		return
	}
	what := fmt.Sprintf("held handshakes, round %d, pool size %d", round, limit)
	r.Step("R04 " + what)
	holdCmd := make(chan struct{})
	holdAuth := make(chan struct{})
	held := 1 + round%(limit-1) // so many handshakes are held back, at least one connection is fine
	var auths, waiting int32
	srv := NewServer(func(c *Conn) {
		for {
			cmd, err := c.Cmd()
			if err != nil {
				return
			}
			switch {
			case cmd[0] == "auth":
				if n := int(atomic.AddInt32(&auths, 1)); n > 1 && n <= 1+held {
					atomic.AddInt32(&waiting, 1)
					<-holdAuth
				}
				_ = c.Reply(Simple("OK"))
			case cmd[1] == "held":
				<-holdCmd
				_ = c.Reply(Bulk(answer(cmd[1])))
			default:
				_ = c.Reply(Bulk(answer(cmd[1])))
			}
		}
	})
	defer srv.Close()
	client := redis.NewClient(redis.Option{Addr: srv.Addr, PoolSize: limit, Password: "pw"})
	one := func(k string) {
		if v, err := client.Get(k); err != nil || v != answer(k) {
			r.Violation("a call beside held handshakes", fmt.Sprintf("%s: get %s gave %s, %v", what, k, kit.Q(v), err))
		}
	}
	within(r, 20*time.Second, what+": the first call", func() { one("first") })
	var slow, fast, late sync.WaitGroup
	start := func(wg *sync.WaitGroup, k string) {
		wg.Add(1)
		go func() { defer wg.Done(); r.Guard(func() { one(k) }) }()
	}
	reach := func(p *int32, n int, why string) {
		for i := 0; int(atomic.LoadInt32(p)) < n; i++ {
			if i > 3000 {
				r.Violation("a call within the pool size waits for another", fmt.Sprintf("%s: %s, %d of %d", what, why, atomic.LoadInt32(p), n))
			}
			time.Sleep(5 * time.Millisecond)
			r.Beat()
		}
	}
	start(&fast, "held") // keeps the first connection busy
	time.Sleep(5 * time.Millisecond)
	for i := 0; i < held; i++ {
		start(&slow, fmt.Sprintf("slow%d", i))
	}
	reach(&waiting, held, "connections are opened side by side")
	for i := 0; i < limit-1-held; i++ { // these open connections of their own
		start(&late, fmt.Sprintf("own%d", i))
	}
	within(r, 20*time.Second, what+": calls that open a connection while the handshake of another one is held", late.Wait)
	for i := 0; i < 3; i++ { // and these use the free ones, or wait for the first one
		start(&late, fmt.Sprintf("late%d", i))
	}
	time.Sleep(5 * time.Millisecond)
	close(holdCmd)
	within(r, 20*time.Second, what+": a call on the connection that is free again", fast.Wait)
	within(r, 20*time.Second, what+": calls that wait for a connection while the handshake of another one is held", late.Wait)
	close(holdAuth)
	within(r, 20*time.Second, what+": the calls whose handshakes were held", slow.Wait)
	overLimit(r, srv, limit, what)
	r.Count("handshakes_held", int64(held))
	r.Case(what, true)
}
