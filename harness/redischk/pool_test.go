package redischk

import (
	"context"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/liujiangwei/xxcache/redis"

	"verif/harness/kit"
	. "verif/harness/resp"
)

// within runs f, which has to return in time; nothing the client does may block for ever.
func within(r *kit.Run, d time.Duration, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); r.Guard(f) }()
	select {
	case <-done:
	case <-time.After(d):
		r.Violation("a call does not return", what)
	}
}

// token replies "<key>" of a get with a text only this command can have
func answer(key string) string { return "reply to " + key }

// ---- R04

type ledger struct {
	mu    sync.Mutex
	seen  map[string]int
	order []string
}

func (l *ledger) add(k string) {
	l.mu.Lock()
	l.seen[k]++
	l.order = append(l.order, k)
	l.mu.Unlock()
}

func runR04(r *kit.Run) {
	g := r.Rng(4)
	sizes := []int{0, 1, 2, 3, 5, 20, 35, -1}
	for round := 0; round < r.N(100, 1500); round++ {
		size := sizes[round%len(sizes)]
		goroutines, per := 48, 25
		crowd := round%50 == 11 // more callers and connections than usual
		if crowd {
			size, goroutines, per = [...]int{130, 5, 300}[round/50%3], 1500, 3
		}
		limit := size
		if size <= 0 {
			limit = 20
		}
		r.Step(fmt.Sprintf("R04 round %d, pool size %d", round, size))
		led := &ledger{seen: map[string]int{}}
		var maxOpen int32
		slow := g.Intn(3)
		seed := g.Int63()
		srv := NewServer(func(c *Conn) {
			if n := int32(c.S.Open()); n > atomic.LoadInt32(&maxOpen) {
				atomic.StoreInt32(&maxOpen, n)
			}
			h := rand.New(rand.NewSource(seed + int64(c.ID)))
			for {
				cmd, err := c.Cmd()
				if err != nil {
					if err.Error() != "EOF" && !strings.Contains(err.Error(), "closed") && !strings.Contains(err.Error(), "reset") {
						r.Violation("a connection carried something other than commands", err.Error())
					}
					return
				}
				if slow > 0 && h.Intn(4) == 0 {
					time.Sleep(time.Duration(h.Intn(1+slow*1500)) * time.Microsecond)
				}
				k := strings.Join(cmd[1:], " ")
				led.add(strings.ToLower(cmd[0]) + " " + k)
				var m Msg
				switch strings.ToLower(cmd[0]) {
				case "get":
					m = Bulk(answer(k))
					if len(k) > 0 && k[len(k)-1] == '7' {
						m = Bulk(answer(k) + strings.Repeat("+", 9000))
					}
				case "incrby":
					n, _ := strconv.Atoi(cmd[2])
					m = Int(int64(n) + 1)
				case "set":
					m = Simple("OK")
				case "getset":
					m = Error("ERR " + cmd[2])
				case "mget":
					m = Array()
					for _, k := range cmd[1:] {
						m.A = append(m.A, Bulk(answer(k)))
					}
				case "getrange":
					m = Nil()
				}
				b := m.Bytes()
				if h.Intn(8) == 0 && len(b) > 1 { // in two pieces
					_, _ = c.Write(b[:len(b)/2])
					time.Sleep(50 * time.Microsecond)
					b = b[len(b)/2:]
				}
				if _, err := c.Write(b); err != nil {
					return
				}
			}
		})
		client := redis.NewClient(redis.Option{Addr: srv.Addr, PoolSize: size})
		var issued sync.Map
		var wg sync.WaitGroup
		var start sync.WaitGroup
		start.Add(1)
		for p := 0; p < goroutines; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				start.Wait()
				h := rand.New(rand.NewSource(seed - int64(p)))
				r.Guard(func() {
					for i := 0; i < per; i++ {
						k := fmt.Sprintf("%d.%d.%d", round, p, i)
						switch h.Intn(8) {
						case 0, 1, 2:
							issued.Store("get "+k, true)
							v, err := client.Get(k)
							w := answer(k)
							if k[len(k)-1] == '7' {
								w += strings.Repeat("+", 9000)
							}
							if err != nil || v != w {
								r.Violation("a caller got another reply than its own", fmt.Sprintf("get %s gave %s, %v", k, kit.Q(v), err))
							}
						case 3, 4:
							n := p*1000 + i
							issued.Store(fmt.Sprintf("incrby %s %d", k, n), true)
							v, err := client.IncrBy(k, n)
							if err != nil || v != n+1 {
								r.Violation("a caller got another reply than its own", fmt.Sprintf("incrby %s %d gave %d, %v", k, n, v, err))
							}
						case 5:
							issued.Store("set "+k+" v", true)
							if v, err := client.Set(k, "v"); err != nil || v != "OK" {
								r.Violation("a caller got another reply than its own", fmt.Sprintf("set %s gave %s, %v", k, v, err))
							}
						case 6:
							if i%2 == 0 {
								issued.Store("getset "+k+" e"+k, true)
								if v, err := client.GetSet(k, "e"+k); err == nil || !strings.Contains(err.Error(), "e"+k) {
									r.Violation("a caller got another reply than its own", fmt.Sprintf("getset %s gave %s, %v", k, kit.Q(v), err))
								}
							} else {
								issued.Store("getrange "+k+" 0 1", true)
								if v, err := client.GetRange(k, 0, 1); err == nil {
									r.Violation("a caller got another reply than its own", fmt.Sprintf("getrange %s gave %s", k, kit.Q(v)))
								}
							}
						default:
							ks := []string{k + "a", k + "b"}
							issued.Store("mget "+strings.Join(ks, " "), true)
							v, err := client.MGet(ks...)
							if err != nil || len(v) != 2 || v[0] != interface{}(answer(ks[0])) || v[1] != interface{}(answer(ks[1])) {
								r.Violation("a caller got another reply than its own", fmt.Sprintf("mget %v gave %v, %v", ks, v, err))
							}
						}
						r.Beat()
					}
				})
			}(p)
		}
		start.Done()
		within(r, 50*time.Second, fmt.Sprintf("%d goroutines with a pool of %d", goroutines, size), wg.Wait)
		total := 0
		led.mu.Lock()
		open := int(atomic.LoadInt32(&maxOpen))
		issued.Range(func(k, _ interface{}) bool {
			total++
			if n := led.seen[k.(string)]; n != 1 {
				r.Violation("a command was not sent exactly once", fmt.Sprintf("%s: %d times", k, n))
			}
			return true
		})
		if len(led.order) != total || total != goroutines*per {
			r.Violation("the server saw other commands than were issued", fmt.Sprintf("%d issued, %d seen", total, len(led.order)))
		}
		overLimit(r, srv, limit, fmt.Sprintf("pool size %d", size))
		if open > limit {
			r.Violation("more connections than the pool size", fmt.Sprintf("%d open, pool size %d", open, size))
		}
		r.Max("most_connections", int64(open))
		r.Count("calls", int64(total))
		h := fnv.New64a()
		for _, k := range led.order {
			_, _ = h.Write([]byte(k + "\n"))
		}
		for i := 0; i < total-1; i++ {
			r.Case("", false)
		}
		r.Case(fmt.Sprintf("%d %d %x", round, size, h.Sum64()), true)
		if round < 3 {
			r.Sample(fmt.Sprintf("pool %d: %d goroutines x %d calls, %d connections, server order begins %s", size, goroutines, per, open, strings.Join(led.order[:6], " | ")))
		}
		led.mu.Unlock()
		srv.Close()

		// as many calls as the pool has room for are under way at once, the others wait for them and go on
		r.Step(fmt.Sprintf("R04 full pool, round %d, pool size %d", round, size))
		gate := make(chan struct{})
		var under, most int32
		srv = NewServer(func(c *Conn) {
			for {
				cmd, err := c.Cmd()
				if err != nil {
					return
				}
				n := atomic.AddInt32(&under, 1)
				for {
					m := atomic.LoadInt32(&most)
					if n <= m || atomic.CompareAndSwapInt32(&most, m, n) {
						break
					}
				}
				<-gate
				atomic.AddInt32(&under, -1)
				_ = c.Reply(Bulk(answer(cmd[1])))
			}
		})
		client = redis.NewClient(redis.Option{Addr: srv.Addr, PoolSize: size})
		var done int32
		var wg2 sync.WaitGroup
		callers := limit*2 + 1
		if crowd {
			callers += 2000
		}
		for p := 0; p < callers; p++ {
			wg2.Add(1)
			go func(p int) {
				defer wg2.Done()
				k := fmt.Sprintf("w%d", p)
				if v, err := client.Get(k); err != nil || v != answer(k) {
					r.Violation("a call that waited for a connection failed", fmt.Sprintf("%s %v", v, err))
				}
				atomic.AddInt32(&done, 1)
			}(p)
		}
		for i := 0; int(atomic.LoadInt32(&under)) < limit; i++ {
			if i > 2000 {
				r.Violation("a call within the pool size waits for another", fmt.Sprintf("%d commands under way, pool size %d", atomic.LoadInt32(&under), size))
			}
			time.Sleep(5 * time.Millisecond)
			r.Beat()
		}
		time.Sleep(10 * time.Millisecond)
		if m, d := int(atomic.LoadInt32(&most)), atomic.LoadInt32(&done); m > limit || d != 0 {
			r.Violation("more calls than connections are under way", fmt.Sprintf("%d, pool size %d, done %d", m, size, d))
		}
		close(gate)
		within(r, 30*time.Second, "calls beyond the pool size", wg2.Wait)
		overLimit(r, srv, limit, "full pool")
		r.Count("waiting_calls", int64(callers-limit))
		r.Max("most_callers", int64(callers))
		srv.Close()
		if crowd {
			continue
		}
		troubled(r, seed, round, size, limit)
		work(r, seed, round, size, limit)
		handshakes(r, round, limit)
		if round%4 == 0 {
			replaced(r, round, size, limit)
		}
		if round%3 == 0 || r.Thorough {
			outage(r, g, round, size, limit)
		}
	}
	r.Finish()
}

// troubled shares a client while replies are garbled and connections dropped: whoever gets a reply gets his own, no
// command is sent twice, and the calls under way never exceed the pool size.
func troubled(r *kit.Run, seed int64, round, size, limit int) {
	what := fmt.Sprintf("troubled server, round %d, pool size %d", round, size)
	r.Step("R04 " + what)
	led := &ledger{seen: map[string]int{}}
	var under, most, calm int32
	var struck int64
	srv := NewServer(func(c *Conn) {
		h := rand.New(rand.NewSource(seed + 77 + int64(c.ID)))
		for {
			cmd, err := c.Cmd()
			if err != nil {
				return
			}
			n := atomic.AddInt32(&under, 1)
			for {
				m := atomic.LoadInt32(&most)
				if n <= m || atomic.CompareAndSwapInt32(&most, m, n) {
					break
				}
			}
			led.add(cmd[1])
			if h.Intn(3) == 0 {
				time.Sleep(time.Duration(h.Intn(800)) * time.Microsecond)
			}
			b := Bulk(answer(cmd[1])).Bytes()
			fate := h.Intn(12)
			if atomic.LoadInt32(&calm) != 0 {
				fate = 11
			}
			// from here on the caller may take the call for finished
			atomic.AddInt32(&under, -1)
			if fate < 5 {
				atomic.AddInt64(&struck, 1)
			}
			switch fate {
			case 0: // no reply
				return
			case 1: // cut
				_, _ = c.Write(b[:h.Intn(len(b))])
				return
			case 2: // garbled, and then silent or ready for more
				_, _ = c.Write([]byte("$5\r\nabcdefgh\r\n"))
			case 3:
				_, _ = c.Write([]byte("?\r\n"))
			case 4: // closed after the reply
				_, _ = c.Write(b)
				return
			default:
				if _, err := c.Write(b); err != nil {
					return
				}
			}
		}
	})
	defer srv.Close()
	client := redis.NewClient(redis.Option{Addr: srv.Addr, PoolSize: size})
	var wg sync.WaitGroup
	var got, lost int64
	call := func(k string) bool {
		v, err := client.Get(k)
		r.Beat()
		if err != nil {
			atomic.AddInt64(&lost, 1)
			return false
		}
		atomic.AddInt64(&got, 1)
		if v != answer(k) {
			r.Violation("a caller got another reply than its own", fmt.Sprintf("%s: get %s gave %s", what, k, kit.Q(v)))
		}
		return true
	}
	for p := 0; p < 24; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			r.Guard(func() {
				for i := 0; i < 15; i++ {
					k := fmt.Sprintf("t%d.%d", p, i)
					ok := call(k)
					led.mu.Lock()
					n := led.seen[k]
					led.mu.Unlock()
					if n > 1 || ok && n != 1 {
						r.Violation("a command was not sent exactly once", fmt.Sprintf("%s: get %s: %d times, answered %v", what, k, n, ok))
					}
				}
			})
		}(p)
	}
	within(r, 50*time.Second, what, wg.Wait)
	if m := int(atomic.LoadInt32(&most)); m > limit {
		r.Violation("more calls than connections are under way", fmt.Sprintf("%s: %d", what, m))
	}
	overLimit(r, srv, limit, what)
	// and the pool is whole: as many calls as it has room for, at once, none of them lost for ever
	atomic.StoreInt32(&calm, 1)
	for p := 0; p < 2*limit+2; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			r.Guard(func() { call(fmt.Sprintf("c%d", p)) })
		}(p)
	}
	within(r, 30*time.Second, what+", calm again", wg.Wait)
	overLimit(r, srv, limit, what)
	r.Count("troubled_answered", got)
	r.Count("troubled_failed", lost)
	r.Count("troubled_faults", struck)
}

// replaced: connections that failed are replaced. The server holds back the answer to AUTH until no more connections
// than the limit are open, which never comes about when the old connection is closed only after the new one is ready.
func replaced(r *kit.Run, round, size, limit int) {
	what := fmt.Sprintf("connections being replaced, round %d, pool size %d", round, size)
	r.Step("R04 " + what)
	var garble int32 = 1
	var checked int64
	srv := NewServer(func(c *Conn) {
		for i := 0; ; i++ {
			cmd, err := c.Cmd()
			if err != nil {
				return
			}
			if strings.EqualFold(cmd[0], "auth") {
				for t := time.Now(); c.S.Open() > limit; time.Sleep(100 * time.Microsecond) {
					if time.Since(t) > 2*time.Second {
						r.Violation("more connections than the pool size", fmt.Sprintf("%s: %d open while a connection waits for the answer to AUTH", what, c.S.Open()))
					}
				}
				atomic.AddInt64(&checked, 1)
				_ = c.Reply(Simple("OK"))
				continue
			}
			if atomic.LoadInt32(&garble) != 0 {
				_, _ = c.Write([]byte("?\r\n"))
				continue
			}
			_ = c.Reply(Bulk(answer(cmd[1])))
		}
	})
	defer srv.Close()
	client := redis.NewClient(redis.Option{Addr: srv.Addr, PoolSize: size, Password: "pw"})
	for phase := 0; phase < 4; phase++ {
		atomic.StoreInt32(&garble, int32(1-phase&1))
		var wg sync.WaitGroup
		for p := 0; p < limit+2; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				r.Guard(func() {
					for i := 0; i < 2; i++ {
						k := fmt.Sprintf("r%d.%d.%d", phase, p, i)
						v, err := client.Get(k)
						if err == nil && v != answer(k) || err != nil && phase&1 == 1 && !strings.Contains(err.Error(), "unknown protocol") && i > 0 {
							r.Violation("a call on a pool of replaced connections", fmt.Sprintf("%s: get %s gave %s, %v", what, k, kit.Q(v), err))
						}
						r.Beat()
					}
				})
			}(p)
		}
		within(r, 50*time.Second, what, wg.Wait)
	}
	r.Count("replacements_judged", checked)
}

// outage: replacing connections fails for a while, with any number of calls. Afterwards exactly as many calls as the
// pool has room for are under way at once.
func outage(r *kit.Run, g *rand.Rand, round, size, limit int) {
	what := fmt.Sprintf("pool after an outage, round %d, pool size %d", round, size)
	r.Step("R04 " + what)
	var held, under, most int32
	gate := make(chan struct{})
	srv := NewServer(func(c *Conn) {
		for {
			cmd, err := c.Cmd()
			if err != nil {
				return
			}
			if atomic.LoadInt32(&held) != 0 {
				n := atomic.AddInt32(&under, 1)
				for m := atomic.LoadInt32(&most); n > m && !atomic.CompareAndSwapInt32(&most, m, n); m = atomic.LoadInt32(&most) {
				}
				<-gate
				atomic.AddInt32(&under, -1)
			}
			if c.Reply(Bulk(answer(cmd[1]))) != nil {
				return
			}
		}
	})
	defer srv.Close()
	client := redis.NewClient(redis.Option{Addr: srv.Addr, PoolSize: size})
	ask := func(n int, what string, must bool) {
		var wg sync.WaitGroup
		for p := 0; p < n; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				r.Guard(func() {
					k := fmt.Sprintf("o%d", p)
					if v, err := client.Get(k); err == nil && v != answer(k) || must && err != nil {
						r.Violation("a call before or after an outage", fmt.Sprintf("%s: get %s gave %s, %v", what, k, kit.Q(v), err))
					}
					r.Beat()
				})
			}(p)
		}
		within(r, 40*time.Second, what, wg.Wait)
	}
	for phase := 0; phase < 1+g.Intn(2); phase++ {
		ask(1+g.Intn(limit+2), what+", before", phase == 0)
		srv.Down(true)
		ask(1+g.Intn(2*limit+2), what+", during", false)
		srv.Up()
		ask(1+g.Intn(limit+2), what+", after", false)
	}
	ask(2*limit+2, what+", restored", false)
	overLimit(r, srv, limit, what)
	atomic.StoreInt32(&held, 1)
	done := make(chan struct{})
	go func() { defer close(done); ask(2*limit+3, what+", held", true) }()
	for i := 0; int(atomic.LoadInt32(&under)) < limit; i++ {
		if i > 2000 {
			r.Violation("a call within the pool size waits for another", fmt.Sprintf("%s: %d commands under way", what, atomic.LoadInt32(&under)))
		}
		time.Sleep(5 * time.Millisecond)
		r.Beat()
	}
	time.Sleep(10 * time.Millisecond)
	if m := int(atomic.LoadInt32(&most)); m > limit {
		r.Violation("more calls than connections are under way", fmt.Sprintf("%s: %d", what, m))
	}
	close(gate)
	<-done
	overLimit(r, srv, limit, what)
	r.Count("outages", 1)
}

// overLimit judges the number of open connections; one that is being replaced may take a moment to be seen closed.
func overLimit(r *kit.Run, srv *Server, limit int, what string) {
	for i := 0; srv.Open() > limit; i++ {
		if i > 100 {
			r.Violation("more connections than the pool size", fmt.Sprintf("%s: %d open, limit %d", what, srv.Open(), limit))
		}
		time.Sleep(20 * time.Millisecond)
		r.Beat()
	}
}

// ---- R05

// faulty answers get commands, except that a connection's fate may strike.
type faulty struct {
	mu     sync.Mutex
	fault  func(conn, cmd int) string // what happens to the cmd-th command of a connection
	open   func(conn int) string      // what happens to a new connection
	g      *rand.Rand
	struck map[string]int
}

func (f *faulty) handler(c *Conn) {
	hit := func(s string) {
		f.mu.Lock()
		f.struck[s]++
		f.mu.Unlock()
	}
	rnd := func(n int) int {
		f.mu.Lock()
		defer f.mu.Unlock()
		return f.g.Intn(n)
	}
	get := func(fn func() string) string {
		f.mu.Lock()
		defer f.mu.Unlock()
		return fn()
	}
	o := get(func() string { return f.open(c.ID) })
	if o != "" {
		hit("open " + o)
	}
	switch o {
	case "close":
		return
	case "reset":
		c.Reset()
		return
	}
	for i := 0; ; i++ {
		cmd, err := c.Cmd()
		if err != nil {
			return
		}
		name := strings.ToLower(cmd[0])
		if name == "auth" || name == "select" {
			if o == "refuse" {
				_ = c.Reply(Error("ERR not now"))
				continue
			}
			if o == "cut "+name {
				_, _ = c.Write([]byte("+O"))
				return
			}
			_ = c.Reply(Simple("OK"))
			continue
		}
		good := Bulk(answer(cmd[1])).Bytes()
		w := get(func() string { return f.fault(c.ID, i) })
		if w != "" {
			hit(w)
		}
		switch w {
		case "":
			_, _ = c.Write(good)
		case "close":
			return
		case "reset":
			c.Reset()
			return
		case "cut":
			_, _ = c.Write(good[:rnd(len(good))])
			return
		case "cut and stay": // the rest never comes; the connection is closed a little later
			_, _ = c.Write(good[:rnd(len(good))])
			time.Sleep(3 * time.Millisecond)
			return
		case "reply and close":
			_, _ = c.Write(good)
			return
		case "type": // not a reply; what follows looks like replies
			_, _ = c.Write([]byte("?garbage\r\n" + string(Bulk("leftover").Bytes()) + ":1\r\n"))
		case "length":
			_, _ = c.Write([]byte("$x\r\n" + string(Bulk("leftover").Bytes()) + "+leftover\r\n"))
		case "short length":
			_, _ = c.Write([]byte("$4\r\nleftover\r\n$8\r\nleftover\r\n"))
		case "array":
			_, _ = c.Write([]byte("*3\r\n:1\r\n$-5\r\n$8\r\nleftover\r\n$8\r\nleftover\r\n"))
		case "huge length":
			_, _ = c.Write([]byte("$99999999999999999999\r\nleftover\r\n$8\r\nleftover\r\n"))
		case "huge integer":
			_, _ = c.Write([]byte("*2\r\n:99999999999999999999\r\n$8\r\nleftover\r\n+leftover\r\n"))
		case "huge array":
			_, _ = c.Write([]byte("*99999999999999999999\r\n$8\r\nleftover\r\n$8\r\nleftover\r\n"))
		case "bad end":
			_, _ = c.Write([]byte("$4\r\nleft$8\r\nleftover\r\n$8\r\nleftover\r\n"))
		case "empty line":
			_, _ = c.Write([]byte("\r\n$8\r\nleftover\r\n"))
		case "integer":
			_, _ = c.Write([]byte(":1x\r\n$8\r\nleftover\r\n$8\r\nleftover\r\n"))
		case "html":
			_, _ = c.Write([]byte("HTTP/1.1 400 Bad Request\r\n\r\n+leftover\r\n$8\r\nleftover\r\n"))
		default:
			panic(w)
		}
	}
}

var cmdFaults = []string{"close", "reset", "cut", "cut and stay", "type", "length", "short length", "array", "integer", "html", "huge length", "huge integer", "huge array", "bad end", "empty line"}

func none2(int, int) string { return "" }
func none1(int) string      { return "" }

// get makes one call and judges that the reply is its own; the result tells whether it succeeded
func get(r *kit.Run, c *redis.Redis, k, what string) bool {
	var v string
	var err error
	within(r, 20*time.Second, what+" get "+k, func() { v, err = c.Get(k) })
	if err == nil && v != answer(k) {
		r.Violation("a call got another command's reply, or a garbled one, as its own", fmt.Sprintf("%s: get %s gave %s", what, k, kit.Q(v)))
	}
	r.Case(fmt.Sprintf("%s %v", what, err == nil), true)
	if err == nil {
		r.Count("calls_answered", 1)
	} else {
		r.Count("calls_failed", 1)
	}
	return err == nil
}

// healed: the server is well again, so at most one call per pooled connection fails and all later ones succeed
func healed(r *kit.Run, c *redis.Redis, srv *Server, size int, what string) {
	failed := 0
	for i := 0; i < 3*size+2; i++ {
		if !get(r, c, fmt.Sprintf("healed%d", i), what) {
			failed++
		}
	}
	if failed > size {
		r.Violation("calls keep failing after the server is back", fmt.Sprintf("%s: %d of %d sequential calls failed, pool size %d", what, failed, 3*size+2, size))
	}
	var bad int32
	var wg sync.WaitGroup
	for p := 0; p < size*3; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			for i := 0; i < 4; i++ {
				if !get(r, c, fmt.Sprintf("again%d.%d", p, i), what) {
					atomic.AddInt32(&bad, 1)
				}
			}
		}(p)
	}
	within(r, 25*time.Second, what+" concurrent calls after the server is back", wg.Wait)
	if failed+int(bad) > size {
		r.Violation("calls keep failing after the server is back", fmt.Sprintf("%s: %d sequential and %d concurrent calls failed, pool size %d", what, failed, bad, size))
	}
	// now every connection has been through a call or is fresh
	for i := 0; i < size+2; i++ {
		if !get(r, c, fmt.Sprintf("settled%d", i), what) {
			if failed+int(bad)+1 > size {
				r.Violation("calls keep failing after the server is back", what)
			}
			bad++
		}
	}
	overLimit(r, srv, size, what)
	r.Count("recoveries", 1)
}

func runR05(r *kit.Run) {
	g := r.Rng(5)
	mk := func(size int, opt redis.Option) (*faulty, *Server, *redis.Redis) {
		f := &faulty{fault: none2, open: none1, g: rand.New(rand.NewSource(g.Int63())), struck: map[string]int{}}
		srv := NewServer(f.handler)
		opt.Addr, opt.PoolSize = srv.Addr, size
		return f, srv, redis.NewClient(opt)
	}
	set := func(f *faulty, fault func(int, int) string, open func(int) string) {
		f.mu.Lock()
		f.fault, f.open = fault, open
		f.mu.Unlock()
	}
	tally := func(f *faulty) {
		f.mu.Lock()
		for k, n := range f.struck {
			r.Count("fault_"+k, int64(n))
		}
		f.mu.Unlock()
	}
	opts := []redis.Option{{}, {Password: "pw"}, {Password: "pw", Database: 3}, {ReadTimeout: 15 * time.Second, WriteTimeout: 15 * time.Second}}

	// single faults at each position, then recovery
	for _, size := range []int{1, 2, 4} {
		for _, w := range cmdFaults {
			for at := 0; at < r.N(8, 20); at++ {
				what := fmt.Sprintf("pool %d, %s at command %d of every connection", size, w, at)
				r.Step("R05 " + what)
				o := opts[at%len(opts)]
				f, srv, c := mk(size, o)
				skip := 0
				if o.Password != "" {
					skip++
				}
				if o.Database > 0 {
					skip++
				}
				set(f, func(conn, i int) string {
					if i-skip == at {
						return w
					}
					return ""
				}, none1)
				for i := 0; i < size*(at+2)+3; i++ {
					if get(r, c, fmt.Sprintf("k%d", i), what) {
						continue
					}
				}
				set(f, none2, none1)
				healed(r, c, srv, size, what)
				tally(f)
				srv.Close()
			}
		}
	}
	r.Sample("every fault of " + strings.Join(cmdFaults, ", ") + " at the n-th command of every connection, with pools of 1, 2 and 4")

	// handshake and dial faults
	for _, size := range []int{1, 2, 5} {
		for _, o := range []string{"close", "reset", "refuse", "cut auth", "cut select"} {
			for _, conc := range []int{1, 12} {
				what := fmt.Sprintf("pool %d, new connections: %s, %d callers", size, o, conc)
				r.Step("R05 " + what)
				f, srv, c := mk(size, redis.Option{Password: "pw", Database: 3})
				set(f, none2, func(int) string { return o })
				many(r, c, conc, size*3, what, true)
				set(f, none2, none1)
				healed(r, c, srv, size, what)
				tally(f)
				srv.Close()
			}
		}
		for _, conc := range []int{1, 12} {
			what := fmt.Sprintf("pool %d, server down, %d callers", size, conc)
			r.Step("R05 " + what)
			f, srv, c := mk(size, redis.Option{})
			srv.Down(true)
			many(r, c, conc, size*3, what, true)
			srv.Up()
			r.Count("outages", 1)
			healed(r, c, srv, size, what)
			// down again with connections in the pool
			what = "second outage, " + what
			srv.Down(true)
			time.Sleep(5 * time.Millisecond)
			many(r, c, conc, size*3, what, true)
			srv.Up()
			healed(r, c, srv, size, what)
			// only the connections drop
			what = "idle connections dropped, " + what
			srv.Drop()
			time.Sleep(5 * time.Millisecond)
			healed(r, c, srv, size, what)
			_ = f
			srv.Close()
		}
	}
	r.Sample("dial refused, handshake refused or cut, second outage, idle connections dropped; 1 and 12 callers")

	// a long outage, with every timeout set: nothing wears out
	for _, size := range []int{1, 3, 1, 2, 3, 1} {
		for _, o := range []redis.Option{{Timeout: time.Second, ReadTimeout: time.Second, WriteTimeout: time.Second, MaxRetry: 3}, {Password: "pw", Database: 1, Timeout: 2 * time.Second}} {
			for _, fault := range []string{"down", "refuse", "close"} {
				what := fmt.Sprintf("pool %d, a long outage (%s) with timeouts %v", size, fault, o.Timeout)
				r.Step("R05 " + what)
				f, srv, c := mk(size, o)
				if fault == "down" {
					srv.Down(true)
				} else if o.Password == "" {
					set(f, func(int, int) string { return "cut" }, none1)
				} else {
					set(f, none2, func(int) string { return fault })
				}
				n := [...]int{1, 3, 5, 6, 8, r.N(100, 3000)}[g.Intn(6)]
				what += fmt.Sprintf(", %d calls", 4*n)
				many(r, c, 4, n, what, fault == "down")
				set(f, none2, none1)
				if fault == "down" {
					srv.Up()
				}
				healed(r, c, srv, size, what)
				r.Count("long_outages", 1)
				srv.Close()
			}
		}
	}

	// random faults under concurrency, ownership of every reply judged
	for round := 0; round < r.N(250, 3000); round++ {
		size := 1 + g.Intn(6)
		o := opts[g.Intn(len(opts))]
		pct := 2 + g.Intn(40)
		what := fmt.Sprintf("storm %d, pool %d, %d%% faults", round, size, pct)
		r.Step("R05 " + what)
		f, srv, c := mk(size, o)
		set(f, func(conn, i int) string {
			if f.g.Intn(100) < pct {
				if f.g.Intn(6) == 0 {
					return "reply and close"
				}
				return cmdFaults[f.g.Intn(len(cmdFaults))]
			}
			return ""
		}, func(conn int) string {
			if f.g.Intn(100) < pct/2 {
				return [...]string{"close", "reset", "refuse", "cut auth", "cut select"}[f.g.Intn(5)]
			}
			return ""
		})
		stop := make(chan struct{})
		var dropping sync.WaitGroup
		if round%4 == 0 {
			dropping.Add(1)
			go func() {
				defer dropping.Done()
				for {
					select {
					case <-stop:
						return
					case <-time.After(2 * time.Millisecond):
						srv.Drop()
					}
				}
			}()
		}
		many(r, c, 16, 20, what, false)
		close(stop)
		dropping.Wait()
		set(f, none2, none1)
		time.Sleep(3 * time.Millisecond)
		healed(r, c, srv, size, what)
		tally(f)
		srv.Close()
		if round < 2 {
			r.Sample(what)
		}
	}

	closing(r, g)
	r.Finish()
}

// many makes calls from several goroutines; with mustFail none of them can have been answered
func many(r *kit.Run, c *redis.Redis, goroutines, per int, what string, mustFail bool) {
	var wg sync.WaitGroup
	for p := 0; p < goroutines; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			for i := 0; i < per; i++ {
				if get(r, c, fmt.Sprintf("m%d.%d", p, i), what) && mustFail {
					r.Violation("a call succeeded without a server", what)
				}
			}
		}(p)
	}
	within(r, 40*time.Second, what, wg.Wait)
}

// closing a pool closes its idle connections and returns
func closing(r *kit.Run, g *rand.Rand) {
	for round := 0; round < r.N(400, 4000); round++ {
		size := 1 + g.Intn(6)
		idle := g.Intn(size + 1)
		used := g.Intn(size - idle + 1)
		broken := g.Intn(idle + 1)
		what := fmt.Sprintf("closing a pool of %d with %d idle connections, %d in use, %d of the idle failed before", size, idle, used, broken)
		r.Step("R05 " + what)
		var mu sync.Mutex
		closedN := map[int]bool{}
		breaking := map[string]bool{}
		srv := NewServer(func(c *Conn) {
			for {
				cmd, err := c.Cmd()
				if err != nil {
					mu.Lock()
					closedN[c.ID] = true
					mu.Unlock()
					return
				}
				mu.Lock()
				b := breaking[cmd[1]]
				mu.Unlock()
				if b {
					_, _ = c.Write([]byte("?\r\n"))
					continue
				}
				_ = c.Reply(Bulk(answer(cmd[1])))
			}
		})
		var pool redis.Pool
		pool.Init(size, srv.Addr)
		var held []*redis.Conn
		for i := 0; i < idle+used; i++ {
			within(r, 10*time.Second, what, func() {
				c, err := pool.Get(context.Background())
				if err != nil {
					r.Violation("no connection from the pool", err.Error())
				}
				held = append(held, c)
			})
		}
		for i := 0; i < idle; i++ {
			k := fmt.Sprintf("c%d", i)
			mu.Lock()
			breaking[k] = i < broken
			mu.Unlock()
			cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", k)}
			within(r, 10*time.Second, what, func() { held[i].ExecCommand(context.Background(), &cmd) })
			if (cmd.Err != nil) != (i < broken) {
				r.Violation("a command on a pooled connection", fmt.Sprint(what, cmd.Err))
			}
		}
		for i := 0; i < idle; i++ {
			within(r, 10*time.Second, what, func() { pool.Put(held[i]) })
		}
		within(r, 10*time.Second, what, func() {
			if err := pool.Close(); err != nil {
				r.Violation("closing the pool failed", what+": "+err.Error())
			}
		})
		for i := 0; ; i++ {
			mu.Lock()
			n := len(closedN)
			mu.Unlock()
			if n == idle {
				break
			}
			if n > idle || i > 500 {
				r.Violation("closing the pool did not close exactly its idle connections", fmt.Sprintf("%s: %d closed", what, n))
			}
			time.Sleep(10 * time.Millisecond)
			r.Beat()
		}
		for i := idle; i < idle+used; i++ { // those in use still work
			k := fmt.Sprintf("u%d", i)
			cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", k)}
			within(r, 10*time.Second, what, func() { held[i].ExecCommand(context.Background(), &cmd) })
			if cmd.Err != nil || cmd.Val != answer(k) {
				r.Violation("a connection in use was closed with the pool", fmt.Sprint(what, cmd.Err))
			}
			_ = held[i].Close()
		}
		for i := used; i < size; i++ { // the closed pool can be asked again: it answers, it does not hang
			within(r, 10*time.Second, what+", asked again", func() {
				if c, err := pool.Get(context.Background()); err == nil {
					cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", "reopened")}
					c.ExecCommand(context.Background(), &cmd)
					if cmd.Err == nil && cmd.Val != answer("reopened") {
						r.Violation("a call got another command's reply, or a garbled one, as its own", what+" "+cmd.Val)
					}
					_ = c.Close()
				}
			})
		}
		r.Case(what, true)
		r.Count("pools_closed", 1)
		srv.Close()
	}
	// some connections failed and could not be replaced, because no new ones were accepted; the others are well
	for round := 0; round < r.N(30, 300); round++ {
		size := 2 + g.Intn(4)
		broken := 1 + g.Intn(size-1)
		what := fmt.Sprintf("closing a pool of %d of which %d failed and were not replaced", size, broken)
		r.Step("R05 " + what)
		var mu sync.Mutex
		open := 0
		refuse := false
		srv := NewServer(func(c *Conn) {
			mu.Lock()
			no := refuse
			if !no {
				open++
			}
			mu.Unlock()
			if no {
				return
			}
			defer func() { mu.Lock(); open--; mu.Unlock() }()
			for {
				cmd, err := c.Cmd()
				if err != nil {
					return
				}
				switch cmd[0] {
				case "auth":
					_ = c.Reply(Simple("OK"))
				case "break":
					_, _ = c.Write([]byte("?\r\n"))
				default:
					_ = c.Reply(Bulk(answer(cmd[1])))
				}
			}
		})
		var pool redis.Pool
		pool.Init(size, srv.Addr)
		pool.AddConnOpenHandler(func(c *redis.Conn) error {
			cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("auth", "x")}
			c.ExecCommand(context.Background(), &cmd)
			return cmd.Err
		})
		var held []*redis.Conn
		for i := 0; i < size; i++ {
			within(r, 10*time.Second, what, func() {
				c, err := pool.Get(context.Background())
				if err != nil {
					r.Violation("no connection from the pool", err.Error())
				}
				held = append(held, c)
			})
		}
		for i, c := range held {
			name := "get"
			if i < broken {
				name = "break"
			}
			cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand(name, "k")}
			c.ExecCommand(context.Background(), &cmd)
		}
		for _, i := range g.Perm(size) {
			pool.Put(held[i])
		}
		mu.Lock()
		refuse = true
		mu.Unlock()
		for i := 0; i < size+1; i++ {
			cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", "k")}
			within(r, 10*time.Second, what, func() { pool.ExecCommand(context.Background(), &cmd) })
		}
		within(r, 10*time.Second, what, func() {
			if err := pool.Close(); err != nil {
				r.Violation("closing the pool failed", what+": "+err.Error())
			}
		})
		for i := 0; ; i++ {
			mu.Lock()
			n := open
			mu.Unlock()
			if n == 0 {
				break
			}
			if i > 500 {
				r.Violation("closing the pool did not close exactly its idle connections", fmt.Sprintf("%s: %d still open", what, n))
			}
			time.Sleep(10 * time.Millisecond)
			r.Beat()
		}
		r.Case(fmt.Sprint(what, round), true)
		r.Count("pools_closed_after_failures", 1)
		srv.Close()
	}
}

// ---- R06

type connLog struct {
	id     int
	events []string
	ended  bool // the client closed it
}

func runR06(r *kit.Run) {
	g := r.Rng(6)
	pws := []string{"", "secret", "p w", "päss\r\n$3\r\nwörd\x00\xff", "default 1", " pw ", "\tpw\n", "\"pw\"", strings.Repeat("x", 5000)}
	for size := 1; size < 3; size++ {
		r06(r, g, "pw", 5, "", size, "long")
		r06(r, g, "pw", 0, "", size, "long")
		r06(r, g, "", 5, "", size, "long")
	}
	dbs := []int{0, 1, 15, 1000, 1<<31 - 1}
	faults := []string{"", "auth err", "auth close", "auth cut", "auth garbage", "auth nil", "select err", "select close", "select cut", "select garbage", "select nil"}
	n := 0
	for _, pw := range pws {
		for _, db := range dbs {
			for _, fault := range faults {
				if strings.HasPrefix(fault, "auth") && pw == "" || strings.HasPrefix(fault, "select") && db == 0 {
					continue
				}
				for _, size := range []int{1, 3} {
					for _, mode := range []string{"first", "alternate", "renew"} {
						if fault == "" && mode == "alternate" {
							continue
						}
						r06(r, g, pw, db, fault, size, mode)
						n++
					}
				}
			}
		}
	}
	for _, e := range kit.Errors { // whatever the refusal says
		for _, step := range []string{"auth", "select"} {
			refusal(r, step, e)
			n++
		}
		unready(r, e)
		n++
	}
	for i := 0; i < r.N(20, 400); i++ {
		r06(r, g, pws[g.Intn(len(pws))], dbs[g.Intn(len(dbs))], "storm", 1+g.Intn(5), "storm")
		n++
	}
	r.Count("configurations", int64(n))
	r.Finish()
}

// refusal: a step of the handshake is answered with an error; no command may follow
func refusal(r *kit.Run, step, e string) {
	what := fmt.Sprintf("%s refused with %q", step, e)
	var mu sync.Mutex
	var bad []string
	srv := NewServer(func(c *Conn) {
		refused := false
		for {
			cmd, err := c.Cmd()
			if err != nil {
				return
			}
			name := strings.ToLower(cmd[0])
			mu.Lock()
			if refused || name != "auth" && name != "select" {
				bad = append(bad, strings.Join(cmd, " "))
			}
			mu.Unlock()
			switch name {
			case step:
				refused = true
				_ = c.Reply(Error(e))
			case "auth", "select":
				_ = c.Reply(Simple("OK"))
			default:
				_ = c.Reply(Bulk(answer(cmd[1])))
			}
		}
	})
	defer srv.Close()
	c := redis.NewClient(redis.Option{Addr: srv.Addr, PoolSize: 1, Password: "pw", Database: 2})
	for i := 0; i < 2; i++ {
		if get(r, c, fmt.Sprintf("k%d", i), what) {
			r.Violation("a call succeeded although its connection's handshake failed", what)
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if len(bad) > 0 {
		r.Violation("a connection whose handshake failed was used again", fmt.Sprintf("%s: %q", what, bad))
	}
	r.Count("refusals", 1)
}

func r06(r *kit.Run, g *rand.Rand, pw string, db int, fault string, size int, mode string) {
	what := fmt.Sprintf("password %s, database %d, fault %q (%s), pool %d", kit.Q(pw), db, fault, mode, size)
	r.Step("R06 " + what)
	var mu sync.Mutex
	var logs []*connLog
	well := false
	h := rand.New(rand.NewSource(g.Int63()))
	srv := NewServer(func(c *Conn) {
		mu.Lock()
		l := &connLog{id: len(logs)}
		logs = append(logs, l)
		// which step fails here
		bad := ""
		if !well {
			switch mode {
			case "first":
				bad = fault
			case "alternate":
				if l.id%2 == 0 {
					bad = fault
				}
			case "storm":
				bad = [...]string{"", "auth err", "auth close", "select err", "select cut", "auth garbage", "drop"}[h.Intn(7)]
			}
		}
		mu.Unlock()
		note := func(s string) {
			mu.Lock()
			l.events = append(l.events, s)
			mu.Unlock()
		}
		for i := 0; ; i++ {
			cmd, err := c.Cmd()
			if err != nil {
				mu.Lock()
				l.ended = true
				mu.Unlock()
				if strings.Contains(err.Error(), "malformed") {
					r.Violation("a connection carried something other than commands", what+": "+err.Error())
				}
				return
			}
			name := strings.ToLower(cmd[0])
			note(name + " " + strings.Join(cmd[1:], " "))
			if strings.HasPrefix(bad, name+" ") {
				note("refused")
				switch strings.Fields(bad)[1] {
				case "err":
					mu.Lock()
					e := kit.Errors[h.Intn(len(kit.Errors))]
					mu.Unlock()
					_ = c.Reply(Error(e))
				case "close":
					return
				case "cut":
					_, _ = c.Write([]byte("+O"))
					return
				case "garbage":
					_, _ = c.Write([]byte("OK\r\n+OK\r\n+OK\r\n$2\r\nok\r\n"))
				case "nil":
					_ = c.Reply(Nil())
				}
				continue
			}
			switch name {
			case "auth", "select":
				_ = c.Reply(Simple("OK"))
			default:
				mu.Lock()
				drop := !well && (mode == "renew" && h.Intn(3) == 0 || bad == "drop")
				mu.Unlock()
				if drop {
					if h.Intn(2) == 0 {
						_, _ = c.Write([]byte("$5\r\nxx"))
					}
					return
				}
				_ = c.Reply(Bulk(answer(cmd[1])))
			}
		}
	})
	c := redis.NewClient(redis.Option{Addr: srv.Addr, PoolSize: size, Password: pw, Database: db})
	calls := func(k int, conc int) (failed int32) {
		var wg sync.WaitGroup
		for p := 0; p < conc; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				for i := 0; i < k; i++ {
					if !get(r, c, fmt.Sprintf("k%d.%d", p, i), what) {
						atomic.AddInt32(&failed, 1)
					}
				}
			}(p)
		}
		within(r, 400*time.Second, what, wg.Wait)
		return
	}
	if mode == "first" && fault != "" {
		if f := calls(3, 2); f != 6 {
			r.Violation("a call succeeded although its connection's handshake failed", what)
		}
	} else if mode == "long" {
		calls(r.N(6000, 70000), 1+size)
	} else {
		calls(4, 1+size)
	}
	mu.Lock()
	well = true
	mu.Unlock()
	healed(r, c, srv, size, what)
	time.Sleep(time.Millisecond)
	// the logs
	var need []string
	if pw != "" {
		need = append(need, "auth "+pw)
	}
	if db > 0 {
		need = append(need, "select "+strconv.Itoa(db))
	}
	for try := 0; ; try++ {
		mu.Lock()
		waiting := false
		for _, l := range logs {
			at := 0
			failed := false
			for i, e := range l.events {
				if e == "refused" {
					failed = true
					if i != len(l.events)-1 {
						r.Violation("a connection whose handshake failed was used again", what+"\n"+strings.Join(l.events, "\n"))
					}
					continue
				}
				if at < len(need) {
					if e != need[at] {
						r.Violation("a command before authentication and selection", what+fmt.Sprintf("\nwant %q\ngot %q", need[at], l.events))
					}
					at++
					continue
				}
				if !strings.HasPrefix(e, "get ") {
					r.Violation("a command nobody issued", what+fmt.Sprintf("\n%q", l.events))
				}
			}
			if failed && !l.ended && !strings.HasSuffix(fault, "close") && !strings.HasSuffix(fault, "cut") && mode != "storm" {
				waiting = true // the client has yet to close it
				if try > 300 {
					r.Violation("a connection whose handshake failed is not closed", what+fmt.Sprintf("\n%q", l.events))
				}
			}
			if try == 0 {
				r.Case(what+"|"+kit.Q(strings.Join(l.events, ",")), true)
				r.Count("connections_judged", 1)
				if failed {
					r.Count("handshakes_refused", 1)
				}
			}
		}
		mu.Unlock()
		if !waiting {
			break
		}
		time.Sleep(10 * time.Millisecond)
		r.Beat()
	}
	if r.NSamples() < 3 && fault != "" {
		mu.Lock()
		r.Sample(fmt.Sprintf("%s: %d connections, first %q", what, len(logs), logs[0].events))
		mu.Unlock()
	}
	srv.Close()
}

// ---- R07

func runR07(r *kit.Run) {
	const margin = 2500 * time.Millisecond
	echo := func(c *Conn) {
		for {
			cmd, err := c.Cmd()
			if err != nil {
				return
			}
			if c.Reply(Bulk(answer(cmd[1]))) != nil {
				return
			}
		}
	}
	type timing struct {
		name string
		run  func() string // what went wrong, which has to repeat to count when it is about time
	}
	// a server that answers each get after the delay its key asks for: "d<ms>..."
	delayed := func() (*Server, *int32) {
		var late int32
		return NewServer(func(c *Conn) {
			_ = c.Conn.(*net.TCPConn).SetReadBuffer(1 << 16)
			for {
				cmd, err := c.Cmd()
				if err != nil {
					return
				}
				d := 0
				_, _ = fmt.Sscanf(cmd[1], "d%d", &d)
				if strings.HasPrefix(cmd[1], "never") {
					select {}
				}
				time.Sleep(time.Duration(d) * time.Millisecond)
				if d > 0 {
					atomic.AddInt32(&late, 1)
				}
				b := Bulk(answer(cmd[1])).Bytes()
				if strings.Contains(cmd[1], "half") {
					_, _ = c.Write(b[:len(b)/2])
					time.Sleep(time.Duration(d) * time.Millisecond)
					b = b[len(b)/2:]
				}
				if strings.Contains(cmd[1], "drip") {
					for i := range b {
						if _, err := c.Write(b[i : i+1]); err != nil {
							return
						}
						time.Sleep(40 * time.Millisecond)
					}
					continue
				}
				if _, err := c.Write(b); err != nil {
					return
				}
			}
		}), &late
	}
	var all []timing
	add := func(name string, f func() string) { all = append(all, timing{name, f}) }
	call := func(c *redis.Redis, k string) (ok bool, took time.Duration, wrong string) {
		t0 := time.Now()
		v, err := c.Get(k)
		took = time.Since(t0)
		if err == nil && v != answer(k) {
			r.Violation("a late reply was handed to another call", fmt.Sprintf("get %s gave %s", k, kit.Q(v)))
		}
		return err == nil, took, ""
	}
	reads := []redis.Option{{ReadTimeout: 200 * time.Millisecond}, {ReadTimeout: 200 * time.Millisecond, WriteTimeout: 300 * time.Millisecond}, {ReadTimeout: 200 * time.Millisecond, WriteTimeout: 7 * time.Second, Timeout: 7 * time.Second}}
	for oi, o := range reads {
		for _, size := range []int{1, 3} {
			for _, k := range []string{"never", "d600", "d600half", "d0drip"} {
				o, size, k := o, size, k
				add(fmt.Sprintf("unanswered %s, option %d, pool %d", k, oi, size), func() string {
					srv, _ := delayed()
					defer srv.Close()
					o := o
					o.Addr, o.PoolSize = srv.Addr, size
					c := redis.NewClient(o)
					if ok, _, _ := call(c, "first"); !ok {
						return "a call answered at once failed"
					}
					var worst int64
					var wg sync.WaitGroup
					for p := 0; p < size; p++ {
						wg.Add(1)
						go func(p int) {
							defer wg.Done()
							ok, took, _ := call(c, fmt.Sprintf("%s.%d", k, p))
							if ok {
								r.Violation("a call waited longer than its read timeout", fmt.Sprintf("%s with %v: %v", k, o.ReadTimeout, took))
							}
							if int64(took) > atomic.LoadInt64(&worst) {
								atomic.StoreInt64(&worst, int64(took))
							}
						}(p)
					}
					wg.Wait()
					if time.Duration(worst) > o.ReadTimeout+margin {
						return fmt.Sprintf("a call took %v with a read timeout of %v", time.Duration(worst), o.ReadTimeout)
					}
					if time.Duration(worst) < o.ReadTimeout-20*time.Millisecond {
						return fmt.Sprintf("a call gave up after %v with a read timeout of %v", time.Duration(worst), o.ReadTimeout)
					}
					// calls after that, before, while and after the late reply arrives
					for i := 0; i < 12; i++ {
						if ok, _, _ := call(c, fmt.Sprintf("after%d", i)); !ok {
							return "a call after the one that gave up failed"
						}
						time.Sleep(60 * time.Millisecond)
					}
					return ""
				})
			}
		}
	}
	for _, o := range reads { // an answer in many parts, none of them late
		for _, parts := range []int{40, 400} {
			o, parts := o, parts
			add(fmt.Sprintf("an answer in %d parts, %v %v", parts, o.ReadTimeout, o.WriteTimeout), func() string {
				srv := NewServer(func(c *Conn) {
					for {
						cmd, err := c.Cmd()
						if err != nil {
							return
						}
						if strings.EqualFold(cmd[0], "get") {
							_ = c.Reply(Bulk(answer(cmd[1])))
							continue
						}
						_, _ = c.Write([]byte(fmt.Sprintf("*%d\r\n", len(cmd)-1)))
						for range cmd[1:] {
							if _, err := c.Write([]byte("$1\r\nx\r\n")); err != nil {
								return
							}
							time.Sleep(120 * time.Millisecond)
						}
					}
				})
				defer srv.Close()
				o := o
				o.Addr, o.PoolSize = srv.Addr, 1
				c := redis.NewClient(o)
				if ok, _, _ := call(c, "first"); !ok {
					return "a call answered at once failed"
				}
				var keys []string
				for i := 0; i < parts; i++ {
					keys = append(keys, fmt.Sprint("k", i))
				}
				t0 := time.Now()
				_, err := c.MGet(keys...)
				if took := time.Since(t0); err == nil || took > o.ReadTimeout+margin {
					return fmt.Sprintf("a call answered in parts took %v with a read timeout of %v (%v)", took, o.ReadTimeout, err)
				}
				if ok, _, _ := call(c, "after"); !ok {
					return "a call after the one that gave up failed"
				}
				return ""
			})
		}
	}
	for _, o := range []redis.Option{{ReadTimeout: time.Second}, {ReadTimeout: time.Second, WriteTimeout: time.Second}, {WriteTimeout: 300 * time.Millisecond}, {}} {
		for _, k := range []string{"d250", "d0", "d120half"} {
			o, k := o, k
			add(fmt.Sprintf("answered in time %s %v %v", k, o.ReadTimeout, o.WriteTimeout), func() string {
				srv, _ := delayed()
				defer srv.Close()
				o := o
				o.Addr, o.PoolSize = srv.Addr, 2
				c := redis.NewClient(o)
				for i := 0; i < 4; i++ {
					if ok, took, _ := call(c, fmt.Sprintf("%s.%d", k, i)); !ok {
						return fmt.Sprintf("a call the server answered in time failed after %v", took)
					}
				}
				// longer idle than any timeout
				time.Sleep(1300 * time.Millisecond)
				for i := 0; i < 5; i++ {
					if ok, took, _ := call(c, fmt.Sprintf("%s.idle%d", k, i)); !ok {
						return fmt.Sprintf("a call on a connection that had been idle failed after %v", took)
					}
				}
				if n := srv.Accepted(); n > 2 {
					return fmt.Sprintf("%d connections", n)
				}
				return ""
			})
		}
	}
	for _, o := range []redis.Option{{}, {WriteTimeout: 200 * time.Millisecond}, {WriteTimeout: 30 * time.Millisecond}, {Timeout: 300 * time.Millisecond}, {Timeout: 30 * time.Millisecond, WriteTimeout: 3 * time.Second}} {
		o := o
		add(fmt.Sprintf("no read timeout, write timeout %v", o.WriteTimeout), func() string {
			srv, _ := delayed()
			defer srv.Close()
			o := o
			o.Addr, o.PoolSize = srv.Addr, 1
			c := redis.NewClient(o)
			if ok, took, _ := call(c, "d1800"); !ok {
				return fmt.Sprintf("a slow answer was not waited for without a read timeout, %v", took)
			}
			return ""
		})
	}
	big := strings.Repeat("v", 48<<20)
	for _, o := range []redis.Option{{WriteTimeout: 300 * time.Millisecond}, {ReadTimeout: 30 * time.Second, WriteTimeout: 300 * time.Millisecond}} {
		o := o
		add(fmt.Sprintf("a server that does not read, %v %v", o.ReadTimeout, o.WriteTimeout), func() string {
			var stalled int32 = 1
			srv := NewServer(func(c *Conn) {
				_ = c.Conn.(*net.TCPConn).SetReadBuffer(1 << 16)
				for atomic.LoadInt32(&stalled) != 0 {
					time.Sleep(10 * time.Millisecond)
				}
				for {
					cmd, err := c.Cmd()
					if err != nil {
						return
					}
					if strings.EqualFold(cmd[0], "set") {
						_ = c.Reply(Simple("OK"))
					} else {
						_ = c.Reply(Bulk(answer(cmd[1])))
					}
				}
			})
			defer srv.Close()
			o := o
			o.Addr, o.PoolSize = srv.Addr, 1
			c := redis.NewClient(o)
			t0 := time.Now()
			_, err := c.Set("k", big)
			took := time.Since(t0)
			if err == nil {
				return "a write to a server that does not read succeeded"
			}
			if took > o.WriteTimeout+margin {
				return fmt.Sprintf("a call took %v with a write timeout of %v", took, o.WriteTimeout)
			}
			atomic.StoreInt32(&stalled, 0)
			for i := 0; i < 5; i++ {
				if ok, _, _ := call(c, fmt.Sprintf("after%d", i)); !ok {
					return "a call after the one that gave up failed"
				}
			}
			if v, err := c.Set("k", "v"); err != nil || v != "OK" {
				return "a write after the one that gave up failed"
			}
			return ""
		})
	}
	// a stalled handshake
	add("a server that does not answer the handshake", func() string {
		var stalled int32 = 1
		srv := NewServer(func(c *Conn) {
			stall := atomic.LoadInt32(&stalled) != 0
			for {
				cmd, err := c.Cmd()
				if err != nil {
					return
				}
				if stall {
					continue
				}
				if strings.EqualFold(cmd[0], "get") {
					_ = c.Reply(Bulk(answer(cmd[1])))
				} else {
					_ = c.Reply(Simple("OK"))
				}
			}
		})
		defer srv.Close()
		c := redis.NewClient(redis.Option{Addr: srv.Addr, PoolSize: 2, Password: "pw", Database: 2, ReadTimeout: 300 * time.Millisecond})
		for i := 0; i < 2; i++ {
			ok, took, _ := call(c, "k")
			if ok {
				return "a call succeeded without a handshake"
			}
			if took > 300*time.Millisecond+margin {
				return fmt.Sprintf("a call took %v with a read timeout of 300ms", took)
			}
		}
		atomic.StoreInt32(&stalled, 0)
		for i := 0; i < 6; i++ {
			if ok, _, _ := call(c, fmt.Sprintf("after%d", i)); !ok {
				return "a call after the stalled handshake failed"
			}
		}
		return ""
	})
	// handshakes that stall side by side
	for _, n := range []int{2, 20} {
		n := n
		add(fmt.Sprintf("a server that does not answer %d handshakes", n), func() string {
			var stalled int32 = 1
			srv := NewServer(func(c *Conn) {
				stall := atomic.LoadInt32(&stalled) != 0
				for {
					cmd, err := c.Cmd()
					if err != nil {
						return
					}
					if stall {
						continue
					}
					if strings.EqualFold(cmd[0], "get") {
						_ = c.Reply(Bulk(answer(cmd[1])))
					} else {
						_ = c.Reply(Simple("OK"))
					}
				}
			})
			defer srv.Close()
			const timeout = 500 * time.Millisecond
			c := redis.NewClient(redis.Option{Addr: srv.Addr, PoolSize: n, Password: "pw", ReadTimeout: timeout})
			var worst int64
			var wg sync.WaitGroup
			for p := 0; p < n; p++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					ok, took, _ := call(c, "k")
					if ok {
						r.Violation("a call succeeded without a handshake", fmt.Sprintf("%d at once", n))
					}
					for w := atomic.LoadInt64(&worst); int64(took) > w && !atomic.CompareAndSwapInt64(&worst, w, int64(took)); w = atomic.LoadInt64(&worst) {
					}
				}()
			}
			wg.Wait()
			if time.Duration(worst) > timeout+margin {
				return fmt.Sprintf("of %d calls at once on a pool of %d one took %v with a read timeout of %v", n, n, time.Duration(worst), timeout)
			}
			atomic.StoreInt32(&stalled, 0)
			for i := 0; i < 2*n; i++ {
				if ok, _, _ := call(c, fmt.Sprintf("after%d", i)); !ok {
					return "a call after the stalled handshakes failed"
				}
			}
			return ""
		})
	}
	// a server that does not accept connections
	for _, n := range []int{1, 6} {
		n := n
		for _, o := range []redis.Option{{Timeout: 400 * time.Millisecond}, {Timeout: 400 * time.Millisecond, ReadTimeout: 10 * time.Second}} {
			o := o
			add(fmt.Sprintf("a server that does not accept %d connections, read timeout %v", n, o.ReadTimeout), func() string {
				srv, release, err := Busy(echo)
				if err != nil {
					r.Count("no_busy_listener", 1)
					return ""
				}
				defer srv.Close()
				o.Addr, o.PoolSize = srv.Addr, n
				c := redis.NewClient(o)
				for round := 0; round < 2; round++ {
					var worst int64
					var wg sync.WaitGroup
					for p := 0; p < n; p++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							ok, took, _ := call(c, "k")
							if ok {
								r.Violation("a call succeeded without a connection", fmt.Sprintf("%d at once", n))
							}
							for w := atomic.LoadInt64(&worst); int64(took) > w && !atomic.CompareAndSwapInt64(&worst, w, int64(took)); w = atomic.LoadInt64(&worst) {
							}
						}()
					}
					wg.Wait()
					r.Count("calls_not_accepted", int64(n))
					if w := time.Duration(worst); w > o.Timeout+margin {
						return fmt.Sprintf("a call that could not connect took %v with a timeout of %v", w, o.Timeout)
					} else if w < o.Timeout-20*time.Millisecond {
						return fmt.Sprintf("a call that could not connect gave up after %v with a timeout of %v", w, o.Timeout)
					}
				}
				release()
				for i := 0; i < 2*n; i++ {
					if ok, _, _ := call(c, fmt.Sprintf("after%d", i)); !ok {
						return "a call after the server accepts connections again failed"
					}
				}
				return ""
			})
		}
	}
	for _, o := range []redis.Option{{}, {Timeout: 10 * time.Second}, {ReadTimeout: 200 * time.Millisecond}, {Timeout: 10 * time.Second, ReadTimeout: 200 * time.Millisecond, WriteTimeout: 200 * time.Millisecond}, {WriteTimeout: 200 * time.Millisecond}} {
		o := o
		add(fmt.Sprintf("a server that accepts late, %v %v %v", o.Timeout, o.ReadTimeout, o.WriteTimeout), func() string {
			srv, release, err := Busy(echo)
			if err != nil {
				r.Count("no_busy_listener", 1)
				return ""
			}
			defer srv.Close()
			o.Addr, o.PoolSize = srv.Addr, 2
			c := redis.NewClient(o)
			go func() {
				time.Sleep(500 * time.Millisecond)
				release()
			}()
			if ok, took, _ := call(c, "k"); !ok && (o.ReadTimeout == 0 || o.Timeout > 0) {
				return fmt.Sprintf("a call whose connection was accepted in time failed after %v", took)
			}
			for i := 0; i < 4; i++ {
				if ok, _, _ := call(c, fmt.Sprintf("after%d", i)); !ok {
					return "a call after the server accepts connections failed"
				}
			}
			return ""
		})
	}
	// a busy connection: each call has the whole timeout, whatever came before it
	for _, gap := range []int{0, 120, 250, 400, 550, 700, 850} {
		gap := gap
		add(fmt.Sprintf("slow answer %d ms after a quick one", gap), func() string {
			srv, _ := delayed()
			defer srv.Close()
			c := redis.NewClient(redis.Option{Addr: srv.Addr, PoolSize: 1, ReadTimeout: time.Second, WriteTimeout: time.Second})
			if ok, _, _ := call(c, "first"); !ok {
				return "a call answered at once failed"
			}
			time.Sleep(time.Duration(gap) * time.Millisecond)
			for i := 0; i < 3; i++ {
				if ok, took, _ := call(c, fmt.Sprintf("d650.%d", i)); !ok {
					return fmt.Sprintf("a call the server answered in time failed after %v", took)
				}
			}
			return ""
		})
	}
	// many callers, a server that is late now and then: nobody gets another's reply
	for v := 0; v < 3; v++ {
		v := v
		add(fmt.Sprintf("late now and then %d", v), func() string {
			srv, late := delayed()
			defer srv.Close()
			c := redis.NewClient(redis.Option{Addr: srv.Addr, PoolSize: 1 + 3*v, ReadTimeout: 60 * time.Millisecond})
			var failed, fine int32
			var wg sync.WaitGroup
			for p := 0; p < 8; p++ {
				wg.Add(1)
				go func(p int) {
					defer wg.Done()
					h := rand.New(rand.NewSource(int64(p) + r.Seed*100))
					for i := 0; i < 40; i++ {
						d := [...]int{0, 0, 0, 1, 5, 55, 60, 65, 90}[h.Intn(9)]
						ok, _, _ := call(c, fmt.Sprintf("d%d.%d.%d", d, p, i))
						if ok {
							atomic.AddInt32(&fine, 1)
						} else {
							atomic.AddInt32(&failed, 1)
						}
						r.Beat()
					}
				}(p)
			}
			wg.Wait()
			r.Count("late_replies", int64(*late))
			r.Count("calls_given_up", int64(failed))
			if failed == 0 || fine == 0 {
				return fmt.Sprintf("%d calls failed, %d succeeded", failed, fine)
			}
			return ""
		})
	}
	repeat := r.N(1, 8)
	sem := make(chan struct{}, 24)
	var wg sync.WaitGroup
	r.Step("R07 scenarios")
	stop := make(chan struct{})
	go func() { // the watchdog is for a scenario as a whole
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
			}
		}
	}()
	for round := 0; round < repeat; round++ {
		for _, s := range all {
			wg.Add(1)
			sem <- struct{}{}
			go func(s timing) {
				defer wg.Done()
				defer func() { <-sem }()
				r.Guard(func() {
					var why []string
					for try := 0; try < 3; try++ {
						var w string
						within(r, 40*time.Second, s.name, func() { w = s.run() })
						r.Case(s.name, true)
						r.Count("scenarios", 1)
						if w == "" {
							return
						}
						why = append(why, w)
						r.Count("repeated", 1)
					}
					r.Violation("timeouts: "+why[0], fmt.Sprintf("%s, three times out of three: %q", s.name, why))
				})
			}(s)
		}
	}
	wg.Wait()
	close(stop)
	for _, i := range []int{0, 5, len(all) - 1} {
		r.Sample(all[i].name)
	}
	r.Finish()
}
