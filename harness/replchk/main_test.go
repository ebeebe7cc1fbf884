package replchk

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache"
	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/redis"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/master"
	. "verif/harness/resp"
)

var rules = map[string]string{
	"X01": "one evaluation per key read through a connected client and compared with the master; distinct by stream position and key",
	"X02": "one evaluation per replicated command applied, all keys compared afterwards; distinct by command sequence",
	"X03": "one evaluation per stream or link loss; distinct by its shape",
	"X04": "one evaluation per read or write through the client; distinct by key, value and answer",
	"X05": "one evaluation per synchronisation; distinct by payload, delivery and fault",
	"X06": "one evaluation per acknowledgement; distinct by stream and position",
	"X11": "one evaluation per connected client read by several goroutines while a stream is applied; distinct by instance, non-trivial with more than 100 local reads",
	"X07": "one evaluation per way for an attempt to connect to fail, with what the process holds compared afterwards; distinct by fault and snapshot",
	"X10": "one evaluation per operation, timed at two sizes; distinct by operation",
	"X09": "one evaluation per kind of stream that goes on and per way for a local copy to go, with what the process holds and the heap in use compared; distinct by kind",
}

func TestCheck(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	r := kit.Start(rules[prop], 60*time.Second)
	run := map[string]func(*kit.Run){"X01": runX01, "X02": runX02, "X03": runX03, "X04": runX04, "X05": runX05, "X06": runX06, "X07": runX07, "X09": runX09, "X10": runX10, "X11": runX11}[prop]
	if run == nil {
		t.Fatal("unknown property " + prop)
	}
	r.Guard(func() { run(r) })
}

// ---- a connected client

var instances int32

type peer struct {
	r    *kit.Run
	c    *xxcache.Client
	m    *master.Master
	link *master.Link
	file string
	n    int
}

func within(r *kit.Run, d time.Duration, what string, f func()) {
	done := make(chan struct{})
	go func() {
		r.Guard(f)
		close(done)
	}()
	end := time.After(d)
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case <-done:
			return
		case <-tick.C:
			r.Beat()
		case <-end:
			r.Violation("does not return", fmt.Sprintf("%s: nothing after %v\n%s", what, d, kit.Stacks()))
		}
	}
}

func rdbFile(r *kit.Run) string {
	return filepath.Join(r.TmpDir, fmt.Sprintf("snap%d.rdb", atomic.AddInt32(&instances, 1)))
}

// connect starts a client against the master; the master's link is ready afterwards.
func connect(r *kit.Run, m *master.Master, what string) *peer {
	p := &peer{r: r, m: m, file: rdbFile(r)}
	m.OnBad(func(s string) { r.Violation("the client sent something that is no command", what+": "+s) })
	within(r, 30*time.Second, what+": connecting", func() {
		c, err := xxcache.New(xxcache.Option{RedisMasterAddr: m.Addr, RedisRdbFile: p.file})
		if err != nil {
			r.Violation("connecting to a well-behaved master failed", what+": "+err.Error())
		}
		p.c = &c
	})
	p.link = m.Link(10 * time.Second)
	if p.link == nil {
		r.Violation("connected without a replication link", what)
	}
	_ = os.Remove(p.file)
	return p
}

const sentinel = "\x01sentinel\x02"

// local reports whether a read is answered without the master, and the answer.
func (p *peer) local(k string) (bool, string, error) {
	var v string
	var err error
	n := p.m.Seen("get", k)
	p.r.Guard(func() { v, err = p.c.Get(k) })
	return p.m.Seen("get", k) == n, v, err
}

// settle waits until everything streamed so far has been applied: a SET sent after it has arrived in the local copy.
func (p *peer) settle(db int, d time.Duration, what string) {
	p.n++
	v := fmt.Sprint("s", p.n)
	cmds := [][]string{{"set", sentinel, v}}
	if db != 0 {
		cmds = [][]string{{"SELECT", "0"}, {"set", sentinel, v}, {"SELECT", fmt.Sprint(db)}}
	}
	_ = p.link.Send(master.Stream(cmds...))
	p.await(v, d, what)
}

func (p *peer) await(v string, d time.Duration, what string) {
	end := time.Now().Add(d)
	for {
		is, got, _ := p.local(sentinel)
		if is && got == v {
			return
		}
		if time.Now().After(end) {
			p.r.Violation("the replication stream is not applied", fmt.Sprintf("%s: after %v a SET at its end has not arrived in the local copy\n%s", what, d, kit.Stacks()))
		}
		p.r.Beat()
		time.Sleep(300 * time.Microsecond)
	}
}

// ---- X01

// serve answers ordinary clients from the world
func serve(m *master.Master, mu *sync.Mutex, w func() *world) {
	m.Answer(func(cmd []string) Msg {
		if len(cmd) == 2 && strings.EqualFold(cmd[0], "get") {
			if cmd[1] == sentinel {
				return Nil()
			}
			mu.Lock()
			defer mu.Unlock()
			o := w().db[0][cmd[1]]
			if o == nil {
				return Nil()
			}
			if o.kind != "string" {
				return Error("WRONGTYPE Operation against a key holding the wrong kind of value")
			}
			return Bulk(o.str)
		}
		return Error("ERR unexpected " + strings.Join(cmd, " "))
	})
}

// snapshot leaves the database its stream starts in in w.cur
func snapshot(g *rand.Rand, w *world) (gen.Dataset, []byte, []string) {
	d := gen.Dataset{}
	if g.Intn(10) != 0 {
		d = gen.NewDataset(g, 6, 8)
	}
	for _, db := range w.dbs {
		for _, k := range w.keys {
			if g.Intn(2) == 0 {
				if d[db] == nil {
					d[db] = map[string]*gen.Val{}
				}
				v := gen.Value(g, 5)
				if g.Intn(2) == 0 {
					*v = gen.Val{Kind: gen.String, Str: w.val()}
				}
				d[db][k] = v
			}
		}
	}
	id := ""
	if g.Intn(2) == 0 {
		id = "8371b4fb1155b71f4a04d3e1bc3e18c4a990aeeb"
	}
	at := w.dbs[g.Intn(len(w.dbs))]
	w.cur = at
	if g.Intn(6) == 0 {
		at, w.cur = -1, 0 // not named: no database has been selected
	}
	b := gen.Write(g, d, gen.Forms{}, id, int64(g.Intn(100000)), at).B
	var ks []string
	seen := map[string]bool{}
	for _, m := range d {
		for k := range m {
			if !seen[k] {
				seen[k] = true
				ks = append(ks, k)
			}
		}
	}
	for _, k := range append(w.keys, "never there") {
		if !seen[k] {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return d, b, ks
}

func runX01(r *kit.Run) {
	g := r.Rng(61)
	bigStream(r, g)
	fromElsewhere(r, g)
	for inst := 0; inst < r.N(250, 3000); inst++ {
		what := fmt.Sprintf("client %d", inst)
		r.Step("X01 " + what)
		dbs := [][]int{{0}, {0, 1}, {0, 1, 5}, {0, 3, 15}, {0, 128, 255}, {0, 256, 70000}}[g.Intn(6)]
		w := newWorld(g, dbs)
		d, rdb, ks := snapshot(g, w)
		w.adopt(d)
		m := master.New(g.Int63())
		m.Snapshot, m.Newlines = rdb, g.Intn(4)
		m.Piece = [...]int{1 << 30, 1000, 50}[g.Intn(3)]
		var mu sync.Mutex
		serve(m, &mu, func() *world { return w })
		p := connect(r, m, what)
		log := []string{fmt.Sprintf("snapshot of %d bytes %x, then database %d", len(rdb), rdb[:min(len(rdb), 400)], w.cur)}
		var out []byte
		at := true
		if g.Intn(2) == 0 { // a master selects the database first; a replica, serving another one, goes on in it
			w.cur = dbs[g.Intn(len(dbs))]
			out = master.Stream([]string{caseOf(g, "SELECT"), fmt.Sprint(w.cur)})
			log = append(log, fmt.Sprint("SELECT ", w.cur))
			at = false
		} else {
			r.Count("streams_without_a_first_select", 1)
		}
		compare := func() {
			for _, k := range ks {
				is, v, err := p.local(k)
				o := w.db[0][k]
				show := func() string {
					l := log
					if len(l) > 60 {
						l = l[len(l)-60:]
					}
					return fmt.Sprintf("%s: key %s gave %s, %v (answered locally: %v)\nmaster holds in database 0: %s\n%s", what, kit.Q(k), kit.Q(v), err, is, clip(w.text(0)), strings.Join(l, "\n"))
				}
				switch {
				case o == nil && err == nil:
					r.Violation("a key the master does not hold was answered", show())
				case o != nil && o.kind != "string" && err == nil:
					r.Violation("a key that holds no string was answered", show())
				case o != nil && o.kind == "string" && (err != nil || v != o.str):
					r.Violation("a read gave something else than the master holds", show())
				}
				if is {
					r.Count("answered_locally", 1)
				} else {
					r.Count("answered_by_master", 1)
				}
				r.Case(fmt.Sprint(inst, len(log), k), o != nil)
			}
		}
		batches := 5 + g.Intn(6)
		for b := 0; b <= batches; b++ {
			// readers while the stream runs: only values the master has held
			if b > 0 && g.Intn(2) == 0 {
				log = append(log, writes(r, g, p, m, w, &mu, what)...)
				compare()
			}
			if b > 0 && g.Intn(2) == 0 {
				log = append(log, lateReads(r, g, p, m, w, &mu, what)...)
				compare()
			}
			stop := make(chan struct{})
			var wg sync.WaitGroup
			if b > 0 {
				for n := 0; n < 2; n++ {
					h := rand.New(rand.NewSource(g.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						r.Guard(func() {
							for {
								select {
								case <-stop:
									return
								default:
								}
								k := w.keys[h.Intn(len(w.keys))]
								v, err := p.c.Get(k)
								if err == nil {
									mu.Lock()
									ok := w.hist[k][v]
									mu.Unlock()
									if !ok {
										r.Violation("a read gave a value the master never held", fmt.Sprintf("%s: key %s gave %s\n%s", what, kit.Q(k), kit.Q(v), strings.Join(log[max(0, len(log)-30):], "\n")))
									}
								}
								r.Count("reads_during_stream", 1)
							}
						})
					}()
				}
			}
			for n := g.Intn(50); n > 0 && (b > 0 || at); n-- {
				mu.Lock()
				if g.Intn(4) == 0 && b > 0 {
					w.cur = dbs[g.Intn(len(dbs))]
					out = append(out, master.Stream([]string{caseOf(g, "SELECT"), fmt.Sprint(w.cur)})...)
					log = append(log, fmt.Sprint("SELECT ", w.cur))
				}
				e := w.next()
				log = append(log, fmt.Sprintf("%q", e.cmd))
				mu.Unlock()
				if g.Intn(15) == 0 {
					out = append(out, master.Stream([]string{"PING"})...)
				}
				out = append(out, master.Stream(e.cmd)...)
				if g.Intn(4) == 0 {
					_ = p.link.Pieces(g, out, [...]int{1 << 20, 100, 7, 1}[g.Intn(4)])
					out = nil
				}
				r.Count("commands_streamed", 1)
			}
			_ = p.link.Pieces(g, out, 1<<20)
			out = nil
			p.settle(w.cur, 20*time.Second, what)
			close(stop)
			wg.Wait()
			compare()
		}
		if inst < 3 {
			r.Sample(what + ": " + clip(strings.Join(log, " ")))
		}
		m.Close()
	}
	r.Finish()
}

// lateReads: the master answers reads of keys the client does not hold, and changes the keys before its answers arrive.
// Such a reader may be given the older value; those after it may not.
func lateReads(r *kit.Run, g *rand.Rand, p *peer, m *master.Master, w *world, mu *sync.Mutex, what string) (log []string) {
	was := w.cur
	if was != 0 {
		_ = p.link.Send(master.Stream([]string{"SELECT", "0"}))
		w.cur = 0
	}
	for n := 1 + g.Intn(2); n > 0; n-- {
		k := w.key()
		mu.Lock()
		switch g.Intn(4) {
		case 0:
			delete(w.db[0], k)
		default:
			w.put(0, k, w.val())
		}
		mu.Unlock()
		_ = p.link.Send(master.Stream([]string{"FROBSET", k}))
		p.settle(0, 20*time.Second, what)
		readers := 1 + g.Intn(3)
		entered, release := make(chan struct{}, 16), make(chan struct{})
		m.HoldGet(func(key string) {
			if key == k {
				entered <- struct{}{}
				<-release
			}
		})
		var wg sync.WaitGroup
		for i := 0; i < readers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.Guard(func() {
					if v, err := p.c.Get(k); err == nil {
						mu.Lock()
						ok := w.hist[k][v]
						mu.Unlock()
						if !ok {
							r.Violation("a read gave a value the master never held", fmt.Sprintf("%s: key %s gave %s", what, kit.Q(k), kit.Q(v)))
						}
					}
				})
			}()
		}
		for i := 0; i < readers; i++ {
			select {
			case <-entered:
			case <-time.After(3 * time.Second): // it need not ask for every reader
			}
			if g.Intn(2) == 0 {
				break
			}
		}
		mu.Lock()
		var c []string
		switch g.Intn(4) {
		case 0:
			delete(w.db[0], k)
			c = []string{"DEL", k}
		case 1:
			w.db[0][k] = &obj{kind: "list", elems: 1}
			c = []string{"FROBLIST", k}
		case 2:
			v := w.val() + "newer"
			w.put(0, k, v)
			c = []string{"SET", k, v}
		default:
			v := w.val() + "newer"
			w.put(0, k, v)
			c = []string{"FROBSET", k}
		}
		mu.Unlock()
		log = append(log, fmt.Sprintf("a read of %q, whose answer arrives after %q", k, c))
		_ = p.link.Send(master.Stream(c))
		p.settle(0, 20*time.Second, what)
		close(release)
		within(r, 20*time.Second, what+": late reads", wg.Wait)
		m.HoldGet(nil)
		r.Count("answers_after_the_stream", int64(readers))
	}
	if was != 0 {
		_ = p.link.Send(master.Stream([]string{"SELECT", fmt.Sprint(was)}))
		w.cur = was
	}
	return
}

// writes makes a few writes through the client. The master replicates them, with others that come right after, before
// or after its reply, or refuses them.
func writes(r *kit.Run, g *rand.Rand, p *peer, m *master.Master, w *world, mu *sync.Mutex, what string) (log []string) {
	var answer Msg
	var reply []byte // stream before the reply
	m.Answer(func(cmd []string) Msg {
		if strings.EqualFold(cmd[0], "get") {
			if cmd[1] == sentinel {
				return Nil()
			}
			mu.Lock()
			defer mu.Unlock()
			o := w.db[0][cmd[1]]
			switch {
			case o == nil:
				return Nil()
			case o.kind != "string":
				return Error("WRONGTYPE Operation against a key holding the wrong kind of value")
			}
			return Bulk(o.str)
		}
		mu.Lock()
		defer mu.Unlock()
		if reply != nil {
			_ = p.link.Send(reply)
		}
		return answer
	})
	defer serve(m, mu, func() *world { return w })
	was := w.cur
	if was != 0 {
		_ = p.link.Send(master.Stream([]string{"SELECT", "0"}))
		w.cur = 0
	}
	for k := 1 + g.Intn(4); k > 0; k-- {
		key := w.key()
		v := w.valFor(key)
		mu.Lock()
		before, after := []byte{}, []byte{}
		text := "refused"
		answer = Error("READONLY You can't write against a read only replica.")
		if g.Intn(3) != 0 {
			answer = Simple("OK")
			w.put(0, key, v)
			first := master.Stream([]string{"SET", key, v})
			text = fmt.Sprintf("SET %q", key)
			var second []byte
			if g.Intn(2) == 0 {
				switch g.Intn(4) {
				case 0:
					delete(w.db[0], key)
					second = master.Stream([]string{"DEL", key})
					text += " then DEL"
				case 1:
					delete(w.db[0], key)
					w.db[0][key] = &obj{kind: "list", elems: 1}
					second = master.Stream([]string{"DEL", key}, []string{"LPUSH", key, "x"})
					text += " then LPUSH"
				default:
					nv := w.val() + "newer"
					w.put(0, key, nv)
					second = master.Stream([]string{"SET", key, nv})
					text += fmt.Sprintf(" then SET %q", nv)
				}
			}
			switch g.Intn(3) {
			case 0:
				before = append(first, second...)
				text += ", replicated before the reply"
			case 1:
				before, after = first, second
				text += ", the first replicated before the reply"
			default:
				after = append(first, second...)
				text += ", replicated after the reply"
			}
		} else if g.Intn(2) == 0 { // somebody else's write meanwhile
			nv := w.val() + "other"
			w.put(0, key, nv)
			before = master.Stream([]string{"SET", key, nv})
			text += fmt.Sprintf(", but another client SET %q %q", key, nv)
		}
		p.n++
		mark := fmt.Sprint("s", p.n)
		if len(before) > 0 {
			before = append(before, master.Stream([]string{"set", sentinel, mark})...)
		}
		reply = before
		mu.Unlock()
		done := make(chan struct{})
		var got string
		var err error
		hold := len(before) > 0 && g.Intn(2) == 0
		if hold {
			// the reply waits until the replicated write has been applied
			m.Hold(func() {
				for end := time.Now().Add(200 * time.Millisecond); time.Now().Before(end); time.Sleep(200 * time.Microsecond) {
					if is, got, _ := p.local(sentinel); is && got == mark {
						r.Count("replies_after_the_stream", 1)
						return
					}
				}
			})
		}
		go func() {
			defer close(done)
			r.Guard(func() { got, err = p.c.Set(key, v) })
		}()
		within(r, 30*time.Second, what+": a write through the client", func() { <-done })
		m.Hold(nil)
		if (err == nil) != (answer.Kind == '+') {
			r.Violation("a write did not return the master's verdict", fmt.Sprintf("%s: %q %s: %q %v", what, key, answer, got, err))
		}
		_ = p.link.Send(after)
		log = append(log, fmt.Sprintf("client.Set(%q, %s) %s", key, kit.Q(v), text))
		r.Count("writes_through_the_client", 1)
	}
	p.settle(0, 20*time.Second, what+": after writes")
	if was != 0 {
		_ = p.link.Send(master.Stream([]string{"SELECT", fmt.Sprint(was)}))
		w.cur = was
	}
	return
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// ---- X02

func message(args ...string) redis.Message {
	c := redis.NewBaseCommand(args...)
	return c.Serialize()
}

func runX02(r *kit.Run) {
	g := r.Rng(62)
	manyArguments(r, g)
	c := cache.New()
	for seq := 0; seq < r.N(12000, 300000); seq++ {
		if seq%100 == 0 {
			c = cache.New()
		}
		r.Step(fmt.Sprintf("X02 sequence %d", seq))
		w := newWorld(g, []int{0})
		c.Flush()
		var log []string
		type held struct {
			v  string
			ok bool
		}
		look := func(k string) held {
			v, err := c.Get(k)
			if err == nil {
				return held{v, true}
			}
			o := w.db[0][k]
			if !errors.Is(err, cache.ErrKeyNil) && (o == nil || o.kind != "hash") {
				r.Violation("the local copy of a key is neither absent nor the master's", fmt.Sprintf("reading %s: %v\n%s", kit.Q(k), err, strings.Join(log, "\n")))
			}
			return held{}
		}
		sig := ""
		for n := 3 + g.Intn(40); n > 0; n-- {
			was := map[string]held{}
			for _, k := range w.keys {
				was[k] = look(k)
			}
			var e effect
			var msg redis.Message
			fail := false // has to be reported
			if g.Intn(8) == 0 {
				e, msg = oddity(g, w)
				fail = true
			} else {
				e = w.next()
				msg = message(e.cmd...)
				fail = !e.known
			}
			log = append(log, fmt.Sprintf("%q", msg.Serialize()))
			var err error
			r.Guard(func() { err = cache.HandleMessage(c, msg) })
			show := func(k string, now held) string {
				return fmt.Sprintf("key %s: before %v %s, now %v %s, master: %s\n%s", kit.Q(k), was[k].ok, kit.Q(was[k].v), now.ok, kit.Q(now.v), clip(w.text(0)), strings.Join(log, "\n"))
			}
			named := map[string]bool{}
			for i, a := range e.cmd {
				if i > 0 {
					named[a] = true
				}
			}
			for _, k := range w.keys {
				now := look(k)
				o := w.db[0][k]
				if now.ok && (o == nil || o.kind != "string" || o.str != now.v) {
					r.Violation("the local copy contradicts the master", show(k, now))
				}
				if was[k].ok && !named[k] && !e.all && (!now.ok || now.v != was[k].v) {
					r.Violation("a key the command does not name lost its local copy", show(k, now))
				}
				if e.plain && k == e.cmd[1] && !now.ok {
					r.Violation("a plain SET does not make the value available", show(k, now))
				}
				if now.ok {
					r.Count("local_copies_compared", 1)
				}
			}
			if e.plain && err != nil {
				r.Violation("a plain SET is reported as an error", err.Error()+"\n"+strings.Join(log, "\n"))
			}
			if fail && err == nil {
				r.Violation("a command the cache cannot replay is not reported", strings.Join(log, "\n"))
			}
			if err != nil {
				r.Count("reported_as_errors", 1)
			}
			sig += log[len(log)-1]
			r.Case(sig, true)
		}
		if seq < 3 {
			r.Sample(clip(strings.Join(log, " ")))
		}
	}
	r.Finish()
}

// oddity is something no replica can apply: malformed commands and things that are no commands. The master's data is
// what it was.
func oddity(g *rand.Rand, w *world) (effect, redis.Message) {
	k, k2 := w.key(), w.key()
	bad := func(m redis.Message, args ...string) (effect, redis.Message) {
		return effect{cmd: append([]string{""}, args...)}, m
	}
	b := func(s string) redis.Message { return redis.NewBulkStringMessage(s) }
	switch g.Intn(16) {
	case 0:
		return bad(message("set"))
	case 1:
		return bad(message(caseOf(g, "set"), k), k)
	case 2:
		return bad(message("set", k, "v", "BOGUS"), k)
	case 3:
		return bad(message("set", k, "v", "EX"), k)
	case 4:
		return bad(message("", k), k)
	case 5:
		return bad(message("x"+k, k2, "v"), k, k2)
	case 6:
		return bad(message("bogus", k, k2), k, k2)
	case 7:
		return bad(redis.ArrayMessage{})
	case 8:
		return bad(b("set"))
	case 9:
		return bad(redis.NilMessage{})
	case 10:
		return bad([...]redis.Message{redis.IntMessage(7), redis.ErrorMessage("ERR set"), redis.SimpleStringMessage("OK")}[g.Intn(3)])
	case 11:
		return bad(redis.ArrayMessage{b("set"), b(k), redis.NilMessage{}}, k)
	case 12:
		return bad(redis.ArrayMessage{b("set"), b(k), redis.ArrayMessage{b("x"), b("y")}}, k)
	case 13:
		return bad(redis.ArrayMessage{redis.ArrayMessage{b("set")}, b(k), b("v")}, k)
	case 14:
		return bad(redis.ArrayMessage{redis.IntMessage(1), redis.NilMessage{}, redis.ArrayMessage{}}, k)
	default:
		return bad(message("set ", k, "v"), k)
	}
}

// ---- X04

func runX04(r *kit.Run) {
	g := r.Rng(64)
	var mu sync.Mutex
	for inst := 0; inst < r.N(150, 1500); inst++ {
		what := fmt.Sprintf("client %d", inst)
		r.Step("X04 " + what)
		m := master.New(g.Int63())
		w := newWorld(g, []int{0})
		d := gen.Dataset{}
		if g.Intn(2) == 0 {
			d[0] = map[string]*gen.Val{"from snapshot": {Kind: gen.String, Str: "sv"}, "expiring": {Kind: gen.String, Str: "old", Expire: 1}}
		}
		m.Snapshot = gen.Write(g, d, gen.Forms{}, "", 0).B
		var answer Msg
		m.Answer(func(cmd []string) Msg {
			if cmd[1] == sentinel {
				return Nil()
			}
			mu.Lock()
			defer mu.Unlock()
			return answer
		})
		p := connect(r, m, what)
		_ = p.link.Send(master.Stream([]string{"SELECT", "0"}))
		p.settle(0, 20*time.Second, what)
		local := map[string]string{}
		if d[0] != nil {
			local["from snapshot"] = "sv"
			is, v, err := p.local("from snapshot")
			if !is || err != nil || v != "sv" {
				r.Violation("a value of the snapshot is not answered locally", fmt.Sprintf("%v %s %v", is, kit.Q(v), err))
			}
		}
		ks := []string{"", "a", "k b", "\r\n", "\x00", "$3\r\nfoo", "Nil", "OK", strings.Repeat("k", 70000)}
		for i := 0; i < 12; i++ {
			ks = append(ks, gen.Elem(g))
		}
		set := func(a Msg) {
			mu.Lock()
			answer = a
			mu.Unlock()
		}
		// the command an ordinary connection carried since, exactly one
		one := func(before int64, what string, cmd ...string) {
			if n := m.Total() - before; n != 1 {
				r.Violation("not exactly one command reached the master", fmt.Sprintf("%s %q: %d commands", what, clipAll(cmd), n))
			}
			last := m.Last()
			ok := len(last) == len(cmd) && strings.EqualFold(last[0], cmd[0])
			for i := 1; ok && i < len(cmd); i++ {
				ok = last[i] == cmd[i]
			}
			if !ok {
				r.Violation("another command than the call's reached the master", fmt.Sprintf("%s: sent %q, called for %q", what, clipAll(last), clipAll(cmd)))
			}
		}
		for step := 0; step < r.N(250, 500); step++ {
			k := ks[g.Intn(len(ks))]
			if g.Intn(8) == 0 {
				k = gen.Elem(g)
			}
			before := m.Total()
			switch g.Intn(6) {
			case 0: // the stream makes it local
				v := kit.Value(g)
				if g.Intn(30) == 0 {
					v = strings.Repeat("v", 1+g.Intn(300000))
				}
				_ = p.link.Send(master.Stream([]string{caseOf(g, "set"), k, v}))
				p.settle(0, 20*time.Second, what)
				local[k] = v
			case 1: // the stream takes it away
				c := [...][]string{{"del", k}, {"unlink", k}, {"lpush", k, "\x02val"}, {"frob", k}, {"flushdb"}, {"flushall"}}[g.Intn(6)]
				_ = p.link.Send(master.Stream(c))
				p.settle(0, 20*time.Second, what)
				if len(c) == 1 {
					local = map[string]string{}
				}
				for _, a := range c[1:] {
					delete(local, a)
				}
			case 2: // a write
				v := kit.Value(g)
				if g.Intn(30) == 0 {
					v = strings.Repeat("w\r\n", 1+g.Intn(200000))
				}
				a := [...]Msg{Simple("OK"), Simple("OK"), Simple("OK"), Error("READONLY You can't write against a read only replica."), Error("OOM command not allowed"), Nil()}[g.Intn(6)]
				set(a)
				var got string
				var err error
				r.Guard(func() { got, err = p.c.Set(k, v) })
				one(before, "Set", "set", k, v)
				verdict(r, fmt.Sprintf("Set %s %s", kit.Q(k), kit.Q(v)), a, got, err)
				r.Count("writes", 1)
				r.Case("s"+k+"\x00"+v+a.String(), true)
			default: // a read
				if len(local) > 0 && g.Intn(2) == 0 {
					var l []string
					for k := range local {
						l = append(l, k)
					}
					sort.Strings(l)
					k = l[g.Intn(len(l))]
				}
				a := [...]Msg{Bulk(gen.Elem(g)), Bulk(""), Nil(), Error("WRONGTYPE Operation against a key holding the wrong kind of value"), Error("NOAUTH Authentication required."), Bulk("Nil"), Bulk(strings.Repeat("\r\n", g.Intn(60000)))}[g.Intn(7)]
				set(a)
				var got string
				var err error
				r.Guard(func() { got, err = p.c.Get(k) })
				if v, is := local[k]; is {
					if err != nil || got != v {
						r.Violation("a local value is not what the stream set", fmt.Sprintf("%s: %s, %v, want %s", kit.Q(k), kit.Q(got), err, kit.Q(v)))
					}
					if n := m.Total() - before; n != 0 {
						r.Violation("a key in the local copy was looked up at the master", fmt.Sprintf("%s: %d commands", kit.Q(k), n))
					}
					r.Count("local_hits", 1)
				} else {
					one(before, "Get", "get", k)
					verdict(r, fmt.Sprintf("Get %s", kit.Q(k)), a, got, err)
					r.Count("misses", 1)
				}
				r.Case("g"+k+"\x00"+a.String(), true)
			}
		}
		// a master that goes away during the call: an error, and well again afterwards
		for i := 0; i < 3; i++ {
			set(Msg{Kind: '!'})
			if _, err := p.c.Get("gone"); err == nil {
				r.Violation("a read succeeded although the master gave no answer", what)
			}
			set(Bulk("back"))
			n := 0
			for ; n < 25; n++ {
				if v, err := p.c.Get("gone"); err == nil && v == "back" {
					break
				}
			}
			if n == 25 {
				r.Violation("reads keep failing after a lost connection", what)
			}
			r.Count("lost_connections", 1)
		}
		// many readers and writers on the one client, each gets its own answer
		m.Answer(func(cmd []string) Msg {
			if strings.EqualFold(cmd[0], "get") {
				return Bulk("of " + cmd[1])
			}
			return Error("ERR for " + cmd[1] + cmd[2])
		})
		before := m.Total()
		var wg sync.WaitGroup
		for q := 0; q < 8; q++ {
			wg.Add(1)
			go func(q int) {
				defer wg.Done()
				r.Guard(func() {
					for i := 0; i < 30; i++ {
						k := fmt.Sprintf("c%d.%d", q, i)
						if v, err := p.c.Get(k); err != nil || v != "of "+k {
							r.Violation("a read gave another answer than the master's", fmt.Sprintf("%s: %s %v", k, kit.Q(v), err))
						}
						if v, err := p.c.Set(k, "w"); err == nil || !strings.Contains(err.Error(), "for "+k+"w") {
							r.Violation("a write gave another answer than the master's", fmt.Sprintf("%s: %s %v", k, kit.Q(v), err))
						}
					}
				})
			}(q)
		}
		within(r, 30*time.Second, what+": concurrent calls", wg.Wait)
		if n := m.Total() - before; n != 8*30*2 {
			r.Violation("not exactly one command per call reached the master", fmt.Sprintf("480 calls, %d commands", n))
		}
		r.Count("concurrent_calls", 480)
		_ = w
		m.Close()
	}
	r.Sample("reads and writes of keys local, remote and missing; answers bulk, empty, nil, errors")
	r.Finish()
}

func clipAll(l []string) (o []string) {
	for _, s := range l {
		if len(s) > 80 {
			s = s[:80] + fmt.Sprintf("...(%d)", len(s))
		}
		o = append(o, s)
	}
	return
}

// verdict compares what a call returned with what the master answered.
func verdict(r *kit.Run, call string, a Msg, got string, err error) {
	ok := false
	switch a.Kind {
	case '$', '+':
		ok = err == nil && got == a.S
	case '-':
		ok = err != nil && strings.Contains(err.Error(), a.S)
	default:
		ok = err != nil
	}
	if !ok {
		r.Violation("the master's answer was not returned", fmt.Sprintf("%s: master answered %s, returned %s, %v", call, kit.Q(a.String()), kit.Q(got), err))
	}
}

// ---- X05

func runX05(r *kit.Run) {
	g := r.Rng(65)
	type plan struct {
		what    string
		ping    []byte // nil: +PONG
		lines   int
		reply   []byte // after the keep-alives
		payload []byte // must be stored, if ok
		ok      bool
		maybe   bool // may be refused or stored
		piece   int
		next    []byte // what follows
		close   bool
		file    string
		full    bool // the file is a link to a device without room
		old     []byte
	}
	srvOf := func(pl *plan) *Server {
		seed := g.Int63()
		return NewServer(func(c *Conn) {
			h := rand.New(rand.NewSource(seed))
			piece := pl.piece
			for {
				cmd, err := c.Cmd()
				if err != nil {
					return
				}
				switch strings.ToLower(cmd[0]) {
				case "ping":
					b := pl.ping
					if b == nil {
						b = []byte("+PONG\r\n")
					}
					if !master.Chunks(c, h, b, piece) {
						return
					}
					if pl.ping != nil && pl.close {
						return
					}
				case "sync":
					b := append(bytes.Repeat([]byte("\n"), pl.lines), pl.reply...)
					b = append(b, pl.next...)
					if !master.Chunks(c, h, b, piece) {
						return
					}
					if pl.close {
						return
					}
				default:
					_ = c.Reply(Simple("OK"))
				}
			}
		})
	}
	runs := 0
	try := func(pl *plan) {
		if pl.piece == 0 {
			pl.piece = 1 << 30
		}
		srv := srvOf(pl)
		defer srv.Close()
		path := pl.file
		if path == "" {
			path = filepath.Join(r.TmpDir, "x05.rdb")
			_ = os.Remove(path)
			if pl.old != nil {
				_ = os.WriteFile(path, pl.old, 0644)
			}
		}
		repl := &redis.Replication{MasterAddr: srv.Addr, RdbFile: path}
		var err error
		within(r, 30*time.Second, "X05 "+pl.what, func() { err = repl.SyncWithRedis() })
		detail := func() string {
			return fmt.Sprintf("%s, in pieces of up to %d\nmaster sends %d keep-alives, %s", pl.what, pl.piece, pl.lines, kit.Q(string(pl.reply)))
		}
		switch {
		case pl.full && err == nil:
			// the link may have been replaced
			if fi, e := os.Lstat(path); e == nil && fi.Mode().IsRegular() {
				if got, _ := os.ReadFile(path); bytes.Equal(got, pl.payload) {
					break
				}
			}
			r.Violation("a synchronisation that could not be stored is taken for a success", detail())
		case pl.maybe && err != nil:
			r.Count("refused", 1)
		case !pl.ok && err == nil:
			r.Violation("a synchronisation that failed is taken for a success", detail())
		case pl.ok && err != nil:
			r.Violation("a good synchronisation was refused", err.Error()+"\n"+detail())
		case !pl.ok:
			r.Count("refused", 1)
		default:
			got, rerr := os.ReadFile(path)
			if rerr != nil || !bytes.Equal(got, pl.payload) {
				at := 0
				for at < len(got) && at < len(pl.payload) && got[at] == pl.payload[at] {
					at++
				}
				r.Violation("the stored snapshot is not the one sent", fmt.Sprintf("%d bytes stored, %d sent, first difference at %d (%v)\n%s", len(got), len(pl.payload), at, rerr, detail()))
			}
			r.Count("stored", 1)
			r.Count("bytes_stored", int64(len(got)))
			if pl.next != nil {
				go repl.WaitForMessage()
				select {
				case m, ok := <-repl.Messages:
					if !ok || m.Message.Serialize() != string(pl.next) {
						s := "the link ended"
						if ok {
							s = m.Message.Serialize()
						}
						r.Violation("the stream does not go on right after the snapshot", fmt.Sprintf("next message %s, want %s\n%s", kit.Q(s), kit.Q(string(pl.next)), detail()))
					}
					r.Count("next_messages", 1)
				case <-time.After(10 * time.Second):
					r.Violation("the stream does not go on right after the snapshot", detail())
				}
			}
		}
		r.Case(fmt.Sprintf("%s %d %d %q %d %q", pl.what, pl.lines, pl.piece, pl.reply, len(pl.old), pl.next), true)
		if runs++; runs%100 == 0 {
			gcNow() // the file is left to the finalizer
		}
	}
	pieces := []int{1 << 30, 1, 7, 100, 4096}
	next := func() []byte { return master.Stream([]string{"set", gen.Elem(g), gen.Elem(g)}) }
	payload := func(n int) []byte {
		b := make([]byte, n)
		switch g.Intn(3) {
		case 0:
			g.Read(b)
		case 1:
			for i := range b {
				b[i] = "\r\n$*+-:0123"[g.Intn(11)]
			}
		default:
			for i := range b {
				b[i] = "\r\n"[i&1]
			}
		}
		return b
	}
	good := func(n int, what string) *plan {
		b := payload(n)
		return &plan{what: what, payload: b, reply: master.Announce(b), ok: true, lines: g.Intn(5), next: next(), piece: pieces[g.Intn(len(pieces))]}
	}
	for n := 0; n <= 300; n++ {
		r.Step(fmt.Sprintf("X05 payload of %d", n))
		try(good(n, fmt.Sprintf("payload of %d bytes", n)))
	}
	for _, n := range []int{4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 20, 1<<20 + 4096, 1 << 21, 3<<20 + 1, 10 << 20} {
		for _, pc := range []int{1 << 30, 100, 4095, 4096, 5000} {
			r.Step(fmt.Sprintf("X05 payload of %d", n))
			pl := good(n, fmt.Sprintf("payload of %d bytes", n))
			pl.piece = pc
			if n > 100000 && pc < 1<<30 {
				pl.piece = pc * 100
			}
			try(pl)
		}
	}
	for _, n := range []int{1<<24 + 1, r.N(1<<25+12345, 600<<20)} {
		r.Step(fmt.Sprintf("X05 payload of %d", n))
		pl := good(n, fmt.Sprintf("payload of %d bytes", n))
		pl.piece = 1 << 30
		try(pl)
		r.Max("largest_snapshot", int64(n))
		gcNow()
	}
	for i := 0; i < r.N(700, 30000); i++ {
		r.Step(fmt.Sprintf("X05 random payload %d", i))
		pl := good(g.Intn(20000), "random payload")
		if pl.piece < 10 && len(pl.payload) > 3000 {
			pl.piece = 1000
		}
		if g.Intn(20) == 0 {
			pl.lines, pl.piece = 5000, max(pl.piece, 100)
		}
		if g.Intn(3) == 0 {
			pl.old = payload(g.Intn(60000))
			pl.what += " over an older file"
		}
		switch g.Intn(12) {
		case 0: // nothing after it, and the link ends
			pl.next, pl.close = nil, true
		case 1: // nothing after it yet
			pl.next = nil
		}
		if i < 2 {
			r.Sample(fmt.Sprintf("payload of %d bytes, %d keep-alives, pieces of up to %d, older file of %d", len(pl.payload), pl.lines, pl.piece, len(pl.old)))
		}
		try(pl)
	}
	// a snapshot ending in or followed by line ends
	for _, s := range []string{"\r\n", "\n", "\r", "x\r\n", "$5\r\nhello\r\n", "REDIS0009\xff"} {
		b := []byte(s)
		for k := 0; k < 5; k++ {
			try(&plan{what: "payload " + kit.Q(s), payload: b, reply: master.Announce(b), ok: true, next: next(), piece: pieces[k]})
		}
	}
	// every cut
	for _, n := range []int{0, 1, 10, 100, 5000, 70000} {
		b := payload(n)
		whole := master.Announce(b)
		head := len(whole) - len(b)
		round := map[int]bool{} // the ends of blocks somebody may copy
		for k := 512; k < len(b); k *= 2 {
			for _, at := range []int{k, head + k, len(b) / k * k, head + len(b)/k*k} {
				round[at] = true
			}
		}
		for at := 0; at < len(whole); at++ {
			if len(whole) > 300 && !round[at] && at > 30 && at < len(whole)-30 && g.Intn(len(whole)/20) != 0 {
				continue
			}
			r.Step(fmt.Sprintf("X05 cut at %d of %d", at, len(whole)))
			try(&plan{what: fmt.Sprintf("link cut at byte %d of %d", at, len(whole)), reply: whole[:at], close: true, lines: g.Intn(3), piece: pieces[g.Intn(len(pieces))]})
			r.Count("cuts", 1)
		}
	}
	r.Sample("the transfer cut at every byte")
	// refusals
	odd := []string{"-ERR unknown command\r\n", "-NOAUTH Authentication required.\r\n", "-LOADING\r\n", "+OK\r\n", "+CONTINUE\r\n", "+FULLRESYNC x 0\r\n", ":5\r\n", ":0\r\n", "*0\r\n", "*1\r\n$1\r\na\r\n", "*-1\r\n",
		"$-1\r\n", "$-2\r\n", "$\r\n", "$abc\r\n", "$5x\r\nhello", "$5.0\r\nhello", "$ 5\r\nhello", "$99999999999999999999\r\nhello", "hello\r\n", "REDIS0009\r\n", "\x00\r\n", "<html>\r\n", "!3\r\nabc\r\n", "-\r\n", "+\r\n", ":\r\n", "*\r\n", "$0x5\r\nhello"}
	for _, s := range odd {
		for _, cl := range []bool{false, true} {
			for _, pc := range []int{1 << 30, 1} {
				r.Step("X05 " + s)
				try(&plan{what: "synchronisation answered " + kit.Q(s), reply: []byte(s), close: cl, lines: g.Intn(3), piece: pc})
			}
		}
	}
	for _, s := range []string{"-ERR\r\n", "-NOAUTH Authentication required.\r\n", "-DENIED Redis is running in protected mode\r\n", "+OK\r\n", "+pong\r\n", "+PONG PONG\r\n", "+\r\n", ":1\r\n", "$-1\r\n", "*0\r\n", "*1\r\n+PONGS\r\n", "$2\r\nno\r\n", "$abc\r\n", "HTTP/1.1 400 Bad Request\r\n", "\r\n"} {
		r.Step("X05 ping " + s)
		for _, pc := range []int{1 << 30, 1} {
			b := payload(20)
			// what would otherwise be a good synchronisation
			try(&plan{what: "ping answered " + kit.Q(s), ping: []byte(s), reply: master.Announce(b), piece: pc})
		}
	}
	for at := 0; at < 7; at++ {
		try(&plan{what: fmt.Sprintf("link cut after %d bytes of the pong", at), ping: []byte("+PONG\r\n")[:at], close: true})
	}
	r.Sample(fmt.Sprintf("%d odd answers to SYNC, 15 to PING", len(odd)))
	// no room, no place, no file, no master
	for _, n := range []int{1, 100, 4096, 4097, 100000} {
		b := payload(n)
		// a link in the scratch directory: a client that replaces the file replaces the link
		full := filepath.Join(r.TmpDir, "full.rdb")
		_ = os.Remove(full)
		_ = os.Symlink("/dev/full", full)
		try(&plan{what: fmt.Sprintf("disk full, %d bytes", n), reply: master.Announce(b), payload: b, full: true, file: full})
		_ = os.Remove(full)
		try(&plan{what: "no such directory", reply: master.Announce(b), next: next(), file: filepath.Join(r.TmpDir, "nowhere", "x.rdb")})
		try(&plan{what: "a directory", reply: master.Announce(b), next: next(), file: r.TmpDir})
	}
	for _, rp := range []*redis.Replication{{MasterAddr: "127.0.0.1:1", RdbFile: filepath.Join(r.TmpDir, "x")}, {RdbFile: filepath.Join(r.TmpDir, "x")}, {MasterAddr: "127.0.0.1:1"}, {MasterAddr: "no such host:port:x", RdbFile: filepath.Join(r.TmpDir, "x")}} {
		var err error
		within(r, 30*time.Second, "no master", func() { err = rp.SyncWithRedis() })
		if err == nil {
			r.Violation("a synchronisation without a master or file is taken for a success", fmt.Sprintf("%q %q", rp.MasterAddr, rp.RdbFile))
		}
		r.Case(rp.MasterAddr+rp.RdbFile, true)
	}
	// the client as a whole refuses as well, even if an earlier one left its snapshot
	left := gen.Write(g, gen.Dataset{0: {"k": {Kind: gen.String, Str: "v"}}}, gen.Forms{}, "", 0).B
	refused := func(pl *plan, what string) {
		r.Step("X05 client " + what)
		pl.what, pl.piece = "client", 1<<30
		srv := srvOf(pl)
		for _, old := range []bool{false, true} {
			path := filepath.Join(r.TmpDir, "x05.rdb")
			_ = os.Remove(path)
			if old {
				_ = os.WriteFile(path, left, 0644)
			}
			var err error
			within(r, 30*time.Second, "connecting", func() {
				_, err = xxcache.New(xxcache.Option{RedisMasterAddr: srv.Addr, RedisRdbFile: path})
			})
			if err == nil {
				r.Violation("a client connected without a snapshot", fmt.Sprintf("%s, with an older snapshot file: %v", what, old))
			}
		}
		srv.Close()
		r.Case("client "+what, true)
	}
	for _, s := range append(odd, "$3\r\nabc", "$9\r\nREDIS0009", "$10\r\nREDIS0009\x00", "$20\r\nREDIS0009\xfe\x00") {
		refused(&plan{reply: []byte(s), close: true}, kit.Q(s))
	}
	for _, s := range []string{"-ERR\r\n", "-NOAUTH Authentication required.\r\n", "+OK\r\n", ":1\r\n", "+PO", ""} {
		refused(&plan{ping: []byte(s), close: true}, "ping answered "+kit.Q(s))
	}
	// an empty option is the usual master and a file in the working directory
	if ln, err := net.Listen("tcp", "127.0.0.1:6379"); err == nil {
		r.Step("X05 without options")
		_ = ln.Close()
		m := master.New(g.Int63())
		m.Down(true)
		m.Addr = "127.0.0.1:6379"
		m.Up()
		m.Snapshot = left
		m.Answer(func(cmd []string) Msg { return Bulk("from the master") })
		own := filepath.Join(r.TmpDir, "own.rdb")
		for _, o := range []xxcache.Option{{}, {RedisRdbFile: own}, {RedisMasterAddr: m.Addr}} {
			_ = os.Remove("temp.rdb")
			_ = os.Remove(own)
			file := "temp.rdb"
			if o.RedisRdbFile != "" {
				file = own
			}
			what := fmt.Sprintf("address %q, file %q: ", o.RedisMasterAddr, o.RedisRdbFile)
			within(r, 30*time.Second, "connecting without options", func() {
				c, err := xxcache.New(o)
				if err != nil {
					r.Violation("connecting to the usual master failed", what+err.Error())
				}
				if b, err := os.ReadFile(file); err != nil || !bytes.Equal(b, left) {
					r.Violation("the snapshot is not in its file", what+fmt.Sprint(file, ": ", len(b), " bytes, ", err))
				}
				if v, err := c.Get("no such key"); v != "from the master" {
					r.Violation("the client does not ask the usual master", what+fmt.Sprint(v, err))
				}
			})
		}
		_ = os.Remove("temp.rdb")
		m.Close()
		r.Count("without_options", 1)
		r.Case("without options", true)
	}
	r.Finish()
}
