package replchk

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/master"
	. "verif/harness/resp"
)

// ---- X11

// history is what the keys of database 0 have been at each position of the stream. A position is counted before
// what it stands for is sent.
type history struct {
	mu   sync.Mutex
	n    int
	vals map[string][]version // in order
	log  []string
	cur  int // the database selected in the stream
	link *master.Link
	g    *rand.Rand
	what string
	sets int // plain SETs
}

type version struct {
	at  int
	val string
	is  bool
}

func (h *history) now(k string) version {
	l := h.vals[k]
	if len(l) == 0 {
		return version{}
	}
	return l[len(l)-1]
}

// event sends a command for a database that leaves these values, nil for none.
func (h *history) event(db int, effect map[string]*string, cmd func(at int) []string) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.push(db, effect, cmd)
}

func (h *history) push(db int, effect map[string]*string, cmd func(at int) []string) error {
	h.n++
	c := cmd(h.n)
	if db == 0 {
		for k, v := range effect {
			n := version{at: h.n}
			if v != nil {
				n.val, n.is = *v, true
			}
			if o := h.now(k); o.is != n.is || o.val != n.val {
				h.vals[k] = append(h.vals[k], n)
			}
		}
	}
	var b []byte
	if db != h.cur {
		b = master.Stream([]string{caseOf(h.g, "SELECT"), fmt.Sprint(db)})
		h.cur = db
	}
	b = append(b, master.Stream(c)...)
	h.log = append(h.log, fmt.Sprintf("%d: database %d: %s", h.n, db, clip(strings.Join(c, " "))))
	if len(h.log) > 4000 {
		h.log = append([]string(nil), h.log[2000:]...)
	}
	if h.g.Intn(4) == 0 {
		return h.link.Pieces(h.g, b, 20)
	}
	return h.link.Send(b)
}

func (h *history) tail(from int) string {
	var l []string
	for i := len(h.log) - 1; i >= 0 && len(l) < 60; i-- {
		if n, _ := strconv.Atoi(h.log[i][:strings.Index(h.log[i], ":")]); n < from {
			break
		}
		l = append([]string{h.log[i]}, l...)
	}
	return strings.Join(l, "\n")
}

func runX11(r *kit.Run) {
	g := r.Rng(611)
	for inst := 0; inst < r.N(24, 400); inst++ {
		what := fmt.Sprintf("client %d", inst)
		r.Step("X11 " + what)
		m := master.New(g.Int63())
		h := &history{vals: map[string][]version{}, g: rand.New(rand.NewSource(g.Int63())), what: what}
		var keys []string
		d := gen.Dataset{0: map[string]*gen.Val{}}
		for i := 0; i < 2+g.Intn(6); i++ {
			k := "key" + strconv.Itoa(i)
			keys = append(keys, k)
			if g.Intn(3) > 0 {
				v := "s:0:" + k
				d[0][k] = &gen.Val{Kind: gen.String, Str: v}
				h.vals[k] = []version{{0, v, true}}
			} else {
				h.vals[k] = []version{{}}
			}
		}
		if g.Intn(2) == 0 { // many more that are nobody's concern
			for i := 0; i < 3000; i++ {
				d[0]["other"+strconv.Itoa(i)] = &gen.Val{Kind: gen.String, Str: "x"}
			}
		}
		m.Snapshot = gen.Write(g, d, gen.Forms{}, "", 0).B
		// what the master is asked gets an answer that is not in the stream, and a new one each time
		var asked, requests int64
		m.Answer(func(cmd []string) Msg {
			switch {
			case len(cmd) == 2 && strings.EqualFold(cmd[0], "get"):
				return Bulk(fmt.Sprintf("m:%d:%s", atomic.AddInt64(&asked, 1), cmd[1]))
			case len(cmd) == 3 && strings.EqualFold(cmd[0], "set"):
				v := cmd[2]
				if h.event(0, map[string]*string{cmd[1]: &v}, func(int) []string { return cmd }) != nil {
					return Error("ERR gone")
				}
				return Simple("OK")
			}
			return Error("ERR unexpected " + strings.Join(cmd, " "))
		})
		p := connect(r, m, what)
		h.link = p.link
		var stop, hits, misses int32
		seen := int64(-1) // a position that reads have shown to be applied
		var wg sync.WaitGroup
		for q := 0; q < 4+g.Intn(5); q++ {
			wg.Add(1)
			g := rand.New(rand.NewSource(g.Int63()))
			own := g.Intn(3) // one key, a pair, all
			go func() {
				defer wg.Done()
				r.Guard(func() {
					for i := 0; atomic.LoadInt32(&stop) == 0; i++ {
						k := keys[g.Intn(len(keys))]
						if own < 2 {
							k = keys[i%(own+1)%len(keys)]
						}
						if g.Intn(400) == 0 {
							v := fmt.Sprintf("w:%d:%s", atomic.AddInt64(&requests, 1), k)
							if _, err := p.c.Set(k, v); err != nil {
								r.Violation("a write failed", what+": "+err.Error())
							}
							continue
						}
						before, was := atomic.LoadInt64(&seen), atomic.LoadInt64(&asked)
						v, err := p.c.Get(k)
						if err != nil {
							r.Violation("a read failed", fmt.Sprintf("%s: %s: %v", what, k, err))
						}
						if s := strings.SplitN(v, ":", 3); s[0] == "m" {
							n, _ := strconv.ParseInt(s[1], 10, 64)
							if len(s) != 3 || s[2] != k || n <= was {
								r.Violation("a read gives an earlier answer of the master", fmt.Sprintf("%s: %s: %s, when %d answers had been given before", what, k, kit.Q(v), was))
							}
							atomic.AddInt32(&misses, 1)
							continue
						}
						h.mu.Lock()
						l := h.vals[k]
						at, end := -1, -1
						for j := len(l) - 1; j >= 0; j-- {
							if l[j].is && l[j].val == v {
								at, end = l[j].at, 1<<40
								if j+1 < len(l) {
									end = l[j+1].at
								}
								break
							}
						}
						if at < 0 {
							r.Violation("a read gives a value the key never had", fmt.Sprintf("%s: %s: %s\n%s", what, k, kit.Q(v), h.tail(0)))
						}
						if int64(end) <= before {
							r.Violation("a read goes back in the master's history", fmt.Sprintf("%s: %s read as %s, its value from %d until %d, after reads that show the effect of %d\n%s", what, k, kit.Q(v), at, end, before, h.tail(at)))
						}
						h.mu.Unlock()
						atomic.AddInt32(&hits, 1)
						for o := atomic.LoadInt64(&seen); o < int64(at) && !atomic.CompareAndSwapInt64(&seen, o, int64(at)); o = atomic.LoadInt64(&seen) {
						}
						if i%64 == 0 {
							r.Beat()
						}
					}
				})
			}()
		}
		// the stream
		style := g.Intn(4)
		begin := time.Now()
		for i := 0; i < r.N(2500, 4000) && (i < 50 || time.Since(begin) < 4*time.Second); i++ {
			if h.change(keys, style) != nil {
				r.Violation("the client closed the link", what)
			}
			if style == 3 || g.Intn(40) == 0 {
				time.Sleep(time.Duration(g.Intn(300)) * time.Microsecond)
			}
			r.Beat()
		}
		h.mu.Lock()
		cur := h.cur
		h.mu.Unlock()
		p.settleAt(h, cur, 20*time.Second, what)
		atomic.StoreInt32(&stop, 1)
		within(r, 20*time.Second, what, wg.Wait)
		r.Count("reads_answered_locally", int64(hits))
		r.Count("reads_answered_by_the_master", int64(misses))
		r.Count("stream_positions", int64(h.n))
		r.Count("plain_sets", int64(h.sets))
		r.Case(what, hits > 100 && h.sets > 0)
		if inst < 4 {
			r.Sample(fmt.Sprintf("%s, style %d: %d positions, %d local reads, %d others", what, style, h.n, hits, misses))
		}
		m.Close()
	}
	r.Finish()
}

// settleAt waits until the end of the stream has been applied.
func (p *peer) settleAt(h *history, cur int, d time.Duration, what string) {
	v := "s:end"
	if err := h.event(0, map[string]*string{sentinel: &v}, func(int) []string { return []string{"set", sentinel, v} }); err != nil {
		return
	}
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		if got, _ := p.c.Get(sentinel); got == v {
			return
		}
		p.r.Beat()
		time.Sleep(time.Millisecond)
	}
	p.r.Violation("the replication stream is not applied", what+"\n"+kit.Stacks())
}

// change sends one random command.
func (h *history) change(keys []string, style int) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	g := h.g
	k := keys[g.Intn(len(keys))]
	k2 := keys[g.Intn(len(keys))]
	next := h.n + 1
	val := func(k string) *string {
		v := fmt.Sprintf("s:%d:%s", next, k)
		if g.Intn(50) == 0 {
			v += strings.Repeat(":long", g.Intn(4000))
		}
		return &v
	}
	all := func() map[string]*string {
		e := map[string]*string{}
		for _, k := range keys {
			e[k] = nil
		}
		return e
	}
	is := func(l ...string) func(int) []string {
		l[0] = caseOf(g, l[0])
		return func(int) []string { return l }
	}
	n := g.Intn(100)
	if style == 0 { // nothing but SETs, so that each read is answered locally
		n = 0
	}
	if style == 1 && n > 60 { // with commands that change nothing here
		n = 90 + g.Intn(10)
	}
	switch {
	case n < 60:
		v := val(k)
		h.sets++
		return h.push(0, map[string]*string{k: v}, is("set", k, *v))
	case n < 64:
		return h.push(0, map[string]*string{k: nil}, is([...]string{"del", "unlink"}[g.Intn(2)], k))
	case n < 66:
		return h.push(0, map[string]*string{k: nil, k2: nil}, is("del", k, k2))
	case n < 70:
		v := val(k)
		return h.push(0, map[string]*string{k: v}, is("setex", k, "1000", *v))
	case n < 73:
		v := val(k)
		return h.push(0, map[string]*string{k: v}, is("getset", k, *v))
	case n < 76 && k != k2:
		v, v2 := val(k), val(k2)
		return h.push(0, map[string]*string{k: v, k2: v2}, is("mset", k, *v, k2, *v2))
	case n < 79:
		if o := h.now(k); !o.is || len(o.val) > 3000 || o.val[0] != 's' {
			break
		}
		v := h.now(k).val + fmt.Sprint("+", next)
		return h.push(0, map[string]*string{k: &v}, is("append", k, fmt.Sprint("+", next)))
	case n < 81:
		if h.now(k).is || k == k2 {
			break
		}
		v := val(k)
		return h.push(0, map[string]*string{k: v}, is("setnx", k, *v))
	case n < 83 && k != k2:
		if o := h.now(k); o.is { // k becomes k2
			v := o.val
			return h.push(0, map[string]*string{k: nil, k2: &v}, is("rename", k, k2))
		}
	case n < 84:
		return h.push(0, all(), is([...]string{"flushdb", "flushall"}[g.Intn(2)]))
	case n < 85:
		e := all()
		v := val(k)
		e[k] = v
		return h.push(0, e, is("eval", "redis.call('flushdb') redis.call('set', KEYS[1], ARGV[1])", "1", k, *v))
	case n < 88:
		return h.push(0, map[string]*string{k: nil}, is("lpush", k, "x")) // no value that Get could give; a master would refuse it for a string
	case n < 93:
		v := fmt.Sprintf("o:%d:%s", next, k) // in another database
		return h.push(1+g.Intn(3), nil, is("set", k, v))
	case n < 95:
		return h.push(1+g.Intn(3), nil, is("del", k))
	case n < 97:
		return h.push(h.cur, nil, is("ping"))
	case n < 99:
		return h.push(0, nil, is([...]string{"multi", "exec"}[g.Intn(2)]))
	default:
		return h.push(0, nil, is("publish", "channel", "text"))
	}
	return nil
}
