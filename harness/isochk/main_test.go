// Package isochk runs independent objects of one process side by side and compares what each of them does with what
// the same one does alone.
package isochk

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache"
	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/redis"
	"github.com/liujiangwei/xxcache/redis/intset"
	"github.com/liujiangwei/xxcache/redis/lzf"
	"github.com/liujiangwei/xxcache/redis/ziplist"
	"github.com/liujiangwei/xxcache/redis/zipmap"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/master"
	. "verif/harness/resp"
)

func TestCheck(t *testing.T) {
	r := kit.Start("one evaluation per script, call or input whose outcome next to others is compared with its outcome alone; distinct by the script, call or input", 60*time.Second)
	r.Guard(func() {
		caches(r)
		decoders(r)
		connected(r)
		clients(r) // with what is left of lost links around
		r.Finish()
	})
}

// together runs the functions at the same time and waits for all of them.
func together(r *kit.Run, d time.Duration, what string, fs ...func()) {
	var start, end sync.WaitGroup
	start.Add(1)
	for _, f := range fs {
		end.Add(1)
		go func(f func()) {
			defer end.Done()
			start.Wait()
			r.Guard(f)
		}(f)
	}
	start.Done()
	done := make(chan struct{})
	go func() { end.Wait(); close(done) }()
	late := time.After(d)
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case <-done:
			return
		case <-tick.C:
			r.Beat()
		case <-late:
			r.Violation("does not return", fmt.Sprintf("%s: nothing after %v\n%s", what, d, kit.Stacks()))
		}
	}
}

// ---- caches

func text(v interface{}, err error) string {
	switch l := v.(type) {
	case map[string]string:
		var ks []string
		for k, x := range l {
			ks = append(ks, k+"="+x)
		}
		sort.Strings(ks)
		v = ks
	case []string:
		l = append([]string(nil), l...)
		sort.Strings(l)
		v = l
	}
	return fmt.Sprintf("%q %v", fmt.Sprint(v), err)
}

type step struct {
	name string
	f    func(c *cache.Cache) string
}

// script makes up what one user does with one cache. The keys are everybody's, the values are the user's own.
func script(g *rand.Rand, who, n int) (l []step) {
	keys := []string{"a", "b", "c", "d", "counter", "", "k\x00"}
	fields := []string{"f", "g", "h"}
	for len(l) < n {
		k, k2, f, f2 := keys[g.Intn(len(keys))], keys[g.Intn(len(keys))], fields[g.Intn(3)], fields[g.Intn(3)]
		v := fmt.Sprintf("%d/%d", who, len(l))
		num := fmt.Sprint(who*1000 + len(l))
		x := int64(who + 1)
		if g.Intn(2) == 0 {
			v = num
		}
		a, b := g.Intn(9), g.Intn(9)
		add := func(name string, f func(c *cache.Cache) string) { l = append(l, step{name, f}) }
		switch g.Intn(40) {
		case 0, 1, 2:
			add(fmt.Sprintf("Set %q %s", k, v), func(c *cache.Cache) string { return text(c.Set(k, v)) })
		case 3:
			add(fmt.Sprintf("SetNX %q %s", k, v), func(c *cache.Cache) string { return text(c.SetNX(k, v)) })
		case 4:
			add(fmt.Sprintf("SetEX %q %s", k, v), func(c *cache.Cache) string { return text(c.SetEX(k, v, 1000)) })
		case 5:
			// gone when the user comes back
			add(fmt.Sprintf("PSetEX %q %s 1", k, v), func(c *cache.Cache) string {
				s := text(c.PSetEX(k, v, 1))
				time.Sleep(2500 * time.Microsecond)
				return s + text(c.Get(k))
			})
		case 6:
			add(fmt.Sprintf("PSetEX %q %s", k, v), func(c *cache.Cache) string { return text(c.PSetEX(k, v, 1000000)) })
		case 7, 8, 9:
			add(fmt.Sprintf("Get %q", k), func(c *cache.Cache) string { return text(c.Get(k)) })
		case 10:
			add(fmt.Sprintf("GetSet %q %s", k, v), func(c *cache.Cache) string { return text(c.GetSet(k, v)) })
		case 11:
			add(fmt.Sprintf("StrLen %q", k), func(c *cache.Cache) string { return text(c.StrLen(k)) })
		case 12:
			add(fmt.Sprintf("Append %q %s", k, v), func(c *cache.Cache) string { return text(c.Append(k, v)) })
		case 13:
			add(fmt.Sprintf("SetRange %q %d %s", k, a, v), func(c *cache.Cache) string { return text(c.SetRange(k, a, v)) })
		case 14:
			add(fmt.Sprintf("GetRange %q %d %d", k, a, b), func(c *cache.Cache) string { return text(c.GetRange(k, a, b)) })
		case 15, 16:
			add("IncrBy counter", func(c *cache.Cache) string { return text(c.IncrBy("counter", x)) })
		case 17:
			add(fmt.Sprintf("IncrByFloat %q", k), func(c *cache.Cache) string { return text(c.IncrByFloat(k, float64(x)+0.5)) })
		case 18:
			add(fmt.Sprintf("DecrBy %q", k), func(c *cache.Cache) string { return text(c.DecrBy(k, x)) })
		case 19:
			add(fmt.Sprintf("MSet %q %q", k, k2), func(c *cache.Cache) string { return text(c.MSet(map[string]string{k: v, k2: v}), nil) })
		case 20:
			add(fmt.Sprintf("MSetNX %q %q", k, k2), func(c *cache.Cache) string { return text(c.MSetNX(map[string]string{k: v, k2: v}), nil) })
		case 21, 22:
			add("MGet", func(c *cache.Cache) string { return text(c.MGet(keys...), nil) })
		case 23:
			add(fmt.Sprintf("Del %q", k), func(c *cache.Cache) string { return text(c.Del(k), nil) })
		case 24:
			add("Exists", func(c *cache.Cache) string { return text(c.Exists(keys...), nil) })
		case 25:
			add(fmt.Sprintf("Type %q", k), func(c *cache.Cache) string { return text(c.Type(k), nil) })
		case 26:
			if g.Intn(4) == 0 {
				add("Flush", func(c *cache.Cache) string { c.Flush(); return "" })
			}
		case 27, 28:
			add(fmt.Sprintf("HSet %q %s %s", k, f, v), func(c *cache.Cache) string { return text(c.HSet(k, f, v)) })
		case 29:
			add(fmt.Sprintf("HSetNX %q %s %s", k, f, v), func(c *cache.Cache) string { return text(c.HSetNX(k, f, v)) })
		case 30:
			add(fmt.Sprintf("HGet %q %s", k, f), func(c *cache.Cache) string { return text(c.HGet(k, f)) })
		case 31:
			add(fmt.Sprintf("HDel %q %s %s", k, f, f2), func(c *cache.Cache) string { return text(c.HDel(k, f, f2)) })
		case 32:
			add(fmt.Sprintf("HLen %q", k), func(c *cache.Cache) string { return text(c.HLen(k)) })
		case 33:
			add(fmt.Sprintf("HIncrBy %q %s", k, f), func(c *cache.Cache) string { return text(c.HIncrBy(k, f, int(x))) })
		case 34:
			add(fmt.Sprintf("HIncrByFloat %q %s", k, f), func(c *cache.Cache) string { return text(c.HIncrByFloat(k, f, 0.25)) })
		case 35:
			add(fmt.Sprintf("HMSet %q", k), func(c *cache.Cache) string { return text(c.HMSet(k, map[string]string{f: v, f2: v})) })
		case 36:
			add(fmt.Sprintf("HMGet %q", k), func(c *cache.Cache) string { return text(c.HMGet(k, fields...)) })
		case 37:
			add(fmt.Sprintf("HKeys %q", k), func(c *cache.Cache) string { return text(c.HKeys(k)) })
		case 38:
			add(fmt.Sprintf("HGetAll %q", k), func(c *cache.Cache) string { return text(c.HGetAll(k)) })
		case 39:
			m := redis.NewBaseCommand([][]string{{"SET", k, v}, {"flushall"}, {"lpush", k, v}}[min(g.Intn(9), 2)]...)
			w := []string{"set", k, v}
			if g.Intn(3) != 0 {
				m = redis.NewBaseCommand(w...)
			}
			add("replicated command", func(c *cache.Cache) string { return fmt.Sprint(cache.HandleMessage(c, m.Serialize())) })
		}
	}
	return
}

func play(r *kit.Run, c *cache.Cache, l []step, at *int64) (out []string) {
	for _, s := range l {
		out = append(out, s.f(c))
		if at != nil {
			atomic.AddInt64(at, 1)
		}
		r.Beat()
	}
	return
}

func caches(r *kit.Run) {
	g := r.Rng(1)
	rounds := r.N(60, 1500)
	for i := 0; i < rounds; i++ {
		n := 2 + g.Intn(4)
		r.Step(fmt.Sprintf("X08 %d caches, round %d", n, i))
		scripts := make([][]step, n)
		alone := make([][]string, n)
		for k := range scripts {
			scripts[k] = script(g, k+1, 80+g.Intn(250))
		}
		cron := g.Intn(2) == 0
		var fs []func()
		for k := range scripts {
			fs = append(fs, func() {
				// one after the other would take long where the scripts sleep; nobody else uses what this one makes
				c := cache.New()
				alone[k] = nil
				alone[k] = play(r, c, scripts[k], nil)
			})
		}
		for k, f := range fs {
			together(r, 60*time.Second, fmt.Sprintf("script %d alone", k), f)
		}
		got := make([][]string, n)
		fs = nil
		all := make([]*cache.Cache, n)
		for k := range scripts {
			all[k] = cache.New()
			if cron {
				all[k].Cron()
			}
		}
		var at int64
		for k := range scripts {
			fs = append(fs, func() { got[k] = play(r, all[k], scripts[k], &at) })
		}
		// somebody makes, fills and flushes caches all the while
		var stop int32
		var made int64
		var other sync.WaitGroup
		other.Add(1)
		go func() {
			defer other.Done()
			r.Guard(func() {
				for atomic.LoadInt32(&stop) == 0 {
					c := cache.New()
					for _, k := range []string{"a", "b", "c", "d", "counter"} {
						_, _ = c.PSetEX(k, "other", 1)
						_, _ = c.HSet(k+"h", "f", "other")
					}
					c.Flush()
					made++
					time.Sleep(50 * time.Microsecond)
				}
			})
		}()
		together(r, 120*time.Second, fmt.Sprintf("%d caches, each used by one goroutine", n), fs...)
		atomic.StoreInt32(&stop, 1)
		other.Wait()
		r.Count("caches_made_meanwhile", made)
		for k := range scripts {
			for s := range scripts[k] {
				if got[k][s] != alone[k][s] {
					var hist []string
					for q := max(0, s-30); q <= s; q++ {
						hist = append(hist, scripts[k][q].name+" -> "+got[k][q])
					}
					r.Violation("a cache gives other results next to other caches than alone",
						fmt.Sprintf("%s: %s next to %d other caches, %s alone, sweeping %v\n%s", scripts[k][s].name, got[k][s], n, alone[k][s], cron, strings.Join(hist, "\n")))
				}
			}
			r.Count("cache_commands_compared", int64(len(scripts[k])))
			r.Case(fmt.Sprintf("script %d.%d", i, k), true)
		}
		if i < 2 {
			r.Sample(fmt.Sprintf("%d caches with the same keys, script 1 begins %s -> %s, %s -> %s", n, scripts[0][0].name, got[0][0], scripts[0][1].name, got[0][1]))
		}
	}
}

// ---- decoding and compressing

type input struct {
	name string
	f    func(dir string) string // the outcome, as text
}

func loaded(path string) string {
	repl := &redis.Replication{RdbFile: path, Messages: make(chan redis.ReplicationMessage, 64), Err: make(chan error, 64)}
	var l []string
	done := make(chan struct{})
	ch := repl.Messages
	go func() {
		for m := range ch {
			// fields of a hash and the like come in any order
			a, _ := m.Message.(redis.ArrayMessage)
			var w []string
			for _, x := range a {
				w = append(w, x.String())
			}
			if len(w) > 2 {
				sort.Strings(w[2:])
			}
			l = append(l, fmt.Sprintf("%d %q", m.Database, w))
		}
		close(done)
	}()
	err := repl.Load()
	close(ch)
	<-done
	return fmt.Sprintf("%v %q %d %s", err, repl.Id, repl.Offset, strings.Join(l, "\n"))
}

var files int64

func inputs(g *rand.Rand) (l []input) {
	n := 24
	for i := 0; i < n; i++ {
		s := string(gen.Compressible(g, 1+g.Intn(1<<uint(4+g.Intn(13)))))
		l = append(l, input{"compress", func(string) string {
			c := lzf.Compress(s) // need not be the same twice
			return fmt.Sprintf("%d %t", len(s), lzf.DeCompress(c, len(s)) == s)
		}})
		st, data := gen.RandomLZF(g, 1+g.Intn(60))
		l = append(l, input{"decompress", func(string) string { return lzf.DeCompress(string(st), len(data)) }})
		var el []string
		for k := g.Intn(40); k >= 0; k-- {
			el = append(el, gen.Elem(g))
		}
		zl := string(gen.Ziplist(g, el, gen.Forms{}))
		l = append(l, input{"ziplist", func(string) string { return fmt.Sprintf("%q", ziplist.Load(zl)) }})
		var vs []int64
		for k := g.Intn(40); k >= 0; k-- {
			vs = append(vs, g.Int63()-g.Int63())
		}
		is := string(gen.Intset(vs, gen.IntsetWidth(vs)))
		l = append(l, input{"intset", func(string) string { return fmt.Sprint(intset.Load(is)) }})
		var ps []gen.Pair
		for k := g.Intn(20); k >= 0; k-- {
			ps = append(ps, gen.Pair{F: fmt.Sprint("f", k, gen.Elem(g)), V: gen.Elem(g)})
		}
		zm := string(gen.Zipmap(g, ps, func() int { return 0 }, gen.Forms{}))
		l = append(l, input{"zipmap", func(string) string { return text(zipmap.Load(zm), nil) }})
		var b []byte
		if g.Intn(4) != 0 {
			b = gen.Write(g, gen.NewDataset(g, 2+g.Intn(10), 8), gen.Forms{}, fmt.Sprintf("%040x", g.Int63()), g.Int63n(1e9)).B
		} else { // a damaged one is refused alone or next to others
			b = gen.Write(g, gen.NewDataset(g, 4, 8), gen.Forms{}, "", 0).B
			b = b[:g.Intn(len(b))]
		}
		l = append(l, input{"snapshot", func(dir string) string {
			p := filepath.Join(dir, fmt.Sprintf("s%d.rdb", atomic.AddInt64(&files, 1)))
			if err := os.WriteFile(p, b, 0644); err != nil {
				panic(err)
			}
			defer os.Remove(p)
			return loaded(p)
		}})
	}
	return
}

func decoders(r *kit.Run) {
	g := r.Rng(2)
	for round := 0; round < r.N(14, 400); round++ {
		r.Step(fmt.Sprintf("X08 decoding side by side, round %d", round))
		in := inputs(g)
		alone := make([]string, len(in))
		together(r, 120*time.Second, "decoding one after the other", func() {
			for i, x := range in {
				alone[i] = x.f(r.TmpDir)
				r.Beat()
			}
		})
		const workers = 8
		got := make([][]string, workers)
		perm := make([][]int, workers)
		var fs []func()
		for w := 0; w < workers; w++ {
			perm[w] = g.Perm(len(in))
			got[w] = make([]string, len(in))
			fs = append(fs, func() {
				for _, i := range perm[w] {
					got[w][i] = in[i].f(r.TmpDir)
					r.Beat()
				}
			})
		}
		together(r, 300*time.Second, "decoding side by side", fs...)
		for w := range got {
			for i := range in {
				if got[w][i] != alone[i] {
					r.Violation("decoding gives other results next to other decoding than alone",
						fmt.Sprintf("%s, input %d of round %d: %s\nalone: %s", in[i].name, i, round, kit.Q(got[w][i]), kit.Q(alone[i])))
				}
				r.Count("decoded_side_by_side_"+in[i].name, 1)
			}
		}
		for i := range in {
			r.Case(fmt.Sprintf("%s %d.%d", in[i].name, round, i), true)
		}
	}
}

// ---- remote clients

type end struct {
	id, db, size int
	pw           string
	srv          *Server
	second       *end
	c            *redis.Redis
	opt          redis.Option
	bad          atomic.Value
	slow         int64 // ns a reply takes
	refuse       int32
	stall        int32
	calls        int64
}

// newEnd makes a client and its server, or a second client of a server, in another database.
func newEnd(r *kit.Run, g *rand.Rand, id int, of *end) *end {
	e := &end{id: id, db: g.Intn(4), size: 1 + g.Intn(4)}
	if of != nil {
		e.id, e.db, e.pw, e.srv = of.id, of.db+1+g.Intn(3), of.pw, of.srv
		of.second = e
		e.opt = redis.Option{Addr: e.srv.Addr, PoolSize: e.size, Password: e.pw, Database: e.db}
		e.c = redis.NewClient(e.opt)
		return e
	}
	if g.Intn(3) != 0 {
		e.pw = fmt.Sprint("password ", id, " ", g.Int63())
	}
	e.srv = NewServer(func(c *Conn) {
		fail := func(s string) { e.bad.CompareAndSwap(nil, s) }
		db, auth := 0, e.pw == ""
		for {
			cmd, err := c.Cmd()
			if err != nil {
				if strings.HasPrefix(err.Error(), "malformed") {
					fail(err.Error())
				}
				return
			}
			for atomic.LoadInt32(&e.stall) != 0 {
				time.Sleep(time.Millisecond)
			}
			if d := atomic.LoadInt64(&e.slow); d > 0 && cmd[0] != "auth" && cmd[0] != "select" {
				time.Sleep(time.Duration(d))
			}
			m := Error("ERR unexpected")
			if atomic.LoadInt32(&e.refuse) != 0 {
				if c.Reply(Error("WRONGPASS")) != nil {
					return
				}
				continue
			}
			switch strings.ToLower(cmd[0]) {
			case "auth":
				auth = len(cmd) == 2 && cmd[1] == e.pw
				if !auth {
					fail(fmt.Sprintf("server %d was given the password %q", e.id, cmd[1:]))
				}
				m = Simple("OK")
			case "select":
				switch n := strings.Join(cmd[1:], " "); {
				case n == fmt.Sprint(e.db):
					db = e.db
				case e.second != nil && n == fmt.Sprint(e.second.db):
					db = e.second.db
				default:
					fail(fmt.Sprintf("server %d, database %d, was asked for database %q", e.id, e.db, n))
				}
				m = Simple("OK")
			default:
				if !auth || db != e.db && (e.second == nil || db != e.second.db) {
					fail(fmt.Sprintf("server %d: %q on a connection that is authenticated: %v, in database %d instead of %d", e.id, cmd, auth, db, e.db))
				}
				switch strings.ToLower(cmd[0]) {
				case "get":
					m = Bulk(token(cmd[1], e.id, db))
				case "strlen":
					m = Int(int64(e.id*1000 + db*100 + len(cmd[1])))
				case "mget":
					m = Array()
					for _, k := range cmd[1:] {
						m.A = append(m.A, Bulk(token(k, e.id, db)))
					}
				case "append":
					m = Error("ERR " + token(cmd[1], e.id, db))
				}
			}
			if c.Reply(m) != nil {
				return
			}
		}
	})
	e.opt = redis.Option{Addr: e.srv.Addr, PoolSize: e.size, Password: e.pw, Database: e.db}
	e.c = redis.NewClient(e.opt)
	return e
}

func token(k string, server, db int) string {
	return fmt.Sprintf("%s of server %d, database %d", k, server, db)
}

func (e *end) token(k string) string { return token(k, e.id, e.db) }

// call makes one call and says what is wrong with its answer; err is an error that is not an answer.
func (e *end) call(g *rand.Rand, n int) (what, wrong string, err error) {
	k := fmt.Sprintf("key%d:%s", n, strings.Repeat("x", g.Intn(30)))
	atomic.AddInt64(&e.calls, 1)
	switch g.Intn(5) {
	case 0, 1:
		s, err := e.c.Get(k)
		if err != nil {
			return "Get " + k, "", err
		}
		if s != e.token(k) {
			return "Get " + k, s, nil
		}
		return "Get " + k, "", nil
	case 2:
		i, err := e.c.StrLen(k)
		if err != nil {
			return "StrLen " + k, "", err
		}
		if i != e.id*1000+e.db*100+len(k) {
			return "StrLen " + k, fmt.Sprint(i), nil
		}
		return "StrLen " + k, "", nil
	case 3:
		l, err := e.c.MGet(k, k+"2", k)
		if err != nil {
			return "MGet " + k, "", err
		}
		if want := []interface{}{e.token(k), e.token(k + "2"), e.token(k)}; fmt.Sprint(l...) != fmt.Sprint(want...) {
			return "MGet " + k, fmt.Sprint(l...), nil
		}
		return "MGet " + k, "", nil
	default:
		i, err := e.c.Append(k, "x")
		if err == nil {
			return "Append " + k, fmt.Sprint(i), nil
		}
		if !strings.Contains(err.Error(), e.token(k)) {
			return "Append " + k, "", err
		}
		return "Append " + k, "", nil
	}
}

func clients(r *kit.Run) {
	g := r.Rng(3)
	for round := 0; round < r.N(27, 300); round++ {
		n := 2 + g.Intn(3)
		fault := [...]string{"", "dropped", "down", "stalled", "times out", "times out everywhere else", "refuses the password", "nobody listens", "stalled from the start"}[round%9]
		what := fmt.Sprintf("%d remote clients, the first one's server: %s", n, fault)
		r.Step(fmt.Sprintf("X08 %s, round %d", what, round))
		ends := make([]*end, n)
		for i := range ends {
			var of *end
			if i >= 2 && g.Intn(2) == 0 { // the server of the second one, which stays up
				of = ends[1]
				if of.second != nil {
					of = nil
				}
			}
			ends[i] = newEnd(r, g, i+1, of)
		}
		switch fault {
		case "times out", "refuses the password", "nobody listens":
			// the first client gives up early, the others wait
			opt := ends[0].opt
			opt.ReadTimeout, opt.WriteTimeout = 30*time.Millisecond, 30*time.Millisecond
			if fault == "nobody listens" {
				ends[0].srv.Down(true)
			}
			if fault == "refuses the password" {
				atomic.StoreInt32(&ends[0].refuse, 1)
			}
			if fault == "times out" {
				atomic.StoreInt32(&ends[0].stall, 1)
				for _, e := range ends[1:] {
					atomic.StoreInt64(&e.slow, int64(60*time.Millisecond))
				}
			}
			ends[0].c = redis.NewClient(opt)
			for i := 1; i < n; i++ { // made before and after
				if g.Intn(2) == 0 {
					ends[i].c = redis.NewClient(ends[i].opt)
				}
			}
		case "times out everywhere else":
			for _, e := range ends[1:] {
				opt := e.opt
				opt.ReadTimeout, opt.WriteTimeout = 5*time.Second, 5*time.Second
				e.c = redis.NewClient(opt)
			}
		}
		var hold int32
		if strings.HasPrefix(fault, "stalled") {
			hold = 1
		}
		if fault == "stalled from the start" { // even the connections of the first client are not ready
			atomic.StoreInt32(&ends[0].stall, 1)
		}
		until := time.Now().Add(250 * time.Millisecond)
		var fs []func()
		for i, e := range ends {
			for p := 0; p < 1+g.Intn(2*e.size); p++ {
				h := rand.New(rand.NewSource(g.Int63()))
				fs = append(fs, func() {
					for q := 0; time.Now().Before(until) || atomic.LoadInt32(&hold) != 0 || q < 3; q++ {
						call, wrong, err := e.call(h, q)
						if wrong != "" {
							r.Violation("a remote client answers with something else next to other clients", fmt.Sprintf("%s: client %d: %s answers %s", what, i, call, wrong))
						}
						if err != nil && (i != 0 || fault == "" || fault == "times out everywhere else") {
							r.Violation("a remote client fails because of another one", fmt.Sprintf("%s: client %d, whose server answers: %s: %v", what, i, call, err))
						}
						r.Beat()
						if err != nil {
							time.Sleep(time.Millisecond)
						}
					}
				})
			}
		}
		if fault == "dropped" || fault == "down" || strings.HasPrefix(fault, "stalled") {
			fs = append(fs, func() {
				for q := 0; q < 5; q++ {
					time.Sleep(30 * time.Millisecond)
					switch fault {
					case "dropped":
						ends[0].srv.Drop()
					case "down":
						ends[0].srv.Down(true)
					case "stalled", "stalled from the start":
						// until every other client has been answered a few times more
						atomic.StoreInt32(&ends[0].stall, 1)
						time.Sleep(20 * time.Millisecond)
						end := time.Now().Add(20 * time.Second)
						for i := 1; i < n; i++ {
							for from := atomic.LoadInt64(&ends[i].calls); atomic.LoadInt64(&ends[i].calls) < from+20; {
								if time.Now().After(end) {
									r.Violation("a remote client waits for another one's server", fmt.Sprintf("%s: client %d\n%s", what, i, kit.Stacks()))
								}
								time.Sleep(time.Millisecond)
							}
						}
						atomic.StoreInt32(&hold, 0)
						atomic.StoreInt32(&ends[0].stall, 0)
						return
					}
				}
			})
		}
		if fault == "times out" {
			fs = append(fs, func() {
				time.Sleep(300 * time.Millisecond)
				atomic.StoreInt32(&ends[0].stall, 0)
			})
		}
		together(r, 60*time.Second, what, fs...)
		for i, e := range ends {
			if s := e.bad.Load(); s != nil && (i != 0 || fault == "" || fault == "dropped" || fault == "down" || strings.HasPrefix(fault, "stalled")) {
				r.Violation("the connections of remote clients are mixed up", what+": "+s.(string))
			}
			size := e.size
			if e.second != nil {
				size += e.second.size
			}
			if i != 0 && (i == 1 || ends[1].srv != e.srv) && e.srv.Accepted() > size {
				r.Violation("a remote client opens connections because of another one", fmt.Sprintf("%s: pools of %d opened %d connections to a server that keeps them", what, size, e.srv.Accepted()))
			}
			r.Count("remote_calls_side_by_side", e.calls)
			r.Case(fmt.Sprintf("%s round %d client %d", fault, round, i), true)
		}
		for _, e := range ends {
			e.srv.Close()
		}
		if round < 9 {
			r.Sample(fmt.Sprintf("%s; pools of %d and %d, databases %d and %d", what, ends[0].size, ends[1].size, ends[0].db, ends[1].db))
		}
	}
}

// ---- connected clients

type replica struct {
	m     *master.Master
	c     *xxcache.Client
	link  *master.Link
	local map[string]string
}

func (p *replica) get(k string) (v string, local bool, err error) {
	n := p.m.Seen("get", k)
	v, err = p.c.Get(k)
	return v, p.m.Seen("get", k) == n, err
}

func connected(r *kit.Run) {
	g := r.Rng(4)
	keys := []string{"a", "b", "c", "d", "e", "f", "", "k\x00"}
	for round := 0; round < r.N(16, 300); round++ {
		n := 2 + g.Intn(3)
		what := fmt.Sprintf("%d connected clients", n)
		r.Step(fmt.Sprintf("X08 %s, round %d", what, round))
		// while one of them connects to a master that fails
		failing := g.Intn(3) == 0
		ps := make([]*replica, n)
		for i := range ps {
			m := master.New(g.Int63())
			d := gen.Dataset{0: {}}
			p := &replica{m: m, local: map[string]string{}}
			for _, k := range keys {
				if g.Intn(3) != 0 {
					v := fmt.Sprintf("snapshot of %d: %s %d", i, k, g.Intn(100))
					d[0][k] = &gen.Val{Kind: gen.String, Str: v}
					p.local[k] = v
				}
			}
			for k := g.Intn(300); k > 0; k-- {
				d[0][fmt.Sprint("filler", k)] = &gen.Val{Kind: gen.String, Str: string(gen.Compressible(g, g.Intn(100)))}
			}
			m.Snapshot = gen.Write(g, d, gen.Forms{}, fmt.Sprintf("%040x", g.Int63()), int64(1000*(i+1))).B
			m.Piece = 1 + g.Intn(3000)
			m.Newlines = g.Intn(3)
			m.OnBad(func(s string) { r.Violation("a client sent something that is no command", what+": "+s) })
			m.Answer(func(cmd []string) Msg { return Bulk(fmt.Sprintf("master %d: %s", i, cmd[1])) })
			ps[i] = p
		}
		var fs []func()
		for i, p := range ps {
			fs = append(fs, func() {
				file := filepath.Join(r.TmpDir, fmt.Sprintf("c%d.rdb", atomic.AddInt64(&files, 1)))
				c, err := xxcache.New(xxcache.Option{RedisMasterAddr: p.m.Addr, RedisRdbFile: file})
				if err != nil {
					r.Violation("a client does not connect next to others", fmt.Sprintf("%s: client %d: %v", what, i, err))
				}
				p.c = &c
				_ = os.Remove(file)
			})
		}
		if failing {
			bad := master.New(1)
			bad.Snapshot = ps[0].m.Snapshot[:len(ps[0].m.Snapshot)/2]
			defer bad.Close()
			fs = append(fs, func() {
				for q := 0; q < 3; q++ {
					file := filepath.Join(r.TmpDir, fmt.Sprintf("c%d.rdb", atomic.AddInt64(&files, 1)))
					if _, err := xxcache.New(xxcache.Option{RedisMasterAddr: bad.Addr, RedisRdbFile: file}); err == nil {
						r.Violation("a client connects although its snapshot is cut off", what)
					}
					_ = os.Remove(file)
				}
			})
		}
		together(r, 60*time.Second, what+" connect at the same time", fs...)
		for i, p := range ps {
			if p.link = p.m.Link(10 * time.Second); p.link == nil {
				r.Violation("connected without a replication link", fmt.Sprintf("%s: client %d", what, i))
			}
		}
		compare := func(when string, skip int) {
			for i, p := range ps {
				if i == skip {
					continue
				}
				for _, k := range keys {
					v, is, err := p.get(k)
					want, has := p.local[k]
					switch {
					case has && (!is || v != want || err != nil):
						r.Violation("a connected client answers with something else next to others", fmt.Sprintf("%s, %s: client %d: %q is %q (%v, answered locally: %v), its master has %q", what, when, i, k, v, err, is, want))
					case !has && (is || v != fmt.Sprintf("master %d: %s", i, k)):
						r.Violation("a connected client answers with something else next to others", fmt.Sprintf("%s, %s: client %d: %q is %q (%v, answered locally: %v), it is in no snapshot and stream of its master", what, when, i, k, v, err, is))
					}
					r.Count("reads_of_connected_clients", 1)
					r.Beat()
				}
			}
		}
		settle := func(skip int) {
			for i, p := range ps {
				if i == skip {
					continue
				}
				s := fmt.Sprintf("sentinel %d.%d", round, g.Int63())
				_ = p.link.Send(master.Stream([]string{"set", "\x01s", s}))
				end := time.Now().Add(20 * time.Second)
				for {
					if v, is, _ := p.get("\x01s"); is && v == s {
						break
					}
					if time.Now().After(end) {
						r.Violation("a stream is not applied next to others", fmt.Sprintf("%s: client %d: its sentinel has not arrived\n%s", what, i, kit.Stacks()))
					}
					r.Beat()
					time.Sleep(300 * time.Microsecond)
				}
			}
		}
		stream := func(skip, count int) {
			fs = nil
			for i, p := range ps {
				if i == skip {
					continue
				}
				var cmds [][]string
				for q := 0; q < count; q++ {
					k := keys[g.Intn(len(keys))]
					switch g.Intn(12) {
					case 0:
						cmds = append(cmds, []string{"DEL", k})
						delete(p.local, k)
					case 1:
						if g.Intn(10) == 0 {
							cmds = append(cmds, []string{"FLUSHALL"})
							p.local = map[string]string{}
						}
					case 2:
						cmds = append(cmds, []string{"SELECT", "1"}, []string{"set", k, "elsewhere"}, []string{"SELECT", "0"})
					default:
						v := fmt.Sprintf("stream of %d: %d", i, q)
						cmds = append(cmds, []string{"set", k, v})
						p.local[k] = v
					}
				}
				b := master.Stream(cmds...)
				h := rand.New(rand.NewSource(g.Int63()))
				fs = append(fs, func() { _ = p.link.Pieces(h, b, 400) })
			}
			together(r, 30*time.Second, what+": streams", fs...)
		}
		// a stream that has begun leaves no key that is only there until its commands are applied
		settle(-1)
		compare("after the snapshots", -1)
		stream(-1, 100+g.Intn(200))
		settle(-1)
		compare("after the streams", -1)
		// one loses its master, in one way or another
		gone := g.Intn(n)
		switch round % 3 {
		case 0:
			_ = ps[gone].link.C.Close()
		case 1:
			ps[gone].m.Down(true)
		case 2:
			_ = ps[gone].link.Send([]byte("!nonsense\r\n"))
		}
		stream(gone, 50)
		settle(gone)
		compare("after one of them has lost its master", gone)
		for i, p := range ps {
			if i != gone && p.link.Gone() {
				r.Violation("a client gives its link up because of another one", fmt.Sprintf("%s: client %d", what, i))
			}
		}
		// every link acknowledges what it has been sent itself
		if round%4 == 0 || r.Thorough {
			end := time.Now().Add(12 * time.Second)
			for i, p := range ps {
				for i != gone {
					base := int64(1000 * (i + 1))
					a := p.link.Acks()
					for _, x := range a {
						if x.Offset < base || x.Offset > base+x.Sent {
							r.Violation("a client acknowledges what is not its own", fmt.Sprintf("%s: client %d acknowledges %d, between %d and %d has been sent to it", what, i, x.Offset, base, base+x.Sent))
						}
					}
					if len(a) > 0 && a[len(a)-1].Offset == base+p.link.Sent() {
						r.Count("acknowledgements_of_connected_clients", int64(len(a)))
						break
					}
					if time.Now().After(end) {
						r.Violation("a client acknowledges what is not its own", fmt.Sprintf("%s: client %d has acknowledged %v, %d has been sent to it", what, i, a, base+p.link.Sent()))
					}
					r.Beat()
					time.Sleep(5 * time.Millisecond)
				}
			}
		}
		for i, p := range ps {
			r.Case(fmt.Sprintf("connected %d.%d", round, i), true)
			p.m.Close()
		}
		if round < 2 {
			r.Sample(fmt.Sprintf("%s to masters with the same keys and other values; client %d lost its master", what, gone))
		}
	}
}
