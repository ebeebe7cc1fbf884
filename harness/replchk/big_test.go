package replchk

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/liujiangwei/xxcache/cache"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/master"
	. "verif/harness/resp"
)

func bytesOf(g *rand.Rand, n int) string {
	b := make([]byte, n)
	g.Read(b)
	return string(b)
}

// bigMaster answers reads from what it holds in database 0.
func bigMaster(g *rand.Rand, held map[string]string, mu *sync.Mutex) *master.Master {
	m := master.New(g.Int63())
	d := gen.Dataset{0: {}}
	for k, v := range held {
		d[0][k] = &gen.Val{Kind: gen.String, Str: v}
	}
	m.Snapshot = gen.Write(g, d, gen.Forms{}, "", -1).B
	m.Answer(func(cmd []string) Msg {
		mu.Lock()
		defer mu.Unlock()
		if len(cmd) == 2 && strings.EqualFold(cmd[0], "get") {
			if v, ok := held[cmd[1]]; ok {
				return Bulk(v)
			}
			return Nil()
		}
		return Error("ERR unknown command")
	})
	return m
}

// bigStream: keys and values of many megabytes, in the snapshot and in the stream, and a stream faster than the client
// can apply it.
func bigStream(r *kit.Run, g *rand.Rand) {
	var mu sync.Mutex
	big := r.N(9<<20, 80<<20)
	held := map[string]string{"small": "1", "big": bytesOf(g, big), bytesOf(g, 2<<20): "of a big key", "grows": "0"}
	m := bigMaster(g, held, &mu)
	defer m.Close()
	what := "big keys and values"
	r.Step("X01 " + what)
	p := connect(r, m, what)
	_ = p.link.Send(master.Stream([]string{"SELECT", "0"}))
	compare := func() {
		p.settle(0, 60*time.Second, what)
		for k, want := range held {
			is, v, err := p.local(k)
			if err != nil || v != want {
				r.Violation("a read gave something else than the master holds", fmt.Sprintf("%s: key %s gave %s, %v (answered locally: %v), want %s", what, kit.Q(k), kit.Q(v), err, is, kit.Q(want)))
			}
			r.Case(fmt.Sprint(what, len(k), len(want)), true)
		}
	}
	set := func(k, v string) {
		mu.Lock()
		held[k] = v
		mu.Unlock()
		_ = p.link.Send(master.Stream([]string{"set", k, v}))
	}
	compare()
	for _, n := range []int{1<<16 + 1, 1<<20 - 10, 1<<20 + 1, 5<<20 + 3, big} {
		r.Step(fmt.Sprintf("X01 %s, %d bytes", what, n))
		set("grows", bytesOf(g, n))
		set(bytesOf(g, n/3), "of a key that came later")
		set("big", fmt.Sprint("small after ", n))
		compare()
		set("big", bytesOf(g, n+1))
		set("grows", "small again")
		compare()
		for k := range held { // and away
			if len(k) > 100000 {
				mu.Lock()
				delete(held, k)
				mu.Unlock()
				_ = p.link.Send(master.Stream([]string{"del", k}))
				p.settle(0, 60*time.Second, what)
				if is, v, err := p.local(k); err == nil {
					r.Violation("a key the master does not hold was answered", fmt.Sprintf("%s: key %s gave %s (answered locally: %v)", what, kit.Q(k), kit.Q(v), is))
				}
			}
		}
	}
	r.Max("largest_value_streamed", int64(big))
	held = nil
	burst(r, g, "X01", r.N(45000, 400000))
}

// burst streams n commands at once while every access to the local data is slow, so that they pile up, and compares
// every key afterwards.
func burst(r *kit.Run, g *rand.Rand, prop string, n int) {
	what := fmt.Sprintf("a burst of %d commands with a slow cache", n)
	r.Step(prop + " " + what)
	var mu sync.Mutex
	held := map[string]string{"snap": "sv"}
	m := bigMaster(g, held, &mu)
	defer m.Close()
	p := connect(r, m, what)
	out := master.Stream([]string{"SELECT", "0"})
	final := map[string]string{}
	for i := 0; i < n; i++ {
		k, v := fmt.Sprint("k", g.Intn(n/2)), fmt.Sprint("v", i)
		switch g.Intn(12) {
		case 0:
			out = append(out, master.Stream([]string{"del", k})...)
			delete(final, k)
		case 1:
			out = append(out, master.Stream([]string{"PING"})...)
		default:
			out = append(out, master.Stream([]string{"set", k, v})...)
			final[k] = v
		}
	}
	mu.Lock()
	for k, v := range final {
		held[k] = v
	}
	mu.Unlock()
	slow(60 * time.Microsecond)
	done := make(chan struct{})
	go func() { defer close(done); _ = p.link.Send(out) }()
	within(r, 200*time.Second, what+": streaming", func() { <-done })
	p.settle(0, 200*time.Second, what)
	slow(0)
	local := 0
	for i := 0; i < n/2; i++ {
		k := fmt.Sprint("k", i)
		want, ok := final[k]
		is, v, err := p.local(k)
		if ok != (err == nil) || v != want {
			r.Violation("a read gave something else than the master holds", fmt.Sprintf("%s: key %s gave %s, %v (answered locally: %v), want %v %s", what, k, kit.Q(v), err, is, ok, kit.Q(want)))
		}
		if is {
			local++
		}
		if i%500 == 0 {
			r.Beat()
		}
	}
	if prop == "X03" && local < len(final)*9/10 {
		r.Violation("commands of the stream were not applied", fmt.Sprintf("%s: %d of %d keys are answered locally", what, local, len(final)))
	}
	r.Count("burst_commands", int64(n))
	r.Count("answered_locally", int64(local))
	r.Case(what, true)
}

// fromElsewhere: commands run while another database is selected that change database 0, each on a key the client
// certainly holds itself.
func fromElsewhere(r *kit.Run, g *rand.Rand) {
	var mu sync.Mutex
	held := map[string]string{"snap": "sv", "other": "o"}
	m := bigMaster(g, held, &mu)
	defer m.Close()
	what := "commands in another database"
	r.Step("X01 " + what)
	p := connect(r, m, what)
	var log []string
	send := func(cmd ...string) {
		log = append(log, fmt.Sprintf("%q", cmd))
		_ = p.link.Send(master.Stream(cmd))
	}
	compare := func(db int, absent ...string) {
		p.settle(db, 60*time.Second, what)
		show := func(k string, is bool, v string, err error) string {
			return fmt.Sprintf("%s: key %s gave %s, %v (answered locally: %v); master holds %v\n%s", what, kit.Q(k), kit.Q(v), err, is, held, strings.Join(log[max(0, len(log)-8):], "\n"))
		}
		for k, want := range held {
			is, v, err := p.local(k)
			if err != nil || v != want {
				r.Violation("a read gave something else than the master holds", show(k, is, v, err))
			}
			if is {
				r.Count("answered_locally", 1)
			} else {
				r.Count("answered_by_master", 1)
			}
		}
		for _, k := range absent {
			if is, v, err := p.local(k); err == nil {
				r.Violation("a key the master does not hold was answered", show(k, is, v, err))
			}
		}
	}
	set := func(k, v string) {
		mu.Lock()
		if v == "" {
			delete(held, k)
		} else {
			held[k] = v
		}
		mu.Unlock()
	}
	script := []string{"redis.call('select', 0) redis.call('set', KEYS[1], ARGV[1])", "local k = 'k' redis.call('SELECT', '0') redis.call('del', k)"}
	cmds := [][]string{
		{"eval", script[0], "1", "k", "x"}, {"eval", script[1], "0"}, {"eval", script[0], "1", "unrelated", "x"},
		{"evalsha", "ffffffffffffffffffffffffffffffffffffffff", "1", "k"}, {"evalsha", "e0e1f9fabfc9d4800c877a703b823ac0578ff8db", "0"},
		{"fcall", "f", "1", "k", "x"}, {"fcall", "k", "0"},
		{"flushall"}, {"flushall", "ASYNC"}, {"flushall", "SYNC"},
		{"swapdb", "0", "5"}, {"swapdb", "5", "0"}, {"swapdb", "7", "0"},
		{"copy", "src", "k", "DB", "0", "REPLACE"}, {"copy", "src", "k", "replace", "db", "0"}, {"move", "k", "0"},
	}
	for round := 0; round < r.N(4, 30); round++ {
		g.Shuffle(len(cmds), func(i, j int) { cmds[i], cmds[j] = cmds[j], cmds[i] })
		for i, cmd := range cmds {
			at := []int{5, 1, 15, 7}[g.Intn(4)]
			if cmd[0] == "swapdb" {
				at = 3
			}
			send("SELECT", "0")
			send("set", "k", fmt.Sprint("before ", round, i))
			set("k", fmt.Sprint("before ", round, i))
			if g.Intn(2) == 0 { // the client has certainly applied it
				compare(0)
			}
			send(caseOf(g, "select"), fmt.Sprint(at))
			multi := g.Intn(3) == 0
			if multi {
				send("MULTI")
				send("set", "k", "of another database")
			}
			if cmd[0] == "move" { // only where the key is not
				send("SELECT", "0")
				send("del", "k")
				send("SELECT", fmt.Sprint(at))
			}
			send(append([]string{caseOf(g, cmd[0])}, cmd[1:]...)...)
			// the effect
			v := fmt.Sprint("after ", round, i)
			absent := []string{}
			switch {
			case cmd[0] == "flushall":
				for k := range held {
					absent = append(absent, k)
				}
				for _, k := range absent {
					set(k, "")
				}
			case len(cmd) > 1 && cmd[1] == script[1], cmd[0] == "evalsha" && g.Intn(2) == 0:
				set("k", "")
				absent = append(absent, "k")
			case cmd[0] == "swapdb":
				set("k", v)
				set("other", "")
				absent = append(absent, "other")
			default:
				set("k", v)
			}
			if multi {
				send("EXEC")
			}
			compare(at, absent...)
			if held["other"] == "" {
				send("SELECT", "0")
				send("set", "other", "o")
				send("set", "snap", "sv")
				set("other", "o")
				set("snap", "sv")
			}
			r.Case(fmt.Sprint(what, round, i, cmd), true)
		}
	}
	r.Count("commands_elsewhere", int64(r.N(4, 30)*len(cmds)))
}

// manyArguments: replayed commands that name thousands of keys have to reach each of them.
func manyArguments(r *kit.Run, g *rand.Rand) {
	for _, n := range []int{100, 1100, 20000, r.N(140000, 1200000)} {
		for _, name := range []string{"del", "unlink", "mset", "msetnx", "DEL", "sdiffstore", "pfmerge"} {
			r.Step(fmt.Sprintf("X02 %s of %d keys", name, n))
			c := cache.New()
			var ks []string
			for i := 0; i < n; i++ {
				k := fmt.Sprint("k", i)
				ks = append(ks, k)
				if name != "msetnx" {
					_, _ = c.Set(k, "old")
				}
			}
			_, _ = c.Set("other", "stays")
			want := map[string]string{}
			cmd := []string{name}
			switch name {
			case "mset", "msetnx":
				for i, k := range ks {
					v := fmt.Sprint("new", i)
					cmd = append(cmd, k, v)
					want[k] = v
				}
			case "del", "DEL", "unlink":
				cmd = append(cmd, ks...)
			default: // the first is written, the others are read
				cmd = append(cmd, ks...)
				for _, k := range ks[1:] {
					want[k] = "old"
				}
			}
			r.Guard(func() { _ = cache.HandleMessage(c, message(cmd...)) })
			for _, k := range ks {
				v, err := c.Get(k)
				if w, ok := want[k]; err == nil && (!ok || v != w) {
					r.Violation("the local copy contradicts the master", fmt.Sprintf("after %s of %d keys %s is %s; the master has %v %s", name, n, k, kit.Q(v), ok, kit.Q(w)))
				}
			}
			if v, err := c.Get("other"); err != nil || v != "stays" {
				r.Violation("a key the command does not name lost its local copy", fmt.Sprintf("after %s of %d keys: %s %v", name, n, v, err))
			}
			r.Case(fmt.Sprint(name, n), true)
			r.Max("most_keys_in_a_command", int64(n))
		}
		c := cache.New()
		r.Guard(func() {
			k, v := bytesOf(g, n*20), bytesOf(g, n*30)
			_, _ = c.Set(k, "old")
			if err := cache.HandleMessage(c, message("set", k, v)); err != nil {
				r.Violation("a plain SET is reported as an error", fmt.Sprintf("%d bytes: %v", n*50, err))
			}
			if got, err := c.Get(k); err != nil || got != v {
				r.Violation("a plain SET does not make the value available", fmt.Sprintf("%d bytes: %v", n*50, err))
			}
			_ = cache.HandleMessage(c, message("del", "x", k))
			if got, err := c.Get(k); err == nil {
				r.Violation("the local copy contradicts the master", fmt.Sprintf("%d bytes after del: %s", n*50, kit.Q(got)))
			}
		})
	}
}
