package replchk

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/liujiangwei/xxcache"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/master"
	. "verif/harness/resp"
)

func gcNow() { runtime.GC() }

func plainMaster(r *kit.Run, g *rand.Rand, offset int64) *master.Master {
	m := master.New(g.Int63())
	id := ""
	if offset >= 0 {
		id = "8371b4fb1155b71f4a04d3e1bc3e18c4a990aeeb"
	}
	m.Snapshot = gen.Write(g, gen.Dataset{0: {"snap": {Kind: gen.String, Str: "sv"}}}, gen.Forms{}, id, offset).B
	m.Answer(func(cmd []string) Msg {
		if strings.EqualFold(cmd[0], "get") && cmd[1] != sentinel {
			return Bulk("remote " + cmd[1])
		}
		return Nil()
	})
	return m
}

// lost: the link is gone, so reads have to come from the master, for good
func lost(r *kit.Run, p *peer, ks []string, what string) {
	for _, k := range ks {
		end := time.Now().Add(10 * time.Second)
		for {
			is, v, err := p.local(k)
			if !is {
				if err != nil || v != "remote "+k {
					r.Violation("a read after the loss of the link failed", fmt.Sprintf("%s: %s gave %s, %v", what, kit.Q(k), kit.Q(v), err))
				}
				break
			}
			if time.Now().After(end) {
				r.Violation("a local copy is served although the link is lost", fmt.Sprintf("%s: %s still gives %s, %v\n%s", what, kit.Q(k), kit.Q(v), err, kit.Stacks()))
			}
			time.Sleep(500 * time.Microsecond)
		}
	}
	for i := 0; i < 2; i++ {
		for _, k := range ks {
			if is, v, err := p.local(k); is || err != nil {
				r.Violation("a local copy is served although the link is lost", fmt.Sprintf("%s: %s again gives %s, %v", what, kit.Q(k), kit.Q(v), err))
			}
			r.Count("reads_after_loss", 1)
		}
	}
}

// junk is a message the cache cannot apply
func junk(g *rand.Rand, i int) []byte {
	k := fmt.Sprint("j", i%100)
	switch g.Intn(14) {
	case 0:
		return master.Stream([]string{"lpush", k, "v"})
	case 1:
		return master.Stream([]string{"set", k})
	case 2:
		return master.Stream([]string{"set", k, "v", "EX", "100"})
	case 3:
		return master.Stream([]string{"bogus"})
	case 4:
		return master.Stream([]string{"", ""})
	case 5:
		return []byte("*0\r\n")
	case 6:
		return []byte("+OK\r\n")
	case 7:
		return []byte("-ERR something\r\n")
	case 8:
		return []byte(":42\r\n")
	case 9:
		return []byte("$-1\r\n")
	case 10:
		return []byte("$3\r\nfoo\r\n")
	case 11:
		return []byte("*3\r\n$3\r\nset\r\n$1\r\nq\r\n*1\r\n:1\r\n")
	case 12:
		return master.Stream([]string{"replconf", "getack", "*"})
	default:
		return master.Stream([]string{"zadd", k, "1", "m"})
	}
}

// wide: commands with hundreds of thousands of arguments, and a snapshot with objects of that size, none of which the
// cache can hold. The time they take has to be in keeping with their size.
func wide(r *kit.Run, g *rand.Rand) {
	n := r.N(300000, 1000000)
	d := gen.Dataset{0: {"snap": {Kind: gen.String, Str: "sv"}}}
	for _, k := range []gen.Kind{gen.List, gen.Set, gen.Hash} {
		v := &gen.Val{Kind: k, Hash: map[string]string{}}
		for i := 0; i < n/2; i++ {
			if k == gen.Hash {
				v.Hash[fmt.Sprint("field ", i)] = "v"
			} else {
				v.List = append(v.List, fmt.Sprint("element ", i))
			}
		}
		d[0]["wide "+k.String()] = v
	}
	what := fmt.Sprintf("a snapshot with a list, a set and a hash of %d", n/2)
	r.Step("X03 " + what)
	m := plainMaster(r, g, 0)
	m.Snapshot = gen.Write(g, d, gen.Forms{}, "", -1).B
	p := connect(r, m, what)
	defer m.Close()
	p.settle(0, 90*time.Second, what)
	if is, v, err := p.local("snap"); !is || v != "sv" || err != nil {
		r.Violation("a string of the snapshot is not served locally", fmt.Sprintf("%s: local %v, %s, %v", what, is, kit.Q(v), err))
	}
	r.Case(what, true)
	for _, c := range []string{"sadd", "del", "mset", "rpush", "zadd"} {
		what := fmt.Sprintf("a %s with %d arguments", c, n)
		r.Step("X03 " + what)
		cmd := make([]string, 1, n+1)
		cmd[0] = c
		for i := 0; i < n; i++ {
			cmd = append(cmd, fmt.Sprint("argument ", i))
		}
		_ = p.link.Send(master.Stream([]string{"set", cmd[n/2], "old"}))
		p.settle(0, 20*time.Second, what+": before")
		_ = p.link.Send(master.Stream(cmd))
		p.settle(0, 90*time.Second, what)
		if is, v, _ := p.local(cmd[n/2]); is && v == "old" {
			r.Violation("a command of many arguments left a stale value", fmt.Sprintf("%s: %s is still %s", what, cmd[n/2], kit.Q(v)))
		}
		r.Case(what, true)
		r.Count("wide_arguments", int64(n))
	}
}

func runX03(r *kit.Run) {
	g := r.Rng(63)

	// runs of commands that cannot be applied, of any length, each followed by one that can
	for inst := 0; inst < r.N(6, 60); inst++ {
		what := fmt.Sprintf("stream %d", inst)
		r.Step("X03 " + what)
		m := plainMaster(r, g, 0)
		p := connect(r, m, what)
		_ = p.link.Send(master.Stream([]string{"SELECT", "0"}))
		runs := []int{1, 2, 3, 10, 100, 1000}
		if inst == 0 {
			runs = append(runs, r.N(160000, 700000))
		}
		if inst == 1 {
			runs = []int{r.N(15000, 100000)}
		}
		for _, n := range runs {
			r.Step(fmt.Sprintf("X03 %s, %d commands that cannot be applied", what, n))
			only := g.Intn(3) == 0
			var out []byte
			done := make(chan struct{})
			go func() { // the client has to drain it
				defer close(done)
				h := rand.New(rand.NewSource(int64(n)))
				for i := 0; i < n; i++ {
					if only {
						out = append(out, master.Stream([]string{"sadd", "s", "m"})...)
					} else {
						out = append(out, junk(h, i)...)
					}
					if h.Intn(50) == 0 {
						out = append(out, master.Stream([]string{caseOf(h, "PING")})...)
					}
					if len(out) > 3000 {
						_ = p.link.Send(out)
						out = nil
					}
				}
				_ = p.link.Send(out)
			}()
			within(r, 400*time.Second, "streaming", func() { <-done })
			p.settle(0, 300*time.Second, fmt.Sprintf("%s: %d commands that cannot be applied", what, n))
			r.Case(fmt.Sprint("run", inst, n, only), true)
			r.Count("inapplicable_commands", int64(n))
		}
		// pings at every position between commands, and split over pieces
		for i := 0; i < 40; i++ {
			var out []byte
			for k := g.Intn(4); k > 0; k-- {
				out = append(out, master.Stream([]string{caseOf(g, "ping")})...)
			}
			out = append(out, master.Stream([]string{"set", fmt.Sprint("p", i), fmt.Sprint(i)})...)
			for k := g.Intn(4); k > 0; k-- {
				out = append(out, master.Stream([]string{"PING"})...)
			}
			_ = p.link.Pieces(g, out, 1+g.Intn(20))
			p.settle(0, 20*time.Second, what+": pings")
			is, v, err := p.local(fmt.Sprint("p", i))
			if !is || err != nil || v != fmt.Sprint(i) {
				r.Violation("a command between pings was not applied", fmt.Sprintf("local %v, %s, %v", is, kit.Q(v), err))
			}
			r.Case(fmt.Sprintf("pings %d %q", inst, out), true)
		}
		if inst >= 3 {
			m.Close()
			lost(r, &peer{r: r, c: p.c, m: m}, nil, what)
		}
		if inst == 2 {
			// acknowledgements: the link stays open for a while
			time.Sleep(1500 * time.Millisecond)
			p.settle(0, 20*time.Second, what+": after an acknowledgement")
		}
	}
	r.Sample("runs of 1 to 160000 commands that cannot be applied, then a SET that must arrive")

	wide(r, g)
	burst(r, g, "X03", r.N(40000, 300000))

	// loss of the link at every byte of a stream, with reads going on
	cmds := [][]string{{"SELECT", "0"}, {"set", "a", "1"}, {"set", "b", "two"}, {"del", "zz"}, {"PING"}, {"set", "a", "three"}}
	whole := master.Stream(cmds...)
	var peers []*peer
	var whats []string
	for at := 0; at <= len(whole); at += r.N(3, 1) {
		what := fmt.Sprintf("link lost at byte %d of %d", at, len(whole))
		r.Step("X03 " + what)
		m := plainMaster(r, g, int64(at))
		p := connect(r, m, what)
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.Guard(func() {
				for {
					select {
					case <-stop:
						return
					default:
					}
					for _, k := range []string{"a", "b", "snap"} {
						v, err := p.c.Get(k)
						if err != nil || !map[string]bool{"remote " + k: true, "1": true, "two": true, "three": true, "sv": true}[v] {
							r.Violation("a read failed while the link was lost", fmt.Sprintf("%s: %s gave %s, %v", what, k, kit.Q(v), err))
						}
					}
				}
			})
		}()
		_ = p.link.Pieces(g, whole[:at], 1+g.Intn(40))
		switch at % 3 {
		case 0:
			p.link.C.Reset()
		default:
			_ = p.link.C.Close()
		}
		time.Sleep(time.Duration(g.Intn(4000)) * time.Microsecond)
		close(stop)
		wg.Wait()
		lost(r, p, []string{"a", "b", "snap"}, what)
		r.Case(what, true)
		r.Count("links_lost", 1)
		peers, whats = append(peers, p), append(whats, what)
	}
	// something that is no protocol at all ends the link too, or is skipped; either way nothing stale is served for good
	for i, s := range []string{"hello\r\n", "$abc\r\n", "*2\r\n$3\r\nfoo\r\n$x\r\n", "\x00\x01\x02", "!bogus\r\n", "*-5\r\n", "$-7\r\n"} {
		what := fmt.Sprintf("garbage %q on the link", s)
		r.Step("X03 " + what)
		m := plainMaster(r, g, 0)
		p := connect(r, m, what)
		_ = p.link.Send(master.Stream([]string{"SELECT", "0"}, []string{"set", "a", "1"}))
		p.settle(0, 20*time.Second, what)
		_ = p.link.Send([]byte(s))
		time.Sleep(20 * time.Millisecond)
		_ = p.link.C.Close()
		lost(r, p, []string{"a", "snap"}, what)
		r.Case(what, true)
		peers, whats = append(peers, p), append(whats, what)
		_ = i
	}
	r.Sample("the link cut or reset at every third byte of a stream, readers running; garbage on the link")

	// the acknowledgements now fail every second; that must not disturb anything
	r.Step("X03 failing acknowledgements")
	for s := 0; s < 3; s++ {
		for i := 0; i < 12; i++ {
			time.Sleep(100 * time.Millisecond)
			r.Beat()
		}
		for i, p := range peers {
			lost(r, p, []string{"a", "snap"}, whats[i]+", acknowledgements failing")
		}
	}
	for i, p := range peers {
		within(r, 20*time.Second, "writing after the loss of the link", func() {
			p.m.Answer(func(cmd []string) Msg { return Simple("OK") })
			if v, err := p.c.Set("x", "y"); err != nil || v != "OK" {
				r.Violation("a write after the loss of the link failed", fmt.Sprint(whats[i], v, err))
			}
		})
		p.m.Close()
	}
	r.Count("acknowledgement_failures_waited_s", 3)

	// a new client against a master that was restarted
	r.Step("X03 reconnecting")
	for i := 0; i < r.N(5, 50); i++ {
		m := plainMaster(r, g, 5)
		p := connect(r, m, "first")
		_ = p.link.C.Close()
		lost(r, p, []string{"snap"}, "first")
		p2 := connect(r, m, "second")
		_ = p2.link.Send(master.Stream([]string{"SELECT", "0"}))
		p2.settle(0, 20*time.Second, "a second client after the first one lost its link")
		lost(r, p, []string{"snap"}, "first, while the second is connected")
		m.Close()
		r.Case(fmt.Sprint("second", i), true)
	}
	r.Finish()
}

// ---- X06

func runX06(r *kit.Run) {
	g := r.Rng(66)
	rounds := r.N(1, 12)
	for round := 0; round < rounds; round++ {
		n := 60
		var wg sync.WaitGroup
		var total int64
		for i := 0; i < 6; i++ {
			h := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				r.Guard(func() { slowLoad(r, h, fmt.Sprintf("client %d.slow%d", round, i), i, &total) })
			}(i)
		}
		for i := 0; i < n; i++ {
			h := rand.New(rand.NewSource(g.Int63()))
			base := [...]int64{-1, 0, 1, 1000, 1 << 31, 1<<40 + 7, 1<<53 + 1, 123456, 1<<62 + 12345677}[i%9]
			what := fmt.Sprintf("client %d.%d, snapshot offset %d", round, i, base)
			r.Step("X06 connecting " + what)
			m := plainMaster(r, h, base)
			off := base
			if base < 0 {
				off = 0
			}
			p := connect(r, m, what)
			if i < 3 && round == 0 {
				r.Sample(what)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.Guard(func() { acks(r, h, p, off, what, &total) })
				m.Close()
			}()
		}
		if round == 0 {
			for i := 0; i < 3; i++ {
				h := rand.New(rand.NewSource(g.Int63()))
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					r.Guard(func() { longLived(r, h, i, r.N(68, 900), &total) })
				}(i)
			}
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		for k := 0; ; k++ {
			r.Step(fmt.Sprintf("X06 round %d, %d s", round, k))
			select {
			case <-done:
			case <-time.After(time.Second):
				continue
			}
			break
		}
		r.Count("acknowledgements", total)
	}
	r.Finish()
}

// longLived keeps a client connected for a long time, with little going on as masters have it: a ping every ten seconds,
// or a command now and then. It is acknowledged all the time, from the first period to the last.
func longLived(r *kit.Run, g *rand.Rand, i int, seconds int, total *int64) {
	base := int64(g.Intn(1 << 30))
	what := fmt.Sprintf("client %d connected for %d s", i, seconds)
	m := plainMaster(r, g, base)
	defer m.Close()
	p := connect(r, m, what)
	seen, last := 0, base
	start, at := time.Now(), time.Now()
	judge := func() {
		for _, a := range p.link.Acks()[seen:] {
			seen++
			if a.Offset < last || a.Offset > base+a.Sent {
				r.Violation("the acknowledged offset went back or beyond what was sent", fmt.Sprintf("%s: %d after %d, the master is at %d", what, a.Offset, last, base+a.Sent))
			}
			last, at = a.Offset, a.At
			r.Case(fmt.Sprint(what, seen), true)
			atomic.AddInt64(total, 1)
		}
		if time.Since(at) > 10*time.Second {
			r.Violation("the acknowledgements stopped", fmt.Sprintf("%s: %d acknowledgements, the last one %v after connecting, it is %v now\n%s", what, seen, at.Sub(start), time.Since(start), kit.Stacks()))
		}
	}
	for s := 1; s <= seconds; s++ {
		time.Sleep(time.Second)
		var b []byte
		switch {
		case s%10 == 0:
			b = master.Stream([]string{"PING"})
		case i == 1:
			b = master.Stream([]string{"set", gen.Elem(g), gen.Elem(g)})
		case i == 2 && s%4 == 0:
			b = master.Stream([]string{"SELECT", fmt.Sprint(g.Intn(3))}, []string{"incr", "n"}, []string{"del", "k"})
		}
		if b != nil && p.link.Send(b) != nil {
			r.Violation("the client ended the replication link", what)
		}
		judge()
	}
	for idle := time.Now(); last != base+p.link.Sent(); time.Sleep(20 * time.Millisecond) {
		judge()
		if time.Since(idle) > 8*time.Second {
			r.Violation("the master's offset is not acknowledged although the stream is idle", fmt.Sprintf("%s: master at %d, last acknowledged %d", what, base+p.link.Sent(), last))
		}
	}
	r.Count("long_lived_clients", 1)
}

// slowLoad connects a client whose snapshot file is replaced by a pipe before the last byte of the transfer arrives, so
// that reading it back takes longer than an acknowledgement period, and then judges its acknowledgements like any
// other's. A client that stores the snapshot in another way is left alone.
func slowLoad(r *kit.Run, g *rand.Rand, what string, i int, total *int64) {
	base := int64(1000 + g.Intn(1<<30))
	m := plainMaster(r, g, base)
	defer m.Close()
	path := rdbFile(r)
	defer os.Remove(path)
	fed := make(chan bool, 1)
	m.Sync = func(c *Conn) bool {
		b := m.Snapshot
		if _, err := c.Write(master.Announce(b)[:len(master.Announce(b))-1]); err != nil {
			return false
		}
		for end := time.Now().Add(2 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
			if _, err := os.Stat(path); err == nil {
				break
			}
		}
		pipe := syscall.Mkfifo(path+".pipe", 0600) == nil && os.Rename(path+".pipe", path) == nil
		go func() {
			if !pipe {
				fed <- false
				return
			}
			fd, err := -1, error(nil)
			for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
				if fd, err = syscall.Open(path, syscall.O_WRONLY|syscall.O_NONBLOCK, 0); err == nil {
					break
				}
			}
			if err != nil {
				fed <- false
				return
			}
			defer syscall.Close(fd)
			// stall before, within or after the part that has the offset
			at := []int{0, 5, len(b) / 3, len(b) / 2, len(b) - 12, 9}[i%6]
			if n, _ := syscall.Write(fd, b[:at]); n != at {
				fed <- false
				return
			}
			time.Sleep(2200 * time.Millisecond)
			n, _ := syscall.Write(fd, b[at:])
			fed <- n == len(b)-at
			time.Sleep(50 * time.Millisecond)
		}()
		_, err := c.Write(b[len(b)-1:])
		return err == nil
	}
	var c xxcache.Client
	var err error
	done := make(chan struct{})
	go func() {
		r.Guard(func() { c, err = xxcache.New(xxcache.Option{RedisMasterAddr: m.Addr, RedisRdbFile: path}) })
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		r.Count("slow_loads_impossible", 1)
		return
	}
	if err != nil {
		r.Count("slow_loads_impossible", 1)
		return
	}
	if ok := <-fed; ok {
		r.Count("slow_loads", 1)
	}
	link := m.Link(10 * time.Second)
	if link == nil {
		r.Violation("connected without a replication link", what)
	}
	acks(r, g, &peer{r: r, c: &c, m: m, link: link, file: path}, base, what, total)
}

// acks streams for a while, then idles, then streams again, and judges every acknowledgement.
func acks(r *kit.Run, g *rand.Rand, p *peer, base int64, what string, total *int64) {
	seen := 0
	last := base
	judge := func() {
		for _, a := range p.link.Acks()[seen:] {
			seen++
			if a.Offset < 0 {
				r.Violation("something else than an acknowledgement arrived on the link", fmt.Sprintf("%s: %q", what, a.Raw))
			}
			if a.Offset > base+a.Sent {
				r.Violation("more was acknowledged than the master sent", fmt.Sprintf("%s: acknowledged %d, the master is at %d", what, a.Offset, base+a.Sent))
			}
			if a.Offset < last {
				r.Violation("the acknowledged offset went back or lies before the snapshot's", fmt.Sprintf("%s: %d after %d", what, a.Offset, last))
			}
			last = a.Offset
			r.Case(fmt.Sprint(what, seen), true)
			atomic.AddInt64(total, 1)
		}
	}
	_ = p.link.Send(master.Stream([]string{"SELECT", "0"}))
	if g.Intn(4) == 0 { // one message of megabytes
		if p.link.Send(master.Stream([]string{"set", "big", strings.Repeat("b", 1<<20+g.Intn(3<<20))})) != nil {
			r.Violation("the client ended the replication link", what)
		}
		r.Count("big_messages", 1)
	}
	for phase := 0; phase < 3; phase++ {
		quiet := phase > 0 && g.Intn(4) == 0
		long := time.Duration(800+g.Intn(2500)) * time.Millisecond
		busy := !quiet && phase == 0 && g.Intn(3) == 0
		kinds := 8
		if busy { // never idle for long, and acknowledged all the same
			long = 6 * time.Second
			kinds = [...]int{1, 2, 8}[g.Intn(3)]
		}
		had, at := len(p.link.Acks()), p.link.Sent()
		for end := time.Now().Add(long); time.Now().Before(end) && !quiet; {
			var b []byte
			switch g.Intn(kinds) {
			case 0:
				b = master.Stream([]string{caseOf(g, "ping")})
			case 1:
				b = master.Stream([]string{caseOf(g, "select"), fmt.Sprint(g.Intn(16))})
			case 2:
				b = master.Stream([]string{"set", gen.Elem(g), strings.Repeat("v", g.Intn(20000))})
			case 3:
				b = master.Stream([]string{"lpush", "", "\r\n"})
			case 4:
				for k := 0; k < 300; k++ {
					b = append(b, master.Stream([]string{"incr", "counter"})...)
				}
			case 5:
				b = []byte([...]string{"*0\r\n", "$-1\r\n", ":12\r\n", "+OK\r\n", "*1\r\n$0\r\n\r\n"}[g.Intn(5)])
			default:
				b = master.Stream([]string{"set", gen.Elem(g), gen.Elem(g)})
			}
			if p.link.Pieces(g, b, [...]int{1 << 20, 1 << 20, 50, 3}[g.Intn(4)]) != nil {
				r.Violation("the client ended the replication link", what)
			}
			time.Sleep(time.Duration(g.Intn(5000)) * time.Microsecond)
			judge()
		}
		if busy {
			as := p.link.Acks()
			if len(as) == had || as[len(as)-1].Offset <= base+at {
				r.Violation("nothing is acknowledged while the stream runs", fmt.Sprintf("%s: %d acknowledgements in %v, the last of %d; the master is at %d, was at %d", what, len(as)-had, long, offset(as), base+p.link.Sent(), base+at))
			}
			r.Count("busy_streams", 1)
		}
		// idle: within two periods the master's offset is acknowledged
		from := len(p.link.Acks())
		idle := time.Now()
		for {
			time.Sleep(20 * time.Millisecond)
			judge()
			as := p.link.Acks()
			if len(as) > from && as[len(as)-1].Offset == base+p.link.Sent() {
				break
			}
			if time.Since(idle) > 8*time.Second {
				r.Violation("the master's offset is not acknowledged although the stream is idle", fmt.Sprintf("%s: master at %d, last acknowledged %d of %d acknowledgements, idle for %v\n%s", what, base+p.link.Sent(), last, len(as), time.Since(idle), kit.Stacks()))
			}
		}
		// and it stays so
		if g.Intn(3) == 0 {
			time.Sleep(2300 * time.Millisecond)
			judge()
			as := p.link.Acks()
			if as[len(as)-1].Offset != base+p.link.Sent() {
				r.Violation("the acknowledged offset changed although the stream is idle", fmt.Sprintf("%s: %d, master at %d", what, as[len(as)-1].Offset, base+p.link.Sent()))
			}
			if time.Since(as[len(as)-1].At) > 8*time.Second {
				r.Violation("the acknowledgements stopped", what)
			}
		}
		r.Count("idle_offsets_compared", 1)
	}
	r.Max("bytes_in_one_stream", p.link.Sent())
}

func offset(as []master.Ack) int64 {
	if len(as) == 0 {
		return -1
	}
	return as[len(as)-1].Offset
}

var _ = xxcache.New
