package redischk

import (
	"fmt"
	"math"
	"math/rand"
	"net"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/liujiangwei/xxcache/redis"

	"verif/harness/kit"
	. "verif/harness/resp"
)

// call is one method call: how to make it, which command it has to be, and what kind of reply it takes.
type call struct {
	name string
	args []string // the command's arguments as the server must see them
	kind string   // status, string, nx, int, float, array
	do   func(c *redis.Redis) (interface{}, error)
	n    int // keys of a multi-get
}

// keys of a multi-key command: few, now and then many
func keyCount(g *rand.Rand) int {
	if g.Intn(150) == 0 {
		return 1 << (3 + g.Intn(11))
	}
	return 1 + g.Intn(6)
}

func genCall(g *rand.Rand) call {
	k, v := kit.Value(g), kit.Value(g)
	i := func(n int) string { return strconv.Itoa(n) }
	switch g.Intn(20) {
	case 0:
		return call{"set", []string{k, v}, "status", func(c *redis.Redis) (interface{}, error) { return c.Set(k, v) }, 0}
	case 1:
		n := g.Intn(17)
		return call{"select", []string{i(n)}, "status", func(c *redis.Redis) (interface{}, error) { return c.Select(n) }, 0}
	case 2:
		return call{"setnx", []string{k, v}, "nx", func(c *redis.Redis) (interface{}, error) { return c.SetNX(k, v) }, 0}
	case 3:
		n := uint64(kit.Int(g))
		return call{"setex", []string{k, strconv.FormatUint(n, 10), v}, "status", func(c *redis.Redis) (interface{}, error) { return c.SetEX(k, v, n) }, 0}
	case 4:
		n := uint64(kit.Int(g))
		return call{"psetex", []string{k, strconv.FormatUint(n, 10), v}, "status", func(c *redis.Redis) (interface{}, error) { return c.PSetEX(k, v, n) }, 0}
	case 5:
		return call{"get", []string{k}, "string", func(c *redis.Redis) (interface{}, error) { return c.Get(k) }, 0}
	case 6:
		return call{"getset", []string{k, v}, "string", func(c *redis.Redis) (interface{}, error) { return c.GetSet(k, v) }, 0}
	case 7:
		return call{"strlen", []string{k}, "int", func(c *redis.Redis) (interface{}, error) { return c.StrLen(k) }, 0}
	case 8:
		return call{"append", []string{k, v}, "int", func(c *redis.Redis) (interface{}, error) { return c.Append(k, v) }, 0}
	case 9:
		n := int(kit.Int(g))
		return call{"setrange", []string{k, i(n), v}, "int", func(c *redis.Redis) (interface{}, error) { return c.SetRange(k, n, v) }, 0}
	case 10:
		a, b := int(kit.Int(g)), int(kit.Int(g))
		return call{"getrange", []string{k, i(a), i(b)}, "string", func(c *redis.Redis) (interface{}, error) { return c.GetRange(k, a, b) }, 0}
	case 11:
		return call{"incr", []string{k}, "int", func(c *redis.Redis) (interface{}, error) { return c.Incr(k) }, 0}
	case 12:
		n := int(kit.Int(g))
		return call{"incrby", []string{k, i(n)}, "int", func(c *redis.Redis) (interface{}, error) { return c.IncrBy(k, n) }, 0}
	case 13, 14:
		f := kit.Float(g)
		if g.Intn(4) == 0 {
			f = [...]float64{math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, 1e300, 1e-300, 0.1, 1 << 60, 1e21, 123456789.123456789, -0.000001}[g.Intn(10)]
		}
		return call{"incrbyfloat", []string{k, "float:" + strconv.FormatFloat(f, 'g', -1, 64)}, "float", func(c *redis.Redis) (interface{}, error) { return c.IncrByFloat(k, f) }, 0}
	case 15:
		return call{"decr", []string{k}, "int", func(c *redis.Redis) (interface{}, error) { return c.Decr(k) }, 0}
	case 16:
		n := int(kit.Int(g))
		return call{"decrby", []string{k, i(n)}, "int", func(c *redis.Redis) (interface{}, error) { return c.DecrBy(k, n) }, 0}
	case 17, 18:
		kv := map[string]string{}
		for n := keyCount(g); n > 0; n-- {
			kv[kit.Value(g)] = kit.Value(g)
		}
		var l []string
		for k, v := range kv {
			l = append(l, fmt.Sprintf("%q=%q", k, v))
		}
		sort.Strings(l)
		if g.Intn(2) == 0 {
			return call{"mset", append([]string{"pairs:"}, l...), "status", func(c *redis.Redis) (interface{}, error) { return c.MSet(kv) }, 0}
		}
		return call{"msetnx", append([]string{"pairs:"}, l...), "int", func(c *redis.Redis) (interface{}, error) { return c.MSetNX(kv) }, 0}
	default:
		var ks []string
		for n := keyCount(g); n > 0; n-- {
			ks = append(ks, kit.Value(g))
		}
		return call{"mget", ks, "array", func(c *redis.Redis) (interface{}, error) { return c.MGet(ks...) }, len(ks)}
	}
}

// matches judges the command the server saw.
func (c call) matches(cmd []string) string {
	if len(cmd) == 0 || !strings.EqualFold(cmd[0], c.name) {
		return "another command"
	}
	got := cmd[1:]
	want := c.args
	if len(want) > 0 && want[0] == "pairs:" {
		var l []string
		if len(got)%2 != 0 {
			return "a key without value"
		}
		for i := 0; i < len(got); i += 2 {
			l = append(l, fmt.Sprintf("%q=%q", got[i], got[i+1]))
		}
		sort.Strings(l)
		got, want = l, want[1:]
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d arguments", len(got))
	}
	for i := range want {
		if strings.HasPrefix(want[i], "float:") {
			a, err := strconv.ParseFloat(got[i], 64)
			b, _ := strconv.ParseFloat(want[i][6:], 64)
			if err != nil || a != b || strings.Trim(got[i], "0123456789+-.eE") != "" {
				return fmt.Sprintf("argument %d", i+1)
			}
			continue
		}
		if got[i] != want[i] {
			return fmt.Sprintf("argument %d", i+1)
		}
	}
	return ""
}

// reply makes up a reply for the call: the bytes, what the call has to return, whether it has to be an error,
// and whether the server closes the connection after it.
func (c call) reply(g *rand.Rand) (b []byte, want interface{}, fail, cut bool, what string) {
	good := func() (Msg, interface{}) {
		switch c.kind {
		case "status":
			return Simple("OK"), "OK"
		case "nx":
			n := int64(g.Intn(2))
			return Int(n), strconv.FormatInt(n, 10)
		case "string":
			v := kit.Value(g)
			if g.Intn(10) == 0 {
				v = strings.Repeat("v", g.Intn(20000))
			}
			return Bulk(v), v
		case "int":
			n := kit.Int(g)
			return Int(n), int(n)
		case "float":
			f := kit.Float(g)
			return Bulk(strconv.FormatFloat(f, "fg"[g.Intn(2)], -1, 64)), f
		}
		a := Array()
		var l []string
		for i := 0; i < c.n; i++ {
			switch x := g.Intn(24); {
			case x < 8:
				a.A = append(a.A, Nil())
				l = append(l, "!")
			case x == 8:
				a.A = append(a.A, Error([...]string{"ERR broken", "WRONGTYPE", "", "OK"}[g.Intn(4)]))
				l = append(l, "!")
			default:
				v := kit.Value(g)
				a.A = append(a.A, Bulk(v))
				l = append(l, "="+v)
			}
		}
		return a, l
	}
	m, w := good()
	switch g.Intn(10) {
	case 0:
		e := kit.Errors[g.Intn(len(kit.Errors))]
		return Error(e).Bytes(), nil, true, false, "error reply"
	case 1:
		if g.Intn(3) == 0 {
			return []byte("*-1\r\n"), nil, true, false, "nil array"
		}
		return Nil().Bytes(), nil, true, false, "nil reply"
	case 2:
		b := m.Bytes()
		return b[:g.Intn(len(b))], nil, true, true, "cut reply"
	case 3:
		// a reply of a kind the value cannot be made of
		var bad Msg
		switch c.kind {
		case "status":
			bad = [...]Msg{Int(0), Int(1), Array(), Array(Bulk("OK")), Simple("QUEUED"), Simple("Background saving started"), Simple("O"), Simple("OKAY")}[g.Intn(8)]
		case "int":
			bad = [...]Msg{Simple("OK"), Simple("QUEUED"), Array(), Bulk("x"), Bulk(""), Array(Int(1))}[g.Intn(6)]
		case "float":
			bad = [...]Msg{Simple("OK"), Simple("QUEUED"), Array(), Bulk("x"), Bulk("")}[g.Intn(5)]
		case "array":
			bad = [...]Msg{Simple("OK"), Simple("QUEUED"), Int(1), Bulk("x")}[g.Intn(4)]
		default:
			return m.Bytes(), w, false, false, "reply"
		}
		return bad.Bytes(), nil, true, false, "reply of another kind"
	}
	return m.Bytes(), w, false, false, "reply"
}

func bigText(g *rand.Rand, n int) string {
	b := make([]byte, n)
	g.Read(b)
	return string(b)
}

// bigCalls are calls with about n bytes in keys, values or many of them.
func bigCalls(g *rand.Rand, n int) (l []call) {
	k, v := bigText(g, n), bigText(g, n+1)
	l = append(l,
		call{"set", []string{k, "v"}, "status", func(c *redis.Redis) (interface{}, error) { return c.Set(k, "v") }, 0},
		call{"set", []string{"k", v}, "status", func(c *redis.Redis) (interface{}, error) { return c.Set("k", v) }, 0},
		call{"get", []string{k}, "string", func(c *redis.Redis) (interface{}, error) { return c.Get(k) }, 0},
		call{"setnx", []string{k, v}, "nx", func(c *redis.Redis) (interface{}, error) { return c.SetNX(k, v) }, 0},
		call{"setex", []string{k, "9", v}, "status", func(c *redis.Redis) (interface{}, error) { return c.SetEX(k, v, 9) }, 0},
		call{"psetex", []string{"k", "9", v}, "status", func(c *redis.Redis) (interface{}, error) { return c.PSetEX("k", v, 9) }, 0},
		call{"getset", []string{k, v}, "string", func(c *redis.Redis) (interface{}, error) { return c.GetSet(k, v) }, 0},
		call{"strlen", []string{k}, "int", func(c *redis.Redis) (interface{}, error) { return c.StrLen(k) }, 0},
		call{"append", []string{"k", v}, "int", func(c *redis.Redis) (interface{}, error) { return c.Append("k", v) }, 0},
		call{"setrange", []string{k, "5", v}, "int", func(c *redis.Redis) (interface{}, error) { return c.SetRange(k, 5, v) }, 0},
		call{"getrange", []string{k, "0", "-1"}, "string", func(c *redis.Redis) (interface{}, error) { return c.GetRange(k, 0, -1) }, 0},
		call{"incr", []string{k}, "int", func(c *redis.Redis) (interface{}, error) { return c.Incr(k) }, 0},
		call{"decrby", []string{k, "3"}, "int", func(c *redis.Redis) (interface{}, error) { return c.DecrBy(k, 3) }, 0},
	)
	// many small arguments
	many := n / 40
	if many > 400000 {
		many = 400000
	}
	kv := map[string]string{}
	var ks, pairs []string
	for i := 0; i < many; i++ {
		a, b := fmt.Sprint("key:", i), fmt.Sprint("v", i)
		ks = append(ks, a)
		kv[a] = b
		pairs = append(pairs, fmt.Sprintf("%q=%q", a, b))
	}
	sort.Strings(pairs)
	l = append(l,
		call{"mset", append([]string{"pairs:"}, pairs...), "status", func(c *redis.Redis) (interface{}, error) { return c.MSet(kv) }, 0},
		call{"msetnx", append([]string{"pairs:"}, pairs...), "int", func(c *redis.Redis) (interface{}, error) { return c.MSetNX(kv) }, 0},
		call{"mget", ks, "array", func(c *redis.Redis) (interface{}, error) { return c.MGet(ks...) }, many},
		call{"mset", append([]string{"pairs:"}, fmt.Sprintf("%q=%q", k, v)), "status", func(c *redis.Redis) (interface{}, error) { return c.MSet(map[string]string{k: v}) }, 0},
	)
	return
}

func runR03(r *kit.Run) {
	g := r.Rng(3)
	type script struct {
		b   []byte
		cut bool
	}
	var mu sync.Mutex
	var next script
	var cmds [][]string
	var bad string
	srv := NewServer(func(c *Conn) {
		for {
			cmd, err := c.Cmd()
			mu.Lock()
			if err != nil {
				if err.Error() != "EOF" && !strings.Contains(err.Error(), "reset") && bad == "" {
					bad = err.Error()
				}
				mu.Unlock()
				return
			}
			cmds = append(cmds, cmd)
			s := next
			mu.Unlock()
			_, _ = c.Write(s.b)
			if s.cut {
				return
			}
		}
	})
	methods := map[string]bool{}
	var client *redis.Redis
	for i := 0; i < r.N(40000, 600000); i++ {
		if i%2000 == 0 {
			client = redis.NewClient(redis.Option{Addr: srv.Addr, PoolSize: 1 + g.Intn(3)})
		}
		c := genCall(g)
		b, want, fail, cut, what := c.reply(g)
		mu.Lock()
		next, cmds, bad = script{b, cut}, nil, ""
		mu.Unlock()
		if i%64 == 0 {
			r.Step(fmt.Sprintf("R03 %s %q", c.name, c.args))
		}
		got, err := c.do(client)
		mu.Lock()
		seen, why := cmds, bad
		mu.Unlock()
		show := fmt.Sprintf("%s %s\n%s %s\nserver saw %s\nreturned %s, %v", c.name, kit.Q(fmt.Sprintf("%q", c.args)), what, kit.Q(string(b)), kit.Q(fmt.Sprintf("%q", seen)), kit.Q(fmt.Sprint(got)), err)
		if why != "" {
			r.Violation("the command is not one well-formed command", why+"\n"+show)
		}
		if len(seen) != 1 {
			r.Violation("a call is not exactly one command", show)
		}
		if w := c.matches(seen[0]); w != "" {
			r.Violation("the command is not the call's: "+w, show)
		}
		if fail && err == nil {
			r.Violation("an error, nil, cut or unusable reply was returned as a success", show)
		}
		if !fail {
			if err != nil {
				r.Violation("a successful reply was returned as an error", show)
			}
			ok := false
			if l, is := got.([]interface{}); is {
				var have []string
				for _, x := range l {
					switch y := x.(type) {
					case string:
						have = append(have, "="+y)
					case error:
						have = append(have, "!")
					default:
						have = append(have, "?")
					}
				}
				ok = fmt.Sprintf("%q", have) == fmt.Sprintf("%q", want)
			} else {
				ok = got == want
			}
			if !ok {
				r.Violation("the reply was decoded to another value", show+fmt.Sprintf("\nwant %s", kit.Q(fmt.Sprint(want))))
			}
		}
		methods[c.name] = true
		r.Count("calls_"+what, 1)
		r.Case(fmt.Sprintf("%s %q %q", c.name, c.args, b), true)
		if i < 3 {
			r.Sample(show)
		}
	}
	// no keys at all: the server's refusal is the result
	for i, f := range []func() (interface{}, error){
		func() (interface{}, error) { return client.MGet() },
		func() (interface{}, error) { return client.MSet(map[string]string{}) },
		func() (interface{}, error) { return client.MSetNX(nil) },
	} {
		name := []string{"mget", "mset", "msetnx"}[i]
		b := Error("ERR wrong number of arguments for '" + name + "' command").Bytes()
		mu.Lock()
		next, cmds, bad = script{b, false}, nil, ""
		mu.Unlock()
		got, err := f()
		mu.Lock()
		seen, why := cmds, bad
		mu.Unlock()
		show := fmt.Sprintf("%s without keys: server saw %q, %s returned %v, %v", name, seen, why, got, err)
		if len(seen) != 1 || len(seen[0]) != 1 || !strings.EqualFold(seen[0][0], name) {
			r.Violation("a call is not exactly one command", show)
		}
		if err == nil {
			r.Violation("an error, nil, cut or unusable reply was returned as a success", show)
		}
		r.Case(name+" without keys", true)
	}
	// commands and replies of a size that a buffer or a limit may not take
	client = redis.NewClient(redis.Option{Addr: srv.Addr, PoolSize: 2})
	for _, n := range []int{1<<16 + 1, 1<<20 + 1, 3<<20 + 7, r.N(17<<20, 300<<20)} {
		for k, c := range bigCalls(g, n) {
			r.Step(fmt.Sprintf("R03 %s with %d bytes", c.name, n))
			b, want := Simple("OK").Bytes(), interface{}("OK")
			switch c.kind {
			case "int":
				b, want = Int(77).Bytes(), 77
			case "nx":
				b, want = Int(1).Bytes(), "1"
			case "string":
				v := bigText(g, n+k)
				b, want = Bulk(v).Bytes(), v
			case "array":
				a := Array()
				var l []interface{}
				for i := 0; i < c.n; i++ {
					v := fmt.Sprint("r", i*3)
					a.A = append(a.A, Bulk(v))
					l = append(l, v)
				}
				b, want = a.Bytes(), l
			}
			mu.Lock()
			next, cmds, bad = script{b, false}, nil, ""
			mu.Unlock()
			got, err := c.do(client)
			mu.Lock()
			seen, why := cmds, bad
			mu.Unlock()
			show := fmt.Sprintf("%s with %d bytes: %s returned %s, %v", c.name, n, why, kit.Q(fmt.Sprint(got)), err)
			if len(seen) != 1 || why != "" {
				r.Violation("a call is not exactly one command", show)
			}
			if w := c.matches(seen[0]); w != "" {
				r.Violation("the command is not the call's: "+w, show)
			}
			if err != nil || !reflect.DeepEqual(got, want) {
				r.Violation("the reply was decoded to another value", show)
			}
			r.Case(fmt.Sprintf("%s %d", c.name, n), true)
		}
		r.Max("largest_command", int64(n))
	}
	// every way to write a server's address
	for _, at := range []string{"127.0.0.1:0", "[::1]:0", "127.0.0.9:0"} {
		srv, err := NewServerAt(at, func(c *Conn) {
			for {
				cmd, err := c.Cmd()
				if err != nil {
					return
				}
				_ = c.Reply(Bulk(answer(cmd[1])))
			}
		})
		if err != nil {
			continue // not here
		}
		host, port, _ := net.SplitHostPort(srv.Addr)
		addrs := []string{srv.Addr}
		if host == "127.0.0.1" {
			if l, err := net.LookupHost("localhost"); err == nil && len(l) > 0 {
				addrs = append(addrs, "localhost:"+port)
			}
		}
		for _, addr := range addrs {
			r.Step("R03 address " + addr)
			for _, o := range []redis.Option{{Addr: addr, PoolSize: 2}, {Addr: addr, Timeout: 5 * time.Second}} {
				c := redis.NewClient(o)
				if v, err := c.Get("k"); err != nil || v != answer("k") {
					r.Violation("a successful reply was returned as an error", fmt.Sprintf("server at %s: %q, %v", addr, v, err))
				}
			}
			r.Case(addr, true)
			r.Count("addresses", 1)
		}
		srv.Close()
	}
	r.Count("methods", int64(len(methods)))
	r.Count("connections", int64(srv.Accepted()))
	r.Finish()
}
