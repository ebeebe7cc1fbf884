package redischk

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache/redis"

	"verif/harness/kit"
	. "verif/harness/resp"
)

var rules = map[string]string{
	"R01": "one evaluation per message sent and per message received; non-trivial when the message is not an empty bulk; distinct by message and chunking",
	"R02": "one evaluation per damaged byte string given to the receiver; distinct by the bytes",
	"R03": "one evaluation per client call; distinct by method, arguments and reply",
	"R04": "one evaluation per client call; distinct by the order in which the server saw the commands of a round",
	"R05": "one evaluation per client call in a fault script; distinct by script and outcome",
	"R06": "one evaluation per connection log judged; distinct by configuration, fault and log",
	"R07": "one evaluation per timed call; distinct by scenario",
	"R08": "one evaluation per client or pool whose leavings are judged; distinct by trouble, pool size and round",
}

func TestCheck(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	r := kit.Start(rules[prop], 60*time.Second)
	switch prop {
	case "R01":
		r.Guard(func() { runR01(r) })
	case "R02":
		r.Guard(func() { runR02(r) })
	case "R03":
		r.Guard(func() { runR03(r) })
	case "R04":
		r.Guard(func() { runR04(r) })
	case "R05":
		r.Guard(func() { runR05(r) })
	case "R06":
		r.Guard(func() { runR06(r) })
	case "R07":
		r.Guard(func() { runR07(r) })
	case "R08":
		r.Guard(func() { runR08(r) })
	default:
		t.Fatal("unknown property " + prop)
	}
}

// ---- a connection that delivers what it is given in the pieces it is told

type fakeConn struct {
	in     []byte
	sizes  func() int
	atEOF  bool // deliver the end of the stream together with the last bytes
	out    bytes.Buffer
	shortW bool
	closed bool
}

func (c *fakeConn) Read(b []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := c.sizes()
	if n > len(b) {
		n = len(b)
	}
	if n > len(c.in) {
		n = len(c.in)
	}
	copy(b, c.in[:n])
	c.in = c.in[n:]
	if len(c.in) == 0 && c.atEOF {
		return n, io.EOF
	}
	return n, nil
}
func (c *fakeConn) Write(b []byte) (int, error)        { return c.out.Write(b) }
func (c *fakeConn) Close() error                       { c.closed = true; return nil }
func (c *fakeConn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *fakeConn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *fakeConn) SetDeadline(t time.Time) error      { return nil }
func (c *fakeConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *fakeConn) SetWriteDeadline(t time.Time) error { return nil }

func chunker(g *rand.Rand) (func() int, string) {
	switch g.Intn(6) {
	case 0:
		return func() int { return 1 << 30 }, "all"
	case 1:
		return func() int { return 1 }, "1"
	case 2:
		return func() int { return 1 + g.Intn(5) }, "1-5"
	case 3:
		return func() int { return 4095 + g.Intn(3) }, "4096"
	case 4:
		k := 1 + g.Intn(200)
		return func() int { return k }, fmt.Sprint(k)
	default:
		return func() int { return 1 + g.Intn(1+g.Intn(9000)) }, "mix"
	}
}

// ---- messages

func toRedis(m Msg) redis.Message {
	switch m.Kind {
	case 0:
		return redis.NilMessage{}
	case '$':
		return redis.NewBulkStringMessage(m.S)
	case '+':
		return redis.SimpleStringMessage(m.S)
	case '-':
		return redis.ErrorMessage(m.S)
	case ':':
		return redis.IntMessage(m.N)
	}
	a := redis.ArrayMessage{}
	for _, x := range m.A {
		a = append(a, toRedis(x))
	}
	return a
}

func fromRedis(m redis.Message) (Msg, error) {
	switch v := m.(type) {
	case nil:
		return Msg{}, fmt.Errorf("no message")
	case redis.NilMessage:
		return Nil(), nil
	case redis.SimpleStringMessage:
		return Simple(string(v)), nil
	case redis.ErrorMessage:
		return Error(string(v)), nil
	case redis.IntMessage:
		return Int(int64(v)), nil
	case redis.ArrayMessage:
		a := Array()
		for _, x := range v {
			y, err := fromRedis(x)
			if err != nil {
				return a, err
			}
			a.A = append(a.A, y)
		}
		return a, nil
	}
	if m.Protocol() == redis.ProtocolBulkString {
		return Bulk(m.String()), nil
	}
	return Msg{}, fmt.Errorf("a message of kind %T", m)
}

func text(g *rand.Rand) string { // no line ends
	s := kit.Value(g)
	if g.Intn(30) == 0 {
		s = strings.Repeat("x", 4000+g.Intn(200))
	}
	if g.Intn(300) == 0 {
		s = strings.Repeat("long line ", 10000)
	}
	return strings.Map(func(c rune) rune {
		if c == '\r' || c == '\n' {
			return '_'
		}
		return c
	}, s)
}

func genMsg(g *rand.Rand, depth int) Msg {
	k := g.Intn(12)
	if depth <= 0 && k >= 9 {
		k = g.Intn(9)
	}
	switch k {
	case 0:
		return Nil()
	case 1:
		return Simple(text(g))
	case 2:
		return Error(text(g))
	case 3:
		return Int(kit.Int(g))
	case 4, 5, 6:
		return Bulk(kit.Value(g))
	case 7: // about the buffer sizes
		b := make([]byte, 4060+g.Intn(80))
		g.Read(b)
		return Bulk(string(b))
	case 8: // content that looks like protocol
		return Bulk([...]string{"\r\n", "$3\r\nfoo\r\n", "*2\r\n", "+OK\r\n", "-1", "\r", "\n", ":1\r\n\r\n", "\x00\r\n\x00"}[g.Intn(9)])
	default:
		m := Array()
		for n := g.Intn(6); n > 0; n-- {
			m.A = append(m.A, genMsg(g, depth-1))
		}
		return m
	}
}

func nested(n int, m Msg) Msg {
	for ; n > 0; n-- {
		m = Array(m)
	}
	return m
}

// deep has messages of every kind before and after each level
func deep(g *rand.Rand, n int) Msg {
	m := genMsg(g, 0)
	for ; n > 0; n-- {
		a := Array()
		for k := g.Intn(3); k > 0; k-- {
			a.A = append(a.A, genMsg(g, 0))
		}
		a.A = append(a.A, m)
		for k := g.Intn(3); k > 0; k-- {
			a.A = append(a.A, genMsg(g, 0))
		}
		m = a
	}
	return m
}

func bigBulk(g *rand.Rand, n int) Msg {
	b := make([]byte, n)
	g.Read(b)
	return Bulk(string(b))
}

func sendOf(r *kit.Run, m Msg) {
	fc := &fakeConn{sizes: func() int { return 1 << 30 }}
	c := redis.NewConn(fc)
	if err := c.Send(toRedis(m)); err != nil {
		r.Violation("sending failed", m.String()+": "+err.Error())
	}
	if want := m.Bytes(); !bytes.Equal(fc.out.Bytes(), want) {
		r.Violation("the serialised form is not the protocol's", fmt.Sprintf("%v\nsent %s\nwant %s", m, kit.Q(fc.out.String()), kit.Q(string(want))))
	}
}

func recvOf(r *kit.Run, g *rand.Rand, ms []Msg) {
	var b []byte
	for _, m := range ms {
		b = m.Append(b)
	}
	sizes, name := chunker(g)
	if len(b) > 1<<20 && (name == "1" || name == "1-5") {
		sizes, name = func() int { return 1 << 30 }, "all"
	}
	fc := &fakeConn{in: b, sizes: sizes, atEOF: g.Intn(2) == 0}
	c := redis.NewConn(fc)
	for i, m := range ms {
		got, err := c.Recv()
		if err != nil {
			r.Violation("receiving a well-formed message failed", fmt.Sprintf("message %d of %d, %v, chunks %s: %v", i, len(ms), m, name, err))
		}
		x, err := fromRedis(got)
		if err != nil || !x.Equal(m) {
			r.Violation("another message was received than was sent", fmt.Sprintf("message %d of %d, sent %v, received %v (%v), chunks %s", i, len(ms), m, x, err, name))
		}
		sig := m.String()
		r.Case(sig+"|"+name, !(m.Kind == '$' && m.S == ""))
	}
	if got, err := c.Recv(); err == nil {
		r.Violation("a message appeared after the last one", got.String())
	}
	r.Count("messages_received", int64(len(ms)))
	r.Count("bytes", int64(len(b)))
}

// streamed receives a message by handing its content to a writer: exactly the content, and nothing more is consumed
func streamed(r *kit.Run, g *rand.Rand, m Msg) {
	var want string
	n := 0
	b := m.Bytes()
	switch m.Kind {
	case '$':
		want, n = m.S, len(m.S)
		b = b[:len(b)-2] // a transferred file has no line end
	case '+', '-':
		want, n = m.S, len(m.S)
	case ':':
		want = strconv.FormatInt(m.N, 10)
		n = len(want)
	default:
		return
	}
	sizes, name := chunker(g)
	c := redis.NewConn(&fakeConn{in: append(b, ":42\r\n"...), sizes: sizes})
	var got bytes.Buffer
	p, k, err := c.ReadWithWriter(&got)
	if err != nil || got.String() != want || k != n || byte(p) != m.Kind {
		r.Violation("another content was streamed than was sent", fmt.Sprintf("%v, chunks %s: kind %q, %d bytes, %s, %v", m, name, byte(p), k, kit.Q(got.String()), err))
	}
	if next, err := c.Recv(); err != nil || next.String() != "42" {
		r.Violation("wrong position after streaming a message", fmt.Sprint(m, next, err))
	}
	r.Count("messages_streamed", 1)
}

func runR01(r *kit.Run) {
	g := r.Rng(1)
	for i := 0; i < r.N(15000, 200000); i++ {
		if i%256 == 0 {
			r.Step(fmt.Sprintf("R01 batch %d", i))
		}
		var ms []Msg
		for n := 1 + g.Intn(6); n > 0; n-- {
			ms = append(ms, genMsg(g, 3))
		}
		if i%10 == 0 {
			ms = append(ms, deep(g, g.Intn([...]int{5, 10, 40}[g.Intn(3)])))
		}
		if i < 3 {
			r.Sample(fmt.Sprint(ms))
		}
		for _, m := range ms {
			sendOf(r, m)
			streamed(r, g, m)
		}
		recvOf(r, g, ms)
	}
	// all sizes around powers of two and the buffer size
	for _, n := range []int{0, 1, 2, 9, 10, 99, 100, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 20, 1<<20 + 1, 5 << 20} {
		r.Step(fmt.Sprintf("R01 bulk of %d bytes", n))
		m := bigBulk(g, n)
		sendOf(r, m)
		for j := 0; j < 6; j++ {
			recvOf(r, g, []Msg{m, Int(7), m, Nil()})
		}
	}
	for _, n := range []int{9 << 20, 17<<20 + 1, r.N(70, 300)<<20 + 3} {
		r.Step(fmt.Sprintf("R01 bulk of %d bytes", n))
		m := bigBulk(g, n)
		sendOf(r, m)
		recvOf(r, g, []Msg{m, Int(7)})
	}
	for _, n := range []int{1, 2, 10, 60, 100} {
		m := nested(n, Bulk("deep"))
		sendOf(r, m)
		recvOf(r, g, []Msg{m, Array(m, m), Simple("OK")})
	}
	for _, n := range []int{100, 1000, 100000, 400000} {
		r.Step(fmt.Sprintf("R01 array of %d", n))
		m := Array()
		for i := 0; i < n; i++ {
			m.A = append(m.A, Bulk(fmt.Sprint(i)))
		}
		sendOf(r, m)
		recvOf(r, g, []Msg{m, Simple("OK")})
	}
	if r.Thorough {
		m := bigBulk(g, 100<<20)
		sendOf(r, m)
		recvOf(r, g, []Msg{m, Int(1)})
	}
	// the nil array is nil too
	fc := &fakeConn{in: []byte("*-1\r\n:5\r\n"), sizes: func() int { return 3 }}
	c := redis.NewConn(fc)
	m, err := c.Recv()
	if _, ok := m.(redis.NilMessage); err != nil || !ok {
		r.Violation("a nil array is not received as nil", fmt.Sprint(m, err))
	}
	if m, err := c.Recv(); err != nil || m.String() != "5" {
		r.Violation("wrong position after a nil array", fmt.Sprint(m, err))
	}
	// both ends real, over a loopback connection and a pipe
	for round := 0; round < r.N(6, 40); round++ {
		r.Step(fmt.Sprintf("R01 both ends %d", round))
		var a, b net.Conn
		if round%2 == 0 {
			a, b = net.Pipe()
		} else {
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			done := make(chan net.Conn)
			go func() { c, _ := ln.Accept(); done <- c }()
			a, err = net.Dial("tcp", ln.Addr().String())
			if err != nil {
				panic(err)
			}
			b = <-done
			_ = ln.Close()
		}
		var ms []Msg
		for i := 0; i < 200; i++ {
			ms = append(ms, genMsg(g, 3))
		}
		ms = append(ms, bigBulk(g, 3<<20), Simple("end"))
		go func() {
			c := redis.NewConn(a)
			for _, m := range ms {
				if err := c.Send(toRedis(m)); err != nil {
					r.Violation("sending failed", m.String()+": "+err.Error())
				}
			}
		}()
		c := redis.NewConn(b)
		for i, m := range ms {
			got, err := c.Recv()
			if err != nil {
				r.Violation("receiving failed", fmt.Sprintf("message %d %v: %v", i, m, err))
			}
			if x, err := fromRedis(got); err != nil || !x.Equal(m) {
				r.Violation("another message was received than was sent", fmt.Sprintf("message %d sent %v received %v %v", i, m, x, err))
			}
			r.Case("both|"+m.String(), true)
		}
		_, _ = a.Close(), b.Close()
	}
	r.Finish()
}

// ---- R02

func alloc(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

type damage struct {
	r *kit.Run
	g *rand.Rand
	n int64
}

// give the bytes to the receiver and judge what it makes of them
func (d *damage) give(b []byte, why string, measure bool) {
	r := d.r
	v, want, _ := Parse(b)
	sizes, name := func() int { return 1 << 30 }, "all"
	if len(b) < 20000 {
		sizes, name = chunker(d.g)
	}
	fc := &fakeConn{in: append([]byte(nil), b...), sizes: sizes, atEOF: d.g.Intn(2) == 0}
	c := redis.NewConn(fc)
	var m redis.Message
	var err error
	if measure {
		if n := alloc(func() { m, err = c.Recv() }); n > 8<<20+uint64(len(b))*64 {
			r.Violation("memory was taken on the strength of an announced length", fmt.Sprintf("%s: %s, %d bytes allocated", why, kit.Q(string(b)), n))
		}
		r.Count("allocations_measured", 1)
	} else {
		m, err = c.Recv()
	}
	d.n++
	r.Count("verdict_"+[...]string{"must_fail", "exact", "either"}[v], 1)
	r.Case(string(b), true)
	if err != nil {
		if v == Exact {
			r.Violation("a well-formed message was refused", fmt.Sprintf("%s: %s: %v", why, kit.Q(string(b)), err))
		}
		return
	}
	x, err := fromRedis(m)
	if v == MustFail {
		r.Violation("a cut or malformed message was received as a message", fmt.Sprintf("%s: %s gave %v, chunks %s", why, kit.Q(string(b)), x, name))
	}
	if err != nil || !x.Equal(want) {
		r.Violation("another message was received than the bytes say", fmt.Sprintf("%s: %s gave %v, want %v", why, kit.Q(string(b)), x, want))
	}
}

func runR02(r *kit.Run) {
	d := &damage{r: r, g: r.Rng(2)}
	g := d.g
	// every cut
	for i := 0; i < r.N(1500, 20000); i++ {
		if i%32 == 0 {
			r.Step(fmt.Sprintf("R02 cuts %d", i))
		}
		m := genMsg(g, 3)
		b := m.Bytes()
		if i < 2 {
			r.Sample("every cut of " + m.String())
		}
		step := 1
		if len(b) > 400 {
			step = 1 + g.Intn(len(b)/200)
		}
		for j := 0; j < len(b); j++ {
			if j > 40 && j < len(b)-40 && j%step != 0 {
				continue
			}
			d.give(b[:j], fmt.Sprintf("cut at %d of %d", j, len(b)), false)
		}
		r.Count("messages_cut_everywhere", 1)
	}
	// type bytes
	for k := 0; k < 256; k++ {
		for _, rest := range []string{"OK\r\n", "5\r\n", "5\r\nhello\r\n", "\r\n", "-1\r\n", "1\r\n:1\r\n"} {
			d.give(append([]byte{byte(k)}, rest...), "type byte", false)
			d.give(append([]byte("*2\r\n:1\r\n"+string([]byte{byte(k)})), rest...), "type byte inside an array", false)
		}
	}
	// lengths and integers
	nums := []string{"", "-", "+", " ", "a", "-2", "-3", "-10", "-9223372036854775808", "-9223372036854775809", "1e3", "0x1", "1.0", "1 ", " 1", "1_0", "nan", "--1", "9223372036854775807", "9223372036854775808",
		"18446744073709551615", "18446744073709551616", "99999999999999999999999999999999", "4294967296", "4294967295", "2147483647", "2147483648", "1073741824", "536870912", "536870913", "1000000000", "100000000", "10000000",
		"+3", "03", "-0", "-1", "0", "3", "3\x00", "\x003", "３"}
	for _, n := range nums {
		for _, k := range "$*:" {
			for _, rest := range []string{"", "\r\n", "abc", "abc\r\n", ":1\r\n:2\r\n:3\r\n", "abc\r\n+OK\r\n"} {
				for _, end := range []string{"\r\n", "\n", "\r", ""} {
					for _, pre := range []string{"", "*1\r\n", "*3\r\n$1\r\nx\r\n"} {
						r.Step("R02 number " + n)
						d.give([]byte(pre+string(k)+n+end+rest), "number "+n, true)
					}
				}
			}
		}
	}
	r.Sample("lengths and integers: " + strings.Join(nums, " | "))
	// the end of a bulk string
	for _, end := range []string{"", "\r", "\n", "\n\r", "xx", "\r\r", "x\r\n", "\r\n", "$3", " \r\n", "\x00\x00"} {
		d.give([]byte("$3\r\nfoo"+end), "bulk end", false)
		d.give([]byte("$3\r\nfoo"+end+"+OK\r\n"), "bulk end", false)
		d.give([]byte("$0\r\n"+end), "bulk end", false)
		d.give([]byte("$0\r\n"+end+":1\r\n"), "bulk end", false)
		d.give([]byte("*2\r\n$3\r\nfoo"+end+"$3\r\nbar\r\n"), "bulk end", false)
	}
	// announced and short
	for _, n := range []int{1 << 20, 100 << 20, 512 << 20, 1<<31 - 1, 1 << 31, 1 << 40, 1<<63 - 1} {
		for _, k := range []string{"$", "*"} {
			for _, have := range []int{0, 1, 5000} {
				r.Step(fmt.Sprintf("R02 announced %s%d", k, n))
				d.give([]byte(fmt.Sprintf("%s%d\r\n%s", k, n, strings.Repeat("x", have))), "announced length", true)
				if k == "*" {
					d.give([]byte(fmt.Sprintf("%s%d\r\n%s", k, n, strings.Repeat(":1\r\n", have))), "announced length", true)
					d.give([]byte(strings.Repeat(fmt.Sprintf("%s%d\r\n", k, n), 1+have/100)), "announced length nested", true)
				}
			}
		}
	}
	// nesting
	for _, n := range []int{100, 5000, 100000, r.N(12000000, 20000000)} {
		r.Step(fmt.Sprintf("R02 nesting %d", n))
		b := bytes.Repeat([]byte("*1\r\n"), n)
		fc := &fakeConn{in: b, sizes: func() int { return 1 << 30 }}
		m, err := redis.NewConn(fc).Recv()
		if err == nil {
			r.Violation("a cut reply was received as a message", fmt.Sprint(n, " levels ", m.Protocol()))
		}
		r.Case(fmt.Sprintf("nesting %d", n), true)
		r.Max("deepest_nesting", int64(n))
	}
	// corruption of single and several bytes, insertions, deletions, splices
	for i := 0; i < r.N(150000, 3000000); i++ {
		if i%512 == 0 {
			r.Step(fmt.Sprintf("R02 corruption %d", i))
		}
		b := genMsg(g, 2).Bytes()
		for len(b) > 600 {
			b = genMsg(g, 2).Bytes()
		}
		for n := 1 + g.Intn(3); n > 0 && len(b) > 0; n-- {
			j := g.Intn(len(b))
			switch g.Intn(5) {
			case 0:
				b[j] = byte(g.Intn(256))
			case 1:
				b[j] ^= 1 << uint(g.Intn(8))
			case 2:
				b = append(b[:j], b[j+1:]...)
			case 3:
				b = append(b[:j], append([]byte{"0123456789-\r\n$*:+"[g.Intn(17)]}, b[j:]...)...)
			case 4:
				b[j] = "0123456789-\r\n$*:+"[g.Intn(17)]
			}
		}
		if huge(b) {
			continue
		}
		d.give(b, "corrupted", false)
	}
	r.Finish()
}

// a corrupted array length with many well-formed elements is not what is looked for here
func huge(b []byte) bool { return len(b) > 5000 }
