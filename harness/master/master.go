// Package master is a stand-in for a Redis master: it answers PING and SYNC on a replication link, then streams what
// the check tells it to, records the acknowledgements, and serves ordinary clients on the same address.
package master

import (
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	. "verif/harness/resp"
)

type Ack struct {
	At     time.Time
	Offset int64
	Raw    []string
	// what had been handed to the link when the acknowledgement arrived
	Sent int64
}

// Link is the replication connection after the snapshot.
type Link struct {
	C    *Conn
	mu   sync.Mutex
	sent int64 // bytes of the stream, counted before they are written
	acks []Ack
	gone int32
}

// Send writes part of the stream in one piece.
func (l *Link) Send(b []byte) error {
	atomic.AddInt64(&l.sent, int64(len(b)))
	_, err := l.C.Write(b)
	return err
}

// Pieces writes part of the stream in pieces of up to max bytes, pausing now and then.
func (l *Link) Pieces(g *rand.Rand, b []byte, max int) error {
	for len(b) > 0 {
		n := 1 + g.Intn(max)
		if n > len(b) {
			n = len(b)
		}
		if err := l.Send(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if g.Intn(8) == 0 {
			time.Sleep(time.Duration(g.Intn(200)) * time.Microsecond)
		}
	}
	return nil
}

func (l *Link) Sent() int64 { return atomic.LoadInt64(&l.sent) }
func (l *Link) Gone() bool  { return atomic.LoadInt32(&l.gone) != 0 }
func (l *Link) Acks() []Ack {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]Ack(nil), l.acks...)
}

type Master struct {
	*Server
	Ping     func(c *Conn) bool // answers the ping of a replication link; nil is +PONG. false ends the connection
	Sync     func(c *Conn) bool // answers SYNC; nil sends the snapshot. false ends the connection
	Snapshot []byte
	Newlines int // keep-alives before the snapshot
	Piece    int // the snapshot is written in pieces of up to so many bytes
	G        *rand.Rand

	bad   func(string)
	reply func(cmd []string) Msg
	hold  func()
	late  func(key string)
	links chan *Link
	mu    sync.Mutex
	last  []string
	seen  map[string]int
	total int64
}

func New(seed int64) *Master {
	m := &Master{links: make(chan *Link, 16), seen: map[string]int{}, G: rand.New(rand.NewSource(seed)), Piece: 1 << 30}
	m.Server = NewServer(m.handle)
	return m
}

// Link waits for the replication link of the next client that synchronised.
func (m *Master) Link(d time.Duration) *Link {
	select {
	case l := <-m.links:
		return l
	case <-time.After(d):
		return nil
	}
}

// OnBad sets what to do when something arrives that is not a command.
func (m *Master) OnBad(f func(string)) {
	m.mu.Lock()
	m.bad = f
	m.mu.Unlock()
}

func (m *Master) malformed(err error) {
	m.mu.Lock()
	f := m.bad
	m.mu.Unlock()
	if f != nil && strings.HasPrefix(err.Error(), "malformed") {
		f(err.Error())
	}
}

func (m *Master) handle(c *Conn) {
	for {
		cmd, err := c.Cmd()
		if err != nil {
			m.malformed(err)
			return
		}
		switch strings.ToLower(cmd[0]) {
		case "ping":
			if m.Ping != nil {
				if !m.Ping(c) {
					return
				}
			} else if c.Reply(Simple("PONG")) != nil {
				return
			}
		case "sync":
			if m.Sync != nil {
				if !m.Sync(c) {
					return
				}
			} else if !m.sync(c) {
				return
			}
			m.link(c)
			return
		case "replconf":
			if c.Reply(Simple("OK")) != nil {
				return
			}
		default:
			m.mu.Lock()
			m.last = cmd
			m.seen[strings.ToLower(cmd[0])+"\x00"+strings.Join(cmd[1:], "\x00")]++
			f := m.reply
			m.mu.Unlock()
			atomic.AddInt64(&m.total, 1)
			r := Nil()
			if f != nil {
				r = f(cmd)
			}
			if len(cmd) == 2 && strings.EqualFold(cmd[0], "get") {
				m.mu.Lock()
				h := m.late
				m.mu.Unlock()
				if h != nil {
					h(cmd[1])
				}
			} else {
				m.mu.Lock()
				h := m.hold
				m.mu.Unlock()
				if h != nil {
					h()
				}
			}
			if r.Kind == '!' { // drop the connection instead
				return
			}
			if c.Reply(r) != nil {
				return
			}
		}
	}
}

func (m *Master) sync(c *Conn) bool {
	m.mu.Lock()
	g := rand.New(rand.NewSource(m.G.Int63()))
	m.mu.Unlock()
	for i := 0; i < m.Newlines; i++ {
		if _, err := c.Write([]byte("\n")); err != nil {
			return false
		}
		if g.Intn(3) == 0 {
			time.Sleep(time.Duration(g.Intn(300)) * time.Microsecond)
		}
	}
	return Chunks(c, g, Announce(m.Snapshot), m.Piece)
}

// Announce frames a snapshot: a bulk string without its line end.
func Announce(b []byte) []byte {
	return append([]byte("$"+strconv.Itoa(len(b))+"\r\n"), b...)
}

// Chunks writes b in pieces.
func Chunks(c net.Conn, g *rand.Rand, b []byte, max int) bool {
	for len(b) > 0 {
		n := len(b)
		if max < 1<<30 {
			n = 1 + g.Intn(max)
		}
		if n > len(b) {
			n = len(b)
		}
		if _, err := c.Write(b[:n]); err != nil {
			return false
		}
		b = b[n:]
		if g.Intn(64) == 0 {
			time.Sleep(time.Duration(g.Intn(200)) * time.Microsecond)
		}
	}
	return true
}

func (m *Master) link(c *Conn) {
	l := &Link{C: c}
	m.links <- l
	for {
		cmd, err := c.Cmd()
		if err != nil {
			atomic.StoreInt32(&l.gone, 1)
			m.malformed(err)
			return
		}
		a := Ack{At: time.Now(), Raw: cmd, Offset: -1, Sent: l.Sent()}
		if len(cmd) == 3 && strings.EqualFold(cmd[0], "replconf") && strings.EqualFold(cmd[1], "ack") {
			if n, err := strconv.ParseInt(cmd[2], 10, 64); err == nil {
				a.Offset = n
			}
		}
		l.mu.Lock()
		l.acks = append(l.acks, a)
		l.mu.Unlock()
	}
}

// Answer sets how ordinary clients are answered.
func (m *Master) Answer(f func(cmd []string) Msg) {
	m.mu.Lock()
	m.reply = f
	m.mu.Unlock()
}

// Hold sets what to wait for before a command other than GET is answered.
func (m *Master) Hold(f func()) {
	m.mu.Lock()
	m.hold = f
	m.mu.Unlock()
}

// HoldGet sets what to wait for before the answer to a GET, made up already, is sent.
func (m *Master) HoldGet(f func(key string)) {
	m.mu.Lock()
	m.late = f
	m.mu.Unlock()
}

// Seen is how often ordinary clients sent exactly this command.
func (m *Master) Seen(cmd ...string) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.seen[strings.ToLower(cmd[0])+"\x00"+strings.Join(cmd[1:], "\x00")]
}

// Total is the number of commands ordinary clients sent.
func (m *Master) Total() int64 { return atomic.LoadInt64(&m.total) }

// Last is the latest command of an ordinary client.
func (m *Master) Last() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.last
}

// Stream serialises commands as a master sends them.
func Stream(cmds ...[]string) (b []byte) {
	for _, c := range cmds {
		b = append(b, Cmd(c...).Bytes()...)
	}
	return
}
