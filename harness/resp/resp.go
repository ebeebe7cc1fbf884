// Package resp is an independent RESP2 codec and a small scriptable server, the reference the checks judge by.
package resp

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Msg is a protocol message. Kind is one of $ + - : * and 0 for nil.
type Msg struct {
	Kind byte
	S    string
	N    int64
	A    []Msg
}

func Bulk(s string) Msg   { return Msg{Kind: '$', S: s} }
func Simple(s string) Msg { return Msg{Kind: '+', S: s} }
func Error(s string) Msg  { return Msg{Kind: '-', S: s} }
func Int(n int64) Msg     { return Msg{Kind: ':', N: n} }
func Array(a ...Msg) Msg  { return Msg{Kind: '*', A: a} }
func Nil() Msg            { return Msg{} }
func Cmd(args ...string) Msg {
	m := Msg{Kind: '*'}
	for _, a := range args {
		m.A = append(m.A, Bulk(a))
	}
	return m
}

func (m Msg) Append(b []byte) []byte {
	switch m.Kind {
	case 0:
		return append(b, "$-1\r\n"...)
	case '$':
		b = append(b, '$')
		b = strconv.AppendInt(b, int64(len(m.S)), 10)
		b = append(b, "\r\n"...)
		b = append(b, m.S...)
		return append(b, "\r\n"...)
	case '+', '-':
		b = append(b, m.Kind)
		b = append(b, m.S...)
		return append(b, "\r\n"...)
	case ':':
		b = append(b, ':')
		b = strconv.AppendInt(b, m.N, 10)
		return append(b, "\r\n"...)
	case '*':
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(len(m.A)), 10)
		b = append(b, "\r\n"...)
		for _, x := range m.A {
			b = x.Append(b)
		}
		return b
	}
	panic("kind")
}

func (m Msg) Bytes() []byte { return m.Append(nil) }

func (m Msg) Equal(o Msg) bool {
	if m.Kind != o.Kind || m.S != o.S || m.N != o.N || len(m.A) != len(o.A) {
		return false
	}
	for i := range m.A {
		if !m.A[i].Equal(o.A[i]) {
			return false
		}
	}
	return true
}

func (m Msg) String() string {
	switch m.Kind {
	case 0:
		return "nil"
	case ':':
		return ":" + strconv.FormatInt(m.N, 10)
	case '*':
		var l []string
		for i, x := range m.A {
			if i == 8 {
				l = append(l, fmt.Sprintf("...%d", len(m.A)))
				break
			}
			l = append(l, x.String())
		}
		return "[" + strings.Join(l, " ") + "]"
	}
	s := m.S
	if len(s) > 60 {
		return fmt.Sprintf("%c%q...(%d)", m.Kind, s[:40], len(s))
	}
	return fmt.Sprintf("%c%q", m.Kind, s)
}

// Verdict of the reference parser on a byte string: what a receiver has to make of it.
type Verdict int

const (
	MustFail Verdict = iota // not a complete, well-formed message
	Exact                   // exactly this message
	Either                  // a tolerant receiver may take it for this message, a strict one may refuse it
)

// Parse looks at the first message in b.
func Parse(b []byte) (v Verdict, m Msg, n int) {
	p := parser{b: b}
	m, ok := p.msg(0)
	if !ok {
		return MustFail, Msg{}, 0
	}
	if p.sloppy {
		return Either, m, p.i
	}
	return Exact, m, p.i
}

type parser struct {
	b      []byte
	i      int
	sloppy bool
}

func (p *parser) line() (string, bool) {
	for j := p.i; j < len(p.b); j++ {
		if p.b[j] == '\n' {
			s := string(p.b[p.i:j])
			p.i = j + 1
			if strings.HasSuffix(s, "\r") {
				s = s[:len(s)-1]
			} else {
				p.sloppy = true
			}
			if strings.Contains(s, "\r") {
				p.sloppy = true
			}
			return s, true
		}
	}
	return "", false
}

func (p *parser) num() (int64, bool) {
	s, ok := p.line()
	if !ok {
		return 0, false
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		// a tolerant receiver may cut a stray carriage return off
		return 0, false
	}
	if strconv.FormatInt(n, 10) != s {
		p.sloppy = true
	}
	return n, true
}

func (p *parser) msg(depth int) (m Msg, ok bool) {
	if p.i >= len(p.b) {
		return m, false
	}
	if depth > 100 {
		p.sloppy = true
	}
	k := p.b[p.i]
	p.i++
	switch k {
	case '+', '-':
		s, ok := p.line()
		return Msg{Kind: k, S: s}, ok
	case ':':
		n, ok := p.num()
		return Msg{Kind: k, N: n}, ok
	case '$':
		n, ok := p.num()
		if !ok || n < -1 {
			return m, false
		}
		if n == -1 {
			return Msg{}, true
		}
		if n > int64(len(p.b)-p.i-2) || string(p.b[p.i+int(n):p.i+int(n)+2]) != "\r\n" {
			return m, false
		}
		s := string(p.b[p.i : p.i+int(n)])
		p.i += int(n) + 2
		return Msg{Kind: k, S: s}, true
	case '*':
		n, ok := p.num()
		if !ok || n < -1 {
			return m, false
		}
		if n == -1 {
			return Msg{}, true
		}
		m = Msg{Kind: '*'}
		for ; n > 0; n-- {
			x, ok := p.msg(depth + 1)
			if !ok {
				return m, false
			}
			m.A = append(m.A, x)
		}
		return m, true
	}
	return m, false
}

// ReadCmd reads one command, which must be a well-formed array of bulk strings.
func ReadCmd(r *bufio.Reader) (args []string, raw []byte, err error) {
	num := func(k byte) (int, error) {
		l, err := r.ReadBytes('\n')
		raw = append(raw, l...)
		if err != nil {
			return 0, err
		}
		if len(l) < 4 || l[0] != k || l[len(l)-2] != '\r' {
			return 0, fmt.Errorf("malformed command: %q", l)
		}
		n, err := strconv.Atoi(string(l[1 : len(l)-2]))
		if err != nil || n < 0 || strconv.Itoa(n) != string(l[1:len(l)-2]) {
			return 0, fmt.Errorf("malformed command: %q", l)
		}
		return n, nil
	}
	n, err := num('*')
	if err != nil {
		return nil, raw, err
	}
	if n == 0 {
		return nil, raw, errors.New("malformed command: empty")
	}
	for ; n > 0; n-- {
		l, err := num('$')
		if err != nil {
			return nil, raw, notEOF(err)
		}
		b := make([]byte, l+2)
		k, err := io.ReadFull(r, b)
		raw = append(raw, b[:k]...)
		if err != nil {
			return nil, raw, notEOF(err)
		}
		if string(b[l:]) != "\r\n" {
			return nil, raw, fmt.Errorf("malformed command: %q", raw)
		}
		args = append(args, string(b[:l]))
	}
	return args, raw, nil
}

func notEOF(err error) error {
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}

// Conn is the server's end of a connection.
type Conn struct {
	ID int
	net.Conn
	R *bufio.Reader
	S *Server
}

func (c *Conn) Cmd() ([]string, error) {
	a, _, err := ReadCmd(c.R)
	return a, err
}

func (c *Conn) Reply(m Msg) error {
	_, err := c.Write(m.Bytes())
	return err
}

// Reset closes the connection with a reset instead of an orderly end.
func (c *Conn) Reset() {
	if t, ok := c.Conn.(*net.TCPConn); ok {
		_ = t.SetLinger(0)
	}
	_ = c.Close()
}

// Server accepts connections on the loopback interface and gives each to the handler, closing it afterwards.
type Server struct {
	Addr    string
	Handler func(*Conn)

	mu     sync.Mutex
	ln     net.Listener
	nconn  int32
	open   int32
	conns  map[*Conn]bool
	Dialed int32
	shut   int32
	gone   net.Listener // closed together with its connections
	plugs  []net.Conn
}

func NewServer(h func(*Conn)) *Server {
	s := &Server{Handler: h, conns: map[*Conn]bool{}}
	if err := s.listen("127.0.0.1:0"); err != nil {
		panic(err)
	}
	return s
}

// NewServerAt listens on an address that may not be there.
func NewServerAt(addr string, h func(*Conn)) (*Server, error) {
	s := &Server{Handler: h, conns: map[*Conn]bool{}}
	return s, s.listen(addr)
}

func (s *Server) listen(addr string) error {
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		return err
	}
	s.mu.Lock()
	s.ln, s.Addr = ln, ln.Addr().String()
	s.mu.Unlock()
	s.accept(ln)
	return nil
}

func (s *Server) accept(ln net.Listener) {
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			cc := &Conn{ID: int(atomic.AddInt32(&s.nconn, 1)), Conn: c, R: bufio.NewReader(c), S: s}
			s.mu.Lock()
			if s.gone == ln { // accepted while the connections were closed
				s.mu.Unlock()
				_ = c.Close()
				continue
			}
			atomic.AddInt32(&s.open, 1)
			s.conns[cc] = true
			s.mu.Unlock()
			go func() {
				s.Handler(cc)
				_ = cc.Close()
				atomic.AddInt32(&s.open, -1)
				s.mu.Lock()
				delete(s.conns, cc)
				s.mu.Unlock()
			}()
		}
	}()
}

// Busy is a server that does not accept connections until it is released: its queue is full, so that dialling it
// hangs instead of failing.
func Busy(h func(*Conn)) (s *Server, release func(), err error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	f := os.NewFile(uintptr(fd), "busy")
	defer f.Close()
	if err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		return nil, nil, err
	}
	if err = syscall.Listen(fd, 0); err != nil {
		return nil, nil, err
	}
	ln, err := net.FileListener(f)
	if err != nil {
		return nil, nil, err
	}
	s = &Server{Handler: h, conns: map[*Conn]bool{}, ln: ln, Addr: ln.Addr().String()}
	var plugs []net.Conn
	for len(plugs) < 20 {
		c, err := net.DialTimeout("tcp", s.Addr, 300*time.Millisecond)
		if err != nil {
			s.plugs = plugs
			return s, func() {
				for _, c := range plugs {
					_ = c.Close()
				}
				s.accept(ln)
				for i := 0; i < 50; i++ { // until it is noticed
					if c, err := net.DialTimeout("tcp", s.Addr, 300*time.Millisecond); err == nil {
						_ = c.Close()
						time.Sleep(20 * time.Millisecond)
						return
					}
				}
			}, nil
		}
		plugs = append(plugs, c)
	}
	for _, c := range plugs {
		_ = c.Close()
	}
	_ = ln.Close()
	return nil, nil, errors.New("the queue of a listener does not fill")
}

// Open is the number of connections whose handler still runs, Accepted the number ever accepted.
func (s *Server) Open() int     { return int(atomic.LoadInt32(&s.open)) }
func (s *Server) Accepted() int { return int(atomic.LoadInt32(&s.nconn)) }

// Down stops listening, so that dialling fails; drop closes the open connections too.
func (s *Server) Down(drop bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	_ = s.ln.Close()
	if drop {
		s.gone = s.ln
		for _, c := range s.plugs {
			_ = c.Close()
		}
		for c := range s.conns {
			_ = c.Close()
		}
	}
}

func (s *Server) Drop() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.conns {
		_ = c.Close()
	}
}

// Up listens on the same address again.
func (s *Server) Up() {
	for i := 0; ; i++ {
		err := s.listen(s.Addr)
		if err == nil {
			return
		}
		if i > 200 {
			panic(err)
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func (s *Server) Close() {
	atomic.StoreInt32(&s.shut, 1)
	s.Down(true)
}

// Shut tells whether the server has been closed.
func (s *Server) Shut() bool { return atomic.LoadInt32(&s.shut) != 0 }
