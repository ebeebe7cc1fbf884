package replchk

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"
)

// obj is what the master holds for a key: a string, or something else with that many elements.
type obj struct {
	str   string
	kind  string // "string", "list", "set", "hash", "zset"
	elems int
}

// world is the master: its databases, the one the stream has selected, and the commands that change them. It makes
// up commands together with their effect; it does not interpret commands.
type world struct {
	g    *rand.Rand
	db   map[int]map[string]*obj
	dbs  []int
	cur  int
	keys []string
	// values of client database keys there ever were, for reads while the stream runs
	hist map[string]map[string]bool
	n    int
	wide bool // MOVE, COPY ... DB, SWAPDB and so on
}

func newWorld(g *rand.Rand, dbs []int) *world {
	w := &world{g: g, db: map[int]map[string]*obj{}, dbs: dbs, hist: map[string]map[string]bool{}, wide: len(dbs) > 1}
	ks := []string{"a", "b", "k1", "key:2", "", "\r\n", "k\x00\xff", "日本", "ping", "set", "1", "a b", strings.Repeat("long", 50)}
	g.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	w.keys = ks[:4+g.Intn(5)]
	for _, d := range dbs {
		w.db[d] = map[string]*obj{}
	}
	return w
}

// adopt takes a snapshot's dataset over.
func (w *world) adopt(d gen.Dataset) {
	for db, m := range d {
		if w.db[db] == nil {
			w.db[db] = map[string]*obj{}
		}
		for k, v := range m {
			if v.Kind == gen.String {
				w.put(db, k, v.Str)
			} else {
				w.db[db][k] = &obj{kind: v.Kind.String(), elems: 3}
			}
		}
	}
}

func (w *world) put(db int, k, v string) {
	w.db[db][k] = &obj{str: v, kind: "string"}
	if db == 0 {
		if w.hist[k] == nil {
			w.hist[k] = map[string]bool{}
		}
		w.hist[k][v] = true
	}
}

func (w *world) text(db int) string {
	var l []string
	for k, o := range w.db[db] {
		if o.kind == "string" {
			l = append(l, kit.Q(k)+"="+kit.Q(o.str))
		} else {
			l = append(l, kit.Q(k)+"="+o.kind)
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (w *world) key() string { return w.keys[w.g.Intn(len(w.keys))] }

// some key of that kind, or a missing one; ok is false if it holds something else
func (w *world) of(kind string) (string, *obj, bool) {
	for i := 0; i < 6; i++ {
		k := w.key()
		o := w.db[w.cur][k]
		if o == nil || o.kind == kind {
			return k, o, true
		}
	}
	return "", nil, false
}

func (w *world) val() string {
	w.n++
	switch w.g.Intn(6) {
	case 0:
		return strconv.Itoa(w.g.Intn(1000))
	case 1:
		return kit.Value(w.g)
	case 2:
		return w.key()
	}
	return fmt.Sprint("v", w.n)
}

// valFor is a value to write over what the key holds: often one that is nearly the same.
func (w *world) valFor(k string) string {
	o := w.db[w.cur][k]
	if o == nil || o.kind != "string" || w.g.Intn(3) != 0 || len(o.str) > 5000 {
		return w.val()
	}
	s := o.str
	switch w.g.Intn(9) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return s + " "
	case 3:
		return strings.TrimSpace(s)
	case 4:
		return "0" + s
	case 5:
		return s + ".0"
	case 6:
		return s + "\x00"
	case 7:
		if s != "" { // same length and ends, other bytes
			b := []byte(s)
			b[w.g.Intn(len(b))] ^= 0x20
			return string(b)
		}
		return s
	}
	return s
}

func caseOf(g *rand.Rand, s string) string {
	switch g.Intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		b := []byte(strings.ToLower(s))
		for i := range b {
			if g.Intn(2) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return strings.ToUpper(s)
}

type effect struct {
	cmd   []string
	all   bool // affects every key
	plain bool // SET key value
	known bool // the cache has a command of its own for it, so replaying it would be fair
	cut   bool // a prefix is no command
}

// next makes up one write command and applies it to the world.
func (w *world) next() (e effect) {
	g := w.g
	for {
		if cmds, ok := w.try(); ok {
			e = cmds
			break
		}
	}
	e.cmd[0] = caseOf(g, e.cmd[0])
	return
}

func (w *world) try() (e effect, ok bool) {
	g, d := w.g, w.db[w.cur]
	k := w.key()
	cmd := func(a ...string) (effect, bool) { return effect{cmd: a, known: true}, true }
	other := func(a ...string) (effect, bool) { return effect{cmd: a}, true }
	no := func() (effect, bool) { return effect{}, false }
	grow := func(kind string) (string, bool) {
		k, o, ok := w.of(kind)
		if !ok {
			return "", false
		}
		if o == nil {
			o = &obj{kind: kind}
			d[k] = o
		}
		o.elems++
		return k, true
	}
	shrink := func(kind string) (string, bool) {
		k, o, ok := w.of(kind)
		if !ok || o == nil {
			return "", false
		}
		if o.elems--; o.elems <= 0 {
			delete(d, k)
		}
		return k, true
	}
	num := func() (string, *obj, int64, bool) {
		k, o, ok := w.of("string")
		if !ok {
			return "", nil, 0, false
		}
		if o == nil {
			return k, nil, 0, true
		}
		n, err := strconv.ParseInt(o.str, 10, 64)
		if err != nil || strconv.FormatInt(n, 10) != o.str || n > 1<<60 || n < -1<<60 {
			return "", nil, 0, false
		}
		return k, o, n, true
	}
	switch g.Intn(84) - 15 {
	case -15, -14, -13, -12, -11, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9:
		v := w.valFor(k)
		w.put(w.cur, k, v)
		return effect{cmd: []string{"set", k, v}, plain: true, known: true}, true
	case 10:
		v := w.valFor(k)
		w.put(w.cur, k, v)
		switch g.Intn(5) {
		case 0:
			return cmd("set", k, v, "EX", "1000")
		case 1:
			return cmd("set", k, v, "px", "900000")
		case 2:
			return cmd("set", k, v, "PXAT", "99999999999999")
		case 3:
			return cmd("set", k, v, "KEEPTTL")
		default:
			return cmd("set", k, v, "GET")
		}
	case 11:
		v := w.valFor(k)
		if d[k] == nil {
			w.put(w.cur, k, v)
			if g.Intn(2) == 0 {
				return cmd("set", k, v, "NX")
			}
			return cmd("setnx", k, v)
		}
		if g.Intn(2) == 0 {
			w.put(w.cur, k, v)
			return cmd("set", k, v, "XX")
		}
		return no()
	case 12:
		v := w.valFor(k)
		w.put(w.cur, k, v)
		if g.Intn(2) == 0 {
			return cmd("setex", k, "1000", v)
		}
		return cmd("psetex", k, "900000", v)
	case 13:
		k, _, ok := w.of("string")
		if !ok {
			return no()
		}
		v := w.valFor(k)
		w.put(w.cur, k, v)
		return cmd("getset", k, v)
	case 14, 15:
		k, o, ok := w.of("string")
		if !ok {
			return no()
		}
		v := w.val() + "x"
		old := ""
		if o != nil {
			old = o.str
		}
		if len(old) > 5000 {
			return no()
		}
		w.put(w.cur, k, old+v)
		return cmd("append", k, v)
	case 16, 17:
		k, _, n, ok := num()
		if !ok {
			return no()
		}
		switch g.Intn(4) {
		case 0:
			w.put(w.cur, k, strconv.FormatInt(n+1, 10))
			return cmd("incr", k)
		case 1:
			w.put(w.cur, k, strconv.FormatInt(n-1, 10))
			return cmd("decr", k)
		case 2:
			w.put(w.cur, k, strconv.FormatInt(n+17, 10))
			return cmd("incrby", k, "17")
		default:
			w.put(w.cur, k, strconv.FormatInt(n-17, 10))
			return cmd("decrby", k, "17")
		}
	case 18:
		k, o, ok := w.of("string")
		if !ok || o == nil || len(o.str) > 5000 {
			return no()
		}
		p := g.Intn(len(o.str) + 3)
		b := append([]byte(o.str), 0, 0, 0, 0)
		copy(b[p:], "zz")
		n := max(len(o.str), p+2)
		w.put(w.cur, k, string(b[:n]))
		return cmd("setrange", k, strconv.Itoa(p), "zz")
	case 19, 20:
		a := []string{"mset"}
		seen := map[string]bool{}
		for i := 1 + g.Intn(3); i > 0; i-- {
			k := w.key()
			v := w.valFor(k)
			if seen[k] && g.Intn(2) == 0 { // named twice, the last one counts
				continue
			}
			seen[k] = true
			w.put(w.cur, k, v)
			a = append(a, k, v)
		}
		return cmd(a...)
	case 21:
		k2 := w.key()
		if k == k2 || d[k] != nil || d[k2] != nil {
			return no()
		}
		v, v2 := w.val(), w.val()
		w.put(w.cur, k, v)
		w.put(w.cur, k2, v2)
		return cmd("msetnx", k, v, k2, v2)
	case 22, 23, 24:
		a := []string{[...]string{"del", "del", "unlink"}[g.Intn(3)]}
		for i := 1 + g.Intn(3); i > 0; i-- {
			k := w.key()
			delete(d, k)
			a = append(a, k)
		}
		return cmd(a...)
	case 25, 26:
		k2 := w.key()
		o := d[k]
		if o == nil || k == k2 {
			return no()
		}
		name := "rename"
		if d[k2] == nil && g.Intn(2) == 0 {
			name = "renamenx"
		}
		delete(d, k)
		w.keep(w.cur, k2, o)
		return cmd(name, k, k2)
	case 27:
		k2 := w.key()
		o := d[k]
		if o == nil || k == k2 {
			return no()
		}
		w.keep(w.cur, k2, o)
		return cmd("copy", k, k2, "REPLACE")
	case 28:
		if !w.wide {
			return no()
		}
		to := w.dbs[g.Intn(len(w.dbs))]
		k2 := w.key()
		o := d[k]
		if o == nil || to == w.cur {
			return no()
		}
		w.keep(to, k2, o)
		return cmd("copy", k, k2, "DB", strconv.Itoa(to), "REPLACE")
	case 29, 30:
		to := w.dbs[g.Intn(len(w.dbs))]
		o := d[k]
		if o == nil || to == w.cur || w.db[to][k] != nil {
			return no()
		}
		delete(d, k)
		w.keep(to, k, o)
		return cmd("move", k, strconv.Itoa(to))
	case 31:
		if !w.wide || g.Intn(10) != 0 {
			return no()
		}
		a, b := w.dbs[g.Intn(len(w.dbs))], w.dbs[g.Intn(len(w.dbs))]
		w.db[a], w.db[b] = w.db[b], w.db[a]
		for k, o := range w.db[0] {
			w.keep(0, k, o)
		}
		return effect{cmd: []string{"swapdb", strconv.Itoa(a), strconv.Itoa(b)}, all: true, known: true}, true
	case 32:
		if g.Intn(10) != 0 {
			return no()
		}
		w.db[w.cur] = map[string]*obj{}
		e := effect{cmd: []string{"flushdb"}, all: true, known: true}
		if g.Intn(2) == 0 {
			e.cmd = append(e.cmd, [...]string{"ASYNC", "SYNC", "async", "sync"}[g.Intn(4)])
		}
		return e, true
	case 33:
		if g.Intn(20) != 0 {
			return no()
		}
		for db := range w.db {
			w.db[db] = map[string]*obj{}
		}
		e := effect{cmd: []string{"flushall"}, all: true, known: true}
		if g.Intn(2) == 0 {
			e.cmd = append(e.cmd, [...]string{"async", "Sync", "SYNC", "ASYNC"}[g.Intn(4)])
		}
		return e, true
	case 34, 35:
		k, ok := grow("list")
		if !ok {
			return no()
		}
		return other([...]string{"lpush", "rpush"}[g.Intn(2)], k, w.val())
	case 36:
		k, ok := shrink("list")
		if !ok {
			return no()
		}
		return other([...]string{"lpop", "rpop"}[g.Intn(2)], k)
	case 37, 38:
		k, ok := grow("hash")
		if !ok {
			return no()
		}
		switch g.Intn(4) {
		case 0:
			return cmd("hset", k, fmt.Sprint("f", w.n), w.val())
		case 1:
			return cmd("hmset", k, fmt.Sprint("f", w.n), w.val(), fmt.Sprint("g", w.n), w.val())
		case 2:
			return cmd("hincrby", k, fmt.Sprint("f", w.n), "3")
		default:
			return cmd("hsetnx", k, fmt.Sprint("f", w.n), "3")
		}
	case 39:
		k, ok := shrink("hash")
		if !ok {
			return no()
		}
		return cmd("hdel", k, fmt.Sprint("f", w.n))
	case 40, 41:
		k, ok := grow("set")
		if !ok {
			return no()
		}
		return other("sadd", k, w.val())
	case 42:
		k, ok := shrink("set")
		if !ok {
			return no()
		}
		return other([...]string{"srem", "spop"}[g.Intn(2)], k, w.val())
	case 43, 44:
		k, ok := grow("zset")
		if !ok {
			return no()
		}
		switch g.Intn(3) {
		case 0:
			return other("zincrby", k, "1.5", w.val())
		case 1:
			return other("zadd", k, "CH", "1", w.val())
		}
		return other("zadd", k, "1.5", w.val())
	case 45:
		// stores a set or nothing
		k2 := w.key()
		if g.Intn(2) == 0 {
			delete(d, k)
		} else {
			d[k] = &obj{kind: "set", elems: 2}
		}
		return other([...]string{"sdiffstore", "sinterstore", "sunionstore"}[g.Intn(3)], k, k2, w.key())
	case 46:
		if g.Intn(2) == 0 {
			delete(d, k)
		} else {
			d[k] = &obj{kind: "zset", elems: 2}
		}
		return other([...]string{"zunionstore", "zinterstore"}[g.Intn(2)], k, "2", w.key(), w.key(), "WEIGHTS", "1", "2")
	case 47:
		d[k] = &obj{kind: "list", elems: 2}
		return other("sort", w.key(), "BY", "nosort", "STORE", k)
	case 48:
		if o := d[k]; o == nil || o.kind != "list" {
			return no()
		}
		k2, ok := grow("list")
		if !ok || k2 == k {
			return no()
		}
		if d[k].elems--; d[k].elems <= 0 {
			delete(d, k)
		}
		return other("rpoplpush", k, k2)
	case 49:
		if o := d[k]; o != nil && o.kind != "string" {
			return no()
		}
		w.put(w.cur, k, "\x80"+w.val()) // whatever bits
		if g.Intn(2) == 0 {
			return other("bitfield", k, "SET", "u8", "0", "128")
		}
		return other("bitop", "OR", k, w.key(), w.key())
	case 50:
		v := w.val()
		w.put(w.cur, k, v)
		return other("restore", k, "0", "\x00\x02payload", "REPLACE")
	case 51:
		if d[k] == nil {
			return no()
		}
		if g.Intn(2) == 0 {
			delete(d, k) // in the past
		}
		return cmd([...]string{"pexpireat", "expire", "expireat", "pexpire", "persist"}[g.Intn(5)], k, "1700000000000")
	case 52:
		// a script that writes its keys
		if g.Intn(3) != 0 {
			return no()
		}
		k2 := w.key()
		w.put(w.cur, k, w.val())
		delete(d, k2)
		if k == k2 {
			w.put(w.cur, k, w.val())
		}
		e := effect{cmd: []string{"eval", "return redis.call('x')", "2", k, k2, w.val()}, all: true}
		switch g.Intn(4) {
		case 0: // and others, which it makes up itself
			e.cmd = []string{"eval", "for i = 1, 3 do redis.call('set', 'k' .. i, i) end", "0"}
			for i := 0; i < 3; i++ {
				w.put(w.cur, w.key(), w.val())
			}
		case 1:
			e.cmd = []string{"evalsha", "ffffffffffffffffffffffffffffffffffffffff", "1", k}
			delete(d, w.key())
		case 2:
			if w.wide { // in another database
				e.cmd = []string{"eval", "redis.call('select', ARGV[1]) redis.call('set', KEYS[1], ARGV[2])", "1", k, "0", "x"}
				w.put(w.dbs[g.Intn(len(w.dbs))], w.key(), w.val())
			}
		}
		w.elsewhere()
		return e, true
	case 53:
		return other("publish", "channel", w.val())
	case 54:
		if d[k] != nil && d[k].kind != "string" {
			return no()
		}
		w.put(w.cur, k, "HYLL"+w.val())
		return other("pfadd", k, w.val())
	case 55:
		return other([...]string{"multi", "exec"}[g.Intn(2)])
	case 56:
		k2 := w.key()
		w.put(w.cur, k, w.val())
		w.put(w.cur, k2, w.val())
		return other("frobnicate", "x", k, "7", k2, w.val())
	case 57, 58:
		if d[k] == nil || d[k].kind != "string" {
			return no()
		}
		delete(d, k)
		return cmd("getdel", k)
	case 59, 60: // stores what it finds, or nothing
		kind := "zset"
		k2 := w.key()
		var a []string
		switch g.Intn(8) {
		case 0:
			a = []string{"zrangestore", k, k2, "0", "-1"}
		case 1:
			a = []string{"geosearchstore", k, k2, "FROMLONLAT", "1", "2", "BYRADIUS", "3", "km"}
		case 2:
			a = []string{"georadius", k2, "1", "2", "3", "km", [...]string{"STORE", "storedist"}[g.Intn(2)], k}
		case 3:
			a = []string{"georadiusbymember", k2, w.val(), "3", "km", "COUNT", "4", "STORE", k}
		case 4:
			a = []string{"zdiffstore", k, "2", k2, w.key()}
		case 5:
			kind, a = "list", []string{"sort", k2, "LIMIT", "0", "5", "GET", "#", "ALPHA", "STORE", k}
		case 6:
			kind, a = "list", []string{"sort", k2, "store", k, "DESC"}
		case 7:
			kind, a = "set", []string{"sdiffstore", k, k2, w.key(), w.key(), w.key()}
		}
		if g.Intn(3) == 0 {
			delete(d, k)
		} else {
			d[k] = &obj{kind: kind, elems: 1 + g.Intn(3)}
		}
		return other(a...)
	case 61: // from one to the other
		kind := [...]string{"set", "list", "list", "list"}[g.Intn(4)]
		if o := d[k]; o == nil || o.kind != kind {
			return no()
		}
		k2, ok := grow(kind)
		if !ok || k2 == k {
			return no()
		}
		if d[k].elems--; d[k].elems <= 0 {
			delete(d, k)
		}
		if kind == "set" {
			return other("smove", k, k2, w.val())
		}
		switch g.Intn(3) {
		case 0:
			return other("lmove", k, k2, "LEFT", "RIGHT")
		case 1:
			return other("blmove", k, k2, "RIGHT", "LEFT", "0")
		}
		return other("brpoplpush", k, k2, "0")
	case 62, 63: // a function, which may change keys it does not name
		if g.Intn(3) != 0 {
			return no()
		}
		w.put(w.cur, k, w.val())
		delete(d, w.key())
		e := effect{cmd: []string{"fcall", "myfunc", "1", k, w.val()}, all: true}
		if g.Intn(2) == 0 {
			e.cmd = []string{"fcall", w.key(), "0"}
			w.put(w.cur, w.key(), w.val())
		}
		w.elsewhere()
		return e, true
	case 64: // streams
		k, ok := grow("stream")
		if !ok {
			return no()
		}
		switch g.Intn(3) {
		case 0:
			return other("xgroup", "CREATE", k, "group", "$", "MKSTREAM")
		case 1:
			return other("xadd", k, "MAXLEN", "~", "1000", "1-"+strconv.Itoa(w.n), "f", w.val())
		}
		return other("xadd", k, "1-"+strconv.Itoa(w.n), "f", w.val())
	case 65:
		k, ok := shrink([...]string{"list", "zset", "set", "stream"}[g.Intn(4)])
		if !ok {
			return no()
		}
		switch d[k] {
		case nil:
			return other([...]string{"lrem", "ltrim", "zremrangebyscore", "zpopmin", "srem", "frobrem"}[g.Intn(6)], k, "0", w.val())
		}
		return other([...]string{"lset", "linsert", "zremrangebyrank", "zpopmax", "xdel", "xtrim"}[g.Intn(6)], k, "1", w.val())
	case 66, 67:
		k, o, ok := w.of("string")
		if !ok {
			return no()
		}
		switch g.Intn(4) {
		case 0:
			w.put(w.cur, k, "HYLL"+w.val())
			return other("pfmerge", k, w.key(), w.key())
		case 1:
			w.put(w.cur, k, "\x80"+w.val())
			return other("setbit", k, strconv.Itoa(g.Intn(100)), "1")
		case 2:
			if o == nil {
				return no()
			}
			return cmd("getex", k, "PXAT", "99999999999999")
		}
		v := w.valFor(k)
		w.put(w.cur, k, v)
		if g.Intn(2) == 0 {
			return cmd("set", k, v, "GET", "KEEPTTL")
		}
		return other("setifeq", k, v, "IFEQ", w.val())
	case 68: // pairs of keys and values after a count, and what follows them
		k2 := w.key()
		v, v2 := w.val(), w.val()
		w.put(w.cur, k, v)
		w.put(w.cur, k2, v2)
		return other("msetex", "2", k, v, k2, v2, "EX", "1000")
	}
	return no()
}

// keep puts an object where it has been moved or copied to.
func (w *world) keep(db int, k string, o *obj) {
	if o.kind == "string" {
		w.put(db, k, o.str)
	} else {
		c := *o
		w.db[db][k] = &c
	}
}

// elsewhere changes other databases than the selected one, as scripts and functions can.
func (w *world) elsewhere() {
	if !w.wide || w.g.Intn(2) == 0 {
		return
	}
	for n := w.g.Intn(3); n >= 0; n-- {
		db := w.dbs[w.g.Intn(len(w.dbs))]
		if w.g.Intn(3) == 0 {
			delete(w.db[db], w.key())
		} else {
			w.put(db, w.key(), w.val())
		}
	}
}
