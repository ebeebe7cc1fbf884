package decchk

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/liujiangwei/xxcache/redis"

	"verif/harness/gen"
	"verif/harness/kit"
)

var loads int

// load runs the loader on the bytes and collects what it emits.
func load(r *kit.Run, b []byte, before ...func(*redis.Replication)) (repl *redis.Replication, msgs []redis.ReplicationMessage, err error) {
	path := filepath.Join(r.TmpDir, "dump.rdb")
	if err := os.WriteFile(path, b, 0644); err != nil {
		panic(err)
	}
	repl = &redis.Replication{RdbFile: path, Messages: make(chan redis.ReplicationMessage, 64), Err: make(chan error, 64)}
	for _, f := range before {
		f(repl)
	}
	done := make(chan struct{})
	go func() {
		for m := range repl.Messages {
			msgs = append(msgs, m)
		}
		close(done)
	}()
	ch := repl.Messages
	err = repl.Load()
	close(ch)
	<-done
	if loads++; loads%100 == 0 {
		runtime.GC() // the loader leaves its file to the finalizer
	}
	return
}

// ---- an interpreter of the commands a loader may emit

type interp struct {
	d  gen.Dataset
	db int
}

func (x *interp) key(db int, k string, kind gen.Kind) (*gen.Val, error) {
	if x.d[db] == nil {
		x.d[db] = map[string]*gen.Val{}
	}
	v := x.d[db][k]
	if v == nil {
		v = &gen.Val{Kind: kind, Hash: map[string]string{}, ZSet: map[string]float64{}}
		x.d[db][k] = v
	}
	if v.Kind != kind {
		return nil, fmt.Errorf("%s command on a %v", kind, v.Kind)
	}
	return v, nil
}

func float(s string) (float64, error) {
	switch strings.ToLower(s) {
	case "inf", "+inf", "infinity", "+infinity":
		return math.Inf(1), nil
	case "-inf", "-infinity":
		return math.Inf(-1), nil
	}
	f, err := strconv.ParseFloat(s, 64)
	if err == nil && (f != f || s == "" || strings.ContainsAny(s, "_ ")) {
		err = fmt.Errorf("not a valid float: %q", s)
	}
	return f, err
}

func (x *interp) run(db int, a []string) error {
	if len(a) < 2 {
		return fmt.Errorf("too few arguments: %q", a)
	}
	name := strings.ToLower(a[0])
	k := a[1]
	rest := a[2:]
	switch name {
	case "set":
		if len(rest) != 1 && len(rest) != 3 {
			return fmt.Errorf("arguments of %q", a)
		}
		delete(x.d[db], k)
		v, err := x.key(db, k, gen.String)
		if err != nil {
			return err
		}
		v.Str = rest[0]
		if len(rest) == 3 {
			n, err := strconv.ParseInt(rest[2], 10, 64)
			if err != nil {
				return err
			}
			switch strings.ToLower(rest[1]) {
			case "pxat":
				v.Expire = n
			case "exat":
				v.Expire = n * 1000
			default:
				return fmt.Errorf("option of %q", a)
			}
		}
	case "rpush", "lpush":
		v, err := x.key(db, k, gen.List)
		if err != nil || len(rest) == 0 {
			return fmt.Errorf("%q: %v", a, err)
		}
		for _, e := range rest {
			if name == "rpush" {
				v.List = append(v.List, e)
			} else {
				v.List = append([]string{e}, v.List...)
			}
		}
	case "sadd":
		v, err := x.key(db, k, gen.Set)
		if err != nil || len(rest) == 0 {
			return fmt.Errorf("%q: %v", a, err)
		}
		have := map[string]bool{}
		for _, e := range v.List {
			have[e] = true
		}
		for _, e := range rest {
			if !have[e] {
				have[e] = true
				v.List = append(v.List, e)
			}
		}
	case "zadd":
		v, err := x.key(db, k, gen.ZSet)
		if err != nil || len(rest) == 0 || len(rest)%2 != 0 {
			return fmt.Errorf("%q: %v", a, err)
		}
		for i := 0; i < len(rest); i += 2 {
			f, err := float(rest[i])
			if err != nil {
				return err
			}
			v.ZSet[rest[i+1]] = f
		}
	case "hset", "hmset":
		v, err := x.key(db, k, gen.Hash)
		if err != nil || len(rest) == 0 || len(rest)%2 != 0 {
			return fmt.Errorf("%q: %v", a, err)
		}
		for i := 0; i < len(rest); i += 2 {
			v.Hash[rest[i]] = rest[i+1]
		}
	case "pexpireat", "expireat":
		v := x.d[db][k]
		if v == nil || len(rest) != 1 {
			return fmt.Errorf("%q on a missing key or with too many arguments", a)
		}
		n, err := strconv.ParseInt(rest[0], 10, 64)
		if err != nil {
			return err
		}
		if name == "expireat" {
			n *= 1000
		}
		v.Expire = n
	default:
		return fmt.Errorf("unknown command %q", a[0])
	}
	return nil
}

func replay(msgs []redis.ReplicationMessage) (gen.Dataset, error) {
	x := &interp{d: gen.Dataset{}}
	for i, m := range msgs {
		arr, ok := m.Message.(redis.ArrayMessage)
		if !ok {
			return nil, fmt.Errorf("message %d is a %T", i, m.Message)
		}
		var a []string
		for _, e := range arr {
			if e.Protocol() != redis.ProtocolBulkString {
				return nil, fmt.Errorf("an argument of message %d is a %T", i, e)
			}
			a = append(a, e.String())
		}
		if err := x.run(m.Database, a); err != nil {
			return nil, fmt.Errorf("message %d: %v", i, err)
		}
	}
	return x.d, nil
}

func diff(got, want gen.Dataset) string {
	var out []string
	dbs := map[int]bool{}
	for db := range got {
		dbs[db] = true
	}
	for db := range want {
		dbs[db] = true
	}
	for db := range dbs {
		for k, v := range want[db] {
			g := got[db][k]
			if g == nil {
				out = append(out, fmt.Sprintf("db %d key %s is missing, want %s", db, kit.Q(k), clip(v.Text())))
			} else if g.Text() != v.Text() {
				out = append(out, fmt.Sprintf("db %d key %s\n is   %s\n want %s", db, kit.Q(k), clip(g.Text()), clip(v.Text())))
			}
		}
		for k, v := range got[db] {
			if want[db][k] == nil {
				out = append(out, fmt.Sprintf("db %d key %s from nowhere: %s", db, kit.Q(k), clip(v.Text())))
			}
		}
	}
	sort.Strings(out)
	if len(out) > 10 {
		out = out[:10]
	}
	return strings.Join(out, "\n")
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func runD07(r *kit.Run) {
	g := r.Rng(37)
	f := gen.Forms{}
	check := func(d gen.Dataset, what string) {
		id := ""
		offset := int64(0)
		if g.Intn(4) != 0 {
			id = [...]string{"8371b4fb1155b71f4a04d3e1bc3e18c4a990aeeb", "0000000000000000000000000000000000000000", "x"}[g.Intn(3)]
			offset = [...]int64{0, 1, 127, 128, 40000, 1 << 31, 1 << 40, 1<<63 - 1, g.Int63n(1 << 30)}[g.Intn(9)]
		}
		w := gen.Write(g, d, f, id, offset)
		repl, msgs, err := load(r, w.B, func(repl *redis.Replication) {
			// what an earlier snapshot, or its stream, has left
			if g.Intn(4) == 0 {
				repl.SetReplicationId("1111111111111111111111111111111111111111")
				repl.SetReplicationOffset([...]int{1, 5000, 1 << 45}[g.Intn(3)])
			}
		})
		show := func() string { return fmt.Sprintf("%s\nsnapshot of %d bytes: %s", what, len(w.B), hexOf(w.B)) }
		if err != nil {
			r.Violation("loading a snapshot redis can write failed", err.Error()+"\n"+show())
		}
		got, err := replay(msgs)
		if err != nil {
			r.Violation("the loader emitted a command redis would refuse", err.Error()+"\n"+show())
		}
		if s := diff(got, d); s != "" {
			r.Violation("the commands rebuild another dataset", s+"\n"+show())
		}
		if id != "" && (repl.Id != id || int64(repl.Offset) != offset) {
			r.Violation("the replication id and offset of the snapshot were not adopted", fmt.Sprintf("%q %d, want %q %d\n%s", repl.Id, repl.Offset, id, offset, show()))
		}
		n := 0
		for _, m := range d {
			n += len(m)
		}
		r.Case(string(w.B), n > 0)
		r.Count("keys", int64(n))
		r.Count("commands", int64(len(msgs)))
		r.Count("bytes", int64(len(w.B)))
	}
	for i := 0; i < r.N(6000, 200000); i++ {
		if i%64 == 0 {
			r.Step(fmt.Sprintf("D07 dataset %d", i))
		}
		d := gen.NewDataset(g, 6, 10)
		if i%120 == 0 {
			d = gen.NewDataset(g, 200, 80)
		}
		check(d, fmt.Sprintf("dataset %d", i))
		if i == 2 {
			for db, m := range d {
				for k, v := range m {
					r.Sample(fmt.Sprintf("db %d %s: %s", db, kit.Q(k), clip(v.Text())))
				}
			}
		}
	}
	// sizes: more elements than any count field of a compact encoding holds in one byte
	for _, n := range []int{253, 254, 255, 256, 1000, 16384, 20000, 70000} {
		r.Step(fmt.Sprintf("D07 size %d", n))
		for k := 0; k < 8; k++ {
			if n > 1000 && k > 1 && !r.Thorough || n > 20000 && k > 0 {
				break
			}
			l := &gen.Val{Kind: gen.List}
			s := &gen.Val{Kind: gen.Set}
			h := &gen.Val{Kind: gen.Hash, Hash: map[string]string{}}
			z := &gen.Val{Kind: gen.ZSet, ZSet: map[string]float64{}}
			for i := 0; i < n; i++ {
				l.List = append(l.List, strconv.Itoa(g.Intn(1000)))
				s.List = append(s.List, strconv.Itoa(i*7-900))
				h.Hash[fmt.Sprint("f", i)] = gen.Elem(g)
				z.ZSet[fmt.Sprint("m", i)] = gen.Score(g)
			}
			check(gen.Dataset{k: {"l": l, "l2": l, "l3": l, "l4": l, "l5": l, "s": s, "h": h, "z": z, "": {Kind: gen.String, Str: strings.Repeat("v", n)}}}, fmt.Sprintf("%d elements", n))
		}
	}
	for _, n := range []int{65536, 1 << 20, 9 << 20} {
		r.Step(fmt.Sprintf("D07 string of %d", n))
		check(gen.Dataset{0: {"c": {Kind: gen.String, Str: string(gen.Compressible(g, n))}, "r": {Kind: gen.String, Str: strings.Repeat("x", n)}}}, "large strings")
	}
	r.Step("D07 long elements")
	for k := 0; k < 2; k++ {
		long := strings.Repeat("0123456789abcdef", 1<<20+k)
		check(gen.Dataset{0: {
			"l": {Kind: gen.List, List: []string{"a", long, "b", long + "c", "1"}},
			"s": {Kind: gen.Set, List: []string{"a", long, "b"}},
			"h": {Kind: gen.Hash, Hash: map[string]string{"a": long + "v", long + "f": "x", "b": "y"}},
			"z": {Kind: gen.ZSet, ZSet: map[string]float64{"a": 1, long: 2.5, "b": -3}},
			"x": {Kind: gen.String, Str: long + "x"},
		}}, "elements of 16 MB")
	}
	// more keys than a size hint of one or two bytes tells, with and without expiry
	for _, n := range []int{300, 17000, r.N(70000, 1100000)} {
		r.Step(fmt.Sprintf("D07 %d keys", n))
		d := gen.Dataset{}
		for _, db := range []int{0, 3} {
			d[db] = map[string]*gen.Val{}
			for i := 0; i < n>>uint(db); i++ {
				v := &gen.Val{Kind: gen.String, Str: strconv.Itoa(i)}
				if i%3 == 1 {
					v.Expire = 1893456000000 + int64(i)
				}
				d[db][fmt.Sprint("key:", i)] = v
			}
		}
		check(d, fmt.Sprintf("%d keys", n))
	}
	check(gen.Dataset{}, "an empty dataset")
	check(gen.Dataset{0: {}, 5: {}}, "an empty dataset")
	forms(r, f)
	r.Finish()
}

func hexOf(b []byte) string {
	if len(b) > 1500 {
		return fmt.Sprintf("%x...", b[:1500])
	}
	return fmt.Sprintf("%x", b)
}

// ---- D08

func runD08(r *kit.Run) {
	g := r.Rng(38)
	var before, after runtime.MemStats
	measured := func(b []byte, what string) (msgs []redis.ReplicationMessage, err error) {
		runtime.ReadMemStats(&before)
		_, msgs, err = load(r, b)
		runtime.ReadMemStats(&after)
		if n := after.TotalAlloc - before.TotalAlloc; n > 48<<20+2000*uint64(len(b)) {
			r.Violation("memory was taken on the strength of an encoded length", fmt.Sprintf("%s: %d bytes allocated for a file of %d\n%s", what, n, len(b), hexOf(b)))
		}
		r.Count("allocations_measured", 1)
		return
	}
	refuse := func(b []byte, what string) {
		_, err := measured(b, what)
		if err == nil {
			r.Violation("a damaged or unsupported snapshot was loaded without an error", what+"\n"+hexOf(b))
		}
		r.Case(string(b), true)
		r.Count("refused", 1)
	}
	small := func() (*gen.Writer, gen.Dataset) {
		for {
			d := gen.NewDataset(g, 4, 5)
			w := gen.Write(g, d, nil, "8371b4fb1155b71f4a04d3e1bc3e18c4a990aeeb", 12345)
			if len(w.B) < 900 {
				return w, d
			}
		}
	}

	// every cut before the end marker
	for i := 0; i < r.N(60, 1500); i++ {
		w, d := small()
		r.Step(fmt.Sprintf("D08 cuts of snapshot %d", i))
		for n := 0; n < len(w.B)-9; n++ {
			_, _, err := load(r, w.B[:n])
			if err == nil {
				r.Violation("a truncated snapshot was loaded without an error", fmt.Sprintf("%d of %d bytes\n%s\n%v", n, len(w.B), hexOf(w.B), diff(gen.Dataset{}, d)))
			}
			r.Case(string(w.B[:n]), true)
			r.Count("truncations", 1)
		}
		if i == 0 {
			r.Sample(fmt.Sprintf("every cut of a snapshot of %d bytes", len(w.B)))
		}
	}

	// not a snapshot
	w, _ := small()
	body := w.B[9:]
	for _, h := range []string{"", "R", "REDIS", "REDIS000", "XEDIS0009", "redis0009", "REDIS00x9", "REDISabcd", "REDIS    ", "\x00\x00\x00\x00\x000009", "HTTP/1.1 ", "REDIX0009", "PK\x03\x04aaaaa", "RADIS0009", "REDI50009"} {
		r.Step("D08 magic " + h)
		refuse(append([]byte(h), body...), "magic "+kit.Q(h))
		refuse([]byte(h), "only "+kit.Q(h))
	}
	for i := 0; i < r.N(400, 10000); i++ {
		b := make([]byte, g.Intn(3000))
		g.Read(b)
		if len(b) > 5 && string(b[:5]) == "REDIS" {
			continue
		}
		refuse(b, "random bytes")
	}

	// object kinds that are not supported, at any place
	for kind := 6; kind < 247; kind++ {
		if kind >= 9 && kind <= 14 {
			continue
		}
		r.Step(fmt.Sprintf("D08 kind %d", kind))
		for k := 0; k < 4; k++ {
			w := gen.NewWriter(g, 9, nil)
			w.SelectDB(0)
			if k > 1 {
				w.Key("before", &gen.Val{Kind: gen.String, Str: "x"})
			}
			w.Byte(byte(kind))
			w.Str("key")
			if k != 1 {
				w.Str("payload")
				w.Len(uint64(g.Intn(5)))
			}
			if k == 3 {
				w.Key("after", &gen.Val{Kind: gen.String, Str: "x"})
			}
			w.End()
			refuse(w.B, fmt.Sprintf("object kind %d", kind))
		}
	}
	r.Sample("object kinds 6-8 and 15-246 refused")

	// damaged compact values
	one := func(kind byte, payload []byte) []byte {
		w := gen.NewWriter(g, 9, nil)
		w.SelectDB(0)
		w.Key("before", &gen.Val{Kind: gen.String, Str: "x"})
		w.Byte(kind)
		w.Str("key")
		if kind == 14 {
			w.Len(1)
		}
		w.B = gen.Len(g, w.B, uint64(len(payload)), nil)
		w.B = append(w.B, payload...)
		w.Key("after", &gen.Val{Kind: gen.String, Str: "x"})
		w.End()
		return w.B
	}
	for i := 0; i < r.N(500, 10000); i++ {
		if i%16 == 0 {
			r.Step(fmt.Sprintf("D08 compact %d", i))
		}
		n := 1 + g.Intn(4)
		var l []string
		for j := 0; j < 2*n; j++ {
			l = append(l, fmt.Sprint(gen.Elem(g)))
		}
		for j := range l {
			if len(l[j]) > 200 {
				l[j] = l[j][:200]
			}
		}
		for _, kind := range []byte{10, 13, 12, 14} {
			if kind == 12 {
				for j := 1; j < len(l); j += 2 {
					l[j] = strconv.Itoa(g.Intn(1000))
				}
			}
			z := gen.Ziplist(g, l, nil)
			k := 10 + g.Intn(len(z)-10)
			refuse(one(kind, z[:k]), fmt.Sprintf("kind %d: ziplist cut at %d of %d", kind, k, len(z)))
			refuse(one(kind, z[:len(z)-1]), fmt.Sprintf("kind %d: ziplist without its end", kind))
			refuse(one(kind, z[:g.Intn(10)]), fmt.Sprintf("kind %d: ziplist with part of its header", kind))
			// an entry of no known form
			bad := append([]byte(nil), z...)
			e := 11 // where the first entry says what form it has
			if z[10] == 0xfe {
				e = 15
			}
			bad[e] = [...]byte{0xc1, 0xcf, 0xd1, 0xdf, 0xe1, 0xef, 0xfe - 0, 0xff}[g.Intn(8)]
			if bad[e] != 0xfe {
				if z[e] != bad[e] {
					refuse(one(kind, bad), fmt.Sprintf("kind %d: entry form %#x", kind, bad[e]))
				}
			}
			// an entry longer than the list
			bad = append([]byte(nil), z...)
			bad[e], bad[e+1] = 0x7f, 0xff
			refuse(one(kind, bad), fmt.Sprintf("kind %d: entry longer than the list", kind))
			bad = append(append([]byte(nil), z[:10]...), 0, 0x80, 0xff, 0xff, 0xff, 0xff, 'x', 255)
			refuse(one(kind, bad), fmt.Sprintf("kind %d: entry of 4 GB", kind))
			// a count that does not fit, items dropped by an early end
			bad = append([]byte(nil), z...)
			binary.LittleEndian.PutUint16(bad[8:], uint16(len(l)+1+g.Intn(3)))
			refuse(one(kind, bad), fmt.Sprintf("kind %d: one item less than counted", kind))
			bad = append([]byte(nil), z...)
			bad[10] = 255
			refuse(one(kind, bad), fmt.Sprintf("kind %d: early end", kind))
		}
		// the count says anything else
		for _, kind := range []byte{10, 14} {
			z := gen.Ziplist(g, l, nil)
			for _, n := range []int{0, 1, len(l) - 1, len(l) + 1, len(l) + 256, len(l) + 65280, len(l) * 2, 65534} {
				if n != len(l) {
					bad := append([]byte(nil), z...)
					binary.LittleEndian.PutUint16(bad[8:], uint16(n))
					refuse(one(kind, bad), fmt.Sprintf("kind %d: %d items counted, %d there", kind, n, len(l)))
				}
			}
			// it does not say how many, as in a list of more items than it can tell
			bad := append([]byte(nil), z...)
			binary.LittleEndian.PutUint16(bad[8:], 65535)
			bad[10] = 255
			refuse(one(kind, bad), fmt.Sprintf("kind %d: early end of an uncounted list", kind))
		}
		// a pair without its second half
		odd := gen.Ziplist(g, l[:len(l)-1], nil)
		refuse(one(13, odd), "hash ziplist with an odd number of items")
		refuse(one(12, odd), "zset ziplist with an odd number of items")
		// intsets
		var vals []int64
		for j := 0; j < 2+g.Intn(5); j++ {
			vals = append(vals, int64(j*1000-700))
		}
		w := [...]int{2, 4, 8}[g.Intn(3)]
		s := gen.Intset(vals, w)
		refuse(one(11, s[:8+g.Intn(len(s)-8)]), "intset cut short")
		refuse(one(11, s[:g.Intn(8)]), "intset with part of its header")
		bad := append([]byte(nil), s...)
		binary.LittleEndian.PutUint32(bad, [...]uint32{0, 1, 3, 5, 6, 7, 9, 16, 1 << 31}[g.Intn(9)])
		refuse(one(11, bad), "intset of unknown width")
		bad = append([]byte(nil), s...)
		binary.LittleEndian.PutUint32(bad[4:], uint32(len(vals)+1+g.Intn(1000)))
		refuse(one(11, bad), "intset with members missing")
		binary.LittleEndian.PutUint32(bad[4:], uint32(len(vals)-1))
		refuse(one(11, bad), "intset with more members than counted")
		binary.LittleEndian.PutUint32(bad[4:], 1<<31+uint32(g.Intn(1<<30)))
		refuse(one(11, bad), "intset of billions of members")
		// zipmaps
		ps := pairsOf(g, 1+g.Intn(4))
		m := gen.Zipmap(g, ps, func() int { return g.Intn(4) }, nil)
		refuse(one(9, m[:1+g.Intn(len(m)-1)]), "zipmap cut short")
		refuse(one(9, nil), "empty zipmap payload")
		refuse(one(9, []byte{1, 254, 255, 255, 255, 255, 'x', 1, 0, 'y', 255}), "zipmap with a field of 4 GB")
		refuse(one(9, []byte{1, 1, 'x', 254, 255, 255, 255, 127, 0, 'y', 255}), "zipmap with a value of 2 GB")
		refuse(one(9, []byte{1, 1, 'x', 1, 200, 'y', 255}), "zipmap with more slack than bytes")
		if len(ps) < 250 {
			bad = append([]byte(nil), m...)
			bad[0]++
			refuse(one(9, bad), "zipmap with fewer pairs than counted")
		}
		bad = append([]byte{254, 1, 'q', 1, 0, 'w', 255}, m[1:]...)
		refuse(one(9, bad), "zipmap of an uncounted number of pairs with an early end")
		// compressed strings
		data := gen.Compressible(g, 40+g.Intn(300))
		c := gen.LZF(g, data)
		if len(c)+8 < len(data) {
			lz := func(c []byte, ulen int) []byte {
				w := gen.NewWriter(g, 9, nil)
				w.SelectDB(0)
				w.Byte(0)
				w.Str("key")
				w.Byte(0xc3)
				w.Len(uint64(len(c)))
				w.Len(uint64(ulen))
				w.B = append(w.B, c...)
				w.Key("after", &gen.Val{Kind: gen.String, Str: "x"})
				w.End()
				return w.B
			}
			refuse(lz(c, len(data)+1+g.Intn(50)), "compressed string shorter than announced")
			refuse(lz(c, len(data)-1-g.Intn(4)), "compressed string longer than announced")
			refuse(lz(c, len(c)), "compressed string that is announced as long as its compressed form")
			k := 1 + g.Intn(len(c)-1)
			if _, ok := gen.UnLZF(c[:k], len(data)); !ok {
				refuse(lz(c[:k], len(data)), "compressed string cut short")
			}
			bad := append([]byte(nil), c...)
			bad[0] = 0xff // a reference before any data
			refuse(lz(bad, len(data)), "compressed string with a reference before its start")
			refuse(lz(c, 1<<31), "compressed string of 2 GB")
			refuse(lz(c, 1<<40), "compressed string of 1 TB")
		}
	}

	// huge lengths everywhere
	huge := [][]byte{{0x80, 0xff, 0xff, 0xff, 0xff}, {0x80, 0x7f, 0xff, 0xff, 0xff}, {0x81, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x81, 0, 0, 0, 1, 0, 0, 0, 0}, {0x81, 0x80, 0, 0, 0, 0, 0, 0, 0}, {0x80, 0x40, 0, 0, 0}, {0x81, 0, 0, 0x40, 0, 0, 0, 0, 0}}
	for _, h := range huge {
		for _, kind := range []byte{0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 13, 14} {
			for _, some := range []int{0, 3} {
				r.Step(fmt.Sprintf("D08 length %x for kind %d", h, kind))
				w := gen.NewWriter(g, 9, nil)
				w.SelectDB(0)
				w.Byte(kind)
				w.Str("key")
				w.B = append(w.B, h...)
				for j := 0; j < some; j++ {
					w.Str("abc")
					if kind == 3 {
						w.B = gen.Double(g, w.B, 1)
					} else if kind == 5 {
						w.B = gen.BinaryDouble(w.B, 1)
					}
				}
				refuse(w.B, fmt.Sprintf("length %x for kind %d", h, kind))
				w.End()
				refuse(w.B, fmt.Sprintf("length %x for kind %d, and an end", h, kind))
				// in the key
				w = gen.NewWriter(g, 9, nil)
				w.SelectDB(0)
				w.Byte(kind)
				w.B = append(append(w.B, h...), "abc"...)
				refuse(w.B, fmt.Sprintf("key length %x", h))
				for _, rest := range []int{0, 1, 2} { // what follows may parse
					w = gen.NewWriter(g, 9, nil)
					w.SelectDB(0)
					w.Byte(kind)
					w.B = append(w.B, h...)
					if rest > 0 {
						w.Str("v")
					}
					if rest > 1 {
						w.Key("after", &gen.Val{Kind: gen.String, Str: "x"})
					}
					w.End()
					refuse(w.B, fmt.Sprintf("key length %x, then %d items and an end", h, rest))
				}
			}
		}
		for _, op := range []byte{250} {
			w := gen.NewWriter(g, 9, nil)
			w.Byte(op)
			w.B = append(append(w.B, h...), "abc"...)
			refuse(w.B, fmt.Sprintf("aux length %x", h))
			w = gen.NewWriter(g, 9, nil)
			w.Byte(op)
			w.B = append(w.B, h...)
			w.Str("v")
			w.End()
			refuse(w.B, fmt.Sprintf("aux length %x, then a value and an end", h))
			w = gen.NewWriter(g, 9, nil)
			w.Byte(op)
			w.Str("repl-id")
			w.B = append(append(w.B, h...), "abc"...)
			refuse(w.B, fmt.Sprintf("aux value length %x", h))
			w = gen.NewWriter(g, 9, nil)
			w.Byte(op)
			w.Str("repl-id")
			w.B = append(w.B, h...)
			w.End()
			refuse(w.B, fmt.Sprintf("aux value length %x, then an end", h))
		}
	}
	// a length form or a string encoding the format does not have, where what follows may parse: 0 to 12
	// bytes (an empty string with an empty key is three zeros, an 8 bit string two) and an end
	for pad := 0; pad < 13; pad++ {
		for _, b := range []byte{0x82, 0x83, 0x8f, 0x90, 0xa0, 0xbf, 0xc4, 0xc5, 0xcf, 0xff} {
			for at := 0; at < 4; at++ {
				r.Step(fmt.Sprintf("D08 form %#x at %d, %d bytes on", b, at, pad))
				w := gen.NewWriter(g, 9, nil)
				switch at {
				case 0: // the value
					w.SelectDB(0)
					w.Byte(0)
					w.Str("key")
				case 1: // the key
					w.SelectDB(0)
					w.Byte(0)
				case 2: // the value of a setting
					w.Byte(250)
					w.Str("redis-ver")
				case 3: // an element
					w.SelectDB(0)
					w.Byte(1)
					w.Str("list")
					w.Len(1)
				}
				w.B = append(append(w.B, b), make([]byte, pad)...)
				w.End()
				refuse(w.B, fmt.Sprintf("length or string form %#x", b))
			}
		}
		for _, b := range []byte{0x82, 0x83, 0x8f, 0x90, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xff} { // where only a length stands
			for at := 0; at < 11; at++ {
				w := gen.NewWriter(g, 9, nil)
				switch at {
				case 0:
					w.Byte(254)
				case 1:
					w.SelectDB(0)
					w.Byte(251)
				case 2:
					w.SelectDB(0)
					w.Byte(251)
					w.Len(1)
				case 3:
					w.SelectDB(0)
					w.Byte(248)
				case 4, 5, 6, 7, 8, 9:
					w.SelectDB(0)
					w.Byte([]byte{1, 2, 3, 4, 5, 14}[at-4])
					w.Str("many")
				case 10: // the two lengths of a compressed string
					w.SelectDB(0)
					w.Byte(0)
					w.Str("key")
					w.Byte(0xc3)
					if pad%2 == 1 {
						w.Len(2)
					}
				}
				w.B = append(append(w.B, b), make([]byte, pad)...)
				w.End()
				refuse(w.B, fmt.Sprintf("length form %#x", b))
			}
		}
	}
	for _, s := range []string{"x", "1.2.3", "", "--1", "12e", "0x1p"} { // a score that is no number
		w := gen.NewWriter(g, 9, nil)
		w.SelectDB(0)
		w.Byte(3)
		w.Str("key")
		w.Len(1)
		w.Str("member")
		w.Byte(byte(len(s)))
		w.B = append(w.B, s...)
		w.End()
		refuse(w.B, "score "+s)
	}

	// random corruption: no crash, no hang, no exhaustion
	for i := 0; i < r.N(40000, 1500000); i++ {
		if i%64 == 0 {
			r.Step(fmt.Sprintf("D08 corruption %d", i))
		}
		w, _ := small()
		b := append([]byte(nil), w.B...)
		for k := 1 + g.Intn(4); k > 0; k-- {
			j := 9 + g.Intn(len(b)-9)
			switch g.Intn(5) {
			case 0:
				b[j] = byte(g.Intn(256))
			case 1:
				b[j] ^= 1 << uint(g.Intn(8))
			case 2:
				b = append(b[:j], b[min(len(b), j+1+g.Intn(4)):]...)
			case 3:
				b[j] = [...]byte{0, 1, 0xff, 0xfe, 0x80, 0x81, 0xc3, 0x7f, 0x40}[g.Intn(9)]
			case 4:
				b = append(b[:j], append(append([]byte(nil), huge[g.Intn(len(huge))]...), b[j:]...)...)
			}
			if len(b) < 11 {
				break
			}
		}
		var msgs []redis.ReplicationMessage
		var err error
		if i%8 == 0 {
			msgs, err = measured(b, "random corruption")
		} else {
			_, msgs, err = load(r, b)
		}
		_ = msgs
		if err != nil {
			r.Count("corruptions_reported", 1)
		} else {
			r.Count("corruptions_loaded", 1)
		}
		r.Case(string(b), true)
	}
	r.Finish()
}

var _ = rand.Int
