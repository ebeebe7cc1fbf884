package gen

import (
	"encoding/binary"
	"fmt"
	"hash/crc64"
	"math"
	"math/rand"
	"sort"
	"strconv"
)

type Kind int

const (
	String Kind = iota
	List
	Set
	Hash
	ZSet
)

func (k Kind) String() string { return [...]string{"string", "list", "set", "hash", "zset"}[k] }

// Val is a value of a dataset.
type Val struct {
	Kind   Kind
	Str    string
	List   []string           // elements of a list in order; of a set in any order
	Hash   map[string]string  // fields
	ZSet   map[string]float64 // members and scores
	Expire int64              // absolute, in ms; 0 for none
}

// Dataset maps database to key to value.
type Dataset map[int]map[string]*Val

func (v *Val) Text() string {
	var s string
	switch v.Kind {
	case String:
		s = strconv.Quote(v.Str)
	case List:
		s = fmt.Sprintf("%q", v.List)
	case Set:
		l := append([]string(nil), v.List...)
		sort.Strings(l)
		s = fmt.Sprintf("%q", l)
	case Hash:
		var l []string
		for f, x := range v.Hash {
			l = append(l, strconv.Quote(f)+"="+strconv.Quote(x))
		}
		sort.Strings(l)
		s = fmt.Sprint(l)
	case ZSet:
		var l []string
		for f, x := range v.ZSet {
			if x == 0 {
				x = 0 // no difference between the two zeros
			}
			l = append(l, strconv.Quote(f)+"="+strconv.FormatFloat(x, 'g', -1, 64))
		}
		sort.Strings(l)
		s = fmt.Sprint(l)
	}
	return fmt.Sprintf("%v %s expires %d", v.Kind, s, v.Expire)
}

// Len writes a length in the smallest or a larger form.
func Len(g *rand.Rand, out []byte, n uint64, f Forms) []byte {
	form := 0
	switch {
	case n >= 1<<32:
		form = 3
	case n >= 1<<14:
		form = 2
	case n >= 1<<6:
		form = 1
	}
	if g.Intn(12) == 0 {
		form += g.Intn(4 - form)
	}
	switch form {
	case 0:
		f.hit("len6")
		return append(out, byte(n))
	case 1:
		f.hit("len14")
		return append(out, byte(0x40|n>>8), byte(n))
	case 2:
		f.hit("len32")
		return append(out, 0x80, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	f.hit("len64")
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], n)
	return append(append(out, 0x81), b[:]...)
}

// RdbString writes a string in one of the forms that suit it.
func RdbString(g *rand.Rand, out []byte, s string, f Forms) []byte {
	if n, ok := ParseInt64(s); ok && g.Intn(8) != 0 {
		switch {
		case n >= -128 && n <= 127 && g.Intn(8) != 0:
			f.hit("int8")
			return append(append(out, 0xc0), le(n, 1)...)
		case n >= -32768 && n <= 32767 && g.Intn(8) != 0:
			f.hit("int16")
			return append(append(out, 0xc1), le(n, 2)...)
		case n >= -1<<31 && n < 1<<31:
			f.hit("int32")
			return append(append(out, 0xc2), le(n, 4)...)
		}
	}
	if len(s) > 8 && g.Intn(3) != 0 {
		if c := LZF(g, []byte(s)); len(c) < len(s) {
			f.hit("lzf")
			out = append(out, 0xc3)
			out = Len(g, out, uint64(len(c)), f)
			out = Len(g, out, uint64(len(s)), f)
			return append(out, c...)
		}
	}
	f.hit("raw")
	out = Len(g, out, uint64(len(s)), f)
	return append(out, s...)
}

// Double writes a score as text.
func Double(g *rand.Rand, out []byte, x float64) []byte {
	switch {
	case math.IsNaN(x):
		return append(out, 253)
	case math.IsInf(x, 1):
		return append(out, 254)
	case math.IsInf(x, -1):
		return append(out, 255)
	}
	s := strconv.FormatFloat(x, 'g', 17, 64)
	if g.Intn(2) == 0 {
		s = strconv.FormatFloat(x, 'f', -1, 64)
		if len(s) > 252 || g.Intn(2) == 0 {
			s = strconv.FormatFloat(x, 'g', -1, 64)
		}
	}
	return append(append(out, byte(len(s))), s...)
}

func BinaryDouble(out []byte, x float64) []byte {
	return append(out, le(int64(math.Float64bits(x)), 8)...)
}

// Writer assembles a snapshot file.
type Writer struct {
	G     *rand.Rand
	F     Forms
	B     []byte
	Marks []int // offsets of interest: the ends of the records
	NoLFU bool
}

func NewWriter(g *rand.Rand, version int, f Forms) *Writer {
	w := &Writer{G: g, F: f}
	w.B = append(w.B, fmt.Sprintf("REDIS%04d", version)...)
	return w
}

func (w *Writer) Str(s string) { w.B = RdbString(w.G, w.B, s, w.F) }
func (w *Writer) Len(n uint64) { w.B = Len(w.G, w.B, n, w.F) }
func (w *Writer) Byte(b byte)  { w.B = append(w.B, b) }
func (w *Writer) Aux(k, v string) {
	w.Byte(250)
	w.Str(k)
	w.Str(v)
}
func (w *Writer) SelectDB(n int) {
	w.Byte(254)
	w.Len(uint64(n))
}
func (w *Writer) ResizeDB(a, b int) {
	w.Byte(251)
	w.Len(uint64(a))
	w.Len(uint64(b))
}
func (w *Writer) End() {
	w.Byte(255)
	c := make([]byte, 8)
	if w.G.Intn(2) == 0 { // else checksums are disabled
		binary.LittleEndian.PutUint64(c, CRC(w.B))
	}
	w.B = append(w.B, c...)
}

var crcTable = crc64.MakeTable(0x95ac9329ac4bc9b5)

// CRC is the checksum of snapshots, CRC-64-Jones without the inversions the library makes.
func CRC(b []byte) uint64 { return ^crc64.Update(^uint64(0), crcTable, b) }

func chunks(g *rand.Rand, l []string) (parts [][]string) {
	for len(l) > 0 {
		n := 1 + g.Intn(len(l))
		parts = append(parts, l[:n])
		l = l[n:]
	}
	return
}

// Key writes one key with its value, in one of the encodings the value allows, and returns which.
func (w *Writer) Key(key string, v *Val) string {
	g := w.G
	if v.Expire != 0 {
		if v.Expire%1000 == 0 && v.Expire/1000 < 1<<32 && g.Intn(2) == 0 {
			w.Byte(253)
			w.B = append(w.B, le(v.Expire/1000, 4)...)
			w.F.hit("expire_s")
		} else {
			w.Byte(252)
			w.B = append(w.B, le(v.Expire, 8)...)
			w.F.hit("expire_ms")
		}
	}
	switch g.Intn(6) {
	case 0:
		w.Byte(249)
		w.Byte(byte(g.Intn(256)))
		w.F.hit("freq")
	case 1:
		w.Byte(248)
		w.Len([...]uint64{uint64(g.Intn(100000)), uint64(g.Intn(100000)), uint64(g.Uint32()), 1<<32 + uint64(g.Uint32())}[g.Intn(4)])
		w.F.hit("idle")
	}
	enc := ""
	switch v.Kind {
	case String:
		w.Byte(0)
		w.Str(key)
		w.Str(v.Str)
		enc = "string"
	case List:
		switch g.Intn(3) {
		case 0:
			w.Byte(1)
			w.Str(key)
			w.Len(uint64(len(v.List)))
			for _, e := range v.List {
				w.Str(e)
			}
			enc = "list"
		case 1:
			w.Byte(10)
			w.Str(key)
			w.Str(string(Ziplist(g, v.List, w.F)))
			enc = "list_ziplist"
		default:
			w.Byte(14)
			w.Str(key)
			parts := chunks(g, v.List)
			w.Len(uint64(len(parts)))
			for _, p := range parts {
				w.Str(string(Ziplist(g, p, w.F)))
			}
			enc = "quicklist"
		}
	case Set:
		var ints []int64
		for _, e := range v.List {
			if n, ok := ParseInt64(e); ok {
				ints = append(ints, n)
			}
		}
		if len(ints) == len(v.List) && g.Intn(4) != 0 {
			sort.Slice(ints, func(a, b int) bool { return ints[a] < ints[b] })
			wd := IntsetWidth(ints)
			if g.Intn(4) == 0 { // widened by a member that is gone
				wd = 8
			}
			w.Byte(11)
			w.Str(key)
			w.Str(string(Intset(ints, wd)))
			enc = fmt.Sprintf("intset%d", wd*8)
		} else {
			w.Byte(2)
			w.Str(key)
			w.Len(uint64(len(v.List)))
			for _, e := range v.List {
				w.Str(e)
			}
			enc = "set"
		}
	case Hash:
		var fs []string
		for f := range v.Hash {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		g.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		switch g.Intn(3) {
		case 0:
			w.Byte(4)
			w.Str(key)
			w.Len(uint64(len(fs)))
			for _, f := range fs {
				w.Str(f)
				w.Str(v.Hash[f])
			}
			enc = "hash"
		case 1:
			w.Byte(13)
			w.Str(key)
			var l []string
			for _, f := range fs {
				l = append(l, f, v.Hash[f])
			}
			w.Str(string(Ziplist(g, l, w.F)))
			enc = "hash_ziplist"
		default:
			w.Byte(9)
			w.Str(key)
			var l []Pair
			for _, f := range fs {
				l = append(l, Pair{f, v.Hash[f]})
			}
			max := [...]int{1, 5, 254}[g.Intn(3)]
			w.Str(string(Zipmap(g, l, func() int { return g.Intn(max) }, w.F)))
			enc = "zipmap"
		}
	case ZSet:
		var ms []string
		for m := range v.ZSet {
			ms = append(ms, m)
		}
		sort.Slice(ms, func(a, b int) bool {
			x, y := v.ZSet[ms[a]], v.ZSet[ms[b]]
			return x < y || x == y && ms[a] < ms[b]
		})
		switch g.Intn(3) {
		case 0:
			w.Byte(3)
			w.Str(key)
			w.Len(uint64(len(ms)))
			for _, m := range ms {
				w.Str(m)
				w.B = Double(g, w.B, v.ZSet[m])
			}
			enc = "zset"
		case 1:
			w.Byte(5)
			w.Str(key)
			w.Len(uint64(len(ms)))
			for _, m := range ms {
				w.Str(m)
				w.B = BinaryDouble(w.B, v.ZSet[m])
			}
			enc = "zset2"
		default:
			w.Byte(12)
			w.Str(key)
			var l []string
			for _, m := range ms {
				x := v.ZSet[m]
				s := strconv.FormatFloat(x, 'g', 17, 64)
				if math.IsInf(x, 1) {
					s = "inf"
				} else if math.IsInf(x, -1) {
					s = "-inf"
				} else if g.Intn(2) == 0 {
					s = strconv.FormatFloat(x, 'g', -1, 64)
				}
				if x == math.Trunc(x) && math.Abs(x) < 1e17 {
					s = strconv.FormatInt(int64(x), 10)
				}
				l = append(l, m, s)
			}
			w.Str(string(Ziplist(g, l, w.F)))
			enc = "zset_ziplist"
		}
	}
	w.F.hit("enc_" + enc)
	w.Marks = append(w.Marks, len(w.B))
	return enc
}

// Write assembles the whole dataset, with the replication id and offset if id is not empty, and the database the
// stream after it has selected (0 if not given, not named if negative).
func Write(g *rand.Rand, d Dataset, f Forms, id string, offset int64, streamDB ...int) *Writer {
	w := NewWriter(g, [...]int{6, 7, 8, 9, 9, 9, 10, 3, 1, 2, 4, 5, 11, 12}[g.Intn(14)], f)
	aux := [][2]string{{"redis-ver", "5.0.7"}, {"redis-bits", "64"}, {"ctime", "1583000000"}, {"used-mem", "1234567"}, {"aof-preamble", "0"}}
	switch {
	case len(streamDB) == 0:
		aux = append(aux, [2]string{"repl-stream-db", "0"})
	case streamDB[0] >= 0:
		aux = append(aux, [2]string{"repl-stream-db", strconv.Itoa(streamDB[0])})
	}
	if id != "" {
		aux = append(aux, [2]string{"repl-id", id}, [2]string{"repl-offset", strconv.FormatInt(offset, 10)})
	}
	g.Shuffle(len(aux), func(i, j int) { aux[i], aux[j] = aux[j], aux[i] })
	for _, a := range aux {
		w.Aux(a[0], a[1])
	}
	var dbs []int
	for db := range d {
		dbs = append(dbs, db)
	}
	sort.Ints(dbs)
	for _, db := range dbs {
		if len(d[db]) == 0 {
			continue
		}
		w.SelectDB(db)
		if g.Intn(3) != 0 {
			n := 0
			for _, v := range d[db] {
				if v.Expire != 0 {
					n++
				}
			}
			w.ResizeDB(len(d[db]), n)
		}
		var ks []string
		for k := range d[db] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		g.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		for _, k := range ks {
			w.Key(k, d[db][k])
		}
	}
	if g.Intn(4) == 0 {
		w.Aux("trailing", "x")
	}
	w.End()
	return w
}
