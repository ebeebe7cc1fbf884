package decchk

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/liujiangwei/xxcache/redis/intset"
	"github.com/liujiangwei/xxcache/redis/lzf"
	"github.com/liujiangwei/xxcache/redis/rdb"
	"github.com/liujiangwei/xxcache/redis/ziplist"
	"github.com/liujiangwei/xxcache/redis/zipmap"

	"verif/harness/gen"
	"verif/harness/kit"
)

var rules = map[string]string{
	"D01": "one evaluation per byte string compressed or stream decompressed; non-trivial when the stream has a back reference; distinct by content",
	"D02": "one evaluation per codec call under the sanitizers; distinct by input and buffer size",
	"D03": "one evaluation per list decoded; distinct by encoding",
	"D04": "one evaluation per set decoded; distinct by encoding",
	"D05": "one evaluation per zipmap decoded or write sequence; distinct by encoding",
	"D06": "one evaluation per primitive read; distinct by bytes and delivery",
	"D07": "one evaluation per snapshot loaded; distinct by bytes",
	"D08": "one evaluation per damaged snapshot loaded; distinct by bytes",
}

func TestCheck(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	r := kit.Start(rules[prop], 60*time.Second)
	run := map[string]func(*kit.Run){"D01": runD01, "D02": runD02, "D03": runD03, "D04": runD04, "D05": runD05, "D06": runD06, "D07": runD07, "D08": runD08}[prop]
	if run == nil {
		t.Fatal("unknown property " + prop)
	}
	r.Guard(func() { run(r) })
}

func forms(r *kit.Run, f gen.Forms) {
	for k, n := range f {
		r.Count("form_"+k, n)
	}
}

// ---- D01

func roundTrip(r *kit.Run, s string) {
	c := lzf.Compress(s)
	if d := lzf.DeCompress(c, len(s)); d != s {
		r.Violation("a compressed string does not decompress to itself", fmt.Sprintf("%s -> %s -> %s", kit.Q(s), kit.Q(c), kit.Q(d)))
	}
	if c != s {
		d, ok := gen.UnLZF([]byte(c), len(s))
		if !ok || string(d) != s {
			r.Violation("the compressed form is not the LZF encoding of the string", fmt.Sprintf("%s -> %q", kit.Q(s), c))
		}
		r.Count("compressed", 1)
		r.Count("bytes_saved", int64(len(s)-len(c)))
	} else {
		r.Count("stored", 1)
	}
	r.Case("c"+s, c != s)
}

func unpack(r *kit.Run, stream, data []byte) {
	if len(stream) >= len(data) {
		return
	}
	if d, ok := gen.UnLZF(stream, len(data)); !ok || !bytes.Equal(d, data) {
		panic("the reference decoder and the encoder disagree")
	}
	if d := lzf.DeCompress(string(stream), len(data)); d != string(data) {
		at := 0
		for at < len(d) && at < len(data) && d[at] == data[at] {
			at++
		}
		r.Violation("a stream does not decompress to what the format defines", fmt.Sprintf("stream %x\n%d bytes wanted, %d returned, first difference at %d", stream, len(data), len(d), at))
	}
	r.Case("d"+string(stream), true)
	r.Count("streams", 1)
}

func runD01(r *kit.Run) {
	g := r.Rng(31)
	for n := 0; n <= 600; n++ {
		r.Step(fmt.Sprintf("D01 length %d", n))
		for k := 0; k < r.N(6, 60); k++ {
			roundTrip(r, string(gen.Compressible(g, n)))
			b := make([]byte, n)
			g.Read(b)
			roundTrip(r, string(b))
			for i := range b {
				b[i] = "ab"[b[i]&1]
			}
			roundTrip(r, string(b))
		}
		roundTrip(r, strings.Repeat("a", n))
		roundTrip(r, strings.Repeat("\x00\xff", n))
	}
	// all short strings over two letters
	for n := 1; n <= 12; n++ {
		r.Step(fmt.Sprintf("D01 all strings of %d", n))
		for m := 0; m < 1<<uint(n); m++ {
			b := make([]byte, n)
			for i := range b {
				b[i] = "ab"[m>>uint(i)&1]
			}
			roundTrip(r, string(b))
		}
	}
	for i := 0; i < r.N(40000, 1000000); i++ {
		if i%256 == 0 {
			r.Step(fmt.Sprintf("D01 stream %d", i))
		}
		s, d := gen.RandomLZF(g, 1+g.Intn(30))
		unpack(r, s, d)
		if i < 2 {
			r.Sample(fmt.Sprintf("stream %x of %d bytes", s, len(d)))
		}
	}
	for i := 0; i < r.N(3000, 60000); i++ {
		if i%64 == 0 {
			r.Step(fmt.Sprintf("D01 data %d", i))
		}
		b := gen.Compressible(g, g.Intn(3000))
		unpack(r, gen.LZF(g, b), b)
		roundTrip(r, kit.Value(g))
	}
	for _, n := range []int{8191, 8192, 8193, 8194, 8195, 8200, 65535, 65536, 65537, 100000, 1 << 20, 5 << 20} {
		r.Step(fmt.Sprintf("D01 long %d", n))
		b := gen.Compressible(g, n)
		roundTrip(r, string(b))
		unpack(r, gen.LZF(g, b), b)
		roundTrip(r, strings.Repeat("x", n))
		// a repetition exactly at and beyond the greatest distance
		p := make([]byte, n)
		g.Read(p)
		roundTrip(r, string(p)+string(p[:min(n, 300)])+strings.Repeat("z", 300))
		for k := 0; k < 3; k++ {
			s, d := gen.RandomLZF(g, n/40)
			unpack(r, s, d)
		}
	}
	// every length and several distances of a match
	for l := 3; l <= 264; l++ {
		r.Step(fmt.Sprintf("D01 match %d", l))
		for _, dist := range []int{1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 255, 256, 257, 511, 512, 4096, 8191, 8192} {
			lead := make([]byte, dist)
			g.Read(lead)
			full := append([]byte(nil), lead...)
			for j := 0; j < l; j++ {
				full = append(full, full[len(full)-dist])
			}
			var s []byte
			for at := 0; at < dist; {
				n := min(32, dist-at)
				s = append(append(s, byte(n-1)), lead[at:at+n]...)
				at += n
			}
			off := dist - 1
			if l-2 < 7 {
				s = append(s, byte((l-2)<<5|off>>8), byte(off))
			} else {
				s = append(s, byte(7<<5|off>>8), byte(l-9), byte(off))
			}
			unpack(r, s, full)
			roundTrip(r, string(full))
		}
	}
	r.Finish()
}

// ---- D03

func lists(g *rand.Rand, i int) []string {
	var l []string
	n := g.Intn(12)
	if i%50 == 0 {
		n = g.Intn(600)
	}
	for ; n > 0; n-- {
		l = append(l, gen.Elem(g))
	}
	return l
}

func sameList(r *kit.Run, what string, got, want []string, enc []byte) {
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) || i >= len(want) || got[i] != want[i] {
			a, b := "nothing", "nothing"
			if i < len(got) {
				a = kit.Q(got[i])
			}
			if i < len(want) {
				b = kit.Q(want[i])
			}
			r.Violation(what+" decodes to other elements", fmt.Sprintf("element %d of %d (got %d): got %s, want %s\nencoding %s", i, len(want), len(got), a, b, kit.Q(string(enc))))
		}
	}
}

func runD03(r *kit.Run) {
	g := r.Rng(33)
	f := gen.Forms{}
	check := func(l []string) {
		z := gen.Ziplist(g, l, f)
		sameList(r, "a ziplist", ziplist.Load(string(z)), l, z)
		r.Case(string(z), len(l) > 0)
		r.Count("elements", int64(len(l)))
	}
	for i := 0; i < r.N(40000, 1000000); i++ {
		if i%128 == 0 {
			r.Step(fmt.Sprintf("D03 list %d", i))
		}
		l := lists(g, i)
		check(l)
		if i == 1 {
			r.Sample(fmt.Sprintf("%q", l))
		}
	}
	// every string length around the borders of the forms, one after the other, so that previous lengths vary too
	for _, n := range append([]int{16382, 16383, 16384, 16385, 65535, 65536, 1 << 20}, seq(0, 700)...) {
		r.Step(fmt.Sprintf("D03 string of %d", n))
		for k := 0; k < 4; k++ {
			check([]string{"a", strings.Repeat("x", n), "b", strings.Repeat("y", n), strings.Repeat("z", n+1), "7"})
		}
	}
	// every integer around the borders, and every bit pattern of one and two bytes
	for _, b := range borders() {
		r.Step(fmt.Sprintf("D03 integer %d", b))
		for k := 0; k < 4; k++ {
			check([]string{strconv.FormatInt(b, 10), "x", strconv.FormatInt(b, 10)})
		}
	}
	for lo := -40000; lo < 40000; lo += 500 {
		var l []string
		for v := lo; v < lo+500; v++ {
			l = append(l, strconv.Itoa(v))
		}
		check(l)
	}
	for _, n := range []int{65533, 65534, 65535, 65536, 70000} {
		r.Step(fmt.Sprintf("D03 %d elements", n))
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, strconv.Itoa(i%300))
		}
		check(l)
	}
	// lengths that need all four bytes of their form
	r.Step("D03 long elements")
	for k := 0; k < 3; k++ {
		big := strings.Repeat("0123456789abcdef", 1<<20+k)
		check([]string{"a", big + "x", "b", big + big + "yz", "-7", big[:1<<24-1], "c", big[:1<<24], "1000"})
	}
	forms(r, f)
	r.Finish()
}

func seq(a, b int) (l []int) {
	for ; a <= b; a++ {
		l = append(l, a)
	}
	return
}

func borders() (l []int64) {
	for k := uint(0); k < 63; k++ {
		for d := int64(-3); d <= 3; d++ {
			l = append(l, int64(1)<<k+d, -(int64(1)<<k + d))
		}
	}
	return append(l, math.MaxInt64, math.MinInt64, math.MinInt64+1, math.MaxInt64-1)
}

// ---- D04

func runD04(r *kit.Run) {
	g := r.Rng(34)
	check := func(vals []int64, w int) {
		b := gen.Intset(vals, w)
		got := intset.Load(string(b))
		ok := len(got) == len(vals)
		for i := 0; ok && i < len(vals); i++ {
			ok = got[i] == vals[i]
		}
		if !ok {
			r.Violation("an intset decodes to other members", fmt.Sprintf("width %d, want %d, got %d, encoding %s", w, head(vals), head(got), kit.Q(string(b))))
		}
		r.Case(string(b), len(vals) > 0)
		r.Count(fmt.Sprintf("width%d", w*8), 1)
		r.Count("members", int64(len(vals)))
	}
	for _, w := range []int{2, 4, 8} {
		check(nil, w)
		for _, v := range borders() {
			if gen.IntsetWidth([]int64{v}) <= w {
				check([]int64{v}, w)
				check([]int64{-3, v, 9}, w)
			}
		}
		// every pattern of a byte at every place
		for at := 0; at < w; at++ {
			r.Step(fmt.Sprintf("D04 width %d byte %d", w, at))
			for b := 0; b < 256; b++ {
				for _, fill := range []byte{0, 0xff, 0x80, 0x7f} {
					v := int64(0)
					for i := w - 1; i >= 0; i-- {
						x := fill
						if i == at {
							x = byte(b)
						}
						v = v<<8 | int64(x)
					}
					sh := uint(64 - 8*w)
					check([]int64{v << sh >> sh}, w)
				}
			}
		}
	}
	for i := 0; i < r.N(60000, 1500000); i++ {
		if i%256 == 0 {
			r.Step(fmt.Sprintf("D04 set %d", i))
		}
		sh := uint(g.Intn(64))
		n := g.Intn(30)
		if i%200 == 0 {
			n = g.Intn(5000)
		}
		seen := map[int64]bool{}
		var vals []int64
		for ; n > 0; n-- {
			v := int64(g.Uint64()) >> sh
			if g.Intn(5) == 0 {
				v = kit.Int(g) >> sh
			}
			if !seen[v] {
				seen[v] = true
				vals = append(vals, v)
			}
		}
		sort.Slice(vals, func(a, b int) bool { return vals[a] < vals[b] })
		w := gen.IntsetWidth(vals)
		if g.Intn(4) == 0 && w < 8 {
			w *= 2
		}
		check(vals, w)
		if i < 2 {
			r.Sample(fmt.Sprintf("width %d: %d", w*8, head(vals)))
		}
	}
	r.Step("D04 large")
	for _, w := range []int{2, 4, 8} {
		var vals []int64
		for v := int64(-32768); v < 32768; v++ {
			vals = append(vals, v)
		}
		check(vals, w)
	}
	r.Finish()
}

func head(l []int64) []int64 {
	if len(l) > 20 {
		return l[:20]
	}
	return l
}

// ---- D05

func pairsOf(g *rand.Rand, n int) []gen.Pair {
	seen := map[string]bool{}
	var l []gen.Pair
	for ; n > 0; n-- {
		k := gen.Elem(g)
		if !seen[k] {
			seen[k] = true
			l = append(l, gen.Pair{F: k, V: gen.Elem(g)})
		}
	}
	return l
}

func sameMap(r *kit.Run, what string, got map[string]string, want map[string]string, enc []byte) {
	for k, v := range want {
		if x, ok := got[k]; !ok || x != v {
			r.Violation(what, fmt.Sprintf("field %s: got %s (%v), want %s\n%d pairs, encoding %s", kit.Q(k), kit.Q(x), ok, kit.Q(v), len(want), kit.Q(string(enc))))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			r.Violation(what, fmt.Sprintf("field %s appears from nowhere\nencoding %s", kit.Q(k), kit.Q(string(enc))))
		}
	}
}

// the bytes of the package's own zipmap, by whatever name it keeps them
func blob(zm interface{}) (b []byte, ok bool) {
	v := reflect.ValueOf(zm)
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return nil, false
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Uint8 {
			return append([]byte(nil), f.Bytes()...), true
		}
		if f.Kind() == reflect.String {
			return []byte(f.String()), true
		}
	}
	return nil, false
}

func runD05(r *kit.Run) {
	g := r.Rng(35)
	f := gen.Forms{}
	check := func(l []gen.Pair, slack func() int) {
		b := gen.Zipmap(g, l, slack, f)
		want := map[string]string{}
		for _, p := range l {
			want[p.F] = p.V
		}
		sameMap(r, "a zipmap decodes to other pairs", zipmap.Load(string(b)), want, b)
		r.Case(string(b), len(l) > 0)
		r.Count("pairs", int64(len(l)))
	}
	for i := 0; i < r.N(25000, 500000); i++ {
		if i%128 == 0 {
			r.Step(fmt.Sprintf("D05 map %d", i))
		}
		max := [...]int{1, 2, 5, 254}[g.Intn(4)]
		n := g.Intn(10)
		if i%100 == 0 {
			n = g.Intn(400)
		}
		l := pairsOf(g, n)
		check(l, func() int { return g.Intn(max) })
		if i == 1 {
			r.Sample(fmt.Sprintf("%q", l))
		}
	}
	for s := 0; s < 254; s++ {
		r.Step(fmt.Sprintf("D05 slack %d", s))
		s := s
		check([]gen.Pair{{F: "a", V: "1"}, {F: "b", V: ""}, {F: "", V: "c"}, {F: "d", V: strings.Repeat("v", 300)}, {F: "e", V: "\xff"}}, func() int { return s })
	}
	for n := 0; n < 600; n++ {
		r.Step(fmt.Sprintf("D05 length %d", n))
		check([]gen.Pair{{F: "k" + strings.Repeat("k", n), V: "v"}, {F: "x", V: strings.Repeat("v", n)}, {F: "l" + strings.Repeat("l", n), V: strings.Repeat("w", n)}}, func() int { return g.Intn(3) })
	}
	for _, n := range []int{65535, 65536, 70000} {
		check([]gen.Pair{{F: strings.Repeat("k", n), V: strings.Repeat("v", n)}, {F: "x", V: "y"}}, func() int { return g.Intn(3) })
	}
	for _, n := range []int{252, 253, 254, 255, 256, 257, 1000} {
		var l []gen.Pair
		for i := 0; i < n; i++ {
			l = append(l, gen.Pair{F: fmt.Sprint("f", i), V: fmt.Sprint(i)})
		}
		check(l, func() int { return g.Intn(2) })
	}
	r.Step("D05 long fields")
	long := strings.Repeat("0123456789abcdef", 1<<20+1)
	check([]gen.Pair{{F: "a", V: "b"}, {F: long, V: long + long + "v"}, {F: long[:1<<24], V: long[:1<<24-1]}, {F: "x", V: "y"}}, func() int { return g.Intn(3) })
	// the writer
	for n := 250; n < 260; n++ {
		// fields written again when there are as many as the count can tell, and more
		r.Step(fmt.Sprintf("D05 writer of %d", n))
		zm := zipmap.New()
		want := map[string]string{}
		for i := 0; i < 2*n; i++ {
			k, v := fmt.Sprint("f", i), fmt.Sprint(i)
			if i >= n {
				k = fmt.Sprint("f", g.Intn(n))
			}
			_ = zm.Set(k, v)
			want[k] = v
			if b, ok := blob(&zm); ok && i >= n {
				sameMap(r, "a written zipmap decodes to other pairs", zipmap.Load(string(b)), want, b)
			}
		}
	}
	{
		zm := zipmap.New()
		want := map[string]string{"a": "b", long: long + "v", "x": "y", "z": long}
		for i := 0; i < 2; i++ {
			for k, v := range want {
				_ = zm.Set(k, v)
			}
			for _, k := range []string{"a", "x", "z", long, "y", long[1:]} {
				_, is := want[k]
				if _, ok := zm.Lookup(k); ok != is {
					r.Violation("looking a field up in a written zipmap", fmt.Sprintf("field %s beside values of 16 MB: found %v, written %v", kit.Q(k), ok, is))
				}
			}
			if b, ok := blob(&zm); ok {
				sameMap(r, "a written zipmap decodes to other pairs", zipmap.Load(string(b)), want, b)
			}
		}
	}
	for i := 0; i < r.N(4000, 60000); i++ {
		if i%32 == 0 {
			r.Step(fmt.Sprintf("D05 writer %d", i))
		}
		zm := zipmap.New()
		want := map[string]string{}
		steps := 1 + g.Intn(25)
		if i%200 == 0 {
			steps = 300
		}
		var ks []string
		for k := 2 + g.Intn(12); k > 0; k-- {
			ks = append(ks, gen.Elem(g))
		}
		for s := 0; s < steps; s++ {
			k := ks[g.Intn(len(ks))]
			if i%200 == 0 {
				k = fmt.Sprint("f", s)
			}
			v := gen.Elem(g)
			if err := zm.Set(k, v); err != nil {
				r.Violation("writing a zipmap failed", err.Error())
			}
			want[k] = v
			for _, k := range append(ks, "never written", "", "\xff", v) {
				_, ok := zm.Lookup(k)
				if _, is := want[k]; is != ok {
					r.Violation("looking a field up in a written zipmap", fmt.Sprintf("field %s: found %v, written %v, %d fields", kit.Q(k), ok, is, len(want)))
				}
			}
		}
		if b, ok := blob(&zm); ok {
			sameMap(r, "a written zipmap decodes to other pairs", zipmap.Load(string(b)), want, b)
			r.Count("written_maps_decoded", 1)
			r.Case("w"+string(b), true)
		}
		r.Count("written_fields", int64(steps))
	}
	forms(r, f)
	r.Finish()
}

// ---- D06

type pieces struct {
	b    []byte
	size func() int
	eof  bool
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := min(p.size(), min(len(b), len(p.b)))
	copy(b, p.b[:n])
	p.b = p.b[n:]
	if p.eof && len(p.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func runD06(r *kit.Run) {
	g := r.Rng(36)
	f := gen.Forms{}
	// one delivery of the bytes; then the rest has to be exactly the rest
	deliver := func(b, rest []byte, read func(*bufio.Reader) string, want, what string) {
		all := append(append([]byte(nil), b...), rest...)
		k := [...]int{1, 2, 3, 7, 16, 100, 4096, 1 << 30}[g.Intn(8)]
		if len(all) > 100000 && k < 100 {
			k = 4096
		}
		p := &pieces{b: all, size: func() int { return 1 + g.Intn(k) }, eof: g.Intn(2) == 0}
		br := bufio.NewReaderSize(p, [...]int{16, 17, 64, 4096}[g.Intn(4)])
		got := read(br)
		if got != want {
			r.Violation(what+" decodes to another value", fmt.Sprintf("bytes %s: got %s, want %s, delivered in pieces of up to %d", kit.Q(string(b)), kit.Q(got), kit.Q(want), k))
		}
		left, err := io.ReadAll(br)
		if err != nil || !bytes.Equal(left, rest) {
			r.Violation(what+" does not consume exactly its bytes", fmt.Sprintf("bytes %s: %d bytes left, want %d", kit.Q(string(b)), len(left), len(rest)))
		}
		r.Case(what+string(b)+fmt.Sprint(k), true)
		r.Count("read_"+what, 1)
	}
	// cut short it is an error
	cut := func(b []byte, read func(*bufio.Reader) error, what string) {
		for i := 0; i < len(b); i++ {
			if len(b) > 100 && i > 20 && i < len(b)-20 && g.Intn(len(b)/20) != 0 {
				continue
			}
			p := &pieces{b: append([]byte(nil), b[:i]...), size: func() int { return 1 + g.Intn(9) }}
			if err := read(bufio.NewReaderSize(p, 16)); err == nil {
				r.Violation(what+" cut short is not an error", fmt.Sprintf("%d of %d bytes of %s", i, len(b), kit.Q(string(b))))
			}
			r.Count("cuts", 1)
		}
	}
	tail := func() []byte {
		b := make([]byte, g.Intn(40))
		g.Read(b)
		return b
	}
	length := func(br *bufio.Reader) string {
		n, enc, err := rdb.LoadLen(br)
		return fmt.Sprint(n, enc, err)
	}
	str := func(br *bufio.Reader) string {
		s, err := rdb.LoadString(br)
		if err != nil {
			return "error: " + err.Error()
		}
		return "=" + s
	}
	dbl := func(br *bufio.Reader) string {
		x, err := rdb.LoadDouble(br)
		return fmt.Sprintf("%x %v", math.Float64bits(x), err)
	}
	bin := func(br *bufio.Reader) string {
		x, err := rdb.LoadBinaryDouble(br)
		return fmt.Sprintf("%x %v", math.Float64bits(x), err)
	}
	var ns []uint64
	for k := uint(0); k < 64; k++ {
		for d := -3; d <= 3; d++ {
			ns = append(ns, uint64(1)<<k+uint64(d))
		}
	}
	for n := uint64(0); n < 70; n++ {
		ns = append(ns, n)
	}
	for i, n := range ns {
		if i%32 == 0 {
			r.Step(fmt.Sprintf("D06 length %d", n))
		}
		for k := 0; k < r.N(30, 300); k++ {
			b := gen.Len(g, nil, n, f)
			deliver(b, tail(), length, fmt.Sprint(n, false, nil), "length")
			if k == 0 {
				cut(b, func(br *bufio.Reader) error { _, _, err := rdb.LoadLen(br); return err }, "length")
			}
		}
	}
	for k := uint(31); k < 64; k++ { // more than there is, a length that wraps in no way becomes a string
		for d := 0; d < 3; d++ {
			b := append([]byte{0x81}, 0, 0, 0, 0, 0, 0, 0, 0)
			binary.BigEndian.PutUint64(b[1:], uint64(1)<<k+uint64(d)*g.Uint64()>>(64-k))
			b = append(b, tail()...)
			if s, err := rdb.LoadString(bufio.NewReader(bytes.NewReader(b))); err == nil {
				r.Violation("a string that is not there was read", fmt.Sprintf("%x gave %s", b, kit.Q(s)))
			}
			r.Count("absurd_lengths", 1)
		}
	}
	for n := 0; n < 16384; n++ { // the whole 14 bit form
		deliver([]byte{0x40 | byte(n>>8), byte(n)}, tail(), length, fmt.Sprint(n, false, nil), "length")
	}
	for n := 0; n < 64; n++ {
		deliver([]byte{0xc0 | byte(n)}, tail(), length, fmt.Sprint(n, true, nil), "encoding")
	}
	for i := 0; i < r.N(60000, 1000000); i++ {
		if i%256 == 0 {
			r.Step(fmt.Sprintf("D06 string %d", i))
		}
		s := gen.Elem(g)
		if g.Intn(4) == 0 {
			s = strconv.FormatInt(int64(g.Uint64())>>uint(24+g.Intn(40)), 10)
		}
		b := gen.RdbString(g, nil, s, f)
		deliver(b, tail(), str, "="+s, "string")
		if i < 2 {
			r.Sample(fmt.Sprintf("string %s as %x", kit.Q(s), b[:min(len(b), 40)]))
		}
		if i%20 == 0 {
			cut(b, func(br *bufio.Reader) error { _, err := rdb.LoadString(br); return err }, "string")
		}
	}
	for k, n := range []int{1<<24 - 1, 1 << 24, 1<<24 + 4097, 1 << 25, 1<<25 + 1<<24 + 3} {
		r.Step(fmt.Sprintf("D06 string of %d", n))
		s := strings.Repeat("0123456789abcdef", n/16) + strings.Repeat("x", n%16)
		deliver(append(gen.Len(g, nil, uint64(n), f), s...), tail(), str, "="+s, "long string")
		b := append(make([]byte, 0, n+9), 0x80+byte(k&1))
		if k&1 == 1 {
			b = append(b, 0, 0, 0, 0)
		}
		b = append(b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		deliver(append(b, s...), tail(), str, "="+s, "long string")
		c := gen.LZF(g, []byte(s))
		b = gen.Len(g, append([]byte(nil), 0xc3), uint64(len(c)), f)
		b = gen.Len(g, b, uint64(n), f)
		deliver(append(b, c...), tail(), str, "="+s, "long string")
	}
	for n := -128; n < 128; n++ {
		deliver([]byte{0xc0, byte(n)}, tail(), str, "="+strconv.Itoa(n), "string")
	}
	r.Step("D06 16 bit integers")
	for n := -32768; n < 32768; n++ {
		deliver([]byte{0xc1, byte(n), byte(n >> 8)}, tail(), str, "="+strconv.Itoa(n), "string")
	}
	for _, n := range borders() {
		if n >= math.MinInt32 && n <= math.MaxInt32 {
			deliver([]byte{0xc2, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, tail(), str, "="+strconv.FormatInt(n, 10), "string")
		}
	}
	for _, n := range []int{0, 1, 15, 16, 17, 4095, 4096, 4097, 16383, 16384, 65536, 1 << 20, 20 << 20} {
		r.Step(fmt.Sprintf("D06 string of %d", n))
		b := make([]byte, n)
		g.Read(b)
		for k := 0; k < 4; k++ {
			deliver(append(gen.Len(g, nil, uint64(n), f), b...), tail(), str, "="+string(b), "string")
		}
		c := gen.Compressible(g, n)
		deliver(gen.RdbString(g, nil, string(c), f), tail(), str, "="+string(c), "string")
	}
	for i := 0; i < r.N(60000, 1000000); i++ {
		if i%256 == 0 {
			r.Step(fmt.Sprintf("D06 score %d", i))
		}
		x := gen.Score(g)
		if g.Intn(3) == 0 {
			x = math.Float64frombits(g.Uint64())
			if math.IsNaN(x) {
				continue
			}
		}
		b := gen.Double(g, nil, x)
		deliver(b, tail(), dbl, fmt.Sprintf("%x %v", math.Float64bits(x), nil), "score")
		bb := gen.BinaryDouble(nil, x)
		deliver(bb, tail(), bin, fmt.Sprintf("%x %v", math.Float64bits(x), nil), "binary score")
		if i%50 == 0 {
			cut(b, func(br *bufio.Reader) error { _, err := rdb.LoadDouble(br); return err }, "score")
			cut(bb, func(br *bufio.Reader) error { _, err := rdb.LoadBinaryDouble(br); return err }, "binary score")
		}
	}
	forms(r, f)
	r.Finish()
}
