package cachechk

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/liujiangwei/xxcache/cache"

	"verif/harness/kit"
)

func TestCheck(t *testing.T) {
	stall := 40 * time.Second
	switch prop := envProp(); prop {
	case "C01":
		r := kit.Start("random command sequences on 2-4 keys, values biased to look-alikes of numbers, read back through a random read command after every write; non-trivial: the value is not a plain word (numeric look-alike, binary, empty or long); distinct by (write command, value)", stall)
		inBubble(t, r, func() { runValues(r); overwrites(r) })
		runSeqs(t, r, prop, r.N(5000, 60000))
	case "C02":
		r := kit.Start("(value, edit or slice) pairs with indexes from -2^63 to 2^63-1 plus random sequences; non-trivial: an index is out of range, negative or past the end, or the value looks numeric; distinct by (command, value, indexes)", stall)
		inBubble(t, r, func() { runEdits(r); bigEdits(r) })
		runSeqs(t, r, prop, r.N(4000, 60000))
	case "C03":
		r := kit.Start("(start value, increment, command) triples over 64-bit limits and near-numbers plus random sequences mixing increments and writes; non-trivial: not small+small; distinct by (command, value, increment)", stall)
		inBubble(t, r, func() { runCounters(r) })
		runSeqs(t, r, prop, r.N(4000, 60000))
	case "C04":
		r := kit.Start("random command sequences under virtual time with jumps to 1 ms before and after deadlines; non-trivial: a deadline was crossed or approached; distinct by the whole history", stall)
		runTTL(t, r)
		runSeqs(t, r, prop, r.N(6000, 80000))
	case "C05":
		r := kit.Start("random sequences with the sweeper running under virtual time, rewrites at the sweep instant, memory of unread expired values; non-trivial: at least one key expired and was swept; distinct by the whole history", stall)
		busySweep(r)
		bubble(t, r, func() { runSweeper(r) })
	case "C08":
		r := kit.Start("random hash command sequences on 2-4 keys with 2-4 fields; non-trivial: a field was overwritten, deleted or incremented; distinct by the whole history", stall)
		inBubble(t, r, func() { runBigHash(r) })
		runSeqs(t, r, prop, r.N(6000, 80000))
	case "C10":
		r := kit.Start("every command against every kind of value (with and without expiry), state compared after it, plus random mixed sequences; non-trivial: the command met the wrong kind; distinct by (command, kind, expiry)", stall)
		inBubble(t, r, func() { runWrongKind(r) })
		runSeqs(t, r, prop, r.N(6000, 80000))
	case "C12":
		r := kit.Start("every way to fill a cache against every way to remove or replace the data, with big values and with big keys, heap in use measured after full collections; and churns of tens of thousands of keys, fields, failed commands and misses; non-trivial: more than 1 MB was held, or a churn; distinct by (ways, size)", 60*time.Second)
		inBubble(t, r, func() { runMemory(r) })
		r.Finish()
	case "C06":
		r := kit.Start("recorded histories of 3-4 goroutines on 1-2 keys (with expiries of 1-4 ms and flushes) judged by a linearizability checker, plus stress with conservation laws, delays injected inside the map accesses; non-trivial: two commands on one key overlapped and one wrote; distinct by the order of call, return and result events", stall)
		runC06(r)
	case "C07":
		r := kit.Start("recorded histories of 3-4 goroutines with multi-key commands on 3 keys judged by a linearizability checker, token stress on MSet/MGet/MSetNX, plus sequential sequences against a reference; non-trivial: a multi-key command overlapped a write of one of its keys (or, sequentially, any); distinct by the order of events", stall)
		runC07(t, r)
	case "C09":
		r := kit.Start("recorded histories of 3-4 goroutines on 1-2 hashes with 3 fields judged by a linearizability checker, plus stress with conservation laws, delays injected inside the map accesses; non-trivial: two commands on one hash overlapped and one wrote; distinct by the order of call, return and result events", stall)
		runC09(r)
	default:
		t.Fatalf("unknown property %q", prop)
	}
}

// inBubble runs f under virtual time that starts afresh.
func inBubble(t *testing.T, r *kit.Run, f func()) {
	synctest.Test(t, func(t *testing.T) { r.Guard(f) })
}

// bubble runs f under virtual time and finishes the run inside it, because a sweeper never ends.
func bubble(t *testing.T, r *kit.Run, f func()) {
	r.Guard(func() {
		synctest.Test(t, func(t *testing.T) {
			r.Guard(func() {
				f()
				r.Finish()
			})
		})
	})
}

type weighted struct {
	w int
	f func()
}

func (s *seq) table(prop string) []weighted {
	g := s.g
	v := func() string { return kit.Value(g) }
	some := func(n int) (ks []string) {
		for i := 0; i < 1+g.Intn(n); i++ {
			ks = append(ks, s.key())
		}
		if g.Intn(20) == 0 {
			ks = append(ks, "nobody")
		}
		return
	}
	somef := func(n int) (fs []string) {
		for i := 0; i < 1+g.Intn(n); i++ {
			fs = append(fs, s.field())
		}
		if g.Intn(20) == 0 {
			fs = append(fs, "nofield")
		}
		return
	}
	kv := func(n int) map[string]string {
		m := map[string]string{}
		for _, k := range some(n) {
			m[k] = v()
		}
		return m
	}
	fv := func(n int) map[string]string {
		m := map[string]string{}
		for i := 0; i < g.Intn(n+1); i++ {
			m[s.field()] = v()
		}
		return m
	}
	ttl := func() (int64, bool) {
		switch g.Intn(10) {
		case 0:
			return math.MaxInt64 - int64(g.Intn(3)), g.Intn(2) == 0
		case 1:
			return math.MaxInt64/1000 + int64(g.Intn(5)) - 2, false
		case 2:
			return math.MaxInt64/int64(time.Second) + int64(g.Intn(5)) - 2, false
		case 3:
			return math.MaxInt64/int64(time.Millisecond) + int64(g.Intn(5)) - 2, true
		case 4:
			return int64(1 + g.Intn(100000)), false
		case 5:
			return int64(1) << uint(31+g.Intn(3)), g.Intn(2) == 0
		default:
			if g.Intn(2) == 0 {
				return int64(1 + g.Intn(5)), false
			}
			return int64(1 + g.Intn(4000)), true
		}
	}
	idx := func() int {
		switch g.Intn(5) {
		case 0:
			return int(kit.Int(g))
		default:
			return g.Intn(24) - 12
		}
	}
	by := func() int64 {
		if g.Intn(2) == 0 {
			return kit.Int(g)
		}
		return int64(g.Intn(21) - 10)
	}
	byf := func() float64 {
		switch g.Intn(25) {
		case 0:
			return math.Inf(1)
		case 1:
			return math.NaN()
		case 2:
			return math.MaxFloat64
		case 3:
			return math.Inf(-1)
		}
		return kit.Float(g)
	}
	w := map[string]int{"write": 4, "cond": 2, "edit": 3, "counter": 3, "hwrite": 3, "hcounter": 2, "hquery": 2, "query": 4, "multi": 3, "del": 1, "ttl": 2, "time": 1, "flush": 0}
	set := func(kv map[string]int) {
		for k, x := range kv {
			w[k] = x
		}
	}
	switch prop {
	case "C02":
		set(map[string]int{"edit": 14, "counter": 1, "hwrite": 0, "hcounter": 0, "hquery": 0})
	case "C03":
		set(map[string]int{"counter": 14, "hcounter": 8})
	case "C04", "C05":
		set(map[string]int{"ttl": 8, "time": 6, "hwrite": 1, "hquery": 1, "flush": 1, "del": 2})
	case "C08":
		set(map[string]int{"hwrite": 12, "hquery": 10, "hcounter": 4, "write": 1, "edit": 0, "counter": 0, "cond": 0, "multi": 1, "ttl": 1})
	case "C07":
		set(map[string]int{"multi": 14, "hwrite": 1, "hcounter": 0, "hquery": 0, "query": 8})
	case "C10":
		set(map[string]int{"flush": 1, "del": 2, "ttl": 4})
	}
	t := []weighted{
		{w["write"] * 3, func() { s.opSet(s.key(), v()) }},
		{w["write"], func() { s.opGetSet(s.key(), v()) }},
		{w["cond"], func() { s.opSetNX(s.key(), v()) }},
		{w["edit"], func() { s.opAppend(s.key(), v()) }},
		{w["edit"], func() {
			p := g.Intn(40)
			switch g.Intn(16) {
			case 0:
				p = g.Intn(100000)
			case 1:
				p = -1 - g.Intn(10)
			case 2:
				p = [...]int{math.MaxInt64, math.MinInt64, math.MaxInt64 - 3, maxLen, maxLen + 1, 1 << 40, maxLen * 8}[g.Intn(7)]
			}
			s.opSetRange(s.key(), p, v())
		}},
		{w["edit"] + 1, func() { s.opGetRange(s.key(), idx(), idx()) }},
		{w["counter"], func() { s.opIncr(s.key(), g.Intn(4), by()) }},
		{w["counter"], func() { s.opIncrByFloat(s.key(), byf()) }},
		{w["query"], func() { s.opGet(s.key()) }},
		{w["query"], func() { s.opStrLen(s.key()) }},
		{w["query"], func() { s.opMGet(some(5)) }},
		{w["query"], func() { s.opExists(some(5)) }},
		{w["query"], func() { s.checkKey(s.key()) }},
		{w["multi"], func() { s.opMSet(kv(4)) }},
		{w["multi"], func() { s.opMSetNX(kv(3)) }},
		{w["del"], func() { s.opDel(s.key()) }},
		{w["flush"], func() {
			if g.Intn(8) == 0 {
				s.opFlush()
			}
		}},
		{w["ttl"] * 2, func() { n, ms := ttl(); s.opSetEX(s.key(), v(), n, ms) }},
		{w["time"], func() { s.sleep(time.Duration(1+g.Intn(3000)) * time.Millisecond) }},
		{w["time"], func() {
			if g.Intn(10) == 0 && s.maxJump > 48*time.Hour {
				s.sleep(time.Duration(1+g.Intn(48)) * time.Hour)
			} else {
				s.toDeadline()
			}
		}},
		{w["hwrite"], func() { s.opHSet(s.key(), s.field(), v()) }},
		{w["hwrite"], func() { s.opHSetNX(s.key(), s.field(), v()) }},
		{w["hwrite"], func() { s.opHMSet(s.key(), fv(4)) }},
		{w["hwrite"], func() { s.opHDel(s.key(), somef(4)) }},
		{w["hcounter"], func() { s.opHIncrBy(s.key(), s.field(), int(by())) }},
		{w["hcounter"], func() { s.opHIncrByFloat(s.key(), s.field(), byf()) }},
		{w["hquery"], func() { s.opHGet(s.key(), s.field()) }},
		{w["hquery"], func() { s.opHExists(s.key(), s.field()) }},
		{w["hquery"], func() { s.opHLen(s.key()) }},
		{w["hquery"], func() { s.opHStrLen(s.key(), s.field()) }},
		{w["hquery"], func() { s.opHMGet(s.key(), somef(4)) }},
		{w["hquery"], func() { s.opHKeys(s.key()) }},
		{w["hquery"], func() { s.opHVals(s.key()) }},
		{w["hquery"], func() { s.opHGetAll(s.key()) }},
	}
	if prop == "C01" {
		// every write is followed by a read
		for i := range t[:4] {
			f := t[i].f
			t[i].f = func() { f(); s.checkKey(s.keys[0]) }
		}
	}
	return t
}

func (s *seq) run(prop string, n int) {
	t := s.table(prop)
	total := 0
	for _, x := range t {
		total += x.w
	}
	for i := 0; i < n; i++ {
		p := s.g.Intn(total)
		for _, x := range t {
			if p -= x.w; p < 0 {
				x.f()
				break
			}
		}
	}
}

func runSeqs(t *testing.T, r *kit.Run, prop string, n int) {
	g := r.Rng(1)
	for i := 0; i < n; i++ {
		inBubble(t, r, func() {
			s := newSeq(r, g)
			if i%64 == 0 {
				r.Step(fmt.Sprintf("%s random sequence %d", prop, i))
			}
			s.run(prop, 20+g.Intn(60))
			s.checkAll()
			r.Count("commands", int64(len(s.log)))
			h := strings.Join(s.log, "\n")
			nontrivial := true
			if prop == "C04" || prop == "C05" {
				nontrivial = s.sawHit
			}
			r.Case(h, nontrivial)
			if i < 3 {
				l := s.log
				if len(l) > 8 {
					l = l[:8]
				}
				r.Sample("sequence: " + strings.Join(l, "; "))
			}
		})
	}
	r.Count("sequences", int64(n))
	if prop != "C07" {
		r.Finish()
	}
}

// ---- C01: every write command with every value, read by every read command

func runValues(r *kit.Run) {
	g := r.Rng(2)
	values := append([]string{}, kit.Tricky...)
	for len(values) < r.N(2500, 60000) {
		values = append(values, kit.Value(g))
	}
	for n := 1; n <= 1<<20; n *= 4 { // sizes around powers of two
		b := make([]byte, n)
		g.Read(b)
		values = append(values, string(b), string(b[:n-1]), strings.Repeat("9", n))
	}
	for _, n := range []int{1<<20 + 1, 1<<21 + 7, 1<<22 - 1, 10<<20 + 1, r.N(1<<24+1, 130<<20)} {
		b := make([]byte, n)
		g.Read(b)
		values = append(values, string(b))
	}
	for i, v := range values {
		s := newSeq(r, g)
		k := s.keys[0]
		if i%16 == 0 {
			r.Step("C01 value " + kit.Q(v))
		}
		half := len(v) / 2
		writes := []struct {
			name string
			f    func()
		}{
			{"Set", func() { s.opSet(k, v) }},
			{"SetNX", func() { s.opDel(k); s.opSetNX(k, v) }},
			{"SetNX on existing", func() { s.opSet(k, v); s.opSetNX(k, "other") }},
			{"SetEX", func() { s.opSetEX(k, v, 100, false) }},
			{"PSetEX", func() { s.opSetEX(k, v, 100000, true) }},
			{"GetSet", func() { s.opGetSet(k, v) }},
			{"MSet", func() { s.opMSet(map[string]string{k: v, "z": v}) }},
			{"MSetNX", func() { s.opDel(k); s.opDel("z"); s.opMSetNX(map[string]string{k: v, "z": v}) }},
			{"MSetNX on existing", func() { s.opSet(k, v); s.opDel("z"); s.opMSetNX(map[string]string{k: "o", "z": "o"}) }},
			{"Append to new", func() {
				s.opDel(k)
				if v != "" {
					s.opAppend(k, v)
				}
			}},
			{"Append in two", func() { s.opSet(k, v[:half]); s.opAppend(k, v[half:]) }},
			{"SetRange", func() {
				s.opSet(k, strings.Repeat("#", len(v)))
				if v != "" {
					s.opSetRange(k, 0, v)
				}
			}},
			{"SetRange to new", func() {
				s.opDel(k)
				if v != "" {
					s.opSetRange(k, 0, v)
				}
			}},
		}
		for _, w := range writes {
			w.f()
			s.checkKey(k)
			s.opGetRange(k, 0, len(v)-1)
			r.Case(w.name+"\x00"+v, !isWord(v))
		}
		s.opGetSet(k, "next")
		s.opDel(k)
		f := s.fields[0]
		hw := []struct {
			name string
			f    func()
		}{
			{"HSet", func() { s.opHSet(k, f, v) }},
			{"HSet again", func() { s.opHSet(k, f, v) }},
			{"HSetNX", func() { s.opDel(k); s.opHSetNX(k, f, v) }},
			{"HSetNX on existing", func() { s.opHSetNX(k, f, "other") }},
			{"HMSet", func() { s.opHMSet(k, map[string]string{f: v, "g": v}) }},
		}
		for _, w := range hw {
			w.f()
			s.opHGet(k, f)
			s.opHStrLen(k, f)
			s.opHMGet(k, []string{f, "g"})
			s.opHVals(k)
			s.opHGetAll(k)
			r.Case(w.name+"\x00"+v, !isWord(v))
		}
		// as a key and as a field name
		s.opSet(v, "as key")
		s.checkKey(v)
		s.opDel(v)
		s.opHSet("hh", v, "as field")
		s.opHGet("hh", v)
		s.opHKeys("hh")
		if i%800 == 3 {
			r.Sample("value " + kit.Q(v) + " through 18 write commands")
		}
	}
	r.Count("values", int64(len(values)))
}

func isWord(v string) bool {
	for _, w := range kit.Words {
		if v == w {
			return true
		}
	}
	return false
}

// ---- C02

func runEdits(r *kit.Run) {
	g := r.Rng(3)
	values := []string{"", "a", "test", "1234567890", "1.5", "-7", "007", "1e5", strings.Repeat("xy", 3000), "\x00\x00", "100"}
	for i := 0; i < r.N(60, 600); i++ {
		values = append(values, kit.Value(g))
	}
	// the last offset that is allowed, and the first that is not
	for _, old := range []string{"", "1234"} {
		s := newSeq(r, g)
		k := s.keys[0]
		for _, by := range []int{1, 0} {
			if old != "" {
				s.opSet(k, old)
			}
			r.Step("C02 at the limit")
			pos := maxLen - 4 + by
			n, err := s.c.SetRange(k, pos, "abcd")
			s.note("SetRange(%s, %d, abcd) = %d, %v", kit.Q(k), pos, n, err)
			if by == 1 {
				if err == nil {
					s.bad("a value longer than the 512 MB limit was accepted: %d", n)
				}
				s.checkKey(k)
				continue
			}
			if n != maxLen || err != nil {
				s.bad("SetRange that ends exactly at the 512 MB limit = %d, %v", n, err)
			}
			if n, err := s.c.StrLen(k); n != maxLen || err != nil {
				s.bad("StrLen of a 512 MB value = %d, %v", n, err)
			}
			if v, err := s.c.GetRange(k, -6, -1); v != "\x00\x00abcd" || err != nil {
				s.bad("the end of a 512 MB value is %q, %v", v, err)
			}
			if v, err := s.c.GetRange(k, 0, 5); v != (old + "\x00\x00\x00\x00\x00\x00")[:6] || err != nil {
				s.bad("the start of a 512 MB value is %q, %v", v, err)
			}
			r.Case("limit"+old, true)
		}
		s.c.Flush()
		debug.FreeOSMemory()
	}
	for vi, v := range values {
		s := newSeq(r, g)
		k := s.keys[0]
		r.Step("C02 value " + kit.Q(v))
		n := len(v)
		var idx []int
		for d := -2; d <= 2; d++ {
			idx = append(idx, d, n+d, -n+d)
		}
		idx = append(idx, math.MinInt64, math.MinInt64+1, math.MinInt64+n, math.MaxInt64, math.MaxInt64-1, math.MaxInt64-n, 1<<31, -1<<31, 1<<32, -1<<32, 1<<31-1, n/2, -n/2, n/3)
		for _, absent := range []bool{false, true} {
			s.opDel(k)
			if !absent {
				s.opSet(k, v)
			}
			for _, a := range idx {
				for _, b := range idx {
					s.opGetRange(k, a, b)
					r.Case(fmt.Sprintf("GetRange %s %d %d %v", v, a, b, absent), a < 0 || b < 0 || a >= n || b >= n)
				}
				s.log = s.log[:0]
			}
			s.checkKey(k)
		}
		reps := []string{"x", "1", v + "q", "\x00", "12"}
		for _, rep := range reps {
			for _, pos := range append(idx, 4095, 4096, 70000) {
				if pos > 100000 && pos <= maxLen-len(rep) {
					continue
				}
				if s.g.Intn(8) == 0 {
					s.opDel(k)
				} else {
					s.opSet(k, v)
				}
				s.opSetRange(k, pos, rep)
				s.opStrLen(k)
				s.opGet(k)
				r.Case(fmt.Sprintf("SetRange %s %d %s", v, pos, rep), pos < 0 || pos+len(rep) > n)
			}
			s.log = s.log[:0]
		}
		for _, pos := range []int{maxLen, maxLen + 1, maxLen - 1, maxLen - 3, 1 << 40, 1 << 62} {
			s.opSet(k, v)
			s.opSetRange(k, pos, "abcd")
			s.opGet(k)
		}
		// numbers grown digit by digit, zero filled, cut
		s.opSet(k, v)
		for j := 0; j < 8; j++ {
			s.opAppend(k, [...]string{"0", "5", ".", "e", "-", "\x00", " ", "00"}[g.Intn(8)])
			s.opStrLen(k)
			s.opGet(k)
		}
		// an expired key counts as empty
		for _, f := range []func(){
			func() { s.opAppend(k, "new") }, func() { s.opSetRange(k, 3, "new") }, func() { s.opStrLen(k) }, func() { s.opGetRange(k, 0, -1) },
		} {
			s.opSetEX(k, v, 1500, true)
			s.sleep(1501 * time.Millisecond)
			f()
			s.checkKey(k)
			s.opDel(k)
		}
		if vi < 3 {
			r.Sample(fmt.Sprintf("value %s with indexes %v", kit.Q(v), idx))
		}
	}
}

// ---- C03

func runCounters(r *kit.Run) {
	g := r.Rng(4)
	starts := append([]string{"<missing>"}, kit.Tricky...)
	for i := 0; i < r.N(150, 3000); i++ {
		starts = append(starts, strconv.FormatInt(kit.Int(g), 10), kit.Value(g), strconv.FormatFloat(kit.Float(g), 'f', -1, 64))
	}
	incs := []int64{0, 1, -1, 2, 100, -100, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1 << 31, 1 << 32, -1 << 31, 1 << 53}
	fincs := []float64{0, 1, -1, 0.1, 0.2, -0.3, 1.5, 1e10, 1e15, 1e16, 1e20, -1e20, 1e300, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 5e-324, 0.5, 3, math.Copysign(0, -1)}
	for si, st := range starts {
		s := newSeq(r, g)
		k, f := s.keys[0], s.fields[0]
		r.Step("C03 start " + kit.Q(st))
		ttl := g.Intn(3) == 0
		reset := func() {
			s.log = s.log[:0]
			s.opDel(k)
			switch {
			case st == "<missing>":
			case ttl:
				s.opSetEX(k, st, 1000, false)
			default:
				s.opSet(k, st)
			}
		}
		all := append([]int64{kit.Int(g), kit.Int(g)}, incs...)
		if n, ok := isInt(st); ok { // exactly up to the limits
			all = append(all, math.MaxInt64-n, -n)
			if n > 0 {
				all = append(all, math.MaxInt64-n+1)
			} else if n < 0 {
				all = append(all, math.MinInt64-n, math.MinInt64-n-1)
			}
		}
		for _, by := range all {
			for form := 0; form < 4; form++ {
				if form%2 == 0 && by != 1 {
					continue
				}
				reset()
				s.opIncr(k, form, by)
				s.checkKey(k)
				r.Case(fmt.Sprintf("%d %s %d", form, st, by), true)
			}
			s.log = s.log[:0]
			s.opDel("h")
			if st != "<missing>" {
				s.opHSet("h", f, st)
			}
			s.opHIncrBy("h", f, int(by))
			s.opHGet("h", f)
			s.opHLen("h")
			r.Case(fmt.Sprintf("H %s %d", st, by), true)
		}
		for _, by := range append(fincs, kit.Float(g), kit.Float(g)) {
			reset()
			s.opIncrByFloat(k, by)
			s.checkKey(k)
			s.opIncr(k, 1, 5) // integer again if it is one
			s.opIncrByFloat(k, 0.5)
			s.checkKey(k)
			r.Case(fmt.Sprintf("F %s %v", st, by), true)
			s.log = s.log[:0]
			s.opDel("h")
			if st != "<missing>" {
				s.opHSet("h", f, st)
			}
			s.opHIncrByFloat("h", f, by)
			s.opHGet("h", f)
			s.opHIncrBy("h", f, 3)
			s.opHIncrByFloat("h", f, 0.25)
			s.opHGetAll("h")
			s.opHLen("h")
		}
		if si < 3 {
			r.Sample("start " + kit.Q(st) + " with every increment of " + fmt.Sprint(all))
		}
	}
}

// ---- C04

func runTTL(t *testing.T, r *kit.Run) {
	g := r.Rng(5)
	ttls := []struct {
		n  int64
		ms bool
	}{}
	for _, n := range []int64{1, 2, 59, 60, 3600, 86400, 1 << 31, 1<<31 - 1, 1 << 32, 1<<32 + 5, 4611686018, 4611686019, 7e9, 9223372036, 9223372037, 18446744073, 18446744074, 1e11, 1e12, math.MaxInt64 / 1000, math.MaxInt64/1000 + 1, math.MaxInt64 - 1, math.MaxInt64} {
		ttls = append(ttls, struct {
			n  int64
			ms bool
		}{n, false}, struct {
			n  int64
			ms bool
		}{n, true})
	}
	for i := 0; i < r.N(20, 300); i++ {
		ttls = append(ttls, struct {
			n  int64
			ms bool
		}{1 + g.Int63n(int64(1)<<uint(1+g.Intn(62))), g.Intn(2) == 0})
	}
	for _, tt := range ttls {
		// every way a key can be touched, before and after the deadline
		touches := []struct {
			name string
			f    func(s *seq, k string)
		}{
			{"nothing", func(s *seq, k string) {}},
			{"Set", func(s *seq, k string) { s.opSet(k, "2") }},
			{"SetNX", func(s *seq, k string) { s.opSetNX(k, "2") }},
			{"GetSet", func(s *seq, k string) { s.opGetSet(k, "2") }},
			{"MSet", func(s *seq, k string) { s.opMSet(map[string]string{k: "2", "o": "1"}) }},
			{"MSetNX", func(s *seq, k string) { s.opMSetNX(map[string]string{k: "2"}) }},
			{"SetEX", func(s *seq, k string) { s.opSetEX(k, "2", 7, false) }},
			{"Append", func(s *seq, k string) { s.opAppend(k, "2") }},
			{"SetRange", func(s *seq, k string) { s.opSetRange(k, 1, "2") }},
			{"Incr", func(s *seq, k string) { s.opIncr(k, 0, 1) }},
			{"IncrBy", func(s *seq, k string) { s.opIncr(k, 1, 10) }},
			{"Decr", func(s *seq, k string) { s.opIncr(k, 2, 1) }},
			{"DecrBy", func(s *seq, k string) { s.opIncr(k, 3, 10) }},
			{"IncrByFloat", func(s *seq, k string) { s.opIncrByFloat(k, 1.5) }},
			{"Del", func(s *seq, k string) { s.opDel(k) }},
			{"Del+Set", func(s *seq, k string) { s.opDel(k); s.opSet(k, "3") }},
			{"Del+HSet", func(s *seq, k string) { s.opDel(k); s.opHSet(k, "f", "3") }},
			{"HSet", func(s *seq, k string) { s.opHSet(k, "f", "2") }},
			{"HSetNX", func(s *seq, k string) { s.opHSetNX(k, "f", "2") }},
			{"HMSet", func(s *seq, k string) { s.opHMSet(k, map[string]string{"f": "2"}) }},
			{"HIncrBy", func(s *seq, k string) { s.opHIncrBy(k, "f", 2) }},
			{"HIncrByFloat", func(s *seq, k string) { s.opHIncrByFloat(k, "f", 2) }},
			{"HDel", func(s *seq, k string) { s.opHDel(k, []string{"f"}) }},
			{"HGetAll", func(s *seq, k string) { s.opHGetAll(k) }},
			{"Exists", func(s *seq, k string) { s.opExists([]string{k, k}) }},
			{"MGet", func(s *seq, k string) { s.opMGet([]string{k, k}) }},
			{"Get", func(s *seq, k string) { s.opGet(k) }},
			{"StrLen", func(s *seq, k string) { s.opStrLen(k) }},
			{"GetRange", func(s *seq, k string) { s.opGetRange(k, 0, -1) }},
			{"Flush+Set", func(s *seq, k string) { s.opFlush(); s.opSet(k, "3") }},
		}
		for _, to := range touches {
			for when := 0; when < 3; when++ { // touched early, just before, just after the deadline
				inBubble(t, r, func() {
					s := newSeq(r, g)
					k := s.keys[0]
					r.Step(fmt.Sprintf("C04 ttl %d ms=%v touch %s when %d", tt.n, tt.ms, to.name, when))
					s.opSetEX(k, "10", tt.n, tt.ms)
					dl := s.m.m[k].dl
					left := time.Until(dl)
					if left > 250*365*24*time.Hour { // farther away than virtual time goes: only some years of it
						left = 0
					}
					switch {
					case when == 0 || left == 0:
						s.checkKey(k)
					case when == 1:
						s.sleep(left - 100*time.Microsecond)
					case when == 2:
						s.sleep(left + 100*time.Microsecond)
					}
					to.f(s, k)
					if when != 2 || g.Intn(2) == 0 {
						s.checkKey(k)
					}
					if left > 0 { // past the old deadline in any case
						if d := time.Until(dl) + time.Millisecond; d > 0 {
							s.sleep(d)
						}
					} else {
						s.sleep(time.Duration(g.Intn(24*30)) * time.Hour)
					}
					s.checkKey(k)
					s.sleep(8 * time.Second)
					s.checkKey(k)
					r.Case(fmt.Sprint(tt, to.name, when), true)
					r.Count("deadline_cases", 1)
				})
			}
		}
	}
	r.Sample(fmt.Sprintf("time to live values %v, each with 30 touches at 3 moments", ttls[:8]))
	// a flush forgets every deadline, whatever keys there were
	inBubble(t, r, func() {
		for round := 0; round < r.N(12, 100); round++ {
			s := newSeq(r, g)
			keys := []string{"", "\x00", "0", " ", "key", strings.Repeat("k", 3000)}
			for i := 0; i < 30; i++ {
				keys = append(keys, fmt.Sprint("k", g.Intn(1000)))
			}
			r.Step(fmt.Sprintf("C04 flush round %d", round))
			for i, k := range keys {
				s.opSetEX(k, "old", int64(2+i%7), false)
			}
			if round%3 == 1 {
				s.sleep(4 * time.Second)
			}
			s.opFlush()
			for i, k := range keys {
				switch (i + round) % 6 {
				case 0:
					s.opSetNX(k, "1")
				case 1:
					s.opAppend(k, "1")
				case 2:
					s.opHSet(k, "f", "1")
				case 3:
					s.opIncr(k, 0, 1)
				case 4:
					s.opSetRange(k, 0, "1")
				default:
					s.opMSetNX(map[string]string{k: "1"})
				}
			}
			for i := 0; i < 6; i++ {
				s.sleep(1800 * time.Millisecond)
				s.checkAll()
			}
			for _, k := range keys {
				s.checkKey(k)
			}
			r.Case(fmt.Sprint("flush", round), true)
		}
	})
	// a key without expiry stays
	inBubble(t, r, func() {
		s := newSeq(r, g)
		s.opSet("stay", "1")
		s.opHSet("hstay", "f", "1")
		s.sleep(5 * 365 * 24 * time.Hour)
		s.checkKey("stay")
		s.checkKey("hstay")
	})
}

// ---- C05

func heap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

const sweepSlack = 60 * time.Second // well over one period of the sweeper

func runSweeper(r *kit.Run) {
	g := r.Rng(6)
	// memory of values, keys and deadlines nobody reads any more
	for round := 0; round < r.N(9, 40); round++ {
		c := cache.New()
		c.Cron()
		live := 0
		if round%2 == 1 || round%3 == 2 { // among keys that live on
			live = []int{1, 20, 60000, 700}[round/2%4]
		}
		for i := 0; i < live; i++ {
			_, _ = c.SetEX(fmt.Sprintf("live%d", i), strconv.Itoa(i), int64(100000+g.Intn(100000)))
		}
		base := heap()
		const n, size = 300, 200 << 10
		for i := 0; i < n; i++ {
			v := strings.Repeat(string(rune('a'+i%26)), size)
			k := fmt.Sprintf("key%d", i)
			switch {
			case round%3 == 1: // big keys
				k, v = v+k, "v"
			case round%3 == 2: // overwritten, edited
				_, _ = c.PSetEX(k, "x", 1000)
				_, _ = c.Append(k, v)
				_, _ = c.SetRange(k, 3, "yy")
			}
			if round%3 != 2 {
				_, _ = c.PSetEX(k, v, int64(1+i*10))
			}
		}
		_, _ = c.Set("stay", "1")
		full := heap() - base
		r.Step(fmt.Sprintf("C05 memory round %d", round))
		time.Sleep(4*time.Second + sweepSlack)
		left := heap() - base
		r.Count("swept_bytes", full-left)
		if full < n*size/2 {
			r.Violation("the values were not stored", fmt.Sprintf("%d bytes in use after storing %d", full, n*size))
		}
		if left > full/10 {
			r.Violation("the memory of expired keys is not released by the sweeper", fmt.Sprintf("%d of %d bytes still in use %v after the last key expired (round %d)", left, full, sweepSlack, round))
		}
		if v, err := c.Get("stay"); err != nil || v != "1" {
			r.Violation("the sweeper removed a key without expiry", fmt.Sprint(v, err))
		}
		for i := 0; i < live; i++ {
			if v, err := c.Get(fmt.Sprintf("live%d", i)); err != nil || v != strconv.Itoa(i) {
				r.Violation("the sweeper removed a key whose expiry lies in the future", fmt.Sprint(i, v, err))
			}
		}
		r.Case(fmt.Sprint("memory", round), true)
		c.Flush()
		runtime.KeepAlive(c)
	}
	sweepKinds(r)
	sweepEarly(r)
	bigSweep(r)
	sweepFlushed(r)
	// one cache, the reference beside it, sweeps in between
	c := cache.New()
	c.Cron()
	for i := 0; i < r.N(2500, 40000); i++ {
		s := newSeq(r, g)
		s.c = c
		s.c.Flush()
		s.maxJump = 2 * time.Minute // the sweeper runs all the while
		if i%16 == 0 {
			r.Step(fmt.Sprintf("C05 sequence %d", i))
		}
		s.run("C05", 15+g.Intn(25))
		for j := 0; j < 3; j++ {
			switch g.Intn(3) {
			case 0:
				s.sleep(time.Duration(1+g.Intn(5000)) * time.Millisecond)
			case 1:
				s.toDeadline()
			default:
				s.sleep(time.Duration(2+g.Intn(30)) * time.Second)
			}
			synctest.Wait() // a sweep that is due has run
			s.run("C05", 4)
		}
		s.sleep(10 * time.Second)
		synctest.Wait()
		s.checkAll()
		r.Case(strings.Join(s.log, "\n"), s.sawHit)
		r.Count("commands", int64(len(s.log)))
		if i < 2 {
			r.Sample("sequence: " + strings.Join(s.log, "; "))
		}
	}
	c.Flush()
	// a key rewritten in every way after its expiry and after the sweep lives on
	re := []struct {
		name string
		f    func(s *seq, k string)
	}{
		{"Set", func(s *seq, k string) { s.opSet(k, "2") }},
		{"SetNX", func(s *seq, k string) { s.opSetNX(k, "2") }},
		{"GetSet", func(s *seq, k string) { s.opGetSet(k, "2") }},
		{"MSet", func(s *seq, k string) { s.opMSet(map[string]string{k: "2"}) }},
		{"MSetNX", func(s *seq, k string) { s.opMSetNX(map[string]string{k: "2"}) }},
		{"Append", func(s *seq, k string) { s.opAppend(k, "2") }},
		{"SetRange", func(s *seq, k string) { s.opSetRange(k, 1, "2") }},
		{"Incr", func(s *seq, k string) { s.opIncr(k, 0, 1) }},
		{"DecrBy", func(s *seq, k string) { s.opIncr(k, 3, 10) }},
		{"IncrByFloat", func(s *seq, k string) { s.opIncrByFloat(k, 1.5) }},
		{"HSet", func(s *seq, k string) { s.opHSet(k, "f", "2") }},
		{"HSetNX", func(s *seq, k string) { s.opHSetNX(k, "f", "2") }},
		{"HMSet", func(s *seq, k string) { s.opHMSet(k, map[string]string{"f": "2"}) }},
		{"HIncrBy", func(s *seq, k string) { s.opHIncrBy(k, "f", 2) }},
		{"HIncrByFloat", func(s *seq, k string) { s.opHIncrByFloat(k, "f", 2) }},
		{"SetEX", func(s *seq, k string) { s.opSetEX(k, "3", 500, false) }},
	}
	for _, x := range re {
		for _, wait := range []time.Duration{500 * time.Millisecond, 1100 * time.Millisecond, 2100 * time.Millisecond, 5 * time.Second} {
			s := newSeq(r, g)
			s.c = c
			c.Flush()
			k := s.keys[0]
			r.Step("C05 rewrite by " + x.name)
			s.opSetEX(k, "10", 1000, true)
			s.sleep(wait + time.Duration(g.Intn(900))*time.Microsecond)
			synctest.Wait()
			x.f(s, k)
			for j := 0; j < 4; j++ {
				s.sleep(3 * time.Second)
				synctest.Wait()
			}
			s.checkKey(k)
			r.Case("rewrite "+x.name+wait.String(), wait > time.Second)
		}
	}
	c.Flush()
	runtime.GC()
	sweepRace(r)
}

// sweepKinds: expired values of every kind and size are gone after the sweep, and stay gone
func sweepKinds(r *kit.Run) {
	g := r.Rng(67)
	big := strings.Repeat("v", 1<<20)
	vals := []string{"", "v", "1", "-5", "0.5", "1e5", "9223372036854775807", "9223372036854775808", "007", strings.Repeat("9", 400), big[:1<<16], big, big + "1", strings.Repeat(big, 5)}
	for round := 0; round < r.N(4, 40); round++ {
		s := newSeq(r, g)
		s.c.Cron()
		r.Step(fmt.Sprintf("C05 kinds round %d", round))
		var keys []string
		for i, v := range vals {
			for j, k := range []string{fmt.Sprint("k", i), fmt.Sprint("e", i), fmt.Sprint("s", i), fmt.Sprint(big[:[]int{1, 1000, 70000}[i%3]], i)} {
				keys = append(keys, k)
				switch ms := int64(1 + g.Intn(5000)); j {
				case 1: // edited after
					s.opSetEX(k, v, ms, true)
					s.opAppend(k, "x")
					s.opSetRange(k, len(v)/2, "y")
				case 2: // counted
					s.opSetEX(k, "5", ms, true)
					if i%2 == 0 {
						s.opIncrByFloat(k, 0.5)
					} else {
						s.opIncr(k, 1, 3)
					}
				default:
					s.opSetEX(k, v, ms, true)
				}
			}
		}
		for j := 0; j < 9; j++ {
			s.sleep(time.Duration(900+g.Intn(300)) * time.Millisecond)
			synctest.Wait()
			k := keys[g.Intn(len(keys))]
			s.checkKey(k)
		}
		s.sleep(sweepSlack)
		synctest.Wait()
		for i, k := range keys {
			switch i % 5 { // each is absent to whoever comes first
			case 0:
				s.opExists([]string{k})
			case 1:
				s.opMGet([]string{k})
			case 2:
				s.opSetNX(k, "new")
			case 3:
				s.opAppend(k, "new")
			default:
				s.opHSet(k, "f", "new")
			}
			s.checkKey(k)
		}
		r.Count("swept_values_of_every_kind", int64(len(keys)))
		r.Case(fmt.Sprint("kinds", round), true)
		s.c.Flush()
	}
}

// the deadlines of keys that were flushed or removed are forgotten: what is written under their names lives on, and
// what expires later is still swept
func sweepFlushed(r *kit.Run) {
	g := r.Rng(66)
	for round := 0; round < r.N(8, 60); round++ {
		c := cache.New()
		if round%4 == 3 {
			_, _ = c.SetEX("early", "1", 1)
		}
		c.Cron()
		if round%2 == 0 {
			synctest.Wait() // the sweeper has started
		}
		r.Step(fmt.Sprintf("C05 flushed round %d", round))
		const n = 3000
		for gen := 0; gen < 3; gen++ {
			for i := 0; i < n; i++ {
				_, _ = c.PSetEX(fmt.Sprint("k", i), "old", int64(100+g.Intn(6000)))
			}
			time.Sleep(time.Duration(g.Intn(90)) * time.Millisecond)
			if g.Intn(4) == 0 {
				for i := 0; i < n; i++ {
					c.Del(fmt.Sprint("k", i))
				}
			} else {
				c.Flush()
			}
			for i := 0; i < n; i++ {
				k := fmt.Sprint("k", i)
				switch i % 4 {
				case 0:
					_, _ = c.Set(k, "new")
				case 1:
					_, _ = c.SetEX(k, "new", 3600)
				case 2:
					_, _ = c.HSet(k, "f", "new")
				}
			}
			for t := 0; t < 5; t++ {
				time.Sleep(1700 * time.Millisecond)
				synctest.Wait()
			}
			for i := 0; i < n; i++ {
				k := fmt.Sprint("k", i)
				v, err := "", error(nil)
				switch i % 4 {
				case 0, 1:
					v, err = c.Get(k)
				case 2:
					v, err = c.HGet(k, "f")
				default:
					if c.Exists(k) != 0 {
						r.Violation("a flushed key is back", k)
					}
					continue
				}
				if err != nil || v != "new" {
					r.Violation("the sweeper removed a key whose expiry lies in the future or that has none", fmt.Sprintf("%s, written after a flush, gave %q, %v (round %d, %d)", k, v, err, round, i%4))
				}
				r.Count("read_after_flush", 1)
			}
			r.Beat()
			c.Flush()
		}
		r.Case(fmt.Sprint("flushed", round), true)
		// memory of what expires after a flush
		base := heap()
		for i := 0; i < 60; i++ {
			_, _ = c.PSetEX(fmt.Sprint("big", i), strings.Repeat("v", 200<<10), int64(1+i))
		}
		full := heap() - base
		time.Sleep(4*time.Second + sweepSlack)
		if left := heap() - base; full > 6<<20 && left > full/4 {
			r.Violation("the memory of expired keys is not released by the sweeper", fmt.Sprintf("%d of %d bytes still in use after a flush and expiry (round %d)", left, full, round))
		}
		c.Flush()
		runtime.KeepAlive(c)
	}
}

// deadlines all around every instant at which a sweep may happen: no key goes before its own
func sweepEarly(r *kit.Run) {
	for round := 0; round < r.N(2, 8); round++ {
		c := cache.New()
		time.Sleep(time.Duration(round*round*137) * time.Microsecond)
		t0 := time.Now()
		c.Cron()
		synctest.Wait()
		type dl struct {
			k  string
			at time.Time
		}
		var all []dl
		const span = 6500
		for _, off := range []time.Duration{0, 1, 500, 100 * time.Microsecond, 999999} {
			time.Sleep(time.Until(t0.Add(off)))
			for ms := 1; ms <= span; ms++ {
				k := fmt.Sprintf("%d.%d", off, ms)
				_, _ = c.PSetEX(k, "v", int64(ms))
				all = append(all, dl{k, time.Now().Add(time.Duration(ms) * time.Millisecond)})
			}
		}
		sort.Slice(all, func(i, j int) bool { return all[i].at.Before(all[j].at) })
		r.Step(fmt.Sprintf("C05 deadlines around the sweeps, round %d", round))
		for i, d := range all {
			if w := time.Until(d.at) - 1; w > 0 {
				time.Sleep(w)
			}
			synctest.Wait()
			if !time.Now().Before(d.at) {
				continue
			}
			if v, err := c.Get(d.k); err != nil || v != "v" {
				r.Violation("the sweeper removed a key whose expiry lies in the future", fmt.Sprintf("%v before its deadline, %v after the sweeper was started: %q, %v", time.Until(d.at), time.Since(t0), v, err))
			}
			r.Count("read_before_deadline", 1)
			if i%500 == 0 {
				r.Beat()
			}
		}
		r.Case(fmt.Sprint("early", round), true)
		c.Flush()
	}
}

// many keys expire, the sweep is due, and at that very instant they are rewritten
func sweepRace(r *kit.Run) {
	g := r.Rng(7)
	for round := 0; round < r.N(6, 40); round++ {
		c := cache.New()
		t0 := time.Now()
		c.Cron()
		synctest.Wait()
		const n = 20000
		for i := 0; i < n; i++ {
			_, _ = c.PSetEX("k"+strconv.Itoa(i), "old", 1500)
		}
		r.Step(fmt.Sprintf("C05 sweep race round %d", round))
		time.Sleep(2*time.Second - time.Since(t0)) // the first sweep: it runs beside the writes
		done := make(chan bool)
		const writers = 4
		kind := make([]int, writers)
		for w := 0; w < writers; w++ {
			kind[w] = g.Intn(5)
			go func(w int) {
				for i := w; i < n; i += writers {
					k := "k" + strconv.Itoa(i)
					switch kind[w] {
					case 0:
						_, _ = c.Set(k, "1")
					case 1:
						_, _ = c.PSetEX(k, "1", 3600000)
					case 2:
						_, _ = c.Incr(k)
					case 3:
						_, _ = c.Append(k, "1")
					default:
						_, _ = c.SetNX(k, "1")
					}
				}
				done <- true
			}(w)
		}
		for w := 0; w < writers; w++ {
			<-done
		}
		time.Sleep(5 * time.Second)
		synctest.Wait()
		for i := 0; i < n; i++ {
			if v, err := c.Get("k" + strconv.Itoa(i)); err != nil || v != "1" {
				r.Violation("a key rewritten while the sweeper ran is lost", fmt.Sprintf("k%d = %s, %v (round %d, writer kind %d)", i, v, err, round, kind[i%writers]))
			}
			r.Beat()
		}
		r.Count("rewritten_during_sweep", n)
		r.Case(fmt.Sprint("sweep race", round, kind), true)
		c.Flush()
	}
}

// ---- C08

func runBigHash(r *kit.Run) {
	g := r.Rng(8)
	for _, n := range []int{1, 2, 10, 100, 1000, 5000, 70000} {
		s := newSeq(r, g)
		r.Step(fmt.Sprintf("C08 hash of %d fields", n))
		fv := map[string]string{}
		for i := 0; i < n; i++ {
			fv[fmt.Sprintf("f%d", i)] = kit.Value(g)
		}
		s.opHMSet("big", fv)
		s.opHLen("big")
		s.opHGetAll("big")
		s.opHKeys("big")
		s.opHVals("big")
		for i := 0; i < n; i += 3 + n/5000 {
			s.log = s.log[:0]
			s.opHDel("big", []string{fmt.Sprintf("f%d", i), "nope", fmt.Sprintf("f%d", i)})
		}
		s.opHLen("big")
		s.opHGetAll("big")
		var fs []string
		for i := 0; i < n+2; i++ {
			fs = append(fs, fmt.Sprintf("f%d", i))
		}
		s.log = s.log[:0]
		s.opHMGet("big", append([]string{}, fs...))
		s.opHDel("big", fs)
		s.checkKey("big")
		s.opHSet("big", "again", "1")
		s.checkKey("big")
		s.opDel("big")
		s.opSet("big", "now a string")
		s.checkKey("big")
		r.Case(fmt.Sprint("big", n), true)
	}
	// every query on a missing key
	s := newSeq(r, g)
	for i := 0; i < 40; i++ {
		k := kit.Value(g)
		s.opHGet(k, "f")
		s.opHExists(k, "f")
		s.opHLen(k)
		s.opHStrLen(k, "f")
		s.opHMGet(k, []string{"f", "g"})
		s.opHKeys(k)
		s.opHVals(k)
		s.opHGetAll(k)
		s.opHDel(k, []string{"f"})
		s.opHMSet(k, nil)
		s.checkKey(k)
	}
}

// ---- C10

func runWrongKind(r *kit.Run) {
	g := r.Rng(9)
	kinds := []struct {
		name string
		f    func(s *seq, k string)
	}{
		{"hash", func(s *seq, k string) { s.opHMSet(k, map[string]string{"f": "5", "g": kit.Value(g)}) }},
		{"one-field hash", func(s *seq, k string) { s.opHSet(k, "f", kit.Value(g)) }},
		{"string", func(s *seq, k string) { s.opSet(k, kit.Value(g)) }},
		{"int", func(s *seq, k string) { s.opSet(k, strconv.Itoa(g.Intn(1000))) }},
		{"float", func(s *seq, k string) { s.opSet(k, "1.25") }},
		{"empty", func(s *seq, k string) { s.opSet(k, "") }},
		{"expiring", func(s *seq, k string) { s.opSetEX(k, kit.Value(g), 10, false) }},
		{"expiring int", func(s *seq, k string) { s.opSetEX(k, "12", 10, false) }},
		{"absent", func(s *seq, k string) {}},
		{"expired", func(s *seq, k string) { s.opSetEX(k, "gone", 1, false); s.sleep(1100 * time.Millisecond) }},
	}
	cmds := []struct {
		name string
		f    func(s *seq, k string)
	}{
		{"Get", func(s *seq, k string) { s.opGet(k) }},
		{"StrLen", func(s *seq, k string) { s.opStrLen(k) }},
		{"GetRange", func(s *seq, k string) { s.opGetRange(k, 0, 3) }},
		{"GetSet", func(s *seq, k string) { s.opGetSet(k, "n") }},
		{"Append", func(s *seq, k string) { s.opAppend(k, "n") }},
		{"Append of nothing", func(s *seq, k string) {
			if s.m.live(k) != nil {
				s.opAppend(k, "")
			}
		}},
		{"IncrBy 0", func(s *seq, k string) { s.opIncr(k, 1, 0) }},
		{"DecrBy 0", func(s *seq, k string) { s.opIncr(k, 3, 0) }},
		{"IncrByFloat 0", func(s *seq, k string) { s.opIncrByFloat(k, 0) }},
		{"HIncrBy 0", func(s *seq, k string) { s.opHIncrBy(k, "f", 0) }},
		{"HIncrByFloat 0", func(s *seq, k string) { s.opHIncrByFloat(k, "f", 0) }},
		{"HDel of nothing", func(s *seq, k string) {
			if s.m.live(k) != nil {
				s.opHDel(k, nil)
			}
		}},
		{"HMGet of nothing", func(s *seq, k string) {
			if s.m.live(k) != nil {
				s.opHMGet(k, nil)
			}
		}},
		{"GetRange of nothing", func(s *seq, k string) { s.opGetRange(k, 2, 1) }},
		{"SetRange", func(s *seq, k string) { s.opSetRange(k, 2, "n") }},
		{"SetRange of nothing", func(s *seq, k string) { s.opSetRangeNothing(k) }},
		{"Incr", func(s *seq, k string) { s.opIncr(k, 0, 1) }},
		{"IncrBy", func(s *seq, k string) { s.opIncr(k, 1, 5) }},
		{"Decr", func(s *seq, k string) { s.opIncr(k, 2, 1) }},
		{"DecrBy", func(s *seq, k string) { s.opIncr(k, 3, 5) }},
		{"IncrByFloat", func(s *seq, k string) { s.opIncrByFloat(k, 0.5) }},
		{"SetNX", func(s *seq, k string) { s.opSetNX(k, "n") }},
		{"MSetNX", func(s *seq, k string) { s.opMSetNX(map[string]string{k: "n", "other": "n"}) }},
		{"MGet", func(s *seq, k string) { s.opMGet([]string{k, "other", k}) }},
		{"Exists", func(s *seq, k string) { s.opExists([]string{k, "other"}) }},
		{"Set", func(s *seq, k string) { s.opSet(k, "n") }},
		{"SetEX", func(s *seq, k string) { s.opSetEX(k, "n", 5, false) }},
		{"PSetEX", func(s *seq, k string) { s.opSetEX(k, "n", 5000, true) }},
		{"MSet", func(s *seq, k string) { s.opMSet(map[string]string{k: "n", "other": "m"}) }},
		{"Del", func(s *seq, k string) { s.opDel(k) }},
		{"HSet", func(s *seq, k string) { s.opHSet(k, "f", "n") }},
		{"HSetNX", func(s *seq, k string) { s.opHSetNX(k, "f", "n") }},
		{"HGet", func(s *seq, k string) { s.opHGet(k, "f") }},
		{"HExists", func(s *seq, k string) { s.opHExists(k, "f") }},
		{"HDel", func(s *seq, k string) { s.opHDel(k, []string{"f", "x"}) }},
		{"HLen", func(s *seq, k string) { s.opHLen(k) }},
		{"HStrLen", func(s *seq, k string) { s.opHStrLen(k, "f") }},
		{"HIncrBy", func(s *seq, k string) { s.opHIncrBy(k, "f", 3) }},
		{"HIncrByFloat", func(s *seq, k string) { s.opHIncrByFloat(k, "f", 1.5) }},
		{"HMSet", func(s *seq, k string) { s.opHMSet(k, map[string]string{"f": "n", "h": "m"}) }},
		{"HMSet empty", func(s *seq, k string) { s.opHMSet(k, nil) }},
		{"HMGet", func(s *seq, k string) { s.opHMGet(k, []string{"f", "x"}) }},
		{"HKeys", func(s *seq, k string) { s.opHKeys(k) }},
		{"HVals", func(s *seq, k string) { s.opHVals(k) }},
		{"HGetAll", func(s *seq, k string) { s.opHGetAll(k) }},
	}
	for round := 0; round < r.N(6, 60); round++ {
		for _, kind := range kinds {
			for _, cmd := range cmds {
				for _, second := range []int{-1, g.Intn(len(cmds))} {
					s := newSeq(r, g)
					k := s.keys[0]
					name := cmd.name + " on " + kind.name
					kind.f(s, k)
					cmd.f(s, k)
					s.checkKey(k)
					if second >= 0 {
						name += " then " + cmds[second].name
						cmds[second].f(s, k)
						s.checkKey(k)
					}
					s.checkKey("other")
					// the expiry is as it was
					s.sleep(9800*time.Millisecond - time.Duration(g.Intn(2))*1200*time.Millisecond)
					s.checkKey(k)
					s.sleep(2 * time.Second)
					s.checkKey(k)
					r.Case(name, kind.name != "absent")
					if round == 0 && second >= 0 && len(s.log)%11 == 0 {
						r.Sample(name)
					}
				}
			}
			r.Step("C10 " + kind.name)
		}
	}
}
