package cachechk

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/liujiangwei/xxcache/cache"

	"verif/harness/kit"
)

// The reference: keys with a byte string or a map of byte strings, and a deadline.
type ent struct {
	isHash bool
	str    string
	hash   map[string]string
	dl     time.Time
}

type model struct{ m map[string]*ent }

func (m *model) live(k string) *ent {
	e := m.m[k]
	if e == nil {
		return nil
	}
	if !e.dl.IsZero() && e.dl.Before(time.Now()) {
		delete(m.m, k)
		return nil
	}
	return e
}

func (m *model) put(k, v string) { m.m[k] = &ent{str: v} }

var canonical = regexp.MustCompile(`^(0|-?[1-9][0-9]*)$`)
var decimal = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)
var plain = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`)

func isInt(s string) (int64, bool) {
	if !canonical.MatchString(s) {
		return 0, false
	}
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

const (
	must = iota
	refuse
	either
)

// may an IncrByFloat on this text succeed?
func floatClass(s string) (float64, int) {
	f, err := strconv.ParseFloat(s, 64)
	if decimal.MatchString(s) {
		if err != nil || math.IsInf(f, 0) {
			return 0, refuse
		}
		return f, must
	}
	if err != nil || math.IsInf(f, 0) || math.IsNaN(f) {
		return 0, refuse
	}
	return f, either // "+1", ".5", hexadecimal: not specified
}

// one run of commands against one cache
type seq struct {
	r       *kit.Run
	c       *cache.Cache
	m       *model
	g       *rand.Rand
	log     []string
	keys    []string
	fields  []string
	maxJump time.Duration // no sleep beyond this
	sawHit  bool          // something non-trivial happened
	kept    []kept        // earlier results that must stay as they were
}

type kept struct {
	what string
	same func() bool
}

// What the caller does with a result, or with a map or list it passed, after the call is its own business: it is
// overwritten at once, or kept to see that no later command writes to it.
func (s *seq) keep(what string, scribble func(), same func() bool) {
	if s.g.Intn(2) == 0 {
		scribble()
		return
	}
	s.kept = append(s.kept, kept{what, same})
	if len(s.kept) > 40 {
		s.checkKept()
	}
}

func (s *seq) checkKept() {
	for _, k := range s.kept {
		if !k.same() {
			s.bad("%s was changed by a later command", k.what)
		}
	}
	s.kept = s.kept[:0]
}

func (s *seq) keepMap(what string, m map[string]string) {
	cp := make(map[string]string, len(m))
	for k, v := range m {
		cp[k] = v
	}
	s.keep(what, func() {
		for k := range m {
			m[k] = "scribbled"
		}
		if m != nil {
			m["scribbled"] = "yes"
		}
	}, func() bool {
		if len(m) != len(cp) {
			return false
		}
		for k, v := range cp {
			if w, ok := m[k]; !ok || w != v {
				return false
			}
		}
		return true
	})
}

func (s *seq) keepList(what string, l []string) {
	cp := append([]string{}, l...)
	s.keep(what, func() {
		for i := range l {
			l[i] = "scribbled"
		}
	}, func() bool {
		for i := range cp {
			if l[i] != cp[i] {
				return false
			}
		}
		return true
	})
}

func (s *seq) keepVals(what string, l []interface{}) {
	cp := append([]interface{}{}, l...)
	s.keep(what, func() {
		for i := range l {
			l[i] = "scribbled"
		}
	}, func() bool {
		for i := range cp {
			if l[i] != cp[i] {
				return false
			}
		}
		return true
	})
}

func newSeq(r *kit.Run, g *rand.Rand) *seq {
	s := &seq{r: r, c: cache.New(), m: &model{m: map[string]*ent{}}, g: g, maxJump: 24 * 365 * time.Hour}
	for i := 0; i < 4; i++ {
		k := "k" + strconv.Itoa(i)
		if g.Intn(4) == 0 {
			k = kit.Value(g)
		}
		s.keys = append(s.keys, k)
		f := "f" + strconv.Itoa(i)
		if g.Intn(4) == 0 {
			f = kit.Value(g)
		}
		s.fields = append(s.fields, f)
	}
	s.keys, s.fields = uniq(s.keys), uniq(s.fields)
	return s
}

func uniq(in []string) (out []string) {
	seen := map[string]bool{}
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return
}

// brief quotes a list or map and shortens long strings.
func brief(x interface{}) string {
	var l []string
	switch x := x.(type) {
	case []string:
		for _, v := range x {
			l = append(l, kit.Q(v))
		}
	case map[string]string:
		for k, v := range x {
			l = append(l, kit.Q(k)+":"+kit.Q(v))
		}
		sort.Strings(l)
	}
	return "[" + strings.Join(l, " ") + "]"
}

func (s *seq) key() string   { return s.keys[s.g.Intn(len(s.keys))] }
func (s *seq) field() string { return s.fields[s.g.Intn(len(s.fields))] }

func (s *seq) note(format string, a ...interface{}) {
	l := fmt.Sprintf(format, a...)
	s.log = append(s.log, l)
	s.r.Beat()
}

func (s *seq) bad(format string, a ...interface{}) {
	what := fmt.Sprintf(format, a...)
	l := s.log
	if len(l) > 80 {
		l = l[len(l)-80:]
	}
	s.r.Violation(what, "history (last is the failing command):\n"+strings.Join(l, "\n"))
}

func (s *seq) entText(e *ent) string {
	if e == nil {
		return "absent"
	}
	t := ""
	if !e.dl.IsZero() {
		t = " expires in " + time.Until(e.dl).String()
	}
	if e.isHash {
		return fmt.Sprintf("hash(%d fields)%s", len(e.hash), t)
	}
	return "string " + kit.Q(e.str) + t
}

func errText(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}

// ---- checks of one key through the queries

func (s *seq) checkKey(k string) {
	e := s.m.live(k)
	wantType := "none"
	if e != nil {
		wantType = "string"
		if e.isHash {
			wantType = "hash"
		}
	}
	s.note("query %s (reference: %s)", kit.Q(k), s.entText(e))
	ops := []func(){
		func() {
			if t := s.c.Type(k); t != wantType {
				s.bad("Type(%s) = %q, want %q", kit.Q(k), t, wantType)
			}
		},
		func() {
			n := s.c.Exists(k)
			if (n == 1) != (e != nil) || n > 1 {
				s.bad("Exists(%s) = %d, reference: %s", kit.Q(k), n, s.entText(e))
			}
		},
		func() { s.opGet(k) }, func() { s.opStrLen(k) }, func() { s.opGetRange(k, 0, -1) }, func() { s.opHLen(k) }, func() { s.opHGetAll(k) },
		func() { s.opMGet([]string{k}) },
	}
	s.g.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	for _, f := range ops {
		f()
	}
}

func (s *seq) checkAll() {
	s.checkKept()
	for _, k := range s.keys {
		s.checkKey(k)
	}
}

// ---- string commands

// wrong reports whether e is a hash; the command must then have failed
func (s *seq) wrong(e *ent, cmd string, err error) bool {
	if e == nil || !e.isHash {
		return false
	}
	if !errors.Is(err, cache.ErrWrongType) {
		s.bad("%s on a hash: error %s, want the wrong-type error", cmd, errText(err))
	}
	return true
}

func (s *seq) wrongH(e *ent, cmd string, err error) bool {
	if e == nil || e.isHash {
		return false
	}
	if !errors.Is(err, cache.ErrWrongType) {
		s.bad("%s on a string: error %s, want the wrong-type error", cmd, errText(err))
	}
	return true
}

func (s *seq) opGet(k string) {
	v, err := s.c.Get(k)
	s.note("Get(%s) = %s, %s", kit.Q(k), kit.Q(v), errText(err))
	e := s.m.live(k)
	if s.wrong(e, "Get", err) {
		return
	}
	if e == nil {
		if err == nil {
			s.bad("Get(%s) of an absent key = %s without an error", kit.Q(k), kit.Q(v))
		}
		return
	}
	if err != nil || v != e.str {
		s.bad("Get(%s) = %s, %s; want %s", kit.Q(k), kit.Q(v), errText(err), kit.Q(e.str))
	}
}

func (s *seq) opStrLen(k string) {
	n, err := s.c.StrLen(k)
	s.note("StrLen(%s) = %d, %s", kit.Q(k), n, errText(err))
	e := s.m.live(k)
	if s.wrong(e, "StrLen", err) {
		return
	}
	want := 0
	if e != nil {
		want = len(e.str)
	}
	if err != nil || n != want {
		s.bad("StrLen(%s) = %d, %s; want %d", kit.Q(k), n, errText(err), want)
	}
}

func (s *seq) opGetRange(k string, a, b int) {
	v, err := s.c.GetRange(k, a, b)
	s.note("GetRange(%s, %d, %d) = %s, %s", kit.Q(k), a, b, kit.Q(v), errText(err))
	e := s.m.live(k)
	if s.wrong(e, "GetRange", err) {
		return
	}
	str := ""
	if e != nil {
		str = e.str
	}
	n := len(str)
	lo, hi := a, b
	if lo < 0 {
		if lo += n; lo < 0 {
			lo = 0
		}
	}
	free := false
	if hi < 0 {
		if hi += n; hi < 0 {
			free = lo == 0 && n > 0 // before the first byte: Redis versions differ
			hi = -1
		}
	}
	if hi >= n {
		hi = n - 1
	}
	want := ""
	if lo <= hi {
		want = str[lo : hi+1]
	}
	if err != nil || (v != want && !(free && v == str[:1])) {
		s.bad("GetRange(%s, %d, %d) of %s = %s, %s; want %s", kit.Q(k), a, b, kit.Q(str), kit.Q(v), errText(err), kit.Q(want))
	}
}

func (s *seq) opMGet(ks []string) {
	vals := s.c.MGet(ks...)
	s.note("MGet(%v) = %d entries", brief(ks), len(vals))
	if len(vals) != len(ks) {
		s.bad("MGet of %d keys returned %d entries", len(ks), len(vals))
	}
	for i, k := range ks {
		e := s.m.live(k)
		switch v := vals[i].(type) {
		case string:
			if e == nil || e.isHash || v != e.str {
				s.bad("MGet entry %d (%s) = %s; want %s", i, kit.Q(k), kit.Q(v), s.entText(e))
			}
		case error:
			if e != nil && !e.isHash {
				s.bad("MGet entry %d (%s) = error %v; want %s", i, kit.Q(k), v, s.entText(e))
			}
		default:
			s.bad("MGet entry %d (%s) is %T", i, kit.Q(k), v)
		}
	}
	s.keepVals("a result of MGet", vals)
	s.keepList("a list of keys passed to MGet", ks)
}

func (s *seq) opExists(ks []string) {
	n := s.c.Exists(ks...)
	want := 0
	for _, k := range ks {
		if s.m.live(k) != nil {
			want++
		}
	}
	s.note("Exists(%v) = %d", brief(ks), n)
	if n != want {
		s.bad("Exists(%v) = %d, want %d", brief(ks), n, want)
	}
}

func (s *seq) opSet(k, v string) {
	res, err := s.c.Set(k, v)
	s.note("Set(%s, %s)", kit.Q(k), kit.Q(v))
	if err != nil || res != cache.OK {
		s.bad("Set = %q, %s", res, errText(err))
	}
	s.m.put(k, v)
}

func (s *seq) opSetEX(k, v string, ttl int64, ms bool) {
	var res string
	var err error
	d := time.Duration(math.MaxInt64)
	if ms {
		res, err = s.c.PSetEX(k, v, ttl)
		if ttl <= math.MaxInt64/int64(time.Millisecond) {
			d = time.Duration(ttl) * time.Millisecond
		}
	} else {
		res, err = s.c.SetEX(k, v, ttl)
		if ttl <= math.MaxInt64/int64(time.Second) {
			d = time.Duration(ttl) * time.Second
		}
	}
	s.note("SetEX(%s, %s, %v)", kit.Q(k), kit.Q(v), d)
	if err != nil || res != cache.OK {
		s.bad("SetEX = %q, %s", res, errText(err))
	}
	s.m.put(k, v)
	s.m.m[k].dl = time.Now().Add(d)
}

func (s *seq) opSetNX(k, v string) {
	n, err := s.c.SetNX(k, v)
	s.note("SetNX(%s, %s) = %d, %s", kit.Q(k), kit.Q(v), n, errText(err))
	e := s.m.live(k)
	if e != nil {
		if n != 0 || (err != nil && !e.isHash) {
			s.bad("SetNX on an existing key = %d, %s", n, errText(err))
		}
		return
	}
	if n != 1 || err != nil {
		s.bad("SetNX on an absent key = %d, %s; want 1", n, errText(err))
	}
	s.m.put(k, v)
}

func (s *seq) opGetSet(k, v string) {
	old, err := s.c.GetSet(k, v)
	s.note("GetSet(%s, %s) = %s, %s", kit.Q(k), kit.Q(v), kit.Q(old), errText(err))
	e := s.m.live(k)
	if s.wrong(e, "GetSet", err) {
		return
	}
	if e == nil {
		if old != "" || !missing(err) {
			s.bad("GetSet on an absent key = %s, %s", kit.Q(old), errText(err))
		}
	} else if err != nil || old != e.str {
		s.bad("GetSet = %s, %s; want %s", kit.Q(old), errText(err), kit.Q(e.str))
	}
	s.m.put(k, v)
}

func (s *seq) opAppend(k, v string) {
	e := s.m.live(k)
	if e == nil && v == "" {
		v = "x" // whether an empty append creates the key is not specified
	}
	n, err := s.c.Append(k, v)
	s.note("Append(%s, %s) = %d, %s", kit.Q(k), kit.Q(v), n, errText(err))
	if s.wrong(e, "Append", err) {
		return
	}
	if e == nil {
		s.m.put(k, "")
		e = s.m.m[k]
	}
	e.str += v
	if err != nil || n != len(e.str) {
		s.bad("Append = %d, %s; want %d", n, errText(err), len(e.str))
	}
}

const maxLen = 512 << 20

func (s *seq) opSetRange(k string, pos int, v string) {
	if v == "" {
		v = "y"
	}
	e := s.m.live(k)
	n, err := s.c.SetRange(k, pos, v)
	s.note("SetRange(%s, %d, %s) = %d, %s", kit.Q(k), pos, kit.Q(v), n, errText(err))
	if pos < 0 || pos > maxLen-len(v) {
		if err == nil {
			s.bad("SetRange at offset %d was accepted", pos)
		}
		return
	}
	if s.wrong(e, "SetRange", err) {
		return
	}
	if e == nil {
		s.m.put(k, "")
		e = s.m.m[k]
	}
	b := []byte(e.str)
	for len(b) < pos+len(v) {
		b = append(b, 0)
	}
	copy(b[pos:], v)
	e.str = string(b)
	if err != nil || n != len(b) {
		s.bad("SetRange = %d, %s; want %d", n, errText(err), len(b))
	}
}

// what it does to a string is not specified
func (s *seq) opSetRangeNothing(k string) {
	if e := s.m.live(k); e == nil || !e.isHash {
		return
	}
	for _, pos := range []int{0, 2} {
		n, err := s.c.SetRange(k, pos, "")
		s.note("SetRange(%s, %d, \"\") = %d, %s", kit.Q(k), pos, n, errText(err))
		s.wrong(s.m.live(k), "SetRange", err)
	}
}

func sum(a, b int64) (int64, bool) {
	x := new(big.Int).Add(big.NewInt(a), big.NewInt(b))
	return x.Int64(), x.IsInt64()
}

func (s *seq) opIncr(k string, form int, by int64) {
	e := s.m.live(k)
	var n int
	var err error
	neg := false
	switch form {
	case 0:
		by = 1
		n, err = s.c.Incr(k)
	case 1:
		n, err = s.c.IncrBy(k, by)
	case 2:
		by, neg = 1, true
		n, err = s.c.Decr(k)
	default:
		neg = true
		n, err = s.c.DecrBy(k, by)
	}
	s.note("%s(%s, %d) = %d, %s (was %s)", [...]string{"Incr", "IncrBy", "Decr", "DecrBy"}[form], kit.Q(k), by, n, errText(err), s.entText(e))
	if e != nil && e.isHash && form == 3 && by == math.MinInt64 && err != nil {
		return // refused for its argument
	}
	if s.wrong(e, "Incr", err) {
		return
	}
	var old int64
	if e != nil {
		var ok bool
		if old, ok = isInt(e.str); !ok {
			if err == nil {
				s.bad("an increment of %s was accepted: %d", kit.Q(e.str), n)
			}
			return
		}
	}
	d := by
	var want int64
	var fits bool
	if neg {
		x := new(big.Int).Sub(big.NewInt(old), big.NewInt(by))
		want, fits = x.Int64(), x.IsInt64()
		if by == math.MinInt64 && fits && err != nil {
			return // the negated decrement does not fit: refusing is Redis' answer too
		}
	} else {
		want, fits = sum(old, d)
	}
	if !fits {
		if err == nil {
			s.bad("an increment beyond 64 bits was accepted: %d %+d = %d", old, by, n)
		}
		return
	}
	if err != nil || int64(n) != want {
		s.bad("increment = %d, %s; want %d", n, errText(err), want)
	}
	if e == nil {
		s.m.put(k, "")
		e = s.m.m[k]
	}
	e.str = strconv.FormatInt(want, 10)
}

// near: the sum as float64 arithmetic or anything more exact gives it
func near(got, a, b float64) bool {
	want := a + b
	if got == want {
		return true
	}
	return math.Abs(got-want) <= 4e-16*math.Max(math.Abs(want), math.Max(math.Abs(a), math.Abs(b)))
}

// floatResult judges a float increment of old (nil: missing) and returns the new text.
func (s *seq) floatResult(what string, old *string, by, f float64, err error, read func() (string, error)) (string, bool) {
	a, class := 0.0, must
	if old != nil {
		a, class = floatClass(*old)
	}
	if class == refuse || math.IsInf(by, 0) || math.IsNaN(by) || math.IsInf(a+by, 0) {
		if err == nil {
			s.bad("%s was accepted: %v", what, f)
		}
		return "", false
	}
	if err != nil {
		if class == either {
			return "", false
		}
		s.bad("%s was refused: %v", what, err)
	}
	if !near(f, a, by) {
		s.bad("%s = %v, want %v", what, f, a+by)
	}
	text, rerr := read()
	if rerr != nil {
		s.bad("%s left an unreadable value: %v", what, rerr)
	}
	back, perr := strconv.ParseFloat(text, 64)
	if perr != nil || back != f || !plain.MatchString(text) {
		s.bad("%s returned %v and stored %s", what, f, kit.Q(text))
	}
	if f == math.Trunc(f) && math.Abs(f) < 1e15 && f != 0 && text != strconv.FormatFloat(f, 'f', 0, 64) {
		s.bad("%s returned %v and stored %s", what, f, kit.Q(text))
	}
	return text, true
}

func (s *seq) opIncrByFloat(k string, by float64) {
	e := s.m.live(k)
	f, err := s.c.IncrByFloat(k, by)
	s.note("IncrByFloat(%s, %v) = %v, %s (was %s)", kit.Q(k), by, f, errText(err), s.entText(e))
	if e != nil && e.isHash {
		if err == nil {
			s.bad("IncrByFloat on a hash was accepted")
		}
		if !math.IsNaN(by) && !math.IsInf(by, 0) {
			s.wrong(e, "IncrByFloat", err)
		}
		return
	}
	var old *string
	if e != nil {
		old = &e.str
	}
	text, ok := s.floatResult(fmt.Sprintf("IncrByFloat(%s, %v) of %s", kit.Q(k), by, s.entText(e)), old, by, f, err, func() (string, error) { return s.c.Get(k) })
	if !ok {
		return
	}
	if e == nil {
		s.m.put(k, "")
		e = s.m.m[k]
	}
	e.str = text
}

func (s *seq) opMSet(kv map[string]string) {
	res := s.c.MSet(kv)
	s.note("MSet(%v) = %s", brief(kv), res)
	if res != cache.OK {
		s.bad("MSet = %q", res)
	}
	for k, v := range kv {
		s.m.put(k, v)
	}
	s.keepMap("the map passed to MSet", kv)
}

func (s *seq) opMSetNX(kv map[string]string) {
	n := s.c.MSetNX(kv)
	s.note("MSetNX(%v) = %d", brief(kv), n)
	some := false
	for k := range kv {
		some = some || s.m.live(k) != nil
	}
	if some {
		if n != 0 {
			s.bad("MSetNX = %d although a key exists", n)
		}
		return
	}
	if n != len(kv) {
		s.bad("MSetNX = %d, want %d", n, len(kv))
	}
	for k, v := range kv {
		s.m.put(k, v)
	}
	s.keepMap("the map passed to MSetNX", kv)
}

func (s *seq) opDel(k string) {
	e := s.m.live(k)
	n := s.c.Del(k)
	s.note("Del(%s) = %d", kit.Q(k), n)
	if (n == 1) != (e != nil) {
		s.bad("Del(%s) = %d, reference: %s", kit.Q(k), n, s.entText(e))
	}
	delete(s.m.m, k)
}

func (s *seq) opFlush() {
	s.c.Flush()
	s.note("Flush()")
	s.m.m = map[string]*ent{}
}

// ---- hash commands

func (s *seq) hash(k string) map[string]string {
	e := s.m.live(k)
	if e == nil {
		e = &ent{isHash: true, hash: map[string]string{}}
		s.m.m[k] = e
	}
	return e.hash
}

func (s *seq) opHSet(k, f, v string) {
	n, err := s.c.HSet(k, f, v)
	s.note("HSet(%s, %s, %s) = %d, %s", kit.Q(k), kit.Q(f), kit.Q(v), n, errText(err))
	if s.wrongH(s.m.live(k), "HSet", err) {
		return
	}
	h := s.hash(k)
	want := 1
	if _, ok := h[f]; ok {
		want = 0
	}
	if err != nil || n != want {
		s.bad("HSet = %d, %s; want %d", n, errText(err), want)
	}
	h[f] = v
}

func (s *seq) opHSetNX(k, f, v string) {
	n, err := s.c.HSetNX(k, f, v)
	s.note("HSetNX(%s, %s, %s) = %d, %s", kit.Q(k), kit.Q(f), kit.Q(v), n, errText(err))
	if s.wrongH(s.m.live(k), "HSetNX", err) {
		return
	}
	h := s.hash(k)
	want := 1
	if _, ok := h[f]; ok {
		want = 0
	} else {
		h[f] = v
	}
	if err != nil || n != want {
		s.bad("HSetNX = %d, %s; want %d", n, errText(err), want)
	}
}

// missing says whether err is what a read of an absent key or field may return
func missing(err error) bool { return err == nil || errors.Is(err, cache.ErrKeyNil) }

func (s *seq) opHGet(k, f string) {
	v, err := s.c.HGet(k, f)
	s.note("HGet(%s, %s) = %s, %s", kit.Q(k), kit.Q(f), kit.Q(v), errText(err))
	e := s.m.live(k)
	if s.wrongH(e, "HGet", err) {
		return
	}
	if e != nil {
		if want, ok := e.hash[f]; ok {
			if err != nil || v != want {
				s.bad("HGet = %s, %s; want %s", kit.Q(v), errText(err), kit.Q(want))
			}
			return
		}
	}
	if v != "" || !errors.Is(err, cache.ErrKeyNil) {
		s.bad("HGet of a missing field = %s, %s", kit.Q(v), errText(err))
	}
}

func (s *seq) opHExists(k, f string) {
	n, err := s.c.HExists(k, f)
	s.note("HExists(%s, %s) = %d, %s", kit.Q(k), kit.Q(f), n, errText(err))
	e := s.m.live(k)
	if s.wrongH(e, "HExists", err) {
		return
	}
	want := 0
	if e != nil {
		if _, ok := e.hash[f]; ok {
			want = 1
		}
	}
	if n != want || (err != nil && !(e == nil && missing(err))) {
		s.bad("HExists = %d, %s; want %d", n, errText(err), want)
	}
}

func (s *seq) opHStrLen(k, f string) {
	n, err := s.c.HStrLen(k, f)
	s.note("HStrLen(%s, %s) = %d, %s", kit.Q(k), kit.Q(f), n, errText(err))
	e := s.m.live(k)
	if s.wrongH(e, "HStrLen", err) {
		return
	}
	want := 0
	if e != nil {
		want = len(e.hash[f])
	}
	if n != want || (err != nil && !(e == nil && missing(err))) {
		s.bad("HStrLen = %d, %s; want %d", n, errText(err), want)
	}
}

func (s *seq) opHLen(k string) {
	n, err := s.c.HLen(k)
	s.note("HLen(%s) = %d, %s", kit.Q(k), n, errText(err))
	e := s.m.live(k)
	if s.wrongH(e, "HLen", err) {
		return
	}
	want := 0
	if e != nil {
		want = len(e.hash)
	}
	if n != want || (err != nil && !(e == nil && missing(err))) {
		s.bad("HLen = %d, %s; want %d", n, errText(err), want)
	}
}

func (s *seq) opHDel(k string, fs []string) {
	n, err := s.c.HDel(k, fs...)
	s.note("HDel(%s, %v) = %d, %s", kit.Q(k), brief(fs), n, errText(err))
	e := s.m.live(k)
	if s.wrongH(e, "HDel", err) {
		return
	}
	want := 0
	if e != nil {
		for _, f := range fs {
			if _, ok := e.hash[f]; ok {
				want++
				delete(e.hash, f)
			}
		}
		if len(e.hash) == 0 {
			delete(s.m.m, k)
		}
	}
	if n != want || (err != nil && !(e == nil && missing(err))) {
		s.bad("HDel = %d, %s; want %d", n, errText(err), want)
	}
}

func (s *seq) opHIncrBy(k, f string, by int) {
	e := s.m.live(k)
	n, err := s.c.HIncrBy(k, f, by)
	s.note("HIncrBy(%s, %s, %d) = %d, %s", kit.Q(k), kit.Q(f), by, n, errText(err))
	if s.wrongH(e, "HIncrBy", err) {
		return
	}
	var old int64
	if e != nil {
		if t, ok := e.hash[f]; ok && t != "" {
			if old, ok = isInt(t); !ok {
				if err == nil {
					s.bad("HIncrBy of %s was accepted: %d", kit.Q(t), n)
				}
				return
			}
		}
	}
	want, fits := sum(old, int64(by))
	if !fits {
		if err == nil {
			s.bad("HIncrBy beyond 64 bits was accepted: %d %+d = %d", old, by, n)
		}
		return
	}
	if err != nil || int64(n) != want {
		s.bad("HIncrBy = %d, %s; want %d", n, errText(err), want)
	}
	s.hash(k)[f] = strconv.FormatInt(want, 10)
}

func (s *seq) opHIncrByFloat(k, f string, by float64) {
	e := s.m.live(k)
	got, err := s.c.HIncrByFloat(k, f, by)
	s.note("HIncrByFloat(%s, %s, %v) = %v, %s", kit.Q(k), kit.Q(f), by, got, errText(err))
	if e != nil && !e.isHash {
		s.wrongH(e, "HIncrByFloat", err)
		return
	}
	var old *string
	if e != nil {
		if t, ok := e.hash[f]; ok && t != "" {
			old = &t
		}
	}
	text, ok := s.floatResult(fmt.Sprintf("HIncrByFloat(%s, %s, %v)", kit.Q(k), kit.Q(f), by), old, by, got, err, func() (string, error) { return s.c.HGet(k, f) })
	if ok {
		s.hash(k)[f] = text
	}
}

func (s *seq) opHMSet(k string, fv map[string]string) {
	n, err := s.c.HMSet(k, fv)
	s.note("HMSet(%s, %v) = %d, %s", kit.Q(k), brief(fv), n, errText(err))
	if s.wrongH(s.m.live(k), "HMSet", err) {
		return
	}
	want := 0
	if len(fv) > 0 {
		h := s.hash(k)
		for f, v := range fv {
			if _, ok := h[f]; !ok {
				want++
			}
			h[f] = v
		}
		if err != nil {
			s.bad("HMSet failed: %v", err)
		}
	}
	if n != want {
		s.bad("HMSet = %d, want %d new fields", n, want)
	}
	s.keepMap("the map passed to HMSet", fv)
}

func (s *seq) opHMGet(k string, fs []string) {
	vals, err := s.c.HMGet(k, fs...)
	s.note("HMGet(%s, %v) = %d entries, %s", kit.Q(k), brief(fs), len(vals), errText(err))
	e := s.m.live(k)
	if s.wrongH(e, "HMGet", err) {
		return
	}
	if e == nil && !missing(err) || e != nil && err != nil {
		s.bad("HMGet failed: %v", err)
	}
	if e == nil && len(vals) == 0 {
		return
	}
	if len(vals) != len(fs) {
		s.bad("HMGet of %d fields returned %d entries", len(fs), len(vals))
	}
	for i, f := range fs {
		want, ok := "", false
		if e != nil {
			want, ok = e.hash[f]
		}
		switch v := vals[i].(type) {
		case string:
			if !ok || v != want {
				s.bad("HMGet entry %d (%s) = %s; want %s (present %v)", i, kit.Q(f), kit.Q(v), kit.Q(want), ok)
			}
		case error:
			if ok {
				s.bad("HMGet entry %d (%s) = error %v; want %s", i, kit.Q(f), v, kit.Q(want))
			}
		default:
			s.bad("HMGet entry %d (%s) is %T", i, kit.Q(f), v)
		}
	}
	s.keepVals("a result of HMGet", vals)
	s.keepList("a list of fields passed to HMGet", fs)
}

func (s *seq) list(k, cmd string, got []string, err error, pick func(f, v string) string) {
	e := s.m.live(k)
	s.note("%s(%s) = %d entries, %s", cmd, kit.Q(k), len(got), errText(err))
	if s.wrongH(e, cmd, err) {
		return
	}
	var want []string
	if e != nil {
		for f, v := range e.hash {
			want = append(want, pick(f, v))
		}
	}
	got = append([]string{}, got...)
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\x01|") != strings.Join(want, "\x01|") || len(got) != len(want) || (err != nil && !(e == nil && missing(err))) {
		s.bad("%s = %q, %s; want %q", cmd, got, errText(err), want)
	}
}

func (s *seq) opHKeys(k string) {
	l, err := s.c.HKeys(k)
	s.list(k, "HKeys", l, err, func(f, v string) string { return f })
	s.keepList("a result of HKeys", l)
}

func (s *seq) opHVals(k string) {
	l, err := s.c.HVals(k)
	s.list(k, "HVals", l, err, func(f, v string) string { return v })
	s.keepList("a result of HVals", l)
}

func (s *seq) opHGetAll(k string) {
	kv, err := s.c.HGetAll(k)
	var l []string
	for f, v := range kv {
		l = append(l, f+"\x02=\x02"+v)
	}
	s.list(k, "HGetAll", l, err, func(f, v string) string { return f + "\x02=\x02" + v })
	s.keepMap("a result of HGetAll", kv)
}

// ---- time

func (s *seq) sleep(d time.Duration) {
	time.Sleep(d)
	for _, e := range s.m.m {
		if !e.dl.IsZero() && e.dl.Equal(time.Now()) {
			time.Sleep(100 * time.Microsecond) // the exact instant is not specified
		}
	}
	s.note("%v pass", d)
}

// toDeadline goes just before or just after the deadline of some key.
func (s *seq) toDeadline() {
	var ks []string
	for k, e := range s.m.m {
		if !e.dl.IsZero() && time.Until(e.dl) < s.maxJump {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		s.sleep(time.Duration(1+s.g.Intn(3000)) * time.Millisecond)
		return
	}
	sort.Strings(ks)
	d := time.Until(s.m.m[ks[s.g.Intn(len(ks))]].dl)
	if s.g.Intn(3) == 0 {
		d -= time.Millisecond
	} else {
		d += time.Millisecond
	}
	if d > 0 {
		s.sleep(d)
	}
	s.sawHit = true
}
