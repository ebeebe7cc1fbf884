package cachechk

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/liujiangwei/xxcache/cache"

	"verif/harness/kit"
)

func envProp() string { return os.Getenv("VERIF_PROP") }

// ---- recorded histories

const nKeys, nFields = 3, 3

type cell struct {
	kind   int8 // 0 absent, 1 string, 2 hash
	val    string
	lo, hi int64 // the deadline lies in [lo, hi] (0: none)
	f      [nFields]string
	has    [nFields]bool
}

type state [nKeys]cell

type in struct {
	name  string
	keys  []int // key numbers
	flds  []int
	vals  []string
	n     int64
	write bool
}

type out struct {
	n         int
	s         string
	err       bool
	list      []string // one per entry, "!" for an error
	call, ret int64
}

func (i in) String() string {
	return fmt.Sprintf("%s%v%v%q,%d", i.name, i.keys, i.flds, i.vals, i.n)
}
func (o out) String() string {
	return fmt.Sprintf("%d,%q,err=%v,%q", o.n, o.s, o.err, o.list)
}

func kn(i int) string { return "k" + strconv.Itoa(i) }
func fn(i int) string { return "f" + strconv.Itoa(i) }

func entries(vs []interface{}) (l []string) {
	for _, v := range vs {
		if s, ok := v.(string); ok {
			l = append(l, "="+s)
		} else {
			l = append(l, "!")
		}
	}
	return
}

func exec(c *cache.Cache, i in) (o out) {
	var err error
	k := ""
	if len(i.keys) > 0 {
		k = kn(i.keys[0])
	}
	f := ""
	if len(i.flds) > 0 {
		f = fn(i.flds[0])
	}
	var ks, fs []string
	for _, x := range i.keys {
		ks = append(ks, kn(x))
	}
	for _, x := range i.flds {
		fs = append(fs, fn(x))
	}
	kv := map[string]string{}
	switch i.name {
	case "MSet", "MSetNX":
		for j, x := range i.keys {
			kv[kn(x)] = i.vals[j]
		}
	case "HMSet":
		for j, x := range i.flds {
			kv[fn(x)] = i.vals[j]
		}
	}
	switch i.name {
	case "Get":
		o.s, err = c.Get(k)
	case "StrLen":
		o.n, err = c.StrLen(k)
	case "GetRange":
		o.s, err = c.GetRange(k, 0, -1)
	case "Set":
		_, err = c.Set(k, i.vals[0])
	case "PSetEX":
		_, err = c.PSetEX(k, i.vals[0], i.n)
	case "SetNX":
		o.n, err = c.SetNX(k, i.vals[0])
	case "GetSet":
		o.s, err = c.GetSet(k, i.vals[0])
	case "Append":
		o.n, err = c.Append(k, i.vals[0])
	case "SetRange":
		o.n, err = c.SetRange(k, int(i.n), i.vals[0])
	case "Incr":
		o.n, err = c.Incr(k)
	case "IncrBy":
		o.n, err = c.IncrBy(k, i.n)
	case "Decr":
		o.n, err = c.Decr(k)
	case "DecrBy":
		o.n, err = c.DecrBy(k, i.n)
	case "Del":
		o.n = c.Del(k)
	case "Flush":
		c.Flush()
	case "Exists":
		o.n = c.Exists(ks...)
	case "Type":
		o.s = c.Type(k)
	case "MSet":
		c.MSet(kv)
	case "MSetNX":
		o.n = c.MSetNX(kv)
	case "MGet":
		o.list = entries(c.MGet(ks...))
	case "HSet":
		o.n, err = c.HSet(k, f, i.vals[0])
	case "HSetNX":
		o.n, err = c.HSetNX(k, f, i.vals[0])
	case "HGet":
		o.s, err = c.HGet(k, f)
	case "HExists":
		o.n, err = c.HExists(k, f)
	case "HDel":
		o.n, err = c.HDel(k, fs...)
	case "HLen":
		o.n, err = c.HLen(k)
	case "HStrLen":
		o.n, err = c.HStrLen(k, f)
	case "HIncrBy":
		o.n, err = c.HIncrBy(k, f, int(i.n))
	case "HIncrByFloat":
		var x float64
		x, err = c.HIncrByFloat(k, f, float64(i.n))
		o.n = int(x)
	case "HMSet":
		o.n, err = c.HMSet(k, kv)
	case "HMGet":
		var l []interface{}
		l, err = c.HMGet(k, fs...)
		o.list = entries(l)
		if l == nil {
			for range fs {
				o.list = append(o.list, "!")
			}
		}
	case "HKeys":
		o.list, err = c.HKeys(k)
		sort.Strings(o.list)
	case "HVals":
		o.list, err = c.HVals(k)
		sort.Strings(o.list)
	case "HGetAll":
		var m map[string]string
		m, err = c.HGetAll(k)
		for f, v := range m {
			o.list = append(o.list, f+"="+v)
		}
		sort.Strings(o.list)
	default:
		panic(i.name)
	}
	o.err = err != nil
	return o
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// apply runs the command on the state, in which the expired keys are gone already.
func apply(st state, i in, o out) (state, bool) {
	var c *cell
	if len(i.keys) > 0 {
		c = &st[i.keys[0]]
	}
	isH := c != nil && c.kind == 2
	num := func(s string) (int64, bool) { return isInt(s) }
	fail := o.err // the command failed, which must be right and change nothing
	str := ""
	if c != nil {
		str = c.val
	}
	put := func(v string) {
		*c = cell{kind: 1, val: v}
	}
	edit := func(v string) { // keeps the deadline
		if c.kind == 0 {
			*c = cell{}
		}
		c.kind, c.val = 1, v
	}
	count := func() (n int) {
		for _, h := range c.has {
			if h {
				n++
			}
		}
		return
	}
	hash := func() {
		if c.kind == 0 {
			*c = cell{kind: 2}
		}
	}
	incr := func(by int64) (state, bool) {
		if isH {
			return st, fail
		}
		var old int64
		if c.kind == 1 {
			var ok bool
			if old, ok = num(str); !ok {
				return st, fail
			}
		}
		edit(strconv.FormatInt(old+by, 10))
		return st, !fail && int64(o.n) == old+by
	}
	if strings.HasPrefix(i.name, "H") && c.kind == 1 {
		return st, fail
	}
	switch i.name {
	case "Get":
		if c.kind != 1 {
			return st, fail
		}
		return st, !fail && o.s == str
	case "StrLen":
		return st, (isH && fail) || (!isH && !fail && o.n == len(str))
	case "GetRange":
		return st, (isH && fail) || (!isH && !fail && o.s == str)
	case "Set":
		put(i.vals[0])
		return st, !fail
	case "PSetEX":
		put(i.vals[0])
		c.lo, c.hi = o.call+i.n*1e6, o.ret+i.n*1e6
		return st, !fail
	case "SetNX":
		if c.kind != 0 {
			return st, o.n == 0
		}
		put(i.vals[0])
		return st, !fail && o.n == 1
	case "GetSet":
		if isH {
			return st, fail
		}
		if c.kind == 0 {
			put(i.vals[0])
			return st, o.s == ""
		}
		put(i.vals[0])
		return st, !fail && o.s == str
	case "Append":
		if isH {
			return st, fail
		}
		edit(str + i.vals[0])
		return st, !fail && o.n == len(c.val)
	case "SetRange":
		if isH {
			return st, fail
		}
		b := []byte(str)
		for len(b) < int(i.n)+len(i.vals[0]) {
			b = append(b, 0)
		}
		copy(b[i.n:], i.vals[0])
		edit(string(b))
		return st, !fail && o.n == len(b)
	case "Incr":
		return incr(1)
	case "IncrBy":
		return incr(i.n)
	case "Decr":
		return incr(-1)
	case "DecrBy":
		return incr(-i.n)
	case "Del":
		want := 0
		if c.kind != 0 {
			want = 1
		}
		*c = cell{}
		return st, o.n == want
	case "Flush":
		return state{}, true
	case "Exists":
		want := 0
		for _, k := range i.keys {
			if st[k].kind != 0 {
				want++
			}
		}
		return st, o.n == want
	case "Type":
		return st, o.s == [...]string{"none", "string", "hash"}[c.kind]
	case "MSet":
		for j, k := range i.keys {
			st[k] = cell{kind: 1, val: i.vals[j]}
		}
		return st, true
	case "MSetNX":
		for _, k := range i.keys {
			if st[k].kind != 0 {
				return st, o.n == 0
			}
		}
		for j, k := range i.keys {
			st[k] = cell{kind: 1, val: i.vals[j]}
		}
		return st, o.n == len(i.keys)
	case "MGet":
		var want []string
		for _, k := range i.keys {
			if st[k].kind == 1 {
				want = append(want, "="+st[k].val)
			} else {
				want = append(want, "!")
			}
		}
		return st, same(o.list, want)
	case "HSet", "HSetNX":
		hash()
		f := i.flds[0]
		want := 1
		if c.has[f] {
			want = 0
		}
		if want == 1 || i.name == "HSet" {
			c.has[f], c.f[f] = true, i.vals[0]
		}
		return st, !fail && o.n == want
	case "HGet":
		f := i.flds[0]
		if !c.has[f] {
			return st, fail || o.s == ""
		}
		return st, !fail && o.s == c.f[f]
	case "HExists":
		return st, (o.n == 1) == c.has[i.flds[0]]
	case "HStrLen":
		return st, o.n == len(c.f[i.flds[0]])
	case "HLen":
		return st, o.n == count()
	case "HDel":
		want := 0
		for _, f := range i.flds {
			if c.has[f] {
				want++
				c.has[f], c.f[f] = false, ""
			}
		}
		if count() == 0 {
			*c = cell{}
		}
		return st, o.n == want
	case "HIncrBy", "HIncrByFloat":
		f := i.flds[0]
		var old int64
		if c.has[f] && c.f[f] != "" {
			var ok bool
			if i.name == "HIncrByFloat" { // any decimal text counts there, and these are all small and whole
				x, err := strconv.ParseFloat(c.f[f], 64)
				old, ok = int64(x), err == nil
			} else {
				old, ok = num(c.f[f])
			}
			if !ok {
				return st, fail
			}
		}
		hash()
		c.has[f], c.f[f] = true, strconv.FormatInt(old+i.n, 10)
		return st, !fail && int64(o.n) == old+i.n
	case "HMSet":
		hash()
		want := 0
		for j, f := range i.flds {
			if !c.has[f] {
				want++
			}
			c.has[f], c.f[f] = true, i.vals[j]
		}
		return st, !fail && o.n == want
	case "HMGet":
		var want []string
		for _, f := range i.flds {
			if c.has[f] {
				want = append(want, "="+c.f[f])
			} else {
				want = append(want, "!")
			}
		}
		return st, same(o.list, want)
	case "HKeys", "HVals", "HGetAll":
		var want []string
		for f := range c.has {
			if c.has[f] {
				switch i.name {
				case "HKeys":
					want = append(want, fn(f))
				case "HVals":
					want = append(want, c.f[f])
				default:
					want = append(want, fn(f)+"="+c.f[f])
				}
			}
		}
		sort.Strings(want)
		return st, same(o.list, want)
	}
	panic(i.name)
}

var linModel = porcupine.NondeterministicModel{
	Init: func() []interface{} { return []interface{}{state{}} },
	Step: func(s, input, output interface{}) []interface{} {
		i, o := input.(in), output.(out)
		states := []state{s.(state)}
		// a key whose deadline lies in the command's time may have expired before it or not
		for _, k := range i.keys {
			var next []state
			for _, st := range states {
				c := st[k]
				if c.kind == 0 || c.hi == 0 {
					next = append(next, st)
					continue
				}
				if o.call <= c.hi {
					next = append(next, st)
				}
				if o.ret >= c.lo {
					gone := st
					gone[k] = cell{}
					next = append(next, gone)
				}
			}
			states = next
		}
		var res []interface{}
		for _, st := range states {
			if n, ok := apply(st, i, o); ok {
				res = append(res, n)
			}
		}
		return res
	},
	Equal: func(a, b interface{}) bool { return a.(state) == b.(state) },
}

var lin = linModel.ToModel()

type event struct {
	t   int64
	ret bool
	id  int
}

// histories records runs of goroutines and judges each.
func histories(r *kit.Run, n int, gen func(g *rand.Rand) in, keys int) {
	g := r.Rng(20)
	base := time.Now()
	inconclusive := int64(0)
	for h := 0; h < n; h++ {
		if h%100 == 7 {
			hookSlow(uint32(h / 100))
			r.Count("histories_with_a_contended_lock", 1)
		} else {
			hookDelays(h%5 != 4)
		}
		c := cache.New()
		procs := 3 + g.Intn(2)
		per := 5 + g.Intn(3)
		plan := make([][]in, procs)
		for p := range plan {
			for j := 0; j < per; j++ {
				plan[p] = append(plan[p], gen(g))
			}
		}
		if h%32 == 0 {
			r.Step(fmt.Sprintf("history %d", h))
		}
		ops := make([]porcupine.Operation, procs*per)
		var start int32
		var wg sync.WaitGroup
		for p := 0; p < procs; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				r.Guard(func() {
					atomic.AddInt32(&start, 1)
					for atomic.LoadInt32(&start) < int32(procs) {
						runtime.Gosched()
					}
					for j, i := range plan[p] {
						t0 := time.Since(base)
						o := exec(c, i)
						t1 := time.Since(base)
						o.call, o.ret = int64(t0), int64(t1)
						ops[p*per+j] = porcupine.Operation{ClientId: p, Input: i, Output: o, Call: int64(t0), Return: int64(t1)}
					}
				})
			}(p)
		}
		wg.Wait()
		// a last look at every key
		for k := 0; k < keys; k++ {
			for _, name := range []string{"Type", "Get", "HGetAll", "HLen"} {
				i := in{name: name, keys: []int{k}}
				t0 := int64(time.Since(base))
				o := exec(c, i)
				o.call, o.ret = t0, int64(time.Since(base))
				ops = append(ops, porcupine.Operation{ClientId: 9, Input: i, Output: o, Call: o.call, Return: o.ret})
			}
		}
		switch porcupine.CheckOperationsTimeout(lin, ops, 20*time.Second) {
		case porcupine.Illegal:
			sort.Slice(ops, func(a, b int) bool { return ops[a].Call < ops[b].Call })
			var l []string
			for _, o := range ops {
				l = append(l, fmt.Sprintf("[%d,%d] goroutine %d: %v -> %v", o.Call, o.Return, o.ClientId, o.Input, o.Output))
			}
			r.Violation("a concurrent history has no sequential explanation", strings.Join(l, "\n"))
		case porcupine.Unknown:
			inconclusive++
		}
		// signature and overlap
		var ev []event
		overlap := false
		for a := range ops {
			ev = append(ev, event{ops[a].Call, false, a}, event{ops[a].Return, true, a})
			for b := range ops[:a] {
				if ops[a].Call < ops[b].Return && ops[b].Call < ops[a].Return {
					x, y := ops[a].Input.(in), ops[b].Input.(in)
					if x.write || y.write {
						for _, k := range x.keys {
							for _, l := range y.keys {
								overlap = overlap || k == l
							}
						}
					}
				}
			}
		}
		sort.Slice(ev, func(a, b int) bool { return ev[a].t < ev[b].t })
		var sb strings.Builder
		for _, e := range ev {
			if e.ret {
				fmt.Fprintf(&sb, "r%d:%v ", ops[e.id].ClientId, ops[e.id].Output)
			} else {
				fmt.Fprintf(&sb, "c%d:%v ", ops[e.id].ClientId, ops[e.id].Input)
			}
		}
		r.Case(sb.String(), overlap)
		if overlap {
			r.Count("histories_with_overlapping_writes", 1)
			if r.NSamples() < 2 {
				r.Sample("history: " + sb.String())
			}
		}
		r.Count("operations", int64(len(ops)))
	}
	hookDelays(false)
	r.Count("histories", int64(n))
	r.Count("histories_undecided", inconclusive)
	r.Count("delayed_map_accesses", hookCount())
}

func pickKeys(g *rand.Rand, n int) []int {
	p := g.Perm(nKeys)
	return p[:n]
}

func vals(g *rand.Rand, n int) (l []string) {
	for i := 0; i < n; i++ {
		l = append(l, [...]string{"1", "5", "7", "-3", "a", "bb", "007", "10", "x"}[g.Intn(9)])
	}
	return
}

func genString(g *rand.Rand, keys int) in {
	k := []int{g.Intn(keys)}
	switch g.Intn(20) {
	case 0, 1:
		return in{name: "Set", keys: k, vals: vals(g, 1), write: true}
	case 2, 3:
		return in{name: "SetNX", keys: k, vals: vals(g, 1), write: true}
	case 4:
		return in{name: "GetSet", keys: k, vals: vals(g, 1), write: true}
	case 5, 6:
		return in{name: "Append", keys: k, vals: vals(g, 1), write: true}
	case 7:
		return in{name: "SetRange", keys: k, vals: vals(g, 1), n: int64(g.Intn(3)), write: true}
	case 8:
		return in{name: "Incr", keys: k, write: true}
	case 9:
		return in{name: "IncrBy", keys: k, n: int64(g.Intn(9) - 2), write: true}
	case 10:
		return in{name: "Decr", keys: k, write: true}
	case 11:
		return in{name: "DecrBy", keys: k, n: int64(g.Intn(5)), write: true}
	case 12:
		return in{name: "Del", keys: k, write: true}
	case 13:
		return in{name: [...]string{"StrLen", "GetRange", "Type", "Exists"}[g.Intn(4)], keys: k}
	case 14:
		return in{name: "PSetEX", keys: k, vals: vals(g, 1), n: int64(1 + g.Intn(2)), write: true}
	case 15:
		if g.Intn(3) == 0 {
			all := []int{0, 1, 2}
			return in{name: "Flush", keys: all, write: true}
		}
		return in{name: "PSetEX", keys: k, vals: vals(g, 1), n: 100000, write: true}
	default:
		return in{name: "Get", keys: k}
	}
}

func runC06(r *kit.Run) {
	stressStrings(r)
	histories(r, r.N(4000, 60000), func(g *rand.Rand) in { return genString(g, 2) }, 2)
	histories(r, r.N(2000, 30000), func(g *rand.Rand) in { // counters and appends only, one key
		x := genString(g, 1)
		for x.name == "Set" || x.name == "Flush" || x.name == "PSetEX" {
			x = genString(g, 1)
		}
		return x
	}, 1)
	r.Finish()
}

func genMulti(g *rand.Rand) in {
	n := 2 + g.Intn(2)
	switch g.Intn(12) {
	case 0, 1, 2:
		return in{name: "MSet", keys: pickKeys(g, n), vals: vals(g, n), write: true}
	case 3, 4:
		n = 1 + g.Intn(3)
		return in{name: "MSetNX", keys: pickKeys(g, n), vals: vals(g, n), write: true}
	case 5, 6, 7:
		return in{name: "MGet", keys: pickKeys(g, n)}
	case 8:
		return in{name: "Exists", keys: pickKeys(g, n)}
	case 9:
		return in{name: "Del", keys: pickKeys(g, 1), write: true}
	case 10:
		if g.Intn(3) == 0 {
			return in{name: "Flush", keys: []int{0, 1, 2}, write: true}
		}
		return in{name: "HSet", keys: pickKeys(g, 1), flds: []int{0}, vals: vals(g, 1), write: true}
	default:
		return genString(g, 3)
	}
}

func runC07(t *testing.T, r *kit.Run) {
	stressMulti(r)
	histories(r, r.N(5000, 80000), func(g *rand.Rand) in {
		x := genMulti(g)
		if x.name == "PSetEX" {
			x.n = 100000 // keys that expire during a multi-key command are not judged here
		}
		return x
	}, 3)
	inBubble(t, r, func() { bigMulti(r) })
	runSeqs(t, r, "C07", r.N(4000, 60000))
	r.Finish()
}

func pickFields(g *rand.Rand, n int) []int {
	p := g.Perm(nFields)
	return p[:n]
}

func genHash(g *rand.Rand, keys int) in {
	k := []int{g.Intn(keys)}
	f := pickFields(g, 1)
	n := 1 + g.Intn(3)
	switch g.Intn(20) {
	case 0, 1, 2:
		return in{name: "HSet", keys: k, flds: f, vals: vals(g, 1), write: true}
	case 3, 4:
		return in{name: "HSetNX", keys: k, flds: f, vals: vals(g, 1), write: true}
	case 5, 6:
		return in{name: "HDel", keys: k, flds: pickFields(g, n), write: true}
	case 7, 8:
		return in{name: "HMSet", keys: k, flds: pickFields(g, n), vals: vals(g, n), write: true}
	case 9, 10:
		return in{name: "HIncrBy", keys: k, flds: f, n: int64(g.Intn(7) - 2), write: true}
	case 11:
		return in{name: "HIncrByFloat", keys: k, flds: f, n: int64(g.Intn(7) - 2), write: true}
	case 12:
		return in{name: "HGet", keys: k, flds: f}
	case 13:
		return in{name: [...]string{"HExists", "HStrLen"}[g.Intn(2)], keys: k, flds: f}
	case 14, 15:
		return in{name: "HLen", keys: k}
	case 16:
		return in{name: "HMGet", keys: k, flds: pickFields(g, 2+g.Intn(2))}
	case 17:
		return in{name: [...]string{"HKeys", "HVals", "HGetAll"}[g.Intn(3)], keys: k}
	case 18:
		return in{name: "HGetAll", keys: k}
	default:
		switch g.Intn(4) {
		case 0:
			return in{name: "Del", keys: k, write: true}
		case 1:
			return in{name: "Type", keys: k}
		case 2:
			return in{name: "Exists", keys: k}
		}
		return in{name: "HLen", keys: k}
	}
}

func runC09(r *kit.Run) {
	stressHash(r)
	histories(r, r.N(4000, 60000), func(g *rand.Rand) in { return genHash(g, 1) }, 1)
	histories(r, r.N(2000, 30000), func(g *rand.Rand) in { return genHash(g, 2) }, 2)
	r.Finish()
}

// ---- stress with conservation laws

// together runs f in n goroutines that start at the same time.
func together(r *kit.Run, n int, f func(p int)) {
	var start int32
	var wg sync.WaitGroup
	for p := 0; p < n; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			r.Guard(func() {
				atomic.AddInt32(&start, 1)
				for atomic.LoadInt32(&start) < int32(n) {
					runtime.Gosched()
				}
				f(p)
			})
		}(p)
	}
	wg.Wait()
	r.Beat()
}

const P = 8

func stressStrings(r *kit.Run) {
	bigStress(r)
	for round := 0; round < r.N(12, 150); round++ {
		hookDelays(round%3 != 0)
		r.Step(fmt.Sprintf("C06 stress round %d", round))
		c := cache.New()
		per := 400
		// increments: nothing lost, no value handed out twice
		var seen sync.Map
		together(r, P, func(p int) {
			for i := 0; i < per; i++ {
				n, err := 0, error(nil)
				if (i+p)%2 == 0 {
					n, err = c.Incr("n")
				} else {
					n, err = c.IncrBy("n", 1)
				}
				if err != nil {
					r.Violation("a concurrent increment failed", err.Error())
				}
				if _, dup := seen.LoadOrStore(n, p); dup {
					r.Violation("two increments returned the same sum", n)
				}
			}
		})
		if v, err := c.Get("n"); v != strconv.Itoa(P*per) {
			r.Violation("increments were lost", fmt.Sprintf("%d goroutines x %d increments: %s, %v", P, per, v, err))
		}
		together(r, P, func(p int) {
			for i := 0; i < per; i++ {
				switch p % 4 {
				case 0:
					_, _ = c.Decr("n")
				case 1:
					_, _ = c.Incr("n")
				case 2:
					_, _ = c.DecrBy("n", 3)
				default:
					_, _ = c.IncrBy("n", 3)
				}
				_, _ = c.IncrByFloat("f", 0.5)
			}
		})
		if v, _ := c.Get("n"); v != strconv.Itoa(P*per) {
			r.Violation("increments and decrements do not balance", v)
		}
		if v, _ := c.Get("f"); v != strconv.Itoa(P*per/2) {
			r.Violation("float increments were lost", v)
		}
		// appends
		together(r, P, func(p int) {
			for i := 0; i < 150; i++ {
				if _, err := c.Append("a", fmt.Sprintf("<%d.%d>", p, i)); err != nil {
					r.Violation("a concurrent append failed", err.Error())
				}
			}
		})
		v, _ := c.Get("a")
		for p := 0; p < P; p++ {
			last := -1
			for i := 0; i < 150; i++ {
				at := strings.Index(v, fmt.Sprintf("<%d.%d>", p, i))
				if at <= last || strings.Count(v, fmt.Sprintf("<%d.%d>", p, i)) != 1 {
					r.Violation("an append is lost, doubled or out of order", fmt.Sprintf("<%d.%d> in %s", p, i, kit.Q(v)))
				}
				last = at
			}
		}
		// SetNX: one winner, whose value stays; also when an old value has just expired
		for i := 0; i < 120; i++ {
			k := fmt.Sprintf("nx%d", i)
			var wins int32
			winner := int32(-1)
			expired := i%4 == 3
			var dead time.Time
			if expired {
				_, _ = c.PSetEX(k, "old", 1)
				dead = time.Now().Add(time.Millisecond)
			}
			together(r, P, func(p int) {
				for expired && time.Now().Before(dead.Add(2*time.Microsecond)) {
				}
				n, err := c.SetNX(k, "v"+strconv.Itoa(p))
				if err != nil {
					r.Violation("SetNX failed", err.Error())
				}
				if n == 1 {
					atomic.AddInt32(&wins, 1)
					atomic.StoreInt32(&winner, int32(p))
				}
			})
			got, err := c.Get(k)
			if wins != 1 || got != fmt.Sprintf("v%d", winner) {
				r.Violation("competing SetNX calls on an absent key", fmt.Sprintf("%d winners, last %d, value %q %v, expired before: %v", wins, winner, got, err, expired))
			}
		}
		// GetSet: every value written comes out exactly once
		_, _ = c.Set("g", "first")
		var outs sync.Map
		together(r, P, func(p int) {
			for i := 0; i < 150; i++ {
				old, err := c.GetSet("g", fmt.Sprintf("%d.%d", p, i))
				if err != nil {
					r.Violation("GetSet failed", err.Error())
				}
				if _, dup := outs.LoadOrStore(old, true); dup {
					r.Violation("two GetSet calls returned the same old value", old)
				}
			}
		})
		// in place edits of a fixed-width record
		_, _ = c.Set("rec", strings.Repeat(".", P))
		together(r, P, func(p int) {
			_, _ = c.SetRange("rec", p, string(rune('a'+p)))
		})
		if v, _ := c.Get("rec"); v != "abcdefgh" {
			r.Violation("a concurrent SetRange was lost", v)
		}
		// no read begun after the deadline sees the value, whoever else reads
		for i := 0; i < 20; i++ {
			k := fmt.Sprintf("e%d", i)
			_, _ = c.PSetEX(k, "live", 1)
			dead := time.Now().Add(time.Millisecond)
			together(r, P, func(p int) {
				for j := 0; ; j++ {
					t0 := time.Now()
					var alive bool
					switch (p + j) % 5 {
					case 0:
						_, err := c.Get(k)
						alive = err == nil
					case 1:
						n, _ := c.StrLen(k)
						alive = n > 0
					case 2:
						s, _ := c.GetRange(k, 0, -1)
						alive = s != ""
					case 3:
						_, ok := c.MGet(k)[0].(string)
						alive = ok
					default:
						alive = c.Exists(k) > 0
					}
					if t0.After(dead) {
						if alive {
							r.Violation("a read begun after the deadline returned the value", fmt.Sprintf("command %d, %v after the deadline", (p+j)%5, t0.Sub(dead)))
						}
						if t0.After(dead.Add(200 * time.Microsecond)) {
							return
						}
					}
				}
			})
			r.Count("expiries_raced", 1)
		}
		for j := 0; j < 5; j++ {
			stressExpiry(r, round*5+j, false)
		}
		r.Count("stress_commands", int64(P*(per*4+150*2+120)))
		r.Case(fmt.Sprintf("stress %d", round), true)
	}
	hookDelays(false)
	r.Sample("8 goroutines: 3200 increments with distinct results, 1200 tagged appends, 120 SetNX races, GetSet chain, 20 deadline races")
}

// Writes with and without a time to live, deletions and flushes compete for a key. Whichever comes last, the value
// that is left decides the expiry: the value of an expiring write goes at its deadline, any other stays.
func stressExpiry(r *kit.Run, round int, multi bool) {
	const ttl = 90 // ms
	type write struct {
		name string
		f    func(c *cache.Cache, k string)
	}
	short := []write{
		{"PSetEX", func(c *cache.Cache, k string) { _, _ = c.PSetEX(k, "short", ttl) }},
	}
	long := []write{
		{"Set", func(c *cache.Cache, k string) { _, _ = c.Set(k, "long") }},
		{"SetEX", func(c *cache.Cache, k string) { _, _ = c.SetEX(k, "long", 1000) }},
		{"PSetEX", func(c *cache.Cache, k string) { _, _ = c.PSetEX(k, "long", 1000000) }},
		{"GetSet", func(c *cache.Cache, k string) { _, _ = c.GetSet(k, "long") }},
		{"SetNX", func(c *cache.Cache, k string) { _, _ = c.SetNX(k, "long") }},
		{"Del", func(c *cache.Cache, k string) { c.Del(k) }},
		{"Flush", func(c *cache.Cache, k string) { c.Flush() }},
	}
	if multi {
		long = []write{
			{"MSet", func(c *cache.Cache, k string) { c.MSet(map[string]string{k: "long", k + "'": "long"}) }},
			{"MSetNX", func(c *cache.Cache, k string) { c.MSetNX(map[string]string{k: "long", k + "'": "long"}) }},
			{"MSet and Del", func(c *cache.Cache, k string) { c.MSet(map[string]string{k: "long", k + "'": "long"}); c.Del(k) }},
			{"Flush", func(c *cache.Cache, k string) { c.Flush() }},
		}
	}
	type left struct {
		c      *cache.Cache
		k, how string
		value  string
	}
	var ls []left
	var dead time.Time
	for i := 0; i < 60; i++ {
		l := long[(i+round)%len(long)]
		l2 := long[(i/len(long))%len(long)]
		c := cache.New()
		k := fmt.Sprintf("x%d", i)
		if i%3 == 0 {
			_, _ = c.Set(k, "long")
		}
		if i%4 < 2 {
			hookSlow(uint32(i))
		} else {
			hookDelays(true)
		}
		together(r, 3, func(p int) {
			switch p {
			case 0:
				short[0].f(c, k)
			case 1:
				l.f(c, k)
			default:
				if i%2 == 0 {
					l2.f(c, k)
				} else {
					short[0].f(c, k)
				}
			}
		})
		hookDelays(round%3 != 0)
		how := "PSetEX against " + l.name
		if i%2 == 0 {
			how += " and " + l2.name
		}
		if c.Exists(k) == 0 { // a new value inherits no expiry
			how += ", then SetNX"
			_, _ = c.SetNX(k, "long")
		}
		v, err := c.Get(k)
		if err != nil {
			continue // it took longer than the time to live
		}
		if v != "long" && v != "short" {
			r.Violation("a value nobody wrote", fmt.Sprintf("%s: %q", how, v))
		}
		ls = append(ls, left{c, k, how, v})
		dead = time.Now().Add(ttl * time.Millisecond)
	}
	// a flush among many writers that queue for the lock
	for i := 0; i < 3; i++ {
		c := cache.New()
		hookSlow(uint32(i))
		together(r, 6, func(p int) {
			for j := 0; j < 5; j++ {
				if p == 0 {
					time.Sleep(1500 * time.Microsecond)
					c.Flush()
					continue
				}
				_, _ = c.PSetEX(fmt.Sprintf("w%d.%d", p, j), "short", ttl)
			}
		})
		hookDelays(round%3 != 0)
		dead = time.Now().Add(ttl * time.Millisecond)
		for p := 1; p < 6; p++ {
			for j := 0; j < 5; j++ {
				k := fmt.Sprintf("w%d.%d", p, j)
				_, _ = c.SetNX(k, "long")
				if v, err := c.Get(k); err == nil {
					ls = append(ls, left{c, k, "PSetEX against Flush, then SetNX", v})
				}
			}
		}
	}
	time.Sleep(time.Until(dead) + 2*time.Millisecond)
	for _, l := range ls {
		v, err := l.c.Get(l.k)
		if l.value == "short" && err == nil {
			r.Violation("the value of an expiring write is left without its expiry", fmt.Sprintf("%s: %q after its deadline", l.how, v))
		}
		if l.value == "long" && (err != nil || v != "long") {
			r.Violation("a value is left with the expiry of another write", fmt.Sprintf("%s: %q, %v after the deadline of the other write", l.how, v, err))
		}
	}
	r.Count("expiry_races", int64(len(ls)))
}

// sizes of multi-key commands and hashes, small ones more often
func stressSize(round int) int {
	return [...]int{6, 6, 40, 6, 130, 6, 400, 6, 6, 17, 6, 1500}[round%12]
}

func stressMulti(r *kit.Run) {
	manyRace(r)
	for round := 0; round < r.N(24, 300); round++ {
		keys := []string{"a", "b", "c", "d", "e", "f"}
		size := stressSize(round)
		for i := 6; i < size; i++ {
			keys = append(keys, fmt.Sprintf("key%d", i))
		}
		hookDelays((round+round/12)%3 != 0)
		r.Step(fmt.Sprintf("C07 stress round %d", round))
		c := cache.New()
		var torn int64
		flush := round%2 == 1
		writing := int32(3)
		together(r, P, func(p int) {
			g := rand.New(rand.NewSource(int64(p) + r.Seed*1000 + int64(round)*7))
			if p < 3 {
				defer atomic.AddInt32(&writing, -1)
			}
			// the readers go on for as long as there are writers
			for i := 0; i < 20+2400/size || p >= 3 && atomic.LoadInt32(&writing) > 0; i++ {
				if p < 3 {
					kv := map[string]string{}
					for _, k := range keys {
						kv[k] = fmt.Sprintf("%d.%d", p, i)
					}
					if flush && g.Intn(4) == 0 {
						c.Flush()
					} else if g.Intn(3) == 0 {
						if n := c.MSetNX(kv); n != 0 && n != len(keys) {
							r.Violation("MSetNX set some of its keys", n)
						}
					} else {
						c.MSet(kv)
					}
					continue
				}
				if p == 7 {
					if n := c.Exists(keys...); n != 0 && n != len(keys) {
						r.Violation("Exists saw part of a multi-key write", n)
					}
					continue
				}
				l := entries(c.MGet(keys...))
				for _, x := range l {
					if x != l[0] {
						r.Violation("MGet saw part of a multi-key write", strings.Join(l, " "))
					}
				}
				if l[0] != "!" {
					atomic.AddInt64(&torn, 1)
				}
			}
		})
		r.Count("mget_snapshots", torn)
		keys = keys[:6]
		// overlapping MSetNX: at most one of those that share a key wins, and it wins everything
		for i := 0; i < 60; i++ {
			c.Flush()
			var won [P]int
			together(r, P, func(p int) {
				kv := map[string]string{}
				for j := 0; j < 3; j++ {
					kv[keys[(p+j)%len(keys)]] = strconv.Itoa(p)
				}
				won[p] = c.MSetNX(kv)
			})
			owner := map[string]string{}
			for p, n := range won {
				if n == 0 {
					continue
				}
				if n != 3 {
					r.Violation("MSetNX set some of its keys", fmt.Sprint(won))
				}
				for j := 0; j < 3; j++ {
					k := keys[(p+j)%len(keys)]
					if owner[k] != "" {
						r.Violation("two MSetNX calls with a common key both won", fmt.Sprint(won))
					}
					owner[k] = strconv.Itoa(p)
				}
			}
			for _, k := range keys {
				v, _ := c.Get(k)
				if v != owner[k] {
					r.Violation("a key set by a losing MSetNX, or missing from a winning one", fmt.Sprintf("%s = %q, want %q, results %v", k, v, owner[k], won))
				}
			}
			if len(owner) == 0 {
				r.Violation("no MSetNX won on absent keys", fmt.Sprint(won))
			}
			r.Count("msetnx_races", 1)
		}
		stressExpiry(r, round, true)
		// MSetNX against SetNX
		for i := 0; i < 60; i++ {
			c.Flush()
			var m, s int
			together(r, 2, func(p int) {
				if p == 0 {
					m = c.MSetNX(map[string]string{"a": "m", "b": "m", "c": "m"})
				} else {
					s, _ = c.SetNX(keys[i%3], "s")
				}
			})
			l := strings.Join(entries(c.MGet("a", "b", "c")), "")
			if !(m == 3 && s == 0 && l == "=m=m=m") && !(m == 0 && s == 1 && strings.Count(l, "!") == 2 && strings.Count(l, "=s") == 1) {
				r.Violation("MSetNX raced with SetNX", fmt.Sprintf("MSetNX %d SetNX %d values %s", m, s, l))
			}
		}
		r.Case(fmt.Sprintf("stress %d", round), true)
	}
	hookDelays(false)
	r.Sample("3 writers of one token to 6 keys (MSet, MSetNX, Flush) against MGet and Exists readers; 60 races of 8 overlapping MSetNX")
}

func stressHash(r *kit.Run) {
	bigHashStress(r)
	for round := 0; round < r.N(24, 300); round++ {
		hookDelays((round+round/12)%3 != 0)
		r.Step(fmt.Sprintf("C09 stress round %d", round))
		c := cache.New()
		for i := 0; i < 100; i++ {
			k := fmt.Sprintf("h%d", i)
			// everyone creates the hash
			var wins int32
			together(r, P, func(p int) {
				f := fmt.Sprintf("f%d", p)
				switch (p + i) % 5 {
				case 0:
					_, _ = c.HSet(k, f, "v")
				case 1:
					_, _ = c.HSetNX(k, f, "v")
				case 2:
					_, _ = c.HIncrBy(k, f, 1)
				case 3:
					_, _ = c.HIncrByFloat(k, f, 1)
				default:
					_, _ = c.HMSet(k, map[string]string{f: "v", f + "'": "v"})
				}
				n, _ := c.HSetNX(k, "one", strconv.Itoa(p))
				atomic.AddInt32(&wins, int32(n))
				_, _ = c.HIncrBy(k, "cnt", 1)
			})
			if wins != 1 {
				r.Violation("competing HSetNX calls on a new field", fmt.Sprintf("%d winners", wins))
			}
			all, _ := c.HGetAll(k)
			for p := 0; p < P; p++ {
				if all[fmt.Sprintf("f%d", p)] == "" {
					r.Violation("a field written while the hash was created is lost", fmt.Sprint(all))
				}
			}
			if all["cnt"] != strconv.Itoa(P) {
				r.Violation("hash increments were lost", all["cnt"])
			}
			if n, _ := c.HLen(k); n != len(all) {
				r.Violation("HLen disagrees with the fields", fmt.Sprintf("%d, %v", n, all))
			}
			// the last field is removed while another is written
			k2 := k + "x"
			_, _ = c.HSet(k2, "old", "1")
			together(r, 3, func(p int) {
				switch p {
				case 0:
					_, _ = c.HDel(k2, "old")
				case 1:
					if i%2 == 0 {
						_, _ = c.HSet(k2, "new", "1")
					} else {
						_, _ = c.HMSet(k2, map[string]string{"new": "1"})
					}
				default:
					_, _ = c.HIncrBy(k2, "n", 1)
				}
			})
			all, _ = c.HGetAll(k2)
			if n, _ := c.HLen(k2); all["new"] != "1" || all["n"] != "1" || n != 2 || len(all) != 2 {
				r.Violation("a field written while the last one was removed is lost", fmt.Sprintf("%v, HLen %d", all, n))
			}
			// removals of the same field: one of them counts
			var del int32
			together(r, 4, func(p int) {
				n, _ := c.HDel(k2, "new", "n")
				atomic.AddInt32(&del, int32(n))
			})
			if del != 2 || c.Exists(k2) != 0 {
				r.Violation("competing HDel calls", fmt.Sprintf("%d fields reported removed, exists %d", del, c.Exists(k2)))
			}
			r.Count("hash_races", 3)
		}
		fields := []string{"a", "b", "c", "d", "e", "f"}
		size := stressSize(round)
		for i := 6; i < size; i++ {
			fields = append(fields, fmt.Sprintf("field%d", i))
		}
		var snaps int64
		writing := int32(3)
		together(r, P, func(p int) {
			if p < 3 {
				defer atomic.AddInt32(&writing, -1)
			}
			// the readers go on for as long as there are writers
			for i := 0; i < 20+1500/size || p >= 3 && atomic.LoadInt32(&writing) > 0; i++ {
				if p < 3 {
					fv := map[string]string{}
					for _, f := range fields {
						fv[f] = fmt.Sprintf("%d.%d", p, i)
					}
					_, _ = c.HMSet("snap", fv)
					if i%10 == 9 && round%4 > 1 {
						c.Del("snap")
					} else if i%10 == 4 && round%4 > 1 {
						_, _ = c.HDel("snap", fields...)
					}
					continue
				}
				var l []string
				switch p {
				case 3, 4:
					v, _ := c.HMGet("snap", fields...)
					l = entries(v)
				case 5:
					if i%2 == 0 {
						l, _ = c.HVals("snap")
						break
					}
					if f, _ := c.HKeys("snap"); len(f) != 0 && len(f) != len(fields) {
						r.Violation("HKeys saw part of an HMSet", len(f))
					}
				case 6:
					if n, _ := c.HLen("snap"); n != 0 && n != len(fields) {
						r.Violation("HLen saw part of an HMSet", n)
					}
				default:
					m, _ := c.HGetAll("snap")
					for _, v := range m {
						l = append(l, v)
					}
				}
				for _, x := range l {
					if x != l[0] {
						r.Violation("a read saw part of an HMSet", strings.Join(l, " "))
					}
				}
				if len(l) != 0 && len(l) != len(fields) {
					r.Violation("a read saw part of an HMSet", strings.Join(l, " "))
				}
				if len(l) > 0 {
					atomic.AddInt64(&snaps, 1)
				}
			}
		})
		r.Count("hash_snapshots", snaps)
		r.Case(fmt.Sprintf("stress %d", round), true)
	}
	hookDelays(false)
	r.Sample("8 goroutines create one hash together, HSetNX winners, HDel of the last field against HSet, HMSet tokens against HMGet/HVals/HGetAll")
}
