package cachechk

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/liujiangwei/xxcache/cache"

	"verif/harness/kit"
)

// ---- C12

// removal is one way for data to leave a cache: fill stores item i, remove makes all of it disappear. After remove the
// cache has to be as good as empty (or hold the few bytes that replaced the data).
type removal struct {
	name string
	fill func(c *cache.Cache, i int, k, v string)
	// remove of one item; the key is the same text in another allocation
	remove func(c *cache.Cache, i int, k string)
	after  func(c *cache.Cache)
	wait   bool // let the deadlines pass in between
	keys   bool // the key itself stays in use
}

func removals() (l []removal) {
	set := func(c *cache.Cache, i int, k, v string) { _, _ = c.Set(k, v) }
	setex := func(c *cache.Cache, i int, k, v string) { _, _ = c.PSetEX(k, v, 1000) }
	hash := func(c *cache.Cache, i int, k, v string) {
		for f := 0; f < 4; f++ {
			_, _ = c.HSet(k, fmt.Sprint("f", f), v[f*len(v)/4:(f+1)*len(v)/4]+"x")
		}
	}
	field := func(c *cache.Cache, i int, k, v string) { _, _ = c.HSet("hash", k, v) }
	del := func(c *cache.Cache, i int, k string) { c.Del(k) }
	fills := []removal{{name: "Set", fill: set}, {name: "PSetEX", fill: setex}, {name: "HSet", fill: hash},
		{name: "MSet", fill: func(c *cache.Cache, i int, k, v string) { c.MSet(map[string]string{k: v}) }},
		{name: "MSetNX", fill: func(c *cache.Cache, i int, k, v string) { c.MSetNX(map[string]string{k: v}) }},
		{name: "SetNX", fill: func(c *cache.Cache, i int, k, v string) { _, _ = c.SetNX(k, v) }},
		{name: "Append", fill: func(c *cache.Cache, i int, k, v string) { _, _ = c.Append(k, v[1:]); _, _ = c.Append(k, v[:1]) }},
		{name: "SetRange", fill: func(c *cache.Cache, i int, k, v string) { _, _ = c.SetRange(k, 3, v) }},
		{name: "GetSet", fill: func(c *cache.Cache, i int, k, v string) { _, _ = c.GetSet(k, v); _, _ = c.GetSet(k, v+"x") }},
		{name: "HMSet", fill: func(c *cache.Cache, i int, k, v string) { _, _ = c.HMSet(k, map[string]string{"a": v, v[:9]: "b"}) }},
		{name: "HSetNX", fill: func(c *cache.Cache, i int, k, v string) { _, _ = c.HSetNX(k, "f", v); _, _ = c.HSetNX(k, "f", v+"y") }},
		{name: "everything", fill: func(c *cache.Cache, i int, k, v string) {
			_, _ = c.PSetEX(k, v+"1", 500)
			_, _ = c.Append(k, "2")
			_, _ = c.GetSet(k, v)
			_, _ = c.PSetEX(k, v+"3", 50000)
			_, _ = c.SetRange(k, 1, "4")
			_, _ = c.Get(k)
			_, _ = c.GetRange(k, 0, -1)
			_, _ = c.Incr(k)
			_, _ = c.HSet(k, "f", v)
			c.MGet(k, "other")
		}}}
	for _, f := range fills {
		x := f
		x.name, x.remove = f.name+", Del", del
		l = append(l, x)
		x.name, x.remove, x.after = f.name+", Flush", func(*cache.Cache, int, string) {}, func(c *cache.Cache) { c.Flush() }
		l = append(l, x)
		if f.name == "HSet" || f.name == "HMSet" || f.name == "HSetNX" {
			x.after = nil
			x.name, x.remove = f.name+", all fields deleted", func(c *cache.Cache, i int, k string) {
				l, _ := c.HKeys(k)
				_, _ = c.HDel(k, l...)
			}
			l = append(l, x)
			x.name, x.remove = f.name+", fields deleted one by one", func(c *cache.Cache, i int, k string) {
				l, _ := c.HKeys(k)
				for _, f := range l {
					_, _ = c.HDel(k, f)
				}
			}
			l = append(l, x)
		}
		x.keys, x.after = true, nil
		over := func(name string, do func(c *cache.Cache, i int, k string)) {
			y := x
			y.name, y.remove = f.name+", "+name, do
			l = append(l, y)
		}
		over("Set over it", func(c *cache.Cache, i int, k string) { _, _ = c.Set(k, "s") })
		over("PSetEX over it", func(c *cache.Cache, i int, k string) { _, _ = c.PSetEX(k, "s", 100000) })
		over("MSet over it", func(c *cache.Cache, i int, k string) { c.MSet(map[string]string{k: "12"}) })
		switch {
		case f.name == "HSet":
			over("HSet over its fields", func(c *cache.Cache, i int, k string) {
				l, _ := c.HKeys(k)
				for _, f := range l {
					_, _ = c.HSet(k, f, "s")
				}
			})
			over("HMSet over its fields", func(c *cache.Cache, i int, k string) {
				l, _ := c.HKeys(k)
				m := map[string]string{}
				for _, f := range l {
					m[f] = "1"
				}
				_, _ = c.HMSet(k, m)
			})
			over("HDel of most", func(c *cache.Cache, i int, k string) {
				_, _ = c.HSet(k, "keep", "1")
				_, _ = c.HDel(k, "f0", "f1", "nope", "f2", "f3")
			})
		case f.name == "Set" || f.name == "PSetEX":
			over("GetSet over it", func(c *cache.Cache, i int, k string) { _, _ = c.GetSet(k, "s") })
		}
	}
	l = append(l, removal{name: "HSet in one hash, HDel", fill: field, remove: func(c *cache.Cache, i int, k string) { _, _ = c.HDel("hash", k) }},
		removal{name: "HSet in one hash that stays, HDel", fill: func(c *cache.Cache, i int, k, v string) {
			field(c, i, k, v)
			_, _ = c.HSet("hash", "stay", "1")
		}, remove: func(c *cache.Cache, i int, k string) { _, _ = c.HDel("hash", k) }},
		removal{name: "HSet in one hash, Del", fill: field, remove: func(c *cache.Cache, i int, k string) {}, after: func(c *cache.Cache) { c.Del("hash") }},
		removal{name: "HSet in one hash, Set over it", fill: field, remove: func(c *cache.Cache, i int, k string) {}, after: func(c *cache.Cache) { _, _ = c.Set("hash", "1") }})
	// expired data goes when a command comes across it
	late := []struct {
		name string
		keys bool
		do   func(c *cache.Cache, i int, k string)
	}{
		{"Get", false, func(c *cache.Cache, i int, k string) { _, _ = c.Get(k) }},
		{"Exists", false, func(c *cache.Cache, i int, k string) { c.Exists("x", k) }},
		{"MGet", false, func(c *cache.Cache, i int, k string) { c.MGet("x", k) }},
		{"Type", false, func(c *cache.Cache, i int, k string) { c.Type(k) }},
		{"StrLen", false, func(c *cache.Cache, i int, k string) { _, _ = c.StrLen(k) }},
		{"GetRange", false, func(c *cache.Cache, i int, k string) { _, _ = c.GetRange(k, 0, 1) }},
		{"Del", false, func(c *cache.Cache, i int, k string) { c.Del(k) }},
		{"HGet", false, func(c *cache.Cache, i int, k string) { _, _ = c.HGet(k, "f") }},
		{"HDel", false, func(c *cache.Cache, i int, k string) { _, _ = c.HDel(k, "f") }},
		{"HGetAll", false, func(c *cache.Cache, i int, k string) { _, _ = c.HGetAll(k) }},
		{"SetNX", true, func(c *cache.Cache, i int, k string) { _, _ = c.SetNX(k, "1") }},
		{"MSetNX", true, func(c *cache.Cache, i int, k string) { c.MSetNX(map[string]string{k: "1"}) }},
		{"Append", true, func(c *cache.Cache, i int, k string) { _, _ = c.Append(k, "1") }},
		{"SetRange", true, func(c *cache.Cache, i int, k string) { _, _ = c.SetRange(k, 0, "1") }},
		{"Incr", true, func(c *cache.Cache, i int, k string) { _, _ = c.Incr(k) }},
		{"IncrByFloat", true, func(c *cache.Cache, i int, k string) { _, _ = c.IncrByFloat(k, 1.5) }},
		{"HSet", true, func(c *cache.Cache, i int, k string) { _, _ = c.HSet(k, "f", "1") }},
		{"GetSet", true, func(c *cache.Cache, i int, k string) { _, _ = c.GetSet(k, "1") }},
	}
	for _, x := range late {
		l = append(l, removal{name: "PSetEX, expired, " + x.name, fill: setex, remove: x.do, keys: x.keys, wait: true})
	}
	return
}

func runMemory(r *kit.Run) {
	g := r.Rng(12)
	n, size, small := r.N(100, 300), 20<<10, 16
	for round := 0; round < r.N(2, 8); round++ {
		for _, x := range removals() {
			for shape := 0; shape < 2; shape++ { // big values, big keys
				bigKey := shape == 1
				if bigKey && x.keys {
					continue
				}
				key := func(i int) string {
					if bigKey {
						return fmt.Sprintf("%06d", i) + strings.Repeat("k", size)
					}
					return fmt.Sprintf("%06d", i)
				}
				l := small
				if !bigKey {
					l = size + g.Intn(100)
				}
				c := cache.New()
				r.Step(fmt.Sprint("C12 ", x.name, " big keys ", bigKey))
				r.Beat()
				base := heap()
				for i := 0; i < n; i++ {
					x.fill(c, i, key(i), strings.Repeat(string(rune('a'+i%26)), l))
				}
				full := heap() - base
				if x.wait {
					time.Sleep(2 * time.Second)
				}
				for i := 0; i < n; i++ {
					x.remove(c, i, key(i))
				}
				if x.after != nil {
					x.after(c)
				}
				left := heap() - base
				if full < int64(n*size)*9/10 && !(bigKey && strings.HasPrefix(x.name, "HSet in one hash")) {
					r.Violation("the data was not stored", fmt.Sprintf("%s (big keys %v): %d bytes in use after storing %d", x.name, bigKey, full, n*size))
				}
				if left > full/10 {
					r.Violation("the memory of removed data is not released", fmt.Sprintf("%s (big keys %v): %d of %d bytes still in use once all %d items were gone", x.name, bigKey, left, full, n))
				}
				r.Count("released_bytes", full-left)
				r.Case(fmt.Sprint(x.name, bigKey, n, l), full > 1<<20)
				runtime.KeepAlive(c)
			}
		}
	}
	// comings and goings do not add up
	churns := []struct {
		name string
		do   func(c *cache.Cache, i int, k string)
	}{
		{"PSetEX and Del", func(c *cache.Cache, i int, k string) { _, _ = c.PSetEX(k, "v", 100000); c.Del(k) }},
		{"PSetEX, Set and Del", func(c *cache.Cache, i int, k string) {
			_, _ = c.PSetEX(k, "v", 100000)
			_, _ = c.Set(k, "v")
			c.Del(k)
		}},
		{"Set and Del", func(c *cache.Cache, i int, k string) { _, _ = c.Set(k, "v"); c.Del(k) }},
		{"Set and Flush", func(c *cache.Cache, i int, k string) {
			_, _ = c.SetEX(k, "v", 1000)
			if i%100 == 99 {
				c.Flush()
			}
		}},
		{"HSet and HDel", func(c *cache.Cache, i int, k string) { _, _ = c.HSet("h", k, "v"); _, _ = c.HDel("h", k) }},
		{"HSet and HDel beside another field", func(c *cache.Cache, i int, k string) {
			_, _ = c.HSet("h", "stay", "v")
			_, _ = c.HSet("h", k, "v")
			_, _ = c.HDel("h", k)
		}},
		{"HSet and HDel of new hashes", func(c *cache.Cache, i int, k string) { _, _ = c.HSet(k, "f", "v"); _, _ = c.HDel(k, "f") }},
		{"reads of missing keys", func(c *cache.Cache, i int, k string) {
			_, _ = c.Get(k)
			c.Exists(k)
			c.Type(k)
			c.MGet(k)
			_, _ = c.StrLen(k)
			_, _ = c.GetRange(k, 0, 1)
			_, _ = c.HGet(k, k)
			_, _ = c.HLen(k)
			_, _ = c.HExists(k, k)
			_, _ = c.HKeys(k)
			_, _ = c.HVals(k)
			_, _ = c.HGetAll(k)
			_, _ = c.HMGet(k, k)
			_, _ = c.HStrLen(k, k)
			_, _ = c.HDel(k, k)
			c.Del(k)
		}},
		{"reads of missing fields", func(c *cache.Cache, i int, k string) {
			_, _ = c.HSet("h", "stay", "v")
			_, _ = c.HGet("h", k)
			_, _ = c.HExists("h", k)
			_, _ = c.HMGet("h", k, k+k)
			_, _ = c.HStrLen("h", k)
			_, _ = c.HDel("h", k)
		}},
		{"commands that fail", func(c *cache.Cache, i int, k string) {
			_, _ = c.Set("s", "v")
			_, _ = c.HSet("h", "f", "v")
			_, _ = c.HSet("s", k, "v")
			_, _ = c.HSetNX("s", k, "v")
			_, _ = c.HMSet("s", map[string]string{k: "v"})
			_, _ = c.HIncrBy("s", k, 1)
			_, _ = c.HIncrByFloat("s", k, 1)
			_, _ = c.HIncrBy("h", "f", 1)
			_, _ = c.Append("h", k)
			_, _ = c.Incr("h")
			_, _ = c.Incr("s")
			_, _ = c.SetRange("h", 1, k)
			_, _ = c.SetRange(k, -1, k)
			c.MSetNX(map[string]string{k: "v", "s": "v"})
			_, _ = c.SetNX("s", k)
			_, _ = c.HSetNX("h", "f", k)
		}},
		{"rewrites of one key", func(c *cache.Cache, i int, k string) {
			_, _ = c.Set("one", k)
			_, _ = c.PSetEX("one", k, 1000)
			_, _ = c.GetSet("one", k)
			_, _ = c.HSet("h", "one", k)
			_, _ = c.Incr("n")
			_, _ = c.IncrByFloat("x", 0.5)
			_, _ = c.HIncrBy("h", "n", 1)
			_, _ = c.SetRange("one", 2, k)
			c.MSet(map[string]string{"one": k, "two": k})
			_, _ = c.HMSet("h", map[string]string{"one": k, "two": k})
			if i%50 == 0 {
				c.Del("one")
				c.Del("h")
			}
		}},
		{"many different values of a few keys", func(c *cache.Cache, i int, k string) {
			n := strconv.Itoa(i*1000003 - 5000000)
			for j, v := range []string{n, n + ".5", "v" + n} {
				_, _ = c.Set(fmt.Sprint("s", j), v)
				_, _ = c.HSet("h", fmt.Sprint("f", j), v)
				_, _ = c.Get(fmt.Sprint("s", j))
				_, _ = c.HGet("h", fmt.Sprint("f", j))
			}
			_, _ = c.GetSet("s0", n)
			_, _ = c.IncrBy("s0", int64(i))
			_, _ = c.IncrByFloat("s1", 0.25)
			_, _ = c.SetRange("s2", 0, n)
			_, _ = c.GetRange("s2", 0, i%20)
			_, _ = c.HIncrBy("h", "f0", i)
			_, _ = c.HIncrByFloat("h", "f1", 0.25)
			c.MSet(map[string]string{"s0": n + "1"})
		}},
		{"keys that expire and are read", func(c *cache.Cache, i int, k string) {
			_, _ = c.PSetEX(k, "v", 1)
			time.Sleep(2 * time.Millisecond)
			_, _ = c.Get(k)
		}},
	}
	for _, x := range churns {
		c := cache.New()
		total := r.N(20000, 300000)
		key := func(i int) string { return fmt.Sprintf("%032d", i) }
		r.Step("C12 churn: " + x.name)
		for i := 0; i < 2000; i++ {
			x.do(c, i, key(i))
		}
		base := heap()
		for i := 2000; i < 2000+total; i++ {
			x.do(c, i, key(i))
			if i%1000 == 0 {
				r.Beat()
			}
		}
		if grown := heap() - base; grown > int64(total)*4+100<<10 {
			r.Violation("memory grows with data that came and went", fmt.Sprintf("%s, %d times: %d bytes more in use, and the cache holds no more than before", x.name, total, grown))
		} else {
			r.Max("grown_bytes", grown)
		}
		r.Case("churn "+x.name, true)
		runtime.KeepAlive(c)
	}
}
