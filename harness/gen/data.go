package gen

import (
	"math"
	"math/rand"
	"strconv"
	"strings"

	"verif/harness/kit"
)

// Elem is an element or member, biased to the borders of the encodings.
func Elem(g *rand.Rand) string {
	switch g.Intn(12) {
	case 0:
		return strconv.Itoa(g.Intn(16) - 2)
	case 1:
		k := []int64{0, 12, 13, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, 16777215, 16777216, 2147483647, 2147483648, 4294967295, 4294967296, 1<<62 - 1, 1<<63 - 1}[g.Intn(21)]
		k += int64(g.Intn(3) - 1)
		if k == -1<<63 {
			k = 1<<63 - 1
		}
		if g.Intn(2) == 0 {
			k = -k
		}
		return strconv.FormatInt(k, 10)
	case 2:
		return "-9223372036854775808"
	case 3:
		n := [...]int{0, 1, 62, 63, 64, 65, 127, 128, 252, 253, 254, 255, 256, 257, 300, 511, 512}[g.Intn(17)]
		return rnd(g, n)
	case 4:
		if g.Intn(20) == 0 {
			return rnd(g, [...]int{16382, 16383, 16384, 16385, 20000, 65535, 65536, 70000}[g.Intn(8)])
		}
		return rnd(g, g.Intn(40))
	case 5:
		return string(Compressible(g, g.Intn(300)))
	case 6:
		return strconv.FormatInt(int64(g.Uint64())>>uint(g.Intn(64)), 10)
	default:
		return kit.Value(g)
	}
}

func rnd(g *rand.Rand, n int) string {
	b := make([]byte, n)
	g.Read(b)
	if g.Intn(2) == 0 {
		return strings.Repeat("s", n)
	}
	return string(b)
}

func Score(g *rand.Rand) float64 {
	switch g.Intn(8) {
	case 0:
		return math.Inf(1)
	case 1:
		return math.Inf(-1)
	case 2:
		return float64(g.Intn(20) - 4)
	case 3:
		return [...]float64{0, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e300, 1e-300, 0.1, 1.0 / 3, 1 << 53, 1<<53 + 2, 1e17, -1e17, 9007199254740993}[g.Intn(14)]
	default:
		return kit.Float(g)
	}
}

// Value is a random value with up to n elements.
func Value(g *rand.Rand, n int) *Val {
	v := &Val{Kind: Kind(g.Intn(5))}
	count := 1 + g.Intn(n)
	uniq := func(f func() string) []string {
		seen := map[string]bool{}
		var l []string
		for i := 0; i < count; i++ {
			e := f()
			if !seen[e] {
				seen[e] = true
				l = append(l, e)
			}
		}
		return l
	}
	switch v.Kind {
	case String:
		v.Str = Elem(g)
	case List:
		for i := 0; i < count; i++ {
			v.List = append(v.List, Elem(g))
		}
	case Set:
		if g.Intn(2) == 0 {
			sh := uint(g.Intn(64))
			v.List = uniq(func() string {
				if g.Intn(10) == 0 {
					return strconv.FormatInt(kit.Int(g)>>sh, 10)
				}
				return strconv.FormatInt(int64(g.Uint64())>>sh, 10)
			})
		} else {
			v.List = uniq(func() string { return Elem(g) })
		}
	case Hash:
		v.Hash = map[string]string{}
		for i := 0; i < count; i++ {
			v.Hash[Elem(g)] = Elem(g)
		}
	case ZSet:
		v.ZSet = map[string]float64{}
		for i := 0; i < count; i++ {
			v.ZSet[Elem(g)] = Score(g)
		}
	}
	if g.Intn(3) == 0 {
		switch g.Intn(5) {
		case 0:
			v.Expire = 1 + g.Int63n(1<<62)
		case 1:
			v.Expire = 1000 * (1 + g.Int63n(1<<32-1))
		case 2:
			v.Expire = [...]int64{1, 999, 1000, 2147483647000, 2147483648000, 4294967295000, 4294967296000, 1<<63 - 1}[g.Intn(8)]
		default:
			v.Expire = 1583000000000 + g.Int63n(1e12)
		}
	}
	return v
}

func Key(g *rand.Rand) string {
	if g.Intn(3) == 0 {
		return kit.Words[g.Intn(len(kit.Words))] + strconv.Itoa(g.Intn(50))
	}
	return Elem(g)
}

func NewDataset(g *rand.Rand, keys, elems int) Dataset {
	d := Dataset{}
	for n := 1 + g.Intn(3); n > 0; n-- {
		db := g.Intn(16)
		if g.Intn(10) == 0 {
			db = [...]int{63, 64, 100, 16384, 70000}[g.Intn(5)]
		}
		m := map[string]*Val{}
		for k := g.Intn(keys + 1); k > 0; k-- {
			m[Key(g)] = Value(g, elems)
		}
		d[db] = m
	}
	return d
}
