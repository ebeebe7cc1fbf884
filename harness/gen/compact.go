package gen

import (
	"encoding/binary"
	"math/rand"
	"strconv"
)

// Forms counts which forms an encoder used.
type Forms map[string]int64

func (f Forms) hit(s string) {
	if f != nil {
		f[s]++
	}
}

// ParseInt64 is the integer a ziplist stores for the text, if it does.
func ParseInt64(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || strconv.FormatInt(n, 10) != s {
		return 0, false
	}
	return n, true
}

func le(n int64, size int) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(n))
	return append([]byte(nil), b[:size]...)
}

// Ziplist encodes the elements. Numbers are stored as integers or as text, strings with any form that fits.
func Ziplist(g *rand.Rand, elems []string, f Forms) []byte {
	odd := g.Intn(4) == 0 // forms redis itself would not choose but the format has
	var body []byte
	prev := 0
	tail := 10
	for _, e := range elems {
		var ent []byte
		if prev < 254 && g.Intn(20) != 0 {
			ent = append(ent, byte(prev))
			f.hit("prevlen1")
		} else {
			ent = append(ent, 254)
			ent = append(ent, le(int64(prev), 4)...)
			f.hit("prevlen5")
		}
		n, isInt := ParseInt64(e)
		if isInt && len(e) < 32 && !(odd && g.Intn(4) == 0) {
			min := 8
			switch {
			case n >= 0 && n <= 12:
				min = 0
			case n >= -128 && n <= 127:
				min = 1
			case n >= -32768 && n <= 32767:
				min = 2
			case n >= -1<<23 && n < 1<<23:
				min = 3
			case n >= -1<<31 && n < 1<<31:
				min = 4
			}
			if odd {
				sizes := []int{0, 1, 2, 3, 4, 8}
				for {
					s := sizes[g.Intn(6)]
					if s >= min {
						min = s
						break
					}
				}
			}
			switch min {
			case 0:
				ent = append(ent, byte(0xf1+n))
				f.hit("imm")
			case 1:
				ent = append(append(ent, 0xfe), le(n, 1)...)
				f.hit("int8")
			case 2:
				ent = append(append(ent, 0xc0), le(n, 2)...)
				f.hit("int16")
			case 3:
				ent = append(append(ent, 0xf0), le(n, 3)...)
				f.hit("int24")
			case 4:
				ent = append(append(ent, 0xd0), le(n, 4)...)
				f.hit("int32")
			case 8:
				ent = append(append(ent, 0xe0), le(n, 8)...)
				f.hit("int64")
			}
		} else {
			form := 6
			if len(e) > 63 {
				form = 14
			}
			if len(e) > 16383 {
				form = 32
			}
			if odd && g.Intn(3) == 0 {
				form = [...]int{6, 14, 32}[g.Intn(3)]
				if len(e) > 63 && form == 6 {
					form = 14
				}
				if len(e) > 16383 {
					form = 32
				}
			}
			switch form {
			case 6:
				ent = append(ent, byte(len(e)))
				f.hit("str6")
			case 14:
				ent = append(ent, byte(0x40|len(e)>>8), byte(len(e)))
				f.hit("str14")
			default:
				ent = append(ent, 0x80, byte(len(e)>>24), byte(len(e)>>16), byte(len(e)>>8), byte(len(e)))
				f.hit("str32")
			}
			ent = append(ent, e...)
		}
		tail = 10 + len(body)
		body = append(body, ent...)
		prev = len(ent)
	}
	out := make([]byte, 10, 11+len(body))
	binary.LittleEndian.PutUint32(out, uint32(11+len(body)))
	binary.LittleEndian.PutUint32(out[4:], uint32(tail))
	n := len(elems)
	if n > 65535 {
		n = 65535
	}
	binary.LittleEndian.PutUint16(out[8:], uint16(n))
	return append(append(out, body...), 255)
}

// Intset encodes the (sorted) integers with the given width.
func Intset(vals []int64, width int) []byte {
	out := make([]byte, 8)
	binary.LittleEndian.PutUint32(out, uint32(width))
	binary.LittleEndian.PutUint32(out[4:], uint32(len(vals)))
	for _, v := range vals {
		out = append(out, le(v, width)...)
	}
	return out
}

func IntsetWidth(vals []int64) int {
	w := 2
	for _, v := range vals {
		if v < -1<<31 || v > 1<<31-1 {
			return 8
		}
		if v < -32768 || v > 32767 {
			w = 4
		}
	}
	return w
}

// Pair is a field and its value.
type Pair struct{ F, V string }

// Zipmap encodes the pairs, with slack bytes after the values.
func Zipmap(g *rand.Rand, pairs []Pair, slack func() int, f Forms) []byte {
	odd := g.Intn(5) == 0
	out := []byte{254}
	if len(pairs) < 254 {
		out[0] = byte(len(pairs))
	}
	length := func(n int) {
		if n < 254 && !(odd && g.Intn(4) == 0) {
			out = append(out, byte(n))
			f.hit("len1")
		} else {
			out = append(out, 254)
			out = append(out, le(int64(n), 4)...)
			f.hit("len5")
		}
	}
	for _, p := range pairs {
		length(len(p.F))
		out = append(out, p.F...)
		length(len(p.V))
		s := slack()
		out = append(out, byte(s))
		out = append(out, p.V...)
		junk := make([]byte, s)
		g.Read(junk)
		if s > 0 {
			f.hit("slack")
			if g.Intn(3) == 0 {
				junk[0] = 255
			}
		}
		out = append(out, junk...)
	}
	return append(out, 255)
}
