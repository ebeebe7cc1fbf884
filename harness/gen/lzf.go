// Package gen holds independent encoders of the formats the snapshot reader has to understand.
package gen

import "math/rand"

// LZF encodes data as a well-formed LZF stream, choosing freely among literal runs and matches.
func LZF(g *rand.Rand, data []byte) []byte {
	var out []byte
	last := map[[3]byte][]int{}
	lit := []byte(nil)
	flush := func() {
		for len(lit) > 0 {
			n := len(lit)
			if n > 32 {
				n = 32
			}
			if g.Intn(8) == 0 {
				n = 1 + g.Intn(n)
			}
			out = append(out, byte(n-1))
			out = append(out, lit[:n]...)
			lit = lit[n:]
		}
	}
	skip := g.Intn(4)
	add := func(i int) {
		if i+3 <= len(data) {
			k := [3]byte{data[i], data[i+1], data[i+2]}
			l := last[k]
			if len(l) >= 8 {
				l = l[1:]
			}
			last[k] = append(l, i)
		}
	}
	for i := 0; i < len(data); {
		best, dist := 0, 0
		if i+3 <= len(data) && !(skip > 0 && g.Intn(6) < skip) {
			k := [3]byte{data[i], data[i+1], data[i+2]}
			cands := last[k]
			if len(cands) > 0 {
				c := cands[len(cands)-1]
				if g.Intn(2) == 0 {
					c = cands[g.Intn(len(cands))]
				}
				if i-c <= 8192 {
					n := 3
					for n < 264 && i+n < len(data) && data[c+n] == data[i+n] {
						n++
					}
					if g.Intn(5) == 0 && n > 3 {
						n = 3 + g.Intn(n-2)
					}
					best, dist = n, i-c
				}
			}
		}
		if best < 3 {
			lit = append(lit, data[i])
			add(i)
			i++
			continue
		}
		flush()
		out = append(out, match(best, dist)...)
		for j := 0; j < best; j++ {
			add(i + j)
		}
		i += best
	}
	flush()
	return out
}

func match(n, dist int) []byte {
	off := dist - 1
	l := n - 2
	if l < 7 {
		return []byte{byte(l<<5 | off>>8), byte(off)}
	}
	return []byte{byte(7<<5 | off>>8), byte(l - 7), byte(off)}
}

// RandomLZF makes up a stream of any shape and the bytes it decodes to.
func RandomLZF(g *rand.Rand, ops int) (stream, data []byte) {
	for i := 0; i < ops; i++ {
		if len(data) == 0 || g.Intn(3) == 0 {
			n := 1 + g.Intn(32)
			b := make([]byte, n)
			g.Read(b)
			if g.Intn(2) == 0 {
				for j := range b {
					b[j] = b[0]
				}
			}
			stream = append(append(stream, byte(n-1)), b...)
			data = append(data, b...)
			continue
		}
		max := len(data)
		if max > 8192 {
			max = 8192
		}
		dist := 1 + g.Intn(max)
		switch g.Intn(4) {
		case 0:
			if max > 8 {
				dist = 1 + g.Intn(8) // overlapping
			}
		case 1:
			dist = max
		}
		n := 3 + g.Intn(9)
		switch g.Intn(4) {
		case 0:
			n = 3 + g.Intn(262)
		case 1:
			n = [...]int{8, 9, 10, 264, 263, 3, 4, 31, 32, 33}[g.Intn(10)]
		}
		stream = append(stream, match(n, dist)...)
		for j := 0; j < n; j++ {
			data = append(data, data[len(data)-dist])
		}
	}
	return
}

// UnLZF decodes a stream; ok is false if it is not a stream of exactly n bytes.
func UnLZF(s []byte, n int) (out []byte, ok bool) {
	i := 0
	for i < len(s) {
		c := int(s[i])
		i++
		if c < 32 {
			c++
			if i+c > len(s) || len(out)+c > n {
				return nil, false
			}
			out = append(out, s[i:i+c]...)
			i += c
			continue
		}
		l := c >> 5
		if l == 7 {
			if i >= len(s) {
				return nil, false
			}
			l += int(s[i])
			i++
		}
		if i >= len(s) {
			return nil, false
		}
		dist := (c&31)<<8 + int(s[i]) + 1
		i++
		l += 2
		if dist > len(out) || len(out)+l > n {
			return nil, false
		}
		for ; l > 0; l-- {
			out = append(out, out[len(out)-dist])
		}
	}
	return out, len(out) == n
}

// Decoded is what a stream decodes to when there is room for it.
func Decoded(s []byte) ([]byte, bool) {
	out, _ := UnLZF(s, 1<<40)
	return out, out != nil
}

// Compressible makes data with repetitions at all distances.
func Compressible(g *rand.Rand, n int) []byte {
	var b []byte
	for len(b) < n {
		switch g.Intn(5) {
		case 0:
			for k := g.Intn(400); k >= 0; k-- {
				b = append(b, 'a')
			}
		case 1:
			k := 1 + g.Intn(20)
			p := make([]byte, k)
			g.Read(p)
			for j := g.Intn(12); j >= 0; j-- {
				b = append(b, p...)
			}
		case 2:
			if len(b) > 4 {
				at := g.Intn(len(b) - 3)
				k := 3 + g.Intn(300)
				for j := 0; j < k && at+j < len(b); j++ {
					b = append(b, b[at+j])
				}
			}
		case 3:
			p := make([]byte, g.Intn(40))
			g.Read(p)
			b = append(b, p...)
		default:
			b = append(b, "the quick brown fox "...)
		}
	}
	return b[:n]
}
