package decchk

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/liujiangwei/xxcache/redis/lzf"
	"github.com/liujiangwei/xxcache/redis/rdb"

	"verif/harness/gen"
	"verif/harness/kit"
)

type record struct {
	op      byte
	in      []byte
	out     int
	want    int
	wantOut []byte
}

func damage(g *rand.Rand, s []byte) []byte {
	b := append([]byte(nil), s...)
	for k := 1 + g.Intn(3); k > 0 && len(b) > 1; k-- {
		j := g.Intn(len(b))
		switch g.Intn(6) {
		case 0:
			b[j] = byte(g.Intn(256))
		case 1:
			b[j] ^= 1 << uint(g.Intn(8))
		case 2:
			b = b[:1+g.Intn(len(b))]
		case 3:
			b[j] = [...]byte{0xff, 0xe0, 0x1f, 0x20, 0x3f, 0xfe, 0}[g.Intn(7)]
		case 4:
			b = append(b[:j], b[j+1:]...)
		case 5:
			b = append(b[:j:j], append([]byte{[...]byte{0xff, 0xe0, 0x1f, 0x20}[g.Intn(4)]}, b[j:]...)...)
		}
	}
	return b
}

// streams calls f with one compressed stream after the other: valid, cut, damaged, made up
func streams(r *kit.Run, g *rand.Rand, n int, f func([]byte)) {
	for a := 0; a < 256; a++ {
		f([]byte{byte(a)})
		for _, b := range []byte{0, 1, 31, 32, 127, 254, 255} {
			f([]byte{byte(a), b})
			f([]byte{0, 'x', byte(a), b})
			f([]byte{0, 'x', byte(a), b, 0})
			f([]byte{0, 'x', byte(a), b, 0, 'y'})
		}
	}
	for i := 0; i < n; i++ {
		if i%64 == 0 {
			r.Step(fmt.Sprintf("D02 stream %d", i))
		}
		s, _ := gen.RandomLZF(g, 1+g.Intn(12))
		switch g.Intn(12) {
		case 0:
			s = make([]byte, 1+g.Intn(60))
			g.Read(s)
		case 1:
			s = gen.LZF(g, gen.Compressible(g, 1+g.Intn(2000)))
		case 2:
			s, _ = gen.RandomLZF(g, 200)
		}
		f(s)
		for k := 0; k < 4; k++ {
			f(damage(g, s))
		}
		if len(s) < 80 {
			for k := 1; k < len(s); k++ {
				f(s[:k])
			}
		} else {
			f(s[:1+g.Intn(len(s)-1)])
		}
	}
	for _, n := range []int{8190, 8191, 8192, 8193, 8194, 70000, 1 << 20} {
		// a reference as far back as the form allows, one byte nearer and farther than the start
		for d := -1; d <= 1; d++ {
			var s []byte
			for at := 0; at < n && at < 8200; at += 32 {
				s = append(append(s, 31), bytes.Repeat([]byte{byte(at)}, 32)...)
			}
			s = append(s, 0x3f, byte(255+d))
			f(s)
			f(append(s[:len(s):len(s)], 0xff, 255, 255))
		}
	}
}

func runD02(r *kit.Run) {
	dir := r.TmpDir
	g := r.Rng(32)
	src := filepath.Join(os.Getenv("VERIF_REPO"), "redis/lzf")

	// the C functions by themselves
	drv := os.Getenv("VERIF_HARNESS")
	exe := filepath.Join(dir, "drv")
	cs, _ := filepath.Glob(filepath.Join(src, "*.c"))
	args := append([]string{"-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-I", src, "-o", exe, filepath.Join(drv, "lzfdrv/drv.c")}, cs...)
	native := false
	if out, err := exec.Command("clang", args...).CombinedOutput(); err == nil {
		native = true
	} else {
		r.Assume("the C functions could not be built by themselves, so they ran only through the Go wrapper: " + clip(string(out)))
	}
	r.Step("D02 records")
	if native {
		for round := 0; round < r.N(1, 40); round++ {
			var recs []record
			compress := func(in []byte, out int) {
				if len(in) < 2 || out < 0 {
					return
				}
				rec := record{op: 'c', in: in, out: out}
				if out > len(in)+len(in)/16+64 {
					rec.want = 1
				}
				recs = append(recs, rec)
			}
			sizes := func(in []byte) {
				n := len(in)
				for _, out := range []int{n - 1, n, 0, 1, 2, 3, 4, 5, n / 2, g.Intn(n + 1), g.Intn(n + 1), n + 1, n + n/16 + 65} {
					compress(in, out)
				}
			}
			for n := 2; n < 300; n++ {
				b := make([]byte, n)
				g.Read(b)
				sizes(b)
				sizes(gen.Compressible(g, n))
				sizes(bytes.Repeat([]byte{'a'}, n))
			}
			for n := 2; n < 40; n++ { // every buffer size
				for k := 0; k < 3; k++ {
					b := gen.Compressible(g, n)
					if k == 0 {
						g.Read(b)
					}
					for out := 0; out <= n+4; out++ {
						compress(b, out)
					}
				}
			}
			for i := 0; i < r.N(600, 1500); i++ {
				b := gen.Compressible(g, 2+g.Intn(20000))
				compress(b, len(b)-1)
				compress(b, g.Intn(len(b)))
				c := gen.LZF(g, b)
				compress(b, len(c))
				compress(c, len(c)-1)
			}
			for _, n := range []int{8191, 8192, 8193, 8194, 8200, 65536, 1 << 20} {
				b := make([]byte, n)
				g.Read(b)
				compress(append(b, b...), 2*n-1)
				compress(b, n-1)
				compress(bytes.Repeat([]byte("x"), n), n-1)
				compress(gen.Compressible(g, n), n-1)
			}
			nc := len(recs)
			streams(r, g, r.N(3000, 4000), func(s []byte) {
				if len(s) == 0 {
					return
				}
				data, ok := gen.Decoded(s)
				n := len(data)
				if !ok {
					n = 1 + g.Intn(600)
				}
				for _, out := range []int{n, n - 1, n + 1, n / 2, 1, n + 1 + g.Intn(300), g.Intn(n + 1), 0} {
					if out < 0 {
						continue
					}
					rec := record{op: 'd', in: s, out: out}
					if ok && out >= n {
						rec.want, rec.wantOut = n, data
					}
					recs = append(recs, rec)
				}
			})
			path := filepath.Join(dir, "records")
			f, err := os.Create(path)
			if err != nil {
				panic(err)
			}
			w := bufio.NewWriterSize(f, 1<<20)
			for _, c := range recs {
				for _, x := range []int{int(c.op), len(c.in), c.out, c.want, len(c.wantOut)} {
					_ = binary.Write(w, binary.LittleEndian, uint32(x))
				}
				_, _ = w.Write(c.in)
				_, _ = w.Write(c.wantOut)
			}
			_ = w.Flush()
			_ = f.Close()
			r.Step("D02 the C functions")
			ctx, cancel := context.WithTimeout(context.Background(), 600*time.Second)
			cmd := exec.CommandContext(ctx, exe, path)
			cmd.Env = append(os.Environ(), "ASAN_OPTIONS=detect_leaks=0:exitcode=67:detect_stack_use_after_return=1", "UBSAN_OPTIONS=print_stacktrace=1:exitcode=67")
			done := make(chan struct{})
			go func() {
				for {
					select {
					case <-done:
						return
					case <-time.After(time.Second):
						r.Beat() // it has an alarm of its own
					}
				}
			}()
			out, err := cmd.CombinedOutput()
			close(done)
			cancel()
			text := string(out)
			if i := strings.LastIndex(text, "\rrecord "); i >= 0 && err != nil {
				var k int
				_, _ = fmt.Sscanf(text[i+1:], "record %d", &k)
				what := "?"
				if k < len(recs) {
					c := recs[k]
					what = fmt.Sprintf("%c input of %d bytes %s, output buffer of %d", c.op, len(c.in), hexOf(c.in), c.out)
				}
				title := "the codec failed"
				if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGALRM {
					title = "the codec does not terminate"
				} else if strings.Contains(text, "AddressSanitizer") {
					title = "AddressSanitizer: memory outside the buffers"
				} else if strings.Contains(text, "runtime error") {
					title = "UndefinedBehaviorSanitizer report"
				} else if j := strings.Index(text, "WRONG "); j >= 0 {
					title = strings.SplitN(text[j:], "\n", 2)[0]
				}
				r.Violation(title, what+"\n"+strings.ReplaceAll(clipEnd(text), "\r", "\n"))
			} else if err != nil || !strings.Contains(text, "DONE ") {
				panic(fmt.Sprint("the driver could not run: ", err, clipEnd(text)))
			}
			var total, failed int64
			_, _ = fmt.Sscanf(text[strings.Index(text, "DONE "):], "DONE %d records %d refused", &total, &failed)
			r.Count("c_calls_under_asan_ubsan", total)
			r.Count("c_compress_calls", int64(nc))
			r.Count("c_calls_refused", failed)
			for _, c := range recs {
				r.Case(fmt.Sprintf("%c%d %s", c.op, c.out, c.in), true)
			}
			if round == 0 {
				r.Sample(fmt.Sprintf("C: %d calls, %d refused", total, failed))
			}
			_ = os.Remove(path)
		}
	}

	// through the Go wrapper; this binary is instrumented as well
	g = r.Rng(320)
	for n := 0; n < 700; n++ {
		r.Step(fmt.Sprintf("D02 wrapper length %d", n))
		for k := 0; k < r.N(6, 60); k++ {
			b := gen.Compressible(g, n)
			if k%3 == 1 {
				g.Read(b)
			}
			roundTrip(r, string(b))
		}
	}
	for i := 0; i < r.N(400, 8000); i++ {
		r.Step(fmt.Sprintf("D02 wrapper %d", i))
		roundTrip(r, string(gen.Compressible(g, g.Intn(70000))))
	}
	streams(r, g, r.N(3500, 100000), func(s []byte) {
		data, ok := gen.Decoded(s)
		n := len(data)
		if !ok {
			n = 1 + g.Intn(600)
		}
		for _, want := range []int{n, n - 1, n + 1, n / 2, 0, -1, 1, n + g.Intn(300), len(s), len(s) + 1} {
			d := lzf.DeCompress(string(s), want)
			switch {
			case d == string(s): // refused, or stored as it is
				if ok && want == n && len(s) != n && n > 0 && d != string(data) {
					r.Violation("a valid stream is refused", fmt.Sprintf("%x to %d bytes", s, want))
				}
				r.Count("refused", 1)
			case !ok || want != n || d != string(data):
				r.Violation("a corrupt or oversized stream is not reported as failure", fmt.Sprintf("stream %x of %d bytes (valid: %v), %d announced, returned %d bytes %s", s, n, ok, want, len(d), kit.Q(d)))
			default:
				r.Count("decompressed", 1)
			}
			r.Case(fmt.Sprintf("g%d %s", want, s), true)
			if want > 0 && len(s) > 0 && len(s) < 4000 {
				b := append(append(gen.Len(g, gen.Len(g, []byte{0xc3}, uint64(len(s)), nil), uint64(want), nil), s...), "next"...)
				v, err := rdb.LoadString(bufio.NewReader(bytes.NewReader(b)))
				if err == nil && !(ok && want == n && v == string(data)) {
					r.Violation("a corrupt compressed string is loaded without an error", fmt.Sprintf("stream %x, %d bytes announced, got %s", s, want, kit.Q(v)))
				}
				if err != nil && ok && want == n && n > 0 {
					r.Violation("a valid compressed string is refused", fmt.Sprintf("stream %x, %d bytes: %v", s, n, err))
				}
				r.Count("strings_loaded", 1)
			}
		}
	})
	r.Finish()
}

func clipEnd(s string) string {
	if i := strings.Index(s, "ERROR: AddressSanitizer"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "runtime error"); i >= 0 {
		s = s[max(0, i-200):]
	} else if len(s) > 500 {
		s = s[len(s)-500:]
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}
