// Package kit is what the checks share: configuration from the environment, evidence counters, progress that
// survives a crash, a watchdog for hangs, violation reports, and generators of hostile values.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"
)

type Run struct {
	Prop, Tier string
	Seed       int64
	Thorough   bool
	Rule       string
	TmpDir     string

	start    float64
	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	samples  []string
	counts   map[string]int64
	assume   []string
	progress *os.File
	current  atomic.Value // string
	beat     int64        // bumped by every step
	closed   int32
}

// realNow is the wall clock also inside a testing/synctest bubble, where time.Now is virtual.
func realNow() float64 {
	var tv syscall.Timeval
	_ = syscall.Gettimeofday(&tv)
	return float64(tv.Sec) + float64(tv.Usec)/1e6
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Start reads the environment. Stall is how long one step may take before it counts as a hang.
func Start(rule string, stall time.Duration) *Run {
	logrus.SetOutput(io.Discard)
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	r := &Run{Prop: env("VERIF_PROP", "?"), Tier: env("VERIF_TIER", "quick"), Seed: seed, Rule: rule,
		TmpDir: env("VERIF_TMP", os.TempDir()), start: realNow(),
		distinct: map[uint64]struct{}{}, counts: map[string]int64{}}
	r.Thorough = r.Tier == "thorough"
	if p := os.Getenv("VERIF_PROGRESS"); p != "" {
		r.progress, _ = os.OpenFile(p, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	}
	r.current.Store("start")
	r.disk("start")
	go r.watchdog(stall)
	return r
}

func (r *Run) watchdog(stall time.Duration) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(100 * time.Millisecond)
		if atomic.LoadInt32(&r.closed) != 0 {
			return
		}
		if b := atomic.LoadInt64(&r.beat); b != last {
			last, since = b, time.Now()
			continue
		}
		if time.Since(since) > stall {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			if len(buf) > 200000 {
				buf = buf[:200000]
			}
			r.Violation(fmt.Sprintf("no progress for %v: a call does not return", stall), "current: "+r.current.Load().(string)+"\n\n"+string(buf))
		}
	}
}

func (r *Run) disk(s string) {
	if r.progress != nil {
		if len(s) > 4000 {
			s = s[:4000]
		}
		_ = r.progress.Truncate(0)
		_, _ = r.progress.WriteAt([]byte(s), 0)
	}
}

// Step names what runs next; it is what a crash or a hang is reported with.
func (r *Run) Step(s string) {
	r.current.Store(s)
	atomic.AddInt64(&r.beat, 1)
	r.disk(s)
}

// Beat tells the watchdog that things are moving.
func (r *Run) Beat() { atomic.AddInt64(&r.beat, 1) }

// Case counts one evaluation; sig identifies it for distinctness when it is non-trivial.
func (r *Run) Case(sig string, nontrivial bool) {
	h := fnv.New64a()
	_, _ = h.Write([]byte(sig))
	r.mu.Lock()
	r.evals++
	if nontrivial && len(r.distinct) < 5000000 {
		r.distinct[h.Sum64()] = struct{}{}
	}
	r.mu.Unlock()
	atomic.AddInt64(&r.beat, 1)
}

func (r *Run) Count(k string, n int64) {
	r.mu.Lock()
	r.counts[k] += n
	r.mu.Unlock()
}

func (r *Run) Max(k string, n int64) {
	r.mu.Lock()
	if n > r.counts[k] {
		r.counts[k] = n
	}
	r.mu.Unlock()
}

func (r *Run) Sample(s string) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

func (r *Run) NSamples() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.samples)
}

func (r *Run) Assume(s string) { r.assume = append(r.assume, s) }

func (r *Run) evidence(violations int) {
	dir := os.Getenv("VERIF_EVIDENCE")
	if dir == "" {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]interface{}{
		"evaluations": r.evals, "distinct_nontrivial": len(r.distinct), "rule": r.Rule, "samples": append([]string{}, r.samples...),
	}
	obs := map[string]int64{}
	for k, v := range r.counts {
		obs[k] = v
	}
	cov["observed"] = obs
	ev := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": env("VERIF_LEVEL", "exploration"),
		"coverage": cov, "assumptions": append([]string{}, r.assume...),
		"wall_s": float64(int((realNow()-r.start)*1000)) / 1000, "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(dir, 0755)
	_ = os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0644)
}

// Violation writes the replay file, prints the verdict and ends the process.
func (r *Run) Violation(what string, detail interface{}) {
	if !atomic.CompareAndSwapInt32(&r.closed, 0, 1) {
		select {} // another violation is being reported
	}
	dir := env("VERIF_REPLAYS", os.TempDir())
	_ = os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d.json", r.Prop, r.Tier, r.Seed))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": r.Prop, "seed": r.Seed, "tier": r.Tier, "what": what, "detail": detail, "current": r.current.Load(),
		"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s python3 /verif/run.py %s", r.Seed, r.Tier, r.Prop),
	}, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0644)
	r.evidence(1)
	fmt.Printf("\n%s\n", what)
	if s := fmt.Sprint(detail); len(s) > 3000 {
		fmt.Println(s[:3000] + "...")
	} else {
		fmt.Println(s)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
	os.Exit(1)
}

// Finish writes the evidence and ends the process: goroutines of the code under test may run for ever.
func (r *Run) Finish() {
	if !atomic.CompareAndSwapInt32(&r.closed, 0, 1) {
		select {}
	}
	r.evidence(0)
	var ks []string
	for k := range r.counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s=%d", k, r.counts[k]))
	}
	fmt.Printf("HELD property=%s evaluations=%d distinct=%d %s\n", r.Prop, r.evals, len(r.distinct), strings.Join(out, " "))
	os.Exit(0)
}

// Guard runs f and reports a panic in it as a violation of the property.
func (r *Run) Guard(f func()) {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 16384)
			buf = buf[:runtime.Stack(buf, false)]
			if strings.Contains(string(buf), "liujiangwei/xxcache") {
				r.Violation(fmt.Sprintf("panic: %v", p), r.current.Load().(string)+"\n"+string(buf))
			}
			panic(p)
		}
	}()
	f()
}

// N picks the amount of work for the tier.
// N is a number of samples or the like. The quick numbers of fast checks are multiplied where they count samples.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	if f := quickFactor[r.Prop]; f > 1 && quick >= 2000 {
		return min(quick*f, max(quick, thorough))
	}
	return quick
}

var quickFactor = map[string]int{"C01": 4, "C02": 6, "C03": 8, "C04": 8, "C06": 4, "C07": 3, "C08": 8, "C09": 3, "C10": 8,
	"R01": 6, "R03": 4, "D01": 5, "D03": 10, "D04": 20, "D05": 10, "D06": 3, "X02": 5}

// Left is the time that remains of a budget, counted from the start of the run.
func (r *Run) Within(quick, thorough time.Duration) bool {
	d := quick
	if r.Thorough {
		d = thorough
	}
	return realNow()-r.start < d.Seconds()
}

func (r *Run) Rng(stream int64) *rand.Rand {
	return rand.New(rand.NewSource(r.Seed*1000003 + stream))
}

// Q quotes and shortens a string for reports.
func Q(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q...(%d bytes)", s[:80], len(s))
	}
	return strconv.Quote(s)
}

var Tricky = []string{
	"", "0", "1", "-1", "7", "10", "100", "007", "00", "-0", "+0", "+3", "1.50", "1.5", "-1.5", "0.1", "1e5", "1E5", "1e-5", "1.0", "1.", ".5",
	"+1.5", "inf", "Inf", "+Inf", "-inf", "infinity", "nan", "NaN", "0x10", "0X1p-2", "0b1", "0o7", "1_000", "0x_1", " 1", "1 ", "\t1", "1\n", "-", "+", ".", "--1",
	"9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "9223372036854775806", "-9223372036854775807",
	"18446744073709551615", "4294967296", "2147483647", "-2147483648", "100000000000000000000", "100000000000000000001", "9007199254740993", "9007199254740993.0",
	"0.1000000000000000055", "0.30000000000000004", "3.141592653589793238462643383279", "123456789.123456789", "1e400", "-1e400", "1e-400", "4.9e-324", "1.7976931348623157e308",
	"true", "nil", "Nil", "OK", "null", "\x00", "\x00\x00\x01", "\xff\xfe", "é", "日本", "a b", "\r\n", "$3\r\nfoo\r\n", "*1\r\n", "QUEUED", "PONG", "+OK", "-ERR x", "ERR x", "WRONGTYPE", "redis nil", "(nil)", "$-1", "hello world", "a", "aa",
}

// Value is a value as a user might store it, biased to look-alikes of numbers.
func Value(g *rand.Rand) string {
	switch g.Intn(12) {
	case 0, 1, 2:
		return Tricky[g.Intn(len(Tricky))]
	case 3:
		return strconv.FormatInt(Int(g), 10)
	case 4:
		return strconv.Itoa(g.Intn(201) - 100)
	case 5:
		return strconv.FormatFloat(Float(g), "feg"[g.Intn(3)], -1+g.Intn(2)*g.Intn(8), 64)
	case 6: // a number with something around it
		s := strconv.FormatInt(int64(g.Intn(2000)-1000), 10)
		return [...]string{"0" + s, s + "0.0", "+" + s, " " + s, s + " ", s + "e0", s + ".", "0x" + s, s + "\x00"}[g.Intn(9)]
	case 7: // long digits
		b := make([]byte, 1+g.Intn(40))
		for i := range b {
			b[i] = "0123456789.-+e"[g.Intn(10+g.Intn(5))]
		}
		return string(b)
	case 8:
		return strings.Repeat(string(rune('a'+g.Intn(26))), g.Intn(300))
	case 9:
		b := make([]byte, g.Intn(70))
		g.Read(b)
		return string(b)
	case 10:
		return Words[g.Intn(len(Words))]
	default:
		n := g.Intn(5)
		if g.Intn(40) == 0 {
			n = g.Intn(5000)
		}
		b := make([]byte, n)
		g.Read(b)
		return string(b)
	}
}

var Words = []string{"alpha", "beta", "x", "y", "value", "test", "1a", "a1", "foo:bar", "The quick brown fox jumps over the lazy dog"}

// Int is an integer biased to limits.
func Int(g *rand.Rand) int64 {
	switch g.Intn(8) {
	case 0:
		return int64(g.Uint64())
	case 1:
		return 1<<63 - 1 - int64(g.Intn(4))
	case 2:
		return -1<<63 + int64(g.Intn(4))
	case 3:
		k := uint(g.Intn(63))
		return (int64(1)<<k + int64(g.Intn(3)) - 1) * int64(1-2*g.Intn(2))
	case 4:
		return int64(g.Intn(5)) - 2
	default:
		return int64(g.Intn(2001)) - 1000
	}
}

func Float(g *rand.Rand) float64 {
	switch g.Intn(6) {
	case 0:
		return float64(g.Intn(201)-100) / 4
	case 1:
		return float64(Int(g))
	case 2:
		return g.NormFloat64() * 1e10
	case 3:
		return float64(g.Intn(2001)-1000) / 1000
	case 4:
		return g.NormFloat64()
	default:
		return float64(g.Intn(100))
	}
}

// Stacks is where every goroutine is.
func Stacks() string {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	if len(b) > 20000 {
		b = b[:20000]
	}
	return string(b)
}

// Errors are error replies as Redis words them, and some it would not send.
var Errors = []string{
	"ERR unknown", "OK", "", "1", "ERR", "QUEUED", "PONG", "ERR unknown command `foo`, with args beginning with: ", "ERR wrong number of arguments for 'get' command",
	"WRONGTYPE Operation against a key holding the wrong kind of value", "ERR value is not an integer or out of range", "ERR value is not a valid float",
	"ERR increment or decrement would overflow", "ERR string exceeds maximum allowed size (512MB)", "ERR offset is out of range", "ERR syntax error", "ERR no such key",
	"ERR invalid expire time in setex", "ERR DB index is out of range", "ERR invalid DB index", "ERR index out of range",
	"NOAUTH Authentication required.", "WRONGPASS invalid username-password pair or user is disabled.", "ERR invalid password",
	"ERR Client sent AUTH, but no password is set", "ERR AUTH <password> called without any password configured for the default user. Are you sure your configuration is correct?",
	"NOPERM this user has no permissions to run the 'get' command or its subcommand", "LOADING Redis is loading the dataset in memory",
	"BUSY Redis is busy running a script. You can only call SCRIPT KILL or SHUTDOWN NOSAVE.", "OOM command not allowed when used memory > 'maxmemory'.",
	"MISCONF Redis is configured to save RDB snapshots, but it is currently not able to persist on disk.", "READONLY You can't write against a read only replica.",
	"MASTERDOWN Link with MASTER is down and replica-serve-stale-data is set to 'no'.", "NOREPLICAS Not enough good replicas to write.", "MOVED 1 x:1", "MOVED 3999 127.0.0.1:6381",
	"ASK 3999 127.0.0.1:6381", "TRYAGAIN Multiple keys request during rehashing of slot", "CLUSTERDOWN Hash slot not served", "CROSSSLOT Keys in request don't hash to the same slot",
	"EXECABORT Transaction discarded because of previous errors.", "NOSCRIPT No matching script. Please use EVAL.", "UNKILLABLE Sorry the script already executed write commands",
	"DENIED Redis is running in protected mode", "ERR max number of clients reached", "ERR Protocol error: invalid bulk length", "ERR operation not permitted",
}
