// Package vh is the shared part of the property-based harness: it drives
// rapid with a pinned seed, makes crypto/rand reproducible per case, counts
// what was generated and reports it to the runner.
//
// It is laid over the repository by check.py (go build -overlay); nothing of
// it lives in /repo.
package vh

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/cryptotest"
	"time"

	"pgregory.net/rapid"
)

// ---- run configuration -------------------------------------------------

// Thorough tells whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// BaseSeed is VERIF_SEED remapped so that it is never 0 (0 means "random" to rapid).
func BaseSeed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		s = 1
	}
	return s*0x9E3779B97F4A7C15 | 1
}

// ---- coverage records ---------------------------------------------------

type testRec struct {
	Evals   int            `json:"evaluations"`
	Labels  map[string]int `json:"labels"`
	Samples []string       `json:"samples"`
	Failed  bool           `json:"failed"`
	Done    bool           `json:"done"`
	Checks  int            `json:"checks_planned"`
	nt      map[uint64]bool
	NT      int     `json:"distinct_nontrivial"`
	Wall    float64 `json:"wall_s"`
}

var (
	mu   sync.Mutex
	recs = map[string]*testRec{}
)

func rec(name string) *testRec {
	r, ok := recs[name]
	if !ok {
		r = &testRec{Labels: map[string]int{}, nt: map[uint64]bool{}}
		recs[name] = r
	}
	return r
}

// Main runs the tests and writes the coverage records for the runner.
func Main(m *testing.M) int {
	code := m.Run()
	mu.Lock()
	defer mu.Unlock()
	for _, r := range recs {
		r.NT = len(r.nt)
	}
	if path := os.Getenv("VERIF_COV"); path != "" {
		b, _ := json.MarshalIndent(recs, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	return code
}

// ---- cases --------------------------------------------------------------

// Ctx is one generated case.
type Ctx struct {
	*rapid.T
	tb   *testing.T
	name string
	desc []string
	key  []uint64
	nt   bool

	skipped bool
	prefix  []uint64        // hashes of the draws so far
	known   map[uint64]bool // if not nil, a case that leaves these prefixes is skipped
}

// Skip gives up the case.
func (c *Ctx) Skip(args ...any) {
	c.skipped = true
	c.T.Skip(args...)
}

// saw notes a draw.
func (c *Ctx) saw(v uint64) {
	h := v + 1
	if n := len(c.prefix); n > 0 {
		r := RNG{c.prefix[n-1] ^ v*0x9e3779b97f4a7c15}
		h = r.U64()
	}
	c.prefix = append(c.prefix, h)
	if c.known != nil && !c.known[h] {
		c.Skip("shrinking takes too long; keeping the smallest failure found so far")
	}
}

// shrinkCutoff bounds the time from the first failure of a test to its report: later on, only
// cases that have failed before are run again.
const shrinkCutoff = 25 * time.Second

// Fatalf fails the case; the message carries the description of the case.
func (c *Ctx) Fatalf(format string, args ...any) {
	c.T.Fatalf("%s [case: %s]", fmt.Sprintf(format, args...), strings.Join(c.desc, "; "))
}

// Note adds to the textual description of the case (used for samples and failures).
func (c *Ctx) Note(format string, args ...any) { c.desc = append(c.desc, fmt.Sprintf(format, args...)) }

// Label counts a class of cases.
func (c *Ctx) Label(format string, args ...any) {
	mu.Lock()
	rec(c.name).Labels[fmt.Sprintf(format, args...)]++
	mu.Unlock()
}

// NonTrivial marks the case as non-trivial by the rule of the property.
func (c *Ctx) NonTrivial() { c.nt = true }

// Int draws an int in [lo, hi], uniformly (rapid's own integers are strongly
// biased towards 0, which starves the rarer classes); it shrinks towards lo.
func (c *Ctx) Int(lo, hi int, label string) int {
	return lo + int(c.mix(2, label)%uint64(hi-lo+1))
}

// SmallInt draws an int in [lo, hi] with rapid's bias towards lo.
func (c *Ctx) SmallInt(lo, hi int, label string) int {
	v := rapid.IntRange(lo, hi).Draw(c.T, label)
	c.saw(uint64(v))
	return v
}

// U64 draws a uniform uint64; it shrinks towards 0.
func (c *Ctx) U64(label string) uint64 { return c.mix(3, label) }

func (c *Ctx) mix(n int, label string) uint64 {
	var h uint64
	zero := true
	for i := 0; i < n; i++ {
		v := rapid.Uint64().Draw(c.T, label)
		zero = zero && v == 0
		r := RNG{h ^ v}
		h = r.U64()
	}
	if zero {
		h = 0
	}
	c.saw(h)
	return h
}

// Bool draws a bool.
func (c *Ctx) Bool(label string) bool {
	b := rapid.Bool().Draw(c.T, label)
	if b {
		c.saw(1)
	} else {
		c.saw(0)
	}
	return b
}

// Bytes draws a byte string with length in [lo, hi].
func (c *Ctx) Bytes(lo, hi int, label string) []byte {
	b := rapid.SliceOfN(rapid.Byte(), lo, hi).Draw(c.T, label)
	h := fnv.New64a()
	h.Write(b)
	c.saw(h.Sum64())
	return b
}

// Pick draws one of the options.
func Pick[T any](c *Ctx, label string, opts ...T) T {
	return opts[c.Int(0, len(opts)-1, label)]
}

// Reseed makes crypto/rand produce the stream of the given seed from here on.
func (c *Ctx) Reseed(seed uint64) { cryptotest.SetGlobalRandom(c.tb, seed) }

// RNG is a small deterministic generator expanded from a drawn seed.
type RNG struct{ s uint64 }

// NewRNG draws a seed and returns its expansion.
func (c *Ctx) NewRNG(label string) *RNG {
	s := c.U64(label)
	c.key = append(c.key, s)
	return &RNG{s}
}

// RNGFrom returns the expansion of a seed.
func RNGFrom(seed uint64) *RNG { return &RNG{seed} }

// U64 returns the next word.
func (r *RNG) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a number in [0, n).
func (r *RNG) N(n int) int { return int(r.U64() % uint64(n)) }

// Big returns a number in [0, n).
func (r *RNG) Big(n *big.Int) *big.Int {
	words := n.BitLen()/64 + 2
	b := make([]byte, 8*words)
	for i := 0; i < words; i++ {
		binary.BigEndian.PutUint64(b[8*i:], r.U64())
	}
	return new(big.Int).Mod(new(big.Int).SetBytes(b), n)
}

// Interesting returns a residue modulo p from a class chosen to sit on boundaries.
func (r *RNG) Interesting(p *big.Int) *big.Int {
	x := new(big.Int)
	one := big.NewInt(1)
	switch r.N(12) {
	case 0:
		// zero
	case 1:
		x.Set(one)
	case 2:
		x.Sub(p, one)
	case 3:
		x.SetUint64(r.U64() % 5)
	case 4:
		x.Sub(p, new(big.Int).SetUint64(1+r.U64()%5))
	case 5:
		x.Rsh(p, 1)
		x.Add(x, big.NewInt(int64(r.N(3))-1))
	case 6:
		x.Lsh(one, uint(r.N(p.BitLen())))
		x.Add(x, big.NewInt(int64(r.N(3))-1))
	case 7:
		x.SetUint64(r.U64())
	default:
		return r.Big(p)
	}
	return x.Mod(x, p)
}

// Check runs a generated property with the planned number of cases.
// Every random choice comes from the pinned rapid seed; crypto/rand is reseeded per case.
func Check(t *testing.T, quick, thorough int, prop func(c *Ctx)) {
	t.Helper()
	n := quick
	if Thorough() {
		n = thorough
	}
	if k, err := strconv.Atoi(os.Getenv("VERIF_SPLIT")); err == nil && k > 1 { // cases shared by k processes
		n = (n + k - 1) / k
	}
	if s := os.Getenv("VERIF_CHECKS"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			n = v
		}
	}
	name := t.Name()
	start := time.Now()
	mu.Lock()
	rec(name).Checks = n
	mu.Unlock()

	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s", BaseSeed(), name)))
	seed := binary.BigEndian.Uint64(h[:8])&(1<<62-1) | 1
	replay := os.Getenv("VERIF_FAILFILE")
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.shrinktime", "8s")
	if replay != "" {
		flag.Set("rapid.failfile", replay)
	}
	defer func() {
		mu.Lock()
		r := rec(name)
		r.Failed = t.Failed()
		r.Done = true
		r.Wall += time.Since(start).Seconds()
		mu.Unlock()
	}()

	var failedAt time.Time
	failed := map[uint64]bool{} // prefixes of failing cases
	startWatchdog()
	rapid.Check(t, func(rt *rapid.T) {
		caseBegan.Store(int64(cpuTime()))
		defer caseBegan.Store(0)
		c := &Ctx{T: rt, tb: t, name: name}
		if !failedAt.IsZero() && time.Since(failedAt) > shrinkCutoff {
			c.known = failed
		}
		c.Reseed(c.U64("rng"))
		ok := false
		func() {
			defer func() {
				if ok || c.skipped {
					return
				}
				if failedAt.IsZero() {
					failedAt = time.Now()
					fmt.Printf("VERIF-FIRST-FAILURE %.2000s\n", strings.Join(c.desc, "; "))
				}
				if c.known == nil {
					for _, h := range c.prefix {
						failed[h] = true
					}
				}
			}()
			prop(c)
			ok = true
		}()
		d := ""
		for i, s := range c.desc {
			if i > 0 {
				d += "; "
			}
			d += s
		}
		hh := fnv.New64a()
		fmt.Fprint(hh, d, c.key)
		mu.Lock()
		r := rec(name)
		r.Evals++
		if c.nt {
			k := hh.Sum64()
			if !r.nt[k] && (len(r.Samples) < 4 || (len(r.Samples) < 8 && r.Evals%37 == 0)) {
				if len(d) > 600 {
					d = d[:600] + "..."
				}
				r.Samples = append(r.Samples, d)
			}
			r.nt[k] = true
		}
		mu.Unlock()
	})
}

// ---- hang detection -------------------------------------------------------

// A single case normally costs well under a few CPU-seconds; one that burns
// hangCPU of process CPU time (not wall time, so machine load does not count)
// is reported as not terminating.
const hangCPU = 240 * time.Second

var (
	caseBegan atomic.Int64
	watchOnce sync.Once
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 1
	}
	return time.Duration(ru.Utime.Nano()+ru.Stime.Nano()) + 1
}

func startWatchdog() {
	watchOnce.Do(func() {
		go func() {
			for {
				time.Sleep(500 * time.Millisecond)
				b := caseBegan.Load()
				if b != 0 && cpuTime()-time.Duration(b) > hangCPU {
					buf := make([]byte, 1<<20)
					n := runtime.Stack(buf, true)
					fmt.Printf("VERIF-HANG: a single case used more than %v of CPU time\n%s\n", hangCPU, buf[:n])
					os.Exit(7)
				}
			}
		}()
	})
}

func sprintf(f string, a ...any) string { return fmt.Sprintf(f, a...) }

// MustPanic runs f and returns whether it panicked.
func MustPanic(f func()) (panicked bool, msg string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
			msg = fmt.Sprint(r)
		}
	}()
	f()
	return
}

// SortedKeys returns the keys of m in order.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
