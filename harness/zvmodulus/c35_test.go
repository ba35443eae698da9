// Package zvmodulus checks the modulus generator through its command line.
package zvmodulus

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sp301415/ringo-snark/zverif/vh"
)

func TestMain(m *testing.M) { os.Exit(vh.Main(m)) }

const (
	baseBound = 1 << 25 // bases of found moduli are at most this
	twoAdic   = 31      // transforms up to rank 2^30, also negacyclic ones
)

var (
	toolOnce sync.Once
	toolPath string
	toolErr  string
)

func internal(format string, args ...any) {
	fmt.Printf("VERIF-INTERNAL: "+format+"\n", args...)
	os.Exit(5)
}

// tool builds the generator from the working tree, once per process.
func tool(c *vh.Ctx) string {
	toolOnce.Do(func() {
		work := os.Getenv("VERIF_WORK")
		if work == "" {
			internal("VERIF_WORK is not set")
		}
		toolPath = filepath.Join(work, "jindo-modulus")
		cmd := exec.Command("go", "build", "-modfile", os.Getenv("VERIF_MODFILE"), "-o", toolPath, "./jindo-modulus")
		cmd.Dir = os.Getenv("VERIF_REPO")
		if out, err := cmd.CombinedOutput(); err != nil {
			internal("the generator does not build: %v\n%s", err, out)
		}
		bin := filepath.Join(work, "gobin")
		if err := os.MkdirAll(bin, 0o755); err != nil {
			internal("%v", err)
		}
		// The formatter the generator calls is not installed here; it changes no meaning.
		if err := os.WriteFile(filepath.Join(bin, "asmfmt"), []byte("#!/bin/sh\nexit 0\n"), 0o755); err != nil {
			internal("%v", err)
		}
	})
	return toolPath
}

// scratch makes a module that can hold generated packages.
func scratch(c *vh.Ctx) string {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "gen_")
	if err != nil {
		internal("%v", err)
	}
	mod, err := os.ReadFile(os.Getenv("VERIF_MODFILE"))
	if err != nil {
		internal("%v", err)
	}
	s := regexp.MustCompile(`(?m)^module .*$`).ReplaceAllString(string(mod), "module zvgen")
	s += "\nrequire github.com/sp301415/ringo-snark v0.0.0\nreplace github.com/sp301415/ringo-snark => " + os.Getenv("VERIF_REPO") + "\n"
	sum, err := os.ReadFile(strings.TrimSuffix(os.Getenv("VERIF_MODFILE"), ".mod") + ".sum")
	if err != nil {
		internal("%v", err)
	}
	if os.WriteFile(filepath.Join(dir, "go.mod"), []byte(s), 0o644) != nil || os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644) != nil {
		internal("cannot write the scratch module")
	}
	return dir
}

// generate runs the generator; ended is false if it had to be stopped.
func generate(c *vh.Ctx, dir string, args ...string) (ok, ended bool, out string) {
	t := tool(c)
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, t, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "PATH="+filepath.Join(os.Getenv("VERIF_WORK"), "gobin")+":"+os.Getenv("PATH"))
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	if ctx.Err() != nil {
		return false, false, b.String()
	}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		internal("the generator does not run: %v", err)
	}
	return err == nil, true, b.String()
}

func tail(s string) string {
	if len(s) > 1500 {
		s = s[:700] + " ... " + s[len(s)-700:]
	}
	return s
}

// drive compiles the test program against the generated package and runs it; it returns the modulus.
func drive(c *vh.Ctx, dir, pkg, tags string, large, ring bool) *big.Int {
	imp := "zvgen/" + pkg
	drv := filepath.Join(dir, "drv")
	if err := os.MkdirAll(drv, 0o755); err != nil {
		internal("%v", err)
	}
	if err := os.WriteFile(filepath.Join(drv, "drv_test.go"), []byte(strings.ReplaceAll(driverSrc, "@IMPORT@", imp)), 0o644); err != nil {
		internal("%v", err)
	}
	// The package on its own first, so that its faults are told from the harness's.
	args := []string{"build"}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	cmd := exec.Command("go", append(args, "./"+pkg)...)
	cmd.Dir = dir
	if out, err := cmd.CombinedOutput(); err != nil {
		if strings.Contains(string(out), "no space left") || strings.Contains(string(out), "cannot allocate") {
			internal("%s", out)
		}
		c.Fatalf("the generated package does not compile: %s", tail(string(out)))
	}
	bin := filepath.Join(drv, "drv.bin")
	args = []string{"test", "-c", "-vet=off", "-overlay", os.Getenv("VERIF_OVERLAY"), "-o", bin}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	cmd = exec.Command("go", append(args, "./drv")...)
	cmd.Dir = dir
	if out, err := cmd.CombinedOutput(); err != nil {
		c.Fatalf("the generated package does not work with the library: %s", tail(string(out)))
	}
	tests := "TestGen_Field|TestGen_Distinct"
	if ring {
		tests += "|TestGen_Ring"
	}
	if large {
		tests += "|TestGen_Jindo"
	}
	cmd = exec.Command(bin, "-test.run", "^("+tests+")$", "-test.v", "-test.timeout", "200s")
	cmd.Dir = drv
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "VERIF_SEED="+fmt.Sprint(c.Int(0, 1<<20, "driver seed")), "VERIF_COV="+filepath.Join(drv, "cov.json"), "VERIF_WORK="+drv)
	outb, err := cmd.CombinedOutput()
	out := string(outb)
	if err != nil {
		if strings.Contains(out, "VERIF-INTERNAL") || strings.Contains(out, "out of memory") {
			internal("%s", tail(out))
		}
		c.Fatalf("the generated package fails: %s", tail(out))
	}
	m := regexp.MustCompile(`VERIF-MODULUS (\d+)`).FindStringSubmatch(out)
	if m == nil || strings.Count(out, "--- PASS") != 1+strings.Count(tests, "|") {
		internal("the test program did not finish: %s", tail(out))
	}
	p, _ := new(big.Int).SetString(m[1], 10)
	return p
}

// reference finds a modulus b^k+1 with lo to hi bits, k a power of two from 2 and 2^31 | b^k.
func reference(lo, hi int) *big.Int {
	for k := 2; k < hi+2; k *= 2 {
		step := uint64(1) << ((twoAdic + k - 1) / k)
		// smallest multiple of step whose power may have lo bits
		bl := new(big.Float).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(max(lo-1, 0))))
		for j := k; j > 1; j /= 2 {
			bl.Sqrt(bl)
		}
		b, _ := bl.Uint64()
		b = max(b, 2) - 2
		b = max((b/step)*step, step)
		for ; b <= baseBound; b += step {
			p := new(big.Int).Exp(new(big.Int).SetUint64(b), big.NewInt(int64(k)), nil)
			p.Add(p, big.NewInt(1))
			if p.BitLen() < lo {
				continue
			}
			if p.BitLen() > hi {
				break
			}
			if p.ProbablyPrime(20) {
				return p
			}
		}
	}
	return nil
}

// found judges a modulus the generator chose itself.
func found(c *vh.Ctx, p *big.Int, lo, hi int) {
	if !p.ProbablyPrime(40) {
		c.Fatalf("modulus %v is not prime", p)
	}
	if p.BitLen() < lo || p.BitLen() > hi {
		c.Fatalf("modulus %v has %d bits, asked for %d to %d", p, p.BitLen(), lo, hi)
	}
	q := new(big.Int).Sub(p, big.NewInt(1))
	if q.TrailingZeroBits() < twoAdic {
		c.Fatalf("modulus %v does not support rank 2^30", p)
	}
	b, k := q, 1
	for {
		r := new(big.Int).Sqrt(b)
		if new(big.Int).Mul(r, r).Cmp(b) != 0 {
			break
		}
		b, k = r, 2*k
	}
	if k < 2 || b.Cmp(big.NewInt(baseBound)) > 0 {
		c.Fatalf("modulus %v is %v^%d+1: base out of bounds", p, b, k)
	}
	c.Label("exponent:%d", k)
	c.Label("limbs:%d", (p.BitLen()+63)/64)
}

// names draws the package name and output directory options; pkg is the path below the module.
func names(c *vh.Ctx) (args []string, pkg string) {
	name, dir := "zp", "."
	if c.Bool("named") {
		name = vh.Pick(c, "name", "q", "MyField", "zp110", "Zq_1")
		args = append(args, "-p", name)
	}
	if c.Bool("dir") {
		dir = vh.Pick(c, "dir", "out", "a/b/", "./x//y", "z/../w")
		args = append(args, "-o", dir)
	}
	return args, filepath.ToSlash(filepath.Join(dir, strings.ToLower(name)))
}

// refused checks that nothing was generated.
func refused(c *vh.Ctx, dir string, what string, ok bool, out string) {
	if ok {
		c.Fatalf("%s is not refused: %s", what, tail(out))
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && fi.Name() != "go.mod" && fi.Name() != "go.sum" {
			c.Fatalf("%s leaves %s behind", what, fi.Name())
		}
		return nil
	})
}

func tagsOf(c *vh.Ctx) string {
	if c.SmallInt(0, 3, "tags") == 1 {
		return "purego"
	}
	return ""
}

func TestC35_BitLength(t *testing.T) {
	vh.Check(t, 24, 600, func(c *vh.Ctx) {
		maxBits := 1100
		if vh.Thorough() {
			maxBits = 2200
		}
		var lo, hi int
		var spec string
		draw := func(label string) int {
			switch c.SmallInt(0, 5, label+" kind") {
			case 0, 1:
				return c.Int(53, 140, label)
			case 2:
				return c.Int(53, 450, label)
			case 3:
				if vh.Thorough() && c.SmallInt(0, 3, "slow") == 3 {
					return c.Int(41, 50, label) // takes tens of seconds
				}
				if c.Bool("edge") {
					return vh.Pick(c, label, 36, 36, 37, 38, 39, 40) // around the smallest
				}
				return c.Int(1, 39, label)
			case 4:
				return vh.Pick(c, label, 51, 52, 53, 63, 64, 65, 66, 127, 128, 129, 256, 257)
			}
			return c.Int(200, maxBits, label)
		}
		lo = draw("bits")
		last := lo // the largest length that is surely covered
		if c.SmallInt(0, 2, "range") == 2 {
			hi = lo + 1 + c.Int(0, vh.Pick(c, "width", 3, 40, 2000), "bits more")
			if lo > 39 && lo < 51 {
				hi = min(hi, lo+2)
			}
			if lo < 40 {
				hi = min(hi, 41)
			}
			spec, last = fmt.Sprintf("%d-%d", lo, hi), hi-1
			if hi <= lo {
				lo, hi, last, spec = 39, 41, 40, "39-41"
			}
		} else {
			hi, spec = lo, fmt.Sprint(lo)
		}
		args, pkg := names(c)
		args = append(args, "-n", spec)
		if c.SmallInt(0, 3, "ignored") == 3 {
			args = append(args, "-b", "10", "-k", "3")
		}
		tags := tagsOf(c)
		c.Note("%v tags=%q", args, tags)
		dir := scratch(c)
		defer os.RemoveAll(dir)
		ok, ended, out := generate(c, dir, args...)
		if !ended {
			c.Fatalf("the search for %s does not end", spec)
		}
		if !ok {
			refused(c, dir, "bit length "+spec, ok, out)
			if p := reference(lo, last); p != nil {
				c.Fatalf("nothing found for %s, but %v would do", spec, p)
			}
			c.Label("none")
			return
		}
		c.NonTrivial()
		p := drive(c, dir, pkg, tags, true, true)
		c.Note("p=%v", p)
		found(c, p, lo, hi)
	})
}

// The smallest lengths, where the two-adicity decides what is found.
func TestC35_Smallest(t *testing.T) {
	vh.Check(t, 6, 60, func(c *vh.Ctx) {
		lo := c.Int(31, 40, "bits")
		if c.Bool("36") {
			lo = c.Int(33, 36, "bits from")
		}
		hi := max(lo, 36) + c.Int(0, 5, "bits more")
		spec := fmt.Sprintf("%d-%d", lo, hi)
		if c.Bool("single") {
			hi, spec = lo, fmt.Sprint(lo)
		}
		last := hi - 1
		if lo == hi {
			spec, last = fmt.Sprint(lo), lo
		}
		c.Note("-n %s", spec)
		dir := scratch(c)
		defer os.RemoveAll(dir)
		ok, ended, out := generate(c, dir, "-n", spec)
		if !ended {
			c.Fatalf("the search for %s does not end", spec)
		}
		c.NonTrivial()
		if !ok {
			refused(c, dir, "bit length "+spec, ok, out)
			if p := reference(lo, last); p != nil {
				c.Fatalf("nothing found for %s, but %v would do", spec, p)
			}
			c.Label("none")
			return
		}
		c.Label("found")
		m := regexp.MustCompile(`[0-9]{6,}`).FindAllString(out, -1)
		if len(m) == 0 {
			c.Label("not printed")
			return
		}
		p, _ := new(big.Int).SetString(m[0], 10)
		found(c, p, lo, last)
	})
}

// generalised Fermat numbers that fool a base-2 test, and other composites
var pseudo = [][2]uint64{{2, 32}, {2, 64}, {2, 128}, {2, 256}, {4, 32}, {16, 16}, {256, 8}, {65536, 4}, {65536, 2}, {4294967296, 2}, {8, 12}}

func TestC35_BaseExponent(t *testing.T) {
	vh.Check(t, 24, 600, func(c *vh.Ctx) {
		var b, k uint64
		switch c.SmallInt(0, 4, "kind") {
		case 0, 1: // a prime
			k = vh.Pick[uint64](c, "k", 1, 2, 2, 4, 8, 16, 32)
			r := c.NewRNG("b")
			top := vh.Pick[uint64](c, "top", 1<<20, 1<<26, 1<<33)
			if k == 1 {
				top = 1 << 62
			}
			if k > 8 {
				top = 1 << 20
			}
			for {
				b = 2 * (1 + r.U64()%top)
				if p := value(b, k); p.BitLen() >= 32 && p.ProbablyPrime(20) {
					break
				}
			}
		case 2: // anything
			b, k = uint64(c.Int(1, 1<<30, "b")), uint64(c.Int(1, 40, "k"))
		case 3:
			x := vh.Pick(c, "pseudo", pseudo...)
			b, k = x[0], x[1]
		case 4: // small
			b, k = uint64(c.Int(1, 200, "small b")), uint64(c.Int(1, 4, "small k"))
		}
		args, pkg := names(c)
		args = append(args, "-b", fmt.Sprint(b), "-k", fmt.Sprint(k))
		tags := tagsOf(c)
		c.Note("%v tags=%q", args, tags)
		dir := scratch(c)
		defer os.RemoveAll(dir)
		ok, ended, out := generate(c, dir, args...)
		if !ended {
			c.Fatalf("%d^%d+1 takes forever", b, k)
		}
		want := value(b, k)
		prime := want.ProbablyPrime(40)
		c.NonTrivial()
		if !prime {
			c.Label("composite")
			refused(c, dir, fmt.Sprintf("composite %d^%d+1", b, k), ok, out)
			return
		}
		if want.BitLen() < 32 && !ok { // too small to be of use; refusing is fine
			c.Label("small")
			refused(c, dir, fmt.Sprintf("small %d^%d+1", b, k), ok, out)
			return
		}
		if !ok {
			c.Fatalf("prime %d^%d+1 is refused: %s", b, k, tail(out))
		}
		c.Label("prime, k=%d", k)
		ring := new(big.Int).Sub(want, big.NewInt(1)).TrailingZeroBits() > 8
		if p := drive(c, dir, pkg, tags, false, ring); p.Cmp(want) != 0 {
			c.Fatalf("%d^%d+1 = %v gives a field of modulus %v", b, k, want, p)
		}
	})
}

func value(b, k uint64) *big.Int {
	p := new(big.Int).Exp(new(big.Int).SetUint64(b), new(big.Int).SetUint64(k), nil)
	return p.Add(p, big.NewInt(1))
}

func TestC35_Refusals(t *testing.T) {
	vh.Check(t, 60, 1500, func(c *vh.Ctx) {
		n := func() string { return fmt.Sprint(c.Int(0, 300, "number")) }
		var args []string
		switch c.SmallInt(0, 7, "kind") {
		case 0:
			a := c.Int(53, 300, "high")
			args = []string{"-n", fmt.Sprintf("%d-%d", a, c.Int(0, a, "low"))}
		case 1:
			args = []string{"-n", vh.Pick(c, "junk", "abc", "-", "110-", "-110", "110 ", " 110", "1.5", "110-120-130", "0x6e", "110–120", "1e2", "110,120", "+110")}
		case 2:
			args = []string{"-b", n()}
		case 3:
			args = []string{"-k", n()}
		case 4:
			args = []string{"-b", "0", "-k", n()}
		case 5:
			args = []string{"-b", n(), "-k", "0"}
		case 6:
			args = []string{"-b", fmt.Sprint(2*c.Int(16384, 1<<20, "odd") + 1), "-k", fmt.Sprint(c.Int(2, 20, "k"))} // even value
		case 7:
			args = nil
		}
		more, _ := names(c)
		args = append(args, more...)
		c.Note("%q", args)
		c.NonTrivial()
		dir := scratch(c)
		defer os.RemoveAll(dir)
		ok, ended, out := generate(c, dir, args...)
		if !ended {
			c.Fatalf("%q does not end", args)
		}
		refused(c, dir, fmt.Sprintf("%q", args), ok, out)
	})
}
