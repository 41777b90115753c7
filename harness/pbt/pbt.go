// Package pbt is a small property-based testing engine. A test case is a
// sequence of bounded draws; generation, shrinking and replay all work on
// that sequence.
package pbt

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"sort"
	"strings"
)

// Prop is one property: Run is called once per case.
type Prop struct {
	ID       string
	Rule     string // how cases are made, and what makes one non-trivial
	Quick    int    // number of cases
	Thorough int
	Run      func(t *T)
	// PanicsAllowed is set where a panic inside golang/freetype is handled by the property itself.
	Workers int // 0: default
	Procs   int // GOMAXPROCS inside a worker, 0: 1
	Race    bool
}

var Registry = map[string]*Prop{}

func Register(p *Prop) {
	if Registry[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	Registry[p.ID] = p
}

func IDs() []string {
	var s []string
	for k := range Registry {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// T is the state of one case.
type T struct {
	id         string
	idx        int
	seed       int64
	Thorough   bool
	r          rng
	replay     []uint64
	replaying  bool
	pos        int
	rec        []uint64
	nontrivial bool
	classes    map[string]int
	sample     string
	inner      int
	logs       []string
	verbose    bool
}

type failure struct{ msg string }
type discard struct{}

func caseSeed(seed int64, id string, idx int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, idx)
	return h.Sum64()
}

// Index is the number of the case, for properties that enumerate.
func (t *T) Index() int { return t.idx }

const maxDraws = 4 << 20

// Draw returns a value in [0, n). 0 is the simplest value.
func (t *T) Draw(n uint64) uint64 {
	if n == 0 {
		panic("pbt: Draw(0)")
	}
	if len(t.rec) >= maxDraws {
		panic("pbt: too many draws")
	}
	var v uint64
	if t.replaying {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos]
			if v >= n {
				v = n - 1
			}
		}
		t.pos++
	} else {
		v = t.r.next() % n
	}
	t.rec = append(t.rec, v)
	return v
}

// Int returns a value in [lo, hi]; lo is the simplest.
func (t *T) Int(lo, hi int) int {
	if hi < lo {
		panic(fmt.Sprintf("pbt: Int(%d, %d)", lo, hi))
	}
	return lo + int(t.Draw(uint64(hi-lo)+1))
}

// Sym returns a value in [-m, m]; 0 is the simplest.
func (t *T) Sym(m int) int {
	v := int(t.Draw(uint64(2*m) + 1))
	if v&1 == 1 {
		return (v + 1) / 2
	}
	return -v / 2
}

func (t *T) Bool() bool { return t.Draw(2) == 1 }

// Chance is true with probability num/den; false is the simplest.
func (t *T) Chance(num, den int) bool { return int(t.Draw(uint64(den))) >= den-num }

// Size returns a value in [lo, hi], biased towards small ones.
func (t *T) Size(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	// The number of bits is uniform.
	n := uint64(hi - lo)
	bits := 0
	for b := n; b > 0; b >>= 1 {
		bits++
	}
	b := t.Draw(uint64(bits) + 1)
	if b == 0 {
		return lo
	}
	m := uint64(1) << b // values up to m-1
	if m > n+1 {
		m = n + 1
	}
	return lo + int(t.Draw(m))
}

// Pick returns one of the given values; the first is the simplest.
func Pick[V any](t *T, vs ...V) V { return vs[t.Draw(uint64(len(vs)))] }

// PickS is Pick on a slice.
func PickS[V any](t *T, vs []V) V { return vs[t.Draw(uint64(len(vs)))] }

// Weighted returns an index, with probability proportional to its weight.
func (t *T) Weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := int(t.Draw(uint64(sum)))
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	panic("unreachable")
}

// Perm returns a permutation of [0,n); the identity is the simplest.
func (t *T) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + int(t.Draw(uint64(n-i)))
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// NonTrivial marks the case as one that exercised the property.
func (t *T) NonTrivial() { t.nontrivial = true }

// Class counts the case under a name.
func (t *T) Class(format string, args ...any) { t.ClassN(fmt.Sprintf(format, args...), 1) }
func (t *T) ClassN(name string, n int)        { t.classes[name] += n }

// Checks counts inner checks made in this case (queries, pixels, steps ...).
func (t *T) Checks(n int) { t.inner += n }

// Sample describes the case.
func (t *T) Sample(format string, args ...any) {
	if t.sample == "" {
		t.sample = fmt.Sprintf(format, args...)
		if len(t.sample) > 600 {
			t.sample = t.sample[:600] + "..."
		}
	}
}

// Logf records a line which is printed when the case fails.
func (t *T) Logf(format string, args ...any) {
	if len(t.logs) < 400 {
		t.logs = append(t.logs, fmt.Sprintf(format, args...))
	}
}

// Failf reports a violation and ends the case.
func (t *T) Failf(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Discard ends the case without a result.
func (t *T) Discard() { panic(discard{}) }

// Outcome of a case.
type Outcome struct {
	Failed     bool
	HarnessErr bool
	Discarded  bool
	Msg        string
	Logs       []string
	Draws      []uint64
	NonTrivial bool
	Classes    map[string]int
	Sample     string
	Inner      int
}

const repoPkg = "github.com/golang/freetype"
const harnessPkg = "verif/harness/"

// classifyPanic is called in a deferred function during panicking. It
// reports whether a golang/freetype frame is above the first harness frame.
func classifyPanic() (inRepo bool, trace string) {
	pcs := make([]uintptr, 20000)
	n := runtime.Callers(0, pcs)
	frames := runtime.CallersFrames(pcs[:n])
	seenPanic := false
	decided := false
	var b strings.Builder
	lines := 0
	for {
		f, more := frames.Next()
		if seenPanic && lines < 25 {
			fmt.Fprintf(&b, "    %s (%s:%d)\n", f.Function, f.File, f.Line)
			lines++
		}
		if f.Function == "runtime.gopanic" || f.Function == "runtime.sigpanic" || strings.HasPrefix(f.Function, "runtime.panic") {
			seenPanic = true
			// A re-panic in a deferred function: start again from the innermost one.
		} else if seenPanic && !decided {
			if strings.HasPrefix(f.Function, repoPkg) {
				inRepo, decided = true, true
			} else if strings.HasPrefix(f.Function, harnessPkg) {
				decided = true
			}
		}
		if !more {
			break
		}
	}
	return inRepo, b.String()
}

// Guard runs f and returns the panic message if code of golang/freetype
// panicked in it. Other panics go on.
func Guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, discard:
				panic(r)
			}
			in, tr := classifyPanic()
			if !in {
				panic(fmt.Sprintf("%v\n%s", r, tr))
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, tr)
		}
	}()
	f()
	return ""
}

// RunCase runs one case. If draws is non-nil it is a replay.
func RunCase(p *Prop, seed int64, idx int, thorough bool, draws []uint64, replaying bool) (o Outcome) {
	t := &T{id: p.ID, idx: idx, seed: seed, Thorough: thorough, classes: map[string]int{}}
	t.r.s = caseSeed(seed, p.ID, idx)
	t.replay, t.replaying = draws, replaying
	defer func() {
		o.Draws, o.NonTrivial, o.Classes, o.Sample, o.Inner, o.Logs = t.rec, t.nontrivial, t.classes, t.sample, t.inner, t.logs
		if r := recover(); r != nil {
			switch v := r.(type) {
			case failure:
				o.Failed, o.Msg = true, v.msg
			case discard:
				o.Discarded = true
			default:
				in, tr := classifyPanic()
				o.Msg = fmt.Sprintf("panic: %v\n%s", r, tr)
				if in {
					o.Failed = true
				} else {
					o.HarnessErr = true
				}
			}
		}
	}()
	p.Run(t)
	return o
}

func hashDraws(d []uint64, sample string) uint64 {
	h := uint64(14695981039346656037)
	for _, v := range d {
		h ^= v
		h *= 1099511628211
		h ^= h >> 29
	}
	return h
}

// Hash identifies a case by what it drew.
func Hash(idx int, draws []uint64) uint64 {
	h := hashDraws(draws, "")
	if len(draws) == 0 {
		h ^= uint64(idx) * 0x9e3779b97f4a7c15
	}
	return h
}
