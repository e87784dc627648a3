package mon

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

// SUT is the import path prefix of the code under test.
const SUT = "github.com/direct-connect/go-dc"

// Property is a set of monitors that decide one property.
type Property struct {
	ID       string
	Rule     string // how cases are made and what makes one non-trivial
	Assume   []string
	Race     bool // the check is built with the race detector
	Monitors []Monitor
}

// Monitor runs numbered cases.
type Monitor struct {
	Name     string
	Quick    int  // number of cases in the quick tier
	Thorough int  // number of cases in the thorough tier
	Serial   bool // run alone (measures process-wide state)
	Run      func(t *T)
}

// Failure is a verdict of an oracle.
type Failure struct {
	Sig string
	Msg string
	Stk string
}

func (f *Failure) Error() string { return f.Sig + ": " + f.Msg }

// T is the context of a single case.
type T struct {
	R     *Rand
	Index int
	Total int // number of cases of this monitor in this run
	Tier  string

	verbose bool
	trace   []string

	w *stats
}

// stats are counters of one worker.
type stats struct {
	cases   map[string]int64
	evals   int64
	ev      map[string]int64
	seen    map[uint64]struct{}
	samples map[string][]string
	cur     string
}

func newStats() *stats {
	return &stats{cases: map[string]int64{}, ev: map[string]int64{}, seen: map[uint64]struct{}{}, samples: map[string][]string{}}
}

// Thorough reports if it's the deep tier.
func (t *T) Thorough() bool { return t.Tier == "thorough" }

// Failf reports a violation and ends the case.
func (t *T) Failf(sig, format string, args ...interface{}) {
	panic(&Failure{Sig: sig, Msg: fmt.Sprintf(format, args...), Stk: string(debug.Stack())})
}

// Logf adds to the trace of the case; it is only recorded when the case is replayed.
func (t *T) Logf(format string, args ...interface{}) {
	if t.verbose {
		t.trace = append(t.trace, fmt.Sprintf(format, args...))
	}
}

// Verbose reports if the case is replayed.
func (t *T) Verbose() bool { return t.verbose }

// Ev counts observed events.
func (t *T) Ev(name string, n int) { t.w.ev[name] += int64(n) }

// Eval counts oracle evaluations inside of the case.
func (t *T) Eval(n int) { t.w.evals += int64(n) }

// Seen registers a distinct non-trivial case.
func (t *T) Seen(s string) {
	if len(t.w.seen) < 4000000 {
		t.w.seen[HashStr(t.w.cur+"\x00"+s)] = struct{}{}
	}
}

// Sample records a description of the case; only a few per monitor are kept.
func (t *T) Sample(fnc func() string) {
	if t.Index < 2 && len(t.w.samples[t.w.cur]) < 2 {
		s := fnc()
		if len(s) > 600 {
			s = s[:600] + fmt.Sprintf("...(%d bytes)", len(s))
		}
		t.w.samples[t.w.cur] = append(t.w.samples[t.w.cur], s)
	}
}

// Par runs functions in separate goroutines, waits for all of them and re-raises the first failure.
func (t *T) Par(fns ...func()) {
	var (
		wg  sync.WaitGroup
		mu  sync.Mutex
		bad *Failure
	)
	for _, fnc := range fns {
		wg.Add(1)
		go func(fnc func()) {
			defer wg.Done()
			defer func() {
				if v := recover(); v != nil {
					f := classify(v, string(debug.Stack()))
					mu.Lock()
					if bad == nil {
						bad = f
					}
					mu.Unlock()
				}
			}()
			fnc()
		}(fnc)
	}
	wg.Wait()
	if bad != nil {
		panic(bad)
	}
}

const sigHarness = "harness-panic"

// classify converts a recovered value to a failure.
func classify(v interface{}, stack string) *Failure {
	if f, ok := v.(*Failure); ok {
		return f
	}
	sig := sigHarness
	if fn := panicFrame(stack); strings.HasPrefix(fn, SUT) {
		sig = "panic"
	}
	return &Failure{Sig: sig, Msg: fmt.Sprintf("panic: %v", v), Stk: stack}
}

// panicFrame returns the innermost function of the code under test or the harness below the panic.
func panicFrame(stack string) string {
	lines := strings.Split(stack, "\n")
	last := -1
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.throw(") {
			last = i // the last one is the outermost, when re-raised; take the innermost cause
		}
	}
	for _, l := range lines[last+1:] {
		if strings.HasPrefix(l, SUT) || strings.HasPrefix(l, "verif/harness") {
			return l
		}
	}
	return ""
}

// Events returns a sorted list of event names.
func sortedKeys(m map[string]int64) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
