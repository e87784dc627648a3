package mon

import (
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// FailRec is a recorded violation.
type FailRec struct {
	Property string   `json:"property"`
	Monitor  string   `json:"monitor"`
	Index    int      `json:"index"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Sig      string   `json:"signature"`
	Msg      string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
	Stack    string   `json:"stack,omitempty"`
	Again    string   `json:"reproduced_on_replay,omitempty"`
}

type result struct {
	Done     bool                `json:"done"`
	Cases    map[string]int64    `json:"cases"`
	Evals    int64               `json:"evals"`
	Ev       map[string]int64    `json:"events"`
	Distinct int                 `json:"distinct"`
	Samples  map[string][]string `json:"samples"`
	Failures []FailRec           `json:"failures"`
	Note     string              `json:"note,omitempty"`
}

const (
	exitOK           = 0
	exitViolation    = 1
	exitInconclusive = 3

	maxFailures = 4
	caseLimit   = 60 * time.Second
	memLimit    = 8 << 30
)

type slot struct {
	start atomic.Int64 // unix nano; 0 if idle
	mon   atomic.Value // string
	idx   atomic.Int64
}

type runner struct {
	prop Property
	seed uint64
	tier string

	slots []*slot
	prog  *os.File
	out   string

	mu    sync.Mutex
	stats []*stats
	fails []FailRec
	stop  atomic.Bool
}

// quickScale multiplies case counts of the quick tier, except the ones of exhaustive monitors.
const quickScale = 3

// Main runs a check. It never returns.
func Main(props []Property) {
	var (
		id     = flag.String("prop", "", "property")
		child  = flag.String("child", "", "run as a child; path for the result")
		verif  = flag.String("verif", "/verif", "directory for evidence and replays")
		replay = flag.String("replay", "", "replay file")
		onlyM  = flag.String("monitor", "", "only run this monitor")
		onlyI  = flag.Int("index", -1, "only run this case")
		factor = flag.Float64("factor", 1, "multiply case counts")
	)
	flag.Parse()
	seed := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if *replay != "" {
		data, err := ioutil.ReadFile(*replay)
		var rec FailRec
		if err == nil {
			err = json.Unmarshal(data, &rec)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitInconclusive)
		}
		*id, *onlyM, *onlyI, seed, tier = rec.Property, rec.Monitor, rec.Index, rec.Seed, rec.Tier
	}
	var prop *Property
	for i := range props {
		if props[i].ID == *id {
			prop = &props[i]
		}
	}
	if prop == nil {
		fmt.Fprintf(os.Stderr, "unknown property: %q\n", *id)
		os.Exit(exitInconclusive)
	}
	p := *prop
	if *onlyM != "" {
		var arr []Monitor
		for _, m := range p.Monitors {
			if m.Name == *onlyM {
				arr = append(arr, m)
			}
		}
		p.Monitors = arr
	}
	if *factor != 1 {
		// also scales exhaustive monitors, to allow reducing them
		for i := range p.Monitors {
			p.Monitors[i].Quick = int(float64(p.Monitors[i].Quick) * *factor)
			p.Monitors[i].Thorough = int(float64(p.Monitors[i].Thorough) * *factor)
		}
	}
	for i := range p.Monitors {
		if m := &p.Monitors[i]; m.Quick < m.Thorough {
			// not exhaustive
			m.Quick = m.Quick * quickScale
			if m.Quick > m.Thorough {
				m.Quick = m.Thorough
			}
		}
	}
	if *onlyI >= 0 {
		r := &runner{prop: p, seed: seed, tier: tier}
		bad := false
		for _, m := range p.Monitors {
			f, tr := r.runCase(m, *onlyI, newStats(), true)
			fmt.Println(strings.Join(tr, "\n"))
			if f != nil {
				bad = true
				fmt.Printf("FAILURE %s/%s#%d %s: %s\n%s\n", p.ID, m.Name, *onlyI, f.Sig, f.Msg, f.Stk)
			}
		}
		if bad {
			os.Exit(exitViolation)
		}
		os.Exit(exitOK)
	}
	if *child != "" {
		runChild(p, seed, tier, *child)
		os.Exit(exitOK)
	}
	os.Exit(parent(p, seed, tier, *verif, os.Args[1:]))
}

func (r *runner) count(m Monitor) int {
	if r.tier == "thorough" {
		return m.Thorough
	}
	return m.Quick
}

// runCase runs a single case and returns a failure, if any.
func (r *runner) runCase(m Monitor, idx int, st *stats, verbose bool) (fail *Failure, trace []string) {
	st.cur = m.Name
	t := &T{
		R:     NewRand(mix(r.seed) ^ HashStr(r.prop.ID+"/"+m.Name) ^ mix(uint64(idx)*0x9e3779b97f4a7c15+1)),
		Index: idx, Total: r.count(m), Tier: r.tier,
		verbose: verbose, w: st,
	}
	defer func() {
		if v := recover(); v != nil {
			fail = classify(v, string(debug.Stack()))
		}
		trace = t.trace
	}()
	m.Run(t)
	return nil, nil
}

type job struct {
	m      Monitor
	lo, hi int
}

func runChild(p Property, seed uint64, tier, out string) {
	n := runtime.GOMAXPROCS(0)
	r := &runner{prop: p, seed: seed, tier: tier, out: out}
	f, err := os.Create(out + ".progress")
	if err == nil {
		r.prog = f
	}
	for i := 0; i < n; i++ {
		s := &slot{}
		s.mon.Store("")
		r.slots = append(r.slots, s)
		r.stats = append(r.stats, newStats())
	}
	go r.watch()

	for _, m := range p.Monitors {
		if m.Serial {
			for i := 0; i < r.count(m) && !r.stop.Load(); i++ {
				r.step(0, m, i)
			}
		}
	}
	// interleave small batches of all the monitors
	var jobs []job
	for _, m := range p.Monitors {
		if m.Serial {
			continue
		}
		cnt := r.count(m)
		batch := cnt/64 + 1
		for i := 0; i < cnt; i += batch {
			hi := i + batch
			if hi > cnt {
				hi = cnt
			}
			jobs = append(jobs, job{m: m, lo: i, hi: hi})
		}
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for !r.stop.Load() {
				i := int(next.Add(1)) - 1
				if i >= len(jobs) {
					return
				}
				j := jobs[i]
				for k := j.lo; k < j.hi && !r.stop.Load(); k++ {
					r.step(w, j.m, k)
				}
			}
		}(w)
	}
	wg.Wait()
	r.finish(true, "")
}

func (r *runner) step(w int, m Monitor, idx int) {
	s := r.slots[w]
	s.mon.Store(m.Name)
	s.idx.Store(int64(idx))
	s.start.Store(time.Now().UnixNano())
	if r.prog != nil {
		_, _ = r.prog.WriteAt([]byte(fmt.Sprintf("%-40s %10d\n", m.Name, idx)), int64(w)*52)
	}
	st := r.stats[w]
	fail, _ := r.runCase(m, idx, st, false)
	st.cases[m.Name]++
	s.start.Store(0)
	if fail == nil {
		return
	}
	rec := FailRec{
		Property: r.prop.ID, Monitor: m.Name, Index: idx, Seed: r.seed, Tier: r.tier,
		Sig: fail.Sig, Msg: fail.Msg, Stack: fail.Stk,
	}
	if len(rec.Msg) > 20000 {
		rec.Msg = rec.Msg[:20000] + "..."
	}
	s.start.Store(time.Now().UnixNano())
	fail2, trace := r.runCase(m, idx, newStats(), true)
	s.start.Store(0)
	rec.Trace = trace
	if fail2 != nil {
		rec.Again = fail2.Sig + ": " + fail2.Msg
		if len(rec.Again) > 2000 {
			rec.Again = rec.Again[:2000]
		}
	}
	r.mu.Lock()
	r.fails = append(r.fails, rec)
	if len(r.fails) >= maxFailures {
		r.stop.Store(true)
	}
	r.mu.Unlock()
}

func (r *runner) finish(done bool, note string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	res := result{Done: done, Note: note, Cases: map[string]int64{}, Ev: map[string]int64{}, Samples: map[string][]string{}, Failures: r.fails}
	if done { // otherwise workers still use them
		seen := map[uint64]struct{}{}
		for _, s := range r.stats {
			res.Evals += s.evals
			for k, v := range s.cases {
				res.Cases[k] += v
			}
			for k, v := range s.ev {
				res.Ev[k] += v
			}
			for k := range s.seen {
				seen[k] = struct{}{}
			}
			for k, v := range s.samples {
				if len(res.Samples[k]) < 2 {
					res.Samples[k] = append(res.Samples[k], v...)
				}
			}
		}
		res.Distinct = len(seen)
	}
	data, _ := json.Marshal(res)
	_ = ioutil.WriteFile(r.out+".tmp", data, 0644)
	_ = os.Rename(r.out+".tmp", r.out)
}

// watch ends the process if a case hangs in the code under test, or the memory use explodes.
func (r *runner) watch() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		metrics.Read(sample)
		if sample[0].Value.Uint64() > memLimit {
			r.abort("memory", fmt.Sprintf("heap grew to %d bytes", sample[0].Value.Uint64()))
		}
		now := time.Now().UnixNano()
		for _, s := range r.slots {
			st := s.start.Load()
			if st != 0 && now-st > int64(caseLimit) {
				r.abort("hang", fmt.Sprintf("case %s#%d did not end within %v", s.mon.Load(), s.idx.Load(), caseLimit))
			}
		}
	}
}

func stacks() string {
	buf := make([]byte, 4<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func (r *runner) abort(sig, msg string) {
	a := stacks()
	time.Sleep(2 * time.Second)
	b := stacks()
	pick := ""
	for _, g := range strings.Split(b, "\n\n") {
		if strings.Contains(g, SUT) {
			pick += g + "\n\n"
		}
	}
	if pick == "" || !strings.Contains(a, SUT) {
		r.finish(false, sig+" outside of the code under test: "+msg)
		os.Exit(exitInconclusive)
	}
	worst := r.slots[0]
	for _, s := range r.slots {
		if v := s.start.Load(); v != 0 && (worst.start.Load() == 0 || v < worst.start.Load()) {
			worst = s
		}
	}
	if len(pick) > 20000 {
		pick = pick[:20000]
	}
	mon, _ := worst.mon.Load().(string)
	r.mu.Lock()
	r.fails = append(r.fails, FailRec{
		Property: r.prop.ID, Monitor: mon, Index: int(worst.idx.Load()), Seed: r.seed, Tier: r.tier,
		Sig: sig, Msg: msg, Stack: pick,
	})
	r.mu.Unlock()
	r.finish(false, "")
	os.Exit(exitViolation)
}

// ---- parent ----

func parent(p Property, seed uint64, tier, verif string, args []string) int {
	begin := time.Now()
	dir, err := ioutil.TempDir("", "vmon")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitInconclusive
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "result.json")
	self, _ := os.Executable()
	cmd := exec.Command(self, append(append([]string{}, args...), "-child", out)...)
	stderr, _ := os.Create(filepath.Join(dir, "stderr"))
	cmd.Stdout = os.Stdout
	cmd.Stderr = stderr
	cmd.Env = append(os.Environ(),
		"GORACE=log_path="+filepath.Join(dir, "race")+" halt_on_error=0 exitcode=0 history_size=3",
		"GOTRACEBACK=all",
		"VERIF_SCRATCH="+dir,
	)
	limit := 800 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitInconclusive
	}
	timer := time.AfterFunc(limit, func() { _ = cmd.Process.Kill() })
	werr := cmd.Wait()
	timer.Stop()
	_ = stderr.Close()

	var res result
	have := false
	if data, err := ioutil.ReadFile(out); err == nil {
		have = json.Unmarshal(data, &res) == nil
	}
	errOut, _ := ioutil.ReadFile(filepath.Join(dir, "stderr"))
	prog, _ := ioutil.ReadFile(out + ".progress")
	var problems []string // inconclusive
	fails := res.Failures
	if !have {
		text := string(errOut)
		crash := strings.Contains(text, "fatal error:") || strings.Contains(text, "panic:") || strings.Contains(text, "SIGSEGV")
		if crash && crashInSUT(text) {
			head := text
			if len(head) > 20000 {
				head = head[:20000]
			}
			fails = append(fails, FailRec{
				Property: p.ID, Monitor: "process", Index: -1, Seed: seed, Tier: tier,
				Sig: "fatal", Msg: firstLine(text), Stack: head, Trace: []string{"cases in progress:", string(prog)},
			})
		} else {
			problems = append(problems, fmt.Sprintf("child ended without a result: %v\n%s", werr, tail(text, 4000)))
		}
	} else if !res.Done && len(fails) == 0 {
		problems = append(problems, "run is incomplete: "+res.Note)
	}
	// harness panics are errors of the check, not verdicts
	var viol []FailRec
	for _, f := range fails {
		if f.Sig == sigHarness {
			problems = append(problems, fmt.Sprintf("harness panic in %s#%d: %s\n%s", f.Monitor, f.Index, f.Msg, tail(f.Stack, 3000)))
			continue
		}
		viol = append(viol, f)
	}
	races, other := raceReports(dir)
	for _, rep := range races {
		viol = append(viol, FailRec{
			Property: p.ID, Monitor: "race-detector", Index: -1, Seed: seed, Tier: tier,
			Sig: "race:" + raceSig(rep), Msg: "data race", Stack: rep,
		})
	}
	for _, rep := range other {
		problems = append(problems, "race report without the code under test:\n"+rep)
	}

	var evals int64
	for _, c := range res.Cases {
		evals += c
	}
	if len(viol) == 0 && len(problems) == 0 {
		if evals == 0 || res.Distinct == 0 {
			problems = append(problems, "nothing was observed")
		}
	}

	known := knownFindings(filepath.Join(verif, "known-findings.txt"), p.ID)
	_ = os.MkdirAll(filepath.Join(verif, "replays"), 0755)
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	bad := 0
	printed := map[string]bool{}
	for _, f := range viol {
		key := f.Monitor + "/" + f.Sig
		if text, ok := known[key]; ok {
			if !printed[key] {
				printed[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", p.ID, text, key)
			}
			continue
		}
		bad++
		name := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%d-%d.json", p.ID, f.Monitor, f.Index, bad))
		data, _ := json.MarshalIndent(f, "", " ")
		_ = ioutil.WriteFile(name, data, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, name)
		fmt.Printf("  %s/%s#%d %s: %s\n", p.ID, f.Monitor, f.Index, f.Sig, cut(f.Msg, 1500))
	}
	writeEvidence(p, seed, tier, verif, res, evals, bad, time.Since(begin), len(races)+len(other))
	for _, s := range problems {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", p.ID, s)
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d oracle evaluations, %d distinct, %d violations, %.1fs\n",
		p.ID, tier, seed, evals, res.Evals, res.Distinct, bad, time.Since(begin).Seconds())
	if bad > 0 {
		return exitViolation
	}
	if len(problems) > 0 {
		return exitInconclusive
	}
	return exitOK
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error:") || strings.Contains(l, "panic:") || strings.Contains(l, "SIGSEGV") {
			return l
		}
	}
	return ""
}

// crashInSUT checks if the crashed goroutine was executing the code under test.
func crashInSUT(text string) bool {
	for _, g := range strings.Split(text, "\n\n") {
		if strings.Contains(g, "goroutine ") && strings.Contains(g, "[running") && strings.Contains(g, SUT) {
			return true
		}
	}
	// fatal errors of the map implementation and stack overflows may print other goroutines first
	return (strings.Contains(text, "concurrent map") || strings.Contains(text, "stack overflow")) && strings.Contains(text, SUT)
}

func raceReports(dir string) (sut, other []string) {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	for _, f := range files {
		data, _ := ioutil.ReadFile(f)
		for _, rep := range strings.Split(string(data), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			// only the two accesses decide, not the places where goroutines were created
			acc := rep
			if i := strings.Index(rep, "Goroutine "); i >= 0 {
				acc = rep[:i]
			}
			k := raceSig(rep)
			if seen[k] {
				continue
			}
			seen[k] = true
			if strings.Contains(acc, SUT) {
				sut = append(sut, rep)
			} else {
				other = append(other, rep)
			}
		}
	}
	return
}

// raceSig is a pair of innermost functions of the code under test.
func raceSig(rep string) string {
	var out []string
	for _, part := range strings.Split(rep, "\n\n") {
		for _, l := range strings.Split(part, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, SUT) {
				if i := strings.LastIndexByte(l, '('); i >= 0 {
					l = l[:i]
				}
				out = append(out, strings.TrimPrefix(l, SUT))
				break
			}
		}
		if len(out) == 2 {
			break
		}
	}
	return strings.Join(out, "|")
}

// knownFindings reads lines "KNOWN property=<id> key=<monitor>/<signature> <text>".
func knownFindings(path, id string) map[string]string {
	out := map[string]string{}
	data, err := ioutil.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(data), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) >= 3 && f[0] == "KNOWN" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			text := ""
			if len(f) == 4 {
				text = f[3]
			}
			out[strings.TrimPrefix(f[2], "key=")] = text
		}
	}
	return out
}

func writeEvidence(p Property, seed uint64, tier, verif string, res result, evals int64, bad int, wall time.Duration, races int) {
	samples := []string{}
	for _, m := range p.Monitors {
		for _, s := range res.Samples[m.Name] {
			samples = append(samples, m.Name+": "+s)
		}
	}
	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": res.Distinct,
		"rule":                p.Rule,
		"samples":             samples,
		"oracle_evaluations":  res.Evals,
		"cases_per_monitor":   res.Cases,
		"observed_events":     res.Ev,
	}
	if p.Race {
		cov["race_reports"] = races
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": bad,
	}
	if len(p.Assume) != 0 {
		ev["assumptions"] = p.Assume
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	_ = ioutil.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(data, '\n'), 0644)
}
