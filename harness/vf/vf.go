// Package vf is the monitoring framework shared by all checks: it runs a
// fixed, seed-determined list of cases in several worker processes, watches
// every case for panics, endless CPU use, unbounded memory and oracle
// violations, and writes evidence and replay files.
//
// A parent process re-executes itself as shard workers. A worker journals the
// case it is about to run, so that a death of the whole process (stack
// overflow, out of memory, CPU watchdog) is attributed to the case that caused
// it; the parent then confirms by running that one case alone.
package vf

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Spec describes a check.
type Spec struct {
	ID          string
	Level       string // default "exploration"
	Rule        string
	Assumptions []string
	Require     []string // events that must have been observed, else the run is inconclusive
	Workers     int      // default 8
	CaseCPU     int      // seconds of CPU one case may use; default 25
	NoASLimit   bool     // do not limit the address space (race detector)
}

// Section is a list of cases.
type Section struct {
	name string
	n    int
	fn   func(*T)
}

// Suite collects sections.
type Suite struct {
	Thorough bool
	secs     []Section
}

// Section registers a list of q (quick) or th (thorough) cases.
func (s *Suite) Section(name string, q, th int, fn func(*T)) {
	n := q
	if s.Thorough {
		n = th
	}
	s.secs = append(s.secs, Section{name, n, fn})
}

// T is the context of one case.
type T struct {
	*rand.Rand
	I        int // index of the case in its section
	N        int // number of cases in the section
	Seed     int64
	Thorough bool
	Sec      string
	Dir      string // scratch directory of this worker
	w        *worker
	notes    []string
	inc      string
}

type failure struct{ key, msg string }

// Fail reports a violation and ends the case.
func (t *T) Fail(format string, a ...interface{}) {
	panic(failure{"", fmt.Sprintf(format, a...)})
}

// Check reports a violation unless ok.
func (t *T) Check(ok bool, format string, a ...interface{}) {
	if !ok {
		t.Fail(format, a...)
	}
}

// Inconclusive ends the case without a verdict.
func (t *T) Inconclusive(format string, a ...interface{}) {
	panic(inconclusive{fmt.Sprintf(format, a...)})
}

type inconclusive struct{ msg string }

// Note adds context that is written to the replay file if the case fails.
func (t *T) Note(format string, a ...interface{}) {
	if len(t.notes) < 400 {
		t.notes = append(t.notes, fmt.Sprintf(format, a...))
	}
}

// Event counts observed events.
func (t *T) Event(name string, n int) { t.w.res.Events[name] += n }

// Distinct records a distinct non-trivial observation.
func (t *T) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, t.Sec)
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprintf(h, "|%v", v)
		}
		h.Write([]byte{0})
	}
	t.w.distinct[h.Sum64()] = struct{}{}
}

// Sample keeps a few written-out cases for the evidence.
func (t *T) Sample(format string, a ...interface{}) {
	if len(t.w.res.Samples[t.Sec]) < 2 {
		t.w.res.Samples[t.Sec] = append(t.w.res.Samples[t.Sec], fmt.Sprintf(format, a...))
	}
}

// Eval counts additional evaluations (beyond one per case).
func (t *T) Eval(n int) { t.w.res.Evals += n }

type violation struct {
	Property string   `json:"property"`
	Section  string   `json:"section"`
	Index    int      `json:"index"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Message  string   `json:"message"`
	Notes    []string `json:"notes,omitempty"`
	Replay   string   `json:"replay_cmd"`
}

type result struct {
	Evals      int
	Events     map[string]int
	Samples    map[string][]string
	Violations []violation
	Inconc     []string
	Done       bool
}

type worker struct {
	spec     Spec
	res      result
	distinct map[uint64]struct{}
	journal  *os.File
	start    int64 // CPU time at case start, ns
	running  int32
}

func cpuNow() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// Bin is the path of the diskii binary built from /repo.
func Bin() string { return os.Getenv("VF_BIN") }

// Repo is the repository under test.
func Repo() string {
	if r := os.Getenv("VF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

// Verif is the root of the verification tree.
func Verif() string {
	if r := os.Getenv("VF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func seedOf(seed int64, sec string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, sec, i)
	return int64(h.Sum64())
}

// Main runs a check.
func Main(spec Spec, reg func(*Suite)) {
	if spec.Level == "" {
		spec.Level = "exploration"
	}
	if spec.Workers == 0 {
		spec.Workers = 8
	}
	if spec.CaseCPU == 0 {
		spec.CaseCPU = 25
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	suite := &Suite{Thorough: tier == "thorough"}
	reg(suite)
	if w := os.Getenv("VF_WORKER"); w != "" {
		runWorker(spec, suite, seed, tier, w)
		return
	}
	os.Exit(runParent(spec, suite, seed, tier))
}

// ---- worker ----

func runWorker(spec Spec, suite *Suite, seed int64, tier, ws string) {
	// VF_WORKER=k/n/fromSection/fromIndex  or  only/section/index
	parts := strings.Split(ws, "/")
	base := os.Getenv("VF_OUT")
	w := &worker{spec: spec, distinct: map[uint64]struct{}{}}
	w.res.Events = map[string]int{}
	w.res.Samples = map[string][]string{}
	j, err := os.OpenFile(base+".journal", os.O_CREATE|os.O_RDWR, 0600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w.journal = j
	debug.SetMaxStack(64 << 20)
	if !spec.NoASLimit {
		lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
		debug.SetMemoryLimit(1 << 30)
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	// no dots: directories are not to be taken for file extensions by accident
	dir := filepath.Join(filepath.Dir(base), strings.ReplaceAll(filepath.Base(base), ".", "-")+"-scratch")
	_ = os.MkdirAll(dir, 0755)
	_ = os.Chdir(dir)
	go w.watchdog()

	run := func(si, i int) {
		sec := suite.secs[si]
		w.runCase(suite, si, sec, i, seed, tier, dir)
	}
	if parts[0] == "only" {
		i, _ := strconv.Atoi(parts[2])
		for si, s := range suite.secs {
			if s.name == parts[1] {
				run(si, i)
			}
		}
	} else {
		k, _ := strconv.Atoi(parts[0])
		n, _ := strconv.Atoi(parts[1])
		fs, _ := strconv.Atoi(parts[2])
		fi, _ := strconv.Atoi(parts[3])
	loop:
		for si := fs; si < len(suite.secs); si++ {
			from := 0
			if si == fs {
				from = fi
			}
			// rotate the shard by section so that short sections spread out
			for i := from; i < suite.secs[si].n; i++ {
				if (i+si*3)%n != k {
					continue
				}
				run(si, i)
				if len(w.res.Violations) >= 4 {
					break loop
				}
			}
		}
	}
	w.res.Done = true
	b, _ := json.Marshal(w.res)
	var buf bytes.Buffer
	for h := range w.distinct {
		_ = binary.Write(&buf, binary.LittleEndian, h)
	}
	_ = os.WriteFile(base+".distinct", buf.Bytes(), 0600)
	_ = os.WriteFile(base+".json", b, 0600)
	_ = os.RemoveAll(dir)
	os.Exit(0)
}

func (w *worker) watchdog() {
	lim := int64(w.spec.CaseCPU) * 1e9
	for {
		time.Sleep(200 * time.Millisecond)
		if atomic.LoadInt32(&w.running) == 0 {
			continue
		}
		st := atomic.LoadInt64(&w.start)
		if cpuNow()-st > lim && atomic.LoadInt32(&w.running) == 1 && atomic.LoadInt64(&w.start) == st {
			fmt.Fprintf(os.Stderr, "VF-WATCHDOG: case used more than %d s of CPU time\n", w.spec.CaseCPU)
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			os.Stderr.Write(buf[:n])
			os.Exit(97)
		}
	}
}

func (w *worker) runCase(suite *Suite, si int, sec Section, i int, seed int64, tier, dir string) {
	var jb [24]byte
	copy(jb[:], fmt.Sprintf("%8d %14d", si, i))
	_, _ = w.journal.WriteAt(jb[:], 0)
	t := &T{Rand: rand.New(rand.NewSource(seedOf(seed, sec.name, i))), I: i, N: sec.n, Seed: seed, Thorough: suite.Thorough, Sec: sec.name, Dir: dir, w: w}
	w.res.Evals++
	atomic.StoreInt64(&w.start, cpuNow())
	atomic.StoreInt32(&w.running, 1)
	defer func() {
		atomic.StoreInt32(&w.running, 0)
		if r := recover(); r != nil {
			switch f := r.(type) {
			case inconclusive:
				w.res.Inconc = append(w.res.Inconc, fmt.Sprintf("%s[%d]: %s", sec.name, i, f.msg))
				return
			case failure:
				w.res.Violations = append(w.res.Violations, mkViolation(w.spec, sec.name, i, seed, tier, f.msg, t.notes))
				return
			default:
				st := string(debug.Stack())
				if !panicInRepo(st) {
					// a bug of the harness itself: no verdict
					w.res.Inconc = append(w.res.Inconc, fmt.Sprintf("HARNESS PANIC %s[%d]: %v\n%s", sec.name, i, r, st))
					return
				}
				w.res.Violations = append(w.res.Violations, mkViolation(w.spec, sec.name, i, seed, tier, fmt.Sprintf("panic: %v\n%s", r, st), t.notes))
			}
		}
	}()
	sec.fn(t)
}

// panicInRepo tells whether the frame that panicked (the first frame after the
// panic machinery that is not in the runtime or standard library) is in the
// code under test.
func panicInRepo(st string) bool {
	idx := strings.Index(st, "panic(")
	if idx < 0 {
		return true
	}
	lines := strings.Split(st[idx:], "\n")
	for _, l := range lines {
		if strings.HasPrefix(l, "verif/") || strings.HasPrefix(l, "main.") {
			return false
		}
		if strings.HasPrefix(l, "github.com/zellyn/diskii") {
			return true
		}
	}
	return true
}

func mkViolation(spec Spec, sec string, i int, seed int64, tier, msg string, notes []string) violation {
	return violation{Property: spec.ID, Section: sec, Index: i, Seed: seed, Tier: tier, Message: msg, Notes: notes,
		Replay: fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash run.sh %s --only %s/%d", seed, tier, spec.ID, sec, i)}
}

// ---- parent ----

type shard struct {
	k      int
	res    []result
	files  []string
	deaths []violation
	notes  []string
}

// raceReport tells whether a worker died of a data race in the code under
// test.
func raceReport(eb []byte) bool {
	return (bytes.Contains(eb, []byte("WARNING: DATA RACE")) || bytes.Contains(eb, []byte("fatal error: concurrent map"))) &&
		bytes.Contains(eb, []byte("github.com/zellyn/diskii"))
}

func tail(b []byte, n int) string {
	if len(b) > n {
		// keep the beginning, which says what happened
		return string(b[:n])
	}
	return string(b)
}

func runParent(spec Spec, suite *Suite, seed int64, tier string) int {
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "vf-"+spec.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	_ = os.Chmod(tmp, 0755)
	self, _ := os.Executable()
	spawn := func(arg, out string) (int, []byte) {
		cmd := exec.Command(self)
		cmd.Env = append(os.Environ(), "VF_WORKER="+arg, "VF_OUT="+out, "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66 history_size=3")
		var eb bytes.Buffer
		cmd.Stderr = &eb
		cmd.Stdout = &eb
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			return 3, []byte(err.Error())
		}
		go func() { done <- cmd.Wait() }()
		wall := 800 * time.Second
		if tier == "thorough" {
			wall = 4 * time.Hour
		}
		select {
		case err := <-done:
			if err == nil {
				return 0, eb.Bytes()
			}
			if ee, ok := err.(*exec.ExitError); ok {
				if ee.ExitCode() < 0 {
					return 128, append([]byte(ee.String()+"\n"), eb.Bytes()...)
				}
				return ee.ExitCode(), eb.Bytes()
			}
			return 3, []byte(err.Error())
		case <-time.After(wall):
			_ = cmd.Process.Kill()
			<-done
			return 98, eb.Bytes()
		}
	}
	load := func(out string) (result, bool) {
		var r result
		b, err := os.ReadFile(out + ".json")
		if err != nil {
			return r, false
		}
		if json.Unmarshal(b, &r) != nil {
			return r, false
		}
		return r, r.Done
	}

	if only := os.Getenv("VF_ONLY"); only != "" {
		out := filepath.Join(tmp, "only")
		code, eb := spawn("only/"+only, out)
		r, ok := load(out)
		for _, v := range r.Violations {
			fmt.Printf("section %s case %d: %s\n", v.Section, v.Index, v.Message)
			for _, n := range v.Notes {
				fmt.Println("   note:", n)
			}
		}
		for _, s := range r.Inconc {
			fmt.Println("inconclusive:", s)
		}
		if !ok {
			fmt.Printf("worker died with status %d:\n%s\n", code, tail(eb, 4000))
		}
		if !ok || len(r.Violations) > 0 {
			return 1
		}
		fmt.Println("case held")
		return 0
	}

	n := spec.Workers
	shards := make([]*shard, n)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		shards[k] = &shard{k: k}
		wg.Add(1)
		go func(sh *shard) {
			defer wg.Done()
			fs, fi, oom := 0, 0, 0
			for attempt := 0; attempt < 4; attempt++ {
				out := filepath.Join(tmp, fmt.Sprintf("w%d.%d", sh.k, attempt))
				code, eb := spawn(fmt.Sprintf("%d/%d/%d/%d", sh.k, n, fs, fi), out)
				r, ok := load(out)
				if ok {
					sh.res = append(sh.res, r)
					sh.files = append(sh.files, out)
					return
				}
				// The worker died. Which case was it running?
				jb, _ := os.ReadFile(out + ".journal")
				var si, ci int
				if _, err := fmt.Sscanf(string(jb), "%d %d", &si, &ci); err != nil || si >= len(suite.secs) {
					sh.notes = append(sh.notes, fmt.Sprintf("worker %d died with status %d before its first case: %s", sh.k, code, tail(eb, 2000)))
					return
				}
				sec := suite.secs[si].name
				if code == 98 {
					sh.notes = append(sh.notes, fmt.Sprintf("worker %d hit the wall-clock watchdog in %s[%d]", sh.k, sec, ci))
					return
				}
				if raceReport(eb) {
					// a report of the race detector is conclusive by itself
					sh.deaths = append(sh.deaths, mkViolation(spec, sec, ci, seed, tier, "data race\n"+tail(eb, 8000), nil))
					if len(sh.deaths) >= 2 {
						return
					}
					fs, fi = si, ci+1
					continue
				}
				cout := out + ".confirm"
				code2, eb2 := spawn(fmt.Sprintf("only/%s/%d", sec, ci), cout)
				r2, ok2 := load(cout)
				switch {
				case !ok2 && code2 != 98 && !bytes.Contains(eb2, []byte("HARNESS")):
					what := "the process died"
					if code2 == 97 {
						what = fmt.Sprintf("endless loop: more than %d s of CPU time in one case", spec.CaseCPU)
					}
					sh.deaths = append(sh.deaths, mkViolation(spec, sec, ci, seed, tier, what+"\n"+tail(eb2, 6000), nil))
				case ok2 && len(r2.Violations) > 0:
					sh.deaths = append(sh.deaths, r2.Violations...)
				case ok2 && oom < 2 && bytes.Contains(eb, []byte("out of memory")):
					// on a busy machine the garbage collector can fall behind;
					// the case alone is in order: once more from where it began
					oom++
					continue
				default:
					sh.notes = append(sh.notes, fmt.Sprintf("worker %d died with status %d in %s[%d], not reproduced alone: %s", sh.k, code, sec, ci, tail(eb, 2000)))
				}
				if len(sh.deaths) >= 2 {
					return
				}
				fs, fi = si, ci+1
			}
		}(shards[k])
	}
	wg.Wait()

	events := map[string]int{}
	samples := []string{}
	distinct := map[uint64]struct{}{}
	var viols []violation
	var inconc []string
	evals := 0
	sampleSeen := map[string]int{}
	for _, sh := range shards {
		viols = append(viols, sh.deaths...)
		inconc = append(inconc, sh.notes...)
		for ri, r := range sh.res {
			evals += r.Evals
			for k, v := range r.Events {
				events[k] += v
			}
			secs := make([]string, 0)
			for s := range r.Samples {
				secs = append(secs, s)
			}
			sort.Strings(secs)
			for _, s := range secs {
				for _, x := range r.Samples[s] {
					if sampleSeen[s] < 3 {
						sampleSeen[s]++
						samples = append(samples, s+": "+x)
					}
				}
			}
			viols = append(viols, r.Violations...)
			inconc = append(inconc, r.Inconc...)
			b, _ := os.ReadFile(sh.files[ri] + ".distinct")
			for i := 0; i+8 <= len(b); i += 8 {
				distinct[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
			}
		}
	}
	known := loadKnown(spec.ID)
	var fresh []violation
	knownHit := map[string]bool{}
	for _, v := range viols {
		if k := known.match(v); k != "" {
			knownHit[k] = true
			continue
		}
		fresh = append(fresh, v)
	}
	secCounts := map[string]int{}
	for _, s := range suite.secs {
		secCounts[s.name] = s.n
	}
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	ev := map[string]interface{}{
		"property": spec.ID, "tier": tier, "seed": seed, "level": spec.Level,
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": spec.Rule, "samples": samples,
			"events_observed": events, "cases_by_section": secCounts, "inconclusive": len(inconc),
		},
		"assumptions": spec.Assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(fresh),
	}
	if spec.Assumptions == nil {
		delete(ev, "assumptions")
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(Verif(), "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(Verif(), "evidence", spec.ID+".json"), append(eb, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", spec.ID, k)
	}
	fmt.Printf("%s: %d evaluations, %d distinct, %d events of %d kinds, %d violations, %d inconclusive, %.1f s\n",
		spec.ID, evals, len(distinct), sum(events), len(events), len(fresh), len(inconc), time.Since(t0).Seconds())
	if len(fresh) > 0 {
		rd := filepath.Join(Verif(), "replays")
		_ = os.MkdirAll(rd, 0755)
		sort.SliceStable(fresh, func(i, j int) bool {
			if fresh[i].Section != fresh[j].Section {
				return fresh[i].Section < fresh[j].Section
			}
			return fresh[i].Index < fresh[j].Index
		})
		for i, v := range fresh {
			if i >= 5 {
				fmt.Printf("(%d more)\n", len(fresh)-i)
				break
			}
			p := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", spec.ID, strings.Map(safe, v.Section), v.Index))
			b, _ := json.MarshalIndent(v, "", " ")
			_ = os.WriteFile(p, append(b, '\n'), 0644)
			msg := v.Message
			if len(msg) > 1500 {
				msg = msg[:1500] + "..."
			}
			fmt.Printf("section %s case %d: %s\n", v.Section, v.Index, msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", spec.ID, p)
		}
		return 1
	}
	if len(inconc) > 0 {
		for i, s := range inconc {
			if i < 5 {
				fmt.Println("INCONCLUSIVE:", s)
			}
		}
		for _, s := range inconc {
			if !strings.Contains(s, "tolerable") {
				return 2
			}
		}
	}
	for _, r := range spec.Require {
		if events[r] == 0 {
			fmt.Printf("INCONCLUSIVE: the workload never produced the event %q\n", r)
			return 2
		}
	}
	return 0
}

func safe(r rune) rune {
	if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
		return r
	}
	return '_'
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

// ---- known findings ----

type knownSet []string

// loadKnown reads KNOWN_FINDINGS.txt. Lines of the form
//
//	known: property=C09 match=<text>
//
// name an unrepaired defect by text its violation message must contain.
// "fixed:" lines suppress nothing.
func loadKnown(id string) knownSet {
	var ks knownSet
	b, _ := os.ReadFile(filepath.Join(Verif(), "KNOWN_FINDINGS.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + id + " match="
		if strings.HasPrefix(l, pre) {
			ks = append(ks, strings.TrimPrefix(l, pre))
		}
	}
	return ks
}

func (ks knownSet) match(v violation) string {
	for _, k := range ks {
		if k != "" && strings.Contains(v.Message, k) {
			return k
		}
	}
	return ""
}
