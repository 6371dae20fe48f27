// Package mon runs the workloads of a check under supervision and decides.
//
// A check is a list of scenarios, a scenario a list of cases. Case i of a
// scenario is a function of (seed, scenario, i) alone, so that a case that
// fails can be run again on its own. The cases run in child processes
// (workers): what kills the process (a panic in a goroutine, a stack overflow,
// a fatal error of the runtime), eats the memory or never comes back is
// observed by the parent, and attributed to the case that was running.
package mon

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

const nobody = 65534

// Files is at most n, and fewer if not so many files can be open.
func Files(n int) int {
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l); err == nil && int64(l.Cur) < int64(n)+200 {
		n = max(10, int(l.Cur)-200)
	}
	return n
}

// Check decides one property.
type Check struct {
	ID          string
	Rule        string
	Assumptions []string
	Scenarios   []Scenario
	Require     map[string]int // events that must have been observed, at least
	MaxPar      int            // workers at the same time (default: 8)
}

// Scenario is a family of cases.
type Scenario struct {
	Name     string
	Quick    int // number of cases in the quick tier
	Thorough int // number of cases in the thorough tier
	Shards   int // worker processes the cases are divided among (default 1)
	Run      func(t *T, i int)
	StallSec int  // a case may take this long (default 90 s of wall clock)
	CPUSec   int  // a case may use this much CPU time (default 45 s)
	RSSMB    int  // a worker may use this much memory (default 3000)
	Alone    bool // run while no other worker runs
	Sync     bool // the cases use T.TT with testing/synctest
	Nobody   bool // run as an unprivileged user, who owns only the scratch directory
}

// T is what a case gets.
type T struct {
	Rng      *rand.Rand
	TT       *testing.T // for testing/synctest
	Seed     uint64
	Scenario string
	Index    int
	Thorough bool

	mu     sync.Mutex
	events map[string]int
	keys   []uint64
	viols  []violation
	sample string
	dir    string
	clean  []func()
}

type violation struct {
	Fp     string `json:"fp"`
	Detail string `json:"detail"`
}

// Failf records that the property does not hold. fp says what kind of failure
// it is, and identifies it in the known-findings file.
func (t *T) Failf(fp, format string, a ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.viols) < 5 {
		d := fmt.Sprintf(format, a...)
		if len(d) > 6000 {
			d = d[:6000] + "..."
		}
		t.viols = append(t.viols, violation{fp, d})
	}
}

// Failed says whether this case has failed.
func (t *T) Failed() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.viols) > 0
}

// Event counts something the monitors observed.
func (t *T) Event(name string, n int) {
	t.mu.Lock()
	t.events[name] += n
	t.mu.Unlock()
}

// Key records a distinct, non-trivial case, input, history or state.
func (t *T) Key(parts ...any) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|", t.Scenario)
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			io.WriteString(h, v)
		default:
			fmt.Fprintf(h, "%v", v)
		}
		h.Write([]byte{0})
	}
	t.mu.Lock()
	t.keys = append(t.keys, h.Sum64())
	t.mu.Unlock()
}

// Sample describes this case. Some of them end up in the evidence.
func (t *T) Sample(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	t.mu.Lock()
	t.sample = s
	t.mu.Unlock()
}

// Dir returns a scratch directory that is removed after the case.
func (t *T) Dir() string {
	if t.dir == "" {
		d, err := os.MkdirTemp(os.Getenv("VMON_TMP"), "case")
		if err != nil {
			panic(err)
		}
		t.dir = d
	}
	return t.dir
}

// Shared is the path of a file that other cases, in the same process, use too.
func (t *T) Shared(name string) string {
	return filepath.Join(os.Getenv("VMON_TMP"), fmt.Sprintf("shared%d%s", os.Getpid(), name))
}

// Cleanup registers f to run after the case.
func (t *T) Cleanup(f func()) { t.clean = append(t.clean, f) }

func rng(seed uint64, scenario string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", scenario, i)
	return rand.New(rand.NewPCG(seed*0x9e3779b97f4a7c15+1, h.Sum64()))
}

// RngFor gives the PRNG that belongs to a name, for the use outside of cases.
func RngFor(seed uint64, name string) *rand.Rand { return rng(seed, name, -1) }

type msg struct {
	Kind   string         `json:"k"` // begin, end, done
	I      int            `json:"i"`
	Events map[string]int `json:"e,omitempty"`
	Keys   []uint64       `json:"h,omitempty"`
	Viols  []violation    `json:"v,omitempty"`
	Sample string         `json:"s,omitempty"`
}

// Main runs the check, as the parent or as a worker.
func Main(c Check) {
	if os.Getenv("VMON_WORKER") != "" {
		worker(c)
		return
	}
	os.Exit(parent(c))
}

// ---------------------------------------------------------------------------
// Worker

func worker(c Check) {
	var sc *Scenario
	for i := range c.Scenarios {
		if c.Scenarios[i].Name == os.Getenv("VMON_WORKER") {
			sc = &c.Scenarios[i]
		}
	}
	from, _ := strconv.Atoi(os.Getenv("VMON_FROM"))
	to, _ := strconv.Atoi(os.Getenv("VMON_TO"))
	step, _ := strconv.Atoi(os.Getenv("VMON_STEP"))
	seed, _ := strconv.ParseUint(os.Getenv("VMON_SEED"), 10, 64)
	thorough := os.Getenv("VMON_TIER") == "thorough"
	out := os.NewFile(3, "events")
	w := bufio.NewWriter(out)
	enc := json.NewEncoder(w)
	log.SetOutput(io.Discard)
	if !raceEnabled {
		debug.SetGCPercent(200)
	}

	all := func(tt *testing.T) {
		for i := from; i < to; i += step {
			enc.Encode(msg{Kind: "begin", I: i})
			w.Flush()
			t := &T{Rng: rng(seed, sc.Name, i), TT: tt, Seed: seed, Scenario: sc.Name, Index: i,
				Thorough: thorough, events: map[string]int{}}
			runCase(sc, t, i)
			for j := len(t.clean) - 1; j >= 0; j-- {
				t.clean[j]()
			}
			if t.dir != "" {
				os.RemoveAll(t.dir)
			}
			t.mu.Lock()
			enc.Encode(msg{Kind: "end", I: i, Events: t.events, Keys: t.keys, Viols: t.viols, Sample: t.sample})
			t.mu.Unlock()
			w.Flush()
		}
		enc.Encode(msg{Kind: "done"})
		w.Flush()
	}
	if !sc.Sync {
		all(nil)
		os.Exit(0)
	}
	os.Args = os.Args[:1]
	testing.Main(func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "TestWorker", F: all}}, nil, nil)
}

func runCase(sc *Scenario, t *T, i int) {
	defer func() {
		if r := recover(); r != nil {
			t.Failf("panic", "panic: %v\n%s", r, debug.Stack())
		}
	}()
	sc.Run(t, i)
}

// ---------------------------------------------------------------------------
// Parent

type found struct {
	Scenario string `json:"scenario"`
	Index    int    `json:"index"`
	violation
}

type result struct {
	mu       sync.Mutex
	evals    int
	events   map[string]int
	keys     map[uint64]struct{}
	viols    []found
	samples  map[string][]string
	broken   []string // errors of the machinery
	until    time.Time       // no more cases after this, once there is a violation
	known    map[string]string
	scenario map[string]int
}

func parent(c Check) int {
	start := time.Now()
	seed := uint64(1)
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	tmp, err := os.MkdirTemp("", "vmon-"+c.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	os.Chmod(tmp, 0755)
	os.Mkdir(filepath.Join(tmp, "races"), 0777)
	os.Chmod(filepath.Join(tmp, "races"), 0777)

	known := readKnown(c.ID)
	res := &result{until: start.Add(enough), known: known, events: map[string]int{}, keys: map[uint64]struct{}{}, samples: map[string][]string{}, scenario: map[string]int{}}

	only, onlyIdx := "", -1
	if p := os.Getenv("VMON_REPLAY"); p != "" {
		var r struct {
			Seed     uint64 `json:"seed"`
			Scenario string `json:"scenario"`
			Index    int    `json:"index"`
			Tier     string `json:"tier"`
		}
		b, err := os.ReadFile(p)
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
			return 2
		}
		only, onlyIdx, seed, tier = r.Scenario, r.Index, r.Seed, r.Tier
	}

	par := c.MaxPar
	if par == 0 {
		par = runtime.NumCPU()
	}
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	launch := func(sc *Scenario) {
		n := sc.Quick
		if tier == "thorough" {
			n = sc.Thorough
		}
		shards := max(sc.Shards, 1)
		shards = min(shards, max(n, 1))
		for s := 0; s < shards; s++ {
			from, to, step := s, n, shards
			if onlyIdx >= 0 {
				if s > 0 {
					break
				}
				from, to, step = onlyIdx, onlyIdx+1, 1
			}
			sem <- struct{}{}
			if res.decided() {
				<-sem
				return
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				runWorker(c, sc, from, to, step, seed, tier, tmp, res)
			}()
		}
	}
	for _, alone := range []bool{false, true} {
		for i := range c.Scenarios {
			sc := &c.Scenarios[i]
			if sc.Alone != alone || (only != "" && sc.Name != only) {
				continue
			}
			launch(sc)
			if alone {
				wg.Wait()
			}
		}
		wg.Wait()
	}
	collectRaces(tmp, res)

	// Decide
	reported := map[string]bool{}
	nviol := 0
	exit := 0
	for _, v := range res.viols {
		if what, ok := known[v.Fp]; ok {
			if !reported["known "+v.Fp] {
				reported["known "+v.Fp] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, what)
			}
			continue
		}
		nviol++
		exit = 1
		key := v.Scenario + " " + v.Fp
		if reported[key] || len(reported) > 8 {
			continue
		}
		reported[key] = true
		path := writeReplay(c, v, seed, tier)
		fmt.Printf("%s case %d: %s\n%s\n", v.Scenario, v.Index, v.Fp, firstLines(v.Detail, 12))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	}
	if exit == 0 && len(res.broken) > 0 {
		for _, b := range res.broken {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", b)
		}
		exit = 2
	}
	if exit == 0 && only == "" {
		for name, n := range c.Require {
			if res.events[name] < n {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE: observed %d events %q, need %d\n", res.events[name], name, n)
				exit = 2
			}
		}
	}
	if only == "" {
		if err := writeEvidence(c, res, seed, tier, nviol, time.Since(start)); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			exit = max(exit, 2)
			if nviol > 0 {
				exit = 1
			}
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct, %d violations, %.1fs, events %v\n",
		c.ID, tier, seed, res.evals, len(res.keys), nviol, time.Since(start).Seconds(), res.events)
	return exit
}

func runWorker(c Check, sc *Scenario, from, to, step int, seed uint64, tier, tmp string, res *result) {
	// On a crash of a worker, the cases after the one that crashed are left out
	stall := time.Duration(orDefault(sc.StallSec, 90)) * time.Second
	cpuLimit := time.Duration(orDefault(sc.CPUSec, 45)) * time.Second
	rssLimit := int64(orDefault(sc.RSSMB, 3000)) << 20

	pr, pw, err := os.Pipe()
	if err != nil {
		res.breakf("%v", err)
		return
	}
	wtmp, _ := os.MkdirTemp(tmp, "w-")
	errFile, _ := os.Create(filepath.Join(wtmp, "stderr"))
	defer errFile.Close()
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(),
		"VMON_WORKER="+sc.Name, "VMON_FROM="+strconv.Itoa(from), "VMON_TO="+strconv.Itoa(to),
		"VMON_STEP="+strconv.Itoa(step), "VMON_SEED="+strconv.FormatUint(seed, 10), "VMON_TIER="+tier,
		"VMON_TMP="+wtmp, "TMPDIR="+wtmp, "HOME="+wtmp, "GOTRACEBACK=all",
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(tmp, "races", "race."+sc.Name))
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Stderr = errFile
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if sc.Nobody && os.Geteuid() == 0 {
		os.Chown(wtmp, nobody, nobody)
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody, Groups: []uint32{}}
		cmd.Dir = wtmp
	}
	runtime.LockOSThread() // Pdeathsig is sent when the starting thread ends
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		res.breakf("%v", err)
		return
	}
	pw.Close()
	pid := cmd.Process.Pid

	var mu sync.Mutex
	cur, running, done := from, false, false
	caseStart, cpuStart := time.Now(), time.Duration(0)
	readerDone := make(chan struct{})
	go func() {
		defer close(readerDone)
		dec := json.NewDecoder(bufio.NewReaderSize(pr, 1<<16))
		for {
			var m msg
			if dec.Decode(&m) != nil {
				return
			}
			mu.Lock()
			switch m.Kind {
			case "begin":
				cur, running = m.I, true
				caseStart, cpuStart = time.Now(), -1
			case "end":
				running = false
				if os.Getenv("VMON_TIMES") != "" {
					fmt.Fprintf(os.Stderr, "%s %d: %.2f s\n", sc.Name, m.I, time.Since(caseStart).Seconds())
				}
				caseStart, cpuStart = time.Now(), -1
				res.add(sc.Name, &m)
			case "done":
				done = true
			}
			mu.Unlock()
		}
	}()

	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	tick := time.NewTicker(25 * time.Millisecond)
	defer tick.Stop()
	killedFor, stopped := "", false
	var werr error
loop:
	for {
		select {
		case werr = <-exited:
			break loop
		case <-tick.C:
			if killedFor != "" || stopped {
				continue
			}
			if res.decided() {
				stopped = true
				syscall.Kill(-pid, syscall.SIGKILL)
				continue
			}
			cpu, rss := procStat(pid)
			mu.Lock()
			if cpuStart < 0 {
				cpuStart = cpu
			}
			elapsed, used, isDone := time.Since(caseStart), cpu-cpuStart, done
			mu.Unlock()
			switch {
			case isDone:
			case rss > rssLimit:
				killedFor = fmt.Sprintf("memory: the worker uses %d MB", rss>>20)
			case used > cpuLimit:
				killedFor = fmt.Sprintf("no end: the case used %.0f s of CPU time", used.Seconds())
			case elapsed > stall:
				killedFor = fmt.Sprintf("stuck: no progress for %.0f s", elapsed.Seconds())
			}
			if killedFor != "" {
				if !strings.HasPrefix(killedFor, "memory") {
					syscall.Kill(pid, syscall.SIGQUIT) // stacks of all goroutines
					go func() {
						time.Sleep(5 * time.Second)
						syscall.Kill(-pid, syscall.SIGKILL)
					}()
				} else {
					syscall.Kill(-pid, syscall.SIGKILL)
				}
			}
		}
	}
	syscall.Kill(-pid, syscall.SIGKILL) // what it left behind
	select {
	case <-readerDone:
	case <-time.After(10 * time.Second):
	}
	pr.Close()
	mu.Lock()
	defer mu.Unlock()
	if stopped || (done && killedFor == "") {
		os.RemoveAll(wtmp)
		return
	}
	errText := tailOf(filepath.Join(wtmp, "stderr"))
	if !running && killedFor == "" && cur == from && strings.Contains(errText, "no such file") {
		res.breakf("worker %s did not start: %v\n%s", sc.Name, werr, errText)
		return
	}
	fp := "crash"
	if killedFor != "" {
		fp = strings.SplitN(killedFor, ":", 2)[0]
	}
	res.mu.Lock()
	res.viols = append(res.viols, found{sc.Name, cur, violation{fp,
		fmt.Sprintf("%s\nworker ended with %v (case running: %v)\n%s", killedFor, werr, running, errText)}})
	res.mu.Unlock()
	os.RemoveAll(wtmp)
}

func orDefault(v, d int) int {
	if v == 0 {
		return d
	}
	return v
}

// enough is how long a check runs on after it has found a violation: a check
// has to answer in time, and a bug may make every case slow.
const enough = 4 * time.Minute

// decided says whether the check can stop: the property does not hold, and it
// has run for long enough.
func (r *result) decided() bool {
	if time.Now().Before(r.until) {
		return false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, v := range r.viols {
		if _, ok := r.known[v.Fp]; !ok {
			return true
		}
	}
	return false
}

func (r *result) breakf(format string, a ...any) {
	r.mu.Lock()
	r.broken = append(r.broken, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

func (r *result) add(sc string, m *msg) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	r.scenario[sc]++
	for k, v := range m.Events {
		r.events[k] += v
	}
	for _, k := range m.Keys {
		r.keys[k] = struct{}{}
	}
	for _, v := range m.Viols {
		r.viols = append(r.viols, found{sc, m.I, v})
	}
	if m.Sample != "" && len(r.samples[sc]) < 3 {
		r.samples[sc] = append(r.samples[sc], m.Sample)
	}
}

// procStat returns the CPU time and the resident memory of a process of ours.
func procStat(pid int) (time.Duration, int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		s = s[i+1:]
	}
	f := strings.Fields(s)
	if len(f) < 22 {
		return 0, 0
	}
	ut, _ := strconv.ParseInt(f[11], 10, 64)
	st, _ := strconv.ParseInt(f[12], 10, 64)
	rss, _ := strconv.ParseInt(f[21], 10, 64)
	return time.Duration(ut+st) * (time.Second / 100), rss * int64(os.Getpagesize())
}

func tailOf(path string) string {
	b, _ := os.ReadFile(path)
	// The interesting part is what comes first (the panic and its stack)
	if i := strings.Index(string(b), "panic:"); i > 0 {
		b = b[i:]
	} else if i := strings.Index(string(b), "fatal error:"); i > 0 {
		b = b[i:]
	} else if i := strings.Index(string(b), "SIGQUIT"); i > 0 {
		b = b[i:]
	}
	if len(b) > 8000 {
		b = b[:8000]
	}
	return string(b)
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	s = strings.Join(l, "\n")
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

// collectRaces turns the reports of the race detector that involve the code
// under test into violations.
func collectRaces(tmp string, res *result) {
	files, _ := filepath.Glob(filepath.Join(tmp, "races", "race.*"))
	seen := map[string]bool{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		sc := strings.SplitN(strings.TrimPrefix(filepath.Base(f), "race."), ".", 2)[0]
		for _, block := range strings.Split(string(b), "==================") {
			if !strings.Contains(block, "DATA RACE") {
				continue
			}
			if !strings.Contains(block, "/repo/src/") {
				res.broken = append(res.broken, "data race in the harness:\n"+block)
				continue
			}
			var fn []string
			for _, l := range strings.Split(block, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "gotor/") || strings.HasPrefix(l, "main.") {
					fn = append(fn, strings.SplitN(l, "(", 2)[0])
				}
			}
			sort.Strings(fn)
			key := strings.Join(fn, " ")
			if seen[key] {
				continue
			}
			seen[key] = true
			res.viols = append(res.viols, found{sc, -1, violation{"data-race", block}})
		}
	}
}

// readKnown reads the findings of a property: lines
// "finding: property=ID fp=FP what fails".
func readKnown(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+id+" fp=")
		if !ok {
			continue
		}
		fp, what, _ := strings.Cut(rest, " ")
		out[fp] = what
	}
	return out
}

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func writeReplay(c Check, v found, seed uint64, tier string) string {
	dir := filepath.Join(root(), "replay")
	os.MkdirAll(dir, 0777)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", c.ID, v.Scenario, v.Index))
	b, _ := json.MarshalIndent(map[string]any{
		"property": c.ID, "seed": seed, "tier": tier, "scenario": v.Scenario, "index": v.Index,
		"fp": v.Fp, "detail": v.Detail,
		"how": "VMON_REPLAY=" + path + " bash /verif/run.sh " + c.ID,
	}, "", " ")
	os.WriteFile(path, b, 0666)
	return path
}

func writeEvidence(c Check, res *result, seed uint64, tier string, nviol int, wall time.Duration) error {
	samples := []any{}
	for _, sc := range c.Scenarios {
		for _, s := range res.samples[sc.Name] {
			samples = append(samples, sc.Name+": "+s)
		}
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         res.evals,
			"distinct_nontrivial": len(res.keys),
			"rule":                c.Rule,
			"samples":             samples,
			"observed_events":     res.events,
			"cases_per_scenario":  res.scenario,
			"race_detector":       raceEnabled,
		},
		"assumptions": c.Assumptions,
		"wall_s":      wall.Seconds(),
		"violations":  nviol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(root(), "evidence")
	os.MkdirAll(dir, 0777)
	return os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0666)
}
