// The harness runs the instrumented library under the simulator and checks
// one property per invocation.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifrt"
	"verifrt/simos"
)

var (
	fProp     = flag.String("prop", "", "property")
	fBase     = flag.Uint64("base", 1, "seed")
	fFrom     = flag.Uint64("from", 0, "first run")
	fCount    = flag.Uint64("count", 1, "number of runs")
	fUntil    = flag.Int64("until", 0, "deadline (ms since the epoch)")
	fSecs     = flag.Float64("secs", 40, "time to search")
	fShrink   = flag.Float64("shrink", 45, "time to minimise")
	fRuns     = flag.Uint64("runs", 1<<40, "maximal number of runs")
	fTier     = flag.String("tier", "quick", "tier")
	fVerif    = flag.String("verif", "", "directory of the machinery")
	fSites    = flag.String("sites", "", "file of sites")
	fStrict   = flag.Bool("strict", false, "fail if a run is not deterministic")
	fJobs     = flag.Int("jobs", 8, "worker processes")
	fDumpSpec = flag.Bool("dump", false, "print the spec")
)

const (
	batchSize = 100
	runLimit  = 150 * time.Second // wall clock limit of a single run
	memLimit  = 2600              // MiB of a worker
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness worker|specs|check|replay|gen ...")
		os.Exit(3)
	}
	mode := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	switch mode {
	case "worker":
		until := time.UnixMilli(*fUntil)
		worker(*fProp, *fBase, *fFrom, *fCount, func() bool { return *fUntil > 0 && time.Now().After(until) })
	case "specs":
		var l []*Spec
		if err := json.NewDecoder(os.Stdin).Decode(&l); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(3)
		}
		runSpecs(l)
	case "gen":
		b, _ := json.Marshal(genSpec(*fProp, *fBase, *fFrom))
		fmt.Println(string(b))
	case "check":
		os.Exit(check())
	case "replay":
		os.Exit(replayFile(flag.Arg(0)))
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(3)
	}
}

// proc is the outcome of a worker process.
type proc struct {
	started   int // runs that were started
	last      uint64
	results   []*line
	sites     []int
	violation *line
	ended     bool   // reported its end
	died      string // why it ended otherwise
	trouble   string // not the library's fault
	stderr    string
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append(t.b[:1<<13:1<<13], t.b[len(t.b)-1<<14:]...)
	}
	return len(p), nil
}

// spawn runs a worker process.
func spawn(args []string, stdin []byte, each func(*line)) *proc {
	p := &proc{}
	cmd := exec.Command("/proc/self/exe", args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=5", "GOTRACEBACK=single", "GOMAXPROCS=4")
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	var errs tail
	cmd.Stderr = &errs
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	so, err := cmd.StdoutPipe()
	if err != nil {
		p.trouble = err.Error()
		return p
	}
	if err := cmd.Start(); err != nil {
		p.trouble = err.Error()
		return p
	}
	var progress atomic.Int64
	progress.Store(time.Now().UnixNano())
	var killed atomic.Value
	done := make(chan struct{})
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(100 * time.Millisecond):
			}
			if time.Since(time.Unix(0, progress.Load())) > runLimit {
				killed.Store("watchdog: a run took too long")
				cmd.Process.Kill()
				return
			}
			if rss(cmd.Process.Pid) > memLimit {
				killed.Store("memory")
				cmd.Process.Kill()
				return
			}
		}
	}()
	sc := bufio.NewScanner(so)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		progress.Store(time.Now().UnixNano())
		l := &line{}
		if err := json.Unmarshal(sc.Bytes(), l); err != nil {
			continue
		}
		switch l.T {
		case "s":
			p.started++
			p.last = l.I
		case "r":
			if each != nil {
				each(l)
			} else {
				p.results = append(p.results, l)
			}
		case "v":
			p.violation = l
		case "e":
			p.ended = true
			p.sites = l.Sites
		}
	}
	err = cmd.Wait()
	close(done)
	p.stderr = string(errs.b)
	if p.violation != nil || p.ended && err == nil {
		return p
	}
	if k, ok := killed.Load().(string); ok {
		if k == "memory" {
			p.died = "memory"
			p.violation = &line{I: p.last, Class: "memory", Msg: fmt.Sprintf("the run uses more than %d MiB of memory", memLimit)}
		} else {
			p.trouble = k
		}
		return p
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() == 3 {
			p.trouble = "harness: " + lastLines(p.stderr, 30)
			return p
		}
		if p.started == 0 {
			p.trouble = fmt.Sprintf("worker did not start: %v\n%s", err, lastLines(p.stderr, 30))
			return p
		}
		first := p.stderr
		for _, l := range strings.Split(p.stderr, "\n") {
			if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "unexpected fault") {
				first = l
				break
			}
		}
		if i := strings.IndexByte(first, '\n'); i >= 0 {
			first = first[:i]
		}
		p.died = fmt.Sprint(err)
		p.violation = &line{I: p.last, Class: "process-died", Msg: fmt.Sprintf("the process died: %v: %s", err, scrub(first))}
		return p
	}
	p.trouble = fmt.Sprintf("worker: %v\n%s", err, lastLines(p.stderr, 30))
	return p
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}

func rss(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * 4096 >> 20
}

func runList(l []*Spec) *proc {
	b, _ := json.Marshal(l)
	return spawn([]string{"specs"}, b, nil)
}

// finding is a known finding.
type finding struct {
	class string
	match *regexp.Regexp
	text  string
}

func knownFindings(prop string) (l []finding) {
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, s := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(s, "finding:") {
			continue
		}
		m := regexp.MustCompile(`^finding: property=(\S+) class=(\S+) match=/(.*)/ (.*)$`).FindStringSubmatch(s)
		if m == nil {
			fmt.Fprintln(os.Stderr, "known_findings.txt:", s)
			os.Exit(3)
		}
		if m[1] == prop {
			l = append(l, finding{m[2], regexp.MustCompile(m[3]), m[4]})
		}
	}
	return
}

func (f finding) is(l *line) bool { return f.class == l.Class && f.match.MatchString(l.Msg) }

// totals of a check
type totals struct {
	mu       sync.Mutex
	runs     int
	nontriv  int
	hashes   map[uint64]bool
	byIndex  map[uint64]uint64 // hash per run
	steps    uint64
	switches uint64
	preempts uint64
	stalls   uint64
	threads  int
	longest  uint64
	clock    uint64
	faults   map[string]int
	io       map[string]int
	probes   map[string]int
	moves    int
	sites    map[int]bool
	faulty   int
	samples  []string
}

func (t *totals) add(l *line, sp func() *Spec) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs++
	t.steps += l.Steps
	if l.Steps > t.longest {
		t.longest = l.Steps
	}
	t.switches += l.Switches
	t.preempts += l.Preempts
	t.stalls += l.Stalls
	t.clock += l.Clock
	if l.Threads > t.threads {
		t.threads = l.Threads
	}
	f := 0
	for k, v := range l.Faults {
		t.faults[k] += v
		f += v
	}
	if f > 0 {
		t.faulty++
	}
	for k, v := range l.IO {
		t.io[k] += v
	}
	for k, v := range l.Probes {
		if strings.HasSuffix(k, "-x100") {
			if v > t.probes["max "+k] {
				t.probes["max "+k] = v
			}
		} else {
			t.probes[k] += v
		}
	}
	t.moves += l.Moves
	if l.Switches > 0 || f > 0 || l.Moves > 0 || len(l.IO) > 0 {
		if !t.hashes[l.Hash] {
			t.nontriv++
		}
	}
	t.hashes[l.Hash] = true
	t.byIndex[l.I] = l.Hash
	if len(t.samples) < 3 && (l.Switches > 2 || f > 0) && l.I%7 == 3 {
		s := sp()
		b, _ := json.Marshal(s)
		t.samples = append(t.samples, fmt.Sprintf("run %d: %s -> %d steps, %d switches (%d preemptions), %d faults, hash %016x, held", l.I, b, l.Steps, l.Switches, l.Preempts, f, l.Hash))
	}
}

// Replay is the content of a replay file.
type Replay struct {
	Property  string  `json:"property"`
	Class     string  `json:"class"`
	Message   string  `json:"message"`
	Seed      uint64  `json:"seed"`
	Run       uint64  `json:"run"`
	Prefix    []*Spec `json:"prefix,omitempty"` // runs before in the same process
	Spec      *Spec   `json:"spec"`
	Original  *Spec   `json:"original,omitempty"`
	Confirmed string  `json:"confirmed"`
	Trace     any     `json:"trace,omitempty"`
}

func check() int {
	start := time.Now()
	prop := *fProp
	pr, ok := props[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 3
	}
	if pr.race != rt.RaceBuild {
		fmt.Fprintln(os.Stderr, "harness: race detector needed:", pr.race, "present:", rt.RaceBuild)
		return 3
	}
	known := knownFindings(prop)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
	}
	t := &totals{hashes: map[uint64]bool{}, byIndex: map[uint64]uint64{}, faults: map[string]int{}, io: map[string]int{}, probes: map[string]int{}, sites: map[int]bool{}}
	deadline := start.Add(time.Duration(*fSecs * float64(time.Second)))
	var next atomic.Uint64
	var mu sync.Mutex
	type hit struct {
		i, from uint64
		l       *line
	}
	var hits []hit
	var trouble []string
	suppressed := 0
	stop := func() bool {
		mu.Lock()
		defer mu.Unlock()
		return len(hits) > 0 || len(trouble) > 0 || time.Now().After(deadline)
	}
	var wg sync.WaitGroup
	for w := 0; w < *fJobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop() {
				n := uint64(batchSize)
				if next.Load() < uint64(*fJobs)*20 {
					n = 20 // quick start
				}
				from := next.Add(n) - n
				if from >= *fRuns {
					return
				}
				end := from + n
				for from < end && !stop() {
					p := spawn([]string{"worker", "-prop", prop, "-base", fmt.Sprint(*fBase), "-from", fmt.Sprint(from),
						"-count", fmt.Sprint(end - from), "-until", fmt.Sprint(deadline.UnixMilli())}, nil,
						func(l *line) { t.add(l, func() *Spec { return genSpec(prop, *fBase, l.I) }) })
					mu.Lock()
					for _, s := range p.sites {
						t.sites[s] = true
					}
					if p.trouble != "" {
						trouble = append(trouble, fmt.Sprintf("run %d: %s", p.last, p.trouble))
						mu.Unlock()
						return
					}
					if p.violation == nil {
						mu.Unlock()
						break
					}
					sup := false
					for _, k := range known {
						sup = sup || k.is(p.violation)
					}
					if sup {
						suppressed++
						from = p.violation.I + 1
						mu.Unlock()
						continue
					}
					hits = append(hits, hit{p.violation.I, from, p.violation})
					mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
	searchWall := time.Since(start).Seconds()
	if len(hits) == 0 && len(trouble) > 0 {
		fmt.Fprintf(os.Stderr, "%s: trouble: %s\n", prop, strings.Join(trouble, "\n"))
		return 3
	}

	// Determinism: some runs again in other processes and another order
	mism := 0
	checked := 0
	if len(hits) == 0 {
		mism, checked = recheck(prop, t)
	}
	var rep *Replay
	if len(hits) > 0 {
		sort.Slice(hits, func(i, j int) bool { return hits[i].i < hits[j].i })
		var hs []func() *Replay
		for _, h := range hits {
			h := h
			hs = append(hs, func() *Replay { return confirm(prop, h.i, h.from, h.l) })
		}
		for _, f := range hs {
			r := f()
			if rep == nil || rep.Confirmed == "" {
				rep = r
			}
			if rep.Confirmed != "" {
				break
			}
		}
		if rep.Confirmed != "" && len(rep.Prefix) == 0 {
			minimise(rep, time.Now().Add(time.Duration(*fShrink*float64(time.Second))))
		}
	}
	viol := 0
	if rep != nil {
		viol = 1
	}
	evidence(prop, t, pr, start, searchWall, viol, mism, checked, suppressed, rep)
	if rep != nil {
		dir := filepath.Join(*fVerif, "replays")
		os.MkdirAll(dir, 0777)
		file := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", prop, *fBase, rep.Run))
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(file, b, 0666)
		fmt.Printf("%s: %s: %s\n", prop, rep.Class, rep.Message)
		fmt.Printf("seed %d run %d; %s\n", *fBase, rep.Run, rep.Confirmed)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		return 1
	}
	fmt.Printf("%s: held on %d runs (%d distinct), %d switches, %d runs with faults, %.1f s\n", prop, t.runs, t.nontriv, t.switches, t.faulty, time.Since(start).Seconds())
	if mism > 0 {
		fmt.Printf("%s: WARNING: %d of %d repeated runs differed\n", prop, mism, checked)
		if *fStrict {
			return 3
		}
	}
	if t.runs < 20 {
		fmt.Fprintf(os.Stderr, "%s: only %d runs\n", prop, t.runs)
		return 3
	}
	return 0
}

// recheck repeats runs in fresh processes and compares the histories.
func recheck(prop string, t *totals) (mism, n int) {
	var idx []uint64
	for i := range t.byIndex {
		idx = append(idx, i)
	}
	sort.Slice(idx, func(i, j int) bool { return idx[i] > idx[j] })
	per := 5
	if *fTier == "thorough" {
		per = 60
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < *fJobs; w++ {
		var mine []uint64
		for k := w; k < len(idx) && len(mine) < per; k += 1 + len(idx)/(per**fJobs+1) {
			mine = append(mine, idx[k])
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			var l []*Spec
			for _, i := range mine {
				l = append(l, genSpec(prop, *fBase, i))
			}
			p := runList(l)
			mu.Lock()
			defer mu.Unlock()
			for _, r := range p.results {
				n++
				if r.Hash != t.byIndex[mine[r.I]] {
					mism++
				}
			}
			if p.violation != nil {
				mism++
				n++
			}
		}()
	}
	wg.Wait()
	return
}

func confirm(prop string, i, from uint64, l *line) *Replay {
	sp := genSpec(prop, *fBase, i)
	rep := &Replay{Property: prop, Class: l.Class, Message: l.Msg, Seed: *fBase, Run: i, Spec: sp}
	for k := 1; k <= 4; k++ {
		p := runList([]*Spec{sp})
		if p.violation != nil {
			rep.Class, rep.Message = p.violation.Class, p.violation.Msg
			rep.Confirmed = fmt.Sprintf("reproduced in a fresh process (attempt %d)", k)
			return rep
		}
	}
	// It needs the runs before
	for n := uint64(1); ; n *= 2 {
		var prefix []*Spec
		first := uint64(0)
		if i > n {
			first = i - n
		}
		if first < from {
			first = from
		}
		for j := first; j < i; j++ {
			prefix = append(prefix, genSpec(prop, *fBase, j))
		}
		if p := runList(append(prefix[:len(prefix):len(prefix)], sp)); p.violation != nil && p.violation.I == uint64(len(prefix)) {
			rep.Prefix = prefix
			rep.Class, rep.Message = p.violation.Class, p.violation.Msg
			rep.Confirmed = fmt.Sprintf("reproduced in a fresh process after %d other runs", len(prefix))
			return rep
		}
		if first == from {
			break
		}
	}
	return rep
}

// evaluate runs several candidates (each in several variants) in parallel and
// returns the first one that fails like rep does.
func evaluate(cands [][]*Spec, class string, deadline time.Time) (best *Spec, l *line) {
	type res struct {
		sp *Spec
		l  *line
	}
	results := make([]res, len(cands))
	var first atomic.Int64
	first.Store(int64(len(cands)))
	sem := make(chan struct{}, *fJobs)
	var wg sync.WaitGroup
	for i := range cands {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if int64(i) > first.Load() || time.Now().After(deadline) {
				return
			}
			p := runList(cands[i])
			if v := p.violation; v != nil && v.Class == class && int(v.I) < len(cands[i]) {
				results[i] = res{cands[i][v.I], v}
				for {
					f := first.Load()
					if int64(i) >= f || first.CompareAndSwap(f, int64(i)) {
						break
					}
				}
			}
		}(i)
	}
	wg.Wait()
	for _, r := range results {
		if r.sp != nil {
			return r.sp, r.l
		}
	}
	return nil, nil
}

func clone(s *Spec) *Spec {
	c := *s
	c.Ops = append([]Op(nil), s.Ops...)
	c.Faults = append([]FSpec(nil), s.Faults...)
	c.Sched.Switches = append([]rt.Switch(nil), s.Sched.Switches...)
	return &c
}

func minimise(rep *Replay, deadline time.Time) {
	rep.Original = clone(rep.Spec)
	var last *line
	for {
		var cands [][]*Spec
		add := func(variants int, f func(*Spec)) {
			var l []*Spec
			for v := 0; v < variants; v++ {
				c := clone(rep.Spec)
				f(c)
				if v > 0 {
					c.Sched.Seed += uint64(v)
				}
				l = append(l, c)
			}
			cands = append(cands, l)
		}
		sp := rep.Spec
		num := func(get func(*Spec) *int, min int) {
			v := *get(sp)
			var tried []int
			for _, n := range []int{min, v / 4, v / 2, v * 3 / 4, v - 1} {
				dup := n < min || n >= v
				for _, x := range tried {
					dup = dup || x == n
				}
				if !dup {
					n := n
					tried = append(tried, n)
					add(4, func(c *Spec) { *get(c) = n })
				}
			}
		}
		for n := len(sp.Ops); n > 0; n /= 2 {
			size := (len(sp.Ops) + n - 1) / n
			for a := 0; a < len(sp.Ops); a += size {
				a, b := a, a+size
				if b > len(sp.Ops) {
					b = len(sp.Ops)
				}
				add(1, func(c *Spec) { c.Ops = append(c.Ops[:a:a], c.Ops[b:]...) })
			}
		}
		for i, op := range sp.Ops {
			if len(op.F) > 0 {
				i := i
				add(1, func(c *Spec) { c.Ops[i].F = nil })
			}
		}
		if len(sp.Faults) > 1 {
			for i := range sp.Faults {
				i := i
				add(1, func(c *Spec) { c.Faults = append(c.Faults[:i:i], c.Faults[i+1:]...) })
			}
		}
		num(func(s *Spec) *int { return &s.N }, 1)
		num(func(s *Spec) *int { return &s.T }, 1)
		num(func(s *Spec) *int { return &s.W }, 1)
		num(func(s *Spec) *int { return &s.F }, 1)
		num(func(s *Spec) *int { return &s.Clients }, 1)
		num(func(s *Spec) *int { return &s.Queries }, 1)
		if sp.Hint > 0 {
			add(2, func(c *Spec) { c.Hint = 0 })
		}
		if sp.Verbose {
			add(2, func(c *Spec) { c.Verbose = false })
		}
		if sp.Share {
			add(2, func(c *Spec) { c.Share = false })
		}
		if sp.Alloc == "hostile" {
			add(3, func(c *Spec) { c.Alloc = "gc" })
		}
		if sp.Types != 0 {
			add(3, func(c *Spec) { c.Types = 0 })
		}
		if sp.Data != "gauss" {
			add(3, func(c *Spec) { c.Data = "gauss" })
		}
		if sp.IDs != "dense" {
			add(3, func(c *Spec) { c.IDs = "dense" })
		}
		if sp.Sched.HotSites > 0 {
			add(4, func(c *Spec) { c.Sched.HotSites = 0 })
		}
		if sp.Sched.Skew {
			add(4, func(c *Spec) { c.Sched.Skew = false })
		}
		if m := sp.Sched.MeanPreempt; m > 0 {
			add(4, func(c *Spec) { c.Sched.MeanPreempt = 0 })
			if m < 100000 {
				add(4, func(c *Spec) { c.Sched.MeanPreempt = m * 4 })
			}
		}
		if sp.Sched.SyncP > 0.05 {
			add(4, func(c *Spec) { c.Sched.SyncP = 0 })
			add(4, func(c *Spec) { c.Sched.SyncP = 0.05 })
		}
		s, l := evaluate(cands, rep.Class, deadline)
		if s == nil {
			break
		}
		rep.Spec, last = s, l
		if time.Now().After(deadline) {
			break
		}
	}
	// The schedule as a list of switches
	if last == nil {
		if p := runList([]*Spec{rep.Spec}); p.violation != nil {
			last = p.violation
		}
	}
	if last != nil && !last.Trunc && last.T == "v" {
		ex := func(sw []rt.Switch) *Spec {
			c := clone(rep.Spec)
			c.Sched = rt.Config{Explicit: true, Switches: sw, Seed: rep.Spec.Sched.Seed, NumCPU: rep.Spec.Sched.NumCPU, MaxSteps: rep.Spec.Sched.MaxSteps}
			return c
		}
		if s, l := evaluate([][]*Spec{{ex(nil)}, {ex(last.Recorded)}}, rep.Class, deadline.Add(20*time.Second)); s != nil {
			rep.Spec, last = s, l
			for n := 2; len(rep.Spec.Sched.Switches) > 0 && time.Now().Before(deadline.Add(10*time.Second)); {
				sw := rep.Spec.Sched.Switches
				if n > len(sw) {
					n = len(sw)
				}
				size := (len(sw) + n - 1) / n
				var cands [][]*Spec
				for a := 0; a < len(sw); a += size {
					b := a + size
					if b > len(sw) {
						b = len(sw)
					}
					cands = append(cands, []*Spec{ex(append(sw[:a:a], sw[b:]...))})
				}
				s, l := evaluate(cands, rep.Class, deadline.Add(10*time.Second))
				if s != nil {
					rep.Spec, last = s, l
					if n > 2 {
						n--
					}
				} else if n >= len(sw) {
					break
				} else {
					n *= 2
				}
			}
		}
	}
	// The minimised one must fail in a fresh process, too
	if p := runList([]*Spec{rep.Spec}); p.violation != nil {
		rep.Class, rep.Message = p.violation.Class, p.violation.Msg
		rep.Confirmed += ", minimised"
		rep.Trace = map[string]any{"steps": p.violation.Steps, "threads": p.violation.Threads, "switches": p.violation.Recorded, "faults": p.violation.Faults, "io": p.violation.IO, "history_hash": fmt.Sprintf("%016x", p.violation.Hash)}
	} else {
		rep.Spec = rep.Original
	}
}

func replayFile(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	rep := &Replay{}
	if err := json.Unmarshal(b, rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	p := runList(append(rep.Prefix, rep.Spec))
	if p.trouble != "" {
		fmt.Fprintln(os.Stderr, p.trouble)
		return 3
	}
	if p.violation == nil {
		fmt.Printf("%s: the replayed run holds\n", rep.Property)
		return 0
	}
	fmt.Printf("%s: %s: %s\n", rep.Property, p.violation.Class, p.violation.Msg)
	if p.violation.Class != rep.Class || p.violation.Msg != rep.Message {
		fmt.Printf("(recorded was: %s: %s)\n", rep.Class, rep.Message)
	}
	if rt.RaceBuild {
		fmt.Println(p.stderr)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, file)
	return 1
}

func evidence(prop string, t *totals, pr property, start time.Time, searchWall float64, viol, mism, checked, suppressed int, rep *Replay) {
	nsites := 0
	if b, err := os.ReadFile(*fSites); err == nil {
		nsites = strings.Count(string(b), "\n")
	}
	hours := searchWall / 3600
	samples := []any{}
	for _, s := range t.samples {
		samples = append(samples, s)
	}
	if rep != nil {
		b, _ := json.Marshal(rep.Spec)
		samples = append(samples, fmt.Sprintf("violated by run %d: %s", rep.Run, b))
	}
	if len(samples) == 0 {
		b, _ := json.Marshal(genSpec(prop, *fBase, 0))
		samples = append(samples, string(b))
	}
	cov := map[string]any{
		"evaluations":                         t.runs,
		"distinct_nontrivial":                 t.nontriv,
		"rule":                                pr.rule + ". One run is one seed. Non-trivial: at least one context switch, injected fault, I/O operation or move of memory; distinct: by the hash over all context switches (step, thread), I/O operations and resulting forests of the run",
		"samples":                             samples,
		"simulated_runs":                      t.runs,
		"runs_per_hour":                       int(float64(t.runs) / (hours + 1e-9)),
		"seeds_per_hour":                      int(float64(t.runs) / (hours + 1e-9)),
		"simulated_time_s":                    float64(t.clock) / 1e6,
		"steps":                               t.steps,
		"context_switches":                    t.switches,
		"preemptions":                         t.preempts,
		"refused_preemptions_of_slow_threads": t.stalls,
		"max_threads":                         t.threads,
		"max_steps_of_a_run":                  t.longest,
		"distinct_histories":                  len(t.hashes),
		"statements_preempted":                len(t.sites),
		"statements_instrumented":             nsites,
		"faults_fired":                        t.faults,
		"runs_with_faults":                    t.faulty,
		"io_operations":                       t.io,
		"memory_moved_by_hostile_allocator":   t.moves,
		"probes":                              t.probes,
		"determinism_rechecked":               checked,
		"determinism_mismatches":              mism,
		"known_findings_suppressed":           suppressed,
		"real_components": "all library code of /repo's working tree (builder, index, memory, policy, distance, random, sort, vector, utils), instrumented at statement level; sorty; the Go runtime and its memory management" +
			map[bool]string{true: "; the Go race detector", false: ""}[pr.race] +
			map[bool]string{true: "; the program cmd/precision, except that package profile is a stub", false: ""}[prop == "T01"],
		"simulated_components": "thread scheduling, sync primitives and channels, time, math/rand globals, NumCPU; files, page cache, durability, mmap (real memory behind a simulated file), I/O errors, crash and power loss",
	}
	ev := map[string]any{
		"property": prop, "tier": *fTier, "seed": *fBase, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"preemption happens between statements (and within compound assignments to shared locations); sequentially consistent memory, except that B04 looks for data races",
			"files behave like those of a journaling POSIX file system: fsync makes data and earlier name space operations durable, rename is atomic, lost power keeps any subset of unsynced 4 KiB blocks and a prefix of unsynced name space operations",
			"vectors are finite and of moderate magnitude; a forest is parsed from the documented layout of the saved file",
			"seeded sampling: a clean batch is evidence, not proof",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": viol,
	}
	dir := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(dir, 0777)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0666); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

var _ = simos.Dir
