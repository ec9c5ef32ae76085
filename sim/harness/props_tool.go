package main

import (
	"bufio"
	"bytes"
	"flag"
	"fmt"
	"math"
	"os"
	"strings"

	"verifrt"
	"verifrt/simos"
)

// T01: the command line tool that measures the precision

// precisionTool is the function main of cmd/precision (not part of all harnesses).
var precisionTool func()

const (
	toolFile = 1 << iota
	toolKeep
	toolVerbose
	toolMem
	toolOldIndex   // test.ann exists
	toolOldResults // results.txt exists
	toolOther      // another file exists
	toolRefused    // flags that exclude each other
)

const (
	annFile = "test.ann"
	resFile = "results.txt"
	another = "another.ann"
)

func genT01(r *rt.Prng, sp *Spec) {
	sp.Types, sp.Dot, sp.Kiss, sp.Sorter, sp.Alloc = 0, false, false, 0, "gc"
	sp.F = 2 + r.Intn(5)
	sp.N = 1 + r.Intn(60)
	if r.Chance(0.2) {
		sp.N = 95 + r.Intn(40)
	}
	sp.Queries = 1 + r.Intn(4)
	if sp.Sched.MeanPreempt > 0 && sp.Sched.MeanPreempt < 250 {
		sp.Sched.MeanPreempt = 250
	}
	sp.X = r.Intn(toolRefused)
	if r.Chance(0.75) {
		sp.X &^= toolVerbose
	}
	if r.Chance(0.02) {
		sp.X |= toolRefused
	}
	if r.Chance(0.6) {
		sp.Faults = genFaults(r, "error", "error", "short", "eof")
	}
}

// ended tells how the tool ended: "" (normally), or by which panic or exit code.
func (s *Spec) startTool() (ended string) {
	if precisionTool == nil {
		violate("harness", "built without programs")
	}
	simos.StartProgram()
	args := []string{"precision", "-items", fmt.Sprint(s.N), "-length", fmt.Sprint(s.F), "-prec", fmt.Sprint(s.Queries)}
	for _, o := range []struct {
		bit  int
		flag []string
	}{
		{toolFile, []string{"-file"}}, {toolKeep, []string{"-keep"}}, {toolVerbose, []string{"-verbose"}},
		{toolMem, []string{"-use-memory-index-allocator"}}, {toolRefused, []string{"-cpu-profile", "-mem-profile"}},
	} {
		if s.X&o.bit != 0 {
			args = append(args, o.flag...)
		}
	}
	old, oldArgs := flag.CommandLine, os.Args
	defer func() { flag.CommandLine, os.Args = old, oldArgs }()
	os.Args = args
	flag.CommandLine = flag.NewFlagSet("precision", flag.PanicOnError)
	flag.CommandLine.SetOutput(devnull)
	// Flags that are package level variables
	old.VisitAll(func(f *flag.Flag) {
		if initial[f.Name] == nil {
			return
		}
		f.Value.Set(f.DefValue)
		flag.CommandLine.Var(f.Value, f.Name, f.Usage)
	})
	var p any
	func() {
		defer func() { p = recover() }()
		precisionTool()
	}()
	switch {
	case simos.Exited == 0:
		return ""
	case simos.Exited > 0:
		return fmt.Sprintf("exit code %d", simos.Exited)
	case p != nil:
		return "panic: " + panicText(p)
	}
	return ""
}

// initial are the flags of the tool that are defined before it is started.
var initial = map[string]*flag.Flag{}

func init() {
	own := map[string]bool{}
	for _, n := range []string{"prop", "base", "from", "count", "until", "secs", "shrink", "runs", "tier", "verif", "sites", "strict", "jobs", "dump"} {
		own[n] = true
	}
	flag.CommandLine.VisitAll(func(f *flag.Flag) {
		if !own[f.Name] {
			initial[f.Name] = f
		}
	})
}

func (e *env[TV, TIX]) runT01() {
	sp := e.sp
	junk := bytes.Repeat([]byte("previous content "), 300)
	prepare := func() {
		simos.Disk.Restart(false, nil)
		for _, f := range simos.Disk.Files() {
			simos.Disk.Drop(f)
		}
		for _, f := range []struct {
			bit  int
			name string
		}{{toolOldIndex, annFile}, {toolOldResults, resFile}, {toolOther, another}} {
			if sp.X&f.bit != 0 {
				simos.Disk.Put(f.name, junk)
			}
		}
	}
	same := func(name string) bool {
		b, ok := simos.Disk.Content(name)
		return ok && bytes.Equal(b, junk)
	}
	present := func(name string) bool {
		_, ok := simos.Disk.Content(name)
		return ok
	}
	ops := 0
	// run starts the tool and checks what it leaves
	run := func(faulty bool) {
		before := firedNow()
		start := rt.Clock()
		e.noisy()
		ended := sp.startTool()
		e.quiet()
		elapsed := rt.Clock() - start
		ops = simos.Disk.Count()
		simos.Disk.Disarm()
		any, hit := fired(before)
		what := "the tool"
		if any {
			what = fmt.Sprintf("the tool with faults %s", fs(before))
		}
		if sp.X&toolRefused != 0 {
			if ended == "" {
				violate("tool", "%s accepts flags that exclude each other", what)
			}
			simos.Disk.Restart(false, nil)
			return
		}
		if ended != "" && !any {
			violate("tool", "%s: %s", what, ended)
		}
		if sp.X&toolOther != 0 && !same(another) {
			violate("tool", "%s changed a file it has nothing to do with", what)
		}
		if t := temporaries(annFile, resFile, another); t != "" && hit["remove"] == 0 {
			violate("temporary", "%s left behind: %s", what, t)
		}
		switch ann := present(annFile); {
		case hit["remove"] > 0: // it cannot do better
		case ann && sp.X&toolKeep == 0:
			violate("temporary", "%s left %s behind that nobody asked to keep (%s)", what, annFile, ended)
		case !ann && sp.X&toolKeep != 0 && ended == "":
			violate("tool", "%s did not keep %s", what, annFile)
		}
		output := simos.Output()
		if sp.X&toolFile != 0 {
			res, ok := simos.Disk.Content(resFile)
			if ended == "" && !ok {
				violate("tool", "%s wrote no %s and did not report that", what, resFile)
			}
			if ended == "" && bytes.Contains(res, junk[:17]) {
				violate("report", "%s left parts of the previous content in %s", what, resFile)
			}
			output = res
		} else if sp.X&toolOldResults != 0 && !same(resFile) || sp.X&toolOldResults == 0 && present(resFile) {
			violate("tool", "%s wrote %s without having been asked to", what, resFile)
		}
		if ended == "" {
			e.report(what, output, elapsed)
			probe("reports", 1)
		} else {
			probe("ended", 1)
		}
		if hit["munmap"] == 0 && hit["close"] == 0 && ended == "" {
			e.released("after " + what)
		}
	}
	prepare()
	simos.Disk.Arm(nil)
	run(false)
	if len(sp.Faults) > 0 {
		prepare()
		e.arm(sp.Faults, ops)
		run(true)
	}
	simos.Disk.Restart(false, nil)
}

// report checks what the tool printed.
func (e *env[TV, TIX]) report(what string, text []byte, elapsed uint64) {
	sp := e.sp
	var queries []TIX
	type result struct {
		limit      int
		prec, time float64
		unit       string
		recall     int
	}
	var results []result
	sc := bufio.NewScanner(bytes.NewReader(text))
	for sc.Scan() {
		l := sc.Text()
		switch {
		case strings.HasPrefix(l, "finding nbs for "):
			var j uint64
			if _, err := fmt.Sscanf(l, "finding nbs for %d", &j); err != nil || j >= uint64(sp.N) {
				violate("report", "%s: %q", what, l)
			}
			queries = append(queries, TIX(j))
		case strings.HasPrefix(l, "limit = "):
			var x result
			if _, err := fmt.Sscanf(l, "limit = %d, precision = %f, time = %f %s recall = %d times/s", &x.limit, &x.prec, &x.time, &x.unit, &x.recall); err != nil {
				violate("report", "%s: %q", what, l)
			}
			results = append(results, x)
		}
	}
	if len(queries) != sp.Queries {
		violate("report", "%s: reports %d of %d searches", what, len(queries), sp.Queries)
	}
	var limits []int
	for i := 1; i <= sp.N; i *= 10 {
		limits = append(limits, i)
		if i == 100 {
			limits = append(limits, 500)
		}
	}
	var got []int
	sum := 0.0
	for _, x := range results {
		got = append(got, x.limit)
		// 10 items are sought
		if !(x.prec >= 0) || x.prec > math.Min(1, math.Min(float64(x.limit), float64(sp.N))/10)+1e-5 {
			violate("report", "%s: precision %f of searches for %d items", what, x.prec, x.limit)
		}
		t := x.time // us
		switch x.unit {
		case "ms,":
			t *= 1000
		case "us,":
		default:
			violate("report", "%s: time in %q", what, x.unit)
		}
		if !(t >= 0) || t > 0 && math.Abs(float64(x.recall)-1e6/t) > 2+1e-3*1e6/t {
			violate("report", "%s: %f us per search, %d searches per second", what, t, x.recall)
		}
		sum += t * float64(sp.Queries)
	}
	if fmt.Sprint(got) != fmt.Sprint(limits) {
		violate("report", "%s: reports searches for %v items instead of %v", what, got, limits)
	}
	if sum > float64(elapsed)+1 {
		violate("report", "%s: all searches took %f us, the tool only %d us", what, sum, elapsed)
	}
	if sp.X&toolKeep == 0 {
		return
	}
	// The index tells the numbers
	data, _ := simos.Disk.Content(annFile)
	m := newModel(sp.F)
	if f := (&forest{layout: e.l, data: data}); len(data) >= sp.N*e.l.size {
		for i := 0; i < sp.N; i++ {
			m.add(uint64(i), f.vec(uint64(i)))
		}
	}
	if _, _, err := parseForest(data, e.l, m, 2*sp.F); err != nil {
		violate("tool", "%s: %s: %v", what, annFile, err)
	}
	idx := e.open(opts{mem: "gc", alloc: "gc"})
	e.load(idx, annFile)
	ctx := idx.CreateContext()
	for i, x := range results {
		sum, took := 0.0, uint64(0)
		for _, j := range queries {
			all, _ := idx.GetNnsByItem(j, 10, sp.N, ctx)
			near := map[TIX]bool{}
			for _, a := range all {
				near[a] = true
			}
			start := rt.Clock()
			some, _ := idx.GetNnsByItem(j, x.limit, -1, ctx)
			took += rt.Clock() - start
			for _, a := range some {
				if near[a] {
					sum += 0.1
				}
			}
		}
		if want := sum / float64(len(queries)); math.Abs(want-x.prec) > 1e-5 {
			violate("report", "%s: precision %f of searches for %d items, it is %f", what, x.prec, limits[i], want)
		}
		t := x.time
		if x.unit == "ms," {
			t *= 1000
		}
		if want := float64(took) / float64(len(queries)); t < want/2-5 || t > 2*want+50 {
			violate("report", "%s: %f us per search for %d items, it takes %f us", what, t, limits[i], want)
		}
	}
	must("Close", func() { idx.Close() })
	probe("recomputed", 1)
}
