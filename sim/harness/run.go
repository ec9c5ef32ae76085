package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime/debug"
	"strings"
	"syscall"

	"verifrt"
	"verifrt/simos"
	"verifrt/simrand"
	"verifrt/simsync"
)

// runner is an env of one of the type combinations.
type runner interface {
	runB01()
	runB02()
	runB03()
	runB04()
	runS01()
	runS02()
	runS03()
	runP01()
	runP02()
	runP03()
	runHistory()
	runA01()
	runD01()
	runQ01()
	runI01()
	runP05()
	runX01()
	runT01()
}

type property struct {
	gen func(*rt.Prng, *Spec)
	run func(runner)
	// Real: what runs besides the library code the property is about, for the evidence
	rule string
	race bool
}

var props map[string]property

func init() {
	props = map[string]property{
		"B01": {gen: genB01, run: runner.runB01, rule: "random items, tree and worker counts, allocators; a concurrent Build under a random schedule, the saved file is parsed independently"},
		"B02": {gen: genB02, run: runner.runB02, rule: "as B01; the forest is compared with the one of a sequential schedule with memory that never moves"},
		"B03": {gen: genB03, run: runner.runB03, rule: "as B01 including no items, one item, equal items, automatic tree count, any number of workers; bounded number of steps"},
		"B04": {gen: genB04, run: runner.runB04, rule: "concurrent builds, searches and independent indexes under random schedules with the Go race detector observing the library's accesses", race: true},
		"S01": {gen: genS01, run: runner.runS01, rule: "several clients search one index concurrently; answers are compared with those of the same queries executed alone"},
		"S02": {gen: genS02, run: runner.runS02, rule: "a concurrently built index is searched by concurrent clients with unlimited budget; answers are compared with brute force"},
		"S03": {gen: genS03, run: runner.runS03, rule: "a concurrently built index is searched by concurrent clients with all kinds of budgets; answers are compared with the forest in the saved file"},
		"P01": {gen: genP01, run: runner.runP01, rule: "concurrently built indexes are saved, loaded by other objects with each allocator, saved again; answers are compared with those before"},
		"P02": {gen: genP02, run: runner.runP02, rule: "crash of the process or power loss at any I/O operation of Save, or concurrent readers while the file is replaced"},
		"P03": {gen: genP03, run: runner.runP03, rule: "I/O errors, short writes and reads, early end of file at any operation of Save and Load; unusable files"},
		"P04": {gen: genP04, run: runner.runHistory, rule: "histories of operations on several indexes and files with injected I/O errors; open files, mappings and files are audited after each operation"},
		"L01": {gen: genL01, run: runner.runHistory, rule: "histories of legal and illegal operations on several indexes, compared with a model after each operation"},
		"I01": {gen: genI01, run: runner.runI01, rule: "two or three indexes that were made by one builder or have components in common are filled, built, saved, loaded, searched and closed concurrently; each is compared with its model and with the forest it gives alone"},
		"P05": {gen: genP05, run: runner.runP05, rule: "histories of several clients that open, get, close, replace and remove files with one file allocator, with injected I/O errors, and histories of reallocations; all memory is compared after each operation"},
		"Q01": {gen: genQ01, run: runner.runQ01, rule: "a concurrently built index is searched by concurrent clients with the default budget; the answers are compared with the true nearest neighbours"},
		"D01": {gen: genD01, run: runner.runD01, rule: "as S02 and S03 with indexes that rank by dot product"},
		"X01": {gen: genX01, run: runner.runX01, rule: "as B01, B02, S01, S02, S03 and P01 with distances, policies, generators, sorters and allocators that are not those of the library and check how they are used"},
		"T01": {gen: genT01, run: runner.runT01, rule: "the precision tool with random flags, files that exist already, workers under a random schedule, and I/O errors at any operation; its report is recomputed from the index it keeps"},
		"A01": {gen: genA01, run: runner.runA01, rule: "items are added while memory is moved by a hostile allocator or is larger than 4 GiB; all items are read back after each step"},
	}
}

func newEnv(sp *Spec) runner {
	switch sp.Types {
	case 0:
		return &env[float32, uint32]{sp: sp, l: sp.layout()}
	case 1:
		return &env[float64, uint32]{sp: sp, l: sp.layout()}
	case 2:
		return &env[float32, uint64]{sp: sp, l: sp.layout()}
	}
	return &env[float64, uint64]{sp: sp, l: sp.layout()}
}

// line is what a worker reports.
type line struct {
	T        string         `json:"t"` // s(tart), r(esult), v(iolation), e(nd)
	I        uint64         `json:"i"`
	Class    string         `json:"class,omitempty"`
	Msg      string         `json:"msg,omitempty"`
	Steps    uint64         `json:"steps,omitempty"`
	Switches uint64         `json:"sw,omitempty"`
	Preempts uint64         `json:"pre,omitempty"`
	Stalls   uint64         `json:"stalls,omitempty"`
	Threads  int            `json:"th,omitempty"`
	Clock    uint64         `json:"clock,omitempty"`
	Hash     uint64         `json:"hash,omitempty"`
	Faults   map[string]int `json:"faults,omitempty"`
	IO       map[string]int `json:"io,omitempty"`
	Probes   map[string]int `json:"probes,omitempty"`
	Moves    int            `json:"moves,omitempty"`
	Sites    []int          `json:"sites,omitempty"`
	Recorded []rt.Switch    `json:"rec,omitempty"`
	Trunc    bool           `json:"trunc,omitempty"`
}

var (
	out     *os.File // reports of the worker
	current uint64
	probes  map[string]int
	want    bool // recorded switches are wanted
)

func report(l *line) {
	b, err := json.Marshal(l)
	if err != nil {
		panic(err)
	}
	out.Write(append(b, '\n'))
}

func (l *line) fill() {
	st := rt.GetStats()
	l.I = current
	l.Steps, l.Switches, l.Preempts, l.Stalls, l.Threads, l.Clock, l.Hash = st.Steps, st.Switches, st.Preempts, st.Stalls, st.Threads, st.Clock, st.Hash
	l.Faults, l.IO = simos.Disk.Fired, simos.Disk.Ops
	l.Probes = probes
	l.Moves = hostileMoves
	if want {
		l.Recorded, l.Trunc = st.Recorded, st.Truncated
	}
}

// violate reports that the property does not hold; it does not return.
func violate(class, format string, args ...any) {
	if class == "harness" {
		fmt.Fprintf(os.Stderr, "harness: "+format+"\n", args...)
		os.Exit(3)
	}
	l := &line{T: "v", Class: class, Msg: fmt.Sprintf(format, args...)}
	l.fill()
	report(l)
	os.Exit(10)
}

// probe counts that something interesting happened.
func probe(name string, n int) {
	if !rt.RaceBuild {
		probes[name] += n
	}
}

func execute(sp *Spec) {
	simos.Reset()
	simos.Disk.Fired, simos.Disk.Ops = map[string]int{}, map[string]int{}
	simsync.ResetChans(sp.Seed)
	simrand.Reset(int64(sp.Seed >> 1))
	tainted = map[string]bool{}
	probes = map[string]int{}
	hostileMoves = 0
	c := sp.Sched
	if c.MaxSteps == 0 {
		c.MaxSteps = sp.maxSteps()
	}
	p, ok := props[sp.Prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "harness: unknown property", sp.Prop)
		os.Exit(3)
	}
	rt.Begin(c)
	if !c.Explicit {
		rt.SetSched(0, 0, 0) // until the scenario says noisy()
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(simos.Crash); ok {
					fmt.Fprintln(os.Stderr, "harness: crash outside of the scenario")
					os.Exit(3)
				}
				st := string(debug.Stack())
				if inLibrary(st) {
					violate("panic", "panic: %s", panicText(r))
				}
				fmt.Fprintf(os.Stderr, "harness: panic: %v\n%s", r, st)
				os.Exit(3)
			}
		}()
		p.run(newEnv(sp))
		rt.End()
	}()
}

// inLibrary tells whether a panic was raised by code of the library.
func inLibrary(stack string) bool {
	if i := strings.Index(stack, "\npanic("); i >= 0 {
		stack = stack[i+1:]
	}
	for _, l := range strings.Split(stack, "\n")[1:] {
		if l == "" || l[0] == '\t' || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "panic(") {
			continue
		}
		return strings.HasPrefix(l, "github.com/mariotoffia/goannoy")
	}
	return false
}

func prepare() {
	fd, err := syscall.Dup(1)
	if err != nil {
		panic(err)
	}
	out = os.NewFile(uintptr(fd), "report")
	devnull, err = os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = devnull
	log.SetOutput(io.Discard)
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	rt.OnFail(func(f rt.Failure) { violate(f.Class, "%s", scrub(f.Msg)) })
}

// scrub removes what differs from process to process.
func scrub(s string) string {
	if i := strings.Index(s, "\ngoroutine "); i >= 0 {
		var l []string
		for _, x := range strings.Split(s[i+1:], "\n") {
			x = strings.TrimSpace(x)
			if k := strings.Index(x, "/lib/"); k >= 0 && strings.Contains(x, ".go:") {
				if e := strings.Index(x, " +0x"); e >= 0 {
					x = x[:e]
				}
				l = append(l, x[k+5:])
			}
		}
		s = s[:i] + " at " + strings.Join(l, " < ")
	}
	for {
		i := strings.Index(s, "0x")
		if i < 0 {
			break
		}
		e := i + 2
		for e < len(s) && strings.IndexByte("0123456789abcdef", s[e]) >= 0 {
			e++
		}
		s = s[:i] + "?" + s[e:]
	}
	return s
}

// worker runs the specs from..from+count of a property.
func worker(prop string, base, from, count uint64, deadline func() bool) {
	prepare()
	for i := from; i < from+count && !deadline(); i++ {
		current = i
		report(&line{T: "s", I: i})
		sp := genSpec(prop, base, i)
		execute(sp)
		l := &line{T: "r"}
		l.fill()
		report(l)
	}
	_, hits := rt.SiteHits()
	report(&line{T: "e", Sites: hits})
}

// specs runs given specs.
func runSpecs(l []*Spec) {
	prepare()
	want = true
	for i, sp := range l {
		current = uint64(i)
		report(&line{T: "s", I: current})
		execute(sp)
		r := &line{T: "r"}
		r.fill()
		r.Recorded = nil
		report(r)
	}
	_, hits := rt.SiteHits()
	report(&line{T: "e", Sites: hits})
}
