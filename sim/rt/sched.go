// Package rt is the deterministic scheduler under which the (instrumented)
// library runs: all goroutines of the library and all client threads of the
// harness are real goroutines of which exactly one, chosen by the scheduler,
// runs at any time. All choices are made with one PRNG (or read from a replay
// file) at the instrumented statements and synchronisation operations.
//
// The scheduler is invisible to the race detector: its hand-over creates no
// happens-before edge, only the simulated synchronisation primitives do.
package rt

import (
	"fmt"
	"os"
	"runtime/debug"
	"unsafe"
)

const (
	maxThreads  = 256
	maxSites    = 1 << 14
	maxSwitches = 1 << 16
	fairness    = 2_000_000
)

const (
	stRunnable = iota
	stBlocked
	stSleeping
	stDone
)

// thread is a simulated thread.
type thread struct {
	wake   chan struct{}
	state  int
	obj    unsafe.Pointer // what a blocked thread waits for
	until  uint64         // when a sleeping thread wakes up
	weight uint64
	what   string
}

// Switch is a scheduling decision: at step Step thread To continues.
type Switch struct {
	Step uint64 `json:"s"`
	To   int32  `json:"t"`
}

// Config tells how to schedule.
type Config struct {
	// Explicit replays the Switches, otherwise they are drawn from Seed.
	Explicit bool     `json:"explicit,omitempty"`
	Switches []Switch `json:"switches,omitempty"`
	Seed     uint64   `json:"seed"`
	// MeanPreempt is the mean number of steps between two preemptions (0: none).
	MeanPreempt uint64 `json:"mean,omitempty"`
	// HotSites is the number of randomly chosen statements which preempt with HotP.
	HotSites int     `json:"hot,omitempty"`
	HotP     float64 `json:"hotp,omitempty"`
	// SyncP is the probability of a preemption at a synchronisation operation.
	SyncP float64 `json:"syncp,omitempty"`
	// Skew gives threads different speeds (stalled threads).
	Skew bool `json:"skew,omitempty"`
	// MaxSteps bounds the run.
	MaxSteps uint64 `json:"max,omitempty"`
	// NumCPU is what the library sees as number of CPUs.
	NumCPU int `json:"ncpu,omitempty"`
}

// Failure is raised (as panic or via Fail) when the simulator itself detects a violation.
type Failure struct {
	Class string
	Msg   string
}

var (
	active   bool
	cur      int32
	nthreads int32
	threads  [maxThreads]*thread
	steps    uint64
	clockX   uint64 // simulated time that is not steps, in us
	next     uint64
	hot      [maxSites]bool
	nsites   int
	cfg      Config
	rng      *Prng
	swPos    int
	recorded [maxSwitches]Switch
	nrec     int
	dropped  bool
	hash     uint64
	nswitch  uint64
	npreempt uint64
	onFail   func(Failure)
	siteHits [maxSites]uint64 // preemptions per site
	stalls   uint64
	nsleep   int
	epoch    uint64 = 1
)

// Epoch changes when a run begins and when the simulated process ends: locks
// that were held before are free.
//
//go:norace
func Epoch() uint64 { return epoch }

// Kill ends all other threads where they are.
//
//go:norace
func Kill() {
	for i := int32(0); i < nthreads; i++ {
		if i != cur {
			threads[i].state = stDone
		}
	}
	nsleep = 0
	epoch++
}

// SetSites is called by the instrumented code with the number of sites.
func SetSites(n int) {
	if n > maxSites {
		panic("too many sites")
	}
	nsites = n
}

// OnFail sets the function that reports a failure detected by the scheduler; it must not return.
func OnFail(f func(Failure)) { onFail = f }

//go:norace
func fail(class, msg string) {
	if onFail != nil {
		onFail(Failure{class, msg})
	}
	fmt.Fprintln(os.Stderr, class, msg)
	os.Exit(4)
}

// Fatal reports what would be a fatal error of the Go runtime.
//
//go:norace
func Fatal(msg string) { fail("fatal", msg) }

// Begin starts a simulated run, the caller becomes thread 0.
//
//go:norace
func Begin(c Config) {
	if active {
		panic("nested Begin")
	}
	cfg = c
	rng = NewPrng(c.Seed, 77)
	for i := int32(0); i < nthreads; i++ {
		threads[i] = nil
	}
	for i := 0; i < nsites; i++ {
		hot[i] = false
	}
	if !c.Explicit && nsites > 0 {
		for i := 0; i < c.HotSites; i++ {
			hot[rng.Intn(nsites)] = true
		}
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 800_000_000
	}
	epoch++
	nthreads = 1
	threads[0] = &thread{wake: make(chan struct{}, 1), weight: 16}
	cur, steps, clockX, swPos, nrec, hash, nswitch, npreempt, stalls = 0, 0, 0, 0, 0, 14695981039346656037, 0, 0, 0
	dropped = false
	nsleep = 0
	draw()
	debug.SetPanicOnFault(true)
	active = true
}

// SetSched replaces the schedule configuration within a run (e.g. for a phase
// without preemption); the thread weights of future threads follow it.
//
//go:norace
func SetSched(mean uint64, syncP float64, hotP float64) {
	cfg.MeanPreempt, cfg.SyncP, cfg.HotP = mean, syncP, hotP
	draw()
}

// Cfg returns the current configuration.
func Cfg() Config { return cfg }

// SetMaxSteps bounds the remaining run to n more steps.
//
//go:norace
func SetMaxSteps(n uint64) {
	cfg.MaxSteps = steps + n
	draw()
}

// End ends the run once all threads are done.
//
//go:norace
func End() {
	Drain()
	active = false
}

// Abandon ends the run without waiting for threads (after a violation).
//
//go:norace
func Abandon() { active = false }

// Drain lets all other threads finish.
//
//go:norace
func Drain() {
	for {
		alive := false
		for i := int32(1); i < nthreads; i++ {
			if threads[i].state != stDone {
				alive = true
			}
		}
		if !alive {
			return
		}
		threads[cur].what = "drain"
		block(unsafe.Pointer(&drainObj))
	}
}

var drainObj int

// Stats of the current run.
type Stats struct {
	Steps, Switches, Preempts, Hash, Stalls uint64
	Threads                                 int
	Clock                                   uint64
	Recorded                                []Switch
	Truncated                               bool
}

// GetStats returns the statistics and recorded decisions of the current run.
//
//go:norace
func GetStats() Stats {
	st := Stats{steps, nswitch, npreempt, hash, stalls, int(nthreads), steps + clockX, make([]Switch, nrec), dropped}
	for i := 0; i < nrec; i++ {
		st.Recorded[i] = recorded[i]
	}
	return st
}

// SiteHits returns at how many sites a preemption happened (process wide).
func SiteHits() (sites int, hits []int) {
	for i := 0; i < nsites; i++ {
		if siteHits[i] > 0 {
			sites++
			hits = append(hits, i)
		}
	}
	return
}

// Active tells whether a run is in progress.
//
//go:norace
func Active() bool { return active }

// Steps is the number of steps so far.
//
//go:norace
func Steps() uint64 { return steps }

// Clock is the simulated time in us.
//
//go:norace
func Clock() uint64 { return steps + clockX }

// Advance lets simulated time pass (latency of an operation).
//
//go:norace
func Advance(us uint64) { clockX += us }

// Mix adds v to the hash of the event history of the run.
//
//go:norace
func Mix(v uint64) { hash = (hash ^ v) * 1099511628211 }

// Cur is the running thread.
//
//go:norace
func Cur() int { return int(cur) }

// NumCPU is the simulated runtime.NumCPU.
//
//go:norace
func NumCPU() int {
	if cfg.NumCPU > 0 {
		return cfg.NumCPU
	}
	return 4
}

//go:norace
func draw() {
	// Even without preemption no thread keeps the CPU forever (spin loops)
	next = steps + fairness
	if cfg.MaxSteps < next {
		next = cfg.MaxSteps
	}
	if cfg.Explicit {
		if swPos < len(cfg.Switches) && cfg.Switches[swPos].Step < next {
			next = cfg.Switches[swPos].Step
		}
		return
	}
	if cfg.MeanPreempt > 0 {
		n := steps + 1 + rng.Next()%(2*cfg.MeanPreempt)
		if n < next {
			next = n
		}
	}
}

// Yield is called before each instrumented statement.
//
//go:norace
func Yield(site int32) {
	if !active {
		return
	}
	steps++
	if steps >= next || hot[site] {
		yieldSlow(site)
	}
}

//go:norace
func yieldSlow(site int32) {
	if steps >= cfg.MaxSteps {
		fail("no-progress", fmt.Sprintf("run did not finish within %d steps", cfg.MaxSteps))
	}
	if cfg.Explicit {
		explicitPoint()
		return
	}
	if nthreads == 1 {
		if steps >= next {
			draw()
		}
		return
	}
	if steps >= next {
		draw()
		preempt(site)
	} else if rng.Chance(cfg.HotP) {
		preempt(site)
	}
}

//go:norace
func explicitPoint() {
	for swPos < len(cfg.Switches) && cfg.Switches[swPos].Step < steps {
		swPos++
	}
	if swPos < len(cfg.Switches) && cfg.Switches[swPos].Step == steps {
		to := cfg.Switches[swPos].To
		swPos++
		draw()
		if to < nthreads && to != cur && threads[to].state == stRunnable {
			npreempt++
			record(to)
			switchTo(to)
		}
		return
	}
	if steps >= next && nthreads > 1 {
		Gosched()
		return
	}
	draw()
}

// SyncPoint is called at synchronisation and I/O operations.
//
//go:norace
func SyncPoint() {
	if !active {
		return
	}
	steps++
	if steps >= cfg.MaxSteps {
		fail("no-progress", fmt.Sprintf("run did not finish within %d steps", cfg.MaxSteps))
	}
	if cfg.Explicit {
		if steps >= next {
			explicitPoint()
		}
		return
	}
	if nthreads > 1 && cfg.SyncP > 0 && rng.Chance(cfg.SyncP) {
		preempt(-1)
	}
}

// pick chooses a runnable thread other than cur, -1 if there is none.
//
//go:norace
func pick() int32 {
	if nsleep > 0 {
		Due()
	}
	var total uint64
	for i := int32(0); i < nthreads; i++ {
		if i != cur && threads[i].state == stRunnable {
			total += threads[i].weight
		}
	}
	if total == 0 {
		return -1
	}
	r := rng.Next() % total
	for i := int32(0); i < nthreads; i++ {
		if i != cur && threads[i].state == stRunnable {
			if r < threads[i].weight {
				return i
			}
			r -= threads[i].weight
		}
	}
	return -1
}

//go:norace
func preempt(site int32) {
	to := pick()
	if to < 0 {
		return
	}
	// A slow thread is chosen rarely, a fast one rarely loses the CPU
	if w, c := threads[to].weight, threads[cur].weight; w < c && rng.Next()%c >= w {
		stalls++
		return
	}
	npreempt++
	if site >= 0 {
		siteHits[site]++
	}
	record(to)
	switchTo(to)
}

//go:norace
func record(to int32) {
	if nrec < maxSwitches {
		recorded[nrec] = Switch{steps, to}
		nrec++
	} else {
		dropped = true
	}
}

//go:norace
func switchTo(to int32) {
	me := threads[cur]
	nswitch++
	Mix(steps<<8 ^ uint64(to))
	cur = to
	w := threads[to].wake
	raceDisable()
	w <- struct{}{}
	<-me.wake
	raceEnable()
}

// Gosched lets another thread run, if there is one.
//
//go:norace
func Gosched() {
	if !active {
		return
	}
	leave(false)
	draw()
}

// leave gives the CPU away because the running thread can not continue. It
// returns when the thread was made runnable again and got the CPU.
//
//go:norace
func leave(exit bool) {
	steps++
	if steps >= cfg.MaxSteps {
		fail("no-progress", fmt.Sprintf("run did not finish within %d steps", cfg.MaxSteps))
	}
	if nsleep > 0 {
		Due()
	}
	to := int32(-1)
	for {
		// The default: the next runnable thread in cyclic order
		for k := int32(1); k <= nthreads; k++ {
			if i := (cur + k) % nthreads; threads[i].state == stRunnable {
				to = i
				break
			}
		}
		if to >= 0 {
			break
		}
		// Nobody can run: let time pass until the first sleeper wakes up
		first := int32(-1)
		for i := int32(0); i < nthreads; i++ {
			if threads[i].state == stSleeping && (first < 0 || threads[i].until < threads[first].until) {
				first = i
			}
		}
		if first < 0 {
			msg := "all threads are blocked:"
			for i := int32(0); i < nthreads; i++ {
				if threads[i].state == stBlocked {
					msg += fmt.Sprintf(" T%d(%s)", i, threads[i].what)
				}
			}
			fail("deadlock", msg)
		}
		if now := Clock(); threads[first].until > now {
			clockX += threads[first].until - now
		}
		threads[first].state = stRunnable
	}
	if cfg.Explicit {
		for swPos < len(cfg.Switches) && cfg.Switches[swPos].Step < steps {
			swPos++
		}
		if swPos < len(cfg.Switches) && cfg.Switches[swPos].Step == steps {
			if t := cfg.Switches[swPos].To; t < nthreads && threads[t].state == stRunnable {
				record(t)
				to = t
			}
			swPos++
		}
		draw()
	} else {
		def := to
		if t := pick(); t >= 0 {
			to = t
		}
		if to != def {
			record(to)
		}
	}
	if to == cur {
		return
	}
	if exit {
		nswitch++
		Mix(steps<<8 ^ uint64(to))
		cur = to
		w := threads[to].wake
		raceDisable()
		w <- struct{}{}
		raceEnable()
		return
	}
	switchTo(to)
}

//go:norace
func block(obj unsafe.Pointer) {
	me := threads[cur]
	me.state = stBlocked
	me.obj = obj
	leave(false)
	me.obj = nil
}

// Block suspends the running thread until Wake(obj).
//
//go:norace
func Block(obj unsafe.Pointer, what string) {
	if !active {
		panic("blocking outside of a simulated run: " + what)
	}
	threads[cur].what = what
	block(obj)
}

// Wake makes all threads runnable that wait for obj.
//
//go:norace
func Wake(obj unsafe.Pointer) {
	for i := int32(0); i < nthreads; i++ {
		if t := threads[i]; t.state == stBlocked && t.obj == obj {
			t.state = stRunnable
		}
	}
}

// Sleep suspends the running thread for us microseconds of simulated time.
//
//go:norace
func Sleep(us uint64) {
	if !active {
		return
	}
	me := threads[cur]
	me.state = stSleeping
	me.until = Clock() + us
	nsleep++
	for me.state == stSleeping {
		leave(false)
	}
	nsleep--
}

// Due makes sleepers runnable whose time has come (called at I/O points).
//
//go:norace
func Due() {
	now := Clock()
	for i := int32(0); i < nthreads; i++ {
		if threads[i].state == stSleeping && threads[i].until <= now {
			threads[i].state = stRunnable
		}
	}
}

// Go starts fn in a new simulated thread.
//
//go:norace
func Go(fn func()) {
	if !active {
		go fn()
		return
	}
	if nthreads >= maxThreads {
		fail("too-many-threads", "more than 256 threads were started")
	}
	t := &thread{wake: make(chan struct{}, 1), weight: 16}
	if cfg.Skew && !cfg.Explicit {
		switch rng.Intn(4) {
		case 0:
			t.weight = 1
		case 1:
			t.weight = 256
		}
	}
	threads[nthreads] = t
	nthreads++
	go t.run(fn)
	SyncPoint()
}

//go:norace
func (t *thread) run(fn func()) {
	debug.SetPanicOnFault(true)
	raceDisable()
	<-t.wake
	raceEnable()
	call(fn)
	t.state = stDone
	Wake(unsafe.Pointer(&drainObj))
	leave(true)
}

func call(fn func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(interface{ SimCrash() }); ok {
				return // the simulated process is gone
			}
			fail("panic", fmt.Sprintf("panic in a goroutine of the library: %v\n%s", r, debug.Stack()))
		}
	}()
	fn()
}
