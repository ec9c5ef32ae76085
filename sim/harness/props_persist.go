package main

import (
	"fmt"
	"sort"
	"strings"

	"verifrt"
	"verifrt/simos"
	"verifrt/simsync"

	"github.com/mariotoffia/goannoy/interfaces"
)

// P01

func genP01(r *rt.Prng, sp *Spec) {
	if r.Chance(0.5) {
		sp.Data = "gauss"
	}
	sp.Queries = 2 + r.Intn(4)
	sp.Mode = pick(r, "save", "save", "chain")
	sp.Share = r.Chance(0.3)
	if r.Chance(0.15) {
		sp.N = 1 + r.Intn(4)
	}
}

func (e *env[TV, TIX]) runP01() {
	sp := e.sp
	items := sp.items()
	m := modelOf(sp.F, items)
	r := rt.NewPrng(sp.DataSeed, 5)
	idx := e.built(e.opts(), items, sp.T, sp.W)

	// The answers of the index before it was saved
	qs := e.queries(m, r, sp.Queries)
	for i := range qs {
		if i%2 == 1 {
			qs[i].b = -1
		}
	}
	qs = append(qs, query{vec: vectors("gauss", 1, sp.F, r, sp.Types&1 == 0)[0], k: len(m.ids), b: 1 << 30})
	type pairD struct {
		i, j uint64
		d    TV
	}
	var ds []pairD
	var want []answer
	must("search", func() {
		for _, q := range qs {
			want = append(want, e.ask(idx, idx.CreateContext(), q))
		}
		for i := 0; i < 4; i++ {
			a, b := m.ids[r.Intn(len(m.ids))], m.ids[r.Intn(len(m.ids))]
			ds = append(ds, pairD{a, b, idx.GetDistance(TIX(a), TIX(b))})
		}
	})
	e.save(idx, path)
	_, ts := e.forest(path, m, sp.T)
	// Which of several equally promising nodes is explored first is not specified
	exact := genericData(sp.Data) && !hasZeroPlane(ts)
	same := func(what string, idx interfaces.AnnoyIndex[TV, TIX]) {
		must(what, func() {
			if n := uint64(idx.VectorLength()); n != uint64(sp.F) {
				violate("vector-length", "%s: vector length %d", what, n)
			}
			if s := e.sameItems(idx, m); s != "" {
				violate("item", "%s: %s", what, s)
			}
			for _, p := range ds {
				if d := idx.GetDistance(TIX(p.i), TIX(p.j)); d != p.d {
					violate("distance", "%s: GetDistance(%d,%d) is %v, it was %v", what, p.i, p.j, d, p.d)
				}
			}
			ctx := idx.CreateContext()
			for i, q := range qs {
				if q.b != 1<<30 && !exact {
					a := e.ask(idx, ctx, q)
					if len(a.ids) > len(m.ids) {
						violate("search", "%s: %d results", what, len(a.ids))
					}
					continue
				}
				a := e.ask(idx, ctx, q)
				if !sameAnswer(a, want[i]) {
					violate("different-answer", "%s: query %v: %v but before saving %v", what, q, a, want[i])
				}
			}
			if exact {
				probe("exact", 1)
			}
		})
	}
	same("after Save", idx)
	for _, mem := range []string{"mmap", "gc"} {
		o := e.opts()
		o.mem = mem
		o.multi = r.Chance(0.5)
		other := e.open(o)
		e.load(other, path)
		same("loaded with the "+mem+" allocator", other)
		if sp.Mode == "chain" {
			p := simos.Dir + "/copy." + mem
			e.save(other, p)
			a, _ := simos.Disk.Content(path)
			b, _ := simos.Disk.Content(p)
			if string(a) != string(b) {
				violate("copy", "saving a loaded index (%s) gives another file", mem)
			}
			same("saved after it was loaded with the "+mem+" allocator", other)
		}
		must("Close", func() { other.Close() })
	}
	same("after others were closed", idx)
	if r.Chance(0.5) {
		e.replaced(idx, r, same)
	}
	must("Close", func() { idx.Close() })
}

// replaced: the file is replaced by another index, or removed, and saved again by who loaded it.
func (e *env[TV, TIX]) replaced(idx interfaces.AnnoyIndex[TV, TIX], r *rt.Prng, same func(string, interfaces.AnnoyIndex[TV, TIX])) {
	sp := e.sp
	first, _ := simos.Disk.Content(path)
	o := e.opts()
	o.mem = pick(r, "mmap", "gc")
	x := e.open(o)
	e.load(x, path)
	same("loaded before the file is replaced", x)
	items := sp.itemsOf(sp.N, sp.DataSeed+77)
	m := modelOf(sp.F, items)
	var y interfaces.AnnoyIndex[TV, TIX]
	switch r.Intn(4) {
	case 0:
		simos.Disk.Drop(path)
	case 1: // nothing happens to it
	default:
		y = e.built(e.opts(), items, sp.T, sp.W)
		e.save(y, path)
		same("loaded before the file was replaced", x)
		same("saved before the file was replaced", idx)
		if r.Chance(0.5) { // sees the other one, then its own again
			if r.Chance(0.3) {
				e.save(x, simos.Dir+"/first.ann")
			} else {
				simos.Disk.Put(simos.Dir+"/first.ann", first)
			}
			e.load(x, path)
			if s := e.matches(x, m, r); s != "" {
				violate("different-answer", "loaded again after the file was replaced: %s", s)
			}
			e.load(x, simos.Dir+"/first.ann")
			same("loaded from where it was saved after another one was loaded", x)
		}
	}
	probe("replaced", 1)
	e.save(x, path)
	same("saved again", x)
	again, _ := simos.Disk.Content(path)
	if string(first) != string(again) {
		violate("copy", "saving a loaded index again, after the file was replaced or removed, gives another file")
	}
	z := e.open(e.opts())
	e.load(z, path)
	same("loaded after it was saved again", z)
	must("Close", func() { x.Close() })
	same("loaded, after others were closed", z)
	if y != nil {
		if s := e.matches(y, m, r); s != "" {
			violate("different-answer", "saved before its file was replaced: %s", s)
		}
		must("Close", func() { y.Close() })
	}
	must("Close", func() { z.Close() })
}

// sameAnswer: same distances, and same items where distances differ.
func sameAnswer(a, b answer) bool {
	if len(a.ids) != len(b.ids) || len(a.dists) != len(b.dists) {
		return false
	}
	for i := range a.dists {
		if a.dists[i] != b.dists[i] {
			return false
		}
	}
	for i := 0; i < len(a.ids); {
		j := i
		for j < len(a.ids) && a.dists[j] == a.dists[i] {
			j++
		}
		if j < len(a.ids) || i == 0 && j == len(a.ids) && j == 1 {
			x := append([]uint64(nil), a.ids[i:j]...)
			y := append([]uint64(nil), b.ids[i:j]...)
			sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
			sort.Slice(y, func(i, j int) bool { return y[i] < y[j] })
			for k := range x {
				if x[k] != y[k] {
					return false
				}
			}
		}
		i = j
	}
	return true
}

// matches tells whether idx holds exactly the items of m.
func (e *env[TV, TIX]) matches(idx interfaces.AnnoyIndex[TV, TIX], m *model, r *rt.Prng) string {
	s := ""
	if p := try(func() {
		q := query{vec: vectors("gauss", 1, e.sp.F, r, e.sp.Types&1 == 0)[0], k: len(m.ids) + 3, b: 1 << 30}
		a := e.ask(idx, idx.CreateContext(), q)
		if s = e.exact(m, q, a); s == "" {
			s = e.sameItems(idx, m)
		}
	}); p != nil {
		return "panic: " + panicText(p)
	}
	return s
}

// P02

func genP02(r *rt.Prng, sp *Spec) {
	sp.atMost(r, 1, 80)
	if r.Chance(0.3) {
		sp.N = 1 + r.Intn(8)
	}
	if r.Chance(0.15) {
		sp.F, sp.N = 40+r.Intn(60), 60+r.Intn(60) // larger files
		sp.T = 1 + r.Intn(3)
	}
	sp.Mode = pick(r, "new", "replace", "replace", "replace", "over", "loaded")
	switch r.Intn(4) {
	case 0:
		sp.Clients = 1 + r.Intn(3) // readers instead of a crash
	default:
		sp.Faults = genFaults(r, "crash")[:1]
		if r.Chance(0.1) {
			sp.Faults = nil
		}
		if r.Chance(0.3) { // errors before the crash, or before it is too late for one
			if r.Chance(0.5) {
				sp.Faults = nil
			}
			sp.Faults = append(sp.Faults, genFaults(r, "error", "error", "short")...)
		}
	}
	sp.X = r.Intn(2) // power loss
	sp.Queries = r.Intn(2)
	if sp.Clients > 0 {
		sp.Share = r.Chance(0.3)
		sp.X = 0
		if r.Chance(0.4) {
			sp.X = 1 + r.Intn(2) // others that save to the same file
			if r.Chance(0.5) {   // with faults instead of readers
				sp.Share = false
				sp.Faults = genFaults(r, "crash", "crash", "error", "short")
			}
		}
	}
}

func (e *env[TV, TIX]) arm(fs []FSpec, ops int) {
	var l []simos.Fault
	for _, f := range fs {
		l = append(l, simos.Fault{At: int(f.Frac * (float64(ops) + 0.99)), Kind: f.Kind, Arg: f.Arg})
	}
	simos.Disk.Arm(l)
}

func (e *env[TV, TIX]) runP02() {
	sp := e.sp
	e.quiet()
	r := rt.NewPrng(sp.DataSeed, 5)
	oldItems := sp.itemsOf(1+int(sp.DataSeed%uint64(sp.N+3)), sp.DataSeed+77)
	newItems := sp.items()
	mo, mn := modelOf(sp.F, oldItems), modelOf(sp.F, newItems)
	build := func(items []item, o opts) (idx interfaces.AnnoyIndex[TV, TIX]) {
		must("Build", func() {
			idx = e.open(o)
			e.add(idx, items)
			idx.Build(sp.T, sp.W)
		})
		return
	}
	// The old index; its saving tells how many operations there are
	oldPath := path
	if sp.Mode == "new" {
		oldPath = simos.Dir + "/other.ann"
		mo = nil
	}
	old := build(oldItems, opts{mem: sp.Mem, alloc: "gc"})
	simos.Disk.Arm(nil)
	e.save(old, oldPath)
	ops := simos.Disk.Count()
	must("Close", func() { old.Close() })

	idx := build(newItems, e.opts())
	switch sp.Mode {
	case "loaded": // saved elsewhere before
		e.save(idx, simos.Dir+"/elsewhere.ann")
	case "over": // saved at the same place before: the old content is the new one
		e.save(idx, path)
		mo = mn
	}
	simos.Disk.SyncAll()
	if sp.Clients > 0 {
		var others []interfaces.AnnoyIndex[TV, TIX]
		all := []*model{mn}
		for i := 1; i <= sp.X; i++ {
			items := sp.itemsOf(1+int((sp.DataSeed>>8*uint64(i))%uint64(sp.N+3)), sp.DataSeed+uint64(i))
			others = append(others, build(items, e.opts()))
			all = append(all, modelOf(sp.F, items))
		}
		if sp.Faults != nil {
			e.savers(append(others, idx), mo, all, ops, r)
			return
		}
		e.readers(append(others, idx), mo, all, r)
		return
	}
	var err error
	before := firedNow()
	e.arm(sp.Faults, ops)
	crashed := false
	must("Save", func() {
		crashed = crashes(func() { err = idx.Save(path) })
	})
	simos.Disk.Disarm()
	if any, _ := fired(before); !crashed && err != nil && !any {
		violate("save-error", "Save: %v", err)
	}
	power := sp.X == 1
	simos.Disk.Restart(power, r)
	saved := !crashed && err == nil
	if !crashed && err != nil {
		probe("failed", 1)
	}
	probe(map[bool]string{true: "crashed", false: "completed"}[crashed], 1)

	check := func(mem string) (what string) {
		// another process
		if _, ok := simos.Disk.Content(path); !ok && mo == nil {
			if saved && !power {
				violate("lost", "Save succeeded but there is no file after a crash of the process")
			}
			return "none"
		}
		o := opts{mem: mem, alloc: "gc"}
		other := e.open(o)
		must("Load", func() {
			if err := other.Load(path); err != nil {
				if mo == nil && (!saved || power) {
					what = "none" // recognised as incomplete
					return
				}
				violate("lost", "Load after the crash (power loss: %v, Save returned: %v, faults %v): %v", power, !crashed, fs(before), err)
			}
		})
		if what == "" {
			sn := e.matches(other, mn, r)
			if sn == "" {
				what = "new"
			} else {
				so := "there was none"
				if mo != nil {
					so = e.matches(other, mo, r)
				}
				if so != "" {
					violate("mixture", "after the crash (power loss: %v, Save returned: %v, faults %v) the file is neither the old index (%s) nor the new one (%s)", power, !crashed, fs(before), so, sn)
				}
				what = "old"
			}
		}
		must("Close", func() { other.Close() })
		if what != "new" && saved && !power {
			violate("lost", "Save succeeded but after a crash of the process the file is %s", what)
		}
		return
	}
	a := check("mmap")
	if b := check("gc"); a != b {
		violate("mixture", "%s with the mmap allocator but %s with the gc allocator", a, b)
	}
	probe("found-"+a, 1)
	// Saving works again
	again := build(newItems, e.opts())
	e.save(again, path)
	if s := e.matches(again, mn, r); s != "" {
		violate("search", "saved again after the crash: %s", s)
	}
	must("Close", func() { again.Close() })
	a = check("mmap")
	if a != "new" {
		violate("lost", "saved again after the crash but the file is %s", a)
	}
}

// savers replace the file at the same time, I/O fails or the process ends meanwhile.
func (e *env[TV, TIX]) savers(idx []interfaces.AnnoyIndex[TV, TIX], mo *model, mn []*model, ops int, r *rt.Prng) {
	sp := e.sp
	power := sp.DataSeed>>9&1 == 1
	before := firedNow()
	e.noisy()
	e.arm(sp.Faults, ops*len(idx)*(sp.Queries+1))
	left, dead, returned := len(idx), false, false
	savers := map[int]bool{}
	// innocent: none of the faults was injected into the operations of this saver.
	innocent := func(self int) bool {
		for t := range simos.Disk.FiredIn {
			if t == self || !savers[t] {
				return false
			}
		}
		return true
	}
	for c := range idx {
		c := c
		rt.Go(func() {
			self := rt.Cur()
			savers[self] = true
			must("Save", func() {
				gone := crashes(func() {
					for i := 0; i <= sp.Queries; i++ {
						err := idx[c].Save(path)
						if simos.Disk.Dead() {
							return // whatever happens after the crash
						}
						if err == nil {
							returned = true
						} else if innocent(self) {
							violate("save-error", "Save of index %d: %v (faults %v, none of them in this Save)", c, err, fs(before))
						} else {
							return // it need not be what it was (see P03)
						}
					}
				})
				dead = dead || gone
			})
			finished(&left)
		})
	}
	for left > 0 && !dead {
		rt.Block(ptr(&left), "savers")
	}
	simos.Disk.Disarm()
	e.quiet()
	_, failed := fired(before)
	if dead {
		rt.Kill()
		simos.Disk.Restart(power, r)
		probe("crashed-savers", 1)
	} else if t := temporaries(path, simos.Dir+"/other.ann", simos.Dir+"/elsewhere.ann"); t != "" && failed["remove"] == 0 {
		violate("temporary", "left behind after Save: %s", t)
	}
	lost := !returned || dead && power // the old file may be there, or none
	for _, mem := range []string{"mmap", "gc"} {
		if _, ok := simos.Disk.Content(path); !ok && mo == nil {
			if !lost {
				violate("lost", "Save succeeded but there is no file")
			}
			break
		}
		other := e.open(opts{mem: mem, alloc: "gc"})
		if err := other.Load(path); err != nil {
			if mo == nil && lost && dead {
				break // recognised as incomplete
			}
			violate("lost", "Load after saving %d indexes (crash: %v, power loss: %v, a Save returned: %v, faults %v): %v", len(idx), dead, power, returned, fs(before), err)
		}
		ok := false
		for _, m := range mn {
			ok = ok || e.matches(other, m, r) == ""
		}
		if !ok && mo != nil && lost {
			ok = e.matches(other, mo, r) == ""
		}
		if !ok {
			violate("mixture", "after saving %d indexes (crash: %v, power loss: %v, a Save returned: %v, faults %v) the file is neither of them, nor the old one", len(idx), dead, power, returned, fs(before))
		}
		must("Close", func() { other.Close() })
	}
	again := e.open(opts{mem: sp.Mem, alloc: "gc"})
	must("Build", func() {
		e.add(again, sp.items())
		again.Build(sp.T, sp.W)
	})
	e.save(again, path)
	if s := e.matches(again, mn[0], r); s != "" {
		violate("search", "saved again: %s", s)
	}
	must("Close", func() { again.Close() })
}

// readers use the file while it is replaced, by one or more indexes.
func (e *env[TV, TIX]) readers(idx []interfaces.AnnoyIndex[TV, TIX], mo *model, mn []*model, r *rt.Prng) {
	sp := e.sp
	mapped := make([]interfaces.AnnoyIndex[TV, TIX], sp.Clients)
	if mo != nil {
		for c := range mapped {
			if r.Chance(0.7) {
				mapped[c] = e.open(opts{mem: pick(r, "mmap", "mmap", "gc"), alloc: "gc"})
				e.load(mapped[c], path)
			}
		}
	}
	seeds := make([]uint64, sp.Clients+len(idx))
	for c := range seeds {
		seeds[c] = r.Next()
	}
	isNew := func(x interfaces.AnnoyIndex[TV, TIX], r *rt.Prng) (s string) {
		for i, m := range mn {
			t := e.matches(x, m, r)
			if t == "" {
				return ""
			}
			if i > 0 {
				s += ", "
			}
			s += t
		}
		return
	}
	saving, returned := len(idx), false
	saved := simsync.WaitGroup{}
	saved.Add(len(idx))
	e.noisy()
	e.clients(sp.Clients+len(idx), func(c int) {
		r := rt.NewPrng(seeds[c], 1)
		if c >= sp.Clients {
			me := idx[c-sp.Clients]
			for i := 0; i <= sp.Queries; i++ {
				if err := me.Save(path); err != nil {
					violate("save-error", "Save: %v", err)
				}
				returned = true
				if len(idx) > 1 {
					// what it loaded may have been saved by another one meanwhile
					if s := isNew(me, r); s != "" {
						violate("mixture", "index %d: after Save while others save to the same file: %s", c-sp.Clients, s)
					}
					probe("concurrent-save", 1)
				}
			}
			saving--
			saved.Done()
			return
		}
		wasNew := false
		rounds := 2 + r.Intn(24)
		for last := false; !last; {
			if rounds--; rounds < 0 {
				// The schedule may be unfair to who saves
				saved.Wait()
			}
			last = saving == 0
			if mapped[c] != nil {
				if s := e.matches(mapped[c], mo, r); s != "" {
					violate("mapped", "client %d: an index that was loaded before changed: %s", c, s)
				}
			}
			must := returned
			other := e.open(opts{mem: pick(r, "mmap", "gc"), alloc: "gc"})
			if err := other.Load(path); err != nil {
				if mo == nil && !must {
					other.Close()
					rt.Gosched()
					continue
				}
				violate("load-error", "client %d: Load while the file is replaced: %v", c, err)
			}
			sn, so := isNew(other, r), "there is none"
			if sn != "" && mo != nil {
				so = e.matches(other, mo, r)
			}
			if sn != "" && so != "" {
				violate("mixture", "client %d: loaded while the file is replaced: neither the old index (%s) nor the new one (%s)", c, so, sn)
			}
			if sn != "" && (wasNew || must) {
				violate("lost", "client %d: old index after the new one was saved", c)
			}
			wasNew = wasNew || sn == ""
			probe("concurrent-load", 1)
			if err := other.Close(); err != nil {
				violate("close", "Close: %v", err)
			}
			rt.Gosched()
		}
	})
	e.quiet()
	for _, x := range idx {
		if s := isNew(x, r); s != "" {
			violate("search", "after Save: %s", s)
		}
	}
	if t := temporaries(path, simos.Dir+"/other.ann", simos.Dir+"/elsewhere.ann"); t != "" {
		violate("temporary", "left behind after Save: %s", t)
	}
	for _, x := range idx {
		must("Close", func() { x.Close() })
	}
	for _, x := range mapped {
		if x != nil {
			must("Close", func() { x.Close() })
		}
	}
	e.released("after all indexes were closed")
}

// released checks that no resource is held.
func (e *env[TV, TIX]) released(what string) {
	if n := simos.Disk.OpenFDs(); n > 0 {
		violate("leak", "%s: %d open files (%s)", what, n, simos.Disk.OpenNames())
	}
	if n := simos.Disk.LiveMaps() - simos.Disk.FailedRelease; n > 0 {
		violate("leak", "%s: %d mappings", what, n)
	}
}

// temporaries are files that nobody asked for.
func temporaries(known ...string) string {
	var l []string
next:
	for _, f := range simos.Disk.Files() {
		for _, k := range known {
			if f == k {
				continue next
			}
		}
		l = append(l, f)
	}
	return strings.Join(l, " ")
}

// P03

func genP03(r *rt.Prng, sp *Spec) {
	sp.atMost(r, 1, 60)
	sp.Mode = pick(r, "save", "save", "save", "load", "load", "bad")
	sp.Share = r.Chance(0.25)
	if sp.Mode == "load" {
		sp.Faults = genFaults(r, "error", "error", "short", "eof")
	} else if sp.Mode == "save" {
		sp.Faults = genFaults(r, "error", "short")
	}
	sp.X = r.Intn(16)
}

func fired(before map[string]int) (any bool, ops map[string]int) {
	ops = map[string]int{}
	for k, v := range simos.Disk.Fired {
		if d := v - before[k]; d > 0 {
			any = true
			ops[k[strings.Index(k, ":")+1:]] += d
		}
	}
	return
}

func firedNow() map[string]int {
	m := map[string]int{}
	for k, v := range simos.Disk.Fired {
		m[k] = v
	}
	return m
}

func (e *env[TV, TIX]) runP03() {
	sp := e.sp
	e.quiet()
	r := rt.NewPrng(sp.DataSeed, 5)
	newItems := sp.items()
	oldItems := sp.itemsOf(1+int(sp.DataSeed%uint64(sp.N+3)), sp.DataSeed+77)
	mo, mn := modelOf(sp.F, oldItems), modelOf(sp.F, newItems)
	build := func(items []item) (idx interfaces.AnnoyIndex[TV, TIX]) {
		must("Build", func() {
			idx = e.open(e.opts())
			e.add(idx, items)
			idx.Build(sp.T, sp.W)
		})
		return
	}
	loads := func(what string, m *model) {
		other := e.open(opts{mem: pick(r, "mmap", "gc"), alloc: "gc"})
		must("Load", func() {
			if err := other.Load(path); err != nil {
				violate("lost", "%s: Load: %v", what, err)
			}
		})
		if s := e.matches(other, m, r); s != "" {
			violate("lost", "%s: %s", what, s)
		}
		must("Close", func() { other.Close() })
	}
	oldPath := path
	if sp.Mode == "save" && sp.X&1 == 0 {
		oldPath = simos.Dir + "/other.ann"
	}
	old := build(oldItems)
	simos.Disk.Arm(nil)
	e.save(old, oldPath)
	saveOps := simos.Disk.Count()
	must("Close", func() { old.Close() })
	elsewhere := simos.Dir + "/elsewhere.ann"

	switch sp.Mode {
	case "bad":
		e.bad(mo, build, loads, r)
		return
	case "load":
		idx := e.open(e.opts())
		switch sp.X % 3 {
		case 0: // held something else before
			e.add(idx, newItems)
			must("Build", func() { idx.Build(sp.T, sp.W) })
			e.save(idx, elsewhere)
		case 1:
			e.add(idx, newItems)
			must("Build", func() { idx.Build(sp.T, sp.W) })
		}
		dry := e.open(e.opts())
		simos.Disk.Arm(nil)
		e.load(dry, path)
		ops := simos.Disk.Count()
		must("Close", func() { dry.Close() })
		if sp.X%3 == 0 {
			ops += 2 // the old one is released
		}
		before := firedNow()
		e.arm(sp.Faults, ops)
		var err error
		if p := try(func() { err = idx.Load(path) }); p != nil {
			violate("panic", "Load with faults %v: panic: %s", fs(before), panicText(p))
		}
		simos.Disk.Disarm()
		any, _ := fired(before)
		if err == nil {
			if s := e.matches(idx, mo, r); s != "" {
				violate("false-success", "Load with faults %v succeeded but %s", fs(before), s)
			}
		} else {
			if !any {
				violate("load-error", "Load without any fault: %v", err)
			}
			probe("failed-load", 1)
			if s := e.empty(idx); s != "" {
				violate("failed-load", "after a failed Load (%v): %s", err, s)
			}
			e.anew(idx, newItems, mn, r)
			e.load(idx, path)
			if s := e.matches(idx, mo, r); s != "" {
				violate("failed-load", "Load after a failed one: %s", s)
			}
		}
		must("Close", func() { idx.Close() })
		loads("after a Load with faults", mo)
	case "save":
		idx := build(newItems)
		if sp.X&2 != 0 {
			e.save(idx, elsewhere)
		}
		before := firedNow()
		e.arm(sp.Faults, saveOps)
		var err error
		if p := try(func() { err = idx.Save(path) }); p != nil {
			violate("panic", "Save with faults %v: panic: %s", fs(before), panicText(p))
		}
		simos.Disk.Disarm()
		any, opsHit := fired(before)
		if t := temporaries(path, oldPath, elsewhere); t != "" && opsHit["remove"] == 0 {
			violate("temporary", "left behind after Save (error: %v): %s", err, t)
		}
		if err == nil {
			loads(fmt.Sprintf("Save with faults %v succeeded", fs(before)), mn)
			if s := e.matches(idx, mn, r); s != "" {
				violate("false-success", "Save with faults %v succeeded but %s", fs(before), s)
			}
		} else {
			if !any {
				violate("save-error", "Save without any fault: %v", err)
			}
			probe("failed-save", 1)
			if s := e.empty(idx); s == "" {
				// The index is gone, it must be in the file
				loads(fmt.Sprintf("after a failed Save (%v) the index is empty", err), mn)
				probe("failed-save-closed", 1)
			} else if s := e.matches(idx, mn, r); s != "" {
				violate("failed-save", "after a failed Save (%v) the index is neither empty nor complete: %s", err, s)
			} else {
				// The old file or the new one
				if _, ok := simos.Disk.Content(path); ok {
					other := e.open(opts{mem: "gc", alloc: "gc"})
					var lerr error
					must("Load", func() { lerr = other.Load(path) })
					if lerr != nil {
						violate("lost", "after a failed Save (%v): Load: %v", err, lerr)
					}
					sn, so := e.matches(other, mn, r), "there was none"
					if oldPath == path {
						so = e.matches(other, mo, r)
					}
					if sn != "" && so != "" {
						violate("mixture", "after a failed Save (%v) the file is neither the old index (%s) nor the new one (%s)", err, so, sn)
					}
					must("Close", func() { other.Close() })
				} else if oldPath == path {
					violate("lost", "after a failed Save (%v) the old file is gone", err)
				}
				// and saving works as soon as there is no fault
				e.save(idx, path)
				if s := e.matches(idx, mn, r); s != "" {
					violate("failed-save", "Save after a failed one: %s", s)
				}
				loads("after a second Save", mn)
			}
		}
		must("Close", func() { idx.Close() })
	}
	e.released("at the end")
}

func fs(before map[string]int) string {
	var l []string
	for k, v := range simos.Disk.Fired {
		if v > before[k] {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// empty tells whether the index holds nothing ("").
func (e *env[TV, TIX]) empty(idx interfaces.AnnoyIndex[TV, TIX]) (s string) {
	v := make([]TV, e.sp.F)
	v[0] = 1
	if p := try(func() {
		ids, d := idx.GetNnsByVector(v, 3, 1<<30, idx.CreateContext())
		if len(ids) > 0 || len(d) > 0 {
			s = fmt.Sprintf("a search returns %d items", len(ids))
		}
	}); p != nil {
		return "a search panics: " + panicText(p)
	}
	return
}

// anew builds an index with an object that failed to load one, half of the time.
func (e *env[TV, TIX]) anew(idx interfaces.AnnoyIndex[TV, TIX], items []item, m *model, r *rt.Prng) {
	if r.Chance(0.5) {
		return
	}
	if p := try(func() {
		e.add(idx, items)
		idx.Build(e.sp.T, e.sp.W)
	}); p != nil {
		violate("failed-load", "building an index after a failed Load: panic: %s", panicText(p))
	}
	if s := e.matches(idx, m, r); s != "" {
		violate("failed-load", "an index built after a failed Load: %s", s)
	}
	probe("built-after-failed-load", 1)
}

func (e *env[TV, TIX]) bad(m *model, build func([]item) interfaces.AnnoyIndex[TV, TIX], loads func(string, *model), r *rt.Prng) {
	sp := e.sp
	data, _ := simos.Disk.Content(path)
	bad := simos.Dir + "/bad.ann"
	what := ""
	switch sp.X % 6 {
	case 0:
		what = "missing file"
	case 1:
		what = "empty file"
		simos.Disk.Put(bad, nil)
	case 2:
		what = "directory"
		bad = simos.Dir
	case 3, 4:
		n := r.Intn(len(data))
		if n%e.l.size == 0 {
			n++
		}
		what = fmt.Sprintf("file cut to %d bytes", n)
		if n%e.l.size == 0 {
			return
		}
		simos.Disk.Put(bad, data[:n])
	default:
		n := 1 + r.Intn(e.l.size-1)
		what = fmt.Sprintf("file with %d additional bytes", n)
		simos.Disk.Put(bad, append(append([]byte(nil), data...), make([]byte, n)...))
	}
	idx := e.open(e.opts())
	if sp.X&8 != 0 {
		e.load(idx, path)
	}
	must("Load", func() {
		if err := idx.Load(bad); err == nil {
			violate("false-success", "Load of a %s succeeded", what)
		}
	})
	if s := e.empty(idx); s != "" {
		violate("failed-load", "after Load of a %s: %s", what, s)
	}
	e.anew(idx, sp.items(), modelOf(sp.F, sp.items()), r)
	e.load(idx, path)
	if s := e.matches(idx, m, r); s != "" {
		violate("failed-load", "Load after Load of a %s: %s", what, s)
	}
	must("Close", func() { idx.Close() })
	e.released("after Load of a " + what)
	_ = build
	_ = loads
}
