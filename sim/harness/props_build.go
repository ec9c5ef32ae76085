package main

import (
	"fmt"
	"runtime"
	"sort"

	"verifrt"
	"verifrt/simos"

	"github.com/mariotoffia/goannoy/interfaces"
)

const path = simos.Dir + "/index.ann"

// quiet switches preemption off (for reference runs and oracles), noisy on again.
func (e *env[TV, TIX]) quiet() { rt.SetSched(0, 0, 0) }
func (e *env[TV, TIX]) noisy() {
	rt.SetSched(e.sp.Sched.MeanPreempt, e.sp.Sched.SyncP, e.sp.Sched.HotP)
}

// built creates an index of the items and builds it under the schedule of the run.
func (e *env[TV, TIX]) built(o opts, items []item, t, w int) interfaces.AnnoyIndex[TV, TIX] {
	var idx interfaces.AnnoyIndex[TV, TIX]
	must("AddItem", func() {
		idx = e.open(o)
		e.add(idx, items)
	})
	e.noisy()
	must("Build", func() { idx.Build(t, w) })
	e.quiet()
	return idx
}

func (e *env[TV, TIX]) save(idx interfaces.AnnoyIndex[TV, TIX], p string) {
	must("Save", func() {
		if err := idx.Save(p); err != nil {
			violate("save-error", "Save without any fault: %v", err)
		}
	})
}

func (e *env[TV, TIX]) load(idx interfaces.AnnoyIndex[TV, TIX], p string) {
	must("Load", func() {
		if err := idx.Load(p); err != nil {
			violate("load-error", "Load of a complete file: %v", err)
		}
	})
}

func (e *env[TV, TIX]) forest(p string, m *model, trees int) (*forest, []*tree) {
	data, ok := simos.Disk.Content(p)
	if !ok {
		violate("no-file", "Save succeeded but there is no file")
	}
	f, ts, err := parseForest(data, e.l, m, trees)
	if err != nil {
		violate("forest", "%v", err)
	}
	for i, t := range ts {
		if err := f.sides(t, m, e.sp.eps()); err != nil {
			violate("side", "tree %d: %v", i, err)
		}
	}
	if err := f.level(m, e.sp.eps()); err != nil {
		violate("dimension", "%v", err)
	}
	if e.sp.Data == "gauss" && e.sp.F >= 3 {
		n, random := splits(ts)
		probe("splits", n)
		probe("random-splits", random)
		if n >= 10 && 2*random > n {
			violate("random-splits", "%d of %d splits of items in general position are random", random, n)
		}
	}
	rt.Mix(uint64(len(data)))
	hs := canonicalForest(ts)
	for i, h := range hs {
		rt.Mix(h)
		if i > 0 && h == hs[i-1] && e.sp.Data == "gauss" && e.sp.F >= 3 && len(m.ids) >= 40 && ts[0].plane != nil {
			violate("same-trees", "two of %d trees are the same", len(hs))
		}
	}
	return f, ts
}

// exhaustive compares answers to exhaustive queries with the model.
func (e *env[TV, TIX]) exhaustive(idx interfaces.AnnoyIndex[TV, TIX], m *model, r *rt.Prng, n int, what string) {
	must(what, func() {
		ctx := idx.CreateContext()
		for i := 0; i < n; i++ {
			q := query{k: len(m.ids) + 3, b: 1 << 30}
			if i == 0 || r.Chance(0.5) || len(m.ids) == 0 {
				q.vec = vectors("gauss", 1, e.sp.F, r, e.sp.Types&1 == 0)[0]
			} else {
				q.byItem, q.id = true, m.ids[r.Intn(len(m.ids))]
			}
			if i > 0 && r.Chance(0.5) {
				q.k = 1 + r.Intn(len(m.ids)+2)
			}
			a := e.ask(idx, ctx, q)
			if s := e.exact(m, q, a); s != "" {
				violate("search", "%s: query %v: %s", what, q, s)
			}
		}
	})
}

// B01

func genB01(r *rt.Prng, sp *Spec) {
	sp.W = 1 + r.Intn(7)
	if r.Chance(0.1) {
		sp.T = -1
		if sp.N > 60 {
			sp.N = 1 + r.Intn(60)
		}
	}
	if sp.T < 2 && r.Chance(0.8) {
		sp.T = 2 + r.Intn(6)
	}
	if r.Chance(0.8) {
		sp.Multi = true
		sp.Alloc = "hostile"
	}
	if r.Chance(0.25) {
		sp.N = 1 + r.Intn(30)
	}
	if r.Chance(0.3) {
		sp.Data = "gauss"
	}
}

func (e *env[TV, TIX]) runB01() {
	sp := e.sp
	items := sp.items()
	m := modelOf(sp.F, items)
	r := rt.NewPrng(sp.DataSeed, 9)
	idx := e.built(e.opts(), items, sp.T, sp.W)
	if s := e.sameItems(idx, m); s != "" {
		violate("item", "after Build: %s", s)
	}
	e.exhaustive(idx, m, r, 2, "search on the built index")
	e.save(idx, path)
	fo, ts := e.forest(path, m, sp.T)
	probe("trees", len(ts))
	if sp.T == -1 {
		e.automatic(fo, ts)
	}
	e.exhaustive(idx, m, r, 1, "search on the saved index")
	must("Close", func() { idx.Close() })
}

// automatic checks the number of trees that was chosen by the library: trees are
// built until there are twice as many records as items, each worker completes
// the tree it began.
func (e *env[TV, TIX]) automatic(fo *forest, ts []*tree) {
	workers := e.sp.W
	switch {
	case !e.sp.Multi || workers == 0:
		workers = 1
	case workers == -1:
		workers = e.sp.Sched.NumCPU
	}
	total := int(fo.nodes) - len(ts)
	if total < 2*int(fo.items) {
		violate("too-few-trees", "%d trees with %d records for %d items", len(ts), total, fo.items)
	}
	var sizes []int
	for _, t := range ts {
		sizes = append(sizes, t.records(fo.items))
	}
	sort.Sort(sort.Reverse(sort.IntSlice(sizes)))
	for i := 0; i < workers && i < len(sizes); i++ {
		total -= sizes[i]
	}
	if total >= 2*int(fo.items) {
		violate("too-many-trees", "%d trees with %d records for %d items and %d workers", len(ts), int(fo.nodes)-len(ts), fo.items, workers)
	}
	probe("automatic", 1)
}

// B02

func genB02(r *rt.Prng, sp *Spec) {
	if sp.T < 2 {
		sp.T = 2 + r.Intn(5)
	}
	sp.Multi = !r.Chance(0.05)
	if sp.W == 0 || sp.W == 1 {
		sp.W = 2 + r.Intn(5)
	}
	sp.Mode = pick(r, "fresh", "fresh", "fresh", "fresh", "fresh", "fresh", "reused", "reused", "hinted", "hinted", "noise", "noise", "cpus", "zero", "drawn", "order")
	if sp.Mode == "cpus" {
		sp.Multi = true
	}
	if sp.N > 2100 { // takes long
		sp.N = 500 + r.Intn(1600)
	}
}

func (e *env[TV, TIX]) runB02() {
	sp := e.sp
	items := sp.items()
	m := modelOf(sp.F, items)
	// The reference: one worker after the other, memory that does not move
	o := e.opts()
	o.alloc, o.hint = "gc", 0
	var ref interfaces.AnnoyIndex[TV, TIX]
	must("AddItem", func() {
		ref = e.open(o)
		e.add(ref, items)
	})
	e.quiet()
	w, workers := sp.W, sp.W
	if c := sp.Custom; c == nil || c.Policy == "" {
		switch sp.Mode {
		case "cpus": // the same as -1
			w, workers = rt.NumCPU(), -1
		case "zero": // the same as one
			w, workers = 1, 0
		}
	}
	must("Build", func() { ref.Build(sp.T, w) })
	e.save(ref, simos.Dir+"/ref.ann")
	_, want := e.forest(simos.Dir+"/ref.ann", m, sp.T)
	must("Close", func() { ref.Close() })

	o = e.opts()
	var idx interfaces.AnnoyIndex[TV, TIX]
	must("AddItem", func() {
		switch sp.Mode {
		case "drawn":
			e.drawn = 1 + int(sp.DataSeed%9)
		case "hinted":
			o.hint = 1 + int(sp.DataSeed%uint64(2*sp.N+1))
		}
		idx = e.open(o)
		if sp.Mode == "reused" {
			// An earlier life of the same object
			e.add(idx, sp.itemsOf(1+sp.N/2, sp.DataSeed+1))
			idx.Build(1+sp.T/2, sp.W)
			if sp.DataSeed&1 == 0 {
				e.save(idx, simos.Dir+"/old.ann")
			}
			if err := idx.Close(); err != nil {
				violate("close", "Close: %v", err)
			}
		}
		if sp.Mode == "order" && sp.IDs != "dup" {
			x := rt.NewPrng(sp.DataSeed, 21)
			for i := len(items) - 1; i > 0; i-- {
				j := x.Intn(i + 1)
				items[i], items[j] = items[j], items[i]
			}
		}
		e.add(idx, items)
	})
	e.noisy()
	if sp.Mode == "noise" {
		// Another index is built at the same time
		done := false
		rt.Go(func() {
			must("Build", func() {
				other := e.open(e.opts())
				e.add(other, sp.itemsOf(1+sp.N/2, sp.DataSeed+2))
				other.Build(2, 2)
				other.Close()
			})
			done = true
			rt.Wake(ptr(&done))
		})
		must("Build", func() { idx.Build(sp.T, workers) })
		for !done {
			rt.Block(ptr(&done), "harness")
		}
	} else {
		must("Build", func() { idx.Build(sp.T, workers) })
	}
	e.quiet()
	e.save(idx, path)
	_, got := e.forest(path, m, sp.T)
	a, b := canonicalForest(want), canonicalForest(got)
	diff := 0
	for i := range a {
		if a[i] != b[i] {
			diff++
		}
	}
	if diff > 0 {
		violate("different-forest", "%d of %d trees (sorted) differ from those of the sequential schedule", diff, len(a))
	}
	must("Close", func() { idx.Close() })

	if seed := sp.RandSeed; sp.Kiss && sp.Seed&1 == 0 && sp.Data == "gauss" && sp.F >= 3 && sp.N > 4*(sp.F+10) && sp.N < 400 {
		// Another seed
		sp.RandSeed ^= 0x5bd1e995
		must("Build", func() {
			idx = e.open(e.opts())
			e.add(idx, items)
			idx.Build(sp.T, sp.W)
		})
		sp.RandSeed = seed
		e.save(idx, path)
		_, got := e.forest(path, m, sp.T)
		same := 0
		for i, x := range canonicalForest(got) {
			if x == a[i] {
				same++
			}
		}
		if same == len(a) {
			violate("same-forest", "seeds %d and %d give the same %d trees", seed, seed^0x5bd1e995, same)
		}
		must("Close", func() { idx.Close() })
		probe("other-seed", 1)
	}
}

// B03

func genB03(r *rt.Prng, sp *Spec) {
	switch r.Intn(6) {
	case 0:
		sp.N = r.Intn(3)
	case 1:
		sp.N = 1 + r.Intn(12)
	}
	if r.Chance(0.25) {
		sp.T = -1
		if sp.N > 50 {
			sp.N = 1 + r.Intn(50)
		}
	}
	sp.W = pick(r, -1, 0, 1, 2, 3, 4, 5, 8, 16)
	if r.Chance(0.3) {
		sp.Data = pick(r, "same", "zeros", "dups", "onehot", "ints")
	}
	if r.Chance(0.12) {
		sp.Data = "wild"
		sp.Verbose = false
	}
}

// wild checks an index of vectors without a meaningful distance: the trees are
// complete and searches find all items.
func (e *env[TV, TIX]) wild(idx interfaces.AnnoyIndex[TV, TIX], m *model, r *rt.Prng) {
	probe("wild", 1)
	must("search", func() {
		ctx := idx.CreateContext()
		for i := 0; i < 4; i++ {
			q := query{k: len(m.ids) + 3, b: 1 << 30}
			if i%2 == 0 {
				q.vec = vectors(pick(r, "gauss", "wild"), 1, e.sp.F, r, e.sp.Types&1 == 0)[0]
			} else {
				q.byItem, q.id = true, m.ids[r.Intn(len(m.ids))]
			}
			if i > 1 {
				q.k = 1 + r.Intn(len(m.ids))
			}
			a := e.ask(idx, ctx, q)
			seen := map[uint64]bool{}
			for _, id := range a.ids {
				if m.vecs[id] == nil || seen[id] {
					violate("search", "query %v: item %d does not exist or is found twice", q, id)
				}
				seen[id] = true
			}
			if len(seen) < q.k && len(seen) < len(m.ids) {
				violate("search", "query %v: %d of %d items", q, len(seen), len(m.ids))
			}
		}
	})
	e.save(idx, path)
	data, _ := simos.Disk.Content(path)
	if _, _, err := parseForest(data, e.l, m, e.sp.T); err != nil {
		violate("forest", "%v", err)
	}
}

func (e *env[TV, TIX]) runB03() {
	sp := e.sp
	items := sp.items()
	m := modelOf(sp.F, items)
	rt.SetMaxSteps(sp.maxSteps())
	var ref uint64
	build := func(noisy bool) uint64 {
		var idx interfaces.AnnoyIndex[TV, TIX]
		must("AddItem", func() {
			idx = e.open(e.opts())
			e.add(idx, items)
		})
		if noisy {
			e.noisy()
			// The schedule may change the number of trees only when that is chosen automatically
			rt.SetMaxSteps(2_000_000 + 50*ref)
		}
		s := rt.Steps()
		must("Build", func() { idx.Build(sp.T, sp.W) })
		s = rt.Steps() - s
		e.quiet()
		rt.SetMaxSteps(sp.maxSteps())
		if sp.Data == "wild" {
			if sp.N > 0 {
				e.wild(idx, m, rt.NewPrng(sp.DataSeed, 9))
			}
		} else if sp.N > 0 {
			e.exhaustive(idx, m, rt.NewPrng(sp.DataSeed, 9), 1, "search on the built index")
		}
		must("Close", func() { idx.Close() })
		return s
	}
	e.quiet()
	ref = build(false)
	got := build(true)
	probe("steps-ratio-x100", int(100*got/(ref+1)))
}

// B04

func genB04(r *rt.Prng, sp *Spec) {
	sp.Mode = pick(r, "build", "build", "build", "search", "twins", "build+search")
	sp.Alloc = "gc" // memory of the Go heap is observed by the race detector
	sp.Mem = "gc"
	if r.Chance(0.15) {
		sp.Mem = "mmap"
	}
	sp.Multi = true
	sp.W = 2 + r.Intn(5)
	if sp.T < 3 {
		sp.T = 3 + r.Intn(5)
	}
	if sp.N > 350 || sp.F > 24 {
		sp.N = 5 + r.Intn(80)
	}
	sp.atMost(r, 5, 84)
	if r.Chance(0.1) {
		sp.T = -1
		sp.N = 1 + r.Intn(30)
	}
	if sp.Dot && sp.Data == "scaled" { // degenerate splits take long
		sp.Data = "gauss"
	}
	sp.Clients = 2 + r.Intn(3)
	sp.Queries = 1 + r.Intn(3)
	if sp.Mode == "twins" && r.Chance(0.8) {
		sp.X = 1 + r.Intn(127)
	}
}

func (e *env[TV, TIX]) runB04() {
	sp := e.sp
	items := sp.items()
	m := modelOf(sp.F, items)
	before := rt.RaceErrors()
	check := func(what string) {
		if n := rt.RaceErrors() - before; n > 0 {
			violate("data-race", "%d data races while %s", n, what)
		}
	}
	search := func(idx interfaces.AnnoyIndex[TV, TIX]) {
		r := rt.NewPrng(sp.DataSeed, 5)
		var qs [][]query
		for c := 0; c < sp.Clients; c++ {
			qs = append(qs, e.queries(m, r, sp.Queries))
		}
		e.noisy()
		e.clients(sp.Clients, func(c int) {
			ctx := idx.CreateContext()
			for _, q := range qs[c] {
				e.ask(idx, ctx, q)
				if len(m.ids) > 1 {
					idx.GetItem(TIX(m.ids[c%len(m.ids)]))
					idx.GetDistance(TIX(m.ids[0]), TIX(m.ids[1]))
				}
			}
		})
		e.quiet()
		check("searching")
	}
	switch sp.Mode {
	case "twins":
		var l []interfaces.AnnoyIndex[TV, TIX]
		if sp.X > 0 {
			l = e.siblings(2, sp.X&32 != 0 && !sp.Dot)
		} else {
			l = []interfaces.AnnoyIndex[TV, TIX]{e.open(e.opts()), e.open(e.opts())}
		}
		e.noisy()
		e.clients(2, func(c int) {
			idx := l[c]
			e.add(idx, items)
			idx.Build(sp.T, sp.W)
			ctx := idx.CreateContext()
			e.ask(idx, ctx, query{vec: m.vecs[m.ids[0]], k: 3, b: -1})
			p := fmt.Sprintf("%s/t%d", simos.Dir, c)
			if err := idx.Save(p); err != nil {
				violate("save-error", "Save: %v", err)
			}
			ctx = idx.CreateContext()
			e.ask(idx, ctx, query{vec: m.vecs[m.ids[0]], k: 3, b: -1})
			if sp.X&64 != 0 {
				e.load(idx, p)
			}
			idx.Close()
		})
		e.quiet()
		check("using two independent indexes")
	case "search":
		idx := e.built(e.opts(), items, sp.T, sp.W)
		check("building")
		e.save(idx, path)
		search(idx)
		must("Close", func() { idx.Close() })
	default:
		idx := e.built(e.opts(), items, sp.T, sp.W)
		check("building")
		if sp.Mode == "build+search" {
			search(idx)
		}
		must("Close", func() { idx.Close() })
	}
	if !rt.RaceBuild {
		violate("harness", "not a race build")
	}
	runtime.KeepAlive(items)
}

// clients runs f in n concurrent threads and waits for them.
func (e *env[TV, TIX]) clients(n int, f func(c int)) {
	left := n
	for c := 0; c < n; c++ {
		c := c
		rt.Go(func() {
			must(fmt.Sprintf("client %d", c), func() { f(c) })
			rt.RaceReleaseMerge(ptr(&joinHB))
			finished(&left)
		})
	}
	join(&left)
	rt.RaceAcquire(ptr(&joinHB))
}

var joinHB uint64

//go:norace
func finished(n *int) {
	*n--
	rt.Wake(ptr(n))
}

//go:norace
func join(n *int) {
	for *n > 0 {
		rt.Block(ptr(n), "clients")
	}
}
