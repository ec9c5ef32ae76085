package main

import (
	"fmt"
	"unsafe"

	"verifrt"
	"verifrt/simos"

	"github.com/mariotoffia/goannoy/interfaces"
)

// Histories of operations on several index objects and files (L01, P04).

// The second is a name that Save might like for a temporary file of the first.
var histFiles = []string{simos.Dir + "/a.ann", simos.Dir + "/a.ann.tmp", simos.Dir + "/c.ann"}

func genHistory(r *rt.Prng, sp *Spec, faults bool) {
	n := 4 + r.Intn(14)
	objs := 1 + r.Intn(3)
	if faults && objs == 1 {
		objs = 2
	}
	sp.Clients = objs
	sp.X = r.Intn(4) // shared allocators
	names := []string{"add", "add", "add", "build", "build", "save", "save", "load", "load", "close", "search", "search",
		"item", "addnew", "badadd", "badsearch", "badid", "loadbad"}
	for i := 0; i < n; i++ {
		op := Op{Op: names[r.Intn(len(names))], A: r.Intn(objs), B: r.Intn(1 << 20), C: r.Intn(len(histFiles))}
		// Make useful sequences likely
		if i < 3*objs && r.Chance(0.7) {
			op.Op = []string{"add", "build", "save"}[i%3]
			op.A = i / 3
		}
		if faults && r.Chance(0.3) && (op.Op == "save" || op.Op == "load" || op.Op == "close") {
			op.F = genFaults(r, "error", "error", "short", "eof")
		}
		sp.Ops = append(sp.Ops, op)
	}
	sp.N = 0
	sp.T = 1 + r.Intn(3)
	if sp.W < 0 || sp.W > 3 {
		sp.W = 1 + r.Intn(3)
	}
	sp.Verbose = false
	sp.IDs = "dense"
}

func genL01(r *rt.Prng, sp *Spec) { genHistory(r, sp, false) }
func genP04(r *rt.Prng, sp *Spec) { genHistory(r, sp, true) }

type object[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	idx    interfaces.AnnoyIndex[TV, TIX]
	m      *model
	built  bool
	bare   bool // built without any tree
	loaded bool
	mem    string
	build  *hostile
}

func (o *object[TV, TIX]) state() string {
	switch {
	case o.loaded:
		return "loaded"
	case o.bare:
		return "built without trees"
	case o.built:
		return "built"
	}
	return "collecting"
}

func (e *env[TV, TIX]) runHistory() {
	sp := e.sp
	r := rt.NewPrng(sp.DataSeed, 5)
	var objs []*object[TV, TIX]
	files := map[string]*model{}
	var shared interfaces.IndexAllocator
	for i := 0; i < sp.Clients; i++ {
		o := e.opts()
		o.mem = pick(r, "mmap", "gc")
		o.hint = 0
		o.alloc = pick(r, "gc", "hostile")
		if sp.X&1 != 0 {
			if shared == nil {
				shared = allocator(sp.Mem)
			}
			o.shared, o.mem = shared, sp.Mem
		}
		if o.alloc == "hostile" {
			o.build = &hostile{}
		}
		objs = append(objs, &object[TV, TIX]{idx: e.open(o), m: newModel(sp.F), mem: o.mem, build: o.build})
	}
	e.noisy()
	for n, op := range sp.Ops {
		if op.A >= len(objs) {
			continue
		}
		ob := objs[op.A]
		what := fmt.Sprintf("operation %d: %v on an index that is %s", n, op, ob.state())
		e.step(what, ob, op, files, r)
		// All objects are as the model says
		for i, x := range objs {
			w := fmt.Sprintf("%s; index %d (%s)", what, i, x.state())
			if x.built && !x.bare {
				if s := e.matches(x.idx, x.m, r); s != "" {
					violate("state", "%s: %s", w, s)
				}
			} else {
				if s := e.empty(x.idx); s != "" {
					violate("state", "%s: no trees but %s", w, s)
				}
				must(w, func() {
					if s := e.sameItems(x.idx, x.m); s != "" {
						violate("state", "%s: %s", w, s)
					}
				})
			}
		}
		// Memory to build with is not held by loaded and by closed indexes
		switch op.Op {
		case "load", "loadbad", "close", "save":
			if ob.build != nil && (ob.loaded || !ob.built && op.Op != "save") {
				if ob.build.region != nil {
					violate("leak", "%s: now it is %s and holds memory to build with", what, ob.state())
				}
				probe("build-memory-released", 1)
			}
		}
		// Files and mappings are held by loaded indexes only
		held := 0
		for _, x := range objs {
			if x.loaded && x.mem == "mmap" {
				held++
			}
		}
		if n := simos.Disk.OpenFDs(); n > held {
			violate("leak", "%s: %d open files (%s) but %d mapped indexes", what, n, simos.Disk.OpenNames(), held)
		}
		if n := simos.Disk.LiveMaps() - simos.Disk.FailedRelease; n > held {
			violate("leak", "%s: %d mappings but %d mapped indexes", what, n, held)
		}
		for _, f := range simos.Disk.Files() {
			if files[f] == nil && !tainted[f] {
				violate("temporary", "%s: left behind: %s", what, f)
			}
		}
	}
	e.quiet()
	for _, o := range objs {
		for i := 0; i < 2; i++ {
			must("Close", func() {
				if err := o.idx.Close(); err != nil {
					violate("close", "Close: %v", err)
				}
			})
		}
	}
	e.released("after all indexes were closed")
}

// tainted files could not be removed because of a fault.
var tainted = map[string]bool{}

func (e *env[TV, TIX]) step(what string, ob *object[TV, TIX], op Op, files map[string]*model, r *rt.Prng) {
	sp := e.sp
	file := histFiles[op.C%len(histFiles)]
	before := firedNow()
	window := 0
	arm := func() {
		window = 8
		if op.Op == "close" {
			window = 2
		}
		if op.Op == "load" {
			window = 5
		}
		if len(op.F) > 0 {
			e.arm(op.F, window)
		}
	}
	disarm := func() bool {
		simos.Disk.Disarm()
		any, ops := fired(before)
		if ops["remove"] > 0 {
			for _, f := range simos.Disk.Files() {
				if files[f] == nil {
					tainted[f] = true
				}
			}
		}
		return any
	}
	refuses := func(f func()) {
		p := try(f)
		if p == nil {
			violate("not-refused", "%s: must be refused", what)
		}
		if _, ok := p.(interface{ Addr() uintptr }); ok {
			violate("not-refused", "%s: must be refused but makes the process crash: %s", what, panicText(p))
		}
		probe("refused", 1)
	}
	opr := rt.NewPrng(uint64(op.B), 3)
	newVec := func(n int) []float64 { return vectors(sp.Data, 1, n, opr, sp.Types&1 == 0)[0] }
	switch op.Op {
	case "add":
		cnt := 1 + op.B%9
		if ob.built {
			cnt = 1
		}
		for i := 0; i < cnt; i++ {
			id := ob.m.nitem + uint64(opr.Intn(2))*uint64(opr.Intn(3))
			if opr.Chance(0.2) && len(ob.m.ids) > 0 {
				id = ob.m.ids[opr.Intn(len(ob.m.ids))]
			}
			v := newVec(sp.F)
			switch {
			case ob.loaded:
				refuses(func() { ob.idx.AddItem(TIX(id), conv[TV](v)) })
			case ob.built:
				if _, ok := ob.m.vecs[id]; ok || id < ob.m.nitem {
					continue // changes an item of the trees: not specified
				}
				refuses(func() { ob.idx.AddItem(TIX(id), conv[TV](v)) })
			default:
				must(what, func() { ob.idx.AddItem(TIX(id), conv[TV](v)) })
				ob.m.add(id, v)
			}
		}
	case "addnew":
		id := ob.m.nitem
		if ob.built {
			refuses(func() { ob.idx.AddItem(TIX(id), conv[TV](newVec(sp.F))) })
		}
	case "badadd":
		n := sp.F + 1 + op.B%3
		if op.B&64 != 0 && sp.F > 0 {
			n = sp.F - 1
		}
		id := ob.m.nitem
		if len(ob.m.ids) > 0 && op.B&128 != 0 {
			id = ob.m.ids[0]
		}
		refuses(func() { ob.idx.AddItem(TIX(id), make([]TV, n)) })
	case "badid":
		id := ob.m.nitem
		switch opr.Intn(3) {
		case 0:
			id += uint64(opr.Intn(5))
		case 1:
			id = 1<<32 - 1
		}
		if id < ob.m.nitem {
			return
		}
		switch op.B % 5 {
		case 4:
			// There is no memory up to there
			id = []uint64{1<<64 - 1, 1<<64 - 2, 1 << 63, 1<<58 + uint64(op.B)}[op.C%4]
			if unsafe.Sizeof(TIX(0)) == 4 {
				id = 1<<32 - 1
			}
			refuses(func() { ob.idx.AddItem(TIX(id), make([]TV, sp.F)) })
		case 0:
			refuses(func() { ob.idx.GetItem(TIX(id)) })
		case 1:
			refuses(func() { ob.idx.GetNnsByItem(TIX(id), 3, -1, ob.idx.CreateContext()) })
		default:
			if ob.m.nitem == 0 {
				return
			}
			a, b := uint64(0), id
			if op.B&4 != 0 {
				a, b = b, a
			}
			refuses(func() { ob.idx.GetDistance(TIX(a), TIX(b)) })
		}
	case "badsearch":
		n := sp.F + 1 + op.B%3
		if op.B&64 != 0 {
			n = sp.F - 1
		}
		refuses(func() { ob.idx.GetNnsByVector(make([]TV, n), 3, -1, ob.idx.CreateContext()) })
	case "build":
		if ob.built {
			refuses(func() { ob.idx.Build(sp.T, sp.W) })
			return
		}
		t := sp.T
		switch op.B % 16 {
		case 0:
			t = -1
		case 1:
			t = 0
		case 2: // may be refused
			if p := try(func() { ob.idx.Build(t, -2-op.B>>4%3) }); p != nil {
				probe("refused", 1)
				return
			}
			ob.built = true
			return
		}
		must(what, func() { ob.idx.Build(t, sp.W) })
		ob.built, ob.bare = true, t == 0 || t == -1 && ob.m.nitem == 0
	case "save":
		var err error
		if !ob.built || ob.bare {
			must(what, func() { err = ob.idx.Save(file) })
			if err == nil {
				violate("not-refused", "%s: must fail", what)
			}
			probe("refused", 1)
			return
		}
		arm()
		if p := try(func() { err = ob.idx.Save(file) }); p != nil {
			violate("panic", "%s: panic with faults %s: %s", what, fs(before), panicText(p))
		}
		any := disarm()
		if err == nil {
			files[file] = ob.m.clone()
			ob.loaded = true
			return
		}
		if !any {
			violate("save-error", "%s: %v", what, err)
		}
		// Which one is in the file?
		data := e.inFile(file)
		isNew := data != nil && e.matches(data, ob.m, r) == ""
		if isNew {
			files[file] = ob.m.clone()
		} else if files[file] != nil && (data == nil || e.matches(data, files[file], r) != "") {
			violate("lost", "%s: failed (%v) and destroyed the old file", what, err)
		} else if files[file] == nil && data != nil {
			violate("mixture", "%s: failed (%v) but left a file", what, err)
		}
		if data != nil {
			must(what, func() { data.Close() })
		}
		if len(ob.m.ids) > 0 && e.empty(ob.idx) == "" || len(ob.m.ids) == 0 && isNew {
			if !isNew {
				violate("lost", "%s: failed (%v) and lost the index", what, err)
			}
			must(what, func() { ob.idx.Close() }) // for the case of an empty index
			ob.m, ob.built, ob.loaded = newModel(sp.F), false, false
			ob.bare = false
		}
		probe("failed-save", 1)
	case "load":
		var err error
		arm()
		if p := try(func() { err = ob.idx.Load(file) }); p != nil {
			violate("panic", "%s: panic with faults %s: %s", what, fs(before), panicText(p))
		}
		any := disarm()
		if err == nil {
			if files[file] == nil {
				violate("false-success", "%s: there is no such file", what)
			}
			ob.m, ob.built, ob.loaded = files[file].clone(), true, true
			ob.bare = false
			return
		}
		if files[file] != nil && !any {
			violate("load-error", "%s: %v", what, err)
		}
		ob.m, ob.built, ob.loaded = newModel(sp.F), false, false
		ob.bare = false
		probe("failed-load", 1)
	case "loadbad":
		p := simos.Dir + "/missing.ann"
		if op.B&1 == 1 && e.l.size > 1 {
			p = simos.Dir + "/bad.ann"
			simos.Disk.Put(p, make([]byte, (1+op.B%3)*e.l.size-1))
			files[p] = newModel(sp.F)
		}
		must(what, func() {
			if err := ob.idx.Load(p); err == nil {
				violate("false-success", "%s: must fail", what)
			}
		})
		ob.m, ob.built, ob.loaded = newModel(sp.F), false, false
		ob.bare = false
		probe("refused", 1)
	case "close":
		var err error
		arm()
		if p := try(func() { err = ob.idx.Close() }); p != nil {
			violate("panic", "%s: panic with faults %s: %s", what, fs(before), panicText(p))
		}
		any := disarm()
		if err != nil && !any {
			violate("close", "%s: %v", what, err)
		}
		if _, ops := fired(before); err == nil && ops["close"]+ops["munmap"] > 0 {
			violate("not-reported", "%s: successful with faults %s", what, fs(before))
		}
		ob.m, ob.built, ob.loaded = newModel(sp.F), false, false
		ob.bare = false
	case "search":
		must(what, func() {
			ctx := ob.idx.CreateContext()
			k := 1 + op.B%7
			v := newVec(sp.F)
			a := e.ask(ob.idx, ctx, query{vec: v, k: k, b: -1})
			want := k
			if n := len(ob.m.ids); want > n {
				want = n
			}
			if !ob.built || ob.bare {
				want = 0
			}
			if len(a.ids) != want || len(a.dists) != want {
				violate("search", "%s: %d results instead of %d", what, len(a.ids), want)
			}
		})
	case "item":
		// checked after each operation
	}
}

// inFile loads a file into an index of its own (nil: there is none).
func (e *env[TV, TIX]) inFile(file string) interfaces.AnnoyIndex[TV, TIX] {
	if _, ok := simos.Disk.Content(file); !ok {
		return nil
	}
	idx := e.open(opts{mem: "gc", alloc: "gc"})
	e.load(idx, file)
	return idx
}

// A01

func genA01(r *rt.Prng, sp *Spec) {
	sp.Mode = pick(r, "grow", "grow", "grow", "grow", "grow", "huge")
	if sp.Mode == "huge" {
		sp.F = 200 + r.Intn(1200)
		sp.N = 2 + r.Intn(6)
		sp.X = r.Intn(40)
		sp.Alloc = "huge"
		sp.Data = "gauss"
		sp.T, sp.W = 1, 1
		sp.Hint = 0
		sp.Verbose = false
		sp.Sched.HotSites = 0
	}
	sp.atMost(r, 5, 89)
	if r.Chance(0.4) {
		sp.Hint = 1 + r.Intn(3*sp.N)
	}
	if sp.Mode == "huge" {
		sp.Hint = 0
	} else {
		sp.X = r.Intn(8)
	}
}

func (e *env[TV, TIX]) runA01() {
	sp := e.sp
	items := sp.items()
	if sp.Mode == "huge" {
		// Two groups of items more than 4 GiB apart that would be at the same
		// place if offsets were computed with 32 bits
		far := (uint64(4)<<30 + uint64(e.l.size) - 1) / uint64(e.l.size)
		for i := range items {
			items[i].id = uint64(i)
			if i%2 == 1 {
				items[i].id += far + sp.DataSeed%1000
			}
		}
	}
	m := newModel(sp.F)
	e.noisy()
	var idx interfaces.AnnoyIndex[TV, TIX]
	must("New", func() { idx = e.open(e.opts()) })
	check := func(what string) {
		must(what, func() {
			if s := e.sameItems(idx, m); s != "" {
				violate("item", "%s: %s", what, s)
			}
		})
	}
	for i, it := range items {
		what := fmt.Sprintf("AddItem %d (item %d)", i, it.id)
		must(what, func() {
			v := conv[TV](it.vec)
			idx.AddItem(TIX(it.id), v)
			if s := sameVec(v, it.vec); s != "" {
				violate("argument", "%s: the vector that was passed changed: %s", what, s)
			}
		})
		m.add(it.id, it.vec)
		if len(items) < 30 || i%5 == 0 {
			check("after " + what)
		}
	}
	check("after adding all items")
	if sp.Mode == "huge" && (sp.X > 0 || sp.Dot) { // takes long
		must("Close", func() { idx.Close() })
		return
	}
	must("Build", func() { idx.Build(sp.T, sp.W) })
	check("after Build")
	if sp.Mode == "huge" {
		e.exhaustive(idx, m, rt.NewPrng(sp.DataSeed, 9), 1, "search")
		must("Close", func() { idx.Close() })
		return
	}
	e.save(idx, path)
	check("after Save")
	must("Close", func() { idx.Close() })
	if sp.X&4 == 0 {
		o := e.opts()
		o.mem = map[string]string{"mmap": "gc", "gc": "mmap"}[sp.Mem]
		idx = e.open(o)
	}
	e.load(idx, path)
	check("after Load")
	must("Close", func() { idx.Close() })
	// and once more with the same object, with gaps where there were items before
	m = newModel(sp.F)
	r := rt.NewPrng(sp.DataSeed, 11)
	for _, it := range sp.itemsOf(1+sp.N/3, sp.DataSeed+5) {
		if sp.X&1 == 1 && r.Chance(0.5) && len(m.ids) > 0 {
			continue
		}
		must("AddItem", func() { idx.AddItem(TIX(it.id), conv[TV](it.vec)) })
		m.add(it.id, it.vec)
	}
	check("after Close and adding other items")
	if sp.X&2 == 0 {
		must("Build", func() { idx.Build(sp.T, sp.W) })
		check("after Close, adding other items and Build")
		e.exhaustive(idx, m, r, 2, "search in the second life")
	}
	must("Close", func() { idx.Close() })
}
