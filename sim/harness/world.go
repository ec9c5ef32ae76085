package main

import (
	"fmt"
	"math"
	"os"
	"strings"
	"unsafe"

	"verifrt"
	"verifrt/simos"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
	sorting "github.com/mariotoffia/goannoy/sort"
)

// hostile is a build allocator that moves the memory at each reallocation and
// makes the old memory, as well as what follows the memory, inaccessible.
type hostile struct {
	region []byte
	off    int
	size   int
}

var hostileMoves int

func (h *hostile) Reallocate(n int) unsafe.Pointer {
	rt.SyncPoint()
	if n < h.size {
		n = h.size
	}
	reg := simos.HostileRegion(n)
	off := (len(reg) - 4096 - n) &^ 3
	copy(reg[off:off+h.size], h.data())
	h.drop()
	h.region, h.off, h.size = reg, off, n
	hostileMoves++
	rt.SyncPoint()
	return unsafe.Pointer(&reg[off])
}

func (h *hostile) data() []byte {
	if h.region == nil {
		return nil
	}
	return h.region[h.off : h.off+h.size]
}

func (h *hostile) drop() {
	if h.region != nil {
		simos.Poison(h.region)
		h.region = nil
	}
}

func (h *hostile) Free() {
	h.drop()
	h.size = 0
}

// huge reserves address space once, memory never moves.
type huge struct {
	region []byte
	max    int
}

func (h *huge) Reallocate(n int) unsafe.Pointer {
	if n > hugeSize {
		panic("harness: huge allocator exhausted")
	}
	if n > h.max {
		h.max = n
	}
	if h.region == nil {
		h.region = simos.HostileRegion(hugeSize)
		simos.Keep(h.region)
	}
	return unsafe.Pointer(&h.region[0])
}

func (h *huge) Free() { h.region = nil }

const hugeSize = 24 << 30

type env[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	sp *Spec
	l  layout

	mems  map[string]interfaces.IndexAllocator
	drawn int          // numbers that were drawn from a generator before an index gets it
	vecs  map[any][]TV // the vector of the last query with a context
}

type annoy[TV interfaces.VectorType, TIX interfaces.IndexTypes] interface {
	interfaces.AnnoyIndex[TV, TIX]
}

type opts struct {
	mem    string
	alloc  string
	multi  bool
	hint   int
	shared interfaces.IndexAllocator
	parts  any // *parts, nil: the index has its own
	build  *hostile
}

func (e *env[TV, TIX]) opts() opts {
	return opts{mem: e.sp.Mem, alloc: e.sp.Alloc, multi: e.sp.Multi, hint: e.sp.Hint}
}

func (e *env[TV, TIX]) rnd() (r interfaces.Random[TIX]) {
	var t TIX
	if _, ok := any(t).(uint32); ok {
		r = any(random.NewKiss32Random(uint32(e.sp.RandSeed))).(interfaces.Random[TIX])
	} else {
		r = any(random.NewKiss64Random(e.sp.RandSeed)).(interfaces.Random[TIX])
	}
	for i := 0; i < e.drawn; i++ {
		r.Next()
	}
	return
}

// open creates an index as an application does.
func (e *env[TV, TIX]) open(o opts) interfaces.AnnoyIndex[TV, TIX] {
	if e.sp.Share && o.shared == nil && o.parts == nil && (e.sp.Custom == nil || !e.sp.Custom.Guard) {
		if e.mems == nil {
			e.mems = map[string]interfaces.IndexAllocator{}
		}
		if e.mems[o.mem] == nil {
			e.mems[o.mem] = allocator(o.mem)
		}
		o.shared = e.mems[o.mem]
	}
	if o.alloc == "gc" && o.shared == nil && o.parts == nil && !e.sp.Dot && e.sp.Custom.built() {
		return e.builder(o).Build()
	}
	if o.parts == nil {
		o.parts = e.newParts(o)
	}
	var alloc interfaces.BuildIndexAllocator
	switch o.alloc {
	case "hostile":
		if o.build == nil {
			o.build = &hostile{}
		}
		alloc = o.build
	case "huge":
		alloc = &huge{}
	default:
		alloc = memory.GoGCIndexAllocator()
	}
	p := o.parts.(*parts[TV, TIX])
	return index.New[TV, TIX](p.rnd, p.dist, p.pol, alloc, p.mem, p.sorter, e.sp.Verbose, TIX(o.hint))
}

// builder is how an application creates an index.
func (e *env[TV, TIX]) builder(o opts) *builder.AnnoyIndexBuilderImpl[TV, TIX] {
	b := builder.Index[TV, TIX]().AngularDistance(e.sp.F).IndexNumHint(o.hint)
	if o.multi {
		b = b.UseMultiWorkerPolicy()
	} else {
		b = b.SingleWorkerPolicy()
	}
	if o.mem == "gc" {
		b = b.GCMemoryIndexAllocator()
	} else if e.sp.Seed&1 == 0 { // it is the default, too
		b = b.MmapIndexAllocator()
	}
	if c := e.sp.Custom; c != nil && c.Rnd {
		b = b.Random(newUserRandom(TIX(e.sp.RandSeed)))
	} else if e.sp.Kiss {
		b = b.Random(e.rnd())
	}
	if e.sp.Verbose {
		b = b.VerboseLogging()
	}
	if c := e.sp.Custom; c != nil && c.Sorter {
		b = b.UseSorter(userSorter[TV, TIX]{})
	} else if e.sp.Sorter > 0 {
		b = b.UseSorter(e.sorter())
	}
	return b
}

// parts of an index that several indexes may have in common.
type parts[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	rnd    interfaces.Random[TIX]
	dist   interfaces.Distance[TV, TIX]
	pol    interfaces.AnnoyIndexBuildPolicy
	mem    interfaces.IndexAllocator
	sorter interfaces.Sorter[TV, TIX]
}

func (e *env[TV, TIX]) newParts(o opts) *parts[TV, TIX] {
	var pol interfaces.AnnoyIndexBuildPolicy = policy.SingleWorker()
	if o.multi {
		pol = policy.MultiWorker()
	}
	ma := o.shared
	if ma == nil {
		ma = allocator(o.mem)
		if e.sp.Custom != nil && e.sp.Custom.Guard {
			g := &guarded{}
			guards = append(guards, g)
			ma = g
		}
	}
	var rnd interfaces.Random[TIX]
	if e.sp.Kiss {
		rnd = e.rnd()
	} else {
		var t TIX
		if _, ok := any(t).(uint32); ok {
			rnd = any(random.NewKiss32Random(uint32(0))).(interfaces.Random[TIX])
		} else {
			rnd = any(random.NewKiss64Random(uint64(0))).(interfaces.Random[TIX])
		}
	}
	var dist interfaces.Distance[TV, TIX] = angular.Distance[TV, TIX](TIX(e.sp.F))
	if e.sp.Dot {
		dist = dotproduct.Distance[TV, TIX](TIX(e.sp.F))
	}
	sorter := e.sorter()
	if c := e.sp.Custom; c != nil {
		if c.Metric != "" {
			dist = e.newMetric()
		}
		if c.Policy != "" {
			pol = &userPolicy{c.Policy}
		}
		if c.Rnd {
			rnd = newUserRandom(TIX(e.sp.RandSeed))
		}
		if c.Sorter {
			sorter = userSorter[TV, TIX]{}
		}
	}
	return &parts[TV, TIX]{rnd, dist, pol, ma, sorter}
}

// sorter is a combination of the sorters of the library.
func (e *env[TV, TIX]) sorter() interfaces.Sorter[TV, TIX] {
	if e.sp.Sorter == 0 {
		return nil
	}
	x := e.sp.Sorter - 1
	s := &interfaces.SorterFunctions[TV, TIX]{
		SortSliceFunc:        []func([]TIX){sorting.SortSlice[TIX], sorting.SortSlice2[TIX], sorting.SortSlice3[TIX]}[x%3],
		PartialSortSliceFunc: sorting.PartialSortSlice[TV, TIX],
		SortPairsFunc:        sorting.SortPairs[TV, TIX],
	}
	if x/3%2 == 1 {
		s.PartialSortSliceFunc = sorting.PartialSortSlice2[TV, TIX]
	}
	if x/6%2 == 1 {
		s.SortPairsFunc = func(p []*interfaces.Pair[TV, TIX]) { sorting.SortPairs2[TV, TIX](p) }
	}
	return s
}

func allocator(mem string) interfaces.IndexAllocator {
	if mem == "gc" {
		return memory.FileIndexMemoryAllocator()
	}
	return memory.MmapIndexAllocator()
}

func conv[TV interfaces.VectorType](v []float64) []TV {
	r := make([]TV, len(v))
	for i := range v {
		r[i] = TV(v[i])
	}
	return r
}

func (e *env[TV, TIX]) add(idx interfaces.AnnoyIndex[TV, TIX], items []item) {
	for _, it := range items {
		idx.AddItem(TIX(it.id), conv[TV](it.vec))
	}
}

// answer is the result of a query.
type answer struct {
	ids   []uint64
	dists []float64
}

func (a answer) equal(b answer) bool {
	if len(a.ids) != len(b.ids) || len(a.dists) != len(b.dists) {
		return false
	}
	for i := range a.ids {
		if a.ids[i] != b.ids[i] {
			return false
		}
	}
	for i := range a.dists {
		if math.Float64bits(a.dists[i]) != math.Float64bits(b.dists[i]) {
			return false
		}
	}
	return true
}

func (a answer) String() string {
	if len(a.ids) > 12 {
		return fmt.Sprintf("%v.. %.7v.. (%d)", a.ids[:12], a.dists[:12], len(a.ids))
	}
	return fmt.Sprintf("%v %.7v", a.ids, a.dists)
}

func toAnswer[TV interfaces.VectorType, TIX interfaces.IndexTypes](ids []TIX, d []TV) answer {
	if len(ids) > 1 && !rt.RaceBuild {
		asked++
	}
	a := answer{make([]uint64, len(ids)), make([]float64, len(d))}
	for i := range ids {
		a.ids[i] = uint64(ids[i])
	}
	for i := range d {
		a.dists[i] = float64(d[i])
	}
	return a
}

type query struct {
	byItem bool
	id     uint64
	vec    []float64
	k, b   int
}

func (q query) String() string {
	if q.byItem {
		return fmt.Sprintf("item %d k=%d budget=%d", q.id, q.k, q.b)
	}
	v := q.vec
	if len(v) > 8 {
		v = v[:8]
	}
	return fmt.Sprintf("vector %.5v k=%d budget=%d", v, q.k, q.b)
}

func (e *env[TV, TIX]) ask(idx interfaces.AnnoyIndex[TV, TIX], ctx interfaces.AnnoyIndexContext[TV, TIX], q query) answer {
	if q.byItem {
		return toAnswer(idx.GetNnsByItem(TIX(q.id), q.k, q.b, ctx))
	}
	return toAnswer(idx.GetNnsByVector(e.queryVector(ctx, q.vec), q.k, q.b, ctx))
}

// queryVector converts v, in half of the runs in the same memory for each query with ctx.
func (e *env[TV, TIX]) queryVector(ctx any, v []float64) []TV {
	x := conv[TV](v)
	if rt.RaceBuild || e.sp.Seed&4 == 0 {
		return x
	}
	if b := e.vecs[ctx]; len(b) == len(x) {
		copy(b, x)
		return b
	}
	if e.vecs == nil {
		e.vecs = map[any][]TV{}
	}
	e.vecs[ctx] = x
	return x
}

// exact compares an exhaustive answer with the model.
func (e *env[TV, TIX]) exact(m *model, q query, a answer) string {
	v := q.vec
	if q.byItem {
		v = m.vecs[q.id]
	}
	want := q.k
	if want > len(m.ids) {
		want = len(m.ids)
	}
	if len(a.ids) != want || len(a.dists) != want {
		return fmt.Sprintf("%d ids and %d distances instead of %d", len(a.ids), len(a.dists), want)
	}
	all := make([]float64, 0, len(m.ids))
	most := 0.0
	for _, id := range m.ids {
		all = append(all, e.sp.key(v, m.vecs[id]))
		most = math.Max(most, e.sp.tol(v, m.vecs[id]))
	}
	sortFloats(all)
	seen := map[uint64]bool{}
	for i, id := range a.ids {
		w, ok := m.vecs[id]
		if !ok {
			return fmt.Sprintf("result %d: item %d does not exist", i, id)
		}
		if seen[id] {
			return fmt.Sprintf("result %d: item %d twice", i, id)
		}
		seen[id] = true
		d := a.dists[i]
		if i > 0 && !e.sp.ordered(a.dists[i-1], d) {
			return fmt.Sprintf("result %d: distance %v after %v", i, d, a.dists[i-1])
		}
		ex := e.sp.key(v, w)
		if !(math.Abs(e.sp.keyOf(d)-ex) <= e.sp.tol(v, w)) {
			return fmt.Sprintf("result %d: item %d at distance %v instead of %v", i, id, d, e.sp.shown(ex))
		}
		if ex > all[i]+2*most {
			return fmt.Sprintf("result %d: item %d at distance %v but there is an item at %v that is missing", i, id, e.sp.shown(ex), e.sp.shown(all[i]))
		}
	}
	return ""
}

// items compares all items with the model.
func (e *env[TV, TIX]) sameItems(idx interfaces.AnnoyIndex[TV, TIX], m *model) string {
	for _, id := range m.ids {
		if s := sameVec(idx.GetItem(TIX(id)), m.vecs[id]); s != "" {
			return fmt.Sprintf("item %d: %s", id, s)
		}
	}
	return ""
}

func sameVec[TV interfaces.VectorType](got []TV, want []float64) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d elements instead of %d", len(got), len(want))
	}
	for j := range got {
		if float64(got[j]) != want[j] {
			return fmt.Sprintf("element %d is %v instead of %v", j, got[j], want[j])
		}
	}
	return ""
}

// try runs f and returns what it panicked with. A crash of the simulated
// process is passed on.
func try(f func()) (p any) {
	defer func() {
		if p = recover(); p != nil {
			if _, ok := p.(simos.Crash); ok {
				panic(p)
			}
		}
	}()
	f()
	return nil
}

// crashes runs f and tells whether the simulated process crashed meanwhile.
func crashes(f func()) (crashed bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(simos.Crash); !ok {
				panic(p)
			}
			crashed = true
		}
	}()
	f()
	return false
}

// must is try for what may not panic.
func must(what string, f func()) {
	if p := try(f); p != nil {
		violate("panic", "%s: panic: %s", what, panicText(p))
	}
}

func panicText(p any) string {
	s := fmt.Sprint(p)
	if a, ok := p.(interface{ Addr() uintptr }); ok {
		_ = a
		// addresses differ from run to run
		s = "access to memory that was released or is out of bounds"
	}
	if i := strings.Index(s, "0x"); i >= 0 {
		s = s[:i]
	}
	return s
}

var devnull *os.File

func sortFloats(x []float64) {
	// insertion sort is fine for the small ones, shell sort for the others
	for gap := len(x) / 2; gap > 0; gap /= 2 {
		for i := gap; i < len(x); i++ {
			v := x[i]
			j := i
			for ; j >= gap && x[j-gap] > v; j -= gap {
				x[j] = x[j-gap]
			}
			x[j] = v
		}
	}
}
