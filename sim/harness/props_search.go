package main

import (
	"fmt"
	"math"
	"unsafe"

	"verifrt"
	"verifrt/simos"

	"github.com/mariotoffia/goannoy/interfaces"
)

func ptr[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }

// queries draws n queries of all kinds.
func (e *env[TV, TIX]) queries(m *model, r *rt.Prng, n int) []query {
	var l []query
	for i := 0; i < n; i++ {
		q := query{k: 1 + r.Intn(len(m.ids)+3)}
		if r.Chance(0.5) {
			q.k = 1 + r.Intn(5)
		}
		switch r.Intn(5) {
		case 0:
			q.b = 1 + r.Intn(10)
		case 1:
			q.b = 1 << 30
		case 2:
			q.b = 1 + r.Intn(2*len(m.ids)+1)
		default:
			q.b = -1
		}
		switch r.Intn(4) {
		case 0, 1:
			q.byItem, q.id = true, m.ids[r.Intn(len(m.ids))]
		case 2:
			q.vec = append([]float64(nil), m.vecs[m.ids[r.Intn(len(m.ids))]]...)
			if r.Chance(0.5) {
				o := m.vecs[m.ids[r.Intn(len(m.ids))]]
				for j := range q.vec {
					q.vec[j] = float64(float32(0.5*q.vec[j] + 0.25*o[j]))
				}
			}
		default:
			kind := "gauss"
			if r.Chance(0.2) {
				kind = pick(r, "ints", "onehot", "zeros")
			}
			q.vec = vectors(kind, 1, e.sp.F, r, e.sp.Types&1 == 0)[0]
		}
		l = append(l, q)
	}
	return l
}

// S01

func genS01(r *rt.Prng, sp *Spec) {
	sp.Clients = 2 + r.Intn(4)
	sp.Queries = 1 + r.Intn(5)
	sp.Mode = pick(r, "built", "saved", "loaded")
	sp.atMost(r, 5, 119)
	if sp.W < 0 || sp.W > 4 {
		sp.W = 2
	}
	sp.X = r.Intn(8)
}

func (e *env[TV, TIX]) runS01() {
	sp := e.sp
	items := sp.items()
	m := modelOf(sp.F, items)
	r := rt.NewPrng(sp.DataSeed, 5)
	e.quiet()
	var idx interfaces.AnnoyIndex[TV, TIX]
	must("Build", func() {
		idx = e.open(e.opts())
		e.add(idx, items)
		idx.Build(sp.T, sp.W)
	})
	if sp.Mode != "built" {
		e.save(idx, path)
	}
	if sp.Mode == "loaded" {
		must("Close", func() { idx.Close() })
		idx = e.open(e.opts())
		e.load(idx, path)
	}
	type res struct {
		q     query
		vec   []TV
		saved []TV
		want  answer
		ids   []TIX
		dists []TV
		got   answer
	}
	work := make([][]*res, sp.Clients)
	for c := range work {
		for _, q := range e.queries(m, r, sp.Queries) {
			w := &res{q: q}
			if !q.byItem {
				w.vec, w.saved = conv[TV](q.vec), conv[TV](q.vec)
			}
			work[c] = append(work[c], w)
		}
	}
	one := func(ctx interfaces.AnnoyIndexContext[TV, TIX], w *res) ([]TIX, []TV) {
		if w.q.byItem {
			return idx.GetNnsByItem(TIX(w.q.id), w.q.k, w.q.b, ctx)
		}
		return idx.GetNnsByVector(w.vec, w.q.k, w.q.b, ctx)
	}
	// Alone, with a context of its own
	must("search alone", func() {
		for _, l := range work {
			for _, w := range l {
				w.want = toAnswer(one(idx.CreateContext(), w))
			}
		}
	})
	shared := make([]interfaces.AnnoyIndexContext[TV, TIX], sp.Clients)
	for c := range shared {
		if sp.X&1 == 0 {
			shared[c] = idx.CreateContext()
		}
	}
	e.noisy()
	e.clients(sp.Clients, func(c int) {
		ctx := shared[c]
		if ctx == nil {
			ctx = idx.CreateContext()
		}
		buf := make([]TV, sp.F) // some clients use the same memory for all their queries
		for i, w := range work[c] {
			if sp.X&4 != 0 && w.vec != nil {
				copy(buf, w.vec)
				w.vec = buf
			}
			w.ids, w.dists = one(ctx, w)
			for j := range w.saved {
				if w.saved[j] != w.vec[j] {
					violate("query-changed", "client %d: the vector of query %d changed", c, i)
				}
			}
			w.got = toAnswer(w.ids, w.dists)
			if !w.got.equal(w.want) {
				violate("different-answer", "client %d, query %d (%v): %v but alone: %v", c, i, w.q, w.got, w.want)
			}
			if sp.X&2 != 0 {
				id := m.ids[(c*7+i)%len(m.ids)]
				if s := sameVec(idx.GetItem(TIX(id)), m.vecs[id]); s != "" {
					violate("item", "client %d: item %d: %s", c, id, s)
				}
				if d := idx.GetDistance(TIX(id), TIX(id)); !(d >= 0) {
					violate("distance", "client %d: distance %v of item %d to itself", c, d, id)
				}
			}
		}
	})
	e.quiet()
	for c, l := range work {
		for i, w := range l {
			if !toAnswer(w.ids, w.dists).equal(w.got) {
				violate("answer-changed", "client %d: the answer to query %d changed after it was returned", c, i)
			}
			for j := range w.saved {
				if sp.X&4 == 0 && w.saved[j] != w.vec[j] {
					violate("query-changed", "client %d: the vector of query %d changed", c, i)
				}
			}
		}
	}
	must("GetItem", func() {
		if s := e.sameItems(idx, m); s != "" {
			violate("item", "after searching: %s", s)
		}
	})
	must("Close", func() { idx.Close() })
}

// S02

func genS02(r *rt.Prng, sp *Spec) {
	sp.Clients = 1 + r.Intn(3)
	sp.Queries = 1 + r.Intn(4)
	sp.Mode = pick(r, "built", "saved", "loaded")
}

func (e *env[TV, TIX]) runS02() {
	sp := e.sp
	items := sp.items()
	m := modelOf(sp.F, items)
	r := rt.NewPrng(sp.DataSeed, 5)
	idx := e.built(e.opts(), items, sp.T, sp.W)
	if sp.Mode != "built" {
		e.save(idx, path)
	}
	if sp.Mode == "loaded" {
		must("Close", func() { idx.Close() })
		o := e.opts()
		o.mem = pick(r, "mmap", "gc")
		idx = e.open(o)
		e.load(idx, path)
	}
	qs := make([][]query, sp.Clients)
	for c := range qs {
		qs[c] = e.queries(m, r, sp.Queries)
		for i := range qs[c] {
			q := &qs[c][i]
			switch r.Intn(4) {
			case 0:
				q.b = sp.T * len(m.ids)
			case 1:
				q.b = -1
				q.k = len(m.ids) + r.Intn(3)
				if r.Chance(0.2) {
					q.k = math.MaxInt64 >> r.Intn(3)
				}
			case 2:
				q.b = math.MaxInt64
			default:
				q.b = 1<<20 + r.Intn(10)
			}
		}
	}
	e.noisy()
	e.clients(sp.Clients, func(c int) {
		ctx := idx.CreateContext()
		for _, q := range qs[c] {
			a := e.ask(idx, ctx, q)
			if s := e.exact(m, q, a); s != "" {
				violate("search", "client %d: query %v: %s", c, q, s)
			}
			x := q.k & 0xffff
			i, j := m.ids[(c*31+x)%len(m.ids)], m.ids[(c*17+3*x)%len(m.ids)]
			d := float64(idx.GetDistance(TIX(i), TIX(j)))
			if ex := sp.key(m.vecs[i], m.vecs[j]); !(math.Abs(sp.keyOf(d)-ex) <= sp.tol(m.vecs[i], m.vecs[j])) {
				violate("distance", "GetDistance(%d,%d) is %v instead of %v", i, j, d, sp.shown(ex))
			}
		}
	})
	e.quiet()
	must("Close", func() { idx.Close() })
}

// S03

func genS03(r *rt.Prng, sp *Spec) {
	sp.Data = pick(r, "gauss", "gauss", "gauss", "scaled", "cluster", "dups", "zeros", "ints")
	sp.Mode = pick(r, "built", "saved", "loaded")
	sp.Clients = 1 + r.Intn(3)
	sp.Queries = 2 + r.Intn(5)
	if sp.F == 1 {
		sp.F = 2
	}
	if sp.N < 10 && r.Chance(0.7) {
		sp.N += 10 + r.Intn(60)
	}
}

func (e *env[TV, TIX]) runS03() {
	sp := e.sp
	items := sp.items()
	m := modelOf(sp.F, items)
	r := rt.NewPrng(sp.DataSeed, 5)
	idx := e.built(e.opts(), items, sp.T, sp.W)
	mem := []string{"mmap", "gc"}[r.Intn(2)]
	// The structure of the forest is taken from a file
	var ts []*tree
	{
		e.save(idx, path)
		_, ts = e.forest(path, m, sp.T)
		if sp.Mode == "built" {
			must("Close", func() { idx.Close() })
			// the same forest again, see B02; never saved
			idx = e.built(e.opts(), items, sp.T, sp.W)
		} else if sp.Mode == "loaded" {
			must("Close", func() { idx.Close() })
			o := e.opts()
			o.mem = mem
			idx = e.open(o)
			e.load(idx, path)
		}
	}
	n := len(m.ids)
	seeds := make([]uint64, sp.Clients)
	for c := range seeds {
		seeds[c] = r.Next()
	}
	e.noisy()
	e.clients(sp.Clients, func(c int) {
		r := rt.NewPrng(seeds[c], 1)
		ctx := idx.CreateContext()
		for i := 0; i < sp.Queries; i++ {
			var v []float64
			self := int64(-1)
			switch r.Intn(3) {
			case 0:
				v = vectors("gauss", 1, sp.F, r, sp.Types&1 == 0)[0]
			default:
				id := m.ids[r.Intn(n)]
				v = m.vecs[id]
				self = int64(id)
			}
			ask := func(k, b int) answer {
				return e.ask(idx, ctx, query{vec: v, k: k, b: b})
			}
			e.budget(c, v, self, m, ts, r, ask)
		}
	})
	e.quiet()
	must("Close", func() { idx.Close() })
}

func (e *env[TV, TIX]) budget(c int, v []float64, self int64, m *model, ts []*tree, r *rt.Prng, ask func(k, b int) answer) {
	sp := e.sp
	n := len(m.ids)
	min := func(a, b int) int {
		if a < b {
			return a
		}
		return b
	}
	sane := func(what string, k, b int, a answer) {
		seen := map[uint64]bool{}
		if len(a.ids) != len(a.dists) || len(a.ids) > k {
			violate("search", "%s: %d ids and %d distances for k=%d", what, len(a.ids), len(a.dists), k)
		}
		for i, id := range a.ids {
			w, ok := m.vecs[id]
			if !ok || seen[id] {
				violate("search", "%s: item %d does not exist or is there twice", what, id)
			}
			seen[id] = true
			d := a.dists[i]
			if ex := sp.key(v, w); !(math.Abs(sp.keyOf(d)-ex) <= sp.tol(v, w)) || i > 0 && !sp.ordered(a.dists[i-1], d) {
				violate("search", "%s: result %d: item %d at distance %v (%v), after %v", what, i, id, d, sp.shown(ex), a.dists[:i])
			}
		}
		// The nearest ones of the candidates
		mst, may := candidates(ts, v, sp.eps(), b)
		probe("searches", 1)
		if len(mst) == len(may) {
			probe("searches with exactly known candidates", 1)
		}
		most := 0.0
		keys := func(s map[uint64]bool) []float64 {
			l := make([]float64, 0, len(s))
			for id := range s {
				l = append(l, sp.key(v, m.vecs[id]))
				most = math.Max(most, sp.tol(v, m.vecs[id]))
			}
			sortFloats(l)
			return l
		}
		km, ky := keys(mst), keys(may)
		if n := min(k, len(km)); len(a.ids) < n {
			violate("too-few", "client %d, %s: %d results, at least %d expected for k=%d, budget %d", c, what, len(a.ids), n, k, b)
		}
		if len(a.ids) > len(ky) {
			violate("budget", "client %d, %s: %d results but only %d candidates with budget %d", c, what, len(a.ids), len(ky), b)
		}
		for i, id := range a.ids {
			if !may[id] {
				violate("wrong-region", "client %d, %s: item %d is in no region that is inspected with budget %d", c, what, id, b)
			}
			x := sp.keyOf(a.dists[i])
			if x < ky[i]-2*most || i < len(km) && x > km[i]+2*most {
				violate("wrong-region", "client %d, %s (k=%d, budget %d): result %d: distance %v but the candidates of the regions to be inspected give %v to %v", c, what, k, b, i, a.dists[i], sp.shown(ky[i]), sp.shown(km[min(i, len(km)-1)]))
			}
		}
	}
	// The default budget
	k := 1 + r.Intn(min(n, 12))
	if r.Chance(0.2) {
		k = 1 + r.Intn(n+2)
	}
	a := ask(k, -1)
	sane("default budget", k, k*len(ts), a)
	if len(a.ids) != min(k, n) {
		violate("too-few", "client %d: %d results with the default budget for k=%d, %d items", c, len(a.ids), k, n)
	}
	if r.Chance(0.1) {
		if a := ask(math.MaxInt64>>r.Intn(3), -1); len(a.ids) != n {
			violate("too-few", "client %d: %d of %d results for any k with the default budget", c, len(a.ids), n)
		}
	}
	// Nothing is asked for
	if r.Chance(0.15) {
		for _, kb := range [][2]int{{0, -1}, {0, 1 + r.Intn(2*n)}, {k, 0}, {-1 - r.Intn(3), -1}, {-1 - r.Intn(3), 1 + r.Intn(2*n)}, {k, -2 - r.Intn(5)}} {
			if a := ask(kb[0], kb[1]); len(a.ids) != 0 || len(a.dists) != 0 {
				violate("too-many", "client %d: %d results for k=%d with budget %d", c, len(a.ids), kb[0], kb[1])
			}
		}
	}
	// An explicit budget
	b := 1 + r.Intn(3*n*len(ts)/2+2)
	if r.Chance(0.5) {
		b = 1 + r.Intn(2*k*len(ts))
	}
	if b == 0 {
		b = 1
	}
	a1 := ask(k, b)
	sane("explicit budget", k, b, a1)
	if w := min(min(k, n), (b+len(ts)-1)/len(ts)); len(a1.ids) < w {
		violate("too-few", "client %d: %d results with budget %d for k=%d, %d trees, %d items", c, len(a1.ids), b, k, len(ts), n)
	}
	// A larger budget is never worse
	b2 := b + 1 + r.Intn(b+n)
	a2 := ask(k, b2)
	sane("larger budget", k, b2, a2)
	if len(a2.ids) < len(a1.ids) {
		violate("not-monotonic", "client %d: %d results with budget %d but %d with budget %d", c, len(a2.ids), b2, len(a1.ids), b)
	}
	for i := range a1.dists {
		if !sp.ordered(a2.dists[i], a1.dists[i]) {
			violate("not-monotonic", "client %d: result %d at %v with budget %d but at %v with budget %d", c, i, a2.dists[i], b2, a1.dists[i], b)
		}
	}
	// More results extend the answer
	k2 := k + 1 + r.Intn(5)
	a3 := ask(k2, b)
	sane("more results", k2, b, a3)
	if len(a3.dists) < len(a1.dists) {
		violate("not-prefix", "client %d: k=%d returns %d results but k=%d %d", c, k2, len(a3.dists), k, len(a1.dists))
	}
	for i := range a1.dists {
		if a3.dists[i] != a1.dists[i] {
			violate("not-prefix", "client %d: result %d at %v for k=%d but at %v for k=%d (budget %d)", c, i, a3.dists[i], k2, a1.dists[i], k, b)
		}
	}
	// The smallest budget: the leaf to which the vector belongs in the tree
	// where it is farthest from any plane
	a4 := ask(n, 1)
	sane("budget 1", n, 1, a4)
	if self >= 0 && !sp.Dot && dot(v, v) > 0 {
		for _, b := range []int{1, 1 + r.Intn(n), k * len(ts)} {
			mst, _ := candidates(ts, v, sp.eps(), b)
			if !mst[uint64(self)] {
				continue
			}
			probe("self", 1)
			ab := b
			if b == k*len(ts) {
				ab = -1
			}
			kk := 1
			if ab == -1 {
				kk = k
			}
			a := ask(kk, ab)
			if len(a.ids) == 0 || sp.keyOf(a.dists[0]) > sp.tol(v, v) {
				violate("self", "client %d: item %d is not found by its own vector with budget %d: %v", c, self, ab, a)
			}
		}
	}
}

// D01: S02 and S03 for the dot product

func genD01(r *rt.Prng, sp *Spec) {
	if r.Chance(0.5) {
		genS02(r, sp)
		sp.X = 2
	} else {
		genS03(r, sp)
		sp.X = 3
	}
	sp.Dot = true
}

func (e *env[TV, TIX]) runD01() {
	if e.sp.X == 2 {
		e.runS02()
	} else {
		e.runS03()
	}
}

var _ = fmt.Sprint
var _ = simos.Dir
