package main

import (
	"fmt"

	"verifrt"
	"verifrt/simos"

	"github.com/mariotoffia/goannoy/interfaces"
)

// I01: several indexes live at the same time

func genI01(r *rt.Prng, sp *Spec) {
	sp.Mode = pick(r, "builder", "parts", "parts")
	sp.X = 1 + r.Intn(31) // which parts they have in common
	sp.Clients = 2 + r.Intn(2)
	sp.atMost(r, 3, 69)
	if sp.N > 1000 { // takes long
		sp.N = 100 + r.Intn(900)
	}
	if sp.F > 300 { // takes memory
		sp.F, sp.N = 300, 1+r.Intn(300)
	}
	sp.T = 1 + r.Intn(4)
	if sp.W < 0 || sp.W > 4 {
		sp.W = 1 + r.Intn(3)
	}
	if sp.Mode == "builder" {
		sp.Dot = false
		sp.Alloc = "gc"
	}
	sp.Queries = 1 + r.Intn(3)
}

// siblings are indexes that are made by one builder or have parts in common.
func (e *env[TV, TIX]) siblings(n int, sameBuilder bool) (l []interfaces.AnnoyIndex[TV, TIX]) {
	sp := e.sp
	if sameBuilder {
		b := e.builder(e.opts())
		for i := 0; i < n; i++ {
			l = append(l, b.Build())
		}
		return
	}
	common := e.newParts(e.opts())
	for i := 0; i < n; i++ {
		o := e.opts()
		p := e.newParts(o)
		if sp.X&1 != 0 {
			p.rnd = common.rnd
		}
		if sp.X&2 != 0 {
			p.dist = common.dist
		}
		if sp.X&4 != 0 {
			p.pol = common.pol
		}
		if sp.X&8 != 0 {
			p.mem = common.mem
		}
		if sp.X&16 != 0 {
			p.sorter = common.sorter
		}
		o.parts = p
		l = append(l, e.open(o))
	}
	return
}

func (e *env[TV, TIX]) runI01() {
	sp := e.sp
	// What each index gives alone
	type life struct {
		items  []item
		m      *model
		forest []uint64
	}
	file := func(c int) string { return fmt.Sprintf("%s/%d.ann", simos.Dir, c) }
	lives := make([][2]life, sp.Clients)
	for c := range lives {
		for i, n := range []int{sp.N, 1 + sp.N/3} {
			items := sp.itemsOf(n, sp.DataSeed+uint64(10*c+i))
			l := life{items: items, m: modelOf(sp.F, items)}
			var idx interfaces.AnnoyIndex[TV, TIX]
			must("Build", func() {
				idx = e.open(e.opts())
				e.add(idx, items)
				idx.Build(sp.T, sp.W)
			})
			e.save(idx, path)
			_, ts := e.forest(path, l.m, sp.T)
			l.forest = canonicalForest(ts)
			must("Close", func() { idx.Close() })
			lives[c][i] = l
		}
	}
	idxs := e.siblings(sp.Clients, sp.Mode == "builder")
	same := func(what string, idx interfaces.AnnoyIndex[TV, TIX], l *life, r *rt.Prng, search bool) {
		if s := e.sameItems(idx, l.m); s != "" {
			violate("item", "%s: %s", what, s)
		}
		if search {
			e.exhaustive(idx, l.m, r, sp.Queries, what)
		}
	}
	e.noisy()
	e.clients(sp.Clients, func(c int) {
		idx := idxs[c]
		r := rt.NewPrng(sp.DataSeed, 100+uint64(c))
		for i := range lives[c] {
			l := &lives[c][i]
			what := func(s string) string { return fmt.Sprintf("index %d, life %d, after %s", c, i, s) }
			for n, it := range l.items {
				idx.AddItem(TIX(it.id), conv[TV](it.vec))
				if n == len(l.items)/2 && sp.IDs != "dup" {
					if s := sameVec(idx.GetItem(TIX(it.id)), it.vec); s != "" {
						violate("item", "%s: %s", what("AddItem"), s)
					}
				}
			}
			same(what("AddItem"), idx, l, r, false)
			idx.Build(sp.T, sp.W)
			same(what("Build"), idx, l, r, true)
			e.save(idx, file(c))
			_, ts := e.forest(file(c), l.m, sp.T)
			for j, h := range canonicalForest(ts) {
				if h != l.forest[j] {
					violate("different-forest", "%s: not the trees that are built alone", what("Save"))
				}
			}
			same(what("Save"), idx, l, r, true)
			if r.Chance(0.5) {
				if err := idx.Close(); err != nil {
					violate("close", "%s: %v", what("Close"), err)
				}
				e.load(idx, file(c))
				same(what("Load"), idx, l, r, true)
			}
			if err := idx.Close(); err != nil {
				violate("close", "%s: %v", what("Close"), err)
			}
			if s := e.empty(idx); s != "" {
				violate("state", "%s: %s", what("Close"), s)
			}
		}
	})
	e.quiet()
	e.released("after all indexes were closed")
}
