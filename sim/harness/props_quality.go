package main

import (
	"math"

	"verifrt"
)

// Q01: the answers of searches with the default budget

func genQ01(r *rt.Prng, sp *Spec) {
	sp.F = pick(r, 2, 3, 4, 5, 6, 8, 10, 12, 16)
	sp.N = 300 + r.Intn(900)
	sp.Data = pick(r, "gauss", "gauss", "scaled", "cluster", "cluster")
	sp.IDs = pick(r, "dense", "reverse", "shuffled", "sparse")
	sp.T = 5 + r.Intn(11)
	sp.W = 1 + r.Intn(6)
	sp.Multi = true
	sp.Hint = 0
	sp.Verbose = false
	sp.Dot = r.Chance(0.15)
	if sp.Dot && sp.Data == "scaled" { // all but the longest items are in the same direction then
		sp.Data = "gauss"
	}
	sp.Mode = pick(r, "built", "saved", "loaded")
	sp.Clients = 1 + r.Intn(3)
	sp.Sched.HotSites = 0
	if sp.Sched.MeanPreempt > 0 && sp.Sched.MeanPreempt < 1000 {
		sp.Sched.MeanPreempt = 1000
	}
}

func (e *env[TV, TIX]) runQ01() {
	sp := e.sp
	items := sp.items()
	m := modelOf(sp.F, items)
	r := rt.NewPrng(sp.DataSeed, 5)
	idx := e.built(e.opts(), items, sp.T, sp.W)
	if sp.Mode != "built" {
		e.save(idx, path)
	}
	if sp.Mode == "loaded" {
		must("Close", func() { idx.Close() })
		idx = e.open(e.opts())
		e.load(idx, path)
	}
	const k, queries = 10, 150
	type task struct {
		query
		true []float64 // keys of the true nearest neighbours
	}
	qs := make([][]task, sp.Clients)
	ref := reference(m, sp.metric(), sp.layout().k, sp.T, r)
	want := 0
	most := 0.0
	for _, id := range m.ids {
		most = math.Max(most, dot(m.vecs[id], m.vecs[id]))
	}
	count := func(v, keys, true []float64) (n int) {
		tol := 2 * sp.eps() * float64(sp.F+8) * 8
		if sp.affine() {
			tol *= true[len(true)-1]
		} else if sp.Dot {
			tol *= math.Sqrt(dot(v, v) * most)
		}
		for i := 0; i < len(keys) && keys[i] <= true[len(true)-1]+tol; i++ {
			n++
		}
		return
	}
	for i := 0; i < queries; i++ {
		v := m.vecs[m.ids[r.Intn(len(m.ids))]]
		switch {
		case i%2 == 0:
		case sp.Data == "cluster" || sp.Data == "far":
			x, w := make([]float64, sp.F), m.vecs[m.ids[r.Intn(len(m.ids))]]
			for j := range v {
				x[j] = float64(float32(v[j] + 0.01*w[j]))
			}
			v = x
		default:
			v = vectors("gauss", 1, sp.F, r, sp.Types&1 == 0)[0]
		}
		t := task{query{k: k, b: -1, vec: v}, sp.nearest(v, m, nil, k)}
		inspected, _ := candidates(ref, v, 0, k*sp.T)
		want += count(v, sp.nearest(v, m, inspected, k), t.true)
		qs[i%sp.Clients] = append(qs[i%sp.Clients], t)
	}
	found := make([]int, sp.Clients)
	e.noisy()
	e.clients(sp.Clients, func(c int) {
		ctx := idx.CreateContext()
		for _, t := range qs[c] {
			a := e.ask(idx, ctx, t.query)
			var keys []float64
			for _, id := range a.ids {
				if w := m.vecs[id]; w != nil {
					keys = append(keys, sp.key(t.vec, w))
				}
			}
			sortFloats(keys)
			found[c] += count(t.vec, keys, t.true)
		}
	})
	e.quiet()
	sum := 0
	for _, n := range found {
		sum += n
	}
	got := 100 * float64(sum) / (k * queries)
	exp := 100 * float64(want) / (k * queries)
	probe("recall", int(got))
	// The standard deviation of the difference is about 1
	if limit := map[bool]float64{false: 12, true: 30}[sp.Dot]; got < exp-limit {
		violate("recall", "the default budget finds %.1f%% of the %d nearest neighbours, other trees of the same kind find %.1f%%", got, k, exp)
	}
	must("Close", func() { idx.Close() })
}
