package main

import (
	"verifrt"
)

func pick[T any](r *rt.Prng, l ...T) T { return l[r.Intn(len(l))] }

// genSched draws a schedule configuration (swarm style).
func genSched(r *rt.Prng) rt.Config {
	c := rt.Config{
		Seed:        r.Next(),
		MeanPreempt: pick[uint64](r, 0, 15, 60, 250, 1000, 5000, 30000),
		SyncP:       pick(r, 0, 0.05, 0.3, 0.7, 1),
		Skew:        r.Chance(0.4),
		NumCPU:      1 + r.Intn(8),
	}
	if r.Chance(0.4) {
		c.HotSites = 1 + r.Intn(12)
		c.HotP = pick(r, 0.01, 0.1, 0.5)
	}
	if c.MeanPreempt == 0 && c.SyncP == 0 && c.HotSites == 0 {
		c.SyncP = 0.5
	}
	return c
}

// atMost redraws the number of items, in most cases, if it is larger.
func (sp *Spec) atMost(r *rt.Prng, lo, hi int) {
	if sp.N > hi && !r.Chance(0.05) {
		sp.N = lo + r.Intn(hi-lo+1)
	}
}

// maxSteps is far more than any run needs that makes progress.
func (sp *Spec) maxSteps() uint64 {
	n := uint64(800_000_000)
	if sp.N > 350 || sp.T > 20 || sp.F > 24 || sp.W > 12 {
		n *= 5
	}
	if rt.RaceBuild {
		n /= 3
	}
	return n
}

// genBase draws what all specs have in common.
func genBase(r *rt.Prng, sp *Spec) {
	sp.Types = r.Intn(4)
	if r.Chance(0.4) {
		sp.Types = 0
	}
	sp.F = pick(r, 1, 2, 2, 3, 3, 4, 5, 8, 13, 24)
	switch r.Intn(10) {
	case 0:
		sp.N = 1 + r.Intn(4)
	case 1, 2, 3, 4:
		sp.N = 1 + r.Intn(40)
	case 5, 6, 7, 8:
		sp.N = 20 + r.Intn(100)
	default:
		sp.N = 100 + r.Intn(250)
	}
	big := r.Chance(0.008)
	if big { // many items
		sp.F = pick(r, 2, 3, 5, 8)
		sp.N = 500 + r.Intn(3500)
		if r.Chance(0.5) {
			sp.N = pick(r, 512, 1000, 1024, 1024, 2048, 4096) - 1 + r.Intn(4)
		}
	} else if r.Chance(0.03) { // long vectors
		sp.F = pick(r, 32, 40, 48, 63, 64, 65, 100, 128, 129, 256, 300)
		sp.N = 1 + r.Intn(2*sp.F)
		if r.Chance(0.1) {
			sp.F = pick(r, 512, 784, 1000, 1024, 1025, 1536)
			sp.N = 1 + r.Intn(sp.F+sp.F/4)
		}
		big = true
	}
	many := !big && r.Chance(0.01) // trees
	if many {
		sp.N = 1 + r.Intn(50)
		if r.Chance(0.3) {
			sp.N = 100 + r.Intn(250)
		}
	} else if !big && r.Chance(0.04) {
		sp.N = pick(r, 32, 64, 128, 256) - 1 + r.Intn(3)
	}
	sp.IDs = pick(r, "dense", "dense", "dense", "reverse", "shuffled", "sparse", "dup")
	sp.Data = dataKinds[r.Intn(len(dataKinds))]
	sp.DataSeed = r.Next()
	sp.T = 1 + r.Intn(6)
	if r.Chance(0.1) {
		sp.T = 1 + r.Intn(20)
	}
	if big {
		sp.T = 1 + r.Intn(3)
	}
	if many {
		sp.T = pick(r, 32, 64, 100, 128) - 1 + r.Intn(3)
	}
	sp.Multi = true
	sp.W = 1 + r.Intn(6)
	switch r.Intn(12) {
	case 0:
		sp.W = -1
	case 1:
		sp.W = 0
	case 2:
		sp.W = 1 + r.Intn(12)
		if r.Chance(0.1) {
			sp.W = 1 + r.Intn(70)
		}
	case 3:
		sp.Multi = false
	}
	sp.Kiss = r.Chance(0.7)
	sp.RandSeed = r.Next() >> 1
	if r.Chance(0.3) {
		sp.RandSeed = uint64(r.Intn(5))
	}
	sp.Alloc = pick(r, "gc", "hostile")
	sp.Mem = pick(r, "mmap", "gc")
	if r.Chance(0.2) {
		sp.Hint = 1 + r.Intn(2*sp.N)
	}
	sp.Verbose = r.Chance(0.04) && sp.N < 60
	sp.Sched = genSched(r)
	if r.Chance(0.25) {
		sp.Sorter = 1 + r.Intn(12)
	}
	sp.Dot = r.Chance(0.1)
}

func genSpec(prop string, base uint64, i uint64) *Spec {
	seed := rt.NewPrng(base, i, uint64(len(prop)), uint64(prop[0])<<16|uint64(prop[1])<<8|uint64(prop[2])).Next()
	r := rt.NewPrng(seed, 3)
	sp := &Spec{Prop: prop, Seed: seed}
	genBase(r, sp)
	props[prop].gen(r, sp)
	if sp.Dot && sp.Data == "scaled" { // degenerate splits take long
		if sp.N > 70 {
			sp.N = 70
		}
		if sp.T > 8 {
			sp.T = 8
		}
	}
	return sp
}

func genFaults(r *rt.Prng, kinds ...string) []FSpec {
	n := 1
	if r.Chance(0.2) {
		n = 2
	}
	var l []FSpec
	for i := 0; i < n; i++ {
		l = append(l, FSpec{Frac: r.Float(), Kind: pick(r, kinds...), Arg: r.Next()})
	}
	return l
}
