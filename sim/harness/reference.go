package main

import (
	"math"
	"sort"

	"verifrt"
)

// An independent implementation of the algorithm: trees of random splits
// found by a 2-means heuristic. Its forests are others than those of the
// library but should be as good.

type refBuilder struct {
	r      *rt.Prng
	k      int
	ids    []uint64
	vec    map[uint64][]float64 // normalised, except for affine metrics
	metric string
}

// reference builds a forest for the items; the last coordinate of the vectors is
// the additional one of the dot product, 1 for affine metrics.
func reference(m *model, metric string, k, trees int, r *rt.Prng) []*tree {
	b := &refBuilder{r: r, k: k, ids: m.ids, vec: map[uint64][]float64{}, metric: metric}
	most := 0.0
	for _, id := range m.ids {
		most = math.Max(most, dot(m.vecs[id], m.vecs[id]))
	}
	for _, id := range m.ids {
		v := append([]float64(nil), m.vecs[id]...)
		x := 0.0
		if b.affine() {
			b.vec[id] = append(v, 1)
			continue
		}
		if metric == "dot" {
			x = math.Sqrt(math.Max(0, most-dot(v, v)))
		}
		b.vec[id] = unit(append(v, x))
	}
	var ts []*tree
	for i := 0; i < trees; i++ {
		ts = append(ts, b.tree(m.ids))
	}
	return ts
}

func (b *refBuilder) affine() bool { return b.metric == "euclid" || b.metric == "manhattan" }

func unit(v []float64) []float64 {
	if n := math.Sqrt(dot(v, v)); n > 0 {
		for i := range v {
			v[i] /= n
		}
	}
	return v
}

func (b *refBuilder) tree(ids []uint64) *tree {
	if len(ids) <= b.k {
		return &tree{leaf: ids, count: len(ids)}
	}
	var side [2][]uint64
	var p []float64
	even := func(limit float64) bool {
		f := float64(len(side[0])) / float64(len(ids))
		return math.Max(f, 1-f) < limit
	}
	for try := 0; try < 3; try++ {
		p = b.split(ids)
		side = [2][]uint64{}
		for _, id := range ids {
			s := 0
			if mg := dot(p, b.vec[id]); mg > 0 || mg == 0 && b.r.Chance(0.5) {
				s = 1
			}
			side[s] = append(side[s], id)
		}
		if even(0.95) {
			break
		}
	}
	for !even(0.99) {
		p = make([]float64, len(p))
		side = [2][]uint64{}
		for _, id := range ids {
			s := b.r.Intn(2)
			side[s] = append(side[s], id)
		}
	}
	t := &tree{plane: p[:len(p)-1], extra: p[len(p)-1], affine: b.affine(), count: len(ids)}
	t.left, t.right = b.tree(side[0]), b.tree(side[1])
	return t
}

func (b *refBuilder) split(ids []uint64) []float64 {
	i, j := b.r.Intn(len(ids)), b.r.Intn(len(ids)-1)
	if j >= i {
		j++
	}
	p := append([]float64(nil), b.vec[ids[i]]...)
	q := append([]float64(nil), b.vec[ids[j]]...)
	np, nq := 1.0, 1.0
	dist := func(c, v []float64) float64 {
		if b.affine() {
			d := 0.0
			for z := range c {
				if x := c[z] - v[z]; b.metric == "euclid" {
					d += x * x
				} else {
					d += math.Abs(x)
				}
			}
			return d
		}
		n := math.Sqrt(dot(c, c) * dot(v, v))
		if !(n > 0) {
			return 2
		}
		return 2 - 2*dot(c, v)/n
	}
	for l := 0; l < 200; l++ {
		v := b.vec[ids[b.r.Intn(len(ids))]]
		if !b.affine() && dot(v, v) == 0 {
			continue
		}
		dp, dq := np*dist(p, v), nq*dist(q, v)
		switch {
		case dp < dq:
			for z := range p {
				p[z] = (p[z]*np + v[z]) / (np + 1)
			}
			np++
		case dq < dp:
			for z := range q {
				q[z] = (q[z]*nq + v[z]) / (nq + 1)
			}
			nq++
		}
	}
	if b.affine() { // the plane in the middle of p and q
		last, off := len(p)-1, 0.0
		n := make([]float64, len(p))
		for z := range n[:last] {
			n[z] = p[z] - q[z]
		}
		unit(n)
		for z := range n[:last] {
			off -= n[z] * (p[z] + q[z]) / 2
		}
		n[last] = off
		return n
	}
	for z := range p {
		p[z] -= q[z]
	}
	return unit(p)
}

// nearest are the keys of the k nearest items of those with given ids.
func (s *Spec) nearest(v []float64, m *model, ids map[uint64]bool, k int) []float64 {
	var keys []float64
	if ids == nil {
		for _, id := range m.ids {
			keys = append(keys, s.key(v, m.vecs[id]))
		}
	} else {
		for id := range ids {
			keys = append(keys, s.key(v, m.vecs[id]))
		}
	}
	sort.Float64s(keys)
	if len(keys) > k {
		keys = keys[:k]
	}
	return keys
}
