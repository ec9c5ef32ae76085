package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
)

// layout is the format of a saved index: records of equal size,
//
//	number of descendants | two children or the norm | vector (or more children)
//
// first the items, then the nodes of the trees and finally copies of the roots.
type layout struct {
	ix, vt int // bytes of an index / a vector element
	voff   int
	size   int
	k      int
	f      int
	affine bool // the offset of planes is at doff
	doff   int  // of the additional factor of dot product indexes (0: there is none)
}

func layoutOf(types, f int, dotProduct bool) layout {
	l := layout{ix: 4, vt: 4, f: f}
	if types&1 == 1 {
		l.vt = 8
	}
	if types&2 == 2 {
		l.ix = 8
	}
	l.voff = 3 * l.ix
	if l.voff%l.vt != 0 {
		l.voff += l.vt - l.voff%l.vt
	}
	if dotProduct {
		l.doff = l.voff
		l.voff += l.vt
	}
	l.size = l.voff + f*l.vt
	l.k = (l.size - l.ix) / l.ix
	return l
}

type forest struct {
	layout
	data  []byte
	nodes uint64
	items uint64
	roots []uint64
}

func (f *forest) u(off uint64) uint64 {
	if f.ix == 4 {
		return uint64(binary.LittleEndian.Uint32(f.data[off:]))
	}
	return binary.LittleEndian.Uint64(f.data[off:])
}

func (f *forest) desc(i uint64) uint64 { return f.u(i * uint64(f.size)) }
func (f *forest) child(i uint64, c int) uint64 {
	return f.u(i*uint64(f.size) + uint64(f.ix*(1+c)))
}
func (f *forest) bytes(i uint64) []byte {
	return f.data[i*uint64(f.size) : (i+1)*uint64(f.size)]
}
func (f *forest) float(o uint64) float64 {
	if f.vt == 4 {
		return float64(math.Float32frombits(binary.LittleEndian.Uint32(f.data[o:])))
	}
	return math.Float64frombits(binary.LittleEndian.Uint64(f.data[o:]))
}
func (f *forest) vec(i uint64) []float64 {
	v := make([]float64, f.f)
	for j := range v {
		v[j] = f.float(i*uint64(f.size) + uint64(f.voff+j*f.vt))
	}
	return v
}

// tree as parsed
type tree struct {
	id          uint64 // the record
	plane       []float64
	affine      bool    // extra is the offset of the plane
	extra       float64 // coordinate of the plane in the additional dimension of dot product indexes
	left, right *tree
	leaf        []uint64 // items of a bucket (or a single item)
	count       int
}

// parseForest checks the structure of a saved index of the given items
// independently of the library: trees (-1: any number) complete trees.
func parseForest(data []byte, l layout, m *model, trees int) (fo *forest, ts []*tree, err error) {
	f := &forest{layout: l, data: data}
	if len(data)%l.size != 0 {
		return nil, nil, fmt.Errorf("file size %d is not a multiple of the record size %d", len(data), l.size)
	}
	f.nodes = uint64(len(data) / l.size)
	f.items = m.nitem
	if f.nodes < f.items {
		return nil, nil, fmt.Errorf("%d records for %d items", f.nodes, f.items)
	}
	for i := uint64(0); i < f.items; i++ {
		v, ok := m.vecs[i]
		if !ok {
			if f.desc(i) != 0 {
				return nil, nil, fmt.Errorf("record %d: never added but in use", i)
			}
			continue
		}
		if f.desc(i) != 1 {
			return nil, nil, fmt.Errorf("item %d: %d descendants", i, f.desc(i))
		}
		got := f.vec(i)
		for j := range v {
			if got[j] != v[j] && (got[j] == got[j] || v[j] == v[j]) {
				return nil, nil, fmt.Errorf("item %d: vector changed at %d: %v instead of %v", i, j, got[j], v[j])
			}
		}
	}
	// The root copies are at the end
	var t uint64
	for t = 0; f.nodes-t > f.items && f.desc(f.nodes-t-1) == f.items; t++ {
	}
	// ... preceded by the last root or, if trees are single records or were built
	// concurrently, by more of the roots
	switch {
	case trees >= 0:
		if t < uint64(trees) || len(m.ids) > 0 && t > 2*uint64(trees) {
			return nil, nil, fmt.Errorf("%d roots and copies for %d trees", t, trees)
		}
		t = uint64(trees)
	default:
		for r := t / 2; r > 0; r-- {
			if string(f.data[(f.nodes-r)*uint64(f.size):]) == string(f.data[(f.nodes-t)*uint64(f.size):(f.nodes-t+r)*uint64(f.size)]) {
				t -= r
				break
			}
		}
	}
	if trees < 0 && t == 0 && len(m.ids) > 0 {
		return nil, nil, fmt.Errorf("no tree at all")
	}
	end := f.nodes - t // of the tree nodes
	owner := make([]int, end)
	byContent := map[string][]uint64{}
	for i := f.items; i < end; i++ {
		if f.desc(i) == f.items {
			byContent[string(f.bytes(i))] = append(byContent[string(f.bytes(i))], i)
		}
	}
	used := uint64(0)
	for c := uint64(0); c < t; c++ {
		l := byContent[string(f.bytes(end+c))]
		if len(l) == 0 {
			return nil, nil, fmt.Errorf("the copy of root %d equals no root", c)
		}
		root := l[0]
		byContent[string(f.bytes(end+c))] = l[1:]
		f.roots = append(f.roots, root)
		seen := make(map[uint64]bool, len(m.ids))
		tr, e := f.walk(m, root, true, int(c)+1, owner, seen, 0)
		if e != nil {
			return nil, nil, fmt.Errorf("tree %d: %v", c, e)
		}
		if tr.count != len(m.ids) {
			return nil, nil, fmt.Errorf("tree %d holds %d of %d items", c, tr.count, len(m.ids))
		}
		ts = append(ts, tr)
	}
	for i := f.items; i < end; i++ {
		if owner[i] != 0 {
			used++
		} else {
			return nil, nil, fmt.Errorf("record %d belongs to no tree", i)
		}
	}
	return f, ts, nil
}

func (f *forest) walk(m *model, i uint64, root bool, t int, owner []int, seen map[uint64]bool, depth int) (*tree, error) {
	if depth > 100000 {
		return nil, fmt.Errorf("cycle")
	}
	item := func(id uint64) error {
		if _, ok := m.vecs[id]; !ok {
			return fmt.Errorf("refers to item %d that was never added", id)
		}
		if seen[id] {
			return fmt.Errorf("item %d twice", id)
		}
		seen[id] = true
		return nil
	}
	if i < f.items {
		if root {
			return nil, fmt.Errorf("an item is root")
		}
		if err := item(i); err != nil {
			return nil, err
		}
		return &tree{id: i, leaf: []uint64{i}, count: 1}, nil
	}
	if i >= uint64(len(owner)) {
		return nil, fmt.Errorf("refers to record %d of %d", i, len(owner))
	}
	if owner[i] != 0 {
		return nil, fmt.Errorf("record %d is shared with tree %d", i, owner[i]-1)
	}
	owner[i] = t
	n := f.desc(i)
	tr := &tree{id: i}
	single := root && len(m.ids) <= 1
	if n <= uint64(f.k) || single {
		cnt := int(n)
		if root {
			cnt = len(m.ids)
		}
		for c := 0; c < cnt; c++ {
			id := f.child(i, c)
			if err := item(id); err != nil {
				return nil, fmt.Errorf("record %d: %v", i, err)
			}
			tr.leaf = append(tr.leaf, id)
		}
		tr.count = cnt
		return tr, nil
	}
	tr.plane = f.vec(i)
	if f.doff > 0 {
		tr.extra = f.float(i*uint64(f.size) + uint64(f.doff))
		tr.affine = f.affine
	}
	var err error
	if tr.left, err = f.walk(m, f.child(i, 0), false, t, owner, seen, depth+1); err != nil {
		return nil, err
	}
	if tr.right, err = f.walk(m, f.child(i, 1), false, t, owner, seen, depth+1); err != nil {
		return nil, err
	}
	tr.count = tr.left.count + tr.right.count
	if l, r := tr.left.count, tr.right.count; l == 0 || r == 0 || 100*l > 99*tr.count+1 || 100*r > 99*tr.count+1 {
		return nil, fmt.Errorf("record %d: split in %d and %d items", i, l, r)
	}
	if root {
		if n != f.items {
			return nil, fmt.Errorf("record %d: root with %d descendants", i, n)
		}
	} else if n != uint64(tr.count) {
		return nil, fmt.Errorf("record %d: %d descendants but %d items", i, n, tr.count)
	}
	return tr, nil
}

func zeroPlane(p []float64) bool {
	for _, x := range p {
		if x != 0 {
			return false
		}
	}
	return true
}

// sides checks that the items are at the side of the planes where they belong.
func (f *forest) sides(t *tree, m *model, eps float64) error {
	if t.plane == nil {
		return nil
	}
	if !zeroPlane(t.plane) {
		check := func(c *tree, sign float64) error {
			var err error
			c.each(func(id uint64) {
				v, x := m.vecs[id], f.extra(id)
				if mg := t.margin(v, x) * sign; mg < -t.tol(v, x, eps) && err == nil {
					err = fmt.Errorf("record %d: item %d is at the wrong side of the plane (margin %g) %.3g", t.id, id, mg*sign, append(t.plane, t.extra))
				}
			})
			return err
		}
		if err := check(t.left, -1); err != nil {
			return err
		}
		if err := check(t.right, 1); err != nil {
			return err
		}
	}
	if err := f.sides(t.left, m, eps); err != nil {
		return err
	}
	return f.sides(t.right, m, eps)
}

// extra is the coordinate of an item in the additional dimension of dot product
// indexes (that of a vector to search for is zero).
func (f *forest) extra(item uint64) float64 {
	if f.doff == 0 {
		return 0
	}
	if f.affine {
		return 1
	}
	return f.float(item*uint64(f.size) + uint64(f.doff))
}

// level tells whether the additional dimension of a dot product index makes all
// items as long as the longest one, such that the largest dot product is the
// smallest angle.
func (f *forest) level(m *model, eps float64) error {
	if f.doff == 0 || f.affine {
		return nil
	}
	most := 0.0
	for _, id := range m.ids {
		most = math.Max(most, dot(m.vecs[id], m.vecs[id]))
	}
	for _, id := range m.ids {
		x := f.extra(id)
		if l := dot(m.vecs[id], m.vecs[id]) + x*x; math.Abs(l-most) > eps*float64(len(m.vecs[id])+5)*16*most+1e-30 || !(x >= 0) {
			return fmt.Errorf("item %d: the additional dimension %v makes its length %v, that of the longest item is %v", id, x, math.Sqrt(l), math.Sqrt(most))
		}
	}
	return nil
}

// margin is the signed distance of v (with additional coordinate x) from the
// plane, tol a bound for its rounding error.
func (t *tree) margin(v []float64, x float64) float64 {
	return (dot(t.plane, v) + t.extra*x) / t.norm()
}

// norm is the length of the normal of the plane; the library stores planes with
// normals of length 1, such that the margins of different planes compare.
func (t *tree) norm() float64 {
	x := t.extra
	if t.affine {
		x = 0
	}
	if n := math.Sqrt(dot(t.plane, t.plane) + x*x); n > 0 {
		return n
	}
	return 1
}

func (t *tree) tol(v []float64, x, eps float64) float64 {
	p := dot(t.plane, t.plane) + t.extra*t.extra
	return eps * float64(len(v)+5) * 4 * math.Sqrt(p*(dot(v, v)+x*x)) / t.norm()
}

// region is a leaf and bounds of its promise.
type region struct {
	items  []uint64
	lo, hi float64
}

// regions are the leaves of a tree with their promise for v: the smallest
// margin on the way.
func (t *tree) regions(v []float64, eps, lo, hi float64, l []region) []region {
	if t.plane == nil {
		return append(l, region{t.leaf, lo, hi})
	}
	x := 0.0
	if t.affine {
		x = 1
	}
	mg, tol := t.margin(v, x), t.tol(v, x, eps)
	l = t.left.regions(v, eps, math.Min(lo, -mg-tol), math.Min(hi, -mg+tol), l)
	return t.right.regions(v, eps, math.Min(lo, mg-tol), math.Min(hi, mg+tol), l)
}

// candidates are the items that a search with budget b must and may inspect.
func candidates(ts []*tree, v []float64, eps float64, b int) (must, may map[uint64]bool) {
	var l []region
	buckets := true
	for _, t := range ts {
		l = t.regions(v, eps, math.Inf(1), math.Inf(1), l)
		buckets = buckets && t.plane == nil
	}
	must, may = map[uint64]bool{}, map[uint64]bool{}
	if b <= 0 {
		return
	}
	// Numbers of candidates in regions whose promise is certainly (possibly) larger
	his, los := make([]int, len(l)), make([]int, len(l))
	for i := range l {
		his[i], los[i] = i, i
	}
	sort.Slice(his, func(i, j int) bool { return l[his[i]].hi > l[his[j]].hi })
	sort.Slice(los, func(i, j int) bool { return l[los[i]].lo > l[los[j]].lo })
	sum := func(ix []int) []int {
		s := make([]int, len(ix)+1)
		for i, x := range ix {
			s[i+1] = s[i] + len(l[x].items)
		}
		return s
	}
	sh, sl := sum(his), sum(los)
	for i := range l {
		r := &l[i]
		possibly := sh[sort.Search(len(his), func(j int) bool { return l[his[j]].hi < r.lo })] - len(r.items)
		certainly := sl[sort.Search(len(los), func(j int) bool { return l[los[j]].lo <= r.hi })]
		for _, id := range r.items {
			if possibly < b || buckets { // all buckets are the same
				must[id] = true
			}
			if certainly < b {
				may[id] = true
			}
		}
	}
	return
}

func (t *tree) each(f func(uint64)) {
	if t.plane == nil {
		for _, id := range t.leaf {
			f(id)
		}
		return
	}
	t.left.each(f)
	t.right.each(f)
}

func (t *tree) planes(f func([]float64)) {
	if t.plane != nil {
		f(t.plane)
		t.left.planes(f)
		t.right.planes(f)
	}
}

// records is the number of records of a tree without items.
func (t *tree) records(items uint64) int {
	n := 0
	if t.id >= items {
		n = 1
	}
	if t.plane != nil {
		n += t.left.records(items) + t.right.records(items)
	}
	return n
}

// splits counts the split nodes and those that split at random.
func splits(ts []*tree) (n, random int) {
	for _, t := range ts {
		t.planes(func(p []float64) {
			n++
			if zeroPlane(p) {
				random++
			}
		})
	}
	return
}

func hasZeroPlane(ts []*tree) bool {
	z := false
	for _, t := range ts {
		t.planes(func(p []float64) { z = z || zeroPlane(p) })
	}
	return z
}

// canonical is a hash of a tree that does not depend on where its records are.
func (t *tree) canonical() uint64 {
	h := uint64(14695981039346656037)
	mix := func(v uint64) {
		for i := 0; i < 8; i++ {
			h = (h ^ (v & 255)) * 1099511628211
			v >>= 8
		}
	}
	if t.plane == nil {
		mix(1)
		ids := append([]uint64(nil), t.leaf...)
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		for _, id := range ids {
			mix(id)
		}
		return h
	}
	mix(2)
	for _, x := range t.plane {
		mix(math.Float64bits(x))
	}
	mix(math.Float64bits(t.extra))
	mix(t.left.canonical())
	mix(t.right.canonical())
	return h
}

func canonicalForest(ts []*tree) []uint64 {
	var l []uint64
	for _, t := range ts {
		l = append(l, t.canonical())
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}
