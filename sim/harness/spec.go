package main

import (
	"fmt"
	"math"
	"sort"

	"verifrt"
)

// Spec describes one simulated run completely.
type Spec struct {
	Prop  string `json:"prop"`
	Seed  uint64 `json:"seed"`
	Types int    `json:"types"` // 0: float32/uint32, 1: float64/uint32, 2: float32/uint64, 3: float64/uint64

	F        int    `json:"f"`
	N        int    `json:"n"`
	IDs      string `json:"ids"`  // dense, reverse, shuffled, sparse, dup
	Data     string `json:"data"` // see vectors
	DataSeed uint64 `json:"dataseed"`

	T        int     `json:"t"`
	W        int     `json:"w"`
	Multi    bool    `json:"multi"`
	Kiss     bool    `json:"kiss"` // explicit random generator with RandSeed
	RandSeed uint64  `json:"randseed"`
	Hint     int     `json:"hint"`
	Alloc    string  `json:"alloc"`           // gc, hostile
	Mem      string  `json:"mem"`             // mmap, gc
	Share    bool    `json:"share,omitempty"` // one file allocator for all indexes
	Verbose  bool    `json:"verbose,omitempty"`
	Dot      bool    `json:"dot,omitempty"`    // dot product instead of angular distance
	Sorter   int     `json:"sorter,omitempty"` // 0: default, otherwise a combination of the sorters of the library
	Custom   *Custom `json:"custom,omitempty"` // parts that are not those of the library

	Sched   rt.Config `json:"sched"`
	Faults  []FSpec   `json:"faults,omitempty"`
	Ops     []Op      `json:"ops,omitempty"`
	Clients int       `json:"clients,omitempty"`
	Mode    string    `json:"mode,omitempty"`
	Queries int       `json:"queries,omitempty"`
	X       int       `json:"x,omitempty"`
}

// FSpec is a fault at a fraction of the operations in the window.
type FSpec struct {
	Frac float64 `json:"frac"`
	Kind string  `json:"kind"`
	Arg  uint64  `json:"arg"`
}

// Op is an operation of a history.
type Op struct {
	Op string  `json:"op"`
	A  int     `json:"a,omitempty"`
	B  int     `json:"b,omitempty"`
	C  int     `json:"c,omitempty"`
	F  []FSpec `json:"faults,omitempty"`
}

func (o Op) String() string {
	s := fmt.Sprintf("%s(%d,%d,%d)", o.Op, o.A, o.B, o.C)
	if len(o.F) > 0 {
		s += fmt.Sprintf("!%v", o.F)
	}
	return s
}

var typeNames = []string{"float32/uint32", "float64/uint32", "float32/uint64", "float64/uint64"}

// maxK is the capacity of a bucket, see the file format in parse.go.
func (s *Spec) layout() layout {
	l := layoutOf(s.Types, s.F, s.Dot || s.affine())
	l.affine = s.affine()
	if c := s.Custom; l.affine {
		l.size += c.Pad
		if c.K > 0 && c.K < l.k {
			l.k = c.K
		}
	}
	return l
}

func (s *Spec) eps() float64 {
	if s.Types&1 == 0 {
		return 1.2e-7
	}
	return 2.3e-16
}

type item struct {
	id  uint64
	vec []float64
}

// items is the sequence of additions.
func (s *Spec) items() []item { return s.itemsOf(s.N, s.DataSeed) }

func (s *Spec) itemsOf(n int, seed uint64) []item {
	r := rt.NewPrng(seed, 1)
	vs := vectors(s.Data, n, s.F, r, s.Types&1 == 0)
	ids := make([]uint64, n)
	for i := range ids {
		ids[i] = uint64(i)
	}
	switch s.IDs {
	case "reverse":
		for i := range ids {
			ids[i] = uint64(n - 1 - i)
		}
	case "shuffled":
		for i := n - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			ids[i], ids[j] = ids[j], ids[i]
		}
	case "sparse":
		next := uint64(r.Intn(3))
		for i := range ids {
			ids[i] = next
			next += 1 + uint64(r.Intn(1+r.Intn(8)))
		}
	}
	res := make([]item, 0, n)
	for i := range ids {
		res = append(res, item{ids[i], vs[i]})
	}
	if s.IDs == "dup" && n > 0 {
		extra := vectors(s.Data, n/2+1, s.F, r, s.Types&1 == 0)
		for _, v := range extra {
			res = append(res, item{ids[r.Intn(n)], v})
		}
	}
	return res
}

var dataKinds = []string{"gauss", "gauss", "gauss", "cluster", "dups", "same", "zeros", "ints", "onehot", "collinear", "scaled", "line"}

// vectors generates n vectors, f32: representable in float32.
func vectors(kind string, n, f int, r *rt.Prng, f32 bool) [][]float64 {
	gauss := func() float64 {
		u, v := r.Float(), r.Float()
		if u < 1e-12 {
			u = 1e-12
		}
		return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*v)
	}
	vec := func() []float64 {
		x := make([]float64, f)
		for i := range x {
			x[i] = gauss()
		}
		return x
	}
	var base [][]float64
	nb := 1 + r.Intn(5)
	if kind == "same" {
		nb = 1
	}
	for i := 0; i < nb; i++ {
		base = append(base, vec())
	}
	res := make([][]float64, n)
	for i := range res {
		var x []float64
		b := base[r.Intn(len(base))]
		switch kind {
		case "cluster":
			x = vec()
			for j := range x {
				x[j] = b[j] + 0.05*x[j]
			}
		case "wild": // not numbers, infinite, close to the limits of the type
			x = vec()
			most, least := math.MaxFloat64, math.SmallestNonzeroFloat64
			if f32 {
				most, least = math.MaxFloat32, math.SmallestNonzeroFloat32
			}
			few := r.Chance(0.5)
			for j := range x {
				if few && r.Intn(4) > 0 {
					continue
				}
				switch r.Intn(9) {
				case 0:
					x[j] = math.NaN()
				case 1:
					x[j] = math.Inf(1)
				case 2:
					x[j] = math.Inf(-1)
				case 3:
					x[j] = most
				case 4:
					x[j] = -most
				case 5:
					x[j] = least
				case 6:
					x[j] *= math.Sqrt(most)
				case 7:
					x[j] *= math.Sqrt(least)
				}
			}
		case "steps": // most items close to the origin, some of all magnitudes
			x = vec()
			c := math.Pow(200, float64(r.Intn(1+i%7)))
			for j := range x {
				x[j] = x[j]*c + base[0][j]
			}
		case "far": // from the origin
			x = vec()
			for j := range x {
				x[j] += 100 * base[0][j]
			}
		case "dups", "same":
			x = append([]float64(nil), b...)
		case "zeros":
			x = vec()
			if r.Chance(0.4) {
				x = make([]float64, f)
			}
		case "ints":
			x = make([]float64, f)
			for j := range x {
				x[j] = float64(r.Intn(3) - 1)
			}
		case "onehot":
			x = make([]float64, f)
			x[r.Intn(f)] = float64(1 - 2*r.Intn(2))
		case "collinear":
			x = append([]float64(nil), b...)
			c := 0.25 * float64(1+r.Intn(16)) * float64(1-2*r.Intn(2))
			for j := range x {
				x[j] *= c
			}
		case "scaled":
			x = vec()
			c := math.Exp(12 * (r.Float() - 0.5))
			for j := range x {
				x[j] *= c
			}
		case "line":
			x = append([]float64(nil), base[0]...)
			d := base[len(base)-1]
			t := r.Float()
			for j := range x {
				x[j] = x[j]*(1-t) - d[j]*t*0.5
			}
		default:
			x = vec()
		}
		if f32 {
			for j := range x {
				x[j] = float64(float32(x[j]))
			}
		}
		res[i] = x
	}
	return res
}

// generic tells whether vectors of this kind are (with overwhelming probability) in general position.
func genericData(kind string) bool { return kind == "gauss" || kind == "scaled" }

// model is the reference: the items of an index.
type model struct {
	f     int
	vecs  map[uint64][]float64
	ids   []uint64 // sorted
	nitem uint64   // largest id + 1
}

func newModel(f int) *model { return &model{f: f, vecs: map[uint64][]float64{}} }

func modelOf(f int, items []item) *model {
	m := newModel(f)
	for _, it := range items {
		m.add(it.id, it.vec)
	}
	return m
}

func (m *model) add(id uint64, v []float64) {
	if _, ok := m.vecs[id]; !ok {
		i := sort.Search(len(m.ids), func(i int) bool { return m.ids[i] >= id })
		m.ids = append(m.ids, 0)
		copy(m.ids[i+1:], m.ids[i:])
		m.ids[i] = id
	}
	m.vecs[id] = v
	if id+1 > m.nitem {
		m.nitem = id + 1
	}
}

func (m *model) clone() *model {
	c := newModel(m.f)
	for _, id := range m.ids {
		c.add(id, m.vecs[id])
	}
	return c
}

func dot(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

// key orders items by distance: the square of the angular distance or the
// negated dot product. tol is a bound for the rounding error of the library.
func (s *Spec) key(a, b []float64) float64 {
	switch s.metric() {
	case "dot":
		return -dot(a, b)
	case "euclid", "manhattan":
		d := 0.0
		for i := range a {
			if x := a[i] - b[i]; s.metric() == "euclid" {
				d += x * x
			} else {
				d += math.Abs(x)
			}
		}
		return d
	}
	return sqDist(a, b)
}

func (s *Spec) tol(a, b []float64) float64 {
	t := s.eps() * float64(s.F+8) * 8
	switch s.metric() {
	case "dot":
		t *= math.Sqrt(dot(a, a)*dot(b, b)) + 1e-30
	case "euclid", "manhattan":
		t *= s.key(a, b) + 1e-30
	}
	return t
}

// keyOf is the key of a distance that was reported.
func (s *Spec) keyOf(d float64) float64 {
	switch s.metric() {
	case "dot":
		return -d
	case "manhattan":
		return d
	}
	if !(d >= 0) {
		return math.NaN()
	}
	return d * d
}

func (s *Spec) shown(key float64) float64 {
	switch s.metric() {
	case "dot":
		return -key
	case "manhattan":
		return key
	}
	return math.Sqrt(key)
}

// ordered tells whether a may be reported before b.
func (s *Spec) ordered(a, b float64) bool {
	if s.Dot {
		return a >= b
	}
	return a <= b
}

// sqDist is the square of the angular distance; vectors without direction are at distance sqrt(2).
func sqDist(a, b []float64) float64 {
	// Scale first: no overflow or underflow of squares
	n := math.Sqrt(dot(a, a)) * math.Sqrt(dot(b, b))
	if !(n > 0) {
		return 2
	}
	d := 2 - 2*dot(a, b)/n
	if d < 0 {
		return 0
	}
	return d
}
