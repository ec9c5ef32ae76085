package main

import (
	"math"
	"sort"
	"unsafe"

	"verifrt"
	"verifrt/simos"
	"verifrt/simsync"

	"github.com/mariotoffia/goannoy/distance"
	"github.com/mariotoffia/goannoy/interfaces"
)

// Parts of an index as an application implements them. They rely on what the
// interfaces promise and report when it is not kept.

// Custom tells which parts of the index are not those of the library.
type Custom struct {
	Metric string `json:"metric,omitempty"` // euclid, manhattan ("": of the library)
	K      int    `json:"k,omitempty"`      // capacity of a bucket (0: as many as fit)
	Pad    int    `json:"pad,omitempty"`    // unused bytes at the end of each record
	Policy string `json:"policy,omitempty"` // handed, queue, single, exclusive
	Rnd    bool   `json:"rnd,omitempty"`
	Sorter bool   `json:"sorter,omitempty"`
	Guard  bool   `json:"guard,omitempty"` // file allocator
	Clause int    `json:"clause"`          // the property that is checked with these parts
}

func (s *Spec) metric() string {
	switch {
	case s.Custom != nil && s.Custom.Metric != "":
		return s.Custom.Metric
	case s.Dot:
		return "dot"
	}
	return "angular"
}

// affine metrics split by planes that need not contain the origin.
func (s *Spec) affine() bool {
	m := s.metric()
	return m == "euclid" || m == "manhattan"
}

// node of the custom distances.
type node[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	desc     TIX
	children [2]TIX
	a        TV // planes: offset; items: a mark set by InitNode
	v        [0]TV
}

func (n *node[TV, TIX]) GetRawVector() *TV { return (*TV)(unsafe.Pointer(&n.v)) }
func (n *node[TV, TIX]) GetVector(l TIX) []TV {
	return unsafe.Slice((*TV)(unsafe.Pointer(&n.v)), l)
}
func (n *node[TV, TIX]) SetVector(v []TV) { copy(n.GetVector(TIX(len(v))), v) }
func (n *node[TV, TIX]) GetRawChildren() *TIX {
	return &n.children[0]
}
func (n *node[TV, TIX]) GetChildren() []TIX {
	return unsafe.Slice(&n.children[0], n.desc)
}
func (n *node[TV, TIX]) SetChildren(c []TIX) {
	copy(unsafe.Slice(&n.children[0], len(c)), c)
}
func (n *node[TV, TIX]) GetNumberOfDescendants() TIX  { return n.desc }
func (n *node[TV, TIX]) SetNumberOfDescendants(d TIX) { n.desc = d }
func (n *node[TV, TIX]) GetNorm() TV                  { return *(*TV)(unsafe.Pointer(&n.children)) }
func (n *node[TV, TIX]) SetNorm(x TV)                 { *(*TV)(unsafe.Pointer(&n.children)) = x }

const mark = 3

// metric is the euclidean or manhattan distance with the split of the original Annoy.
type metric[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	f         int
	size, k   TIX
	manhattan bool
	ready     TIX // items that were preprocessed
}

func (e *env[TV, TIX]) newMetric() *metric[TV, TIX] {
	return &metric[TV, TIX]{f: e.sp.F, size: TIX(e.l.size), k: TIX(e.l.k), manhattan: e.sp.metric() == "manhattan"}
}

func (d *metric[TV, TIX]) node(n interfaces.Node[TV, TIX]) *node[TV, TIX] { return n.(*node[TV, TIX]) }

func (d *metric[TV, TIX]) PreProcess(nodes unsafe.Pointer, n TIX) {
	for i := TIX(0); i < n; i++ {
		if x := d.node(d.MapNodeToMemory(nodes, i)); x.desc > 1 {
			violate("protocol", "PreProcess: item %d has %d descendants", i, x.desc)
		}
	}
	d.ready = n
}

func (d *metric[TV, TIX]) Distance(x, y interfaces.Node[TV, TIX]) TV {
	p, q := d.node(x), d.node(y)
	if p.a != mark || q.a != mark {
		violate("protocol", "Distance of nodes that were not initialised")
	}
	v, w := p.GetVector(TIX(d.f)), q.GetVector(TIX(d.f))
	var s TV
	for i := range v {
		t := v[i] - w[i]
		if !d.manhattan {
			t *= t
		} else if t < 0 {
			t = -t
		}
		s += t
	}
	return s
}

func (d *metric[TV, TIX]) NormalizedDistance(x TV) TV {
	if d.manhattan {
		return x
	}
	return TV(math.Sqrt(math.Max(float64(x), 0)))
}

func (d *metric[TV, TIX]) Normalize(n interfaces.Node[TV, TIX]) {
	v := n.GetVector(TIX(d.f))
	s := 0.0
	for _, x := range v {
		s += float64(x) * float64(x)
	}
	if s = math.Sqrt(s); s > 0 {
		for i := range v {
			v[i] = TV(float64(v[i]) / s)
		}
	}
}

func (d *metric[TV, TIX]) Margin(n interfaces.Node[TV, TIX], y []TV) TV {
	if len(y) != d.f {
		violate("protocol", "Margin: vector of length %d", len(y))
	}
	s := d.node(n).a
	for i, x := range n.GetVector(TIX(d.f)) {
		s += x * y[i]
	}
	return s
}

func (d *metric[TV, TIX]) Side(m, n interfaces.Node[TV, TIX], r interfaces.Random[TIX]) interfaces.Side {
	switch mg := d.Margin(m, n.GetVector(TIX(d.f))); {
	case mg > 0:
		return interfaces.SideRight
	case mg < 0:
		return interfaces.SideLeft
	}
	return r.NextSide()
}

func (d *metric[TV, TIX]) CreateSplit(children []interfaces.Node[TV, TIX], size TIX, r interfaces.Random[TIX], m interfaces.Node[TV, TIX]) {
	if len(children) < 2 || size != d.size {
		violate("protocol", "CreateSplit of %d nodes of %d bytes", len(children), size)
	}
	if d.ready < TIX(len(children)) {
		violate("protocol", "CreateSplit before PreProcess")
	}
	for _, c := range children {
		if n := c.GetNumberOfDescendants(); n != 1 {
			violate("protocol", "CreateSplit of a node with %d descendants", n)
		}
	}
	p := d.MapNodeToMemory(unsafe.Pointer(unsafe.SliceData(make([]uint64, size/8+1))), 0)
	q := d.MapNodeToMemory(unsafe.Pointer(unsafe.SliceData(make([]uint64, size/8+1))), 0)
	distance.TwoMeans[TV, TIX](children, TIX(d.f), r, false, p, q, d)
	pv, qv, mv := p.GetVector(TIX(d.f)), q.GetVector(TIX(d.f)), m.GetVector(TIX(d.f))
	for i := range mv {
		mv[i] = pv[i] - qv[i]
	}
	d.Normalize(m)
	a := 0.0
	for i := range mv {
		a -= float64(mv[i]) * (float64(pv[i]) + float64(qv[i])) / 2
	}
	d.node(m).a = TV(a)
}

func (d *metric[TV, TIX]) MapNodeToMemory(mem unsafe.Pointer, i TIX) interfaces.Node[TV, TIX] {
	return (*node[TV, TIX])(unsafe.Add(mem, uintptr(i)*uintptr(d.size)))
}

func (d *metric[TV, TIX]) PQDistance(dist, margin TV, side interfaces.Side) TV {
	if side == interfaces.SideLeft {
		margin = -margin
	}
	if margin < dist {
		return margin
	}
	return dist
}

func (d *metric[TV, TIX]) PQInitialValue() TV                  { return TV(math.Inf(1)) }
func (d *metric[TV, TIX]) InitNode(n interfaces.Node[TV, TIX]) { d.node(n).a = mark }
func (d *metric[TV, TIX]) MaxNumChildren() TIX                 { return d.k }
func (d *metric[TV, TIX]) NodeSize() TIX                       { return d.size }
func (d *metric[TV, TIX]) VectorLength() TIX                   { return TIX(d.f) }
func (d *metric[TV, TIX]) String() string                      { return "metric" }

// userPolicy distributes the trees over the workers. The locks are others for
// each build and are handed to the workers.
type userPolicy struct {
	kind string
}

func (p *userPolicy) no(what string) {
	violate("protocol", "%s of the policy is used, instead of that of the policy handed to the worker", what)
}
func (p *userPolicy) LockNNodes()        { p.no("LockNNodes") }
func (p *userPolicy) UnlockNNodes()      { p.no("UnlockNNodes") }
func (p *userPolicy) LockNodes()         { p.no("LockNodes") }
func (p *userPolicy) UnlockNodes()       { p.no("UnlockNodes") }
func (p *userPolicy) LockSharedNodes()   { p.no("LockSharedNodes") }
func (p *userPolicy) UnlockSharedNodes() { p.no("UnlockSharedNodes") }
func (p *userPolicy) LockRoots()         { p.no("LockRoots") }
func (p *userPolicy) UnlockRoots()       { p.no("UnlockRoots") }

func (p *userPolicy) Build(b interfaces.AnnoyIndexBuilder, trees, workers int) {
	if workers < 1 {
		workers = 3
	}
	if trees < 0 && p.kind != "handed" {
		workers = 1
	}
	l := &userLocks{userPolicy: userPolicy{p.kind}, held: map[int]uint8{}}
	do := func(n, worker int) {
		b.ThreadBuild(n, worker, l)
		if h := l.held[rt.Cur()]; h != 0 {
			violate("protocol", "worker %d ended with locks held (%b)", worker, h)
		}
	}
	switch {
	case p.kind == "single" || workers == 1:
		if trees < 0 {
			do(trees, 0)
		}
		for i := 0; i < trees; i++ {
			do(1, i)
		}
	default:
		var wg simsync.WaitGroup
		wg.Add(workers)
		for w := 0; w < workers; w++ {
			w := w
			rt.Go(func() {
				switch p.kind {
				case "queue":
					for i := w; i < trees; i += workers {
						do(1, i)
					}
				default:
					n := trees
					if trees >= 0 {
						n = trees / workers
						if w < trees%workers {
							n++
						}
					}
					do(n, w)
				}
				wg.Done()
			})
		}
		wg.Wait()
	}
}

type userLocks struct {
	userPolicy
	nnodes, roots simsync.Mutex
	nodes         simsync.RWMutex
	held          map[int]uint8
}

func (l *userLocks) enter(what string, bit uint8) {
	t := rt.Cur()
	if l.held[t]&bit != 0 {
		violate("protocol", "%s while it is held", what)
	}
}

func (l *userLocks) entered(bit uint8) { l.held[rt.Cur()] |= bit }

func (l *userLocks) exit(what string, bit uint8) {
	t := rt.Cur()
	if l.held[t]&bit == 0 {
		violate("protocol", "%s while it is not held", what)
	}
	l.held[t] &^= bit
}

func (l *userLocks) LockNNodes() {
	l.enter("LockNNodes", 1)
	l.nnodes.Lock()
	l.entered(1)
}

func (l *userLocks) UnlockNNodes() {
	l.exit("UnlockNNodes", 1)
	l.nnodes.Unlock()
}

func (l *userLocks) LockNodes() {
	l.enter("LockNodes", 2|4)
	l.nodes.Lock()
	l.entered(2)
}

func (l *userLocks) UnlockNodes() {
	l.exit("UnlockNodes", 2)
	l.nodes.Unlock()
}

func (l *userLocks) LockSharedNodes() {
	l.enter("LockSharedNodes", 2)
	if l.kind == "exclusive" {
		l.enter("LockSharedNodes", 4)
		l.nodes.Lock()
	} else {
		l.nodes.RLock()
	}
	l.entered(4)
}

func (l *userLocks) UnlockSharedNodes() {
	l.exit("UnlockSharedNodes", 4)
	if l.kind == "exclusive" {
		l.nodes.Unlock()
	} else {
		l.nodes.RUnlock()
	}
}

func (l *userLocks) LockRoots() {
	l.enter("LockRoots", 8)
	l.roots.Lock()
	l.entered(8)
}

func (l *userLocks) UnlockRoots() {
	l.exit("UnlockRoots", 8)
	l.roots.Unlock()
}

// userRandom is a generator that is not safe for concurrent use.
type userRandom[TIX interfaces.IndexTypes] struct {
	seed  TIX
	r     *rt.Prng
	owner int
}

func newUserRandom[TIX interfaces.IndexTypes](seed TIX) *userRandom[TIX] {
	return &userRandom[TIX]{seed: seed, r: rt.NewPrng(uint64(seed), 77), owner: -1}
}

func (u *userRandom[TIX]) Next() TIX {
	if t := rt.Cur(); u.owner < 0 {
		u.owner = t
	} else if u.owner != t {
		violate("protocol", "a random generator is used by threads %d and %d", u.owner, t)
	}
	return TIX(u.r.Next())
}

func (u *userRandom[TIX]) NextSide() interfaces.Side { return interfaces.Side(u.Next() >> 7 & 1) }

func (u *userRandom[TIX]) NextIndex(n TIX) TIX {
	if n == 0 {
		violate("protocol", "NextIndex(0)")
	}
	return u.Next() % n
}

func (u *userRandom[TIX]) SetSeed(s TIX) {
	u.seed = s
	u.r = rt.NewPrng(uint64(s), 77)
}
func (u *userRandom[TIX]) GetSeed() TIX { return u.seed }
func (u *userRandom[TIX]) CloneAndReset() interfaces.Random[TIX] {
	return newUserRandom(u.seed)
}

// userSorter leaves what it need not sort in an unusual order.
type userSorter[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct{}

// sorted counts the calls, asked the answers that had to be sorted.
var sorted, asked int

func (userSorter[TV, TIX]) SortSlice(s []TIX) {
	sorted++
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
}

func (userSorter[TV, TIX]) SortPairs(s []*interfaces.Pair[TV, TIX]) {
	sorted++
	sort.Slice(s, func(i, j int) bool { return s[i].Less(s[j]) })
}

func (u userSorter[TV, TIX]) PartialSortSlice(s interfaces.Pairs[TV, TIX], begin, middle, end int) {
	if begin < 0 || end > len(s) || begin > end || middle > end {
		violate("protocol", "PartialSortSlice(%d, %d, %d) of %d", begin, middle, end, len(s))
	}
	u.SortPairs(s[begin:end])
	if middle < begin {
		middle = begin
	}
	for i, j := middle, end-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
}

// guarded is a file allocator whose memory ends where the file ends and is
// inaccessible after Close.
type guarded struct {
	open int
}

type guardedIndex struct {
	parent *guarded
	region []byte
	off, n int
}

var guards []*guarded

func (g *guarded) Open(p string) (interfaces.AllocatedIndex, error) {
	rt.SyncPoint()
	data, ok := simos.Disk.Content(p)
	if !ok || len(data) == 0 {
		return nil, errGuarded
	}
	reg := simos.HostileRegion(len(data))
	off := (len(reg) - 4096 - len(data)) &^ 3
	copy(reg[off:], data)
	g.open++
	return &guardedIndex{g, reg, off, len(data)}, nil
}

func (g *guarded) Get(string) (interfaces.AllocatedIndex, bool) { return nil, false }

func (i *guardedIndex) Ptr() unsafe.Pointer { return unsafe.Pointer(&i.region[i.off]) }
func (i *guardedIndex) Size() int64         { return int64(i.n) }
func (i *guardedIndex) Close() error {
	rt.SyncPoint()
	if i.region != nil {
		simos.Poison(i.region)
		i.region = nil
		i.parent.open--
	}
	return nil
}

type guardedError string

func (g guardedError) Error() string { return string(g) }

const errGuarded = guardedError("no such index")

// X01: an index of custom parts

func genX01(r *rt.Prng, sp *Spec) {
	c := &Custom{Clause: r.Intn(6)}
	switch {
	case r.Chance(0.04):
		c.Clause = 6
	case r.Chance(0.15):
		c.Clause = 7
	}
	switch c.Clause {
	case 0:
		genB01(r, sp)
	case 1:
		genB02(r, sp)
	case 2:
		genS02(r, sp)
	case 3:
		genS03(r, sp)
	case 4:
		genP01(r, sp)
	case 5:
		genS01(r, sp)
	case 6:
		genQ01(r, sp)
		sp.N = 200 + r.Intn(300)
		sp.Data = pick(r, "gauss", "cluster", "far", "far")
	case 7:
		genL01(r, sp)
	}
	if c.Clause == 6 || r.Chance(0.75) {
		c.Metric = pick(r, "euclid", "manhattan")
		sp.Dot = false
		if r.Chance(0.4) && c.Clause != 6 {
			c.K = 2 + r.Intn(4)
		}
		if r.Chance(0.3) {
			c.Pad = 8 * (1 + r.Intn(3))
		}
	}
	if r.Chance(0.6) {
		c.Policy = pick(r, "handed", "queue", "single", "exclusive")
	}
	c.Rnd = r.Chance(0.4)
	c.Sorter = r.Chance(0.4)
	c.Guard = r.Chance(0.4)
	if sp.T == -1 {
		sp.T = 2
	}
	if c.Clause != 6 {
		sp.atMost(r, 20, 99)
	}
	if sp.F > 300 { // takes long
		sp.F, sp.N = 300, 1+r.Intn(300)
	}
	sp.Custom = c
}

// built tells whether the builder can make such an index.
func (c *Custom) built() bool {
	return c == nil || c.Metric == "" && c.Policy == "" && !c.Guard
}

func (e *env[TV, TIX]) runX01() {
	guards = nil
	sorted, asked = 0, 0
	switch e.sp.Custom.Clause {
	case 0:
		e.runB01()
	case 1:
		e.runB02()
	case 2:
		e.runS02()
	case 3:
		e.runS03()
	case 4:
		e.runP01()
	case 5:
		e.runS01()
	case 6:
		e.runQ01()
	case 7:
		e.runHistory()
	}
	if e.sp.Custom.Sorter && sorted == 0 && asked > 0 {
		violate("protocol", "%d answers but the sorter was never used", asked)
	}
	for _, g := range guards {
		if g.open != 0 {
			violate("leak", "%d allocations of a file allocator were not closed", g.open)
		}
	}
}
