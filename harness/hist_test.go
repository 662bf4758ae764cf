package zzverif

import (
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"pgregory.net/rapid"
)

// ---- reference model of a versioned document

// MDoc is a versioned document: a first version with a state, the changes of
// all later versions, and the pending changes.
type MDoc struct {
	base  *V
	first uint64
	keep  []Op // changes of the first version, which a slice still lists
	prior *V   // the state before those, if the document is a slice
	vers  [][]Op
	pend  []Op
}

func (d *MDoc) last() uint64 { return d.first + uint64(len(d.vers)) }

// all lists the changes after the first version, appended and pending.
func (d *MDoc) all() (ops []Op) {
	for _, v := range d.vers {
		ops = append(ops, v...)
	}
	return append(ops, d.pend...)
}

func (d *MDoc) snap(v uint64) *V {
	doc := d.base
	for i := uint64(0); i < v-d.first; i++ {
		doc = applyAll(doc, d.vers[i])
	}
	return doc
}

func (d *MDoc) cur() *V { return applyAll(d.base, d.all()) }

func (d *MDoc) ts(t int64) *V {
	var ops []Op
	for _, o := range d.all() {
		if o.T <= t {
			ops = append(ops, o)
		}
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].T < ops[j].T })
	return applyAll(d.base, ops)
}

func (d *MDoc) appendPending() {
	if len(d.pend) > 0 {
		d.vers = append(d.vers, d.pend)
		d.pend = nil
	}
}

func (d *MDoc) ops(v uint64) []Op {
	if v == d.first {
		return d.keep
	}
	return d.vers[v-d.first-1]
}

func (d *MDoc) slice(i, j uint64) *MDoc {
	s := &MDoc{base: d.snap(i), first: i, keep: d.ops(i), prior: d.prior}
	if i > d.first {
		s.prior = d.snap(i - 1)
	}
	for v := i + 1; v <= j; v++ {
		s.vers = append(s.vers, slices.Clone(d.ops(v)))
	}
	return s
}

func (d *MDoc) clone() *MDoc {
	c := *d
	c.vers, c.pend = nil, slices.Clone(d.pend)
	for _, v := range d.vers {
		c.vers = append(c.vers, slices.Clone(v))
	}
	return &c
}

// ---- steps of a history

// Step is one call changing a document.
type Step struct {
	Kind string `json:"kind"` // store, set, testset, append
	Ops  []Op   `json:"ops,omitempty"`
	Back uint64 `json:"back,omitempty"` // tells which version a set names
}

// run does the step on the model.
func (d *MDoc) run(s Step) {
	switch s.Kind {
	case "store":
		d.pend = append(d.pend, s.Ops...)
	case "set":
		d.pend = append(d.pend, s.Ops[0])
	case "testset":
		if o, records := d.testSet(s.Ops[0]); records {
			d.pend = append(d.pend, o)
		}
	case "append":
		d.appendPending()
	default:
		panic(harnessError{fmt.Errorf("step %q", s.Kind)})
	}
}

// testSet tells what a conditional set records.
func (d *MDoc) testSet(o Op) (Op, bool) {
	old := d.cur().at(splitPath(o.Path))
	if old == nil {
		o.Op = "add"
		return o, true
	}
	return o, o.Op == "add" || !same(old, o.leafValue(), true)
}

func exec(l *logument.Logument, s Step) error {
	switch s.Kind {
	case "store":
		l.Store(sutPatch(s.Ops))
	case "set":
		l.Set(s.version(l), s.Ops[0].Sut())
	case "testset":
		l.TestSet(s.version(l), s.Ops[0].Sut())
	case "append":
		return l.Append()
	}
	return nil
}

// version is the version which a set names: mostly one of the document or the next.
func (s Step) version(l *logument.Logument) uint64 {
	next := l.Version[len(l.Version)-1] + 1
	switch s.Back {
	case 100:
		return 0
	case 101:
		return uint64(len(l.Version))
	case 102:
		return next + 1
	}
	return next - (s.Back+1)%(uint64(len(l.Version))+1)
}

func runAll(l *logument.Logument, d *MDoc, steps []Step) error {
	for i, s := range steps {
		if err := exec(l, s); err != nil {
			return fmt.Errorf("step %d (%s): %v", i, s.Kind, err)
		}
		d.run(s)
	}
	return nil
}

// dump is everything a document holds, except for memoised snapshots.
type dump struct {
	versions []uint64
	patches  map[uint64][]Op
	cur      *V
	pool     []Op
}

func dumpOf(l *logument.Logument) (d dump, err error) {
	d.versions = slices.Clone(l.Version)
	d.patches = map[uint64][]Op{}
	for v, p := range l.Patches {
		if d.patches[v], err = modelPatch(p); err != nil {
			return d, err
		}
	}
	if d.cur, err = fromTson(l.CurrentState); err != nil {
		return d, err
	}
	d.pool, err = modelPatch(l.PatchPool)
	return d, err
}

func (d *MDoc) dump() dump {
	r := dump{patches: map[uint64][]Op{}, cur: d.cur(), pool: d.pend}
	for v := d.first; v <= d.last(); v++ {
		r.versions = append(r.versions, v)
		if ops := d.ops(v); v != d.first || len(ops) > 0 {
			r.patches[v] = ops
		}
	}
	return r
}

func (got dump) equal(want dump, ignoreTs bool) error {
	if !slices.Equal(got.versions, want.versions) {
		return fmt.Errorf("versions are %v, want %v", got.versions, want.versions)
	}
	if !sameOps(got.pool, want.pool) {
		return fmt.Errorf("pending changes are %s, want %s", opsText(got.pool), opsText(want.pool))
	}
	for v, ops := range got.patches {
		if !sameOps(ops, want.patches[v]) {
			return fmt.Errorf("version %d holds %s, want %s", v, opsText(ops), opsText(want.patches[v]))
		}
	}
	for v, ops := range want.patches {
		if len(ops) > 0 && got.patches[v] == nil {
			return fmt.Errorf("version %d holds no changes, want %s", v, opsText(ops))
		}
	}
	if !same(got.cur, want.cur, ignoreTs) {
		return fmt.Errorf("the current state differs %s", diffText(want.cur, got.cur, "", ignoreTs))
	}
	return nil
}

// wantDump checks that the document holds what the model holds.
func wantDump(what string, l *logument.Logument, d *MDoc) error {
	got, err := dumpOf(l)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if err := got.equal(d.dump(), false); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	return nil
}

// ---- generators

type histOpts struct {
	notation int // 0 pointers, 1 dotted, 2 both
	pending  bool
	cuts     bool // the document may be a slice
	flat     bool // leaf updates of a flat document with timestamps in any order
	anytime  bool // timestamps in any order (only for what does not depend on them)
	early    bool // timestamps may be less than -1, the one which says that there is none
	maxSteps int
	kinds    []string
}

var histKeys = []string{"a", "b", "c", "ab", "a", "b", "A"}
var histOddKeys = []string{"a", "b", "ab", " a", "b ", "a/b", "a~b", "0", "1", "", "a.b", "~1", "a b", "/", "a~1b", "~", "~01"}

var flatKeys = []string{"a", "b", "c", "d"}

func (o histOpts) doc(rt *rapid.T, t0 int64) *V {
	if o.flat {
		v := vObj()
		for _, key := range flatKeys[:rapid.IntRange(0, 4).Draw(rt, "initial")] {
			v.put(key, vNum(0, int64(rapid.IntRange(-1, 5).Draw(rt, "t"))))
		}
		return v
	}
	d := docOpts{depth: rapid.IntRange(1, 3).Draw(rt, "depth"), key: func(rt *rapid.T) string {
		if o.notation == 0 && chance(rt, 30) {
			return pick(rt, "key", histOddKeys...)
		}
		return pick(rt, "key", histKeys...)
	}, str: func(rt *rapid.T) string { return pick(rt, "str", "x", "y", "") },
		num: func(rt *rapid.T) float64 { return float64(rapid.IntRange(0, 3).Draw(rt, "num")) },
		time: func(rt *rapid.T) int64 {
			if chance(rt, 20) {
				return -1
			}
			return max(t0-int64(rapid.IntRange(0, 5).Draw(rt, "before")), 0)
		}}.fill()
	if chance(rt, 5) {
		return genLeaf(rt, d)
	}
	if chance(rt, 5) {
		return genArray(rt, d)
	}
	v := genObject(rt, d)
	if len(v.O) == 0 {
		v.put("a", genValue(rt, d))
	}
	return v
}

func (o histOpts) path(rt *rapid.T, segs []string) string {
	if len(segs) > 0 && (o.notation == 1 || o.notation == 2 && rapid.Bool().Draw(rt, "dotted")) {
		if d, ok := dotted(segs); ok {
			return d
		}
	}
	return pointer(segs)
}

func histValue(rt *rapid.T, old *V) *V {
	if old != nil && old.leaf() && chance(rt, 50) {
		v := old.clone()
		v.T = 0
		if v.K == "n" && v.N == math.Trunc(v.N) && math.Abs(v.N) < 1<<53 && chance(rt, 20) {
			v.K = "i"
		} else if v.K == "n" && chance(rt, 8) {
			v.N = nearNumber(rt, v.N)
		} else if v.K == "s" && chance(rt, 8) {
			v.S = nearString(rt, v.S)
		}
		return v
	}
	switch rapid.IntRange(0, 4).Draw(rt, "value") {
	case 0, 1:
		return vNum(float64(rapid.IntRange(0, 3).Draw(rt, "num")), 0)
	case 2:
		return vStr(pick(rt, "str", "x", "y", "", "z"), 0)
	case 3:
		return vBool(rapid.Bool().Draw(rt, "bool"), 0)
	default:
		if chance(rt, 10) {
			return &V{K: "i", N: pick[float64](rt, "int", 5e9, -1<<40, 1<<53-1, -1, 300)}
		}
		return &V{K: "i", N: float64(rapid.IntRange(0, 3).Draw(rt, "int"))}
	}
}

// op draws an applicable operation on the document.
func (o histOpts) op(rt *rapid.T, doc *V, t int64, set bool) (Op, bool) {
	if o.flat {
		return Op{Op: pick(rt, "op", "add", "replace"), Path: "/" + pick(rt, "key", flatKeys...), V: histValue(rt, nil), T: t}, true
	}
	var leaves, containers, others [][]string
	doc.walk(nil, func(segs []string, v *V) {
		segs = append([]string{}, segs...)
		if v.leaf() {
			leaves = append(leaves, segs)
		} else if v.container() {
			containers = append(containers, segs)
		}
		if len(segs) > 0 && v.K != "z" {
			others = append(others, segs)
		}
	})
	r := Op{Op: pick(rt, "op", "replace", "add"), T: t}
	var segs []string
	choice := rapid.IntRange(0, 9).Draw(rt, "choice")
	switch {
	case choice == 9 && len(others) > 0 && !set:
		r.Op = "remove"
		segs = others[rapid.IntRange(0, len(others)-1).Draw(rt, "node")]
	case choice >= 7 && len(containers) > 0:
		segs = append([]string{}, containers[rapid.IntRange(0, len(containers)-1).Draw(rt, "in")]...)
		for n := pick(rt, "levels", 1, 1, 1, 2, 3); n > 0; n-- {
			if at := doc.at(segs); at != nil && at.K == "a" {
				segs = append(segs, strconv.Itoa(rapid.IntRange(0, len(at.A)+1).Draw(rt, "index")))
			} else if o.notation == 0 && chance(rt, 20) {
				segs = append(segs, pick(rt, "odd", histOddKeys...))
			} else {
				segs = append(segs, pick(rt, "key", histKeys...))
			}
		}
	case len(leaves) > 0:
		segs = leaves[rapid.IntRange(0, len(leaves)-1).Draw(rt, "leaf")]
	default:
		return r, false
	}
	if len(segs) == 0 && doc.container() && !chance(rt, 5) {
		return r, false
	}
	r.Path = o.path(rt, segs)
	if r.Op != "remove" {
		r.V = histValue(rt, doc.at(segs))
	}
	if _, res := applyOp(doc, r); res != applied {
		return r, false
	}
	return r, true
}

// histGen draws the steps of a history while following it on the model.
type histGen struct {
	histOpts
	d      *MDoc
	t      int64
	offset int // of timestamps in no order
}

// newHist starts a history.
func newHist(rt *rapid.T, o histOpts, init *V, t0 int64) *histGen {
	g := &histGen{histOpts: o, d: &MDoc{base: init}, t: t0}
	if o.early {
		g.offset = pick(rt, "offset", 0, 0, 1, 2, 3)
		if odds(rt, 10) {
			g.t = pick[int64](rt, "early", -1, -4, -20, math.MinInt64, -1<<40)
		}
	}
	return g
}

// anyTime draws a timestamp for a history in no order.
func (g *histGen) anyTime(rt *rapid.T) int64 {
	t := int64(rapid.IntRange(0, 20).Draw(rt, "t"))
	switch g.offset {
	case 1:
		return t - 1
	case 2:
		return t - 10
	case 3: // so far apart that the difference is no int64
		return pick(rt, "extreme", math.MinInt64+t, math.MaxInt64-t, t, t-10)
	}
	return t
}

func (g *histGen) tick(rt *rapid.T) int64 {
	if g.flat || g.anytime {
		return g.anyTime(rt)
	}
	if tick := int64(rapid.IntRange(0, 3).Draw(rt, "tick")); g.t < math.MaxInt64-tick {
		g.t += tick
	} else {
		g.t = math.MaxInt64
	}
	return g.t
}

func (g *histGen) step(rt *rapid.T) (Step, bool) {
	kinds := g.kinds
	if kinds == nil {
		kinds = []string{"store", "append", "store", "set", "testset", "append"}
	}
	s := Step{Kind: pick(rt, "step", kinds...)}
	doc := g.d.cur()
	switch s.Kind {
	case "store":
		for n := rapid.IntRange(1, 4).Draw(rt, "ops"); n > 0; n-- {
			o, ok := g.op(rt, doc, g.tick(rt), false)
			if !ok {
				continue
			}
			s.Ops = append(s.Ops, o)
			doc, _ = applyOp(doc, o)
		}
		if len(s.Ops) == 0 {
			return s, false
		}
	case "set", "testset":
		o, ok := g.op(rt, doc, g.tick(rt), true)
		if !ok || s.Kind == "testset" && o.Op == "add" && doc.at(splitPath(o.Path)) != nil {
			return s, false
		}
		s.Ops = []Op{o}
		if chance(rt, 20) {
			s.Back = pick[uint64](rt, "back", 0, 1, 2, 3, 20, 60, 100, 101, 102)
		}
	}
	g.d.run(s)
	return s, true
}

func (g *histGen) steps(rt *rapid.T, lo, hi int) (steps []Step) {
	for n := rapid.IntRange(lo, hi).Draw(rt, "steps"); n > 0; n-- {
		if s, ok := g.step(rt); ok {
			steps = append(steps, s)
		}
	}
	return steps
}

// genStart draws the time at which a history starts.
func genStart(rt *rapid.T) int64 {
	return pick[int64](rt, "t0", 10, 100, 0, 0, 1700000000, 1745000000000000000, math.MaxInt64-1000, math.MaxInt64-3)
}

// long draws a history of more than 10 versions, of one change each.
func (g *histGen) long(rt *rapid.T) (steps []Step) {
	n := rapid.IntRange(11, 25).Draw(rt, "versions")
	if chance(rt, 10) {
		n = rapid.IntRange(60, 200).Draw(rt, "many")
	}
	for ; n > 0; n-- {
		o, ok := g.op(rt, g.d.cur(), g.tick(rt), false)
		if !ok {
			continue
		}
		for _, s := range []Step{{Kind: "store", Ops: []Op{o}}, {Kind: "append"}} {
			g.d.run(s)
			steps = append(steps, s)
		}
	}
	return steps
}

// bulk draws a history which is large in one respect: members, elements,
// versions, levels, or lengths of strings. It begins a document of its own.
func (g *histGen) bulk(rt *rapid.T) (steps []Step) {
	r := rand.New(rand.NewPCG(uint64(rapid.Uint32().Draw(rt, "seed")), 1))
	n := even(rt, "size", 18, 34, 66, 70, 130, 270, 600)
	hold := even(rt, "hold", 0, 0, 2, 9) // stores without an append
	value := func() *V {
		if r.IntN(6) == 0 {
			return vStr([]string{"x", "y", "0", "1"}[r.IntN(4)], 0)
		}
		return vNum(float64(r.IntN(3)), 0)
	}
	init, at := vObj(), func() []string { return []string{"a"} }
	versions, perVersion := 3+r.IntN(3), n/2
	switch even(rt, "bulk", "wide", "array", "versions", "deep", "strings") {
	case "wide":
		name := func(i int) []string {
			if i%3 == 0 {
				return []string{"g", "k" + strconv.Itoa(i)}
			}
			return []string{"k" + strconv.Itoa(i)}
		}
		for i := range n {
			if r.IntN(4) > 0 {
				init, _ = modelSet(init, name(i), value())
			}
		}
		at = func() []string { return name(r.IntN(n)) }
	case "array":
		list := vArr()
		for range n - n/4 {
			list.A = append(list.A, value())
		}
		init.put("list", list)
		at = func() []string { return []string{"list", strconv.Itoa(r.IntN(n))} }
	case "versions":
		init.put("a", value())
		versions, perVersion = min(max(n, 66), 300), 1
		at = func() []string { return [][]string{{"a"}, {"b"}, {"c", "a"}}[r.IntN(3)] }
	case "deep":
		n = min(n, 40)
		var chain []string
		for range n {
			chain = append(chain, "d")
		}
		versions, perVersion = 4, 3
		at = func() []string { return append(slices.Clone(chain[:r.IntN(n)+1]), []string{"x", "y"}[r.IntN(2)]) }
	default:
		n *= 1 + r.IntN(20)
		value = func() *V { return vStr(strings.Repeat("ab\u0001 \u2028<", n/6+1)+string(rune('a'+r.IntN(2))), 0) }
		init.put("a", value())
		versions, perVersion = 4, 3
		at = func() []string { return [][]string{{"a"}, {"b"}}[r.IntN(2)] }
	}
	g.d = &MDoc{base: init}
	doc := init
	for range versions {
		s := Step{Kind: "store"}
		for range perVersion {
			if r.IntN(3) == 0 {
				g.t += min(int64(r.IntN(3)), math.MaxInt64-g.t)
			}
			if g.anytime {
				g.t = int64(r.IntN(20))
			}
			o := Op{Op: "replace", Path: g.path(rt, at()), V: value(), T: g.t}
			if r.IntN(8) == 0 {
				o.Op, o.V = "remove", nil
			}
			if doc.at(splitPath(o.Path)) == nil && o.Op == "remove" {
				continue
			}
			next, res := applyOp(doc, o)
			if res != applied {
				continue
			}
			doc = next
			s.Ops = append(s.Ops, o)
		}
		if len(s.Ops) == 0 {
			continue
		}
		g.d.run(s)
		steps = append(steps, s)
		if hold--; hold >= 0 {
			continue
		}
		s = Step{Kind: "append"}
		g.d.run(s)
		steps = append(steps, s)
	}
	return steps
}

type histCase struct {
	Init  *V     `json:"init"`
	Steps []Step `json:"steps"`
	Cut   *Cut   `json:"cut,omitempty"`
}

// Cut goes on with a slice of the document.
type Cut struct {
	I    uint64 `json:"i"`
	J    uint64 `json:"j"`
	More []Step `json:"more"`
}

func genHist(rt *rapid.T, o histOpts) (histCase, *histGen) {
	t0 := genStart(rt)
	init := o.doc(rt, t0)
	g := newHist(rt, o, init, t0)
	if o.maxSteps == 0 {
		o.maxSteps = 12
	}
	k := histCase{Init: init}
	if !o.flat && odds(rt, 1) {
		k.Steps = append(g.bulk(rt), g.steps(rt, 0, 2)...)
		k.Init = g.d.base
	} else if chance(rt, 6) {
		k.Steps = g.long(rt)
	} else {
		k.Steps = g.steps(rt, 1, o.maxSteps)
	}
	steps := &k.Steps
	if o.cuts && len(g.d.vers) > 0 && chance(rt, 25) {
		k.Cut = &Cut{}
		k.Cut.I, k.Cut.J = g.someRange(rt)
		g.d = g.d.slice(k.Cut.I, k.Cut.J)
		k.Cut.More = g.steps(rt, 0, 6)
		steps = &k.Cut.More
	}
	if !o.pending && len(g.d.pend) > 0 {
		s := Step{Kind: "append"}
		g.d.run(s)
		*steps = append(*steps, s)
	}
	return k, g
}

// times draws times around the timestamps of the history.
func (g *histGen) someTime(rt *rapid.T) int64 {
	all := g.d.all()
	if len(all) == 0 || chance(rt, 10) {
		return pick[int64](rt, "time", math.MinInt64, -1, 0, math.MaxInt64, math.MaxInt64-1)
	}
	return all[rapid.IntRange(0, len(all)-1).Draw(rt, "of")].T + int64(rapid.IntRange(-1, 1).Draw(rt, "offset"))
}

func (g *histGen) someVersion(rt *rapid.T) uint64 {
	return g.d.first + uint64(rapid.IntRange(0, len(g.d.vers)).Draw(rt, "version"))
}

func (g *histGen) someRange(rt *rapid.T) (uint64, uint64) {
	a, b := g.someVersion(rt), g.someVersion(rt)
	return min(a, b), max(a, b)
}

func (g *histGen) someTimes(rt *rapid.T) (int64, int64) {
	a, b := g.someTime(rt), g.someTime(rt)
	return min(a, b), max(a, b)
}

// somePath draws a path of the history, one of its ancestors, or a similar one.
func (g *histGen) somePath(rt *rapid.T) string {
	all := g.d.all()
	segs := []string{pick(rt, "path", histKeys...)}
	if len(all) > 0 && chance(rt, 95) {
		segs = splitPath(all[rapid.IntRange(0, len(all)-1).Draw(rt, "of")].Path)
		if len(segs) > 0 && chance(rt, 60) {
			segs = segs[:rapid.IntRange(0, len(segs)).Draw(rt, "ancestor")]
		}
	}
	return g.path(rt, segs)
}

// Query is a call which must not change anything.
type Query struct {
	Kind string `json:"kind"`
	V    uint64 `json:"v,omitempty"`
	W    uint64 `json:"w,omitempty"`
	A    int64  `json:"a,omitempty"`
	B    int64  `json:"b,omitempty"`
	Path string `json:"path,omitempty"`
}

func (g *histGen) query(rt *rapid.T, kinds ...string) Query {
	if kinds == nil {
		kinds = []string{"snapshot", "tsnapshot", "slice", "tslice", "track", "ttrack", "history"}
	}
	q := Query{Kind: pick(rt, "query", kinds...)}
	switch q.Kind {
	case "snapshot":
		q.V = g.someVersion(rt)
	case "tsnapshot":
		q.A = g.someTime(rt)
		g.d.appendPending()
	case "slice", "track":
		q.V, q.W = g.someRange(rt)
	case "tslice":
		q.A, q.B = g.someTimes(rt)
		g.d.appendPending()
	case "ttrack":
		q.A, q.B = g.someTimes(rt)
	case "history":
		q.Path = g.somePath(rt)
	}
	return q
}

// ask runs a query; its result can be read at any time later.
func ask(l *logument.Logument, d *MDoc, q Query) (read func() (any, error)) {
	switch q.Kind {
	case "snapshot":
		r := l.Snapshot(q.V)
		return func() (any, error) { return anyErr(fromTson(r)) }
	case "tsnapshot":
		r := l.TemporalSnapshot(q.A)
		d.appendPending()
		return func() (any, error) { return anyErr(fromTson(r)) }
	case "slice":
		r := l.Slice(q.V, q.W)
		return func() (any, error) { return anyErr(dumpOf(r)) }
	case "tslice":
		r := l.TemporalSlice(q.A, q.B)
		d.appendPending()
		return func() (any, error) { return anyErr(dumpOf(r)) }
	case "track":
		r := l.Track(q.V, q.W)
		return func() (any, error) { return anyErr(readTrack(r)) }
	case "ttrack":
		r := l.TemporalTrack(q.A, q.B)
		return func() (any, error) { return anyErr(readTrack(r)) }
	case "history":
		r := l.History(q.Path)
		return func() (any, error) { return anyErr(readHistory(r)) }
	}
	panic(harnessError{fmt.Errorf("query %q", q.Kind)})
}

func anyErr[T any](x T, err error) (any, error) { return x, err }

func readTrack(r map[uint64]tsonpatch.Patch) (map[uint64][]Op, error) {
	m := map[uint64][]Op{}
	for v, p := range r {
		ops, err := modelPatch(p)
		if err != nil {
			return nil, err
		}
		if len(ops) > 0 {
			m[v] = ops
		}
	}
	return m, nil
}

// readHistory turns a history into operations; the initial value may be a document.
func readHistory(r map[string]tsonpatch.Patch) (map[string][]Op, error) {
	m := map[string][]Op{}
	for key, p := range r {
		for _, o := range p {
			if t, ok := o.Value.(tson.Tson); ok {
				v, err := fromTson(t)
				if err != nil {
					return nil, err
				}
				m[key] = append(m[key], Op{string(o.Op), o.Path, v, o.Timestamp})
				continue
			}
			op, err := modelOp(o)
			if err != nil {
				return nil, err
			}
			m[key] = append(m[key], op)
		}
	}
	return m, nil
}

// ---- redundant changes

// located is a change together with its place in the history.
type located struct {
	op        Op
	segs      []string
	version   uint64
	redundant bool // it sets a value to what it already was
}

// locate lists the appended changes with their effect. A slice starts with
// the changes of its first version.
func (d *MDoc) locate() (all []located) {
	doc := d.prior
	if doc == nil {
		doc = d.base
	}
	for i, ops := range append([][]Op{d.keep}, d.vers...) {
		for _, o := range ops {
			segs := splitPath(o.Path)
			l := located{op: o, segs: segs, version: d.first + uint64(i)}
			if v := o.leafValue(); o.Op != "remove" {
				old := doc.at(segs)
				l.redundant = old != nil && same(old, v, true)
			}
			doc = applyAll(doc, []Op{o})
			all = append(all, l)
		}
	}
	return all
}

// related tells whether an operation at path b may change what is at path a.
func related(a []string, b located) bool {
	scope := b.segs
	if n := len(scope); b.op.Op == "remove" && n > 0 && isIndex(scope[n-1]) {
		scope = scope[:n-1]
	}
	for i := 0; i < len(a) && i < len(scope); i++ {
		if a[i] != scope[i] {
			return false
		}
	}
	return true
}

// checkFiltered decides whether got is what may remain of the changes all
// when redundant ones are left out: a subsequence, without losing any change
// of a value, and without repeating a value. Only changes for which may is
// true may be left out (and have to, if repeated).
func checkFiltered(got []located, all []located, may func(located) bool) error {
	kept := make([]bool, len(all))
	j := 0
	for i := range all {
		if j < len(got) && got[j].version == all[i].version && sameOp(got[j].op, all[i].op) {
			kept[i] = true
			j++
		}
	}
	if j < len(got) {
		return fmt.Errorf("%s (version %d) was not recorded there, or in this order", opText(got[j].op), got[j].version)
	}
	lastKept := map[string]int{}
	for i, l := range all {
		key := pointer(l.segs)
		if !kept[i] {
			switch {
			case !may(l):
				return fmt.Errorf("%s (version %d) is missing, and it does not belong to what may be left out", opText(l.op), l.version)
			case l.op.Op == "remove":
				return fmt.Errorf("the removal %s (version %d) is missing", opText(l.op), l.version)
			case !l.redundant:
				return fmt.Errorf("%s (version %d) is missing, although it changes the value", opText(l.op), l.version)
			}
			continue
		}
		if k, ok := lastKept[key]; ok && may(l) && may(all[k]) && l.op.Op != "remove" && all[k].op.Op != "remove" && same(l.op.leafValue(), all[k].op.leafValue(), true) {
			between := false
			for _, m := range all[k+1 : i] {
				between = between || related(l.segs, m) && !m.redundant
			}
			if !between {
				return fmt.Errorf("%s (version %d) repeats the value of %s (version %d)", opText(l.op), l.version, opText(all[k].op), all[k].version)
			}
		}
		lastKept[key] = i
	}
	return nil
}

func flatten(m map[uint64][]Op) (got []located) {
	var vs []uint64
	for v := range m {
		vs = append(vs, v)
	}
	slices.Sort(vs)
	for _, v := range vs {
		for _, o := range m[v] {
			got = append(got, located{op: o, segs: splitPath(o.Path), version: v})
		}
	}
	return got
}

func histClasses(c *Ctx, d *MDoc) {
	removed, arrays, repeated := false, false, false
	for _, l := range d.locate() {
		removed = removed || l.op.Op == "remove"
		repeated = repeated || l.redundant
		for _, s := range l.segs {
			arrays = arrays || isIndex(s)
		}
	}
	c.Class(removed, "removal")
	c.Class(repeated, "repeated value")
	c.Class(arrays, "index or digit key")
	c.Class(len(d.vers) >= 3, "3 or more versions")
	c.Class(len(d.pend) > 0, "pending changes")
	c.Class(d.prior != nil || d.first > 0, "of a slice")
}

// refused checks that a call panics and leaves the document as it was.
func refused(what string, l *logument.Logument, d *MDoc, f func()) error {
	if panicked, _ := try(f); !panicked {
		return fmt.Errorf("%s was not refused", what)
	}
	return wantDump("the document after refusing "+what, l, d)
}

func newDoc(k histCase) (*logument.Logument, *MDoc) {
	return logument.NewLogument(k.Init.Tson(), nil), &MDoc{base: k.Init}
}

// history builds the document of a case and its model.
func history(k histCase) (*logument.Logument, *MDoc, error) {
	l, d := newDoc(k)
	if err := runAll(l, d, k.Steps); err != nil {
		return l, d, err
	}
	if k.Cut == nil {
		return l, d, nil
	}
	l, d = l.Slice(k.Cut.I, k.Cut.J), d.slice(k.Cut.I, k.Cut.J)
	return l, d, runAll(l, d, k.Cut.More)
}

func isRoot(path string) bool { return strings.Trim(path, "/") == "" }
