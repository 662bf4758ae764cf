package zzverif

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/exp"
	"github.com/CAU-CPSS/logument/internal/tson"
	"pgregory.net/rapid"
)

// ---- reference model of a temporal JSON document

// period is the time during which a value was alive (empty if e < s).
type period struct {
	s, e int64
	val  any
}

func (p period) text() string { return fmt.Sprintf("%d-%d", p.s, p.e) }

// lives maps each leaf (segments joined by ".") to its periods.
type lives map[string][]period

func key(segs []string) string { return strings.Join(segs, ".") }

// livesOf replays operations on leaves, ordered by time.
func livesOf(ops []Op) lives {
	ops = slices.Clone(ops)
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].T < ops[j].T })
	m := lives{}
	for _, o := range ops {
		k := key(splitPath(o.Path))
		ps := m[k]
		open := len(ps) > 0 && ps[len(ps)-1].e == math.MaxInt64
		if o.Op == "remove" {
			if open {
				ps[len(ps)-1].e = o.T - 1
			}
			continue
		}
		if open {
			if ps[len(ps)-1].val == o.value() {
				continue
			}
			ps[len(ps)-1].e = o.T - 1
		}
		m[k] = append(ps, period{o.T, math.MaxInt64, o.value()})
	}
	return m
}

// at is the state at time t.
func (m lives) at(t int64) map[string]any {
	r := map[string]any{}
	for k, ps := range m {
		for _, p := range ps {
			fields, branch := p.val.(map[string]any)
			switch {
			case t < p.s || p.e < t:
			case branch: // the values below it take precedence
				for f, x := range fields {
					if !m.below(k+"."+f, t) {
						r[k+"."+f] = x
					}
				}
			default:
				r[k] = p.val
			}
		}
	}
	return r
}

// below tells whether something lives at or below a path at time t, other than
// as a field of the value of a branch.
func (m lives) below(path string, t int64) bool {
	for k, ps := range m {
		if k != path && !strings.HasPrefix(k, path+".") {
			continue
		}
		for _, p := range ps {
			if p.s <= t && t <= p.e {
				return true
			}
		}
	}
	return false
}

// leavesOf flattens nested maps; arrays do not occur.
func leavesOf(x any, prefix string, into map[string]any) error {
	m, ok := x.(map[string]any)
	if !ok {
		into[prefix] = x
		return nil
	}
	for k, v := range m {
		p := k
		if prefix != "" {
			p = prefix + "." + k
		}
		if mv, ok := v.(map[string]any); ok {
			if err := leavesOf(mv, p, into); err != nil {
				return err
			}
			continue
		}
		if _, dup := into[p]; dup {
			return fmt.Errorf("%q occurs twice", p)
		}
		into[p] = v
	}
	return nil
}

func (v *V) leafMap() map[string]any {
	r := map[string]any{}
	v.walk(nil, func(segs []string, v *V) {
		if v.leaf() {
			r[key(segs)] = Op{V: v}.value()
		}
	})
	return r
}

// fields is the value of a branch.
func (v *V) fields() map[string]any {
	r := map[string]any{}
	for _, kv := range v.O {
		r[kv.Key] = Op{V: kv.Val}.value()
	}
	return r
}

func sameLeaves(what string, got, want map[string]any) error {
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Errorf("%s: %q is missing, want %v", what, k, w)
		}
		if !reflect.DeepEqual(g, w) {
			return fmt.Errorf("%s: %q is %v (%T), want %v (%T)", what, k, g, g, w, w)
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			return fmt.Errorf("%s: unexpected %q = %v", what, k, g)
		}
	}
	return nil
}

func checkBaselineSnapshot(doc *exp.TJSONDocument, m lives, t int64) error {
	what := fmt.Sprintf("temporal JSON snapshot at %d", t)
	snap, err := doc.TemporalSnapshot(t)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	got := map[string]any{}
	if err := leavesOf(map[string]any(snap), "", got); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	return sameLeaves(what, got, m.at(t))
}

// checkPeriods compares listed periods with those of the model which overlap
// [a, b]. Values which lived for no time at all may be listed or not.
func checkPeriods(what string, got []period, all []period, a, b int64) error {
	var want []period
	empty := map[period]int{}
	for _, p := range all {
		if p.e < p.s {
			empty[p]++
		} else if p.s <= b && p.e >= a {
			want = append(want, p)
		}
	}
	i := 0
	for _, p := range got {
		if p.e < p.s {
			if empty[p] == 0 {
				return fmt.Errorf("%s lists %s = %v, which is no period of the value", what, p.text(), p.val)
			}
			empty[p]--
			continue
		}
		if i >= len(want) {
			return fmt.Errorf("%s lists %s = %v, which is not to be listed (want %v)", what, p.text(), p.val, want)
		}
		if p != want[i] {
			return fmt.Errorf("%s lists %s = %v, want %s = %v", what, p.text(), p.val, want[i].text(), want[i].val)
		}
		i++
	}
	if i < len(want) {
		return fmt.Errorf("%s lacks %s = %v", what, want[i].text(), want[i].val)
	}
	return nil
}

func parsePeriod(x map[string]any) (period, error) {
	s, ok := x["timestamp"].(string)
	if !ok {
		return period{}, fmt.Errorf("period %v has no timestamp", x)
	}
	i := strings.Index(s, "-")
	if i < 1 {
		return period{}, fmt.Errorf("malformed period %q", s)
	}
	from, err1 := strconv.ParseInt(s[:i], 10, 64)
	to, err2 := strconv.ParseInt(s[i+1:], 10, 64)
	if err1 != nil || err2 != nil {
		return period{}, fmt.Errorf("malformed period %q", s)
	}
	return period{from, to, x["data"]}, nil
}

func checkBaselineTrack(doc *exp.TJSONDocument, m lives, k string, a, b int64) error {
	what := fmt.Sprintf("temporal JSON track of %q in %d..%d", k, a, b)
	list, err := doc.TemporalTrack(k, a, b)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	var got []period
	for _, x := range list {
		p, err := parsePeriod(x)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		got = append(got, p)
	}
	return checkPeriods(what, got, m[k], a, b)
}

// checkStarts compares event times with the starts of the periods of the
// model which overlap [a, b] and hold a matching value.
func checkStarts(what string, got []int64, all []period, a, b int64, match func(any) bool) error {
	var want []int64
	optional := map[int64]int{}
	for _, p := range all {
		if !match(p.val) {
			continue
		}
		if p.e < p.s {
			optional[p.s]++
		} else if p.s <= b && p.e >= a {
			want = append(want, p.s)
		}
	}
	if !slices.IsSorted(got) {
		return fmt.Errorf("%s: times %v are not in order", what, got)
	}
	i := 0
	for _, t := range got {
		switch {
		case i < len(want) && want[i] == t:
			i++
		case optional[t] > 0:
			optional[t]--
		default:
			return fmt.Errorf("%s: lists time %d, want %v", what, t, want)
		}
	}
	if i < len(want) {
		return fmt.Errorf("%s: found %v, want %v", what, got, want)
	}
	return nil
}

func above(x float64) func(any) bool {
	return func(v any) bool { f, ok := v.(float64); return ok && f > x }
}

// expPatches is the patch list in the form of the experiments.
func expPatches(ops []Op) []exp.TsonPatch {
	ps := []exp.TsonPatch{}
	for _, o := range ops {
		p := exp.TsonPatch{Op: o.Op, Path: o.Path, Timestamp: o.T}
		if o.Op != "remove" {
			p.Value = o.value()
		}
		ps = append(ps, p)
	}
	return ps
}

// ---- cases

type window struct {
	A  int64   `json:"a"`
	B  int64   `json:"b"`
	K  string  `json:"k"` // leaf
	Th float64 `json:"th"`
}

type baselineCase struct {
	Ops     []Op     `json:"ops"`
	Times   []int64  `json:"times"`
	Windows []window `json:"windows"`
}

var expKeys = []string{"a", "b", "c", "Vehicle", "Speed", "a b", "é", "x-y", "_ts", "<1>"}

// genLeafPaths draws paths of which none is a prefix of another.
func genLeafPaths(rt *rapid.T) (all [][]string) {
	if chance(rt, 1) { // many
		segs := rapid.SliceOfN(rapid.SampledFrom(expKeys), 0, 3).Draw(rt, "branch")
		for _, s := range numbered("k", rapid.IntRange(10, 400).Draw(rt, "paths")) {
			all = append(all, append(segs[:len(segs):len(segs)], s))
		}
		return all
	}
	if chance(rt, 1) { // a long one
		return [][]string{numbered("k", rapid.IntRange(5, 60).Draw(rt, "length"))}
	}
	n := rapid.IntRange(1, 5).Draw(rt, "paths")
	for range n {
		segs := rapid.SliceOfN(rapid.SampledFrom(expKeys), 1, 4).Draw(rt, "path")
		clash := false
		for _, p := range all {
			l := min(len(p), len(segs))
			clash = clash || slices.Equal(p[:l], segs[:l])
		}
		if !clash {
			all = append(all, segs)
		}
	}
	return all
}

func genExpValue(rt *rapid.T) *V {
	switch rapid.IntRange(0, 5).Draw(rt, "value") {
	case 0, 1, 2:
		return vNum(float64(rapid.IntRange(-2, 3).Draw(rt, "num")), 0)
	case 3:
		return vNum(rapid.Float64Range(-100, 100).Draw(rt, "float"), 0)
	case 4:
		return vStr(pick(rt, "str", "x", "y", "", "1"), 0)
	default:
		return vBool(rapid.Bool().Draw(rt, "bool"), 0)
	}
}

func genExpTime(rt *rapid.T, base int64) int64 {
	if chance(rt, 5) {
		return pick(rt, "t", 0, 1, math.MaxInt64-1, int64(1745000000123456789))
	}
	return base + int64(rapid.IntRange(0, 12).Draw(rt, "dt"))
}

func genWindow(rt *rapid.T, leaves []string, base int64) window {
	a, b := genExpTime(rt, base), genExpTime(rt, base)
	if a > b {
		a, b = b, a
	}
	return window{A: a, B: b, K: rapid.SampledFrom(leaves).Draw(rt, "leaf"), Th: float64(rapid.IntRange(-3, 3).Draw(rt, "th"))}
}

// genBase draws the time scale of a case.
func genBase(rt *rapid.T) int64 {
	return pick(rt, "base", 0, 0, 1, 100, int64(1745000000000000000))
}

// item is a period of a value added to a temporal JSON document on its own.
type item struct {
	K string `json:"k"`
	S int64  `json:"s"`
	E int64  `json:"e"`
	V *V     `json:"v"`
}

type itemsCase struct {
	Items   []item   `json:"items"`
	Times   []int64  `json:"times"`
	Windows []window `json:"windows"`
}

// genItems draws documents built from items in any order: the periods of each
// leaf do not overlap, and are added from the last to the first, say.
func genItems(rt *rapid.T) (k itemsCase) {
	base := genBase(rt)
	var leaves []string
	for _, p := range genLeafPaths(rt) {
		leaves = append(leaves, key(p))
		t := base
		n := rapid.IntRange(0, 5).Draw(rt, "periods")
		if len(k.Items) == 0 && chance(rt, 1) {
			n = rapid.IntRange(10, 300).Draw(rt, "many")
		}
		for i := 0; i < n; i++ {
			t += int64(rapid.IntRange(0, 3).Draw(rt, "gap"))
			e := t + int64(rapid.IntRange(0, 4).Draw(rt, "length"))
			if i == n-1 && chance(rt, 50) {
				e = math.MaxInt64
			}
			k.Items = append(k.Items, item{key(p), t, e, genExpValue(rt)})
			if e < math.MaxInt64 {
				t = e + 1
			}
		}
	}
	if chance(rt, 30) { // a branch with fields of its own, in part those of its leaves
		segs := strings.Split(pick(rt, "below", leaves...), ".")
		if len(segs) > 1 {
			at := key(segs[:rapid.IntRange(1, len(segs)-1).Draw(rt, "branch")])
			clash := false
			for _, l := range leaves {
				clash = clash || l == at
			}
			t := base
			for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "periods"); i < n && !clash; i++ {
				t += int64(rapid.IntRange(0, 3).Draw(rt, "gap"))
				e := t + int64(rapid.IntRange(0, 6).Draw(rt, "length"))
				v := vObj()
				for range rapid.IntRange(1, 3).Draw(rt, "fields") {
					v.put(pick(rt, "field", segs[len(strings.Split(at, "."))], "own", "b", "Speed"), genExpValue(rt))
				}
				k.Items = append(k.Items, item{at, t, e, v})
				t = e + 1
			}
		}
	}
	k.Items = rapid.Permutation(k.Items).Draw(rt, "order")
	for range rapid.IntRange(1, 4).Draw(rt, "times") {
		k.Times = append(k.Times, genExpTime(rt, base))
	}
	for range rapid.IntRange(1, 4).Draw(rt, "windows") {
		k.Windows = append(k.Windows, genWindow(rt, leaves, base))
	}
	return k
}

func checkItems(c *Ctx, k itemsCase) error {
	doc := exp.NewTJSONDocument()
	m := lives{}
	branches := map[string]int{}
	for _, x := range k.Items {
		v := Op{V: x.V}.value()
		if x.V.K == "o" {
			v = x.V.fields()
		}
		if err := doc.AddItem(x.K, x.S, x.E, v); err != nil {
			return fmt.Errorf("adding %+v: %v", x, err)
		}
		if x.V.K == "o" { // what the document may do to the value given
			v = x.V.fields()
			branches[x.K]++
		}
		m[x.K] = append(m[x.K], period{x.S, x.E, v})
	}
	c.Class(len(branches) > 0, "a branch with fields of its own")
	for _, ps := range m {
		byStart := func(a, b period) int { return int(min(1, max(-1, a.s-b.s))) }
		c.NonTrivial(!slices.IsSortedFunc(ps, byStart))
		slices.SortFunc(ps, byStart)
	}
	times := append(k.Times, 0, math.MaxInt64)
	for p := range branches {
		for _, q := range m[p] {
			times = append(times, q.s, q.e)
		}
	}
	for _, t := range times {
		if err := checkBaselineSnapshot(doc, m, t); err != nil {
			return err
		}
	}
	for p := range branches {
		list, err := doc.TemporalTrack(p, 0, math.MaxInt64)
		if err != nil || len(list) != branches[p] {
			return fmt.Errorf("track of %q lists %v (%v), want %d periods", p, list, err, branches[p])
		}
		for i, x := range list {
			if q, err := parsePeriod(x); err != nil || !reflect.DeepEqual(q, m[p][i]) {
				return fmt.Errorf("track of %q lists %v, want %s = %v", p, x, m[p][i].text(), m[p][i].val)
			}
		}
	}
	for _, w := range k.Windows {
		if _, ok := m[w.K]; !ok {
			continue
		}
		if err := checkBaselineTrack(doc, m, w.K, w.A, w.B); err != nil {
			return err
		}
		times, err := doc.FindEvents(w.K, w.A, w.B, above(w.Th))
		if err != nil {
			return fmt.Errorf("events of %q: %v", w.K, err)
		}
		if err := checkStarts(fmt.Sprintf("events of %q above %v in %d..%d", w.K, w.Th, w.A, w.B), times, m[w.K], w.A, w.B, above(w.Th)); err != nil {
			return err
		}
		// The branches above a leaf have no values of their own
		for i := range w.K {
			if w.K[i] == '.' && branches[w.K[:i]] == 0 {
				if list, err := doc.TemporalTrack(w.K[:i], w.A, w.B); err == nil && len(list) > 0 {
					return fmt.Errorf("track of the branch %q lists %v", w.K[:i], list)
				}
			}
		}
	}
	return nil
}

func genBaseline(rt *rapid.T) baselineCase {
	paths := genLeafPaths(rt)
	base := genBase(rt)
	var k baselineCase
	var leaves []string
	for _, p := range paths {
		leaves = append(leaves, key(p))
	}
	n := rapid.IntRange(0, 14).Draw(rt, "n")
	if len(paths) > 5 || chance(rt, 1) {
		n = 15 + rapid.IntRange(0, even(rt, "upto", 50, 400, 1500)).Draw(rt, "many")
	}
	for range n {
		p := rapid.SampledFrom(paths).Draw(rt, "p")
		path := key(p)
		if rapid.Bool().Draw(rt, "pointer") {
			path = "/" + strings.Join(p, "/")
		}
		o := Op{Op: pick(rt, "op", "replace", "add", "replace", "remove"), Path: path, T: genExpTime(rt, base)}
		if n > 14 {
			o.T = base + int64(rapid.IntRange(0, 1000).Draw(rt, "late"))
		}
		if o.Op != "remove" {
			o.V = genExpValue(rt)
		}
		k.Ops = append(k.Ops, o)
	}
	for range rapid.IntRange(1, 4).Draw(rt, "times") {
		k.Times = append(k.Times, genExpTime(rt, base))
	}
	for range rapid.IntRange(1, 4).Draw(rt, "windows") {
		k.Windows = append(k.Windows, genWindow(rt, append(leaves, "nosuch", leaves[0]+".nosuch"), base))
	}
	return k
}

// ask puts the queries of the case to the document.
func (k baselineCase) ask(c *Ctx, doc *exp.TJSONDocument, m lives) error {
	for _, t := range append(k.Times, 0, math.MaxInt64) {
		if err := checkBaselineSnapshot(doc, m, t); err != nil {
			return err
		}
	}
	for _, w := range k.Windows {
		if _, ok := m[w.K]; !ok {
			c.Class(true, "unknown path")
			if r, err := doc.TemporalTrack(w.K, w.A, w.B); err == nil && len(r) > 0 {
				return fmt.Errorf("track of %q, which never existed, returned %v", w.K, r)
			} else if err == nil {
				return fmt.Errorf("track of %q, which never existed, reported no error", w.K)
			}
			if _, err := doc.FindEvents(w.K, w.A, w.B, above(w.Th)); err == nil {
				return fmt.Errorf("events of %q, which never existed, reported no error", w.K)
			}
			continue
		}
		c.NonTrivial(len(m[w.K]) > 1)
		if err := checkBaselineTrack(doc, m, w.K, w.A, w.B); err != nil {
			return err
		}
		times, err := doc.FindEvents(w.K, w.A, w.B, above(w.Th))
		if err != nil {
			return fmt.Errorf("events of %q: %v", w.K, err)
		}
		if err := checkStarts(fmt.Sprintf("events of %q above %v in %d..%d", w.K, w.Th, w.A, w.B), times, m[w.K], w.A, w.B, above(w.Th)); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	add("C29", "items", 4000, "documents built from the periods of their leaves, added in any order, at times with branches which have fields of their own; non-trivial = the periods of a leaf were added out of order", genItems, checkItems)
	add("C29", "baseline", 12000, "at least one leaf had two or more periods and a query hit one of them",
		genBaseline,
		func(c *Ctx, k baselineCase) error {
			ps := expPatches(k.Ops)
			given := slices.Clone(ps)
			doc, err := exp.FromTSONPatches(ps)
			if err != nil {
				return fmt.Errorf("converting the patches: %v", err)
			}
			if !reflect.DeepEqual(ps, given) {
				return fmt.Errorf("converting the patches changed them: %v", ps)
			}
			m := livesOf(k.Ops)
			c.Class(!slices.IsSortedFunc(k.Ops, func(a, b Op) int { return int(min(1, max(-1, a.T-b.T))) }), "patches out of order")
			for _, p := range m {
				c.Class(len(p) > 1, "changing leaf")
				for i, q := range p {
					c.Class(q.e < q.s, "empty period")
					c.Class(i > 0 && p[i-1].e < q.s-1, "gap after a removal")
				}
			}
			return k.ask(c, doc, m)
		})

	add("C29", "agree", 4000, "the history changed at least one leaf twice",
		genExpCase,
		func(c *Ctx, k expCase) error {
			e, m, d, err := k.start(c)
			if err != nil {
				return err
			}
			k.classes(c, m)
			for _, t := range append(k.Times, 0, math.MaxInt64) {
				if err := checkBaselineSnapshot(e.TJSONDocument, m, t); err != nil {
					return err
				}
				if err := wantDoc(fmt.Sprintf("versioned document at %d", t), e.LogumentDoc.TemporalSnapshot(t), d.ts(t), false); err != nil {
					return err
				}
				if err := sameLeaves("reference models", d.ts(t).leafMap(), m.at(t)); err != nil {
					return harnessError{err}
				}
			}
			for _, w := range k.Windows {
				if err := checkBaselineTrack(e.TJSONDocument, m, w.K, w.A, w.B); err != nil {
					return err
				}
				r, err := readTrack(e.LogumentDoc.TemporalTrack(w.A, w.B))
				if err != nil {
					return err
				}
				var got []Op
				for _, l := range flatten(r) {
					if l.op.Path == w.K {
						got = append(got, l.op)
					}
				}
				if want := k.changes(w); !sameOps(got, want) {
					return fmt.Errorf("versioned track of %q in %d..%d is %s, want %s", w.K, w.A, w.B, opsText(got), opsText(want))
				}
			}
			return nil
		})

	add("C34", "results", 1500, "the history changed at least one leaf twice",
		genExpCase, checkResults)

	add("C33", "patches", 6000, "the document had at least two leaves",
		genInitCase, checkInitialPatches)
	add("C33", "bad-input", 600, "the file was not a JSON object",
		func(rt *rapid.T) string {
			if chance(rt, 10) {
				return "missing"
			}
			s := pick(rt, "text", "", "[]", "[1,2]", "1", "\"x\"", "true", "{", "{\"a\":}", "{\"a\":1", "{\"a\":1}}", "nul", "{'a':1}", "{\"a\":1,}", " ", "\xff")
			return s + pick(rt, "tail", "", " ", "\n")
		},
		func(c *Ctx, text string) error {
			c.NonTrivial(true)
			file := filepath.Join(c.Dir(), "initial_json.json")
			if text != "missing" {
				must(os.WriteFile(file, []byte(text), 0o644))
			}
			if ps, err := exp.CreateInitialPatchesFromJSON(file); err == nil {
				return fmt.Errorf("%q gave %v instead of an error", text, ps)
			}
			return nil
		})
	add("C33", "snapshots", 800, "at least two patches were applied",
		genExpCase, checkSnapshotFiles)
}

// ---- experiments

// expCase is an initial document and a history of changes to its leaves in
// time order. Leaves of Init with T >= 0 are written as value and timestamp.
type expCase struct {
	Init    *V       `json:"init"`
	Ops     []Op     `json:"ops"`
	Times   []int64  `json:"times"`
	Windows []window `json:"windows"`
}

func genInit(rt *rapid.T, arrays bool) *V {
	o := docOpts{depth: rapid.IntRange(1, 3).Draw(rt, "depth"), noArray: !arrays, noNull: true,
		key: func(rt *rapid.T) string { return rapid.SampledFrom(expKeys).Draw(rt, "key") },
		str: func(rt *rapid.T) string { return pick(rt, "str", "", "x", "null", "0", "é\"\\") },
		num: func(rt *rapid.T) float64 { return float64(rapid.IntRange(-2, 3).Draw(rt, "num")) / 2 },
		time: func(rt *rapid.T) int64 {
			return rapid.SampledFrom([]int64{-1, 0, 1, 1745000000123456789}).Draw(rt, "t")
		}}.fill()
	v := genObject(rt, o)
	if len(v.O) == 0 {
		v.put("a", vNum(1, 1))
	}
	return v
}

// initJSON is the JSON data of the initial document. An empty string with a
// timestamp other than 0 is written as a signal without value.
func (v *V) initJSON() any {
	switch v.K {
	case "o":
		m := map[string]any{}
		for _, kv := range v.O {
			m[kv.Key] = kv.Val.initJSON()
		}
		return m
	case "a":
		l := []any{}
		for _, e := range v.A {
			l = append(l, e.initJSON())
		}
		return l
	}
	x := Op{V: v}.value()
	if v.T < 0 {
		return x
	}
	if v.K == "s" && v.S == "" && v.T != 0 {
		x = nil
	}
	if v.T == 1 { // in a text form
		return map[string]any{"value": x, "timestamp": "1970-01-01T00:00:01Z"}
	}
	return map[string]any{"value": x, "timestamp": v.T}
}

// untimed drops all timestamps.
func (v *V) untimed() *V {
	c := v.clone()
	c.walk(nil, func(_ []string, v *V) {
		if v.leaf() {
			v.T = -1
		}
	})
	return c
}

// initOps lists the leaves as additions at time 0.
func (v *V) initOps() (ops []Op) {
	v.walk(nil, func(segs []string, v *V) {
		if v.leaf() {
			ops = append(ops, Op{Op: "add", Path: key(segs), V: v})
		}
	})
	return ops
}

func genExpCase(rt *rapid.T) expCase {
	k := expCase{Init: genInit(rt, false)}
	doc := k.Init.untimed()
	base := genBase(rt)
	t := base
	var used []string
	n := rapid.IntRange(0, 12).Draw(rt, "n")
	many := chance(rt, 1)
	if many {
		n = rapid.IntRange(13, 260).Draw(rt, "many")
	}
	for range n {
		var leaves, spots []string
		doc.walk(nil, func(segs []string, v *V) {
			if v.leaf() {
				leaves = append(leaves, key(segs))
			} else {
				for _, s := range expKeys[:6] {
					if v.get(s) == nil {
						spots = append(spots, key(append(segs[:len(segs):len(segs)], s)))
					}
				}
			}
		})
		used = append(used, leaves...)
		o := Op{Op: pick(rt, "op", "replace", "replace", "add", "remove", "new"), T: t}
		switch {
		case o.Op == "new" && len(spots) > 0:
			o.Op, o.Path, o.V = "add", rapid.SampledFrom(spots).Draw(rt, "spot"), genExpValue(rt)
			// mostly one of the leaves removed before
			for _, u := range used {
				if slices.Contains(spots, u) && chance(rt, 40) {
					o.Path = u
				}
			}
		case len(leaves) == 0 || o.Op == "new":
			continue
		default:
			o.Path = rapid.SampledFrom(leaves).Draw(rt, "leaf")
			if o.Op != "remove" {
				o.V = genExpValue(rt)
				if chance(rt, 25) {
					o.V = doc.at(splitPath(o.Path)).clone()
					o.V.T = 0
				}
			}
		}
		k.Ops = append(k.Ops, o)
		doc = applyAll(doc, []Op{o})
		t += int64(pick(rt, "dt", 0, 1, 1, 2, 5, 100))
	}
	all := map[string]bool{}
	for _, o := range append(k.Init.initOps(), k.Ops...) {
		all[o.Path] = true
	}
	var leaves []string
	for p := range all {
		leaves = append(leaves, p)
	}
	if len(leaves) == 0 {
		k.Ops = []Op{{Op: "add", Path: "a", V: vNum(1, 0), T: t}}
		if k.Init.get("a") != nil {
			k.Ops[0].Path = "a.a"
		}
		leaves = []string{k.Ops[0].Path}
		if !applicable(k.Init.untimed(), k.Ops) {
			k.Init = vObj()
			k.Ops[0].Path, leaves[0] = "a", "a"
		}
	}
	sort.Strings(leaves)
	draw := func() int64 {
		if chance(rt, 10) {
			return genExpTime(rt, base)
		}
		return max(0, base+rapid.Int64Range(-1, t-base+1).Draw(rt, "at"))
	}
	times, windows := rapid.IntRange(1, 3).Draw(rt, "times"), rapid.IntRange(1, 3).Draw(rt, "windows")
	if !many && chance(rt, 1) {
		if rapid.Bool().Draw(rt, "tracks") {
			windows = rapid.IntRange(4, 140).Draw(rt, "many")
		} else {
			times = rapid.IntRange(4, 140).Draw(rt, "many")
		}
	}
	for range times {
		k.Times = append(k.Times, draw())
	}
	for range windows {
		a, b := draw(), draw()
		k.Windows = append(k.Windows, window{A: min(a, b), B: max(a, b), K: rapid.SampledFrom(leaves).Draw(rt, "leaf"), Th: float64(rapid.IntRange(-3, 3).Draw(rt, "th"))})
	}
	return k
}

func (k expCase) classes(c *Ctx, m lives) {
	for _, ps := range m {
		c.Class(len(ps) > 2, "leaf changed twice")
		c.NonTrivial(len(ps) > 2)
	}
	for i, o := range k.Ops {
		c.Class(o.Op == "remove", "removal")
		c.Class(i > 0 && k.Ops[i-1].T == o.T, "changes at the same time")
		c.Class(o.T == 0, "change at time 0")
	}
}

// changes lists the changes of a leaf in a window: the first operation there,
// and those which differ in value from the one before.
func (k expCase) changes(w window) (want []Op) {
	var last any
	known := false
	for _, o := range k.Ops {
		if o.Path != w.K || o.T < w.A || o.T > w.B {
			continue
		}
		if o.Op == "remove" {
			known = false
		} else if known && last == o.value() {
			continue
		} else {
			last, known = o.value(), true
		}
		want = append(want, o)
	}
	return want
}

func (k expCase) write(dir string) string {
	b, err := json.MarshalIndent(k.Init.initJSON(), "", "  ")
	must(err)
	must(os.MkdirAll(dir, 0o755))
	file := filepath.Join(dir, "initial_json.json")
	must(os.WriteFile(file, b, 0o644))
	return file
}

// start sets up an experiment with its reference models.
func (k expCase) start(c *Ctx) (*exp.TemporalQueryExperiment, lives, *MDoc, error) {
	in := filepath.Join(c.Dir(), "in")
	k.write(in)
	e, err := exp.NewTemporalQueryExperiment(in, filepath.Join(c.Dir(), "out"), "some_scenario", expPatches(k.Ops))
	if err != nil {
		return nil, nil, nil, fmt.Errorf("setting up the experiment: %v", err)
	}
	m := livesOf(append(k.Init.untimed().initOps(), k.Ops...))
	d := &MDoc{base: k.Init.untimed(), vers: [][]Op{k.Ops}}
	return e, m, d, nil
}

// ---- C34

// readResult reads a result file and checks its recorded size.
func readResult(what, file string, size int, into any) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if into != nil {
		if err := json.Unmarshal(b, into); err != nil {
			return fmt.Errorf("%s: %s: %v", what, filepath.Base(file), err)
		}
	}
	var c bytes.Buffer
	must(json.Compact(&c, b))
	if c.Len() != size {
		return fmt.Errorf("%s: the result has %d bytes, recorded are %d", what, c.Len(), size)
	}
	return nil
}

func decodeAny(b []byte) (x any) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	must(d.Decode(&x))
	return x
}

func checkSnapshotResult(r exp.TemporalQueryResult, m lives, want tson.Tson, t int64) error {
	what := fmt.Sprintf("result of the snapshot at %d", t)
	if r.QueryType != "TemporalSnapshot" || r.Parameter != fmt.Sprint(t) {
		return fmt.Errorf("%s is labelled %s %s", what, r.QueryType, r.Parameter)
	}
	var raw json.RawMessage
	if err := readResult(what, r.LogumentResultFile, r.LogumentResultSize, &raw); err != nil {
		return err
	}
	wb, err := json.Marshal(want)
	worked(err)
	if !reflect.DeepEqual(decodeAny(raw), decodeAny(wb)) {
		return fmt.Errorf("%s holds %.500s, want %.500s", what, raw, wb)
	}
	var tj map[string]any
	if err := readResult(what, r.TJSONResultFile, r.TJSONResultSize, &tj); err != nil {
		return err
	}
	got := map[string]any{}
	if err := leavesOf(tj, "", got); err != nil {
		return err
	}
	return sameLeaves(what, got, m.at(t))
}

func checkTrackResult(r exp.TemporalQueryResult, m lives, changes []Op, w window) error {
	what := fmt.Sprintf("result of the track of %q in %d..%d", w.K, w.A, w.B)
	if r.QueryType != "TemporalTrack" || r.Parameter != fmt.Sprintf("%s (%d-%d)", w.K, w.A, w.B) {
		return fmt.Errorf("%s is labelled %s %s", what, r.QueryType, r.Parameter)
	}
	var lg map[uint64][]struct {
		Op, Path  string
		Value     any
		Timestamp int64
	}
	if err := readResult(what, r.LogumentResultFile, r.LogumentResultSize, &lg); err != nil {
		return err
	}
	i := 0
	for _, v := range sortedVersions(lg) {
		for _, o := range lg[v] {
			if i >= len(changes) {
				return fmt.Errorf("%s holds more than %s", what, opsText(changes))
			}
			if w := changes[i]; o.Op != w.Op || o.Path != w.Path || o.Timestamp != w.T || w.Op != "remove" && o.Value != w.value() {
				return fmt.Errorf("%s holds %v, want %s", what, o, opText(w))
			}
			i++
		}
	}
	if i < len(changes) {
		return fmt.Errorf("%s lacks %s", what, opText(changes[i]))
	}
	var tj []map[string]any
	if err := readResult(what, r.TJSONResultFile, r.TJSONResultSize, &tj); err != nil {
		return err
	}
	var got []period
	for _, x := range tj {
		p, err := parsePeriod(x)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		got = append(got, p)
	}
	return checkPeriods(what, got, m[w.K], w.A, w.B)
}

func sortedVersions[T any](m map[uint64]T) (vs []uint64) {
	for v := range m {
		vs = append(vs, v)
	}
	slices.Sort(vs)
	return vs
}

func checkEventResult(r exp.TemporalQueryResult, m lives, changes []Op, w window) error {
	what := fmt.Sprintf("result of the search for %q > %v in %d..%d", w.K, w.Th, w.A, w.B)
	if r.QueryType != "EventSearch" || r.Parameter != fmt.Sprintf("%s > %.1f (%d-%d)", w.K, w.Th, w.A, w.B) {
		return fmt.Errorf("%s is labelled %s %s", what, r.QueryType, r.Parameter)
	}
	var got []int64
	if err := readResult(what, r.LogumentResultFile, r.LogumentResultSize, &got); err != nil {
		return err
	}
	var want []int64
	for _, o := range changes {
		if o.Op != "remove" && above(w.Th)(o.value()) {
			want = append(want, o.T)
		}
	}
	slices.Sort(got)
	if !slices.Equal(got, want) {
		return fmt.Errorf("%s holds the times %v, want %v", what, got, want)
	}
	if err := readResult(what, r.TJSONResultFile, r.TJSONResultSize, &got); err != nil {
		return err
	}
	return checkStarts(what, got, m[w.K], w.A, w.B, above(w.Th))
}

// checkTable checks the CSV file of the results.
func checkTable(dir, name string, results []exp.TemporalQueryResult) error {
	f, err := os.Open(filepath.Join(dir, name))
	if err != nil {
		return fmt.Errorf("table of the results: %v", err)
	}
	defer f.Close()
	rows, err := csv.NewReader(f).ReadAll()
	if err != nil {
		return fmt.Errorf("table of the results: %v", err)
	}
	if len(rows) != len(results)+1 {
		return fmt.Errorf("the table has %d rows for %d results", len(rows), len(results))
	}
	col := map[string]int{}
	for i, h := range rows[0] {
		col[h] = i
	}
	for i, r := range results {
		row := rows[i+1]
		for h, want := range map[string]string{"Scenario": r.Scenario, "QueryType": r.QueryType, "Parameter": r.Parameter,
			"LogumentTimeNs": fmt.Sprint(r.LogumentTimeNs), "TJSONTimeNs": fmt.Sprint(r.TJSONTimeNs),
			"LogumentResultSize": fmt.Sprint(r.LogumentResultSize), "TJSONResultSize": fmt.Sprint(r.TJSONResultSize),
		} {
			j, ok := col[h]
			if !ok {
				return fmt.Errorf("the table has no column %s", h)
			}
			if row[j] != want {
				return fmt.Errorf("row %d of the table has %s = %s, want %s", i+1, h, row[j], want)
			}
		}
		for h, want := range map[string]float64{"TimeDiffPct": pctDiff(r.LogumentTimeNs, r.TJSONTimeNs), "SizeDiffPct": pctDiff(r.LogumentResultSize, r.TJSONResultSize)} {
			j, ok := col[h]
			if !ok {
				return fmt.Errorf("the table has no column %s", h)
			}
			// Two digits are written
			if x, err := strconv.ParseFloat(row[j], 64); err != nil || !(math.Abs(x-want) <= 0.006+1e-9*math.Abs(want)) {
				return fmt.Errorf("row %d of the table has %s = %s, want %.2f", i+1, h, row[j], want)
			}
		}
	}
	return nil
}

func pctDiff[N int | int64](a, b N) float64 {
	if b == 0 {
		return 0
	}
	return float64(a-b) / float64(b) * 100
}

func checkResults(c *Ctx, k expCase) error {
	e, m, d, err := k.start(c)
	if err != nil {
		return err
	}
	k.classes(c, m)
	var paths []string
	ths := []float64{k.Windows[0].Th, k.Windows[0].Th + 1.5}
	if len(k.Ops)%2 == 0 {
		ths[0], ths[1] = ths[0]-0.02, ths[0]+0.02 // written with the same digits
	}
	for _, w := range k.Windows {
		paths = append(paths, w.K)
	}
	w := k.Windows[0]
	// The answers do not depend on the order of the queries
	run := []func() error{
		func() error {
			rs, err := e.RunTemporalSnapshotExperiment(k.Times)
			if err != nil || len(rs) != len(k.Times) {
				return fmt.Errorf("%d snapshots: %d results, error %v", len(k.Times), len(rs), err)
			}
			for i, t := range k.Times {
				if err := checkSnapshotResult(rs[i], m, d.ts(t).Tson(), t); err != nil {
					return err
				}
			}
			worked(e.SaveResults(rs, "s.csv"))
			return checkTable(e.OutputDir, "s.csv", rs)
		},
		func() error {
			rs, err := e.RunTemporalTrackExperiment(paths, w.A, w.B)
			if err != nil || len(rs) != len(paths) {
				return fmt.Errorf("%d tracks: %d results, error %v", len(paths), len(rs), err)
			}
			for i, p := range paths {
				q := window{A: w.A, B: w.B, K: p}
				if err := checkTrackResult(rs[i], m, k.changes(q), q); err != nil {
					return err
				}
			}
			worked(e.SaveResults(rs, "t.csv"))
			return checkTable(e.OutputDir, "t.csv", rs)
		},
		func() error {
			rs, err := e.RunEventSearchExperiment(paths, w.A, w.B, ths)
			if err != nil || len(rs) != len(paths)*len(ths) {
				return fmt.Errorf("%d searches: %d results, error %v", len(paths)*len(ths), len(rs), err)
			}
			for i, r := range rs {
				q := window{A: w.A, B: w.B, K: paths[i/len(ths)], Th: ths[i%len(ths)]}
				if err := checkEventResult(r, m, k.changes(q), q); err != nil {
					return err
				}
			}
			worked(e.SaveResults(rs, "e.csv"))
			return checkTable(e.OutputDir, "e.csv", rs)
		},
	}
	first := int(uint64(len(k.Ops)+len(k.Times)) % 3)
	for i := range run {
		if err := run[(first+i)%3](); err != nil {
			return err
		}
	}
	if files := c.open(); len(files) > 0 {
		return fmt.Errorf("after the experiment, %v are open", files)
	}
	return nil
}

// ---- C33

type initCase struct {
	Init *V `json:"init"`
}

func genInitCase(rt *rapid.T) initCase { return initCase{genInit(rt, chance(rt, 50))} }

func checkInitialPatches(c *Ctx, k initCase) error {
	file := expCase{Init: k.Init}.write(c.Dir())
	before, _ := os.ReadFile(file)
	ps, err := exp.CreateInitialPatchesFromJSON(file)
	if err != nil {
		return fmt.Errorf("reading the initial document: %v", err)
	}
	if after, _ := os.ReadFile(file); !bytes.Equal(before, after) {
		return fmt.Errorf("the initial document was changed")
	}
	want := map[string]any{}
	arrays := false
	k.Init.walk(nil, func(segs []string, v *V) {
		arrays = arrays || v.K == "a"
		if v.leaf() {
			want[key(segs)] = Op{V: v}.value()
		}
	})
	c.Class(arrays, "arrays")
	c.NonTrivial(len(want) > 1)
	got := map[string]any{}
	for _, p := range ps {
		if p.Op != "add" || p.Timestamp != 0 {
			return fmt.Errorf("patch %+v is no addition at time 0", p)
		}
		if _, dup := got[p.Path]; dup {
			return fmt.Errorf("two patches for %q", p.Path)
		}
		got[p.Path] = p.Value
	}
	return sameLeaves("initial patches", got, want)
}

// inDir runs f with another working directory.
func inDir(dir string, f func() error) error {
	old, err := os.Getwd()
	must(err)
	must(os.Chdir(dir))
	defer func() { must(os.Chdir(old)) }()
	return f()
}

func checkSnapshotFiles(c *Ctx, k expCase) error {
	c.NonTrivial(len(k.Ops) > 1)
	file := k.write(filepath.Join(c.Dir(), "in"))
	return inDir(c.Dir(), func() error {
		exp.CreateSnapshot(file, expPatches(k.Ops))
		dir := filepath.Join(c.Dir(), "results/snapshots")
		doc := k.Init.untimed()
		for i := 0; ; i++ {
			b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("snapshot_%d.json", i)))
			if err != nil {
				return fmt.Errorf("snapshot %d: %v", i, err)
			}
			want, err := json.Marshal(doc.Tson())
			worked(err)
			if !json.Valid(b) || !reflect.DeepEqual(decodeAny(b), decodeAny(want)) {
				return fmt.Errorf("snapshot %d is %.500s, want %.500s", i, b, want)
			}
			if i == len(k.Ops) {
				break
			}
			doc = applyAll(doc, k.Ops[i:i+1])
		}
		if files := listFiles(dir); len(files) != len(k.Ops)+1 {
			return fmt.Errorf("%d snapshot files for %d patches", len(files), len(k.Ops))
		}
		return nil
	})
}
