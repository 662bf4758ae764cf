package zzverif

import (
	"cmp"
	"fmt"
	"maps"
	"math"
	"reflect"
	"slices"
	"strings"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"pgregory.net/rapid"
)

const histRule = "an initial document (nested, arrays, odd keys) and up to 12 steps (store of 1-4 operations, set, conditional set, append; sometimes 11-25 versions) with repeated values, removals and rising timestamps"

// event is a step or a query of a session.
type event struct {
	S *Step  `json:"s,omitempty"`
	Q *Query `json:"q,omitempty"`
}

type sessionCase struct {
	Init   *V      `json:"init"`
	Events []event `json:"events"`
}

func genSession(rt *rapid.T, lo, hi, queries int, kinds ...string) sessionCase {
	o := histOpts{flat: chance(rt, 25), early: true}
	t0 := genStart(rt)
	k := sessionCase{Init: o.doc(rt, t0)}
	g := newHist(rt, o, k.Init, t0)
	if !o.flat && odds(rt, 1) {
		for _, s := range g.bulk(rt) {
			k.Events = append(k.Events, event{S: &s})
		}
		k.Init = g.d.base
		lo, hi = 1, min(hi, 6)
	} else if chance(rt, 4) {
		for _, s := range g.long(rt) {
			k.Events = append(k.Events, event{S: &s})
		}
	}
	for n := rapid.IntRange(lo, hi).Draw(rt, "events"); n > 0; n-- {
		if chance(rt, queries) {
			q := g.query(rt, kinds...)
			k.Events = append(k.Events, event{Q: &q})
		} else if s, ok := g.step(rt); ok {
			k.Events = append(k.Events, event{S: &s})
		}
	}
	return k
}

func init() {
	// ---- C13
	add("C13", "snapshots", 5000, histRule+"; interleaved with snapshots of random versions and other queries, then all versions in random order, twice; non-trivial = at least 2 versions and a queried version before the last", func(rt *rapid.T) snapCase {
		k := genSession(rt, 4, 20, 30)
		d := &MDoc{base: k.Init}
		for _, e := range k.Events {
			if e.S != nil {
				d.run(*e.S)
			} else if e.Q.Kind == "tsnapshot" || e.Q.Kind == "tslice" {
				d.appendPending()
			}
		}
		var vs []uint64
		for v := range d.last() + 1 {
			vs = append(vs, v)
		}
		return snapCase{k, rapid.Permutation(vs).Draw(rt, "order")}
	}, func(c *Ctx, k snapCase) error {
		l, d := newDoc(histCase{Init: k.Init})
		for i, e := range k.Events {
			if e.S != nil {
				if err := runAll(l, d, []Step{*e.S}); err != nil {
					return err
				}
				continue
			}
			if e.Q.Kind == "snapshot" {
				c.Class(true, "snapshot between steps")
				if err := wantDoc(fmt.Sprintf("snapshot %d (event %d)", e.Q.V, i), l.Snapshot(e.Q.V), d.snap(e.Q.V), false); err != nil {
					return err
				}
				continue
			}
			ask(l, d, *e.Q)
		}
		histClasses(c, d)
		c.NonTrivial(len(d.vers) >= 2)
		for round := range 2 {
			for _, v := range k.Order {
				if err := wantDoc(fmt.Sprintf("snapshot %d (order %v, round %d)", v, k.Order, round), l.Snapshot(v), d.snap(v), false); err != nil {
					return err
				}
			}
		}
		return refused(fmt.Sprintf("snapshot of version %d of 0..%d", d.last()+1, d.last()), l, d, func() { l.Snapshot(d.last() + 1) })
	})

	// ---- C14
	add("C14", "queries", 4000, histRule+"; interleaved with all kinds of queries; non-trivial = at least 3 queries after at least 1 change", func(rt *rapid.T) sessionCase {
		return genSession(rt, 4, 20, 50)
	}, func(c *Ctx, k sessionCase) error {
		l, d := newDoc(histCase{Init: k.Init})
		type answer struct {
			name string
			q    Query
			read func() (any, error)
			was  any
		}
		var answers []answer
		check := func(when string) error {
			if err := wantDump(when, l, d); err != nil {
				return err
			}
			for v, s := range l.Snapshots {
				if v > d.last() {
					return fmt.Errorf("%s: a snapshot of version %d is kept, which does not exist", when, v)
				}
				if err := wantDoc(fmt.Sprintf("%s: the kept snapshot of version %d", when, v), s, d.snap(v), false); err != nil {
					return err
				}
			}
			for _, a := range answers {
				now, err := a.read()
				if err != nil {
					return fmt.Errorf("%s: the result of %s: %v", when, a.name, err)
				}
				if !reflect.DeepEqual(now, a.was) {
					return fmt.Errorf("%s: the earlier result of %s changed from %v to %v", when, a.name, show(a.was), show(now))
				}
			}
			return nil
		}
		queries := 0
		for i, e := range k.Events {
			if e.S != nil {
				if err := runAll(l, d, []Step{*e.S}); err != nil {
					return err
				}
				if err := check(fmt.Sprintf("after event %d (%s)", i, e.S.Kind)); err != nil {
					return err
				}
				continue
			}
			queries++
			c.Class(true, e.Q.Kind)
			c.Class(len(d.pend) > 0, "query with pending changes")
			name := fmt.Sprintf("event %d %+v", i, *e.Q)
			read := ask(l, d, *e.Q)
			was, err := read()
			if err != nil {
				return fmt.Errorf("%s: %v", name, err)
			}
			answers = append(answers, answer{name, *e.Q, read, was})
			if err := check("after " + name); err != nil {
				return err
			}
			again, err := ask(l, d, *e.Q)()
			if err != nil || !reflect.DeepEqual(again, was) {
				return fmt.Errorf("%s was answered by %v first and by %v when repeated (%v)", name, show(was), show(again), err)
			}
			if err := check("after repeating " + name); err != nil {
				return err
			}
		}
		histClasses(c, d)
		c.NonTrivial(queries >= 3 && len(d.all()) > 0)
		return nil
	})

	// All queries of a finished history, in two different orders, on two documents
	add("C14", "order", 3000, histRule+"; then 2-8 queries, asked on one document in order, and on another each for itself; non-trivial = at least 2 versions", func(rt *rapid.T) orderCase {
		h, g := genHist(rt, histOpts{early: true, pending: true, flat: chance(rt, 25)})
		k := orderCase{histCase: h}
		for n := rapid.IntRange(2, 8).Draw(rt, "queries"); n > 0; n-- {
			k.Queries = append(k.Queries, g.query(rt))
		}
		return k
	}, func(c *Ctx, k orderCase) error {
		l, d := newDoc(k.histCase)
		if err := runAll(l, d, k.Steps); err != nil {
			return err
		}
		histClasses(c, d)
		c.NonTrivial(len(d.vers) >= 2)
		for i, q := range k.Queries {
			pend := len(d.pend) == 0
			got, err := ask(l, d, q)()
			if err != nil {
				return err
			}
			fresh, fd := newDoc(k.histCase)
			if err := runAll(fresh, fd, k.Steps); err != nil {
				return err
			}
			if pend && len(fd.pend) > 0 { // an earlier query recorded the pending changes
				if err := fresh.Append(); err != nil {
					return err
				}
			}
			want, err := ask(fresh, fd, q)()
			if err != nil {
				return err
			}
			if !reflect.DeepEqual(got, want) {
				return fmt.Errorf("query %d %+v is answered by %v after %v, but by %v without", i, q, show(got), k.Queries[:i], show(want))
			}
		}
		return nil
	})

	// ---- C15
	add("C15", "recording", 5000, histRule+"; on two documents fed from the same slices, which the caller reuses (spare capacity) and overwrites afterwards; non-trivial = at least 2 versions or a shared slice followed by a set", func(rt *rapid.T) recordCase {
		h, _ := genHist(rt, histOpts{early: true, pending: true, maxSteps: 15, anytime: chance(rt, 25)})
		k := recordCase{histCase: h}
		for range h.Steps {
			k.Spoil = append(k.Spoil, rapid.IntRange(0, 3).Draw(rt, "spoil"))
		}
		return k
	}, func(c *Ctx, k recordCase) error {
		docs := []*logument.Logument{logument.NewLogument(k.Init.Tson(), nil), logument.NewLogument(k.Init.Tson(), nil)}
		models := []*MDoc{{base: k.Init}, {base: k.Init}}
		for i, s := range k.Steps {
			if s.Kind != "store" {
				for j := range docs {
					o := s
					if s.Kind == "set" && j == 1 { // another value for the other document
						o.Ops = []Op{s.Ops[0]}
						o.Ops[0].V = vStr("other", 0)
						if _, r := applyOp(models[j].cur(), o.Ops[0]); r != applied {
							continue
						}
					}
					if s.Kind == "testset" || s.Kind == "set" {
						if _, r := applyOp(models[j].cur(), o.Ops[0]); r != applied {
							continue
						}
					}
					if s.Kind == "testset" && s.Ops[0].Op == "add" && models[j].cur().at(splitPath(s.Ops[0].Path)) != nil {
						continue
					}
					if err := runAll(docs[j], models[j], []Step{o}); err != nil {
						return err
					}
				}
			} else {
				// The same slice, with spare capacity, goes to both documents
				patch := append(make(tsonpatch.Patch, 0, len(s.Ops)+4), sutPatch(s.Ops)...)
				first := len(s.Ops) // of the changes handed over in the first of two slices
				if k.Spoil[i] > 0 {
					first = len(s.Ops) - len(s.Ops)/2
				}
				rest := slices.Clone(patch[first:])
				for n := first; n < len(patch); n++ { // belongs to the caller only
					patch[n] = tsonpatch.Operation{Op: "replace", Path: "/callers", Value: "own", Timestamp: -5}
				}
				for j := range docs {
					if !applicable(models[j].cur(), s.Ops) {
						continue
					}
					if first < len(s.Ops) {
						c.Class(true, "list of slices")
						docs[j].Store([]tsonpatch.Patch{patch[:first], rest})
					} else {
						docs[j].Store(patch)
					}
					models[j].run(s)
				}
				back, err := modelPatch(append(slices.Clone(patch[:first]), rest...))
				if err != nil || !sameOps(back, s.Ops) {
					return fmt.Errorf("step %d: storing %s modified the slices of the caller: %s (%v)", i, opsText(s.Ops), opsText(back), err)
				}
				for n, o := range patch[:cap(patch)] {
					if n >= len(patch) && !reflect.DeepEqual(o, tsonpatch.Operation{}) || n >= first && n < len(patch) && o.Path != "/callers" {
						return fmt.Errorf("step %d: storing %s wrote behind the slice of the caller: %+v", i, opsText(s.Ops), o)
					}
				}
				switch k.Spoil[i] {
				case 1:
					for n := range patch {
						patch[n] = tsonpatch.Operation{Op: "replace", Path: "/spoiled", Value: "spoiled", Timestamp: -5}
					}
				case 2:
					patch = append(patch, tsonpatch.Operation{Op: "add", Path: "/spoiled", Value: "spoiled"})
				case 3:
					clear(patch[:cap(patch)])
				}
				c.Class(k.Spoil[i] > 0, "slice reused")
			}
			for j := range docs {
				if err := wantDump(fmt.Sprintf("document %d after step %d (%s)", j, i, s.Kind), docs[j], models[j]); err != nil {
					return err
				}
			}
		}
		histClasses(c, models[0])
		c.NonTrivial(len(models[0].vers) >= 2 || len(k.Steps) > 3)
		for j := range docs {
			for v := models[j].first; v <= models[j].last(); v++ {
				if err := wantDoc(fmt.Sprintf("document %d: snapshot %d", j, v), docs[j].Snapshot(v), models[j].snap(v), false); err != nil {
					return err
				}
			}
			// Appending once more records what is pending, and then nothing
			for round := range 2 {
				if err := runAll(docs[j], models[j], []Step{{Kind: "append"}}); err != nil {
					return err
				}
				if err := wantDump(fmt.Sprintf("document %d after appending again (%d)", j, round), docs[j], models[j]); err != nil {
					return err
				}
			}
		}
		return nil
	})

	// ---- C16
	add("C16", "slices", 4000, histRule+"; a version range, a range within it, and earlier snapshots of random versions; non-trivial = at least 2 versions in the slice", func(rt *rapid.T) sliceCase {
		h, g := genHist(rt, histOpts{early: true, cuts: true, pending: chance(rt, 30), anytime: chance(rt, 25)})
		k := sliceCase{histCase: h}
		for n := rapid.IntRange(0, 4).Draw(rt, "before"); n > 0; n-- {
			k.Before = append(k.Before, g.query(rt, "snapshot", "snapshot", "slice"))
		}
		k.I, k.J = g.someRange(rt)
		in := &histGen{d: &MDoc{first: k.I, vers: make([][]Op, k.J-k.I)}}
		k.I2, k.J2 = in.someRange(rt)
		var vs []uint64
		for v := k.I; v <= k.J; v++ {
			vs = append(vs, v)
		}
		k.Order = rapid.Permutation(vs).Draw(rt, "order")
		return k
	}, func(c *Ctx, k sliceCase) error {
		l, d, err := history(k.histCase)
		if err != nil {
			return err
		}
		histClasses(c, d)
		for _, q := range k.Before {
			ask(l, d, q)
		}
		c.Class(k.I > 0, "starts late")
		c.Class(k.J < d.last(), "ends early")
		c.NonTrivial(k.J > k.I)
		taken := maps.Clone(l.Snapshots)
		s, sd := l.Slice(k.I, k.J), d.slice(k.I, k.J)
		name := fmt.Sprintf("slice %d..%d of 0..%d", k.I, k.J, d.last())
		if err := wantDump(name, s, sd); err != nil {
			return err
		}
		// The snapshots taken so far are part of the slice
		for v := range taken {
			if _, ok := s.Snapshots[v]; !ok && v >= k.I && v <= k.J {
				return fmt.Errorf("%s leaves out the snapshot of version %d", name, v)
			}
		}
		for v, t := range s.Snapshots {
			if v < k.I || v > k.J {
				return fmt.Errorf("%s holds a snapshot of version %d", name, v)
			}
			if err := wantDoc(fmt.Sprintf("%s: the snapshot of version %d it holds", name, v), t, d.snap(v), false); err != nil {
				return err
			}
		}
		ss, ssd := s.Slice(k.I2, k.J2), sd.slice(k.I2, k.J2)
		inner := fmt.Sprintf("slice %d..%d of %s", k.I2, k.J2, name)
		if err := wantDump(inner, ss, ssd); err != nil {
			return err
		}
		for _, v := range k.Order {
			if err := wantDoc(fmt.Sprintf("%s: snapshot %d", name, v), s.Snapshot(v), d.snap(v), false); err != nil {
				return err
			}
			if v >= k.I2 && v <= k.J2 {
				if err := wantDoc(fmt.Sprintf("%s: snapshot %d", inner, v), ss.Snapshot(v), d.snap(v), false); err != nil {
					return err
				}
			}
		}
		if err := wantDump("the full document after "+name, l, d); err != nil {
			return err
		}
		if err := wantDump(name+" after its queries", s, sd); err != nil {
			return err
		}
		last := d.last()
		for _, bad := range [][2]uint64{{last, last + 1}, {last + 1, last + 1}, {0, last + 1}, {last + 2, last + 1}} {
			if err := refused(fmt.Sprintf("slice %v of 0..%d", bad, last), l, d, func() { l.Slice(bad[0], bad[1]) }); err != nil {
				return err
			}
		}
		if last > 0 {
			if err := refused(fmt.Sprintf("slice [%d %d]", last, last-1), l, d, func() { l.Slice(last, last-1) }); err != nil {
				return err
			}
		}
		if err := refused(fmt.Sprintf("snapshot %d of %s", k.J+1, name), s, sd, func() { s.Snapshot(k.J + 1) }); err != nil {
			return err
		}
		if k.I > 0 {
			if err := refused(fmt.Sprintf("snapshot %d of %s", k.I-1, name), s, sd, func() { s.Snapshot(k.I - 1) }); err != nil {
				return err
			}
			return refused(fmt.Sprintf("slice %d..%d of %s", k.I-1, k.J, name), s, sd, func() { s.Slice(k.I-1, k.J) })
		}
		return nil
	})

	// ---- C17
	add("C17", "track", 5000, histRule+"; a version range; non-trivial = at least 2 changes in the range", func(rt *rapid.T) rangeCase {
		h, g := genHist(rt, histOpts{early: true, cuts: true, pending: chance(rt, 30), notation: pick(rt, "notation", 0, 0, 1, 2), anytime: chance(rt, 25)})
		k := rangeCase{histCase: h}
		k.I, k.J = g.someRange(rt)
		return k
	}, func(c *Ctx, k rangeCase) error {
		l, d, err := history(k.histCase)
		if err != nil {
			return err
		}
		histClasses(c, d)
		raw := l.Track(k.I, k.J)
		name := fmt.Sprintf("track %d..%d", k.I, k.J)
		got, err := readTrack(raw)
		if err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		for v := range raw {
			if v < k.I || v > k.J {
				return fmt.Errorf("%s lists version %d", name, v)
			}
		}
		var all []located
		for _, x := range d.locate() {
			if x.version >= k.I && x.version <= k.J {
				all = append(all, x)
				c.Class(x.redundant, "repeated value in the range")
				c.Class(x.op.Op == "remove", "removal in the range")
			}
		}
		c.NonTrivial(len(all) >= 2)
		if err := checkFiltered(flatten(got), all, func(located) bool { return true }); err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		// Replay
		doc := d.base
		if k.I > d.first {
			doc = d.snap(k.I - 1)
		} else if d.prior != nil {
			doc = d.prior
		}
		for _, x := range flatten(got) {
			var r applyResult
			if doc, r = applyOp(doc, x.op); r != applied {
				return fmt.Errorf("%s: replaying stops at %s", name, opText(x.op))
			}
		}
		if want := d.snap(k.J); !same(want, doc, true) {
			return fmt.Errorf("%s: the replayed state differs %s", name, diffText(want, doc, "", true))
		}
		last := d.last()
		bads := [][2]uint64{{d.first, last + 1}, {last + 1, last + 1}, {last + 1, last}}
		if k.I < k.J {
			bads = append(bads, [2]uint64{k.J, k.I})
		}
		for _, bad := range bads {
			if err := refused(fmt.Sprintf("track %v", bad), l, d, func() { l.Track(bad[0], bad[1]) }); err != nil {
				return err
			}
		}
		return wantDump("the document after "+name, l, d)
	})

	// ---- C18
	add("C18", "snapshots", 5000, histRule+", some pending; snapshots at 1-6 times; non-trivial = a time with some but not all changes", func(rt *rapid.T) timesCase {
		h, g := genHist(rt, histOpts{early: true, cuts: true, pending: chance(rt, 50), notation: pick(rt, "notation", 0, 0, 1, 2)})
		k := timesCase{histCase: h}
		for n := rapid.IntRange(1, 6).Draw(rt, "times"); n > 0; n-- {
			k.Times = append(k.Times, g.someTime(rt))
		}
		return k
	}, checkTimes)

	add("C18", "unordered", 4000, "a flat document and up to 15 stores/sets of leaf updates with timestamps in any order (ties: the later recorded one wins), appended at random; non-trivial = a time with some but not all changes", genUnordered, checkTimes)

	add("C18", "regrouped", 3000, histRule+"; the same changes recorded in other versions give the same temporal snapshots; non-trivial = at least 3 changes", func(rt *rapid.T) regroupCase {
		h, g := genHist(rt, histOpts{early: true, pending: true})
		k := regroupCase{timesCase: timesCase{histCase: h}}
		for n := rapid.IntRange(1, 4).Draw(rt, "times"); n > 0; n-- {
			k.Times = append(k.Times, g.someTime(rt))
		}
		all := g.d.all()
		for len(all) > 0 {
			n := rapid.IntRange(1, len(all)).Draw(rt, "group")
			k.Groups = append(k.Groups, all[:n])
			all = all[n:]
		}
		return k
	}, func(c *Ctx, k regroupCase) error {
		l, d := newDoc(k.histCase)
		if err := runAll(l, d, k.Steps); err != nil {
			return err
		}
		c.NonTrivial(len(d.all()) >= 3)
		c.Class(len(k.Groups) != len(d.vers), "another number of versions")
		other, _ := newDoc(k.histCase)
		for _, g := range k.Groups {
			other.Store(sutPatch(g))
			if err := other.Append(); err != nil {
				return err
			}
		}
		for _, t := range k.Times {
			a, err := fromTson(l.TemporalSnapshot(t))
			if err != nil {
				return err
			}
			if err := wantDoc(fmt.Sprintf("the temporal snapshot at %d of the same changes in other versions", t), other.TemporalSnapshot(t), a, false); err != nil {
				return err
			}
		}
		return nil
	})

	// ---- C19
	add("C19", "temporal-track", 5000, histRule+", some pending; a time range; non-trivial = at least 2 changes in the range", func(rt *rapid.T) timeRangeCase {
		h, g := genHist(rt, histOpts{early: true, cuts: true, pending: chance(rt, 30), notation: pick(rt, "notation", 0, 0, 1, 2)})
		k := timeRangeCase{histCase: h}
		k.A, k.B = g.someTimes(rt)
		return k
	}, func(c *Ctx, k timeRangeCase) error {
		l, d, err := history(k.histCase)
		if err != nil {
			return err
		}
		histClasses(c, d)
		name := fmt.Sprintf("temporal track %d..%d", k.A, k.B)
		raw := l.TemporalTrack(k.A, k.B)
		for v, p := range raw {
			if len(p) == 0 {
				return fmt.Errorf("%s lists version %d without changes", name, v)
			}
		}
		got, err := readTrack(raw)
		if err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		var all []located
		before, after := 0, 0
		for _, x := range d.locate() {
			switch {
			case x.op.T < k.A:
				before++
			case x.op.T > k.B:
				after++
			default:
				all = append(all, x)
			}
		}
		c.Class(before > 0, "changes before")
		c.Class(after > 0, "changes after")
		c.NonTrivial(len(all) >= 2)
		if err := checkFiltered(flatten(got), all, func(located) bool { return true }); err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		if k.A < k.B {
			if err := refused(fmt.Sprintf("temporal track %d..%d", k.B, k.A), l, d, func() { l.TemporalTrack(k.B, k.A) }); err != nil {
				return err
			}
		}
		return wantDump("the document after "+name, l, d)
	})

	add("C19", "unordered", 4000, "a flat document and up to 15 stores/sets of leaf updates with timestamps in any order; a time range; non-trivial = at least 2 changes in the range and 1 outside", genUnordered, func(c *Ctx, k timesCase) error {
		l, d, err := history(k.histCase)
		if err != nil {
			return err
		}
		a, b := k.span()
		name := fmt.Sprintf("temporal track %d..%d", a, b)
		got, err := readTrack(l.TemporalTrack(a, b))
		if err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		list := flatten(got)
		in, out, j := 0, 0, 0
		prev := map[string]*V{} // values of the changes in the range
		for _, x := range d.locate() {
			if x.op.T < a || x.op.T > b {
				out++
				continue
			}
			in++
			v, old := x.op.leafValue(), prev[x.op.Path]
			repeats := old != nil && same(old, v, true)
			if j < len(list) && list[j].version == x.version && sameOp(list[j].op, x.op) && !repeats {
				j++
			} else if !repeats && !(old == nil && x.redundant) {
				return fmt.Errorf("%s: %s (version %d) is missing or misplaced: %s", name, opText(x.op), x.version, show(got))
			}
			prev[x.op.Path] = v
		}
		if j < len(list) {
			return fmt.Errorf("%s lists %s (version %d), which repeats a value or was not recorded there: %s", name, opText(list[j].op), list[j].version, show(got))
		}
		c.NonTrivial(in >= 2 && out >= 1)
		return wantDump("the document after "+name, l, d)
	})

	// ---- C20
	add("C20", "unordered", 3000, "a flat document and up to 15 stores/sets of leaf updates with timestamps in any order; a time range and times within it; non-trivial = at least 2 changes in the range and 1 outside", genUnordered, func(c *Ctx, k timesCase) error {
		l, d, err := history(k.histCase)
		if err != nil {
			return err
		}
		a, b := k.span()
		name := fmt.Sprintf("temporal slice %d..%d", a, b)
		s := l.TemporalSlice(a, b)
		d.appendPending()
		if err := wantDump("the document after "+name, l, d); err != nil {
			return err
		}
		sd, err := temporalModel(name, s, d, a, b)
		if err != nil {
			return err
		}
		n := len(sd.all())
		c.NonTrivial(n >= 2 && n < len(d.all()))
		for _, t := range append(k.Times, a, b) {
			t = max(a, min(b, t))
			if err := wantDoc(fmt.Sprintf("%s: temporal snapshot at %d", name, t), s.TemporalSnapshot(t), d.ts(t), false); err != nil {
				return err
			}
		}
		return nil
	})

	add("C20", "temporal-slice", 4000, histRule+", some pending; a time range and times within it; non-trivial = at least 1 change in the range and 1 outside", func(rt *rapid.T) timeRangeCase {
		h, g := genHist(rt, histOpts{early: true, cuts: true, pending: chance(rt, 40), notation: pick(rt, "notation", 0, 0, 1, 2)})
		k := timeRangeCase{histCase: h}
		k.A, k.B = g.someTimes(rt)
		for n := rapid.IntRange(0, 3).Draw(rt, "before"); n > 0; n-- {
			k.Before = append(k.Before, g.someVersion(rt))
		}
		for n := rapid.IntRange(1, 5).Draw(rt, "times"); n > 0; n-- {
			k.Times = append(k.Times, max(k.A, min(k.B, g.someTime(rt))))
		}
		k.Times = append(k.Times, k.A, k.B)
		return k
	}, func(c *Ctx, k timeRangeCase) error {
		l, d, err := history(k.histCase)
		if err != nil {
			return err
		}
		histClasses(c, d)
		for _, v := range k.Before {
			l.Snapshot(min(v, d.last()))
		}
		name := fmt.Sprintf("temporal slice %d..%d", k.A, k.B)
		s := l.TemporalSlice(k.A, k.B)
		d.appendPending()
		if err := wantDump("the document after "+name, l, d); err != nil {
			return err
		}
		sd, err := temporalModel(name, s, d, k.A, k.B)
		if err != nil {
			return err
		}
		n := len(sd.all())
		c.Class(n == 0, "no changes in the range")
		c.NonTrivial(n > 0 && n < len(d.all()))
		for _, t := range k.Times {
			if err := wantDoc(fmt.Sprintf("%s: temporal snapshot at %d", name, t), s.TemporalSnapshot(t), d.ts(t), false); err != nil {
				return err
			}
		}
		for v := sd.first; v <= sd.last(); v++ {
			if err := wantDoc(fmt.Sprintf("%s: snapshot of version %d", name, v), s.Snapshot(v), sd.snap(v), false); err != nil {
				return err
			}
		}
		if _, err := temporalModel(name+" after queries", s, d, k.A, k.B); err != nil {
			return err
		}
		// A slice of the slice
		a2, b2 := k.Times[0], k.Times[1]
		a2, b2 = min(a2, b2), max(a2, b2)
		inner := fmt.Sprintf("temporal slice %d..%d of %s", a2, b2, name)
		ss := s.TemporalSlice(a2, b2)
		if _, err := temporalModel(inner, ss, d, a2, b2); err != nil {
			return err
		}
		if err := wantDoc(inner+": temporal snapshot at its end", ss.TemporalSnapshot(b2), d.ts(b2), false); err != nil {
			return err
		}
		if k.A < k.B {
			return refused(fmt.Sprintf("temporal slice %d..%d", k.B, k.A), l, d, func() { l.TemporalSlice(k.B, k.A) })
		}
		return nil
	})

	// ---- C21
	add("C21", "set", 8000, histRule+"; then sets and conditional sets of the current value, other values, missing paths and other operations, checked one by one; non-trivial = at least 2 sets", func(rt *rapid.T) setCase {
		o := histOpts{early: true, cuts: true, notation: pick(rt, "notation", 0, 0, 1, 2), pending: true, maxSteps: 5}
		h, g := genHist(rt, o)
		k := setCase{histCase: h}
		for n := rapid.IntRange(1, 8).Draw(rt, "sets"); n > 0; n-- {
			doc := g.d.cur()
			s := Step{Kind: pick(rt, "kind", "testset", "set", "testset")}
			op, ok := o.op(rt, doc, genTime(rt), true)
			if !ok {
				continue
			}
			exists := doc.at(splitPath(op.Path)) != nil
			if s.Kind == "testset" && exists && chance(rt, 80) {
				op.Op = "replace"
			}
			s.Ops = []Op{op}
			if chance(rt, 50) {
				s.Back = pick[uint64](rt, "back", 0, 1, 2, 3, 20, 60, 100, 101, 102)
			}
			if chance(rt, 10) {
				s.Ops[0].Op = pick(rt, "other", "remove", "move", "copy", "test", "")
			} else {
				g.d.run(s)
			}
			k.Sets = append(k.Sets, s)
		}
		return k
	}, func(c *Ctx, k setCase) error {
		l, d, err := history(k.histCase)
		if err != nil {
			return err
		}
		c.NonTrivial(len(k.Sets) >= 2)
		for i, s := range k.Sets {
			o := s.Ops[0]
			name := fmt.Sprintf("%s %d of %s", s.Kind, i, opText(o))
			exec(l, s)
			switch {
			case o.Op != "add" && o.Op != "replace":
				c.Class(true, "other operation")
			case s.Kind == "testset":
				recorded, ok := d.testSet(o)
				c.Class(ok, "conditional set recorded")
				c.Class(!ok, "conditional set of the same value")
				if !ok {
					break
				}
				c.Class(recorded.Op != o.Op, "conditional set of a missing path")
				// Whether a new path is recorded as add or replace does not matter
				if n := len(l.PatchPool); n == len(d.pend)+1 && recorded.Op != o.Op && string(l.PatchPool[n-1].Op) == o.Op {
					recorded.Op = o.Op
				}
				d.pend = append(d.pend, recorded)
			default:
				c.Class(true, "set")
				d.run(s)
			}
			if err := wantDump("after "+name, l, d); err != nil {
				return err
			}
		}
		return nil
	})

	// ---- C22
	add("C22", "compact", 5000, histRule+", some pending; a path to compact (changed paths, ancestors, similar names), queries before and after, further growth; non-trivial = a repeated value in the history", func(rt *rapid.T) compactCase {
		h, g := genHist(rt, histOpts{early: true, cuts: true, pending: chance(rt, 30), notation: pick(rt, "notation", 0, 0, 1, 2), maxSteps: 15, anytime: chance(rt, 25)})
		k := compactCase{histCase: h, Path: g.somePath(rt)}
		if k.Path != "" && chance(rt, 10) {
			k.Path += "/"
		}
		for n := rapid.IntRange(0, 3).Draw(rt, "before"); n > 0; n-- {
			k.Before = append(k.Before, g.query(rt, "snapshot", "snapshot", "track"))
		}
		for n := rapid.IntRange(1, 4).Draw(rt, "times"); n > 0 && !g.anytime; n-- {
			k.Times = append(k.Times, g.someTime(rt))
		}
		k.More = g.steps(rt, 0, 3)
		return k
	}, func(c *Ctx, k compactCase) error {
		l, d, err := history(k.histCase)
		if err != nil {
			return err
		}
		histClasses(c, d)
		for _, q := range k.Before {
			ask(l, d, q)
		}
		name := fmt.Sprintf("compacting %q", k.Path)
		target := compactTarget(k.Path)
		all := d.locate()
		for _, x := range all {
			c.NonTrivial(x.redundant)
			c.Class(x.redundant && under(x.segs, target), "repeated value below the path")
			c.Class(x.redundant && !under(x.segs, target), "repeated value elsewhere")
		}
		l.Compact(k.Path)
		compacted := func(what string) (dump, error) {
			got, err := dumpOf(l)
			if err != nil {
				return got, err
			}
			if err := checkFiltered(flatten(got.patches), all, func(x located) bool { return under(x.segs, target) }); err != nil {
				return got, fmt.Errorf("%s: %v", what, err)
			}
			want := d.dump()
			want.patches = got.patches
			if err := got.equal(want, true); err != nil {
				return got, fmt.Errorf("%s: %v", what, err)
			}
			return got, nil
		}
		first, err := compacted("after " + name)
		if err != nil {
			return err
		}
		check := func(when string) error {
			for v := d.first; v <= d.last(); v++ {
				if err := wantDoc(fmt.Sprintf("%s: snapshot %d", when, v), l.Snapshot(v), d.snap(v), true); err != nil {
					return err
				}
			}
			return nil
		}
		if err := check("after " + name); err != nil {
			return err
		}
		l.Compact(k.Path)
		second, err := compacted("after " + name + " twice")
		if err != nil {
			return err
		}
		if err := second.equal(first, false); err != nil {
			return fmt.Errorf("%s twice is not the same as once: %v", name, err)
		}
		// A fresh document without memoised snapshots
		l2, _, err := history(k.histCase)
		if err != nil {
			return err
		}
		l2.Compact(k.Path)
		for _, v := range []uint64{d.last(), (d.first + d.last()) / 2, d.first} {
			if err := wantDoc(fmt.Sprintf("after %s: snapshot %d", name, v), l2.Snapshot(v), d.snap(v), true); err != nil {
				return err
			}
		}
		for _, t := range k.Times {
			if err := wantDoc(fmt.Sprintf("after %s: temporal snapshot at %d", name, t), l2.TemporalSnapshot(t), d.ts(t), true); err != nil {
				return err
			}
		}
		// Growth goes on
		if err := runAll(l, d, append(slices.Clone(k.More), Step{Kind: "append"})); err != nil {
			return err
		}
		if err := wantDoc("the state after "+name+" and more changes", l.CurrentState, d.cur(), true); err != nil {
			return err
		}
		return check("after " + name + " and more changes")
	})

	// ---- C23
	add("C23", "history", 5000, histRule+", all appended, one path notation; a path of the history, an ancestor or a similar name; non-trivial = at least 2 changes below the path", func(rt *rapid.T) pathCase {
		h, g := genHist(rt, histOpts{early: true, cuts: true, notation: pick(rt, "notation", 0, 0, 1), maxSteps: 15})
		k := pathCase{h, g.somePath(rt)}
		k.Path = strings.TrimRight(k.Path, "/") // an empty last key is ambiguous
		return k
	}, func(c *Ctx, k pathCase) error {
		l, d, err := history(k.histCase)
		if err != nil {
			return err
		}
		histClasses(c, d)
		name := fmt.Sprintf("history of %q", k.Path)
		got, err := readHistory(l.History(k.Path))
		if err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		target := splitPath(k.Path)
		all := slices.DeleteFunc(d.locate(), func(x located) bool { return x.version == d.first })
		byPath := map[string][]located{}
		n := 0
		for _, x := range all {
			if under(x.segs, target) {
				byPath[x.op.Path] = append(byPath[x.op.Path], x)
				n++
			}
		}
		c.NonTrivial(n >= 2)
		c.Class(n == 0, "nothing below the path")
		for key := range got {
			if byPath[key] == nil {
				return fmt.Errorf("%s lists %q, which was never changed or does not lie below", name, key)
			}
		}
		for key := range byPath {
			list := got[key]
			initial := d.base.at(splitPath(key))
			hasInitial := initial != nil && initial.K != "z"
			c.Class(hasInitial, "with initial value")
			c.Class(!hasInitial, "without initial value")
			if hasInitial && len(list) > 0 {
				// the document itself, or its plain value
				if o := list[0]; o.Path != key || o.V == nil || !same(o.V, initial, true) {
					return fmt.Errorf("%s: %q starts with %s, want its initial value %s", name, key, opText(list[0]), brief(initial))
				}
				list = list[1:]
			}
			// Nothing which changes a value is missing, no value is repeated. The
			// other changes are needed to tell what happened in between.
			mine := map[int]bool{}
			for i, x := range all {
				if x.op.Path == key {
					mine[i] = true
				}
			}
			if err := checkPath(list, all, mine); err != nil {
				return fmt.Errorf("%s: %q: %v; the history lists %s", name, key, err, opsText(got[key]))
			}
		}
		return wantDump("the document after "+name, l, d)
	})

	add("C23", "unordered", 3000, "a flat document and up to 12 steps of leaf updates with timestamps in any order; the history of a key or all keys: in time order, lacking only changes to the value there was before in recorded or in time order; non-trivial = at least 2 changes below the path", func(rt *rapid.T) pathCase {
		h, g := genHist(rt, histOpts{early: true, flat: true})
		return pathCase{h, strings.TrimRight(g.somePath(rt), "/")}
	}, func(c *Ctx, k pathCase) error {
		l, d, err := history(k.histCase)
		if err != nil {
			return err
		}
		name := fmt.Sprintf("history of %q", k.Path)
		got, err := readHistory(l.History(k.Path))
		if err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		byPath := map[string][]located{}
		for _, x := range d.locate() {
			if under(x.segs, splitPath(k.Path)) {
				byPath[x.op.Path] = append(byPath[x.op.Path], x)
				c.NonTrivial(len(byPath[x.op.Path]) >= 2)
			}
		}
		for key := range got {
			if byPath[key] == nil {
				return fmt.Errorf("%s lists %q", name, key)
			}
		}
		for key, all := range byPath {
			initial := d.base.at(splitPath(key))
			list := got[key]
			if initial != nil {
				if len(list) == 0 || list[0].V == nil || !same(list[0].V, initial, true) {
					return fmt.Errorf("%s: %q lists %s, want its initial value %s first", name, key, opsText(list), brief(initial))
				}
				list = list[1:]
			}
			slices.SortStableFunc(all, func(a, b located) int { return cmp.Compare(a.op.T, b.op.T) })
			// Equal changes may be recorded several times: follow all ways to read the list
			old, at := initial, map[int]bool{0: true}
			for _, x := range all {
				repeats := old != nil && same(old, x.op.leafValue(), true)
				old = x.op.leafValue()
				next := map[int]bool{}
				for j := range at {
					if j < len(list) && sameOp(list[j], x.op) {
						next[j+1] = true
					}
					if repeats || x.redundant {
						next[j] = true
					}
				}
				if len(next) == 0 {
					return fmt.Errorf("%s: %q lists %s, but not %s in its place", name, key, opsText(list), opText(x.op))
				}
				at = next
			}
			if !at[len(list)] {
				return fmt.Errorf("%s: %q lists %s, where some change is not in its place", name, key, opsText(list))
			}
		}
		return wantDump("the document after "+name, l, d)
	})

	// ---- C24
	add("C24", "growth", 3000, histRule+", some pending; a slice, a temporal slice and the original grow and are queried and compacted further in any order; non-trivial = at least 2 of them grow", func(rt *rapid.T) growCase {
		h, g := genHist(rt, histOpts{early: true, pending: chance(rt, 30), maxSteps: 8})
		k := growCase{histCase: h}
		k.I, k.J = g.someRange(rt)
		k.A, k.B = g.someTimes(rt)
		if odds(rt, 25) { // everything there is
			k.I, k.J = g.d.first, g.d.last()
		}
		if odds(rt, 20) {
			k.A, k.B = math.MinInt64, math.MaxInt64
		}
		for n := pick(rt, "before", 0, 0, 0, 1, 3, 6); n > 0; n-- {
			k.Before = append(k.Before, g.query(rt, "snapshot", "snapshot", "slice", "track"))
		}
		s := g.d.slice(k.I, k.J)
		g.d.appendPending()
		td := sliceByTime(g.d, k.A, k.B)
		gens := []*histGen{g, {histOpts: g.histOpts, d: s, t: g.t, offset: g.offset}, {histOpts: g.histOpts, d: td, t: g.t, offset: g.offset}}
		for n := rapid.IntRange(1, 12).Draw(rt, "growth"); n > 0; n-- {
			i := rapid.IntRange(0, 2).Draw(rt, "which")
			if step, ok := gens[i].step(rt); ok {
				k.Growth = append(k.Growth, growth{Doc: i, Step: &step})
			}
			if chance(rt, 15) {
				k.Growth = append(k.Growth, growth{Doc: rapid.IntRange(0, 2).Draw(rt, "whose"), Snap: true})
			}
		}
		if chance(rt, 30) {
			k.Compact = rapid.IntRange(1, 3).Draw(rt, "compact")
			k.Path = g.somePath(rt)
		}
		return k
	}, func(c *Ctx, k growCase) error {
		l, d := newDoc(k.histCase)
		if err := runAll(l, d, k.Steps); err != nil {
			return err
		}
		for _, q := range k.Before {
			ask(l, d, q)
		}
		s, sd := l.Slice(k.I, k.J), d.slice(k.I, k.J)
		ts := l.TemporalSlice(k.A, k.B)
		d.appendPending()
		td, err := temporalModel("temporal slice", ts, d, k.A, k.B)
		if err != nil {
			return err
		}
		names := []string{"the original", fmt.Sprintf("slice %d..%d", k.I, k.J), fmt.Sprintf("temporal slice %d..%d", k.A, k.B)}
		docs, models := []*logument.Logument{l, s, ts}, []*MDoc{d, sd, td}
		grown := map[int]bool{}
		all := func(when string) error {
			for i := range docs {
				if err := wantDump(names[i]+" "+when, docs[i], models[i]); err != nil {
					return err
				}
			}
			return nil
		}
		for n, g := range k.Growth {
			if g.Snap {
				docs[g.Doc].Snapshot(models[g.Doc].last())
				docs[g.Doc].Track(models[g.Doc].first, models[g.Doc].last())
				continue
			}
			grown[g.Doc] = true
			if err := runAll(docs[g.Doc], models[g.Doc], []Step{*g.Step}); err != nil {
				return fmt.Errorf("%s refuses growth step %d: %v", names[g.Doc], n, err)
			}
			if err := all(fmt.Sprintf("after growth step %d (%s of %s)", n, g.Step.Kind, names[g.Doc])); err != nil {
				return err
			}
		}
		c.NonTrivial(len(grown) >= 2)
		for i := range docs {
			c.Class(grown[i], names[i][:4]+".. grows")
		}
		c.Class(k.Compact > 0, "compaction")
		compacted := -1
		if k.Compact > 0 {
			compacted = k.Compact - 1
			docs[compacted].Compact(k.Path)
		}
		for i := range docs {
			m := models[i]
			if i != compacted {
				if err := wantDump(names[i]+" at the end", docs[i], m); err != nil {
					return err
				}
			}
			for v := m.first; v <= m.last(); v++ {
				if err := wantDoc(fmt.Sprintf("%s: snapshot %d", names[i], v), docs[i].Snapshot(v), m.snap(v), i == compacted); err != nil {
					return err
				}
			}
			for _, t := range append([]int64{k.A, k.B, math.MaxInt64}, k.A-1) {
				if err := wantDoc(fmt.Sprintf("%s: temporal snapshot %d", names[i], t), docs[i].TemporalSnapshot(t), m.ts(t), i == compacted); err != nil {
					return err
				}
			}
			if err := wantDoc(names[i]+": current state", docs[i].CurrentState, m.cur(), i == compacted); err != nil {
				return err
			}
			// A slice of the grown document
			m.appendPending()
			again := docs[i].Slice(m.first, m.last())
			for v := m.first; v <= m.last(); v++ {
				if err := wantDoc(fmt.Sprintf("slice of %s: snapshot %d", names[i], v), again.Snapshot(v), m.snap(v), i == compacted); err != nil {
					return err
				}
			}
		}
		return nil
	})

	// ---- C31
	add("C31", "forms", 6000, histRule+"; the document created from text, bytes and data, the changes handed over in every accepted form, at creation or later; non-trivial = at least 2 operations", func(rt *rapid.T) formCase {
		h, g := genHist(rt, histOpts{kinds: []string{"store"}, maxSteps: 3, pending: true, notation: pick(rt, "notation", 0, 2)})
		k := formCase{Init: h.Init, Ops: g.d.all(), Indent: rapid.Bool().Draw(rt, "indent")}
		k.Split = rapid.IntRange(0, len(k.Ops)).Draw(rt, "split")
		return k
	}, func(c *Ctx, k formCase) error {
		if len(k.Ops) == 0 {
			return nil
		}
		c.NonTrivial(len(k.Ops) >= 2)
		var text []byte
		var err error
		if k.Indent {
			text, err = tson.MarshalIndent(k.Init.Tson(), "", "  ")
		} else {
			text, err = tson.Marshal(k.Init.Tson())
		}
		if err != nil {
			return err
		}
		want := &MDoc{base: k.Init, pend: k.Ops}
		patchText := jsonPatch(k.Ops)
		docForms := []any{string(text), slices.Clone(text), k.Init.Tson()}
		patchForms := func() map[string]any {
			return map[string]any{
				"text": patchText, "bytes": []byte(patchText), "patch": sutPatch(k.Ops), "operations": []tsonpatch.Operation(sutPatch(k.Ops)),
				"list of patches": []tsonpatch.Patch{sutPatch(k.Ops[:k.Split]), sutPatch(k.Ops[k.Split:])},
			}
		}
		for i, df := range docForms {
			for name, pf := range patchForms() {
				made := logument.NewLogument(df, pf)
				if err := wantDump(fmt.Sprintf("document form %d created with changes as %s", i, name), made, want); err != nil {
					return err
				}
				later := logument.NewLogument(df, nil)
				if err := wantDump(fmt.Sprintf("document form %d", i), later, &MDoc{base: k.Init}); err != nil {
					return err
				}
				later.Store(pf)
				if err := wantDump(fmt.Sprintf("document form %d with changes stored as %s", i, name), later, want); err != nil {
					return err
				}
				// The same change again in the version history
				if err := made.Append(); err != nil {
					return err
				}
				if err := wantDump(fmt.Sprintf("document form %d with changes as %s, appended", i, name), made, &MDoc{base: k.Init, vers: [][]Op{k.Ops}}); err != nil {
					return err
				}
			}
			single := logument.NewLogument(df, nil)
			mixed := logument.NewLogument(df, sutPatch(k.Ops)[0])
			for n, o := range sutPatch(k.Ops) {
				single.Store(o)
				if n == 0 {
					continue
				}
				switch n % 3 {
				case 0:
					mixed.Store(o)
				case 1:
					mixed.Store(jsonPatch(k.Ops[n : n+1]))
				default:
					mixed.Store([]byte(jsonPatch(k.Ops[n : n+1])))
				}
			}
			if err := wantDump("changes stored one by one", single, want); err != nil {
				return err
			}
			if err := wantDump("changes stored one by one in different forms", mixed, want); err != nil {
				return err
			}
		}
		return nil
	})

	add("C31", "refused", 6000, histRule+"; then changes which are no valid patch text, no accepted type, or cannot be applied at some operation: refused without recording anything, then the history goes on; document texts which are malformed; non-trivial = pending or appended changes exist", func(rt *rapid.T) (k refuseCase) {
		h, g := genHist(rt, histOpts{pending: true, maxSteps: 5})
		k = refuseCase{histCase: h, Kind: pick(rt, "kind", "text", "bytes", "inapplicable", "type", "document", "one by one")}
		doc := g.d.cur()
		defer func() { k.More = g.steps(rt, 0, 3) }()
		for n := rapid.IntRange(0, 3).Draw(rt, "good"); n > 0; n-- {
			if o, ok := g.op(rt, doc, g.tick(rt), false); ok {
				k.Ops = append(k.Ops, o)
				doc, _ = applyOp(doc, o)
			}
		}
		for {
			bad, ok := genOp(rt, doc, true)
			if ok {
				if _, r := applyOp(doc, bad); r == rejected {
					k.Ops = append(k.Ops, bad)
					break
				}
			}
			if k.Kind == "inapplicable" || k.Kind == "one by one" {
				bad := Op{Op: "move", Path: "/a", T: 5}
				if rapid.Bool().Draw(rt, "null") {
					bad = Op{Op: "add", Path: "/a", T: 5}
				}
				k.Ops = append(k.Ops, bad)
			}
			break
		}
		k.Text = pick(rt, "text", "", "{", "[", "[{]", `[{"op":"add","path":"/a","value":1,"timestamp":1}`, `[{"op":"add","path":"/a","value":1,"timestamp":1},]`, `{"op":"add","path":"/a","value":1,"timestamp":1}`,
			`[{"op":"add","path":"/a","value":1,"timestamp":1},{"op":"add","path":7}]`, `[{"op":"add","path":"/a","value":1,"timestamp":"x"}]`, "5", `"x"`, `[{"op":"add","path":"/a","value":1,"timestamp":1}] x`)
		k.DocText = pick(rt, "doc", "", "{", `{"a" <1>: }`, `{"a" <1>: 1`, `{"a" <1>: 1}}`, "nul", `{"a" <x>: 1}`, `[1 <5>,]`, "\x00", `{"a": 1,}`, `{"a": "x}`)
		return k
	}, func(c *Ctx, k refuseCase) error {
		c.Class(true, k.Kind)
		if k.Kind == "document" {
			c.NonTrivial(true)
			for _, form := range []any{k.DocText, []byte(k.DocText)} {
				if p, _ := try(func() { logument.NewLogument(form, nil) }); !p {
					return fmt.Errorf("document text %q was not refused", k.DocText)
				}
			}
			if p, _ := try(func() { logument.NewLogument(42, nil) }); !p {
				return fmt.Errorf("the number 42 was accepted as a document")
			}
			if p, _ := try(func() { logument.NewLogument(k.Init.Tson(), k.Text) }); !p {
				return fmt.Errorf("patch text %q was not refused at creation", k.Text)
			}
			return nil
		}
		l, d := newDoc(k.histCase)
		if err := runAll(l, d, k.Steps); err != nil {
			return err
		}
		c.NonTrivial(len(d.all()) > 0)
		c.Class(len(d.pend) > 0, "pending changes")
		c.Class(len(k.Ops) > 1, "good operations first")
		if err := k.refuse(l, d); err != nil {
			return err
		}
		// A refused change leaves nothing behind
		if err := runAll(l, d, append([]Step{{Kind: "append"}}, k.More...)); err != nil {
			return err
		}
		return wantDump("the document which went on after the refusal", l, d)
	})
}

// singly makes a patch of each operation.
func singly(ops []Op) (ps []tsonpatch.Patch) {
	for _, o := range ops {
		ps = append(ps, sutPatch([]Op{o}))
	}
	return ps
}

// refuse hands over the changes of the case, which have to be refused.
func (k refuseCase) refuse(l *logument.Logument, d *MDoc) error {
	store := func(x any) func() { return func() { l.Store(x) } }
	switch k.Kind {
	case "text":
		return refused(fmt.Sprintf("patch text %q", k.Text), l, d, store(k.Text))
	case "bytes":
		return refused(fmt.Sprintf("patch bytes %q", k.Text), l, d, store([]byte(k.Text)))
	case "type":
		for _, x := range []any{42, 1.5, []string{"x"}, map[string]any{}, true} {
			if err := refused(fmt.Sprintf("a %T", x), l, d, store(x)); err != nil {
				return err
			}
		}
		return nil
	case "inapplicable":
		if applicable(d.cur(), k.Ops) {
			return nil
		}
		for _, x := range []any{sutPatch(k.Ops), jsonPatch(k.Ops), []tsonpatch.Operation(sutPatch(k.Ops)), []tsonpatch.Patch{sutPatch(k.Ops[:1]), sutPatch(k.Ops[1:])}, singly(k.Ops)} {
			if err := refused(fmt.Sprintf("inapplicable patch %s as %T", opsText(k.Ops), x), l, d, store(x)); err != nil {
				return err
			}
		}
		return nil
	}
	// one by one: set and store of a single inapplicable operation
	for _, o := range k.Ops {
		if _, r := applyOp(d.cur(), o); r != rejected {
			continue
		}
		if err := refused("operation "+opText(o), l, d, store(o.Sut())); err != nil {
			return err
		}
		if o.Op == "add" || o.Op == "replace" {
			if err := refused("set of "+opText(o), l, d, func() { l.Set(d.last(), o.Sut()) }); err != nil {
				return err
			}
		}
	}
	return nil
}

type snapCase struct {
	sessionCase
	Order []uint64 `json:"order"`
}

type orderCase struct {
	histCase
	Queries []Query `json:"queries"`
}

type recordCase struct {
	histCase
	Spoil []int `json:"spoil"`
}

type sliceCase struct {
	histCase
	Before []Query  `json:"before,omitempty"`
	I      uint64   `json:"i"`
	J      uint64   `json:"j"`
	I2     uint64   `json:"i2"`
	J2     uint64   `json:"j2"`
	Order  []uint64 `json:"order"`
}

type rangeCase struct {
	histCase
	I uint64 `json:"i"`
	J uint64 `json:"j"`
}

type timesCase struct {
	histCase
	Times []int64 `json:"times"`
}

type regroupCase struct {
	timesCase
	Groups [][]Op `json:"groups"`
}

type timeRangeCase struct {
	histCase
	Before []uint64 `json:"before,omitempty"`
	A      int64    `json:"from"`
	B      int64    `json:"to"`
	Times  []int64  `json:"times,omitempty"`
}

type setCase struct {
	histCase
	Sets []Step `json:"sets"`
}

type compactCase struct {
	histCase
	Path   string  `json:"path"`
	Before []Query `json:"before,omitempty"`
	Times  []int64 `json:"times"`
	More   []Step  `json:"more,omitempty"`
}

type pathCase struct {
	histCase
	Path string `json:"path"`
}

type growth struct {
	Doc  int   `json:"doc"`
	Step *Step `json:"step,omitempty"`
	Snap bool  `json:"snap,omitempty"`
}

type growCase struct {
	histCase
	I       uint64   `json:"i"`
	J       uint64   `json:"j"`
	A       int64    `json:"from"`
	B       int64    `json:"to"`
	Before  []Query  `json:"before,omitempty"`
	Growth  []growth `json:"growth"`
	Compact int      `json:"compact,omitempty"`
	Path    string   `json:"path,omitempty"`
}

type formCase struct {
	Init   *V   `json:"init"`
	Ops    []Op `json:"ops"`
	Split  int  `json:"split"`
	Indent bool `json:"indent"`
}

type refuseCase struct {
	histCase
	Kind    string `json:"kind"`
	Ops     []Op   `json:"ops,omitempty"`
	Text    string `json:"text,omitempty"`
	DocText string `json:"doctext,omitempty"`
	More    []Step `json:"more,omitempty"` // after the refusal
}

func checkTimes(c *Ctx, k timesCase) error {
	l, d, err := history(k.histCase)
	if err != nil {
		return err
	}
	histClasses(c, d)
	for _, t := range k.Times {
		n := 0
		for _, o := range d.all() {
			if o.T <= t {
				n++
			}
		}
		c.NonTrivial(n > 0 && n < len(d.all()))
		if err := wantDoc(fmt.Sprintf("the temporal snapshot at %d", t), l.TemporalSnapshot(t), d.ts(t), false); err != nil {
			return err
		}
	}
	return nil
}

// sliceByTime is the model of a temporal slice as it is today (used by
// generators only; the checks read the versions from the slice).
func sliceByTime(d *MDoc, a, b int64) *MDoc {
	s := &MDoc{base: d.base, first: d.first}
	if a > math.MinInt64 {
		s.base = d.ts(a - 1)
	}
	var in []Op
	for _, o := range d.all() {
		if o.T >= a && o.T <= b {
			in = append(in, o)
		}
	}
	if len(in) > 0 {
		s.vers = [][]Op{in}
	}
	return s
}

// temporalModel checks what a temporal slice holds and returns its model:
// which versions it has is its own choice.
func temporalModel(name string, s *logument.Logument, d *MDoc, a, b int64) (*MDoc, error) {
	got, err := dumpOf(s)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", name, err)
	}
	if len(got.versions) == 0 {
		return nil, fmt.Errorf("%s has no version", name)
	}
	m := &MDoc{base: d.base, first: got.versions[0]}
	if a > math.MinInt64 {
		m.base = d.ts(a - 1)
	}
	for i, v := range got.versions {
		if v != m.first+uint64(i) {
			return nil, fmt.Errorf("%s has the versions %v", name, got.versions)
		}
		if i > 0 {
			m.vers = append(m.vers, got.patches[v])
		}
	}
	for v, ops := range got.patches {
		if v < m.first || v > m.last() || v == m.first && len(ops) > 0 {
			return nil, fmt.Errorf("%s has changes of version %d, but the versions %v", name, v, got.versions)
		}
	}
	if len(got.pool) > 0 {
		return nil, fmt.Errorf("%s has pending changes", name)
	}
	var want []Op
	for _, o := range d.all() {
		if o.T >= a && o.T <= b {
			want = append(want, o)
		}
	}
	if all := m.all(); !sameOps(all, want) {
		return nil, fmt.Errorf("%s holds %s, want %s", name, opsText(all), opsText(want))
	}
	if !same(got.cur, d.ts(b), false) {
		return nil, fmt.Errorf("the current state of %s differs %s", name, diffText(d.ts(b), got.cur, "", false))
	}
	return m, nil
}

func applicable(doc *V, ops []Op) bool {
	for _, o := range ops {
		next, r := applyOp(doc, o)
		if r != applied {
			return false
		}
		doc = next
	}
	return true
}

func under(segs, target []string) bool {
	return len(segs) >= len(target) && slices.Equal(segs[:len(target)], target)
}

// compactTarget reads a path which may end with a slash.
func compactTarget(path string) []string {
	if n := len(path); n > 0 && path[n-1] == '/' {
		path = path[:n-1]
	}
	return splitPath(path)
}

// checkPath decides whether got is what may remain of the changes marked as
// mine; the others tell what happened in between. Equal operations may be
// recorded several times, so any assignment which explains got will do.
func checkPath(got []Op, all []located, mine map[int]bool) error {
	var first error
	fail := func(format string, args ...any) bool {
		if first == nil {
			first = fmt.Errorf(format, args...)
		}
		return false
	}
	repeats := func(i, last int) bool {
		if last < 0 || all[i].op.Op == "remove" || all[last].op.Op == "remove" || !same(all[i].op.leafValue(), all[last].op.leafValue(), true) {
			return false
		}
		for _, m := range all[last+1 : i] {
			if related(all[i].segs, m) && !m.redundant {
				return false
			}
		}
		return true
	}
	type state struct{ i, j, last int }
	dead := map[state]bool{}
	var match func(i, j, last int) bool
	match = func(i, j, last int) bool {
		for i < len(all) && !mine[i] {
			i++
		}
		if i == len(all) {
			return j == len(got) || fail("%s was not recorded, or not in this order", opText(got[j]))
		}
		s := state{i, j, last}
		if dead[s] {
			return false
		}
		x := all[i]
		if j < len(got) && sameOp(got[j], x.op) {
			if repeats(i, last) {
				fail("%s repeats the value of %s", opText(x.op), opText(all[last].op))
			} else if match(i+1, j+1, i) {
				return true
			}
		}
		if x.op.Op == "remove" || !x.redundant {
			fail("%s (version %d) is missing", opText(x.op), x.version)
		} else if match(i+1, j, last) {
			return true
		}
		dead[s] = true
		return false
	}
	if match(0, 0, -1) {
		return nil
	}
	return first
}

func show(x any) string {
	var s string
	switch x := x.(type) {
	case *V:
		s = brief(x)
	case dump:
		s = fmt.Sprintf("versions %v, patches %v, state %s, pending %s", x.versions, x.patches, brief(x.cur), opsText(x.pool))
	default:
		s = fmt.Sprintf("%+v", x)
	}
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

// genUnordered draws a history whose timestamps rise and fall.
func genUnordered(rt *rapid.T) timesCase {
	k := timesCase{histCase: histCase{Init: vObj()}}
	keys := []string{"a", "b", "c", "d"}
	for _, key := range keys[:rapid.IntRange(0, 4).Draw(rt, "initial")] {
		k.Init.put(key, vNum(0, int64(rapid.IntRange(-1, 5).Draw(rt, "t"))))
	}
	var ts []int64
	g := newHist(rt, histOpts{flat: true, early: true}, k.Init, 0)
	steps := rapid.IntRange(1, 15).Draw(rt, "steps")
	many := chance(rt, 10)
	if many {
		steps = rapid.IntRange(16, 60).Draw(rt, "many")
	}
	for n := steps; n > 0; n-- {
		s := Step{Kind: pick(rt, "kind", "store", "set", "append")}
		if last := len(k.Steps) - 1; many && last >= 0 && k.Steps[last].Kind != "append" && chance(rt, 60) {
			s.Kind = "append"
		}
		if s.Kind != "append" {
			m := 1
			if s.Kind == "store" {
				m = rapid.IntRange(1, 4).Draw(rt, "ops")
			}
			for ; m > 0; m-- {
				o := Op{Op: pick(rt, "op", "add", "replace"), Path: "/" + pick(rt, "key", keys...), V: histValue(rt, nil), T: g.anyTime(rt)}
				s.Ops = append(s.Ops, o)
				ts = append(ts, o.T)
			}
		}
		k.Steps = append(k.Steps, s)
	}
	for n := rapid.IntRange(1, 6).Draw(rt, "times"); n > 0; n-- {
		t := int64(rapid.IntRange(-1, 22).Draw(rt, "time"))
		if len(ts) > 0 && chance(rt, 60) {
			t = ts[rapid.IntRange(0, len(ts)-1).Draw(rt, "of")]
		}
		k.Times = append(k.Times, t)
	}
	return k
}

func (k timesCase) span() (int64, int64) {
	a, b := k.Times[0], k.Times[len(k.Times)-1]
	return min(a, b), max(a, b)
}
