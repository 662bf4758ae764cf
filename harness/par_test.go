package zzverif

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"

	"github.com/CAU-CPSS/logument/exp"
	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/vssgen"
	"pgregory.net/rapid"
)

// The facets of C39 are compiled with the race detector, which ends the
// process when it sees an unsynchronised access.

// together runs the functions at the same time.
func together(fs []func() error) error {
	errs := make([]error, len(fs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if err := safely(f); err != nil {
				errs[i] = fmt.Errorf("goroutine %d of %d: %w", i, len(fs), err)
			}
		}()
	}
	close(start)
	wg.Wait()
	var first error
	for _, err := range errs {
		var he harnessError
		if errors.As(err, &he) {
			return he
		}
		if first == nil {
			first = err
		}
	}
	return first
}

// shared is what the goroutines of a case have in common.
type shared struct {
	a, b               tson.Tson
	text, compat, json []byte
	data               any
	patch              tsonpatch.Patch
	patchText          []byte
	paths              []string
}

type parCase struct {
	A     *V       `json:"a"`
	B     *V       `json:"b"`
	Ops   []Op     `json:"ops"`
	Calls [][]int  `json:"calls"`
	Paths []string `json:"paths"`
	Text  string   `json:"text"`
}

func docOr(t tson.Tson, err error) any {
	if err != nil {
		return "error"
	}
	v, err := fromTson(t)
	if err != nil {
		return err.Error()
	}
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

func opsOr(p tsonpatch.Patch, err error, sorted bool) any {
	if err != nil {
		return "error"
	}
	ops, err := modelPatch(p)
	if err != nil {
		return err.Error()
	}
	if sorted { // the order of the members is free
		m := map[string]string{}
		for _, o := range ops {
			m[o.Path] += opText(o)
		}
		return m
	}
	return opsText(ops)
}

func textOr(b []byte, err error) any {
	if err != nil {
		return "error"
	}
	x, err := decodeExact(b)
	if err != nil {
		return err.Error()
	}
	return x
}

func rereadOr(b []byte, err error) any {
	if err != nil {
		return "error"
	}
	return docOrText(b)
}

func docOrText(b []byte) string {
	var t tson.Tson
	err := tson.Unmarshal(b, &t)
	return docOr(t, err).(string)
}

var parCalls = []struct {
	name string
	call func(s *shared, i int) any
}{
	{"Marshal", func(s *shared, i int) any { return rereadOr(tson.Marshal(s.a)) }},
	{"MarshalIndent", func(s *shared, i int) any { return rereadOr(tson.MarshalIndent(s.a, "", "  ")) }},
	{"Unmarshal", func(s *shared, i int) any { return docOrText(s.text) }},
	{"ToCompatibleTsonBytes", func(s *shared, i int) any { return textOr(tson.ToCompatibleTsonBytes(s.a)) }},
	{"ToCompatibleTsonBytesSorted", func(s *shared, i int) any { return textOr(tson.ToCompatibleTsonBytesSorted(s.b)) }},
	{"ToCompatibleTsonString", func(s *shared, i int) any { return textOr([]byte(tson.ToCompatibleTsonString(s.b)), nil) }},
	{"FromCompatibleTsonBytes", func(s *shared, i int) any {
		var t tson.Tson
		err := tson.FromCompatibleTsonBytes(s.compat, &t)
		return docOr(t, err)
	}},
	{"ToJson", func(s *shared, i int) any {
		var x any
		err := tson.ToJson(s.a, &x)
		b, _ := json.Marshal(x)
		return textOr(b, err)
	}},
	{"ToJsonBytes", func(s *shared, i int) any { return textOr(tson.ToJsonBytes(s.b)) }},
	{"FromJsonBytes", func(s *shared, i int) any {
		var t tson.Tson
		err := tson.FromJsonBytes(s.json, &t)
		return docOr(t, err)
	}},
	{"FromJson", func(s *shared, i int) any {
		var t tson.Tson
		err := tson.FromJson(s.data, &t)
		return docOr(t, err)
	}},
	{"GetValue", func(s *shared, i int) any {
		v, err := tson.GetValue(s.a, s.paths[i%len(s.paths)])
		return docOr(v, err)
	}},
	{"Equal", func(s *shared, i int) any { ok, err := tson.Equal(s.a, s.b); return fmt.Sprint(ok, err != nil) }},
	{"EqualWithoutTimestamp", func(s *shared, i int) any {
		ok, err := tson.EqualWithoutTimestamp(s.a, s.b)
		return fmt.Sprint(ok, err != nil)
	}},
	{"GetLatestTimestamp", func(s *shared, i int) any {
		if s.a == nil {
			return nil
		}
		return tson.GetLatestTimestamp(s.a)
	}},
	{"GeneratePatch", func(s *shared, i int) any { p, err := tsonpatch.GeneratePatch(s.a, s.b); return opsOr(p, err, true) }},
	{"GeneratePatchWithTimestamp", func(s *shared, i int) any {
		p, err := tsonpatch.GeneratePatchWithTimestamp(s.a, s.b)
		return opsOr(p, err, true)
	}},
	{"ApplyPatch", func(s *shared, i int) any { t, err := tsonpatch.ApplyPatch(s.a, s.patch); return docOr(t, err) }},
	{"ApplyOperation", func(s *shared, i int) any {
		if len(s.patch) == 0 {
			return nil
		}
		t, err := tsonpatch.ApplyOperation(s.a, s.patch[0])
		return docOr(t, err)
	}},
	{"Patch.String", func(s *shared, i int) any { return textOr([]byte(s.patch.String()), nil) }},
	{"tsonpatch.Unmarshal", func(s *shared, i int) any { p, err := tsonpatch.Unmarshal(s.patchText); return opsOr(p, err, false) }},
	{"Operation.Marshal", func(s *shared, i int) any {
		if len(s.patch) == 0 {
			return nil
		}
		return textOr(s.patch[0].Marshal())
	}},
	{"NewLogument", func(s *shared, i int) any {
		l := logument.NewLogument(s.text, nil)
		if _, err := tsonpatch.ApplyPatch(l.CurrentState, s.patch); err == nil {
			l.Store(s.patch)
		}
		return docOr(l.CurrentState, nil)
	}},
}

func genPar(rt *rapid.T) parCase {
	o := docOpts{}
	k := parCase{A: genDoc(rt, o)}
	k.B, _ = genEdited(rt, k.A, rapid.IntRange(0, 4).Draw(rt, "edits"), o)
	doc := k.A
	for n := rapid.IntRange(0, 4).Draw(rt, "ops"); n > 0; n-- {
		op, ok := (histOpts{}).op(rt, doc, int64(rapid.IntRange(0, 9).Draw(rt, "t")), false)
		if ok {
			k.Ops = append(k.Ops, op)
			doc, _ = applyOp(doc, op)
		}
	}
	r := &renderer{rt: rt}
	r.value(k.A, false, false)
	k.Text = strings.Join(r.toks, "")
	all := paths(k.A)
	for n := rapid.IntRange(1, 4).Draw(rt, "paths"); n > 0; n-- {
		k.Paths = append(k.Paths, pointer(all[rapid.IntRange(0, len(all)-1).Draw(rt, "path")]))
	}
	one := -1 // often all do the same
	if chance(rt, 50) {
		one = rapid.IntRange(0, len(parCalls)-1).Draw(rt, "call")
	}
	for n := rapid.IntRange(2, 4).Draw(rt, "goroutines"); n > 0; n-- {
		var calls []int
		for m := rapid.IntRange(1, 6).Draw(rt, "calls"); m > 0; m-- {
			call := one
			if one < 0 || chance(rt, 20) {
				call = rapid.IntRange(0, len(parCalls)-1).Draw(rt, "call")
			}
			calls = append(calls, call)
		}
		k.Calls = append(k.Calls, calls)
	}
	return k
}

func init() {
	add("C39", "functions", 600, "two documents, a patch, texts and data shared by 2-4 goroutines, each with 1-6 calls of the functions on documents and patches (often all the same one); every result must be that of the call alone; non-trivial = at least 2 different calls and documents of at least 3 nodes", genPar, func(c *Ctx, k parCase) error {
		s := &shared{a: k.A.Tson(), b: k.B.Tson(), text: []byte(k.Text), patch: sutPatch(k.Ops), patchText: []byte(jsonPatch(k.Ops)), paths: k.Paths, data: k.A.anyJSON()}
		var err error
		if s.compat, err = json.Marshal(k.A.compatAny(0)); err != nil {
			must(err)
		}
		if s.json, err = json.Marshal(s.data); err != nil {
			must(err)
		}
		distinct := map[int]bool{}
		got := make([][]any, len(k.Calls))
		var fs []func() error
		for g, calls := range k.Calls {
			for _, call := range calls {
				distinct[call] = true
				c.Class(true, parCalls[call].name)
			}
			fs = append(fs, func() error {
				for i, call := range calls {
					got[g] = append(got[g], parCalls[call].call(s, i))
				}
				return nil
			})
		}
		c.NonTrivial(len(distinct) >= 2 && k.A.size() >= 3)
		if err := together(fs); err != nil {
			return err
		}
		// Alone, only now: what is used for the first time is used by several at once
		for g, calls := range k.Calls {
			for i, call := range calls {
				alone := &shared{a: k.A.Tson(), b: k.B.Tson(), patch: sutPatch(k.Ops), patchText: s.patchText, paths: k.Paths, data: k.A.anyJSON(), text: s.text, compat: s.compat, json: s.json}
				if want := parCalls[call].call(alone, i); !reflect.DeepEqual(got[g][i], want) {
					return fmt.Errorf("%s gives %.300v beside other calls, but %.300v alone", parCalls[call].name, got[g][i], want)
				}
			}
		}
		if err := wantDoc("the shared document afterwards", s.a, k.A, false); err != nil {
			return err
		}
		return wantDoc("the other shared document afterwards", s.b, k.B, false)
	})

	add("C39", "documents", 500, histRule+"; its slices and another document created from the same start and the same changes are each used by a goroutine of its own (1-6 steps and queries); every answer must be that of the document alone; non-trivial = at least 2 versions", func(rt *rapid.T) parDocs {
		h, g := genHist(rt, histOpts{pending: chance(rt, 50)})
		k := parDocs{histCase: h}
		for n := rapid.IntRange(0, 3).Draw(rt, "before"); n > 0; n-- {
			k.Before = append(k.Before, g.query(rt, "snapshot", "slice"))
		}
		more := func(d *MDoc) (events []event) {
			in := &histGen{histOpts: g.histOpts, d: d.clone(), t: g.t}
			for n := rapid.IntRange(1, 6).Draw(rt, "events"); n > 0; n-- {
				if chance(rt, 50) {
					q := in.query(rt)
					events = append(events, event{Q: &q})
				} else if s, ok := in.step(rt); ok {
					events = append(events, event{S: &s})
				}
			}
			return
		}
		k.Users = append(k.Users, parUser{Events: more(g.d)}, parUser{Twin: true, Events: more(g.d)})
		for n := rapid.IntRange(1, 3).Draw(rt, "slices"); n > 0; n-- {
			u := parUser{Slice: true}
			u.I, u.J = g.someRange(rt)
			u.Events = more(g.d.slice(u.I, u.J))
			k.Users = append(k.Users, u)
		}
		return k
	}, func(c *Ctx, k parDocs) error {
		// The documents of all users, made in one goroutine
		make := func() (ls []*logument.Logument, ds []*MDoc, err error) {
			start := k.Init.Tson()
			l, d := logument.NewLogument(start, nil), &MDoc{base: k.Init}
			twin, td := logument.NewLogument(start, nil), &MDoc{base: k.Init}
			for i, s := range k.Steps {
				patch := sutPatch(s.Ops)
				for _, x := range []*logument.Logument{l, twin} {
					switch s.Kind {
					case "store":
						x.Store(patch)
					case "append":
						err = x.Append()
					default:
						err = exec(x, s)
					}
					if err != nil {
						return nil, nil, fmt.Errorf("step %d: %v", i, err)
					}
				}
				d.run(s)
				td.run(s)
			}
			for _, q := range k.Before {
				ask(l, d, q)
			}
			for _, u := range k.Users {
				switch {
				case u.Twin:
					ls, ds = append(ls, twin), append(ds, td)
				case u.Slice:
					ls, ds = append(ls, l.Slice(u.I, u.J)), append(ds, d.slice(u.I, u.J))
				default:
					ls, ds = append(ls, l), append(ds, d)
				}
			}
			return
		}
		use := func(l *logument.Logument, d *MDoc, u parUser) (answers []any, err error) {
			for _, e := range u.Events {
				if e.S != nil {
					if err := runAll(l, d, []Step{*e.S}); err != nil {
						return nil, err
					}
					continue
				}
				a, err := ask(l, d, *e.Q)()
				if err != nil {
					return nil, err
				}
				answers = append(answers, a)
			}
			return answers, wantDump("the document afterwards", l, d)
		}
		ls, ds, err := make()
		if err != nil {
			return err
		}
		histClasses(c, ds[0])
		c.NonTrivial(len(ds[0].vers) >= 2)
		var fs []func() error
		got := map[int]*[]any{}
		for i, u := range k.Users {
			answers := new([]any)
			got[i] = answers
			fs = append(fs, func() (err error) {
				*answers, err = use(ls[i], ds[i], u)
				return err
			})
		}
		if err := together(fs); err != nil {
			return err
		}
		alone, ads, err := make()
		if err != nil {
			return err
		}
		for i, u := range k.Users {
			want, err := use(alone[i], ads[i], u)
			if err != nil {
				return fmt.Errorf("user %d alone: %v", i, err)
			}
			for n := range want {
				if x := (*got[i])[n]; !reflect.DeepEqual(x, want[n]) {
					return fmt.Errorf("answer %d of user %d is %v beside other users, but %v alone", n, i, show(x), show(want[n]))
				}
			}
		}
		return nil
	})

	add("C39", "datasets", 100, vssRule+" shared by 2-4 goroutines, which each generate a dataset and 1-3 further steps of it; non-trivial = at least 3 signals", func(rt *rapid.T) parVss {
		k := parVss{Schema: genSchema(rt)}
		for n := rapid.IntRange(2, 4).Draw(rt, "goroutines"); n > 0; n-- {
			var steps []rates
			for m := rapid.IntRange(1, 3).Draw(rt, "steps"); m > 0; m-- {
				steps = append(steps, genRates(rt))
			}
			k.Steps = append(k.Steps, steps)
		}
		return k
	}, func(c *Ctx, k parVss) error {
		schema := vssgen.NewVssJson(writeSchema(c.Dir(), k.Schema))
		signals := allSignals(k.Schema)
		c.NonTrivial(len(signals) >= 3)
		first := schema.Generate(1, 1)
		start, err := fromVss(first.GetData())
		if err != nil {
			return err
		}
		var fs []func() error
		for g, steps := range k.Steps {
			fs = append(fs, func() error {
				ds, prev := first, start
				if g%2 == 1 { // the others go on from a common dataset
					ds = schema.Generate(1, g+1)
					var err error
					if prev, err = fromVss(ds.GetData()); err != nil {
						return err
					}
					if err := checkDataset("the dataset", prev, signals, true); err != nil {
						return err
					}
				}
				for i, r := range steps {
					next, patch := ds.GenerateNext(r.Change, r.Keep, g+1, i+2)
					now, err := fromVss(next.GetData())
					if err != nil {
						return err
					}
					if _, _, _, err := checkStep(prev, now, r); err != nil {
						return fmt.Errorf("step %d: %v", i, err)
					}
					p, ops, err := readVssPatch(patch.GetData())
					if err != nil {
						return err
					}
					if err := checkVssPatch(fmt.Sprintf("the patch of step %d", i), p, ops, prev, now); err != nil {
						return err
					}
					ds, prev = next, now
				}
				return nil
			})
		}
		return together(fs)
	})
}

func init() {
	add("C39", "baseline", 250, "a history of leaves from which 2-4 goroutines each build a temporal JSON document and ask it and a common one; non-trivial = a leaf with two or more periods is asked for", func(rt *rapid.T) parBaseline {
		return parBaseline{genBaseline(rt), rapid.IntRange(2, 4).Draw(rt, "goroutines")}
	}, func(c *Ctx, k parBaseline) error {
		ps := expPatches(k.Ops)
		common, err := exp.FromTSONPatches(ps)
		if err != nil {
			return fmt.Errorf("converting the patches: %v", err)
		}
		cs := make([]Ctx, k.N)
		var fs []func() error
		for g := range k.N {
			fs = append(fs, func() error {
				m := livesOf(k.Ops)
				if g%2 == 0 {
					if err := k.ask(&cs[g], common, m); err != nil {
						return err
					}
				}
				doc, err := exp.FromTSONPatches(ps)
				if err != nil {
					return fmt.Errorf("converting the patches: %v", err)
				}
				if err := k.ask(&cs[g], doc, m); err != nil {
					return err
				}
				return k.ask(&cs[g], common, m)
			})
		}
		err = together(fs)
		c.NonTrivial(cs[0].nontrivial)
		if err == nil && !reflect.DeepEqual(ps, expPatches(k.Ops)) {
			return fmt.Errorf("converting the patches changed them: %v", ps)
		}
		return err
	})

	add("C39", "vehicles", 60, "2-4 goroutines each set up a vehicle and drive it through 1-12 steps of scenario switching, with a common table of signals; non-trivial = a scenario was switched", func(rt *rapid.T) parVehicles {
		var k parVehicles
		for range rapid.IntRange(2, 4).Draw(rt, "goroutines") {
			d := genDrive(rt)
			if len(k.Drives) > 0 {
				d.Table = nil // there is one table
			}
			k.Drives = append(k.Drives, d)
		}
		return k
	}, func(c *Ctx, k parVehicles) error {
		defer simCase{Table: k.Drives[0].Table}.configure()()
		cs := make([]Ctx, len(k.Drives))
		var fs []func() error
		for g, d := range k.Drives {
			fs = append(fs, func() error { return drive(&cs[g], d) })
		}
		err := together(fs)
		for _, o := range cs {
			c.NonTrivial(o.nontrivial)
		}
		return err
	})
}

type parBaseline struct {
	baselineCase
	N int `json:"n"`
}

type parVehicles struct {
	Drives []driveCase `json:"drives"`
}

type parUser struct {
	Twin   bool    `json:"twin,omitempty"`
	Slice  bool    `json:"slice,omitempty"`
	I      uint64  `json:"i"`
	J      uint64  `json:"j"`
	Events []event `json:"events"`
}

type parDocs struct {
	histCase
	Before []Query   `json:"before,omitempty"`
	Users  []parUser `json:"users"`
}

type parVss struct {
	Schema []*Sig    `json:"schema"`
	Steps  [][]rates `json:"steps"`
}
