package zzverif

import (
	"encoding/json"
	"errors"
	"fmt"
	"maps"
	"os"
	osexec "os/exec"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/vssgen"
	"pgregory.net/rapid"
)

// ---- C36: saved and reloaded documents

type savedDoc struct {
	histCase
	DocForm   int      `json:"docForm"`
	PatchForm int      `json:"patchForm"`
	ReadForm  int      `json:"readForm"`
	Keep      []uint64 `json:"keep,omitempty"` // memoised snapshots which are saved, too
	Before    []Query  `json:"before,omitempty"`
	Queries   []Query  `json:"queries"`
	More      []Step   `json:"more"`
	After     []Query  `json:"after"`
}

// floats writes the ints of operations as float64, as they are after reading.
func floats(ops []Op) []Op {
	ops = slices.Clone(ops)
	for i, o := range ops {
		if o.V != nil && o.V.K == "i" {
			ops[i].V = vNum(o.V.N, 0)
		}
	}
	return ops
}

func floatSteps(steps []Step) (r []Step) {
	for _, s := range steps {
		r = append(r, Step{Kind: s.Kind, Ops: floats(s.Ops), Back: s.Back})
	}
	return r
}

// saveDoc writes a document and reads it again.
func saveDoc(form int, t tson.Tson) (tson.Tson, []byte, error) {
	var b []byte
	var err error
	var back tson.Tson
	switch form {
	case 0:
		b, err = tson.Marshal(t)
	case 1:
		b, err = tson.MarshalIndent(t, "", "  ")
	default:
		if b, err = tson.ToCompatibleTsonBytes(t); err == nil {
			err = tson.FromCompatibleTsonBytes(b, &back)
		}
		return back, nil, err
	}
	if err == nil {
		err = tson.Unmarshal(b, &back)
	}
	return back, b, err
}

func savePatch(form int, p tsonpatch.Patch) (string, error) {
	switch form {
	case 0:
		return p.String(), nil
	case 1:
		b, err := json.Marshal(p)
		return string(b), err
	}
	var parts []string
	for i := range p {
		b, err := p[i].Marshal()
		if err != nil {
			return "", err
		}
		parts = append(parts, string(b))
	}
	return "[" + strings.Join(parts, ",") + "]", nil
}

// record hands a saved patch over.
func record(form int, text string, store func(any)) error {
	switch form {
	case 0:
		store(text)
	case 1:
		store([]byte(text))
	default:
		p, err := tsonpatch.Unmarshal([]byte(text))
		if err != nil {
			return err
		}
		if form == 3 {
			if p, err = tsonpatch.FromJson(p); err != nil {
				return err
			}
		}
		store(p)
	}
	return nil
}

// sameAnswers asks both documents the same.
func sameAnswers(what string, a, b *logument.Logument, d *MDoc, queries []Query) error {
	for i, q := range queries {
		d2 := d.clone()
		want, err := ask(a, d2, q)()
		if err != nil {
			return fmt.Errorf("query %d %+v: %v", i, q, err)
		}
		got, err := ask(b, d, q)()
		if err != nil {
			return fmt.Errorf("query %d %+v of %s: %v", i, q, what, err)
		}
		if !reflect.DeepEqual(got, want) {
			return fmt.Errorf("query %d %+v is answered by %v of %s, but by %v of the original", i, q, show(got), what, show(want))
		}
	}
	return nil
}

// goOn queries the document read back and continues it, beside the original.
func (k savedDoc) goOn(c *Ctx, what string, l, back *logument.Logument, d *MDoc) error {
	if err := wantDump(what, back, d); err != nil {
		return err
	}
	if err := sameAnswers(what, l, back, d, k.Queries); err != nil {
		return err
	}
	c.Class(len(k.More) > 0, "continued")
	d2 := d.clone()
	if err := runAll(l, d2, k.More); err != nil {
		return err
	}
	if err := runAll(back, d, k.More); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if err := wantDump(what+" after more steps", back, d); err != nil {
		return err
	}
	if err := sameAnswers(what+" after more steps", l, back, d, k.After); err != nil {
		return err
	}
	for v := d.first; v <= d.last(); v++ {
		if err := wantDoc(fmt.Sprintf("%s: snapshot %d", what, v), back.Snapshot(v), d.snap(v), false); err != nil {
			return err
		}
	}
	return wantDump(what+" after its queries", back, d)
}

func genSaved(rt *rapid.T, cuts bool) savedDoc {
	h, g := genHist(rt, histOpts{pending: true, cuts: cuts, flat: chance(rt, 20), notation: pick(rt, "notation", 0, 0, 2)})
	k := savedDoc{histCase: h}
	k.Steps = floatSteps(k.Steps)
	if k.Cut != nil {
		k.Cut.More = floatSteps(k.Cut.More)
	}
	k.DocForm = rapid.IntRange(0, 2).Draw(rt, "doc form")
	k.PatchForm = rapid.IntRange(0, 2).Draw(rt, "patch form")
	k.ReadForm = rapid.IntRange(0, 3).Draw(rt, "read form")
	for n := rapid.IntRange(0, 3).Draw(rt, "before"); n > 0; n-- {
		k.Before = append(k.Before, g.query(rt, "snapshot", "slice", "track", "history"))
	}
	for n := rapid.IntRange(1, 5).Draw(rt, "queries"); n > 0; n-- {
		k.Queries = append(k.Queries, g.query(rt))
	}
	k.More = floatSteps(g.steps(rt, 0, 4))
	for n := rapid.IntRange(0, 3).Draw(rt, "after"); n > 0; n-- {
		k.After = append(k.After, g.query(rt))
	}
	for v := g.d.first; v <= g.d.last(); v++ {
		if chance(rt, 40) {
			k.Keep = append(k.Keep, v)
		}
	}
	return k
}

func init() {
	add("C36", "reload", 3000, histRule+"; saved as one text for the initial document and one for each version and the pending changes, in one of the written forms, and recorded again; then 1-5 queries, up to 4 further steps, more queries; non-trivial = at least 2 versions", func(rt *rapid.T) savedDoc {
		return genSaved(rt, false)
	}, func(c *Ctx, k savedDoc) error {
		l, d, err := history(k.histCase)
		if err != nil {
			return err
		}
		for _, q := range k.Before {
			ask(l, d, q)
		}
		histClasses(c, d)
		c.NonTrivial(len(d.vers) >= 2)
		c.Class(true, fmt.Sprintf("document form %d", k.DocForm))
		c.Class(true, fmt.Sprintf("patch form %d", k.PatchForm))
		init, text, err := saveDoc(k.DocForm, l.Snapshots[0])
		if err != nil {
			return fmt.Errorf("saving the initial document: %v", err)
		}
		var back *logument.Logument
		var first any
		if text != nil && k.ReadForm == 0 {
			first = string(text)
		} else if text != nil && k.ReadForm == 1 {
			first = text
		} else {
			first = init
		}
		store := func(x any) {
			if back == nil && len(k.Queries)%2 == 1 {
				back = logument.NewLogument(first, x)
				return
			}
			if back == nil {
				back = logument.NewLogument(first, nil)
			}
			back.Store(x)
		}
		for _, v := range append(slices.Clone(l.Version[1:]), 0) {
			p := l.Patches[v]
			if v == 0 {
				p = l.PatchPool
			}
			if len(p) == 0 {
				continue
			}
			text, err := savePatch(k.PatchForm, p)
			if err != nil {
				return fmt.Errorf("saving version %d: %v", v, err)
			}
			if err := record(k.ReadForm, text, store); err != nil {
				return fmt.Errorf("reading version %d %q: %v", v, text, err)
			}
			if v > 0 {
				if err := back.Append(); err != nil {
					return fmt.Errorf("recording version %d: %v", v, err)
				}
			}
		}
		if back == nil {
			back = logument.NewLogument(first, nil)
		}
		return k.goOn(c, "the reloaded document", l, back, d)
	})

	add("C36", "restore", 3000, histRule+"; or a slice of it; every part (versions, changes, pending changes, current state, first snapshot and a random part of the others) saved as text and put together again; then 1-5 queries, up to 4 further steps, more queries; non-trivial = at least 2 versions", func(rt *rapid.T) savedDoc {
		return genSaved(rt, true)
	}, func(c *Ctx, k savedDoc) error {
		l, d, err := history(k.histCase)
		if err != nil {
			return err
		}
		for _, q := range k.Before {
			ask(l, d, q)
		}
		histClasses(c, d)
		c.NonTrivial(len(d.vers) >= 2)
		back := &logument.Logument{Version: slices.Clone(l.Version), Snapshots: map[uint64]tson.Tson{}, Patches: map[uint64]tsonpatch.Patch{}}
		if back.CurrentState, _, err = saveDoc(k.DocForm, l.CurrentState); err != nil {
			return fmt.Errorf("saving the current state: %v", err)
		}
		if back.Snapshots[d.first], _, err = saveDoc(k.DocForm, l.Snapshots[d.first]); err != nil {
			return fmt.Errorf("saving the first snapshot: %v", err)
		}
		for _, v := range k.Keep {
			if v <= d.last() && v > d.first {
				c.Class(true, "more snapshots")
				if back.Snapshots[v], _, err = saveDoc(k.DocForm, l.Snapshot(v)); err != nil {
					return fmt.Errorf("saving snapshot %d: %v", v, err)
				}
			}
		}
		for v, p := range l.Patches {
			text, err := savePatch(k.PatchForm, p)
			if err == nil {
				err = record(max(k.ReadForm, 2), text, func(x any) { back.Patches[v] = x.(tsonpatch.Patch) })
			}
			if err != nil {
				return fmt.Errorf("saving version %d: %v", v, err)
			}
		}
		if len(l.PatchPool) > 0 {
			text, err := savePatch(k.PatchForm, l.PatchPool)
			if err == nil {
				err = record(max(k.ReadForm, 2), text, func(x any) { back.PatchPool = x.(tsonpatch.Patch) })
			}
			if err != nil {
				return fmt.Errorf("saving the pending changes: %v", err)
			}
		}
		return k.goOn(c, "the restored document", l, back, d)
	})

	add("C36", "missing", 1000, histRule+"; put together again without one version in the middle: ranges across it are refused, and nothing changes; non-trivial = at least 3 versions", func(rt *rapid.T) missingCase {
		h, g := genHist(rt, histOpts{cuts: true})
		k := missingCase{histCase: h}
		if len(g.d.vers) < 2 {
			return k
		}
		k.Gap = g.d.first + uint64(rapid.IntRange(1, len(g.d.vers)-1).Draw(rt, "gap"))
		k.I = g.d.first + uint64(rapid.IntRange(0, int(k.Gap-g.d.first)-1).Draw(rt, "i"))
		k.J = k.Gap + 1 + uint64(rapid.IntRange(0, int(g.d.last()-k.Gap)-1).Draw(rt, "j"))
		k.Kind = pick(rt, "kind", "snapshot", "slice", "track", "history", "compact", "tslice")
		return k
	}, func(c *Ctx, k missingCase) error {
		if k.Kind == "" {
			return nil
		}
		full, d, err := history(k.histCase)
		if err != nil {
			return err
		}
		c.NonTrivial(len(d.vers) >= 3)
		c.Class(true, k.Kind)
		l := &logument.Logument{CurrentState: full.CurrentState, Snapshots: map[uint64]tson.Tson{d.first: full.Snapshots[d.first]}, Patches: maps.Clone(full.Patches)}
		for _, v := range full.Version {
			if v != k.Gap {
				l.Version = append(l.Version, v)
			}
		}
		delete(l.Patches, k.Gap)
		before, err := dumpOf(l)
		if err != nil {
			return err
		}
		q := map[string]func(){
			"snapshot": func() { l.Snapshot(k.J) },
			"slice":    func() { l.Slice(k.I, k.J) },
			"track":    func() { l.Track(k.I, k.J) },
			"history":  func() { l.History("") },
			"compact":  func() { l.Compact("") },
			"tslice":   func() { l.TemporalSlice(0, 1<<62) },
		}[k.Kind]
		name := fmt.Sprintf("%s of %d..%d without version %d", k.Kind, k.I, k.J, k.Gap)
		if panicked, _ := try(q); !panicked {
			return fmt.Errorf("%s was not refused", name)
		}
		after, err := dumpOf(l)
		if err == nil {
			err = after.equal(before, false)
		}
		if err != nil {
			return fmt.Errorf("after refusing %s: %v", name, err)
		}
		return nil
	})
}

type occupiedCase struct {
	histCase
	Last uint64 `json:"last"`
	Op   Op     `json:"op"`
}

func init() {
	add("C36", "occupied", 500, histRule+"; put together again with all recorded changes, but a version list which ends earlier, with a pending change: appending it is refused, and nothing recorded is lost; non-trivial = at least 3 versions", func(rt *rapid.T) occupiedCase {
		h, g := genHist(rt, histOpts{cuts: true})
		k := occupiedCase{histCase: h, Op: Op{Op: "add", Path: "/zz", V: vNum(1, 0), T: 5}}
		k.Last = g.d.first
		if n := len(g.d.vers); n > 1 {
			k.Last += uint64(rapid.IntRange(0, n-1).Draw(rt, "last"))
		}
		return k
	}, func(c *Ctx, k occupiedCase) error {
		full, d, err := history(k.histCase)
		if err != nil || len(d.vers) == 0 {
			return err
		}
		c.NonTrivial(len(d.vers) >= 3)
		l := &logument.Logument{CurrentState: full.CurrentState, Snapshots: map[uint64]tson.Tson{d.first: full.Snapshots[d.first]}, Patches: maps.Clone(full.Patches),
			PatchPool: tsonpatch.Patch{k.Op.Sut()}}
		for v := d.first; v <= k.Last; v++ {
			l.Version = append(l.Version, v)
		}
		before, err := dumpOf(l)
		if err != nil {
			return err
		}
		err = l.Append()
		after, e := dumpOf(l)
		if e == nil {
			e = after.equal(before, false)
		}
		if e != nil {
			return fmt.Errorf("after an append to version %d, with changes of version %d recorded (%v): %v", k.Last, k.Last+1, err, e)
		}
		return nil
	})
}

type missingCase struct {
	histCase
	Gap  uint64 `json:"gap"`
	I    uint64 `json:"i"`
	J    uint64 `json:"j"`
	Kind string `json:"kind"`
}

// ---- C37: states recorded as versions

type statesCase struct {
	Docs  []*V   `json:"docs"`
	Ts    bool   `json:"ts"`
	Forms []int  `json:"forms"`
	I     uint64 `json:"i"`
	J     uint64 `json:"j"`
	Path  string `json:"path"`
}

func init() {
	add("C37", "states", 4000, "a document and 1-8 later states of it (0-4 edits each, as far as leaf changes and removals can express them, sometimes returning to an earlier state); each difference is generated and recorded as a version, as a patch, text or bytes; non-trivial = at least 3 versions", func(rt *rapid.T) statesCase {
		o := docOpts{}
		k := statesCase{Docs: []*V{genDoc(rt, o)}, Ts: chance(rt, 60)}
		for n := rapid.IntRange(1, 8).Draw(rt, "states"); n > 0; n-- {
			last := k.Docs[len(k.Docs)-1]
			next, _ := genEdited(rt, last, rapid.IntRange(0, 4).Draw(rt, "edits"), o)
			if len(k.Docs) > 1 && chance(rt, 15) {
				next = k.Docs[rapid.IntRange(0, len(k.Docs)-1).Draw(rt, "earlier")]
			}
			if !expressible(last, next) || same(last, next, !k.Ts) {
				continue
			}
			k.Docs = append(k.Docs, next)
			k.Forms = append(k.Forms, rapid.IntRange(0, 3).Draw(rt, "form"))
		}
		a, b := uint64(rapid.IntRange(0, len(k.Docs)-1).Draw(rt, "i")), uint64(rapid.IntRange(0, len(k.Docs)-1).Draw(rt, "j"))
		k.I, k.J = min(a, b), max(a, b)
		k.Path = "/"
		if all := paths(k.Docs[0]); chance(rt, 60) {
			k.Path = pointer(all[rapid.IntRange(0, len(all)-1).Draw(rt, "path")])
		}
		return k
	}, func(c *Ctx, k statesCase) error {
		c.NonTrivial(len(k.Docs) >= 4)
		c.Class(k.Ts, "with timestamps")
		v := diffVariants[0]
		if k.Ts {
			v = diffVariants[1]
		}
		text, err := tson.Marshal(k.Docs[0].Tson())
		if err != nil {
			return err
		}
		l := logument.NewLogument(text, nil)
		for i, next := range k.Docs[1:] {
			p, err := v.generate(l.CurrentState, next.Tson())
			if err != nil {
				return fmt.Errorf("state %d: %s: %v", i+1, v.name, err)
			}
			b, err := json.Marshal(p)
			if err != nil {
				return err
			}
			switch k.Forms[i] {
			case 0:
				l.Store(p)
			case 1:
				l.Store(b)
			case 2:
				l.Store(p.String())
			default:
				for _, o := range p {
					l.Store(o)
				}
			}
			if err := wantDoc(fmt.Sprintf("the current state after recording state %d", i+1), l.CurrentState, next, !k.Ts); err != nil {
				return fmt.Errorf("%v; patch %s", err, b)
			}
			if err := l.Append(); err != nil {
				return fmt.Errorf("state %d: %v", i+1, err)
			}
		}
		n := uint64(len(k.Docs) - 1)
		if want := int(n) + 1; len(l.Version) != want {
			return fmt.Errorf("there are versions %v after recording %d states", l.Version, want)
		}
		all := func(what string, l *logument.Logument, from, to uint64) error {
			for v := from; v <= to; v++ {
				if err := wantDoc(fmt.Sprintf("%s: version %d", what, v), l.Snapshot(v), k.Docs[v], !k.Ts); err != nil {
					return err
				}
			}
			return nil
		}
		track, err := readTrack(l.Track(k.I, k.J))
		if err != nil {
			return err
		}
		doc := k.Docs[k.I]
		for _, x := range flatten(track) {
			if x.version > k.I { // the first version of the range holds the changes which led to it
				var r applyResult
				if doc, r = applyOp(doc, x.op); r != applied {
					return fmt.Errorf("track %d..%d cannot be replayed: %s", k.I, k.J, opText(x.op))
				}
			}
		}
		if !same(doc, k.Docs[k.J], true) {
			return fmt.Errorf("track %d..%d, replayed on state %d, differs from state %d %s", k.I, k.J, k.I, k.J, diffText(k.Docs[k.J], doc, "", true))
		}
		s := l.Slice(k.I, k.J)
		if err := all(fmt.Sprintf("slice %d..%d", k.I, k.J), s, k.I, k.J); err != nil {
			return err
		}
		if err := all("the document", l, 0, n); err != nil {
			return err
		}
		// Differences to earlier states lead back to them
		back, err := v.generate(l.Snapshot(k.J), l.Snapshot(k.J))
		if err != nil || len(back) != 0 {
			return fmt.Errorf("the difference of version %d to itself is %v (%v)", k.J, back, err)
		}
		// A compacted document gives the same values, also where nothing was memoised
		fresh := &logument.Logument{Version: slices.Clone(l.Version), CurrentState: l.CurrentState, Snapshots: map[uint64]tson.Tson{0: l.Snapshots[0]}, Patches: maps.Clone(l.Patches)}
		fresh.Compact(k.Path)
		for v := uint64(0); v <= n; v++ {
			if err := wantDoc(fmt.Sprintf("version %d after compacting %q", v, k.Path), fresh.Snapshot(v), k.Docs[v], true); err != nil {
				return err
			}
		}
		return nil
	})
}

// ---- C38: command line of the dataset generator

type argsCase struct {
	Schema  []*Sig   `json:"schema"`
	Args    []string `json:"args"`
	Default string   `json:"default"`
	Dataset string   `json:"dataset,omitempty"`
	Cars    int      `json:"cars"`
	Files   int      `json:"files"`
	Change  float64  `json:"change"`
	Size    float64  `json:"size"`
	Refused bool     `json:"refused,omitempty"`
	Program bool     `json:"program,omitempty"` // run the program itself
	Stale   []string `json:"stale,omitempty"`   // files of an earlier dataset
}

type argsResult struct {
	Dataset string  `json:"dataset"`
	Cars    int     `json:"cars"`
	Files   int     `json:"files"`
	Change  float64 `json:"change_rate"`
	Size    float64 `json:"size"`
	Keys    int     `json:"keys"`
}

// TestArgs runs in a process of its own: it parses a command line and
// generates the dataset asked for, as the demo does.
func TestArgs(t *testing.T) {
	raw := os.Getenv("VERIF_ARGS")
	if raw == "" {
		t.Skip()
	}
	var in struct {
		Args         []string
		Default, Out string
	}
	must(json.Unmarshal([]byte(raw), &in))
	os.Args = append([]string{"main"}, in.Args...)
	o := vssgen.ParseArgs(in.Default)
	r := argsResult{Keys: len(o)}
	r.Dataset, _ = o["dataset"].(string)
	r.Cars, _ = o["cars"].(int)
	r.Files, _ = o["files"].(int)
	r.Change, _ = o["change_rate"].(float64)
	r.Size, _ = o["size"].(float64)
	b, err := json.Marshal(r)
	must(err)
	must(os.WriteFile(filepath.Join(in.Out, "options.json"), b, 0o644))
	out := filepath.Join(in.Out, "dataset")
	vssgen.PrepareOutputDir(out)
	vssgen.SaveMetadata(o, out)
	vssgen.Generate(o, out)
	must(os.WriteFile(filepath.Join(in.Out, "done"), nil, 0o644))
}

func init() {
	add("C38", "command-line", 240, "a generated schema and a command line of the documented parameters, in any order and notation, some left out or given twice, some required ones missing, negative or no numbers; run in a process of its own; non-trivial = a parameter left out, or refused", genArgs, checkArgs)
	add("C38", "program", 60, "a generated schema, a command line (as for command-line) and a dataset left by an earlier run; the program itself is run in its own directory; non-trivial = a file of an earlier dataset, or refused", func(rt *rapid.T) argsCase {
		k := genArgs(rt)
		k.Program = true
		if k.Default == "DIR/default.json" {
			k.Dataset, k.Default = "internal/vssgen/vss.json", ""
		}
		for _, f := range []string{"metadata.json", "car_1/tson/1_1.tson", "car_1/patches/1_9.json", "car_77/tson/77_1.tson", "notes.txt"} {
			if rapid.Bool().Draw(rt, "stale") {
				k.Stale = append(k.Stale, f)
			}
		}
		return k
	}, checkArgs)
}

func genArgs(rt *rapid.T) argsCase {
	k := argsCase{Schema: genSchema(rt), Cars: rapid.IntRange(0, 3).Draw(rt, "cars"), Files: rapid.IntRange(1, 4).Draw(rt, "files"), Change: 0.2, Size: 1}
	var args [][]string
	put := func(name, value string) {
		dash := pick(rt, "dash", "-", "--")
		if rapid.Bool().Draw(rt, "equals") {
			args = append(args, []string{dash + name + "=" + value})
		} else {
			args = append(args, []string{dash + name, value})
		}
	}
	if chance(rt, 8) { // many, with few signals
		k.Schema = []*Sig{{Name: "Vehicle", Branch: true, Children: []*Sig{genSig(rt, "A")}}}
		if rapid.Bool().Draw(rt, "fleet") {
			k.Cars = rapid.IntRange(9, 30).Draw(rt, "cars")
		} else {
			k.Cars, k.Files = 1, rapid.IntRange(9, 50).Draw(rt, "files")
		}
	}
	number := func(name string, v float64) {
		put(name, strconv.FormatFloat(v, pick(rt, "format", byte('g'), byte('f'), byte('e')), -1, 64))
	}
	put("cars", strconv.Itoa(k.Cars))
	put("files", strconv.Itoa(k.Files))
	if chance(rt, 60) {
		k.Change = pick(rt, "change", 0, 1, 0.5, 0.125, 0.2, 0.001, 0.9999999, 1.5)
		number("change_rate", k.Change)
	}
	if chance(rt, 60) {
		k.Size = pick(rt, "size", 0, 1, 0.5, 0.75, 0.01, 2)
		number("size", k.Size)
	}
	if rapid.Bool().Draw(rt, "dataset") {
		k.Dataset = "given.json"
		put("dataset", "DIR/given.json")
		k.Default = "DIR/missing.json"
	} else {
		k.Dataset = "default.json"
		k.Default = "DIR/default.json"
	}
	switch rapid.IntRange(0, 7).Draw(rt, "wrong") {
	case 0: // a required one is missing
		i := rapid.IntRange(0, 1).Draw(rt, "which")
		args = slices.Delete(args, i, i+1)
		k.Refused = true
	case 1:
		args[rapid.IntRange(0, 1).Draw(rt, "which")] = []string{pick(rt, "negative", "-cars", "-files") + "=" + pick(rt, "value", "-1", "-7", "x", "1.5", "")}
		k.Refused = true
	case 2:
		put(pick(rt, "unknown", "car", "changerate", "sizes", "maintain"), "1")
		k.Refused = true
	}
	perm := rapid.Permutation(args).Draw(rt, "order")
	if !k.Refused && chance(rt, 20) { // given before, the last one counts
		perm = append([][]string{{"-cars", "7"}, {"-size=0.25"}}, perm...)
		if k.Size == 1 && !slices.ContainsFunc(args, func(a []string) bool { return strings.HasPrefix(strings.TrimLeft(a[0], "-"), "size") }) {
			k.Size = 0.25
		}
	}
	for _, a := range perm {
		k.Args = append(k.Args, a...)
	}
	return k
}

func checkArgs(c *Ctx, k argsCase) error {
	dir := c.Dir()
	in := map[string]any{"default": strings.ReplaceAll(k.Default, "DIR", dir), "out": dir}
	var args []string
	for _, a := range k.Args {
		args = append(args, strings.ReplaceAll(a, "DIR", dir))
	}
	in["args"] = args
	schema := writeSchema(dir, k.Schema)
	want := argsResult{filepath.Join(dir, k.Dataset), k.Cars, k.Files, k.Change, k.Size, 5}
	must(os.MkdirAll(filepath.Dir(want.Dataset), 0o755))
	must(os.Rename(schema, want.Dataset))
	for _, f := range k.Stale {
		f = filepath.Join(dir, "dataset", f)
		must(os.MkdirAll(filepath.Dir(f), 0o755))
		must(os.WriteFile(f, []byte("{}"), 0o644))
	}
	before := listFiles(filepath.Join(dir, "dataset"))
	b, err := json.Marshal(in)
	must(err)
	exe, err := os.Executable()
	must(err)
	if k.Program {
		exe = os.Getenv("VERIF_WEB")
		if want.Dataset == filepath.Join(dir, "internal/vssgen/vss.json") {
			want.Dataset = "internal/vssgen/vss.json"
		}
	}
	cmd := osexec.Command(exe, "-test.run", "^(TestArgs|TestVerifProgram)$", "-test.timeout", "0")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_ARGS="+string(b), "VERIF_PROP=")
	text, err := cmd.CombinedOutput()
	var exit *osexec.ExitError
	if err != nil && !errors.As(err, &exit) {
		must(err)
	}
	text = text[:min(len(text), 1000)]
	if strings.Contains(string(text), "harness: ") {
		must(fmt.Errorf("%s", text))
	}
	read := func(name string, x any) error {
		b, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			return fmt.Errorf("%q gives no %s (%s)", k.Args, name, text)
		}
		return json.Unmarshal(b, x)
	}
	c.NonTrivial(k.Refused || len(k.Args) < 5 && !k.Program || len(k.Stale) > 0)
	c.Class(k.Refused, "refused")
	if k.Refused {
		if _, err := os.Stat(filepath.Join(dir, "options.json")); err == nil || exit == nil {
			return fmt.Errorf("%q was not refused (%s)", k.Args, text)
		}
		if got := listFiles(filepath.Join(dir, "dataset")); !slices.Equal(got, before) {
			return fmt.Errorf("%q was refused after creating or removing files: %v, before %v (%s)", k.Args, got, before, text)
		}
		if _, err := os.Stat(filepath.Join(dir, "dataset")); err == nil && len(before) == 0 {
			return fmt.Errorf("%q was refused after creating a directory (%s)", k.Args, text)
		}
		return nil
	}
	if !k.Program {
		var got argsResult
		if err := read("options.json", &got); err != nil {
			return err
		}
		if got != want {
			return fmt.Errorf("%q is read as %+v, want %+v", k.Args, got, want)
		}
	}
	if _, err := os.Stat(filepath.Join(dir, "done")); err != nil || exit != nil {
		return fmt.Errorf("generating with %q failed: %v: %s", k.Args, exit, text)
	}
	var meta argsResult
	if err := read("dataset/metadata.json", &meta); err != nil {
		return err
	}
	if meta.Keys = 5; meta != want {
		return fmt.Errorf("%q: the metadata says %+v, want %+v", k.Args, meta, want)
	}
	files := []string{"metadata.json"}
	for i := 1; i <= k.Cars; i++ {
		for j := 1; j <= k.Files; j++ {
			files = append(files, fmt.Sprintf("car_%d/tson/%d_%d.tson", i, i, j), fmt.Sprintf("car_%d/patches/%d_%d.json", i, i, j))
		}
	}
	sort.Strings(files)
	if got := listFiles(filepath.Join(dir, "dataset")); !slices.Equal(got, files) {
		return fmt.Errorf("%q creates the files %v, want %v", k.Args, got, files)
	}
	for i := 1; i <= k.Cars; i++ {
		b, err := os.ReadFile(filepath.Join(dir, "dataset", fmt.Sprintf("car_%d/tson/%d_1.tson", i, i)))
		worked(err)
		var t tson.Tson
		if err := tson.Unmarshal(b, &t); err != nil {
			return fmt.Errorf("%q: the first file of car %d is not read: %v", k.Args, i, err)
		}
		doc, err := fromTson(t)
		if err != nil {
			return err
		}
		if err := checkDataset(fmt.Sprintf("%q: car %d", k.Args, i), doc, allSignals(k.Schema), k.Size >= 1); err != nil {
			return err
		}
	}
	return nil
}
