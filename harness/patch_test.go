package zzverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"pgregory.net/rapid"
)

// expressible tells whether leaf operations the generators are documented to
// use (set a leaf, remove anything) turn a into b.
func expressible(a, b *V) bool {
	if a.K != b.K {
		return b.leaf()
	}
	switch a.K {
	case "o":
		for _, m := range b.O {
			old := a.get(m.Key)
			if old == nil && !m.Val.leaf() || old != nil && !expressible(old, m.Val) {
				return false
			}
		}
	case "a":
		for i, e := range b.A {
			if i >= len(a.A) && !e.leaf() || i < len(a.A) && !expressible(a.A[i], e) {
				return false
			}
		}
	}
	return true
}

type diffVariant struct {
	name     string
	generate func(a, b tson.Tson) (tsonpatch.Patch, error)
	ts       bool
}

var diffVariants = []diffVariant{
	{"GeneratePatch", tsonpatch.GeneratePatch, false},
	{"GeneratePatchWithTimestamp", tsonpatch.GeneratePatchWithTimestamp, true},
}

func genPair(rt *rapid.T) pairCase {
	o := docOpts{}
	a := genDoc(rt, o)
	if chance(rt, 5) {
		return pairCase{A: a, B: genDoc(rt, o), Kinds: []string{"unrelated"}}
	}
	b, kinds := genEdited(rt, a, rapid.IntRange(0, 5).Draw(rt, "edits"), o)
	return pairCase{A: a, B: b, Kinds: kinds}
}

func pairClasses(c *Ctx, k pairCase) {
	for _, e := range k.Kinds {
		c.Class(true, "edit "+e)
	}
	c.Class(expressible(k.A, k.B), "expressible")
	c.NonTrivial(k.A.size() >= 3 && !same(k.A, k.B, false))
}

func checkDiffOps(v diffVariant, ops []Op, a, b *V) error {
	seen := map[string]bool{}
	for _, o := range ops {
		if seen[o.Path] {
			return fmt.Errorf("%s changes %q twice: %s", v.name, o.Path, opsText(ops))
		}
		seen[o.Path] = true
		if o.Path != "" && o.Path[0] != '/' {
			return fmt.Errorf("%s writes the path %q, which is no JSON pointer", v.name, o.Path)
		}
		segs := splitPath(o.Path)
		va, vb := a.at(segs), b.at(segs)
		switch o.Op {
		case "remove":
			if va == nil || vb != nil {
				return fmt.Errorf("%s removes %q, which was not removed: %s", v.name, o.Path, opsText(ops))
			}
			continue
		case "add":
			if va != nil && va.K != "z" {
				return fmt.Errorf("%s adds %q, which existed before: %s", v.name, o.Path, opsText(ops))
			}
		case "replace":
			if va == nil {
				return fmt.Errorf("%s replaces %q, which did not exist: %s", v.name, o.Path, opsText(ops))
			}
		default:
			return fmt.Errorf("%s generates an operation %q", v.name, o.Op)
		}
		if vb == nil || !vb.leaf() || !same(o.leafValue(), vb, false) {
			return fmt.Errorf("%s: operation %s does not carry the target %s", v.name, opText(o), brief(vb))
		}
		if va != nil && same(va, vb, !v.ts) {
			return fmt.Errorf("%s: operation %s names a value which does not differ", v.name, opText(o))
		}
	}
	return nil
}

// leadsTo tells whether the patch says on its own, not only to this
// implementation, how to get from one document to the other.
func leadsTo(v diffVariant, ops []Op, k pairCase) error {
	doc := k.A
	for _, o := range ops {
		var r applyResult
		if doc, r = applyOp(doc, o); r != applied {
			return fmt.Errorf("%s: operation %s cannot be applied; patch %s", v.name, opText(o), opsText(ops))
		}
	}
	if !same(doc, k.B, !v.ts) {
		return fmt.Errorf("the patch of %s gives another document %s; patch %s", v.name, diffText(k.B, doc, "", !v.ts), opsText(ops))
	}
	return nil
}

func init() {
	rule := "a document and a variation of it with up to 5 random edits, or an unrelated document; non-trivial = at least 3 nodes and different documents"
	add("C08", "generate-apply", 20000, rule, genPair, func(c *Ctx, k pairCase) error {
		pairClasses(c, k)
		for _, v := range diffVariants {
			patch, err := v.generate(k.A.Tson(), k.B.Tson())
			c.Class(err == nil && v.ts, "generated")
			if err != nil {
				if expressible(k.A, k.B) {
					return fmt.Errorf("%s: %v (edits %v)", v.name, err, k.Kinds)
				}
				continue
			}
			ops, err := modelPatch(patch)
			if err != nil {
				return fmt.Errorf("%s: %v", v.name, err)
			}
			got, err := tsonpatch.ApplyPatch(k.A.Tson(), patch)
			if err != nil {
				return fmt.Errorf("applying the patch of %s: %v; patch %s", v.name, err, opsText(ops))
			}
			if err := wantDoc("the result of applying the patch of "+v.name, got, k.B, !v.ts); err != nil {
				return fmt.Errorf("%v; patch %s", err, opsText(ops))
			}
			if err := leadsTo(v, ops, k); err != nil {
				return err
			}
		}
		return nil
	})

	add("C09", "exact-changes", 20000, rule, genPair, func(c *Ctx, k pairCase) error {
		pairClasses(c, k)
		c.Class(same(k.A, k.B, true), "same values")
		c.Class(same(k.A, k.B, true) && !same(k.A, k.B, false), "differs in timestamps only")
		for _, v := range diffVariants {
			patch, err := v.generate(k.A.Tson(), k.B.Tson())
			if err != nil {
				continue // C08 tells when this is allowed
			}
			ops, err := modelPatch(patch)
			if err != nil {
				return fmt.Errorf("%s: %v", v.name, err)
			}
			if empty := same(k.A, k.B, !v.ts); empty != (len(ops) == 0) {
				return fmt.Errorf("%s generated %s for documents which are the same: %v", v.name, opsText(ops), empty)
			}
			if err := checkDiffOps(v, ops, k.A, k.B); err != nil {
				return err
			}
			if err := leadsTo(v, ops, k); err != nil { // no change is missing
				return err
			}
		}
		return nil
	})

	add("C09", "same-values", 10000, "a document and the same with other timestamps (some, all or none); non-trivial = at least 3 nodes", func(rt *rapid.T) pairCase {
		a := genDoc(rt, docOpts{})
		b := a.clone()
		mode := rapid.IntRange(0, 2).Draw(rt, "mode")
		b.walk(nil, func(_ []string, v *V) {
			if v.leaf() && (mode == 2 || mode == 1 && rapid.Bool().Draw(rt, "change")) {
				v.T = genTime(rt)
			}
		})
		return pairCase{A: a, B: b}
	}, func(c *Ctx, k pairCase) error {
		c.NonTrivial(k.A.size() >= 3)
		want := map[string]bool{}
		k.A.walk(nil, func(segs []string, v *V) {
			if v.leaf() && v.T != k.B.at(segs).T {
				want[pointer(segs)] = true
			}
		})
		c.Class(len(want) > 0, "timestamps differ")
		for _, v := range diffVariants {
			patch, err := v.generate(k.A.Tson(), k.B.Tson())
			if err != nil {
				return fmt.Errorf("%s: %v", v.name, err)
			}
			ops, err := modelPatch(patch)
			if err != nil {
				return fmt.Errorf("%s: %v", v.name, err)
			}
			if err := checkDiffOps(v, ops, k.A, k.B); err != nil {
				return err
			}
			if n := len(want); v.ts && len(ops) != n || !v.ts && len(ops) != 0 {
				return fmt.Errorf("%s generated %s although values are equal and %d timestamps differ", v.name, opsText(ops), n)
			}
		}
		return nil
	})

	// ---- C10

	add("C10", "sequence", 20000, "a document and 0 to 8 operations, most of them on existing or new locations, some impossible; applied one by one and as a patch; non-trivial = at least 2 operations", genApply, func(c *Ctx, k applyCase) error {
		c.NonTrivial(len(k.Ops) >= 2)
		c.Class(len(k.Ops) == 0, "empty patch")
		docClasses(c, k.Doc)
		// one by one
		model, sut := k.Doc, k.Doc.Tson()
		mayFail, mustFail := false, false
		for _, o := range k.Ops {
			next, r := applyOp(model, o)
			got, err := tsonpatch.ApplyOperation(sut, o.Sut())
			switch r {
			case rejected:
				c.Class(true, "rejected")
				if err == nil {
					v, _ := fromTson(got)
					return fmt.Errorf("impossible operation %s was accepted on %s giving %s", opText(o), brief(model), brief(v))
				}
				mustFail = true
			case unsettled:
				c.Class(true, "removal of nothing")
				mayFail = mayFail || !mustFail && err != nil
				if err == nil {
					if err := wantDoc("the document after removing nothing by "+opText(o), got, model, false); err != nil {
						return err
					}
				}
			default:
				c.Class(true, o.Op)
				if err != nil {
					return fmt.Errorf("operation %s on %s: %v", opText(o), brief(model), err)
				}
				if err := wantDoc("the document after "+opText(o)+" on "+brief(model), got, next, false); err != nil {
					return err
				}
				model, sut = next, got
			}
			if mustFail {
				break
			}
		}
		// as a patch
		got, err := tsonpatch.ApplyPatch(k.Doc.Tson(), sutPatch(k.Ops))
		if mustFail || mayFail {
			if err == nil {
				return fmt.Errorf("ApplyPatch accepted a patch with an operation which ApplyOperation refuses: %s", opsText(k.Ops))
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("ApplyPatch: %v; patch %s", err, opsText(k.Ops))
		}
		return wantDoc("the result of ApplyPatch", got, model, false)
	})

	// ---- C11

	add("C11", "apply", 10000, "a document and a sequence of operations (some impossible) applied to randomly chosen earlier results, singly and as patches; all results are compared again at the end; non-trivial = at least 2 applications", func(rt *rapid.T) branchCase {
		k := branchCase{Doc: genDoc(rt, docOpts{})}
		models := []*V{k.Doc}
		for n := rapid.IntRange(1, 6).Draw(rt, "steps"); n > 0; n-- {
			from := rapid.IntRange(0, len(models)-1).Draw(rt, "from")
			var ops []Op
			doc := models[from]
			for m := rapid.IntRange(1, 4).Draw(rt, "ops"); m > 0; m-- {
				o, ok := genOp(rt, doc, chance(rt, 15))
				if !ok {
					continue
				}
				ops = append(ops, o)
				if next, r := applyOp(doc, o); r == applied {
					doc = next
				}
			}
			k.Steps = append(k.Steps, branchStep{from, ops, rapid.Bool().Draw(rt, "single")})
			models = append(models, doc)
		}
		return k
	}, func(c *Ctx, k branchCase) error {
		c.NonTrivial(len(k.Steps) >= 2)
		docs := []tson.Tson{k.Doc.Tson()}
		var models []*V
		note := func(d tson.Tson) error {
			m, err := fromTson(d)
			models = append(models, m)
			return err
		}
		if err := note(docs[0]); err != nil {
			return err
		}
		for _, s := range k.Steps {
			from := docs[min(s.From, len(docs)-1)]
			patch := sutPatch(s.Ops)
			var got tson.Tson
			var err error
			if s.Single {
				got = from
				for _, o := range patch {
					next, err := tsonpatch.ApplyOperation(got, o)
					c.Class(err != nil, "failed application")
					if err == nil {
						got = next
					}
				}
			} else if got, err = tsonpatch.ApplyPatch(from, patch); err != nil {
				c.Class(true, "failed application")
				got = from
			}
			if !reflect.DeepEqual(patch, sutPatch(s.Ops)) {
				return fmt.Errorf("applying modified the patch %s", opsText(s.Ops))
			}
			docs = append(docs, got)
			if err := note(got); err != nil {
				return err
			}
			for i, d := range docs {
				if err := wantDoc(fmt.Sprintf("document %d (0 is the original) after applying %s to document %d", i, opsText(s.Ops), s.From), d, models[i], false); err != nil {
					return err
				}
			}
		}
		return wantDoc("the original document", docs[0], k.Doc, false)
	})

	add("C11", "generate", 8000, rule, genPair, func(c *Ctx, k pairCase) error {
		pairClasses(c, k)
		a, b := k.A.Tson(), k.B.Tson()
		for _, v := range diffVariants {
			patch, err := v.generate(a, b)
			if err == nil {
				ops, _ := modelPatch(patch)
				if got, err := tsonpatch.ApplyPatch(a, patch); err == nil {
					tsonpatch.ApplyPatch(got, patch)
				}
				if after, _ := modelPatch(patch); !reflect.DeepEqual(ops, after) {
					return fmt.Errorf("applying modified the patch %s", opsText(ops))
				}
			}
			if err := wantDoc("the first document after "+v.name, a, k.A, false); err != nil {
				return err
			}
			if err := wantDoc("the second document after "+v.name, b, k.B, false); err != nil {
				return err
			}
		}
		return nil
	})

	// ---- C12

	add("C12", "round-trip", 12000, "a patch of 0 to 5 operations with any path and value (strings, numbers, booleans, null, plain containers, also empty/zero/false ones) written by every writer; non-trivial = at least 1 operation", func(rt *rapid.T) patchCase {
		var k patchCase
		for n := rapid.IntRange(0, 5).Draw(rt, "ops"); n > 0; n-- {
			o := Op{Op: pick(rt, "op", "add", "replace", "remove", "add", "replace", "test"), Path: genAnyPath(rt), T: genTime(rt)}
			if o.Op != "remove" || chance(rt, 20) {
				o.V = genOpValue(rt, true)
			}
			k.Ops = append(k.Ops, o)
		}
		return k
	}, func(c *Ctx, k patchCase) error {
		c.NonTrivial(len(k.Ops) >= 1)
		want := sutPatch(k.Ops)
		for i, o := range want {
			if n, ok := o.Value.(int); ok {
				want[i].Value = float64(n)
			}
			c.Class(o.Op == "remove", "remove")
			c.Class(o.Value == false || o.Value == 0.0 || o.Value == "", "falsy value")
			c.Class(o.Timestamp > 1<<53, "timestamp>2^53")
		}
		same := func(what string, got tsonpatch.Patch) error {
			if len(got) == 0 && len(want) == 0 {
				return nil
			}
			if !reflect.DeepEqual(got, want) {
				return fmt.Errorf("%s read back as %#v, want %#v", what, got, want)
			}
			return nil
		}
		read := func(what string, text []byte) error {
			if err := wantPatchText(what, text, k.Ops); err != nil {
				return err
			}
			got, err := tsonpatch.Unmarshal(text)
			if err != nil {
				return fmt.Errorf("%s wrote %.400q: %v", what, text, err)
			}
			return same(what+" "+strconv.Quote(string(text)), got)
		}
		p := sutPatch(k.Ops)
		if err := read("Patch.String", []byte(p.String())); err != nil {
			return err
		}
		b, err := json.Marshal(p)
		if err != nil {
			return fmt.Errorf("json.Marshal: %v", err)
		}
		if err := read("json.Marshal", b); err != nil {
			return err
		}
		var byMarshal, byString [][]byte
		for i := range p {
			b, err := p[i].Marshal()
			if err != nil {
				return fmt.Errorf("Operation.Marshal: %v", err)
			}
			byMarshal = append(byMarshal, b)
			byString = append(byString, []byte(p[i].String()))
		}
		if err := read("Operation.Marshal", append(append([]byte("["), bytes.Join(byMarshal, []byte(","))...), ']')); err != nil {
			return err
		}
		if err := read("Operation.String", append(append([]byte("["), bytes.Join(byString, []byte(","))...), ']')); err != nil {
			return err
		}
		// in memory
		got, err := tsonpatch.FromJson(p)
		if err != nil {
			return fmt.Errorf("FromJson of a patch: %v", err)
		}
		if err := same("FromJson of a patch", got); err != nil {
			return err
		}
		list := []any{}
		for _, o := range k.Ops {
			m := map[string]any{"op": o.Op, "path": o.Path, "timestamp": o.T}
			if o.Op != "remove" || o.V != nil {
				m["value"] = o.value()
			}
			list = append(list, m)
		}
		if got, err = tsonpatch.FromJson(list); err != nil {
			return fmt.Errorf("FromJson of maps: %v", err)
		}
		if err := same("FromJson of maps", got); err != nil {
			return err
		}
		if !reflect.DeepEqual(p, sutPatch(k.Ops)) {
			return fmt.Errorf("writing modified the patch")
		}
		return nil
	})

	add("C12", "malformed", 12000, "patch text with byte edits or a wrongly typed field: an error whenever it is no JSON or no list of operations; non-trivial = longer than 3 bytes", func(rt *rapid.T) compatCase {
		if rapid.Bool().Draw(rt, "typed") {
			good := `{"op":"add","path":"/a","value":1,"timestamp":1}`
			bad := pick(rt, "bad", `{"op":1,"path":"/a","value":1,"timestamp":1}`, `{"op":"add","path":5,"value":1,"timestamp":1}`, `{"op":"add","path":"/a","value":1,"timestamp":"1"}`,
				`{"op":"add","path":"/a","value":1,"timestamp":1.5}`, `{"op":"add","path":"/a","value":1,"timestamp":99999999999999999999}`, `{"op":"add","path":["a"],"value":1,"timestamp":1}`,
				`{"op":{},"path":"/a","value":1,"timestamp":1}`, `5`, `"x"`, `[]`, `true`, `[`+good+`]`, `{"op":"add","path":"/a","value":1,"timestamp":true}`)
			switch rapid.IntRange(0, 4).Draw(rt, "where") {
			case 0:
				return compatCase{Text: "[" + bad + "]", Invalid: true}
			case 1:
				return compatCase{Text: "[" + good + "," + bad + "]", Invalid: true}
			case 2:
				return compatCase{Text: "[" + bad + "," + good + "]", Invalid: true}
			case 3:
				return compatCase{Text: pick(rt, "whole", good, `"x"`, `5`, `true`, `{}`), Invalid: true}
			default:
				return compatCase{Text: "[" + good + "]" + pick(rt, "trail", "x", "[]", ",", "1", "null", "]"), Invalid: true}
			}
		}
		var ops []Op
		for n := rapid.IntRange(0, 3).Draw(rt, "ops"); n > 0; n-- {
			ops = append(ops, Op{Op: "add", Path: genAnyPath(rt), V: genOpValue(rt, false), T: genTime(rt)})
		}
		return compatCase{Text: string(editBytes(rt, []byte(jsonPatch(ops))))}
	}, func(c *Ctx, k compatCase) error {
		c.NonTrivial(len(k.Text) > 3)
		c.Class(k.Invalid, "wrongly typed")
		valid := json.Valid([]byte(k.Text))
		c.Class(valid, "JSON")
		p, err := tsonpatch.Unmarshal([]byte(k.Text))
		if err == nil && (k.Invalid || !valid) {
			return fmt.Errorf("patch text %.400q accepted as %v", k.Text, p)
		}
		return nil
	})
}

type applyCase struct {
	Doc *V   `json:"doc"`
	Ops []Op `json:"ops"`
}

type patchCase struct {
	Ops []Op `json:"ops"`
}

type branchStep struct {
	From   int  `json:"from"`
	Ops    []Op `json:"ops"`
	Single bool `json:"single"`
}

type branchCase struct {
	Doc   *V           `json:"doc"`
	Steps []branchStep `json:"steps"`
}

// wantPatchText reads the written text independently of the code under test.
func wantPatchText(what string, text []byte, ops []Op) error {
	x, err := decodeExact(text)
	if err != nil {
		return fmt.Errorf("%s wrote %.400q, which is no JSON: %v", what, text, err)
	}
	list, ok := x.([]any)
	if !ok || len(list) != len(ops) {
		return fmt.Errorf("%s wrote %.400q for %d operations", what, text, len(ops))
	}
	for i, o := range ops {
		m, ok := list[i].(map[string]any)
		if !ok {
			return fmt.Errorf("%s wrote %.400q", what, text)
		}
		var want any = o.value()
		if n, ok := want.(int); ok {
			want = float64(n)
		}
		if m["op"] != o.Op || m["path"] != o.Path || !sameExact(m["timestamp"], o.T) || !sameExact(m["value"], want) {
			return fmt.Errorf("%s wrote %.400q for %s", what, text, opText(o))
		}
	}
	return nil
}

func genOpValue(rt *rapid.T, invalid bool) *V {
	n := 9
	if invalid {
		n = 12
	}
	switch rapid.IntRange(0, n).Draw(rt, "value") {
	case 0, 1, 2:
		return vNum(genNumber(rt), 0)
	case 3, 4, 5:
		return vStr(genString(rt), 0)
	case 6, 7:
		return vBool(rapid.Bool().Draw(rt, "bool"), 0)
	case 8, 9:
		if chance(rt, 30) {
			return &V{K: "i", N: float64(rapid.Int64Range(-1<<53, 1<<53).Draw(rt, "int"))}
		}
		return &V{K: "i", N: float64(rapid.IntRange(-1000, 1000).Draw(rt, "int"))}
	case 10:
		return vNull()
	case 11:
		return &V{K: "m"}
	default:
		return &V{K: "l"}
	}
}

func genAnyPath(rt *rapid.T) string {
	switch rapid.IntRange(0, 2).Draw(rt, "pathkind") {
	case 0:
		return pointer(rapid.SliceOfN(rapid.Custom(genKey), 0, 4).Draw(rt, "segs"))
	case 1:
		return rapid.StringMatching("[a-zA-Z]{1,4}(\\.[a-zA-Z]{1,4}){0,3}").Draw(rt, "dotted")
	default:
		return genString(rt)
	}
}

// ambiguous tells whether the path uses a segment like "01" or "+1", or a huge
// index, where an array index may be meant: what happens then is not specified.
func ambiguous(doc *V, segs []string) bool {
	for _, s := range segs {
		if doc == nil || doc.K != "o" {
			known := 0
			if doc != nil {
				known = len(doc.A)
			}
			if i, err := strconv.Atoi(s); err == nil && i >= 0 && (!isIndex(s) || i > known+40) {
				return true
			}
		}
		if doc == nil {
			continue
		}
		switch doc.K {
		case "o":
			doc = doc.get(s)
		case "a":
			next := (*V)(nil)
			if i, err := strconv.Atoi(s); err == nil && i >= 0 && i < len(doc.A) {
				next = doc.A[i]
			}
			doc = next
		default:
			doc = nil
		}
	}
	return false
}

// genOp draws an operation on the document; some are impossible if invalid.
func genOp(rt *rapid.T, doc *V, invalid bool) (Op, bool) {
	all := paths(doc)
	segs := append([]string{}, all[rapid.IntRange(0, len(all)-1).Draw(rt, "node")]...)
	node := doc.at(segs)
	where := rapid.IntRange(0, 5).Draw(rt, "where")
	switch {
	case where <= 1 && len(segs) > 0: // the node itself
	case node.K == "a":
		n := len(node.A)
		switch {
		case where == 5 && invalid:
			segs = append(segs, pick(rt, "badindex", "-1", "-", "x", "", "-9", "0x0", "0x1", "1e0", "0.0", "0b1", "0_0", " 0", "0 ", "\uff11"))
		case where == 4:
			segs = append(segs, strconv.Itoa(min(n+pick(rt, "beyond", 0, 1, 2, 3, 0, 1, 2, 3, 20), 40)))
		default:
			segs = append(segs, strconv.Itoa(rapid.IntRange(0, max(0, n)).Draw(rt, "index")))
		}
	default:
		segs = append(segs, genKey(rt))
	}
	if chance(rt, 10) {
		segs = append(segs, rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) string {
			if chance(rt, 10) {
				return strconv.Itoa(rapid.IntRange(3, 40).Draw(rt, "far"))
			}
			return pick(rt, "deep", "a", "b", "0", "1", "2", "", "x", "-1", "~", "/")
		}), 1, 3).Draw(rt, "deeper")...)
	}
	if invalid && chance(rt, 10) {
		segs = nil
	}
	if ambiguous(doc, segs) {
		return Op{}, false
	}
	o := Op{Op: pick(rt, "op", "add", "replace", "remove", "replace"), Path: pointer(segs), T: genTime(rt)}
	if invalid && chance(rt, 40) {
		o.Op = pick(rt, "badop", "move", "copy", "test", "", "ADD", "delete")
	}
	if d, ok := dotted(segs); ok && len(segs) > 0 && chance(rt, 25) {
		o.Path = d
	}
	if o.Op != "remove" {
		o.V = genOpValue(rt, invalid)
	}
	return o, true
}

func genApply(rt *rapid.T) applyCase {
	k := applyCase{Doc: genDoc(rt, docOpts{})}
	doc := k.Doc
	for n := rapid.IntRange(0, 8).Draw(rt, "ops"); n > 0; n-- {
		o, ok := genOp(rt, doc, chance(rt, 15))
		if !ok {
			continue
		}
		k.Ops = append(k.Ops, o)
		next, r := applyOp(doc, o)
		if r == rejected {
			break
		}
		doc = next
	}
	return k
}
