package zzverif

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

// V is the reference model of a TSON document.
type V struct {
	K string  `json:"k"`           // "o" object, "a" array, "s" string, "n" number, "b" bool, "z" null
	S string  `json:"s,omitempty"` // string value
	N float64 `json:"n,omitempty"` // number
	B bool    `json:"b,omitempty"`
	T int64   `json:"t,omitempty"` // timestamp of a leaf
	O []KV    `json:"o,omitempty"` // members, sorted by key
	A []*V    `json:"a,omitempty"`
}

type KV struct {
	Key string `json:"key"`
	Val *V     `json:"val"`
}

func vObj(kv ...KV) *V {
	o := &V{K: "o"}
	for _, m := range kv {
		o.put(m.Key, m.Val)
	}
	return o
}
func vArr(a ...*V) *V            { return &V{K: "a", A: a} }
func vStr(s string, t int64) *V  { return &V{K: "s", S: s, T: t} }
func vNum(n float64, t int64) *V { return &V{K: "n", N: n, T: t} }
func vBool(b bool, t int64) *V   { return &V{K: "b", B: b, T: t} }
func vNull() *V                  { return &V{K: "z"} }

func (v *V) leaf() bool      { return v.K == "s" || v.K == "n" || v.K == "b" }
func (v *V) container() bool { return v.K == "o" || v.K == "a" }

func (v *V) find(key string) int {
	for i := range v.O {
		if v.O[i].Key == key {
			return i
		}
	}
	return -1
}

func (v *V) get(key string) *V {
	if i := v.find(key); i >= 0 {
		return v.O[i].Val
	}
	return nil
}

func (v *V) put(key string, val *V) {
	if i := v.find(key); i >= 0 {
		v.O[i].Val = val
		return
	}
	v.O = append(v.O, KV{key, val})
	sort.SliceStable(v.O, func(i, j int) bool { return v.O[i].Key < v.O[j].Key })
}

func (v *V) drop(key string) {
	if i := v.find(key); i >= 0 {
		v.O = append(v.O[:i:i], v.O[i+1:]...)
	}
}

func (v *V) clone() *V {
	if v == nil {
		return nil
	}
	c := *v
	c.O, c.A = nil, nil
	for _, m := range v.O {
		c.O = append(c.O, KV{m.Key, m.Val.clone()})
	}
	for _, e := range v.A {
		c.A = append(c.A, e.clone())
	}
	return &c
}

// Tson builds the document of the code under test, sharing nothing.
func (v *V) Tson() tson.Tson {
	switch v.K {
	case "o":
		o := tson.Object{}
		for _, m := range v.O {
			o[m.Key] = m.Val.Tson()
		}
		return o
	case "a":
		a := tson.Array{}
		for _, e := range v.A {
			a = append(a, e.Tson())
		}
		return a
	case "s":
		return tson.Leaf[string]{Value: v.S, Timestamp: v.T}
	case "n":
		return tson.Leaf[float64]{Value: v.N, Timestamp: v.T}
	case "b":
		return tson.Leaf[bool]{Value: v.B, Timestamp: v.T}
	case "z":
		return nil
	}
	panic(harnessError{fmt.Errorf("bad kind %q", v.K)})
}

// fromTson reads a document of the code under test into the model.
func fromTson(t tson.Tson) (*V, error) {
	switch x := t.(type) {
	case nil:
		return vNull(), nil
	case tson.Object:
		o := &V{K: "o"}
		for k, e := range x {
			c, err := fromTson(e)
			if err != nil {
				return nil, err
			}
			o.O = append(o.O, KV{k, c})
		}
		sort.Slice(o.O, func(i, j int) bool { return o.O[i].Key < o.O[j].Key })
		return o, nil
	case tson.Array:
		a := &V{K: "a"}
		for _, e := range x {
			c, err := fromTson(e)
			if err != nil {
				return nil, err
			}
			a.A = append(a.A, c)
		}
		return a, nil
	case tson.Leaf[string]:
		return vStr(x.Value, x.Timestamp), nil
	case tson.Leaf[float64]:
		return vNum(x.Value, x.Timestamp), nil
	case tson.Leaf[bool]:
		return vBool(x.Value, x.Timestamp), nil
	}
	return nil, fmt.Errorf("the document contains a %T", t)
}

// same compares two models. Timestamps count unless ignoreTs.
func same(a, b *V, ignoreTs bool) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.K != b.K || len(a.O) != len(b.O) || len(a.A) != len(b.A) {
		return false
	}
	for i := range a.O {
		if a.O[i].Key != b.O[i].Key || !same(a.O[i].Val, b.O[i].Val, ignoreTs) {
			return false
		}
	}
	for i := range a.A {
		if !same(a.A[i], b.A[i], ignoreTs) {
			return false
		}
	}
	return a.S == b.S && a.N == b.N && a.B == b.B && (ignoreTs || !a.leaf() || a.T == b.T)
}

// diffText locates the first difference, for messages.
func diffText(want, got *V, path string, ignoreTs bool) string {
	if want == nil || got == nil || want.K != got.K {
		return fmt.Sprintf("at %q: want %s, got %s", path, brief(want), brief(got))
	}
	switch want.K {
	case "o":
		for _, m := range want.O {
			g := got.get(m.Key)
			if g == nil {
				return fmt.Sprintf("at %q: key %q is missing", path, m.Key)
			}
			if !same(m.Val, g, ignoreTs) {
				return diffText(m.Val, g, path+"/"+m.Key, ignoreTs)
			}
		}
		for _, m := range got.O {
			if want.get(m.Key) == nil {
				return fmt.Sprintf("at %q: unexpected key %q", path, m.Key)
			}
		}
	case "a":
		if len(want.A) != len(got.A) {
			return fmt.Sprintf("at %q: want %d elements, got %d", path, len(want.A), len(got.A))
		}
		for i := range want.A {
			if !same(want.A[i], got.A[i], ignoreTs) {
				return diffText(want.A[i], got.A[i], path+"/"+strconv.Itoa(i), ignoreTs)
			}
		}
	}
	return fmt.Sprintf("at %q: want %s, got %s", path, brief(want), brief(got))
}

func brief(v *V) string {
	if v == nil {
		return "nothing"
	}
	b, _ := json.Marshal(v)
	if len(b) > 300 {
		b = append(b[:300], "..."...)
	}
	return string(b)
}

// wantDoc checks that the code under test produced the modelled document.
func wantDoc(what string, got tson.Tson, want *V, ignoreTs bool) error {
	g, err := fromTson(got)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if !same(want, g, ignoreTs) {
		return fmt.Errorf("%s differs %s", what, diffText(want, g, "", ignoreTs))
	}
	if hollow(got) {
		// A nil container is empty, but encoders may write it as null
		if b, err := tson.ToCompatibleTsonBytes(got); err != nil {
			return fmt.Errorf("%s cannot be encoded: %v", what, err)
		} else if x, err := decodeExact(b); err != nil || !sameExact(x, g.compatExact()) {
			return fmt.Errorf("%s is encoded as %.300q, want %s (%v)", what, b, brief(g), err)
		}
	}
	return nil
}

// hollow tells whether a document contains a nil object or array.
func hollow(t tson.Tson) bool {
	switch x := t.(type) {
	case tson.Object:
		if x == nil {
			return true
		}
		for _, e := range x {
			if hollow(e) {
				return true
			}
		}
	case tson.Array:
		if x == nil {
			return true
		}
		for _, e := range x {
			if hollow(e) {
				return true
			}
		}
	}
	return false
}

// anyJSON is the JSON value of the model, without timestamps.
func (v *V) anyJSON() any {
	switch v.K {
	case "o":
		m := map[string]any{}
		for _, e := range v.O {
			m[e.Key] = e.Val.anyJSON()
		}
		return m
	case "a":
		a := []any{}
		for _, e := range v.A {
			a = append(a, e.anyJSON())
		}
		return a
	case "s":
		return v.S
	case "n":
		return v.N
	case "b":
		return v.B
	}
	return nil
}

// fromAny reads plain JSON data into the model; leaves get timestamp -1.
func fromAny(x any) (*V, error) {
	switch x := x.(type) {
	case nil:
		return vNull(), nil
	case map[string]any:
		o := vObj()
		for k, e := range x {
			c, err := fromAny(e)
			if err != nil {
				return nil, err
			}
			o.O = append(o.O, KV{k, c})
		}
		sort.Slice(o.O, func(i, j int) bool { return o.O[i].Key < o.O[j].Key })
		return o, nil
	case []any:
		a := vArr()
		for _, e := range x {
			c, err := fromAny(e)
			if err != nil {
				return nil, err
			}
			a.A = append(a.A, c)
		}
		return a, nil
	case string:
		return vStr(x, -1), nil
	case float64:
		return vNum(x, -1), nil
	case int:
		return vNum(float64(x), -1), nil
	case bool:
		return vBool(x, -1), nil
	}
	return nil, fmt.Errorf("not JSON data: %T", x)
}

// size counts nodes.
func (v *V) size() int {
	n := 1
	for _, m := range v.O {
		n += m.Val.size()
	}
	for _, e := range v.A {
		n += e.size()
	}
	return n
}

// walk visits all nodes with their segments.
func (v *V) walk(segs []string, f func(segs []string, v *V)) {
	f(segs, v)
	for _, m := range v.O {
		m.Val.walk(append(segs[:len(segs):len(segs)], m.Key), f)
	}
	for i, e := range v.A {
		e.walk(append(segs[:len(segs):len(segs)], strconv.Itoa(i)), f)
	}
}

func (v *V) at(segs []string) *V {
	for _, s := range segs {
		switch v.K {
		case "o":
			v = v.get(s)
		case "a":
			i, err := strconv.Atoi(s)
			if err != nil || i < 0 || i >= len(v.A) {
				return nil
			}
			v = v.A[i]
		default:
			return nil
		}
		if v == nil {
			return nil
		}
	}
	return v
}

// ---- paths

func encodeSeg(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "~", "~0"), "/", "~1")
}

func pointer(segs []string) string {
	var b strings.Builder
	for _, s := range segs {
		b.WriteString("/" + encodeSeg(s))
	}
	return b.String()
}

// dotted returns the dotted notation, if the segments allow it.
func dotted(segs []string) (string, bool) {
	if len(segs) == 0 {
		return "", true
	}
	for _, s := range segs {
		if strings.ContainsAny(s, "./~") {
			return "", false
		}
	}
	p := strings.Join(segs, ".")
	if p == "" || strings.HasPrefix(p, "/") {
		return "", false
	}
	return p, true
}

// splitPath decodes a path in either notation (JSON pointer or dotted).
func splitPath(p string) []string {
	if p == "" {
		return nil
	}
	var segs []string
	if p[0] == '/' {
		segs = strings.Split(p[1:], "/")
	} else {
		segs = strings.Split(p, ".")
	}
	for i, s := range segs {
		segs[i] = strings.ReplaceAll(strings.ReplaceAll(s, "~1", "/"), "~0", "~")
	}
	return segs
}

func isIndex(s string) bool {
	if s == "0" {
		return true
	}
	if s == "" || s[0] == '0' || len(s) > 9 {
		return false
	}
	return strings.Trim(s, "0123456789") == ""
}

// ---- operations

// Op is a patch operation. V is the value: a leaf kind, or "i" (an int),
// "z" (nil), "m" (a map), "l" (a list), which matter for invalid operations.
type Op struct {
	Op   string `json:"op"`
	Path string `json:"path"`
	V    *V     `json:"v,omitempty"`
	T    int64  `json:"t"`
}

func (o Op) value() any {
	if o.V == nil {
		return nil
	}
	switch o.V.K {
	case "s":
		return o.V.S
	case "n":
		return o.V.N
	case "b":
		return o.V.B
	case "i":
		return int(o.V.N)
	case "m":
		return map[string]any{"x": 1.0}
	case "l":
		return []any{1.0}
	}
	return nil
}

// leafValue is the leaf an add or replace stores, or nil.
func (o Op) leafValue() *V {
	if o.V == nil {
		return nil
	}
	switch o.V.K {
	case "s", "n", "b":
		c := o.V.clone()
		c.T = o.T
		return c
	case "i":
		return vNum(o.V.N, o.T)
	}
	return nil
}

func (o Op) Sut() tsonpatch.Operation {
	return tsonpatch.Operation{Op: tsonpatch.OpType(o.Op), Path: o.Path, Value: o.value(), Timestamp: o.T}
}

func sutPatch(ops []Op) tsonpatch.Patch {
	p := make(tsonpatch.Patch, len(ops))
	for i, o := range ops {
		p[i] = o.Sut()
	}
	return p
}

// jsonPatch is the JSON text of the patch, written independently.
func jsonPatch(ops []Op) string {
	list := []any{}
	for _, o := range ops {
		m := map[string]any{"op": o.Op, "path": o.Path, "timestamp": o.T}
		if o.Op != "remove" {
			m["value"] = o.value()
		}
		list = append(list, m)
	}
	b, err := json.Marshal(list)
	must(err)
	return string(b)
}

type applyResult int

const (
	applied   applyResult = iota
	rejected              // must be an error
	unsettled             // error or unchanged document, both fine
)

// applyOp is the reference model of applying one operation. The document is
// not modified.
func applyOp(doc *V, op Op) (*V, applyResult) {
	switch op.Op {
	case "add", "replace":
		leaf := op.leafValue()
		if leaf == nil {
			return nil, rejected
		}
		return modelSet(doc, splitPath(op.Path), leaf)
	case "remove":
		segs := splitPath(op.Path)
		if len(segs) == 0 {
			return nil, rejected
		}
		return modelRemove(doc, segs)
	}
	return nil, rejected
}

func modelSet(doc *V, segs []string, leaf *V) (*V, applyResult) {
	if len(segs) == 0 {
		return leaf, applied
	}
	if doc == nil || doc.K == "z" {
		if isIndex(segs[0]) {
			doc = vArr()
		} else {
			doc = vObj()
		}
	}
	switch doc.K {
	case "o":
		child, r := modelSet(doc.get(segs[0]), segs[1:], leaf)
		if r != applied {
			return nil, r
		}
		doc = doc.clone()
		doc.put(segs[0], child)
		return doc, applied
	case "a":
		if !isIndex(segs[0]) {
			return nil, rejected
		}
		i, _ := strconv.Atoi(segs[0])
		var old *V
		if i < len(doc.A) {
			old = doc.A[i]
		}
		child, r := modelSet(old, segs[1:], leaf)
		if r != applied {
			return nil, r
		}
		doc = doc.clone()
		for len(doc.A) <= i {
			doc.A = append(doc.A, vNull())
		}
		doc.A[i] = child
		return doc, applied
	}
	return nil, rejected // through a leaf
}

func modelRemove(doc *V, segs []string) (*V, applyResult) {
	switch doc.K {
	case "o":
		old := doc.get(segs[0])
		if old == nil || (old.K == "z" && len(segs) > 1) {
			return doc, unsettled
		}
		doc = doc.clone()
		if len(segs) == 1 {
			doc.drop(segs[0])
			return doc, applied
		}
		child, r := modelRemove(old, segs[1:])
		if r != applied {
			return doc, r
		}
		doc.put(segs[0], child)
		return doc, applied
	case "a":
		if !isIndex(segs[0]) {
			return nil, rejected
		}
		i, _ := strconv.Atoi(segs[0])
		if i >= len(doc.A) {
			return nil, rejected
		}
		if doc.A[i].K == "z" && len(segs) > 1 {
			return doc, unsettled
		}
		doc = doc.clone()
		if len(segs) == 1 {
			doc.A = append(doc.A[:i:i], doc.A[i+1:]...)
			return doc, applied
		}
		child, r := modelRemove(doc.A[i], segs[1:])
		if r != applied {
			return doc, r
		}
		doc.A[i] = child
		return doc, applied
	case "z":
		return doc, unsettled
	}
	return nil, rejected
}

// applyAll applies operations which must be applicable.
func applyAll(doc *V, ops []Op) *V {
	for _, o := range ops {
		next, r := applyOp(doc, o)
		if r != applied {
			panic(harnessError{fmt.Errorf("model cannot apply %+v", o)})
		}
		doc = next
	}
	return doc
}

// modelOp reads an operation of the code under test.
func modelOp(o tsonpatch.Operation) (Op, error) {
	r := Op{Op: string(o.Op), Path: o.Path, T: o.Timestamp}
	switch v := o.Value.(type) {
	case nil:
	case string:
		r.V = vStr(v, 0)
	case float64:
		r.V = vNum(v, 0)
	case bool:
		r.V = vBool(v, 0)
	case int:
		r.V = &V{K: "i", N: float64(v)}
	default:
		return r, fmt.Errorf("operation %s %s has a value of type %T", o.Op, o.Path, o.Value)
	}
	return r, nil
}

func modelPatch(p tsonpatch.Patch) ([]Op, error) {
	ops := make([]Op, len(p))
	for i, o := range p {
		var err error
		if ops[i], err = modelOp(o); err != nil {
			return nil, err
		}
	}
	return ops, nil
}

// sameOp compares operations; an int equals the number stored for it.
func sameOp(a, b Op) bool {
	av, bv := a.leafValue(), b.leafValue()
	return a.Op == b.Op && a.Path == b.Path && a.T == b.T && same(av, bv, true)
}

func sameOps(a, b []Op) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameOp(a[i], b[i]) {
			return false
		}
	}
	return true
}

func opText(o Op) string {
	b, _ := json.Marshal(o)
	return string(b)
}

func opsText(ops []Op) string {
	b, _ := json.Marshal(ops)
	if len(b) > 1500 {
		b = append(b[:1500], "..."...)
	}
	return string(b)
}

var interestingNumbers = []float64{0, 1, -1, 0.5, -0.5, 0.1, 3.14, 42, 100, 1e6, 123456789, 1e20, 1e21, 1e-6, 1e-7, 1e22, 1.5e300,
	math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1<<53 + 2, -(1 << 53), 1e15, 123456.789, -2.5e-10, math.Copysign(0, -1), 0.30000000000000004, 20, 21}
