package zzverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/vssgen"
	"pgregory.net/rapid"
)

// Sig is a node of a signal schema: a branch or a signal.
type Sig struct {
	Name     string   `json:"name"`
	Children []*Sig   `json:"children,omitempty"` // of a branch
	Branch   bool     `json:"branch,omitempty"`
	Type     string   `json:"type,omitempty"` // data type of a signal
	Unit     string   `json:"unit,omitempty"`
	Allowed  []string `json:"allowed,omitempty"`
	Extra    int      `json:"extra,omitempty"` // which other keys it has
}

// tree writes the schema as a VSS file has it.
func (s *Sig) tree() map[string]any {
	n := map[string]any{"description": "Text, about it.", "uuid": "0123456789abcdef"}
	if s.Extra&1 != 0 {
		n["comment"] = "A comment."
	}
	if s.Extra&2 != 0 {
		n["deprecation"] = "v3.0 replaced"
	}
	if s.Branch {
		n["type"] = "branch"
		children := map[string]any{}
		for _, c := range s.Children {
			children[c.Name] = c.tree()
		}
		n["children"] = children
		return n
	}
	n["type"] = "sensor"
	if s.Extra&4 != 0 {
		n["type"] = "actuator"
		n["min"], n["max"] = 0, 100
	}
	if s.Extra&8 != 0 {
		n["default"] = []any{"x", 5}
	}
	if s.Type != "" {
		n["datatype"] = s.Type
	}
	if s.Unit != "" {
		n["unit"] = s.Unit
	}
	if s.Allowed != nil {
		n["allowed"] = s.Allowed
	}
	return n
}

// signals lists the signals with their paths.
func (s *Sig) signals(prefix string, into map[string]*Sig) map[string]*Sig {
	if into == nil {
		into = map[string]*Sig{}
	}
	path := s.Name
	if prefix != "" {
		path = prefix + "." + s.Name
	}
	if !s.Branch {
		into[path] = s
	}
	for _, c := range s.Children {
		c.signals(path, into)
	}
	return into
}

var sigNames = []string{"Speed", "IsOpen", "Row1", "Row2", "Left", "Right", "Cabin", "Door", "Battery", "A", "B", "Value", "Children", "Position2D", "Speed ", " A", "a/b", "~1", "Größe", "\"q\"", "<i>", "0", "-", "Timestamp"}

func genSig(rt *rapid.T, name string) *Sig {
	s := &Sig{Name: name, Extra: rapid.IntRange(0, 15).Draw(rt, "extra")}
	s.Type = pick(rt, "datatype", "boolean", "float", "string", "uint8", "int8", "int16", "int32", "uint16", "uint32", "double", "string[]", "float[]", "uint8[]", "boolean", "float", "string")
	switch s.Type {
	case "float", "uint8", "int8", "double":
		s.Unit = pick(rt, "unit", "", "percent", "km/h")
	case "string", "string[]":
		if rapid.Bool().Draw(rt, "enum") {
			s.Allowed = pick(rt, "allowed", []string{"ON"}, []string{"UNKNOWN", "OPEN", "CLOSED"}, []string{"A b", "\"q\"", "<1>", "ü"})
			if chance(rt, 10) {
				s.Allowed = numbered("MODE_", rapid.IntRange(5, 20).Draw(rt, "modes"))
			}
		}
	}
	if chance(rt, 4) {
		s.Type, s.Unit, s.Allowed = "", "km", nil // no data type: the value is unknown
	}
	return s
}

func genBranch(rt *rapid.T, name string, depth int) *Sig {
	s := &Sig{Name: name, Branch: true, Extra: rapid.IntRange(0, 3).Draw(rt, "extra")}
	used := map[string]bool{}
	for n := pick(rt, "children", 1, 3, 5, 4, 6, 2, 0); n > 0; n-- {
		c := pick(rt, "name", sigNames...)
		if used[c] {
			continue
		}
		used[c] = true
		if depth > 0 && chance(rt, 45) {
			s.Children = append(s.Children, genBranch(rt, c, depth-1))
		} else {
			s.Children = append(s.Children, genSig(rt, c))
		}
	}
	return s
}

func numbered(prefix string, n int) (r []string) {
	for i := range n {
		r = append(r, fmt.Sprint(prefix, i))
	}
	return
}

func genSchema(rt *rapid.T) []*Sig {
	return genSchemaSized(rt, true)
}

// genSchemaSized makes some schemas deep or wide, if asked to.
func genSchemaSized(rt *rapid.T, large bool) []*Sig {
	if large && chance(rt, 2) { // deep
		at := &Sig{Name: "Vehicle", Branch: true, Children: []*Sig{genSig(rt, "Main")}}
		roots := []*Sig{at}
		for n := rapid.IntRange(5, 40).Draw(rt, "levels"); n > 0; n-- {
			b := genBranch(rt, pick(rt, "level", "B", "Left", "Row1"), 0)
			names := map[string]bool{}
			for _, c := range at.Children {
				names[c.Name] = true
			}
			if names[b.Name] {
				b.Name = "Next"
			}
			at.Children = append(at.Children, b)
			at = b
		}
		return roots
	}
	if large && chance(rt, 2) { // wide
		b := &Sig{Name: "Vehicle", Branch: true, Children: []*Sig{genSig(rt, "Main")}}
		kinds := []*Sig{genSig(rt, ""), genSig(rt, ""), genSig(rt, ""), genSig(rt, "")}
		for i, name := range numbered("Signal", rapid.IntRange(20, 300).Draw(rt, "signals")) {
			c := *kinds[i%4]
			c.Name = name
			b.Children = append(b.Children, &c)
		}
		return []*Sig{b}
	}
	roots := []*Sig{genBranch(rt, "Vehicle", rapid.IntRange(1, 4).Draw(rt, "depth"))}
	roots[0].Children = append(roots[0].Children, genSig(rt, "Main"))
	if chance(rt, 10) {
		roots = append(roots, genBranch(rt, "Trailer", 1))
	}
	if chance(rt, 5) {
		roots = append(roots, genSig(rt, "Top"))
	}
	return roots
}

func allSignals(roots []*Sig) map[string]*Sig {
	all := map[string]*Sig{}
	for _, r := range roots {
		r.signals("", all)
	}
	return all
}

func writeSchema(dir string, roots []*Sig) string {
	tree := map[string]any{}
	for _, r := range roots {
		tree[r.Name] = r.tree()
	}
	b, err := json.Marshal(tree)
	must(err)
	file := filepath.Join(dir, "schema.json")
	must(os.WriteFile(file, b, 0o644))
	return file
}

// fromVss reads a dataset as the generator holds it.
func fromVss(x any) (*V, error) {
	b, err := json.Marshal(x)
	if err != nil {
		return nil, err
	}
	exact, err := decodeExact(b)
	if err != nil {
		return nil, err
	}
	return vssModel(exact, "")
}

func vssModel(x any, path string) (*V, error) {
	switch x := x.(type) {
	case map[string]any:
		t, isLeaf := x["timestamp"]
		if !isLeaf {
			o := vObj()
			keys := make([]string, 0, len(x))
			for k := range x {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				v, err := vssModel(x[k], path+"."+k)
				if err != nil {
					return nil, err
				}
				o.put(k, v)
			}
			return o, nil
		}
		n, ok := t.(json.Number)
		val, hasValue := x["value"]
		if !ok || !hasValue || len(x) != 2 {
			return nil, fmt.Errorf("%s: %v is no leaf", path, x)
		}
		ts, err := n.Int64()
		if err != nil {
			return nil, fmt.Errorf("%s: timestamp %v", path, t)
		}
		switch val := val.(type) {
		case nil:
			return vNull(), nil
		case string:
			return vStr(val, ts), nil
		case bool:
			return vBool(val, ts), nil
		case json.Number:
			f, err := val.Float64()
			if err != nil {
				return nil, fmt.Errorf("%s: number %v", path, val)
			}
			return vNum(f, ts), nil
		}
		return nil, fmt.Errorf("%s: value %v", path, val)
	case []any:
		a := vArr()
		for i, e := range x {
			v, err := vssModel(e, fmt.Sprintf("%s[%d]", path, i))
			if err != nil {
				return nil, err
			}
			a.A = append(a.A, v)
		}
		return a, nil
	}
	return nil, fmt.Errorf("%s: %v (%T) is no part of a dataset", path, x, x)
}

// leaves lists signals of a dataset: paths and leaf or array.
func (v *V) vssLeaves(prefix string, into map[string]*V) map[string]*V {
	for _, kv := range v.O {
		path := kv.Key
		if prefix != "" {
			path = prefix + "." + kv.Key
		}
		if kv.Val.K == "o" {
			kv.Val.vssLeaves(path, into)
		} else {
			into[path] = kv.Val
		}
	}
	return into
}

func conforms(path string, v *V, s *Sig) error {
	bad := func() error {
		return fmt.Errorf("%s has the value %s, which does not suit a %s (unit %q, allowed %q)", path, brief(v), s.Type, s.Unit, s.Allowed)
	}
	if strings.HasSuffix(s.Type, "[]") && v.K == "a" {
		if len(v.A) == 0 {
			return bad()
		}
		elem := *s
		elem.Type = strings.TrimSuffix(s.Type, "[]")
		for _, e := range v.A {
			if err := conforms(path, e, &elem); err != nil {
				return err
			}
		}
		return nil
	}
	whole := func(lo, hi float64) bool { return v.K == "n" && v.N == math.Trunc(v.N) && v.N >= lo && v.N <= hi }
	ok := false
	switch s.Type {
	case "":
		ok = v.K == "z"
	case "boolean":
		ok = v.K == "b"
	case "string":
		ok = v.K == "s"
	case "string[]": // a list of enumerated values may be a single one
		ok = v.K == "s" && s.Allowed != nil
	case "float", "double":
		ok = v.K == "n"
	case "int8":
		ok = whole(-128, 127)
	case "uint8":
		ok = whole(0, 255)
	case "int16":
		ok = whole(-1<<15, 1<<15-1)
	case "uint16":
		ok = whole(0, 1<<16-1)
	case "int32":
		ok = whole(-1<<31, 1<<31-1)
	case "uint32":
		ok = whole(0, 1<<32-1)
	}
	if s.Unit == "percent" {
		ok = ok && v.N >= 0 && v.N <= 100
	}
	if s.Allowed != nil && v.K == "s" {
		in := false
		for _, a := range s.Allowed {
			in = in || a == v.S
		}
		ok = ok && in
	}
	if !ok {
		return bad()
	}
	return nil
}

// checkExports compares the leaf listing, the rebuilt tree and the map export
// of a dataset with the dataset.
func checkExports(what string, ds *vssgen.VssJson, v *V) error {
	want := v.vssLeaves("", map[string]*V{})
	seen := map[string]bool{}
	for _, entry := range ds.LeafNodes() {
		for path, x := range entry {
			if seen[path] {
				return fmt.Errorf("%s: the leaf listing has %s twice", what, path)
			}
			seen[path] = true
			got, err := fromVss(x)
			if err != nil {
				return fmt.Errorf("%s: the leaf listing has %s: %v", what, path, err)
			}
			if want[path] == nil || !same(want[path], got, false) {
				return fmt.Errorf("%s: the leaf listing has %s at %s, the dataset %s", what, brief(got), path, brief(want[path]))
			}
		}
	}
	for path := range want {
		if !seen[path] {
			return fmt.Errorf("%s: %s is missing in the leaf listing", what, path)
		}
	}
	tree, err := ds.BuildFromLeafNodes()
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	got, err := fromVss(tree)
	if err != nil {
		return fmt.Errorf("%s: the rebuilt tree: %v", what, err)
	}
	if !same(v, got, false) {
		return fmt.Errorf("%s: the rebuilt tree differs %s", what, diffText(v, got, "", false))
	}
	m, err := ds.ToMapStringInterface()
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	plain, err := json.Marshal(ds.GetData())
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	var ref map[string]any
	must(json.Unmarshal(plain, &ref))
	if !reflect.DeepEqual(m, ref) {
		return fmt.Errorf("%s: the map export is %v, want %v", what, m, ref)
	}
	scribble(m)
	again, err := fromVss(ds.GetData())
	if err != nil || !same(v, again, false) {
		return fmt.Errorf("%s: changing the map export changes the dataset", what)
	}
	return nil
}

// commonTime returns the timestamp of all leaves.
func commonTime(v *V) (t int64, err error) {
	first := true
	v.walk(nil, func(segs []string, x *V) {
		if !x.leaf() {
			return
		}
		if first {
			t, first = x.T, false
		} else if x.T != t && err == nil {
			err = fmt.Errorf("the timestamps are %d and %d (%s)", t, x.T, strings.Join(segs, "."))
		}
	})
	return
}

func checkDataset(what string, v *V, signals map[string]*Sig, all bool) error {
	leaves := v.vssLeaves("", map[string]*V{})
	for path, x := range leaves {
		s := signals[path]
		if s == nil {
			return fmt.Errorf("%s has %s, which is no signal of the schema", what, path)
		}
		if err := conforms(path, x, s); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
	}
	for path := range signals {
		if all && leaves[path] == nil {
			return fmt.Errorf("%s does not have the signal %s", what, path)
		}
	}
	if _, err := commonTime(v); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	return nil
}

// whole decides whether the values of integer signals are whole numbers.
func whole(what string, v *V, signals map[string]*Sig) error {
	for path, x := range v.vssLeaves("", map[string]*V{}) {
		if s := signals[path]; s != nil && strings.Contains(s.Type, "int") && x.K == "n" && x.N != math.Trunc(x.N) {
			return fmt.Errorf("%s: %s, a signal of the type %s, becomes %s", what, path, s.Type, brief(x))
		}
	}
	return nil
}

type rates struct {
	Change float64 `json:"change"`
	Keep   float64 `json:"keep"` // the maintain rate
}

type vssCase struct {
	Schema []*Sig  `json:"schema"`
	Size   float64 `json:"size"`
	Steps  []rates `json:"steps,omitempty"`
	First  int     `json:"first,omitempty"` // number of the file before
}

func genRates(rt *rapid.T) rates {
	switch rapid.IntRange(0, 5).Draw(rt, "rates") {
	case 0:
		return rates{0, 0}
	case 1:
		return rates{0, 1}
	case 2:
		return rates{1, 0}
	case 3:
		x := rapid.Float64Range(0, 1).Draw(rt, "rate")
		return rates{x, 1 - x}
	case 4:
		return rates{rapid.Float64Range(0, 1).Draw(rt, "rate"), 0}
	default:
		x := rapid.Float64Range(0, 1).Draw(rt, "rate")
		return rates{x, rapid.Float64Range(0, 1-x).Draw(rt, "keep")}
	}
}

// checkStep decides whether next is a step from prev, made with the rates.
func checkStep(prev, next *V, r rates) (touched, changed, scalars int, err error) {
	a, b := prev.vssLeaves("", map[string]*V{}), next.vssLeaves("", map[string]*V{})
	var stamp int64
	stamped := false
	use := func(path string, t int64) {
		if stamped && t != stamp && err == nil {
			err = fmt.Errorf("%s has the new timestamp %d, another signal %d", path, t, stamp)
		}
		stamp, stamped = t, true
	}
	fail := func(format string, args ...any) {
		if err == nil {
			err = fmt.Errorf(format, args...)
		}
	}
	full := r.Change+r.Keep >= 1
	for path, x := range a {
		y := b[path]
		switch {
		case y == nil:
			fail("%s is missing in the next dataset", path)
		case x.K != y.K:
			fail("%s was %s and becomes %s, a value of another kind", path, brief(x), brief(y))
		case x.K == "a":
			if !same(x, y, true) {
				fail("the list %s was %s and becomes %s", path, brief(x), brief(y))
			}
		case x.K == "z":
		case same(x, y, false):
			scalars++
			if full {
				fail("%s keeps its timestamp with the rates %v", path, r)
			}
		default:
			scalars++
			touched++
			use(path, y.T)
			if x.T == y.T {
				fail("%s was %s and becomes %s without a new timestamp", path, brief(x), brief(y))
			}
			if !same(x, y, true) {
				changed++
				if r.Change == 0 {
					fail("%s was %s and becomes %s with the rates %v", path, brief(x), brief(y), r)
				}
			} else if r.Keep == 0 && x.K == "b" {
				fail("%s becomes %s, which is no change, with the rates %v", path, brief(y), r)
			}
			if r.Change == 0 && r.Keep == 0 {
				fail("%s was %s and becomes %s with the rates %v", path, brief(x), brief(y), r)
			}
		}
	}
	if len(a) != len(b) {
		for path := range b {
			if a[path] == nil {
				fail("%s is new in the next dataset", path)
			}
		}
	}
	if err == nil {
		empty := func(v *V) *V { // without leaves
			var f func(v *V) *V
			f = func(v *V) *V {
				if v.K != "o" {
					return vNull()
				}
				o := vObj()
				for _, kv := range v.O {
					o.put(kv.Key, f(kv.Val))
				}
				return o
			}
			return f(v)
		}
		if !same(empty(prev), empty(next), true) {
			fail("the structure differs %s", diffText(empty(prev), empty(next), "", true))
		}
	}
	return
}

// readVssPatch reads a generated patch.
func readVssPatch(x any) (tsonpatch.Patch, []Op, error) {
	b, err := json.Marshal(x)
	if err != nil {
		return nil, nil, err
	}
	p, err := tsonpatch.Unmarshal(b)
	if err != nil {
		return nil, nil, fmt.Errorf("the patch %s is not read: %v", b, err)
	}
	ops, err := modelPatch(p)
	return p, ops, err
}

func checkVssPatch(what string, p tsonpatch.Patch, ops []Op, prev, next *V) error {
	if len(p) == 0 {
		if !same(prev, next, false) {
			return fmt.Errorf("%s is empty, but the dataset changes %s", what, diffText(prev, next, "", false))
		}
		return nil
	}
	doc := prev
	for _, o := range ops {
		d, r := applyOp(doc, o)
		if r != applied {
			return fmt.Errorf("%s cannot be applied at %s", what, opText(o))
		}
		doc = d
	}
	if !same(next, doc, false) {
		return fmt.Errorf("%s leads to another dataset %s", what, diffText(next, doc, "", false))
	}
	got, err := tsonpatch.ApplyPatch(prev.Tson(), p)
	if err != nil {
		return fmt.Errorf("%s is refused: %v", what, err)
	}
	return wantDoc("the result of "+what, got, next, false)
}

const vssRule = "a schema (branches up to 5 deep, all supported data types, units, allowed values, other keys)"

// repoSchema is the signal schema which comes with the repository.
func repoSchema() string { return filepath.Join(os.Getenv("VERIF_REPO"), "internal/vssgen/vss.json") }

// near decides whether k of n draws fit the probability (by 9 sigma).
func near(k, n int, p float64) bool {
	return math.Abs(float64(k)-float64(n)*p) <= 9*math.Sqrt(float64(n)*p*(1-p))+1
}

func init() {
	add("C25", "steps", 1500, vssRule+", a size and a chain of 1-4 steps with rates (0, 1, adding up to 1, any); non-trivial = at least 3 scalar signals and a step which changes some", func(rt *rapid.T) vssCase {
		k := vssCase{Schema: genSchema(rt), Size: pick(rt, "size", 1, 1, 1, 0.6)}
		for n := rapid.IntRange(1, 4).Draw(rt, "steps"); n > 0; n-- {
			k.Steps = append(k.Steps, genRates(rt))
		}
		if chance(rt, 20) { // later in a long series
			k.First = pick(rt, "first", 7, 28, 97, 254, 998, 9997, 65534)
		}
		return k
	}, func(c *Ctx, k vssCase) error {
		schema := vssgen.NewVssJson(writeSchema(c.Dir(), k.Schema))
		ds := schema.Generate(k.Size, 1)
		for i, r := range k.Steps {
			what := fmt.Sprintf("step %d %v", i, r)
			prev, err := fromVss(ds.GetData())
			if err != nil {
				return fmt.Errorf("the dataset before %s: %v", what, err)
			}
			next, patch := ds.GenerateNext(r.Change, r.Keep, 1+k.First%5, k.First+i+2)
			after, err := fromVss(ds.GetData())
			if err != nil || !same(prev, after, false) {
				return fmt.Errorf("%s modifies the previous dataset", what)
			}
			now, err := fromVss(next.GetData())
			if err != nil {
				return fmt.Errorf("the dataset of %s: %v", what, err)
			}
			_, changed, scalars, err := checkStep(prev, now, r)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if err := whole(what, now, allSignals(k.Schema)); err != nil {
				return err
			}
			p, ops, err := readVssPatch(patch.GetData())
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if err := checkVssPatch("the patch of "+what, p, ops, prev, now); err != nil {
				return err
			}
			if err := checkExports("after "+what, next, now); err != nil {
				return err
			}
			c.NonTrivial(changed > 0 && scalars >= 3)
			c.Class(len(ops) == 0, "empty patch")
			c.Class(len(ops) > 0, "patch")
			c.Class(r.Change == 0 && r.Keep == 1, "timestamps only")
			c.Class(r.Change == 1, "all change")
			ds = next
		}
		return nil
	})

	add("C25", "shares", 3, "the schema of the repository (1081 signals) with rates; the shares of touched and changed signals must fit the rates (9 sigma), for booleans exactly those changed; all cases are non-trivial", genRates, func(c *Ctx, r rates) error {
		c.NonTrivial(true)
		ds := vssgen.NewVssJson(repoSchema()).Generate(1, 1)
		next, patch := ds.GenerateNext(r.Change, r.Keep, 1, 2)
		prev, err := fromVss(ds.GetData())
		if err != nil {
			return err
		}
		now, err := fromVss(next.GetData())
		if err != nil {
			return err
		}
		touched, _, scalars, err := checkStep(prev, now, r)
		if err != nil {
			return fmt.Errorf("rates %v: %v", r, err)
		}
		p, ops, err := readVssPatch(patch.GetData())
		if err != nil {
			return err
		}
		if err := checkVssPatch("the patch", p, ops, prev, now); err != nil {
			return err
		}
		flips, bools := 0, 0
		b := now.vssLeaves("", map[string]*V{})
		for path, x := range prev.vssLeaves("", map[string]*V{}) {
			if x.K == "b" {
				bools++
				if b[path].B != x.B {
					flips++
				}
			}
		}
		if !near(touched, scalars, min(1, r.Change+r.Keep)) {
			return fmt.Errorf("%d of %d signals are touched with the rates %v", touched, scalars, r)
		}
		if !near(flips, bools, r.Change) {
			return fmt.Errorf("%d of %d booleans change with the rates %v", flips, bools, r)
		}
		return nil
	})

	add("C26", "datasets", 2500, vssRule+", a size (0, 1 or between), and up to 2 further steps; non-trivial = at least 4 signals of 3 data types", func(rt *rapid.T) vssCase {
		k := vssCase{Schema: genSchema(rt), Size: pick(rt, "size", 1, 1, 0, 0.5, 0.1)}
		for n := rapid.IntRange(0, 2).Draw(rt, "steps"); n > 0; n-- {
			k.Steps = append(k.Steps, genRates(rt))
		}
		return k
	}, func(c *Ctx, k vssCase) error {
		signals := allSignals(k.Schema)
		types := map[string]bool{}
		for _, s := range signals {
			types[s.Type] = true
			c.Class(s.Type == "", "no data type")
			c.Class(s.Allowed != nil, "allowed values")
			c.Class(strings.HasSuffix(s.Type, "[]"), "lists")
			c.Class(s.Unit == "percent", "percent")
		}
		c.NonTrivial(len(signals) >= 4 && len(types) >= 3 && k.Size > 0)
		c.Class(k.Size == 0, "size 0")
		schema := vssgen.NewVssJson(writeSchema(c.Dir(), k.Schema))
		for round := range 2 { // the schema can be used again
			ds := schema.Generate(k.Size, round)
			what := fmt.Sprintf("dataset %d of size %v", round, k.Size)
			v, err := fromVss(ds.GetData())
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if err := checkDataset(what, v, signals, k.Size == 1); err != nil {
				return err
			}
			if k.Size == 0 && len(v.O) > 0 {
				return fmt.Errorf("%s holds %s", what, brief(v))
			}
			if err := checkExports(what, ds, v); err != nil {
				return err
			}
			for i, r := range k.Steps {
				ds, _ = ds.GenerateNext(r.Change, r.Keep, 1, i+2)
				v, err := fromVss(ds.GetData())
				if err != nil {
					return fmt.Errorf("%s after step %d: %v", what, i, err)
				}
				if err := checkExports(fmt.Sprintf("%s after step %d", what, i), ds, v); err != nil {
					return err
				}
			}
		}
		return nil
	})

	add("C26", "variety", 30, vssRule+"; 200 datasets of it: every allowed value and both truth values occur, numbers, free strings and list lengths vary, and at size 0.5 every signal occurs and is missing at times (missed with probability below 1e-20 per signal); non-trivial = at least 4 signals of 3 data types", func(rt *rapid.T) vssCase {
		return vssCase{Schema: genSchemaSized(rt, false), Size: pick(rt, "size", 1, 0.5)}
	}, checkVariety)

	add("C26", "allowed", 60, "an enumerated signal with 1-100 allowed values; in 60 datasets per value, every value occurs (missed with probability below 1e-24) and no other; non-trivial = at least 9 values", func(rt *rapid.T) int {
		return pick(rt, "allowed", 1, 2, 9, 10, 16, 17, 33, 64, 65, 100, rapid.IntRange(3, 100).Draw(rt, "n"))
	}, func(c *Ctx, n int) error {
		c.NonTrivial(n >= 9)
		s := &Sig{Name: "Mode", Type: "string", Allowed: numbered("M", n)}
		schema := vssgen.NewVssJson(writeSchema(c.Dir(), []*Sig{{Name: "Vehicle", Branch: true, Children: []*Sig{s}}}))
		seen := map[string]bool{}
		for i := range 60 * n {
			v, err := fromVss(schema.Generate(1, i).GetData())
			if err != nil {
				return err
			}
			x := v.vssLeaves("", map[string]*V{})["Vehicle.Mode"]
			if x == nil || x.K != "s" {
				return fmt.Errorf("dataset %d is %s", i, brief(v))
			}
			seen[x.S] = true
		}
		for _, a := range s.Allowed {
			if !seen[a] {
				return fmt.Errorf("the allowed value %q of %d does not occur in %d datasets", a, n, 60*n)
			}
		}
		if len(seen) != n {
			return fmt.Errorf("%d values occur of %d", len(seen), n)
		}
		return nil
	})

	add("C25", "variety", 40, vssRule+"; a chain of 60 steps with change rate 1: every scalar signal changes its value (missed with probability below 1e-70 per signal); non-trivial = at least 3 scalar signals", func(rt *rapid.T) vssCase {
		return vssCase{Schema: genSchemaSized(rt, false), Size: 1}
	}, func(c *Ctx, k vssCase) error {
		ds := vssgen.NewVssJson(writeSchema(c.Dir(), k.Schema)).Generate(1, 1)
		const steps = 60
		seen := map[string]map[string]bool{}
		for i := range steps {
			v, err := fromVss(ds.GetData())
			if err != nil {
				return fmt.Errorf("after %d steps: %v", i, err)
			}
			if err := whole(fmt.Sprintf("after %d steps", i), v, allSignals(k.Schema)); err != nil {
				return err
			}
			for path, x := range v.vssLeaves("", map[string]*V{}) {
				if x.K == "a" || x.K == "z" {
					continue
				}
				if seen[path] == nil {
					seen[path] = map[string]bool{}
				}
				x.T = 0
				seen[path][brief(x)] = true
			}
			ds, _ = ds.GenerateNext(1, 0, 1, i+2)
		}
		c.NonTrivial(len(seen) >= 3)
		for path, values := range seen {
			if len(values) == 1 {
				return fmt.Errorf("%s never changes in %d steps with change rate 1: %v", path, steps, values)
			}
		}
		return nil
	})

	add("C26", "share", 4, "the schema of the repository and a size; the share of generated signals must fit the size (9 sigma); all cases are non-trivial", func(rt *rapid.T) float64 {
		return rapid.Float64Range(0, 1).Draw(rt, "size")
	}, func(c *Ctx, size float64) error {
		c.NonTrivial(true)
		file := repoSchema()
		b, err := os.ReadFile(file)
		must(err)
		var tree map[string]any
		must(json.Unmarshal(b, &tree))
		signals := map[string]*Sig{}
		var read func(path string, n map[string]any)
		read = func(path string, n map[string]any) {
			if children, ok := n["children"].(map[string]any); ok {
				for k, x := range children {
					read(path+"."+k, x.(map[string]any))
				}
				return
			}
			s := &Sig{}
			s.Type, _ = n["datatype"].(string)
			s.Unit, _ = n["unit"].(string)
			if a, ok := n["allowed"].([]any); ok {
				for _, x := range a {
					s.Allowed = append(s.Allowed, fmt.Sprint(x))
				}
			}
			signals[path] = s
		}
		for k, x := range tree {
			read(k, x.(map[string]any))
		}
		ds := vssgen.NewVssJson(file).Generate(size, 1)
		v, err := fromVss(ds.GetData())
		if err != nil {
			return err
		}
		if err := checkDataset("the dataset", v, signals, false); err != nil {
			return err
		}
		if n := len(v.vssLeaves("", map[string]*V{})); !near(n, len(signals), size) {
			return fmt.Errorf("%d of %d signals are generated with size %v", n, len(signals), size)
		}
		return checkExports("the dataset", ds, v)
	})

	add("C27", "files", 500, vssRule+", 1-3 cars, 1-5 files (at times 9-13 or up to 40, and 9-12 or up to 30 cars), rates (the maintain rate may be left out), a size, and an output directory with older files, sometimes longer ones of the same names; non-trivial = a patch with at least 1 operation", func(rt *rapid.T) runCase {
		k := runCase{Schema: genSchema(rt), Cars: rapid.IntRange(1, 3).Draw(rt, "cars"), Files: rapid.IntRange(1, 5).Draw(rt, "files")}
		k.Rates = genRates(rt)
		k.Size = pick(rt, "size", 1, 1, 0.7, 0)
		if k.Rates.Keep == 0 {
			k.NoKeep = rapid.Bool().Draw(rt, "nokeep")
		}
		k.Old = rapid.Bool().Draw(rt, "old")
		k.Again = chance(rt, 30)
		if chance(rt, 6) { // numbers of two digits
			k.Files = rapid.IntRange(9, 13).Draw(rt, "many")
		} else if chance(rt, 4) {
			k.Cars = rapid.IntRange(9, 12).Draw(rt, "fleet")
		} else if chance(rt, 3) { // many, with few signals
			k.Schema = []*Sig{{Name: "Vehicle", Branch: true, Children: []*Sig{genSig(rt, "A"), genSig(rt, "B")}}}
			if rapid.Bool().Draw(rt, "fleet") {
				k.Cars = rapid.IntRange(13, 30).Draw(rt, "cars")
			} else {
				k.Files = pick(rt, "files", 20, 33, 40, 21, 101)
			}
		}
		k.New = chance(rt, 20)
		return k
	}, checkFiles)

	add("C27", "numbers", 2, "a schema of 3000 float signals, 1 car, 4 files, all signals changing; all cases are non-trivial", func(rt *rapid.T) int {
		return rapid.IntRange(2500, 3500).Draw(rt, "signals")
	}, func(c *Ctx, n int) error {
		c.NonTrivial(true)
		b := &Sig{Name: "Vehicle", Branch: true}
		for _, name := range numbered("S", n) {
			b.Children = append(b.Children, &Sig{Name: name, Type: "float"})
		}
		return checkFiles(c, runCase{Schema: []*Sig{b}, Cars: 1, Files: 4, Rates: rates{1, 0}, Size: 1})
	})

	add("C27", "full", 1, "the schema of the repository, 1 car, 2-3 files, size 0.1-1; all cases are non-trivial", func(rt *rapid.T) runCase {
		return runCase{Cars: 1, Files: rapid.IntRange(2, 3).Draw(rt, "files"), Rates: genRates(rt), Size: pick(rt, "size", 0.1, 0.5, 1)}
	}, func(c *Ctx, k runCase) error {
		c.NonTrivial(true)
		return checkFiles(c, k)
	})
}

// checkVariety generates many datasets of a schema and decides whether all
// that may occur in them does occur.
func checkVariety(c *Ctx, k vssCase) error {
	const rounds = 200
	signals := allSignals(k.Schema)
	types := map[string]bool{}
	for _, s := range signals {
		types[s.Type] = true
	}
	c.NonTrivial(len(signals) >= 4 && len(types) >= 3)
	schema := vssgen.NewVssJson(writeSchema(c.Dir(), k.Schema))
	values, lengths, present := map[string]map[string]bool{}, map[string]map[int]bool{}, map[string]int{}
	fractional := map[string]bool{}
	for path := range signals {
		values[path], lengths[path] = map[string]bool{}, map[int]bool{}
	}
	for i := range rounds {
		v, err := fromVss(schema.Generate(k.Size, i).GetData())
		if err != nil {
			return fmt.Errorf("dataset %d: %v", i, err)
		}
		if err := checkDataset(fmt.Sprintf("dataset %d", i), v, signals, k.Size == 1); err != nil {
			return err
		}
		for path, x := range v.vssLeaves("", map[string]*V{}) {
			present[path]++
			list := []*V{x}
			if x.K == "a" {
				list = x.A
				lengths[path][len(list)] = true
			}
			for _, e := range list {
				if e.K == "n" && e.N != math.Trunc(e.N) {
					fractional[path] = true
				}
				if e.K == "s" {
					values[path][e.S] = true
				} else {
					e.T = 0
					values[path][brief(e)] = true
				}
			}
		}
	}
	for path, s := range signals {
		n := len(values[path])
		switch {
		case k.Size < 1 && (present[path] == 0 || present[path] == rounds):
			return fmt.Errorf("%s is in %d of %d datasets of size %v", path, present[path], rounds, k.Size)
		case s.Type == "":
		case len(lengths[path]) == 1:
			return fmt.Errorf("the list %s always has the same length: %v", path, lengths[path])
		case s.Allowed != nil:
			for _, a := range s.Allowed {
				if !values[path][a] && len(lengths[path]) == 0 {
					return fmt.Errorf("%s (%s) never takes the allowed value %q in %d datasets", path, s.Type, a, rounds)
				}
			}
		case n < 2 || present[path] > 50 && strings.Contains("float double", s.Type) && !fractional[path]:
			return fmt.Errorf("%s (%s) has always the same value, or whole ones, in %d datasets: %v", path, s.Type, rounds, values[path])
		}
	}
	return nil
}

type runCase struct {
	Schema []*Sig  `json:"schema,omitempty"` // none: that of the repository
	Cars   int     `json:"cars"`
	Files  int     `json:"files"`
	Rates  rates   `json:"rates"`
	NoKeep bool    `json:"nokeep,omitempty"`
	Size   float64 `json:"size"`
	Old    bool    `json:"old,omitempty"`
	Again  bool    `json:"again,omitempty"` // over longer files of an earlier run
	New    bool    `json:"new,omitempty"`   // in directories to be created
}

func (k runCase) options(schema string) map[string]any {
	o := map[string]any{"dataset": schema, "cars": k.Cars, "files": k.Files, "change_rate": k.Rates.Change, "size": k.Size}
	if !k.NoKeep {
		o["maintain_rate"] = k.Rates.Keep
	}
	return o
}

// listFiles lists the files below a directory.
func listFiles(dir string) (files []string) {
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			rel, _ := filepath.Rel(dir, p)
			files = append(files, rel)
		}
		return nil
	})
	sort.Strings(files)
	return
}

func checkFiles(c *Ctx, k runCase) error {
	dir := c.Dir()
	schema := repoSchema()
	if k.Schema != nil {
		schema = writeSchema(dir, k.Schema)
	}
	out := filepath.Join(dir, "out", "dataset")
	if !k.New {
		must(os.MkdirAll(filepath.Join(dir, "out"), 0o755))
	}
	if k.Old {
		must(os.MkdirAll(filepath.Join(out, "car_1/tson"), 0o755))
		for _, f := range []string{"metadata.json", "car_1/tson/1_1.tson", "car_1/tson/1_99.tson", "x"} {
			must(os.WriteFile(filepath.Join(out, f), []byte("old"), 0o644))
		}
	}
	options := k.options(schema)
	vssgen.PrepareOutputDir(out)
	if left := listFiles(out); len(left) > 0 {
		return fmt.Errorf("the prepared directory still holds %v", left)
	}
	want := []string{"metadata.json"}
	for i := 1; i <= k.Cars; i++ {
		for j := 1; j <= k.Files; j++ {
			want = append(want, fmt.Sprintf("car_%d/tson/%d_%d.tson", i, i, j), fmt.Sprintf("car_%d/patches/%d_%d.json", i, i, j))
		}
	}
	sort.Strings(want)
	if k.Again {
		c.Class(true, "over longer files")
		for _, f := range want {
			must(os.MkdirAll(filepath.Dir(filepath.Join(out, f)), 0o755))
			must(os.WriteFile(filepath.Join(out, f), bytes.Repeat([]byte("[1,2,3] "), 4000), 0o644))
		}
	}
	vssgen.SaveMetadata(options, out)
	vssgen.Generate(options, out)
	if !reflect.DeepEqual(options, k.options(schema)) {
		return fmt.Errorf("the options were modified: %v", options)
	}

	if got := listFiles(out); !reflect.DeepEqual(got, want) {
		return fmt.Errorf("the files are %v, want %v", got, want)
	}
	read := func(format string, args ...any) []byte {
		b, err := os.ReadFile(filepath.Join(out, fmt.Sprintf(format, args...)))
		worked(err)
		return b
	}
	var meta, options2 map[string]any
	if err := json.Unmarshal(read("metadata.json"), &meta); err != nil {
		return fmt.Errorf("metadata.json: %v", err)
	}
	b, err := json.Marshal(options)
	must(err)
	must(json.Unmarshal(b, &options2))
	if !reflect.DeepEqual(meta, options2) {
		return fmt.Errorf("metadata.json holds %v, want %v", meta, options2)
	}

	doc := func(b []byte) (*V, error) {
		var t tson.Tson
		if err := tson.Unmarshal(b, &t); err != nil {
			return nil, err
		}
		return fromTson(t)
	}
	for i := 1; i <= k.Cars; i++ {
		first := read("car_%d/tson/%d_1.tson", i, i)
		prev, err := doc(first)
		if err != nil {
			return fmt.Errorf("car %d: the first file is not read: %v", i, err)
		}
		if k.Schema != nil {
			if err := checkDataset(fmt.Sprintf("car %d: the first file", i), prev, allSignals(k.Schema), k.Size == 1); err != nil {
				return err
			}
		}
		zero, err := doc(read("car_%d/patches/%d_1.json", i, i))
		if err != nil || !same(prev, zero, false) {
			return fmt.Errorf("car %d: the first file is not repeated beside the patches (%v)", i, err)
		}
		l := logument.NewLogument(first, nil)
		snaps := map[uint64]*V{0: prev}
		for j := 2; j <= k.Files; j++ {
			what := fmt.Sprintf("car %d, file %d", i, j)
			next, err := doc(read("car_%d/tson/%d_%d.tson", i, i, j))
			if err != nil {
				return fmt.Errorf("%s is not read: %v", what, err)
			}
			if _, _, _, err := checkStep(prev, next, k.Rates); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			text := read("car_%d/patches/%d_%d.json", i, i, j)
			p, err := tsonpatch.Unmarshal(text)
			if err != nil {
				return fmt.Errorf("%s: the patch %q is not read: %v", what, text, err)
			}
			ops, err := modelPatch(p)
			if err != nil {
				return fmt.Errorf("%s: the patch: %v", what, err)
			}
			c.NonTrivial(len(ops) > 0)
			c.Class(len(ops) == 0, "empty patch")
			if err := checkVssPatch("the patch of "+what, p, ops, prev, next); err != nil {
				return err
			}
			if len(ops) > 0 {
				l.Store(text)
				if err := l.Append(); err != nil {
					return fmt.Errorf("%s: recording the patch: %v", what, err)
				}
			}
			snaps[l.Version[len(l.Version)-1]] = next
			prev = next
		}
		for v, want := range snaps {
			if err := wantDoc(fmt.Sprintf("car %d: snapshot %d", i, v), l.Snapshot(v), want, false); err != nil {
				return err
			}
		}
	}
	return nil
}
