package zzverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"pgregory.net/rapid"
)

type docCase struct {
	Doc *V `json:"doc"`
}

// scribble overwrites everything reachable in plain JSON data.
func scribble(x any) {
	switch x := x.(type) {
	case map[string]any:
		for k, e := range x {
			scribble(e)
			x[k] = "scribbled"
		}
		x["scribble"] = true
	case []any:
		for i, e := range x {
			scribble(e)
			x[i] = "scribbled"
		}
	}
}

func sameJSON(what string, got, want any) error {
	if !reflect.DeepEqual(got, want) {
		g, _ := json.Marshal(got)
		w, _ := json.Marshal(want)
		return fmt.Errorf("%s: got %.600s (%T), want %.600s", what, g, got, w)
	}
	return nil
}

func noTime(*rapid.T) int64 { return -1 }

// compatExact is the expected decoding (with json.Number) of the compatible form.
func (v *V) compatExact() any {
	switch v.K {
	case "o":
		m := map[string]any{}
		for _, e := range v.O {
			m[e.Key] = e.Val.compatExact()
		}
		return m
	case "a":
		a := []any{}
		for _, e := range v.A {
			a = append(a, e.compatExact())
		}
		return a
	case "z":
		return nil
	}
	return map[string]any{"value": v.anyJSON(), "timestamp": v.T}
}

// sameExact compares decoded JSON (json.Number) with compatExact.
func sameExact(got, want any) bool {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(w) {
			return false
		}
		for k := range w {
			if e, ok := g[k]; !ok || !sameExact(e, w[k]) {
				return false
			}
		}
		return true
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !sameExact(g[i], w[i]) {
				return false
			}
		}
		return true
	case int64:
		n, ok := got.(json.Number)
		return ok && string(n) == strconv.FormatInt(w, 10)
	case float64:
		n, ok := got.(json.Number)
		if !ok {
			return false
		}
		f, err := strconv.ParseFloat(string(n), 64)
		return err == nil && f == w
	}
	return reflect.DeepEqual(got, want)
}

func decodeExact(b []byte) (any, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var x any
	if err := dec.Decode(&x); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, fmt.Errorf("more than one JSON value")
	}
	return x, nil
}

// sortedKeys checks that the members of all objects in a JSON text are in ascending order.
func sortedKeys(b []byte) error {
	dec := json.NewDecoder(bytes.NewReader(b))
	type level struct {
		obj  bool
		n    int
		last string
	}
	var stack []*level
	for {
		tok, err := dec.Token()
		if err != nil {
			return nil
		}
		top := (*level)(nil)
		if len(stack) > 0 {
			top = stack[len(stack)-1]
		}
		d, isDelim := tok.(json.Delim)
		if isDelim && (d == '}' || d == ']') {
			stack = stack[:len(stack)-1]
			continue
		}
		if top != nil && top.obj {
			if top.n%2 == 0 {
				k := tok.(string)
				if top.n > 0 && k <= top.last {
					return fmt.Errorf("key %q is written after key %q", k, top.last)
				}
				top.last = k
			}
			top.n++
		}
		if isDelim {
			stack = append(stack, &level{obj: d == '{'})
		}
	}
}

func init() {
	rule := "a JSON value (any keys incl. value/timestamp, null, empty containers, top-level primitives); non-trivial = at least 3 nodes"
	add("C04", "from-json", 10000, rule, func(rt *rapid.T) docCase {
		return docCase{genDoc(rt, docOpts{time: noTime})}
	}, func(c *Ctx, k docCase) error {
		docClasses(c, k.Doc)
		c.NonTrivial(k.Doc.size() >= 3)
		in := k.Doc.anyJSON()
		var t tson.Tson
		if err := tson.FromJson(in, &t); err != nil {
			return fmt.Errorf("FromJson: %v", err)
		}
		if err := sameJSON("FromJson modified its input", in, k.Doc.anyJSON()); err != nil {
			return err
		}
		if err := wantDoc("the result of FromJson", t, k.Doc, false); err != nil {
			return err
		}
		scribble(in)
		if err := wantDoc("the result of FromJson after the caller changed the JSON data", t, k.Doc, false); err != nil {
			return err
		}
		b, err := json.Marshal(k.Doc.anyJSON())
		must(err)
		orig := append([]byte{}, b...)
		var t2 tson.Tson
		if err := tson.FromJsonBytes(b, &t2); err != nil {
			return fmt.Errorf("FromJsonBytes: %v", err)
		}
		if !bytes.Equal(b, orig) {
			return fmt.Errorf("FromJsonBytes modified its input")
		}
		if err := wantDoc("the result of FromJsonBytes", t2, k.Doc, false); err != nil {
			return err
		}
		// and back
		var back any
		if err := tson.ToJson(t, &back); err != nil {
			return fmt.Errorf("ToJson: %v", err)
		}
		return sameJSON("JSON to TSON to JSON", back, k.Doc.anyJSON())
	})

	add("C04", "to-json", 10000, "a TSON document with any timestamps; non-trivial = at least 3 nodes", func(rt *rapid.T) docCase {
		return docCase{genDoc(rt, docOpts{})}
	}, func(c *Ctx, k docCase) error {
		docClasses(c, k.Doc)
		c.NonTrivial(k.Doc.size() >= 3)
		t := k.Doc.Tson()
		var j any
		if err := tson.ToJson(t, &j); err != nil {
			return fmt.Errorf("ToJson: %v", err)
		}
		if err := sameJSON("ToJson", j, k.Doc.anyJSON()); err != nil {
			return err
		}
		scribble(j)
		b, err := tson.ToJsonBytes(t)
		if err != nil {
			return fmt.Errorf("ToJsonBytes: %v", err)
		}
		var j2 any
		if err := json.Unmarshal(b, &j2); err != nil {
			return fmt.Errorf("ToJsonBytes wrote %.300q: %v", b, err)
		}
		if err := sameJSON("ToJsonBytes", j2, k.Doc.anyJSON()); err != nil {
			return err
		}
		return wantDoc("the document after converting it", t, k.Doc, false)
	})

	add("C04", "array", 2500, "an array converted to a Go slice: its leaf values, or an error if it contains a container; non-trivial = at least 2 elements", func(rt *rapid.T) docCase {
		o := docOpts{depth: rapid.IntRange(0, 1).Draw(rt, "depth")}.fill()
		return docCase{genArray(rt, o)}
	}, func(c *Ctx, k docCase) error {
		c.NonTrivial(len(k.Doc.A) >= 2)
		want := []any{}
		containers, nulls := false, false
		for _, e := range k.Doc.A {
			containers = containers || e.container()
			nulls = nulls || e.K == "z"
			want = append(want, e.anyJSON())
		}
		c.Class(containers, "with container")
		c.Class(nulls, "with null")
		t := k.Doc.Tson()
		got, err := tson.ToArray(t.(tson.Array))
		switch {
		case containers && err == nil:
			return fmt.Errorf("ToArray accepted an array with a container")
		case containers || nulls && err != nil:
			return nil
		case err != nil:
			return fmt.Errorf("ToArray: %v", err)
		}
		if err := sameJSON("ToArray", got, want); err != nil {
			return err
		}
		return wantDoc("the array after converting it", t, k.Doc, false)
	})

	add("C04", "malformed", 10000, "JSON text with random byte edits: an error whenever encoding/json finds it invalid, the data it denotes otherwise; non-trivial = longer than 3 bytes", func(rt *rapid.T) bytesCase {
		b, err := json.Marshal(genDoc(rt, docOpts{depth: 2}).anyJSON())
		must(err)
		return bytesCase{editBytes(rt, b)}
	}, func(c *Ctx, k bytesCase) error {
		c.NonTrivial(len(k.Bytes) > 3)
		var want any
		valid := json.Unmarshal(k.Bytes, &want) == nil
		c.Class(valid, "valid")
		var t tson.Tson
		err := tson.FromJsonBytes(k.Bytes, &t)
		if !valid {
			if err == nil {
				return fmt.Errorf("FromJsonBytes accepted %q", k.Bytes)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("FromJsonBytes rejected %q: %v", k.Bytes, err)
		}
		v, herr := fromAny(want)
		must(herr)
		return wantDoc(fmt.Sprintf("the document of %q", k.Bytes), t, v, false)
	})

	// ---- C05

	add("C05", "round-trip", 12000, "a TSON document with the full int64 timestamp range; non-trivial = at least 3 nodes", func(rt *rapid.T) docCase {
		return docCase{genDoc(rt, docOpts{})}
	}, func(c *Ctx, k docCase) error {
		docClasses(c, k.Doc)
		c.NonTrivial(k.Doc.size() >= 3)
		t := k.Doc.Tson()
		b, err := tson.ToCompatibleTsonBytes(t)
		if err != nil {
			return fmt.Errorf("ToCompatibleTsonBytes: %v", err)
		}
		sorted, err := tson.ToCompatibleTsonBytesSorted(t)
		if err != nil {
			return fmt.Errorf("ToCompatibleTsonBytesSorted: %v", err)
		}
		for _, form := range []struct {
			name string
			text []byte
		}{{"ToCompatibleTsonBytes", b}, {"ToCompatibleTsonBytesSorted", sorted}, {"ToCompatibleTsonString", []byte(tson.ToCompatibleTsonString(t))}} {
			x, err := decodeExact(form.text)
			if err != nil {
				return fmt.Errorf("%s wrote %.300q: %v", form.name, form.text, err)
			}
			if !sameExact(x, k.Doc.compatExact()) {
				return fmt.Errorf("%s wrote %.600q for %s", form.name, form.text, brief(k.Doc))
			}
			var back tson.Tson
			if err := tson.FromCompatibleTsonBytes(form.text, &back); err != nil {
				return fmt.Errorf("reading %.300q of %s: %v", form.text, form.name, err)
			}
			if err := wantDoc("the document read back from "+form.name, back, k.Doc, false); err != nil {
				return err
			}
			again, err := tson.ToCompatibleTsonBytes(back)
			if err != nil {
				return fmt.Errorf("encoding the document read back from %s: %v", form.name, err)
			}
			if x, err := decodeExact(again); err != nil || !sameExact(x, k.Doc.compatExact()) {
				return fmt.Errorf("the document read back from %s is encoded as %.300q, the original as %.300q (%v)", form.name, again, b, err)
			}
		}
		if err := sortedKeys(sorted); err != nil {
			return fmt.Errorf("ToCompatibleTsonBytesSorted: %v in %.300q", err, sorted)
		}
		again, err := tson.ToCompatibleTsonBytesSorted(k.Doc.clone().Tson())
		if err != nil || !bytes.Equal(again, sorted) {
			return fmt.Errorf("ToCompatibleTsonBytesSorted is not deterministic: %.300q, %.300q (%v)", sorted, again, err)
		}
		return wantDoc("the document after encoding it", t, k.Doc, false)
	})

	add("C05", "in-memory", 6000, "a TSON document with timestamps below 2^53 (the in-memory form holds them as float64); non-trivial = at least 3 nodes", func(rt *rapid.T) docCase {
		return docCase{genDoc(rt, docOpts{time: func(rt *rapid.T) int64 { return min(genTime(rt), 1<<53-1) }})}
	}, func(c *Ctx, k docCase) error {
		docClasses(c, k.Doc)
		c.NonTrivial(k.Doc.size() >= 3)
		t := k.Doc.Tson()
		var x any
		if err := tson.ToCompatibleTson(t, &x); err != nil {
			return fmt.Errorf("ToCompatibleTson: %v", err)
		}
		b, err := json.Marshal(x)
		if err != nil {
			return fmt.Errorf("ToCompatibleTson returned %T: %v", x, err)
		}
		var back tson.Tson
		if err := tson.FromCompatibleTsonBytes(b, &back); err != nil {
			return fmt.Errorf("reading back ToCompatibleTson: %v", err)
		}
		if err := wantDoc("the document read back from ToCompatibleTson", back, k.Doc, false); err != nil {
			return err
		}
		scribble(x)
		return wantDoc("the document after encoding it", t, k.Doc, false)
	})

	add("C05", "malformed", 15000, "compatible JSON with one part replaced by something which is not compatible TSON (a bare primitive, a leaf holding a container), or with random byte edits; non-trivial = longer than 3 bytes", func(rt *rapid.T) compatCase {
		doc := genDoc(rt, docOpts{depth: 2})
		x := doc.compatExact()
		if rapid.Bool().Draw(rt, "edit") {
			b, err := json.Marshal(x)
			must(err)
			return compatCase{Text: string(editBytes(rt, b))}
		}
		all := paths(doc)
		segs := all[rapid.IntRange(0, len(all)-1).Draw(rt, "at")]
		bad := pick[any](rt, "bad", 1.5, "s", true, map[string]any{"value": map[string]any{}, "timestamp": 5}, map[string]any{"value": []any{1.0}, "timestamp": 5},
			map[string]any{"value": 1, "timestamp": "5"}, map[string]any{"value": 1, "timestamp": nil}, map[string]any{"value": true}, map[string]any{"timestamp": 3},
			map[string]any{"value": 1, "timestamp": 2, "more": 3}, []any{1.0})
		if len(segs) > 0 && segs[len(segs)-1] == "timestamp" {
			bad = "s" // a number might make the object around it a leaf
		}
		x = replaceAt(x, segs, bad)
		b, err := json.Marshal(x)
		must(err)
		return compatCase{Text: string(b), Invalid: true}
	}, func(c *Ctx, k compatCase) error {
		c.NonTrivial(len(k.Text) > 3)
		c.Class(k.Invalid, "no compatible TSON")
		c.Class(!json.Valid([]byte(k.Text)), "no JSON")
		var t tson.Tson
		in := []byte(k.Text)
		err := tson.FromCompatibleTsonBytes(in, &t)
		if string(in) != k.Text {
			return fmt.Errorf("FromCompatibleTsonBytes modified its input")
		}
		if err == nil && (k.Invalid || !json.Valid([]byte(k.Text))) {
			v, _ := fromTson(t)
			return fmt.Errorf("%.300q accepted as %s", k.Text, brief(v))
		}
		if err != nil {
			return nil
		}
		// Whatever was accepted is the whole data
		doc, err := fromTson(t)
		if err != nil {
			return err
		}
		x, err := decodeExact([]byte(k.Text))
		must(err)
		if lossless, known := compatMatches(x, doc); known && !lossless {
			return fmt.Errorf("%.300q was read as %s", k.Text, brief(doc))
		}
		return nil
	})

	// ---- C06

	add("C06", "pairs", 15000, "a document and a copy with 0 to 2 random edits (value, timestamp, type, null, key, member, element); non-trivial = at least 3 nodes", func(rt *rapid.T) pairCase {
		a := genDoc(rt, docOpts{})
		b, kinds := genEdited(rt, a, rapid.IntRange(0, 2).Draw(rt, "edits"), docOpts{})
		return pairCase{A: a, B: b, Kinds: kinds}
	}, func(c *Ctx, k pairCase) error {
		for _, e := range k.Kinds {
			c.Class(true, "edit "+e)
		}
		c.Class(same(k.A, k.B, false), "same")
		c.Class(same(k.A, k.B, true) && !same(k.A, k.B, false), "differs in timestamps only")
		c.NonTrivial(k.A.size() >= 3)
		a, b := k.A.Tson(), k.B.Tson()
		for _, cmp := range []struct {
			name string
			f    func(x, y tson.Tson) (bool, error)
			want bool
		}{{"Equal", tson.Equal, same(k.A, k.B, false)}, {"EqualWithoutTimestamp", tson.EqualWithoutTimestamp, same(k.A, k.B, true)}} {
			for i, pair := range [][2]tson.Tson{{a, b}, {b, a}, {a, a}, {b, k.B.clone().Tson()}} {
				want := cmp.want || i >= 2
				got, err := cmp.f(pair[0], pair[1])
				if err != nil {
					return fmt.Errorf("%s: %v", cmp.name, err)
				}
				if got != want {
					return fmt.Errorf("%s is %v, want %v (pair %d)", cmp.name, got, want, i)
				}
			}
		}
		if err := wantDoc("the first document after comparing", a, k.A, false); err != nil {
			return err
		}
		return wantDoc("the second document after comparing", b, k.B, false)
	})

	// ---- C07

	add("C07", "lookup", 10000, "a document with all its paths in pointer and dotted notation, and variations of them leading nowhere; non-trivial = at least 3 nodes", func(rt *rapid.T) lookupCase {
		doc := genDoc(rt, docOpts{})
		all := paths(doc)
		var extra [][]string
		for n := rapid.IntRange(0, 6).Draw(rt, "n"); n > 0; n-- {
			segs := append([]string{}, all[rapid.IntRange(0, len(all)-1).Draw(rt, "from")]...)
			seg := pick(rt, "seg", "a", "0", "1", "2", "-1", "-", "999", "x", "", "value", "~0", "/", "99999999999999999999") + pick(rt, "suffix", "", "", "", "~1", "0", " ")
			switch rapid.IntRange(0, 4).Draw(rt, "generated") {
			case 0, 1:
				seg = genKey(rt)
			case 2: // numbers in some language, but no array indexes
				seg = pick(rt, "badindex", "0x0", "0x1", "0b1", "0o1", "0_0", "1_0", "1e0", "0.0", "1.0", " 0", "0 ", "\uff11", "0x", "--1", "+-1", "1,", "0\x00", "0L", "Inf")
			}
			if i := rapid.IntRange(0, len(segs)).Draw(rt, "i"); i < len(segs) && rapid.Bool().Draw(rt, "exchange") {
				segs[i] = seg
			} else {
				segs = append(segs[:i:i], append([]string{seg}, segs[i:]...)...)
			}
			extra = append(extra, segs)
		}
		return lookupCase{doc, extra}
	}, func(c *Ctx, k lookupCase) error {
		docClasses(c, k.Doc)
		c.NonTrivial(k.Doc.size() >= 3)
		t := k.Doc.Tson()
		for _, segs := range append(paths(k.Doc), k.Extra...) {
			want, settled := k.Doc.lookup(segs)
			if !settled {
				continue
			}
			forms := []string{pointer(segs)}
			if d, ok := dotted(segs); ok && len(segs) > 0 {
				forms = append(forms, d)
				c.Class(true, "dotted path")
			}
			c.Class(want == nil, "leads nowhere")
			for _, p := range forms {
				if want == nil && p == "" {
					continue
				}
				got, err := tson.GetValue(t, p)
				if want == nil {
					if err == nil {
						v, _ := fromTson(got)
						return fmt.Errorf("GetValue(%q) returned %s instead of an error", p, brief(v))
					}
					continue
				}
				if err != nil {
					return fmt.Errorf("GetValue(%q): %v", p, err)
				}
				if err := wantDoc(fmt.Sprintf("GetValue(%q)", p), got, want, false); err != nil {
					return err
				}
			}
		}
		return wantDoc("the document after lookups", t, k.Doc, false)
	})

	add("C07", "latest", 6000, "a document and its latest timestamp (0 if a container holds none); non-trivial = at least 3 nodes", func(rt *rapid.T) docCase {
		return docCase{genDoc(rt, docOpts{})}
	}, func(c *Ctx, k docCase) error {
		docClasses(c, k.Doc)
		c.NonTrivial(k.Doc.size() >= 3)
		if k.Doc.K == "z" {
			return nil
		}
		want := int64(0)
		if k.Doc.leaf() {
			want = k.Doc.T
		}
		k.Doc.walk(nil, func(_ []string, v *V) {
			if v.leaf() {
				want = max(want, v.T)
			}
		})
		if got := tson.GetLatestTimestamp(k.Doc.Tson()); got != want {
			return fmt.Errorf("GetLatestTimestamp is %d, want %d", got, want)
		}
		return nil
	})
}

type compatCase struct {
	Text    string `json:"text"`
	Invalid bool   `json:"invalid,omitempty"`
}

type pairCase struct {
	A     *V       `json:"a"`
	B     *V       `json:"b"`
	Kinds []string `json:"kinds,omitempty"`
}

type lookupCase struct {
	Doc   *V         `json:"doc"`
	Extra [][]string `json:"extra,omitempty"`
}

// lookup steps through the document. It is unsettled whether segments
// such as "01" or "+1" are array indexes.
func (v *V) lookup(segs []string) (found *V, settled bool) {
	for _, s := range segs {
		switch v.K {
		case "o":
			v = v.get(s)
		case "a":
			if !isIndex(s) {
				i, err := strconv.Atoi(s)
				return nil, err != nil || i < 0
			}
			i, _ := strconv.Atoi(s)
			if i >= len(v.A) {
				return nil, true
			}
			v = v.A[i]
		default:
			return nil, true
		}
		if v == nil {
			return nil, true
		}
	}
	return v, true
}

func replaceAt(x any, segs []string, val any) any {
	if len(segs) == 0 {
		return val
	}
	switch x := x.(type) {
	case map[string]any:
		x[segs[0]] = replaceAt(x[segs[0]], segs[1:], val)
	case []any:
		i, _ := strconv.Atoi(segs[0])
		x[i] = replaceAt(x[i], segs[1:], val)
	}
	return x
}

// compatMatches tells whether the document holds exactly the decoded compatible
// JSON. It is not known for timestamps which are no 64-bit integers.
func compatMatches(x any, v *V) (ok, known bool) {
	switch x := x.(type) {
	case nil:
		return v.K == "z", true
	case []any:
		if v.K != "a" || len(v.A) != len(x) {
			return false, true
		}
		for i := range x {
			if ok, known := compatMatches(x[i], v.A[i]); !ok || !known {
				return ok, known
			}
		}
		return true, true
	case map[string]any:
		if ts, isNum := x["timestamp"].(json.Number); isNum && len(x) == 2 {
			val, has := x["value"]
			if !has {
				return false, true
			}
			t, err := strconv.ParseInt(string(ts), 10, 64)
			if err != nil {
				return false, false
			}
			switch val := val.(type) {
			case nil:
				return v.K == "z", true
			case string:
				return same(v, vStr(val, t), false), true
			case bool:
				return same(v, vBool(val, t), false), true
			case json.Number:
				f, err := val.Float64()
				return same(v, vNum(f, t), false), err == nil
			}
			return false, true
		}
		if v.K != "o" || len(v.O) != len(x) {
			return false, true
		}
		for _, m := range v.O {
			e, has := x[m.Key]
			if !has {
				return false, true
			}
			if ok, known := compatMatches(e, m.Val); !ok || !known {
				return ok, known
			}
		}
		return true, true
	}
	return false, true
}

func editBytes(rt *rapid.T, b []byte) []byte {
	for n := rapid.IntRange(1, 3).Draw(rt, "edits"); n > 0 && len(b) > 0; n-- {
		i := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
		switch rapid.IntRange(0, 3).Draw(rt, "edit") {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b = append(b[:i:i], append([]byte(pick(rt, "tok", "null", "1", `"a"`, "{}", "[]", "true", ",", ":", "x")), b[i:]...)...)
		case 2:
			b = b[:i:i]
		default:
			b = append(b[:i:i], append([]byte{rapid.SampledFrom([]byte("{}[],:\"\\0123456789-.eE+tfnu \n/")).Draw(rt, "byte")}, b[i:]...)...)
		}
	}
	return b
}

// nearNumber draws a finite number close to f, often another one.
func nearNumber(rt *rapid.T, f float64) float64 {
	n := pick(rt, "near", f+1, math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1)), f+1e-9, f+0.004, f*(1+1e-10), -f, math.Round(f), float64(float32(f)))
	if math.IsNaN(n) || math.IsInf(n, 0) {
		return f
	}
	return n
}

// nearString draws a string which is much like s, often another one.
func nearString(rt *rapid.T, s string) string {
	switch pick(rt, "near", 0, 0, 1, 2, 3, 4) {
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.TrimSpace(s)
	case 3:
		return " " + s
	case 4:
		return strings.ReplaceAll(s, "\u00e9", "e\u0301")
	}
	return s + pick(rt, "suffix", "x", " ", "\x00", "\u00e9")
}

// genEdited draws a variation of a document: n random edits of random nodes.
func genEdited(rt *rapid.T, doc *V, n int, o docOpts) (*V, []string) {
	o = o.fill()
	doc = doc.clone()
	var kinds []string
	for ; n > 0; n-- {
		all := paths(doc)
		segs := all[rapid.IntRange(0, len(all)-1).Draw(rt, "node")]
		node := doc.at(segs)
		kind := ""
		switch node.K {
		case "o":
			switch pick(rt, "edit", 0, 1, 2, 3, 4) {
			case 0:
				key := o.key(rt)
				if node.get(key) == nil {
					kind = "add"
				} else {
					kind = "overwrite"
				}
				node.put(key, genLeaf(rt, o))
			case 1, 2:
				if len(node.O) > 0 {
					i := rapid.IntRange(0, len(node.O)-1).Draw(rt, "member")
					kind = "remove " + map[bool]string{true: "container", false: "leaf"}[node.O[i].Val.container()]
					node.drop(node.O[i].Key)
				}
			case 3:
				if len(node.O) > 0 {
					i := rapid.IntRange(0, len(node.O)-1).Draw(rt, "member")
					val := node.O[i].Val
					key := o.key(rt)
					if node.get(key) == nil {
						kind = "rename"
						node.drop(node.O[i].Key)
						node.put(key, val)
					}
				}
			default:
				kind = "retype"
				*node = *genLeaf(rt, o)
			}
		case "a":
			switch pick(rt, "edit", 0, 1, 2, 3, 4) {
			case 0:
				kind = "grow"
				for m := rapid.IntRange(1, 3).Draw(rt, "by"); m > 0; m-- {
					node.A = append(node.A, genLeaf(rt, o))
				}
			case 1, 2:
				if len(node.A) > 0 {
					kind = "shrink"
					node.A = node.A[:rapid.IntRange(0, len(node.A)-1).Draw(rt, "to")]
				}
			case 3:
				if len(node.A) > 0 {
					kind = "element gone"
					i := rapid.IntRange(0, len(node.A)-1).Draw(rt, "element")
					node.A = append(node.A[:i:i], node.A[i+1:]...)
				}
			default:
				kind = "retype"
				*node = *genLeaf(rt, o)
			}
		case "z":
			kind = "null to leaf"
			*node = *genLeaf(rt, o)
		default:
			switch pick(rt, "edit", 0, 1, 2, 3, 4) {
			case 0, 1:
				kind = "timestamp"
				node.T = pick(rt, "ts", node.T^1, o.time(rt))
				if node.T < -1 {
					node.T = -1
				}
			case 2:
				kind = "value"
				old := node.T
				text := ""
				switch node.K {
				case "n":
					text = strconv.FormatFloat(node.N, 'g', -1, 64)
				case "b":
					text = strconv.FormatBool(node.B)
				}
				if text != "" && chance(rt, 15) { // a string which reads the same
					*node = *vStr(text, old)
					break
				}
				*node = *genLeaf(rt, o)
				if rapid.Bool().Draw(rt, "same time") {
					node.T = old
				}
			case 3:
				kind = "near value"
				switch node.K {
				case "n":
					node.N = nearNumber(rt, node.N)
				case "s":
					node.S = nearString(rt, node.S)
				case "b":
					node.B = !node.B
				}
			default:
				kind = "to container or null"
				*node = *pick(rt, "to", vObj(), vArr(), vNull(), vObj(KV{"a", vNum(1, 1)}), vArr(vNum(1, 1)))
			}
		}
		if kind != "" {
			kinds = append(kinds, strings.TrimSpace(kind))
		}
	}
	return doc, kinds
}
