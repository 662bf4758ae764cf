package zzverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/CAU-CPSS/logument/internal/tson"
	"pgregory.net/rapid"
)

// ---- C01: round trip of the writers

type c01Case struct {
	Doc    *V     `json:"doc"`
	Prefix string `json:"prefix,omitempty"`
	Indent string `json:"indent,omitempty"`
	Style  int    `json:"style,omitempty"`
}

var blanks = []string{"", " ", "  ", "    ", "\t", "\t\t", " \t"}

func reread(what string, b []byte, want *V, ignoreTs bool) error {
	var t tson.Tson
	if err := tson.Unmarshal(b, &t); err != nil {
		return fmt.Errorf("%s: reading back %.400q: %v", what, b, err)
	}
	if err := wantDoc(what+": the document read back", t, want, ignoreTs); err != nil {
		return fmt.Errorf("%v\ntext: %.600q", err, b)
	}
	return nil
}

// compatAny is the value/timestamp-style JSON data of a document.
func (v *V) compatAny(style int) any {
	switch v.K {
	case "o":
		m := map[string]any{}
		for _, e := range v.O {
			m[e.Key] = e.Val.compatAny(style)
		}
		return m
	case "a":
		a := []any{}
		for _, e := range v.A {
			a = append(a, e.compatAny(style))
		}
		return a
	case "z":
		if style == 3 {
			return map[string]any{"value": nil, "timestamp": int64(7)}
		}
		return nil
	}
	var ts any = v.T
	switch {
	case style == 1 && int64(float64(v.T)) == v.T && v.T < 1<<53:
		ts = float64(v.T)
	case style == 2:
		ts = int(v.T)
	}
	var val = v.anyJSON()
	if n, ok := val.(float64); ok && style == 2 && n == float64(int(n)) && n < 1<<53 && n > -(1<<53) {
		val = int(n)
	}
	return map[string]any{"value": val, "timestamp": ts}
}

func init() {
	rule := "a document drawn from the grammar of TSON values (depth<=4, awkward strings/keys, any finite number, timestamps up to 2^63-1); non-trivial = at least 3 nodes"
	gen := func(rt *rapid.T) c01Case {
		return c01Case{Doc: genDoc(rt, docOpts{}), Prefix: pick(rt, "prefix", blanks...), Indent: pick(rt, "indent", blanks...), Style: rapid.IntRange(0, 3).Draw(rt, "style")}
	}
	add("C01", "compact", 12000, rule, gen, func(c *Ctx, k c01Case) error {
		docClasses(c, k.Doc)
		c.NonTrivial(k.Doc.size() >= 3)
		t := k.Doc.Tson()
		b, err := tson.Marshal(t)
		if err != nil {
			return fmt.Errorf("Marshal: %v", err)
		}
		if err := reread("compact", b, k.Doc, false); err != nil {
			return err
		}
		return wantDoc("the document after writing it", t, k.Doc, false)
	})
	add("C01", "indented", 12000, rule+"; any whitespace prefix and indent", gen, func(c *Ctx, k c01Case) error {
		docClasses(c, k.Doc)
		c.NonTrivial(k.Doc.size() >= 3)
		t := k.Doc.Tson()
		b, err := tson.MarshalIndent(t, k.Prefix, k.Indent)
		if err != nil {
			return fmt.Errorf("MarshalIndent: %v", err)
		}
		if err := reread("indented", b, k.Doc, false); err != nil {
			return err
		}
		return wantDoc("the document after writing it", t, k.Doc, false)
	})
	add("C01", "compatible-data", 8000, rule+"; handed to the indented writer as maps of value and timestamp (int64, float64 or int)", gen, func(c *Ctx, k c01Case) error {
		docClasses(c, k.Doc)
		c.NonTrivial(k.Doc.size() >= 3)
		if k.Doc.K == "z" {
			k.Style = 0 // a lone null has no timestamp
		}
		data := k.Doc.compatAny(k.Style)
		b, err := tson.MarshalIndent(data, k.Prefix, k.Indent)
		if err != nil {
			return fmt.Errorf("MarshalIndent: %v", err)
		}
		if !reflect.DeepEqual(data, k.Doc.compatAny(k.Style)) {
			return fmt.Errorf("MarshalIndent modified its input")
		}
		return reread("indented compatible data", b, k.Doc, false)
	})
	add("C01", "plain-data", 8000, rule+"; handed to the indented writer as plain JSON data (no key \"timestamp\", which would make an object look like a leaf)", func(rt *rapid.T) c01Case {
		k := c01Case{Prefix: pick(rt, "prefix", blanks...), Indent: pick(rt, "indent", blanks...)}
		k.Doc = genDoc(rt, docOpts{time: func(*rapid.T) int64 { return -1 }, key: func(rt *rapid.T) string {
			if s := genKey(rt); s != "timestamp" {
				return s
			}
			return "time"
		}})
		return k
	}, func(c *Ctx, k c01Case) error {
		docClasses(c, k.Doc)
		c.NonTrivial(k.Doc.size() >= 3)
		b, err := tson.MarshalIndent(k.Doc.anyJSON(), k.Prefix, k.Indent)
		if err != nil {
			return fmt.Errorf("MarshalIndent: %v", err)
		}
		return reread("indented plain data", b, k.Doc, false)
	})
}

// ---- C02: meaning of texts

// A renderer writes a document as TSON tokens with random notation.
type renderer struct {
	rt   *rapid.T
	toks []string
	bad  map[*V]string // leaves written as something else
}

func (r *renderer) ws() {
	if chance(r.rt, 30) {
		r.toks = append(r.toks, rapid.StringMatching("[ \\t\\n\\r]{1,3}").Draw(r.rt, "ws"))
	}
}

func (r *renderer) tok(s string) {
	r.ws()
	r.toks = append(r.toks, s)
}

func (r *renderer) str(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	plain := chance(r.rt, 50)
	for _, c := range s {
		mode := 0
		if !plain {
			mode = rapid.IntRange(0, 2).Draw(r.rt, "esc")
		}
		short := map[rune]string{'"': `\"`, '\\': `\\`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '/': `\/`}[c]
		switch {
		case mode == 2:
			b.WriteString(r.unicode(c))
		case short != "" && (mode == 1 || c != '/'):
			b.WriteString(short)
		case c < 0x20:
			b.WriteString(r.unicode(c))
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (r *renderer) unicode(c rune) string {
	f := "\\u%04x"
	if rapid.Bool().Draw(r.rt, "hex") {
		f = "\\u%04X"
	}
	if c > 0xffff {
		hi, lo := utf16.EncodeRune(c)
		return fmt.Sprintf(f+f, hi, lo)
	}
	return fmt.Sprintf(f, c)
}

func (r *renderer) number(n float64) string {
	switch rapid.IntRange(0, 5).Draw(r.rt, "numfmt") {
	case 0:
		if n < 1e25 && n > -1e25 {
			return strconv.FormatFloat(n, 'f', -1, 64)
		}
	case 1:
		return strconv.FormatFloat(n, 'e', -1, 64)
	case 2:
		return strconv.FormatFloat(n, 'E', -1, 64)
	case 3: // without the sign or leading zeros of the exponent
		s := strconv.FormatFloat(n, 'e', -1, 64)
		s = strings.Replace(s, "e+", "e", 1)
		return strings.Replace(s, "e0", "e", 1)
	case 4: // trailing zeros
		s := strconv.FormatFloat(n, 'e', -1, 64)
		m, e, _ := strings.Cut(s, "e")
		if !strings.Contains(m, ".") {
			m += "."
		}
		return m + "00e" + e
	}
	return strconv.FormatFloat(n, 'g', -1, 64)
}

func (r *renderer) stamp(t int64) string {
	if t < 0 {
		return "<>"
	}
	return fmt.Sprintf("<%d>", t)
}

// value writes v; before and after tell where a timestamp may be written.
// The caller has written it already if done.
func (r *renderer) value(v *V, before, done bool) {
	switch v.K {
	case "z":
		r.tok("null")
	case "o":
		r.tok("{")
		for i, m := range v.O {
			if i > 0 {
				r.tok(",")
			}
			r.tok(r.str(m.Key))
			keyed := false
			if m.Val.leaf() && rapid.Bool().Draw(r.rt, "keyts") {
				r.tok(r.stamp(m.Val.T))
				keyed = true
			} else if !m.Val.leaf() && chance(r.rt, 10) { // allowed by the grammar, and without meaning
				r.tok(r.stamp(genTime(r.rt)))
			}
			r.tok(":")
			r.value(m.Val, false, keyed)
		}
		r.tok("}")
	case "a":
		r.tok("[")
		for i, e := range v.A {
			if i > 0 {
				r.tok(",")
			}
			r.value(e, true, false)
		}
		r.tok("]")
	default:
		if done {
			r.prim(v)
			return
		}
		// 0: after the value, 1: before it (arrays), 2: left out
		where := rapid.IntRange(0, 2).Draw(r.rt, "ts")
		if where == 1 && !before || where == 2 && v.T >= 0 {
			where = 0
		}
		if where == 1 {
			r.tok(r.stamp(v.T))
		}
		r.prim(v)
		if where == 0 {
			r.tok(r.stamp(v.T))
		}
	}
}

func (r *renderer) prim(v *V) {
	if s, ok := r.bad[v]; ok {
		r.tok(s)
		return
	}
	switch v.K {
	case "s":
		r.tok(r.str(v.S))
	case "n":
		r.tok(r.number(v.N))
	case "b":
		r.tok(strconv.FormatBool(v.B))
	}
}

type textCase struct {
	Doc  *V     `json:"doc,omitempty"`
	Text string `json:"text"`
	Why  string `json:"why,omitempty"`
}

func init() {
	add("C02", "grammar", 25000, "a document and a random text of it (whitespace, escapes, number notation, timestamp position); non-trivial = at least 3 nodes", func(rt *rapid.T) textCase {
		doc := genDoc(rt, docOpts{})
		r := &renderer{rt: rt}
		r.value(doc, false, false)
		r.ws()
		return textCase{Doc: doc, Text: strings.Join(r.toks, "")}
	}, func(c *Ctx, k textCase) error {
		docClasses(c, k.Doc)
		c.Class(strings.Contains(k.Text, "\\u"), "unicode escape")
		c.Class(strings.Contains(k.Text, "<>"), "empty timestamp")
		c.NonTrivial(k.Doc.size() >= 3)
		var t tson.Tson
		if err := tson.Unmarshal(clip(k.Text), &t); err != nil {
			return fmt.Errorf("valid text %.600q rejected: %v", k.Text, err)
		}
		return wantDoc(fmt.Sprintf("the document of %.600q", k.Text), t, k.Doc, false)
	})

	// Plain JSON is TSON without timestamps; encoding/json is an independent reader.
	add("C02", "json-subset", 10000, "JSON text written by encoding/json (compact or indented); non-trivial = at least 3 nodes", func(rt *rapid.T) textCase {
		doc := genDoc(rt, docOpts{time: func(*rapid.T) int64 { return -1 }})
		var b []byte
		var err error
		if rapid.Bool().Draw(rt, "indent") {
			b, err = json.MarshalIndent(doc.anyJSON(), "", "  ")
		} else {
			b, err = json.Marshal(doc.anyJSON())
		}
		must(err)
		return textCase{Doc: doc, Text: string(b)}
	}, func(c *Ctx, k textCase) error {
		docClasses(c, k.Doc)
		c.NonTrivial(k.Doc.size() >= 3)
		var t tson.Tson
		if err := tson.Unmarshal(clip(k.Text), &t); err != nil {
			return fmt.Errorf("JSON text %.600q rejected: %v", k.Text, err)
		}
		return wantDoc(fmt.Sprintf("the document of %.600q", k.Text), t, k.Doc, false)
	})
}

func init() {
	// Halves of surrogate pairs stand for no character. As JSON readers do, the text around them must survive.
	add("C02", "surrogates", 6000, "a string with \\u escapes, among them single and reversed halves of surrogate pairs, which encoding/json reads as U+FFFD; non-trivial = with such a half", func(rt *rapid.T) textCase {
		var b strings.Builder
		for n := rapid.IntRange(1, 6).Draw(rt, "parts"); n > 0; n-- {
			b.WriteString(pick(rt, "part", `\ud800`, `\uD83D`, `\udbff`, `\udc00`, `\ude00`, `\uDFFF`, `\u0041`, `\uac00`, `\n`, `\"`, `\\`, "a", "abcd", "dc00", "u", `\\udc00`, "\u00e9"))
		}
		return textCase{Text: `"` + b.String() + `"`}
	}, func(c *Ctx, k textCase) error {
		var want string
		must(json.Unmarshal([]byte(k.Text), &want))
		c.NonTrivial(strings.ContainsRune(want, utf8.RuneError))
		for _, text := range []string{k.Text, `[` + k.Text + `]`, `{` + k.Text + `: 1}`} {
			var t tson.Tson
			if err := tson.Unmarshal(clip(text), &t); err != nil {
				return fmt.Errorf("valid text %q rejected: %v", text, err)
			}
			doc := vStr(want, -1)
			switch text[0] {
			case '[':
				doc = vArr(doc)
			case '{':
				doc = vObj(KV{want, vNum(1, -1)})
			}
			if err := wantDoc(fmt.Sprintf("the document of %q", text), t, doc, false); err != nil {
				return err
			}
		}
		return nil
	})
}

// ---- C03: malformed input

var badTokens = []string{`"\x"`, `"\u12"`, `"\uZZZZ"`, `"\u12`, `"abc`, `"\`, `"a\"`, `-`, `--1`, `1.2.3`, `1e`, `1e+`, `+1`, `.5`, `0x10`, `1e999`, `-1e999`, `NaN`, `Infinity`,
	`tru`, `fals`, `nul`, `True`, `undefined`, `nil`, `'a'`, `abc`, `1 <abc>`, `1 <-5>`, `1 <1.5>`, `1 <`, `1 <5`, `1 <99999999999999999999>`, `1 <1 2>`, `1 <1>>`, `1 <<1>`, `"a" <1`,
	`true <x>`, `1 >`, `1 2`, `"a" "b"`, `{"a"}`, `{"a":}`, `{"a" 1}`, `{:1}`, `{a:1}`, `{1:1}`, `{"a":1,}`, `{,}`, `[1,]`, `[,]`, `[1 2]`, `[1;2]`, `{"a":1;"b":2}`, `{"a":1 "b":2}`, `{"a"=1}`, `[<1>]`, `[<1>,2]`,
	`{"a" <1>}`, `{"a" <1> 1}`, `{"a" <x>: 1}`, `[<x> 1]`, `(1)`, `1,2`, `]`, `}`, `[}`, `{]`, `/*c*/ 1`, `1 //c`, ``, ` `, `\u0031`, `"\u00g0"`, `"\u-123"`, `"\u+123"`, `nullnull`, `truefalse`, `<`, `<>`, `<5>`}

func init() {
	add("C03", "corrupted", 30000, "a valid text with one corruption: truncated, trailing data, a structural token dropped/doubled/exchanged, a byte which is no token put in, or a leaf replaced by an invalid one; always non-trivial", func(rt *rapid.T) textCase {
		// The document is a container, so that every proper prefix is incomplete
		doc := genObject(rt, docOpts{depth: 3}.fill())
		if rapid.Bool().Draw(rt, "array") {
			doc = genArray(rt, docOpts{depth: 3}.fill())
		}
		r := &renderer{rt: rt, bad: map[*V]string{}}
		kind := rapid.IntRange(0, 5).Draw(rt, "corruption")
		if kind == 4 {
			var leaves []*V
			doc.walk(nil, func(_ []string, v *V) {
				if v.leaf() {
					leaves = append(leaves, v)
				}
			})
			bad := pick(rt, "bad", badTokens...)
			if chance(rt, 15) { // an escape which JSON does not have (\' is taken by this reader)
				var esc []byte
				for c := byte(0); c < 0x80; c++ {
					if !strings.ContainsRune("\"\\/'bfnrtu", rune(c)) {
						esc = append(esc, c)
					}
				}
				bad = pick(rt, "before", `"`, `"a`, `"\\`) + `\` + string(pick(rt, "escape", esc...)) + pick(rt, "after", `"`, `0"`, `0041"`)
			}
			if len(leaves) == 0 || strings.TrimSpace(bad) == "" || bad == "<>" || bad == "<5>" || bad == "1,2" {
				// an empty document, or a stray timestamp: alone at the top
				return textCase{Text: pick(rt, "lone", badTokens...), Why: "invalid token alone"}
			}
			v := pick(rt, "victim", leaves...)
			v.T = -1
			r.bad[v] = bad
			r.value(doc, false, false)
			// The rendering may put a timestamp next to the bad token; all of them stay invalid
			return textCase{Text: strings.Join(r.toks, ""), Why: "invalid leaf " + bad}
		}
		r.value(doc, false, false)
		var structural []int
		for i, t := range r.toks {
			if len(t) == 1 && strings.Contains("{}[],:", t) {
				structural = append(structural, i)
			}
		}
		text := strings.Join(r.toks, "")
		switch kind {
		case 0:
			first := strings.IndexAny(text, "{[")
			return textCase{Text: text[:rapid.IntRange(first+1, len(text)-1).Draw(rt, "cut")], Why: "truncated"}
		case 1:
			return textCase{Text: text + pick(rt, "sep", "", " ", "\n") + pick(rt, "trail", "x", "}", "]", ",", "1", `"a"`, "{}", "[]", "null", "true", "<1>", "<>", "-", ":", "\x00", "\\", "//"), Why: "trailing data"}
		case 2:
			i := pick(rt, "which", structural...)
			toks := append([]string{}, r.toks...)
			if rapid.Bool().Draw(rt, "double") {
				toks[i] += toks[i]
				return textCase{Text: strings.Join(toks, ""), Why: "doubled token"}
			}
			toks[i] = " "
			return textCase{Text: strings.Join(toks, ""), Why: "dropped token"}
		case 5:
			// A byte which may only be in strings, in front of or inside of a token, or for its last byte
			i := rapid.IntRange(0, len(r.toks)-1).Draw(rt, "which")
			toks := append([]string{}, r.toks...)
			odd := pick(rt, "odd", "\x00", "\x00", ";", "'", "`", "(", "\x01", "\x7f", "=", "@", "\x0e", "\xff", "\f", "\v", "\b", "\u00a0", "\u2028", "\ufeff")
			t := toks[i]
			switch quoted := strings.HasPrefix(t, `"`); {
			case t == "" || rapid.Bool().Draw(rt, "in front"):
				toks[i] = odd + t
			case !quoted && rapid.Bool().Draw(rt, "inside"):
				n := rapid.IntRange(0, len(t)).Draw(rt, "at")
				toks[i] = t[:n] + odd + t[n:]
			case quoted && strings.Contains(text, `\`):
				// Whether the rest is read differently depends on the escapes
				toks[i] = odd + t
			default:
				toks[i] = t[:len(t)-1] + odd
			}
			return textCase{Text: strings.Join(toks, ""), Why: "odd byte"}
		default:
			i := pick(rt, "which", structural...)
			toks := append([]string{}, r.toks...)
			toks[i] = map[string]string{"{": "[", "[": "{", "}": "]", "]": "}", ",": ":", ":": ","}[toks[i]]
			return textCase{Text: strings.Join(toks, ""), Why: "exchanged token"}
		}
	}, func(c *Ctx, k textCase) error {
		c.Class(true, strings.SplitN(k.Why, " ", 2)[0])
		c.NonTrivial(true)
		return mustReject(k.Text, k.Why)
	})

	add("C03", "arbitrary", 40000, "arbitrary bytes, token soup, or valid text with random byte edits; accepted UTF-8 text must survive a rewrite; non-trivial = longer than 3 bytes", func(rt *rapid.T) bytesCase {
		switch rapid.IntRange(0, 2).Draw(rt, "kind") {
		case 0:
			return bytesCase{rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(rt, "bytes")}
		case 1:
			var b strings.Builder
			for n := rapid.IntRange(0, 14).Draw(rt, "n"); n > 0; n-- {
				b.WriteString(pick(rt, "tok", "{", "}", "[", "]", ",", ":", `"a"`, `"b"`, "<", ">", "<1>", "<>", "1", "-1", "0.5", "1e5", "true", "false", "null", " ", "\n", `"`, "\\", `"\u0041"`, "-", "\x00", "\xff", "\xc3"))
			}
			return bytesCase{[]byte(b.String())}
		default:
			r := &renderer{rt: rt}
			r.value(genDoc(rt, docOpts{depth: 2}), false, false)
			b := []byte(strings.Join(r.toks, ""))
			for n := rapid.IntRange(1, 3).Draw(rt, "edits"); n > 0 && len(b) > 0; n-- {
				i := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
				switch rapid.IntRange(0, 2).Draw(rt, "edit") {
				case 0:
					b = append(b[:i:i], b[i+1:]...)
				case 1:
					b[i] = rapid.Byte().Draw(rt, "byte")
				default:
					b = append(b[:i:i], append([]byte{rapid.SampledFrom([]byte("{}[],:\"<>\\0123456789-.eE+tfnu \n/")).Draw(rt, "byte")}, b[i:]...)...)
				}
			}
			return bytesCase{b}
		}
	}, checkArbitrary)

	add("C03", "deep", 12, "nesting from 1 to 4 million levels of arrays/objects, closed or not; up to 500 closed levels must be accepted with that depth; always non-trivial", func(rt *rapid.T) deepCase {
		return deepCase{
			Depth: pick(rt, "depth", 1, 10, 100, 500, 5000, 50000, 1000000, 4000000),
			Unit:  pick(rt, "unit", "[", `{"a":`, `{"a": [`, "[ ", "[\n\t", `{"\u0041" :`),
			Leaf:  pick(rt, "leaf", "", "1", "1 <5>", "null", `"x"`),
			Close: rapid.Bool().Draw(rt, "close"),
		}
	}, func(c *Ctx, k deepCase) error {
		c.NonTrivial(true)
		c.Class(k.Depth >= 1000000, "depth>=10^6")
		c.Class(k.Close, "closed")
		text := strings.Repeat(k.Unit, k.Depth) + k.Leaf
		if k.Close {
			var cl []byte
			for i := len(k.Unit) - 1; i >= 0; i-- {
				switch k.Unit[i] {
				case '[':
					cl = append(cl, ']')
				case '{':
					cl = append(cl, '}')
				}
			}
			text += strings.Repeat(string(cl), k.Depth)
		}
		var t tson.Tson
		err := tson.Unmarshal(clip(text), &t)
		valid := k.Close && (k.Leaf != "" || strings.HasSuffix(strings.TrimSpace(k.Unit), "["))
		if !valid {
			if err == nil {
				return fmt.Errorf("incomplete nesting (%d times %q) accepted", k.Depth, k.Unit)
			}
			return nil
		}
		if err != nil {
			if k.Depth <= 500 {
				return fmt.Errorf("%d nested levels of %q rejected: %v", k.Depth, k.Unit, err)
			}
			return nil
		}
		want := k.Depth * (strings.Count(k.Unit, "[") + strings.Count(k.Unit, "{"))
		got := 0
		for v := t; ; got++ {
			if o, ok := v.(tson.Object); ok && len(o) == 1 {
				for _, v = range o {
				}
				continue
			}
			if a, ok := v.(tson.Array); ok && len(a) == 1 {
				v = a[0]
				continue
			}
			if a, ok := v.(tson.Array); ok && len(a) == 0 {
				got++
			}
			break
		}
		if got != want {
			return fmt.Errorf("%d levels of %q were read as %d levels", k.Depth, k.Unit, got)
		}
		return nil
	})
}

// clip holds the text without spare capacity, so that reading past its end is noticed.
func clip(text string) []byte {
	b := make([]byte, len(text))
	copy(b, text)
	return b[:len(b):len(b)]
}

type deepCase struct {
	Depth int    `json:"depth"`
	Unit  string `json:"unit"`
	Leaf  string `json:"leaf"`
	Close bool   `json:"close"`
}

type bytesCase struct {
	Bytes []byte `json:"bytes"`
}

func mustReject(text, why string) error {
	var t tson.Tson
	if err := tson.Unmarshal(clip(text), &t); err == nil {
		v, _ := fromTson(t)
		return fmt.Errorf("malformed text (%s) %.600q accepted as %s", why, text, brief(v))
	}
	return nil
}

func checkArbitrary(c *Ctx, k bytesCase) error {
	c.NonTrivial(len(k.Bytes) > 3)
	in := append([]byte{}, k.Bytes...)
	var t tson.Tson
	err := tson.Unmarshal(slices.Clip(k.Bytes), &t)
	if !bytes.Equal(in, k.Bytes) {
		return fmt.Errorf("reading %q modified the bytes", in)
	}
	c.Class(err == nil, "accepted")
	c.Class(err != nil, "rejected")
	if err != nil || !utf8.Valid(k.Bytes) {
		return nil
	}
	doc, err := fromTson(t)
	if err != nil {
		return err
	}
	for _, indent := range []bool{false, true} {
		var b []byte
		if indent {
			b, err = tson.MarshalIndent(t, "", "  ")
		} else {
			b, err = tson.Marshal(t)
		}
		if err != nil {
			return fmt.Errorf("text %q was accepted but cannot be written: %v", k.Bytes, err)
		}
		if err := reread(fmt.Sprintf("accepted text %q", k.Bytes), b, doc, false); err != nil {
			return err
		}
	}
	return nil
}
