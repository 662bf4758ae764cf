package zzverif

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Large documents: limits which hold for each branch of a document (nesting)
// must not be taken for limits of the whole, and buffers must grow.

type largeEdit struct {
	At   int `json:"at"` // leaf, in units of 1/10000 of all leaves
	Kind int `json:"kind"`
}

type largeCase struct {
	Shape string      `json:"shape"`
	N     int         `json:"n"`
	Edits []largeEdit `json:"edits,omitempty"`
	Style int         `json:"style"`
}

func largeLeaf(i int) *V {
	switch i % 4 {
	case 0:
		return vNum(float64(i)*0.5, int64(i))
	case 1:
		return vStr("s"+strconv.Itoa(i), -1)
	case 2:
		return vBool(i%3 == 0, 1700000000000+int64(i))
	}
	return vStr(awkward[i%len(awkward)], int64(i%7))
}

// sortedObj avoids the quadratic cost of put.
func sortedObj(n int, val func(i int) *V) *V {
	o := &V{K: "o"}
	for i := 0; i < n; i++ {
		o.O = append(o.O, KV{fmt.Sprintf("k%06d", i), val(i)})
	}
	return o
}

func (k largeCase) doc() *V {
	side := 1
	for side*side < k.N {
		side++
	}
	switch k.Shape {
	case "containers":
		a := vArr()
		for i := 0; i < k.N; i++ {
			switch i % 3 {
			case 0:
				a.A = append(a.A, vObj(KV{"a", largeLeaf(i)}))
			case 1:
				a.A = append(a.A, vArr(largeLeaf(i)))
			default:
				a.A = append(a.A, vArr(vArr(), vObj()))
			}
		}
		return vObj(KV{"list", a}, KV{"z", vNum(1, 5)})
	case "grid":
		return sortedObj(side, func(i int) *V {
			return sortedObj(side, func(j int) *V { return largeLeaf(i*side + j) })
		})
	case "wide":
		return sortedObj(k.N, largeLeaf)
	case "array":
		a := vArr()
		for i := 0; i < k.N; i++ {
			a.A = append(a.A, largeLeaf(i))
		}
		return a
	case "nulls":
		a := vArr()
		for i := 0; i < k.N; i++ {
			if i%4 == 0 {
				a.A = append(a.A, largeLeaf(i))
			} else {
				a.A = append(a.A, vNull())
			}
		}
		return vObj(KV{"list", a}, KV{"z", vNull()})
	case "string":
		// strings and a key of about this size, with every kind of character somewhere
		text := func(unit string) string {
			return strings.Repeat(unit, k.N/len(unit)+1)[:k.N/len(unit)*len(unit)] + awkward[k.N%len(awkward)]
		}
		return vObj(KV{"a", vStr(text("ab\"\\\n\u00e9\U0001F600 "), 7)}, KV{text("key"), vNum(1, 2)}, KV{"x", vStr(text("x"), 9)},
			KV{"y", vArr(vStr(text("<&> '\u2028"), 3), vStr(text("\u0001\x7f\b"), -1))})
	default: // "deep"
		v := largeLeaf(0)
		for i := 1; i < min(k.N, 400); i++ {
			if i%2 == 0 {
				v = vArr(largeLeaf(i), v)
			} else {
				v = vObj(KV{"d", v}, KV{"e", largeLeaf(i)})
			}
		}
		return v
	}
}

// edited changes single leaves of the document.
func (k largeCase) edited(doc *V) *V {
	out := doc.clone()
	for _, e := range k.Edits {
		var leaves [][]string
		out.walk(nil, func(segs []string, v *V) {
			if v.leaf() && len(segs) > 0 {
				leaves = append(leaves, append([]string{}, segs...))
			}
		})
		if len(leaves) == 0 {
			break
		}
		segs := leaves[min(len(leaves)-1, e.At*len(leaves)/10000)]
		v, parent := out.at(segs), out.at(segs[:len(segs)-1])
		switch e.Kind {
		case 0:
			*v = *vStr("changed"+strconv.Itoa(e.At), v.T)
		case 1:
			v.T += 3
		case 2:
			if parent.K == "o" {
				parent.drop(segs[len(segs)-1])
			} else {
				parent.A = parent.A[:len(parent.A)-1]
			}
		case 4: // up to 100 at once
			if parent.K == "o" {
				for n := min(len(parent.O), 1+e.At%100); n > 0; n-- {
					parent.drop(parent.O[len(parent.O)-1].Key)
				}
			} else {
				parent.A = parent.A[:len(parent.A)-min(len(parent.A), 1+e.At%100)]
			}
		case 5:
			for n := range 1 + e.At%100 {
				if parent.K == "o" {
					parent.put("more"+strconv.Itoa(n), vNum(float64(n), 4))
				} else {
					parent.A = append(parent.A, vNum(float64(n), 4))
				}
			}
		default:
			if parent.K == "o" {
				parent.put("new"+strconv.Itoa(e.At), vNum(float64(e.At), 4))
			} else {
				parent.A = append(parent.A, vNum(float64(e.At), 4))
			}
		}
	}
	return out
}

func jsonString(s string) string {
	b, err := json.Marshal(s)
	must(err)
	return string(b)
}

// plainText writes a document in a fixed notation.
func (v *V) plainText(b *strings.Builder, sp string) {
	switch v.K {
	case "o":
		b.WriteString("{" + sp)
		for i, m := range v.O {
			if i > 0 {
				b.WriteString("," + sp)
			}
			b.WriteString(jsonString(m.Key) + sp)
			if m.Val.leaf() && m.Val.T >= 0 {
				fmt.Fprintf(b, "<%d>%s", m.Val.T, sp)
			}
			b.WriteString(":" + sp)
			m.Val.plainBody(b, sp)
		}
		b.WriteString("}" + sp)
	case "a":
		b.WriteString("[" + sp)
		for i, e := range v.A {
			if i > 0 {
				b.WriteString("," + sp)
			}
			e.plainBody(b, sp)
			if e.leaf() && e.T >= 0 {
				fmt.Fprintf(b, "%s<%d>", sp, e.T)
			}
		}
		b.WriteString("]" + sp)
	default:
		v.plainBody(b, sp)
	}
}

func (v *V) plainBody(b *strings.Builder, sp string) {
	switch v.K {
	case "s":
		b.WriteString(jsonString(v.S))
	case "n":
		b.WriteString(strconv.FormatFloat(v.N, 'g', -1, 64))
	case "b":
		b.WriteString(strconv.FormatBool(v.B))
	case "z":
		b.WriteString("null")
	default:
		v.plainText(b, sp)
	}
}

func genLarge(rt *rapid.T) largeCase {
	return genSized(rt, 2, 100, 1023, 5000, 11000, 20000)
}

// genMedium draws sizes just beyond those of the other facets: counts, lengths
// and depths at which something else may happen.
func genMedium(rt *rapid.T) largeCase {
	return genSized(rt, 9, 17, 33, 48, 65, 101, 130, 260, 300, 600)
}

func genSized(rt *rapid.T, sizes ...int) largeCase {
	k := largeCase{
		Shape: even(rt, "shape", "wide", "containers", "grid", "array", "nulls", "string", "deep"),
		N:     even(rt, "n", sizes...),
		Style: rapid.IntRange(0, 6).Draw(rt, "style"),
	}
	for n := rapid.IntRange(1, 4).Draw(rt, "edits"); n > 0; n-- {
		at := rapid.IntRange(0, 9999)
		k.Edits = append(k.Edits, largeEdit{at.Draw(rt, "at"), even(rt, "kind", 0, 1, 2, 3, 4, 5)})
	}
	return k
}

// addLarge registers the oracle of another facet for large documents.
func addLarge[C any](prop, of string, n int, conv func(k largeCase) C) {
	check := func(c *Ctx, k largeCase) error {
		c.Class(true, k.Shape)
		check := oracles[prop+"/"+of].(func(*Ctx, C) error)
		inner := &Ctx{}
		defer inner.close()
		return check(inner, conv(k))
	}
	add(prop, of+"-large", n, "the same with documents of up to 30000 nodes: a wide object, many containers, a grid of objects, a long array, one of nulls, long strings and keys, 400 levels; non-trivial = at least 1000 nodes or characters, or 100 levels", genLarge, func(c *Ctx, k largeCase) error {
		c.NonTrivial(k.N >= 1000 || k.Shape == "deep" && k.N >= 100)
		return check(c, k)
	})
	add(prop, of+"-medium", n*10, "the same with documents of such shapes and 9 to 600 nodes, characters or levels; non-trivial = more than 16", genMedium, func(c *Ctx, k largeCase) error {
		c.NonTrivial(k.N > 16)
		return check(c, k)
	})
}

func init() {
	doc := func(k largeCase) docCase { return docCase{k.doc()} }
	pair := func(k largeCase) pairCase { d := k.doc(); return pairCase{A: d, B: k.edited(d)} }
	untimed := func(k largeCase) *V {
		d := k.doc()
		d.walk(nil, func(_ []string, v *V) {
			if v.leaf() {
				v.T = -1
			}
		})
		return d
	}
	c01 := func(k largeCase) c01Case {
		return c01Case{Doc: k.doc(), Prefix: blanks[k.Style], Indent: blanks[(k.Style+1)%len(blanks)], Style: k.Style % 4}
	}
	addLarge("C01", "compact", 12, c01)
	addLarge("C01", "indented", 12, c01)
	addLarge("C01", "compatible-data", 8, c01)
	addLarge("C01", "plain-data", 8, func(k largeCase) c01Case {
		c := c01(k)
		c.Doc = untimed(k)
		return c
	})
	addLarge("C02", "grammar", 25, func(k largeCase) textCase {
		var b strings.Builder
		d := k.doc()
		d.plainText(&b, blanks[k.Style])
		return textCase{Doc: d, Text: b.String()}
	})
	addLarge("C04", "from-json", 10, func(k largeCase) docCase { return docCase{untimed(k)} })
	addLarge("C04", "to-json", 10, doc)
	addLarge("C04", "array", 10, func(k largeCase) docCase {
		a := vArr()
		for i := 0; i < k.N; i++ {
			a.A = append(a.A, largeLeaf(i))
		}
		if len(k.Edits) == 4 {
			a.A = append(a.A, vArr())
		}
		return docCase{a}
	})
	addLarge("C05", "round-trip", 10, doc)
	addLarge("C06", "pairs", 15, pair)
	addLarge("C07", "lookup", 8, func(k largeCase) lookupCase { k.N = min(k.N, 5000); return lookupCase{Doc: k.doc()} })
	addLarge("C07", "latest", 15, doc)
	addLarge("C08", "generate-apply", 12, pair)
	addLarge("C09", "exact-changes", 12, pair)
	addLarge("C10", "sequence", 10, func(k largeCase) applyCase {
		d := k.doc()
		c := applyCase{Doc: d}
		all := paths(d)
		for i, e := range k.Edits {
			segs := append([]string{}, all[min(len(all)-1, e.At*len(all)/10000)]...)
			op := Op{Op: []string{"replace", "add", "remove", "replace"}[e.Kind%4], Path: pointer(segs), V: vNum(float64(i), 0), T: int64(e.At)}
			if op.Op == "remove" {
				op.V = nil
			}
			if len(segs) > 0 && e.Kind%4 == 1 && e.At%3 > 0 { // something new beside it
				last := len(segs) - 1
				if up := d.at(segs[:last]); up.K == "a" {
					segs[last] = strconv.Itoa(len(up.A) + k.Style*e.At%40)
				} else {
					segs[last] += "new"
				}
				op.Path = pointer(segs)
			}
			if len(segs) == 0 || ambiguous(d, segs) {
				continue
			}
			for n := 0; n <= k.Style%4*3; n++ { // some operations several times
				c.Ops = append(c.Ops, op)
			}
		}
		return c
	})
	addLarge("C11", "generate", 10, pair)
	addLarge("C11", "apply", 10, func(k largeCase) branchCase {
		d := k.doc()
		c := branchCase{Doc: d}
		all := paths(d)
		for i := range 4 {
			e := k.Edits[i%len(k.Edits)]
			segs := all[min(len(all)-1, (e.At+i)*len(all)/10000)]
			op := Op{Op: []string{"replace", "add", "remove", "replace"}[(e.Kind+i)%4], Path: pointer(segs), V: vNum(float64(100+i), 0), T: int64(e.At)}
			if op.Op == "remove" {
				op.V = nil
			}
			if len(segs) > 0 && !ambiguous(d, segs) {
				c.Steps = append(c.Steps, branchStep{From: i / 2, Ops: []Op{op}, Single: i%2 == 0})
			}
		}
		return c
	})
	addLarge("C12", "round-trip", 10, func(k largeCase) patchCase {
		var p patchCase
		for i := 0; i < k.N/4+1; i++ {
			o := Op{Op: []string{"add", "replace", "remove"}[i%3], Path: "/a/" + strconv.Itoa(i), T: int64(i)}
			if o.Op != "remove" || i%5 == 0 {
				o.V = largeLeaf(i)
				o.V.T = 0
			}
			p.Ops = append(p.Ops, o)
		}
		if k.Shape == "string" {
			p.Ops = nil
			k.doc().walk(nil, func(segs []string, v *V) {
				if v.leaf() {
					l := *v
					l.T = 0
					p.Ops = append(p.Ops, Op{Op: "replace", Path: pointer(segs), V: &l, T: v.T})
				}
			})
		}
		return p
	})
}
