package zzverif

import (
	"math"
	"strconv"
	"unicode/utf8"

	"pgregory.net/rapid"
)

func pick[T any](rt *rapid.T, label string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(rt, label)]
}

// chance is true in about pct percent of the cases; it shrinks to false.
func chance(rt *rapid.T, pct int) bool {
	return rapid.IntRange(0, 99).Draw(rt, "chance") >= 100-pct
}

// odds is true with the given percentage; chance prefers false (numbers drawn
// from a range tend to be small).
func odds(rt *rapid.T, pct int) bool {
	n := 0
	for range 7 {
		n *= 2
		if rapid.Bool().Draw(rt, "odds") {
			n++
		}
	}
	return n >= 128-128*pct/100
}

// even picks one of xs, each as often as the others.
func even[T any](rt *rapid.T, label string, xs ...T) T {
	n := 0
	for range 10 {
		n *= 2
		if rapid.Bool().Draw(rt, label) {
			n++
		}
	}
	return xs[n*len(xs)/1024]
}

var awkward = []string{"", " ", "~", "~0", "~1", "~01", "/", "a/b", "a~b", ".", "a.b", "0", "1", "12", "-1", "-", "00", "value", "timestamp",
	"<1>", "<>", "\"", "\\", "\\\"", "\\n", "\n", "\t\r", "\u0000", "\u0001\u001f", "\b\f", "\u007f", "\u0080", "\u00e9", "\u2028\u2029", "\ufeff", "\uffff", "\U0001F600",
	"\uac00\ub098", "a b", "&<>'", "{", "}", "[]", ",", ":", "null", "true", "1e5", "\\u0041", "\\", "'", "\ufffd", "path", "op",
	"null,", "[],", "},", ": ", "\": \"", "<1>,", "<1> ", "  ", "\r\n", "1e+06", "<nil>", "%s", "%d%%", "&lt;", "\\u003c", "\\/", "{\"value\":1,\"timestamp\":2}", "//", "#", "null<1>", "NaN"}

func genString(rt *rapid.T) string {
	switch rapid.IntRange(0, 3).Draw(rt, "strkind") {
	case 0:
		return rapid.StringMatching("[a-z]{0,4}").Draw(rt, "str")
	case 1:
		return pick(rt, "awk", awkward...)
	case 2:
		s := rapid.StringN(0, 12, -1).Draw(rt, "uni")
		if !utf8.ValidString(s) {
			return "?"
		}
		return s
	default:
		return pick(rt, "awk", awkward...) + rapid.StringMatching("[a-c~/<\\\\\"\\n]{0,3}").Draw(rt, "str") + pick(rt, "awk2", awkward...)
	}
}

func genKey(rt *rapid.T) string {
	if chance(rt, 70) {
		return pick(rt, "key", "a", "b", "c", "d", "e", "value", "timestamp", "0", "1")
	}
	return genString(rt)
}

func genNumber(rt *rapid.T) float64 {
	switch rapid.IntRange(0, 3).Draw(rt, "numkind") {
	case 0:
		return float64(rapid.IntRange(-20, 20).Draw(rt, "small"))
	case 1:
		return pick(rt, "num", interestingNumbers...)
	case 2:
		return rapid.Float64Range(-1000, 1000).Draw(rt, "mid")
	default:
		n := rapid.Float64().Draw(rt, "any")
		if math.IsNaN(n) || math.IsInf(n, 0) {
			return 0
		}
		return n
	}
}

var interestingTimes = []int64{-1, 0, 1, 2, 1700000000, 1 << 31, 1<<31 - 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1745000000123456789, math.MaxInt64, math.MaxInt64 - 1}

func genTime(rt *rapid.T) int64 {
	switch rapid.IntRange(0, 3).Draw(rt, "timekind") {
	case 0:
		return rapid.Int64Range(0, 30).Draw(rt, "t")
	case 1:
		return -1
	case 2:
		return pick(rt, "t", interestingTimes...)
	default:
		return rapid.Int64Range(0, math.MaxInt64).Draw(rt, "t")
	}
}

type docOpts struct {
	depth   int
	width   int
	key     func(*rapid.T) string
	str     func(*rapid.T) string
	num     func(*rapid.T) float64
	time    func(*rapid.T) int64
	noNull  bool
	noArray bool
}

func (o docOpts) fill() docOpts {
	if o.key == nil {
		o.key = genKey
	}
	if o.str == nil {
		o.str = genString
	}
	if o.num == nil {
		o.num = genNumber
	}
	if o.time == nil {
		o.time = genTime
	}
	if o.width == 0 {
		o.width = 4
	}
	return o
}

func genLeaf(rt *rapid.T, o docOpts) *V {
	t := o.time(rt)
	switch rapid.IntRange(0, 2).Draw(rt, "leaf") {
	case 0:
		return vNum(o.num(rt), t)
	case 1:
		return vStr(o.str(rt), t)
	default:
		return vBool(rapid.Bool().Draw(rt, "bool"), t)
	}
}

func genValue(rt *rapid.T, o docOpts) *V {
	k := rapid.IntRange(0, 9).Draw(rt, "kind")
	if o.depth <= 0 && k >= 6 {
		k = 0
	}
	switch {
	case k < 5:
		return genLeaf(rt, o)
	case k == 5:
		if o.noNull {
			return genLeaf(rt, o)
		}
		return vNull()
	case k < 8 || o.noArray:
		return genObject(rt, o)
	default:
		return genArray(rt, o)
	}
}

func genObject(rt *rapid.T, o docOpts) *V {
	v := vObj()
	o.depth--
	for n := rapid.IntRange(0, o.width).Draw(rt, "members"); n > 0; n-- {
		v.put(o.key(rt), genValue(rt, o))
	}
	return v
}

func genArray(rt *rapid.T, o docOpts) *V {
	v := vArr()
	o.depth--
	n := rapid.IntRange(0, o.width).Draw(rt, "elements")
	if chance(rt, 5) {
		n = rapid.IntRange(10, 13).Draw(rt, "many")
	}
	for ; n > 0; n-- {
		v.A = append(v.A, genValue(rt, o))
	}
	return v
}

// genDoc draws any document, mostly with an object at the top.
func genDoc(rt *rapid.T, o docOpts) *V {
	o = o.fill()
	if o.depth == 0 {
		o.depth = rapid.IntRange(1, 4).Draw(rt, "depth")
	}
	if chance(rt, 20) {
		return genValue(rt, o)
	}
	if v := genObject(rt, o); len(v.O) > 0 || o.depth < 2 {
		return v
	}
	return vObj(KV{o.key(rt), genValue(rt, o)}, KV{o.key(rt), genValue(rt, o)})
}

func docClasses(c *Ctx, v *V) {
	var arr, null, deep, awk, big, prec bool
	v.walk(nil, func(segs []string, x *V) {
		arr = arr || x.K == "a"
		null = null || x.K == "z"
		deep = deep || len(segs) >= 3
		prec = prec || x.T > 1<<53
		big = big || (x.K == "n" && x.N != 0 && (math.Abs(x.N) >= 1e21 || math.Abs(x.N) < 1e-6))
		if len(segs) > 0 {
			for _, r := range segs[len(segs)-1] {
				awk = awk || r < 'a' || r > 'z'
			}
		}
		for _, r := range x.S {
			awk = awk || r < ' ' || r > '~' || r == '"' || r == '\\'
		}
	})
	c.Class(arr, "array")
	c.Class(null, "null")
	c.Class(deep, "depth>=3")
	c.Class(awk, "awkward strings")
	c.Class(big, "exponent numbers")
	c.Class(prec, "timestamp>2^53")
}

// paths returns the segments of all nodes of the document.
func paths(v *V) (all [][]string) {
	v.walk(nil, func(segs []string, _ *V) { all = append(all, append([]string{}, segs...)) })
	return all
}

// usablePath tells whether the notion of an index is unambiguous in the path:
// it excludes segments like "01" or "+1", which only some readers of numbers accept.
func usablePath(segs []string) bool {
	for _, s := range segs {
		if _, err := strconv.Atoi(s); err == nil && !isIndex(s) {
			return false
		}
		if isIndex(s) {
			if i, _ := strconv.Atoi(s); i > 40 {
				return false
			}
		}
	}
	return true
}
