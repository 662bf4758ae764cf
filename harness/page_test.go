package zzverif

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	osexec "os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strings"

	"pgregory.net/rapid"
)

// ---- C40: the demo page, run by node with a stand-in for the browser (page/page.js)

type pageStep struct {
	Do    string `json:"do"` // car, patch, saved, press, deliver, settle
	N     int    `json:"n,omitempty"`
	Order []int  `json:"order,omitempty"`
}

type pageCase struct {
	States  []string   `json:"states"`  // TSON texts
	Patches []string   `json:"patches"` // the operations of JSON patches
	Steps   []pageStep `json:"steps"`
	Pad     int        `json:"pad,omitempty"` // members added to each state
}

type pageBox struct {
	Text    string `json:"text"`
	Foreign string `json:"foreign"`
}

// pageView is what the page shows.
type pageView struct {
	Car      string   `json:"car"`
	Patch    string   `json:"patch"`
	Button   string   `json:"button"`
	Disabled bool     `json:"disabled"`
	View     pageBox  `json:"view"`
	Patches  pageBox  `json:"patches"`
	Result   pageBox  `json:"result"`
	Saved    pageBox  `json:"saved"`
	Name     string   `json:"name"`
	Names    []string `json:"names"`
	Pending  int      `json:"pending"`
	Errors   []string `json:"errors"`
}

type browser struct {
	cmd *osexec.Cmd
	in  *json.Encoder
	out *bufio.Scanner
}

var page *browser

func openPage() *browser {
	if page != nil {
		return page
	}
	b := &browser{cmd: osexec.Command("node", os.Getenv("VERIF_PAGE"), filepath.Join(os.Getenv("VERIF_REPO"), "index.html"))}
	b.cmd.Stderr = os.Stderr
	stdin, err := b.cmd.StdinPipe()
	must(err)
	stdout, err := b.cmd.StdoutPipe()
	must(err)
	must(b.cmd.Start())
	b.in = json.NewEncoder(stdin)
	b.out = bufio.NewScanner(stdout)
	b.out.Buffer(nil, 1<<28)
	page = b
	return b
}

func (b *browser) run(texts map[string]string, steps []pageStep) []pageView {
	must(b.in.Encode(map[string]any{"texts": texts, "steps": steps}))
	if !b.out.Scan() {
		must(fmt.Errorf("node ended: %v", b.cmd.Wait()))
	}
	var reply struct {
		Seen   []pageView `json:"seen"`
		Failed string     `json:"failed"`
	}
	must(json.Unmarshal(b.out.Bytes(), &reply))
	if reply.Failed != "" {
		must(fmt.Errorf("page.js: %s", reply.Failed))
	}
	return reply.Seen
}

const pageCars, pagePatches = 5, 10

func (k pageCase) state(car, patch int) string {
	id := fmt.Sprintf(`"car" <%d>: %d, "step" <%d>: %d`, car, car, patch, patch)
	if k.Pad > 0 {
		pad := make([]string, k.Pad)
		for i := range pad {
			pad[i] = fmt.Sprintf(`"s%d" <%d>: %d.5`, i, 1700000000000000000+int64(i), i)
		}
		id += `, "pad": {` + strings.Join(pad, ",\n") + "}"
	}
	return "{ " + id + `, "doc": ` + k.States[(car+3*patch)%len(k.States)] + " }"
}

func (k pageCase) patch(car, patch int) string {
	ops := k.Patches[(car+3*patch)%len(k.Patches)]
	head := fmt.Sprintf(`{ "op": "add", "path": "car/%d", "value": %d, "timestamp": 1700000000000000%03d }`, car, patch, car*20+patch)
	if ops != "" {
		head += ",\n" + ops
	}
	return "[\n" + head + "\n]"
}

// texts are the answers of the server, by path and parameters.
func (k pageCase) texts() map[string]string {
	m := map[string]string{}
	for car := 1; car <= pageCars; car++ {
		m[fmt.Sprintf("/update %d ", car)] = k.state(car, 1)
		for p := 1; p <= pagePatches; p++ {
			m[fmt.Sprintf("/patch %d %d", car, p)] = k.state(car, p)
			if p > 1 {
				m[fmt.Sprintf("/update %d %d", car, p)] = k.patch(car, p)
			}
		}
	}
	return m
}

func genPage(rt *rapid.T) pageCase {
	var k pageCase
	opts := docOpts{width: 2, str: func(rt *rapid.T) string {
		if chance(rt, 30) {
			return pick(rt, "markup", "<b>", "</code>", "&lt;", "&amp;&", "<img src=x>", "<span>", "<!--", "a: b", "\": \"", "null", "12", "$&", "$1")
		}
		return genString(rt)
	}}
	for range rapid.IntRange(1, 3).Draw(rt, "states") {
		doc := genDoc(rt, opts)
		r := &renderer{rt: rt}
		r.value(doc, false, false)
		k.States = append(k.States, strings.Join(r.toks, ""))
	}
	for range rapid.IntRange(1, 3).Draw(rt, "patches") {
		var ops []string
		for range rapid.IntRange(0, 3).Draw(rt, "ops") {
			r := &renderer{rt: rt}
			value := genLeaf(rt, opts.fill())
			text := ""
			switch value.K {
			case "s":
				text = r.str(value.S)
			case "n":
				text = r.number(value.N)
				if chance(rt, 30) {
					text = pick(rt, "digits", "12345678901234567890", "-9007199254740993", "0.12345678901234567890", "1.00", "123456789.1234567890e5", "1E400")
				}
			default:
				text = fmt.Sprint(value.B)
			}
			path := r.str("/" + genKey(rt))
			ops = append(ops, fmt.Sprintf(`{ "op": "replace", "path": %s, "value": %s, "timestamp": %d }`, path, text, max(0, genTime(rt))))
		}
		k.Patches = append(k.Patches, strings.Join(ops, ",\n"))
	}
	if chance(rt, 1) { // as large as a dataset of all signals
		k.Pad = rapid.IntRange(800, 3000).Draw(rt, "pad")
	}
	order := func() pageStep {
		return pageStep{Do: "settle", Order: rapid.SliceOfN(rapid.IntRange(0, 5), 0, 4).Draw(rt, "order")}
	}
	if chance(rt, 2) { // save many results
		for range rapid.IntRange(4, 40).Draw(rt, "saves") {
			k.Steps = append(k.Steps, pageStep{Do: "car", N: rapid.IntRange(0, pageCars-1).Draw(rt, "n")}, pageStep{Do: "patch", N: rapid.IntRange(0, 7).Draw(rt, "n")},
				order(), pageStep{Do: "press"}, order(), pageStep{Do: "press"})
			if chance(rt, 20) {
				k.Steps = append(k.Steps, pageStep{Do: "saved", N: rapid.IntRange(0, 40).Draw(rt, "n")})
			}
		}
	}
	for range rapid.IntRange(1, 12).Draw(rt, "steps") {
		if chance(rt, 15) { // ask for a result and save it
			k.Steps = append(k.Steps, order(), pageStep{Do: "press"}, order(), pageStep{Do: "press"})
			continue
		}
		s := pageStep{Do: pick(rt, "do", "car", "car", "patch", "patch", "press", "press", "press", "press", "saved", "deliver", "deliver", "settle", "settle", "settle")}
		switch s.Do {
		case "car":
			s.N = rapid.IntRange(0, pageCars-1).Draw(rt, "n")
		case "patch", "saved", "deliver":
			s.N = rapid.IntRange(0, 7).Draw(rt, "n")
		case "settle":
			s = order()
		}
		k.Steps = append(k.Steps, s)
	}
	k.Steps = append(k.Steps, order())
	return k
}

// shows tells whether a text which is shown has the meaning of one which was served: the
// same JSON value with the same numbers, or else the same text up to whitespace between tokens.
func shows(shown, served string) bool {
	if shown == served {
		return true
	}
	parse := func(s string) (any, bool) {
		dec := json.NewDecoder(strings.NewReader(s))
		dec.UseNumber()
		var x any
		if dec.Decode(&x) != nil || dec.More() {
			return nil, false
		}
		return x, true
	}
	want, ok := parse(served)
	if !ok {
		return squeeze(shown) == squeeze(served)
	}
	got, ok := parse(shown)
	return ok && sameNumbers(got, want)
}

// squeeze drops the whitespace outside of string literals.
func squeeze(s string) string {
	var b strings.Builder
	in := false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case in && c == '\\' && i+1 < len(s):
			b.WriteByte(c)
			i++
			b.WriteByte(s[i])
		case c == '"':
			in = !in
			b.WriteByte(c)
		case in || !strings.ContainsRune(" \t\n\r", rune(c)):
			b.WriteByte(c)
		}
	}
	return b.String()
}

func sameNumbers(a, b any) bool {
	switch a := a.(type) {
	case json.Number:
		b, ok := b.(json.Number)
		if !ok {
			return false
		}
		x, ok1 := new(big.Rat).SetString(string(a))
		y, ok2 := new(big.Rat).SetString(string(b))
		return ok1 && ok2 && x.Cmp(y) == 0
	case []any:
		b, ok := b.([]any)
		return ok && slices.EqualFunc(a, b, sameNumbers)
	case map[string]any:
		b, ok := b.(map[string]any)
		if !ok || len(a) != len(b) {
			return false
		}
		for key, x := range a {
			if y, ok := b[key]; !ok || !sameNumbers(x, y) {
				return false
			}
		}
		return true
	}
	return a == b
}

var snapshotName = regexp.MustCompile(`^car_(\d+)_patch_(\d+) Snapshot$`)

func checkPage(c *Ctx, k pageCase) error {
	steps := append([]pageStep{{Do: "settle"}}, k.Steps...)
	seen := openPage().run(k.texts(), steps)
	if len(seen) != len(steps) {
		must(fmt.Errorf("%d views of %d steps", len(seen), len(steps)))
	}
	texts := k.texts()
	var want struct{ press, selection string } // an answer to the button is awaited
	late := false
	for i, v := range seen {
		step := steps[i]
		what := fmt.Sprintf("step %d (%s %d)", i, step.Do, step.N)
		if len(v.Errors) > 0 {
			return fmt.Errorf("%s: the page fails: %.500s", what, v.Errors[0])
		}
		for _, b := range []pageBox{v.View, v.Patches, v.Result, v.Saved} {
			if b.Foreign != "" {
				return fmt.Errorf("%s: data became markup: %s", what, b.Foreign)
			}
		}
		selection := v.Car + " " + v.Patch
		before := pageView{}
		if i > 0 {
			before = seen[i-1]
		}
		late = late || i > 0 && before.Pending > 0 && (step.Do == "car" || step.Do == "patch" || step.Do == "press")

		if v.Name != "" {
			m := snapshotName.FindStringSubmatch(v.Name)
			if m == nil {
				return fmt.Errorf("%s: the saved snapshot has the name %q", what, v.Name)
			}
			var car, patch int
			fmt.Sscan(m[1]+" "+m[2], &car, &patch)
			if text, ok := texts[fmt.Sprintf("/patch %d %d", car, patch+1)]; !ok || !shows(v.Saved.Text, text) {
				return fmt.Errorf("%s: the snapshot %q holds %.300q, want %.300q", what, v.Name, v.Saved.Text, text)
			}
			c.NonTrivial(true)
		}
		if step.Do == "press" && !before.Disabled && before.Pending == 0 {
			if before.Button == "Snapshot" {
				var patch int
				fmt.Sscan(v.Patch, &patch)
				if name := fmt.Sprintf("car_%s_patch_%d Snapshot", v.Car, patch-1); v.Name != name || !slices.Contains(v.Names, name) {
					return fmt.Errorf("%s: Snapshot with car %s and patch %s selected saves %q", what, v.Car, v.Patch, v.Name)
				}
				c.Class(true, "snapshot saved")
			} else {
				want.press, want.selection = "asked", selection
			}
		}
		if selection != want.selection {
			want.press = ""
		}
		for i, name := range v.Names {
			if slices.Contains(v.Names[:i], name) {
				return fmt.Errorf("%s: the saved snapshot %q is listed twice", what, name)
			}
		}
		for _, name := range before.Names {
			if !slices.Contains(v.Names, name) {
				return fmt.Errorf("%s: the saved snapshot %q is gone", what, name)
			}
		}
		if v.Pending > 0 {
			continue
		}
		// All answers have arrived
		if text := texts["/update "+v.Car+" "]; !shows(v.View.Text, text) {
			return fmt.Errorf("%s: car %s is selected, its state is shown as %.300q, want %.300q", what, v.Car, v.View.Text, text)
		}
		if text := texts["/update "+selection]; !shows(v.Patches.Text, text) {
			return fmt.Errorf("%s: car %s and patch %s are selected, the patch is shown as %.300q, want %.300q", what, v.Car, v.Patch, v.Patches.Text, text)
		}
		if want.press != "" {
			if text := texts["/patch "+selection]; !shows(v.Result.Text, text) {
				return fmt.Errorf("%s: the result for car %s and patch %s is shown as %.300q, want %.300q", what, v.Car, v.Patch, v.Result.Text, text)
			}
			c.Class(true, "result shown")
			want.press = ""
		}
	}
	c.Class(late, "an action before the answers of the one before")
	return nil
}

func init() {
	add("C40", "page", 1500, "a snapshot was saved and shown", genPage, checkPage)
}
