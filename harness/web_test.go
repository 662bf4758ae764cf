package zzverif

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	osexec "os/exec"
	"path/filepath"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"pgregory.net/rapid"
)

// server is a running web demo (see web/serve_test.go), one per process.
type server struct {
	dir    string
	cmd    *osexec.Cmd
	in     *json.Encoder
	out    *bufio.Scanner
	stderr bytes.Buffer
	car    int
}

type answer struct {
	Status int    `json:"status"`
	Type   string `json:"type"`
	Body   []byte `json:"body"`
	Panic  string `json:"panic"`
}

var demo *server

// startDemo starts the web demo in its own directory.
func startDemo() (*server, error) {
	if demo != nil {
		return demo, nil
	}
	dir, err := os.MkdirTemp("", "web")
	must(err)
	repo := os.Getenv("VERIF_REPO")
	must(os.MkdirAll(filepath.Join(dir, "internal/vssgen"), 0o755))
	for _, f := range []string{"internal/vssgen/vss.json", "index.html"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		must(err)
		must(os.WriteFile(filepath.Join(dir, f), b, 0o644))
	}
	s := &server{dir: dir, cmd: osexec.Command(os.Getenv("VERIF_WEB"), "-test.run", "^TestVerifServe$", "-test.timeout", "0")}
	s.cmd.Dir = dir
	s.cmd.Env = append(os.Environ(), "VERIF_SERVE=1")
	s.cmd.Stderr = &s.stderr
	pr, pw, err := os.Pipe()
	must(err)
	s.cmd.ExtraFiles = []*os.File{pw}
	stdin, err := s.cmd.StdinPipe()
	must(err)
	must(s.cmd.Start())
	pw.Close()
	s.in = json.NewEncoder(stdin)
	s.out = bufio.NewScanner(pr)
	s.out.Buffer(nil, 1<<28)
	s.car = 1000
	if !s.out.Scan() {
		s.cmd.Wait()
		return nil, fmt.Errorf("the web demo does not start: %s", lastLines(s.stderr.String()))
	}
	demo = s
	return s, nil
}

func lastLines(s string) string {
	for _, begin := range []string{"panic:", "WARNING: DATA RACE"} {
		if i := strings.Index(s, begin); i >= 0 {
			s = s[i:]
		}
	}
	if len(s) > 1000 {
		s = s[:1000]
	}
	return s
}

// get serves the requests, which run at the same time.
func (s *server) get(urls ...string) ([]answer, error) {
	must(s.in.Encode(urls))
	if !s.out.Scan() {
		s.cmd.Wait()
		demo = nil
		return nil, fmt.Errorf("the web demo died while serving %v: %s", urls, lastLines(s.stderr.String()))
	}
	var as []answer
	must(json.Unmarshal(s.out.Bytes(), &as))
	for i, a := range as {
		if a.Panic != "" {
			return nil, fmt.Errorf("GET %s panics: %s", urls[i], a.Panic)
		}
		if a.Status != 200 {
			return nil, fmt.Errorf("GET %s answers %d", urls[i], a.Status)
		}
	}
	return as, nil
}

type webCar struct {
	Doc     *V     `json:"doc"`
	Text    string `json:"text"` // a TSON text of it
	Patches [][]Op `json:"patches"`
}

type webAsk struct {
	Page  string `json:"page"` // "", "update", "patch"
	Car   int    `json:"car"`
	Patch int    `json:"patch"` // 0: none given
	Swap  bool   `json:"swap"`  // order of the parameters
}

type webCase struct {
	Cars []webCar   `json:"cars"`
	Asks [][]webAsk `json:"asks"` // each list is served concurrently
}

func genWeb(rt *rapid.T) webCase {
	var k webCase
	for range rapid.IntRange(1, 3).Draw(rt, "cars") {
		o := histOpts{notation: rapid.IntRange(0, 2).Draw(rt, "notation")}
		car := webCar{Doc: o.doc(rt, 10)}
		r := &renderer{rt: rt}
		r.value(car.Doc, false, false)
		car.Text = strings.Join(r.toks, "")
		doc := car.Doc
		t := int64(10)
		patches := rapid.IntRange(0, 5).Draw(rt, "patches")
		if len(k.Cars) == 0 && chance(rt, 2) {
			patches = rapid.IntRange(6, 120).Draw(rt, "many")
		}
		for range patches {
			patch := []Op{}
			for range rapid.IntRange(0, 3).Draw(rt, "ops") {
				t += int64(rapid.IntRange(0, 2).Draw(rt, "dt"))
				op, ok := o.op(rt, doc, t, false)
				if !ok {
					continue
				}
				if op.V != nil && op.V.K == "i" {
					op.V.K = "n"
				}
				if next, r := applyOp(doc, op); r == applied {
					doc = next
					patch = append(patch, op)
				}
			}
			car.Patches = append(car.Patches, patch)
		}
		k.Cars = append(k.Cars, car)
	}
	for range rapid.IntRange(1, 3).Draw(rt, "rounds") {
		var asks []webAsk
		for range rapid.IntRange(1, 5).Draw(rt, "asks") {
			a := webAsk{Page: pick(rt, "page", "patch", "patch", "patch", "update", "update", ""), Car: rapid.IntRange(0, len(k.Cars)-1).Draw(rt, "car"), Swap: rapid.Bool().Draw(rt, "swap")}
			n := len(k.Cars[a.Car].Patches)
			a.Patch = rapid.IntRange(0, n+1).Draw(rt, "patch")
			if a.Page == "update" && a.Patch == 1 {
				a.Patch = 0 // the first file has no patch
			}
			asks = append(asks, a)
		}
		k.Asks = append(k.Asks, asks)
	}
	return k
}

// patched reads a patched document.
func patched(what string, body []byte) (*V, error) {
	var t tson.Tson
	if err := tson.Unmarshal(body, &t); err != nil {
		return nil, fmt.Errorf("%s is no TSON: %v: %.300s", what, err, body)
	}
	return fromTson(t)
}

func init() {
	add("C28", "served", 2500, "a document patched by at least one operation was served",
		genWeb, checkWeb)
	add("C28", "demo-dataset", 1, "always (the data set the demo generates on its own, all cars and files)",
		func(rt *rapid.T) int { return rapid.IntRange(0, 9).Draw(rt, "run") }, checkDemo)
}

func checkWeb(c *Ctx, k webCase) error {
	s, err := startDemo()
	if err != nil {
		return err
	}
	first := s.car
	s.car += len(k.Cars)
	texts := make([]string, len(k.Cars))
	for i, car := range k.Cars {
		n := first + i
		dir := filepath.Join(s.dir, "dataset", fmt.Sprintf("car_%d", n))
		defer os.RemoveAll(dir)
		must(os.MkdirAll(filepath.Join(dir, "tson"), 0o755))
		must(os.MkdirAll(filepath.Join(dir, "patches"), 0o755))
		texts[i] = car.Text
		must(os.WriteFile(filepath.Join(dir, "tson", fmt.Sprintf("%d_1.tson", n)), []byte(texts[i]), 0o644))
		for j, p := range car.Patches {
			must(os.WriteFile(filepath.Join(dir, "patches", fmt.Sprintf("%d_%d.json", n, j+2)), []byte(jsonPatch(p)), 0o644))
		}
	}
	for _, asks := range k.Asks {
		var urls []string
		for _, a := range asks {
			q := []string{fmt.Sprintf("car=%d", first+a.Car)}
			if a.Patch != 0 {
				q = append(q, fmt.Sprintf("patch=%d", a.Patch))
				if a.Swap {
					q[0], q[1] = q[1], q[0]
				}
			}
			u := "/" + a.Page + "?" + strings.Join(q, "&")
			if _, err := url.Parse(u); err != nil {
				must(err)
			}
			urls = append(urls, u)
		}
		c.Class(len(urls) > 1, "concurrent requests")
		as, err := s.get(urls...)
		if err != nil {
			return err
		}
		for i, a := range asks {
			c.Class(true, "GET /"+a.Page)
			what := "GET " + urls[i]
			car := k.Cars[a.Car]
			switch {
			case a.Page == "":
				want, err := os.ReadFile(filepath.Join(s.dir, "index.html"))
				must(err)
				if !bytes.Equal(as[i].Body, want) || !strings.HasPrefix(as[i].Type, "text/html") {
					return fmt.Errorf("%s does not serve the page (type %s, %d bytes)", what, as[i].Type, len(as[i].Body))
				}
			case a.Page == "update":
				want := texts[a.Car]
				if a.Patch > 1 {
					want = jsonPatch(car.Patches[a.Patch-2])
				}
				if string(as[i].Body) != want {
					return fmt.Errorf("%s serves %.300q, the file holds %.300q", what, as[i].Body, want)
				}
			default:
				want := car.Doc
				for _, p := range car.Patches[:max(0, a.Patch-1)] {
					want = applyAll(want, p)
					c.NonTrivial(len(p) > 0)
				}
				got, err := patched(what, as[i].Body)
				if err != nil {
					return err
				}
				if !same(got, want, false) {
					return fmt.Errorf("%s: the document differs %s", what, diffText(want, got, "", false))
				}
			}
		}
	}
	return nil
}

func checkDemo(c *Ctx, run int) error {
	c.NonTrivial(true)
	s, err := startDemo()
	if err != nil {
		return err
	}
	const cars, files = 5, 10
	for car := 1; car <= cars; car++ {
		dir := filepath.Join(s.dir, "dataset", fmt.Sprintf("car_%d", car))
		var doc *V
		for n := 1; n <= files; n++ {
			text, err := os.ReadFile(filepath.Join(dir, "tson", fmt.Sprintf("%d_%d.tson", car, n)))
			if err != nil {
				return fmt.Errorf("the demo generates no file %d for car %d: %v", n, car, err)
			}
			file, err := patched(fmt.Sprintf("file %d of car %d", n, car), text)
			if err != nil {
				return err
			}
			urls := []string{fmt.Sprintf("/update?car=%d", car), fmt.Sprintf("/patch?car=%d&patch=%d", car, n)}
			if n > 1 {
				urls[0] += fmt.Sprintf("&patch=%d", n)
			}
			as, err := s.get(urls...)
			if err != nil {
				return err
			}
			want := text
			if n > 1 {
				if want, err = os.ReadFile(filepath.Join(dir, "patches", fmt.Sprintf("%d_%d.json", car, n))); err != nil {
					return fmt.Errorf("the demo generates no patch %d for car %d: %v", n, car, err)
				}
			}
			if !bytes.Equal(as[0].Body, want) {
				return fmt.Errorf("GET %s serves %.300q, the file holds %.300q", urls[0], as[0].Body, want)
			}
			if doc, err = patched("GET "+urls[1], as[1].Body); err != nil {
				return err
			}
			if !same(doc, file, false) {
				return fmt.Errorf("GET %s: the document differs from file %d %s", urls[1], n, diffText(file, doc, "", false))
			}
		}
	}
	return nil
}
