// Package zzverif holds the property checks. It is compiled into the module of
// /repo through an overlay (see ../check.py), so that it can use the internal
// packages without adding a file to the repository.
package zzverif

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// A facet is one executable check of a property: a generator of cases (plain
// data which can be written as JSON) and an oracle deciding one case.
type facet struct {
	prop, name string
	n          int // cases per shard in the quick tier
	rule       string
	drive      func(t *testing.T, f *facet, s *session)
	replay     func(raw json.RawMessage) error
}

var facets []*facet

// oracles holds the check functions of the facets by "property/facet".
var oracles = map[string]any{}

// Ctx is handed to the oracle.
type Ctx struct {
	classes    []string
	nontrivial bool
	scratch    string
}

// Class labels the case, for the distribution in the evidence.
func (c *Ctx) Class(ok bool, name string) {
	if ok {
		c.classes = append(c.classes, name)
	}
}

// NonTrivial marks the case as non-trivial (see the rule of the facet).
func (c *Ctx) NonTrivial(ok bool) { c.nontrivial = c.nontrivial || ok }

// Dir returns a scratch directory of this case, removed afterwards.
func (c *Ctx) Dir() string {
	if c.scratch == "" {
		d, err := os.MkdirTemp("", "case")
		if err != nil {
			panic(harnessError{err})
		}
		c.scratch = d
	}
	return c.scratch
}

// open lists the files in the scratch directory the process has still open.
func (c *Ctx) open() (files []string) {
	fds, _ := filepath.Glob("/proc/self/fd/*")
	for _, fd := range fds {
		if to, err := os.Readlink(fd); err == nil && c.scratch != "" && strings.HasPrefix(to, c.scratch+"/") {
			files = append(files, strings.TrimPrefix(to, c.scratch+"/"))
		}
	}
	return files
}

func (c *Ctx) close() {
	if c.scratch != "" {
		os.RemoveAll(c.scratch)
	}
}

// harnessError is a failure of the check itself, never a violation.
type harnessError struct{ err error }

func must(err error) {
	if err != nil {
		panic(harnessError{err})
	}
}

// sutError is a failure of the code under test found where no error can be
// returned: the case has failed.
type sutError struct{ err error }

// worked demands that a step of the code under test gave no error.
func worked(err error) {
	if err != nil {
		panic(sutError{err})
	}
}

// add registers a facet.
func add[C any](prop, name string, n int, rule string, gen func(*rapid.T) C, check func(*Ctx, C) error) {
	f := &facet{prop: prop, name: name, n: n, rule: rule}
	oracles[prop+"/"+name] = check
	f.drive = func(t *testing.T, f *facet, s *session) {
		rapid.Check(t, func(rt *rapid.T) {
			if s.expired() {
				s.skipped++
				return
			}
			c := gen(rt)
			raw, err := json.Marshal(c)
			if err != nil {
				s.fatal(fmt.Errorf("case cannot be written: %w", err))
			}
			ctx := &Ctx{}
			err = s.guarded(f, raw, func() error { return safely(func() error { return check(ctx, c) }) })
			ctx.close()
			var he harnessError
			if errors.As(err, &he) {
				s.fatal(fmt.Errorf("%s/%s: %w\ncase: %s", f.prop, f.name, he.err, raw))
			}
			s.count(f, ctx, raw)
			if err != nil {
				s.saveFailure(f, raw, err)
				rt.Fatalf("%v", err)
			}
		})
	}
	f.replay = func(raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return harnessError{err}
		}
		ctx := &Ctx{}
		defer ctx.close()
		return safely(func() error { return check(ctx, c) })
	}
	facets = append(facets, f)
}

func (h harnessError) Error() string { return "harness: " + h.err.Error() }

const modulePrefix = "github.com/CAU-CPSS/logument/"

// safely runs the oracle. A panic raised by the code under test is a failed
// case; a panic raised by the harness itself is an error of the check.
func safely(f func() error) (err error) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if he, ok := r.(harnessError); ok {
			err = he
			return
		}
		if se, ok := r.(sutError); ok {
			err = se.err
			return
		}
		if panicFromSut() {
			err = fmt.Errorf("panic in the code under test: %v", r)
		} else if re, ok := r.(runtime.Error); ok {
			// What came back has a shape (nil, too short) no right answer has.
			err = fmt.Errorf("the result cannot be read: %v\n%s", re, debug.Stack())
		} else {
			err = harnessError{fmt.Errorf("panic: %v\n%s", r, debug.Stack())}
		}
	}()
	return f()
}

// panicFromSut looks (from a deferred function, while panicking) for the
// innermost function of the module below the panic.
func panicFromSut() bool {
	pcs := make([]uintptr, 256)
	frames := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs)])
	seen := false
	for {
		fr, more := frames.Next()
		if fr.Function == "runtime.gopanic" {
			seen = true
		} else if seen && strings.HasPrefix(fr.Function, modulePrefix) {
			return !strings.HasPrefix(fr.Function, modulePrefix+"zzverif")
		}
		if !more {
			return false
		}
	}
}

// try calls the code under test and returns its panic, if any.
func try(f func()) (panicked bool, msg string) {
	defer func() {
		if r := recover(); r != nil {
			_, ours := r.(harnessError)
			_, failed := r.(sutError)
			if ours || failed || !panicFromSut() {
				panic(r)
			}
			panicked, msg = true, fmt.Sprint(r)
		}
	}()
	f()
	return false, ""
}

// session collects what one shard does.
type session struct {
	out      string
	shard    string
	deadline time.Time
	skipped  int

	mu       sync.Mutex
	stats    map[string]*facetStats
	busy     atomic.Int64 // CPU time (ns) at the start of the running case, or 0
	started  time.Time
	failures int
}

type facetStats struct {
	Facet       string            `json:"facet"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Hashes      map[string]bool   `json:"-"`
	HashList    []string          `json:"hashes"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Seconds     float64           `json:"seconds"`
}

func (s *session) expired() bool { return !s.deadline.IsZero() && time.Now().After(s.deadline) }

func (s *session) stat(f *facet) *facetStats {
	st := s.stats[f.name]
	if st == nil {
		st = &facetStats{Facet: f.name, Rule: f.rule, Hashes: map[string]bool{}, Classes: map[string]int{}}
		s.stats[f.name] = st
	}
	return st
}

func (s *session) count(f *facet, ctx *Ctx, raw []byte) {
	st := s.stat(f)
	st.Evaluations++
	for _, c := range ctx.classes {
		st.Classes[c]++
	}
	if !ctx.nontrivial {
		return
	}
	st.NonTrivial++
	h := fnv.New64a()
	h.Write(raw)
	key := strconv.FormatUint(h.Sum64(), 36)
	if !st.Hashes[key] {
		st.Hashes[key] = true
		if n := len(st.Hashes); len(st.Samples) < 3 && (n == 1 || n == 10 || n == 100) && len(raw) < 4000 {
			st.Samples = append(st.Samples, append(json.RawMessage{}, raw...))
		}
	}
}

type savedCase struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

func (s *session) write(name string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	must(err)
	tmp := filepath.Join(s.out, name+".tmp")
	must(os.WriteFile(tmp, b, 0o644))
	must(os.Rename(tmp, filepath.Join(s.out, name)))
}

// saveFailure stores a failing case. While rapid shrinks, later (smaller)
// failing cases replace earlier ones.
func (s *session) saveFailure(f *facet, raw []byte, err error) {
	s.failures++
	s.write("fail_"+s.shard+".json", savedCase{f.prop, f.name, err.Error(), raw})
}

func (s *session) fatal(err error) {
	fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
	os.Exit(2)
}

func cpuTime() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func rssBytes() int64 {
	b, _ := os.ReadFile("/proc/self/statm")
	fs := strings.Fields(string(b))
	if len(fs) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(fs[1], 10, 64)
	return n * int64(os.Getpagesize())
}

const (
	cpuLimit     = 90 * time.Second // a case normally takes milliseconds
	blockedTicks = 400              // 100 s in which the process runs but does nothing
	rssLimit     = 4 << 30          // the harness normally needs some 100 MB
)

// guarded runs one case while the watchdog looks on. The case is on disk
// before it runs, in case the process dies (stack overflow).
func (s *session) guarded(f *facet, raw []byte, run func() error) error {
	pending := filepath.Join(s.out, "pending_"+s.shard+".json")
	b, _ := json.Marshal(savedCase{f.prop, f.name, "", raw})
	must(os.WriteFile(pending, b, 0o644))
	s.busy.Store(cpuTime())
	defer s.busy.Store(0)
	return run()
}

func (s *session) watchdog() {
	var last, ticks int64 // the case seen last, and how often
	for range time.Tick(250 * time.Millisecond) {
		start := s.busy.Load()
		if start == 0 {
			last, ticks = 0, 0
			continue
		}
		if start != last {
			last, ticks = start, 0
		}
		ticks++
		reason := ""
		if used := cpuTime() - start; used > int64(cpuLimit) {
			reason = fmt.Sprintf("does not terminate: %v of CPU time used by one case", time.Duration(used))
		} else if ticks > blockedTicks && used < int64(2*time.Second) {
			reason = "does not terminate: blocked"
		} else if rssBytes() > rssLimit {
			reason = "does not terminate: memory grows without bound"
		}
		if reason != "" {
			b, _ := os.ReadFile(filepath.Join(s.out, "pending_"+s.shard+".json"))
			var c savedCase
			json.Unmarshal(b, &c)
			c.Error = reason
			s.write("fail_"+s.shard+".json", c)
			os.Exit(1)
		}
	}
}

func (s *session) flush() {
	var all []*facetStats
	for _, st := range s.stats {
		for h := range st.Hashes {
			st.HashList = append(st.HashList, h)
		}
		sort.Strings(st.HashList)
		all = append(all, st)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Facet < all[j].Facet })
	s.write("stats_"+s.shard+".json", map[string]any{"facets": all, "skipped": s.skipped})
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func nameHash(s string) int64 {
	h := fnv.New32a()
	h.Write([]byte(s))
	return int64(h.Sum32())
}

func mix(parts ...int64) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%d;", p)
	}
	if v := h.Sum64(); v != 0 {
		return v
	}
	return 1
}

// TestProp runs all facets of the property VERIF_PROP.
func TestProp(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("VERIF_PROP is not set")
	}
	s := &session{out: os.Getenv("VERIF_OUT"), shard: os.Getenv("VERIF_SHARD"), stats: map[string]*facetStats{}, started: time.Now()}
	if b := envInt("VERIF_BUDGET", 0); b > 0 {
		s.deadline = time.Now().Add(time.Duration(b) * time.Second)
	}
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // the code under test prints a lot
	}
	go s.watchdog()
	defer s.flush()
	scale := envInt("VERIF_SCALE", 100) // percent
	found := false
	for _, f := range facets {
		if f.prop != prop || (os.Getenv("VERIF_FACET") != "" && os.Getenv("VERIF_FACET") != f.name) {
			continue
		}
		found = true
		n := max(1, int64(f.n)*scale/100)
		must(flag.Set("rapid.checks", strconv.FormatInt(n, 10)))
		must(flag.Set("rapid.seed", strconv.FormatUint(mix(envInt("VERIF_SEED", 1), envInt("VERIF_SHARD", 0), nameHash(f.prop+"/"+f.name)), 10)))
		begin := time.Now()
		t.Run(f.name, func(t *testing.T) { f.drive(t, f, s) })
		s.stat(f).Seconds = time.Since(begin).Seconds()
		if s.failures > 0 {
			return
		}
		if t.Failed() {
			s.fatal(fmt.Errorf("facet %s failed without a failing case", f.name))
		}
	}
	if !found {
		s.fatal(fmt.Errorf("no facet for property %q", prop))
	}
}

// TestReplay runs the saved case VERIF_REPLAY, bypassing rapid.
func TestReplay(t *testing.T) {
	file := os.Getenv("VERIF_REPLAY")
	if file == "" {
		t.Skip("VERIF_REPLAY is not set")
	}
	b, err := os.ReadFile(file)
	must(err)
	var c savedCase
	must(json.Unmarshal(b, &c))
	for _, f := range facets {
		if f.prop != c.Property || f.name != c.Facet {
			continue
		}
		// Map iteration in the code under test may need several tries
		for i := 0; i < 50; i++ {
			if err := f.replay(c.Case); err != nil {
				var he harnessError
				if errors.As(err, &he) {
					fmt.Fprintln(os.Stderr, "HARNESS ERROR:", he.err)
					os.Exit(2)
				}
				fmt.Printf("REPRODUCED %s/%s: %v\ncase: %s\n", f.prop, f.name, err, c.Case)
				t.FailNow()
			}
		}
		fmt.Printf("NOT REPRODUCED %s/%s\n", f.prop, f.name)
		return
	}
	fmt.Fprintln(os.Stderr, "HARNESS ERROR: unknown facet", c.Property, c.Facet)
	os.Exit(2)
}

// TestList prints all facets.
func TestList(t *testing.T) {
	if os.Getenv("VERIF_LIST") == "" {
		t.Skip()
	}
	for _, f := range facets {
		fmt.Println(f.prop, f.name, f.n)
	}
}
