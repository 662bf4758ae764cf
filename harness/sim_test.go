package zzverif

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"maps"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/CAU-CPSS/logument/exp"
	"pgregory.net/rapid"
)

// The simulation draws from the global random source, so a case is only a
// number; every case is another run.
type simCase struct {
	Run   int        `json:"run"`
	Table []tableRow `json:"table,omitempty"` // changed rows of the table of signals
}

// tableRow is another configuration of one signal of the simulator.
type tableRow struct {
	Path     string            `json:"path"`
	Category string            `json:"category,omitempty"` // of a signal which the table does not have
	Interval int               `json:"interval"`
	Default  *V                `json:"default,omitempty"`
	Min      float64           `json:"min"`
	Max      float64           `json:"max"`
	Patterns map[string]string `json:"patterns"`
}

// genTable draws other configurations for some signals: bounds which are
// reached, intervals, initial values and change patterns.
func genTable(rt *rapid.T) (rows []tableRow) {
	for _, p := range slices.Sorted(maps.Keys(exp.VSSSensors)) {
		if !chance(rt, 85) {
			continue
		}
		def := exp.VSSSensors[p]
		r := tableRow{Path: p, Interval: pick(rt, "interval", def.UpdateInterval, def.UpdateInterval, 50, 100, 200, 300, 500, 700, 1000, 5000, 60000, 150, 250, 1500), Min: def.Min, Max: def.Max, Patterns: map[string]string{}}
		pats := []string{"constant"}
		switch v := def.DefaultValue.(type) {
		case float64:
			pats = []string{"constant", "linear", "linear", "sinusoidal", "random_walk", "constant_with_noise"}
			if chance(rt, 60) {
				v = float64(rapid.IntRange(-200, 200).Draw(rt, "value")) / 4
				if chance(rt, 25) {
					v *= pick(rt, "scale", 100, 1e4, 1e6) // a great number, of which a small part counts
				}
			}
			r.Default = vNum(v, 0)
			if chance(rt, 85) {
				r.Min = v - pick(rt, "below", 0, 0.01, 1, 5, 10, 10, 100, 1000)
				r.Max = v + pick(rt, "above", 0, 0.01, 1, 5, 10, 10, 100, 1000)
			}
			r.Min, r.Max = min(r.Min, v), max(r.Max, v)
		case bool:
			pats = []string{"constant", "toggle", "toggle"}
			r.Interval = min(r.Interval, pick(rt, "often", 100, 500, 60000))
			r.Default = vBool(rapid.Bool().Draw(rt, "value"), 0)
		case string:
			r.Default = vStr(pick(rt, "value", v, "", "a,b", "x \"y\"", "é\nz"), 0)
		}
		for _, sc := range simScenarios {
			if chance(rt, 25) {
				r.Patterns[sc] = pick(rt, "pattern", pats...)
			} else if old, ok := def.ChangePatterns[sc]; ok {
				r.Patterns[sc] = old
			}
		}
		rows = append(rows, r)
	}
	if odds(rt, 50) {
		rows = append(rows, genExtra(rt)...)
	}
	return rows
}

// genExtra draws signals which the table does not have, switches above all.
func genExtra(rt *rapid.T) (rows []tableRow) {
	for n := pick(rt, "extra", 2, 8, 25, 25); n > 0; n-- {
		r := tableRow{Path: fmt.Sprintf("Vehicle.%s.Signal%d", pick(rt, "branch", "Extra", "Extra.Deep", "Cabin"), n), Interval: pick(rt, "interval", 100, 100, 200, 1000, 30000),
			Category: pick(rt, "category", exp.SensorTypeHigh, exp.SensorTypeMedium, exp.SensorTypeLow, exp.ActuatorTypeHigh, exp.ActuatorTypeLow, exp.AttributeType), Patterns: map[string]string{}}
		var pats []string
		switch pick(rt, "type", "boolean", "boolean", "boolean", "boolean", "number", "number", "string") {
		case "boolean":
			r.Default, r.Interval = vBool(rapid.Bool().Draw(rt, "value"), 0), min(r.Interval, 200)
			pats = []string{"toggle", "toggle", "toggle", "constant"}
		case "number":
			v := float64(rapid.IntRange(-200, 200).Draw(rt, "value")) / 4
			r.Default, r.Min, r.Max = vNum(v, 0), v-pick(rt, "below", 0.0, 1, 10, 1000), v+pick(rt, "above", 0.0, 1, 10, 1000)
			pats = []string{"constant", "linear", "sinusoidal", "random_walk", "constant_with_noise"}
		case "string":
			r.Default = vStr(pick(rt, "value", "", "on", "a/b~c"), 0)
			pats = []string{"constant"}
		}
		for _, sc := range simScenarios {
			if odds(rt, 90) {
				r.Patterns[sc] = pick(rt, "pattern", pats...)
			}
		}
		rows = append(rows, r)
	}
	return rows
}

// configure changes the table of signals; the result restores it.
func (k simCase) configure() (restore func()) {
	old := maps.Clone(exp.VSSSensors)
	for _, r := range k.Table {
		var def exp.VSSSensor
		if exp.VSSSensors[r.Path] != nil {
			def = *exp.VSSSensors[r.Path]
		} else if r.Category != "" {
			def = exp.VSSSensor{Path: r.Path, Category: r.Category, Type: map[byte]string{'b': "boolean", 'n': "number", 's': "string"}[r.Default.K[0]]}
		} else {
			continue
		}
		def.UpdateInterval, def.Min, def.Max, def.ChangePatterns = r.Interval, r.Min, r.Max, r.Patterns
		if r.Default != nil {
			def.DefaultValue = r.Default.anyJSON()
		}
		exp.VSSSensors[r.Path] = &def
	}
	return func() { exp.VSSSensors = old }
}

func genSim(rt *rapid.T) simCase { return simCase{Run: rapid.IntRange(0, 1<<30).Draw(rt, "run")} }

// genSimTable draws a run, most of the time with another table of signals.
func genSimTable(rt *rapid.T) simCase {
	k := genSim(rt)
	if odds(rt, 75) {
		k.Table = genTable(rt)
	}
	return k
}

const (
	simRoot  = "results/patch_experiment"
	simEnd   = 300000 // ms
	simStep  = 100
	simEqual = 0.005 // numbers closer than this count as unchanged
)

var simScenarios = []string{"urban_traffic", "highway_cruising", "battery_charging"}

// simRun is what one simulation left on disk.
type simRun struct {
	scenario           string
	dir                string
	results            map[string]string
	cumulative, timing []map[string]string
	initJSON, finJSON  map[string]any
	initTSON, finTSON  map[string]any
	jsonPatches        []exp.JsonPatch
	tsonPatches        []exp.TsonPatch
	jsonRaw, tsonRaw   []byte
}

func readTable(file string) ([]map[string]string, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	rows, err := csv.NewReader(f).ReadAll()
	if err != nil {
		return nil, fmt.Errorf("%s: %v", filepath.Base(file), err)
	}
	if len(rows) == 0 {
		return nil, fmt.Errorf("%s is empty", filepath.Base(file))
	}
	var r []map[string]string
	for _, row := range rows[1:] {
		m := map[string]string{}
		for i, h := range rows[0] {
			m[h] = row[i]
		}
		r = append(r, m)
	}
	return r, nil
}

// stampDirs lists the time stamped directories of a scenario.
func stampDirs(dir string) (r []string) {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if ok, _ := filepath.Match("[0-9][0-9][0-9][0-9][0-9][0-9][0-9][0-9]_[0-9][0-9][0-9][0-9][0-9][0-9]", e.Name()); ok && e.IsDir() {
			r = append(r, e.Name())
		}
	}
	return r
}

func readSim(root, scenario string) (s simRun, err error) {
	s.scenario = scenario
	base := filepath.Join(root, simRoot, scenario)
	rows, err := readTable(filepath.Join(base, "results.csv"))
	if err != nil {
		return s, err
	}
	if len(rows) != 1 {
		return s, fmt.Errorf("results.csv has %d rows", len(rows))
	}
	s.results = rows[0]
	if s.cumulative, err = readTable(filepath.Join(base, "cumulative.csv")); err != nil {
		return s, err
	}
	if s.timing, err = readTable(filepath.Join(base, "timing.csv")); err != nil {
		return s, err
	}
	dirs := stampDirs(base)
	if len(dirs) != 1 {
		return s, fmt.Errorf("data directories: %v", dirs)
	}
	s.dir = filepath.Join(base, dirs[0])
	for name, into := range map[string]any{"initial_json": &s.initJSON, "initial_tson": &s.initTSON, "final_json": &s.finJSON, "final_tson": &s.finTSON,
		"all_json_patches": &s.jsonPatches, "all_tson_patches": &s.tsonPatches} {
		b, err := os.ReadFile(filepath.Join(s.dir, name+".json"))
		if err != nil {
			return s, err
		}
		if err := json.Unmarshal(b, into); err != nil {
			return s, fmt.Errorf("%s: %v", name, err)
		}
		switch name {
		case "all_json_patches":
			s.jsonRaw = b
		case "all_tson_patches":
			s.tsonRaw = b
		}
	}
	return s, nil
}

type signal struct {
	val any
	t   int64
}

// signalsOf reads the signals of a saved document: objects with a value and
// a timestamp under the given name.
func signalsOf(what string, doc map[string]any, stamp string) (map[string]signal, error) {
	r := map[string]signal{}
	var walk func(m map[string]any, prefix string) error
	walk = func(m map[string]any, prefix string) error {
		for k, x := range m {
			p := strings.TrimPrefix(prefix+"."+k, ".")
			o, ok := x.(map[string]any)
			if !ok {
				return fmt.Errorf("%s: %q is no object", what, p)
			}
			v, has := o["value"]
			if !has {
				if err := walk(o, p); err != nil {
					return err
				}
				continue
			}
			t, ok := o[stamp].(float64)
			if !ok || len(o) != 2 {
				return fmt.Errorf("%s: %q is %v, want value and %s", what, p, o, stamp)
			}
			r[p] = signal{v, int64(t)}
		}
		return nil
	}
	return r, walk(doc, "")
}

func (s simRun) num(name string) (int, error) {
	n, err := strconv.Atoi(s.results[name])
	if err != nil {
		return 0, fmt.Errorf("results.csv: %s is %q", name, s.results[name])
	}
	return n, nil
}

func almost(a, b any) bool {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		return math.Abs(x-y) < simEqual
	}
	return a == b
}

// update is one simulated update of a signal.
type update struct {
	path    string
	t       int64
	val     any // nil if unchanged
	changed bool
}

// updates reads the JSON patches: each update is a timestamp, followed by the
// value if it changed.
func (s simRun) updates() (us []update, err error) {
	for i, p := range s.jsonPatches {
		if p.Op != "replace" {
			return nil, fmt.Errorf("JSON patch %d is %v", i, p)
		}
		if path, ok := strings.CutSuffix(p.Path, "/timestamp"); ok {
			t, ok := p.Value.(float64)
			if !ok {
				return nil, fmt.Errorf("JSON patch %d is %v", i, p)
			}
			us = append(us, update{path: path, t: int64(t)})
		} else if path, ok := strings.CutSuffix(p.Path, "/value"); ok && len(us) > 0 && us[len(us)-1].path == path && !us[len(us)-1].changed {
			us[len(us)-1].val, us[len(us)-1].changed = p.Value, true
		} else {
			return nil, fmt.Errorf("JSON patch %d (%v) does not belong to the update before", i, p)
		}
	}
	return us, nil
}

func groups(v *exp.VehicleData) map[string]map[string]*exp.SensorData {
	return map[string]map[string]*exp.SensorData{
		exp.SensorTypeHigh: v.SensorsHighFreq, exp.SensorTypeMedium: v.SensorsMedFreq, exp.SensorTypeLow: v.SensorsLowFreq,
		exp.ActuatorTypeHigh: v.ActuatorsHighVar, exp.ActuatorTypeLow: v.ActuatorsLowVar, exp.AttributeType: v.Attributes,
	}
}

func sensorsOf(v *exp.VehicleData) map[string]*exp.SensorData {
	r := map[string]*exp.SensorData{}
	for _, g := range groups(v) {
		for p, s := range g {
			r[p] = s
		}
	}
	return r
}

// check decides C30 for one scenario.
func (s simRun) check(root string) error {
	us, err := s.updates()
	if err != nil {
		return err
	}
	initJ, err := signalsOf("initial_json", s.initJSON, "timestamp")
	if err != nil {
		return err
	}
	initT, err := signalsOf("initial_tson", s.initTSON, "_ts")
	if err != nil {
		return err
	}
	finJ, err := signalsOf("final_json", s.finJSON, "timestamp")
	if err != nil {
		return err
	}
	finT, err := signalsOf("final_tson", s.finTSON, "_ts")
	if err != nil {
		return err
	}
	if !reflect.DeepEqual(initJ, initT) {
		return fmt.Errorf("the initial JSON and TSON documents differ")
	}
	if len(initJ) != len(exp.VSSSensors) {
		return fmt.Errorf("the initial document has %d signals of %d", len(initJ), len(exp.VSSSensors))
	}

	// Every signal is updated at the multiples of its interval
	seen := map[string]map[int64]bool{}
	var last int64
	changes := 0
	var values []exp.TsonPatch
	stateJ, stateT := map[string]signal{}, map[string]signal{}
	for p, v := range initJ {
		stateJ[p], stateT[p] = v, v
	}
	for i, u := range us {
		def := exp.VSSSensors[u.path]
		if def == nil {
			return fmt.Errorf("update %d of the unknown signal %q", i, u.path)
		}
		if u.t < last || u.t >= simEnd || u.t%simStep != 0 || u.t%int64(def.UpdateInterval) != 0 {
			return fmt.Errorf("update %d of %q (interval %d) is at %d, after one at %d", i, u.path, def.UpdateInterval, u.t, last)
		}
		last = u.t
		if seen[u.path] == nil {
			seen[u.path] = map[int64]bool{}
		}
		if seen[u.path][u.t] {
			return fmt.Errorf("%q is updated twice at %d", u.path, u.t)
		}
		seen[u.path][u.t] = true
		old := stateT[u.path]
		if u.changed {
			if reflect.TypeOf(u.val) == reflect.TypeOf(old.val) && almost(u.val, old.val) {
				return fmt.Errorf("update %d of %q at %d sends the value %v, which is the old one", i, u.path, u.t, u.val)
			}
			changes++
			values = append(values, exp.TsonPatch{Op: "replace", Path: u.path, Value: u.val, Timestamp: u.t})
			stateJ[u.path], stateT[u.path] = signal{u.val, u.t}, signal{u.val, u.t}
		} else {
			stateJ[u.path] = signal{stateJ[u.path].val, u.t}
		}
		row := map[string]string{}
		if i < len(s.timing) {
			row = s.timing[i]
		}
		if row["UpdateIndex"] != fmt.Sprint(i+1) || row["TimeMs"] != fmt.Sprint(u.t) || row["SensorPath"] != u.path || row["ValueChanged"] != fmt.Sprint(u.changed) {
			return fmt.Errorf("update %d is %+v in the patches and %v in timing.csv", i+1, u, row)
		}
	}
	for p, def := range exp.VSSSensors {
		want := 0
		for t := 0; t < simEnd; t += simStep {
			if t%def.UpdateInterval == 0 {
				want++
			}
		}
		if len(seen[p]) != want {
			return fmt.Errorf("%q (interval %d) is updated %d times, want %d", p, def.UpdateInterval, len(seen[p]), want)
		}
	}
	if len(s.timing) != len(us) {
		return fmt.Errorf("timing.csv has %d rows for %d updates", len(s.timing), len(us))
	}
	if !reflect.DeepEqual(values, s.tsonPatches) && len(values)+len(s.tsonPatches) > 0 {
		for i := range min(len(values), len(s.tsonPatches)) {
			if !reflect.DeepEqual(values[i], s.tsonPatches[i]) {
				return fmt.Errorf("change %d is %v in the JSON patches and %v in the TSON patches", i, values[i], s.tsonPatches[i])
			}
		}
		return fmt.Errorf("%d value changes in the JSON patches, %d in the TSON patches", len(values), len(s.tsonPatches))
	}

	// Final documents
	for p, want := range stateT {
		if got, ok := finT[p]; !ok || got != want {
			return fmt.Errorf("final_tson: %q is %v, want %v", p, got, want)
		}
		// The plain document always holds the latest value, even if too close to be sent
		got, ok := finJ[p]
		if want := stateJ[p]; !ok || got.t != want.t || reflect.TypeOf(got.val) != reflect.TypeOf(want.val) || !almost(got.val, want.val) {
			return fmt.Errorf("final_json: %q is %v, want %v", p, got, want)
		}
	}
	if len(finT) != len(stateT) || len(finJ) != len(stateJ) {
		return fmt.Errorf("the final documents have %d and %d signals, want %d", len(finJ), len(finT), len(stateT))
	}

	// Counts and sizes
	jsize, tsize := compactSize(s.jsonRaw), compactSize(s.tsonRaw)
	for name, want := range map[string]int{"SimulationTimeMs": simEnd, "TotalUpdates": len(us), "ValueChanges": changes, "TimestampOnlyChanges": len(us) - changes,
		"JsonPatchCount": len(us) + changes, "TsonPatchCount": changes, "SetTsonPatchCount": len(us), "JsonPatchSize": jsize, "TsonPatchSize": tsize} {
		if got, err := s.num(name); err != nil {
			return err
		} else if got != want {
			return fmt.Errorf("results.csv: %s is %d, want %d", name, got, want)
		}
	}
	// A patch for every update is at least as large as the value changes alone,
	// and each of the others has its operation, path and timestamp
	full, err := s.num("SetTsonPatchSize")
	if err != nil {
		return err
	}
	least, most := tsize, tsize
	for _, u := range us {
		if !u.changed {
			b, err := json.Marshal(exp.TsonPatch{Op: "replace", Path: u.path, Value: stateT[u.path].val, Timestamp: u.t})
			must(err)
			frame := len(b)
			switch v := stateT[u.path].val.(type) {
			case float64:
				n, _ := json.Marshal(v)
				frame -= len(n)
				least += frame + 1 + 1
				most += frame + 1 + 26
			case string:
				least, most = least+frame-len(v), most+frame+64
			default:
				least, most = least+frame, most+frame+2
			}
		}
	}
	if full < least-2 || full > most+2 {
		return fmt.Errorf("results.csv: SetTsonPatchSize is %d, which is not between %d and %d", full, least, most)
	}
	for name, want := range map[string]float64{"JsonBandwidthUsage": float64(jsize) / (simEnd / 1000) / 1024, "TsonBandwidthUsage": float64(tsize) / (simEnd / 1000) / 1024,
		"PatchReduction": (1 - float64(changes)/float64(len(us)+changes)) * 100} {
		got, err := strconv.ParseFloat(s.results[name], 64)
		if err != nil || math.Abs(got-want) > 0.00501 {
			return fmt.Errorf("results.csv: %s is %s, want %.2f", name, s.results[name], want)
		}
	}

	// Cumulative counts: patches before each multiple of 10 seconds
	if len(s.cumulative) != simEnd/10000 {
		return fmt.Errorf("cumulative.csv has %d rows", len(s.cumulative))
	}
	i, jn, tn := 0, 0, 0
	for r, row := range s.cumulative {
		for i < len(us) && us[i].t < int64(r)*10000 {
			jn++
			if us[i].changed {
				jn++
				tn++
			}
			i++
		}
		if row["TimeMs"] != fmt.Sprint(r*10000) || row["JsonPatchCount"] != fmt.Sprint(jn) || row["TsonPatchCount"] != fmt.Sprint(tn) {
			return fmt.Errorf("cumulative.csv: row %d is %v, want %d, %d", r+1, row, jn, tn)
		}
	}
	return s.checkSeries(root, initJ, us)
}

// checkSeries checks the recorded series of the key signals: the value each
// signal had before the updates of the step.
func (s simRun) checkSeries(root string, init map[string]signal, us []update) error {
	for _, p := range exp.KeySensorPaths {
		if exp.VSSSensors[p] == nil {
			continue
		}
		name := filepath.Base(p) + ".csv"
		rows, err := readTable(filepath.Join(root, simRoot, s.scenario, "sensor_data", name))
		if err != nil {
			return err
		}
		if len(rows) != simEnd/simStep {
			return fmt.Errorf("%s has %d rows", name, len(rows))
		}
		shared := 0 // several signals may be recorded under the same name
		for _, q := range exp.KeySensorPaths {
			if filepath.Base(q) == filepath.Base(p) {
				shared++
			}
		}
		if shared > 1 {
			continue
		}
		val := init[p].val
		i := 0
		for r, row := range rows {
			t := int64(r) * simStep
			for i < len(us) && us[i].t < t {
				if us[i].path == p && us[i].changed {
					val = us[i].val
				}
				i++
			}
			want := fmt.Sprint(val)
			if f, ok := val.(float64); ok {
				want = fmt.Sprintf("%.4f", f)
			}
			if row["SimulationTimeMs"] != fmt.Sprint(t) || row["Value"] != want {
				return fmt.Errorf("%s: row %d is %v, want %s at %d", name, r+1, row, want, t)
			}
		}
	}
	return nil
}

func compactSize(b []byte) int {
	var x json.RawMessage
	must(json.Unmarshal(b, &x))
	c, err := json.Marshal(x)
	must(err)
	return len(c)
}

// checkPatterns decides C35: the values follow the pattern of the scenario.
func (s simRun) checkPatterns(c *Ctx) error {
	us, err := s.updates()
	if err != nil {
		return err
	}
	init, err := signalsOf("initial_json", s.initJSON, "timestamp")
	if err != nil {
		return err
	}
	sensors := sensorsOf(exp.InitializeVehicleData(s.scenario))
	val := map[string]any{}
	toggles, flips, prob := map[string]int{}, map[string]int{}, map[string]float64{}
	up, down, free := map[string]int{}, map[string]int{}, map[string]int{} // random moves by more than half of the greatest, and all of them
	for p, v := range init {
		val[p] = v.val
	}
	still := map[string]int{} // updates without a change of signals which draw a new value in each
	for i, u := range us {
		sn := sensors[u.path]
		if sn == nil {
			return fmt.Errorf("update of the unknown signal %q", u.path)
		}
		old, now := val[u.path], val[u.path]
		if u.changed {
			now = u.val
		}
		val[u.path] = now
		what := fmt.Sprintf("%s: update %d of %q (%s %s, %v) at %d from %v to %v", s.scenario, i+1, u.path, sn.Type, sn.ChangePattern, sn.ChangeParams, u.t, old, now)
		if reflect.TypeOf(old) != reflect.TypeOf(now) {
			return fmt.Errorf("%s changes the type", what)
		}
		g := sn.ChangeParams
		switch o := old.(type) {
		case float64:
			n := now.(float64)
			clamp := func(x float64) float64 { return min(max(x, g["min"]), g["max"]) }
			// exact says what the value has to be, unless too close to the old one
			exact := func(want float64) error {
				if u.changed && math.Abs(n-want) > 1e-9*max(1, math.Abs(want)) || !u.changed && math.Abs(o-want) >= simEqual+1e-9 {
					return fmt.Errorf("%s, want %v", what, want)
				}
				return nil
			}
			switch sn.ChangePattern {
			case "linear":
				if err := exact(clamp(o + g["slope"]*float64(sn.UpdateInterval)/1000)); err != nil {
					return err
				}
			case "sinusoidal":
				if err := exact(g["baseline"] + g["amplitude"]*math.Sin(2*math.Pi*(float64(u.t)+g["phase"])/g["period"])); err != nil {
					return err
				}
			case "random_walk":
				slack := 1e-9 * max(1, g["step_size"], math.Abs(o))
				if u.changed && (n < clamp(o-g["step_size"])-slack || n > clamp(o+g["step_size"])+slack || n < g["min"] || n > g["max"]) {
					return fmt.Errorf("%s is out of reach", what)
				}
				if o-g["step_size"] > g["min"] && o+g["step_size"] < g["max"] && g["step_size"] > 10*simEqual {
					free[u.path]++
					if n-o > g["step_size"]/2 {
						up[u.path]++
					} else if n-o < -g["step_size"]/2 {
						down[u.path]++
					}
				}
				// A step is too small to count with a probability of at most 1:10,
				// unless a bound may be in the way
				if !u.changed && g["step_size"] > 10*simEqual && o > g["min"]+2*simEqual && o < g["max"]-2*simEqual {
					still[u.path]++
				} else {
					still[u.path] = 0
				}
			case "constant_with_noise":
				if !u.changed && g["noise"] > 20*simEqual {
					still[u.path]++
				} else {
					still[u.path] = 0
				}
				if u.changed && math.Abs(n-g["baseline"]) > g["noise"]*(1+1e-9) {
					return fmt.Errorf("%s is out of reach", what)
				}
				if u.changed && g["noise"] > 10*simEqual {
					free[u.path]++
					if n-g["baseline"] > g["noise"]/2 {
						up[u.path]++
					} else if n-g["baseline"] < -g["noise"]/2 {
						down[u.path]++
					}
				}
			case "stepped", "triggered":
			default: // constant, and patterns which numbers do not have
				if u.changed {
					return fmt.Errorf("%s changes", what)
				}
			}
		case bool:
			switch sn.ChangePattern {
			case "toggle", "triggered":
				toggles[u.path]++
				prob[u.path] = g["toggle_probability"]
				if sn.ChangePattern == "triggered" {
					prob[u.path] = g["threshold"]
				}
				if u.changed {
					flips[u.path]++
				}
			default:
				if u.changed {
					return fmt.Errorf("%s changes", what)
				}
			}
		case string:
			if u.changed && sn.ChangePattern != "random_selection" {
				return fmt.Errorf("%s changes", what)
			}
		default:
			return fmt.Errorf("%s is of type %T", what, old)
		}
		if u.changed {
			c.Class(true, s.scenario+": "+sn.ChangePattern)
		}
		if still[u.path] > 40 {
			return fmt.Errorf("%s: %q (%s, %v) did not move in 40 updates up to %d", s.scenario, u.path, sn.ChangePattern, sn.ChangeParams, u.t)
		}
	}
	all, mean, variance, times := 0, 0.0, 0.0, 0
	for p, n := range toggles {
		all += n
		times += flips[p]
		mean += float64(n) * prob[p]
		variance += float64(n) * prob[p] * (1 - prob[p])
	}
	if mean >= 50 && math.Abs(float64(times)-mean) > 8*math.Sqrt(variance)+1 {
		return fmt.Errorf("%s: %d signals were toggled %d times in %d updates, which should be about %.0f times", s.scenario, len(toggles), times, all, mean)
	}
	c.Class(mean >= 330, "toggling at half of the probability would be noticed")
	for p, n := range toggles {
		if n >= 200 && !near(flips[p], n, prob[p]) {
			return fmt.Errorf("%s: %q was toggled %d times in %d updates, with a probability of %v", s.scenario, p, flips[p], n, prob[p])
		}
	}
	// Random moves use their whole range: each side's outer half is drawn every fourth time
	for p, n := range free {
		if n >= 200 && min(up[p], down[p]) == 0 {
			return fmt.Errorf("%s: of %d moves of %q (%s, %v) %d are up and %d down by more than half of the range", s.scenario, n, p, sensors[p].ChangePattern, sensors[p].ChangeParams, up[p], down[p])
		}
		c.Class(n >= 200, "range of random moves judged")
	}
	// A random signal moves
	moved := map[string]int{}
	count := map[string]int{}
	for _, u := range us {
		count[u.path]++
		if u.changed {
			moved[u.path]++
		}
	}
	for p, sn := range sensors {
		g := sn.ChangeParams
		big := sn.ChangePattern == "random_walk" && g["step_size"] > 10*simEqual && g["max"]-g["min"] >= 4*g["step_size"] || sn.ChangePattern == "constant_with_noise" && g["noise"] > 10*simEqual
		if sn.Type == "number" && big && count[p] >= 30 && moved[p]*4 < count[p] {
			// (a walk held at a bound half of the time still moves)
			return fmt.Errorf("%s: %q (%s) changed in %d of %d updates only", s.scenario, p, sn.ChangePattern, moved[p], count[p])
		}
	}
	return nil
}

// simulate runs the simulation in the scratch directory of the case.
func simulate(c *Ctx, check func(simRun) error) error {
	if err := inDir(c.Dir(), func() error { exp.RealworldScenario(); return nil }); err != nil {
		return err
	}
	for _, sc := range simScenarios {
		s, err := readSim(c.Dir(), sc)
		if err == nil {
			err = check(s)
		}
		if err != nil {
			return fmt.Errorf("%s: %v", sc, err)
		}
	}
	return nil
}

func init() {
	add("C30", "files", 8, "always (each case is a run of all scenarios; three of four with other bounds, intervals, initial values and patterns of the signals)", genSimTable, func(c *Ctx, k simCase) error {
		c.NonTrivial(true)
		defer k.configure()()
		return simulate(c, func(s simRun) error { return s.check(c.Dir()) })
	})
	add("C35", "patterns", 10, "always (each case is a run of all scenarios; three of four with other bounds, intervals, initial values and patterns of the signals)", genSimTable, func(c *Ctx, k simCase) error {
		c.NonTrivial(true)
		defer k.configure()()
		return simulate(c, func(s simRun) error { return s.checkPatterns(c) })
	})
	// Runs in its own property: the temporal experiments leave only one scenario enabled
	add("C34", "pipeline", 2, "always (each case is a run of the whole pipeline)", genSim, checkPipeline)
	add("C34", "written", 30, "the initial documents and patches (as a simulation leaves them, with removals and additions) of 1 to 3 runs, started at times close to and far from each other; non-trivial = more than 5 patches in the latest run", genWritten, checkWritten)
}

// checkPipeline runs the simulation and then the temporal experiments on its
// files.
func checkPipeline(c *Ctx, k simCase) error {
	c.NonTrivial(true)
	const sc = "urban_traffic"
	return inDir(c.Dir(), func() error {
		exp.RealworldScenario()
		s, err := readSim(".", sc)
		if err != nil {
			return err
		}
		// Older results, and what is no result, are not to be used
		run, err := time.Parse("20060102_150405", filepath.Base(s.dir))
		if err != nil {
			return harnessError{err}
		}
		older := func(t time.Time) string { return t.Format("20060102_150405") }
		midnight := run.Truncate(24 * time.Hour)
		for _, name := range []string{"20000101_000000", "99991231", "zz", "99991231_000000_old", "x99991231_000000", "99991231-235959", "9999123a_000000",
			older(run.Add(-time.Second)), older(run.Add(-24*time.Hour + time.Minute)), older(midnight.Add(-time.Second)),
			older(time.Date(run.Year()-1, 12, 31, 23, 59, 59, 0, time.UTC)),
			older(time.Date(run.Year(), run.Month()-1, 28, 23, 59, 59, 0, time.UTC))} {
			dir := filepath.Join(simRoot, sc, name)
			must(os.MkdirAll(dir, 0o755))
			must(os.WriteFile(filepath.Join(dir, "initial_json.json"), []byte(`{"Old":{"value":1,"timestamp":1}}`), 0o644))
			must(os.WriteFile(filepath.Join(dir, "all_tson_patches.json"), []byte(`[{"op":"replace","path":"Old","value":2,"timestamp":5}]`), 0o644))
		}
		must(os.WriteFile(filepath.Join(simRoot, sc, "99991231_235959"), []byte("a file"), 0o644))
		// What else a run may store is not part of the patches and initial document
		for _, name := range []string{"tson_patch_0001.json", "json_patch_0001.json", "my_all_tson_patches.json", "all_tson_patches.json.bak", "all_tson_patches_2.json"} {
			must(os.WriteFile(filepath.Join(s.dir, name), []byte(`[{"op":"replace","path":"Old","value":2,"timestamp":5}]`), 0o644))
		}
		for _, name := range []string{"tson_snapshot_000000005.json", "json_snapshot_000000005.json"} {
			must(os.WriteFile(filepath.Join(s.dir, name), []byte(`{"Old":{"value":1,"timestamp":1}}`), 0o644))
		}
		exp.RunTemporalQueryExperiments()

		init, err := signalsOf("initial_json", s.initJSON, "timestamp")
		if err != nil {
			return err
		}
		var ec expCase
		for _, p := range s.tsonPatches {
			v, err := fromAny(p.Value)
			if err != nil {
				return err
			}
			v.T = 0
			ec.Ops = append(ec.Ops, Op{Op: p.Op, Path: p.Path, V: v, T: p.Timestamp})
		}
		if len(ec.Ops) == 0 {
			return fmt.Errorf("no patches")
		}
		base := vObj()
		for p, sg := range init {
			segs := strings.Split(p, ".")
			at := base
			for _, seg := range segs[:len(segs)-1] {
				if at.get(seg) == nil {
					at.put(seg, vObj())
				}
				at = at.get(seg)
			}
			v, err := fromAny(sg.val)
			if err != nil {
				return err
			}
			v.T = -1
			at.put(segs[len(segs)-1], v)
		}
		ec.Init = base
		return checkAnswers(sc, ec)
	})
}

// checkAnswers checks the files which the temporal experiments left for the
// scenario, given its initial document and patches.
func checkAnswers(sc string, ec expCase) error {
	base := ec.Init.untimed()
	m := livesOf(append(base.initOps(), ec.Ops...))
	d := &MDoc{base: base, vers: [][]Op{ec.Ops}}
	lo, hi := ec.Ops[0].T, ec.Ops[0].T
	for _, o := range ec.Ops {
		lo, hi = min(lo, o.T), max(hi, o.T)
	}

	out := filepath.Join("results/temporal_query_experiment", sc, "temporal_query")
	load := func(table, lg, tj string) ([]exp.TemporalQueryResult, error) {
		rows, err := readTable(filepath.Join(out, table))
		if err != nil {
			return nil, err
		}
		var rs []exp.TemporalQueryResult
		for i, row := range rows {
			r := exp.TemporalQueryResult{QueryType: row["QueryType"], Parameter: row["Parameter"]}
			r.LogumentResultSize, _ = strconv.Atoi(row["LogumentResultSize"])
			r.TJSONResultSize, _ = strconv.Atoi(row["TJSONResultSize"])
			l, _ := filepath.Glob(filepath.Join(out, "logument", fmt.Sprintf("%s_%d_*.json", lg, i)))
			t, _ := filepath.Glob(filepath.Join(out, "tjson", fmt.Sprintf("%s_%d_*.json", tj, i)))
			if len(l) != 1 || len(t) != 1 || row["Scenario"] != sc {
				return nil, fmt.Errorf("%s row %d (%v): result files %v and %v", table, i+1, row, l, t)
			}
			r.LogumentResultFile, r.TJSONResultFile = l[0], t[0]
			rs = append(rs, r)
		}
		return rs, nil
	}
	snaps, err := load("snapshot_results.csv", "snapshot_logument", "snapshot_tjson")
	if err != nil {
		return err
	}
	var times []int64
	for i, r := range snaps {
		t, err := strconv.ParseInt(r.Parameter, 10, 64)
		if err != nil {
			return fmt.Errorf("snapshot %d has the parameter %s", i, r.Parameter)
		}
		times = append(times, t)
		if i%10 == 0 || i == len(snaps)-1 {
			if err := checkSnapshotResult(r, m, d.ts(t).Tson(), t); err != nil {
				return err
			}
		}
	}
	if len(times) < 2 || !slices.IsSorted(times) || times[0] != lo || times[len(times)-1] != hi {
		return fmt.Errorf("snapshots were taken at %v, the patches are in %d..%d", times, lo, hi)
	}
	tracks, err := load("track_results.csv", "track_logument", "track_tjson")
	if err != nil {
		return err
	}
	if len(tracks) == 0 {
		return fmt.Errorf("no tracks")
	}
	for _, r := range tracks {
		w, err := parseWindow(r.Parameter)
		if err != nil {
			return err
		}
		if w.A != lo || w.B != hi {
			return fmt.Errorf("track %s, want the range %d..%d", r.Parameter, lo, hi)
		}
		if err := checkTrackResult(r, m, ec.changes(w), w); err != nil {
			return err
		}
	}
	events, err := load("event_search_results.csv", "event_logument", "event_tjson")
	if err != nil {
		return err
	}
	if len(events) == 0 {
		return fmt.Errorf("no event searches")
	}
	for _, r := range events {
		path, rest, ok := strings.Cut(r.Parameter, " > ")
		th, rest, ok2 := strings.Cut(rest, " ")
		w, err := parseWindow(path + " " + rest)
		if err != nil || !ok || !ok2 {
			return fmt.Errorf("event search %s", r.Parameter)
		}
		if w.Th, err = strconv.ParseFloat(th, 64); err != nil {
			return fmt.Errorf("event search %s", r.Parameter)
		}
		if w.A < lo || w.B > hi || w.B-w.A != 10000 {
			return fmt.Errorf("event search %s is not in %d..%d", r.Parameter, lo, hi)
		}
		if err := checkEventResult(r, m, ec.changes(w), w); err != nil {
			return err
		}
	}
	return nil
}

type writtenRun struct {
	Name string `json:"name"`
	expCase
}

type writtenCase struct {
	Runs []writtenRun `json:"runs"`
}

// genWritten draws the files of one to three runs, which need not have come
// from the simulation.
func genWritten(rt *rapid.T) (k writtenCase) {
	start := time.Unix(int64(rapid.IntRange(946684800, 2000000000).Draw(rt, "start")), 0).UTC()
	names := map[string]bool{}
	for n := pick(rt, "runs", 1, 2, 3); n > 0; n-- {
		r := writtenRun{Name: start.Format("20060102_150405"), expCase: genVehicle(rt)}
		if !names[r.Name] {
			k.Runs = append(k.Runs, r)
		}
		names[r.Name] = true
		start = start.Add(time.Duration(pick(rt, "later", 1, 60, 3600, -1, -86400, 86400, 31536000)) * time.Second)
	}
	return k
}

func genVehicle(rt *rapid.T) (k expCase) {
	num := func() *V { return vNum(float64(rapid.IntRange(-20, 800).Draw(rt, "num"))/8, 0) }
	leaf := []string{"Vehicle.Speed", "Vehicle.CurrentLocation.Latitude", "Vehicle.CurrentLocation.Longitude", "Vehicle.Powertrain.TractionBattery.StateOfCharge.Current",
		"Vehicle.IsMoving", "Vehicle.Service.DueTime", "Vehicle.Cabin.Door.IsOpen", "Vehicle.Name"}
	k.Init = vObj()
	for i, p := range leaf {
		if i > 3 && rapid.Bool().Draw(rt, "absent") {
			continue
		}
		at, segs := k.Init, strings.Split(p, ".")
		for _, seg := range segs[:len(segs)-1] {
			if at.get(seg) == nil {
				at.put(seg, vObj())
			}
			at = at.get(seg)
		}
		v := num()
		switch p {
		case "Vehicle.IsMoving", "Vehicle.Cabin.Door.IsOpen":
			v = vBool(rapid.Bool().Draw(rt, "bool"), 0)
		case "Vehicle.Name":
			v = vStr(pick(rt, "str", "x", "y", ""), 0)
		}
		v.T = rapid.SampledFrom([]int64{0, 1, 1745000000123}).Draw(rt, "t")
		at.put(segs[len(segs)-1], v)
	}
	doc := k.Init.untimed()
	t := pick[int64](rt, "base", 0, 100, 1700000000000, 1745000000000000000)
	lo := t
	for n := rapid.IntRange(1, 40).Draw(rt, "n"); n >= 0; n-- {
		if n == 0 && t-lo < 10000 {
			t = lo + 10000 // the event search needs this much
		}
		o := Op{Op: "replace", Path: rapid.SampledFrom(leaf).Draw(rt, "leaf"), T: t}
		if len(k.Ops) == 0 {
			lo = t
		}
		old := doc.at(splitPath(o.Path))
		switch {
		case old == nil:
			o.Op, o.V = "add", num()
		case n > 0 && chance(rt, 8):
			o.Op = "remove"
		case chance(rt, 20):
			o.V = old.clone()
			o.V.T = 0
		case old.K == "b":
			o.V = vBool(!old.B, 0)
		case old.K == "s":
			o.V = vStr(pick(rt, "str", "x", "y", ""), 0)
		default:
			o.V = num()
		}
		k.Ops = append(k.Ops, o)
		doc = applyAll(doc, []Op{o})
		t += pick[int64](rt, "dt", 0, 1, 100, 100, 1000, 7000)
	}
	return k
}

// checkWritten has the temporal experiments work on written files.
func checkWritten(c *Ctx, k writtenCase) error {
	const sc = "urban_traffic"
	return inDir(c.Dir(), func() error {
		latest := k.Runs[0]
		for _, r := range k.Runs {
			dir := filepath.Join(simRoot, sc, r.Name)
			r.write(dir)
			b, err := json.Marshal(sutPatch(r.Ops))
			must(err)
			must(os.WriteFile(filepath.Join(dir, "all_tson_patches.json"), b, 0o644))
			if r.Name > latest.Name {
				latest = r
			}
		}
		c.NonTrivial(len(latest.Ops) > 5)
		c.Class(len(k.Runs) > 1, "several runs")
		exp.RunTemporalQueryExperiments()
		return checkAnswers(sc, latest.expCase)
	})
}

// parseWindow reads "path (a-b)".
func parseWindow(s string) (w window, err error) {
	path, rest, ok := strings.Cut(s, " (")
	a, b, ok2 := strings.Cut(strings.TrimSuffix(rest, ")"), "-")
	if !ok || !ok2 {
		return w, fmt.Errorf("unreadable parameter %q", s)
	}
	w.K = path
	if w.A, err = strconv.ParseInt(a, 10, 64); err != nil {
		return w, err
	}
	w.B, err = strconv.ParseInt(b, 10, 64)
	return w, err
}
