package zzverif

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/exp"
	"pgregory.net/rapid"
)

// C41: what the recorder and the store of an experiment are given is on disk.

// sigAt is the state of one key signal in one step.
type sigAt struct {
	Group int `json:"g"` // group of the vehicle data it is in, -1 = absent
	Value *V  `json:"v"`
}

type recStep struct {
	Rec  int     `json:"rec"` // which recorder
	Time int64   `json:"t"`
	Sigs []sigAt `json:"sigs"`
}

type recCase struct {
	Recs  int       `json:"recs"`
	Steps []recStep `json:"steps"`
	Close []int     `json:"close"`
}

func genRec(rt *rapid.T) recCase {
	k := recCase{Recs: rapid.IntRange(1, 3).Draw(rt, "recs")}
	n := rapid.IntRange(0, 25).Draw(rt, "steps")
	if chance(rt, 5) {
		n = rapid.IntRange(300, 900).Draw(rt, "many") // beyond the buffer of a writer
	}
	groups := make([]int, len(exp.KeySensorPaths))
	for i := range groups {
		groups[i] = rapid.IntRange(-1, 5).Draw(rt, "group")
	}
	t := pick(rt, "start", int64(0), 0, 100, 999)
	if chance(rt, 25) { // late in a long run
		t = pick(rt, "late", int64(9000), 59500, 99000, 299000, 3599000, 86399000, math.MaxInt32-1647, 4294966000, 1745000000123)
	}
	step := pick(rt, "step", int64(100), 100, 500, 1000, 1)
	for i := 0; i < n; i++ {
		s := recStep{Rec: rapid.IntRange(0, k.Recs-1).Draw(rt, "rec"), Time: t}
		for j := range exp.KeySensorPaths {
			if n < 100 && chance(rt, 5) {
				groups[j] = rapid.IntRange(-1, 5).Draw(rt, "group")
			}
			a := sigAt{Group: groups[j]}
			switch {
			case n >= 100:
				a.Value = &V{K: "n", N: float64(i)}
			case chance(rt, 70):
				a.Value = &V{K: "n", N: genNumber(rt)}
			case chance(rt, 50):
				a.Value = &V{K: "b", B: rapid.Bool().Draw(rt, "bool")}
			default:
				a.Value = &V{K: "s", S: strings.ReplaceAll(genString(rt), "\r", "")}
			}
			s.Sigs = append(s.Sigs, a)
		}
		k.Steps = append(k.Steps, s)
		t += step
	}
	return k
}

func vehicleOf(sigs []sigAt) *exp.VehicleData {
	v := &exp.VehicleData{
		SensorsHighFreq: map[string]*exp.SensorData{}, SensorsMedFreq: map[string]*exp.SensorData{}, SensorsLowFreq: map[string]*exp.SensorData{},
		ActuatorsHighVar: map[string]*exp.SensorData{}, ActuatorsLowVar: map[string]*exp.SensorData{}, Attributes: map[string]*exp.SensorData{},
	}
	groups := []map[string]*exp.SensorData{v.SensorsHighFreq, v.SensorsMedFreq, v.SensorsLowFreq, v.ActuatorsHighVar, v.ActuatorsLowVar, v.Attributes}
	kinds := map[string]string{"n": "number", "b": "boolean", "s": "string"}
	for i, a := range sigs {
		if a.Group >= 0 {
			p := exp.KeySensorPaths[i]
			groups[a.Group][p] = &exp.SensorData{Path: p, Value: a.Value.anyJSON(), Type: kinds[a.Value.K]}
		}
	}
	// A signal which is no key signal is not recorded
	v.SensorsHighFreq["Vehicle.Other"] = &exp.SensorData{Path: "Vehicle.Other", Value: 1.0, Type: "number"}
	return v
}

func valueText(v *V) string {
	switch v.K {
	case "n":
		return strconv.FormatFloat(v.N, 'f', 4, 64)
	case "b":
		return strconv.FormatBool(v.B)
	}
	return v.S
}

// checkRecord compares a record on disk. With whole false, the last rows may
// be missing still (all after the first due ones).
func checkRecord(what, file string, want [][]string, due int, whole bool) error {
	f, err := os.Open(file)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	defer f.Close()
	r := csv.NewReader(f)
	r.FieldsPerRecord = -1
	rows, err := r.ReadAll()
	if err != nil && whole {
		return fmt.Errorf("%s: %v", what, err)
	}
	if len(rows) == 0 || !slices.Equal(rows[0], []string{"TimestampMs", "SimulationTimeMs", "Value"}) {
		return fmt.Errorf("%s begins with %.200q", what, rows)
	}
	rows = rows[1:]
	if whole && len(rows) != len(want) || len(rows) < due {
		return fmt.Errorf("%s has %d rows of %d (of which %d must be there)", what, len(rows), len(want), due)
	}
	if !whole {
		rows = rows[:due]
	}
	last := int64(0)
	for i, row := range rows {
		if len(row) != 3 || row[1] != want[i][0] || row[2] != want[i][1] {
			return fmt.Errorf("%s: row %d is %q, want the time and value %q", what, i, row, want[i])
		}
		t, err := strconv.ParseInt(row[0], 10, 64)
		if err != nil || t < last {
			return fmt.Errorf("%s: row %d is written at %q after %d", what, i, row[0], last)
		}
		last = t
	}
	return nil
}

type saveStep struct {
	Store int    `json:"store"`
	What  int    `json:"what"`
	Index int64  `json:"i"`
	Data  *V     `json:"data"`
	Ops   []Op   `json:"ops"`
	Kind  string `json:"kind"`
}

type storeCase struct {
	Names []string   `json:"names"`
	Saves []saveStep `json:"saves"`
}

// storeFiles are the documents a store keeps, and whether there is one for each index.
var storeFiles = []struct {
	name    string
	indexed bool
	save    func(ds *exp.DataStorage, i int64, data any) error
}{
	{"initial_json.json", false, func(ds *exp.DataStorage, _ int64, d any) error { return ds.SaveInitialJSON(d) }},
	{"initial_tson.json", false, func(ds *exp.DataStorage, _ int64, d any) error { return ds.SaveInitialTSON(d) }},
	{"final_json.json", false, func(ds *exp.DataStorage, _ int64, d any) error { return ds.SaveFinalJSON(d) }},
	{"final_tson.json", false, func(ds *exp.DataStorage, _ int64, d any) error { return ds.SaveFinalTSON(d) }},
	{"all_json_patches.json", false, func(ds *exp.DataStorage, _ int64, d any) error { return ds.SaveAllJSONPatches(d) }},
	{"all_tson_patches.json", false, func(ds *exp.DataStorage, _ int64, d any) error { return ds.SaveAllTSONPatches(d) }},
	{"json_patch_%04d.json", true, func(ds *exp.DataStorage, i int64, d any) error { return ds.SaveJSONPatch(int(i), d) }},
	{"tson_patch_%04d.json", true, func(ds *exp.DataStorage, i int64, d any) error { return ds.SaveTSONPatch(int(i), d) }},
	{"json_snapshot_%09d.json", true, func(ds *exp.DataStorage, i int64, d any) error { return ds.SaveJSONSnapshot(i, d) }},
	{"tson_snapshot_%09d.json", true, func(ds *exp.DataStorage, i int64, d any) error { return ds.SaveTSONSnapshot(i, d) }},
}

func (s saveStep) file() string {
	f := storeFiles[s.What]
	if f.indexed {
		return fmt.Sprintf(f.name, s.Index)
	}
	return f.name
}

func (s saveStep) data() any {
	switch s.Kind {
	case "json patch":
		l := []exp.JsonPatch{}
		for _, o := range s.Ops {
			l = append(l, exp.JsonPatch{Op: o.Op, Path: o.Path, Value: o.value()})
		}
		return l
	case "tson patch":
		return expPatches(s.Ops)
	case "nan":
		return map[string]any{"a": s.Data.anyJSON(), "b": []any{math.NaN()}}
	case "channel":
		return []any{s.Data.anyJSON(), make(chan int)}
	}
	return s.Data.anyJSON()
}

func genStore(rt *rapid.T) storeCase {
	k := storeCase{Names: []string{"urban_traffic"}}
	if chance(rt, 40) {
		k.Names = append(k.Names, "highway_cruising")
	}
	for i, n := 0, rapid.IntRange(1, 12).Draw(rt, "saves"); i < n; i++ {
		s := saveStep{Store: rapid.IntRange(0, len(k.Names)-1).Draw(rt, "store"), What: rapid.IntRange(0, len(storeFiles)-1).Draw(rt, "what")}
		if i > 0 && chance(rt, 40) {
			s.What = k.Saves[i-1].What
		}
		s.Index = pick(rt, "index", int64(0), 1, 2, 10, 100, 9999, 10000, 123456, 1000000000, 12345678901)
		if chance(rt, 20) {
			s.Index = pick(rt, "large", int64(255), 256, 999, 1000, 65535, 65536, 999999999, 1<<31-1, 1<<31, 1<<32, 1<<53+1, rapid.Int64Range(0, 1<<62).Draw(rt, "any"))
		}
		s.Kind = pick(rt, "kind", "doc", "doc", "doc", "json patch", "tson patch", "nan", "channel")
		s.Data = genDoc(rt, docOpts{depth: 3})
		if chance(rt, 2) {
			s.Data = genSized(rt, 65, 130, 300, 1000, 3000).doc()
		}
		if strings.Contains(s.Kind, "patch") {
			leaves := []string{"a", "b/c", "b/d~e"}
			for j, m := 0, pick(rt, "ops", rapid.IntRange(0, 6).Draw(rt, "few"), 0, 1, 200); j < m; j++ {
				s.Ops = append(s.Ops, Op{Op: pick(rt, "op", "add", "replace", "remove"), Path: pick(rt, "path", leaves...), V: genExpValue(rt), T: genTime(rt)})
			}
		}
		k.Saves = append(k.Saves, s)
	}
	return k
}

func init() {
	add("C41", "recorder", 400, "1-3 recorders side by side, fed vehicles whose key signals are in generated groups (or absent, or moving between groups) with generated values, looked at after every full second and after closing; non-trivial = at least 3 steps with at least 2 present signals", genRec, func(c *Ctx, k recCase) error {
		dir := c.Dir()
		recs := make([]*exp.SensorDataRecorder, k.Recs)
		name := func(r int) string { return fmt.Sprintf("scenario_%d", r) }
		file := func(r int, p string) string {
			return filepath.Join(dir, "out", name(r), "sensor_data", p+".csv")
		}
		for r := range recs {
			var err error
			if recs[r], err = exp.NewSensorDataRecorder(filepath.Join(dir, "out"), name(r)); err != nil {
				return fmt.Errorf("creating a recorder: %v", err)
			}
		}
		want := map[[2]int][][]string{}
		full := 0
		for i, s := range k.Steps {
			if err := recs[s.Rec].RecordSensorData(s.Time, vehicleOf(s.Sigs)); err != nil {
				return fmt.Errorf("step %d: %v", i, err)
			}
			present := 0
			for j, a := range s.Sigs {
				if a.Group >= 0 {
					present++
					at := [2]int{s.Rec, j}
					want[at] = append(want[at], []string{fmt.Sprint(s.Time), valueText(a.Value)})
				}
			}
			c.NonTrivial(len(k.Steps) >= 3 && present >= 2)
			if s.Time%1000 != 0 || len(k.Steps) > 100 && full > 5 && full%10 != 0 && i < len(k.Steps)-100 {
				full++
				continue
			}
			full++
			for j, a := range s.Sigs {
				if at := [2]int{s.Rec, j}; a.Group >= 0 {
					p := exp.KeySensorPaths[j]
					if err := checkRecord(fmt.Sprintf("record of %s at %d ms", p, s.Time), file(s.Rec, p), want[at], len(want[at]), false); err != nil {
						return err
					}
				}
			}
		}
		c.Class(len(k.Steps) > 100, "long")
		c.Class(k.Recs > 1, "side by side")
		for r := range recs {
			recs[r].Close()
			for j, p := range exp.KeySensorPaths {
				if err := checkRecord(fmt.Sprintf("record of %s after closing", p), file(r, p), want[[2]int{r, j}], 0, true); err != nil {
					return err
				}
			}
			var files []string
			for _, p := range exp.KeySensorPaths {
				files = append(files, filepath.Base(file(r, p)))
			}
			slices.Sort(files)
			if got := listFiles(filepath.Dir(file(r, "x"))); !slices.Equal(got, files) {
				return fmt.Errorf("the records are %v, want %v", got, files)
			}
		}
		if files := c.open(); len(files) > 0 {
			return fmt.Errorf("after closing the recorders, %v are open", files)
		}
		return nil
	})

	add("C41", "store", 2500, "1-12 documents, patches and snapshots saved to 1-2 stores, some under the same name again, some which cannot be written as JSON; non-trivial = at least 3 saves", genStore, func(c *Ctx, k storeCase) error {
		base := filepath.Join(c.Dir(), "out")
		var stores []*exp.DataStorage
		want := make([]map[string]any, len(k.Names))
		for i, n := range k.Names {
			ds := exp.NewDataStorage(base, n)
			if rel, err := filepath.Rel(filepath.Join(base, n), ds.OutputDir); err != nil || strings.Contains(rel, "/") || rel == "." {
				return fmt.Errorf("the store of %s is %s", n, strings.TrimPrefix(ds.OutputDir, base))
			}
			stores = append(stores, ds)
			want[i] = map[string]any{}
		}
		c.NonTrivial(len(k.Saves) >= 3)
		check := func() error {
			for i, ds := range stores {
				var names []string
				for f := range want[i] {
					names = append(names, f)
				}
				slices.Sort(names)
				if got := listFiles(ds.OutputDir); !slices.Equal(got, names) {
					return fmt.Errorf("the store has the files %v, want %v", got, names)
				}
				for f, w := range want[i] {
					b, err := os.ReadFile(filepath.Join(ds.OutputDir, f))
					if err != nil {
						return err
					}
					if !json.Valid(b) || !reflect.DeepEqual(decodeAny(b), w) {
						return fmt.Errorf("%s holds %.500s, want %v", f, b, w)
					}
				}
			}
			return nil
		}
		for i, s := range k.Saves {
			err := storeFiles[s.What].save(stores[s.Store], s.Index, s.data())
			if bad := s.Kind == "nan" || s.Kind == "channel"; bad {
				if err == nil {
					return fmt.Errorf("save %d of data which is no JSON gives no error", i)
				}
				_, there := want[s.Store][s.file()]
				c.Class(there, "failed save over a saved document")
				if err := check(); err != nil {
					return fmt.Errorf("after the failed save %d: %v", i, err)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("save %d: %v", i, err)
			}
			_, there := want[s.Store][s.file()]
			c.Class(there, "saved again")
			b, err := json.Marshal(s.data())
			must(err)
			want[s.Store][s.file()] = decodeAny(b)
		}
		return check()
	})
}
