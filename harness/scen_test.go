package zzverif

import (
	"fmt"
	"maps"
	"math"
	"reflect"
	"slices"
	"sort"

	"github.com/CAU-CPSS/logument/exp"
	"pgregory.net/rapid"
)

const socPath = "Vehicle.Powertrain.TractionBattery.StateOfCharge.Current"

// patternFor is the pattern a signal has in a scenario: the one of its
// definition, or else the one it had.
func patternFor(def *exp.VSSSensor, scenario, old string) string {
	if p, ok := def.ChangePatterns[scenario]; ok {
		return p
	}
	return old
}

// paramsOf lists the parameters a pattern needs.
var paramsOf = map[string][]string{
	"random_walk":         {"step_size", "min", "max"},
	"linear":              {"slope", "min", "max"},
	"sinusoidal":          {"amplitude", "period", "baseline"},
	"constant_with_noise": {"baseline", "noise"},
	"toggle":              {"toggle_probability"},
}

var allPatterns = []string{"constant", "linear", "sinusoidal", "random_walk", "constant_with_noise", "toggle", "stepped", "triggered", "random_selection"}

func checkSensor(what string, s *exp.SensorData, def *exp.VSSSensor, pattern string) error {
	what = fmt.Sprintf("%s: %q", what, def.Path)
	if s.Path != def.Path || s.Type != def.Type || s.UpdateInterval != def.UpdateInterval {
		return fmt.Errorf("%s is %+v, which does not follow its definition", what, s)
	}
	if s.ChangePattern != pattern {
		return fmt.Errorf("%s has the pattern %s, want %s", what, s.ChangePattern, pattern)
	}
	if !slices.Contains(allPatterns, pattern) {
		return fmt.Errorf("%s has the unknown pattern %q", what, pattern)
	}
	ok := false
	switch v := s.Value.(type) {
	case float64:
		ok = s.Type == "number" && def.Min <= v && v <= def.Max
	case bool:
		ok = s.Type == "boolean"
	case string:
		ok = s.Type == "string"
	}
	if !ok {
		return fmt.Errorf("%s has the value %v (%T), which is no %s of %v..%v", what, s.Value, s.Value, s.Type, def.Min, def.Max)
	}
	for _, name := range paramsOf[pattern] {
		if _, ok := s.ChangeParams[name]; !ok && s.Type == "number" || !ok && pattern == "toggle" {
			return fmt.Errorf("%s (%s) has no parameter %s: %v", what, pattern, name, s.ChangeParams)
		}
	}
	g := s.ChangeParams
	if s.Type == "number" && (pattern == "random_walk" || pattern == "linear") && (g["min"] < def.Min || g["max"] > def.Max || g["min"] > g["max"]) {
		return fmt.Errorf("%s may move in %v..%v, its definition says %v..%v", what, g["min"], g["max"], def.Min, def.Max)
	}
	if s.Type == "number" && def.Min < def.Max {
		ok := true
		switch pattern {
		case "random_walk":
			ok = g["min"] < g["max"] && 0 < g["step_size"] && g["step_size"] < g["max"]-g["min"]
		case "linear":
			ok = g["min"] < g["max"] && g["slope"] != 0
		case "sinusoidal":
			ok = g["period"] > 0 && g["amplitude"] != 0 && g["baseline"]-math.Abs(g["amplitude"]) >= def.Min && g["baseline"]+math.Abs(g["amplitude"]) <= def.Max
		case "constant_with_noise":
			ok = g["noise"] > 0 && g["noise"] < def.Max-def.Min && def.Min <= g["baseline"] && g["baseline"] <= def.Max
		}
		if !ok {
			return fmt.Errorf("%s (%s) of %v..%v cannot move with %v", what, pattern, def.Min, def.Max, g)
		}
	}
	if p, ok := g["toggle_probability"]; ok && (p <= 0 || p > 1) {
		return fmt.Errorf("%s has the toggle probability %v", what, p)
	}
	return nil
}

// checkGroups checks that every defined signal is in the group of its
// category, once.
func checkGroups(v *exp.VehicleData) error {
	n := 0
	for cat, g := range groups(v) {
		n += len(g)
		for p := range g {
			def := exp.VSSSensors[p]
			if def == nil {
				return fmt.Errorf("unknown signal %q", p)
			}
			if def.Category != cat {
				return fmt.Errorf("%q of category %s is in the group %s", p, def.Category, cat)
			}
		}
	}
	if n != len(exp.VSSSensors) {
		return fmt.Errorf("the vehicle has %d signals of %d", n, len(exp.VSSSensors))
	}
	return nil
}

var allScenarios = []string{"urban_traffic", "highway_cruising", "battery_charging", "mixed_scenario", "unknown", ""}

type driveStep struct {
	Dt    int64       `json:"dt"`
	Level float64     `json:"level"`
	Set   bool        `json:"set"`  // the battery reports the level
	Junk  bool        `json:"junk"` // the battery reports no number
	Sets  []signalSet `json:"sets,omitempty"`
}

// signalSet is a value a signal takes between the steps: its least (0) to its
// greatest (4), 0 (5) or little more than 0 (6) if it can.
type signalSet struct {
	Path string `json:"path"`
	N    int    `json:"n"`
}

func (x signalSet) apply(all map[string]*exp.SensorData) {
	s, def := all[x.Path], exp.VSSSensors[x.Path]
	if s == nil {
		return
	}
	switch v := s.Value.(type) {
	case float64:
		s.Value = def.Min + float64(min(x.N, 4))*(def.Max-def.Min)/4
		if x.N == 5 && def.Min <= 0 && 0 <= def.Max {
			s.Value = 0.0
		}
		if x.N == 6 && def.Min <= 0 && 0.25 <= def.Max {
			s.Value = 0.25
		}
	case bool:
		s.Value = v != (x.N%2 == 0)
	}
}

// genPatterns draws a table of signals which differs from the given one in
// intervals, starting values and patterns, but not in its bounds.
func genPatterns(rt *rapid.T) (rows []tableRow) {
	for _, p := range slices.Sorted(maps.Keys(exp.VSSSensors)) {
		if !chance(rt, 30) {
			continue
		}
		def := exp.VSSSensors[p]
		r := tableRow{Path: p, Interval: pick(rt, "interval", def.UpdateInterval, 50, 100, 250, 1000, 60000), Min: def.Min, Max: def.Max, Patterns: map[string]string{}}
		pats := []string{"constant"}
		switch def.DefaultValue.(type) {
		case float64:
			pats = []string{"constant", "linear", "sinusoidal", "random_walk", "constant_with_noise", "constant_with_noise"}
			if v := pick(rt, "default", def.Min, (def.Min+def.Max)/2, def.Max, 0, 1); def.Min <= v && v <= def.Max {
				r.Default = vNum(v, 0)
			}
		case bool:
			pats = []string{"constant", "toggle"}
			r.Default = vBool(rapid.Bool().Draw(rt, "default"), 0)
		}
		for _, sc := range simScenarios {
			if chance(rt, 40) {
				r.Patterns[sc] = pick(rt, "pattern", pats...)
			} else if old, ok := def.ChangePatterns[sc]; ok && chance(rt, 90) {
				r.Patterns[sc] = old
			}
		}
		rows = append(rows, r)
	}
	if odds(rt, 20) {
		rows = append(rows, genExtra(rt)...)
	}
	return rows
}

type setUpCase struct {
	Scenario string     `json:"scenario"`
	Table    []tableRow `json:"table,omitempty"`
}

// noisyBaselines lists the signals whose baseline a scenario sets.
var noisyBaselines = map[string][]string{"highway_cruising": {"Vehicle.Speed", "Vehicle.Chassis.SteeringWheel.Angle", "Vehicle.Acceleration.Longitudinal", "Vehicle.Chassis.Accelerator.PedalPosition"}}

// checkBaseline decides whether a signal which becomes noisy in a scenario
// stays around the value it had.
func checkBaseline(what, scenario, p string, s *exp.SensorData, before any) error {
	v, number := before.(float64)
	if _, set := startRange[scenario][p]; !number || set || s.ChangePattern != "constant_with_noise" || slices.Contains(noisyBaselines[scenario], p) {
		return nil
	}
	if b := s.ChangeParams["baseline"]; b != v {
		return fmt.Errorf("%s: %q had the value %v and varies around %v", what, p, v, b)
	}
	return nil
}

const fuelLevel = "Vehicle.Powertrain.FuelSystem.Level"

// checkUse decides whether levels which change steadily do so the right way:
// driving uses up the battery and the fuel, charging fills the battery and
// leaves less time.
func checkUse(what, scenario string, all map[string]*exp.SensorData) error {
	up := map[string]bool{}
	switch scenario {
	case "urban_traffic", "highway_cruising":
		up = map[string]bool{socPath: false, fuelLevel: false}
	case "battery_charging":
		up = map[string]bool{socPath: true, timeRemaining: false}
	}
	for p, up := range up {
		if s := all[p]; s != nil && s.ChangePattern == "linear" && exp.VSSSensors[p].ChangePatterns[scenario] == "linear" {
			if slope := s.ChangeParams["slope"]; slope == 0 || slope > 0 != up {
				return fmt.Errorf("%s: in %s, %q changes by %v per second", what, scenario, p, slope)
			}
		}
	}
	return nil
}

const timeRemaining = "Vehicle.Powertrain.TractionBattery.Charging.TimeRemaining"

// checkRemaining decides whether a charging vehicle has time remaining.
func checkRemaining(what, scenario string, now, before any) error {
	n, ok := now.(float64)
	old, had := before.(float64)
	switch {
	case scenario == "battery_charging" && (!ok || n <= 0):
		return fmt.Errorf("%s: %v remains for charging", what, now)
	case (scenario != "battery_charging" || had && old > 0) && now != before:
		return fmt.Errorf("%s: the time remaining becomes %v, it was %v", what, now, before)
	}
	return nil
}

type driveCase struct {
	Cooldown int64       `json:"cooldown,omitempty"` // 0: as it comes
	Table    []tableRow  `json:"table,omitempty"`
	Vehicle  string      `json:"vehicle"`
	Initial  string      `json:"initial"`
	Level    float64     `json:"level"`
	Gone     bool        `json:"gone"` // the vehicle has no battery signal
	Steps    []driveStep `json:"steps"`
}

func genLevel(rt *rapid.T) float64 {
	return pick(rt, "level", 0, 5, 9.99, 10, 10.01, 50, 99.9, 99.94, 99.95, 99.96, 100, rapid.Float64Range(0, 100).Draw(rt, "any"))
}

// startRange is the range of a starting value which the scenario sets.
var startRange = map[string]map[string][2]float64{
	"urban_traffic":    {"Vehicle.Speed": {40, 60}},
	"mixed_scenario":   {"Vehicle.Speed": {40, 60}},
	"highway_cruising": {"Vehicle.Speed": {90, 110}, "Vehicle.Acceleration.Longitudinal": {0, 0}, "Vehicle.Chassis.Brake.PedalPosition": {0, 0}, "Vehicle.Chassis.Accelerator.PedalPosition": {25, 25}},
	"battery_charging": {"Vehicle.Speed": {0, 0}, "Vehicle.Chassis.SteeringWheel.Angle": {0, 0}, "Vehicle.Acceleration.Longitudinal": {0, 0}, "Vehicle.Chassis.Brake.PedalPosition": {0, 0},
		"Vehicle.Chassis.Accelerator.PedalPosition": {0, 0}, socPath: {20, 40}, "Vehicle.Powertrain.TractionBattery.Charging.ChargingRate": {11, 13}},
}

func checkStart(what string, scenario string, all map[string]*exp.SensorData, except string) error {
	for p, r := range startRange[scenario] {
		s := all[p]
		if s == nil || p == except {
			continue
		}
		if v, ok := s.Value.(float64); !ok || v < r[0] || v > r[1] {
			return fmt.Errorf("%s: %q starts at %v, want %v..%v", what, p, s.Value, r[0], r[1])
		}
	}
	if s := all["Vehicle.Powertrain.TractionBattery.Charging.IsCharging"]; scenario == "battery_charging" && s != nil && s.Value != true {
		return fmt.Errorf("%s: the vehicle is not charging", what)
	}
	return nil
}

func init() {
	add("C32", "set-up", 600, "the scenario is a known one",
		func(rt *rapid.T) setUpCase {
			k := setUpCase{Scenario: pick(rt, "scenario", allScenarios...)}
			if chance(rt, 60) {
				k.Table = genPatterns(rt)
			}
			return k
		},
		func(c *Ctx, k setUpCase) error {
			defer simCase{Table: k.Table}.configure()()
			scenario := k.Scenario
			c.Class(true, scenario)
			c.Class(k.Table != nil, "other table of signals")
			base := scenario
			if scenario == "mixed_scenario" {
				base = "urban_traffic"
			}
			v := exp.InitializeVehicleData(scenario)
			if err := checkGroups(v); err != nil {
				return err
			}
			all := sensorsOf(v)
			var stamps []int64
			for p, s := range all {
				def := exp.VSSSensors[p]
				if err := checkSensor(scenario, s, def, patternFor(def, base, "constant")); err != nil {
					return err
				}
				if _, set := startRange[scenario][p]; !set && p != "Vehicle.Powertrain.TractionBattery.Charging.IsCharging" && p != timeRemaining && s.Value != def.DefaultValue {
					return fmt.Errorf("%s: %q starts at %v, want %v", scenario, p, s.Value, def.DefaultValue)
				}
				if err := checkBaseline(scenario, scenario, p, s, def.DefaultValue); err != nil {
					return err
				}
				stamps = append(stamps, s.Timestamp)
				if s.ChangeCounter != 0 {
					return fmt.Errorf("%s: %q has been counted %d times before the start", scenario, p, s.ChangeCounter)
				}
			}
			if slices.Min(stamps) <= 0 {
				return fmt.Errorf("%s: a signal has the timestamp %d", scenario, slices.Min(stamps))
			}
			if err := checkStart(scenario, scenario, all, ""); err != nil {
				return err
			}
			if err := checkUse(scenario, base, all); err != nil {
				return err
			}
			if err := checkRemaining(scenario, scenario, all[timeRemaining].Value, exp.VSSSensors[timeRemaining].DefaultValue); err != nil {
				return err
			}
			c.NonTrivial(slices.Contains(simScenarios, base))

			// Vehicles are independent of each other and of the definitions
			w := exp.InitializeVehicleData(scenario)
			for p, s := range sensorsOf(w) {
				if !reflect.DeepEqual(s.ChangeParams, all[p].ChangeParams) {
					return fmt.Errorf("%s: two vehicles differ in the parameters of %q: %v and %v", scenario, p, s.ChangeParams, all[p].ChangeParams)
				}
				s.Value, s.ChangePattern = nil, "x"
				s.ChangeParams["x"] = 1
			}
			for p, s := range all {
				if _, ok := s.ChangeParams["x"]; ok || s.Value == nil || s.ChangePattern == "x" {
					return fmt.Errorf("%s: changing one vehicle changed %q of another", scenario, p)
				}
			}
			for p, def := range exp.VSSSensors {
				if _, ok := def.ChangeParams["x"]; ok {
					return fmt.Errorf("%s: changing a vehicle changed the definition of %q", scenario, p)
				}
			}
			return nil
		})

	add("C32", "switching", 3000, "the scenario was switched at least once",
		genDrive, checkDrive)
}

func genDrive(rt *rapid.T) driveCase {
	k := driveCase{Vehicle: pick(rt, "vehicle", "mixed_scenario", "mixed_scenario", "urban_traffic", "battery_charging", "highway_cruising"),
		Initial: pick(rt, "initial", "urban_traffic", "urban_traffic", "battery_charging", "highway_cruising", "other"), Level: genLevel(rt), Gone: chance(rt, 5)}
	if chance(rt, 40) {
		k.Cooldown = pick(rt, "cooldown", int64(1), 100, 59999, 60001, 100000, 200000)
	}
	if chance(rt, 40) {
		k.Table = genPatterns(rt)
	}
	paths := slices.Sorted(maps.Keys(exp.VSSSensors))
	for range rapid.IntRange(1, 12).Draw(rt, "n") {
		var sets []signalSet
		for range rapid.IntRange(0, 6).Draw(rt, "sets") {
			sets = append(sets, signalSet{pick(rt, "signal", paths...), rapid.IntRange(0, 6).Draw(rt, "to")})
		}
		if chance(rt, 20) {
			sets = append(sets, signalSet{timeRemaining, pick(rt, "to", 5, 6)})
		}
		k.Steps = append(k.Steps, driveStep{Sets: sets, Dt: pick(rt, "dt", 0, 1, 100, 10000, 59999, 60000, 60001, 200000, rapid.Int64Range(0, 120000).Draw(rt, "any")),
			Level: genLevel(rt), Set: chance(rt, 80), Junk: chance(rt, 5)})
	}
	return k
}

func checkDrive(c *Ctx, k driveCase) error {
	defer simCase{Table: k.Table}.configure()()
	return drive(c, k)
}

// drive checks a vehicle with the table of signals there is.
func drive(c *Ctx, k driveCase) error {
	v := exp.InitializeVehicleData(k.Vehicle)
	if k.Gone {
		delete(v.SensorsMedFreq, socPath)
	}
	all := sensorsOf(v)
	pattern := map[string]string{}
	for p, s := range all {
		pattern[p] = s.ChangePattern
	}
	st := exp.NewScenarioState(k.Initial, k.Level)
	cooldown := int64(60000)
	if k.Cooldown > 0 {
		cooldown = k.Cooldown
		st.SwitchCooldown = cooldown
		c.Class(true, "another cool-down")
	}
	cur, prev, level, switched := k.Initial, k.Initial, k.Level, int64(0)
	var now int64
	for i, step := range k.Steps {
		now += step.Dt
		for _, x := range step.Sets {
			x.apply(all)
		}
		if soc := all[socPath]; soc != nil {
			if step.Set {
				soc.Value = step.Level
			}
			if step.Junk {
				soc.Value = "unknown"
			}
			if f, ok := soc.Value.(float64); ok {
				level = f
			}
		}
		before := snapshotSensors(all)
		// model
		next := cur
		if now-switched >= cooldown {
			switch {
			case cur == "urban_traffic" && level <= 10:
				next = "battery_charging"
				prev = cur
			case cur == "battery_charging" && level >= 99.95:
				next = prev
			}
		}
		want := next != cur
		if want {
			switched = now
		}
		cur = next

		got := st.UpdateScenarioState(v, now)
		what := fmt.Sprintf("step %d at %d ms with a level of %v", i+1, now, level)
		if got != want || st.CurrentScenario != cur {
			return fmt.Errorf("%s: switched %v, now in %s; want %v, %s", what, got, st.CurrentScenario, want, cur)
		}
		if st.PreviousScenario != prev || st.BatteryLevel != level {
			return fmt.Errorf("%s: previous scenario %s and level %v, want %s and %v", what, st.PreviousScenario, st.BatteryLevel, prev, level)
		}
		after := snapshotSensors(all)
		if !want {
			if !reflect.DeepEqual(before, after) {
				return fmt.Errorf("%s: the signals changed although the scenario did not: %s", what, firstDifference(before, after))
			}
			continue
		}
		c.NonTrivial(true)
		c.Class(true, "to "+cur)
		for p, s := range all {
			def := exp.VSSSensors[p]
			pattern[p] = patternFor(def, cur, pattern[p])
			if _, ok := s.Value.(float64); p == socPath && !ok {
				continue
			}
			if err := checkSensor(what+" in "+cur, s, def, pattern[p]); err != nil {
				return err
			}
			if _, ok := def.ChangePatterns[cur]; ok {
				if err := checkBaseline(what+" in "+cur, cur, p, s, before[p].Value); err != nil {
					return err
				}
			}
			if _, set := startRange[cur][p]; !set && p != "Vehicle.Powertrain.TractionBattery.Charging.IsCharging" && p != timeRemaining && s.Value != before[p].Value {
				return fmt.Errorf("%s: switching to %s changed %q from %v to %v", what, cur, p, before[p].Value, s.Value)
			}
		}
		if err := checkGroups(v); err != nil && !k.Gone {
			return fmt.Errorf("%s: %v", what, err)
		}
		if soc := all[socPath]; soc != nil && !reflect.DeepEqual(soc.Value, before[socPath].Value) {
			return fmt.Errorf("%s: switching changed the battery level from %v to %v", what, before[socPath].Value, soc.Value)
		}
		if err := checkStart(what, cur, all, socPath); err != nil {
			return err
		}
		if err := checkRemaining(what, cur, all[timeRemaining].Value, before[timeRemaining].Value); err != nil {
			return err
		}
		if err := checkUse(what, cur, all); err != nil {
			return err
		}
	}
	return nil
}

func snapshotSensors(all map[string]*exp.SensorData) map[string]exp.SensorData {
	r := map[string]exp.SensorData{}
	for p, s := range all {
		c := *s
		c.ChangeParams = map[string]float64{}
		for k, v := range s.ChangeParams {
			c.ChangeParams[k] = v
		}
		r[p] = c
	}
	return r
}

func firstDifference(a, b map[string]exp.SensorData) string {
	var ps []string
	for p := range a {
		if !reflect.DeepEqual(a[p], b[p]) {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	if len(ps) == 0 {
		return "signals were added or removed"
	}
	return fmt.Sprintf("%q from %+v to %+v", ps[0], a[ps[0]], b[ps[0]])
}
