package h

import (
	"encoding/json"
	"errors"

	"flowverif/acts/life"
	"flowverif/acts/shared"
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
)

const lifeRef, sharedRef = "flowverif/acts/life", "flowverif/acts/shared"

// lifeTask is a task whose activity has settings.
func lifeTask(id string, settings map[string]interface{}) *definition.TaskRep {
	return &definition.TaskRep{ID: id, Name: nameOf(id), ActivityCfgRep: &activity.Config{Ref: lifeRef, Settings: settings}}
}

// C37_Cleanup: flows of up to 2 (thorough 3) tasks in the main part and as many in the error handler, each with an activity of its own or the one shared by
// all; any of them may fail to clean up.
//
// Reaches: main, handler, failed
func C37_Cleanup() {
	cleaned := map[string]int{}
	fails := map[string]bool{}
	life.Cleaned = func(a *life.Activity) error {
		cleaned[idOf(a.Name)]++
		if fails[idOf(a.Name)] {
			vsym.Reach("failed")
			return errors.New("bad")
		}
		return nil
	}
	r := &definition.DefinitionRep{Name: "f"}
	own := map[string]bool{}
	settings := vsym.Choice("settings", 2) == 1
	some := func(prefix string) (ts []*definition.TaskRep) {
		for i, n := 0, vsym.Choice("n"+prefix, 3+vsym.Tier()); i < n; i++ {
			id := prefix + string(rune('0'+i))
			t := lifeTask(id, nil)
			if vsym.Choice("shared"+id, 2) == 1 {
				t.ActivityCfgRep.Ref = sharedRef
				if settings {
					t.ActivityCfgRep.Settings = map[string]interface{}{"any": 1}
				}
			} else {
				own[id] = true
				fails[id] = vsym.Bool("fails" + id)
			}
			ts = append(ts, t)
		}
		return
	}
	r.Tasks = some("T")
	if vsym.Choice("handler", 2) == 1 {
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: some("H")}
	}
	d := mustDef(r)
	vsym.Assert(len(cleaned) == 0, "an activity in use is not cleaned up")
	vsym.Assert(d.Cleanup() == nil, "a flow is cleaned up")
	for id := range own {
		vsym.Assert(cleaned[id] == 1, "every activity of a flow is cleaned up once")
		if id[0] == 'T' {
			vsym.Reach("main")
		} else {
			vsym.Reach("handler")
		}
	}
	vsym.Assert(len(cleaned) == len(own) && shared.Cleaned == 0, "only the activities of the flow itself are cleaned up")
}

// someSetting is a setting in any form, what it amounts to for an int and for any type, and whether it can be resolved.
func someSetting(name string) (form, asInt, asAny interface{}, okInt, okAny bool) {
	v := vsym.Range(name, 0, 1000)
	switch vsym.Choice("form"+name, 5) {
	case 0:
		return v, v, v, true, true
	case 1:
		return "12", 12, "12", true, true
	case 2:
		exprs["value"+name] = func(s data.Scope) (interface{}, error) { return v, nil }
		return "=value" + name, v, v, true, true
	case 3:
		return "text", nil, "text", false, true
	}
	exprs["fails"+name] = func(s data.Scope) (interface{}, error) { return nil, errors.New("bad") }
	return "=fails" + name, nil, nil, false, false
}

func equalValue(a, b interface{}) bool {
	if s, ok := b.(string); ok {
		return a == s
	}
	return a != nil && sameNum(a, b)
}

// C37_Load: a task in the main part or the error handler, with a setting declared as int and one of any type, each a number, a text that is a number or not, an expression
// with any value or one that fails.
//
// Reaches: made, refused
func C37_Load() {
	n, ni, _, okN, _ := someSetting("num")
	a, _, aa, _, okA := someSetting("any")
	var got map[string]interface{}
	made := 0
	life.Made = func(ctx activity.InitContext) error {
		made++
		got = ctx.Settings()
		vsym.Assert(ctx.Name() == nameOf("T0") && ctx.HostName() == "f", "an activity is told its task and flow")
		return nil
	}
	r := &definition.DefinitionRep{Name: "f"}
	t := lifeTask("T0", map[string]interface{}{"num": n, "any": a})
	if vsym.Choice("handler", 2) == 1 {
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{t}}
	} else {
		r.Tasks = []*definition.TaskRep{t}
	}
	_, err := definition.NewDefinition(r)
	if !okN || !okA {
		vsym.Assert(err != nil && made == 0, "a flow whose settings cannot be resolved is refused")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(err == nil && made == 1, "an activity is made once for a task")
	vsym.Assert(len(got) == 2 && equalValue(got["num"], ni) && equalValue(got["any"], aa), "an activity is given its settings")
	vsym.Reach("made")
}

// C37_Reconfigure: a flow of two tasks, in the main part or the error handler, with an int setting and one of any type is reconfigured (thorough: a second time for one setting of one task); the new settings may be of any form of C37_Load for two of the
// tasks, may be left out, and the activity may refuse them; a task may be new or be missing in the new configuration.
//
// Shards: 2
// Reaches: reconfigured, kept, refused
func C37_Reconfigure() {
	handler := vsym.Choice("handler", 3) // which of the tasks is in the handler, if any
	ids := []string{"T0", "T1"}
	flow := func(settings map[string]map[string]interface{}, extra bool) *definition.DefinitionRep {
		r := &definition.DefinitionRep{Name: "f"}
		for i, id := range append(append([]string{}, ids...), "X") {
			if id == "X" && !extra || settings[id] == nil && id != "X" {
				continue
			}
			t := lifeTask(id, settings[id])
			if handler == i {
				r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{t}}
			} else {
				r.Tasks = append(r.Tasks, t)
			}
		}
		return r
	}
	now := map[string]map[string]interface{}{"T0": {"num": 1, "any": "a0"}, "T1": {"num": 2, "any": "a1"}}
	d := mustDef(flow(now, false))
	for round := 0; round < 1+vsym.Tier(); round++ {
		k := string(rune('0' + round))
		told := map[string]map[string]interface{}{}
		life.Reconfigured = func(a *life.Activity, s map[string]interface{}) error {
			vsym.Assert(told[idOf(a.Name)] == nil, "an activity is reconfigured once")
			told[idOf(a.Name)] = map[string]interface{}{}
			for n, v := range s {
				told[idOf(a.Name)][n] = v
			}
			if vsym.Bool("refuses" + k + idOf(a.Name)) {
				vsym.Reach("refused")
				return errors.New("bad")
			}
			return nil
		}
		next := map[string]map[string]interface{}{}
		ok := map[string]bool{}
		given := map[string]map[string]interface{}{}
		for i, id := range ids {
			given[id] = map[string]interface{}{}
			for n, v := range now[id] {
				given[id][n] = v
			}
			if i == 1 && vsym.Choice("left out", 2) == 1 {
				continue // of the new configuration
			}
			ok[id] = true
			next[id] = map[string]interface{}{}
			for _, n := range []string{"num", "any"} {
				if round == 1 && (i == 1 || n == "any") || vsym.Choice("has"+n, 2) == 0 {
					continue
				}
				form, asInt, asAny, okInt, okAny := someSetting(n + k + id)
				next[id][n] = form
				if n == "num" {
					given[id][n] = asInt
					ok[id] = ok[id] && okInt
				} else {
					given[id][n] = asAny
					ok[id] = ok[id] && okAny
				}
			}
		}
		b, err := json.Marshal(flow(next, vsym.Choice("extra", 2) == 1))
		vsym.Assert(err == nil, "text")
		vsym.Assert(d.Reconfigure(&resource.Config{ID: "flow:f", Data: b}) == nil, "a flow is reconfigured")
		for _, id := range ids {
			if !ok[id] {
				vsym.Assert(told[id] == nil, "an activity whose settings cannot be resolved, or are not given, is not reconfigured")
				vsym.Reach("kept")
			} else {
				now[id] = given[id]
				vsym.Assert(told[id] != nil && equalValue(told[id]["num"], now[id]["num"]) && equalValue(told[id]["any"], now[id]["any"]), "an activity is reconfigured with its new settings")
				vsym.Reach("reconfigured")
			}
			t := d.GetTask(id)
			if t == nil {
				t = d.GetErrorHandler().GetTask(id)
			}
			for _, n := range []string{"num", "any"} {
				v, has := t.ActivityConfig().GetSetting(n)
				vsym.Assert(has && equalValue(v, now[id][n]), "the settings of a task are the ones last resolved")
			}
		}
		vsym.Assert(told["X"] == nil && len(told) <= len(ids), "only activities of the flow are reconfigured")
	}
}
