package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/support/service"
	flow "github.com/project-flogo/flow"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/ondemand"
	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/state/change"
)

// anyCase writes a text in any letter case.
func anyCase(s string) string {
	b := make([]byte, len(s))
	for i := range b {
		b[i] = s[i]
		if vsym.Bool("upper") {
			b[i] = s[i] - 'a' + 'A'
		}
	}
	return string(b)
}

// lower is the text in lower case.
func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c - 'A' + 'a'
		}
	}
	return string(b)
}

func isMode(s string) bool {
	for _, m := range modes {
		if m == s {
			return true
		}
	}
	return false
}

// C22_Names: each mode in any letter case; the name of a mode with any one byte replaced by any byte, or
// with any byte added at its end or start; any text of up to 4 bytes (all 7-bit); and values that are no text.
//
// Shards: 6
// Reaches: known, unknown
func C22_Names() {
	var v interface{}
	text, want := "", state.RecordingMode("")
	name := modes[vsym.Choice("mode", len(modes))]
	known := false
	ascii := func(label string) string {
		b := vsym.Byte(label)
		vsym.Assume(b < 128)
		return string([]byte{b})
	}
	switch vsym.Choice("kind", 6) {
	case 0:
		text = anyCase(name)
		want, known = state.RecordingMode(name), true
	case 1:
		at := vsym.Choice("at", 8)
		vsym.Assume(at < len(name))
		text = name[:at] + ascii("byte") + name[at+1:]
	case 2:
		text = name + ascii("byte")
	case 3:
		text = ascii("byte") + name
	case 4:
		vsym.Assume(name == modes[0])
		text = vsym.Str("text", vsym.Choice("length", 5))
		for i := 0; i < len(text); i++ {
			vsym.Assume(text[i] < 128)
		}
	case 5:
		vsym.Assume(name == modes[0])
		v = []interface{}{nil, 1, true, []interface{}{"full"}, map[string]interface{}{"full": 1}}[vsym.Choice("value", 5)]
	}
	if text != "" {
		v = text
	}
	if !known && isMode(lower(text)) {
		want, known = state.RecordingMode(lower(text)), true
	}
	m, err := state.ToRecordingMode(v)
	vsym.Assert((err == nil) == known, "exactly the names of modes are accepted")
	if known {
		vsym.Reach("known")
		vsym.Assert(m == want, "a name gives the mode it names")
		vsym.Assert(state.RecordSteps(m) == (m == "full" || m == "step" || m == "debugger"), "the modes that record steps")
		vsym.Assert(state.RecordSnapshot(m) == (m == "full" || m == "snapshot"), "the modes that record snapshots")
	} else {
		vsym.Reach("unknown")
	}
}

// C22_Invalid: the flow action and the on-demand flow action are initialised with any value for the
// recording mode that is no mode: they refuse it.
func C22_Invalid() {
	v := []interface{}{"", "fuller", "on", nil, 1, []interface{}{"full"}}[vsym.Choice("value", 6)]
	ctx := &actCtx{resource.NewManager(nil), service.NewServiceManager(), map[string]interface{}{"stateRecordingMode": v}}
	var err error
	if vsym.Bool("ondemand") {
		err = (&ondemand.ActionFactory{}).Initialize(ctx)
	} else {
		err = (&flow.ActionFactory{}).Initialize(ctx)
	}
	vsym.Assert(err != nil, "an unknown recording mode is refused")
}

// C22_Run: the flow action is set up with any mode in any case of its first letter, or with the older settings
// for steps and snapshots (either being "full" in any case, "off", something else or missing), and runs a flow T0 -> T1 -> T2 of
// whose tasks any or none fails, T1 calling a subflow or not; the recorder gets exactly what the mode is meant to record.
//
// Shards: 4
// Reaches: steps, snapshots, neither, inputs, failed
func C22_Run() {
	b := &book{}
	settings := map[string]interface{}{}
	steps, snaps, debug := false, false, false
	if vsym.Bool("old") {
		old := func(name string) bool {
			switch vsym.Choice(name, 4) {
			case 1:
				settings[name] = "f" + anyCase("u") + "ll"
				return true
			case 2:
				settings[name] = "off"
			case 3:
				settings[name] = 1
			}
			return false
		}
		steps = old("stepRecordingMode")
		snaps = old("snapshotRecordingMode")
	} else {
		if vsym.Bool("also old") {
			settings["stepRecordingMode"], settings["snapshotRecordingMode"] = "full", "full"
		}
		m := modes[vsym.Choice("mode", len(modes))]
		settings["stateRecordingMode"] = anyCase(m[:1]) + m[1:]
		steps = m == "full" || m == "step" || m == "debugger"
		snaps = m == "full" || m == "snapshot"
		debug = m == "debugger"
	}
	g := newGraphPre("f", "T", 3)
	g.addEdge(0, 1, kDep)
	g.addEdge(1, 2, kDep)
	bad := vsym.Choice("bad", 4)
	if bad < 3 {
		g.fails[bad] = true
	}
	r := g.rep()
	v := vsym.Int("v")
	r.Tasks[2].ActivityCfgRep.Input = map[string]interface{}{"in": "=$flow.x", "num": 7}
	var p provider
	if vsym.Bool("subflow") {
		r.Tasks[1] = subflowTask("T1", "sub", nil, false)
		s := newGraphPre("sub", "S", 2)
		s.addEdge(0, 1, kDep)
		s.fails[1] = g.fails[1]
		rep := s.rep()
		rep.Tasks[1].ActivityCfgRep.Input = map[string]interface{}{"in": 3}
		p = provider{"sub": rep}
	}
	inputsOf(r, map[string]interface{}{"x": v})
	initAction(settings, recorderService(b), mustDef(r))
	a := newAction("res://flow:f")
	if p != nil {
		setFlows(p)
	}
	o, err := runAct(a, map[string]interface{}{"x": v}, &instance.RunOptions{PreservedInstanceId: "inst"})
	vsym.Assert(err == nil && o.done == 1 && len(o.results) == 1 && (o.errs[0] != nil) == (bad < 3), "the flow runs")
	if bad < 3 {
		vsym.Reach("failed")
	}
	vsym.Assert(len(b.start) == 1, "the start is reported")
	vsym.Assert(len(b.snaps) > 0 == snaps, "snapshots are recorded exactly if the mode says so")
	vsym.Assert(len(b.steps) > 0 == steps, "steps are recorded exactly if the mode says so")
	n := 0
	if snaps {
		vsym.Reach("snapshots")
		n = len(b.snaps)
		last := b.snaps[n-1]
		vsym.Assert(last.Status == int(model.FlowStatusCompleted) == (bad == 3), "up to the last one")
	}
	if !steps {
		if !snaps {
			vsym.Reach("neither")
		}
		return
	}
	vsym.Reach("steps")
	vsym.Assert(!snaps || len(b.steps) == n, "every step has a snapshot in full mode")
	inputs := 0
	returned := false
	for _, s := range b.steps {
		for id, c := range s.FlowChanges {
			for t, tc := range c.Tasks {
				if tc.Input == nil || len(tc.Input) == 0 {
					continue
				}
				inputs++
				if id == 0 && t == "T2" {
					vsym.Assert(tc.Input["in"] == v && tc.Input["num"] == 7, "the inputs of the task")
				} else if id == 0 {
					vsym.Assert(false, "no inputs of other tasks")
				} else {
					vsym.Assert(t == "S1" && tc.Input["in"] == 3, "the inputs of the task")
				}
			}
			for _, lc := range c.Links {
				vsym.Assert((lc.From != "" && lc.To != "") == debug || lc.ChgType == change.Delete && lc.From == "" && lc.To == "", "the ends of links in debugger mode only")
			}
			returned = returned || c.ReturnData != nil
		}
	}
	if debug {
		ran := bad >= 2 || p != nil && bad == 1
		vsym.Assert((inputs > 0) == ran, "the inputs of tasks are recorded in debugger mode")
		if ran {
			vsym.Reach("inputs")
		}
	} else {
		vsym.Assert(inputs == 0 && !returned, "neither inputs nor results of tasks and flows are recorded in other modes")
	}
}
