package h

import (
	"encoding/json"
	"strconv"

	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/coerce"
	"github.com/project-flogo/core/support/trace"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	flowsupport "github.com/project-flogo/flow/support"
)

// named makes a flow known under the uri newInst gives its instances.
func named(def *definition.Definition, p provider) *definition.Definition {
	rm := resource.NewManager(nil)
	rm.SetResource("flow:"+def.Name(), resource.New("flow", def))
	flowsupport.InitDefaultDefLookup(flowsupport.NewFlowManager(p), rm)
	return def
}

// stored writes an instance down.
func stored(inst *instance.IndependentInstance) []byte {
	b, err := json.Marshal(inst)
	vsym.Assert(err == nil, "an instance can be serialised")
	return b
}

// restored brings an instance back to life.
func restored(b []byte) *instance.IndependentInstance {
	inst := &instance.IndependentInstance{}
	vsym.Assert(json.Unmarshal(b, inst) == nil, "a serialised instance can be read")
	err := inst.Restart(log.RootLogger(), "inst", -1)
	vsym.Assert(err == nil, "a restored instance can be restarted")
	inst.SetInstanceRecorder(instance.NewStateInstanceRecorder(nil, "off", false))
	return inst
}

func parsed(b []byte) map[string]interface{} {
	m := map[string]interface{}{}
	vsym.Assert(json.Unmarshal(b, &m) == nil, "a serialised instance is an object")
	tasks := map[string]bool{}
	add := func(flow int, list interface{}) {
		l, _ := list.([]interface{})
		for _, t := range l {
			tasks[strconv.Itoa(flow)+"/"+t.(map[string]interface{})["id"].(string)] = true
		}
	}
	num := func(m map[string]interface{}, k string) int {
		f, _ := m[k].(float64)
		return int(f)
	}
	add(0, m["tasks"])
	// what no task waits for has no effect
	var subs, live, queue []interface{}
	subs, _ = m["subFlows"].([]interface{})
	for id := 1; id < 20; id++ {
		for _, s := range subs {
			sm := s.(map[string]interface{})
			host, _ := sm["hostTaskId"].(string)
			if num(sm, "subFlowId") == id && tasks[strconv.Itoa(num(sm, "hostFlowId"))+"/"+host] {
				add(id, sm["tasks"])
				live = append(live, s)
			}
		}
	}
	m["subFlows"] = live
	all, _ := m["workQueue"].([]interface{})
	for _, i := range all {
		im := i.(map[string]interface{})
		if tasks[strconv.Itoa(num(im, "subFlowId"))+"/"+im["taskID"].(string)] {
			queue = append(queue, i)
		}
	}
	m["workQueue"] = queue
	return m
}

// alike compares two JSON values, arrays other than the work queue as sets.
func alike(a, b interface{}, ordered bool) bool {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !alike(v, w, k == "workQueue" || k == "attrs" || ordered) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		used := make([]bool, len(y))
		for i, v := range x {
			found := false
			for j, w := range y {
				if !used[j] && (!ordered || i == j) && alike(v, w, ordered) {
					used[j], found = true, true
					break
				}
			}
			if !found {
				return false
			}
		}
		return true
	}
	return a == b
}

// inLoop tells that the cut is in the middle of a loop or of retries.
var inLoop bool

// cutRun starts a flow, runs it to a chosen point, serialises and restores it there, possibly once more later, and
// compares what the restored instance does with what the original does. The log of executions is taken by take.
func cutRun(inst *instance.IndependentInstance, loops bool, bound int, begin func(), same func(done func())) {
	inst.Start(nil)
	inLoop = false
	for i := 0; i < bound && inst.Status() < model.FlowStatusCompleted && vsym.Choice("run", 2) == 1; i++ {
		vsym.Assume(inst.DoStep())
	}
	vsym.Assume(inst.Status() == model.FlowStatusActive)
	b := stored(inst)
	begin()
	for i := 0; i < bound && inst.Status() < model.FlowStatusCompleted; i++ {
		inst.DoStep()
	}
	vsym.Assert(inst.Status() >= model.FlowStatusCompleted, "the original ends")
	same(func() {
		cp := restored(b)
		vsym.Assert(alike(parsed(b), parsed(stored(cp)), false), "the restored instance has the state of the original")
		again := 0
		if !loops {
			again = vsym.Choice("again", 3)
		}
		for i := 0; i < bound && cp.Status() < model.FlowStatusCompleted; i++ {
			cp.DoStep()
			if i < 2 {
				shown(cp.Snapshot())
			}
			if i+1 == again && cp.Status() < model.FlowStatusCompleted {
				vsym.Reach("restored twice")
				cp = restored(stored(cp))
			}
		}
		vsym.AssertKnown("loop-position", inLoop, cp.Status() == inst.Status(), "the restored instance ends in the same status")
		out, err := inst.GetReturnData()
		cpOut, cpErr := cp.GetReturnData()
		vsym.AssertKnown("loop-position", inLoop, (err == nil) == (cpErr == nil) && (err == nil || err.Error() == cpErr.Error()), "the restored instance ends with the same error")
		vsym.Assert(len(out) == len(cpOut), "the restored instance gives the same outputs")
		for k, v := range out {
			vsym.Assert(sameNum(v, cpOut[k]), "the restored instance gives the same outputs")
		}
	})
}

func sameNum(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if s, ok := a.(string); ok {
		return b == interface{}(s)
	}
	x, _ := coerce.ToInt(a)
	y, err := coerce.ToInt(b)
	return err == nil && x == y
}

// C15_Graph: all flows over 3 (thorough 4) tasks with a dependency, expression or error link per ordered pair, any conditions,
// any failing tasks, with and without an error handler of two tasks, serialised after any step and restored, and
// the restored instance possibly serialised and restored once more after its first or second step.
//
// Shards: 8
// Timeout: 600
// MapRot: 1
// Reaches: restored twice
func C15_Graph() {
	n := 3
	kinds := []int{kNone, kDep, kExpr, kError}
	if vsym.Tier() == 1 {
		n = 4
		kinds = []int{kNone, kExpr, kError}
	}
	g := newGraph("f", n)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if k := kinds[vsym.Choice("k", len(kinds))]; k != kNone {
				g.addEdge(i, j, k)
			}
		}
	}
	for i := range g.fails {
		g.fails[i] = vsym.Bool("fail" + taskName(i))
	}
	r := g.rep()
	h := newGraphPre("f", "H", 2)
	if vsym.Choice("handler", 2) == 1 {
		h.addEdge(0, 1, kDep)
		r.ErrorHandler = h.handlerRep()
		h.fails[0] = vsym.Bool("failH")
	}
	runLog = nil
	var first []string
	cutRun(newInst(named(mustDef(r), nil)), false, 12, func() { runLog = nil }, func(copied func()) {
		first = runLog
		runLog = nil
		copied()
		vsym.Assert(len(first) == len(runLog), "the restored instance runs the tasks the original still runs")
		for i := range first {
			vsym.Assert(first[i] == runLog[i], "the restored instance runs the tasks the original still runs")
		}
	})
	vsym.Observe("ran", len(first))
}

// C15_Subflows: flow T0 -> T1 -> T3, T0 -> T2 -> T3, T1 -> T4 on error, in which T1 calls a subflow S0 -> S1 -> S2 whose S1 calls a subflow
// U0, and T2 may call one too; tasks of any flow may fail, each flow may have an error handler, that of the subflow may fail, and the subflow may return
// early; data flows through all of them. Serialised after any step and restored, and possibly again one or two steps later.
//
// Shards: 8
// Timeout: 600
// Reaches: restored twice, in subflow, failed, handled
func C15_Subflows() {
	v := vsym.Range("v", -1000, 1000)
	g := newGraph("f", 5)
	g.addEdge(0, 1, kDep)
	g.addEdge(0, 2, kDep)
	g.addEdge(1, 3, kDep)
	g.addEdge(2, 3, kDep)
	r := g.rep()
	errs := vsym.Choice("errors", 3) // 0 none, 1 error link, 2 handlers
	if errs == 1 {
		r.Links = append(r.Links, link("T1", "T4", "error", ""))
	} else {
		r.Tasks = r.Tasks[:4]
	}
	inputsOf(r, map[string]interface{}{"v": v, "text": "a"})
	outputs(r, "o")
	r.Tasks[1] = subflowTask("T1", "sub", map[string]interface{}{"a": "=$activity[T0].out"}, false)
	if vsym.Choice("both", 2) == 1 {
		r.Tasks[2] = subflowTask("T2", "leaf", map[string]interface{}{"a": "=$flow.v"}, false)
	} else {
		r.Tasks[2].ActivityCfgRep.Input = map[string]interface{}{"in": "=$flow.v"}
	}
	r.Tasks[3].ActivityCfgRep.Input = map[string]interface{}{"in": "=$activity[T1].o"}
	if errs == 1 {
		r.Tasks[4].ActivityCfgRep.Input = map[string]interface{}{"in": "=$error[T1].message"}
	}
	sr := &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", ""),
		subflowTask("S1", "leaf", map[string]interface{}{"a": "=$activity[S0].out"}, false), task("S2", "")},
		Links: []*definition.LinkRep{link("S0", "S1", "dependency", ""), link("S1", "S2", "dependency", "")}}
	inputsOf(sr, map[string]interface{}{"a": nil})
	outputs(sr, "o")
	sr.Tasks[2].ActivityCfgRep.Input = map[string]interface{}{"in": "=$activity[S1].o"}
	ur := &definition.DefinitionRep{Name: "u", Tasks: []*definition.TaskRep{task("U0", "")}}
	inputsOf(ur, map[string]interface{}{"a": nil})
	outputs(ur, "o")
	if errs == 2 {
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("H0", "")}}
		r.ErrorHandler.Tasks[0].ActivityCfgRep.Input = map[string]interface{}{"in": "=$error.message"}
		if vsym.Choice("subHandler", 2) == 1 {
			sr.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("K0", "")}}
		}
	}
	bad := vsym.Choice("bad", 5) // who fails, 0 nobody
	if bad == 4 && errs == 2 && vsym.Choice("leafHandler", 2) == 1 {
		ur.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("L0", "")}}
	}
	early := bad != 3 && vsym.Bool("early")
	var log, first []exec
	num := func(x interface{}) int { i, _ := coerce.ToInt(x); return i }
	see := func(name string, f func(ctx activity.Context) error) {
		behaviours[name] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			log = append(log, exec{task: name, in: ctx.GetInput("in"), in2: sees(ctx, "$flow.a"), flow: sees(ctx, "$flow.mine"), id: ctx.ActivityHost().ID()})
			err := f(ctx)
			return err == nil, err
		}}
	}
	see("f/T0", func(ctx activity.Context) error {
		setAttr(ctx, "mine", "x")
		setAttr(ctx, "text", nil)
		return ctx.SetOutput("out", num(sees(ctx, "$flow.v"))+1)
	})
	see("f/T2", func(ctx activity.Context) error {
		setAttr(ctx, "mine", 2)
		return fails(bad == 1)
	})
	see("f/T3", func(ctx activity.Context) error { setAttr(ctx, "o", num(ctx.GetInput("in"))); return nil })
	see("f/T4", func(ctx activity.Context) error { setAttr(ctx, "o", 4); return nil })
	see("f/H0", func(ctx activity.Context) error { setAttr(ctx, "o", 5); return nil })
	see("s/S0", func(ctx activity.Context) error {
		setAttr(ctx, "mine", num(sees(ctx, "$flow.a"))+2)
		setAttr(ctx, "none", nil)
		_ = ctx.SetOutput("out", num(sees(ctx, "$flow.a"))+2)
		return fails(bad == 2)
	})
	see("s/S2", func(ctx activity.Context) error {
		setAttr(ctx, "o", num(ctx.GetInput("in"))+3)
		if early {
			ctx.ActivityHost().Return(map[string]interface{}{"o": 17}, nil)
		}
		return fails(bad == 3)
	})
	badHandler := sr.ErrorHandler != nil && vsym.Bool("badHandler")
	see("s/K0", func(ctx activity.Context) error { setAttr(ctx, "o", 6); return fails(badHandler) })
	see("u/L0", func(ctx activity.Context) error { setAttr(ctx, "o", 7); return nil })
	see("u/U0", func(ctx activity.Context) error {
		setAttr(ctx, "o", num(sees(ctx, "$flow.a"))+4)
		if bad == 4 {
			return activity.NewError("leaf", "code", "data")
		}
		return nil
	})
	inst := newInst(named(mustDef(r), provider{"sub": sr, "leaf": ur}))
	cutRun(inst, false, 20, func() {
		if len(log) > 0 && log[len(log)-1].task == "s/S0" {
			vsym.Reach("in subflow")
		}
		log = nil
	}, func(copied func()) {
		first = log
		log = nil
		copied()
		vsym.Assert(len(first) == len(log), "the restored instance runs the tasks the original still runs")
		for i, e := range first {
			f := log[i]
			vsym.Assert(e.task == f.task, "the restored instance runs the tasks the original still runs")
			vsym.Assert(e.id == f.id, "the restored instance runs its tasks in the same flows")
			vsym.Assert(sameNum(e.in, f.in) && sameNum(e.in2, f.in2) && sameNum(e.flow, f.flow), "the restored instance runs its tasks with the same data")
		}
	})
	if inst.Status() == model.FlowStatusFailed {
		vsym.Reach("failed")
	} else if bad != 0 {
		vsym.Reach("handled")
	}
	vsym.Observe("ran", len(first))
}

func fails(b bool) error {
	if b {
		return errText("fails")
	}
	return nil
}

// C15_Loops: flow T0 -> T1 -> T2, T1 -> T3 on error, called by another flow or not, whose T1 iterates over a number or a list, repeats on a condition, accumulates, or is retried; up to
// 2 (thorough 4) runs, the last of which may fail. Serialised after any step and restored; the restored instance makes the remaining runs.
func C15_Loops() {
	max := 2 + 2*vsym.Tier()
	n := vsym.Range("n", 1, max)
	bad := vsym.Bool("bad")
	kind := vsym.Choice("kind", 5)
	var t *definition.TaskRep
	switch kind {
	case 0:
		t = iterTask("T1", "=$flow.n")
	case 1:
		t = iterTask("T1", "=$flow.list")
	case 2:
		t = doWhileTask("T1", "again", 0, nil)
	case 3:
		t = iterTask("T1", "=$flow.n")
		t.Settings["accumulate"] = true
	case 4:
		t = task("T1", "")
		t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": max, "interval": 0}}
	}
	t.Settings["own"] = "=$flow.v"
	t.ActivityCfgRep.Input = map[string]interface{}{"in": "=$flow.v"}
	_, r := loopFlow(t)
	list := []interface{}{}
	for i := 0; i < n; i++ {
		list = append(list, i)
	}
	in := map[string]interface{}{"n": n, "list": list, "v": vsym.Range("v", 0, 9)}
	flow, main, subs := "f", r, provider{}
	if vsym.Choice("called", 2) == 1 {
		flow = "s"
		r.Name = flow
		inputsOf(r, map[string]interface{}{"n": nil, "list": nil, "v": nil})
		subs["sub"] = r
		main = &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{subflowTask("M0", "sub",
			map[string]interface{}{"n": "=$flow.n", "list": "=$flow.list", "v": "=$flow.v"}, false)}}
		vsym.Reach("in a called flow")
	}
	inputsOf(main, in)
	exprs["again"] = func(s data.Scope) (interface{}, error) {
		i, err := coerce.ToInt(resolved(s, "$iteration[index]"))
		return i+1 < n, err
	}
	var log, first []exec
	var runs, before int
	unfinished, left := false, false
	// the number of runs is that of the loop, not of the activity
	behaviours[flow+"/T1"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		runs++
		e := exec{task: "T1", in: ctx.GetInput("in"), flow: setting(ctx, "own")}
		if kind < 4 {
			e.in2 = sees(ctx, "$iteration[index]")
		}
		log = append(log, e)
		if kind == 4 && runs < n {
			return false, activity.NewRetriableError("again", "", nil)
		}
		_ = ctx.SetOutput("out", runs)
		if runs == n {
			return true, fails(bad)
		}
		return true, nil
	}}
	for _, b := range []string{"T0", "T2", "T3"} {
		b := b
		behaviours[flow+"/"+b] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			e := exec{task: b}
			left = left || b != "T0"
			acc, _ := sees(ctx, "$activity[T1]").([]interface{})
			if kind == 3 && acc != nil {
				e.in = len(acc)
			} else {
				e.in = sees(ctx, "$activity[T1].out")
			}
			log = append(log, e)
			return true, nil
		}}
	}
	inst := newInst(named(mustDef(main), subs))
	cutRun(inst, true, 12, func() {
		log = nil
		before = runs
		unfinished = before > 0 && !left
	}, func(copied func()) {
		first = log
		log = nil
		runs = before
		inLoop = unfinished
		if inLoop {
			vsym.Reach("in the loop")
		} else {
			vsym.Reach("outside the loop")
		}
		copied()
		same := len(first) == len(log)
		for i := 0; same && i < len(first); i++ {
			same = first[i].task == log[i].task && sameNum(first[i].in, log[i].in) && sameNum(first[i].in2, log[i].in2)
			vsym.Assert(sameNum(first[i].flow, log[i].flow), "the tasks of the restored instance have their settings")
		}
		vsym.AssertKnown("loop-position", inLoop, same, "the restored instance makes the runs the original still makes")
	})
	vsym.Observe("ran", len(first))
}

// C15_Errors: a flow whose first task calls a flow S0 -> S1 that ends with an error of any kind - in a task or returned, with any code and data, retriable or not -
// perhaps after its error handler failed too; the caller is retried up to 2 times or not, and its failure goes to an error link, an error handler or fails the flow.
// Serialised after any step before the first retry and restored.
//
// Shards: 4
// Reaches: retried, handled, failed
func C15_Errors() {
	kind := vsym.Choice("kind", 6)
	inHandler := vsym.Choice("handler", 2) == 1
	errs := vsym.Choice("errors", 3)
	retries := vsym.Range("retries", 0, 2)
	code, d := vsym.Str("code", 1), vsym.Str("data", 1)
	t := subflowTask("T1", "sub", nil, false)
	t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": retries, "interval": 0}}
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{t, task("T2", "")}, Links: []*definition.LinkRep{link("T1", "T2", "", "")}}
	switch errs {
	case 1:
		r.Tasks = append(r.Tasks, task("E", ""))
		r.Links = append(r.Links, link("T1", "E", "error", ""))
	case 2:
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("E", "")}}
	}
	s := &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", ""), task("S1", "")}, Links: []*definition.LinkRep{link("S0", "S1", "", "")}}
	if inHandler {
		s.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("K0", "")}}
	}
	runs, before := 0, 0
	fail := func(ctx activity.Context) (bool, error) {
		switch kind {
		case 0:
			return false, errText("plain")
		case 1:
			return false, activity.NewError("text", code, d)
		case 2:
			return false, activity.NewRetriableError("text", code, d)
		case 3:
			panic("oops")
		case 4:
			ctx.ActivityHost().Return(nil, activity.NewError("text", code, d))
		case 5:
			ctx.ActivityHost().Return(nil, activity.NewRetriableError("text", code, d))
		}
		return true, nil
	}
	var log, first []exec
	see := func(flow, name string, f func(ctx activity.Context) (bool, error)) {
		*behaviourOf(flow, name) = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			log = append(log, exec{task: name, id: ctx.ActivityHost().ID()})
			return f(ctx)
		}}
	}
	ok := func(ctx activity.Context) (bool, error) { return true, nil }
	see("f", "T2", ok)
	see("f", "E", func(ctx activity.Context) (bool, error) {
		for _, n := range []string{"message", "code", "data", "type", "activity"} {
			log = append(log, exec{task: n, in: sees(ctx, "$error[T1]."+n)})
		}
		return true, nil
	})
	see("s", "S0", func(ctx activity.Context) (bool, error) { runs++; return true, nil })
	if inHandler {
		see("s", "S1", func(ctx activity.Context) (bool, error) { return false, errText("first") })
		see("s", "K0", fail)
	} else {
		see("s", "S1", fail)
	}
	inst := newInst(named(mustDef(r), provider{"sub": s}))
	cutRun(inst, true, 16, func() {
		retrying := runs > 1
		for _, f := range inst.Snapshot().Subflows {
			retrying = retrying || f.Id > 1
		}
		vsym.Assume(!retrying)
		before = runs
		log = nil
	}, func(copied func()) {
		first = log
		log = nil
		if runs > 1 {
			vsym.Reach("retried")
		}
		runs = before
		copied()
		vsym.Assert(len(first) == len(log), "the restored instance runs the tasks the original still runs")
		for i, e := range first {
			f := log[i]
			vsym.Assert(e.task == f.task && e.id == f.id, "the restored instance runs the tasks the original still runs")
			vsym.Assert(e.in == f.in, "the restored instance sees the same error")
		}
	})
	switch {
	case inst.Status() == model.FlowStatusFailed:
		vsym.Reach("failed")
	case errs > 0:
		vsym.Reach("handled")
	}
	vsym.Observe("ran", len(first))
}

// sameIds is a flow T0 -> T1, T0 -> T2 in which one task may fail, with an error handler of one or two tasks, whose ids may be those of tasks of the flow,
// while their names differ, or one calling that flow; ran is told the tasks that run.
func sameIds(ran func(name string)) (*definition.DefinitionRep, provider, func(ran []string, err error)) {
	ids := []string{"T0", "T1", "T2", "H"}
	add := func(id, name string, fail bool, waits string) *definition.TaskRep {
		t := task(id, "")
		t.Name = name
		*behaviourOf("f", name) = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			ran(name)
			if fail {
				return false, errText("bad " + name)
			}
			if waits != "" {
				return false, instance.StartSubFlow(ctx, waits, nil)
			}
			return true, nil
		}}
		return t
	}
	r := &definition.DefinitionRep{Name: "f"}
	failing := vsym.Range("failing", 0, 3)
	for i := 0; i < 3; i++ {
		r.Tasks = append(r.Tasks, add(ids[i], ids[i], failing == i, []string{"", "", "empty"}[i]))
	}
	r.Links = []*definition.LinkRep{link("T0", "T1", "", ""), link("T0", "T2", "", "")}
	eh := &definition.ErrorHandlerRep{}
	a, failsH, second := vsym.Choice("a", 4), vsym.Bool("failsH"), vsym.Choice("second", 3)
	eh.Tasks = append(eh.Tasks, add(ids[a], "H0", failsH, []string{"", "empty"}[vsym.Choice("waits", 2)]))
	if second > 0 {
		b := (a + 1) % 4
		eh.Tasks = append(eh.Tasks, add(ids[b], "H1", false, ""))
		eh.Links = append(eh.Links, link(ids[a], ids[b], []string{"", "", "error"}[second], ""))
	}
	r.ErrorHandler = eh
	main := r
	p := provider{"f": r, "empty": &definition.DefinitionRep{Name: "empty", Tasks: []*definition.TaskRep{task("E", "")}}}
	behaviourOf("empty", "E")
	if vsym.Choice("called", 2) == 1 {
		main = &definition.DefinitionRep{Name: "m", Tasks: []*definition.TaskRep{task("T0", ""), task("T1", "")}, Links: []*definition.LinkRep{link("T0", "T1", "", "")}}
		behaviourOf("m", "T0")
		*behaviourOf("m", "T1") = Behaviour{Eval: func(ctx activity.Context) (bool, error) { return false, instance.StartSubFlow(ctx, "f", nil) }}
	}
	if a < 3 {
		vsym.Reach("same ids")
	}
	return main, p, func(ran []string, err error) {
		var want []string
		fails := false
		if failing < 3 {
			want = []string{"H0"}
			fails = failsH && second < 2
			if (second == 1 && !failsH) || (second == 2 && failsH) {
				want = append(want, "H1")
			}
		}
		n := len(ran) - len(want)
		vsym.Assert(n > 0 && ran[0] == "T0" && n <= 3, "the tasks of the flow run, then those of the handler")
		if failing < 3 {
			vsym.Assert(ran[n-1] == []string{"T0", "T1", "T2"}[failing], "the error handler runs instead of the rest of the flow")
		} else {
			vsym.Assert(n == 3, "the tasks of the flow run")
		}
		for i, name := range want {
			vsym.Assert(ran[n+i] == name, "the error handler runs, task by task")
		}
		vsym.Assert((err != nil) == fails, "a flow fails if its handler does")
		if fails {
			vsym.Assert(err.Error() == "bad H0", "a flow fails with the error of its handler")
		}
	}
}

// C15_SameIds: a flow T0 -> T1, T0 -> T2, or one whose second task calls that flow, in which one task may fail, with an error handler of one or two tasks, whose ids may be those
// of tasks of the flow, while their names differ, and which wait or not; serialised after any step and restored.
//
// Shards: 2
// Reaches: same ids, restored twice
func C15_SameIds() {
	var first, ran []string
	main, p, _ := sameIds(func(name string) { ran = append(ran, name) })
	cutRun(newInst(named(mustDef(main), p)), false, 16, func() { ran = nil }, func(copied func()) {
		first, ran = ran, nil
		copied()
		vsym.Assert(len(first) == len(ran), "the restored instance runs the tasks the original still runs")
		for i := range first {
			vsym.Assert(first[i] == ran[i], "the restored instance runs the tasks the original still runs")
		}
	})
}

// C15_Traced: with a tracer, a task T1 of a flow T0 -> T1 -> T2 calls a flow S0 -> S1 up to 3 times, by iterating or by being retried, or a task of the called flow
// is retried. Serialised after any step, and restored.
//
// Reaches: iterated, retried, retried inside, in the loop
func C15_Traced() {
	spans := &tracer{}
	vsym.Assert(trace.RegisterTracer(spans) == nil, "tracer")
	n := 1 + vsym.Choice("n", 3)
	kind := vsym.Choice("kind", 3)
	_, r := loopFlow(nil)
	t := task("T1", "")
	begun := false
	behaviours["f/T1"] = hostBehaviour("sub", nil)
	call := behaviours["f/T1"].Eval
	behaviours["f/T1"].Eval = func(ctx activity.Context) (bool, error) {
		begun = true
		return call(ctx)
	}
	sr := &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", ""), task("S1", "")}, Links: []*definition.LinkRep{link("S0", "S1", "", "")}}
	retries := map[string]interface{}{"retryOnError": map[string]interface{}{"count": 3, "interval": 0}}
	switch kind {
	case 0:
		vsym.Reach("iterated")
		t.Type = "iterator"
		t.Settings = map[string]interface{}{"iterate": n}
	case 1:
		vsym.Reach("retried")
		t.Settings = retries
	case 2:
		vsym.Reach("retried inside")
		sr.Tasks[0].Settings = retries
	}
	r.Tasks[1] = t
	var log, first []exec
	calls, before := 0, 0
	unfinished, left := false, false
	for _, b := range []string{"f/T0", "f/T2", "f/T3", "s/S0", "s/S1"} {
		b := b
		behaviours[b] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			log = append(log, exec{task: b})
			if b == "s/S0" {
				calls++
				if kind > 0 && calls < n {
					return false, activity.NewRetriableError("again", "", nil)
				}
			}
			left = left || b == "f/T2" || b == "f/T3"
			return true, nil
		}}
	}
	inst := newInst(named(mustDef(r), provider{"sub": sr}))
	span, _ := spans.StartTrace(trace.Config{}, nil)
	inst.SetTracingContext(span)
	cutRun(inst, true, 20, func() {
		log = nil
		before = calls
		unfinished = begun && !left
	}, func(copied func()) {
		first, log = log, nil
		calls = before
		inLoop = unfinished
		if inLoop {
			vsym.Reach("in the loop")
		}
		copied()
		same := len(first) == len(log)
		for i := 0; same && i < len(first); i++ {
			same = first[i].task == log[i].task
		}
		vsym.AssertKnown("loop-position", inLoop, same, "the restored instance makes the runs the original still makes")
	})
	vsym.Observe("ran", len(first))
}
