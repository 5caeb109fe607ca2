package h

import (
	"time"

	"flowverif/acts/defaults"
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/support/event"
)

// happened is what one flow did according to the events.
type happened struct {
	name             string
	parent, parentID string
	flow             []event.FlowEvent
	tasks            map[string][]event.TaskEvent
	host             event.HostTask
}

// taskOf is the id of the task whose name an event has.
func taskOf(e event.TaskEvent) string {
	id := idOf(e.TaskName())
	vsym.Assert(nameOf(id) == e.TaskName() && id == e.TaskInstanceId(), "events of a task name the task")
	return id
}

// history reads the events; every event names its flow.
func history() (map[string]*happened, []string) {
	m := map[string]*happened{}
	var ids []string
	var last time.Time
	for _, e := range allEvs {
		if e, ok := e.(interface{ Time() time.Time }); ok {
			vsym.Assert(!e.Time().IsZero() && !e.Time().Before(last), "events tell when they happened, and come in that order")
			last = e.Time()
		}
		switch e := e.(type) {
		case event.FlowEvent:
			f := m[e.FlowID()]
			if f == nil {
				f = &happened{name: e.FlowName(), parent: e.ParentFlowName(), parentID: e.ParentFlowID(), host: e.HostTask(), tasks: map[string][]event.TaskEvent{}}
				m[e.FlowID()] = f
				ids = append(ids, e.FlowID())
			}
			vsym.Assert(f.name == e.FlowName() && f.parent == e.ParentFlowName() && f.parentID == e.ParentFlowID(), "events of a flow name the flow and its parent")
			if len(f.flow) > 0 {
				vsym.Assert(f.flow[len(f.flow)-1].FlowStatus() == event.STARTED, "a flow has one final event")
			}
			f.flow = append(f.flow, e)
		case event.TaskEvent:
			f := m[e.FlowID()]
			vsym.Assert(f != nil && f.name == e.FlowName(), "events of a task name its flow, which has started")
			vsym.Assert(len(f.flow) == 1, "a task has events while its flow runs")
			vsym.Assert(e.ActivityRef() == StubRef, "events of a task name its activity")
			f.tasks[taskOf(e)] = append(f.tasks[taskOf(e)], e)
		}
	}
	return m, ids
}

// statuses checks that the events of a task are a possible sequence of changes, and gives them.
func statuses(evs []event.TaskEvent) (list []string) {
	last := ""
	for _, e := range evs {
		s := string(e.TaskStatus())
		ok := false
		switch s {
		case event.SCHEDULED:
			ok = last == ""
		case event.STARTED:
			ok = last == event.SCHEDULED || last == event.WAITING
		case event.SKIPPED:
			ok = last == event.SCHEDULED
		case event.WAITING:
			ok = last == event.STARTED
		case event.COMPLETED, event.FAILED:
			ok = last == event.STARTED || last == event.WAITING
		}
		vsym.Assert(ok, "a task has one event for each change of its status")
		list = append(list, s)
		last = s
	}
	return
}

func lastOf(list []string) string {
	if len(list) == 0 {
		return ""
	}
	return list[len(list)-1]
}

// C27_Graph: flows of 3 tasks (thorough 4, fewer link kinds) with any links, conditions and failures, and an error handler or none.
//
// Shards: 8
// Reaches: failed, completed, handled
func C27_Graph() {
	n, kinds := 3, 6
	g := newGraph("f", n)
	if vsym.Tier() == 1 {
		g = newGraph("f", 4)
		n, kinds = 4, 3
	}
	g.chooseEdges(kinds)
	for i := range g.fails {
		g.fails[i] = vsym.Bool("fail" + g.tn(i))
		g.how[i] = i % nFailures
	}
	r := g.rep()
	handler := vsym.Choice("handler", 2) == 1
	if handler {
		h := newGraphPre("f", "H", 1)
		r.ErrorHandler = h.handlerRep()
	}
	def := mustDef(r)
	listen()
	inst := newInst(def)
	inst.Start(nil)
	vsym.Assert(drive(inst, 40), "run ends")
	stopListening()
	g.oracle()
	m, ids := history()
	vsym.Assert(len(ids) == 1 && ids[0] == "inst", "events name the flows that run")
	f := m["inst"]
	vsym.Assert(f.name == "f" && f.parent == "" && f.parentID == "" && f.host.TaskName == "", "the main flow has no parent")
	vsym.Assert(len(f.flow) == 2 && f.flow[0].FlowStatus() == event.STARTED, "a flow has an event when it starts and when it ends")
	end := f.flow[1]
	if inst.Status() == model.FlowStatusCompleted {
		vsym.Assert(end.FlowStatus() == event.COMPLETED && end.FlowError() == nil, "a flow has an event when it starts and when it ends")
		vsym.Reach("completed")
	} else {
		_, err := inst.GetReturnData()
		vsym.Assert(end.FlowStatus() == event.FAILED && end.FlowError() == err && err != nil, "the event of a failed flow holds its error")
		vsym.Reach("failed")
	}
	known := 0
	for i := 0; i < n; i++ {
		list := statuses(f.tasks[g.tn(i)])
		if len(list) > 0 {
			known++
		}
		switch {
		case g.evals[i] > 0 && g.fails[i]:
			vsym.Assert(lastOf(list) == event.FAILED, "a task that fails has an event that it failed")
			e := f.tasks[g.tn(i)][len(list)-1]
			vsym.Assert(e.TaskError() != nil, "the event of a failed task holds its error")
			if g.how[i] != byPanic {
				vsym.Assert(e.TaskError().Error() == g.tn(i), "the event of a failed task holds its error")
			}
		case g.evals[i] > 0:
			vsym.Assert(lastOf(list) == event.COMPLETED, "a task that is done has an event that it is")
		default:
			l := lastOf(list)
			vsym.Assert(l == "" || l == event.SCHEDULED || l == event.STARTED || l == event.SKIPPED, "a task that did not run has no event that it did")
			if g.unh == 0 {
				vsym.Assert(l == event.SKIPPED == g.skip[i], "a task that is skipped has an event that it is")
			} else if l == event.SKIPPED {
				vsym.Assert(g.skip[i], "a task that is skipped has an event that it is")
			}
		}
		for _, e := range f.tasks[g.tn(i)] {
			vsym.Assert(e.TaskStatus() == event.FAILED || e.TaskError() == nil, "only the event of a failed task holds an error")
		}
	}
	if len(f.tasks["H0"]) > 0 {
		known++
		vsym.Assert(handler && g.unh > 0, "a task that did not run has no event that it did")
		list := statuses(f.tasks["H0"])
		vsym.Assert(lastOf(list) == event.COMPLETED, "a task that is done has an event that it is")
		vsym.Reach("handled")
	}
	vsym.Assert(len(f.tasks) == known, "events name the tasks of the flow")
	// tasks end in the order in which they ran
	at := 0
	for _, e := range taskEvs {
		if s := e.TaskStatus(); (s == event.COMPLETED || s == event.FAILED) && taskOf(e)[0] == 'T' {
			vsym.Assert(at < len(g.order) && taskOf(e) == g.tn(g.order[at]), "events come in the order in which things happen")
			at++
		}
	}
	vsym.Assert(at == len(g.order), "a task that ran has an event that it ended")
}

// C27_Nested: a flow whose task, in a loop of either kind, with retries, or plainly, calls a flow, which calls another one; either may
// fail; values of inputs and outputs are arbitrary.
//
// Shards: 4
// Reaches: failed, completed
func C27_Nested() {
	in, out := vsym.Int("in"), vsym.Int("out")
	kind := vsym.Choice("kind", 5)
	failsAt := vsym.Choice("fails", 4) // 0: none, 1: the inner flow, 2: the outer one, 3: the task calling it
	mk := func(name, callee string) *definition.DefinitionRep {
		r := &definition.DefinitionRep{Name: name, Tasks: []*definition.TaskRep{task("T0", ""), task("T1", "")}, Links: []*definition.LinkRep{link("T0", "T1", "", "")}}
		r.Tasks[0].ActivityCfgRep.Input = map[string]interface{}{"in": in}
		*behaviourOf(name, "T0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			if callee != "" {
				return false, instance.StartSubFlow(ctx, callee, map[string]interface{}{"a": in})
			}
			return true, ctx.SetOutput("out", out)
		}, Post: func(ctx activity.Context) (bool, error) { return true, ctx.SetOutput("out", out) }}
		*behaviourOf(name, "T1") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			ctx.ActivityHost().Return(map[string]interface{}{"res": out}, nil)
			return true, nil
		}}
		inputsOf(r, map[string]interface{}{"a": 0})
		return r
	}
	outer, inner, main := mk("outer", "inner"), mk("inner", ""), mk("f", "outer")
	runs := 0
	if failsAt == 1 {
		*behaviourOf("inner", "T1") = Behaviour{Eval: func(activity.Context) (bool, error) { return false, errText("bad") }}
	}
	if failsAt == 2 {
		*behaviourOf("outer", "T1") = Behaviour{Eval: func(activity.Context) (bool, error) { return false, errText("bad") }}
	}
	t, b := main.Tasks[0], behaviourOf("f", "T0")
	want := 1
	post := b.Post
	b.Post = func(ctx activity.Context) (bool, error) {
		runs++
		if failsAt == 3 {
			return false, errText("bad")
		}
		return post(ctx)
	}
	switch kind {
	case 1:
		t.Type, t.Settings, want = "iterator", map[string]interface{}{"iterate": 2}, 2
	case 2:
		t.Type, t.Settings, want = "doWhile", map[string]interface{}{"condition": "more"}, 2
		exprs["more"] = func(data.Scope) (interface{}, error) { return runs < 2, nil }
	case 3:
		t.Settings, want = map[string]interface{}{"retryOnError": map[string]interface{}{"count": 1, "interval": 0}}, 2
		if failsAt != 0 {
			want = 1
		} else {
			b.Post = func(ctx activity.Context) (bool, error) {
				runs++
				if runs == 1 {
					return false, activity.NewRetriableError("again", "", nil)
				}
				return post(ctx)
			}
		}
	case 4: // nothing is called
		want = 0
		b.Eval = func(ctx activity.Context) (bool, error) {
			if failsAt == 3 {
				return false, errText("bad")
			}
			return true, ctx.SetOutput("out", out)
		}
	}
	if failsAt != 0 && want > 1 {
		want = 1
	}
	if kind == 4 && failsAt != 3 {
		failsAt = 0
	}
	setFlows(provider{"outer": outer, "inner": inner})
	def := mustDef(main)
	listen()
	inst := newInst(def)
	inst.Start(map[string]interface{}{"a": in})
	vsym.Assert(drive(inst, 100), "run ends")
	stopListening()
	m, ids := history()
	vsym.Observe("events", len(flowEvs), len(taskEvs))
	vsym.Assert(len(ids) == 1+2*want, "events name the flows that run")
	for x, id := range ids {
		f := m[id]
		level := 0
		if x > 0 {
			level = 1 + (x-1)%2
		}
		vsym.Assert(f.name == []string{"f", "outer", "inner"}[level], "events name the flows that run")
		if level > 0 {
			p := ids[0]
			if level == 2 {
				p = ids[x-1]
			}
			vsym.Assert(f.parentID == p && f.parent == m[p].name, "the event of a subflow names the flow calling it")
			vsym.Assert(f.host.TaskName == nameOf("T0"), "the event of a subflow names the task calling it")
		} else {
			vsym.Assert(id == "inst" && f.parentID == "" && f.parent == "" && f.host.TaskName == "", "the main flow has no parent")
		}
		vsym.Assert(len(f.flow) == 2 && f.flow[0].FlowStatus() == event.STARTED, "a flow has an event when it starts and when it ends")
		vsym.Assert(f.flow[0].FlowInput()["a"] == in, "the event of a flow that starts holds its inputs")
		failed := failsAt == 1 || failsAt == 2 && level < 2 || failsAt == 3 && level < 1
		end := f.flow[1]
		if failed {
			vsym.Assert(end.FlowStatus() == event.FAILED && end.FlowError() != nil, "the event of a failed flow holds its error")
			vsym.Assert(end.FlowError().Error() == "bad", "the event of a failed flow holds its error")
		} else {
			vsym.Assert(end.FlowStatus() == event.COMPLETED && end.FlowError() == nil, "a flow has an event when it starts and when it ends")
			vsym.Assert(end.FlowOutput()["res"] == out, "the event of a completed flow holds its outputs")
		}
		evs := f.tasks["T0"]
		list := statuses(evs)
		vsym.Assert(len(list) >= 3, "a task has one event for each change of its status")
		calls := level < 2 && kind != 4
		waits := 0
		for _, s := range list {
			if s == event.WAITING {
				waits++
			}
		}
		n := 0
		if calls {
			n = 1
			if level == 0 && kind != 3 { // a task that retries while it waits goes on waiting
				n = want
			}
		}
		vsym.Assert(waits == n, "a task has an event whenever it waits")
		last := evs[len(evs)-1]
		inside := failed && !(failsAt == 1 && level == 2) && !(failsAt == 2 && level == 1)
		if inside { // T0 failed
			vsym.Assert(lastOf(list) == event.FAILED && last.TaskError() != nil, "the event of a failed task holds its error")
			vsym.Assert(last.TaskError().Error() == "bad", "the event of a failed task holds its error")
			vsym.Assert(len(f.tasks["T1"]) == 0, "a task that did not run has no event that it did")
		} else {
			vsym.Assert(lastOf(list) == event.COMPLETED && last.TaskError() == nil, "a task that is done has an event that it is")
			vsym.Assert(last.TaskInput()["in"] == in, "the event of a task that is done holds its inputs")
			vsym.Assert(last.TaskOutput()["out"] == out, "the event of a task that is done holds its outputs")
			end := event.COMPLETED
			if failed {
				end = event.FAILED
			}
			vsym.Assert(lastOf(statuses(f.tasks["T1"])) == end, "a task has one event for each change of its status")
		}
		for _, e := range evs[:len(evs)-1] {
			vsym.Assert(len(e.TaskOutput()) == 0, "only the event of a task that is done holds outputs")
		}
	}
	if failsAt != 0 {
		vsym.Reach("failed")
	} else {
		vsym.Reach("completed")
	}
}

const defaultsRef = "flowverif/acts/defaults"

// C27_Data: a flow, called by another one or not, with the attributes a, given or not, and r, which is also its output, and a task, whose name is not its
// id, of an activity with a default for one of its inputs; the task is given values, nil or nothing, and returns outputs, with an error or without one.
//
// Reaches: ends with an error, ends with outputs
func C27_Data() {
	v, w, x := vsym.Int("v"), vsym.Int("w"), vsym.Int("x")
	sub, given := vsym.Choice("sub", 2) == 1, vsym.Choice("given", 2) == 1
	r := &definition.DefinitionRep{Name: "g", Tasks: []*definition.TaskRep{task("T0", ""), task("T1", "")}, Links: []*definition.LinkRep{link("T0", "T1", "", "")}}
	r.Tasks[0].ActivityCfgRep.Ref, r.Tasks[0].Name = defaultsRef, "first task"
	r.Tasks[1].Name = "second task"
	inputsOf(r, map[string]interface{}{"a": 7, "r": nil})
	outputs(r, "r")
	in := map[string]interface{}{}
	want := map[string]interface{}{"in": nil, "def": 5}
	for _, n := range []string{"in", "def"} {
		switch vsym.Choice("in"+n, 3) {
		case 1:
			in[n], want[n] = v, v
		case 2:
			in[n], want[n] = "=$flow.r", nil
		}
	}
	r.Tasks[0].ActivityCfgRep.Input = in
	gives := vsym.Choice("gives", 3)
	defaults.Eval = func(ctx activity.Context) (bool, error) {
		switch gives {
		case 1:
			_ = ctx.SetOutput("out", w)
		case 2:
			_ = ctx.SetOutput("out", nil)
		}
		return true, nil
	}
	end := vsym.Choice("end", 4)
	behaviours["g/second task"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		switch end {
		case 1:
			ctx.ActivityHost().Return(map[string]interface{}{"r": x}, nil)
		case 2:
			ctx.ActivityHost().Return(map[string]interface{}{"r": x}, errText("bad"))
		case 3:
			ctx.ActivityHost().Return(nil, errText("bad"))
		}
		return true, nil
	}}
	main := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("S", "")}}
	main.Tasks[0].Name = "calls g"
	args := map[string]interface{}{}
	a := 7
	if given {
		a, args["a"] = v, v
	}
	behaviours["f/calls g"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) { return false, instance.StartSubFlow(ctx, "g", args) }}
	setFlows(provider{"g": r})
	id := "inst"
	listen()
	var inst *instance.IndependentInstance
	if sub {
		id += "-1"
		inst = newInst(mustDef(main))
		inst.Start(nil)
	} else {
		inst = newInst(mustDef(r))
		inst.Start(args)
	}
	vsym.Assert(drive(inst, 40), "run ends")
	stopListening()
	n := 0
	for _, e := range flowEvs {
		if e.FlowName() != "g" {
			continue
		}
		if sub {
			vsym.Assert(e.HostTask().TaskName == "calls g" && e.HostTask().TaskInstanceId == "S", "the event of a subflow names the task calling it")
		} else {
			vsym.Assert(e.HostTask().TaskName == "" && e.HostTask().TaskInstanceId == "", "the main flow has no parent")
		}
		vsym.Assert(e.FlowInput()["a"] == a, "the event of a flow holds its inputs")
		if n == 0 {
			vsym.Assert(e.FlowStatus() == event.STARTED && len(e.FlowOutput()) == 0 && e.FlowError() == nil, "a flow has an event when it starts and when it ends")
		} else {
			vsym.Assert(n == 1, "a flow has an event when it starts and when it ends")
			o := e.FlowOutput()
			switch end {
			case 1, 2:
				vsym.Assert(e.FlowStatus() == event.COMPLETED && len(o) == 1 && o["r"] == x, "the event of a completed flow holds its outputs")
				_, both := e.FlowInput()["r"]
				vsym.Assert(!both, "what is returned is no input")
			default:
				vsym.Assert(o["r"] == nil, "the event of a completed flow holds its outputs")
			}
		}
		n++
	}
	vsym.Assert(n == 2, "a flow has an event when it starts and when it ends")
	first := 0
	for _, e := range taskEvs {
		if e.FlowName() != "g" {
			continue
		}
		if e.TaskName() == "second task" {
			vsym.Assert(e.ActivityRef() == StubRef && e.TaskInstanceId() == "T1", "events of a task name the task and its activity")
			continue
		}
		first++
		vsym.Assert(e.TaskName() == "first task" && e.TaskInstanceId() == "T0" && e.ActivityRef() == defaultsRef && e.TaskType() == "", "events of a task name the task and its activity")
		if e.TaskStatus() != event.COMPLETED {
			vsym.Assert(len(e.TaskOutput()) == 0, "only the event of a task that is done holds outputs")
			continue
		}
		i, o := e.TaskInput(), e.TaskOutput()
		vsym.Assert(len(i) == 2 && i["in"] == want["in"] && i["def"] == want["def"], "the event of a task that is done holds its inputs")
		vsym.Assert(len(o) == 1, "the event of a task that is done holds its outputs")
		wantOut := []interface{}{9, w, nil}[gives]
		vsym.Assert(o["out"] == wantOut, "the event of a task that is done holds its outputs")
	}
	vsym.Assert(first >= 3, "a task has one event for each change of its status")
	if end > 1 {
		vsym.Reach("ends with an error")
	} else {
		vsym.Reach("ends with outputs")
	}
}
