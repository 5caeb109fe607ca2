package h

import (
	"time"

	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/core/support/trace"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/state/change"
)

// book is a recorder that keeps everything it is given.
type book struct {
	steps []*state.Step
	snaps []*state.Snapshot
	start []*state.FlowState
	done  []*state.FlowState
	fail  bool
}

func (b *book) RecordStart(s *state.FlowState) error {
	b.start = append(b.start, s)
	return fails(b.fail)
}
func (b *book) RecordSnapshot(s *state.Snapshot) error {
	b.snaps = append(b.snaps, s)
	return fails(b.fail)
}
func (b *book) RecordStep(s *state.Step) error      { b.steps = append(b.steps, s); return fails(b.fail) }
func (b *book) RecordDone(s *state.FlowState) error { b.done = append(b.done, s); return fails(b.fail) }

// part is the state of one flow: of the main flow or a subflow.
type part struct {
	uri    string
	status int
	task   string // task that called the subflow
	attrs  map[string]interface{}
	tasks  map[string]int
	links  map[int]int
}

// st is the state of an instance.
type st struct {
	flows map[int]*part
	queue map[int]state.WorkItem
}

// unnamedWork tells that a record of work taken up need not name it.
var unnamedWork bool

// replayed is what the records say, by the meaning of the records alone.
func replayed(steps []*state.Step) *st {
	s := &st{map[int]*part{}, map[int]state.WorkItem{}}
	for _, step := range steps {
		for id, c := range step.FlowChanges {
			p := s.flows[id]
			if p == nil {
				vsym.Assert(c.NewFlow, "the first record of a flow says that it is new")
				vsym.Assert(c.SubflowId == id, "the record of a flow holds its id")
				p = &part{uri: c.FlowURI, task: c.TaskId, attrs: map[string]interface{}{}, tasks: map[string]int{}, links: map[int]int{}}
				s.flows[id] = p
			}
			if c.Status != 0 {
				p.status = c.Status
			}
			for n, v := range c.Attrs {
				p.attrs[n] = v
			}
			for n, t := range c.Tasks {
				if t.ChgType == change.Delete {
					delete(p.tasks, n)
				} else {
					p.tasks[n] = t.Status
				}
			}
			for n, l := range c.Links {
				if l.ChgType == change.Delete {
					delete(p.links, n)
				} else {
					p.links[n] = l.Status
				}
			}
		}
		for id, q := range step.QueueChanges {
			if q.ChgType == change.Delete {
				if w, ok := s.queue[id]; ok && !unnamedWork {
					vsym.Assert(q.SubflowId == w.SubflowId && q.TaskId == w.TaskId, "the record of work taken up names its task and flow")
				}
				delete(s.queue, id)
			} else {
				s.queue[id] = state.WorkItem{ID: id, SubflowId: q.SubflowId, TaskId: q.TaskId}
			}
		}
	}
	for id, p := range s.flows {
		if id > 0 && p.status >= int(model.FlowStatusCompleted) {
			delete(s.flows, id)
		}
	}
	return s
}

func partOf(b *state.SnapshotBase) *part {
	p := &part{uri: b.FlowURI, status: b.Status, attrs: b.Attrs, tasks: map[string]int{}, links: map[int]int{}}
	for _, t := range b.Tasks {
		p.tasks[t.Id] = t.Status
	}
	vsym.Assert(len(p.tasks) == len(b.Tasks), "a snapshot holds each task once")
	for _, l := range b.Links {
		p.links[l.Id] = l.Status
	}
	vsym.Assert(len(p.links) == len(b.Links), "a snapshot holds each link once")
	return p
}

// shown is what a snapshot says.
func shown(s *state.Snapshot) *st {
	r := &st{map[int]*part{0: partOf(s.SnapshotBase)}, map[int]state.WorkItem{}}
	for _, f := range s.Subflows {
		vsym.Assert(r.flows[f.Id] == nil, "a snapshot holds each subflow once")
		p := partOf(f.SnapshotBase)
		p.task = f.TaskId
		r.flows[f.Id] = p
	}
	last := 0
	for _, w := range s.WorkQueue {
		vsym.Assert(last == 0 || w.ID < last, "the work to be done next comes first")
		last = w.ID
		r.queue[w.ID] = *w
	}
	vsym.Assert(len(r.queue) == len(s.WorkQueue), "a snapshot holds each piece of work once")
	return r
}

// sameState compares the state of an instance (want) with a description of it.
func sameState(got, want *st, what string) {
	vsym.Assert(len(got.flows) == len(want.flows), what+": flows")
	for id, w := range want.flows {
		g := got.flows[id]
		vsym.Assert(g != nil && g.uri == w.uri, what+": flows")
		vsym.Assert(id == 0 || g.task == w.task, what+": tasks calling subflows")
		vsym.Assert(g.status == w.status, what+": flow status")
		vsym.Assert(len(g.attrs) == len(w.attrs), what+": attributes")
		for n, v := range w.attrs {
			x, ok := g.attrs[n]
			vsym.Assert(ok && same(x, v), what+": attributes")
		}
		vsym.Assert(len(g.tasks) == len(w.tasks), what+": tasks")
		for n, v := range w.tasks {
			x, ok := g.tasks[n]
			vsym.Assert(ok && x == v, what+": tasks")
		}
		vsym.Assert(len(g.links) == len(w.links), what+": links")
		for n, v := range w.links {
			x, ok := g.links[n]
			vsym.Assert(ok && x == v, what+": links")
		}
	}
	vsym.Assert(len(got.queue) == len(want.queue), what+": work")
	for id, w := range want.queue {
		g, ok := got.queue[id]
		vsym.Assert(ok && g.TaskId == w.TaskId && g.SubflowId == w.SubflowId, what+": work")
	}
}

// same compares values of attributes.
func same(a, b interface{}) bool {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			if w, ok := y[k]; !ok || !same(v, w) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i, v := range x {
			if !same(v, y[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

// frozen is a copy of a value that shares nothing with it.
func frozen(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		c := map[string]interface{}{}
		for k, w := range x {
			c[k] = frozen(w)
		}
		return c
	case []interface{}:
		c := []interface{}{}
		for _, w := range x {
			c = append(c, frozen(w))
		}
		return c
	}
	return v
}

// copyOf copies a step.
func copyOf(s *state.Step) *state.Step {
	c := *s
	c.FlowChanges = map[int]*change.Flow{}
	for id, f := range s.FlowChanges {
		g := *f
		g.Attrs, _ = frozen(f.Attrs).(map[string]interface{})
		g.ReturnData, _ = frozen(f.ReturnData).(map[string]interface{})
		g.Tasks = map[string]*change.Task{}
		for n, t := range f.Tasks {
			u := *t
			u.Input, _ = frozen(t.Input).(map[string]interface{})
			g.Tasks[n] = &u
		}
		g.Links = map[int]*change.Link{}
		for n, l := range f.Links {
			m := *l
			g.Links[n] = &m
		}
		c.FlowChanges[id] = &g
	}
	c.QueueChanges = map[int]*change.Queue{}
	for n, q := range s.QueueChanges {
		r := *q
		c.QueueChanges[n] = &r
	}
	return &c
}

// unchanged asserts that a step is what it was.
func unchanged(a, b *state.Step, what string) {
	vsym.Assert(a.Id == b.Id && a.FlowId == b.FlowId && len(a.FlowChanges) == len(b.FlowChanges) && len(a.QueueChanges) == len(b.QueueChanges), what)
	for id, f := range b.FlowChanges {
		e := a.FlowChanges[id]
		vsym.Assert(e != nil && e.NewFlow == f.NewFlow && e.FlowURI == f.FlowURI && e.SubflowId == f.SubflowId && e.TaskId == f.TaskId && e.Status == f.Status, what)
		vsym.Assert(same(e.Attrs, f.Attrs) && same(e.ReturnData, f.ReturnData), what)
		vsym.Assert(len(e.Tasks) == len(f.Tasks) && len(e.Links) == len(f.Links), what)
		for n, t := range f.Tasks {
			u := e.Tasks[n]
			vsym.Assert(u != nil && u.ChgType == t.ChgType && u.Status == t.Status && same(u.Input, t.Input), what)
		}
		for n, l := range f.Links {
			vsym.Assert(e.Links[n] != nil && *e.Links[n] == *l, what)
		}
	}
	for id, q := range b.QueueChanges {
		vsym.Assert(a.QueueChanges[id] != nil && *a.QueueChanges[id] == *q, what)
	}
}

// recorded runs a flow with recording on; after every step it calls each with all the records so far.
func recorded(r *definition.DefinitionRep, mode state.RecordingMode, inputs map[string]interface{}, bound int, each func(inst *instance.IndependentInstance, steps []*state.Step)) {
	instance.EnableChangeTracking(true, mode)
	b := &book{}
	inst, err := instance.NewIndependentInstance("inst", "res://flow:"+r.Name, mustDef(r), instance.NewStateInstanceRecorder(b, mode, false), log.RootLogger())
	vsym.Assert(err == nil, "instance")
	var kept []*state.Step
	keep := func() {
		for i := len(kept); i < len(b.steps); i++ {
			kept = append(kept, copyOf(b.steps[i]))
		}
	}
	if trace.Enabled() {
		span, _ := trace.GetTracer().StartTrace(trace.Config{}, nil)
		inst.SetTracingContext(span)
	}
	inst.Start(inputs)
	_ = inst.RecordState(time.Time{})
	keep()
	each(inst, b.steps)
	for i := 0; i < bound && inst.Status() < model.FlowStatusCompleted; i++ {
		n := len(b.steps)
		more := inst.DoStep()
		_ = inst.RecordState(time.Time{})
		keep()
		vsym.Assert(len(b.steps) > n, "every step is recorded")
		each(inst, b.steps)
		if !more {
			break
		}
	}
	vsym.Assert(inst.Status() >= model.FlowStatusCompleted, "run ends")
	for i, s := range b.steps {
		vsym.Assert(s.Id == i, "records are numbered without gaps")
		vsym.Assert(s.FlowId == "inst", "a record names its flow instance")
		unchanged(s, kept[i], "a record is not altered by later execution")
	}
	instance.EnableChangeTracking(false, "off")
	vsym.Observe("steps", len(b.steps), int(inst.Status()))
}

// recTries counts the runs of the retried task of recFlow.
var recTries int

// recFlow describes a flow T0 -> T1 -> T2, T1 -> T3 if a condition, T2, T3 -> T5, T1 -> T4 on error, whose T1 is a plain task, iterates, repeats, is
// retried, calls a subflow with a subflow of its own, or accumulates; T1, T2 and a task of the subflow may fail, and there may be error handlers.
// Attributes hold values, lists and objects; T2 changes those that T0 has set, and sets one to nothing.
func recFlow(mutate bool) *definition.DefinitionRep {
	v := vsym.Int("v")
	g := newGraph("f", 6)
	g.addEdge(0, 1, kDep)
	g.addEdge(1, 2, kDep)
	g.addEdge(1, 3, kExpr)
	g.addEdge(2, 5, kDep)
	g.addEdge(3, 5, kDep)
	if vsym.Choice("errlink", 2) == 1 {
		g.addEdge(1, 4, kError)
	}
	kind := vsym.Choice("kind", 6)
	bad := vsym.Choice("bad", 4) // 1: T1, 2: T2, 3: the subflow
	g.fails[1], g.fails[2] = bad == 1, bad == 2
	r := g.rep()
	if !g.hasErrLink(1) {
		r.Tasks = append(append([]*definition.TaskRep{}, r.Tasks[:4]...), r.Tasks[5])
	}
	switch kind {
	case 1, 5:
		r.Tasks[1] = iterTask("T1", 2)
		r.Tasks[1].Settings["accumulate"] = kind == 5
	case 2:
		r.Tasks[1] = doWhileTask("T1", "again", 0, nil)
		exprs["again"] = func(s data.Scope) (interface{}, error) { return resolved(s, "$iteration[index]") == 0, nil }
	case 3:
		r.Tasks[1].Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": 1, "interval": 0}}
		recTries = 0
		before("f/T1", func(activity.Context) { recTries++ })
		old := behaviours["f/T1"].Eval
		behaviours["f/T1"].Eval = func(ctx activity.Context) (bool, error) {
			d, err := old(ctx)
			if recTries == 1 {
				return false, activity.NewRetriableError("once", "", nil)
			}
			return d, err
		}
	case 4:
		r.Tasks[1] = subflowTask("T1", "sub", map[string]interface{}{"a": "=$flow.x"}, false)
	}
	vsym.Assume(bad != 3 || kind == 4)
	inputsOf(r, map[string]interface{}{"x": 5, "none": nil, "list": []interface{}{v}})
	outputs(r, "o")
	if vsym.Choice("handler", 2) == 1 {
		h := newGraphPre("f", "H", 2)
		h.addEdge(0, 1, kDep)
		h.fails[1] = bad == 1 && vsym.Bool("handlerFails")
		r.ErrorHandler = h.handlerRep()
	}
	s := newGraphPre("s", "S", 2)
	s.addEdge(0, 1, kDep)
	s.fails[0] = bad == 3
	sr := s.rep()
	inputsOf(sr, map[string]interface{}{"a": nil, "b": 4})
	outputs(sr, "o")
	if vsym.Choice("nested", 2) == 1 {
		vsym.Assume(kind == 4)
		sr.Tasks[1] = subflowTask("S1", "leaf", map[string]interface{}{"a": "=$flow.a"}, false)
	}
	if vsym.Choice("subHandler", 2) == 1 {
		vsym.Assume(bad == 3)
		sr.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("K0", "")}}
	}
	ur := &definition.DefinitionRep{Name: "u", Tasks: []*definition.TaskRep{task("U0", "")}}
	inputsOf(ur, map[string]interface{}{"a": nil})
	outputs(ur, "a")
	setFlows(provider{"sub": sr, "leaf": ur})
	obj := map[string]interface{}{"k": v, "l": []interface{}{1, 2}}
	before("f/T0", func(ctx activity.Context) {
		setAttr(ctx, "obj", obj)
		_ = ctx.SetOutput("out", v)
		_ = ctx.SetOutput("out2", map[string]interface{}{"inner": []interface{}{v}})
	})
	before("f/T2", func(ctx activity.Context) {
		setAttr(ctx, "x", 6)
		setAttr(ctx, "list", nil)
		if !mutate {
			return
		}
		obj["k"] = 0
		obj["l"].([]interface{})[1] = 3
		if m, _ := sees(ctx, "$activity[T0].out2").(map[string]interface{}); m != nil {
			m["inner"].([]interface{})[0] = 9
		}
	})
	before("s/S0", func(ctx activity.Context) {
		setAttr(ctx, "o", v)
		setAttr(ctx, "b", nil)
	})
	behaviours["s/K0"], behaviours["u/U0"] = &Behaviour{}, &Behaviour{}
	return r
}

// C16_Records: flows of up to 6 tasks with a plain, iterating, repeating, retried, accumulating or (nested) subflow task, conditions, failing tasks, error
// links and error handlers, in the modes step and debugger: the records so far, read by the meaning of their fields, describe the state of the
// instance after every step; each record is the same at the end of the run as when it was made. Attributes are tracked.
//
// Shards: 4
// Timeout: 300
// Env: FLOGO_FLOW_SM_ENDPOINT=x
// Reaches: failed, handled, subflow active
func C16_Records() {
	mode := state.RecordingModeStep
	if vsym.Choice("debugger", 2) == 1 {
		mode = state.RecordingModeDebugger
	}
	recorded(recFlow(false), mode, map[string]interface{}{"x": vsym.Int("x")}, 40, func(inst *instance.IndependentInstance, steps []*state.Step) {
		snap := inst.Snapshot()
		if len(snap.Subflows) > 1 {
			vsym.Reach("subflow active")
		}
		if inst.Status() == model.FlowStatusFailed {
			vsym.Reach("failed")
		} else if inst.Status() == model.FlowStatusCompleted && len(runLog) > 0 && runLog[len(runLog)-1] == "f/H1" {
			vsym.Reach("handled")
		}
		sameState(replayed(steps), shown(snap), "the records describe the state of the instance")
	})
}

// C16_Frozen: the flows of C16_Records, in which a task changes the values that an earlier task has stored, without storing
// them again: the records already made keep the values as they were.
//
// Shards: 2
// Timeout: 300
// Env: FLOGO_FLOW_SM_ENDPOINT=x
func C16_Frozen() {
	recorded(recFlow(true), state.RecordingModeDebugger, map[string]interface{}{"x": vsym.Int("x")}, 40, func(*instance.IndependentInstance, []*state.Step) {})
}

// C16_Debugger: in debugger mode, a task - plain, iterating twice or calling another flow - is given an object or a list and the flow, and the one it calls, return one;
// each of these is changed by a later task, or by the caller of the flow. The records keep what the task was given and the flows returned.
//
// Env: FLOGO_FLOW_SM_ENDPOINT=x
// Reaches: input, returned, subflow returned
func C16_Debugger() {
	kind, list := vsym.Choice("kind", 3), vsym.Choice("list", 2) == 1
	v := vsym.Int("v")
	value := func() interface{} {
		if list {
			return []interface{}{v, map[string]interface{}{"k": v}, []interface{}{v}}
		}
		return map[string]interface{}{"k": v, "l": []interface{}{v}}
	}
	obj, ret, was := value(), value(), value()
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T0", ""), task("T1", ""), task("T2", "")},
		Links: []*definition.LinkRep{link("T0", "T1", "", ""), link("T1", "T2", "", "")}}
	outputs(r, "o")
	s := &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}
	inputsOf(s, map[string]interface{}{"a": nil})
	outputs(s, "o")
	setFlows(provider{"sub": s})
	switch kind {
	case 0, 1:
		if kind == 1 {
			r.Tasks[1] = iterTask("T1", 2)
		}
		r.Tasks[1].ActivityCfgRep.Input = map[string]interface{}{"in": "=$activity[T0].out"}
	case 2:
		r.Tasks[1] = subflowTask("T1", "sub", map[string]interface{}{"a": "=$activity[T0].out"}, false)
	}
	spoil := func(v interface{}) {
		switch m := v.(type) {
		case []interface{}:
			m[0], m[1].(map[string]interface{})["k"], m[2].([]interface{})[0] = "spoilt", "spoilt", "spoilt"
		case map[string]interface{}:
			m["k"], m["more"] = 0, 1
			m["l"].([]interface{})[0] = "spoilt"
		}
	}
	*behaviourOf("f", "T0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) { _ = ctx.SetOutput("out", obj); return true, nil }}
	*behaviourOf("f", "T1") = Behaviour{}
	*behaviourOf("s", "S0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		ctx.ActivityHost().Return(map[string]interface{}{"o": ret}, nil)
		return true, nil
	}}
	*behaviourOf("f", "T2") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		spoil(obj)
		if kind == 2 {
			m := sees(ctx, "$activity[T1].o")
			vsym.Assert(m != nil, "the called flow returned")
			spoil(m)
		} else {
			ctx.ActivityHost().Return(map[string]interface{}{"o": ret}, nil)
		}
		return true, nil
	}}
	ended := false
	recorded(r, state.RecordingModeDebugger, nil, 20, func(inst *instance.IndependentInstance, steps []*state.Step) {
		if inst.Status() < model.FlowStatusCompleted || ended {
			return
		}
		ended = true
		if kind != 2 {
			spoil(ret) // by the caller
		}
		inputs, returned := 0, 0
		for _, st := range steps {
			for _, f := range st.FlowChanges {
				if t := f.Tasks["T1"]; t != nil && f.SubflowId == 0 && kind < 2 && len(t.Input) > 0 {
					inputs++
					vsym.Assert(same(t.Input["in"], was), "a record keeps the inputs of a task")
				}
				if f.ReturnData != nil && f.ReturnData["o"] != nil {
					returned++
					vsym.Assert(same(f.ReturnData["o"], was), "a record keeps what a flow returned")
					if f.SubflowId > 0 {
						vsym.Reach("subflow returned")
					} else {
						vsym.Reach("returned")
					}
				}
			}
		}
		vsym.Observe("kept", inputs, returned)
		vsym.Assert(kind == 2 || inputs > kind, "the inputs of a task are recorded in debugger mode")
		vsym.Assert(returned > 0, "what a flow returns is recorded in debugger mode")
		if inputs > 0 {
			vsym.Reach("input")
		}
	})
	vsym.Assert(ended, "run ends")
}

// C16_Attributes: a task of a flow, or of a flow it calls, sets an attribute up to 3 times in one step to a number, text, a list or nothing, which a later task may set again.
//
// Env: FLOGO_FLOW_SM_ENDPOINT=x
// Reaches: nothing, in subflow
func C16_Attributes() {
	inSub := vsym.Choice("inSub", 2) == 1
	v := vsym.Int("v")
	some := func(name string) interface{} {
		switch vsym.Choice(name, 4) {
		case 0:
			return v
		case 1:
			return "text"
		case 2:
			return []interface{}{v}
		}
		return nil
	}
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T0", ""), task("T1", "")}, Links: []*definition.LinkRep{link("T0", "T1", "", "")}}
	s := &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", ""), task("S1", "")}, Links: []*definition.LinkRep{link("S0", "S1", "", "")}}
	setFlows(provider{"sub": s})
	at := "f/T"
	*behaviourOf("f", "T0"), *behaviourOf("f", "T1") = Behaviour{}, Behaviour{}
	if inSub {
		at = "s/S"
		r.Tasks[0] = subflowTask("T0", "sub", nil, false)
	}
	n, again := 1+vsym.Choice("times", 3), vsym.Choice("again", 2) == 1
	var last interface{}
	behaviours[at+"0"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		for i := 0; i < n; i++ {
			last = some("value" + string(rune('0'+i)))
			setAttr(ctx, "a", last)
		}
		return true, nil
	}}
	behaviours[at+"1"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		if again {
			last = some("again")
			setAttr(ctx, "a", last)
		}
		return true, nil
	}}
	id := btoi(inSub)
	was := last
	recorded(r, state.RecordingModeStep, nil, 20, func(inst *instance.IndependentInstance, steps []*state.Step) {
		now := steps[len(steps)-1]
		c := now.FlowChanges[id]
		var got interface{}
		has := false
		if c != nil {
			got, has = c.Attrs["a"]
		}
		if has {
			vsym.Assert(same(got, last), "a record holds the value an attribute was given last")
			if last == nil {
				vsym.Reach("nothing")
			}
			if inSub {
				vsym.Reach("in subflow")
			}
		} else {
			vsym.Assert(same(was, last), "a changed attribute is recorded")
		}
		was = last
	})
}

// C16_Traced: with a tracer or without, a task T1 of a flow T0 -> T1 -> T2 calls a flow S0 -> S1 up to 3 times, by iterating, by repeating itself or by being retried, or a task of the
// called flow loops; any of the runs may be the one that fails. The records describe the state of the instance after every step, in which a called flow names the task calling it.
//
// Env: FLOGO_FLOW_SM_ENDPOINT=x
// Reaches: subflow active, again, failed
func C16_Traced() {
	if vsym.Choice("traced", 2) == 1 {
		vsym.Assert(trace.RegisterTracer(&tracer{}) == nil, "tracer")
	}
	n := 1 + vsym.Choice("n", 3)
	bad := vsym.Range("bad", 0, 3)
	inside := vsym.Choice("inside", 2) == 1
	_, r := loopFlow(nil)
	s := newGraphPre("s", "S", 2)
	s.addEdge(0, 1, kDep)
	sr := s.rep()
	t, name := r.Tasks[1], "f/T1"
	if inside {
		t, name = sr.Tasks[0], "s/S0"
	}
	switch vsym.Choice("kind", 3) {
	case 0:
		t.Type, t.Settings = "iterator", map[string]interface{}{"iterate": n}
	case 1:
		t.Type, t.Settings = "doWhile", map[string]interface{}{"condition": "=again"}
	case 2:
		t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": n, "interval": 0}}
	}
	runs := 0
	exprs["again"] = func(data.Scope) (interface{}, error) { return runs < n, nil }
	behaviours["f/T1"] = hostBehaviour("sub", nil)
	old := behaviours[name].Eval
	if inside {
		old = func(activity.Context) (bool, error) { return true, nil }
	}
	behaviours[name].Eval = func(ctx activity.Context) (bool, error) {
		runs++
		if runs > 1 {
			vsym.Reach("again")
		}
		if runs == bad {
			return false, errText("bad")
		}
		if t.Type == "" && runs < n {
			return false, activity.NewRetriableError("again", "", nil)
		}
		return old(ctx)
	}
	setFlows(provider{"sub": sr})
	recorded(r, state.RecordingModeStep, nil, 40, func(inst *instance.IndependentInstance, steps []*state.Step) {
		snap := inst.Snapshot()
		for _, f := range snap.Subflows {
			vsym.Reach("subflow active")
			vsym.Assert(f.TaskId == "T1", "a called flow names the task that calls it")
		}
		if inst.Status() == model.FlowStatusFailed || runs == bad {
			vsym.Reach("failed")
		}
		sameState(replayed(steps), shown(snap), "the records describe the state of the instance")
	})
}
