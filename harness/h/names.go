package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/state"
)

// oddIds and oddNames are pairs of names that are nearly the same or are unusual.
var oddIds = [][2]string{{"1", "10"}, {"a", "A"}, {"a b", "a"}, {"é", "e"}, {"a.b", "a"}, {"_E", "_A"}, {"T-0", "T"}, {"main", "activity"}, {"a/b#1", "a/b#2"}, {"0", "-1"}}
var oddNames = [][2]string{{"x", "X"}, {"x", "xx"}, {"x y", "x"}, {"é", "e"}, {"x.y", "x"}, {"_x", "x"}, {"1", "01"}, {"error", "flow"}, {"true", "null"}, {"_", "out"}}

// oddFlow is a flow P -> Q -> C -> Z, Q -> E on error, whose tasks P and Q, and whose attributes and those of the flow that C calls, have odd names,
// and the reference: what the tasks see.
type oddFlow struct {
	p, q, n, m string
	rep        *definition.DefinitionRep
	subs       provider
	bad        bool
	a, b, c, d int
	log        []exec
}

// ref is a reference to a task with any id.
func ref(kind, id string) string { return "=$" + kind + "[\"" + id + "\"]" }

// valueOf is the value of a name in a scope, nil if it has none.
func valueOf(s data.Scope, name string) interface{} {
	if v, ok := s.GetValue(name); ok {
		return v
	}
	return nil
}

func (o *oddFlow) see(key, name string, f func(ctx activity.Context) error) {
	behaviours[key] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		s := ctx.ActivityHost().Scope()
		x, y := valueOf(s, o.n), valueOf(s, o.m)
		o.log = append(o.log, exec{task: name, in: ctx.GetInput("in"), in2: x, flow: y, id: ctx.ActivityHost().ID()})
		err := f(ctx)
		return err == nil, err
	}}
}

func anOdd() *oddFlow {
	ids := oddIds[vsym.Choice("ids", len(oddIds))]
	names := oddNames[vsym.Choice("names", len(oddNames))]
	o := &oddFlow{p: ids[0], q: ids[1], n: names[0], m: names[1], subs: provider{}}
	if vsym.Choice("swap", 2) == 1 {
		o.p, o.q = o.q, o.p
	}
	vsym.Assume(vsym.Tier() == 1 || ids == oddIds[0] || names == oddNames[0] || ids == oddIds[4])
	o.bad = vsym.Bool("bad")
	o.a, o.b, o.c, o.d = vsym.Range("a", 0, 9), vsym.Range("b", 10, 19), vsym.Range("c", 20, 29), vsym.Range("d", 30, 39)
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task(o.p, ""), task(o.q, ""),
		subflowTask("C", "lib://a b/"+o.n+"?v=1#2", map[string]interface{}{o.n: ref("activity", o.q) + ".out", o.m: ref("activity", o.p) + ".out"}, false),
		task("Z", ""), task("E", "")},
		Links: []*definition.LinkRep{link(o.p, o.q, "", ""), link(o.q, "C", "", ""), link("C", "Z", "", ""), link(o.q, "E", "error", "")}}
	r.Tasks[1].ActivityCfgRep.Input = map[string]interface{}{"in": ref("activity", o.p) + ".out"}
	r.Tasks[3].ActivityCfgRep.Input = map[string]interface{}{"in": ref("activity", o.q) + ".out"}
	r.Tasks[4].ActivityCfgRep.Input = map[string]interface{}{"in": ref("error", o.q) + ".message"}
	inputsOf(r, map[string]interface{}{o.n: o.c})
	outputs(r, o.n, o.m)
	s := &definition.DefinitionRep{Name: "s t", Tasks: []*definition.TaskRep{task(o.q, ""), task(o.p, "")}, Links: []*definition.LinkRep{link(o.q, o.p, "", "")}}
	s.Tasks[1].ActivityCfgRep.Input = map[string]interface{}{"in": ref("activity", o.q) + ".out"}
	inputsOf(s, map[string]interface{}{o.n: nil, o.m: nil})
	outputs(s, o.n, o.m)
	name := func(id string) string { return id }
	if vsym.Choice("renamed", 2) == 1 {
		other := map[string]string{o.p: o.q, o.q: o.p, "C": "Z", "Z": "C", "E": o.p + o.q}
		name = func(id string) string { return other[id] }
	}
	for _, t := range append(append([]*definition.TaskRep{}, r.Tasks...), s.Tasks...) {
		t.Name = name(t.ID)
	}
	o.subs["lib://a b/"+o.n+"?v=1#2"] = s
	o.see("f/"+name(o.p), "P", func(ctx activity.Context) error {
		setAttr(ctx, o.m, o.d)
		return ctx.SetOutput("out", o.a)
	})
	o.see("f/"+name(o.q), "Q", func(ctx activity.Context) error {
		if o.bad {
			return activity.NewError("bad", "", nil)
		}
		return ctx.SetOutput("out", o.b)
	})
	o.see("s t/"+name(o.q), "S0", func(ctx activity.Context) error { return ctx.SetOutput("out", 50) })
	o.see("s t/"+name(o.p), "S1", func(ctx activity.Context) error {
		setAttr(ctx, o.n, 60)
		return ctx.SetOutput("out", 70)
	})
	end := func(ctx activity.Context) error { setAttr(ctx, o.n, 80); return nil }
	o.see("f/"+name("Z"), "Z", func(ctx activity.Context) error {
		s := ctx.ActivityHost().Scope()
		o.log = append(o.log, exec{task: "given", in: valueOf(s, "_A.C."+o.n), in2: valueOf(s, "_A.C."+o.m)})
		return end(ctx)
	})
	o.see("f/"+name("E"), "E", end)
	o.rep = r
	return o
}

// check compares what happened with the reference.
func (o *oddFlow) check(status model.FlowStatus, out map[string]interface{}) {
	want := []exec{{task: "P", in2: o.c}, {task: "Q", in: o.a, in2: o.c, flow: o.d}}
	if o.bad {
		want = append(want, exec{task: "E", in: "bad", in2: o.c, flow: o.d})
		vsym.Reach("failed")
	} else {
		want = append(want, exec{task: "S0", in2: o.b, flow: o.a}, exec{task: "S1", in: 50, in2: o.b, flow: o.a},
			exec{task: "Z", in: o.b, in2: o.c, flow: o.d}, exec{task: "given", in: 60, in2: o.a})
		vsym.Reach("calls")
	}
	vsym.Assert(status == model.FlowStatusCompleted, "the flow completes")
	vsym.Assert(len(o.log) == len(want), "the tasks run")
	for i, w := range want {
		l := o.log[i]
		vsym.Assert(l.task == w.task, "the tasks run")
		vsym.Assert(sameNum(l.in, w.in), "a task gets the values mapped to its inputs")
		vsym.Assert(sameNum(l.in2, w.in2) && sameNum(l.flow, w.flow), "an attribute has the value it was given")
	}
	vsym.Assert(len(out) == 2 && sameNum(out[o.n], 80) && sameNum(out[o.m], o.d), "the outputs are the attributes of their names")
}

// C07_Names: a flow of up to 6 tasks, one of which calls another flow, or fails, in which the ids of two tasks, the names of the attributes of both flows and
// the reference to the called flow are unusual (one begins with the other, they differ in case, contain blanks, dots, slashes, other letters or are
// those of internal data), and the tasks are named like their ids or like other tasks; the ids of tasks and names of attributes vary independently of each other (thorough) or nearly (quick).
//
// Reaches: failed, calls
func C07_Names() {
	o := anOdd()
	setFlows(o.subs)
	inst := newInst(mustDef(o.rep))
	inst.Start(nil)
	vsym.Assert(drive(inst, 24), "run ends")
	out, err := inst.GetReturnData()
	vsym.Assert(err == nil, "the flow completes")
	o.check(inst.Status(), out)
}

// C15_Names: the flows of C07_Names, serialised after any step and restored.
//
// Shards: 4
func C15_Names() {
	o := anOdd()
	var first []exec
	cutRun(newInst(named(mustDef(o.rep), o.subs)), true, 24, func() { o.log = nil }, func(copied func()) {
		first = o.log
		o.log = nil
		copied()
		vsym.Assert(len(first) == len(o.log), "the restored instance runs the tasks the original still runs")
		for i, e := range first {
			f := o.log[i]
			vsym.Assert(e.task == f.task && e.id == f.id, "the restored instance runs the tasks the original still runs")
			vsym.Assert(sameNum(e.in, f.in) && sameNum(e.in2, f.in2) && sameNum(e.flow, f.flow), "the restored instance runs its tasks with the same data")
		}
	})
}

// C16_Names: the flows of C07_Names: the records so far describe the state of the instance after every step.
//
// Env: FLOGO_FLOW_SM_ENDPOINT=x
func C16_Names() {
	o := anOdd()
	setFlows(o.subs)
	recorded(o.rep, state.RecordingModeStep, nil, 24, func(inst *instance.IndependentInstance, steps []*state.Step) {
		sameState(replayed(steps), shown(inst.Snapshot()), "the records describe the state of the instance")
	})
}

// C17_Names: the flows of C07_Names: the combination of the records is the state of the instance after every step.
//
// Env: FLOGO_FLOW_SM_ENDPOINT=x
func C17_Names() {
	o := anOdd()
	setFlows(o.subs)
	recorded(o.rep, state.RecordingModeStep, nil, 24, func(inst *instance.IndependentInstance, steps []*state.Step) {
		combined(steps, shown(inst.Snapshot()))
	})
}
