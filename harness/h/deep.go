package h

import (
	"strconv"

	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/coerce"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/support/event"
)

// deep is a flow D0 -> D1 -> D3 that calls itself by D1, and D0 -> D2 -> D3 at the lowest depth. A call is given its depth and a number
// one more than that of its caller, and gives back a number one more than what it is given back by D1.
type deep struct {
	depth, x      int
	failAt, catch int // the depth at which D3 fails, and the one whose error handler does not; -1 if there is none
	log           []string
	ids           map[int]sight
}

// deepFlow is such a flow down to a depth of 1 or up to the bound; D3 of any of the calls may fail, and an error handler at any depth may end that.
func deepFlow(bound int) (*deep, *definition.DefinitionRep) {
	d := &deep{depth: []int{1, bound - 1, bound}[vsym.Choice("depth", 3)], x: vsym.Range("x", -1000, 1000), failAt: -1, catch: -1}
	if vsym.Choice("fails", 2) == 1 {
		d.failAt = []int{0, d.depth / 2, d.depth}[vsym.Choice("failAt", 3)]
		d.catch = []int{-1, 0, d.depth / 2, d.depth}[vsym.Choice("catch", 4)]
	}
	r := &definition.DefinitionRep{Name: "d", Tasks: []*definition.TaskRep{task("D0", ""), nil, task("D2", ""), task("D3", "")}}
	r.Tasks[1] = subflowTask("D1", "d", map[string]interface{}{"n": "=$activity[D0].out", "x": "=$activity[D0].out2"}, false)
	r.Links = []*definition.LinkRep{link("D0", "D1", "expression", "more"), link("D0", "D2", "exprOtherwise", ""), link("D1", "D3", "", ""), link("D2", "D3", "", "")}
	r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("H0", "")}}
	inputsOf(r, map[string]interface{}{"n": 0, "x": d.x})
	outputs(r, "o")
	num := func(v interface{}) int { n, _ := coerce.ToInt(v); return n }
	exprs["more"] = func(s data.Scope) (interface{}, error) { return num(resolved(s, "$flow.n")) < d.depth, nil }
	d.restart()
	see := func(name string, f func(ctx activity.Context, n int) error) {
		*behaviourOf("d", name) = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			n := num(sees(ctx, "$flow.n"))
			me := lookAround(ctx)
			if old, ok := d.ids[n]; ok {
				vsym.Assert(old == me, "the names and ids a flow sees do not change")
			}
			d.ids[n] = me
			d.log = append(d.log, name+"/"+strconv.Itoa(n))
			err := f(ctx, n)
			return err == nil, err
		}}
	}
	see("D0", func(ctx activity.Context, n int) error {
		x := num(sees(ctx, "$flow.x"))
		vsym.Assert(x == d.x+n, "a call is given what its caller gave it")
		_ = ctx.SetOutput("out", n+1)
		return ctx.SetOutput("out2", x+1)
	})
	see("D2", func(ctx activity.Context, n int) error { return nil })
	see("D3", func(ctx activity.Context, n int) error {
		o := 0
		if n < d.depth {
			o = num(sees(ctx, "$activity[D1].o"))
			vsym.Assert(o == d.gives(n+1), "a call gives back what it is given")
		}
		setAttr(ctx, "o", o+1)
		return fails(n == d.failAt)
	})
	see("H0", func(ctx activity.Context, n int) error {
		setAttr(ctx, "o", 0)
		return fails(n != d.catch)
	})
	return d, r
}

func (d *deep) restart() { d.log, d.ids = nil, map[int]sight{} }

// gives is the number a call gives back.
func (d *deep) gives(n int) int {
	if d.failAt >= 0 && n <= d.catch && d.catch <= d.failAt {
		return d.catch - n
	}
	return d.depth - n + 1
}

// check compares the run with the reference.
func (d *deep) check(inst *instance.IndependentInstance) {
	var want []string
	add := func(name string, n int) { want = append(want, name+"/"+strconv.Itoa(n)) }
	for n := 0; n <= d.depth; n++ {
		add("D0", n)
	}
	add("D2", d.depth)
	failed := false
	for n := d.depth; n >= 0; n-- {
		if !failed {
			add("D3", n)
			failed = n == d.failAt
		}
		if failed {
			add("H0", n)
			failed = n != d.catch
		}
	}
	vsym.Observe("ran", len(d.log), int(inst.Status()))
	vsym.Assert(len(d.log) == len(want), "exactly the tasks that are entered run")
	for i, w := range want {
		vsym.Assert(d.log[i] == w, "the tasks run in order")
	}
	for n := 0; n <= d.depth; n++ {
		for m := 0; m < n; m++ {
			vsym.Assert(d.ids[m].id != d.ids[n].id, "the ids of flows are distinct")
		}
		if n > 0 {
			vsym.Assert(d.ids[n].parent == "d" && d.ids[n].parentID == d.ids[n-1].id, "a subflow sees the flow that called it")
		}
	}
	out, err := inst.GetReturnData()
	if failed {
		vsym.Reach("failed")
		vsym.Assert(inst.Status() == model.FlowStatusFailed && err != nil, "the flow fails")
	} else {
		vsym.Reach("completed")
		vsym.Assert(inst.Status() == model.FlowStatusCompleted && err == nil && sameNum(out["o"], d.gives(0)), "the flow gives back what it is given")
	}
}

// C12_Deep: a flow that calls itself down to a depth of 1, 11 or 12, and may fail at the first, middle or last depth, which an error handler at one of these
// depths, or none, handles.
//
// Reaches: failed, completed
func C12_Deep() {
	d, r := deepFlow(12)
	setFlows(provider{"d": r})
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 100), "run ends")
	d.check(inst)
}

// C26_Deep: the flows of C12_Deep.
//
// Reaches: failed, completed
func C26_Deep() { C12_Deep() }

// C15_Deep: the flows of C12_Deep down to a depth of 1, 2 or 3 (thorough 11 or 12), serialised after any step and restored.
//
// Shards: 4
func C15_Deep() {
	d, r := deepFlow(3 + 9*vsym.Tier())
	var first []string
	cutRun(newInst(named(mustDef(r), provider{"d": r})), vsym.Tier() == 1, 100, d.restart, func(copied func()) {
		first = d.log
		d.restart()
		copied()
		vsym.Assert(len(first) == len(d.log), "the restored instance runs the tasks the original still runs")
		for i, n := range first {
			vsym.Assert(d.log[i] == n, "the restored instance runs the tasks the original still runs")
		}
	})
}

// C16_Deep: the flows of C12_Deep: the records so far describe the state of the instance after every step.
//
// Env: FLOGO_FLOW_SM_ENDPOINT=x
// Steps: 40000000
func C16_Deep() {
	_, r := deepFlow(12)
	setFlows(provider{"d": r})
	recorded(r, state.RecordingModeStep, nil, 100, func(inst *instance.IndependentInstance, steps []*state.Step) {
		sameState(replayed(steps), shown(inst.Snapshot()), "the records describe the state of the instance")
	})
}

// C17_Deep: the flows of C12_Deep: the combination of the records is the state of the instance after every step.
//
// Env: FLOGO_FLOW_SM_ENDPOINT=x
// Steps: 80000000
func C17_Deep() {
	_, r := deepFlow(8 + 4*vsym.Tier())
	setFlows(provider{"d": r})
	recorded(r, state.RecordingModeStep, nil, 100, func(inst *instance.IndependentInstance, steps []*state.Step) {
		combined(steps, shown(inst.Snapshot()))
	})
}

// C27_Deep: the flows of C12_Deep: each of the calls has its events, which name it and its caller.
func C27_Deep() {
	d, r := deepFlow(12)
	setFlows(provider{"d": r})
	listen()
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 100), "run ends")
	stopListening()
	d.check(inst)
	flows := map[string][]event.FlowEvent{}
	tasks := map[string]map[string][]event.TaskEvent{}
	for _, e := range flowEvs {
		flows[e.FlowID()] = append(flows[e.FlowID()], e)
	}
	for _, e := range taskEvs {
		if tasks[e.FlowID()] == nil {
			tasks[e.FlowID()] = map[string][]event.TaskEvent{}
		}
		tasks[e.FlowID()][taskOf(e)] = append(tasks[e.FlowID()][taskOf(e)], e)
	}
	vsym.Assert(len(flows) == d.depth+1 && len(tasks) == d.depth+1, "each flow has events")
	for n := 0; n <= d.depth; n++ {
		id := d.ids[n].id.(string)
		last := event.Status(event.COMPLETED)
		if d.failAt >= n && (d.catch < n || d.catch > d.failAt) {
			last = event.FAILED
		}
		f := flows[id]
		vsym.Assert(len(f) == 2 && f[0].FlowStatus() == event.STARTED && f[1].FlowStatus() == last, "a flow starts and ends, once")
		for _, e := range f {
			vsym.Assert(e.FlowName() == "d", "events of a flow name the flow")
			if n > 0 {
				vsym.Assert(e.ParentFlowID() == d.ids[n-1].id && e.ParentFlowName() == "d", "events of a flow name its parent")
			} else {
				vsym.Assert(e.ParentFlowID() == "", "events of a flow name its parent")
			}
		}
		for _, evs := range tasks[id] {
			statuses(evs)
		}
		want := event.Status(event.COMPLETED)
		if n < d.depth && d.failAt > n && (d.catch <= n || d.catch > d.failAt) {
			want = event.FAILED
		}
		if n == d.depth {
			want = event.SKIPPED
		}
		evs := tasks[id]["D1"]
		vsym.Assert(len(evs) > 0 && evs[len(evs)-1].TaskStatus() == want, "the last event of a task tells how it ended")
	}
}
