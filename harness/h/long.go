package h

import (
	"strconv"

	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/coerce"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/state"
)

// longFlow describes a flow with more than ten of everything: tasks A0 -> A1 -> ... -> A12, of which all but the first one call a flow with the
// number they are given, and tasks A13 ... A24 that follow A0 on a condition. One of the calls may fail, which may be handled by an error handler
// of two tasks. Each call is given what the one before gave. ran is told the tasks that run and what they are given; the result compares that with
// the reference.
func longFlow(ran func(name string, in interface{})) (*definition.DefinitionRep, provider, func(l *longRun, status model.FlowStatus)) {
	const row, fan = 13, 12
	r := &definition.DefinitionRep{Name: "f"}
	x := vsym.Range("x", 0, 100)
	follow := vsym.Bool("follow")
	exprs["follow"] = func(s data.Scope) (interface{}, error) { return follow, nil }
	inputsOf(r, map[string]interface{}{"x": x})
	outputs(r, "o")
	bad := []int{0, 10, 12}[vsym.Choice("bad", 3)]
	id := func(i int) string { return "A" + strconv.Itoa(i) }
	num := func(v interface{}) int { n, _ := coerce.ToInt(v); return n }
	for i := 0; i < row+fan; i++ {
		i := i
		t := task(id(i), "")
		*behaviourOf("f", id(i)) = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			ran(id(i), ctx.GetInput("in"))
			return true, ctx.SetOutput("out", num(ctx.GetInput("in"))+1)
		}}
		switch {
		case i == 0:
			t.ActivityCfgRep.Input = map[string]interface{}{"in": "=$flow.x"}
		case i < row:
			from := ".a"
			if i == 1 {
				from = ".out"
			}
			t = subflowTask(id(i), "sub", map[string]interface{}{"a": "=$activity[" + id(i-1) + "]" + from, "n": i}, false)
			r.Links = append(r.Links, link(id(i-1), id(i), "", ""))
		default:
			t.ActivityCfgRep.Input = map[string]interface{}{"in": i}
			r.Links = append(r.Links, link(id(0), id(i), "expression", "follow"))
		}
		r.Tasks = append(r.Tasks, t)
	}
	handler := vsym.Choice("handler", 2) == 1
	if handler {
		r.ErrorHandler = &definition.ErrorHandlerRep{}
		for i := 0; i < 2; i++ {
			i := i
			r.ErrorHandler.Tasks = append(r.ErrorHandler.Tasks, task("H"+strconv.Itoa(i), ""))
			*behaviourOf("f", "H"+strconv.Itoa(i)) = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
				ran("H"+strconv.Itoa(i), nil)
				return true, nil
			}}
		}
		r.ErrorHandler.Links = []*definition.LinkRep{link("H0", "H1", "", "")}
	}
	s := &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S", "")}}
	s.Tasks[0].ActivityCfgRep.Input = map[string]interface{}{"in": "=$flow.a"}
	inputsOf(s, map[string]interface{}{"a": nil, "n": nil})
	outputs(s, "a")
	*behaviourOf("s", "S") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		in := num(ctx.GetInput("in"))
		n := num(sees(ctx, "$flow.n"))
		ran("S"+strconv.Itoa(n), in)
		if n == bad {
			return false, errText("bad")
		}
		setAttr(ctx, "a", in+1)
		setAttr(ctx, "o", n)
		return true, nil
	}}
	return r, provider{"sub": s}, func(l *longRun, status model.FlowStatus) {
		want := []string{"A0"}
		for i := 1; i < row; i++ {
			want = append(want, "S"+strconv.Itoa(i))
			if i == bad {
				break
			}
		}
		if bad > 0 && handler {
			want = append(want, "H0", "H1")
		}
		next := 0
		count := map[string]int{}
		for i, n := range l.names {
			count[n]++
			vsym.Assert(count[n] == 1, "each task runs once")
			if k, _ := strconv.Atoi(n[1:]); n[0] == 'A' && k > 0 {
				vsym.Assert(follow, "exactly the tasks that are entered run")
				vsym.Assert(sameNum(l.in[i], k), "a task is given its inputs")
				continue
			}
			vsym.Assert(next < len(want) && want[next] == n, "the tasks run in order")
			if n[0] == 'S' {
				vsym.Assert(sameNum(l.in[i], x+next), "a task is given what the one before it gave")
			}
			next++
		}
		vsym.Assert(next == len(want), "exactly the tasks that are entered run")
		if bad == 0 && follow {
			vsym.Assert(len(count) == next+fan, "exactly the tasks that are entered run")
		}
		if bad > 0 && !handler {
			vsym.Assert(status == model.FlowStatusFailed, "the flow fails")
		} else {
			vsym.Assert(status == model.FlowStatusCompleted, "the flow completes")
		}
	}
}

// longRun is a list of tasks and what they are given.
type longRun struct {
	names []string
	in    []interface{}
}

func (l *longRun) ran(name string, in interface{}) {
	l.names, l.in = append(l.names, name), append(l.in, in)
}

// C12_Long: a flow of 13 tasks in a row, 12 of which call a flow with what the one before gave, and 12 tasks more on a condition;
// one of the last calls may fail, which may be handled.
//
// Steps: 40000000
func C12_Long() {
	l := &longRun{}
	r, p, check := longFlow(l.ran)
	setFlows(p)
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 80), "run ends")
	vsym.Observe("ran", len(l.names), int(inst.Status()))
	check(l, inst.Status())
}

// C15_Long: the flows of C12_Long, serialised after any step and restored.
//
// Shards: 8
// Timeout: 300
// Steps: 40000000
func C15_Long() {
	l := &longRun{}
	r, p, _ := longFlow(l.ran)
	var first *longRun
	cutRun(newInst(named(mustDef(r), p)), true, 80, func() { *l = longRun{} }, func(copied func()) {
		c := *l
		first = &c
		*l = longRun{}
		copied()
		vsym.Assert(len(first.names) == len(l.names), "the restored instance runs the tasks the original still runs")
		for i, n := range first.names {
			vsym.Assert(l.names[i] == n && sameNum(l.in[i], first.in[i]), "the restored instance runs the tasks the original still runs")
		}
	})
}

// C16_Long: the flows of C12_Long: the records so far describe the state of the instance after every step.
//
// Env: FLOGO_FLOW_SM_ENDPOINT=x
// Steps: 40000000
func C16_Long() {
	l := &longRun{}
	r, p, _ := longFlow(l.ran)
	setFlows(p)
	recorded(r, state.RecordingModeStep, nil, 80, func(inst *instance.IndependentInstance, steps []*state.Step) {
		sameState(replayed(steps), shown(inst.Snapshot()), "the records describe the state of the instance")
	})
}

// C17_Long: the flows of C12_Long: the combination of the records is the state of the instance after every step.
//
// Env: FLOGO_FLOW_SM_ENDPOINT=x
// Steps: 40000000
func C17_Long() {
	l := &longRun{}
	r, p, _ := longFlow(l.ran)
	setFlows(p)
	recorded(r, state.RecordingModeStep, nil, 80, func(inst *instance.IndependentInstance, steps []*state.Step) {
		combined(steps, shown(inst.Snapshot()))
	})
}
