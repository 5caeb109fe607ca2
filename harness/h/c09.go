package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/model"
)

// indexMapping maps the index of the loop into the input "in".
var indexMapping = map[string]interface{}{"in": "=$iteration[index]"}

// doWhileTask is a do-while task; form selects one of the accepted ways to write its condition.
func doWhileTask(id, cond string, form int, more map[string]interface{}) *definition.TaskRep {
	t := task(id, "doWhile")
	if form%2 == 1 {
		cond = "=" + cond
	}
	s := map[string]interface{}{"condition": cond}
	for k, v := range more {
		s[k] = v
	}
	switch form / 2 {
	case 1:
		s = map[string]interface{}{"loopConfig": s}
	case 2:
		s = map[string]interface{}{"doWhile": s}
	}
	t.Settings = s
	t.ActivityCfgRep.Input = indexMapping
	return t
}

const nCondForms = 6

// resolved evaluates a reference in the scope it is evaluated in.
func resolved(scope data.Scope, ref string) interface{} {
	v, err := definition.GetDataResolver().Resolve(ref, scope)
	if err != nil {
		panic("reference " + ref + ": " + err.Error())
	}
	return v
}

// whileRun is one run of a do-while task.
type whileRun struct {
	idx     interface{}
	condIdx interface{}
	condOut interface{}
	conds   int
}

// C09_Runs: a do-while task, whose condition is written in any accepted form, repeats any number of
// times up to the bound of 3 (thorough 6) with arbitrary conditions; any of its runs may fail in any
// way, and any of its conditions may fail, panic or give something that is not a boolean; in a flow run by itself, or, with no retries, as a subflow.
//
// Shards: 2
// Reaches: once, repeated, failed
func C09_Runs() {
	bound := 3 + 3*vsym.Tier()
	form := vsym.Choice("form", nCondForms)
	failAt := vsym.Range("failAt", -1, bound)
	how := vsym.Choice("how", nFailures)
	condFail := vsym.Choice("condFail", 4)
	condFailAt := -1
	if condFail > 0 {
		condFailAt = vsym.Range("condFailAt", 0, bound-1)
		vsym.Assume(how == 0)
	}
	var more map[string]interface{}
	nested := vsym.Choice("nested", 2) == 1
	if nested {
		more = map[string]interface{}{"retryOnError": map[string]interface{}{"count": 0}}
	}
	g, r := loopFlow(doWhileTask("T1", "again", form, more))
	var runs []*whileRun
	before("f/T1", func(ctx activity.Context) {
		n := len(runs)
		runs = append(runs, &whileRun{idx: ctx.GetInput("in")})
		g.fails[1] = n == failAt
		_ = ctx.SetOutput("out", 100+n)
	})
	g.how[1] = how
	want, failed := 0, false
	ended := false
	exprs["again"] = func(scope data.Scope) (interface{}, error) {
		n := len(runs) - 1
		if n < 0 {
			return nil, errText("condition without a run")
		}
		w := runs[n]
		w.conds++
		w.condIdx = resolved(scope, "$iteration[index]")
		w.condOut = resolved(scope, "$activity[T1].out")
		if n == condFailAt {
			switch condFail {
			case 1:
				return nil, errText("condition fails")
			case 2:
				panic("condition panics")
			case 3:
				return "x", nil
			}
		}
		if n+1 >= bound {
			ended = true
			return false, nil
		}
		c := vsym.Bool("again")
		ended = !c
		return c, nil
	}
	inst := started(r, nested, nil)
	vsym.Assert(drive(inst, 18+bound), "run ends")
	g.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
	n := len(runs)
	vsym.Assert(n >= 1, "at least one run")
	failed = failAt == n-1 || condFailAt == n-1
	for i, w := range runs {
		vsym.Assert(w.idx == i, "index counts the runs")
		if i == failAt {
			vsym.Assert(w.conds == 0, "no condition after a failed run")
			continue
		}
		vsym.Assert(w.conds == 1 && w.condIdx == i && w.condOut == 100+i, "the condition is evaluated once on the data of its run")
	}
	_ = want
	if failed {
		vsym.Reach("failed")
		vsym.Assert(g.evals[2] == 0 && g.evals[3] == 1, "a failing run or condition is an error of the task")
		return
	}
	vsym.Assert(ended, "repeats while the condition is true")
	vsym.Assert(g.evals[2] == 1 && g.evals[3] == 0, "the task finishes once")
	if n == 1 {
		vsym.Reach("once")
	} else {
		vsym.Reach("repeated")
	}
}

// C09_Subflow: a do-while task calls a subflow in every run, up to the bound of 3 (thorough 5) runs, with arbitrary
// conditions on the outputs of the subflow, which may fail in one of the runs; with and without accumulation.
//
// Reaches: once, repeated, failed
func C09_Subflow() {
	bound := 3 + 2*vsym.Tier()
	failAt := vsym.Range("failAt", -1, bound-1)
	var more map[string]interface{}
	acc := vsym.Choice("accumulate", 2) == 1
	if acc {
		more = map[string]interface{}{"accumulate": true}
	}
	g, r := loopFlow(doWhileTask("T1", "again", vsym.Choice("form", 2)*3, more))
	s := newGraphPre("s", "S", 2)
	s.addEdge(0, 1, kDep)
	sr := s.rep()
	outputs(sr, "out")
	var runs []*whileRun
	behaviours["f/T1"] = hostBehaviour("sub", nil)
	before("f/T1", func(ctx activity.Context) { runs = append(runs, &whileRun{idx: ctx.GetInput("in")}) })
	before("s/S0", func(ctx activity.Context) { s.fails[0] = len(runs)-1 == failAt })
	before("s/S1", func(ctx activity.Context) { setAttr(ctx, "out", 100+len(runs)-1) })
	ended := false
	exprs["again"] = func(scope data.Scope) (interface{}, error) {
		n := len(runs) - 1
		if n < 0 {
			return nil, errText("condition without a run")
		}
		w := runs[n]
		w.conds++
		w.condIdx = resolved(scope, "$iteration[index]")
		w.condOut = resolved(scope, "$activity[T1].out")
		c := n+1 < bound && vsym.Bool("again")
		ended = !c
		return c, nil
	}
	setFlows(provider{"sub": sr})
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 16+8*bound), "run ends")
	g.observe(inst.Status())
	s.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
	n := len(runs)
	vsym.Assert(n >= 1 && s.evals[0] == n, "the subflow runs in every run")
	for i, w := range runs {
		vsym.Assert(w.idx == i, "index counts the runs")
		if i == failAt {
			vsym.Assert(w.conds == 0, "no condition after a failed run")
			continue
		}
		vsym.Assert(w.conds == 1 && w.condIdx == i && w.condOut == 100+i, "the condition is evaluated once on the data of its run")
	}
	if failAt == n-1 {
		vsym.Reach("failed")
		vsym.Assert(g.evals[2] == 0 && g.evals[3] == 1, "a failing run is an error of the task")
		return
	}
	vsym.Assert(ended, "repeats while the condition is true")
	vsym.Assert(g.evals[2] == 1 && g.evals[3] == 0, "the task finishes once")
	if n == 1 {
		vsym.Reach("once")
	} else {
		vsym.Reach("repeated")
	}
}
