package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/model"
)

// accRun is what one run of a looping task put out.
type accRun struct {
	out, out2 int
	has, has2 bool
	null2     bool // the second output is nothing
}

// nulls tells that the second output is nothing whenever it is given.
var nulls bool

func (w *accRun) second() interface{} {
	if w.null2 {
		return nil
	}
	return w.out2
}

// checkAcc compares what a later task sees of an accumulating task with the runs.
func checkAcc(v interface{}, runs []accRun) {
	l, ok := v.([]interface{})
	vsym.Assert(ok, "the collected outputs are a list")
	vsym.Assert(len(l) == len(runs), "one entry per finished run")
	for i, w := range runs {
		m, ok := l[i].(map[string]interface{})
		vsym.Assert(ok, "an entry holds outputs")
		n := 0
		if w.has {
			n++
			vsym.Assert(m["out"] == w.out, "an entry holds the outputs of its run")
		}
		if w.has2 {
			n++
			vsym.Assert(m["out2"] == w.second(), "an entry holds the outputs of its run")
		}
		vsym.Assert(len(m) == n, "an entry holds only the outputs of its run")
	}
}

func (w *accRun) give(ctx activity.Context) {
	w.has, w.has2 = vsym.Bool("has"), vsym.Bool("has2")
	w.out, w.out2 = vsym.Int("out"), vsym.Int("out2")
	if w.has {
		_ = ctx.SetOutput("out", w.out)
	}
	if w.has2 {
		w.null2 = nulls
		_ = ctx.SetOutput("out2", w.second())
	}
}

// C11_Loop: an iterating or do-while task runs any number of times up to the bound of 3 (thorough 5), with
// and without accumulation, and sets any of two outputs to any value each time, or, in a subflow, the second one to nothing; a run may fail after the first ones, or be
// retried; in a flow run by itself or as a subflow. What was collected is read during the loop, right after it and at the end of the flow.
//
// Shards: 4
// Reaches: accumulated, last only
func C11_Loop() {
	bound := 3 + 2*vsym.Tier()
	n := vsym.Choice("n", bound+1)
	acc := vsym.Choice("accumulate", 3)
	var t *definition.TaskRep
	while := vsym.Choice("while", 2) == 1
	if while {
		vsym.Assume(n > 0)
		more := map[string]interface{}{}
		if acc > 0 {
			more["accumulate"] = true
		}
		t = doWhileTask("T1", "again", acc, more)
	} else {
		t = task("T1", "iterator")
		s := map[string]interface{}{"iterate": n}
		if acc > 0 {
			s["accumulate"] = true
		}
		if acc == 2 {
			s = map[string]interface{}{"loopConfig": s}
		}
		t.Settings = s
	}
	failAt := vsym.Range("failAt", -1, n-1)
	retry := vsym.Choice("retry", 2) == 1
	if retry {
		t.Settings["retryOnError"] = map[string]interface{}{"count": 1}
	}
	g, r := loopFlow(t)
	var runs []accRun
	exprs["again"] = func(scope data.Scope) (interface{}, error) {
		if g.evals[1] == 0 {
			return nil, errText("condition without a run")
		}
		if w := runs[len(runs)-1]; w.has {
			v, err := definition.GetDataResolver().Resolve("$activity[T1].out", scope)
			vsym.Assert(err == nil && v == w.out, "the condition sees the outputs of the run")
		}
		return g.evals[1] < n, nil
	}
	var during []interface{}
	failed := false
	behaviours["f/T1"].Eval = func(ctx activity.Context) (bool, error) {
		if len(runs) > 0 && acc > 0 {
			v, _ := ctx.ActivityHost().Scope().GetValue("_A.T1")
			during = append(during, v)
		}
		w := accRun{}
		w.give(ctx)
		if len(runs) == failAt && !failed {
			failed = true
			return false, activity.NewRetriableError("fails", "", nil)
		}
		g.evals[1]++
		runs = append(runs, w)
		return true, nil
	}
	check := func(ctx activity.Context) {
		for i, d := range during {
			if retry && failAt >= 0 {
				break
			}
			checkAcc(d, runs[:i+1])
		}
		ref := func(s string) (interface{}, error) {
			return definition.GetDataResolver().Resolve(s, ctx.ActivityHost().Scope())
		}
		if acc > 0 {
			vsym.Reach("accumulated")
			v, err := ref("$activity[T1]")
			if len(runs) == 0 {
				l, _ := v.([]interface{})
				vsym.Assert(err != nil || len(l) == 0, "nothing is collected without a run")
			} else {
				vsym.Assert(err == nil, "the collected outputs are visible")
				checkAcc(v, runs)
			}
			return
		}
		vsym.Reach("last only")
		var last, last2 *accRun
		for i := range runs {
			if runs[i].has {
				last = &runs[i]
			}
			if runs[i].has2 {
				last2 = &runs[i]
			}
		}
		v, err := ref("$activity[T1].out")
		vsym.Assert((err == nil) == (last != nil), "an output is visible once it was given")
		if last != nil {
			vsym.Assert(v == last.out, "the last value of an output is visible")
		}
		v, err = ref("$activity[T1].out2")
		vsym.Assert((err == nil) == (last2 != nil), "an output is visible once it was given")
		if last2 != nil {
			vsym.Assert(v == last2.second(), "the last value of an output is visible")
		}
	}
	before("f/T2", check)
	before("f/T3", check)
	nulls = vsym.Choice("nested", 2) == 1
	inst := started(r, nulls, nil)
	vsym.Assert(drive(inst, 18+bound), "run ends")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
	if failed && !retry {
		vsym.Assert(g.evals[3] == 1 && g.evals[2] == 0 && len(runs) == failAt, "a failing run ends the loop")
	} else {
		vsym.Assert(g.evals[2] == 1 && g.evals[3] == 0 && len(runs) == n, "the loop runs")
	}
}

// C11_Subflow: an accumulating task, iterating or do-while, calls a subflow that gives back any outputs in every run; any
// run may fail, in the subflow, by an error it returns, or after it. The outputs of a run that fails are not collected.
//
// Reaches: failed
func C11_Subflow() {
	bound := 3 + 2*vsym.Tier()
	n := 1 + vsym.Choice("n", bound)
	var t *definition.TaskRep
	if vsym.Choice("while", 2) == 1 {
		t = doWhileTask("T1", "again", 2, map[string]interface{}{"accumulate": true})
	} else {
		t = task("T1", "iterator")
		t.Settings = map[string]interface{}{"iterate": n, "accumulate": true}
	}
	g, r := loopFlow(t)
	s := newGraphPre("s", "S", 2)
	s.addEdge(0, 1, kDep)
	sr := s.rep()
	outputs(sr, "out", "out2")
	setFlows(provider{"sub": sr})
	behaviours["f/T1"] = hostBehaviour("sub", nil)
	var runs []accRun
	failAt := vsym.Range("failAt", 0, n) // there is no run n
	how := vsym.Choice("how", 3)
	failing := func(at int) error {
		return fails(how == at && len(runs) == failAt+1)
	}
	behaviours["f/T1"].Post = func(activity.Context) (bool, error) {
		err := failing(2)
		return err == nil, err
	}
	behaviours["s/S1"].Eval = func(ctx activity.Context) (bool, error) {
		s.evals[1]++
		if err := failing(1); err != nil {
			ctx.ActivityHost().Return(map[string]interface{}{"out": 1}, err)
		}
		err := failing(0)
		return err == nil, err
	}
	exprs["again"] = func(scope data.Scope) (interface{}, error) {
		v, err := definition.GetDataResolver().Resolve("$activity[T1].out2", scope)
		vsym.Assert(err == nil && v == runs[len(runs)-1].out2, "the condition sees the outputs of the run")
		return s.evals[1] < n, nil
	}
	before("s/S0", func(ctx activity.Context) {
		w := accRun{has: true, has2: true, out: vsym.Int("out"), out2: vsym.Int("out2")}
		setAttr(ctx, "out", w.out)
		setAttr(ctx, "out2", w.out2)
		runs = append(runs, w)
	})
	check := func(ctx activity.Context) {
		v, err := definition.GetDataResolver().Resolve("$activity[T1]", ctx.ActivityHost().Scope())
		if failAt < n {
			vsym.Reach("failed")
			runs = runs[:failAt]
		}
		if len(runs) == 0 {
			l, _ := v.([]interface{})
			vsym.Assert(err != nil || len(l) == 0, "nothing is collected without a run")
			return
		}
		vsym.Assert(err == nil, "the collected outputs are visible")
		checkAcc(v, runs)
	}
	before("f/T2", check)
	before("f/T3", check)
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 16+8*n), "run ends")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && g.evals[2] == btoi(failAt == n) && g.evals[3] == btoi(failAt < n) && len(runs) == failAt, "flow completes")
}

// C11_Two: two accumulating tasks, the second one over what the first one collected, in a flow that runs twice.
func C11_Two() {
	n := 1 + vsym.Choice("n", 2+vsym.Tier())
	g := newGraphPre("f", "T", 3)
	g.addEdge(0, 1, kDep)
	g.addEdge(1, 2, kDep)
	r := g.rep()
	for i, it := range []interface{}{n, "=$activity[T0]"} {
		r.Tasks[i] = task(g.tn(i), "iterator")
		r.Tasks[i].Settings = map[string]interface{}{"loopConfig": map[string]interface{}{"iterateOn": it, "accumulate": true}}
	}
	r.Tasks[1].ActivityCfgRep.Input = map[string]interface{}{"in": "=$iteration[value].out"}
	def := mustDef(r)
	var runs []accRun
	var runs2 []accRun
	before("f/T0", func(ctx activity.Context) {
		w := accRun{has: true, out: vsym.Int("out")}
		_ = ctx.SetOutput("out", w.out)
		runs = append(runs, w)
	})
	before("f/T1", func(ctx activity.Context) {
		i, ok := ctx.GetInput("in").(int)
		vsym.Assert(ok && i == runs[len(runs2)].out, "the second loop sees what the first one collected")
		_ = ctx.SetOutput("out2", i)
		runs2 = append(runs2, accRun{has2: true, out2: i})
	})
	before("f/T2", func(ctx activity.Context) {
		checkAcc(resolved(ctx.ActivityHost().Scope(), "$activity[T0]"), runs)
		checkAcc(resolved(ctx.ActivityHost().Scope(), "$activity[T1]"), runs2)
	})
	for i := 1; i <= 2; i++ {
		runs, runs2 = nil, nil
		inst := newInst(def)
		inst.Start(nil)
		vsym.Assert(drive(inst, 16+4*n), "run ends")
		vsym.Assert(inst.Status() == model.FlowStatusCompleted && g.evals[2] == i && len(runs) == n && len(runs2) == n, "flow completes")
	}
}
