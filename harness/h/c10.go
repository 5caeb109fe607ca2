package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/model"
)

// Outcomes of one attempt.
const (
	aOK = iota
	aRetriable
	aNotRetriable
	aPlain
	aPanic
	nOutcomes
)

func attempt(ctx activity.Context, how, n int) (bool, error) {
	text := "attempt" + string(rune('0'+n))
	switch how {
	case aRetriable:
		return false, activity.NewRetriableError(text, "code", "data")
	case aNotRetriable:
		return false, activity.NewError(text, "code", "data")
	case aPlain:
		return false, errText(text)
	case aPanic:
		panic(text)
	}
	return true, nil
}

// retrySettings configures retries in one of the accepted forms.
func retrySettings(form, count, interval int) (map[string]interface{}, map[string]interface{}) {
	var c, i interface{} = count, interval
	in := map[string]interface{}{}
	switch form {
	case 1:
		c, i = "=$flow.count", "=$flow.interval"
		in["count"], in["interval"] = count, interval
	case 2:
		return map[string]interface{}{"retryOnError": map[string]interface{}{"count": c}}, in
	case 3:
		return nil, in
	}
	return map[string]interface{}{"retryOnError": map[string]interface{}{"count": c, "interval": i}}, in
}

// C10_Retry: a task with a retry count up to the bound of 3 (thorough 4; also negative) and any interval (a
// multiple of 0.4 s), configured by value, by reference, without interval or not at all; every attempt
// ends in any way, and leaves outputs behind before it does; in a flow run by itself or as a subflow.
//
// Shards: 2
// Reaches: retried, gave up, first time
func C10_Retry() {
	bound := 3 + vsym.Tier()
	form := vsym.Choice("form", 4)
	count := vsym.Range("count", -1, bound)
	interval := 400 * vsym.Range("interval", 0, 2)
	settings, in := retrySettings(form, count, interval)
	if form == 3 {
		count = 0
	}
	if form >= 2 {
		interval = 0
	}
	g := newGraphPre("f", "T", 4)
	g.addEdge(0, 1, kDep)
	g.addEdge(1, 2, kDep)
	g.addEdge(1, 3, kError)
	r := g.rep()
	r.Tasks[1].Settings = settings
	r.Tasks[2].ActivityCfgRep.Input = map[string]interface{}{"in": "=$activity[T1].out"}
	r.Tasks[3].ActivityCfgRep.Input = map[string]interface{}{"in": "=$error[T1].message"}
	var hows []int
	behaviours["f/T1"].Eval = func(ctx activity.Context) (bool, error) {
		n := len(hows)
		if n > 0 {
			vsym.Assert(vsym.Waited(interval), "waits the interval before a retry")
		} else {
			vsym.Waited(0)
		}
		how := vsym.Choice("attempt", nOutcomes)
		hows = append(hows, how)
		_ = ctx.SetOutput("out", n)
		return attempt(ctx, how, n)
	}
	var last interface{}
	before("f/T2", func(ctx activity.Context) { last = ctx.GetInput("in") })
	before("f/T3", func(ctx activity.Context) { last = ctx.GetInput("in") })
	inst := started(r, vsym.Choice("nested", 2) == 1, in)
	vsym.Assert(drive(inst, 10), "run ends")
	g.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
	n := len(hows)
	vsym.Assert(n >= 1 && n <= 1+max(count, 0), "no more attempts than configured")
	for i := 0; i < n-1; i++ {
		vsym.Assert(hows[i] == aRetriable, "only a retriable error is retried")
	}
	if hows[n-1] == aRetriable {
		vsym.Reach("gave up")
		vsym.Assert(n == 1+max(count, 0), "a retriable error is retried as often as configured")
	}
	if n > 1 {
		vsym.Reach("retried")
	}
	if hows[n-1] == aOK {
		vsym.Reach("first time")
		vsym.Assert(g.evals[2] == 1 && g.evals[3] == 0, "the successors run")
		vsym.Assert(last == n-1, "with the outputs of the attempt that succeeded")
	} else {
		vsym.Assert(g.evals[2] == 0 && g.evals[3] == 1, "the task fails")
		vsym.Assert(last == "attempt"+string(rune('0'+n-1)), "with the last error")
	}
}

// C10_Async: the same for a task that calls a subflow; an attempt fails when it is started, in the
// subflow or after it, and one that succeeds may do so at once, without the subflow.
//
// Shards: 4
// Reaches: retried, gave up, at once
func C10_Async() {
	bound := 2 + vsym.Tier()
	form := vsym.Choice("form", 4)
	count := vsym.Range("count", 0, bound)
	interval := 400 * vsym.Range("interval", 0, 1)
	settings, in := retrySettings(form, count, interval)
	if form == 3 {
		count = 0
	}
	if form >= 2 {
		interval = 0
	}
	g := newGraphPre("f", "T", 4)
	g.addEdge(0, 1, kDep)
	g.addEdge(1, 2, kDep)
	g.addEdge(1, 3, kError)
	r := g.rep()
	r.Tasks[1].Settings = settings
	s := newGraphPre("s", "S", 1)
	sr := s.rep()
	outputs(sr, "out")
	r.Tasks[2].ActivityCfgRep.Input = map[string]interface{}{"in": "=$activity[T1].out"}
	r.Tasks[3].ActivityCfgRep.Input = map[string]interface{}{"in": "=$error[T1].message"}
	n, place, how := 0, 0, 0
	var hows []int
	behaviours["f/T1"] = hostBehaviour("sub", nil)
	start := behaviours["f/T1"].Eval
	behaviours["f/T1"].Eval = func(ctx activity.Context) (bool, error) {
		if n > 0 {
			vsym.Assert(vsym.Waited(interval), "waits the interval before a retry")
		} else {
			vsym.Waited(0)
		}
		n++
		how = vsym.Choice("attempt", nOutcomes)
		hows = append(hows, how)
		place = 0
		if how != aOK {
			place = vsym.Choice("place", 3)
		}
		if how != aOK && place == 0 {
			return attempt(ctx, how, n-1)
		}
		if how == aOK && vsym.Choice("at once", 2) == 1 {
			vsym.Reach("at once")
			_ = ctx.SetOutput("out", n-1)
			return true, nil
		}
		return start(ctx)
	}
	behaviours["f/T1"].Post = func(ctx activity.Context) (bool, error) {
		if how != aOK && place == 2 {
			return attempt(ctx, how, n-1)
		}
		return true, nil
	}
	behaviours["s/S0"].Eval = func(ctx activity.Context) (bool, error) {
		setAttr(ctx, "out", n-1)
		if how != aOK && place == 1 {
			return attempt(ctx, how, n-1)
		}
		return true, nil
	}
	setFlows(provider{"sub": sr})
	var last interface{}
	before("f/T2", func(ctx activity.Context) { last = ctx.GetInput("in") })
	before("f/T3", func(ctx activity.Context) { last = ctx.GetInput("in") })
	inst := newInst(mustDef(r))
	inst.Start(in)
	vsym.Assert(drive(inst, 20), "run ends")
	g.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
	vsym.Assert(n >= 1 && n <= 1+count, "no more attempts than configured")
	for i := 0; i < n-1; i++ {
		vsym.Assert(hows[i] == aRetriable, "only a retriable error is retried")
	}
	if hows[n-1] == aRetriable {
		vsym.Reach("gave up")
		vsym.Assert(n == 1+count, "a retriable error is retried as often as configured")
	}
	if n > 1 {
		vsym.Reach("retried")
	}
	if hows[n-1] == aOK {
		vsym.Assert(g.evals[2] == 1 && g.evals[3] == 0, "the successors run")
		vsym.Assert(last == n-1, "with the outputs of the attempt that succeeded")
	} else {
		vsym.Assert(g.evals[2] == 0 && g.evals[3] == 1, "the task fails")
		vsym.Assert(last == "attempt"+string(rune('0'+n-1)), "with the last error")
	}
}

// C10_Outputs: an attempt that fails sets other outputs than the attempt that succeeds.
func C10_Outputs() {
	g := newGraphPre("f", "T", 2)
	g.addEdge(0, 1, kDep)
	r := g.rep()
	r.Tasks[0].Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": 1}}
	r.Tasks[1].ActivityCfgRep.Input = map[string]interface{}{"in": "=$activity[T0].out2"}
	fails := vsym.Bool("fails")
	sets := vsym.Bool("sets")
	n := 0
	behaviours["f/T0"].Eval = func(ctx activity.Context) (bool, error) {
		n++
		if n == 1 && fails {
			_ = ctx.SetOutput("out2", "stale")
			return attempt(ctx, aRetriable, 0)
		}
		if sets {
			_ = ctx.SetOutput("out2", "new")
		}
		_ = ctx.SetOutput("out", "new")
		return true, nil
	}
	var last interface{}
	before("f/T1", func(ctx activity.Context) { last = ctx.GetInput("in") })
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 8), "run ends")
	if sets {
		vsym.Assert(inst.Status() == model.FlowStatusCompleted && g.evals[1] == 1 && last == "new", "successors see the outputs of the attempt that succeeded")
	} else {
		vsym.Assert(inst.Status() == model.FlowStatusFailed && g.evals[1] == 0, "outputs of a failed attempt are not visible")
	}
}

// C10_Loop: an iterating or do-while task with up to 2 retries and up to 3 runs, one of which fails any number of times by an
// error that can be retried, or not, at once or when it goes on after a subflow. A retry sees the same iteration.
//
// Shards: 2
// Reaches: retried, failed
func C10_Loop() {
	n, count := vsym.Range("n", 1, 3), vsym.Range("count", 0, 2)
	at, fails := vsym.Range("at", 0, 2), vsym.Range("fails", 0, 3)
	hard := vsym.Bool("hard") // the last failure cannot be retried
	later := vsym.Choice("later", 2) == 1
	t := task("T1", "iterator")
	vals := []interface{}{vsym.Int("v0"), vsym.Int("v1"), vsym.Int("v2")}
	t.Settings = map[string]interface{}{"iterate": "=$flow.l", "retryOnError": map[string]interface{}{"count": count}}
	t.ActivityCfgRep.Input = map[string]interface{}{"in": "=$iteration[index]"}
	runs := 0
	while := vsym.Choice("while", 2) == 1
	if !while {
		t.ActivityCfgRep.Input["num"] = "=$iteration[value]"
	} else {
		t.Type = "doWhile"
		delete(t.Settings, "iterate")
		t.Settings["condition"] = "more"
		exprs["more"] = func(data.Scope) (interface{}, error) { return runs < n, nil }
	}
	g, r := loopFlow(t)
	inputsOf(r, map[string]interface{}{"l": nil})
	setFlows(provider{"sub": &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}})
	failed := 0
	finish := func() (bool, error) {
		if runs == at && failed < fails {
			failed++
			if hard && failed == fails {
				return false, activity.NewError("hard", "", nil)
			}
			return false, activity.NewRetriableError("again", "", nil)
		}
		runs++
		return true, nil
	}
	attempts := 0
	host := hostBehaviour("sub", nil).Eval
	behaviours["f/T1"].Eval = func(ctx activity.Context) (bool, error) {
		attempts++
		vsym.Assert(ctx.GetInput("in") == runs, "a retry sees the iteration of its run")
		if !while {
			vsym.Assert(ctx.GetInput("num") == vals[runs], "a retry sees the iteration of its run")
		}
		if later {
			return host(ctx)
		}
		return finish()
	}
	behaviours["f/T1"].Post = func(activity.Context) (bool, error) { return finish() }
	inst := newInst(mustDef(r))
	l := []interface{}{}
	for i := 0; i < n; i++ {
		l = append(l, vals[i])
	}
	inst.Start(map[string]interface{}{"l": l})
	vsym.Assert(drive(inst, 60), "run ends")
	g.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
	if at >= n {
		fails = 0
	}
	if fails > count || fails > 0 && hard {
		vsym.Reach("failed")
		vsym.Assert(g.evals[2] == 0 && g.evals[3] == 1, "the task fails")
		if fails > count {
			fails = count + 1
		}
		vsym.Assert(runs == at && attempts == at+fails, "retries exactly as often as configured")
		return
	}
	if fails > 0 {
		vsym.Reach("retried")
	}
	vsym.Assert(runs == n && attempts == n+fails, "retries exactly as often as configured")
	vsym.Assert(g.evals[2] == 1 && g.evals[3] == 0, "the successors run")
}
