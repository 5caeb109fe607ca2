package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/support"
)

// collected is the coverage of a run: with or without inputs and outputs, into a coverage that is given or not.
func collected(inst *instance.IndependentInstance) *support.Interceptor {
	ic := &support.Interceptor{CollectIO: vsym.Choice("io", 2) == 1}
	if vsym.Choice("given", 2) == 1 {
		ic.Coverage = &support.Coverage{}
	}
	instance.ApplyExecOptions(inst, &instance.ExecOptions{Interceptor: ic})
	return ic
}

// coverage gives what was collected.
func coverage(ic *support.Interceptor) support.Coverage {
	if ic.Coverage == nil {
		return support.Coverage{}
	}
	return *ic.Coverage
}

var coverageKind = []string{"", "", "Expression", "Otherwise", "Label", "Error"}

// checkTask compares the entry of a task of the graph.
func (g *graph) checkTask(c *support.ActivityCoverage, i int, main, io bool, in, out int) {
	vsym.Assert(c.ActivityName == g.tn(i) && c.FlowName == g.name, "there is an entry for every task that was executed, in order")
	vsym.Assert(c.IsMainFlow == main, "an entry tells whether the task is one of the error handler")
	if !io {
		return
	}
	vsym.Assert(c.Inputs["in"] == in, "an entry holds the inputs of the task")
	if g.fails[i] {
		vsym.Assert(c.Error != nil, "an entry holds the error of the task")
		if g.how[i] != byPanic {
			vsym.Assert(c.Error["message"] == g.tn(i), "an entry holds the error of the task")
		}
	} else {
		vsym.Assert(c.Error == nil && c.Outputs["out"] == out, "an entry holds the outputs of the task")
	}
	from, to := 0, 0
	for x, e := range g.edges {
		if e.to == i {
			vsym.Assert(from < len(c.LinkFrom) && c.LinkFrom[from] == g.label(x), "an entry names the links of the task")
			from++
		}
		if e.from == i {
			vsym.Assert(to < len(c.LinkTo) && c.LinkTo[to] == g.label(x), "an entry names the links of the task")
			to++
		}
	}
	vsym.Assert(from == len(c.LinkFrom) && to == len(c.LinkTo), "an entry names the links of the task")
}

func (g *graph) label(x int) string { return "l" + g.pre + string(rune('0'+x)) }

// followed gives the links that are followed after task i.
func (g *graph) followed(i int) (list []int) {
	for x, e := range g.edges {
		if e.from == i && g.foll[x] {
			list = append(list, x)
		}
	}
	return
}

// checkLink compares the entry of a link of the graph.
func (g *graph) checkLink(c *support.TransitionCoverage, x int, main bool) {
	e := g.edges[x]
	vsym.Assert(c.TransitionFrom == g.tn(e.from) && c.TransitionTo == g.tn(e.to) && c.TransitionName == g.label(x), "there is an entry for every link that was followed")
	vsym.Assert(c.TransitionType == coverageKind[e.kind], "an entry tells the kind of the link")
	vsym.Assert(e.kind != kExpr || c.TransitionExpression == e.name, "an entry holds the condition of the link")
	vsym.Assert(c.FlowName == g.name && c.IsMainFlow == main, "an entry names the flow of the link")
}

// C33_Graph: flows of 3 tasks (thorough 4, fewer link kinds) with any links, conditions and failures, an error handler of two linked tasks, one or
// both of which may fail, or none, and any inputs and outputs.
//
// Shards: 8
// Timeout: 400
// Reaches: failed, completed, handled
func C33_Graph() {
	n, kinds := 3, 6
	if vsym.Tier() == 1 {
		n, kinds = 4, 4
	}
	g := newGraph("f", n)
	g.chooseEdges(kinds)
	for i := range g.fails {
		g.fails[i] = vsym.Bool("fail" + g.tn(i))
		g.how[i] = i % nFailures
	}
	in, out := vsym.Int("in"), vsym.Int("out")
	r := g.rep()
	h := newGraphPre("f", "H", 2)
	h.addEdge(0, 1, kLabel)
	h.fails[1] = vsym.Bool("failH1")
	handler := vsym.Choice("handler", 2) == 1
	if handler {
		r.ErrorHandler = h.handlerRep()
		setUp(h, r.ErrorHandler.Tasks, r.ErrorHandler.Links, in, out)
	}
	setUp(g, r.Tasks, r.Links, in, out)
	inst := newInst(mustDef(r))
	ic := collected(inst)
	inst.Start(nil)
	vsym.Assert(drive(inst, 40), "run ends")
	g.oracle()
	h.oracle()
	c := coverage(ic)
	vsym.Observe("entries", len(c.ActivityCoverage), len(c.TransitionCoverage), len(c.SubFlowCoverage))
	at, links := 0, 0
	for _, p := range []*graph{g, h} {
		for _, i := range p.order {
			vsym.Assert(at < len(c.ActivityCoverage), "there is an entry for every task that was executed, in order")
			p.checkTask(c.ActivityCoverage[at], i, p == g, ic.CollectIO, in, out)
			at++
			left := p.followed(i)
			for n := len(left); n > 0; n-- {
				vsym.Assert(links < len(c.TransitionCoverage), "there is an entry for every link that was followed")
				t := c.TransitionCoverage[links]
				links++
				found := -1
				for k, x := range left {
					if p.label(x) == t.TransitionName {
						found = k
					}
				}
				vsym.Assert(found >= 0, "there is an entry for every link that was followed")
				p.checkLink(t, left[found], p == g)
				left = append(append([]int{}, left[:found]...), left[found+1:]...)
			}
		}
	}
	vsym.Assert(at == len(c.ActivityCoverage), "there is no entry for a task that was not executed")
	vsym.Assert(links == len(c.TransitionCoverage), "there is no entry for a link that was not followed")
	vsym.Assert(len(c.SubFlowCoverage) == 0, "there is no entry for a subflow that was not started")
	if inst.Status() == model.FlowStatusFailed {
		vsym.Reach("failed")
	} else {
		vsym.Reach("completed")
	}
	if len(h.order) > 0 {
		vsym.Reach("handled")
	}
}

// setUp gives the tasks an input and an output, and the links a label.
func setUp(g *graph, ts []*definition.TaskRep, ls []*definition.LinkRep, in, out int) {
	for i, t := range ts {
		t.ActivityCfgRep.Input = map[string]interface{}{"in": in}
		before(g.name+"/"+g.tn(i), func(ctx activity.Context) { _ = ctx.SetOutput("out", out) })
	}
	for x, l := range ls {
		l.Label = g.label(x)
	}
}

// C33_Nested: a flow, or its error handler, calls a flow that may return data, fail, or have its own error handler called, plainly, in a loop
// of two runs.
//
// Shards: 4
// Reaches: handler, called by handler, returned, failed
func C33_Nested() {
	out := vsym.Int("out")
	inHandler := vsym.Choice("inHandler", 2) == 1 // the call is in the handler
	subHandler := vsym.Choice("subHandler", 2) == 1
	subFails := vsym.Choice("subFails", 2) == 1
	subReturns := vsym.Choice("subReturns", 2) == 1
	kind := vsym.Choice("kind", 3)
	call := subflowTask("C", "sub", nil, false)
	calls := 1
	switch kind {
	case 1:
		call.Type, call.Settings, calls = "iterator", map[string]interface{}{"iterate": 2}, 2
	case 2:
		n := 0
		call.Type, call.Settings, calls = "doWhile", map[string]interface{}{"condition": "more"}, 2
		exprs["more"] = func(data.Scope) (interface{}, error) { n++; return n < 2, nil }
	}
	main := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T0", "")}}
	if inHandler {
		main.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{call}}
	} else {
		main.Tasks = append(main.Tasks, call)
		main.Links = []*definition.LinkRep{link("T0", "C", "", "")}
	}
	*behaviourOf("f", "T0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		if inHandler {
			return false, errText("bad")
		}
		return true, ctx.SetOutput("out", out)
	}}
	sub := &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", ""), task("S1", "")}, Links: []*definition.LinkRep{link("S0", "S1", "", "")}}
	sub.Links[0].Label = "go"
	*behaviourOf("s", "S0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) { return true, ctx.SetOutput("out", out) }}
	*behaviourOf("s", "S1") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		if subFails {
			return false, errText("bad")
		}
		if subReturns {
			ctx.ActivityHost().Return(map[string]interface{}{"res": out}, nil)
		}
		return true, nil
	}}
	if subHandler {
		sub.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("SH", "")}}
		*behaviourOf("s", "SH") = Behaviour{}
	}
	outputs(sub, "res")
	outputs(main, "res")
	setFlows(provider{"sub": sub})
	inst := newInst(mustDef(main))
	ic := collected(inst)
	inst.Start(nil)
	vsym.Assert(drive(inst, 60), "run ends")
	c := coverage(ic)
	subEnds := !subFails || subHandler
	if !subEnds {
		calls = 1
		vsym.Reach("failed")
	}
	// what is to be expected
	type want struct {
		flow, task string
		main, fail bool
	}
	ws := []want{{"f", "T0", true, inHandler}}
	for i := 0; i < calls; i++ {
		ws = append(ws, want{"s", "S0", true, false}, want{"s", "S1", true, subFails})
		if subFails && subHandler {
			ws = append(ws, want{"s", "SH", false, false})
			vsym.Reach("handler")
		}
	}
	ws = append(ws, want{"f", "C", !inHandler, !subEnds})
	if inHandler {
		vsym.Reach("called by handler")
	}
	vsym.Assert(len(c.ActivityCoverage) == len(ws), "there is an entry for every task that was executed, in order")
	for i, w := range ws {
		a := c.ActivityCoverage[i]
		vsym.Assert(a.FlowName == w.flow && a.ActivityName == w.task, "there is an entry for every task that was executed, in order")
		vsym.Assert(a.IsMainFlow == w.main, "an entry tells whether the task is one of the error handler")
		if !ic.CollectIO {
			continue
		}
		vsym.Assert((a.Error != nil) == w.fail, "an entry holds the error of the task")
		switch w.task {
		case "S0":
			vsym.Assert(a.Outputs["out"] == out, "an entry holds the outputs of the task")
		case "S1":
			_, has := a.Outputs["res"]
			vsym.Assert(!has || subReturns && !subFails && a.Outputs["res"] == out, "an entry does not hold the data of another flow")
			vsym.Assert(has || !subReturns || subFails, "an entry holds the data a task returns for its flow")
			if has {
				vsym.Reach("returned")
			}
		case "SH":
			vsym.Assert(len(a.Outputs) == 0, "an entry does not hold the data of another flow")
		}
	}
	nl := calls
	if !inHandler {
		nl++
	}
	vsym.Assert(len(c.TransitionCoverage) == nl, "there is an entry for every link that was followed")
	for _, l := range c.TransitionCoverage {
		vsym.Assert(l.IsMainFlow, "an entry names the flow of the link")
		vsym.Assert(l.FlowName == "s" && l.TransitionTo == "S1" && l.TransitionName == "go" || l.FlowName == "f" && l.TransitionTo == "C", "an entry names the flow of the link")
	}
	vsym.Assert(len(c.SubFlowCoverage) == calls, "there is an entry for every subflow that was started")
	for _, s := range c.SubFlowCoverage {
		vsym.Assert(s.HostFlow == "f" && s.SubFlowActivity == nameOf("C") && s.SubFlowName == "s", "an entry names the subflow and the task that started it")
	}
}

// C33_Mocked: tasks of a row of three are mocked or skipped by the interceptor that collects the coverage; entries of mocked tasks hold the mocked outputs.
func C33_Mocked() {
	g := newGraph("f", 3)
	g.addEdge(0, 1, kDep)
	g.addEdge(1, 2, kDep)
	r := g.rep()
	out, mock := vsym.Int("out"), vsym.Int("mock")
	setUp(g, r.Tasks, r.Links, 1, out)
	inst := newInst(mustDef(r))
	ic := &support.Interceptor{CollectIO: true}
	at := vsym.Choice("at", 3)
	ti := &support.TaskInterceptor{ID: "f-" + g.tn(at), Type: support.MockActivity, SkipExecution: vsym.Choice("skip", 2) == 1, Outputs: map[string]interface{}{"out": mock}}
	ic.TaskInterceptors = []*support.TaskInterceptor{ti}
	instance.ApplyExecOptions(inst, &instance.ExecOptions{Interceptor: ic})
	inst.Start(nil)
	vsym.Assert(drive(inst, 20) && inst.Status() == model.FlowStatusCompleted, "run ends")
	c := coverage(ic)
	vsym.Assert(len(c.ActivityCoverage) == 3 && len(c.TransitionCoverage) == 2, "there is an entry for every task that was executed, in order")
	for i, a := range c.ActivityCoverage {
		want := out
		if i == at {
			want = mock
		}
		vsym.Assert(a.ActivityName == g.tn(i) && a.Outputs["out"] == want, "an entry holds the outputs of the task")
	}
}

// C33_Retried: a task that is retried up to 2 times before it succeeds or fails, or iterates has one entry, with what it
// gave in the end.
func C33_Retried() {
	n := vsym.Range("n", 0, 2)
	t := task("T1", "")
	out, runs := vsym.Int("out"), 0
	iterate := vsym.Choice("iterate", 2) == 1
	fails := vsym.Bool("fails")
	vsym.Assume(!iterate || n > 0)
	if iterate {
		t = iterTask("T1", "=$flow.n")
	} else {
		t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": n, "interval": 0}}
	}
	g, r := loopFlow(t)
	inputsOf(r, map[string]interface{}{"n": nil})
	behaviours["f/T1"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		runs++
		_ = ctx.SetOutput("out", out+runs)
		if !iterate && (fails || runs <= n) {
			return false, activity.NewRetriableError("again", "", nil)
		}
		return true, nil
	}}
	inst := newInst(mustDef(r))
	ic := &support.Interceptor{CollectIO: true}
	instance.ApplyExecOptions(inst, &instance.ExecOptions{Interceptor: ic})
	inst.Start(map[string]interface{}{"n": n})
	vsym.Assert(drive(inst, 30), "run ends")
	c := coverage(ic)
	want := 2 + g.evals[2] + g.evals[3]
	vsym.Assert(len(c.ActivityCoverage) == want, "there is an entry for every task that was executed, in order")
	a := c.ActivityCoverage[1]
	vsym.Assert(a.ActivityName == "T1", "there is an entry for every task that was executed, in order")
	if fails && !iterate {
		vsym.Assert(a.Error != nil && g.evals[2] == 0, "an entry holds the error of the task")
	} else {
		vsym.Assert(a.Error == nil && a.Outputs["out"] == out+runs, "an entry holds the outputs of the task")
	}
	vsym.Assert(len(c.TransitionCoverage) == 1+g.evals[2]+g.evals[3], "there is an entry for every link that was followed")
}

// C33_Conditions: a task, plain, iterating or calling a flow, is followed by a link whose condition holds, does not hold, fails or panics; an error handler of one task or none.
//
// Reaches: failed, handled
func C33_Conditions() {
	out := vsym.Int("out")
	kind, cond := vsym.Choice("kind", 3), vsym.Choice("cond", 4)
	t := task("T1", "")
	switch kind {
	case 1:
		t = iterTask("T1", 2)
	case 2:
		t = subflowTask("T1", "sub", nil, false)
	}
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T0", ""), t, task("T2", "")},
		Links: []*definition.LinkRep{link("T0", "T1", "", ""), link("T1", "T2", "expression", "cond")}}
	exprs["cond"] = func(data.Scope) (interface{}, error) {
		switch cond {
		case 2:
			return nil, errText("broken")
		case 3:
			panic("broken")
		}
		return cond == 1, nil
	}
	for _, n := range []string{"T0", "T1", "T2", "H0"} {
		*behaviourOf("f", n) = Behaviour{Eval: func(ctx activity.Context) (bool, error) { return true, ctx.SetOutput("out", out) }}
	}
	s := &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}
	outputs(s, "out")
	*behaviourOf("s", "S0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		setAttr(ctx, "out", out)
		return true, ctx.SetOutput("out", out)
	}}
	setFlows(provider{"sub": s})
	handler := vsym.Choice("handler", 2) == 1
	if handler {
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("H0", "")}}
	}
	inst := newInst(mustDef(r))
	ic := collected(inst)
	inst.Start(nil)
	vsym.Assert(drive(inst, 30), "run ends")
	c := coverage(ic)
	want := []string{"T0", "T1"}
	if kind == 2 {
		want = []string{"T0", "S0", "T1"}
	}
	links := 1
	if cond == 1 {
		want, links = append(want, "T2"), 2
	}
	if cond > 1 {
		vsym.Assert((inst.Status() == model.FlowStatusFailed) == !handler, "run ends")
		vsym.Reach("failed")
		if handler {
			want = append(want, "H0")
			vsym.Reach("handled")
		}
	}
	vsym.Assert(len(c.ActivityCoverage) == len(want), "there is an entry for every task that was executed, in order")
	for i, a := range c.ActivityCoverage {
		vsym.Assert(a.ActivityName == want[i] && a.IsMainFlow == (want[i] != "H0"), "there is an entry for every task that was executed, in order")
		vsym.Assert(!ic.CollectIO || a.Outputs["out"] == out, "an entry holds the outputs of the task")
	}
	vsym.Assert(len(c.TransitionCoverage) == links, "there is an entry for every link that was followed")
}
