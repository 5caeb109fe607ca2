package h

import (
	"strconv"

	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/support/event"
)

// wide is a graph whose first task is followed by 13 others that all lead to a last one. The links to them and from them are
// of the kinds given, the conditions hold from one position to another.
func wide(before, after func(i int) int) *graph {
	const n = 13
	g := newGraph("f", n+2)
	lo, hi := vsym.Range("lo", 0, n), vsym.Range("hi", 0, n)
	at := vsym.Choice("at", 2) // which of the links have the conditions
	for i := 1; i <= n; i++ {
		for side, k := range []int{before(i), after(i)} {
			e := edge{from: 0, to: i, kind: k, name: "c" + strconv.Itoa(len(g.edges))}
			if side == 1 {
				e.from, e.to = i, n+1
			}
			if k == kExpr {
				e.cond = side != at || i > lo && i <= hi
			}
			g.edges = append(g.edges, e)
		}
	}
	return g
}

// C01_Wide: a task is followed by 13 others that all lead to one; either the links to them or those from them have conditions that hold
// from any of them to any other one.
func C01_Wide() {
	g := wide(func(int) int { return kExpr }, func(int) int { return kExpr })
	g.runWithin(60)
}

// runWithin runs a graph in which no task fails and compares it with the reference.
func (g *graph) runWithin(bound int) {
	inst := newInst(mustDef(g.rep()))
	inst.Start(nil)
	vsym.Assert(drive(inst, bound), "run ends")
	g.oracle()
	g.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
	g.checkRun()
}

// C01_Deep: a row of 15 tasks joined by links with conditions, any one of which does not hold, or none.
func C01_Deep() {
	g := newGraph("f", 15)
	stop := vsym.Range("stop", 0, 15)
	for i := 1; i < 15; i++ {
		g.edges = append(g.edges, edge{from: i - 1, to: i, kind: kExpr, cond: i != stop, name: "c" + strconv.Itoa(i)})
	}
	g.runWithin(60)
}

// C02_Wide: a task is followed by 13 others, by otherwise links to the 3rd and the 12th, a dependency to the 11th, a label to the 2nd and links with conditions, which hold
// from any of them to any other one.
func C02_Wide() {
	g := wide(func(i int) int {
		switch i {
		case 3, 12:
			return kOther
		case 11:
			return kDep
		case 2:
			return kLabel
		}
		return kExpr
	}, func(i int) int { return kDep })
	g.runWithin(60)
}

// C09_Many: a do-while task, with or without accumulation and delay, runs up to 12 (thorough 25) times.
func C09_Many() {
	n := vsym.Range("n", 1, 12+13*vsym.Tier())
	more := map[string]interface{}{}
	acc := vsym.Choice("accumulate", 2) == 1
	if acc {
		more["accumulate"] = true
	}
	if vsym.Choice("delay", 2) == 1 {
		more["delay"] = 1
	}
	g, r := loopFlow(doWhileTask("T1", "again", 0, more))
	runs := 0
	behaviours["f/T1"].Eval = func(ctx activity.Context) (bool, error) {
		vsym.Assert(ctx.GetInput("in") == runs, "index counts the runs")
		runs++
		return true, ctx.SetOutput("out", 100+runs)
	}
	exprs["again"] = func(scope data.Scope) (interface{}, error) { return runs < n, nil }
	last := func(ctx activity.Context) {
		if !acc {
			vsym.Assert(sees(ctx, "$activity[T1].out") == 100+n, "the outputs of the last run remain")
			return
		}
		l, _ := sees(ctx, "$activity[T1]").([]interface{})
		vsym.Assert(len(l) == n, "the outputs of all runs are collected")
		for i, e := range l {
			m, _ := e.(map[string]interface{})
			vsym.Assert(m["out"] == 101+i, "the outputs of all runs are collected")
		}
	}
	before("f/T2", last)
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 60), "run ends")
	vsym.Observe("runs", runs)
	vsym.Assert(runs == n && g.evals[2] == 1 && g.evals[3] == 0, "repeats while the condition is true")
}

// C11_Many: as C09_Many.
func C11_Many() { C09_Many() }

// C10_Many: a task, plain or calling a flow, with any retry count up to 12 fails up to 13 times before it succeeds.
//
// Reaches: retried, gave up
func C10_Many() {
	count, bad := vsym.Range("count", 0, 12), vsym.Range("bad", 0, 13)
	later := vsym.Choice("later", 2) == 1
	g := newGraphPre("f", "T", 4)
	g.addEdge(0, 1, kDep)
	g.addEdge(1, 2, kDep)
	g.addEdge(1, 3, kError)
	r := g.rep()
	r.Tasks[1].Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": count, "interval": 0}}
	setFlows(provider{"sub": &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}})
	runs := 0
	try := func(ctx activity.Context) (bool, error) {
		runs++
		if runs <= bad {
			return false, activity.NewRetriableError("again", "", nil)
		}
		return true, ctx.SetOutput("out", runs)
	}
	behaviours["f/T1"] = &Behaviour{Eval: try}
	if later {
		behaviours["f/T1"] = &Behaviour{Post: try, Eval: func(ctx activity.Context) (bool, error) {
			return false, instance.StartSubFlow(ctx, "sub", map[string]interface{}{})
		}}
	}
	*behaviourOf("s", "S0") = Behaviour{}
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 100), "run ends")
	vsym.Observe("runs", runs)
	if bad <= count {
		vsym.Reach("retried")
		vsym.Assert(runs == bad+1 && g.evals[2] == 1 && g.evals[3] == 0, "a task is retried until it succeeds")
	} else {
		vsym.Reach("gave up")
		vsym.Assert(runs == count+1 && g.evals[2] == 0 && g.evals[3] == 1, "a task is retried as often as configured")
	}
}

// C20_Long: a flow of 12 tasks, each pair of which next to each other is joined by two links, of any kind and the next one, with an error handler like it.
func C20_Long() {
	const n = 12
	k := vsym.Choice("kind", len(linkKinds))
	names := func(pre string) (list []string) {
		for i := 0; i < n; i++ {
			list = append(list, pre+strconv.Itoa(i))
		}
		return
	}
	part := func(pre string) (ts []*definition.TaskRep, ls []*definition.LinkRep) {
		t := names(pre)
		for i := range t {
			ts = append(ts, task(t[i], ""))
			if i > 0 {
				for j := 0; j < 2; j++ {
					l := link(t[i-1], t[i], linkKinds[(k+j)%len(linkKinds)].text, "value"+pre+strconv.Itoa(2*i+j))
					l.Label = "label" + pre + strconv.Itoa(2*i+j)
					valueExprs(l.Value)
					ls = append(ls, l)
				}
			}
		}
		return
	}
	r := &definition.DefinitionRep{Name: "f"}
	r.Tasks, r.Links = part("T")
	if vsym.Choice("handler", 2) == 1 {
		r.ErrorHandler = &definition.ErrorHandlerRep{}
		r.ErrorHandler.Tasks, r.ErrorHandler.Links = part("H")
	}
	d, err := definition.NewDefinition(r)
	vsym.Assert(err == nil, "a correct description is accepted")
	checkDef(d, r)
}

// C33_Long: the flows of C12_Long: there is an entry for every task, in order, for every link and for every subflow.
//
// Steps: 40000000
func C33_Long() {
	l := &longRun{}
	r, p, check := longFlow(l.ran)
	setFlows(p)
	inst := newInst(mustDef(r))
	ic := collected(inst)
	inst.Start(nil)
	vsym.Assert(drive(inst, 80), "run ends")
	check(l, inst.Status())
	c := coverage(ic)
	at, subs, links := 0, 0, 0
	for _, n := range l.names {
		flow := "f"
		if n[0] == 'S' {
			subs++
			a := "A" + n[1:]
			vsym.Assert(c.SubFlowCoverage[subs-1].SubFlowActivity == nameOf(a) && c.SubFlowCoverage[subs-1].HostFlow == "f" && c.SubFlowCoverage[subs-1].SubFlowName == "s", "there is an entry for every subflow that was started")
			flow, n = "s", "S"
		}
		// the tasks that call the subflows are between them
		for at < len(c.ActivityCoverage) && (c.ActivityCoverage[at].FlowName != flow || c.ActivityCoverage[at].ActivityName != n) {
			x := c.ActivityCoverage[at]
			k, _ := strconv.Atoi(x.ActivityName[1:])
			vsym.Assert(x.FlowName == "f" && x.ActivityName[0] == 'A' && k > 0 && k <= subs, "there is an entry for every task that was executed, in order")
			at++
			links++
		}
		vsym.Assert(at < len(c.ActivityCoverage), "there is an entry for every task that was executed, in order")
		at++
	}
	vsym.Observe("entries", len(c.ActivityCoverage), len(c.TransitionCoverage), len(c.SubFlowCoverage))
	vsym.Assert(len(c.SubFlowCoverage) == subs, "there is no entry for a subflow that was not started")
	vsym.Assert(len(c.ActivityCoverage) == len(l.names)+subs, "there is an entry for every task that was executed, in order")
	_ = links
}

// C27_Long: the flows of C12_Long: every flow and task has its events.
//
// Steps: 40000000
func C27_Long() {
	l := &longRun{}
	r, p, check := longFlow(l.ran)
	setFlows(p)
	listen()
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 80), "run ends")
	stopListening()
	check(l, inst.Status())
	flows, tasks := map[string]int{}, map[string][]event.TaskEvent{}
	for _, e := range flowEvs {
		flows[e.FlowID()]++
	}
	for _, e := range taskEvs {
		tasks[e.FlowID()+"/"+taskOf(e)] = append(tasks[e.FlowID()+"/"+taskOf(e)], e)
	}
	vsym.Observe("events", len(flowEvs), len(taskEvs))
	subs, ran := 0, 0
	for _, n := range l.names {
		if n[0] == 'S' {
			subs++
		}
	}
	vsym.Assert(len(flows) == subs+1, "each flow has events")
	for _, n := range flows {
		vsym.Assert(n == 2, "a flow starts and ends, once")
	}
	for _, evs := range tasks {
		s := statuses(evs)
		if last := lastOf(s); last == event.COMPLETED || last == event.FAILED {
			ran++
		}
	}
	vsym.Assert(ran == len(l.names)+subs, "each task that ends has an event for that")
}

// C33_Deep: the flows of C12_Deep: there is an entry for every task of every call, in order, and for every call.
func C33_Deep() {
	d, r := deepFlow(12)
	setFlows(provider{"d": r})
	inst := newInst(mustDef(r))
	ic := collected(inst)
	inst.Start(nil)
	vsym.Assert(drive(inst, 100), "run ends")
	d.check(inst)
	c := coverage(ic)
	vsym.Observe("entries", len(c.ActivityCoverage), len(c.TransitionCoverage), len(c.SubFlowCoverage))
	vsym.Assert(len(c.SubFlowCoverage) == d.depth, "there is an entry for every subflow that was started")
	for _, s := range c.SubFlowCoverage {
		vsym.Assert(s.SubFlowActivity == nameOf("D1") && s.HostFlow == "d" && s.SubFlowName == "d", "there is an entry for every subflow that was started")
	}
	at := 0
	for _, a := range c.ActivityCoverage {
		vsym.Assert(a.FlowName == "d", "an entry names the flow of the task")
		if a.ActivityName == "D1" {
			continue
		}
		vsym.Assert(at < len(d.log) && d.log[at][:2] == a.ActivityName, "there is an entry for every task that was executed, in order")
		at++
	}
	vsym.Assert(at == len(d.log) && len(c.ActivityCoverage) == at+d.depth, "there is an entry for every task that was executed, in order")
}
