package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/support/event"
)

// checkFinals asserts that the final status of every flow was announced once and never changed,
// and that the announcement of a failure carries an error.
func checkFinals(inst interface {
	Status() model.FlowStatus
	ID() string
	GetError() error
}) {
	stopListening()
	final := map[string]event.Status{}
	for _, e := range flowEvs {
		st := e.FlowStatus()
		_, ended := final[e.FlowID()]
		vsym.Assert(!ended, "nothing is announced after the final status")
		if st == event.COMPLETED || st == event.FAILED || st == event.CANCELLED {
			final[e.FlowID()] = st
			vsym.Assert((e.FlowError() != nil) == (st == event.FAILED), "failure is announced with its error")
		}
	}
	st, ok := final[inst.ID()]
	vsym.Assert(ok, "final status is announced")
	vsym.Assert((st == event.COMPLETED) == (inst.Status() == model.FlowStatusCompleted), "announced status is the final status")
}

// after steps an ended instance and asserts that nothing happens anymore.
func checkEnded(inst interface {
	DoStep() bool
	Status() model.FlowStatus
}) {
	st, n := inst.Status(), len(runLog)
	for i := 0; i < 3; i++ {
		inst.DoStep()
	}
	vsym.Assert(inst.Status() == st && len(runLog) == n, "nothing happens after the end")
}

// C04_Graph: graphs of 3 tasks with links of any kind between them (at most one otherwise link per
// task), optional error handler of two linked tasks; every task may fail by an error or a panic and
// the first expression link's condition may be unusable; start tasks entered in any order.
//
// Shards: 8
// MapRot: 1
// Reaches: failed, completed
func C04_Graph() {
	g := newGraphPre("f", "M", 3)
	g.chooseEdges(6)
	how := 2 * vsym.Choice("how", 2)
	for i := range g.fails {
		g.fails[i] = vsym.Bool("fail" + g.tn(i))
		g.how[i] = how
	}
	r := g.rep()
	bad := false
	for x, e := range g.edges {
		if e.kind == kExpr {
			if vsym.Choice("bad", 2) == 1 {
				bad = true
				setCond(g, x, cError+how/2)
			}
			break
		}
	}
	handler := vsym.Choice("handler", 2) == 1
	h := newGraphPre("f", "H", 2)
	if handler {
		h.addEdge(0, 1, kDep)
		h.fails[1] = vsym.Bool("failH")
		h.how[1] = how
		r.ErrorHandler = h.handlerRep()
	}
	def := mustDef(r)
	listen()
	vsym.MapOrder(true)
	inst := newInst(def)
	inst.Start(nil)
	vsym.Assert(drive(inst, 24), "run ends")
	vsym.MapOrder(false)
	st := inst.Status()
	vsym.Assert(st == model.FlowStatusCompleted || st == model.FlowStatusFailed, "flow with nothing left to do has ended")
	if st == model.FlowStatusFailed {
		vsym.Reach("failed")
		vsym.Assert(inst.GetError() != nil, "failed flow has an error")
	} else {
		vsym.Reach("completed")
		vsym.Assert(inst.GetError() == nil, "completed flow has no error")
	}
	if !bad {
		broke := false
		for _, i := range g.order {
			broke = broke || g.fails[i] && !g.hasErrLink(i)
		}
		vsym.Assert((st == model.FlowStatusFailed) == (broke && (!handler || h.fails[1])), "flow fails exactly when a failure was not handled")
	}
	checkEnded(inst)
	checkFinals(inst)
}

// C04_Skip: graphs of 4 tasks with expression links only, all orders of entering the start tasks.
//
// Shards: 4
// MapRot: 1
func C04_Skip() {
	g := newGraph("f", 4)
	for i := 0; i < 4; i++ {
		for j := i + 1; j < 4; j++ {
			if vsym.Choice("k", 2) == 1 {
				g.addEdge(i, j, kExpr)
			}
		}
	}
	def := mustDef(g.rep())
	listen()
	vsym.MapOrder(true)
	inst := newInst(def)
	inst.Start(nil)
	vsym.Assert(drive(inst, 24), "run ends")
	vsym.MapOrder(false)
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && inst.GetError() == nil, "flow completes")
	checkEnded(inst)
	checkFinals(inst)
}

// C04_Subflows: a main flow whose two start tasks each call a subflow (with two tasks, one of which
// calls a further subflow), any of whose tasks may fail by an error or a panic; the called flow has
// an error handler or not.
//
// Shards: 4
// MapRot: 1
func C04_Subflows() {
	in := newGraphPre("inner", "I", 2)
	sub := newGraphPre("sub", "S", 3)
	how := 2 * vsym.Choice("how", 2)
	for i := range in.fails {
		in.fails[i] = vsym.Bool("fail" + in.tn(i))
		in.how[i] = how
	}
	sub.fails[2] = vsym.Bool("failS2")
	sub.how[2] = how
	sub.addEdge(0, 1, kDep)
	sr := sub.rep()
	if vsym.Choice("handler", 2) == 1 {
		h := newGraphPre("sub", "H", 1)
		h.fails[0] = vsym.Bool("failH")
		h.how[0] = how
		sr.ErrorHandler = h.handlerRep()
	}
	behaviours["sub/S0"] = hostBehaviour("inner", nil)
	setFlows(provider{"inner": in.rep(), "sub": sr})
	m := newGraphPre("f", "M", 3)
	m.addEdge(0, 2, []int{kDep, kError}[vsym.Choice("k", 2)])
	r := m.rep()
	behaviours["f/M0"] = hostBehaviour("sub", nil)
	if vsym.Choice("two", 2) == 1 {
		behaviours["f/M1"] = hostBehaviour("sub", nil)
	}
	def := mustDef(r)
	listen()
	vsym.MapOrder(true)
	inst := newInst(def)
	inst.Start(nil)
	vsym.Assert(drive(inst, 40), "run ends")
	vsym.MapOrder(false)
	st := inst.Status()
	vsym.Assert(st == model.FlowStatusCompleted || st == model.FlowStatusFailed, "flow with nothing left to do has ended")
	vsym.Assert((inst.GetError() != nil) == (st == model.FlowStatusFailed), "error agrees with status")
	checkEnded(inst)
	checkFinals(inst)
}

// C04_Empty: flows without any task, flows whose tasks are all part of a cycle, and flows that fail and have an error handler without any task or with such
// tasks only; run by themselves or as a subflow.
func C04_Empty() {
	shape, inHandler := vsym.Choice("cycle", 2), vsym.Choice("handler", 2) == 1
	g := newGraph("f", 2*shape)
	if g.n == 2 {
		g.addEdge(0, 1, kDep)
		g.addEdge(1, 0, kDep)
	}
	r := g.rep()
	nested := vsym.Choice("nested", 2) == 1
	if inHandler {
		g2 := newGraphPre("f", "A", 1)
		g2.fails[0] = true
		r2 := g2.rep()
		r2.ErrorHandler = &definition.ErrorHandlerRep{Tasks: r.Tasks, Links: r.Links}
		r = r2
	}
	inst := started(r, nested, nil)
	vsym.Assert(drive(inst, 8), "run ends")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow with nothing left to do has ended")
}

// C04_Waiting: a flow with a task that waits for ever stays active, whatever its other tasks do,
// unless one of them fails.
//
// MapRot: 1
func C04_Waiting() {
	g := newGraph("f", 3)
	g.addEdge(0, 2, 1+vsym.Choice("k", 2))
	g.fails[0] = vsym.Bool("fail")
	r := g.rep()
	behaviours["f/T1"] = &Behaviour{Eval: func(activity.Context) (bool, error) { return false, nil }}
	def := mustDef(r)
	vsym.MapOrder(true)
	inst := newInst(def)
	inst.Start(nil)
	vsym.Assert(drive(inst, 16), "run ends")
	vsym.MapOrder(false)
	if g.fails[0] {
		vsym.Assert(inst.Status() == model.FlowStatusFailed, "failure ends the flow")
	} else {
		vsym.Assert(inst.Status() == model.FlowStatusActive, "waiting task keeps the flow active")
	}
	vsym.Assert(g.evals[2] == 0 || g.evals[0] == 1, "order")
}
