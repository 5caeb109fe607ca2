package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/model"
)

// C03_Main: a flow of tasks M0, M1, M2 with one link of any of the kinds dependency, error, label
// from M0 to M1 and M2, an independent start task M3 and, optionally, an error handler with two
// linked tasks. Every task may fail, by an error, an activity error or a panic (the same for all),
// and start tasks are entered in any order.
//
// Shards: 6
// MapRot: 1
// Reaches: unhandled, handler, handled, handlerfails
func C03_Main() {
	m := newGraphPre("f", "M", 4)
	kinds := []int{kNone, kDep, kError, kLabel}
	for j := 1; j < 3; j++ {
		if k := kinds[vsym.Choice("k"+m.tn(j), 4)]; k != kNone {
			m.addEdge(0, j, k)
		}
	}
	h := newGraphPre("f", "H", 2)
	how := vsym.Choice("how", nFailures)
	for i := range m.fails {
		m.fails[i] = vsym.Bool("fail" + m.tn(i))
		m.how[i] = how
	}
	r := m.rep()
	handler := vsym.Choice("handler", 2) == 1
	if handler {
		h.addEdge(0, 1, kinds[1+vsym.Choice("kH", 2)])
		for i := range h.fails {
			h.fails[i] = vsym.Bool("fail" + h.tn(i))
			h.how[i] = how
		}
		r.ErrorHandler = h.handlerRep()
	}
	def := mustDef(r)
	vsym.MapOrder(true)
	inst := newInst(def)
	inst.Start(nil)
	vsym.Assert(drive(inst, 24), "run ends")
	vsym.MapOrder(false)
	m.observe(inst.Status())
	h.observe(inst.Status())
	checkErrors(m, h, handler, inst.Status())
	if inst.Status() == model.FlowStatusFailed {
		vsym.Assert(inst.GetError() != nil, "failed flow has an error")
	}
}

// C03_Join: a task with links of any kind, or none, to two tasks that both link to a fourth one by any kind of link but
// an expression; the first task and the second one may fail.
//
// Shards: 4
// Reaches: handled, unhandled, joined
func C03_Join() {
	m := newGraphPre("f", "M", 4)
	other := 0
	for j := 1; j < 3; j++ {
		k := vsym.Choice("k"+m.tn(j), 6)
		if k == kOther {
			other++
		}
		if k != kNone {
			m.addEdge(0, j, k)
		}
	}
	vsym.Assume(other <= 1)
	kinds := []int{kDep, kOther, kLabel, kError}
	for i := 1; i < 3; i++ {
		m.addEdge(i, 3, kinds[vsym.Choice("j"+m.tn(i), len(kinds))])
	}
	for i := 0; i < 2; i++ {
		m.fails[i] = vsym.Bool("fail" + m.tn(i))
	}
	inst := newInst(mustDef(m.rep()))
	inst.Start(nil)
	vsym.Assert(drive(inst, 24), "run ends")
	m.observe(inst.Status())
	checkErrors(m, newGraphPre("f", "H", 0), false, inst.Status())
	if m.evals[0] > 0 && m.fails[0] && m.evals[3] > 0 {
		vsym.Reach("joined")
	}
}

// checkErrors compares the run of a flow (m) and of its error handler (h) with the reference.
func checkErrors(m, h *graph, handler bool, st model.FlowStatus) {
	m.oracle()
	h.oracle()
	// the first failure without error link is the last task of the main part to run
	broke := false
	for x, i := range m.order {
		if m.fails[i] && !m.hasErrLink(i) {
			broke = true
			vsym.Assert(x == len(m.order)-1, "nothing else runs after an unhandled failure")
		}
	}
	for i := 0; i < m.n; i++ {
		vsym.Assert(m.evals[i] <= 1, "runs once")
		if m.skip[i] {
			vsym.Assert(m.evals[i] == 0, "link of the other kind is not followed")
		} else if !broke {
			vsym.Assert(m.evals[i] == 1, "flow goes on after a handled failure")
		}
	}
	if !broke {
		vsym.Reach("handled")
		vsym.Assert(st == model.FlowStatusCompleted, "flow completes")
		vsym.Assert(len(h.order) == 0, "error handler does not run without unhandled failure")
		return
	}
	if !handler {
		vsym.Reach("unhandled")
		vsym.Assert(st == model.FlowStatusFailed, "unhandled failure fails the flow")
		return
	}
	vsym.Reach("handler")
	hbroke := false
	for x, i := range h.order {
		if h.fails[i] && !h.hasErrLink(i) {
			hbroke = true
			vsym.Assert(x == len(h.order)-1, "nothing else runs after a failure of the handler")
		}
	}
	for i := 0; i < h.n; i++ {
		vsym.Assert(h.evals[i] <= 1, "error handler runs at most once")
		if h.skip[i] {
			vsym.Assert(h.evals[i] == 0, "skipped handler task does not run")
		} else if !hbroke {
			vsym.Assert(h.evals[i] == 1, "error handler runs")
		}
	}
	if hbroke {
		vsym.Reach("handlerfails")
		vsym.Assert(st == model.FlowStatusFailed, "failing handler fails the flow")
	} else {
		vsym.Assert(st == model.FlowStatusCompleted, "successful handler completes the flow")
	}
}

// C03_Sub: a subflow of two start tasks and one task linked from the first by a dependency or an
// error link, with or without error handler of one task, called by a task S of a main flow that
// has a dependency link to N and, optionally, an error link to E, next to an independent task. Every task of the subflow and
// its handler may fail, by an error or a panic.
//
// Shards: 4
// MapRot: 1
func C03_Sub() {
	s := newGraphPre("s", "A", 3)
	how := 2 * vsym.Choice("how", 2)
	if vsym.Choice("err", 2) == 1 {
		s.addEdge(0, 1, kError)
	} else {
		s.addEdge(0, 1, kDep)
	}
	for i := range s.fails {
		s.fails[i] = vsym.Bool("fail" + s.tn(i))
		s.how[i] = how
	}
	r := s.rep()
	h := newGraphPre("s", "H", 1)
	handler := vsym.Choice("handler", 2) == 1
	if handler {
		h.fails[0] = vsym.Bool("failH")
		h.how[0] = how
		r.ErrorHandler = h.handlerRep()
	}
	setFlows(provider{"sub": r})

	m := newGraphPre("f", "M", 4) // M0 calls the subflow
	m.addEdge(0, 1, kDep)
	errLink := vsym.Choice("errlink", 2) == 1
	if errLink {
		m.addEdge(0, 2, kError)
	}
	mr := m.rep()
	if !errLink {
		mr.Tasks = append(mr.Tasks[:2], mr.Tasks[3])
	}
	behaviours["f/M0"] = hostBehaviour("sub", nil)
	def := mustDef(mr)
	vsym.MapOrder(true)
	inst := newInst(def)
	inst.Start(nil)
	vsym.Assert(drive(inst, 32), "run ends")
	vsym.MapOrder(false)
	m.observe(inst.Status())
	s.observe(inst.Status())
	h.observe(inst.Status())

	// the outcome of the subflow is seen through its host task
	sub := model.FlowStatusCompleted
	for i, f := range s.fails {
		if f && s.evals[i] > 0 && !s.hasErrLink(i) && (!handler || h.fails[0]) {
			sub = model.FlowStatusFailed
		}
	}
	checkErrors(s, h, handler, sub)
	vsym.Assert(inst.Status() >= model.FlowStatusCompleted, "main flow ends")
	if sub == model.FlowStatusCompleted {
		vsym.Assert(inst.Status() == model.FlowStatusCompleted, "main flow completes after its subflow completed")
		vsym.Assert(m.evals[1] == 1 && m.evals[2] == 0, "calling task succeeds when the subflow completed")
		vsym.Assert(m.evals[3] == 1, "independent task of the calling flow runs")
	} else {
		vsym.Assert(m.evals[1] == 0, "calling task fails when the subflow failed")
		if errLink {
			vsym.Assert(m.evals[2] == 1 && inst.Status() == model.FlowStatusCompleted, "error link of the calling task is followed")
		} else {
			vsym.Assert(inst.Status() == model.FlowStatusFailed && inst.GetError() != nil, "failed subflow fails the calling flow")
		}
	}
}

// C03_LinkInHandler: the error handler itself contains an expression link whose condition is true,
// false, fails or panics.
//
// MapRot: 1
func C03_LinkInHandler() {
	m := newGraphPre("f", "M", 1)
	m.fails[0] = true
	h := newGraphPre("f", "H", 2)
	h.addEdge(0, 1, kExpr)
	r := m.rep()
	r.ErrorHandler = h.handlerRep()
	v := vsym.Choice("cond", nCond)
	setCond(h, 0, v)
	sub := vsym.Choice("sub", 2) == 1
	def := r
	c := newGraphPre("c", "C", 2)
	c.addEdge(0, 1, kError)
	if sub {
		setFlows(provider{"sub": r})
		def = c.rep()
		behaviours["c/C0"] = hostBehaviour("sub", nil)
	}
	inst := newInst(mustDef(def))
	inst.Start(nil)
	vsym.Assert(drive(inst, 24), "run ends")
	h.observe(inst.Status())
	vsym.Assert(h.evals[0] == 1, "error handler runs once")
	if v == cBool {
		vsym.Assert((h.evals[1] == 1) == h.edges[0].cond && h.evals[1] <= 1, "link of the handler")
		vsym.Assert(inst.Status() == model.FlowStatusCompleted, "handler completes the flow")
		vsym.Assert(c.evals[1] == 0, "calling task succeeds")
		return
	}
	vsym.Assert(h.evals[1] == 0, "failing link is not followed")
	if sub {
		vsym.Assert(c.evals[1] == 1 && inst.Status() == model.FlowStatusCompleted, "calling task fails")
	} else {
		vsym.Assert(inst.Status() == model.FlowStatusFailed && inst.GetError() != nil, "error in the handler fails the flow")
	}
}

// C03_Fan: a task with five outgoing links, each a dependency or an error link, succeeds or fails in any way, and
// so does each of the tasks they lead to, which all have a link of the other or the same kind to a last task.
//
// Shards: 4
// Reaches: handled
func C03_Fan() {
	g := newGraph("f", 7)
	for j := 1; j <= 5; j++ {
		g.addEdge(0, j, []int{kDep, kError}[vsym.Choice("k"+g.tn(j), 2)])
	}
	out := vsym.Choice("out", 2)
	for j := 1; j <= 5; j++ {
		g.addEdge(j, 6, []int{kDep, kError}[(out+j)%2])
		g.fails[j] = vsym.Bool("fail" + g.tn(j))
	}
	g.fails[0] = vsym.Bool("fail")
	how := vsym.Choice("how", nFailures)
	for i := range g.how {
		g.how[i] = how
	}
	g.fails[6] = false
	inst := newInst(mustDef(g.rep()))
	inst.Start(nil)
	vsym.Assert(drive(inst, 24), "run ends")
	g.observe(inst.Status())
	checkErrors(g, newGraphPre("f", "H", 0), false, inst.Status())
}

// C03_SameIds: a flow T0 -> T1, T0 -> T2, or one whose second task calls that flow, in which one task may fail, with an error handler of one or two tasks, whose ids may be those
// of tasks of the flow, and which wait or not.
//
// Reaches: same ids
func C03_SameIds() {
	var ran []string
	main, p, check := sameIds(func(name string) { ran = append(ran, name) })
	initAction(nil, nil, mustDef(main))
	a := newAction("res://flow:" + main.Name)
	setFlows(p)
	o, err := runAct(a, nil, nil)
	vsym.Assert(err == nil && len(o.errs) == 1, "run ends")
	check(ran, o.errs[0])
}

// C03_Settings: up to three tasks - the successors of a task, or those the flow or its error handler starts with - have settings that can or cannot be
// resolved, with or without an error link each, and the flow has an error handler or not.
//
// Shards: 2
// MapRot: 2
// Reaches: handled, unhandled, linked
func C03_Settings() {
	n, where := vsym.Choice("n", 3)+1, vsym.Choice("where", 3)
	var ts []*definition.TaskRep
	var ls []*definition.LinkRep
	ran := map[string]int{}
	add := func(id string) *definition.TaskRep {
		t := task(id, "")
		*behaviourOf("f", id) = Behaviour{Eval: func(activity.Context) (bool, error) { ran[id]++; return true, nil }}
		return t
	}
	linked, stopped := map[int]bool{}, false
	broken := map[int]bool{}
	for i := 0; i < n; i++ {
		t := add("A" + string(rune('0'+i)))
		switch vsym.Choice("kind"+string(rune('0'+i)), 3) {
		case 1:
			broken[i], linked[i] = true, true
		case 2:
			broken[i], stopped = true, true
		}
		if broken[i] {
			t.Settings = map[string]interface{}{"own": "=$flow.missing"}
		}
		ts = append(ts, t)
		if where == 1 {
			ls = append(ls, link("T0", t.ID, "", ""))
		}
	}
	for i := 0; i < n; i++ {
		if linked[i] {
			e := add("E" + string(rune('0'+i)))
			ts = append(ts, e)
			ls = append(ls, link("A"+string(rune('0'+i)), e.ID, "error", ""))
		}
	}
	r := &definition.DefinitionRep{Name: "f"}
	handler := where < 2 && vsym.Choice("handler", 2) == 1
	switch where {
	case 0:
		r.Tasks, r.Links = ts, ls
	case 1:
		r.Tasks, r.Links = append(ts, add("T0")), ls
	case 2:
		r.Tasks = []*definition.TaskRep{add("T0")}
		*behaviourOf("f", "T0") = Behaviour{Eval: func(activity.Context) (bool, error) { return false, errText("bad") }}
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: ts, Links: ls}
	}
	if handler {
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{add("H0")}}
	}
	def := mustDef(r)
	vsym.MapOrder(true)
	inst := newInst(def)
	inst.Start(nil)
	vsym.Assert(drive(inst, 24), "run ends")
	vsym.MapOrder(false)
	vsym.Observe("status", int(inst.Status()), ran["H0"])
	for i := 0; i < n; i++ {
		id, e := "A"+string(rune('0'+i)), "E"+string(rune('0'+i))
		if stopped {
			vsym.Assert(ran[id] == 0 && ran[e] <= btoi(linked[i]), "nothing else runs after an unhandled failure")
			continue
		}
		vsym.Assert(ran[id] == btoi(!broken[i]), "flow goes on after a handled failure")
		if linked[i] {
			vsym.Reach("linked")
			vsym.Assert(ran[e] == 1, "the error link is followed")
		}
	}
	vsym.Assert(ran["H0"] == btoi(stopped && handler), "the error handler runs exactly after an unhandled failure")
	if stopped && !handler {
		vsym.Reach("unhandled")
		vsym.Assert(inst.Status() == model.FlowStatusFailed && inst.GetError() != nil, "without handler the flow fails")
	} else {
		vsym.Assert(inst.Status() == model.FlowStatusCompleted, "a handled failure does not fail the flow")
		if stopped {
			vsym.Reach("handled")
		}
	}
}

// C03_Waiting: of two tasks one fails and one waits for something that does not come, in either order; the error handler has a task with the id of either, or
// another one, and goes on or not.
//
// Shards: 1
// MapRot: 2
// Reaches: waited
func C03_Waiting() {
	ids := []string{"T0", "T1", "H"}
	r := &definition.DefinitionRep{Name: "f"}
	ran := map[string]int{}
	add := func(id, name string, f func() (bool, error)) *definition.TaskRep {
		t := task(id, "")
		t.Name = name
		*behaviourOf("f", name) = Behaviour{Eval: func(activity.Context) (bool, error) { ran[name]++; return f() }}
		return t
	}
	done := func() (bool, error) { return true, nil }
	r.Tasks = append(r.Tasks, add("T0", "T0", func() (bool, error) { return false, nil }), add("T1", "T1", func() (bool, error) { return false, errText("bad") }))
	a := vsym.Choice("a", 3)
	eh := &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{add(ids[a], "H0", done)}}
	second := vsym.Choice("second", 2) == 1
	if second {
		b := (a + 1) % 3
		eh.Tasks = append(eh.Tasks, add(ids[b], "H1", done))
		eh.Links = append(eh.Links, link(ids[a], ids[b], "", ""))
	}
	r.ErrorHandler = eh
	def := mustDef(r)
	vsym.MapOrder(true)
	inst := newInst(def)
	inst.Start(nil)
	vsym.Assert(drive(inst, 24), "run ends")
	vsym.MapOrder(false)
	if ran["T0"] == 1 {
		vsym.Reach("waited")
	}
	vsym.Observe("ran", ran["H0"], ran["H1"], int(inst.Status()))
	vsym.Assert(ran["T1"] == 1 && ran["H0"] == 1 && ran["H1"] == btoi(second), "the error handler runs, task by task")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "a handled failure does not fail the flow")
}

// C03_Left: of two tasks of a flow, run by itself or as a subflow, one calls a flow of up to 3 tasks, which may call another one, and one fails after up to 3
// tasks; the error handler's task waits, for ever or until it is called, or finishes. From the failure on no task of what was called runs.
//
// Reaches: left, waiting
func C03_Left() {
	length, at := 1+vsym.Choice("length", 3), vsym.Choice("at", 4)
	deeper, nested := vsym.Choice("deeper", 2) == 1, vsym.Choice("nested", 2) == 1
	waits := vsym.Choice("waits", 2) == 1
	failed, after, handled := false, 0, 0
	ran := map[string]int{}
	add := func(r *definition.DefinitionRep, id, prev string, f func(activity.Context) (bool, error)) {
		r.Tasks = append(r.Tasks, task(id, ""))
		if prev != "" {
			r.Links = append(r.Links, link(prev, id, "", ""))
		}
		flow := r.Name
		*behaviourOf(flow, id) = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			if failed {
				after++
			}
			ran[flow]++
			if f != nil {
				return f(ctx)
			}
			return true, nil
		}}
	}
	tn := func(p string, i int) string { return p + string(rune('0'+i)) }
	leaf := &definition.DefinitionRep{Name: "leaf"}
	add(leaf, "L0", "", nil)
	add(leaf, "L1", "L0", nil)
	sub := &definition.DefinitionRep{Name: "sub"}
	for i, prev := 0, ""; i < length; i++ {
		add(sub, tn("S", i), prev, nil)
		if i == 0 && deeper {
			sub.Tasks[0] = subflowTask("S0", "leaf", nil, false)
		}
		prev = tn("S", i)
	}
	f := &definition.DefinitionRep{Name: "f"}
	if vsym.Choice("order", 2) == 1 {
		f.Tasks = append(f.Tasks, subflowTask("T0", "sub", nil, false))
	}
	for i, prev := 0, ""; i <= at; i++ {
		last := i == at
		add(f, tn("P", i), prev, func(activity.Context) (bool, error) {
			if last {
				failed = true
				return false, errText("bad")
			}
			return true, nil
		})
		prev = tn("P", i)
	}
	if len(f.Tasks) == at+1 {
		f.Tasks = append(f.Tasks, subflowTask("T0", "sub", nil, false))
	}
	f.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("H", "")}}
	*behaviourOf("f", "H") = Behaviour{Eval: func(activity.Context) (bool, error) {
		handled++
		return !waits, nil
	}}
	flows := provider{"sub": sub, "leaf": leaf, "f": f}
	setFlows(flows)
	main := f
	if nested {
		main = &definition.DefinitionRep{Name: "main", Tasks: []*definition.TaskRep{subflowTask("M", "f", nil, false)}}
	}
	def := mustDef(main)
	vsym.MapOrder(true)
	inst := newInst(def)
	inst.Start(nil)
	vsym.Assert(drive(inst, 40), "run ends")
	vsym.MapOrder(false)
	vsym.Observe("ran", ran["sub"], ran["leaf"], ran["f"], handled, int(inst.Status()))
	vsym.Assert(handled == 1 && ran["f"] == at+1, "the error handler is run")
	vsym.Assert(after == 0, "the error handler is run instead of the rest of the flow")
	if ran["sub"] < length-btoi(deeper) {
		vsym.Reach("left")
	}
	if waits {
		vsym.Reach("waiting")
		vsym.Assert(inst.Status() == model.FlowStatusActive, "a flow whose error handler waits is not over")
	} else {
		vsym.Assert(inst.Status() == model.FlowStatusCompleted, "a handled failure does not fail the flow")
	}
}
