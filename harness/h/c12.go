package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/metadata"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	flowsupport "github.com/project-flogo/flow/support"

	_ "github.com/project-flogo/flow/activity/subflow"
)

// subflowTask runs a flow by the subflow activity.
func subflowTask(id, uri string, inputs map[string]interface{}, detached bool) *definition.TaskRep {
	t := task(id, "")
	t.ActivityCfgRep.Ref = "github.com/project-flogo/flow/activity/subflow"
	t.ActivityCfgRep.Settings = map[string]interface{}{"flowURI": uri}
	if detached {
		t.ActivityCfgRep.Settings["detached"] = true
	}
	t.ActivityCfgRep.Input = inputs
	return t
}

func inputsOf(r *definition.DefinitionRep, in map[string]interface{}) {
	if r.Metadata == nil {
		r.Metadata = &metadata.IOMetadata{}
	}
	r.Metadata.Input = make(map[string]data.TypedValue)
	for n, v := range in {
		r.Metadata.Input[n] = data.NewAttribute(n, data.TypeAny, v)
	}
}

// sees tells what a reference gives in the flow of an activity; nil if it does not resolve.
func sees(ctx activity.Context, ref string) interface{} {
	v, err := definition.GetDataResolver().Resolve(ref, ctx.ActivityHost().Scope())
	if err != nil {
		return nil
	}
	return v
}

// C12_Data: flow T0 -> T1 -> T2, T1 -> T3 on error, whose T1 runs a subflow S0 -> S1 by the subflow activity. Any
// of the inputs of the subflow is mapped, by value or by reference, which may be to nil or an empty text, inputs may have defaults, and the
// subflow completes, returns data, an error or both, or fails in any way in a task or its error handler, or has no tasks.
//
// Shards: 4
// Reaches: completed, failed, returned
func C12_Data() {
	v, w, d, o := vsym.Int("v"), vsym.Int("w"), vsym.Int("d"), vsym.Int("o")
	g, r := loopFlow(nil)
	in := map[string]interface{}{}
	mapA, mapB := vsym.Choice("mapA", 5), vsym.Choice("mapB", 2)
	var wantA, wantB interface{} = d, nil
	switch mapA {
	case 1:
		in["a"], wantA = v, v
	case 2:
		in["a"], wantA = "=$activity[T0].out", w
	case 3: // mapped, to nothing
		in["a"], wantA = "=$flow.n", nil
	case 4: // to an empty text
		in["a"], wantA = "=$flow.e", ""
	}
	if mapB == 1 {
		in["b"], wantB = "=$flow.x", v
	}
	r.Tasks[1] = subflowTask("T1", "sub", in, false)
	r.Tasks[2].ActivityCfgRep.Input = map[string]interface{}{"in": "=$activity[T1].o"}
	r.Tasks[3].ActivityCfgRep.Input = map[string]interface{}{"in": "=$error[T1].message"}
	inputsOf(r, map[string]interface{}{"x": v, "n": nil, "e": ""})
	outcome := vsym.Choice("outcome", 6) // 0 completes, 1 returns data, 2 an error, 3 both, 4 fails, 5 has no tasks
	s := newGraphPre("s", "S", 2)
	s.addEdge(0, 1, kDep)
	h := newGraphPre("s", "H", 1)
	handler := false
	sr := s.rep()
	inputsOf(sr, map[string]interface{}{"a": d, "b": nil})
	outputs(sr, "o")
	if outcome == 4 {
		s.fails[0] = true
		s.how[0] = vsym.Choice("how", nFailures)
		if handler = vsym.Choice("handler", 2) == 1; handler {
			sr.ErrorHandler = h.handlerRep()
			h.fails[0] = vsym.Bool("handlerFails")
			before("s/H0", func(ctx activity.Context) { setAttr(ctx, "o", o) })
		}
	}
	if outcome == 5 {
		sr.Tasks, sr.Links = nil, nil
	}
	setFlows(provider{"sub": sr})
	before("f/T0", func(ctx activity.Context) {
		_ = ctx.SetOutput("out", w)
		setAttr(ctx, "mine", 1)
	})
	before("s/S0", func(ctx activity.Context) {
		vsym.Assert(sees(ctx, "$flow.a") == wantA && sees(ctx, "$flow.b") == wantB, "the subflow starts with the mapped inputs")
		vsym.Assert(sees(ctx, "$flow.x") == nil && sees(ctx, "$flow.mine") == nil && sees(ctx, "$activity[T0].out") == nil, "attributes of the calling flow are not visible in the subflow")
		setAttr(ctx, "o", o)
		setAttr(ctx, "x", 1)
		_ = ctx.SetOutput("out", 1)
		switch outcome {
		case 1:
			ctx.ActivityHost().Return(map[string]interface{}{"o": v}, nil)
		case 2:
			ctx.ActivityHost().Return(nil, errText("returned"))
		case 3:
			ctx.ActivityHost().Return(map[string]interface{}{"o": v}, errText("returned"))
		}
	})
	var got interface{}
	after := func(ctx activity.Context) {
		got = ctx.GetInput("in")
		vsym.Assert(sees(ctx, "$flow.o") == nil && sees(ctx, "$flow.a") == nil && sees(ctx, "$activity[S0].out") == nil && sees(ctx, "$flow.x") == v, "attributes of the subflow are not visible in the calling flow")
	}
	before("f/T2", after)
	before("f/T3", after)
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 16), "run ends")
	g.observe(inst.Status())
	s.observe(inst.Status())
	if outcome == 5 {
		// the declared output has no value
		vsym.Assert(s.evals[0] == 0 && g.evals[2] == 0 && g.evals[3] == 0 && inst.Status() == model.FlowStatusFailed, "ends once")
		return
	}
	vsym.Assert(s.evals[0] == 1, "the subflow is started once")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
	switch {
	case outcome == 0 || outcome == 1 || (outcome == 4 && handler && !h.fails[0]):
		vsym.Reach("completed")
		vsym.Assert(g.evals[2] == 1 && g.evals[3] == 0, "the task finishes once")
		if outcome == 1 {
			vsym.Reach("returned")
			vsym.Assert(got == v, "with the outputs of the subflow")
		} else {
			vsym.Assert(got == o, "with the outputs of the subflow")
		}
	default:
		vsym.Reach("failed")
		vsym.Assert(g.evals[2] == 0 && g.evals[3] == 1, "the task fails")
		want := "S0"
		if outcome == 2 || outcome == 3 {
			want = "returned"
		} else if handler {
			want = "H0"
		}
		vsym.Assert(got == want, "with the error of the subflow")
	}
}

// C12_Parallel: two or three tasks of a flow run the same or different subflows, with inputs and outputs of different names, at the same time, each with its own inputs;
// each of them completes or fails, with or without error link of its task. If all complete, the flow is run again.
//
// Shards: 4
// Reaches: flow completed, flow failed
func C12_Parallel() {
	n := 2 + vsym.Tier()
	g := newGraphPre("f", "T", 2*n+1)
	for i := 0; i < n; i++ {
		g.addEdge(i, n+i, kDep)
	}
	link := vsym.Choice("link", 2) == 1
	if link {
		for i := 0; i < n; i++ {
			g.addEdge(i, 2*n, kError)
		}
	}
	r := g.rep()
	same := vsym.Choice("same", 2) == 1
	p := provider{}
	var fails []bool
	var ran, done []int
	for i := 0; i < n; i++ {
		name, in, out := "s", "i", "o"
		if !same {
			name += string(rune('a' + i))
			in += string(rune('a' + i))
			out += string(rune('a' + i))
		}
		if p[name] == nil {
			s := newGraphPre(name, "S", 2)
			s.addEdge(0, 1, kDep)
			sr := s.rep()
			inputsOf(sr, map[string]interface{}{in: nil})
			outputs(sr, out)
			p[name] = sr
			before(name+"/S0", func(ctx activity.Context) {
				i := sees(ctx, "$flow."+in).(int)
				ran[i]++
				s.fails[0] = fails[i]
				_ = ctx.SetOutput("out", 100+i)
			})
			before(name+"/S1", func(ctx activity.Context) {
				i := sees(ctx, "$flow."+in).(int)
				done[i]++
				vsym.Assert(sees(ctx, "$activity[S0].out") == 100+i, "subflows do not see the data of each other")
				setAttr(ctx, out, 200+i)
			})
		}
		r.Tasks[i] = subflowTask(g.tn(i), name, map[string]interface{}{in: i}, false)
		r.Tasks[n+i].ActivityCfgRep.Input = map[string]interface{}{"in": "=$activity[" + g.tn(i) + "]." + out}
		i := i
		before("f/"+g.tn(n+i), func(ctx activity.Context) {
			vsym.Assert(ctx.GetInput("in") == 200+i, "each task gets the outputs of its subflow")
		})
		fails = append(fails, vsym.Bool("fails"))
		ran, done = append(ran, 0), append(done, 0)
	}
	setFlows(p)
	def := mustDef(r)
	inst := newInst(def)
	inst.Start(nil)
	vsym.Assert(drive(inst, 12*n), "run ends")
	g.observe(inst.Status())
	any := false
	for i := 0; i < n; i++ {
		any = any || fails[i]
	}
	if any && !link {
		vsym.Reach("flow failed")
		vsym.Assert(inst.Status() == model.FlowStatusFailed, "the flow fails")
		for i := 0; i < n; i++ {
			vsym.Assert(ran[i] <= 1 && done[i] <= 1 && (!fails[i] || g.evals[n+i] == 0), "subflows run at most once")
		}
		return
	}
	vsym.Reach("flow completed")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "the flow completes")
	nf := 0
	for i := 0; i < n; i++ {
		vsym.Assert(ran[i] == 1, "each subflow runs once")
		if fails[i] {
			nf++
			vsym.Assert(done[i] == 0 && g.evals[n+i] == 0, "a failed subflow fails its task")
		} else {
			vsym.Assert(done[i] == 1 && g.evals[n+i] == 1, "each task finishes once")
		}
	}
	if link {
		vsym.Assert((g.evals[2*n] == 1) == (nf > 0) && g.evals[2*n] <= 1, "the error link is followed")
	}
	if nf == 0 {
		inst = newInst(def)
		inst.Start(nil)
		vsym.Assert(drive(inst, 12*n) && inst.Status() == model.FlowStatusCompleted, "the flow completes each time")
		for i := 0; i < n; i++ {
			vsym.Assert(ran[i] == 2 && done[i] == 2 && g.evals[n+i] == 2, "each task finishes once in each run")
		}
	}
}

// C12_Nested: flow -> subflow -> subflow; the innermost flow completes or fails, and each flow around it has an
// error link, an error handler or neither.
//
// Shards: 4
// Reaches: completed, failed, recovered
func C12_Nested() {
	depth := 2 + vsym.Tier()
	var gs, hs []*graph
	var errs []int
	p := provider{}
	var first *definition.DefinitionRep
	fail := vsym.Bool("fail")
	how := vsym.Choice("how", nFailures)
	v := vsym.Int("v")
	for i := 0; i <= depth; i++ {
		name := "f" + string(rune('0'+i))
		g := newGraphPre(name, "T", 3)
		g.addEdge(0, 1, kDep)
		e := vsym.Choice("errors", 3)
		if e == 1 {
			g.addEdge(0, 2, kError)
		}
		r := g.rep()
		if e != 1 {
			r.Tasks = r.Tasks[:2]
		}
		h := newGraphPre(name, "H", 1)
		if e == 2 {
			r.ErrorHandler = h.handlerRep()
		}
		inputsOf(r, map[string]interface{}{"v": nil})
		outputs(r, "o")
		if i < depth {
			r.Tasks[0] = subflowTask("T0", "f"+string(rune('1'+i)), map[string]interface{}{"v": "=$flow.v"}, false)
			i := i
			before(name+"/T1", func(ctx activity.Context) {
				vsym.Assert(sees(ctx, "$activity[T0].o") == sees(ctx, "$flow.v").(int)+depth-i-1, "outputs reach the caller")
				setAttr(ctx, "o", sees(ctx, "$activity[T0].o").(int)+1)
			})
		} else {
			g.how[0] = how
			before(name+"/T0", func(ctx activity.Context) {
				g.fails[0] = fail
				vsym.Assert(sees(ctx, "$flow.v") == v, "inputs reach the innermost flow")
				setAttr(ctx, "o", v)
			})
		}
		if i == 0 {
			first = r
		} else {
			p[name] = r
		}
		gs, hs, errs = append(gs, g), append(hs, h), append(errs, e)
	}
	setFlows(p)
	inst := newInst(mustDef(first))
	inst.Start(map[string]interface{}{"v": v})
	recovered := -1
	if fail {
		for i := depth; i >= 0; i-- {
			if errs[i] != 0 {
				recovered = i
				break
			}
		}
	}
	// a flow that recovered does not give its output, which makes the task reading it fail
	if recovered >= 0 {
		vsym.Assume(recovered == 0)
	}
	vsym.Assert(drive(inst, 40), "run ends")
	for i, g := range gs {
		g.observe(inst.Status())
		n0, n1 := 1, 1
		if i < depth {
			n0 = 0 // the subflow activity itself is not counted
		}
		if fail {
			n1 = 0
		}
		vsym.Assert(g.evals[0] == n0 && g.evals[1] == n1, "each flow runs once, and on only after success")
		n2, nh := 0, 0
		if i == recovered && errs[i] == 1 {
			n2 = 1
		}
		if i == recovered && errs[i] == 2 {
			nh = 1
		}
		vsym.Assert(g.evals[2] == n2 && hs[i].evals[0] == nh, "the innermost flow that can handles the error")
	}
	_, err := inst.GetReturnData()
	if fail && recovered < 0 {
		vsym.Reach("failed")
		vsym.Assert(inst.Status() == model.FlowStatusFailed && err != nil && err.Error() == "T0", "the error reaches the caller")
		return
	}
	if fail {
		vsym.Reach("recovered")
	} else {
		vsym.Reach("completed")
	}
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && err == nil, "flow completes")
}

// C12_Missing: the flow to call does not exist or cannot be loaded.
func C12_Missing() {
	g, r := loopFlow(nil)
	r.Tasks[1] = subflowTask("T1", "sub", nil, vsym.Choice("detached", 2) == 1)
	link := vsym.Choice("link", 2) == 1
	if !link {
		r.Links = r.Links[:2]
		r.Tasks = r.Tasks[:3]
	}
	p := provider{}
	if vsym.Choice("broken", 2) == 1 {
		p["sub"] = &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "noSuchType")}}
	}
	initAction(nil, nil)
	setFlows(p)
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 16), "run ends")
	g.observe(inst.Status())
	vsym.Assert(g.evals[2] == 0, "the task fails")
	if link {
		vsym.Assert(inst.Status() == model.FlowStatusCompleted && g.evals[3] == 1, "the error link is followed")
	} else {
		vsym.Assert(inst.Status() == model.FlowStatusFailed, "the flow fails")
	}
}

// C12_Detached: a task starts a detached flow, which completes, fails in any way, or returns an error; it is started once
// with the mapped inputs and its caller goes on.
func C12_Detached() {
	v := vsym.Int("v")
	g, r := loopFlow(nil)
	r.Tasks[1] = subflowTask("T1", "res://flow:s", map[string]interface{}{"a": v}, true)
	s := newGraphPre("s", "S", 2)
	s.addEdge(0, 1, kDep)
	outcome := vsym.Choice("outcome", 2+nFailures)
	if outcome >= 2 {
		s.fails[0], s.how[0] = true, outcome-2
	}
	sr := s.rep()
	inputsOf(sr, map[string]interface{}{"a": nil})
	before("s/S0", func(ctx activity.Context) {
		vsym.Assert(sees(ctx, "$flow.a") == v && sees(ctx, "$activity[T0].out") == nil, "the detached flow starts with the mapped inputs")
		setAttr(ctx, "mine", 1)
		if outcome == 1 {
			ctx.ActivityHost().Return(nil, errText("returned"))
		}
	})
	before("f/T2", func(ctx activity.Context) {
		vsym.Assert(sees(ctx, "$flow.mine") == nil && sees(ctx, "$flow.a") == nil, "attributes of the detached flow are not visible")
	})
	initAction(nil, nil, mustDef(sr))
	_ = action.GetFactory("github.com/project-flogo/flow")
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 16), "run ends")
	vsym.Yield()
	g.observe(inst.Status())
	s.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "the calling flow completes")
	vsym.Assert(g.evals[2] == 1 && g.evals[3] == 0, "the caller goes on")
	vsym.Assert(s.evals[0] == 1, "the detached flow is started once")
	if outcome == 0 {
		vsym.Assert(s.evals[1] == 1, "the detached flow runs to its end")
	} else {
		vsym.Assert(s.evals[1] == 0, "the detached flow ends")
	}
}

// C12_DetachedCall: an activity starts a detached flow itself, with inputs or none, once or twice, or one there is not; each call starts the flow once and leaves
// the data it is given alone, that of a flow there is not is an error.
//
// Reaches: started, none
func C12_DetachedCall() {
	v := vsym.Int("v")
	in := []map[string]interface{}{nil, {}, {"a": v}, {"a": v, "b": v}, {"a": nil}}[vsym.Choice("in", 5)]
	n := len(in)
	uri, times := "res://flow:s", 1+vsym.Choice("times", 2)
	if vsym.Choice("gone", 2) == 1 {
		uri = "res://flow:gone"
	}
	var seen []interface{}
	*behaviourOf("s", "S0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		seen = append(seen, sees(ctx, "$flow.a"))
		vsym.Assert(sees(ctx, "$flow.c") == 5, "the detached flow starts with the inputs it is given")
		return true, nil
	}}
	sr := &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}
	inputsOf(sr, map[string]interface{}{"a": 7, "c": 5})
	g, r := loopFlow(nil)
	var errs []error
	before("f/T1", func(ctx activity.Context) {
		for i := 0; i < times; i++ {
			errs = append(errs, instance.StartDetachedSubFlow(ctx, uri, in))
		}
	})
	initAction(nil, nil, mustDef(sr))
	_ = action.GetFactory("github.com/project-flogo/flow")
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 16), "run ends")
	vsym.Yield()
	g.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && len(errs) == times && g.evals[2] == 1, "the calling flow completes")
	vsym.Assert(len(in) == n, "the data given to a detached flow is left alone")
	if uri != "res://flow:s" {
		vsym.Assert(errs[0] != nil && errs[times-1] != nil && len(seen) == 0, "a flow there is not cannot be started")
		vsym.Reach("none")
		return
	}
	vsym.Assert(errs[0] == nil && errs[times-1] == nil && len(seen) == times, "the detached flow is started once")
	for _, a := range seen {
		if n >= 1 {
			vsym.Assert(a == in["a"], "the detached flow starts with the inputs it is given")
		} else {
			vsym.Assert(a == 7, "the detached flow starts with the inputs it is given")
		}
	}
	vsym.Reach("started")
}

// C12_InHandler: the error handler of a flow, or of a flow it calls, calls a flow whose task fails or not, with or without an error handler
// of its own, which may fail or itself call a flow that fails or not.
//
// Shards: 2
// Reaches: recovered, failed
func C12_InHandler() {
	nested := vsym.Choice("nested", 2) == 1
	own := vsym.Choice("own", 4) // none, a task, a failing one, one that calls a flow
	linked := vsym.Choice("linked", 2) == 1
	fail, deepFail := vsym.Bool("fail"), vsym.Bool("deepFail")
	m := newGraphPre("m", "M", 2)
	m.addEdge(0, 1, kDep)
	m.fails[0] = true
	mr := m.rep()
	h := newGraphPre("m", "H", 3)
	h.addEdge(0, 1, kDep)
	if linked {
		h.addEdge(0, 2, kError)
	}
	mr.ErrorHandler = h.handlerRep()
	if !linked {
		mr.ErrorHandler.Tasks = mr.ErrorHandler.Tasks[:2]
	}
	behaviours["m/H0"] = hostBehaviour("sub", nil)
	s := newGraphPre("s", "S", 2)
	s.addEdge(0, 1, kDep)
	s.fails[0] = fail
	sr := s.rep()
	e := newGraphPre("s", "E", 2)
	e.addEdge(0, 1, kDep)
	if own > 0 {
		sr.ErrorHandler = e.handlerRep()
		e.fails[0] = own == 2
		if own == 3 {
			behaviours["s/E0"] = hostBehaviour("deep", nil)
		}
	}
	d := newGraphPre("d", "D", 1)
	d.fails[0] = deepFail
	dr := d.rep()
	main := mr
	c := newGraphPre("c", "C", 2)
	c.addEdge(0, 1, kDep)
	if nested {
		main = c.rep()
		behaviours["c/C0"] = hostBehaviour("m", nil)
	}
	setFlows(provider{"sub": sr, "deep": dr, "m": mr})
	inst := newInst(mustDef(main))
	inst.Start(nil)
	vsym.Assert(drive(inst, 60), "run ends")
	m.observe(inst.Status())
	h.observe(inst.Status())
	s.observe(inst.Status())
	e.observe(inst.Status())
	vsym.Assert(m.evals[0] == 1 && m.evals[1] == 0 && s.evals[0] == 1, "the subflow is started once")
	vsym.Assert((s.evals[1] == 1) == !fail, "the subflow goes on after a success")
	called := fail && own == 3
	vsym.Assert((d.evals[0] == 1) == called && d.evals[0] <= 1, "a flow is started once where it is called")
	if fail && (own == 1 || own == 2) {
		vsym.Assert(e.evals[0] == 1, "the error handler of the subflow handles its error")
	} else {
		vsym.Assert(e.evals[0] == 0, "an error handler runs only after a failure")
	}
	handled := own == 1 || own == 3 && !deepFail
	vsym.Assert((e.evals[1] == 1) == (fail && handled), "the error handler of the subflow goes on after a success")
	subFails := fail && !handled
	vsym.Assert((h.evals[1] == 1) == !subFails, "the calling task succeeds exactly if its subflow does")
	vsym.Assert((h.evals[2] == 1) == (subFails && linked), "the error link is followed exactly if the subflow fails")
	if subFails && !linked {
		vsym.Reach("failed")
		vsym.Assert(inst.Status() == model.FlowStatusFailed && c.evals[1] == 0, "a failure of the handler fails the flow")
	} else {
		vsym.Reach("recovered")
		vsym.Assert(inst.Status() == model.FlowStatusCompleted && (!nested || c.evals[1] == 1), "a handled failure completes the flow")
	}
}

// flaky is a provider that fails some of its first lookups.
type flaky struct {
	provider
	fails []bool
	n     int
}

func (f *flaky) GetFlow(uri string) (*definition.DefinitionRep, error) {
	f.n++
	if f.n <= len(f.fails) && f.fails[f.n-1] {
		return nil, errText("unreachable")
	}
	return f.provider.GetFlow(uri)
}

// C12_Flaky: a flow T0 -> T1 -> T2, T1 -> T3 on error, whose T1 calls, waiting or detached, a flow with a mapped input, the provider of which
// is unreachable for any of its first 4 lookups.
//
// Reaches: called, refused
func C12_Flaky() {
	v, d := vsym.Int("v"), vsym.Int("d")
	detached := vsym.Choice("detached", 2) == 1
	g, r := loopFlow(nil)
	r.Tasks[1] = subflowTask("T1", "sub", map[string]interface{}{"a": v}, detached)
	s := newGraphPre("s", "S", 1)
	sr := s.rep()
	inputsOf(sr, map[string]interface{}{"a": d})
	f := &flaky{provider: provider{"sub": sr}}
	for i := 0; i < 4; i++ {
		f.fails = append(f.fails, vsym.Bool("unreachable"))
	}
	before("s/S0", func(ctx activity.Context) {
		vsym.Assert(sees(ctx, "$flow.a") == v, "the subflow starts with the mapped inputs")
	})
	initAction(nil, nil)
	_ = action.GetFactory("github.com/project-flogo/flow")
	flowsupport.InitDefaultDefLookup(flowsupport.NewFlowManager(f), nil)
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 16), "run ends")
	vsym.Yield()
	g.observe(inst.Status())
	s.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
	vsym.Assert(g.evals[2] == s.evals[0] && g.evals[2]+g.evals[3] == 1, "the task fails exactly if the subflow is not started")
	if s.evals[0] == 1 {
		vsym.Reach("called")
	} else {
		vsym.Reach("refused")
	}
}

// C12_LoopScope: a task of a subflow iterates, repeats itself or is retried, up to 3 times, while the calling flow has
// attributes of the same names as the subflow: its inputs and settings refer to those of the subflow, each time.
//
// Reaches: iterated, repeated, retried
func C12_LoopScope() {
	v, w := vsym.Int("v"), vsym.Int("w")
	kind := vsym.Choice("kind", 3)
	n := vsym.Range("n", 1, 3)
	runs := 0
	t := task("S1", "")
	switch kind {
	case 0:
		t.Type = "iterator"
		t.Settings = map[string]interface{}{"iterate": "=$flow.n"}
		vsym.Reach("iterated")
	case 1:
		t.Type = "doWhile"
		t.Settings = map[string]interface{}{"condition": "=again"}
		exprs["again"] = func(scope data.Scope) (interface{}, error) {
			vsym.Assert(resolved(scope, "$flow.a") == v, "the condition refers to the subflow")
			return runs < n, nil
		}
		vsym.Reach("repeated")
	case 2:
		t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": "=$flow.n", "interval": 0}}
		vsym.Reach("retried")
	}
	t.ActivityCfgRep.Input = map[string]interface{}{"in": "=$flow.a"}
	g, r := loopFlow(nil)
	inputsOf(r, map[string]interface{}{"a": w, "n": 7})
	r.Tasks[1] = subflowTask("T1", "sub", map[string]interface{}{"a": v, "n": n}, false)
	s := newGraphPre("s", "S", 2)
	s.addEdge(0, 1, kDep)
	sr := s.rep()
	inputsOf(sr, map[string]interface{}{"a": nil, "n": nil})
	sr.Tasks[1] = t
	behaviours["s/S1"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		runs++
		vsym.Assert(ctx.GetInput("in") == v, "the inputs refer to the subflow")
		if kind == 2 && runs < n+1 {
			return false, activity.NewRetriableError("fails", "", nil)
		}
		return true, nil
	}}
	setFlows(provider{"sub": sr})
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 24), "run ends")
	g.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && g.evals[2] == 1 && g.evals[3] == 0, "the task finishes once")
	want := n
	if kind == 2 {
		want++
	}
	vsym.Assert(runs == want, "as often as the attributes of the subflow say")
}
