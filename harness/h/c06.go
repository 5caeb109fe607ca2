package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/metadata"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
)

// outputs declares outputs of a flow.
func outputs(r *definition.DefinitionRep, names ...string) {
	if r.Metadata == nil {
		r.Metadata = &metadata.IOMetadata{}
	}
	r.Metadata.Output = make(map[string]data.TypedValue)
	for _, n := range names {
		r.Metadata.Output[n] = data.NewAttribute(n, data.TypeAny, nil)
	}
}

// before runs f first whenever the task runs.
func before(task string, f func(ctx activity.Context)) {
	old := behaviours[task].Eval
	behaviours[task].Eval = func(ctx activity.Context) (bool, error) {
		f(ctx)
		return old(ctx)
	}
}

// C06_Return: flow M0 -> M1 -> M2 with an independent task M3; M2 is entered, or skipped, by an
// expression link. One of the tasks, or a task of the error handler of a failing M1, returns
// data, an error or both. The flow is run by itself or as a subflow, with or without listener.
//
// Shards: 4
// Reaches: returned, ended
func C06_Return() {
	m := newGraphPre("f", "M", 4)
	m.addEdge(0, 1, kDep)
	m.addEdge(1, 2, kExpr)
	h := newGraphPre("f", "H", 2)
	h.addEdge(0, 1, kDep)
	r := m.rep()
	outputs(r, "out")
	at := vsym.Choice("at", 7) // 4, 5: tasks of the handler, 6: nowhere
	if at == 4 || at == 5 {
		r.ErrorHandler = h.handlerRep()
		m.fails[1] = true
	}
	v := vsym.Int("v")
	withErr := vsym.Bool("err")
	ret := func(ctx activity.Context) {
		var e error
		if withErr {
			e = errText("returned")
		}
		ctx.ActivityHost().Return(map[string]interface{}{"out": v, "out2": "x"}, e)
	}
	if at < 4 {
		before("f/"+m.tn(at), ret)
	} else if at < 6 {
		before("f/"+h.tn(at-4), ret)
	}
	sub := vsym.Choice("sub", 2) == 1
	c := newGraphPre("c", "C", 4) // C3 is independent
	c.addEdge(0, 1, kDep)
	c.addEdge(0, 2, kError)
	def := r
	var got, got2 interface{}
	if sub {
		setFlows(provider{"sub": r})
		def = c.rep()
		behaviours["c/C0"] = hostBehaviour("sub", nil)
		before("c/C1", func(ctx activity.Context) {
			s := ctx.ActivityHost().Scope()
			if v, ok := s.GetValue("_A.C0.out"); ok {
				got = v
			}
			if v, ok := s.GetValue("_A.C0.out2"); ok {
				got2 = v
			}
		})
	}
	if vsym.Choice("listen", 2) == 1 {
		listen()
		defer stopListening()
	}
	inst := newInst(mustDef(def))
	inst.Start(nil)
	vsym.Assert(drive(inst, 24), "run ends")
	m.observe(inst.Status())
	h.observe(inst.Status())

	// what ran
	returned := at < 6 && (at != 2 || m.edges[1].cond) // the returning task runs
	ran := append([]int(nil), m.evals...)
	for i := range ran {
		vsym.Assert(ran[i] <= 1, "task runs once")
	}
	switch {
	case at == 6 || !returned:
		vsym.Assert(ran[0] == 1 && ran[1] == 1 && (ran[2] == 1) == m.edges[1].cond && ran[3] == 1, "without return everything runs")
	case at < 4:
		p := -1
		for x, t := range m.order {
			if t == at {
				p = x
			}
		}
		vsym.Assert(p == len(m.order)-1, "nothing runs after the return")
	case at == 4:
		vsym.Assert(h.evals[0] == 1 && h.evals[1] == 0, "nothing runs after the return in the handler")
	case at == 5:
		vsym.Assert(h.evals[0] == 1 && h.evals[1] == 1, "handler runs up to the return")
	}
	// what was returned
	if !sub {
		d, err := inst.GetReturnData()
		vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
		if returned {
			vsym.Reach("returned")
			vsym.Assert(len(d) == 2 && d["out"] == v && d["out2"] == "x", "exactly the returned data")
			vsym.Assert((err != nil) == withErr && (err == nil || err.Error() == "returned"), "exactly the returned error")
		} else {
			vsym.Reach("ended")
			vsym.Assert(len(d) == 0 && err == nil, "nothing is given back")
		}
		return
	}
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "calling flow completes")
	if returned && withErr {
		vsym.Assert(c.evals[1] == 0 && c.evals[2] == 1, "a returned error fails the calling task")
		return
	}
	vsym.Assert(c.evals[1] == 1 && c.evals[2] == 0, "calling task succeeds")
	if returned {
		vsym.Assert(got == v && got2 == "x", "calling task has the returned data")
	} else {
		vsym.Assert(got == nil && got2 == nil, "calling task has no data")
	}
}

// C06_Outputs: a flow of two linked tasks, each of which sets one of the attributes a, b, c or none,
// with attribute values given as inputs or not; the flow declares outputs a and b (b may be declared as
// input with default, too). It is run by itself or as subflow, with or without listener.
//
// Shards: 4
func C06_Outputs() {
	m := newGraphPre("f", "M", 2)
	m.addEdge(0, 1, kDep)
	r := m.rep()
	outputs(r, "out", "out2")
	want := map[string]interface{}{}
	if vsym.Choice("default", 2) == 1 {
		d := vsym.Int("d")
		r.Metadata.Input = map[string]data.TypedValue{"out2": data.NewAttribute("out2", data.TypeInt, d)}
		want["out2"] = d
	}
	names := []string{"out", "out2", "other"}
	in := map[string]interface{}{}
	if k := vsym.Choice("input", 4); k < 3 {
		in[names[k]] = vsym.Int("i")
		want[names[k]] = in[names[k]]
	}
	for i := 0; i < 2; i++ {
		if k := vsym.Choice("set"+m.tn(i), 4); k < 3 {
			v := vsym.Int("v" + m.tn(i))
			n := names[k]
			want[n] = v
			before("f/"+m.tn(i), func(ctx activity.Context) {
				_ = ctx.ActivityHost().Scope().SetValue(n, v)
			})
		}
	}
	delete(want, "other")
	sub := vsym.Choice("sub", 2) == 1
	if vsym.Choice("listen", 2) == 1 {
		listen()
		defer stopListening()
	}
	got := map[string]interface{}{}
	if sub {
		setFlows(provider{"sub": r})
		c := newGraphPre("c", "C", 2)
		c.addEdge(0, 1, kDep)
		cr := c.rep()
		behaviours["c/C0"] = hostBehaviour("sub", in)
		before("c/C1", func(ctx activity.Context) {
			for _, n := range []string{"out", "out2"} {
				if v, ok := ctx.ActivityHost().Scope().GetValue("_A.C0." + n); ok {
					got[n] = v
				}
			}
		})
		inst := newInst(mustDef(cr))
		inst.Start(nil)
		vsym.Assert(drive(inst, 24) && c.evals[1] == 1, "run ends")
	} else {
		inst := newInst(mustDef(r))
		inst.Start(in)
		vsym.Assert(drive(inst, 24), "run ends")
		d, err := inst.GetReturnData()
		vsym.Assert(err == nil, "no error")
		for k, v := range d {
			got[k] = v
		}
	}
	vsym.Observe("n", len(got))
	vsym.Assert(len(got) == len(want), "exactly the outputs that are set")
	for k, v := range want {
		vsym.Assert(got[k] == v, "output has the value of the attribute at the end")
	}
}

// C06_Reply: one task of a flow M0 -> M1, M2 replies data, possibly empty or none, or an error, once or twice, and the
// flow may later fail or return data itself.
//
// Shards: 2
func C06_Reply() {
	m := newGraphPre("f", "M", 3)
	m.addEdge(0, 1, kDep)
	r := m.rep()
	at := vsym.Choice("at", 3)
	m.fails[1] = vsym.Bool("fail")
	vsym.Assume(!(at == 1 && m.fails[1]))
	v := vsym.Int("v")
	withErr := vsym.Bool("err")
	n := 1 + vsym.Choice("n", 2)
	ret := vsym.Choice("return", 2) == 1
	data := vsym.Choice("data", 3) // 1: empty, 2: none
	pos := 0
	before("f/M1", func(ctx activity.Context) {
		if ret {
			ctx.ActivityHost().Return(map[string]interface{}{"out": "returned"}, nil)
		}
	})
	before("f/"+m.tn(at), func(ctx activity.Context) {
		pos = len(runLog)
		for i := 0; i < n; i++ {
			if withErr {
				ctx.ActivityHost().Reply(nil, errText("replied"))
			} else if data == 2 {
				ctx.ActivityHost().Reply(nil, nil)
			} else if data == 1 {
				ctx.ActivityHost().Reply(map[string]interface{}{}, nil)
			} else {
				ctx.ActivityHost().Reply(map[string]interface{}{"out": v}, nil)
			}
		}
	})
	initAction(nil, nil, mustDef(r))
	o, err := runAct(newAction("res://flow:f"), nil, &instance.RunOptions{})
	vsym.Assert(err == nil, "run starts")
	vsym.Observe("results", len(o.results), o.done)
	replied := m.evals[at] == 1
	vsym.Assert(m.evals[0] == 1 && m.evals[1] == 1 || (m.evals[0] == 0 && !replied) || at == 2, "a reply does not end the flow")
	if !m.fails[1] && !ret {
		vsym.Assert(m.evals[0] == 1 && m.evals[1] == 1 && m.evals[2] == 1, "all tasks run")
	}
	if replied {
		vsym.Assert(len(o.results) == n+1, "every reply is delivered")
		for i := 0; i < n; i++ {
			vsym.Assert(o.ranAt[i] == pos, "reply is delivered immediately")
			if withErr {
				vsym.Assert(o.errs[i] != nil && o.errs[i].Error() == "replied" && o.results[i] == nil, "exactly the replied error")
			} else {
				vsym.Assert(o.errs[i] == nil && len(o.results[i]) == btoi(data == 0) && (data > 0 || o.results[i]["out"] == v), "exactly the replied data")
			}
		}
	}
	last := len(o.results) - 1
	if m.evals[1] == 1 {
		if m.fails[1] {
			vsym.Assert(o.errs[last] != nil, "flow fails after the reply")
		} else if ret {
			vsym.Assert(o.errs[last] == nil && o.results[last]["out"] == "returned", "returned data after the reply")
		}
	}
}

// setAttr sets an attribute of the flow of the activity.
func setAttr(ctx activity.Context, name string, v interface{}) {
	_ = ctx.ActivityHost().Scope().SetValue(name, v)
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// C06_Loops: a task calls a flow of three independent tasks, by the subflow activity in a loop of up to 3 iterations, or again after an error that can be retried; any of
// the three returns data, in any of the runs. Nothing of that run is executed after the return, and what it gave back is what the caller sees.
//
// Reaches: returned
func C06_Loops() {
	at, when := vsym.Choice("at", 4), vsym.Range("when", -1, 2) // -1: in all runs, at 3: in none
	retry := vsym.Choice("retry", 2) == 1
	v := vsym.Int("v")
	p := newGraphPre("s", "S", 3)
	sr := p.rep()
	outputs(sr, "out")
	setFlows(provider{"sub": sr})
	runs := map[string]int{}
	var returned, seen []string
	for i := 0; i < 3; i++ {
		i := i
		before("s/"+p.tn(i), func(ctx activity.Context) {
			id := ctx.ActivityHost().ID()
			if _, ok := runs[id]; !ok {
				runs[id] = len(runs)
			}
			for _, r := range returned {
				vsym.Assert(r != id, "nothing runs after the return")
			}
			seen = append(seen, id)
			if at == i && (when < 0 || when == runs[id]) {
				vsym.Reach("returned")
				returned = append(returned, id)
				ctx.ActivityHost().Return(map[string]interface{}{"out": v + runs[id]}, nil)
			}
		})
	}
	n := vsym.Range("n", 1, 3)
	t := subflowTask("T1", "sub", nil, false)
	var last interface{}
	if retry {
		t = task("T1", "")
		t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": n - 1, "interval": 0}}
	} else {
		t.Type = "iterator"
		t.Settings = map[string]interface{}{"iterate": n}
	}
	g, r := loopFlow(t)
	before("f/T2", func(ctx activity.Context) { last = sees(ctx, "$activity[T1].out") })
	if retry {
		tries := 0
		behaviours["f/T1"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			return false, instance.StartSubFlow(ctx, "sub", map[string]interface{}{})
		}, Post: func(ctx activity.Context) (bool, error) {
			if tries++; tries < n {
				return false, activity.NewRetriableError("again", "", nil)
			}
			return true, nil
		}}
	}
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 60), "run ends")
	p.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && g.evals[2] == 1, "calling task succeeds")
	vsym.Assert(len(runs) == n, "the flow is run as often as it is called")
	for id, k := range runs {
		early, count := false, 0
		for _, r := range returned {
			early = early || r == id
		}
		for _, s := range seen {
			if s == id {
				count++
			}
		}
		vsym.Assert(early || count == 3, "without return everything runs")
		if k == n-1 && early && !retry {
			vsym.Assert(last == v+k, "calling task has the returned data")
		}
	}
}
