package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
)

// exec is one execution of an activity as seen from inside.
type exec struct {
	task          string
	in, in2, flow interface{}
	def           interface{}
	id            string
}

// trail is all that can be seen of a run.
type trail struct {
	execs  []exec
	tries  int
	status model.FlowStatus
	failed bool
	text   string
	out    interface{}
}

// dataOf is the data a run is started with.
type dataOf struct {
	v, n   int
	y, bad bool
}

func (d dataOf) inputs() map[string]interface{} {
	in := map[string]interface{}{"v": d.v, "n": d.n, "y": d.y, "bad": d.bad}
	if d.y {
		in["d"] = d.v // otherwise the default
	}
	return in
}

var trails map[string]*trail

// mainOf is the id of the independent instance an activity runs for.
func mainOf(ctx activity.Context) string {
	id := ctx.ActivityHost().ID()
	for i := 0; i < len(id); i++ {
		if id[i] == '-' {
			return id[:i]
		}
	}
	return id
}

const nProfiles = 9

// sharedSubs are the flows called by the last sharedFlow.
var sharedSubs provider

// sharedFlow describes a flow T0 -> T1, T1 -> T2 if y, T1 -> T3 otherwise, T2, T3 -> T5 and T1 -> T4 on error,
// whose task T1 is of one of several kinds.
func sharedFlow(profile, errs, bound int) *definition.Definition {
	g := newGraphPre("f", "T", 6)
	g.addEdge(0, 1, kDep)
	g.edges = append(g.edges, edge{1, 2, kExpr, "cond", true}, edge{1, 3, kOther, "", false})
	g.addEdge(2, 5, kDep)
	g.addEdge(3, 5, kDep)
	if errs == 1 {
		g.addEdge(1, 4, kError)
	}
	r := g.rep()
	inputsOf(r, map[string]interface{}{"v": nil, "n": 7, "y": nil, "bad": nil, "d": 5})
	outputs(r, "o")
	if errs == 2 {
		h := newGraphPre("f", "H", 1)
		r.ErrorHandler = h.handlerRep()
	}
	exprs["cond"] = func(s data.Scope) (interface{}, error) { return resolved(s, "$flow.y"), nil }
	exprs["again"] = func(s data.Scope) (interface{}, error) {
		return resolved(s, "$iteration[index]").(int)+1 < resolved(s, "$flow.n").(int), nil
	}
	exprs["retries"] = func(s data.Scope) (interface{}, error) { return bound + 1 - resolved(s, "$flow.n").(int), nil }
	exprs["none"] = func(s data.Scope) (interface{}, error) { return 0, nil }
	post := false
	in := map[string]interface{}{"in": "=$flow.v"}
	t := task("T1", "")
	switch profile {
	case 0:
	case 1:
		t = iterTask("T1", "=$flow.n")
		in["in"] = "=$iteration[index]"
	case 2:
		t = iterTask("T1", []interface{}{5, 6})
		in["in"] = "=$iteration[value]"
	case 3:
		t = doWhileTask("T1", "again", 0, nil)
		in["in"] = "=$iteration[index]"
	case 4:
		t = doWhileTask("T1", "again", 0, map[string]interface{}{"accumulate": true})
		in["in"] = "=$iteration[index]"
	case 5:
		t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": "=retries", "interval": "=none"}}
	case 6:
		t = subflowTask("T1", "sub", in, false)
	case 7:
		post = true
		t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": "=retries"}}
	case 8:
		t = iterTask("T1", "=$flow.n")
		t.Settings = map[string]interface{}{"iterate": "=$flow.n", "accumulate": true}
		in["in"] = "=$iteration[index]"
	}
	t.ActivityCfgRep.Input = in
	r.Tasks[1] = t
	r.Tasks[5].ActivityCfgRep.Input = map[string]interface{}{"in": "=$flow.mine", "num": 3}
	r.Tasks[2].ActivityCfgRep.Input = map[string]interface{}{"in": "=$activity[T1].out"}
	r.Tasks[3].ActivityCfgRep.Input = map[string]interface{}{"in": "=$activity[T1].out"}
	if profile == 4 || profile == 8 {
		// lists, which are compared below
		r.Tasks[2].ActivityCfgRep.Input, r.Tasks[3].ActivityCfgRep.Input = nil, nil
	}
	if errs != 1 {
		r.Tasks = append(append([]*definition.TaskRep{}, r.Tasks[:4]...), r.Tasks[5])
	}
	see := func(ctx activity.Context) *trail {
		tr := trails[mainOf(ctx)]
		e := exec{task: ctx.ActivityHost().Name() + "/" + idOf(ctx.Name()), in: ctx.GetInput("in"), in2: ctx.GetInput("num")}
		e.flow = sees(ctx, "$flow.v")
		e.def = sees(ctx, "$flow.d")
		tr.execs = append(tr.execs, e)
		return tr
	}
	for _, b := range []string{"f/T0", "f/T2", "f/T3", "f/T4", "f/T5", "f/H0", "s/S0"} {
		b := b
		behaviours[b] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			tr := see(ctx)
			vsym.Assert(sees(ctx, "$flow.mine") == nil || b == "f/T2" || b == "f/T3" || b == "f/T4" || b == "f/T5" || b == "f/H0", "attributes set in another run are not seen")
			vsym.Assert(sees(ctx, "$activity["+idOf(ctx.Name())+"].out2") == nil, "outputs of another run are not seen")
			_ = ctx.SetOutput("out2", 1)
			if l, ok := sees(ctx, "$activity[T1]").([]interface{}); ok {
				for _, x := range l {
					m, _ := x.(map[string]interface{})
					tr.execs = append(tr.execs, exec{task: "acc", in: m["out"]})
				}
			}
			v := sees(ctx, "$flow.v").(int)
			switch b {
			case "f/T0":
				_ = ctx.SetOutput("out", v)
			case "s/S0":
				setAttr(ctx, "out", v+1)
				if bad, _ := sees(ctx, "$flow.bad").(bool); bad {
					return false, errText("sub")
				}
			case "f/T5", "f/T4", "f/H0":
				setAttr(ctx, "o", v+len(tr.execs))
			case "f/T2", "f/T3":
				setAttr(ctx, "mine", v)
			}
			return true, nil
		}}
	}
	work := func(ctx activity.Context) (bool, error) {
		tr := see(ctx)
		tr.tries++
		v, n := sees(ctx, "$flow.v").(int), sees(ctx, "$flow.n").(int)
		setAttr(ctx, "mine", tr.tries)
		_ = ctx.SetOutput("out", v+10*tr.tries)
		if (profile == 5 || profile == 7) && tr.tries <= n {
			return false, activity.NewRetriableError("again", "", nil)
		}
		if bad, _ := sees(ctx, "$flow.bad").(bool); bad {
			return false, errText("bad")
		}
		return true, nil
	}
	behaviours["f/T1"] = &Behaviour{Eval: work}
	if post {
		behaviours["f/T1"] = &Behaviour{Post: work, Eval: func(ctx activity.Context) (bool, error) { see(ctx); return false, nil }}
	}
	sr := &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}
	inputsOf(sr, map[string]interface{}{"v": nil, "in": nil})
	outputs(sr, "out")
	if profile == 6 {
		t.ActivityCfgRep.Input = map[string]interface{}{"v": "=$flow.v", "bad": "=$flow.bad"}
		inputsOf(sr, map[string]interface{}{"v": nil, "bad": nil})
	}
	sharedSubs = provider{"sub": sr}
	setFlows(sharedSubs)
	return mustDef(r)
}

// aRun is one run that can be continued by single steps.
type aRun struct {
	id   string
	inst *instance.IndependentInstance
	over bool
}

func begin(id string, def *definition.Definition, d dataOf) *aRun {
	trails[id] = &trail{}
	r := &aRun{id: id, inst: newInstID(id, def)}
	r.inst.Start(d.inputs())
	return r
}

func (r *aRun) step() {
	if r.over {
		return
	}
	if r.inst.Status() >= model.FlowStatusCompleted || !r.inst.DoStep() {
		r.over = true
	}
}

func (r *aRun) end(bound int) *trail {
	for i := 0; i < bound && !r.over; i++ {
		r.step()
	}
	vsym.Assert(r.over, "run ends")
	tr := trails[r.id]
	tr.status = r.inst.Status()
	out, err := r.inst.GetReturnData()
	tr.out = out["o"]
	tr.failed = err != nil
	if err != nil {
		tr.text = err.Error()
	}
	return tr
}

func (t *trail) same(o *trail, what string) {
	vsym.Assert(len(t.execs) == len(o.execs), what+" runs the same tasks")
	for i, e := range t.execs {
		p := o.execs[i]
		vsym.Assert(e.task == p.task, what+" runs the same tasks")
		vsym.Assert(e.in == p.in && e.in2 == p.in2 && e.flow == p.flow && e.def == p.def, what+" runs with the same data")
	}
	vsym.Assert(t.status == o.status && t.failed == o.failed && t.text == o.text && t.out == o.out, what+" ends the same")
}

func someData(name string, bound int) dataOf {
	return dataOf{vsym.Int(name + "v"), vsym.Range(name+"n", 1, bound), vsym.Bool(name + "y"), vsym.Bool(name + "bad")}
}

// C13_Interleaved: a flow whose middle task is plain, asynchronous, retried, iterates, repeats, accumulates or calls a
// subflow, with error link, error handler or neither, is run twice with arbitrary data (loop counts up to the bound of 2,
// thorough 3), one run after the other and with up to 3 (thorough 5) switches, after any step, between the two; then a third time.
//
// Shards: 9
// Timeout: 300
// Reaches: interleaved, failed, completed
func C13_Interleaved() {
	bound := 2 + vsym.Tier()
	profile := vsym.Choice("profile", nProfiles)
	errs := vsym.Choice("errors", 3)
	def := sharedFlow(profile, errs, bound)
	trails = map[string]*trail{}
	d0, d1 := someData("a", bound), someData("b", bound)
	// what the runs give when they are alone: with a definition nothing else has used
	alone0 := begin("alone0", sharedFlow(profile, errs, bound), d0).end(40)
	alone1 := begin("alone1", sharedFlow(profile, errs, bound), d1).end(40)
	a, b := begin("a", def, d0), begin("b", def, d1)
	max := 3 + 2*vsym.Tier()
	turns := 0
	for turns < max && !a.over && !b.over {
		x := a
		if turns%2 == 1 {
			x = b
		}
		for !x.over {
			x.step()
			if !x.over && vsym.Choice("switch", 2) == 1 {
				break
			}
		}
		turns++
	}
	if turns > 2 {
		vsym.Reach("interleaved")
	}
	ta, tb := a.end(40), b.end(40)
	vsym.Observe("runs", len(ta.execs), len(tb.execs), int(ta.status), int(tb.status))
	if ta.status == model.FlowStatusFailed {
		vsym.Reach("failed")
	} else {
		vsym.Reach("completed")
	}
	alone0.same(ta, "the first of two runs")
	alone1.same(tb, "the second of two runs")
	alone0.same(begin("c", def, d0).end(40), "a run after others")
}
