package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
)

// reference is a reference and what it gives; only in an iteration, or in a do-while loop, if so marked.
type reference struct {
	text string
	want interface{}
	ok   bool
	in   int
}

const (
	inAny = iota
	inIteration
	inEither // either kind of loop
)

// Positions in which a reference can stand.
const (
	pInput = iota
	pTemplate
	pIterInput
	pLink
	pWhile
	pIterate
	pRetry
	pRetryIter
	pSubflow
	nPositions
)

// cloned is a deep copy.
func cloned(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := make(map[string]interface{})
		for k, e := range x {
			m[k] = cloned(e)
		}
		return m
	case []interface{}:
		l := make([]interface{}, len(x))
		for i, e := range x {
			l[i] = cloned(e)
		}
		return l
	}
	return v
}

// C23_Forms: a flow, run on its own or as the subflow of an iterating task of a flow with equally named inputs,
// tasks and outputs, in which a task has outputs (nested data with arbitrary values), one has failed, and one
// has accumulated; a reference of any form, to something that exists, be it null, or not (a field that an object lacks is nothing), stands in the
// inputs of a task, inside a template, in the inputs of an iterating task or a subflow, in the condition of a link or a loop, in the value iterated
// over, or in the settings of a retry of a task that iterates or not.
//
// Shards: 8
// Reaches: resolved, unresolved, iterating, in a subflow
func C23_Forms() {
	x, k, l1, k0, k2, u0, u1 := vsym.Int("x"), vsym.Int("k"), vsym.Int("l1"), vsym.Int("k0"), vsym.Int("k2"), vsym.Int("u0"), vsym.Int("u1")
	sub := vsym.Bool("subflow")
	at := vsym.Choice("position", nPositions)
	outer := vsym.Int("outer")
	vsym.Setenv("C23_SET", "value")
	vsym.Unsetenv("C23_UNSET")

	name, id, parent, pid := "f", "inst", "", ""
	if sub {
		id, parent, pid = "inst-1", "main", "inst"
		vsym.Reach("in a subflow")
	}
	acc := []interface{}{map[string]interface{}{"out": 0}, map[string]interface{}{"out": 1}}
	errObj := map[string]interface{}{"activity": nameOf("E"), "message": "went wrong", "type": "activity", "code": "c1", "data": map[string]interface{}{"k": k2}}
	refs := []reference{
		{"$flow.x", x, true, 0}, {"$.x", x, true, 0}, {"$flow.m.k", k, true, 0}, {"$.m.k", k, true, 0}, {"$flow.l[1]", l1, true, 0},
		{"$flow.m.l[0].k", k, true, 0}, {"$flow.iteration", k, true, 0}, {"$.iteration", k, true, 0},
		{"$flow.null", nil, true, 0}, {"$.null", nil, true, 0},
		{"$flow.none", nil, false, 0}, {"$.none", nil, false, 0}, {"$flow.x.k", nil, false, 0}, {"$flow.l[7]", nil, false, 0}, {"$flow.out", nil, false, 0},
		{"$activity[T0].out.k", k0, true, 0}, {"$activity['T0'].out.k", k0, true, 0}, {"$activity[T0].out2", x, true, 0},
		{"$activity[T0].num", nil, false, 0}, {"$activity[T0].x", nil, false, 0}, {"$activity[T0].m.k", nil, false, 0}, {"$activity[T0].none", nil, false, 0}, {"$activity[TX].out", nil, false, 0}, {"$activity[Q].out", nil, false, 0},
		{"$activity[A]", acc, true, 0}, {"$activity[A][1].out", 1, true, 0}, {"$activity[T0]", nil, false, 0}, {"$activity[E].out", nil, false, 0},
		{"$error.message", "went wrong", true, 0}, {"$error.activity", nameOf("E"), true, 0}, {"$error.code", "c1", true, 0}, {"$error.data.k", k2, true, 0}, {"$error.data", errObj["data"], true, 0},
		{"$error[E].message", "went wrong", true, 0}, {"$error[E].data.k", k2, true, 0}, {"$error[E].code", "c1", true, 0}, {"$error[T0].message", nil, false, 0}, {"$error[TX].code", nil, false, 0},
		{"$iteration[key]", nil, true, inIteration}, {"$iteration[value]", nil, true, inIteration}, {"$iteration[value].k", nil, true, inIteration}, {"$iteration[index]", nil, true, inEither},
		{"$flow.m.none", nil, true, 0}, {"$flow.m.none.k", nil, false, 0}, {"$error.none", nil, true, 0}, {"$error[none]", nil, false, 0},
		{"$flowctx[FlowName]", name, true, 0}, {"$flowctx[FlowId]", id, true, 0}, {"$flowctx[ParentFlowName]", parent, true, 0}, {"$flowctx[ParentFlowId]", pid, true, 0},
		{"$flowctx[TraceId]", "", true, 0}, {"$flowctx[Nothing]", nil, false, 0},
		{"$env[C23_SET]", "value", true, 0},
	}
	ref := refs[vsym.Choice("reference", len(refs))]

	g := newGraphPre("f", "T", 1)
	r := g.rep()
	e, a, p, q, h := task("E", ""), task("A", "iterator"), task("P", ""), task("Q", ""), task("X", "")
	r.Tasks = append(r.Tasks, e, a, p, q, h, task("B", ""))
	r.Links = []*definition.LinkRep{link("T0", "E", "", ""), link("E", "A", "error", ""), link("A", "B", "", ""), link("P", "Q", "", ""), link("P", "X", "error", ""), link("B", "P", "", "")}
	a.Settings = map[string]interface{}{"iterate": 2, "accumulate": true}
	inputsOf(r, map[string]interface{}{"null": nil, "x": nil, "m": nil, "l": nil, "iteration": nil})

	var scopes data.Scope
	var attrs map[string]interface{}
	attrsOf := func() map[string]interface{} {
		m := map[string]interface{}{}
		for _, n := range []string{"x", "m", "l", "_A.T0.out", "_A.T0.out2", "_A.A", "_E.E", "_fctx.FlowName", "_fctx.FlowId", "_fctx.ParentFlowName"} {
			if v, ok := scopes.GetValue(n); ok {
				m[n] = cloned(v)
			}
		}
		return m
	}
	ns := 0 // number of accumulated runs
	before("f/T0", func(ctx activity.Context) {
		scopes = ctx.ActivityHost().Scope()
		_ = ctx.SetOutput("out", map[string]interface{}{"k": k0})
		_ = ctx.SetOutput("out2", x)
	})
	behaviours["f/E"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		return false, activity.NewError("went wrong", "c1", map[string]interface{}{"k": k2})
	}}
	behaviours["f/A"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		_ = ctx.SetOutput("out", ns)
		ns++
		return true, nil
	}}
	behaviours["f/B"] = &Behaviour{Eval: func(activity.Context) (bool, error) { attrs = attrsOf(); return true, nil }}
	if at == pRetry || at == pRetryIter {
		// by then the last error is the one that is retried
		for t, want := range map[string]interface{}{"message": "again", "activity": nameOf("P"), "code": "", "data": nil} {
			if ref.text == "$error."+t {
				ref.want = want
			}
		}
		ref.ok = ref.ok && ref.text != "$error.data.k"
	}
	iterating := false // P iterates over two values
	looping := at == pWhile
	runs, tries := 0, 0
	good := ref.ok
	index := func() interface{} {
		if looping {
			return runs - 1
		}
		return runs
	}
	check := func(v interface{}, in int) {
		want := ref.want
		switch ref.text {
		case "$iteration[key]", "$iteration[index]":
			want = index()
		case "$iteration[value]":
			want = map[string]interface{}{"k": []interface{}{u0, u1}[in]}
		case "$iteration[value].k":
			want = []interface{}{u0, u1}[in]
		}
		vsym.Reach("resolved")
		vsym.Assert(same(v, want), "a reference gives the value it names")
	}
	used, failed := 0, 0
	exprs["probe"] = func(s data.Scope) (interface{}, error) {
		used++
		v, err := definition.GetDataResolver().Resolve(ref.text, s)
		if err != nil {
			failed++
			return nil, err
		}
		check(v, 0)
		switch at {
		case pWhile:
			return runs < 2, nil
		case pIterate:
			return 1, nil
		case pRetry, pRetryIter:
			return 1, nil
		}
		return true, nil
	}
	val := func(ctx activity.Context) interface{} {
		v := ctx.GetInput("in")
		if at == pTemplate {
			m, _ := v.(map[string]interface{})
			return m["field"]
		}
		return v
	}
	behaviours["f/P"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		switch at {
		case pInput, pTemplate, pIterInput:
			used++
			check(val(ctx), runs)
		case pRetry, pRetryIter:
			tries++
			if tries == 1 {
				return false, activity.NewRetriableError("again", "", nil)
			}
		}
		runs++
		return true, nil
	}}
	switch at {
	case pInput:
		p.ActivityCfgRep.Input = map[string]interface{}{"in": "=" + ref.text}
	case pTemplate:
		p.ActivityCfgRep.Input = map[string]interface{}{"in": map[string]interface{}{"mapping": map[string]interface{}{"field": "=" + ref.text}}}
	case pIterInput:
		iterating = true
		p.Type = "iterator"
		p.Settings = map[string]interface{}{"iterate": []interface{}{map[string]interface{}{"k": u0}, map[string]interface{}{"k": u1}}}
		p.ActivityCfgRep.Input = map[string]interface{}{"in": "=" + ref.text}
	case pLink:
		r.Links[3].Type, r.Links[3].Value = "expression", "probe"
	case pWhile:
		p.Type = "doWhile"
		p.Settings = map[string]interface{}{"condition": "probe"}
	case pIterate:
		p.Type = "iterator"
		p.Settings = map[string]interface{}{"iterate": "=probe"}
	case pRetry, pRetryIter:
		p.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": "=probe"}}
		if vsym.Choice("which", 2) == 1 {
			p.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": 1, "interval": "=probe"}}
		}
		if at == pRetryIter {
			iterating = true
			p.Type = "iterator"
			p.Settings["iterate"] = []interface{}{map[string]interface{}{"k": u0}, map[string]interface{}{"k": u1}}
		}
	case pSubflow:
		r.Tasks[3] = subflowTask("P", "leaf", map[string]interface{}{"a": "=" + ref.text}, false)
	}
	if ref.in == inIteration && !iterating || ref.in == inEither && !iterating && !looping {
		good = false
	}
	if ref.ok && ref.in != inAny && good {
		vsym.Reach("iterating")
	}
	leaf := &definition.DefinitionRep{Name: "leaf", Tasks: []*definition.TaskRep{task("L", "")}}
	inputsOf(leaf, map[string]interface{}{"a": nil})
	behaviours["leaf/L"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		used++
		v, ok := ctx.ActivityHost().Scope().GetValue("a")
		vsym.Assert(ok, "the subflow has its input")
		check(v, 0)
		return true, nil
	}}
	okRuns := 0
	afterwards := func(activity.Context) { vsym.Assert(same(attrsOf(), attrs), "resolving changes nothing") }
	behaviours["f/Q"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) { okRuns++; afterwards(ctx); return true, nil }}
	badRuns := 0
	behaviours["f/X"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) { badRuns++; return true, nil }}

	in := map[string]interface{}{"null": nil, "iteration": k, "x": x, "m": map[string]interface{}{"k": k, "l": []interface{}{map[string]interface{}{"k": k}}}, "l": []interface{}{0, l1}}
	flows := provider{"leaf": leaf, "f": r}
	setFlows(flows)
	var inst *instance.IndependentInstance
	if sub {
		// the calling flow has tasks, outputs, an error and an iteration of its own
		mr := &definition.DefinitionRep{Name: "main", Tasks: []*definition.TaskRep{task("T0", ""), task("TX", ""), subflowTask("Q", "f", nil, false)}}
		mr.Tasks[2].Type = "iterator"
		mr.Tasks[2].Settings = map[string]interface{}{"iterate": []interface{}{outer}}
		mapped := map[string]interface{}{}
		for n := range in {
			mapped[n] = "=$flow.the" + n
		}
		mr.Tasks[2].ActivityCfgRep.Input = mapped
		mr.Links = []*definition.LinkRep{link("T0", "TX", "", ""), link("TX", "Q", "error", "")}
		behaviours["main/T0"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			_ = ctx.SetOutput("out", outer)
			_ = ctx.SetOutput("num", outer)
			return true, nil
		}}
		behaviours["main/TX"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			_ = ctx.SetOutput("out", outer)
			return false, activity.NewError("outer", "c0", nil)
		}}
		min := map[string]interface{}{"x": outer, "none": outer, "m": outer}
		for n, v := range in {
			min["the"+n] = v
		}
		inst = newInst(mustDef(mr))
		inst.Start(min)
	} else {
		inst = newInst(mustDef(r))
		inst.Start(in)
	}
	vsym.Assert(drive(inst, 40), "run ends")
	vsym.Observe("status", int(inst.Status()), okRuns, badRuns)
	if good {
		vsym.Assert(inst.Status() == model.FlowStatusCompleted && okRuns == 1 && badRuns == 0, "a reference to something that exists can be used")
		vsym.Assert(used >= 1, "the reference is used")
	} else {
		vsym.Reach("unresolved")
		vsym.Assert(okRuns == 0 && runs <= 1, "a reference to nothing is an error")
		vsym.Assert(badRuns == 1 || inst.Status() == model.FlowStatusFailed, "a reference to nothing is an error")
	}
}
