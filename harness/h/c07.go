package h

import (
	"flowverif/acts/legacy"
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/metadata"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/model"
)

// inputMap captures all inputs of a task.
type inputMap struct{ m map[string]interface{} }

func (i *inputMap) ToMap() map[string]interface{} { return i.m }
func (i *inputMap) FromMap(m map[string]interface{}) error {
	i.m = make(map[string]interface{})
	for k, v := range m {
		i.m[k] = v
	}
	return nil
}

func allInputs(ctx activity.Context) map[string]interface{} {
	var i inputMap
	_ = ctx.GetInputObject(&i)
	return i.m
}

// C07_Mappings: T0 -> T1 (expression link), T0 -> T2, T1 -> T2, T2 -> T3 on error, T2 -> T4 on
// success. T2's two inputs are mapped from any of: nothing, a literal, numeric text, a flow input (given
// or defaulted), an undeclared flow input, an unknown flow attribute, outputs of T0 (set or not), of T1
// (run or skipped), of a later task, of an unknown task, a script expression that succeeds, fails or panics, an object template
// with references inside, and a template whose reference is unknown.
//
// Shards: 8
// Reaches: mapped, failed
func C07_Mappings() {
	g := newGraphPre("f", "T", 5)
	g.addEdge(0, 1, kExpr)
	g.addEdge(0, 2, kDep)
	g.addEdge(1, 2, kDep)
	g.addEdge(2, 3, kError)
	g.addEdge(2, 4, kDep)
	r := g.rep()
	def, given := vsym.Int("default"), vsym.Choice("given", 2) == 1
	r.Metadata = &metadata.IOMetadata{Input: map[string]data.TypedValue{
		"a": data.NewAttribute("a", data.TypeInt, def),
		"b": data.NewAttribute("b", data.TypeAny, nil),
	}}
	in := map[string]interface{}{"extra": vsym.Int("extra")}
	a := def
	if given {
		a = vsym.Int("a")
		in["a"] = a
	}
	out0, out1 := vsym.Int("out0"), vsym.Int("out1")
	sv := vsym.Int("script")
	exprs["script"] = func(data.Scope) (interface{}, error) { return sv, nil }
	exprs["fails"] = func(data.Scope) (interface{}, error) { return nil, errText("fails") }
	exprs["panics"] = func(data.Scope) (interface{}, error) { panic("panics") }

	type src struct {
		cfg  interface{}
		want interface{}
		ok   bool
	}
	ran1 := g.edges[0].cond
	srcs := []src{
		{},
		{"text", "text", true},
		{17, 17, true},
		{"=$flow.a", a, true},
		{"=$.a", a, true},
		{"=$flow.b", nil, true},
		{"=$flow.extra", in["extra"], true},
		{"=$flow.none", nil, false},
		{"=$activity[T0].out", out0, true},
		{"=$activity[T0].out2", nil, false},
		{"=$activity[T1].out", out1, ran1},
		{"=$activity[T4].out", nil, false},
		{"=$activity[TX].out", nil, false},
		{"=script", sv, true},
		{"=fails", nil, false},
		{"=panics", nil, false},
		{map[string]interface{}{"mapping": map[string]interface{}{"x": "=$flow.a", "y": "lit", "z": "=$activity[T0].out"}}, "object", true},
		{map[string]interface{}{"mapping": map[string]interface{}{"x": "=$flow.none"}}, nil, false},
	}
	s1 := srcs[vsym.Choice("in", len(srcs))]
	nums := []src{{}, {"42", 42, true}, srcs[3], srcs[10]}
	s2 := nums[vsym.Choice("num", len(nums))]
	cfg := map[string]interface{}{}
	want := map[string]interface{}{}
	ok := true
	for n, s := range map[string]src{"in": s1, "num": s2} {
		if s.cfg == nil {
			continue
		}
		cfg[n] = s.cfg
		want[n] = s.want
		ok = ok && s.ok
	}
	r.Tasks[2].ActivityCfgRep.Input = cfg

	before("f/T0", func(ctx activity.Context) {
		vsym.Assert(len(allInputs(ctx)) == 0, "a task without mappings has no inputs")
		_ = ctx.SetOutput("out", out0)
	})
	before("f/T1", func(ctx activity.Context) { _ = ctx.SetOutput("out", out1) })
	before("f/T2", func(ctx activity.Context) {
		vsym.Reach("mapped")
		got := allInputs(ctx)
		vsym.Assert(len(got) == len(want), "exactly the configured inputs")
		for n, v := range want {
			if v == "object" {
				o, isObj := got[n].(map[string]interface{})
				vsym.Assert(isObj && len(o) == 3 && o["x"] == a && o["y"] == "lit" && o["z"] == out0, "object mapping")
				continue
			}
			vsym.Assert(got[n] == v, "input has the mapped value")
			vsym.Assert(ctx.GetInput(n) == v, "single input has the mapped value")
		}
	})
	inst := newInst(mustDef(r))
	inst.Start(in)
	vsym.Assert(drive(inst, 24), "run ends")
	g.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
	vsym.Assert(g.evals[0] == 1 && (g.evals[1] == 1) == ran1, "predecessors run")
	if ok {
		vsym.Assert(g.evals[2] == 1 && g.evals[4] == 1 && g.evals[3] == 0, "task runs with its mapped inputs")
	} else {
		vsym.Reach("failed")
		vsym.Assert(g.evals[2] == 0 && g.evals[4] == 0 && g.evals[3] == 1, "a failing mapping fails the task instead of running it")
	}
}

// C07_Outputs: two tasks run one after the other, each setting any of two outputs with the same names by SetOutput,
// SetOutputs or SetOutputObject, to a number or to nothing; a third task sees exactly these values under the respective names, and
// undeclared outputs are not visible.
//
// Shards: 4
func C07_Outputs() {
	g := newGraphPre("f", "T", 3)
	g.addEdge(0, 1, kDep)
	g.addEdge(1, 2, kDep)
	r := g.rep()
	names := []string{"out", "out2", "undeclared"}
	var set [2]map[string]interface{}
	null := vsym.Choice("null", 2) == 1
	for i := 0; i < 2; i++ {
		m := map[string]interface{}{}
		for _, n := range names {
			if vsym.Choice("set"+g.tn(i)+n, 2) == 1 {
				m[n] = vsym.Int(g.tn(i) + n)
				if null && i == 1 && n != "out2" {
					m[n] = nil
				}
			}
		}
		set[i] = m
		how := vsym.Choice("how"+g.tn(i), 3)
		before("f/"+g.tn(i), func(ctx activity.Context) {
			switch how {
			case 0:
				for k, v := range m {
					_ = ctx.SetOutput(k, v)
				}
			case 1:
				_ = ctx.SetOutputObject(&inputMap{m})
			case 2:
				if s, ok := ctx.(interface {
					SetOutputs(map[string]interface{}) error
				}); ok {
					_ = s.SetOutputs(m)
				}
			}
		})
	}
	before("f/T2", func(ctx activity.Context) {
		s := ctx.ActivityHost().Scope()
		for i := 0; i < 2; i++ {
			for _, n := range names {
				v, ok := s.GetValue("_A." + g.tn(i) + "." + n)
				w, wok := set[i][n]
				if n == "undeclared" {
					wok = false
				}
				vsym.Assert(ok == wok, "exactly the declared outputs that were set are visible")
				if ok {
					vsym.Assert(v == w, "output is visible under its task's name")
				}
			}
		}
		for _, n := range names {
			_, ok := s.GetValue(n)
			vsym.Assert(!ok, "outputs are not visible elsewhere")
		}
	})
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 24) && g.evals[2] == 1, "run ends")
}

// C07_Inputs: a flow with two declared inputs, with or without default, is started with any
// subset of them and of an undeclared one, possibly nil; the first task, which may fail, and its error handler see exactly the resulting
// attributes.
//
// Reaches: handled
func C07_Inputs() {
	g := newGraphPre("f", "T", 1)
	r := g.rep()
	r.Metadata = &metadata.IOMetadata{Input: map[string]data.TypedValue{}}
	want := map[string]interface{}{}
	in := map[string]interface{}{}
	names := []string{"a", "b", "c"}
	for i, n := range names {
		if i < 2 {
			switch vsym.Choice("decl"+n, 3) {
			case 0:
				v := vsym.Int("def" + n)
				r.Metadata.Input[n] = data.NewAttribute(n, data.TypeInt, v)
				want[n] = v
			case 1:
				r.Metadata.Input[n] = data.NewAttribute(n, data.TypeAny, nil)
				want[n] = nil
			}
		}
		switch vsym.Choice("give"+n, 3) {
		case 1:
			in[n] = vsym.Int("in" + n)
			want[n] = in[n]
		case 2:
			in[n] = nil
			want[n] = nil
		}
	}
	handled := false
	if g.fails[0] = vsym.Choice("fails", 2) == 1; g.fails[0] {
		h := newGraphPre("f", "H", 1)
		r.ErrorHandler = h.handlerRep()
	}
	sight := func(ctx activity.Context) {
		s := ctx.ActivityHost().Scope()
		for _, n := range names {
			v, ok := s.GetValue(n)
			w, wok := want[n]
			vsym.Assert(ok == wok, "exactly the declared and given inputs exist")
			if ok {
				vsym.Assert(v == w, "given inputs override defaults")
			}
		}
	}
	before("f/T0", sight)
	if g.fails[0] {
		before("f/H0", func(ctx activity.Context) {
			handled = true
			vsym.Reach("handled")
			sight(ctx)
		})
	}
	inst := newInst(mustDef(r))
	inst.Start(in)
	vsym.Assert(drive(inst, 8) && g.evals[0] == 1 && handled == g.fails[0], "run ends")
}

// C07_Legacy: flow T0 -> T1 -> T2, T1 -> T3 on error, whose T1 is of a kind registered the deprecated way, with a setting and configured outputs or none, that
// gives any of two outputs by SetOutput or SetOutputObject, or fails.
//
// Reaches: failed
func C07_Legacy() {
	g, r := loopFlow(nil)
	x, y := vsym.Int("x"), vsym.Int("y")
	t := r.Tasks[1]
	t.ActivityCfgRep = &activity.Config{Ref: legacy.Ref, Input: map[string]interface{}{"in": "=$activity[T0].out"}}
	set, conf := vsym.Choice("setting", 3), vsym.Choice("configured", 2) == 1
	if set > 0 {
		t.ActivityCfgRep.Settings = map[string]interface{}{"own": []interface{}{nil, 5, "6"}[set]}
	}
	if conf {
		t.ActivityCfgRep.Output = map[string]interface{}{"num": "8"}
	}
	gives, how, bad := vsym.Choice("gives", 2) == 1, vsym.Choice("how", 2), vsym.Bool("bad")
	legacy.Eval = func(ctx activity.Context) (bool, error) {
		g.evals[1]++
		vsym.Assert(ctx.GetInput("in") == x && ctx.GetInput("num") == nil, "input has the mapped value")
		in := &inputMap{}
		vsym.Assert(ctx.GetInputObject(in) == nil && len(in.m) == 1 && in.m["in"] == x, "exactly the configured inputs")
		vsym.Assert(ctx.Name() == nameOf("T1") && ctx.ActivityHost().Name() == "f" && ctx.ActivityHost().ID() == "inst", "an activity is told its task and flow")
		l, ok := ctx.(activity.LegacyCtx)
		vsym.Assert(ok, "an activity registered the deprecated way gets the context it needs")
		v, has := l.GetSetting("own")
		vsym.Assert(has == (set > 0) && (!has || v == 4+set), "a task sees its settings")
		_, has = l.GetSetting("none")
		vsym.Assert(!has, "a task sees its settings")
		if conf {
			vsym.Assert(l.GetOutput("num") == 8, "a task sees its configured outputs")
		} else {
			vsym.Assert(l.GetOutput("num") == nil, "a task sees its configured outputs")
		}
		vsym.Assert(l.GetOutput("out") == nil, "a task sees the outputs it has set")
		if gives {
			if how == 0 {
				_ = ctx.SetOutput("out", y)
			} else {
				_ = ctx.SetOutputObject(&inputMap{map[string]interface{}{"out": y}})
			}
			vsym.Assert(l.GetOutput("out") == y, "a task sees the outputs it has set")
			_ = ctx.SetOutput("num", nil)
			vsym.Assert(l.GetOutput("num") == nil, "a task sees the outputs it has set")
		}
		return true, fails(bad)
	}
	before("f/T0", func(ctx activity.Context) { _ = ctx.SetOutput("out", x) })
	before("f/T2", func(ctx activity.Context) {
		v, err := definition.GetDataResolver().Resolve("$activity[T1].out", ctx.ActivityHost().Scope())
		vsym.Assert((err == nil) == gives && (!gives || v == y), "output is visible under its task's name")
	})
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 24) && inst.Status() == model.FlowStatusCompleted, "run ends")
	vsym.Assert(g.evals[1] == 1 && g.evals[2] == 1-btoi(bad) && g.evals[3] == btoi(bad), "the tasks run")
	if bad {
		vsym.Reach("failed")
	}
}
