package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/support/trace"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/model"
)

// iterMapping maps key, value and index of the iteration into the input "in".
var iterMapping = map[string]interface{}{"in": map[string]interface{}{"mapping": map[string]interface{}{
	"k": "=$iteration[key]", "v": "=$iteration[value]", "i": "=$iteration[index]"}}}

// iteration is what one run of an iterating task saw.
type iteration struct{ k, v, i interface{} }

func seen(ctx activity.Context) iteration {
	m, _ := ctx.GetInput("in").(map[string]interface{})
	if m == nil {
		return iteration{}
	}
	return iteration{m["k"], m["v"], m["i"]}
}

func iterTask(id string, on interface{}) *definition.TaskRep {
	t := task(id, "iterator")
	t.Settings = map[string]interface{}{"iterate": on}
	t.ActivityCfgRep.Input = iterMapping
	return t
}

// loopFlow is a flow T0 -> T1 -> T2 with T1 -> T3 on error, whose T1 loops.
func loopFlow(t *definition.TaskRep) (*graph, *definition.DefinitionRep) {
	g := newGraphPre("f", "T", 4)
	g.addEdge(0, 1, kDep)
	g.addEdge(1, 2, kDep)
	g.addEdge(1, 3, kError)
	r := g.rep()
	if t != nil {
		r.Tasks[1] = t
	}
	return g, r
}

// anyElem is any number, text or nothing.
func anyElem() interface{} {
	switch vsym.Choice("elem", 3) {
	case 1:
		return nil
	case 2:
		return "text"
	}
	return vsym.Int("v")
}

// C08_Kinds: iterating over any int up to the bound in any numeric form, arrays of any length up to
// the bound whose elements are any numbers, text or nothing, typed slices, arrays and objects (also with an empty key), given literally or by a
// reference or an expression; and over values that are nothing or cannot be iterated over; in a flow run by itself or as a subflow.
// Bound: 3 (thorough 6) elements.
//
// MapRot: 1
// Reaches: iterated, empty, invalid
func C08_Kinds() {
	bound := 3 + 3*vsym.Tier()
	var on interface{}
	var want []iteration
	object, invalid := false, false
	kind := vsym.Choice("kind", 13)
	n := 0
	if kind < 4 {
		n = vsym.Range("count", -1, bound)
	} else {
		n = vsym.Choice("n", bound+1)
	}
	count := func() {
		for i := 0; i < n; i++ {
			want = append(want, iteration{i, i, i})
		}
	}
	switch kind {
	case 0:
		on = n
		count()
	case 1:
		on = int64(n)
		count()
	case 2:
		on = float64(n)
		count()
	case 3:
		count()
		on = string(rune('0' + max(n, 0)))
	case 4:
		a := []interface{}{}
		for i := 0; i < n; i++ {
			v := anyElem()
			a = append(a, v)
			want = append(want, iteration{i, v, i})
		}
		on = a
	case 5:
		a := []string{}
		for i := 0; i < n; i++ {
			a = append(a, string(rune('a'+i)))
			want = append(want, iteration{i, a[i], i})
		}
		on = a
	case 6:
		a := []int{}
		for i := 0; i < n; i++ {
			v := vsym.Int("v")
			a = append(a, v)
			want = append(want, iteration{i, v, i})
		}
		on = a
	case 7:
		v := vsym.Int("v")
		on = [2]int{v, 7}
		want = []iteration{{0, v, 0}, {1, 7, 1}}
	case 8:
		object = true
		noName := vsym.Choice("noName", 2) == 1
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			v := anyElem()
			k := string(rune('a' + i))
			if i == 0 && noName {
				k = ""
			}
			m[k] = v
			want = append(want, iteration{k, v, nil})
		}
		on = m
	case 9:
		a := []bool{}
		for i := 0; i < n; i++ {
			v := vsym.Bool("b")
			a = append(a, v)
			want = append(want, iteration{i, v, i})
		}
		on = a
	case 10:
		on = nil
	case 11:
		on, invalid = "x"+string(rune('0'+n)), true
	case 12:
		on, invalid = vsym.Bool("b"), true
	}
	var cfg interface{} = on
	if vsym.Choice("literal", 2) == 0 || kind == 3 || kind == 11 || kind == 10 {
		cfg = "=$flow.it"
		if vsym.Choice("script", 2) == 1 {
			cfg = "=script"
			exprs["script"] = func(data.Scope) (interface{}, error) { return on, nil }
		}
	}
	g, r := loopFlow(iterTask("T1", cfg))
	var got []iteration
	before("f/T1", func(ctx activity.Context) { got = append(got, seen(ctx)) })
	vsym.MapOrder(true)
	inst := started(r, vsym.Choice("nested", 2) == 1, map[string]interface{}{"it": on})
	vsym.Assert(drive(inst, 18+bound), "run ends")
	vsym.MapOrder(false)
	g.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
	if invalid {
		vsym.Reach("invalid")
		vsym.Assert(len(got) == 0 && g.evals[2] == 0 && g.evals[3] == 1, "a value that cannot be iterated over is an error of the task")
		return
	}
	vsym.Assert(g.evals[2] == 1 && g.evals[3] == 0, "the task finishes once")
	vsym.Assert(len(got) == len(want), "once per element")
	if len(got) == 0 {
		vsym.Reach("empty")
		return
	}
	vsym.Reach("iterated")
	for i, w := range want {
		if object {
			x := -1
			for j, v := range got {
				if v.k == w.k {
					vsym.Assert(x < 0, "once per key")
					x = j
				}
				vsym.Assert(got[j].i == j, "index counts")
			}
			vsym.Assert(x >= 0 && got[x].v == w.v, "key with its value")
			continue
		}
		vsym.Assert(got[i] == w, "key, value and index of the element")
	}
}

// C08_Subflow: an iterating task calls a subflow for each element of an array, up to the bound of 5 (thorough 8);
// every run of the subflow completes or fails in its task or in its error handler.
//
// Shards: 2
func C08_Subflow() {
	n := vsym.Choice("n", 6+3*vsym.Tier())
	a := []interface{}{}
	for i := 0; i < n; i++ {
		a = append(a, vsym.Int("v"))
	}
	failAt := vsym.Range("failAt", -1, n)
	g, r := loopFlow(iterTask("T1", a))
	s := newGraphPre("s", "S", 2)
	s.addEdge(0, 1, kDep)
	sr := s.rep()
	var got []iteration
	behaviours["f/T1"] = hostBehaviour("sub", nil)
	old := behaviours["f/T1"].Eval
	behaviours["f/T1"].Eval = func(ctx activity.Context) (bool, error) {
		got = append(got, seen(ctx))
		return old(ctx)
	}
	behaviours["s/S0"].Eval = func(ctx activity.Context) (bool, error) {
		s.evals[0]++
		if s.evals[0]-1 == failAt {
			return false, errText("fails")
		}
		return true, nil
	}
	setFlows(provider{"sub": sr})
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 16+8*n), "run ends")
	g.observe(inst.Status())
	s.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
	runs := n
	if failAt >= 0 && failAt < n {
		runs = failAt + 1
		vsym.Assert(g.evals[2] == 0 && g.evals[3] == 1, "a failing iteration fails the task")
		vsym.Assert(s.evals[1] == runs-1, "failing subflow ends")
	} else {
		vsym.Assert(g.evals[2] == 1 && g.evals[3] == 0, "the task finishes once")
		vsym.Assert(s.evals[1] == runs, "subflow runs to its end for each element")
	}
	vsym.Assert(len(got) == runs && s.evals[0] == runs, "once per element")
	for i := range got {
		vsym.Assert(got[i] == iteration{i, a[i], i}, "key, value and index of the element")
	}
}

// C08_Fail: the activity fails at any one of the iterations, by any kind of failure.
func C08_Fail() {
	n := vsym.Range("n", 0, 3)
	failAt := vsym.Range("failAt", 0, 3)
	how := vsym.Choice("how", nFailures)
	g, r := loopFlow(iterTask("T1", n))
	var got []iteration
	before("f/T1", func(ctx activity.Context) {
		got = append(got, seen(ctx))
		g.fails[1] = len(got)-1 == failAt
	})
	g.how[1] = how
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 16), "run ends")
	g.observe(inst.Status())
	if failAt < n {
		vsym.Assert(g.evals[1] == failAt+1 && g.evals[2] == 0 && g.evals[3] == 1, "a failing iteration ends the loop and fails the task")
	} else {
		vsym.Assert(g.evals[1] == n && g.evals[2] == 1 && g.evals[3] == 0, "once per element")
	}
}

// C08_Two: two iterating tasks of the same flow, with counts up to the bound of 2 (thorough 3), are active at the same time,
// and a second run of the same definition follows.
func C08_Two() {
	b := 2 + vsym.Tier()
	var n [2]int
	g := newGraphPre("f", "T", 3)
	g.addEdge(0, 2, kDep)
	g.addEdge(1, 2, kDep)
	r := g.rep()
	var got [2][]iteration
	for i := range n {
		i := i
		n[i] = vsym.Range("n"+g.tn(i), 0, b)
		r.Tasks[i] = iterTask(g.tn(i), "=$flow."+g.tn(i))
		before("f/"+g.tn(i), func(ctx activity.Context) { got[i] = append(got[i], seen(ctx)) })
	}
	def := mustDef(r)
	for run := 1; run <= 2; run++ {
		got[0], got[1] = nil, nil
		inst := newInst(def)
		inst.Start(map[string]interface{}{"T0": n[0], "T1": n[1]})
		vsym.Assert(drive(inst, 24), "run ends")
		vsym.Assert(g.evals[2] == run, "joining task runs once")
		for i := range n {
			vsym.Assert(len(got[i]) == n[i], "once per element")
			for j, v := range got[i] {
				vsym.Assert(v == iteration{j, j, j}, "key, value and index of the element")
			}
		}
	}
	g.observe(0)
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// C08_BadValue: the value to iterate over cannot be computed, by error or panic, in any form of the
// setting, with and without an error link of the task or an error handler of the flow.
func C08_BadValue() {
	how := vsym.Choice("how", 3)
	exprs["script"] = func(data.Scope) (interface{}, error) {
		if how == 1 {
			panic("no value")
		}
		return nil, errText("no value")
	}
	on := "=script"
	if how == 2 {
		on = "=$flow.missing"
	}
	t := iterTask("T1", on)
	if vsym.Choice("nested", 2) == 1 {
		t.Settings = map[string]interface{}{"loopConfig": map[string]interface{}{"iterateOn": on}}
	}
	g := newGraphPre("f", "T", 5)
	g.addEdge(0, 1, kDep)
	g.addEdge(1, 2, kDep)
	errLink := vsym.Choice("errLink", 2) == 1
	if errLink {
		g.addEdge(1, 3, kError)
	} else {
		g.addEdge(1, 3, kDep)
	}
	g.addEdge(0, 4, kDep)
	r := g.rep()
	if t != nil {
		r.Tasks[1] = t
	}
	h := newGraphPre("f", "H", 1)
	handler := vsym.Choice("handler", 2) == 1
	if handler {
		r.ErrorHandler = h.handlerRep()
	}
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 16), "run ends")
	g.observe(inst.Status())
	vsym.Assert(g.evals[1] == 0 && g.evals[2] == 0, "the task does not run")
	switch {
	case errLink:
		vsym.Assert(inst.Status() == model.FlowStatusCompleted && g.evals[3] == 1 && g.evals[4] == 1 && h.evals[0] == 0, "the error link is followed")
	case handler:
		vsym.Assert(inst.Status() == model.FlowStatusCompleted && g.evals[3] == 0 && h.evals[0] == 1, "the error handler runs")
	default:
		_, err := inst.GetReturnData()
		vsym.Assert(inst.Status() == model.FlowStatusFailed && err != nil && g.evals[3] == 0, "the flow fails")
	}
}

// C08_Many: iterating over any number up to 12 (thorough 25).
func C08_Many() {
	bound := 12 + 13*vsym.Tier()
	n := vsym.Range("n", 0, bound)
	g, r := loopFlow(iterTask("T1", "=$flow.n"))
	var got []iteration
	before("f/T1", func(ctx activity.Context) { got = append(got, seen(ctx)) })
	inst := newInst(mustDef(r))
	inst.Start(map[string]interface{}{"n": n})
	vsym.Assert(drive(inst, 16+bound), "run ends")
	g.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && g.evals[2] == 1 && g.evals[3] == 0, "the task finishes once")
	vsym.Assert(len(got) == n, "once per element")
	for i, v := range got {
		vsym.Assert(v == iteration{i, i, i}, "key, value and index of the element")
	}
}

// C08_Traced: the same as C08_Many up to 3, with a tracer, for an activity that finishes at once or after a subflow.
func C08_Traced() {
	n := vsym.Range("n", 0, 3)
	later := vsym.Bool("later")
	vsym.Assert(trace.RegisterTracer(&tracer{}) == nil, "tracer")
	g, r := loopFlow(iterTask("T1", "=$flow.n"))
	var got []iteration
	host := hostBehaviour("sub", nil).Eval
	behaviours["f/T1"].Eval = func(ctx activity.Context) (bool, error) {
		got = append(got, seen(ctx))
		if later {
			return host(ctx)
		}
		return true, nil
	}
	initAction(nil, nil, mustDef(r))
	a := newAction("res://flow:f")
	setFlows(provider{"sub": &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}})
	o, err := runAct(a, map[string]interface{}{"n": n}, nil)
	vsym.Assert(err == nil && o.done == 1 && o.errs[0] == nil, "run ends")
	vsym.Assert(g.evals[2] == 1 && g.evals[3] == 0, "the task finishes once")
	vsym.Assert(len(got) == n, "once per element")
	for i, v := range got {
		vsym.Assert(v == iteration{i, i, i}, "key, value and index of the element")
	}
}
