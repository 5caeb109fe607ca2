package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/metadata"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/support"
)

// call is one execution of an activity with its inputs.
type call struct {
	task    string
	in, num interface{}
}

// entry is one entry of an interceptor and what it stands for.
type entry struct {
	*support.TaskInterceptor
	inForm, outForm, skip int
	in, out, num          int
}

const (
	fNone = iota
	fValue
	fText // a number given as text
	fBad  // text that is not a number
)

const (
	execute = iota
	skipExecution
	skipTask
)

// someEntry is any entry for the task with the name. Subflow tasks have inputs and outputs of their own.
func someEntry(name string, n int) *entry {
	p := "e" + string(rune('0'+n))
	e := &entry{TaskInterceptor: &support.TaskInterceptor{ID: name, Inputs: map[string]interface{}{}, Outputs: map[string]interface{}{}}}
	in, out := "in", "out"
	if name == "f-T2" {
		in, out = "a", "o"
	}
	e.inForm = vsym.Choice(p+"in", 4)
	e.in, e.out = vsym.Int(p+"i"), vsym.Int(p+"o")
	a, b := vsym.Range(p+"a", 1, 9), vsym.Range(p+"b", 0, 9)
	e.num = 10*a + b
	text := func(form int) interface{} {
		if form == fText {
			return string(rune('0'+a)) + string(rune('0'+b))
		}
		return "x1"
	}
	switch e.inForm {
	case fValue:
		e.Inputs[in] = e.in
	case fText, fBad:
		vsym.Assume(name != "f-T2")
		e.Inputs["num"] = text(e.inForm)
	}
	e.Type = []int{support.MockActivity, support.MockException, support.SkipActivity}[vsym.Choice(p+"type", 3)]
	if e.Type == support.MockException {
		if vsym.Choice(p+"msg", 2) == 1 {
			e.Outputs["message"], e.Outputs["data"] = "mocked", e.out
		}
	} else {
		e.outForm = vsym.Choice(p+"out", 4)
		if e.outForm != fNone {
			e.Outputs[out] = e.out
		}
		if e.outForm > fValue {
			vsym.Assume(name != "f-T2" && e.Type == support.MockActivity)
			e.Outputs["num"] = text(e.outForm)
		}
	}
	e.skip = vsym.Choice(p+"skip", 3)
	e.SkipExecution, e.Skip = e.skip == skipExecution, e.skip == skipTask
	vsym.Assume(e.Type != support.SkipActivity || e.skip != execute)
	vsym.Assume(vsym.Tier() > 0 || e.inForm == fNone || e.outForm == fNone || e.inForm == fValue && e.outForm == fValue)
	return e
}

// mockedFlow describes T0 -> T1 -> T2 -> T3, T1 -> T4 on error; T2 calls the subflow s with the task S0; every task gives its input plus
// one. It returns the executions.
func mockedFlow() (*definition.Definition, *[]call) {
	g := newGraph("f", 5)
	for i := 0; i < 3; i++ {
		g.addEdge(i, i+1, kDep)
	}
	g.addEdge(1, 4, kError)
	r := g.rep()
	inputsOf(r, map[string]interface{}{"x": nil})
	outputs(r, "res", "num")
	from := []string{"=$flow.x", "=$activity[T0].out", "", "=$activity[T2].o", "=$error[T1].message"}
	for i, f := range from {
		if f != "" {
			r.Tasks[i].ActivityCfgRep.Input = map[string]interface{}{"in": f}
		}
	}
	r.Tasks[2] = subflowTask("T2", "sub", map[string]interface{}{"a": "=$activity[T1].out"}, false)
	s := newGraphPre("s", "S", 1)
	sr := s.rep()
	inputsOf(sr, map[string]interface{}{"a": nil})
	outputs(sr, "o")
	sr.Tasks[0].ActivityCfgRep.Input = map[string]interface{}{"in": "=$flow.a"}
	setFlows(provider{"sub": sr})
	calls := &[]call{}
	for _, t := range []string{"f/T0", "f/T1", "f/T3", "f/T4", "s/S0"} {
		t := t
		behaviours[t] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			*calls = append(*calls, call{t, ctx.GetInput("in"), ctx.GetInput("num")})
			if t == "f/T4" {
				return true, nil
			}
			in, _ := ctx.GetInput("in").(int)
			_ = ctx.SetOutput("out", in+1)
			if t == "s/S0" {
				setAttr(ctx, "o", in+1)
			}
			return true, nil
		}}
	}
	return mustDef(r), calls
}

// C19_Mocks: a flow of four tasks in a row, one of which calls a subflow, and an error link, is run with an interceptor of up to 1 (thorough 2) entries
// for any of its tasks, that of the subflow or none, each with any of: replaced inputs, mocked outputs - of arbitrary values, or two-digit numbers
// and unusable values given as text -, a mocked exception, and both ways of skipping the task.
//
// Shards: 6
// Timeout: 300
// Reaches: skipped, replaced, exception, unusable, no task
func C19_Mocks() {
	names := []string{"f-T0", "f-T1", "f-T2", "f-T3", "s-S0", "f-S0"}
	entries := map[string]*entry{}
	ic := &support.Interceptor{Coverage: &support.Coverage{}}
	first := 0
	for i := 0; i <= vsym.Tier(); i++ {
		if i > 0 && vsym.Choice("more", 2) == 0 {
			break
		}
		first += vsym.Choice("task"+string(rune('0'+i)), len(names)-first)
		e := someEntry(names[first], i)
		entries[names[first]] = e
		ic.TaskInterceptors = append(ic.TaskInterceptors, e.TaskInterceptor)
		first++
		if first >= len(names) {
			break
		}
	}
	def, calls := mockedFlow()
	x := vsym.Int("x")
	inst := newInst(def)
	instance.ApplyExecOptions(inst, &instance.ExecOptions{Interceptor: ic})
	inst.Start(map[string]interface{}{"x": x})
	vsym.Assert(drive(inst, 30), "run ends")

	// what is to be expected
	var want []call
	var cur interface{} = x
	failed := ""
	reach := func(cond bool, what string) {
		if cond {
			vsym.Reach(what)
		}
	}
	// runTask is the execution of one task: gives its output, false if it fails
	var runTask func(id string) bool
	runTask = func(id string) bool {
		e := entries[id]
		in, num, exec := cur, interface{}(nil), true
		if e != nil {
			switch e.inForm {
			case fValue:
				in = e.in
			case fText:
				num = e.num
			case fBad:
				vsym.Reach("unusable")
				return false
			}
			exec = e.skip == execute
			reach(!exec, "skipped")
			reach(exec && e.inForm != fNone, "replaced")
		}
		known := exec
		var out interface{}
		if exec {
			if id == "f-T2" {
				cur = in
				if !runTask("s-S0") {
					return false
				}
				out = cur
			} else {
				want = append(want, call{id[:1] + "/" + id[2:], in, num})
				out = in.(int) + 1
			}
		}
		if id == "s-S0" {
			// its outputs are not those of its flow
			if e != nil && (e.outForm == fBad || e.Type == support.MockException && len(e.Outputs) > 0) {
				return false
			}
			cur = out
			return true
		}
		if e != nil {
			if e.Type == support.MockException && len(e.Outputs) > 0 {
				vsym.Reach("exception")
				return false
			}
			if e.Type == support.MockActivity && e.outForm != fNone {
				if e.outForm == fBad {
					vsym.Reach("unusable")
					return false
				}
				out, known = e.out, true
			}
		}
		vsym.Assume(known && out != nil || id == "f-T3") // the next task needs it
		cur = out
		return true
	}
	for i := 0; i < 4; i++ {
		id := "f-" + taskName(i)
		if !runTask(id) {
			failed = id
			break
		}
	}
	reach(entries["f-S0"] != nil, "no task")
	if failed == "f-T1" {
		want = append(want, call{"f/T4", nil, nil})
	}
	vsym.Observe("calls", len(*calls), len(want), int(inst.Status()))
	vsym.Assert(len(*calls) == len(want), "exactly the tasks that are not skipped are executed")
	for i, c := range *calls {
		vsym.Assert(c.task == want[i].task, "exactly the tasks that are not skipped are executed")
		if c.task == "f/T4" {
			if e := entries["f-T1"]; e.Type == support.MockException && e.inForm != fBad {
				vsym.Assert(c.in == "mocked", "the mocked exception is the error of the task")
			}
			continue
		}
		vsym.Assert(c.in == want[i].in, "tasks get the inputs that are replaced or mapped")
		vsym.Assert(c.num == want[i].num, "replaced inputs are of the declared type")
	}
	fails := failed != "" && failed != "f-T1"
	vsym.Assert((inst.Status() == model.FlowStatusFailed) == fails, "the flow fails exactly with a failing task")
	see := func(ref string) interface{} {
		v, err := definition.GetDataResolver().Resolve(ref, inst)
		if err != nil {
			return nil
		}
		return v
	}
	if failed == "" {
		vsym.Assert(see("$activity[T3].out") == cur, "outputs are those mocked or given")
	}
	for id, e := range entries {
		if id[:1] == "f" && id != "f-S0" && id != "f-T2" && e.outForm == fText && failed == "" {
			vsym.Assert(see("$activity["+id[2:]+"].num") == e.num, "mocked outputs are of the declared type")
		}
		if failed == "" && id != "f-S0" {
			vsym.Assume(id != "s-S0" || entries["f-T2"] == nil || entries["f-T2"].skip == execute)
			switch e.skip {
			case execute:
				vsym.Assert(e.Result == support.Pass, "the result of an executed task is reported")
			case skipExecution:
				vsym.Assert(e.Result == support.Mocked, "a mocked task is reported")
			}
		}
		if id == "f-S0" {
			vsym.Assert(e.Result == support.NotExecuted, "an entry that names no task is not executed")
		}
	}
}

// C19_Loops: a task that iterates up to 2 (thorough 3) times or is retried as often, accumulating or not, has an input replaced, or its outputs
// mocked with or without executing it: every run of its activity gets the replaced input, and every iteration the mocked output.
//
// Reaches: mocked, replaced
func C19_Loops() {
	n := vsym.Range("n", 1, 2+vsym.Tier())
	v, w := vsym.Int("v"), vsym.Int("w")
	acc, mock, skip := vsym.Choice("accumulate", 2) == 1, vsym.Choice("mock", 2) == 1, vsym.Choice("skip", 2) == 1
	retry := vsym.Choice("retry", 2) == 1
	vsym.Assume(!skip || mock)
	vsym.Assume(!retry || !acc)
	t := iterTask("T1", "=$flow.n")
	t.Settings["accumulate"] = acc
	if retry {
		t = task("T1", "")
		t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": "=$flow.n", "interval": 0}}
	}
	g, r := loopFlow(t)
	_ = g
	inputsOf(r, map[string]interface{}{"n": nil})
	r.Tasks[1].ActivityCfgRep.Input = map[string]interface{}{"in": 5}
	runs := 0
	behaviours["f/T1"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		vsym.Assert(ctx.GetInput("in") == v, "every run gets the replaced input")
		vsym.Reach("replaced")
		runs++
		_ = ctx.SetOutput("out", runs)
		if retry && runs <= n {
			return false, activity.NewRetriableError("again", "", nil)
		}
		return true, nil
	}}
	var got interface{}
	before("f/T2", func(ctx activity.Context) {
		got = sees(ctx, "$activity[T1].out")
		if acc {
			got = sees(ctx, "$activity[T1]")
		}
	})
	ti := &support.TaskInterceptor{ID: "f-T1", Type: support.MockActivity, SkipExecution: skip, Inputs: map[string]interface{}{"in": v}}
	if mock {
		vsym.Reach("mocked")
		ti.Outputs = map[string]interface{}{"out": w}
	}
	inst := newInst(mustDef(r))
	instance.ApplyExecOptions(inst, &instance.ExecOptions{Interceptor: &support.Interceptor{TaskInterceptors: []*support.TaskInterceptor{ti}, Coverage: &support.Coverage{}}})
	inst.Start(map[string]interface{}{"n": n})
	vsym.Assert(drive(inst, 30) && inst.Status() == model.FlowStatusCompleted && g.evals[2] == 1, "run ends")
	wantRuns, last := n, interface{}(n)
	if retry {
		wantRuns, last = n+1, interface{}(n+1)
	}
	if skip {
		wantRuns = 0
	}
	if mock {
		last = w
	}
	vsym.Observe("runs", runs, wantRuns)
	vsym.Assert(runs == wantRuns, "the activity runs unless it is skipped")
	if !acc {
		vsym.Assert(got == last, "the output is the mocked one or the last one given")
		return
	}
	l, ok := got.([]interface{})
	vsym.Assert(ok && len(l) == n, "one entry per iteration")
	for i, x := range l {
		m, _ := x.(map[string]interface{})
		if mock {
			vsym.Assert(m["out"] == w, "every entry is mocked")
		} else {
			vsym.Assert(m["out"] == i+1, "every entry is the output given")
		}
	}
}

// C19_Exception: a task that is retried, iterates or repeats, or none of it, is given an exception as its outcome, with or without being executed; when
// executed, it may fail in a way that is retried first. The exception is not retried, ends a loop and is handled by an error link, or fails the flow.
//
// Reaches: handled, failed, retried
func C19_Exception() {
	kind, skip, handled := vsym.Choice("kind", 4), vsym.Choice("skip", 2) == 1, vsym.Choice("handled", 2) == 1
	again := vsym.Bool("again")
	v := vsym.Int("data")
	t := task("T1", "")
	switch kind {
	case 1:
		t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": 2, "interval": 0}}
	case 2:
		t = iterTask("T1", 3)
	case 3:
		t.Type, t.Settings = "doWhile", map[string]interface{}{"condition": "more"}
		exprs["more"] = func(data.Scope) (interface{}, error) { return true, nil }
	}
	g, r := loopFlow(t)
	if !handled {
		r.Tasks, r.Links = r.Tasks[:3], r.Links[:2]
	}
	runs := 0
	behaviours["f/T1"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		runs++
		if kind == 1 && runs == 1 && again {
			return false, activity.NewRetriableError("again", "", nil)
		}
		return true, nil
	}}
	before("f/T3", func(ctx activity.Context) {
		vsym.Assert(sees(ctx, "$error[T1].message") == "mocked" && sees(ctx, "$error[T1].data") == v && sees(ctx, "$error[T1].activity") == "T1", "the error link sees the mocked error")
	})
	ti := &support.TaskInterceptor{ID: "f-T1", Type: support.MockException, SkipExecution: skip, Outputs: map[string]interface{}{"message": "mocked", "data": v}}
	inst := newInst(mustDef(r))
	instance.ApplyExecOptions(inst, &instance.ExecOptions{Interceptor: &support.Interceptor{TaskInterceptors: []*support.TaskInterceptor{ti}, Coverage: &support.Coverage{}}})
	inst.Start(nil)
	vsym.Assert(drive(inst, 30) && g.evals[2] == 0, "run ends")
	want := 1 - btoi(skip)
	if again && kind == 1 && !skip {
		vsym.Reach("retried")
		want = 2
	}
	vsym.Observe("runs", runs, want)
	vsym.Assert(runs == want, "a mocked exception is not retried and ends a loop")
	vsym.Assert(!skip || ti.Result == support.Mocked, "a mocked task is reported")
	_, err := inst.GetReturnData()
	if handled {
		vsym.Reach("handled")
		vsym.Assert(inst.Status() == model.FlowStatusCompleted && err == nil && g.evals[3] == 1, "a mocked exception is handled by an error link")
	} else {
		vsym.Reach("failed")
		vsym.Assert(inst.Status() == model.FlowStatusFailed && err != nil && g.evals[3] == 0, "a mocked exception that is not handled fails the flow")
	}
}

// kinds of assertion expressions
const (
	xCond = iota
	xError
	xPanic
	xNoBool
	xEmpty
	nAssertions
)

// C19_Assertions: a flow of three tasks in a row, whose middle one may fail in any way with or without error link, has up to 2 assertions of either
// type on one of its tasks, whose expressions compare the actual output or error message with an arbitrary value, fail, panic, or give
// something else; and possibly a second entry. The flow runs as it does without.
//
// Shards: 4
// Timeout: 300
// Reaches: passed, failed assertion, exception asserted, not executed
func C19_Assertions() {
	g := newGraph("f", 4)
	g.addEdge(0, 1, kDep)
	g.addEdge(1, 2, kDep)
	if vsym.Choice("errlink", 2) == 1 {
		g.addEdge(1, 3, kError)
	}
	g.fails[1] = vsym.Bool("fail")
	g.how[1] = vsym.Choice("how", nFailures)
	r := g.rep()
	if !g.hasErrLink(1) {
		r.Tasks = r.Tasks[:3]
	}
	target := vsym.Choice("target", 4) // the last one does not exist
	v, w := vsym.Int("v"), vsym.Int("w")
	for i := 0; i < 3; i++ {
		before("f/"+taskName(i), func(ctx activity.Context) { _ = ctx.SetOutput("out", v) })
	}
	n := vsym.Choice("n", 3)
	typ := support.AssertionActivity + vsym.Choice("type", 2)
	ti := &support.TaskInterceptor{ID: "f-T" + string("0129"[target]), Type: typ}
	kinds := make([]int, n)
	id := "T" + string("0129"[target])
	for i := range kinds {
		kinds[i] = vsym.Choice("kind"+string(rune('0'+i)), nAssertions)
		x := "a" + string(rune('0'+i))
		switch kinds[i] {
		case xCond:
			exprs[x] = func(s data.Scope) (interface{}, error) {
				if typ == support.AssertionException {
					m, err := definition.GetDataResolver().Resolve("$error["+id+"].message", s)
					return err == nil && m == id && w > 0, nil
				}
				o, err := definition.GetDataResolver().Resolve("$activity["+id+"].out", s)
				return err == nil && o == w, nil
			}
		case xError:
			exprs[x] = func(data.Scope) (interface{}, error) { return nil, errText("broken") }
		case xPanic:
			exprs[x] = func(data.Scope) (interface{}, error) { panic("broken") }
		case xNoBool:
			exprs[x] = func(data.Scope) (interface{}, error) { return "maybe", nil }
		case xEmpty:
			x = ""
		}
		ti.Assertions = append(ti.Assertions, support.Assertion{ID: x, Name: x, Type: support.Primitive, Expression: x})
	}
	ic := &support.Interceptor{TaskInterceptors: []*support.TaskInterceptor{ti}, Coverage: &support.Coverage{}}
	inst := newInst(mustDef(r))
	instance.ApplyExecOptions(inst, &instance.ExecOptions{Interceptor: ic})
	inst.Start(nil)
	vsym.Assert(drive(inst, 30), "run ends")
	g.oracle()
	if g.unh == 0 {
		vsym.Assert(inst.Status() == model.FlowStatusCompleted, "assertions do not change the outcome")
		if !g.hasErrLink(1) {
			g.skip[3] = true
		}
		g.checkRun()
	} else {
		vsym.Assert(inst.Status() == model.FlowStatusFailed && g.evals[2] == 0, "assertions do not change the outcome")
	}
	vsym.Observe("result", ti.Result, int(inst.Status()))
	ran := target < 3 && g.evals[target] == 1
	failed := ran && g.fails[target]
	switch {
	case !ran:
		vsym.Reach("not executed")
		vsym.Assert(ti.Result == support.NotExecuted, "a task that does not run is not reported")
	case failed:
		vsym.Assert(ti.Result == support.Fail, "a failing task is reported")
		vsym.Assert(ti.Message == id, "a failing task is reported with its error")
	default:
		vsym.Assert(ti.Result == support.Pass, "a succeeding task is reported")
	}
	for i, a := range ti.Assertions {
		want := support.Fail
		switch {
		case !ran:
			want = support.NotExecuted
		case failed != (typ == support.AssertionException):
			want = support.AssertionNotExecuted
		case kinds[i] == xEmpty:
			want = support.NotExecuted
		case kinds[i] == xCond:
			if failed {
				vsym.Reach("exception asserted")
				if w > 0 {
					want = support.Pass
				}
			} else if v == w {
				vsym.Reach("passed")
				want = support.Pass
			} else {
				vsym.Reach("failed assertion")
			}
		}
		vsym.Assert(a.Result == want, "an assertion is reported with its actual result")
		if want == support.Pass || want == support.Fail || ran && kinds[i] == xEmpty && want == support.NotExecuted {
			vsym.Assert(a.Message != "", "the result of an assertion is explained")
		}
	}
}

// C19_FlowAssertions: a flow that completes - in the end, or with a return of data or an error - or fails is run by the flow action with up to 2
// (thorough 3) assertions of either type on its outcome, whose expressions compare the output of the flow or the error of the task with any value, fail,
// panic, give something else, or are malformed; or with assertions on the outcome of another flow.
//
// Reaches: output asserted, exception asserted, not executed
func C19_FlowAssertions() {
	g := newGraph("f", 2)
	g.addEdge(0, 1, kDep)
	g.fails[1] = vsym.Bool("fail")
	g.how[1] = vsym.Choice("how", nFailures)
	r := g.rep()
	r.Metadata = &metadata.IOMetadata{Output: map[string]data.TypedValue{"o": data.NewAttribute("o", data.TypeAny, nil)}}
	v, w := vsym.Int("v"), vsym.Int("w")
	ends := vsym.Choice("ends", 3)
	before("f/T0", func(ctx activity.Context) {
		switch ends {
		case 0:
			setAttr(ctx, "o", v)
		case 1:
			setAttr(ctx, "o", w) // which is not what is returned
			ctx.ActivityHost().Return(map[string]interface{}{"o": v}, nil)
		case 2:
			ctx.ActivityHost().Return(map[string]interface{}{"o": v}, errText("returned"))
		}
	})
	initAction(nil, nil, mustDef(r))
	failed := ends == 0 && g.fails[1]
	n := vsym.Choice("n", 3+vsym.Tier())
	typ := support.AssertionActivity + vsym.Choice("type", 2)
	other := vsym.Choice("other", 2) == 1
	ti := &support.TaskInterceptor{ID: "f-_flowOutput", Type: typ}
	if other {
		ti.ID = "g-_flowOutput"
	}
	kinds := make([]int, n)
	asserted := false
	for i := range kinds {
		kinds[i] = vsym.Choice("kind"+string(rune('0'+i)), nAssertions+1)
		x := "a" + string(rune('0'+i))
		switch kinds[i] {
		case xCond:
			exprs[x] = func(s data.Scope) (interface{}, error) {
				name, want := "$flow.o", interface{}(w)
				if typ == support.AssertionException {
					name, want = "$error.message", "T1"
				}
				o, err := definition.GetDataResolver().Resolve(name, s)
				return err == nil && o == want, nil
			}
		case xError:
			exprs[x] = func(data.Scope) (interface{}, error) { return nil, errText("broken") }
		case xPanic:
			exprs[x] = func(data.Scope) (interface{}, error) { panic("broken") }
		case xNoBool:
			exprs[x] = func(data.Scope) (interface{}, error) { return "maybe", nil }
		case xEmpty:
			x = ""
		case nAssertions:
			x = "bad" + x
		}
		asserted = asserted || kinds[i] == xCond || kinds[i] == xNoBool
		ti.Assertions = append(ti.Assertions, support.Assertion{ID: x, Name: x, Type: support.Primitive, Expression: x})
	}
	ic := &support.Interceptor{TaskInterceptors: []*support.TaskInterceptor{ti}, Coverage: &support.Coverage{}}
	o, err := runAct(newAction("res://flow:f"), nil, &instance.RunOptions{ExecOptions: &instance.ExecOptions{Interceptor: ic}})
	vsym.Assert(err == nil && len(o.results) == 1 && o.done == 1, "the flow runs")
	switch {
	case failed:
		applies := typ == support.AssertionException && asserted && !other
		vsym.Assert((o.errs[0] == nil) == applies, "a flow fails unless its failure is asserted")
	case ends == 2:
		vsym.Assert(o.errs[0] != nil && o.errs[0].Error() == "returned", "assertions do not change the outcome")
	default:
		vsym.Assert(o.errs[0] == nil && len(o.results[0]) == 1 && o.results[0]["o"] == v, "assertions do not change the outcome")
	}
	vsym.Assert((ti.Result == support.Pass) == !other, "the outcome of the flow named is asserted")
	for i, a := range ti.Assertions {
		want := support.Fail
		switch {
		case other:
			want = support.NotExecuted
		case failed != (typ == support.AssertionException):
			vsym.Reach("not executed")
			want = support.AssertionNotExecuted
		case kinds[i] == xEmpty:
			want = support.NotExecuted
		case kinds[i] == xCond:
			if failed {
				vsym.Reach("exception asserted")
				want = support.Pass
			} else if v == w {
				vsym.Reach("output asserted")
				want = support.Pass
			}
		}
		vsym.Assert(a.Result == want, "an assertion is reported with its actual result")
		if want == support.Pass || want == support.Fail || !other && want == support.NotExecuted {
			vsym.Assert(a.Message != "", "the result of an assertion is explained")
		}
	}
}

// C19_Patches: the flow of C19_Mocks, in which any one of the tasks has its input mapping replaced - by a value or a reference -, its
// output mapping - by one of its outputs, or of an attribute of the flow, which it does not have -, or both, or given mappings that are empty or malformed; a task may have had no mapping at all.
//
// Reaches: input, output, malformed
func C19_Patches() {
	def, calls := mockedFlow()
	x, v := vsym.Int("x"), vsym.Int("v")
	names := []string{"T0", "T1", "T2", "T3", "S0", "T9"}
	at := vsym.Choice("task", len(names))
	p := &support.TaskPatch{ID: names[at]}
	in := "in"
	if at == 2 {
		in = "a"
	}
	form := vsym.Choice("input", 5)
	switch form {
	case 3:
		p.Input = map[string]interface{}{}
	case 4:
		p.Input = map[string]interface{}{in: "=badly made"}
	case 1:
		p.Input = map[string]interface{}{in: v}
	case 2:
		p.Input = map[string]interface{}{in: "=$activity[T0].out"}
		vsym.Assume(at > 0 && at < 4)
	}
	none := false
	if o := vsym.Choice("output", 3); o > 0 {
		none = o == 2
		p.Output = map[string]interface{}{"res": "=$.out"}
		if none {
			p.Output = map[string]interface{}{"res": "=$.x"}
		}
		vsym.Assume(at == 3)
	}
	inst := newInst(def)
	instance.ApplyExecOptions(inst, &instance.ExecOptions{Patch: &support.Patch{TaskPatches: []*support.TaskPatch{p}}})
	inst.Start(map[string]interface{}{"x": x})
	vsym.Assert(drive(inst, 30), "run ends")
	order := []int{0, 1, 4, 3}
	if form == 4 && at < 5 {
		vsym.Reach("malformed")
		n := []int{0, 1, 2, 3, 2}[at]
		vsym.Assert((inst.Status() == model.FlowStatusFailed) == (at != 1), "a task whose mapping is patched with a malformed one fails")
		for i, c := range *calls {
			vsym.Assert(i < n && c.task[2:] == names[order[i]] || at == 1 && i == 1 && c.task == "f/T4", "a task whose mapping is patched with a malformed one fails")
		}
		vsym.Assert(len(*calls) == n+btoi(at == 1), "a task whose mapping is patched with a malformed one fails")
		return
	}
	if none {
		res, _ := inst.GetReturnData()
		vsym.Assert(inst.Status() == model.FlowStatusFailed && res["res"] == nil, "an output mapping maps the outputs of its task")
		return
	}
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && len(*calls) == 4, "a patch does not change which tasks run")
	cur := x
	first := x + 1
	if at == 0 && form == 1 {
		first = v + 1
	}
	for i, t := range order {
		c := (*calls)[i]
		if form == 1 && (at == t || at == 2 && t == 4) {
			vsym.Reach("input")
			cur = v
		} else if form == 2 && (at == t || at == 2 && t == 4) {
			vsym.Reach("input")
			cur = first
		}
		vsym.Assert(c.task[2:] == names[t] && c.in == cur, "tasks get the patched inputs, all others those mapped")
		cur++
	}
	res, _ := inst.GetReturnData()
	vsym.Observe("res", res["res"] != nil, len(*calls))
	if len(p.Output) > 0 {
		vsym.Reach("output")
		vsym.Assert(res["res"] == cur, "the patched output mapping is applied")
	} else {
		vsym.Assert(res["res"] == nil, "no other output is mapped")
	}
}

// C19_Subflow: an assertion on a task of the main flow, of a flow it calls, or of one that flow calls, which all have a task with the
// same id, compares the output of the task with an arbitrary value.
//
// Reaches: passed, failed assertion
func C19_Subflow() {
	flows := []string{"f", "s", "d"}
	subs := []string{"", "sub", "deep"}
	w := vsym.Int("w")
	var v []int
	p := provider{}
	var main *definition.DefinitionRep
	for i, name := range flows {
		i := i
		v = append(v, vsym.Int("v"+name))
		r := &definition.DefinitionRep{Name: name, Tasks: []*definition.TaskRep{task("T0", ""), task("T1", "")}, Links: []*definition.LinkRep{link("T0", "T1", "", "")}}
		b := behaviourOf(name, "T0")
		*b = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			_ = ctx.SetOutput("out", v[i])
			return true, nil
		}}
		*behaviourOf(name, "T1") = Behaviour{}
		if i < 2 {
			*behaviourOf(name, "T1") = *hostBehaviour(subs[i+1], nil)
		}
		if i == 0 {
			main = r
		} else {
			p[subs[i]] = r
		}
	}
	setFlows(p)
	at := vsym.Choice("at", 4)
	name := append(flows, "other")[at]
	exprs["out"] = func(s data.Scope) (interface{}, error) {
		o, err := definition.GetDataResolver().Resolve("$activity[T0].out", s)
		return err == nil && o == w, nil
	}
	ti := &support.TaskInterceptor{ID: name + "-T0", Type: support.AssertionActivity, Assertions: []support.Assertion{{ID: "x", Name: "x", Type: support.Primitive, Expression: "out"}}}
	ic := &support.Interceptor{TaskInterceptors: []*support.TaskInterceptor{ti}, Coverage: &support.Coverage{}}
	inst := newInst(mustDef(main))
	instance.ApplyExecOptions(inst, &instance.ExecOptions{Interceptor: ic})
	inst.Start(nil)
	vsym.Assert(drive(inst, 30), "run ends")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "assertions do not change the outcome")
	vsym.Observe("result", ti.Result, ti.Assertions[0].Result)
	switch {
	case at == 3:
		vsym.Assert(ti.Result == support.NotExecuted && ti.Assertions[0].Result == support.NotExecuted, "a task that does not run is not reported")
	case v[at] == w:
		vsym.Reach("passed")
		vsym.Assert(ti.Result == support.Pass && ti.Assertions[0].Result == support.Pass, "an assertion is reported with its actual result")
	default:
		vsym.Reach("failed assertion")
		vsym.Assert(ti.Result == support.Pass && ti.Assertions[0].Result == support.Fail, "an assertion is reported with its actual result")
	}
}

// C19_Asserted: a task of the main flow or of a flow it calls is executed, mocked or skipped, or fails, which its error link handles, and
// has an assertion of either type on its output or error.
//
// Reaches: mocked, skipped, passed, exception
func C19_Asserted() {
	v, w := vsym.Int("v"), vsym.Int("w")
	inSub, skip, fails, typ := vsym.Choice("sub", 2) == 1, vsym.Choice("skip", 3), vsym.Choice("fails", 2) == 1, support.AssertionActivity+vsym.Choice("type", 2)
	vsym.Assume(!fails || skip == execute)
	sub := &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("T0", ""), task("T1", "")}, Links: []*definition.LinkRep{link("T0", "T1", "error", "")}}
	main := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{subflowTask("C", "sub", nil, false)}}
	setFlows(provider{"sub": sub})
	def, name := mustDef(main), "s"
	if !inSub {
		sub.Name, name = "f", "f"
		def = mustDef(sub)
	}
	ran := 0
	*behaviourOf(name, "T0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		ran++
		if fails {
			return false, errText("bad")
		}
		return true, ctx.SetOutput("out", v)
	}}
	*behaviourOf(name, "T1") = Behaviour{}
	exprs["a0"] = func(s data.Scope) (interface{}, error) {
		if typ == support.AssertionException {
			o, err := definition.GetDataResolver().Resolve("$error[T0].message", s)
			return err == nil && o == "bad" && w > 0, nil
		}
		o, err := definition.GetDataResolver().Resolve("$activity[T0].out", s)
		return err == nil && o == w, nil
	}
	ti := &support.TaskInterceptor{ID: name + "-T0", Type: typ, SkipExecution: skip == skipExecution, Skip: skip == skipTask,
		Assertions: []support.Assertion{{ID: "a", Name: "a", Type: support.Primitive, Expression: "a0"}}}
	inst := newInst(def)
	instance.ApplyExecOptions(inst, &instance.ExecOptions{Interceptor: &support.Interceptor{TaskInterceptors: []*support.TaskInterceptor{ti}, Coverage: &support.Coverage{}}})
	inst.Start(nil)
	vsym.Assert(drive(inst, 30) && inst.Status() == model.FlowStatusCompleted, "run ends")
	vsym.Observe("result", ti.Result, ti.Assertions[0].Result, ran)
	vsym.Assert(ran == 1 == (skip == execute), "exactly the tasks that are not skipped are executed")
	a := ti.Assertions[0]
	if fails {
		vsym.Assert(ti.Result == support.Fail && ti.Message == "bad", "a failing task is reported with its error")
	} else if skip == skipExecution {
		vsym.Reach("mocked")
		vsym.Assert(ti.Result == support.Mocked, "a mocked task is reported")
	} else if skip == execute {
		vsym.Assert(ti.Result == support.Pass, "a succeeding task is reported")
	}
	switch {
	case fails != (typ == support.AssertionException):
		vsym.Assert(a.Result == support.AssertionNotExecuted, "an assertion is reported with its actual result")
	case fails:
		vsym.Reach("exception")
		vsym.Assert((a.Result == support.Pass) == (w > 0) && (a.Result == support.Fail) == (w <= 0), "an assertion is reported with its actual result")
	case skip == execute:
		vsym.Reach("passed")
		vsym.Assert((a.Result == support.Pass) == (v == w) && (a.Result == support.Fail) == (v != w), "an assertion is reported with its actual result")
	default:
		vsym.Reach("skipped")
		vsym.Assert(a.Result == support.Fail, "an assertion on a task without outputs fails")
	}
}

// C19_Repeated: a task - an activity or one that calls a subflow, of the flow or of its error handler - iterates up to 3 times, or is retried
// until it succeeds, with an assertion whose expression compares the output with any value, or fails. What is reported is the last
// execution.
//
// Reaches: passed, failed assertion, failed before
func C19_Repeated() {
	n := vsym.Range("n", 1, 3)
	retry, sub, handler, broken := vsym.Choice("retry", 2) == 1, vsym.Choice("sub", 2) == 1, vsym.Choice("handler", 2) == 1, vsym.Choice("broken", 2) == 1
	w := vsym.Int("w")
	v := []int{vsym.Int("v0"), vsym.Int("v1"), vsym.Int("v2")}
	t := task("T1", "")
	if sub {
		t = subflowTask("T1", "sub", nil, false)
	}
	if retry {
		t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": 2, "interval": 0}}
	} else {
		t.Type, t.Settings = "iterator", map[string]interface{}{"iterate": "=$flow.n"}
	}
	runs := 0
	run := func(set func(ctx activity.Context)) *Behaviour {
		return &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			runs++
			if retry && runs < n {
				return false, activity.NewRetriableError("again", "", nil)
			}
			set(ctx)
			return true, nil
		}}
	}
	s := newGraphPre("s", "S", 1)
	sr := s.rep()
	outputs(sr, "out")
	setFlows(provider{"sub": sr})
	behaviours["s/S0"] = run(func(ctx activity.Context) { setAttr(ctx, "out", v[runs-1]) })
	g := newGraph("f", 1)
	r := g.rep()
	if !sub {
		*behaviourOf("f", "T1") = *run(func(ctx activity.Context) { _ = ctx.SetOutput("out", v[runs-1]) })
	}
	inputsOf(r, map[string]interface{}{"n": nil})
	if handler {
		g.fails[0] = true
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{t}}
	} else {
		r.Tasks = append(r.Tasks, t)
		r.Links = append(r.Links, link("T0", "T1", "", ""))
	}
	exprs["a0"] = func(s data.Scope) (interface{}, error) {
		o, err := definition.GetDataResolver().Resolve("$activity[T1].out", s)
		if broken {
			return nil, errText("broken")
		}
		return err == nil && o == w, nil
	}
	ti := &support.TaskInterceptor{ID: "f-T1", Type: support.AssertionActivity, Assertions: []support.Assertion{{ID: "a", Name: "a", Type: support.Primitive, Expression: "a0"}}}
	inst := newInst(mustDef(r))
	instance.ApplyExecOptions(inst, &instance.ExecOptions{Interceptor: &support.Interceptor{TaskInterceptors: []*support.TaskInterceptor{ti}, Coverage: &support.Coverage{}}})
	inst.Start(map[string]interface{}{"n": n})
	vsym.Assert(drive(inst, 30) && inst.Status() == model.FlowStatusCompleted, "run ends")
	vsym.Observe("result", ti.Result, ti.Assertions[0].Result, runs)
	vsym.Assert(runs == n, "assertions do not change the outcome")
	vsym.Assert(ti.Result == support.Pass, "a succeeding task is reported")
	if retry && n > 1 {
		vsym.Reach("failed before")
	}
	if !broken && v[n-1] == w {
		vsym.Reach("passed")
		vsym.Assert(ti.Assertions[0].Result == support.Pass, "an assertion is reported with its actual result")
	} else {
		vsym.Reach("failed assertion")
		vsym.Assert(ti.Assertions[0].Result == support.Fail, "an assertion is reported with its actual result")
	}
}

// C19_Nothing: an interceptor replaces an input, which the task has or not, by nothing, and an output, which the activity sets or not.
//
// Reaches: input, output
func C19_Nothing() {
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T0", ""), task("T1", "")}, Links: []*definition.LinkRep{link("T0", "T1", "", "")}}
	x := vsym.Int("x")
	inputsOf(r, map[string]interface{}{"x": x})
	if vsym.Choice("mapped", 2) == 1 {
		r.Tasks[0].ActivityCfgRep.Input = map[string]interface{}{"in": "=$flow.x"}
	}
	r.Tasks[1].ActivityCfgRep.Input = map[string]interface{}{"in": "=$activity[T0].out"}
	names := []string{"in", "num"} // any type, integer
	ti := &support.TaskInterceptor{ID: "f-T0", Type: support.MockActivity, Inputs: map[string]interface{}{}, Outputs: map[string]interface{}{}}
	in, out := vsym.Choice("in", 2) == 1, vsym.Choice("out", 2) == 1
	if in {
		ti.Inputs[names[0]] = nil
	}
	if out {
		ti.Outputs["out"] = nil
	}
	sets, ran := vsym.Choice("sets", 2) == 1, 0
	*behaviourOf("f", "T0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		ran++
		if in {
			vsym.Reach("input")
			vsym.Assert(ctx.GetInput("in") == nil, "the input is replaced by nothing")
		} else {
			vsym.Assert(ctx.GetInput("in") == x == (len(r.Tasks[0].ActivityCfgRep.Input) > 0), "the input is not replaced")
		}
		if sets {
			_ = ctx.SetOutput("out", x)
		}
		return true, nil
	}}
	*behaviourOf("f", "T1") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		ran++
		if out {
			vsym.Reach("output")
			vsym.Assert(ctx.GetInput("in") == nil, "the output is replaced by nothing")
		} else {
			vsym.Assert(ctx.GetInput("in") == x == sets, "the output is not replaced")
		}
		return true, nil
	}}
	inst := newInst(mustDef(r))
	instance.ApplyExecOptions(inst, &instance.ExecOptions{Interceptor: &support.Interceptor{TaskInterceptors: []*support.TaskInterceptor{ti}, Coverage: &support.Coverage{}}})
	inst.Start(nil)
	vsym.Assert(drive(inst, 30), "run ends")
	vsym.Observe("status", int(inst.Status()), ran)
	if out || sets {
		vsym.Assert(inst.Status() == model.FlowStatusCompleted && ran == 2, "every task runs")
	} else {
		vsym.Assert(inst.Status() == model.FlowStatusFailed && ran == 1, "an output that is not there cannot be mapped")
	}
}

// C19_Omitted: the flow of C19_Mocks, with an entry that gives just the id of any of its tasks, or of that of the flow it calls, or of none, and replaces the
// input of the task or skips it.
//
// Reaches: replaced, skipped
func C19_Omitted() {
	def, calls := mockedFlow()
	x, v := vsym.Int("x"), vsym.Int("v")
	names := []string{"T0", "T1", "S0", "T3", "T9"}
	at, skip := vsym.Choice("task", len(names)), vsym.Choice("skip", 2) == 1
	e := &support.TaskInterceptor{ID: names[at]}
	if skip {
		vsym.Assume(at > 1) // the next task needs the output
		e.Skip = true
	} else {
		e.Inputs = map[string]interface{}{"in": v}
	}
	vsym.Assume(!skip || at != 2)
	inst := newInst(def)
	instance.ApplyExecOptions(inst, &instance.ExecOptions{Interceptor: &support.Interceptor{TaskInterceptors: []*support.TaskInterceptor{e}}})
	inst.Start(map[string]interface{}{"x": x})
	vsym.Assert(drive(inst, 30) && inst.Status() == model.FlowStatusCompleted, "run ends")
	n, cur := 0, x
	for i := 0; i < 4; i++ {
		if i == at && skip {
			vsym.Reach("skipped")
			continue
		}
		if i == at {
			vsym.Reach("replaced")
			cur = v
		}
		vsym.Assert(n < len(*calls) && (*calls)[n].task[2:] == names[i] && (*calls)[n].in == cur, "tasks get the inputs that are replaced or mapped")
		cur++
		n++
	}
	vsym.Assert(len(*calls) == n, "exactly the tasks that are not skipped are executed")
}

// C19_PatchedOutput: the output mapping of a task, which ends at once or calls a flow, runs once or, iterating or repeating itself, up to 3 times, collecting its outputs or not, is replaced by one of an output and
// an expression, which may fail or panic in any of the runs.
//
// Reaches: mapped, collected, failed
func C19_PatchedOutput() {
	n := 1 + vsym.Choice("n", 3)
	v := vsym.Int("v")
	kind := vsym.Choice("kind", 4) // plain, iterating, collecting, repeating and collecting
	vsym.Assume(kind > 0 || n == 1)
	calls := vsym.Choice("calls", 2) == 1
	bad := vsym.Range("bad", 0, 3)
	how := vsym.Choice("how", 2)
	g, r := loopFlow(nil)
	t := r.Tasks[1]
	if kind > 0 {
		t.Type = "iterator"
		t.Settings = map[string]interface{}{"iterate": n}
	}
	if kind >= 2 {
		t.Settings["accumulate"] = true
	}
	maps, runs := 0, 0
	if kind == 3 {
		t.Type = "doWhile"
		t.Settings = map[string]interface{}{"condition": "=again", "accumulate": true}
		exprs["again"] = func(data.Scope) (interface{}, error) { return runs < n, nil }
	}
	exprs["script"] = func(data.Scope) (interface{}, error) {
		maps++
		if maps == bad && how == 0 {
			return nil, errText("bad")
		}
		if maps == bad {
			panic("bad")
		}
		return v + maps, nil
	}
	end := func(ctx activity.Context) (bool, error) {
		runs++
		_ = ctx.SetOutput("out", v-runs)
		return true, nil
	}
	if calls {
		sr := &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}
		outputs(sr, "out")
		behaviours["s/S0"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			runs++
			ctx.ActivityHost().Return(map[string]interface{}{"out": v - runs}, nil)
			return true, nil
		}}
		behaviours["f/T1"] = hostBehaviour("sub", nil)
		setFlows(provider{"sub": sr})
	} else {
		behaviours["f/T1"] = &Behaviour{Eval: end}
	}
	seen := 0
	before("f/T2", func(ctx activity.Context) {
		seen++
		if kind >= 2 {
			a, _ := sees(ctx, "$activity[T1]").([]interface{})
			vsym.Assert(len(a) == n, "the outputs are collected")
			vsym.Reach("collected")
		}
		vsym.Assert(maps == 0 || sees(ctx, "$flow.res") == v+n && sees(ctx, "$flow.copy") == v-n, "the patched output mapping is applied")
		vsym.Assert(maps > 0 || sees(ctx, "$flow.res") == nil, "the patched output mapping is applied")
	})
	inst := newInst(mustDef(r))
	p := &support.TaskPatch{ID: "T1", Output: map[string]interface{}{"res": "=script", "copy": "=$.out"}}
	instance.ApplyExecOptions(inst, &instance.ExecOptions{Patch: &support.Patch{TaskPatches: []*support.TaskPatch{p}}})
	inst.Start(nil)
	vsym.Assert(drive(inst, 30), "run ends")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
	vsym.Assert((maps == 0) == (kind == 2) && (kind == 2 || maps == runs), "the patched output mapping is applied after each run")
	if maps > 0 && maps == bad {
		vsym.Reach("failed")
		vsym.Assert(runs == bad && seen == 0 && g.evals[3] == 1, "a task whose output mapping fails fails")
		return
	}
	vsym.Reach("mapped")
	vsym.Assert(runs == n && seen == 1 && g.evals[3] == 0, "the task finishes once")
}

// C19_Attempts: a task with an interceptor that replaces its input or nothing is retried up to 2 times, or iterates, and fails in any of its runs, by itself or with a panic; what is
// reported of it is how the last of its runs ended.
//
// Reaches: passed, failed
func C19_Attempts() {
	g, r := loopFlow(nil)
	t := r.Tasks[1]
	count, iterates := vsym.Choice("count", 3), vsym.Choice("iterates", 2) == 1
	if iterates {
		t.Type = "iterator"
		t.Settings = map[string]interface{}{"iterate": count + 1}
	} else {
		t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": count, "interval": 0}}
	}
	v, w := vsym.Int("v"), vsym.Int("w")
	t.ActivityCfgRep.Input = map[string]interface{}{"in": v}
	runs, failed := 0, false
	replaced := vsym.Choice("input", 2) == 1
	behaviours["f/T1"] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		runs++
		if replaced {
			vsym.Assert(ctx.GetInput("in") == w, "the input is replaced each time")
		} else {
			vsym.Assert(ctx.GetInput("in") == v, "no other input is replaced")
		}
		failed = vsym.Bool("fails")
		if failed {
			return false, activity.NewRetriableError("bad"+string(rune('0'+runs)), "", nil)
		}
		return true, nil
	}}
	ti := &support.TaskInterceptor{ID: "f-T1"}
	if replaced {
		ti.Inputs = map[string]interface{}{"in": w}
	}
	inst := newInst(mustDef(r))
	instance.ApplyExecOptions(inst, &instance.ExecOptions{Interceptor: &support.Interceptor{TaskInterceptors: []*support.TaskInterceptor{ti}}})
	inst.Start(nil)
	vsym.Assert(drive(inst, 30), "run ends")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && g.evals[2]+g.evals[3] == 1 && (g.evals[3] == 1) == failed, "the task ends as its last run did")
	if failed {
		vsym.Reach("failed")
		vsym.Assert(ti.Result == support.Fail && ti.Message == "bad"+string(rune('0'+runs)), "a task is reported with its actual result")
	} else {
		vsym.Reach("passed")
		vsym.Assert(ti.Result == support.Pass, "a task is reported with its actual result")
	}
}
