package h

import (
	"strconv"

	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	appresolve "github.com/project-flogo/core/app/resolve"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/model"
)

// number gives a number between 0 and 9 in any accepted form of a setting: as a number of any type,
// as text or as a reference to any of these. Several numbers of one form are given together.
func numbers(form int, in map[string]interface{}, names []string, values []int) []interface{} {
	var r []interface{}
	for i, n := range values {
		var v interface{} = n
		switch form % nNumbers {
		case 1:
			v = int64(n)
		case 2:
			v = float64(n)
		case 3:
			v = string(rune('0' + n))
		case 4:
			v = int32(n)
		}
		if form >= nNumbers {
			in[names[i]] = v
			v = "=$flow." + names[i]
		}
		r = append(r, v)
	}
	return r
}

// Forms of numbers, the first nNumbers of them literal.
const (
	nNumbers     = 5
	nNumberForms = 2 * nNumbers
)

// C21_Retry: a count of -1 to 3 and an interval of 0 to 4 times 0.4 s, given as numbers of any type, as
// text, as a reference to any of these or not at all, in the main flow's task; the task always fails
// with a retriable error: it runs exactly as often, and as far apart, as the settings say.
//
// Shards: 4
// Reaches: retried
func C21_Retry() {
	g := newGraphPre("f", "T", 3)
	g.addEdge(0, 1, kDep)
	g.addEdge(1, 2, kError)
	r := g.rep()
	count, interval := vsym.Range("count", 0, 3), vsym.Range("interval", 0, 4)
	in := map[string]interface{}{}
	cfg := map[string]interface{}{}
	if vsym.Bool("counted") {
		cfg["count"] = numbers(vsym.Choice("count form", nNumberForms), in, []string{"c"}, []int{count})[0]
	} else {
		count = 0
		if vsym.Bool("null") {
			cfg["count"] = nil
		}
	}
	if vsym.Bool("timed") {
		// the interval in ms, as the digit times 400 or, as text, the digit followed by zeros
		switch vsym.Choice("interval form", 5) {
		case 0:
			interval *= 400
			cfg["interval"] = interval
		case 1:
			interval *= 400
			cfg["interval"] = float64(interval)
		case 2:
			cfg["interval"] = string([]byte{byte('0' + interval), '0', '0'})
			interval *= 100
		case 3:
			in["i"] = string([]byte{byte('0' + interval), '0', '0'})
			cfg["interval"] = "=$flow.i"
			interval *= 100
		case 4:
			in["i"] = 400 * interval
			cfg["interval"] = "=$flow.i"
			interval *= 400
		}
	} else {
		interval = 0
	}
	r.Tasks[1].Settings = map[string]interface{}{"retryOnError": cfg}
	runs := 0
	behaviours["f/T1"].Eval = func(ctx activity.Context) (bool, error) {
		if runs > 0 {
			vsym.Assert(vsym.Waited(interval), "waits the interval before a retry")
			vsym.Reach("retried")
		} else {
			vsym.Waited(0)
		}
		runs++
		return false, activity.NewRetriableError("again", "", nil)
	}
	inst := newInst(mustDef(r))
	inst.Start(in)
	vsym.Assert(drive(inst, 8), "run ends")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && g.evals[2] == 1, "the error is handled")
	vsym.Assert(runs == 1+max(count, 0), "retries exactly as often as configured")
	g.observe(inst.Status())
}

// C21_RetryAny: the retry count and interval that a loaded task shows when they are asked for, given as any
// 64-bit number of any type, text of up to three digits with or without a sign, or a reference to any of
// these in a flow's data.
//
// Shards: 2
// Reaches: count, interval
func C21_RetryAny() {
	var v interface{}
	var want int
	switch vsym.Choice("form", 5) {
	case 0:
		want = vsym.Int("n")
		v = want
	case 1:
		n := vsym.Int64("n")
		v, want = n, int(n)
	case 2:
		n := vsym.Int32("n")
		v, want = n, int(n)
	case 3:
		want = vsym.Range("n", -1000000, 1000000)
		v = float64(want)
	case 4:
		a, b, c := vsym.Range("a", 0, 9), vsym.Range("b", 0, 9), vsym.Range("c", 0, 9)
		want = 100*a + 10*b + c
		t := string([]byte{byte('0' + a), byte('0' + b), byte('0' + c)})
		switch vsym.Choice("sign", 3) {
		case 1:
			t, want = "-"+t, -want
		case 2:
			t = "+" + t
		}
		v = t
	}
	scope := data.NewSimpleScope(map[string]interface{}{"x": v}, nil)
	if vsym.Bool("reference") {
		v = "=$.x"
	}
	setting := []string{"count", "interval"}[vsym.Choice("setting", 2)]
	t := task("T1", "")
	t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{setting: v}}
	cfg := mustDef(&definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{t}}).GetTask("T1").RetryOnErrConfig()
	for i := 0; i < 2; i++ {
		n, err := cfg.Count(scope)
		m, err2 := cfg.Interval(scope)
		vsym.Assert(err == nil && err2 == nil, "the settings can be used")
		if setting == "count" {
			vsym.Reach("count")
			vsym.Assert(n == want && m == 0, "the count is the one given")
		} else {
			vsym.Reach("interval")
			vsym.Assert(m == want && n == 0, "the interval is the one given")
		}
	}
}

// appValues stands in for the application's properties.
type appValues map[string]interface{}

// Resolve resolves what settings refer to.
func (a appValues) Resolve(ref string, scope data.Scope) (interface{}, error) {
	if v, ok := a[ref]; ok {
		return v, nil
	}
	return nil, errText("no value " + ref)
}

// loopSettings puts the settings of a loop where they are accepted.
func loopSettings(s map[string]interface{}) map[string]interface{} {
	switch vsym.Choice("under", 4) {
	case 3:
		a, ok := s["accumulate"]
		delete(s, "accumulate")
		o := map[string]interface{}{"doWhile": s}
		if ok {
			o["accumulate"] = a
		}
		return o
	case 1:
		return map[string]interface{}{"loopConfig": s}
	case 2:
		return map[string]interface{}{"doWhile": s}
	}
	return s
}

// C21_Loop: an iterator over 0 to 3 (given as number of any type, as text or by reference, under either
// name) or a do-while loop with as many runs, a delay of 0 to 2 times 0.4 s in any form, accumulating or not in any
// form, configured directly, under a loop object or with accumulate next to it: it runs as often, as far apart and accumulates as
// the settings say.
//
// Shards: 4
// Reaches: repeated, accumulated
func C21_Loop() {
	n := vsym.Range("n", 0, 3)
	in := map[string]interface{}{}
	s := map[string]interface{}{}
	iterator := vsym.Bool("iterator")
	t := task("T1", "doWhile")
	if iterator {
		t.Type = "iterator"
		name := []string{"iterate", "iterateOn"}[vsym.Choice("name", 2)]
		form := vsym.Choice("form", nNumberForms-1)
		if form%nNumbers == 4 {
			// 32-bit numbers cannot be iterated over
			form = nNumberForms - 2
		}
		s[name] = numbers(form, in, []string{"n"}, []int{n})[0]
	} else {
		s["condition"] = "more"
	}
	app := appValues{}
	appresolve.SetAppResolver(app)
	delay := 400 * vsym.Range("delay", 0, 2)
	switch vsym.Choice("delay form", 6) {
	case 0:
		s["delay"] = delay
	case 1:
		s["delay"] = float64(delay)
	case 2:
		delay = 400
		s["delay"] = "400"
	case 3:
		delay = 400
		vsym.Setenv("D", "400")
		app["$env[D]"] = "400"
		s["delay"] = "=$env[D]"
	case 4:
		delay = 0
		s["delay"] = nil
	case 5:
		delay = 0
	}
	accumulate := vsym.Bool("accumulate")
	switch vsym.Choice("accumulate form", 4) {
	case 0:
		s["accumulate"] = accumulate
	case 1:
		s["accumulate"] = strconv.FormatBool(accumulate)
	case 2:
		s["accumulate"] = 0
		if accumulate {
			s["accumulate"] = 1
		}
	case 3:
		accumulate = false
	}
	t.Settings = loopSettings(s)
	g, r := loopFlow(t)
	r.Tasks[2].ActivityCfgRep.Input = map[string]interface{}{"in": "=$activity[T1].out"}
	if accumulate {
		r.Tasks[2].ActivityCfgRep.Input = map[string]interface{}{"in": "=$activity[T1]"}
	}
	runs := 0
	exprs["more"] = func(data.Scope) (interface{}, error) { return runs < n, nil }
	behaviours["f/T1"].Eval = func(ctx activity.Context) (bool, error) {
		if runs > 0 {
			vsym.Assert(vsym.Waited(delay), "waits the delay between runs")
			vsym.Reach("repeated")
		} else {
			vsym.Waited(0)
		}
		runs++
		return true, ctx.SetOutput("out", runs)
	}
	var got interface{}
	before("f/T2", func(ctx activity.Context) { got = ctx.GetInput("in") })
	inst := newInst(mustDef(r))
	inst.Start(in)
	vsym.Assert(drive(inst, 12), "run ends")
	if !iterator && n == 0 {
		n = 1
	}
	g.observe(inst.Status())
	vsym.Assert(runs == n, "runs as often as configured")
	if runs == 0 {
		return
	}
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && g.evals[2] == 1, "the flow goes on")
	if !accumulate {
		vsym.Assert(got == runs, "only the outputs of the last run are kept")
		return
	}
	vsym.Reach("accumulated")
	l, ok := got.([]interface{})
	vsym.Assert(ok && len(l) == runs, "the outputs of all runs are kept")
}

// C21_Unusable: a retry count, retry interval, delay, accumulate, iterate or condition setting that
// cannot be used: text that is no number or truth value, a malformed expression, a list, an object, a
// reference to such a value, or an expression without a value. It is rejected when the flow is loaded or fails its task when it
// is used.
//
// Shards: 2
// Reaches: rejected, failed
func C21_Unusable() {
	vsym.Setenv("D", "x")
	appresolve.SetAppResolver(appValues{"$env[D]": "x"})
	in := map[string]interface{}{}
	setting := []string{"count", "interval", "delay", "accumulate", "iterate", "condition"}[vsym.Choice("setting", 6)]
	var v interface{}
	switch vsym.Choice("bad", 7) {
	case 0:
		v = "bad x"
	case 1:
		v = "=bad x"
	case 2:
		v = []interface{}{1}
		vsym.Assume(setting != "iterate")
	case 3:
		v = map[string]interface{}{"a": "b"}
		vsym.Assume(setting != "iterate")
	case 4:
		v = ""
		vsym.Assume(setting != "condition")
	case 5:
		in["x"] = "text"
		v = "=$flow.x"
		if setting == "delay" {
			v = "=$env[D]"
		}
	case 6:
		v = "1x"
		if vsym.Bool("computed") {
			v = "=1x"
		}
		exprs["1x"] = func(data.Scope) (interface{}, error) { return nil, errText("no meaning") }
	}
	t := task("T1", "iterator")
	s := map[string]interface{}{"iterate": 2}
	if setting == "condition" {
		t.Type = "doWhile"
		s = map[string]interface{}{}
	}
	if setting == "count" || setting == "interval" {
		t.Type = ""
		rc := map[string]interface{}{"count": 1}
		rc[setting] = v
		s = map[string]interface{}{"retryOnError": rc}
	} else {
		s[setting] = v
	}
	t.Settings = s
	if t.Type != "" {
		t.Settings = loopSettings(s)
	}
	g, r := loopFlow(t)
	behaviours["f/T1"].Eval = func(ctx activity.Context) (bool, error) {
		if t.Type == "" {
			return false, activity.NewRetriableError("again", "", nil)
		}
		return true, nil
	}
	d, err := definition.NewDefinition(r)
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	message := interface{}(nil)
	behaviours["f/T3"].Eval = func(ctx activity.Context) (bool, error) {
		g.evals[3]++
		message = sees(ctx, "$error.message")
		return true, nil
	}
	inst := newInst(d)
	inst.Start(in)
	vsym.Assert(drive(inst, 12), "run ends")
	g.observe(inst.Status())
	vsym.Reach("failed")
	vsym.Assert(message != "again", "the error of the task tells of the setting")
	vsym.Assert(g.evals[2] == 0 && g.evals[3] == 1, "the task fails")
}

// C21_Delay: an iterating or do-while task with up to 4 runs whose activity finishes at once or goes on later, in either
// case possibly after a retry, with a delay of 0 to 2 and a retry interval of 0 to 2 times 0.3 s.
//
// Shards: 4
// Reaches: delayed, retried
func C21_Delay() {
	n := vsym.Range("n", 1, 4)
	delay, interval := 300*vsym.Range("delay", 0, 2), 300*vsym.Range("interval", 0, 2)
	later := vsym.Bool("later")
	retryAt := vsym.Range("retryAt", -1, 3)
	t := task("T1", "iterator")
	t.Settings = map[string]interface{}{"iterate": n, "delay": delay, "retryOnError": map[string]interface{}{"count": 1, "interval": interval}}
	runs := 0
	if vsym.Bool("while") {
		t.Type = "doWhile"
		delete(t.Settings, "iterate")
		t.Settings["condition"] = "more"
		exprs["more"] = func(data.Scope) (interface{}, error) { return runs < n, nil }
	}
	g, r := loopFlow(t)
	setFlows(provider{"sub": &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}})
	tried, again, waits := false, false, 0
	finish := func() (bool, error) {
		if runs == retryAt && !tried {
			tried, again = true, true
			waits += interval
			return false, activity.NewRetriableError("again", "", nil)
		}
		runs++
		return true, nil
	}
	host := hostBehaviour("sub", nil).Eval
	behaviours["f/T1"].Eval = func(ctx activity.Context) (bool, error) {
		if again {
			vsym.Reach("retried")
			again = false
		} else {
			// the delay passes once from one run to the next
			vsym.Assert(vsym.Waited(waits), "waits the delay between runs and the interval before a retry")
			waits = delay
			if runs > 0 {
				vsym.Reach("delayed")
			}
		}
		if later {
			return host(ctx)
		}
		return finish()
	}
	behaviours["f/T1"].Post = func(activity.Context) (bool, error) { return finish() }
	vsym.Waited(0)
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 40), "run ends")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && g.evals[2] == 1 && g.evals[3] == 0, "the flow goes on")
	vsym.Assert(runs == n, "runs as often as configured")
	g.observe(inst.Status())
}

// C21_Negative: a retry interval or loop delay that is any negative number above -3000 is no wait, and a retry count that is any negative number is no retry.
//
// Reaches: retried, repeated
func C21_Negative() {
	less := vsym.Int("less")
	vsym.Assume(less < 0 && less > -3000 && (less <= -1000) == (vsym.Choice("far", 2) == 1))
	count := vsym.Range("count", -2, 2)
	t := task("T1", "iterator")
	t.Settings = map[string]interface{}{"iterate": 2, "delay": less, "retryOnError": map[string]interface{}{"count": count, "interval": less}}
	g, r := loopFlow(t)
	runs, second := 0, vsym.Bool("second")
	behaviours["f/T1"].Eval = func(ctx activity.Context) (bool, error) {
		vsym.Assert(vsym.Waited(0), "does not wait")
		runs++
		if runs == 1 && second {
			return true, nil
		}
		if runs > 1 {
			vsym.Reach("retried")
		}
		return false, activity.NewRetriableError("again", "", nil)
	}
	vsym.Waited(0)
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 12), "run ends")
	g.observe(inst.Status())
	want := 1 + max(count, 0)
	if second {
		vsym.Reach("repeated")
		want++
	}
	vsym.Assert(runs == want, "retries exactly as often as configured")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && g.evals[3] == 1, "the error is handled")
}

// C21_Own: settings of a task of a subflow, or of its error handler, that refer to data of the flow are those of the subflow, whatever there is in the flow
// calling it; given as iterate or iterateOn (the other one possibly null), as condition, or as retry count.
//
// Reaches: iterated, retried
func C21_Own() {
	n, other := vsym.Range("n", 0, 3), vsym.Range("other", -1, 3)
	handler := vsym.Choice("handler", 2) == 1
	kind := vsym.Choice("kind", 4)
	t := task("L", "")
	runs := 0
	want := n
	fails := false
	switch kind {
	case 0, 1:
		t.Type = "iterator"
		names := []string{"iterate", "iterateOn"}
		t.Settings = map[string]interface{}{names[kind]: "=$flow.n", "own": "=$flow.n"}
		if kind == 1 && vsym.Choice("null", 2) == 1 {
			t.Settings["iterate"] = nil
		}
	case 2:
		t.Type = "doWhile"
		t.Settings = map[string]interface{}{"condition": "=more", "own": "=$flow.n"}
		exprs["more"] = func(s data.Scope) (interface{}, error) {
			v, _ := s.GetValue("n")
			m, ok := v.(int)
			return ok && runs < m, nil
		}
		want = max(n, 1)
	case 3:
		t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": "=$flow.n"}, "own": "=$flow.n"}
		want = n + 1
		fails = true
	}
	*behaviourOf("s", "L") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		runs++
		if _, ok := ctx.(settings); ok {
			vsym.Assert(setting(ctx, "own") == n, "a task sees its settings")
		}
		if fails {
			return false, activity.NewRetriableError("again", "", nil)
		}
		return true, nil
	}}
	s := newGraphPre("s", "S", 1)
	sr := s.rep()
	inputsOf(sr, map[string]interface{}{"n": nil})
	if handler {
		s.fails[0] = true
		sr.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{t}}
	} else {
		sr.Tasks = append(sr.Tasks, t)
		sr.Links = append(sr.Links, link("S0", "L", "", ""))
	}
	setFlows(provider{"sub": sr})
	m := newGraphPre("f", "M", 3)
	m.addEdge(0, 1, kDep)
	m.addEdge(0, 2, kError)
	mr := m.rep()
	in := map[string]interface{}{}
	if other >= 0 {
		in["n"] = other
	}
	*behaviourOf("f", "M0") = *hostBehaviour("sub", map[string]interface{}{"n": n})
	inst := newInst(mustDef(mr))
	inst.Start(in)
	vsym.Assert(drive(inst, 40), "run ends")
	m.observe(inst.Status())
	vsym.Assert(runs == want, "the settings of a task are those of its flow")
	if kind == 3 {
		vsym.Reach("retried")
		vsym.Assert(m.evals[2] == 1, "the subflow fails")
	} else {
		vsym.Reach("iterated")
		vsym.Assert(m.evals[1] == 1, "the subflow completes")
	}
}

// settings is a context that gives the settings of its task.
type settings interface {
	GetSetting(string) (interface{}, bool)
}

// setting is a setting of the task of an activity, nil if it has none or does not tell.
func setting(ctx activity.Context, name string) interface{} {
	if s, ok := ctx.(settings); ok {
		v, _ := s.GetSetting(name)
		return v
	}
	return nil
}
