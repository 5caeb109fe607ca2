package h

import (
	"context"
	"encoding/json"

	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/metadata"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/support"
)

// C05_Outcomes: a flow with a linked chain of three tasks, an independent task and an optional
// error handler is run through the flow action. The first task replies, returns data or an error, or does
// neither; every task may fail, by any kind of failure; the caller may ask for the instance id.
//
// Shards: 4
func C05_Outcomes() {
	m := newGraphPre("f", "M", 3)
	m.addEdge(0, 1, kDep)
	how := vsym.Choice("how", nFailures)
	for i := range m.fails {
		m.fails[i] = vsym.Bool("fail" + m.tn(i))
		m.how[i] = how
	}
	h := newGraphPre("f", "H", 1)
	r := m.rep()
	r.Metadata = &metadata.IOMetadata{Output: map[string]data.TypedValue{"o": data.NewAttribute("o", data.TypeAny, nil)}}
	handler := vsym.Choice("handler", 2) == 1
	if handler {
		h.fails[0] = vsym.Bool("failH")
		h.how[0] = how
		r.ErrorHandler = h.handlerRep()
	}
	const nothing, reply, replyErr, ret, retErr = 0, 1, 2, 3, 4
	act := vsym.Choice("act", 5)
	v := vsym.Int("v")
	old := behaviours["f/M0"].Eval
	behaviours["f/M0"].Eval = func(ctx activity.Context) (bool, error) {
		_, has := ctx.ActivityHost().Scope().GetValue("_run_options")
		vsym.Assert(!has, "how the flow is run is no data of the flow")
		ok, err := old(ctx)
		if err != nil {
			return ok, err
		}
		d := map[string]interface{}{"o": v}
		switch act {
		case reply:
			ctx.ActivityHost().Reply(d, nil)
		case replyErr:
			ctx.ActivityHost().Reply(nil, errText("reply"))
		case ret:
			ctx.ActivityHost().Return(d, nil)
		case retErr:
			ctx.ActivityHost().Return(nil, errText("return"))
		}
		return true, nil
	}
	initAction(nil, nil, mustDef(r))
	opts := &instance.RunOptions{}
	opts.ReturnID = vsym.Choice("id", 2) == 1
	opts.PreservedInstanceId = "my"
	o, err := runAct(newAction("res://flow:f"), nil, opts)
	vsym.Assert(err == nil, "run starts")
	vsym.Observe("results", len(o.results), o.done)
	vsym.Assert(o.done == 1, "completion is signalled exactly once")
	vsym.Assert(o.doneAt == len(o.results), "completion comes after all results")

	// intermediate results
	n := 0
	if opts.ReturnID {
		vsym.Assert(len(o.results) > 0 && o.results[0]["id"] == "my" && o.errs[0] == nil && o.ranAt[0] == 0, "instance id is returned first")
		n++
	}
	ok0 := m.evals[0] == 1 && !m.fails[0]
	if ok0 && (act == reply || act == replyErr) {
		vsym.Assert(len(o.results) > n, "reply is delivered")
		if act == reply {
			vsym.Assert(o.errs[n] == nil && len(o.results[n]) == 1 && o.results[n]["o"] == v, "reply is delivered unchanged")
		} else {
			vsym.Assert(o.errs[n] != nil && o.errs[n].Error() == "reply", "error reply is delivered unchanged")
		}
		n++
	}
	vsym.Assert(len(o.results) == n+1, "exactly one final result")
	res, ferr := o.results[n], o.errs[n]

	failed := false
	for i := range m.fails {
		if m.evals[i] > 0 && m.fails[i] && (!handler || h.fails[0]) {
			failed = true
		}
	}
	switch {
	case failed:
		vsym.Reach("failed")
		vsym.Assert(ferr != nil, "a failed flow gives an error")
	case ok0 && act == retErr:
		vsym.Assert(ferr != nil && ferr.Error() == "return", "the returned error is given")
	default:
		vsym.Reach("completed")
		vsym.Assert(ferr == nil, "a completed flow gives no error")
		if ok0 && act == ret {
			vsym.Assert(len(res) == 1 && res["o"] == v, "the returned data is given")
		}
	}
}

// C05_Detached: a run with detached execution, whose id may be asked for, is completed once, while its first task is still
// running, and goes on to its one final result all the same. Any other run is completed only after its end.
func C05_Detached() {
	m := newGraphPre("f", "M", 2)
	m.addEdge(0, 1, kDep)
	m.fails[1] = vsym.Bool("fail")
	gate := make(chan bool)
	r := m.rep()
	before("f/M0", func(activity.Context) { <-gate })
	initAction(nil, nil, mustDef(r))
	detached, id := vsym.Choice("detached", 2) == 1, vsym.Choice("id", 2) == 1
	opts := &instance.RunOptions{DetachExecution: detached, ReturnID: id}
	o := &outcome{}
	err := newAction("res://flow:f").Run(context.Background(), map[string]interface{}{"_run_options": opts}, o)
	vsym.Assert(err == nil, "run starts")
	vsym.Yield()
	o.mu.Lock()
	n := 0
	if id {
		n++
	}
	if detached {
		vsym.Reach("detached")
		vsym.Assert(o.done == 1, "a detached run is not waited for")
	} else {
		vsym.Reach("not detached")
		vsym.Assert(o.done == 0, "completion comes after all results")
	}
	vsym.Assert(len(o.results) == n, "the result comes at the end of the flow")
	o.mu.Unlock()
	close(gate)
	o.wait(detached)
	vsym.Observe("results", len(o.results), o.done)
	vsym.Assert(o.done == 1, "completion is signalled exactly once")
	vsym.Assert(m.evals[0] == 1 && m.evals[1] == 1, "detached flow runs")
	vsym.Assert(len(o.results) == n+1, "exactly one final result")
	vsym.Assert((o.errs[n] != nil) == m.fails[1], "result agrees with the outcome")
}

// C05_Limit: chains of up to five tasks, the last of which may fail, run with a limit of four steps.
//
// Env: FLOGO_MAX_STEP_COUNT=4
func C05_Limit() {
	n := 1 + vsym.Choice("n", 5)
	m := newGraphPre("f", "M", n)
	for i := 0; i+1 < n; i++ {
		m.addEdge(i, i+1, kDep)
	}
	m.fails[n-1] = vsym.Bool("fail")
	initAction(nil, nil, mustDef(m.rep()))
	o, err := runFlow("res://flow:f", nil)
	vsym.Assert(err == nil, "run starts")
	vsym.Observe("results", len(o.results), o.done)
	vsym.Assert(o.done == 1 && len(o.results) == 1 && o.doneAt == 1, "one result, then completion")
	if n > 4 {
		vsym.Reach("limit")
		vsym.Assert(o.errs[0] != nil, "a flow stopped by the step limit gives an error")
	} else {
		vsym.Assert((o.errs[0] != nil) == m.fails[n-1], "result agrees with the outcome")
	}
}

// C05_Rejected: run requests for any operation, with and without flow, and without initial state, with one that is set up already, or with a
// restored one whose flow is known or unknown, or whose subflow is unknown.
func C05_Rejected() {
	m := newGraphPre("f", "M", 1)
	def := mustDef(m.rep())
	initAction(nil, nil, def)
	opts := &instance.RunOptions{Op: vsym.Range("op", 0, 5)}
	form := vsym.Choice("state", 5)
	state := form > 0 && form < 3
	if form > 0 {
		i := newInst(def)
		i.Start(nil)
		opts.InitialState = i
		if form > 1 {
			text := parsed(stored(i))
			switch form {
			case 3:
				text["flowUri"] = "res://flow:g"
			case 4:
				text["subFlows"] = []interface{}{map[string]interface{}{"subFlowId": 1, "flowUri": "res://flow:g", "status": 100, "hostTaskId": "M0",
					"attrs": map[string]interface{}{}, "tasks": []interface{}{}, "links": []interface{}{}}}
				text["subFlowCtr"] = 1
			}
			b, err := json.Marshal(text)
			vsym.Assert(err == nil, "text")
			opts.InitialState = &instance.IndependentInstance{}
			vsym.Assert(json.Unmarshal(b, opts.InitialState) == nil, "a serialised instance can be read")
		}
	}
	if vsym.Choice("uri", 2) == 1 {
		opts.FlowURI = "ftp://nowhere"
	}
	o, err := runAct(newAction("res://flow:f"), map[string]interface{}{}, opts)
	vsym.Observe("started", err == nil, m.evals[0])
	start := opts.Op == instance.OpStart || (state && (opts.Op == instance.OpRestart || opts.Op == instance.OpResume))
	vsym.Assert((err == nil) == start, "only requests that can be started are accepted")
	if err != nil {
		vsym.Reach("rejected")
		vsym.Assert(len(o.results) == 0 && o.done == 0 && m.evals[0] == 0, "nothing runs for a rejected request")
	} else {
		vsym.Assert(len(o.results) == 1 && o.done == 1, "one result, then completion")
	}
	_, err = runAct(newAction("res://flow:f"), nil, nil)
	vsym.Assert(err == nil, "later requests are not affected")
}

// C05_Assertions: a flow that fails or completes is run with an interceptor that holds assertions of
// either type about the flow's outcome, with any expression result.
func C05_Assertions() {
	m := newGraphPre("f", "M", 1)
	m.fails[0] = vsym.Bool("fail")
	initAction(nil, nil, mustDef(m.rep()))
	ti := &support.TaskInterceptor{ID: "f-_flowOutput", Type: 1 + vsym.Choice("type", 2)}
	b := vsym.Bool("cond")
	exprs["cond"] = exprBool(b)
	for i, n := 0, vsym.Choice("n", 3); i < n; i++ {
		ti.Assertions = append(ti.Assertions, support.Assertion{ID: "a", Expression: "cond"})
	}
	ic := &support.Interceptor{TaskInterceptors: []*support.TaskInterceptor{ti}, Coverage: &support.Coverage{}}
	o, err := runAct(newAction("res://flow:f"), nil, &instance.RunOptions{ExecOptions: &instance.ExecOptions{Interceptor: ic}})
	vsym.Assert(err == nil, "run starts")
	vsym.Observe("results", len(o.results), o.done)
	vsym.Assert(len(o.results) == 1 && o.done == 1 && o.doneAt == 1, "one result, then completion")
	if !m.fails[0] {
		vsym.Assert(o.errs[0] == nil, "completed flow gives no error")
	} else if len(ti.Assertions) == 0 {
		vsym.Assert(o.errs[0] != nil, "failed flow gives its error")
	}
}
