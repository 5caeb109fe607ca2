package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/support"
)

// Places that can go wrong while a task is executed.
const (
	sEval = iota
	sPost
	sInput
	sLink
	sIterate
	sCondition
	sRetryCount
	sLater // a later run of the loop
	sOtherLink
	nSites
)

// brokenAt describes a flow A -> B, B -> C in which something goes wrong around B, by an error or by a panic.
func brokenAt(name string, site, kind, at int, first, panics bool, log *[]string, errLink bool) ([]*definition.TaskRep, []*definition.LinkRep) {
	pre := name + "."
	wrong := func() error {
		if panics {
			switch kind {
			case 0:
				panic(errText("wrong"))
			case 1:
				var m map[string]int
				m["x"] = 1 // a runtime error
			}
			panic("wrong")
		}
		return errText("wrong")
	}
	// text of an expression that goes wrong
	exprs[pre+"x"] = func(data.Scope) (interface{}, error) { return nil, wrong() }
	exprs[pre+"true"] = func(data.Scope) (interface{}, error) { return true, nil }
	runs := 0
	exprs[pre+"later"] = func(data.Scope) (interface{}, error) {
		if runs == at {
			return nil, wrong()
		}
		return true, nil
	}
	ids := []string{name + "A", name + "B", name + "C", name + "D"}
	var ts []*definition.TaskRep
	for _, id := range ids {
		id := id
		ts = append(ts, task(id, ""))
		*behaviourOf("f", id) = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			*log = append(*log, id)
			return true, nil
		}}
	}
	b, act := ts[1], behaviourOf("f", ids[1])
	l := link(ids[1], ids[2], "dependency", "")
	switch site {
	case sEval:
		act.Eval = func(ctx activity.Context) (bool, error) { *log = append(*log, ids[1]); return false, wrong() }
	case sPost:
		act.Eval = func(ctx activity.Context) (bool, error) {
			*log = append(*log, ids[1])
			return false, instance.StartSubFlow(ctx, "empty", nil)
		}
		act.Post = func(ctx activity.Context) (bool, error) { *log = append(*log, "post"+ids[1]); return false, wrong() }
	case sInput:
		b.ActivityCfgRep.Input = map[string]interface{}{"in": "=" + pre + "x"}
	case sLink:
		l = link(ids[1], ids[2], "expression", pre+"x")
	case sOtherLink:
		l = link(ids[1], ids[2], "expression", pre+"true")
	case sIterate:
		b.Type = "iterator"
		b.Settings = map[string]interface{}{"iterate": "=" + pre + "x"}
	case sCondition, sLater:
		b.Type = "doWhile"
		c := "x"
		if site == sLater {
			c = "later"
		}
		b.Settings = map[string]interface{}{"condition": pre + c}
		old := act.Eval
		act.Eval = func(ctx activity.Context) (bool, error) { runs++; return old(ctx) }
	case sRetryCount:
		b.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": "=" + pre + "x", "interval": 0}}
		act.Eval = func(ctx activity.Context) (bool, error) {
			*log = append(*log, ids[1])
			return false, activity.NewRetriableError("again", "", nil)
		}
	}
	exprs[pre+"first"] = func(data.Scope) (interface{}, error) { return first, nil }
	ls := []*definition.LinkRep{link(ids[0], ids[1], "expression", pre+"first"), l}
	if site == sOtherLink {
		ls = append(ls, link(ids[1], ids[3], "expression", pre+"x"))
	} else if errLink {
		ls = append(ls, link(ids[1], ids[3], "error", ""))
	} else {
		ts = ts[:3]
	}
	return ts, ls
}

func behaviourOf(flow, id string) *Behaviour {
	b := behaviours[flow+"/"+id]
	if b == nil {
		b = &Behaviour{}
		behaviours[flow+"/"+id] = b
	}
	return b
}

// C14_Sites: something goes wrong in the activity, its continuation, an input mapping, the value iterated over, a loop
// condition of the first or any later run (up to 2, thorough 4), a retry setting or a link condition, of a task, which may be skipped, of the main flow, of its error handler
// or of a subflow whose caller may have an error link; the task may have an error link and its flow an error handler. What goes
// wrong is an error in one run and a panic, by a value, an error value or a runtime error, in the other.
//
// Shards: 4
// Reaches: completed, failed
func C14_Sites() {
	site := vsym.Choice("site", nSites)
	where := vsym.Choice("where", 3)
	errLink := vsym.Choice("errLink", 2) == 1
	handler := vsym.Choice("handler", 2) == 1
	callerLink := where == 2 && vsym.Choice("callerLink", 2) == 1
	kind, at, first := vsym.Range("kind", 0, 2), vsym.Range("at", 1, 2+2*vsym.Tier()), vsym.Bool("first")
	run := func(panics bool) ([]string, model.FlowStatus, bool) {
		var log []string
		r := &definition.DefinitionRep{Name: "f"}
		empty := &definition.DefinitionRep{Name: "e", Tasks: []*definition.TaskRep{task("E0", "")}}
		setFlows(provider{"empty": empty})
		switch where {
		case 0:
			r.Tasks, r.Links = brokenAt("m", site, kind, at, first, panics, &log, errLink)
			if handler {
				g := newGraphPre("f", "H", 1)
				r.ErrorHandler = g.handlerRep()
				before("f/H0", func(activity.Context) { log = append(log, "H") })
			}
		case 1:
			r.Tasks = []*definition.TaskRep{task("T0", "")}
			*behaviourOf("f", "T0") = Behaviour{Eval: func(activity.Context) (bool, error) { return false, errText("start") }}
			h := &definition.ErrorHandlerRep{}
			h.Tasks, h.Links = brokenAt("h", site, kind, at, first, panics, &log, errLink)
			r.ErrorHandler = h
		case 2:
			s := &definition.DefinitionRep{Name: "f"}
			s.Tasks, s.Links = brokenAt("s", site, kind, at, first, panics, &log, errLink)
			if handler {
				g := newGraphPre("f", "H", 1)
				s.ErrorHandler = g.handlerRep()
				before("f/H0", func(activity.Context) { log = append(log, "H") })
			}
			setFlows(provider{"sub": s, "empty": empty})
			r.Tasks = []*definition.TaskRep{subflowTask("T0", "sub", nil, false), task("T1", ""), task("T2", "")}
			for _, id := range []string{"T1", "T2"} {
				id := id
				*behaviourOf("f", id) = Behaviour{Eval: func(activity.Context) (bool, error) { log = append(log, id); return true, nil }}
			}
			r.Links = []*definition.LinkRep{link("T0", "T1", "dependency", "")}
			if callerLink {
				r.Links = append(r.Links, link("T0", "T2", "error", ""))
			} else {
				r.Tasks = r.Tasks[:2]
			}
		}
		inst := newInst(mustDef(r))
		inst.Start(nil)
		vsym.Assert(drive(inst, 40), "run ends")
		_, err := inst.GetReturnData()
		return log, inst.Status(), err != nil
	}
	log0, st0, err0 := run(false)
	log1, st1, err1 := run(true)
	vsym.Observe("status", int(st0), int(st1), len(log0), len(log1))
	vsym.Assert(st1 == model.FlowStatusCompleted || st1 == model.FlowStatusFailed, "the flow reaches a final status")
	vsym.Assert(st0 == st1 && err0 == err1, "a panic ends the flow as an error does")
	vsym.Assert(len(log0) == len(log1), "a panic is handled as an error is")
	for i := range log0 {
		vsym.Assert(log0[i] == log1[i], "a panic is handled as an error is")
	}
	if st0 == model.FlowStatusCompleted {
		vsym.Reach("completed")
	} else {
		vsym.Reach("failed")
	}
}

// C14_Action: two flows run through the flow action; in one of them a task, its mapping, its link, an assertion on the task
// or an assertion on the outputs or the error of the flow panics, after any number of tasks; each caller is told the outcome of its
// own flow, and both flows can be run again.
//
// Shards: 2
// Reaches: failed, completed
func C14_Action() {
	site := vsym.Choice("site", 6)
	at := vsym.Choice("at", 3)
	v := vsym.Int("v")
	both := vsym.Bool("both")
	good := newGraphPre("g", "G", 2)
	good.addEdge(0, 1, kDep)
	gr := good.rep()
	outputs(gr, "o")
	before("g/G1", func(ctx activity.Context) { setAttr(ctx, "o", v) })
	m := newGraphPre("f", "M", 3)
	m.addEdge(0, 1, kDep)
	m.addEdge(1, 2, kDep)
	r := m.rep()
	outputs(r, "o")
	before("f/M2", func(ctx activity.Context) { setAttr(ctx, "o", v) })
	calm := false
	exprs["x"] = func(data.Scope) (interface{}, error) {
		if calm {
			return true, nil
		}
		panic("wrong")
	}
	opts := &instance.RunOptions{}
	assertion := func(id string, typ int) {
		opts.ExecOptions = &instance.ExecOptions{Interceptor: &support.Interceptor{TaskInterceptors: []*support.TaskInterceptor{
			{ID: id, Type: typ, Assertions: []support.Assertion{{ID: "1", Name: "a", Type: support.Primitive, Expression: "x"}}}}, Coverage: &support.Coverage{}}}
	}
	fails := true
	switch site {
	case 0:
		m.fails[at], m.how[at] = true, byPanic
	case 1:
		r.Tasks[at].ActivityCfgRep.Input = map[string]interface{}{"in": "=x"}
	case 2:
		vsym.Assume(at < 2)
		r.Links[at].Type, r.Links[at].Value = "expression", "x"
	case 3:
		assertion("f-"+m.tn(at), support.AssertionActivity)
		fails = false
	case 4:
		assertion("f-_flowOutput", support.AssertionActivity)
		fails = false
	case 5:
		assertion("f-_flowOutput", support.AssertionException)
		m.fails[at] = true
	}
	initAction(nil, nil, mustDef(r), mustDef(gr))
	fa, ga := newAction("res://flow:f"), newAction("res://flow:g")
	check := func(o *outcome, err error, bad bool) {
		vsym.Assert(err == nil, "run starts")
		vsym.Assert(o.done == 1 && len(o.results) == 1, "one result and completion")
		vsym.Assert((o.errs[0] != nil) == bad, "the outcome of the own flow")
		if !bad {
			vsym.Assert(o.results[0]["o"] == v, "the outcome of the own flow")
		}
	}
	check2 := func() {
		o, err := runAct(ga, nil, nil)
		check(o, err, false)
	}
	if both {
		check2()
	}
	o, err := runAct(fa, map[string]interface{}{}, opts)
	vsym.Observe("results", o.done, len(o.results))
	check(o, err, fails)
	if site == 3 {
		vsym.Assert(opts.ExecOptions.Interceptor.TaskInterceptors[0].Assertions[0].Result == support.Fail, "an assertion that panics is one that fails")
	}
	if fails {
		vsym.Reach("failed")
	} else {
		vsym.Reach("completed")
	}
	check2()
	calm = true
	m.fails[at] = false
	o, err = runAct(fa, nil, nil)
	check(o, err, false)
}
