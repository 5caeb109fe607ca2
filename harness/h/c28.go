package h

import (
	"encoding/json"
	"strings"

	"flowverif/vsym"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/core/support/trace"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/support/event"
)

// execution is one execution of a task by the engine: it starts when its activity is run and ends with it, or when the activity goes on.
type execution struct {
	task, flowID string
	sp           *span
	ended        bool
	failed       bool
	either       bool // it may count as failed or not
}

// spy notes the executions of tasks and the flows they call.
type spy struct {
	t     *tracer
	execs []*execution
	calls []*execution // one for each flow called, in order
	err   bool         // main flow only: started
}

func newSpy() *spy {
	s := &spy{t: &tracer{}}
	vsym.Assert(trace.RegisterTracer(s.t) == nil, "tracer")
	return s
}

// watch makes the spy note the executions of a task ("flow/task").
func (s *spy) watch(name string) {
	b := behaviours[name]
	old := *b
	b.Eval = func(ctx activity.Context) (done bool, err error) {
		e := &execution{task: ctx.Name(), flowID: ctx.ActivityHost().ID(), failed: true, ended: true}
		e.sp, _ = ctx.GetTracingContext().(*span)
		vsym.Assert(e.sp != nil, "an execution of a task has a span")
		vsym.Assert(e.sp.finished == 0, "the span of a task is finished when its execution ends")
		for _, o := range s.execs {
			vsym.Assert(o.sp != e.sp, "every execution of a task has a span of its own")
		}
		s.execs = append(s.execs, e)
		if old.Eval == nil {
			e.failed = false
			return true, nil
		}
		done, err = old.Eval(ctx) // may panic
		e.failed = err != nil
		e.ended = done || err != nil
		return done, err
	}
	b.Post = func(ctx activity.Context) (done bool, err error) {
		var e *execution
		for _, o := range s.execs {
			if o.flowID == ctx.ActivityHost().ID() && o.task == ctx.Name() {
				e = o
			}
		}
		sp, _ := ctx.GetTracingContext().(*span)
		vsym.Assert(e != nil && sp == e.sp, "an execution that goes on has the span it had")
		vsym.Assert(e.sp.finished == 0, "the span of a task is finished when its execution ends")
		e.ended, e.failed = true, true
		if old.Post == nil {
			e.failed = false
			return true, nil
		}
		done, err = old.Post(ctx)
		e.failed = err != nil
		return done, err
	}
}

// call runs a flow from an activity.
func (s *spy) call(ctx activity.Context, uri string) error {
	s.calls = append(s.calls, s.execs[len(s.execs)-1])
	return instance.StartSubFlow(ctx, uri, map[string]interface{}{})
}

// check compares the spans at the end of a run with what the spy saw; extra is the number of tasks that failed before
// their activity ran.
func (s *spy) check(extra int) {
	var ids []string
	names, ends := map[string]string{}, map[string]event.FlowEvent{}
	for _, e := range flowEvs {
		if e.FlowStatus() == event.STARTED {
			ids = append(ids, e.FlowID())
			names[e.FlowID()] = e.FlowName()
		} else {
			ends[e.FlowID()] = e
		}
	}
	vsym.Observe("spans", len(s.execs), len(ids), len(s.t.spans))
	vsym.Assert(s.t.foreign == 0, "only spans are finished")
	for _, sp := range s.t.spans {
		vsym.Assert(sp.finished <= 1, "no span is finished twice")
		vsym.Assert(sp.finished == 1, "every span is finished")
	}
	flows := map[string]*span{}
	for _, sp := range s.t.spans {
		if _, ok := sp.tags["task_name"]; !ok {
			id, _ := sp.tags["flow_id"].(string)
			vsym.Assert(flows[id] == nil, "a flow has one span")
			flows[id] = sp
		}
	}
	vsym.Assert(len(flows) == len(ids), "every flow has a span")
	vsym.Assert(len(ids) == len(s.calls)+1, "the called flows run")
	for x, id := range ids {
		sp := flows[id]
		vsym.Assert(sp != nil && sp.op == names[id] && sp.tags["flow_name"] == names[id], "the span of a flow names the flow")
		if x == 0 {
			vsym.Assert(sp.parent == within && sp.tags["parent_flow_id"] == nil && sp.tags["parent_flow_name"] == nil, "the span of the main flow is under that of the request, or none")
		} else {
			c := s.calls[x-1]
			vsym.Assert(sp.parent == c.sp, "the span of a subflow is under that of the execution calling it")
			vsym.Assert(sp.tags["parent_flow_id"] == c.flowID && sp.tags["parent_flow_name"] == names[c.flowID], "the span of a subflow names the flow calling it")
		}
		if ends[id] == nil {
			continue // its caller went on without it
		}
		if ends[id].FlowStatus() == event.FAILED {
			vsym.Assert(sp.err != nil, "the span of a failed flow holds an error")
			if x > 0 {
				s.calls[x-1].failed = true
			}
		} else {
			vsym.Assert(sp.err == nil, "the span of a completed flow holds no error")
		}
	}
	seen := 0
	for _, sp := range s.t.spans {
		name, ok := sp.tags["task_name"]
		if !ok {
			continue
		}
		id, _ := sp.tags["flow_id"].(string)
		vsym.Assert(flows[id] != nil && sp.parent == flows[id] && sp.tags["flow_name"] == names[id], "the span of a task is under that of its flow")
		vsym.Assert(sp.op == name, "the span of a task names the task")
		var e *execution
		for _, o := range s.execs {
			if o.sp == sp {
				e = o
			}
		}
		if e == nil {
			extra--
			vsym.Assert(sp.err != nil, "the span of an execution that failed holds an error")
			continue
		}
		seen++
		vsym.Assert(e.task == name && e.flowID == id, "the span of a task names the task")
		if e.ended && !e.either {
			if e.failed {
				vsym.Assert(sp.err != nil, "the span of an execution that failed holds an error")
			} else {
				vsym.Assert(sp.err == nil, "the span of an execution that succeeded holds no error")
			}
		}
	}
	vsym.Assert(extra == 0 && seen == len(s.execs), "there is a span for each execution of a task and no other one")
}

// C28_Graph: flows of 3 tasks (thorough 4, fewer link kinds) with any links, conditions and failures, and an error handler or none.
//
// Shards: 6
func C28_Graph() {
	n, kinds := 3, 6
	if vsym.Tier() == 1 {
		n, kinds = 4, 3
	}
	g := newGraph("f", n)
	g.chooseEdges(kinds)
	for i := range g.fails {
		g.fails[i] = vsym.Bool("fail" + g.tn(i))
		g.how[i] = i % nFailures
	}
	r := g.rep()
	if vsym.Choice("handler", 2) == 1 {
		r.ErrorHandler = newGraphPre("f", "H", 1).handlerRep()
	}
	s := newSpy()
	for _, id := range []string{"T0", "T1", "T2", "T3", "H0"} {
		if behaviours["f/"+id] != nil {
			s.watch("f/" + id)
		}
	}
	initAction(nil, nil, mustDef(r))
	listen()
	o, err := runFlow("res://flow:f", nil)
	stopListening()
	vsym.Assert(err == nil && o.done == 1, "run ends")
	s.check(0)
}

// C28_Faults: T0 fails in any way (an error of any kind or a panic of its activity, at once or later, of the mapping of its inputs, a setting or
// condition of its loop, a later run of a loop, a retry, or a subflow), or succeeds, and is followed by other tasks, an error link, an error handler, or not.
//
// Reaches: failed, completed
func C28_Faults() {
	w := someFault("T0", vsym.Choice("way", nWays))
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T0", ""), task("T1", "")}}
	r.Links = []*definition.LinkRep{link("T0", "T1", "", "")}
	behaviourOf("f", "T1")
	subs := provider{}
	w.install(r.Tasks[0], "f", subs, func(activity.Context) {})
	if vsym.Choice("errorLink", 2) == 1 {
		r.Tasks = append(r.Tasks, task("T2", ""))
		r.Links = append(r.Links, link("T0", "T2", "error", ""))
	}
	if vsym.Choice("handler", 2) == 1 {
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("H0", "")}}
	}
	s := newSpy()
	for _, n := range []string{"f/nT0", "f/T1", "f/T2", "f/H0", "sT0/S0", "empty/E0"} {
		if behaviours[n] == nil {
			behaviours[n] = &Behaviour{}
		}
		s.watch(n)
	}
	extra := 0
	switch w.way {
	case wMapper, wMapperPanic:
		extra = 1
	case wSubflow, wReturned, wPost, wPostPlain:
		b := behaviours["f/nT0"]
		run := b.Eval
		b.Eval = func(ctx activity.Context) (bool, error) {
			s.calls = append(s.calls, nil)
			done, err := run(ctx)
			s.calls[0] = s.execs[0]
			return done, err
		}
	}
	initAction(nil, nil, mustDef(r))
	a := newAction("res://flow:f")
	setFlows(subs)
	listen()
	o, err := runAct(a, nil, nil)
	stopListening()
	vsym.Assert(err == nil && o.done == 1 && len(o.results) == 1, "run ends")
	if w.way == wReturned || w.way == wCondition {
		s.execs[0].either = w.way == wCondition
		s.execs[0].failed = true // by what its subflow gave
	}
	if o.errs[0] != nil {
		vsym.Reach("failed")
	} else {
		vsym.Reach("completed")
	}
	s.check(extra)
}

// C28_Nested: a flow whose task, plainly, in a loop of either kind that accumulates or not, or with retries, calls a flow, which calls another one. Any of
// the tasks may fail in its second run (or the only one), which may be handled by an error link; each flow sees the ids of its own span.
//
// Shards: 2
// Reaches: failed, completed
func C28_Nested() {
	kind := vsym.Choice("kind", 5)
	failsAt := vsym.Choice("fails", 6)
	handled := vsym.Choice("handled", 3)
	s := newSpy()
	runs := map[string]int{}
	mk := func(level int, callee string) *definition.DefinitionRep {
		name := []string{"f", "outer", "inner"}[level]
		r := &definition.DefinitionRep{Name: name, Tasks: []*definition.TaskRep{task("T0", ""), task("T1", ""), task("T2", "")}}
		r.Links = []*definition.LinkRep{link("T0", "T1", "", "")}
		if handled == 1 {
			r.Links = append(r.Links, link("T0", "T2", "error", ""))
		} else if handled == 2 {
			r.Links = append(r.Links, link("T1", "T2", "error", ""))
		}
		for x, id := range []string{"T0", "T1", "T2"} {
			x, n := x, name+"/"+id
			b := behaviourOf(name, id)
			fail := func() error {
				if failsAt-1 != 2*level+x || x == 2 {
					return nil
				}
				return errText("bad")
			}
			*b = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
				runs[n]++
				vsym.Assert(sees(ctx, "$flowctx[TraceId]") == "trace", "a flow sees the ids of its span")
				id, _ := sees(ctx, "$flowctx[SpanId]").(string)
				vsym.Assert(s.execs[len(s.execs)-1].sp.parent.SpanID() == id, "a flow sees the ids of its span")
				if level == 0 && x == 0 && kind == 4 && runs[n] == 1 {
					return false, activity.NewRetriableError("again", "", nil)
				}
				if callee != "" && x == 0 {
					return false, s.call(ctx, callee)
				}
				if level > 0 && runs[n] == 1 && kind > 0 && kind < 4 {
					return true, nil
				}
				err := fail()
				return err == nil, err
			}, Post: func(ctx activity.Context) (bool, error) {
				if level == 0 && kind == 3 && runs[n] == 1 {
					return false, activity.NewRetriableError("again", "", nil)
				}
				if level > 0 && runs[n] == 1 && kind > 0 && kind < 4 {
					return true, nil
				}
				err := fail()
				return err == nil, err
			}}
			s.watch(n)
		}
		return r
	}
	main := mk(0, "outer")
	t := main.Tasks[0]
	switch kind {
	case 1:
		t.Type, t.Settings = "iterator", map[string]interface{}{"iterate": 2, "accumulate": vsym.Choice("accumulate", 2) == 1}
	case 2:
		t.Type, t.Settings = "doWhile", map[string]interface{}{"condition": "more", "accumulate": vsym.Choice("accumulate", 2) == 1}
		exprs["more"] = func(data.Scope) (interface{}, error) { return runs["f/T0"] < 2, nil }
	case 3, 4:
		t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": 1, "interval": 0}}
	}
	initAction(nil, nil, mustDef(main))
	a := newAction("res://flow:f")
	setFlows(provider{"outer": mk(1, "inner"), "inner": mk(2, "")})
	listen()
	o, err := runAct(a, nil, nil)
	stopListening()
	vsym.Assert(err == nil && o.done == 1 && len(o.results) == 1, "run ends")
	if o.errs[0] != nil {
		vsym.Reach("failed")
	} else {
		vsym.Reach("completed")
	}
	s.check(0)
}

// C28_Abandoned: a flow whose task T0, in a subflow or not, iterating or not, waits for a subflow of up to 4 tasks, which may call another one and may never end, while a task beside it, after up to 3
// others, fails or returns; with an error handler or none. What is left over is not executed any further, but has ended as well.
//
// Shards: 2
// Reaches: left over, went on
func C28_Abandoned() {
	length := 1 + vsym.Choice("length", 4)
	at := vsym.Choice("at", 4)
	returns := vsym.Choice("returns", 2) == 1
	deeper := vsym.Choice("deeper", 2) == 1
	inside := vsym.Choice("inside", 2) == 1
	waits := vsym.Choice("waits", 2) == 1 // for an event outside
	handler := vsym.Choice("handler", 2) == 1
	s := newSpy()
	add := func(r *definition.DefinitionRep, id string, f func(activity.Context) (bool, error)) {
		r.Tasks = append(r.Tasks, task(id, ""))
		*behaviourOf(r.Name, id) = Behaviour{Eval: f}
		s.watch(r.Name + "/" + id)
	}
	f := &definition.DefinitionRep{Name: "f"}
	add(f, "A", nil)
	f.Links = []*definition.LinkRep{link("A", "T0", "", ""), link("A", "P0", "", "")}
	if vsym.Choice("order", 2) == 1 {
		f.Links[0], f.Links[1] = f.Links[1], f.Links[0]
	}
	add(f, "T0", func(ctx activity.Context) (bool, error) { return false, s.call(ctx, "sub") })
	if vsym.Choice("loops", 2) == 1 {
		f.Tasks[1].Type, f.Tasks[1].Settings = "iterator", map[string]interface{}{"iterate": 2}
	}
	for i := 0; i <= at; i++ {
		i := i
		add(f, "P"+string(rune('0'+i)), func(ctx activity.Context) (bool, error) {
			if i < at {
				return true, nil
			}
			if !returns {
				return false, errText("bad")
			}
			ctx.ActivityHost().Return(map[string]interface{}{}, nil)
			return true, nil
		})
		if i > 0 {
			f.Links = append(f.Links, link(f.Tasks[i+1].ID, f.Tasks[i+2].ID, "", ""))
		}
	}
	if handler {
		f.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("H0", "")}}
		behaviourOf("f", "H0")
		s.watch("f/H0")
	}
	sub := &definition.DefinitionRep{Name: "sub"}
	for i := 0; i < length; i++ {
		i := i
		add(sub, "S"+string(rune('0'+i)), func(ctx activity.Context) (bool, error) {
			if deeper && i == 0 {
				return false, s.call(ctx, "deep")
			}
			return !waits || i < length-1, nil
		})
		if i > 0 {
			sub.Links = append(sub.Links, link(sub.Tasks[i-1].ID, sub.Tasks[i].ID, "", ""))
		}
	}
	deep := &definition.DefinitionRep{Name: "deep"}
	add(deep, "D0", nil)
	add(deep, "D1", func(activity.Context) (bool, error) { return !waits || length > 1, nil })
	deep.Links = []*definition.LinkRep{link("D0", "D1", "", "")}
	flows := provider{"sub": sub, "deep": deep, "f": f}
	main := f
	if inside {
		main = &definition.DefinitionRep{Name: "main"}
		add(main, "M0", func(ctx activity.Context) (bool, error) { return false, s.call(ctx, "f") })
		add(main, "M1", nil)
		main.Links = []*definition.LinkRep{link("M0", "M1", "", "")}
	}
	initAction(nil, nil, mustDef(main))
	a := newAction("res://flow:" + main.Name)
	setFlows(flows)
	listen()
	o, err := runAct(a, nil, nil)
	stopListening()
	vsym.Assert(err == nil && o.done == 1 && len(o.results) == 1, "run ends")
	open := false
	for _, e := range s.execs {
		open = open || !e.ended
	}
	if open {
		vsym.Reach("left over")
	} else {
		vsym.Reach("went on")
	}
	s.check(0)
}

// C28_Limit: a flow stopped by the step limit (7) after up to 4 other tasks while a task of it, or of a flow it calls, repeats itself.
//
// Env: FLOGO_MAX_STEP_COUNT=7
func C28_Limit() {
	inSub := vsym.Choice("inSub", 2) == 1
	before := vsym.Choice("before", 5)
	s := newSpy()
	loop := task("L", "doWhile")
	loop.Settings = map[string]interface{}{"condition": "forever"}
	exprs["forever"] = func(data.Scope) (interface{}, error) { return true, nil }
	f := &definition.DefinitionRep{Name: "f"}
	for i := 0; i <= before; i++ {
		id := "P" + string(rune('0'+i))
		t := task(id, "")
		if i == before && !inSub {
			t, id = loop, "L"
		}
		f.Tasks = append(f.Tasks, t)
		b := behaviourOf("f", id)
		if i == before && inSub {
			b.Eval = func(ctx activity.Context) (bool, error) { return false, s.call(ctx, "sub") }
		}
		s.watch("f/" + id)
		if i > 0 {
			f.Links = append(f.Links, link(f.Tasks[i-1].ID, id, "", ""))
		}
	}
	sub := &definition.DefinitionRep{Name: "sub", Tasks: []*definition.TaskRep{loop}}
	behaviourOf("sub", "L")
	s.watch("sub/L")
	initAction(nil, nil, mustDef(f))
	a := newAction("res://flow:f")
	setFlows(provider{"sub": sub})
	listen()
	o, err := runAct(a, nil, nil)
	stopListening()
	vsym.Assert(err == nil && o.done == 1 && len(o.results) == 1 && o.errs[0] != nil, "run ends")
	for _, sp := range s.t.spans {
		vsym.Assert(sp.parent != nil || sp.err != nil, "the span of a failed flow holds an error")
	}
	s.check(0)
}

// C28_Retries: a task with up to 2 retries fails up to 3 times with an error that can be retried, at once or when it goes on, and then
// succeeds or fails for good; with an error link, an error handler, in a loop, or none of these.
//
// Shards: 2
// Reaches: failed, completed
func C28_Retries() {
	count, fails := vsym.Range("count", 0, 2), vsym.Range("fails", 0, 3)
	later, hard := vsym.Choice("later", 2) == 1, vsym.Bool("hard")
	around := vsym.Choice("around", 4)
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T0", ""), task("T1", "")}}
	r.Tasks[0].Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": count, "interval": 0}}
	r.Links = []*definition.LinkRep{link("T0", "T1", "", "")}
	switch around {
	case 1:
		r.Links[0] = link("T0", "T1", "error", "")
	case 2:
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("H0", "")}}
	case 3:
		r.Tasks[0].Type = "iterator"
		r.Tasks[0].Settings["iterate"] = 2
	}
	s := newSpy()
	runs := 0
	finish := func() (bool, error) {
		runs++
		if runs <= fails {
			return false, activity.NewRetriableError("again", "", nil)
		}
		if hard {
			return false, errText("hard")
		}
		return true, nil
	}
	for _, n := range []string{"f/T0", "f/T1", "f/H0", "s/S0"} {
		behaviours[n] = &Behaviour{}
	}
	if later {
		behaviours["f/T0"].Eval = func(ctx activity.Context) (bool, error) { return false, s.call(ctx, "sub") }
		behaviours["f/T0"].Post = func(activity.Context) (bool, error) { return finish() }
	} else {
		behaviours["f/T0"].Eval = func(activity.Context) (bool, error) { return finish() }
	}
	for _, n := range []string{"f/T0", "f/T1", "f/H0", "s/S0"} {
		s.watch(n)
	}
	initAction(nil, nil, mustDef(r))
	a := newAction("res://flow:f")
	setFlows(provider{"sub": &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}})
	listen()
	o, err := runAct(a, nil, nil)
	stopListening()
	vsym.Assert(err == nil && o.done == 1 && len(o.results) == 1, "run ends")
	if o.errs[0] != nil {
		vsym.Reach("failed")
	} else {
		vsym.Reach("completed")
	}
	s.check(0)
}

// C28_OnDemand: a flow T0 -> T1 run by its action or on demand, within a span of the request or none, for an event (with any id of two characters) or none; T0 may call a flow and either task may fail, which may be handled by a
// handler, or return; each flow sees the ids of its own span.
//
// Reaches: failed, completed
func C28_OnDemand() { onDemandOrNot() }

// C28_OnDemandLimit: as C28_OnDemand with a limit of 2 steps.
//
// Env: FLOGO_MAX_STEP_COUNT=2
// Reaches: limit, completed
func C28_OnDemandLimit() { onDemandOrNot() }

func onDemandOrNot() {
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T0", ""), task("T1", "")}, Links: []*definition.LinkRep{link("T0", "T1", "", "")}}
	calls := vsym.Choice("calls", 2) == 1
	fails := vsym.Range("fails", 0, 3) // 3: T0 returns
	handler := vsym.Choice("handler", 2) == 1
	byDemand := vsym.Choice("byDemand", 2) == 1
	if vsym.Choice("within", 2) == 1 {
		within = &span{id: 1000}
	}
	if !byDemand && vsym.Choice("event", 2) == 1 {
		forEvent = vsym.Str("event id", 2)
	}
	s := newSpy()
	saw := func(ctx activity.Context) {
		vsym.Assert(sees(ctx, "$flowctx[TraceId]") == "trace", "a flow sees the ids of its span")
		id, _ := sees(ctx, "$flowctx[SpanId]").(string)
		vsym.Assert(ctx.GetTracingContext().(*span).parent.SpanID() == id, "a flow sees the ids of its span")
	}
	end := func(i int) func(ctx activity.Context) (bool, error) {
		return func(ctx activity.Context) (bool, error) {
			saw(ctx)
			if fails == 1+i {
				return false, errText("bad")
			}
			if fails == 3 && i == 0 {
				ctx.ActivityHost().Return(nil, nil)
			}
			return true, nil
		}
	}
	*behaviourOf("f", "T0") = Behaviour{Eval: end(0)}
	if calls {
		*behaviourOf("f", "T0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) { saw(ctx); return false, s.call(ctx, "sub") }, Post: end(0)}
	}
	*behaviourOf("f", "T1") = Behaviour{Eval: end(1)}
	*behaviourOf("sub", "S0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) { saw(ctx); return true, nil }}
	ws := []string{"f/T0", "f/T1", "sub/S0"}
	if handler {
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("H", "")}}
		*behaviourOf("f", "H") = Behaviour{Eval: func(ctx activity.Context) (bool, error) { saw(ctx); return true, nil }}
		ws = append(ws, "f/H")
	}
	for _, n := range ws {
		s.watch(n)
	}
	initAction(nil, nil, mustDef(r))
	a := newAction("res://flow:f")
	var od action.AsyncAction
	if byDemand {
		od = onDemand()
	}
	setFlows(provider{"sub": &definition.DefinitionRep{Name: "sub", Tasks: []*definition.TaskRep{task("S0", "")}}})
	listen()
	var o *outcome
	var err error
	if byDemand {
		o, err = ask(od, (&demanded{pkg: map[string]interface{}{"flow": r}}).text(), true, nil)
	} else {
		o, err = runAct(a, nil, nil)
	}
	stopListening()
	vsym.Assert(err == nil && o.done == 1 && len(o.results) > 0, "run ends")
	last := o.errs[len(o.errs)-1]
	if last == nil {
		vsym.Reach("completed")
	} else if len(o.errs) > 0 && strings.Contains(last.Error(), "max step count") {
		vsym.Reach("limit")
	} else {
		vsym.Reach("failed")
	}
	s.check(0)
	s.t.namesEvent("f")
}

// C28_Continued: flows of up to 2 tasks, one that repeats or calls another flow of up to 2 tasks, and a task that ends the flow in any way, stopped after up to 5
// steps and continued by a resumption or a restart from their stored state: what is executed from there on has spans of its own.
//
// Reaches: failed, completed
func C28_Continued() {
	l := aLimitedFlow(2, 3, 1)
	def := mustDef(l.rep)
	initAction(nil, nil, def)
	act := newAction("res://flow:f")
	l.flows["f"] = l.rep
	setFlows(l.flows)
	inst, err := instance.NewIndependentInstance("inst", "f", def, instance.NewStateInstanceRecorder(nil, "off", false), log.RootLogger())
	vsym.Assert(err == nil, "a run starts")
	inst.Start(nil)
	for i, k := 0, vsym.Choice("at", 6); i < k; i++ {
		inst.DoStep()
		vsym.Assume(inst.Status() < model.FlowStatusCompleted)
	}
	again := &instance.IndependentInstance{}
	vsym.Assert(json.Unmarshal(stored(inst), again) == nil, "a stored run can be read")
	s := newSpy()
	for n, b := range behaviours {
		n, run := n, b.Eval
		b.Eval = func(ctx activity.Context) (bool, error) {
			sp, _ := ctx.GetTracingContext().(*span)
			vsym.Assert(sp != nil && sp.finished == 0, "an execution of a task has a span, which is finished when it ends")
			for _, o := range s.execs {
				vsym.Assert(o.sp != sp, "every execution of a task has a span of its own")
			}
			e := &execution{task: ctx.Name(), flowID: ctx.ActivityHost().ID(), sp: sp}
			s.execs = append(s.execs, e)
			vsym.Assert(sp.op == ctx.Name() && strings.HasSuffix(n, "/"+idOf(sp.op)) && sp.tags["flow_id"] == e.flowID, "the span of a task names the task")
			done, err := run(ctx)
			e.failed, e.ended = err != nil, done || err != nil
			return done, err
		}
	}
	runs := len(l.did)
	if vsym.Choice("event", 2) == 1 {
		forEvent = vsym.Str("event id", 2)
	}
	o, err := runAct(act, nil, &instance.RunOptions{Op: instance.OpResume + vsym.Choice("op", 2), InitialState: again})
	vsym.Assert(err == nil && len(o.results) == 1, "a run starts")
	vsym.Assert(s.t.foreign == 0, "only spans are finished")
	for _, sp := range s.t.spans {
		vsym.Assert(sp.finished == 1, "every span is finished once")
	}
	vsym.Assert(len(s.execs) == len(l.did)-runs, "there is a span for each execution of a task")
	var main *span
	for _, sp := range s.t.spans {
		if sp.tags["task_name"] == nil && sp.op == "f" {
			vsym.Assert(main == nil && sp.parent == nil, "a flow has one span")
			main = sp
		}
	}
	vsym.Assert(main != nil && (main.err == nil) == (o.errs[0] == nil), "the span of a failed flow holds an error")
	for _, e := range s.execs {
		if e.flowID == again.ID() {
			vsym.Assert(e.sp.parent == main, "the span of a task is under that of its flow")
		}
		if e.ended {
			vsym.Assert((e.sp.err != nil) == e.failed, "the span of an execution that failed holds an error")
		}
	}
	s.t.namesEvent("f")
	if o.errs[0] == nil {
		vsym.Reach("completed")
	} else {
		vsym.Reach("failed")
	}
}
