package h

import (
	"strings"

	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
)

// Ways a task can fail, by the error its error data has to describe.
const (
	wNone     = iota
	wActivity // an activity error with a code and data
	wPlain
	wPanic
	wMapper
	wMapperPanic
	wSetting // of a loop
	wRetry   // the last of several attempts
	wCondition
	wLoop // a later run
	wPost // an activity error when it goes on
	wPostPlain
	wSubflow  // fails by an activity error
	wReturned // the subflow returns an error
	nWays
)

// fault is a failure of one task.
type fault struct {
	id, msg, code string
	data          interface{}
	way           int
	names         []string // acceptable names of the task
	kinds         []string
	exact         bool // the message is the given one; else it holds it
	hasData       bool // code and data are those of the error
}

func someFault(id string, way int) *fault {
	w := &fault{id: id, way: way, msg: "m" + vsym.Str("msg"+id, 2), code: vsym.Str("code"+id, 1), data: vsym.Int("data" + id)}
	w.names = []string{"n" + id}
	switch way {
	case wActivity, wPost, wRetry, wLoop:
		w.kinds, w.exact, w.hasData = []string{"activity"}, true, true
	case wSubflow, wReturned:
		// the error that occurred is the one of the task in the subflow
		w.kinds, w.exact, w.hasData = []string{"activity"}, true, true
		w.names = append(w.names, id, "S0", nameOf("S0"))
		if way == wReturned && vsym.Choice("noData"+id, 2) == 1 {
			w.data = nil
		}
	case wPlain, wPostPlain, wSetting, wCondition:
		w.names = []string{id}
		if way == wSetting || way == wCondition {
			w.names = append(w.names, "n"+id)
		}
		w.kinds, w.exact = []string{"unknown"}, way == wPlain || way == wPostPlain
		if way == wSetting || way == wCondition {
			w.kinds = append(w.kinds, "mapper")
		}
	case wMapper:
		w.kinds = []string{"mapper"}
	case wMapperPanic:
		w.kinds = []string{"mapper", "unhandled"}
	case wPanic:
		w.kinds = []string{"unhandled"}
	}
	return w
}

// install makes a task of a flow fail; look is called whenever its activity runs.
func (w *fault) install(t *definition.TaskRep, flow string, subs provider, look func(activity.Context)) {
	t.Name = "n" + t.ID
	actErr := func() error { return activity.NewError(w.msg, w.code, w.data) }
	exprs["err"+t.ID] = func(data.Scope) (interface{}, error) { return nil, errText(w.msg) }
	exprs["panic"+t.ID] = func(data.Scope) (interface{}, error) { panic(w.msg) }
	b := behaviourOf(flow, t.Name)
	runs := 0
	*b = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		runs++
		look(ctx)
		switch w.way {
		case wActivity:
			return false, actErr()
		case wPlain:
			return false, errText(w.msg)
		case wPanic:
			panic(w.msg)
		case wRetry:
			if runs == 1 {
				return false, activity.NewRetriableError("first", "first", nil)
			}
			return false, actErr()
		case wLoop:
			if runs == 2 {
				return false, actErr()
			}
		case wPost, wPostPlain:
			return false, instance.StartSubFlow(ctx, "empty", nil)
		case wSubflow, wReturned:
			return false, instance.StartSubFlow(ctx, "sub"+t.ID, nil)
		}
		return true, nil
	}}
	switch w.way {
	case wMapper:
		t.ActivityCfgRep.Input = map[string]interface{}{"in": "=err" + t.ID}
	case wMapperPanic:
		t.ActivityCfgRep.Input = map[string]interface{}{"in": "=panic" + t.ID}
	case wSetting:
		t.Type = "iterator"
		t.Settings = map[string]interface{}{"iterate": "=err" + t.ID}
	case wCondition:
		t.Type = "doWhile"
		t.Settings = map[string]interface{}{"condition": "err" + t.ID}
	case wLoop:
		t.Type = "iterator"
		t.Settings = map[string]interface{}{"iterate": 3}
	case wRetry:
		t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": 1, "interval": 0}}
	case wPost:
		b.Post = func(activity.Context) (bool, error) { return false, actErr() }
	case wPostPlain:
		b.Post = func(activity.Context) (bool, error) { return false, errText(w.msg) }
	case wSubflow, wReturned:
		s0 := task("S0", "")
		fl := "s" + t.ID
		*behaviourOf(fl, "S0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			vsym.Assert(sees(ctx, "$error") == nil, "error data of one flow is not visible in another")
			if w.way == wReturned {
				ctx.ActivityHost().Return(nil, actErr())
				return true, nil
			}
			return false, actErr()
		}}
		subs["sub"+t.ID] = &definition.DefinitionRep{Name: fl, Tasks: []*definition.TaskRep{s0}}
	}
	if w.way == wPost || w.way == wPostPlain {
		*behaviourOf("empty", "E0") = Behaviour{}
		subs["empty"] = &definition.DefinitionRep{Name: "empty", Tasks: []*definition.TaskRep{task("E0", "")}}
	}
}

// runs tells whether the activity of the task runs at all.
func (w *fault) runs() bool { return w.way != wMapper && w.way != wMapperPanic && w.way != wSetting }

func oneOf(v interface{}, list []string) bool {
	for _, s := range list {
		if v == s {
			return true
		}
	}
	return false
}

// described checks the error data at a reference.
func (w *fault) described(ctx activity.Context, ref string) {
	_, err := definition.GetDataResolver().Resolve(ref, ctx.ActivityHost().Scope())
	vsym.Assert(err == nil, "error data of the failed task is there")
	vsym.Assert(oneOf(sees(ctx, ref+".activity"), w.names), "error data names the failed task")
	msg, _ := sees(ctx, ref+".message").(string)
	if w.exact {
		vsym.Assert(msg == w.msg, "error data holds the message of the error")
	} else {
		vsym.Assert(strings.Contains(msg, w.msg), "error data holds the message of the error")
	}
	vsym.Assert(oneOf(sees(ctx, ref+".type"), w.kinds), "error data holds the kind of the error")
	if w.hasData {
		vsym.Assert(sees(ctx, ref+".code") == w.code, "error data holds the code of the error")
		vsym.Assert(sees(ctx, ref+".data") == w.data, "error data holds the data of the error")
	} else {
		vsym.Assert(sees(ctx, ref+".code") == "" && sees(ctx, ref+".data") == nil, "an error without code and data has none")
	}
}

// C24_Chain: T0 fails in any of the ways and may have an error link to T1, which may fail, too, in any way; the flow
// has an error handler H0 -> H1 (on error), whose H0 may fail. Messages, codes and data are arbitrary; every task
// that runs looks at the error data of the flow and of all the tasks.
//
// Shards: 8
// Reaches: linked, handler, second, later
func C24_Chain() {
	link0 := vsym.Choice("link", 2) == 1
	w0 := someFault("T0", 1+vsym.Choice("way0", nWays-1))
	w1, wh := &fault{}, &fault{}
	if link0 {
		w1 = someFault("T1", vsym.Choice("way1", nWays))
	}
	if !link0 || w1.way != wNone {
		if vsym.Tier() == 1 {
			wh = someFault("H0", vsym.Choice("wayH", nWays))
		} else if vsym.Choice("wayH", 2) == 1 {
			wh = someFault("H0", []int{wActivity, wMapper}[w0.way%2])
		}
	}
	subs := provider{}
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T0", "")}}
	w0.install(r.Tasks[0], "f", subs, func(activity.Context) {})
	last := w0
	seen1, seenH0, seenH1 := 0, 0, 0
	if link0 {
		r.Tasks = append(r.Tasks, task("T1", ""))
		r.Links = []*definition.LinkRep{link("T0", "T1", "error", "")}
		w1.install(r.Tasks[1], "f", subs, func(ctx activity.Context) {
			seen1++
			if seen1 == 1 {
				w0.described(ctx, "$error")
			}
			w0.described(ctx, "$error[T0]")
			vsym.Reach("linked")
		})
		last = w1
	}
	h0, h1 := task("H0", ""), task("H1", "")
	r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{h0, h1}, Links: []*definition.LinkRep{link("H0", "H1", "error", "")}}
	look := func(ctx activity.Context) {
		last.described(ctx, "$error")
		w0.described(ctx, "$error[T0]")
		if link0 {
			w1.described(ctx, "$error[T1]")
			vsym.Reach("second")
		}
	}
	wh.install(h0, "f", subs, func(ctx activity.Context) {
		seenH0++
		look(ctx)
		vsym.Assert(seenH0 > 1 || sees(ctx, "$error[H0]") == nil, "a task that has not failed has no error data")
		vsym.Reach("handler")
	})
	*behaviourOf("f", "H1") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		seenH1++
		look(ctx)
		wh.described(ctx, "$error[H0]")
		vsym.Reach("later")
		return true, nil
	}}
	setFlows(subs)
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 60), "run ends")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "the failure is handled")
	vsym.Assert(!link0 || !w1.runs() || seen1 > 0, "the error link is followed")
	vsym.Assert((seenH1 == 1) == (wh.way != wNone), "the error link of the handler is followed")
	vsym.Observe("ways", w0.way, w1.way, wh.way, seen1, seenH0, seenH1)
}

// C24_Settings: T0 fails in any of the ways; a task at its error link, or of the error handler, has a setting that refers to the
// error data, of the task or of the flow, and is run with it.
//
// Reaches: linked, handler
func C24_Settings() {
	w := someFault("T0", 1+vsym.Choice("way", nWays-1))
	subs := provider{}
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T0", "")}}
	w.install(r.Tasks[0], "f", subs, func(activity.Context) {})
	ref := []string{"$error", "$error[T0]"}[vsym.Choice("reference", 2)]
	t := task("T1", "")
	t.Settings = map[string]interface{}{"own": "=" + ref + ".message", "other": "=" + ref + ".data"}
	seen := 0
	*behaviourOf("f", "T1") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		seen++
		g, ok := ctx.(interface {
			GetSetting(string) (interface{}, bool)
		})
		vsym.Assert(ok, "a task has settings")
		own, _ := g.GetSetting("own")
		other, _ := g.GetSetting("other")
		msg, _ := own.(string)
		vsym.Assert(msg == w.msg || !w.exact && strings.Contains(msg, w.msg), "error data holds the message of the error")
		if w.hasData {
			vsym.Assert(other == w.data, "error data holds the data of the error")
		} else {
			vsym.Assert(other == nil, "an error without code and data has none")
		}
		return true, nil
	}}
	if vsym.Choice("handler", 2) == 1 {
		vsym.Reach("handler")
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{t}}
	} else {
		vsym.Reach("linked")
		r.Tasks = append(r.Tasks, t)
		r.Links = []*definition.LinkRep{link("T0", "T1", "error", "")}
	}
	setFlows(subs)
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 60), "run ends")
	vsym.Observe("seen", seen, int(inst.Status()))
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && seen == 1, "the failure is handled")
}

// C24_Parallel: T0 and T2 fail in any order, each with an error link, to T1 and T3, which both lead to T4; a task of the handler
// follows if T4 fails.
//
// Shards: 4
// Reaches: first, both, handler
func C24_Parallel() {
	ways := []int{wActivity, wPlain, wPanic, wMapper, wSetting, wPost, wSubflow}
	if vsym.Tier() == 0 {
		ways = []int{wActivity, wMapper, wSubflow}
	}
	ids := []string{"T0", "T2"}
	var ws []*fault
	subs := provider{}
	r := &definition.DefinitionRep{Name: "f"}
	for _, id := range ids {
		w := someFault(id, ways[vsym.Choice("way"+id, len(ways))])
		t := task(id, "")
		w.install(t, "f", subs, func(activity.Context) {})
		ws, r.Tasks = append(ws, w), append(r.Tasks, t)
	}
	r.Tasks = append(r.Tasks, task("T1", ""), task("T3", ""), task("T4", ""), task("T5", ""))
	r.Links = []*definition.LinkRep{link("T0", "T1", "error", ""), link("T2", "T3", "error", ""), link("T1", "T4", "", ""), link("T3", "T4", "", ""), link("T5", "T0", "", ""), link("T5", "T2", "", "")}
	r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("H0", "")}}
	seen := 0
	look := func(ctx activity.Context, own int, both bool) {
		seen++
		latest := ""
		for i, w := range ws {
			is := sees(ctx, "$error["+ids[i]+"]") != nil
			vsym.Assert(is || !both && i != own, "error data of the failed task is there")
			if is {
				w.described(ctx, "$error["+ids[i]+"]")
				if oneOf(sees(ctx, "$error.activity"), w.names) && sees(ctx, "$error.message") == sees(ctx, "$error["+ids[i]+"].message") {
					latest = ids[i]
				}
			}
		}
		vsym.Assert(latest != "", "error data of the flow is that of one of the failures")
	}
	for i, id := range []string{"T1", "T3"} {
		i := i
		*behaviourOf("f", id) = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			look(ctx, i, false)
			vsym.Reach("first")
			return true, nil
		}}
	}
	last := someFault("T4", wActivity)
	*behaviourOf("f", "T5") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		vsym.Assert(sees(ctx, "$error") == nil && sees(ctx, "$error[T0]") == nil && sees(ctx, "$error[T2]") == nil, "there is no error data before a failure")
		return true, nil
	}}
	*behaviourOf("f", "T4") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		look(ctx, 0, true)
		vsym.Reach("both")
		return false, activity.NewError(last.msg, last.code, last.data)
	}}
	last.names = []string{"T4", nameOf("T4")}
	*behaviourOf("f", "H0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		last.described(ctx, "$error")
		last.described(ctx, "$error[T4]")
		for i, w := range ws {
			w.described(ctx, "$error["+ids[i]+"]")
		}
		vsym.Reach("handler")
		return true, nil
	}}
	setFlows(subs)
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 60), "run ends")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && seen == 3, "the failures are handled")
}

// C24_Flows: flow T0 -> T1 (error) -> T2 -> T3 (error), all but T0 of which may be its error handler, whose T2 runs a subflow S0 -> S1 (error) or with an error handler, whose tasks fail
// in any way; error data of one flow never shows in the other.
//
// Shards: 4
// Reaches: inner, outer, failed
func C24_Flows() {
	w0 := someFault("T0", []int{wActivity, wMapper}[vsym.Choice("way0", 2)])
	ws := someFault("S0", 1+vsym.Choice("wayS", nWays-1))
	vsym.Assume(ws.way != wSubflow && ws.way != wReturned)
	how := vsym.Choice("how", 4)
	w1 := someFault("S1", wActivity)
	subs := provider{}
	s := &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}
	ws.install(s.Tasks[0], "s", subs, func(ctx activity.Context) {
		vsym.Assert(sees(ctx, "$error[T0]") == nil, "error data of one flow is not visible in another")
	})
	switch how {
	case 0: // by a link
		s.Tasks = append(s.Tasks, task("S1", ""))
		s.Links = []*definition.LinkRep{link("S0", "S1", "error", "")}
	case 1, 2: // by a handler
		s.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("S1", "")}}
	}
	*behaviourOf("s", "S1") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		ws.described(ctx, "$error")
		ws.described(ctx, "$error[S0]")
		vsym.Assert(sees(ctx, "$error[T0]") == nil, "error data of one flow is not visible in another")
		vsym.Reach("inner")
		if how == 2 {
			return false, activity.NewError(w1.msg, w1.code, w1.data)
		}
		return true, nil
	}}
	subs["sub"] = s
	setFlows(subs)
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T0", ""), task("T1", ""), task("T2", ""), task("T3", ""), task("T4", "")},
		Links: []*definition.LinkRep{link("T0", "T1", "error", ""), link("T1", "T2", "", ""), link("T2", "T3", "error", ""), link("T2", "T4", "", "")}}
	inHandler := vsym.Choice("inHandler", 2) == 1
	if inHandler {
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: r.Tasks[1:], Links: r.Links[1:]}
		r.Tasks, r.Links = r.Tasks[:1], nil
	}
	w0.install(r.Tasks[0], "f", subs, func(activity.Context) {})
	*behaviourOf("f", "T2") = *hostBehaviour("sub", nil)
	seen := 0
	*behaviourOf("f", "T4") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		seen++
		w0.described(ctx, "$error")
		w0.described(ctx, "$error[T0]")
		vsym.Assert(sees(ctx, "$error[S0]") == nil && sees(ctx, "$error[T2]") == nil, "a handled error of a subflow leaves no error data in the flow calling it")
		vsym.Reach("outer")
		return true, nil
	}}
	wx := *ws
	if how == 2 {
		wx = *w1
	}
	wx.names = append(append([]string{"T2"}, wx.names...), "S1", nameOf("S1"))
	*behaviourOf("f", "T3") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		seen++
		if inHandler {
			w0.described(ctx, "$error")
		} else {
			wx.described(ctx, "$error")
		}
		wx.described(ctx, "$error[T2]")
		w0.described(ctx, "$error[T0]")
		vsym.Assert(sees(ctx, "$error[S0]") == nil, "error data of one flow is not visible in another")
		vsym.Reach("failed")
		return true, nil
	}}
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 60), "run ends")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && seen == 1, "the failures are handled")
}

// C24_Links: a task T0, of the flow or of a flow called by it, is followed by a link whose condition fails or panics with any message, besides a link that
// is followed or not; the flow of T0 has an error handler or none, and so does the flow calling it, if there is one, unless the call has an error link;
// the one that handles the failure sees it.
//
// Reaches: handled, by the caller, by the link of the caller, failed
func C24_Links() {
	w := &fault{msg: "m" + vsym.Str("msg", 2), names: []string{"T0", nameOf("T0")}, kinds: []string{"unknown", "mapper", "unhandled"}}
	panics := vsym.Choice("panics", 2) == 1
	exprs["cond"] = func(data.Scope) (interface{}, error) {
		if panics {
			panic(w.msg)
		}
		return nil, errText(w.msg)
	}
	other := vsym.Bool("other")
	exprs["other"] = exprBool(other)
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T0", ""), task("T1", ""), task("T2", ""), task("T3", "")},
		Links: []*definition.LinkRep{link("T0", "T1", "expression", "cond"), link("T0", "T2", "expression", "other"), link("T0", "T3", "error", "")}}
	ran := ""
	for _, n := range []string{"T0", "T1", "T2", "T3"} {
		n := n
		*behaviourOf("f", n) = Behaviour{Eval: func(ctx activity.Context) (bool, error) { ran += n; return true, nil }}
	}
	handles := func(name string, refs ...string) *definition.TaskRep {
		for _, fl := range []string{"f", "main"} {
			*behaviourOf(fl, name) = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
				ran += name
				for _, ref := range refs {
					w.described(ctx, ref)
				}
				return true, nil
			}}
		}
		return task(name, "")
	}
	want, fails := "T0", true
	if vsym.Choice("handler", 2) == 1 {
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{handles("H0", "$error", "$error[T0]")}}
		want, fails = "T0H0", false
		vsym.Reach("handled")
	}
	main, subs := r, provider{}
	if vsym.Choice("called", 2) == 1 {
		subs["sub"] = r
		main = &definition.DefinitionRep{Name: "main", Tasks: []*definition.TaskRep{subflowTask("C", "sub", nil, false)}}
		w.names = append(w.names, "C", nameOf("C"))
		switch vsym.Choice("caller", 3) {
		case 1:
			main.Tasks = append(main.Tasks, handles("E0", "$error", "$error[C]"))
			main.Links = append(main.Links, link("C", "E0", "error", ""))
			if fails {
				want, fails = want+"E0", false
				vsym.Reach("by the link of the caller")
			}
		case 2:
			main.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{handles("G0", "$error", "$error[C]")}}
			if fails {
				want, fails = want+"G0", false
				vsym.Reach("by the caller")
			}
		}
	}
	setFlows(subs)
	inst := newInst(mustDef(main))
	inst.Start(nil)
	vsym.Assert(drive(inst, 60), "run ends")
	vsym.Observe("ran", ran, int(inst.Status()))
	vsym.Assert(ran == want, "a failing condition fails the flow after its task")
	_, err := inst.GetReturnData()
	if fails {
		vsym.Reach("failed")
		vsym.Assert(inst.Status() == model.FlowStatusFailed && err != nil && strings.Contains(err.Error(), w.msg), "an unhandled failure fails the flow with its error")
	} else {
		vsym.Assert(inst.Status() == model.FlowStatusCompleted && err == nil, "the failure is handled")
	}
}

// C24_Shared: the tasks of a flow T0 -> T1 (error) -> T2 (error), the last of which may be in an error handler, fail with one and the same error,
// when they are run or after a flow they call, perhaps after a retry; the error data of each names the task.
//
// Reaches: linked, handled
func C24_Shared() {
	msg, code, v := "m"+vsym.Str("msg", 1), vsym.Str("code", 1), vsym.Int("data")
	shared := activity.NewError(msg, code, v)
	if vsym.Choice("retriable", 2) == 1 {
		shared = activity.NewRetriableError(msg, code, v)
	}
	handler := vsym.Choice("handler", 2) == 1
	ids := []string{"T0", "T1"}
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T0", ""), task("T1", "")}, Links: []*definition.LinkRep{link("T0", "T1", "error", "")}}
	if handler {
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("T2", "")}}
	} else {
		r.Tasks = append(r.Tasks, task("T2", ""))
		r.Links = append(r.Links, link("T1", "T2", "error", ""))
	}
	for i, id := range ids {
		b := behaviourOf("f", id)
		if vsym.Choice("waits"+id, 2) == 1 {
			*b = *hostBehaviour("empty", nil)
			b.Post = func(activity.Context) (bool, error) { return false, shared }
		} else {
			*b = Behaviour{Eval: func(activity.Context) (bool, error) { return false, shared }}
		}
		if vsym.Choice("retried"+id, 2) == 1 {
			r.Tasks[i].Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": 1, "interval": 0}}
		}
	}
	seen := 0
	*behaviourOf("f", "T2") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		seen++
		vsym.Assert(oneOf(sees(ctx, "$error.activity"), []string{"T1", nameOf("T1")}), "error data names the failed task")
		for _, id := range ids {
			ref := "$error[" + id + "]."
			vsym.Assert(oneOf(sees(ctx, ref+"activity"), []string{id, nameOf(id)}), "error data names the failed task")
			vsym.Assert(sees(ctx, ref+"message") == msg && sees(ctx, ref+"code") == code && sees(ctx, ref+"data") == v, "error data is that of the error")
		}
		if handler {
			vsym.Reach("handled")
		} else {
			vsym.Reach("linked")
		}
		return true, nil
	}}
	setFlows(provider{"empty": &definition.DefinitionRep{Name: "empty", Tasks: []*definition.TaskRep{task("E0", "")}}})
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 40), "run ends")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted && seen == 1, "the failures are handled")
}
