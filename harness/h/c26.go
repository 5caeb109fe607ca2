package h

import (
	"context"

	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data/coerce"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/core/trigger"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
)

// sight is what one flow sees of itself.
type sight struct{ name, id, parent, parentID interface{} }

func lookAround(ctx activity.Context) sight {
	vsym.Assert(sees(ctx, "$flowctx[FlowName]") == ctx.ActivityHost().Name(), "a flow sees its own name")
	vsym.Assert(sees(ctx, "$flowctx[FlowId]") == ctx.ActivityHost().ID(), "a flow sees its own id")
	return sight{sees(ctx, "$flowctx[FlowName]"), sees(ctx, "$flowctx[FlowId]"), sees(ctx, "$flowctx[ParentFlowName]"), sees(ctx, "$flowctx[ParentFlowId]")}
}

// census of the flows of a run; each is given a number of its own as the input "no" when it is called.
type census struct {
	mainID string
	calls  int
	who    map[int]sight // the flow calling number n
	seen   map[int]sight
	order  []int
}

func (c *census) call(ctx activity.Context, uri string) error {
	me := c.probe(ctx)
	c.calls++
	c.who[c.calls] = me
	return instance.StartSubFlow(ctx, uri, map[string]interface{}{"no": c.calls})
}

// probe checks what a flow sees, at any time.
func (c *census) probe(ctx activity.Context) sight {
	s := lookAround(ctx)
	no, _ := coerce.ToInt(sees(ctx, "$flow.no")) // read back from text it is no int
	if old, ok := c.seen[no]; ok {
		vsym.Assert(old == s, "the names and ids a flow sees do not change")
		return s
	}
	c.seen[no] = s
	if no == 0 {
		vsym.Assert(s.id == c.mainID, "the main flow has the id it was given")
		vsym.Assert(s.parent == "" && s.parentID == "", "the main flow has no parent")
	} else {
		vsym.Assert(s.parent == c.who[no].name && s.parentID == c.who[no].id, "a subflow sees the flow that called it")
		id, _ := s.id.(string)
		vsym.Assert(len(id) > len(c.mainID) && id[:len(c.mainID)] == c.mainID, "the id of a subflow is derived from that of the main flow")
		for _, o := range c.order {
			vsym.Assert(c.seen[o].id != s.id, "the ids of flows are distinct")
		}
	}
	c.order = append(c.order, no)
	return s
}

// worker runs the tasks P0 -> C0 -> P1 of a flow, where C0, and C1 beside it, may call another flow, several times, after
// a failure, or not at all.
func (c *census) flow(name string, callees [2]string, loop, retry int, fails bool) *definition.DefinitionRep {
	r := &definition.DefinitionRep{Name: name}
	for i, id := range []string{"P0", "C0", "C1", "P1"} {
		i, id := i, id
		t := task(id, "")
		r.Tasks = append(r.Tasks, t)
		callee := ""
		if i == 1 || i == 2 {
			callee = callees[i-1]
		}
		if i == 1 && loop > 0 {
			t.Type = "iterator"
			t.Settings = map[string]interface{}{"iterate": loop}
		}
		if i == 1 && retry > 0 {
			t.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": retry, "interval": 0}}
		}
		runs := 0
		*behaviourOf(name, id) = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			runs++
			if callee != "" {
				return false, c.call(ctx, callee)
			}
			c.probe(ctx)
			if id == "P1" && fails {
				return false, errText("failed")
			}
			return true, nil
		}, Post: func(ctx activity.Context) (bool, error) {
			c.probe(ctx)
			if i == 1 && runs <= retry {
				return false, activity.NewRetriableError("again", "", nil)
			}
			return true, nil
		}}
	}
	r.Links = []*definition.LinkRep{link("P0", "C0", "", ""), link("C0", "P1", "", ""), link("C1", "P1", "", "")}
	inputsOf(r, map[string]interface{}{"no": 0})
	return r
}

func newCensus(id string) *census {
	return &census{mainID: id, who: map[int]sight{}, seen: map[int]sight{}}
}

// C26_Nesting: a flow with an arbitrary id calls flows by two tasks side by side, the first one possibly in a loop or
// with retries; each flow called may call another one, which may call a third, by any of its tasks, and may fail.
//
// Shards: 4
// Reaches: deep, three
func C26_Nesting() {
	c := newCensus("m" + vsym.Str("id", 1))
	pick := func(n string, from ...string) [2]string {
		var r [2]string
		for i := range r {
			r[i] = from[vsym.Choice(n, len(from))]
		}
		return r
	}
	loop, retry := 0, 0
	switch vsym.Choice("again", 3) {
	case 1:
		loop = 2 + vsym.Tier()
	case 2:
		retry = 1 + vsym.Tier()
	}
	p := provider{}
	p["a"] = c.flow("A", pick("a", "", "b"), 0, 0, vsym.Choice("failsA", 2) == 1)
	p["b"] = c.flow("B", pick("b", "", "c"), 0, 0, vsym.Tier() == 1 && vsym.Choice("failsB", 2) == 1)
	p["c"] = c.flow("C", [2]string{}, 0, 0, false)
	main := c.flow("M", pick("m", "a", "b"), loop, retry, false)
	// failures of the flows called are followed, too
	main.Tasks = append(main.Tasks, task("E0", ""))
	main.Links = append(main.Links, link("C0", "E0", "error", ""), link("C1", "E0", "error", ""))
	*behaviourOf("M", "E0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) { c.probe(ctx); return true, nil }}
	setFlows(p)
	inst := newInstID(c.mainID, mustDef(main))
	vsym.Assert(inst.ID() == c.mainID, "the main flow has the id it was given")
	inst.Start(nil)
	vsym.Assert(drive(inst, 300), "run ends")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "the run completes")
	vsym.Observe("calls", c.calls, len(c.seen))
	vsym.Assert(len(c.seen) == c.calls+1, "every flow called runs")
	if c.calls >= 3 {
		vsym.Reach("three")
	}
	for _, s := range c.seen {
		if s.name == "C" && s.parent == "B" {
			vsym.Reach("deep")
		}
	}
}

// C26_Run: two flows are run by the action, with or without an id of their own, whose caller may ask for the id, either flow
// calls a flow and starts a detached one.
//
// Reaches: returned, preserved
func C26_Run() {
	c := [2]*census{newCensus(""), newCensus("")}
	cur := 0
	detached := map[string]int{}
	sub := &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}
	inputsOf(sub, map[string]interface{}{"no": 0})
	*behaviourOf("s", "S0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) { c[cur].probe(ctx); return true, nil }}
	far := &definition.DefinitionRep{Name: "far", Tasks: []*definition.TaskRep{task("D0", "")}}
	*behaviourOf("far", "D0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		s := lookAround(ctx)
		vsym.Assert(s.parent == "" && s.parentID == "", "the main flow has no parent")
		id, _ := s.id.(string)
		detached[id]++
		return true, nil
	}}
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T0", ""), task("T1", ""), task("T2", "")},
		Links: []*definition.LinkRep{link("T0", "T1", "", ""), link("T1", "T2", "", "")}}
	*behaviourOf("f", "T0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		c[cur].mainID = ctx.ActivityHost().ID()
		c[cur].probe(ctx)
		return true, nil
	}}
	*behaviourOf("f", "T1") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		return false, c[cur].call(ctx, "res://flow:s")
	}}
	*behaviourOf("f", "T2") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		c[cur].probe(ctx)
		return true, instance.StartDetachedSubFlow(ctx, "res://flow:far", map[string]interface{}{})
	}}
	initAction(nil, nil, mustDef(r), mustDef(sub), mustDef(far))
	act := newAction("res://flow:f")
	for cur = range c {
		opts := &instance.RunOptions{Op: instance.OpStart, ReturnID: vsym.Choice("return", 2) == 1}
		if vsym.Choice("given", 2) == 1 {
			opts.PreservedInstanceId = vsym.Str("id", 2)
		}
		o, err := runAct(act, nil, opts)
		vsym.Assert(err == nil && o.done == 1, "the flow runs")
		vsym.Yield()
		if opts.PreservedInstanceId != "" {
			vsym.Assert(c[cur].mainID == opts.PreservedInstanceId, "a flow has the id its caller gave it")
			vsym.Reach("preserved")
		}
		vsym.Assert(c[cur].mainID != "" && len(c[cur].seen) == 2, "every flow called runs")
		if opts.ReturnID {
			vsym.Assert(len(o.results) == 2 && o.errs[0] == nil && o.results[0]["id"] == c[cur].mainID, "the caller is told the id")
			vsym.Reach("returned")
		} else {
			vsym.Assert(len(o.results) == 1 && len(o.results[0]) == 0, "the caller is told what it asked for")
		}
		if opts.PreservedInstanceId == "" && cur == 1 {
			vsym.Assert(c[0].mainID != c[1].mainID || c[0].mainID == "", "two runs have different ids")
		}
		vsym.Assert(len(detached) == cur+1 && detached[c[cur].mainID] == 0, "a detached flow has an id of its own")
	}
}

// C26_Restart: a flow that calls others is stopped after any number of steps, written down, and brought back to life with
// an arbitrary id; the flows called before and after see the new ids, and no id is used twice.
//
// Shards: 2
// Reaches: inside, outside
func C26_Restart() {
	c := newCensus("m0")
	p := provider{"b": c.flow("B", [2]string{"c", ""}, 0, 0, false), "c": c.flow("C", [2]string{}, 0, 0, false)}
	def := mustDef(c.flow("f", [2]string{"b", []string{"", "c"}[vsym.Choice("second", 2)]}, 0, 0, false))
	named(def, p)
	inst := newInstID("m0", def)
	inst.Start(nil)
	n := vsym.Choice("steps", 16)
	for i := 0; i < n; i++ {
		vsym.Assume(inst.Status() == model.FlowStatusActive && inst.DoStep())
	}
	vsym.Assume(inst.Status() == model.FlowStatusActive)
	b := stored(inst)
	cp := &instance.IndependentInstance{}
	if cp.UnmarshalJSON(b) != nil {
		panic("unmarshal")
	}
	id := "n" + vsym.Str("id", 1)
	vsym.Assert(cp.Restart(log.RootLogger(), id, -1) == nil, "a restored instance can be restarted")
	cp.SetInstanceRecorder(instance.NewStateInstanceRecorder(nil, "off", false))
	vsym.Assert(cp.ID() == id, "a flow has the id its caller gave it")
	// the flows called so far have new ids
	before := c.seen
	c.mainID, c.seen, c.order = id, map[int]sight{}, nil
	who := c.who
	c.who = map[int]sight{}
	for no, s := range who {
		sid, _ := s.id.(string)
		s.id = id + sid[2:]
		c.who[no] = s
	}
	vsym.Assert(drive(cp, 100), "run ends")
	vsym.Assert(cp.Status() == model.FlowStatusCompleted, "the run completes")
	for no, s := range before {
		if a, ok := c.seen[no]; ok {
			sid, _ := s.id.(string)
			vsym.Assert(a.id == id+sid[2:], "a flow keeps its number")
			if no > 0 {
				vsym.Reach("inside")
			}
		} else {
			// it ended before
			for _, a := range c.seen {
				sid, _ := s.id.(string)
				vsym.Assert(a.id != id+sid[2:], "the ids of flows are distinct")
			}
			vsym.Reach("outside")
		}
	}
}

// C26_Event: a flow run for an event with an arbitrary id, or for none, calls a flow that may call a third one; any of them starts a detached
// flow, possibly one whose subflow starts it.
//
// Reaches: event, none
func C26_Event() {
	id := ""
	ctx := context.Background()
	if vsym.Choice("event", 2) == 1 {
		id = vsym.Str("id", 2)
		ctx = trigger.NewContextWithEventId(ctx, id)
	}
	event := func(ctx activity.Context) string {
		v, _ := ctx.ActivityHost().Scope().GetValue(instance.EventIdAttr)
		s, _ := v.(string)
		return s
	}
	far, seen := 0, ""
	start := vsym.Choice("start", 4) // the depth at which the detached flow is started, 3 within it
	def := func(name string, depth int, callee string) *definition.Definition {
		r := &definition.DefinitionRep{Name: name, Tasks: []*definition.TaskRep{task("T0", ""), task("T1", "")},
			Links: []*definition.LinkRep{link("T0", "T1", "", "")}}
		*behaviourOf(name, "T0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			if depth == 0 {
				vsym.Assert(event(ctx) == id, "a flow holds the id of the event it is run for")
			}
			if depth == start || depth == 0 && start == 3 {
				return true, instance.StartDetachedSubFlow(ctx, "res://flow:far", map[string]interface{}{})
			}
			return true, nil
		}}
		*behaviourOf(name, "T1") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			if callee != "" {
				return false, instance.StartSubFlow(ctx, "res://flow:"+callee, map[string]interface{}{})
			}
			return true, nil
		}}
		return mustDef(r)
	}
	farCallee := ""
	if start == 3 {
		farCallee = "near"
	}
	near := &definition.DefinitionRep{Name: "near", Tasks: []*definition.TaskRep{task("T0", "")}}
	*behaviourOf("near", "T0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		return true, instance.StartDetachedSubFlow(ctx, "res://flow:last", map[string]interface{}{})
	}}
	last := &definition.DefinitionRep{Name: "last", Tasks: []*definition.TaskRep{task("T0", "")}}
	*behaviourOf("last", "T0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		far++
		seen = event(ctx)
		return true, nil
	}}
	fd := &definition.DefinitionRep{Name: "far", Tasks: []*definition.TaskRep{task("T0", "")}}
	*behaviourOf("far", "T0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		vsym.Assert(event(ctx) == id, "a detached flow holds the id of the event of the flow that started it")
		if farCallee != "" {
			return false, instance.StartSubFlow(ctx, "res://flow:"+farCallee, map[string]interface{}{})
		}
		far++
		seen = event(ctx)
		return true, nil
	}}
	initAction(nil, nil, def("f", 0, "g"), def("g", 1, "h"), def("h", 2, ""), mustDef(fd), mustDef(near), mustDef(last))
	o := &outcome{}
	err := newAction("res://flow:f").Run(ctx, map[string]interface{}{}, o)
	vsym.Assert(err == nil, "the flow runs")
	o.wait(false)
	for i := 0; i < 5; i++ {
		vsym.Yield()
	}
	vsym.Assert(o.done == 1 && len(o.errs) == 1 && o.errs[0] == nil, "the flow runs")
	vsym.Assert(far == 1 && seen == id, "a detached flow holds the id of the event of the flow that started it")
	if id == "" {
		vsym.Reach("none")
	} else {
		vsym.Reach("event")
	}
}
