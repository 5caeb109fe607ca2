package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
)

// rank of a link kind in the documented order; the highest runs first.
func rank(kind int, prioritise bool) int {
	switch kind {
	case kOther:
		return 2
	case kLabel, kExpr:
		if (kind == kExpr) == prioritise {
			return 3
		}
		return 1
	}
	return 0
}

// inOrder checks the order of the tasks which one task made ready, all others they depend on having run before.
func (g *graph) inOrder(prioritise bool) {
	pos := make([]int, g.n)
	for p, t := range g.order {
		if pos[t] == 0 {
			pos[t] = p + 1
		}
	}
	ready := make([]int, g.n)  // the task that made it ready, if that is for sure
	follow := make([]int, g.n) // the edge from there
	for j := 0; j < g.n; j++ {
		ready[j] = -1
		for x, e := range g.edges {
			if e.to != j || pos[j] == 0 {
				continue
			}
			if pos[e.from] == 0 || e.from == j {
				ready[j] = -2 // it was skipped at some time
			} else if ready[j] != -2 && (ready[j] < 0 || pos[ready[j]] < pos[e.from]) {
				ready[j], follow[j] = e.from, x
			}
		}
	}
	for j := 0; j < g.n; j++ {
		for k := 0; k < g.n; k++ {
			if j == k || ready[j] < 0 || ready[j] != ready[k] {
				continue
			}
			x, y := follow[j], follow[k]
			if !g.foll[x] || !g.foll[y] {
				continue
			}
			a, b := rank(g.edges[x].kind, prioritise), rank(g.edges[y].kind, prioritise)
			if a > b {
				vsym.Assert(pos[j] < pos[k], "successors run in the documented order of link kinds")
				vsym.Reach("ordered by kind")
			}
			if a == b && x > y {
				vsym.Assert(pos[j] < pos[k], "successors over links of one kind run in the order given by their declaration")
				vsym.Reach("ordered by declaration")
			}
		}
	}
}

// fan runs a flow A with up to 4 (thorough 5) successors over links of any kind and with any condition, after which A fails or not; A is plain, loops, is
// retried, or calls a subflow, in the main flow or in an error handler.
func fan(prioritise bool) {
	n := 5 + vsym.Tier()
	g := newGraph("f", n)
	other := 0
	for j := 1; j < n; j++ {
		k := vsym.Choice("k"+g.tn(j), 6)
		if k == kOther {
			other++
		}
		if k == kNone { // the tasks left out come last
			vsym.Assume(n-j == 1 || vsym.Tier() == 1)
			g.n = j
			break
		}
		g.addEdge(0, j, k)
	}
	vsym.Assume(other <= 1)
	g.fails, g.how = g.fails[:g.n], g.how[:g.n]
	g.fails[0] = vsym.Bool("fails")
	g.how[0] = byActivityError
	vsym.Assume(!g.fails[0] || g.hasErrLink(0))
	r := g.rep()
	src := 0
	if !g.fails[0] && other == 0 && (vsym.Tier() == 1 || !prioritise) {
		src = vsym.Choice("source", 5)
	}
	b := behaviours["f/T0"]
	runs := 0
	t0 := r.Tasks[0]
	switch src {
	case 1:
		t0.Type, t0.Settings = "iterator", map[string]interface{}{"iterate": 2}
	case 2:
		t0.Type, t0.Settings = "doWhile", map[string]interface{}{"condition": "more"}
		exprs["more"] = func(data.Scope) (interface{}, error) { runs++; return runs < 2, nil }
	case 3:
		sub := &definition.DefinitionRep{Name: "sub", Tasks: []*definition.TaskRep{task("S0", "")}}
		behaviourOf("sub", "S0")
		setFlows(provider{"sub": sub})
		b.Eval = func(ctx activity.Context) (bool, error) {
			g.evals[0]++
			g.order = append(g.order, 0)
			return false, instance.StartSubFlow(ctx, "sub", nil)
		}
	case 4:
		t0.Settings = map[string]interface{}{"retryOnError": map[string]interface{}{"count": 1, "interval": 0}}
		old := b.Eval
		b.Eval = func(ctx activity.Context) (bool, error) {
			if runs++; runs == 1 {
				return false, activity.NewRetriableError("again", "", nil)
			}
			return old(ctx)
		}
	}
	if src == 0 && vsym.Choice("place", 2) == 1 {
		r = &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("X", "")}, ErrorHandler: &definition.ErrorHandlerRep{Tasks: r.Tasks, Links: r.Links}}
		*behaviourOf("f", "X") = Behaviour{Eval: func(activity.Context) (bool, error) { return false, errText("bad") }}
	}
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 30) && inst.Status() == model.FlowStatusCompleted, "run ends")
	g.observe(inst.Status())
	g.oracle()
	for i := 1; i < g.n; i++ {
		want := 1
		if g.skip[i] {
			want = 0
		}
		vsym.Assert(g.evals[i] == want, "exactly the successors over followed links run")
	}
	g.inOrder(prioritise)
}

// C29_Fan: a task with 4 (thorough up to 5) successors over links of any kinds and with any conditions, after which it fails or not; it is plain, loops in either way,
// is retried, or calls a subflow, in the flow itself or in its error handler; the priority setting is absent.
//
// Shards: 6
// Timeout: 300
// Reaches: ordered by kind, ordered by declaration
func C29_Fan() { fan(false) }

// C29_Prioritised: the same with the priority setting (quick: a plain task).
//
// Shards: 6
// Timeout: 300
// Env: FLOGO_TASK_PRIORITIZE_EXPR_LINK=true
// Reaches: ordered by kind, ordered by declaration
func C29_Prioritised() { fan(true) }

// fanShort is a quick version for settings.
func fanShort(prioritise bool) {
	g := newGraph("f", 4)
	for j := 1; j < 4; j++ {
		g.addEdge(0, j, []int{kDep, kExpr, kLabel}[vsym.Choice("k"+g.tn(j), 3)])
	}
	inst := newInst(mustDef(g.rep()))
	inst.Start(nil)
	vsym.Assert(drive(inst, 30), "run ends")
	g.oracle()
	g.inOrder(prioritise)
}

// C29_SetTo1: the priority setting is 1.
//
// Env: FLOGO_TASK_PRIORITIZE_EXPR_LINK=1
// Reaches: ordered by kind
func C29_SetTo1() { fanShort(true) }

// C29_SetToFalse: the priority setting is false.
//
// Env: FLOGO_TASK_PRIORITIZE_EXPR_LINK=false
// Reaches: ordered by kind
func C29_SetToFalse() { fanShort(false) }

// C29_SetToNonsense: the priority setting is no truth value.
//
// Env: FLOGO_TASK_PRIORITIZE_EXPR_LINK=maybe
// Reaches: ordered by kind
func C29_SetToNonsense() { fanShort(false) }

// C29_Graph: flows of 4 tasks with any links of 2 (thorough 3) kinds and conditions; whenever a task makes several ones ready they run in order.
//
// Shards: 6
// Timeout: 300
// Reaches: ordered by kind, ordered by declaration
func C29_Graph() {
	n := 4
	g := newGraph("f", n)
	used := []int{kNone, kExpr, kLabel, kDep}[:3+vsym.Tier()]
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if k := used[vsym.Choice("k"+g.tn(i)+g.tn(j), len(used))]; k != kNone {
				g.addEdge(i, j, k)
			}
		}
	}
	inst := newInst(mustDef(g.rep()))
	inst.Start(nil)
	vsym.Assert(drive(inst, 30) && inst.Status() == model.FlowStatusCompleted, "run ends")
	g.observe(inst.Status())
	g.oracle()
	g.inOrder(false)
}

// C29_Wide: a task with 14 successors over links of two alternating kinds, the first 4 of either of them.
//
// Reaches: ordered by kind, ordered by declaration
func C29_Wide() {
	n := 15
	g := newGraph("f", n)
	for j := 1; j < n; j++ {
		k := j % 2
		if j < 5 {
			k = vsym.Choice("k"+string(rune('0'+j)), 2)
		}
		g.addEdge(0, j, []int{kDep, kLabel}[k])
	}
	inst := newInst(mustDef(g.rep()))
	inst.Start(nil)
	vsym.Assert(drive(inst, 30) && inst.Status() == model.FlowStatusCompleted, "run ends")
	g.oracle()
	g.inOrder(false)
}
