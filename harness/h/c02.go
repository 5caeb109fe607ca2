package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/model"
)

// C02_Kinds: one task with three outgoing links to three tasks, each link of any kind (at most one
// otherwise link), every value of every condition; the first task succeeds or, when it has an
// error link, fails.
//
// Shards: 4
func C02_Kinds() {
	g := newGraph("f", 4)
	other := 0
	for j := 1; j < 4; j++ {
		k := 1 + vsym.Choice("k"+g.tn(j), 5)
		if k == kOther {
			other++
		}
		g.addEdge(0, j, k)
	}
	vsym.Assume(other <= 1)
	if g.hasErrLink(0) {
		g.fails[0] = vsym.Bool("fail")
		g.how[0] = vsym.Choice("how", nFailures)
	}
	g.run()
}

// Values of a condition.
const (
	cBool = iota // true or false, symbolic
	cError
	cPanic
	cText
	nCond
)

// C02_Conditions: one task with two expression links and, optionally, an otherwise and a
// dependency link, with conditions that are true, false, fail, panic or are no truth value, with
// and without error handler.
//
// Shards: 4
// Reaches: bad, good
func C02_Conditions() {
	g := newGraph("f", 5)
	g.addEdge(0, 1, kExpr)
	g.addEdge(0, 2, kExpr)
	if vsym.Choice("other", 2) == 1 {
		g.addEdge(0, 3, kOther)
	}
	if vsym.Choice("dep", 2) == 1 {
		g.addEdge(0, 4, kDep)
	}
	r := g.rep()
	bad := false
	for x := 0; x < 2; x++ {
		v := vsym.Choice("cond"+string(rune('0'+x)), nCond)
		bad = bad || v != cBool
		setCond(g, x, v)
	}
	h := newGraphPre("f", "H", 1)
	handler := vsym.Choice("handler", 2) == 1
	if handler {
		r.ErrorHandler = h.handlerRep()
	}
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 16), "run ends")
	g.oracle()
	g.observe(inst.Status())
	if !bad {
		vsym.Reach("good")
		vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
		vsym.Assert(h.evals[0] == 0, "no error is reported")
		// tasks without any link run on their own
		for i := 1; i < g.n; i++ {
			linked := false
			for _, e := range g.edges {
				linked = linked || e.to == i
			}
			if linked {
				vsym.Assert((g.evals[i] == 1) == !g.skip[i], "link followed exactly when its rule says so")
			}
		}
		return
	}
	vsym.Reach("bad")
	for _, e := range g.edges {
		vsym.Assert(g.evals[e.to] == 0, "no link is followed after a condition failed")
	}
	if handler {
		vsym.Assert(h.evals[0] == 1 && inst.Status() == model.FlowStatusCompleted, "condition error goes to the error handler")
	} else {
		vsym.Assert(inst.Status() == model.FlowStatusFailed && inst.GetError() != nil, "condition error fails the flow")
	}
}

// setCond gives the condition of an expression link its meaning.
func setCond(g *graph, x, v int) {
	b := g.edges[x].cond
	exprs[g.edges[x].name] = func(data.Scope) (interface{}, error) {
		switch v {
		case cError:
			return nil, errText("cannot evaluate")
		case cPanic:
			panic("panicking condition")
		case cText:
			return "neither", nil
		}
		return b, nil
	}
}

// C02_Fan: one task with six outgoing links, one of them, at any position, an otherwise link or none, two, at any
// positions, a dependency and a label, the others expression links of any value.
//
// Shards: 2
func C02_Fan() {
	g := newGraph("f", 7)
	kinds := []int{kExpr, kExpr, kExpr, kExpr, kExpr, kExpr}
	if p := vsym.Choice("dep", 7); p < 6 {
		kinds[p] = kDep
	}
	if p := vsym.Choice("other", 7); p < 6 {
		kinds[p] = kOther
	}
	for j, k := range kinds {
		g.addEdge(0, j+1, k)
	}
	g.run()
}

// C02_Otherwises: one task with four outgoing links, each an expression link of any value, an otherwise link or a
// dependency, so several of them can be otherwise links.
//
// Shards: 2
func C02_Otherwises() {
	g := newGraph("f", 5)
	others := 0
	for j := 1; j < g.n; j++ {
		k := []int{kExpr, kOther, kDep}[vsym.Choice("kind"+g.tn(j), 3)]
		if k == kOther {
			others++
		}
		g.addEdge(0, j, k)
	}
	if others > 1 {
		vsym.Reach("several")
	}
	g.run()
}
