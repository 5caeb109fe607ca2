package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/flow/model"
)

// C01_Graph3: all graphs over 3 tasks with at most one link per ordered pair (every kind, at most
// one otherwise link per task), every value of every condition, every set of failing tasks that
// have an error link, and every order in which the start tasks are entered.
//
// Shards: 4
// MapRot: 1
func C01_Graph3() {
	g := newGraph("f", 3)
	g.chooseEdges(6)
	for i := range g.fails {
		if g.hasErrLink(i) {
			g.fails[i] = vsym.Bool("fail" + taskName(i))
		}
	}
	g.run()
}

func (g *graph) run() {
	def := mustDef(g.rep())
	vsym.MapOrder(true)
	inst := newInst(def)
	inst.Start(nil)
	vsym.Assert(drive(inst, 4*g.n+4), "run ends")
	vsym.MapOrder(false)
	g.oracle()
	g.observe(inst.Status())
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "flow completes")
	g.checkRun()
}

// C01_Graph4: all graphs over 4 tasks with at most one dependency or expression link per ordered
// pair, every value of every condition, every order in which the start tasks are entered.
//
// Shards: 8
// MapRot: 1
func C01_Graph4() {
	g := newGraph("f", 4)
	g.chooseEdges(3)
	g.run()
}

// C01_Parallel: graphs over 3 tasks with up to two links (any kinds) from the first to the second task.
//
// Shards: 4
func C01_Parallel() {
	g := newGraph("f", 3)
	g.addEdge(0, 1, 1+vsym.Choice("p1", 5))
	g.addEdge(0, 1, 1+vsym.Choice("p2", 5))
	vsym.Assume(!(g.edges[0].kind == kOther && g.edges[1].kind == kOther))
	if k := vsym.Choice("p3", 3); k != kNone {
		g.addEdge(1, 2, k)
	}
	if k := vsym.Choice("p4", 3); k != kNone {
		g.addEdge(0, 2, k)
	}
	if g.hasErrLink(0) {
		g.fails[0] = vsym.Bool("fail")
	}
	g.run()
}
