package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/model"
)

// Link kinds of the reference model.
const (
	kNone = iota
	kDep
	kExpr
	kOther
	kLabel
	kError
)

var kindName = []string{"", "dependency", "expression", "exprOtherwise", "label", "error"}

// edge is one link of a small graph.
type edge struct {
	from, to, kind int
	name           string // text of the condition
	cond           bool   // its (symbolic) value
}

// graph is a small flow graph together with the outcome of its parts and the log of a run.
type graph struct {
	name  string
	pre   string // prefix of the task names
	n     int
	edges []edge
	fails []bool // (symbolic) does task i fail
	how   []int  // how it fails
	evals []int  // number of evaluations of task i
	order []int  // evaluation order
	skip  []bool // reference: task i is skipped
	foll  []bool // reference: edge i is followed
	unh   int    // reference: number of running tasks that fail without error link
}

// Ways to fail.
const (
	byError = iota
	byActivityError
	byPanic
	nFailures
)

func taskName(i int) string { return "T" + string(rune('0'+i)) }

func (g *graph) tn(i int) string { return g.pre + string(rune('0'+i)) }

func newGraph(name string, n int) *graph {
	return newGraphPre(name, "T", n)
}

func newGraphPre(name, pre string, n int) *graph {
	return &graph{name: name, pre: pre, n: n, fails: make([]bool, n), how: make([]int, n), evals: make([]int, n)}
}

// chooseEdges draws a link kind below kinds for every pair i<j and a symbolic condition value for
// every expression link. At most one otherwise link leaves a task.
func (g *graph) chooseEdges(kinds int) {
	for i := 0; i < g.n; i++ {
		other := 0
		for j := i + 1; j < g.n; j++ {
			k := vsym.Choice("k"+g.tn(i)+g.tn(j), kinds)
			if k == kNone {
				continue
			}
			if k == kOther {
				other++
			}
			g.addEdge(i, j, k)
		}
		vsym.Assume(other <= 1)
	}
}

func (g *graph) addEdge(i, j, k int) {
	e := edge{from: i, to: j, kind: k, name: g.name + g.pre + "c" + string(rune('a'+len(g.edges)))}
	if k == kExpr {
		e.cond = vsym.Bool(e.name)
	}
	g.edges = append(g.edges, e)
}

// rep describes the graph as a flow definition and installs the behaviour of its tasks.
func (g *graph) rep() *definition.DefinitionRep {
	r := &definition.DefinitionRep{Name: g.name}
	r.Tasks, r.Links = g.parts()
	return r
}

func (g *graph) parts() (ts []*definition.TaskRep, ls []*definition.LinkRep) {
	for i := 0; i < g.n; i++ {
		ts = append(ts, task(g.tn(i), ""))
		g.install(i)
	}
	for _, e := range g.edges {
		ls = append(ls, g.linkRep(e))
	}
	return
}

// handlerRep describes the graph as an error handler.
func (g *graph) handlerRep() *definition.ErrorHandlerRep {
	r := &definition.ErrorHandlerRep{}
	r.Tasks, r.Links = g.parts()
	return r
}

func (g *graph) linkRep(e edge) *definition.LinkRep {
	v := ""
	if e.kind == kExpr {
		v = e.name
		b := e.cond
		exprs[e.name] = func(data.Scope) (interface{}, error) { return b, nil }
	}
	return link(g.tn(e.from), g.tn(e.to), kindName[e.kind], v)
}

func (g *graph) install(i int) {
	behaviours[g.name+"/"+g.tn(i)] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		g.evals[i]++
		g.order = append(g.order, i)
		runLog = append(runLog, g.name+"/"+g.tn(i))
		if g.fails[i] {
			return false, failure(g.how[i], g.tn(i))
		}
		return true, nil
	}}
}

// runLog lists the executions of all graphs in order.
var runLog []string

func failure(how int, text string) error {
	switch how {
	case byActivityError:
		return activity.NewError(text, "code", "data")
	case byPanic:
		panic(text)
	}
	return errText(text)
}

func (g *graph) hasErrLink(i int) bool {
	for _, e := range g.edges {
		if e.from == i && e.kind == kError {
			return true
		}
	}
	return false
}

// oracle computes which tasks are skipped and which links are followed.
func (g *graph) oracle() {
	g.skip = make([]bool, g.n)
	g.foll = make([]bool, len(g.edges))
	g.unh = 0
	for i := 0; i < g.n; i++ {
		in, any := 0, false
		for x, e := range g.edges {
			if e.to == i {
				in++
				if g.foll[x] {
					any = true
				}
			}
		}
		g.skip[i] = in > 0 && !any
		if g.skip[i] {
			continue
		}
		if g.fails[i] {
			if !g.hasErrLink(i) {
				g.unh++
			}
			for x, e := range g.edges {
				if e.from == i {
					g.foll[x] = e.kind == kError
				}
			}
			continue
		}
		hasExpr, anyExpr := false, false
		for x, e := range g.edges {
			if e.from != i {
				continue
			}
			switch e.kind {
			case kDep, kLabel:
				g.foll[x] = true
			case kExpr:
				hasExpr = true
				if e.cond {
					g.foll[x] = true
					anyExpr = true
				}
			}
		}
		for x, e := range g.edges {
			if e.from == i && e.kind == kOther {
				g.foll[x] = hasExpr && !anyExpr
			}
		}
	}
}

// checkRun compares a finished run (nothing failed unhandled) with the reference.
func (g *graph) checkRun() {
	for i := 0; i < g.n; i++ {
		if g.skip[i] {
			vsym.Assert(g.evals[i] == 0, "skipped task does not run")
		} else {
			vsym.Assert(g.evals[i] >= 1, "task with a followed link runs")
			vsym.Assert(g.evals[i] <= 1, "task runs once")
		}
	}
	g.checkOrder()
}

// checkOrder asserts that no task ran before the running tasks it depends on.
func (g *graph) checkOrder() {
	pos := make([]int, g.n)
	for p, t := range g.order {
		pos[t] = p + 1
	}
	for _, e := range g.edges {
		if pos[e.to] != 0 && !g.skip[e.from] {
			vsym.Assert(pos[e.from] != 0 && pos[e.from] < pos[e.to], "task runs after its predecessors")
		}
	}
}

func (g *graph) observe(st model.FlowStatus) {
	vsym.Observe("status", int(st))
	for i := 0; i < g.n; i++ {
		vsym.Observe(g.tn(i), g.evals[i])
	}
}
