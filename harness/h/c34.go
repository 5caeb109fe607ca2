package h

import (
	"encoding/json"

	"flowverif/vsym"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/support/service"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/ondemand"
)

// onDemand makes an action that runs flows on demand.
func onDemand() action.AsyncAction {
	f := &ondemand.ActionFactory{}
	vsym.Assert(f.Initialize(&actCtx{resource.NewManager(nil), service.NewServiceManager(), nil}) == nil, "the action can be set up")
	a, err := f.New(&action.Config{})
	vsym.Assert(err == nil, "the action can be set up")
	return a.(action.AsyncAction)
}

// ask runs a package with the other inputs of a request.
func ask(a action.AsyncAction, pkg interface{}, has bool, inputs map[string]interface{}) (*outcome, error) {
	o := &outcome{}
	req := map[string]interface{}{}
	for k, v := range inputs {
		req[k] = v
	}
	if has {
		req["flowPackage"] = pkg
	}
	n := len(req)
	err := a.Run(runContext(), req, o)
	vsym.Assert(len(req) == n, "a request is left as it is")
	if err == nil {
		o.wait(false)
		vsym.Assert(o.done == 1 && o.doneAt == len(o.results), "a request is completed once, after it is answered")
	} else {
		vsym.Yield()
		vsym.Assert(o.done == 0 && len(o.results) == 0, "a request that cannot be run is not answered in another way")
	}
	return o, err
}

// demanded is a package and what its flow T0 -> T1 saw.
type demanded struct {
	pkg  map[string]interface{}
	rep  *definition.DefinitionRep
	a, b interface{}
	id   string
	runs int
}

const (
	endsPlain   = iota
	endsSet     // sets the output
	endsReturn  // returns the output
	endsReply   // replies, then goes on
	endsFail    // fails
	endsHandled // fails, which is handled
	nEnds
)

// demand makes a package for a flow that ends in some way; r is what it gives.
func demand(name string, end, r int) *demanded {
	d := &demanded{rep: &definition.DefinitionRep{Name: name, Tasks: []*definition.TaskRep{task("T0", ""), task("T1", "")},
		Links: []*definition.LinkRep{link("T0", "T1", "", "")}}}
	inputsOf(d.rep, map[string]interface{}{"a": 7, "b": nil})
	outputs(d.rep, "r")
	d.rep.Tasks[0].ActivityCfgRep.Input = map[string]interface{}{"in": "=$flow.a"}
	*behaviourOf(name, "T0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		d.runs++
		d.id = ctx.ActivityHost().ID()
		d.a, d.b = sees(ctx, "$flow.a"), sees(ctx, "$flow.b")
		vsym.Assert(sameNum(ctx.GetInput("in"), d.a), "the flow gets its inputs")
		return true, nil
	}}
	*behaviourOf(name, "T1") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		vsym.Assert(d.id == ctx.ActivityHost().ID(), "the flow runs on its own")
		d.runs++
		switch end {
		case endsSet:
			setAttr(ctx, "r", r)
		case endsReturn:
			ctx.ActivityHost().Return(map[string]interface{}{"r": r}, nil)
		case endsReply:
			ctx.ActivityHost().Reply(map[string]interface{}{"r": r}, nil)
		case endsFail, endsHandled:
			return false, errText("bad")
		}
		return true, nil
	}}
	if end == endsHandled {
		d.rep.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("H", "")}}
		*behaviourOf(name, "H") = Behaviour{Eval: func(ctx activity.Context) (bool, error) { setAttr(ctx, "r", r); return true, nil }}
	}
	d.rep.ExplicitReply = vsym.Choice("explicit"+name, 2) == 1
	d.pkg = map[string]interface{}{"flow": d.rep}
	return d
}

func (d *demanded) text() json.RawMessage {
	b, err := json.Marshal(d.pkg)
	vsym.Assert(err == nil, "text")
	return b
}

// check compares the answers.
func (d *demanded) check(o *outcome, end, r int) {
	vsym.Assert(d.runs == 2, "the flow that is given runs once")
	res, errs := o.results, o.errs
	if !d.rep.ExplicitReply {
		vsym.Assert(len(res) > 0 && errs[0] == nil && res[0]["id"] == d.id, "a flow without explicit reply is answered with its id")
		res, errs = res[1:], errs[1:]
	}
	if end == endsReply {
		vsym.Assert(len(res) == 2 && errs[0] == nil && sameNum(res[0]["r"], r) && errs[1] == nil, "the reply of the flow is the answer")
		return
	}
	vsym.Assert(len(res) == 1, "a flow gives one result")
	switch end {
	case endsFail:
		vsym.Assert(errs[0] != nil, "a flow that fails is answered with its error")
	case endsPlain:
		vsym.Assert(errs[0] == nil && res[0]["r"] == nil, "the answer holds the outputs of the flow")
	default:
		vsym.Assert(errs[0] == nil && sameNum(res[0]["r"], r), "the answer holds the outputs of the flow")
	}
}

// C34_Run: a package, given as text, bytes or JSON, with a flow with the inputs a, with a default, and b, each mapped from a literal, a value of the request, an object, one that is missing in the
// request, by a malformed expression or one that panics, or not at all; the flow ends in any way; values are arbitrary.
//
// Reaches: ran, refused
func C34_Run() {
	end, r := vsym.Choice("end", nEnds), small("r")
	d := demand("f", end, r)
	x, lit := small("x"), small("lit")
	m := map[string]interface{}{}
	want := map[string]interface{}{"a": 7, "b": nil}
	bad := false
	for _, n := range []string{"a", "b"} {
		switch vsym.Choice("map"+n, 8) {
		case 1:
			m[n], want[n] = lit, lit
		case 2:
			m[n], want[n] = "=$.x", x
		case 3:
			m[n], want[n] = "=$.payload.y", x
		case 4:
			m[n], want[n] = nil, want[n]
		case 5:
			m[n] = "=$.nope"
			bad = true
		case 6:
			m[n] = "=badexpr"
			bad = true
		case 7:
			exprs["boom"] = func(data.Scope) (interface{}, error) { panic("boom") }
			m[n] = "=boom"
			bad = true
		}
	}
	switch vsym.Choice("inputs", 2) {
	case 0:
		d.pkg["inputs"] = m
	case 1:
		vsym.Assume(len(m) == 0)
	}
	var pkg interface{} = d.text()
	switch vsym.Choice("form", 3) {
	case 1:
		pkg = []byte(d.text())
	case 2:
		pkg = string(d.text())
	}
	// a value of the request that has the name of an input of the flow is not given to it unless it is mapped
	o, err := ask(onDemand(), pkg, true, map[string]interface{}{"x": x, "a": x, "payload": map[string]interface{}{"y": x}})
	if bad {
		vsym.Assert(err != nil && d.runs == 0, "a request whose mappings fail is refused and runs nothing")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(err == nil, "a request that can be run is accepted")
	d.check(o, end, r)
	vsym.Assert(sameNum(d.a, want["a"]) && sameNum(d.b, want["b"]), "the flow gets the inputs that are mapped")
	vsym.Reach("ran")
}

// C34_Twice: two requests with flows of the same or another name, handed to the same action or another one, run each its own flow.
func C34_Twice() {
	first := onDemand()
	r := []int{small("r0"), small("r1")}
	v := []int{small("v0"), small("v1")}
	name := []string{"f", []string{"f", "g"}[vsym.Choice("name", 2)]}
	acts := []action.AsyncAction{first, first}
	if vsym.Choice("other", 2) == 1 {
		acts[1] = onDemand()
	}
	ids := map[string]bool{}
	for i := 0; i < 2; i++ {
		end := []int{endsSet, endsReturn, endsFail}[vsym.Choice("end"+name[i]+string(rune('0'+i)), 3)]
		d := &demanded{}
		d = demand(name[i], end, r[i])
		d.pkg["inputs"] = map[string]interface{}{"b": "=$.v"}
		o, err := ask(acts[i], d.text(), true, map[string]interface{}{"v": v[i]})
		vsym.Assert(err == nil, "a request that can be run is accepted")
		d.check(o, end, r[i])
		vsym.Assert(sameNum(d.a, 7) && sameNum(d.b, v[i]), "the flow gets the inputs that are mapped")
		vsym.Assert(!ids[d.id], "each flow has an id of its own")
		ids[d.id] = true
	}
}

var badPackages = []string{"", "{", "null", "{}", "1", `"x"`, "[]", `{"flow":null}`, `{"flow":1}`, `{"flow":{"tasks":1}}`, `{"flow":{"tasks":[null]}}`,
	`{"flow":{"tasks":[{}]}}`, `{"flow":{"tasks":[{"id":"T0"}]}}`, `{"flow":{"tasks":[{"id":"T0","activity":{}}]}}`,
	`{"flow":{"tasks":[{"id":"T0","activity":{"ref":"nope"}}]}}`, `{"flow":{"tasks":[],"links":[{"from":"a","to":"b"}]}}`, `{"flow":{"links":[null]}}`,
	`{"flow":{"model":"nope","tasks":[]}}`, `{"flow":{"errorHandler":{"tasks":[null]}}}`, `{"inputs":1,"flow":{}}`, `{"inputs":{"a":"=badexpr"},"flow":{}}`,
	`{"flow":{"metadata":1}}`, `{"flow":{"tasks":[{"id":"T0","activity":{"ref":"flowverif/h"}},{"id":"T0","activity":{"ref":"flowverif/h"}}]}}`}

// C34_Malformed: packages with malformed or missing parts, out of a list of texts, no package, or something else in its place, are refused.
func C34_Malformed() {
	var pkg interface{}
	form := vsym.Choice("form", 6)
	text := `{"flow":{"name":"f","tasks":[]}}`
	switch form {
	case 1:
		pkg = json.RawMessage(badPackages[vsym.Choice("text", len(badPackages))])
	case 2:
		pkg = text
	case 3:
		pkg = []byte(text)
	case 4:
		pkg = map[string]interface{}{"flow": map[string]interface{}{"name": "f"}}
	}
	_, err := ask(onDemand(), pkg, form > 0, nil)
	if form == 2 || form == 3 || form == 4 {
		return // refused or accepted
	}
	vsym.Assert(err != nil, "a malformed request is refused")
}

// C34_Empty: packages with nothing to run are answered.
func C34_Empty() {
	text := []string{`{"flow":{}}`, `{"flow":{"name":"f","tasks":[]},"inputs":{},"outputs":{}}`, `{"flow":{"name":"f","tasks":null},"inputs":null}`,
		`{"flow":{"explicitReply":true},"unknown":1}`}
	i := vsym.Choice("text", len(text))
	o, err := ask(onDemand(), json.RawMessage(text[i]), true, nil)
	n := 2
	if i == 3 {
		n = 1
	}
	vsym.Assert(err == nil && len(o.results) == n && o.errs[n-1] == nil, "a request that can be run is answered")
	vsym.Assert(n == 1 || o.results[0]["id"] != nil, "a flow without explicit reply is answered with its id")
	vsym.Assert(o.results[n-1]["id"] == nil, "the answer holds the outputs of the flow")
}
