package h

import (
	"bytes"
	"encoding/json"
	"io"
	"net/http"

	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/support/service"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/tester"
)

// answer is what the flow tester answers to a request.
type answer struct {
	h    http.Header
	code int
	body []byte
}

func (a *answer) Header() http.Header { return a.h }
func (a *answer) WriteHeader(code int) {
	if a.code == 0 {
		a.code = code
	}
}
func (a *answer) Write(b []byte) (int, error) {
	a.WriteHeader(200)
	a.body = append(a.body, b...)
	return len(b), nil
}

// id is the instance id in a positive answer.
func (a *answer) id() string {
	m := map[string]interface{}{}
	vsym.Assert(json.Unmarshal(a.body, &m) == nil, "the answer is an object")
	id, _ := m["id"].(string)
	vsym.Assert(id != "", "the answer holds the id of the instance")
	return id
}

const (
	opStart = iota
	opRestart
	opResume
)

// request hands a request to a new flow tester.
func request(op int, body []byte) *answer {
	s, err := (&tester.FlowTesterFactory{}).NewService(&service.Config{Settings: map[string]interface{}{"port": "8081"}})
	vsym.Assert(err == nil, "a flow tester can be set up")
	ft := s.(*tester.RestFlowTester)
	a := &answer{h: http.Header{}}
	r := &http.Request{Method: "POST", Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(body))}
	switch op {
	case opStart:
		ft.StartFlow(a, r, nil)
	case opRestart:
		ft.RestartFlow(a, r, nil)
	case opResume:
		ft.ResumeFlow(a, r, nil)
	}
	if a.code == 0 {
		a.code = 200
	}
	vsym.Observe("answer", a.code)
	return a
}

// testedRun is what the tested flow T0 -> T1 -> T2 did: T0 and T1 give their inputs plus one.
type testedRun struct {
	id    string
	calls []call
	last  map[string]interface{} // what T2 saw in the end
}

// testedFlow makes a flow with the inputs a, whose default is 7, and b.
func testedFlow() (*definition.DefinitionRep, *testedRun) {
	g := newGraph("f", 3)
	g.addEdge(0, 1, kDep)
	g.addEdge(1, 2, kDep)
	r := g.rep()
	inputsOf(r, map[string]interface{}{"a": 7, "b": nil})
	for i, f := range []string{"=$flow.a", "=$activity[T0].out", "=$activity[T1].out"} {
		r.Tasks[i].ActivityCfgRep.Input = map[string]interface{}{"in": f}
	}
	t := &testedRun{}
	for _, n := range []string{"T0", "T1", "T2"} {
		n := n
		behaviours["f/"+n] = &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			vsym.Assert(t.id == "" || t.id == ctx.ActivityHost().ID(), "one flow runs")
			t.id = ctx.ActivityHost().ID()
			in, ok := ctx.GetInput("in").(int)
			if f, isF := ctx.GetInput("in").(float64); isF && !ok {
				in = int(f)
			}
			t.calls = append(t.calls, call{n, in, nil})
			_ = ctx.SetOutput("out", in+1)
			if n == "T2" {
				t.last = map[string]interface{}{"a": sees(ctx, "$flow.a"), "b": sees(ctx, "$flow.b")}
			}
			return true, nil
		}}
	}
	return r, t
}

func small(name string) int { return vsym.Range(name, -1000, 1000) }

// override is an interceptor or a patch for T1 in a request, or none.
func override(req map[string]interface{}, form int) (in, out int, hasIn, hasOut bool) {
	in, out = small("ovIn"), small("ovOut")
	ios := map[string]interface{}{"id": "T1"}
	switch form {
	case 1: // an input is replaced
		req["interceptor"] = map[string]interface{}{"tasks": []interface{}{ios}}
		ios["id"], ios["inputs"], hasIn = "f-T1", map[string]interface{}{"in": in}, true
	case 2: // the task is mocked
		req["interceptor"] = map[string]interface{}{"tasks": []interface{}{ios}, "coverage": map[string]interface{}{}}
		ios["id"], ios["outputs"], ios["type"], ios["skipExecution"], hasOut = "f-T1", map[string]interface{}{"out": out}, 4, true, true
	case 3:
		req["patch"] = map[string]interface{}{"tasks": []interface{}{ios}}
		ios["input"], hasIn = map[string]interface{}{"in": in}, true
	case 4:
		req["interceptor"], req["patch"] = nil, nil
	case 5:
		req["interceptor"], req["patch"] = map[string]interface{}{}, map[string]interface{}{"tasks": []interface{}{}}
	case 6: // both, for different tasks or for the same one, whose mocks count
		other := map[string]interface{}{"id": []string{"f-T9", "f-T1"}[vsym.Choice("same", 2)]}
		req["interceptor"] = map[string]interface{}{"tasks": []interface{}{other}}
		req["patch"] = map[string]interface{}{"tasks": []interface{}{ios}}
		ios["input"], hasIn = map[string]interface{}{"in": in}, true
		if other["id"] == "f-T1" {
			ios["input"], other["inputs"] = map[string]interface{}{"in": out}, map[string]interface{}{"in": in}
		}
	case 7:
		req["interceptor"] = map[string]interface{}{"tasks": []interface{}{ios}}
		req["patch"] = map[string]interface{}{"tasks": []interface{}{map[string]interface{}{"id": "T9", "input": map[string]interface{}{"in": out}}}}
		ios["id"], ios["outputs"], ios["type"], ios["skipExecution"], hasOut = "f-T1", map[string]interface{}{"out": out}, 4, true, true
	}
	return
}

const nOverrides = 8

// check compares a run from T<from> on; v is what T<from> is given.
func (t *testedRun) check(from, v int, in, out int, hasIn, hasOut bool) {
	at := 0
	for i := from; i < 3; i++ {
		if i == 1 && hasIn {
			v = in
		}
		if i == 1 && hasOut {
			v = out
			continue
		}
		vsym.Assert(at < len(t.calls) && t.calls[at].task == taskName(i), "the tasks of the flow run, but for mocked ones")
		vsym.Assert(t.calls[at].in == v, "the tasks are given the data of the request")
		v++
		at++
	}
	vsym.Assert(at == len(t.calls), "the tasks of the flow run, but for mocked ones")
}

// C31_Start: a request to start a flow - a known one, an unknown one, or none - with data, attributes, both, empty ones or null for them,
// an interceptor, a patch, null or empty ones for these, or none, and any (small) values.
//
// Reaches: started, refused
func C31_Start() {
	r, t := testedFlow()
	initAction(nil, nil, mustDef(r))
	req := map[string]interface{}{}
	uri := vsym.Choice("uri", 4)
	switch uri {
	case 0:
		req["flowUri"] = "res://flow:f"
	case 1:
		b, err := json.Marshal(r)
		vsym.Assert(err == nil, "text")
		req["flowUri"] = vsym.PutFile("f.json", b)
	case 2:
		req["flowUri"] = "res://flow:g"
	}
	var a, b interface{} = 7, nil
	v := 7
	data, attrs := vsym.Choice("data", 5), vsym.Choice("attrs", 5)
	if data > 0 {
		req["data"] = map[string]interface{}(nil)
	}
	if data > 1 {
		m := map[string]interface{}{}
		if data > 2 {
			x := small("dataA")
			m["a"], a, v = x, x, x
			if data > 3 {
				b = small("dataB")
				m["b"] = b
			}
		}
		req["data"] = m
	}
	if attrs > 0 {
		req["attrs"] = map[string]interface{}(nil)
	}
	if attrs > 1 {
		m := map[string]interface{}{}
		if attrs > 2 { // these take precedence
			a, b, v = 7, nil, 7
			b = small("attrsB")
			m["b"] = b
			if attrs > 3 {
				v = small("attrsA")
				a = v
				m["a"] = a
			}
		}
		req["attrs"] = m
	}
	form := vsym.Choice("override", nOverrides)
	vsym.Assume(form == 0 || data == 4 || attrs == 4)
	in, out, hasIn, hasOut := override(req, form)
	text, err := json.Marshal(req)
	vsym.Assert(err == nil, "text")
	w := request(opStart, text)
	if uri > 1 {
		vsym.Assert(w.code >= 400 && len(t.calls) == 0, "a request that cannot be run is refused and starts nothing")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(w.code == 200, "a request that can be run is accepted")
	vsym.Assert(w.id() == t.id, "the answer holds the id of the instance")
	t.check(0, v, in, out, hasIn, hasOut)
	vsym.Assert(sameNum(t.last["a"], a) && sameNum(t.last["b"], b), "the flow is given the data of the request")
	vsym.Reach("started")
}

// C31_Continue: a request to restart or resume a flow in the state after any of its steps, with or without new data, an interceptor or a patch.
//
// Reaches: restarted, resumed
func C31_Continue() {
	r, t := testedFlow()
	def := mustDef(r)
	initAction(nil, nil, def)
	op := opRestart + vsym.Choice("op", 2)
	steps := vsym.Choice("steps", 3)
	a, b := small("a"), small("b")
	inst := newInst(def)
	inst.Start(map[string]interface{}{"a": a, "b": b})
	for i := 0; i < steps; i++ {
		inst.DoStep()
	}
	vsym.Assert(len(t.calls) == steps, "the flow runs")
	t.calls, t.id = nil, ""
	state := json.RawMessage(stored(inst))
	v := a + steps
	key := "initialState"
	if op == opResume {
		key = "state"
	}
	req := map[string]interface{}{key: state}
	switch vsym.Choice("data", 4) {
	case 1:
		req["data"] = nil
	case 2:
		req["data"] = map[string]interface{}{}
	case 3:
		a = small("newA")
		if steps == 0 {
			v = a
		}
		req["data"] = map[string]interface{}{"a": a}
	}
	in, out, hasIn, hasOut := override(req, vsym.Choice("override", nOverrides))
	text, err := json.Marshal(req)
	vsym.Assert(err == nil, "text")
	w := request(op, text)
	vsym.Assert(w.code == 200, "a request that can be run is accepted")
	vsym.Assert(w.id() == t.id, "the answer holds the id of the instance")
	if op == opResume {
		vsym.Assert(t.id == "inst", "a resumed flow keeps its id")
		vsym.Reach("resumed")
	} else {
		vsym.Reach("restarted")
	}
	t.check(steps, v, in, out, hasIn, hasOut)
	vsym.Assert(sameNum(t.last["a"], a) && sameNum(t.last["b"], b), "the flow is given the data of the request")
}

// C31_Fails: a started or restarted flow whose task fails is answered like any other one; its failure is not an error of the request.
func C31_Fails() {
	r, t := testedFlow()
	initAction(nil, nil, mustDef(r))
	before("f/T1", func(activity.Context) {
		if vsym.Bool("panics") {
			panic("failed")
		}
	})
	w := request(opStart, []byte(`{"flowUri":"res://flow:f"}`))
	vsym.Assert(w.code == 200 && w.id() == t.id, "the answer holds the id of the instance")
}

// C31_Context: the requests to start, restart and resume a flow with context logging.
//
// Env: FLOGO_LOG_CTX=true
func C31_Context() {
	r, t := testedFlow()
	def := mustDef(r)
	initAction(nil, nil, def)
	op := vsym.Choice("op", 3)
	var w *answer
	if op == opStart {
		w = request(op, []byte(`{"flowUri":"res://flow:f"}`))
		t.check(0, 7, 0, 0, false, false)
	} else {
		inst := newInst(def)
		inst.Start(map[string]interface{}{"a": 1, "b": 2})
		key := map[int]string{opRestart: "initialState", opResume: "state"}[op]
		text, err := json.Marshal(map[string]interface{}{key: json.RawMessage(stored(inst))})
		vsym.Assert(err == nil, "text")
		w = request(op, text)
		t.check(0, 1, 0, 0, false, false)
	}
	vsym.Assert(w.code == 200 && w.id() == t.id, "the answer holds the id of the instance")
}

var malformed = []string{"", "{", "[]", "1", "null", "{}", `"x"`, "{}}", `{"flowUri":1}`, `{"flowUri":"res://flow:f"`,
	`{"flowUri":"nope"}`, `{"flowUri":"nope://x"}`, `{"flowUri":"res://other:f"}`, `{"flowUri":"res://flow:f","data":[1]}`,
	`{"flowUri":"res://flow:f","attrs":1}`, `{"flowUri":"res://flow:f","interceptor":1}`, `{"flowUri":"res://flow:f","patch":[]}`,
	`{"flowUri":"res://flow:f","patch":{"tasks":1}}`, `{"flowUri":"res://flow:f","interceptor":{"tasks":{}}}`}

var malformedState = []string{"null", "{}", "[]", "1", `{"flowUri":"res://flow:g"}`, `{"flowUri":1}`, `{"id":"x","status":100}`,
	`{"id":"x","status":100,"flowUri":"nope"}`, `{"tasks":[null],"flowUri":"res://flow:f"}`,
	`{"subFlows":[null],"flowUri":"res://flow:f"}`, `{"workQueue":[null],"flowUri":"res://flow:f"}`, `{"links":[null],"flowUri":"res://flow:f"}`}

// C31_Malformed: requests with malformed or missing parts, out of a list of texts, are refused and run nothing.
func C31_Malformed() {
	r, t := testedFlow()
	initAction(nil, nil, mustDef(r))
	op := vsym.Choice("op", 3)
	text := ""
	if vsym.Choice("state", 2) == 0 || op == opStart {
		text = malformed[vsym.Choice("text", len(malformed))]
	} else {
		text = malformedState[vsym.Choice("text", len(malformedState))]
		text = map[int]string{opRestart: `{"initialState":`, opResume: `{"state":`}[op] + text + "}"
	}
	w := request(op, []byte(text))
	vsym.Assert(len(t.calls) == 0, "a malformed request starts nothing")
	vsym.Assert(w.code >= 400, "a malformed request is refused")
}

// C31_Absent: requests whose interceptors and patches have absent parts run as if these were not there, or are refused.
func C31_Absent() {
	r, t := testedFlow()
	initAction(nil, nil, mustDef(r))
	part := []string{`"interceptor":{"tasks":[null]}`, `"patch":{"tasks":[null]}`, `"interceptor":{"tasks":[{}]}`, `"patch":{"tasks":[{}]}`,
		`"interceptor":{"tasks":null}`, `"patch":{"tasks":null}`, `"interceptor":{"coverage":null}`, `"unknown":1`, `"replyTo":"x"`}
	w := request(opStart, []byte(`{"flowUri":"res://flow:f",`+part[vsym.Choice("part", len(part))]+`}`))
	if w.code == 200 {
		vsym.Assert(w.id() == t.id, "the answer holds the id of the instance")
		t.check(0, 7, 0, 0, false, false)
	} else {
		vsym.Assert(w.code >= 400 && len(t.calls) == 0, "a malformed request starts nothing")
	}
}

// C31_Port: a flow tester can be set up with a port given as number or text, and with none; it reports a port that is no number.
func C31_Port() {
	settings := map[string]interface{}{}
	form := vsym.Choice("form", 4)
	switch form {
	case 1:
		settings["port"] = vsym.Range("port", 1, 65535)
	case 2:
		settings["port"] = "8" + vsym.Str("digit", 1)
	case 3:
		settings["port"] = []interface{}{}
	}
	s, err := (&tester.FlowTesterFactory{}).NewService(&service.Config{Settings: settings})
	if form == 2 {
		c := settings["port"].(string)[1]
		if c < '0' || c > '9' {
			vsym.Assert(err != nil, "a port that is no number is reported")
			return
		}
	}
	vsym.Assert((err == nil) == (form != 3), "a flow tester can be set up")
	if err == nil {
		vsym.Assert(s.Name() == "FlowTester", "a flow tester can be set up")
	}
}

// C31_Direct: requests of any of the three operations, without the state they need or for unknown flows, handed to the request processor.
func C31_Direct() {
	_, t := testedFlow()
	initAction(nil, nil)
	p := tester.NewRequestProcessor()
	var st *instance.IndependentInstance
	if vsym.Choice("state", 2) == 1 {
		st = &instance.IndependentInstance{}
	}
	op := vsym.Choice("op", 3)
	var res map[string]interface{}
	var err error
	vsym.Assert(!panics(func() {
		switch op {
		case opStart:
			res, err = p.StartFlow(&tester.StartRequest{FlowURI: "res://flow:g"})
		case opRestart:
			res, err = p.RestartFlow(&tester.RestartRequest{InitialState: st})
		case opResume:
			res, err = p.ResumeFlow(&tester.ResumeRequest{State: st})
		}
	}), "a request that cannot be run is refused")
	vsym.Assert(err != nil && len(res) == 0 && len(t.calls) == 0, "a request that cannot be run is refused")
}
