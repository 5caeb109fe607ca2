package h

import (
	"encoding/base64"

	"flowverif/acts/life"
	"flowverif/vsym"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	flowsupport "github.com/project-flogo/flow/support"
)

// answers of a provider
const (
	aGood = iota
	aError
	aInvalid // a flow that is not a valid one
	aNothing
	nAnswers
)

// somewhere is a provider that answers as told and counts.
type somewhere struct {
	answer func(uri string) int
	asked  []string
	gate   chan bool
	// oneName tells that all flows have the same name
	oneName bool
}

func (s *somewhere) GetFlow(uri string) (*definition.DefinitionRep, error) {
	s.asked = append(s.asked, uri)
	a := s.answer(uri)
	if s.gate != nil {
		<-s.gate
	}
	switch a {
	case aError:
		return nil, errText("unreachable")
	case aInvalid:
		return &definition.DefinitionRep{Name: "of " + uri, Tasks: []*definition.TaskRep{task("T0", "")}, Links: []*definition.LinkRep{link("T0", "T9", "", "")}}, nil
	case aNothing:
		return nil, nil
	}
	r := &definition.DefinitionRep{Name: "of " + uri, Tasks: []*definition.TaskRep{task("T0", "")}}
	r.Tasks[0].Name = r.Name
	if s.oneName {
		r.Name = "f"
	}
	return r, nil
}

// lookup asks the manager; a panic is no answer.
func lookup(fm *flowsupport.FlowManager, uri string) (d *definition.Definition, err error) {
	defer func() {
		vsym.Assert(recover() == nil, "a lookup that fails is an error")
	}()
	return fm.GetFlow(uri)
}

// C25_History: any sequence of 3 (thorough 5) lookups of flows by arbitrary URIs of one character (thorough up to 2 kinds of
// length) through a provider that answers each request with the flow, an error, an invalid flow or nothing; the flows have names of their own or all the same.
//
// Shards: 4
// Reaches: cached, again, error
func C25_History() {
	cur := 0
	p := &somewhere{answer: func(string) int { return cur }}
	fm := flowsupport.NewFlowManager(p)
	var uris []string
	var defs []*definition.Definition
	p.oneName = vsym.Choice("oneName", 2) == 1
	failed := map[string]bool{}
	for i := 0; i < 3+2*vsym.Tier(); i++ {
		n := 1
		if vsym.Tier() == 1 {
			n = 1 + vsym.Choice("length", 2)
		}
		uri := vsym.Str("uri", n)
		cur = vsym.Choice("answer", nAnswers)
		asked := len(p.asked)
		d, err := lookup(fm, uri)
		var known *definition.Definition
		for j, u := range uris {
			if u == uri {
				known = defs[j]
			}
		}
		if known != nil {
			vsym.Assert(err == nil && d == known, "a URI names the same flow every time")
			vsym.Assert(len(p.asked) == asked, "a flow is built once")
			vsym.Reach("cached")
			continue
		}
		vsym.Assert(len(p.asked) == asked+1 && p.asked[asked] == uri, "a flow that is not known is asked for by its URI")
		if cur != aGood {
			vsym.Assert(err != nil && d == nil, "a failed lookup is an error")
			failed[uri] = true
			vsym.Reach("error")
			continue
		}
		vsym.Assert(err == nil && d != nil, "a lookup succeeds if the flow is provided")
		vsym.Assert(d.GetTask("T0").Name() == "of "+uri, "the flow is the one provided under the URI")
		if failed[uri] {
			vsym.Reach("again")
		}
		uris, defs = append(uris, uri), append(defs, d)
	}
}

// C25_Together: two flows are looked up at the same time, by equal or different URIs, while the provider takes its time;
// the first may be unreachable at first.
//
// Reaches: same, different
func C25_Together() {
	u := []string{vsym.Str("uri", 1), vsym.Str("uri2", 1)}
	fails := vsym.Bool("fails")
	n := 0
	p := &somewhere{gate: make(chan bool)}
	p.answer = func(string) int {
		n++
		if n == 1 && fails {
			return aError
		}
		return aGood
	}
	fm := flowsupport.NewFlowManager(p)
	defs := make([]*definition.Definition, 2)
	errs := make([]error, 2)
	done := 0
	for i := range u {
		i := i
		go func() {
			defs[i], errs[i] = fm.GetFlow(u[i])
			done++
		}()
	}
	for done < 2 {
		vsym.Yield()
		if done < 2 {
			p.gate <- true
		}
	}
	nerr := 0
	for i := range u {
		if errs[i] != nil {
			nerr++
		} else {
			vsym.Assert(defs[i] != nil && defs[i].Name() == "of "+u[i], "the flow is the one provided under the URI")
		}
	}
	vsym.Assert(nerr == 1 == fails, "an unreachable flow fails one lookup only")
	vsym.Assert(len(p.asked) <= 2, "the provider is asked once per lookup at most")
	if u[0] == u[1] {
		vsym.Reach("same")
		if !fails {
			vsym.Assert(defs[0] == defs[1] && len(p.asked) == 1, "a flow is built once")
		}
	} else {
		vsym.Reach("different")
	}
}

// flow texts
const (
	goodFlow  = `{"name":"here","tasks":[{"id":"T0","activity":{"ref":"flowverif/h"}}]}`
	wrongFlow = `{"name":"here","tasks":[{"id":"T0","activity":{"ref":"no/such"}}]}`
)

// C25_Formats: a flow comes from a file or over http, plain, compressed, or compressed and base64 encoded where that is
// offered; there is any status, header spelling, damage of the text, or none; the URI may have a scheme that is not offered.
//
// Shards: 2
// Reaches: good, bad
func C25_Formats() {
	text := []string{goodFlow, wrongFlow, "null", "", "{", "[]", "x", `{"name":1}`}
	t := vsym.Choice("text", len(text))
	data := []byte(text[t])
	good := t == 0
	gz := vsym.Gzip(data)
	var uri string
	switch vsym.Choice("from", 5) {
	case 0: // a file
		switch vsym.Choice("form", 4) {
		case 0:
			uri = vsym.PutFile("f.json", data)
		case 1:
			uri = vsym.PutFile("f.json", gz)
		case 2:
			uri = vsym.PutFile("f.json", gz[:len(gz)-1-vsym.Choice("cut", 20)])
			good = false
		case 3:
			uri = vsym.PutFile("f.json", data) + "x"
			good = false
		}
	case 1: // plain over http
		st := 200 + vsym.Choice("status", 4)*100
		uri = vsym.Serve([]string{"flow", "file://flow"}[vsym.Choice("path", 2)], func() (int, string, string, []byte) { return st, "", "", data })
		good = good && st == 200
	case 2: // compressed over http
		h := []string{"flow-compressed", "Flow-Compressed"}[vsym.Choice("header", 2)]
		v := []string{"true", "TRUE", "True"}[vsym.Choice("value", 3)]
		b := []byte(base64.StdEncoding.EncodeToString(gz))
		switch vsym.Choice("damage", 4) {
		case 1:
			b, good = b[:len(b)-3], false
		case 2:
			b, good = data, false
		case 3:
			b, good = []byte(base64.StdEncoding.EncodeToString(data)), false
		}
		uri = vsym.Serve("flow", func() (int, string, string, []byte) { return 200, h, v, b })
	case 3: // said not to be compressed
		v := []string{"false", "", "no"}[vsym.Choice("value", 3)]
		uri = vsym.Serve("flow", func() (int, string, string, []byte) { return 200, "flow-compressed", v, data })
	case 4:
		uri = []string{"ftp://flow", "", "flow", "http:// x", "file://"}[vsym.Choice("uri", 5)]
		good = false
	}
	vsym.Observe("good", good)
	fm := flowsupport.NewFlowManager(nil)
	d, err := lookup(fm, uri)
	if !good {
		vsym.Assert(err != nil && d == nil, "a flow that cannot be read is an error")
		vsym.Reach("bad")
		return
	}
	vsym.Assert(err == nil && d != nil, "a flow is read in every format that is offered")
	vsym.Assert(d.Name() == "here" && len(d.Tasks()) == 1, "the flow is the one its URI names")
	d2, err := lookup(fm, uri)
	vsym.Assert(err == nil && d2 == d, "a URI names the same flow every time")
	vsym.Reach("good")
}

// C25_Resources: up to two flow resources are loaded under arbitrary ids of one character, by the loader or together, valid or
// not, and flows are then looked up by arbitrary resource and provider URIs, directly, as a subflow and as an action.
//
// Shards: 2
// Reaches: resource, provided, missing
func C25_Resources() {
	p := provider{"x": &definition.DefinitionRep{Name: "of provider", Tasks: []*definition.TaskRep{task("T0", "")}}}
	rm := resource.NewManager(nil)
	flowsupport.InitDefaultDefLookup(flowsupport.NewFlowManager(p), rm)
	_ = resource.RegisterLoader(flowsupport.ResTypeFlow, &flowsupport.FlowLoader{})
	ids := []string{vsym.Str("id", 1), vsym.Str("id2", 1)}
	bad := vsym.Choice("bad", 4)
	texts := []string{wrongFlow, "{", "null", `{"name":"here","tasks":[null]}`, `{"name":"here","tasks":[{"id":"T0"}]}`, `{"name":"here","tasks":[{"id":"T0","activity":{"ref":"flowverif/acts/life"}}]}`}
	made := life.Made
	life.Made = func(activity.InitContext) error { panic("cannot be made") }
	defer func() { life.Made = made }()
	var cfgs []*resource.Config
	for i, id := range ids {
		c := &resource.Config{ID: "flow:" + id, Data: []byte(`{"name":"` + []string{"R0", "R1"}[i] + `","tasks":[{"id":"T0","activity":{"ref":"flowverif/h"}}]}`)}
		if bad == i+1 {
			c.Data = []byte(texts[vsym.Choice("damage", len(texts))])
		}
		if bad == 3 && i == 1 {
			c.ID = "other:" + id
		}
		cfgs = append(cfgs, c)
	}
	var err error
	vsym.Assert(!panics(func() { err = flowsupport.SetResource(cfgs) }), "a resource that cannot be loaded is an error")
	vsym.Assert((err != nil) == (bad != 0), "a resource that cannot be loaded is an error")
	if bad == 0 {
		id := vsym.Str("which", 1)
		want := ""
		for i := range ids {
			if ids[i] == id {
				want = []string{"R0", "R1"}[i] // the last one loaded under the id
			}
		}
		d, res, err := flowsupport.GetDefinition("res://flow:" + id)
		if want == "" {
			vsym.Assert(d == nil, "a resource that is not there names no flow")
			vsym.Reach("missing")
		} else {
			vsym.Assert(err == nil && res && d != nil && d.Name() == want, "a resource URI names the resource")
			vsym.Reach("resource")
		}
	}
	d, res, err := flowsupport.GetDefinition("x")
	vsym.Assert(err == nil && !res && d != nil && d.Name() == "of provider", "a provider URI names the provided flow")
	d2, _, err := flowsupport.GetDefinition("x")
	vsym.Assert(err == nil && d2 == d, "a URI names the same flow every time")
	d, _, err = flowsupport.GetDefinition("y")
	vsym.Assert(err != nil && d == nil, "a failed lookup is an error")
	p["res://flow:not loaded"] = p["x"]
	d, _, _ = flowsupport.GetDefinition("res://flow:not loaded")
	vsym.Assert(d == nil, "a resource that is not there is not asked of the provider")
	vsym.Reach("provided")
}

// C25_Subflow: a flow T0 -> T1 (on error) runs a subflow by any of a resource, a provided flow, a missing or an
// unreachable one; a failure is an error of T0.
//
// Reaches: ran, failed
func C25_Subflow() {
	p := provider{"x": &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}}
	rm := resource.NewManager(nil)
	flowsupport.InitDefaultDefLookup(flowsupport.NewFlowManager(p), rm)
	_ = resource.RegisterLoader(flowsupport.ResTypeFlow, &flowsupport.FlowLoader{})
	if err := flowsupport.SetResource([]*resource.Config{{ID: "flow:r", Data: []byte(`{"name":"s","tasks":[{"id":"S0","name":"S0","activity":{"ref":"flowverif/h"}}]}`)}}); err != nil {
		panic(err)
	}
	w := vsym.Choice("which", 4)
	uri := []string{"x", "res://flow:r", "y", "res://flow:y"}[w]
	ran, handled := 0, 0
	*behaviourOf("s", "S0") = Behaviour{Eval: func(activity.Context) (bool, error) { ran++; return true, nil }}
	*behaviourOf("f", "T1") = Behaviour{Eval: func(activity.Context) (bool, error) { handled++; return true, nil }}
	*behaviourOf("f", "T0") = *hostBehaviour(uri, nil)
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T0", ""), task("T1", "")}, Links: []*definition.LinkRep{link("T0", "T1", "error", "")}}
	inst := newInst(mustDef(r))
	inst.Start(nil)
	vsym.Assert(drive(inst, 30), "run ends")
	vsym.Assert(inst.Status() == model.FlowStatusCompleted, "a failed lookup is an error of the task")
	if w < 2 {
		vsym.Assert(ran == 1 && handled == 0, "a subflow is the flow its URI names")
		vsym.Reach("ran")
	} else {
		vsym.Assert(ran == 0 && handled == 1, "a failed lookup is an error of the task")
		vsym.Reach("failed")
	}
}

// C25_Actions: actions for flows in files, one of which cannot be read, or for a flow resource; two requests to any of the actions that could be made, to run its flow or,
// where it is not a resource, the one of another file, or of a file that is not there.
//
// Reaches: ran, another, refused, no action
func C25_Actions() {
	flowOf := func(n string) string {
		return `{"name":"` + n + `","metadata":{"input":[{"name":"in` + n + `","type":"int"}],"output":[{"name":"out` + n + `","type":"any"}]},"tasks":[{"id":"T0","name":"the task T0","activity":{"ref":"flowverif/h"}}]}`
	}
	names := []string{"fa", "fb", "r"}
	r := &definition.DefinitionRep{Name: "r", Tasks: []*definition.TaskRep{task("T0", "")}}
	inputsOf(r, map[string]interface{}{"inr": nil})
	outputs(r, "outr")
	initAction(nil, nil, mustDef(r))
	uris := []string{vsym.PutFile("a.json", []byte(flowOf("fa"))), vsym.PutFile("b.json", []byte(flowOf("fb"))), "res://flow:r", vsym.PutFile("c.json", []byte(wrongFlow))}
	ran := make([]int, 3)
	for i, n := range names {
		i := i
		behaviours[n+"/T0"] = &Behaviour{Eval: func(activity.Context) (bool, error) { ran[i]++; return true, nil }}
	}
	made := make([]action.AsyncAction, 4)
	for i, u := range uris {
		a, err := theFactory.New(&action.Config{Settings: map[string]interface{}{"flowURI": u}})
		vsym.Assert((err != nil) == (i == 3), "an action is made for a flow that can be read")
		if err == nil {
			made[i] = a.(action.AsyncAction)
			md := a.IOMetadata()
			vsym.Assert(md != nil && len(md.Input) == 1 && len(md.Output) == 1, "an action has the inputs and outputs of its flow")
			_, hasIn := md.Input["in"+names[i]]
			_, hasOut := md.Output["out"+names[i]]
			vsym.Assert(hasIn && hasOut, "an action has the inputs and outputs of its flow")
		} else {
			vsym.Reach("no action")
		}
	}
	for k := 0; k < 2; k++ {
		which := vsym.Choice("action", 3)
		want, o := which, &instance.RunOptions{}
		if which < 2 {
			switch c := vsym.Choice("other", 5); c {
			case 0:
				o = nil
			case 2, 3:
				o.FlowURI, want = uris[c-2], c-2
			case 4:
				o.FlowURI, want = uris[0]+"x", -1
			}
		}
		before := append([]int(nil), ran...)
		res, err := runAct(made[which], nil, o)
		if want < 0 {
			vsym.Assert(err != nil && len(res.results) == 0 && res.done == 0, "a request for a flow that cannot be read is refused")
			vsym.Reach("refused")
		} else {
			vsym.Assert(err == nil && res.done == 1, "a request for a flow is accepted")
			before[want]++
			if want != which {
				vsym.Reach("another")
			} else {
				vsym.Reach("ran")
			}
		}
		for i := range ran {
			vsym.Assert(ran[i] == before[i], "the flow that is asked for is run, and no other one")
		}
	}
}
