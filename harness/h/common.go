// Package h holds the verification harnesses. Every exported function whose name starts
// with a property identifier is an entry point.
package h

import (
	"strings"

	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/expression"
	"github.com/project-flogo/core/data/mapper"
	"github.com/project-flogo/core/data/metadata"
	"github.com/project-flogo/core/data/resolve"
	coreevent "github.com/project-flogo/core/engine/event"
	"github.com/project-flogo/core/support/log"

	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/model/simple"
	flowsupport "github.com/project-flogo/flow/support"
	"github.com/project-flogo/flow/support/event"
)

// StubRef is the reference of the stub activity.
const StubRef = "flowverif/h"

// Stub is the activity under which all symbolic behaviour is plugged in.
type Stub struct {
	host, name string
	details    *activity.Details
}

// Behaviour is what a stub task does.
type Behaviour struct {
	Eval func(ctx activity.Context) (bool, error)
	Post func(ctx activity.Context) (bool, error)
}

var behaviours = map[string]*Behaviour{}

// Outputs and inputs every stub declares.
var stubMd = &activity.Metadata{IOMetadata: &metadata.IOMetadata{
	Input: map[string]data.TypedValue{
		"in":  data.NewAttribute("in", data.TypeAny, nil),
		"num": data.NewAttribute("num", data.TypeInt, nil),
	},
	Output: map[string]data.TypedValue{
		"out":  data.NewAttribute("out", data.TypeAny, nil),
		"out2": data.NewAttribute("out2", data.TypeAny, nil),
		"num":  data.NewAttribute("num", data.TypeInt, nil),
	},
}}

// Metadata implements activity.Activity.
func (s *Stub) Metadata() *activity.Metadata { return stubMd }

// Details implements activity.HasDetails.
func (s *Stub) Details() *activity.Details { return nil }

// Eval implements activity.Activity.
func (s *Stub) Eval(ctx activity.Context) (bool, error) {
	b := behaviours[s.host+"/"+s.name]
	if b == nil || b.Eval == nil {
		return true, nil
	}
	return b.Eval(ctx)
}

// PostEval implements activity.AsyncActivity.
func (s *Stub) PostEval(ctx activity.Context, userData interface{}) (bool, error) {
	b := behaviours[s.host+"/"+s.name]
	if b == nil || b.Post == nil {
		return true, nil
	}
	return b.Post(ctx)
}

func newStub(ctx activity.InitContext) (activity.Activity, error) {
	return &Stub{host: ctx.HostName(), name: idOf(ctx.Name())}, nil
}

// ---------- expressions ----------

// exprs gives script expressions their meaning.
var exprs = map[string]func(scope data.Scope) (interface{}, error){}

type stubExpr struct{ text string }

func (e *stubExpr) Eval(scope data.Scope) (interface{}, error) {
	f := exprs[e.text]
	if f == nil {
		return nil, errText("no meaning for expression " + e.text)
	}
	return f(scope)
}

type stubFactory struct{}

func (stubFactory) NewExpr(s string) (expression.Expr, error) {
	if len(s) > 3 && s[:3] == "bad" {
		return nil, errText("malformed expression")
	}
	return &stubExpr{s}, nil
}

type errT struct{ s string }

func (e *errT) Error() string { return e.s }

func errText(s string) error { return &errT{s} }

var theModel *model.FlowModel

func init() {
	expression.SetScriptFactoryCreator(func(resolve.CompositeResolver) expression.Factory { return stubFactory{} })
	_ = activity.Register(&Stub{}, newStub)
	theModel = simple.New()
	model.RegisterDefault(theModel)
	definition.SetMapperFactory(mapper.NewFactory(definition.GetDataResolver()))
	definition.SetExprFactory(expression.NewFactory(definition.GetDataResolver()))
}

// ---------- building flows ----------

func task(id, typ string) *definition.TaskRep {
	return &definition.TaskRep{ID: id, Name: nameOf(id), Type: typ, ActivityCfgRep: &activity.Config{Ref: StubRef}}
}

// nameOf is the name of the task with an id.
func nameOf(id string) string { return "the task " + id }

// idOf is the id of the task with a name that nameOf gave, any other name otherwise.
func idOf(name string) string { return strings.TrimPrefix(name, "the task ") }

func link(from, to, typ, value string) *definition.LinkRep {
	return &definition.LinkRep{FromID: from, ToID: to, Type: typ, Value: value}
}

func mustDef(rep *definition.DefinitionRep) *definition.Definition {
	d, err := definition.NewDefinition(rep)
	if err != nil {
		panic("definition: " + err.Error())
	}
	return d
}

func newInst(def *definition.Definition) *instance.IndependentInstance {
	return newInstID("inst", def)
}

func newInstID(id string, def *definition.Definition) *instance.IndependentInstance {
	inst, err := instance.NewIndependentInstance(id, "res://flow:"+def.Name(), def, instance.NewStateInstanceRecorder(nil, "off", false), log.RootLogger())
	if err != nil {
		panic(err)
	}
	return inst
}

// drive steps the instance until nothing is left to do; false when the bound was hit.
func drive(inst *instance.IndependentInstance, bound int) bool {
	for i := 0; i < bound; i++ {
		if inst.Status() >= model.FlowStatusCompleted {
			return true
		}
		if !inst.DoStep() {
			return true
		}
	}
	return false
}

// provider hands out the flows that are called as subflows.
type provider map[string]*definition.DefinitionRep

func (p provider) GetFlow(uri string) (*definition.DefinitionRep, error) {
	if r := p[uri]; r != nil {
		return r, nil
	}
	return nil, errText("no flow " + uri)
}

// setFlows makes flows callable.
func setFlows(p provider) { flowsupport.InitDefaultDefLookup(flowsupport.NewFlowManager(p), nil) }

// hostBehaviour is an activity that runs a subflow.
func hostBehaviour(uri string, inputs map[string]interface{}) *Behaviour {
	return &Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		runLog = append(runLog, ctx.ActivityHost().Name()+"/"+idOf(ctx.Name()))
		in := make(map[string]interface{})
		for k, v := range inputs {
			in[k] = v
		}
		return false, instance.StartSubFlow(ctx, uri, in)
	}}
}

// flowStatusEvents and taskStatusEvents collect what listeners are told, see listen.
var flowEvs []event.FlowEvent
var taskEvs []event.TaskEvent
var allEvs []interface{} // both, in order

type collector struct{}

func (collector) HandleEvent(ctx *coreevent.Context) error {
	allEvs = append(allEvs, ctx.GetEvent())
	switch e := ctx.GetEvent().(type) {
	case event.FlowEvent:
		flowEvs = append(flowEvs, e)
	case event.TaskEvent:
		taskEvs = append(taskEvs, e)
	}
	return nil
}

func listen() {
	flowEvs, taskEvs, allEvs = nil, nil, nil
	_ = coreevent.RegisterListener("h", collector{}, []string{event.FlowEventType, event.TaskEventType})
}

func stopListening() {
	vsym.Yield()
	coreevent.UnRegisterListener("h", []string{event.FlowEventType, event.TaskEventType})
}

func exprBool(b bool) func(scope data.Scope) (interface{}, error) {
	return func(scope data.Scope) (interface{}, error) { return b, nil }
}

// bypasses tells whether the stub activities are not to be validated.
var bypasses bool

// BypassValidation implements schema.ValidationBypass.
func (s *Stub) BypassValidation() bool { return bypasses }

// started starts a flow, by itself, or as the subflow of a task, with the id of one of its own, of a flow that has attributes of the same names.
func started(r *definition.DefinitionRep, nested bool, in map[string]interface{}) *instance.IndependentInstance {
	if !nested {
		inst := newInst(mustDef(r))
		inst.Start(in)
		return inst
	}
	m := &definition.DefinitionRep{Name: "outer", Tasks: []*definition.TaskRep{task("T1", "")}}
	behaviours["outer/T1"] = hostBehaviour("nested", in)
	setFlows(provider{"nested": r})
	inst := newInst(mustDef(m))
	own := map[string]interface{}{}
	for n := range in {
		own[n] = "of the outer flow"
	}
	inst.Start(own)
	return inst
}
