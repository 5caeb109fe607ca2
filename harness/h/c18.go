package h

import (
	"flowverif/vsym"

	"time"

	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/core/support/service"
	"github.com/project-flogo/core/support/trace"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/state"
)

// bookService offers a recorder as the engine does.
type bookService struct{ *book }

func (bookService) Name() string { return "book" }
func (bookService) Start() error { return nil }
func (bookService) Stop() error  { return nil }

func recorderService(b *book) *service.Manager {
	sm := service.NewServiceManager()
	if b != nil {
		_ = sm.RegisterService(bookService{b})
	}
	return sm
}

var modes = []string{"off", "step", "snapshot", "full", "debugger"}

// C18_Observed: a flow whose middle task is plain, asynchronous, retried, iterates, repeats, accumulates or calls a subflow, with error link,
// error handler or neither, is stepped without any observers and run through the flow action with a listener or none, tracing or none, and a
// recorder in any mode, which may fail in every call (quick: listener, tracing and recorder on their own and all together).
//
// Shards: 9
// Timeout: 300
// Reaches: failed, completed, recorded, traced, heard
func C18_Observed() {
	bound := 2
	profile := vsym.Choice("profile", nProfiles)
	errs := vsym.Choice("errors", 3)
	def := sharedFlow(profile, errs, bound)
	trails = map[string]*trail{}
	d := someData("d", bound)
	alone := begin("alone", def, d).end(40)

	mode := vsym.Choice("mode", len(modes)+1) // the last is: no recorder
	fail := vsym.Choice("recorderFails", 2) == 1
	vsym.Assume(mode < len(modes) || !fail)
	hear := vsym.Choice("listener", 2) == 1
	tr := vsym.Choice("tracing", 2) == 1
	if vsym.Tier() == 0 {
		vsym.Assume(mode == len(modes) && !(hear && tr) || hear && tr && mode > 2 && mode < len(modes) || !hear && !tr && (mode == 1 && fail || mode == 2))
	}
	b := &book{fail: fail}
	if mode == len(modes) {
		b = nil
	}
	var settings map[string]interface{}
	if b != nil {
		settings = map[string]interface{}{"stateRecordingMode": modes[mode]}
	}
	initAction(settings, recorderService(b), def)
	a := newAction("res://flow:f")
	setFlows(sharedSubs)
	t := &tracer{}
	if tr {
		vsym.Assert(trace.RegisterTracer(t) == nil, "tracer")
	}
	if hear {
		listen()
	}
	trails["obs"] = &trail{}
	o, err := runAct(a, d.inputs(), &instance.RunOptions{PreservedInstanceId: "obs"})
	if hear {
		stopListening()
	}
	vsym.Assert(err == nil, "observed run starts")
	waits := alone.status < model.FlowStatusCompleted // for an activity
	vsym.Assert(o.done == 1 && len(o.results) == 1 || waits && len(o.results) == 0, "observed run gives one result")
	obs := trails["obs"]
	vsym.Observe("runs", len(alone.execs), len(obs.execs), int(alone.status), len(taskEvs), len(t.spans))
	obs.status = model.FlowStatusCompleted
	if waits {
		obs.status, obs.out = alone.status, alone.out
	} else if o.errs[0] != nil {
		obs.failed, obs.text, obs.status = true, o.errs[0].Error(), model.FlowStatusFailed
	} else {
		obs.out = o.results[0]["o"]
	}
	if alone.status == model.FlowStatusFailed {
		vsym.Reach("failed")
		alone.out = nil
	} else {
		vsym.Reach("completed")
	}
	if b != nil && len(b.steps)+len(b.snaps) > 0 {
		vsym.Reach("recorded")
	}
	if len(t.spans) > 0 {
		vsym.Reach("traced")
	}
	if hear && len(taskEvs) > 0 {
		vsym.Reach("heard")
	}
	alone.same(obs, "an observed run")
}

// traceInst starts a span for the instance, as the flow action does.
func traceInst(inst *instance.IndependentInstance) {
	tc, _ := trace.GetTracer().StartTrace(inst.SpanConfig(), nil)
	inst.SetTracingContext(tc)
}

// C18_Nested: flows of up to 6 tasks with a plain, iterating, repeating, retried, accumulating or (nested) subflow task, conditions, failing tasks,
// error links and error handlers on both levels are stepped without observers and with a listener, tracing and a recorder
// in step, full or debugger mode, which may fail; the same tasks run in the same order and all attributes, statuses and results agree after every step.
//
// Shards: 2
// Timeout: 300
// Reaches: failed, subflow active
func C18_Nested() {
	r := recFlow(false)
	def := mustDef(r)
	in := map[string]interface{}{"x": vsym.Int("x")}
	mode := []state.RecordingMode{state.RecordingModeStep, state.RecordingModeFull, state.RecordingModeDebugger}[vsym.Choice("mode", 3)]
	b := &book{fail: vsym.Choice("recorderFails", 2) == 1}
	vsym.Assume(vsym.Tier() > 0 || b.fail == (mode == state.RecordingModeFull))
	plain := newInst(def)
	plain.Start(in)
	runLog = nil
	seen := []*st{shown(plain.Snapshot())}
	for i := 0; i < 40 && plain.Status() < model.FlowStatusCompleted && plain.DoStep(); i++ {
		s := shown(plain.Snapshot())
		for _, f := range s.flows {
			f.attrs, _ = frozen(f.attrs).(map[string]interface{})
		}
		seen = append(seen, s)
	}
	ran := runLog
	runLog, recTries = nil, 0

	instance.EnableChangeTracking(true, mode)
	t := &tracer{}
	vsym.Assert(trace.RegisterTracer(t) == nil, "tracer")
	listen()
	inst, err := instance.NewIndependentInstance("inst", "res://flow:"+r.Name, def, instance.NewStateInstanceRecorder(b, mode, false), log.RootLogger())
	vsym.Assert(err == nil, "instance")
	traceInst(inst)
	inst.Start(in)
	_ = inst.RecordState(time.Time{})
	for i := 0; ; i++ {
		vsym.Assert(i < len(seen), "no further step")
		now := shown(inst.Snapshot())
		for id, f := range now.flows {
			w := seen[i].flows[id]
			vsym.Assert(w != nil, "an observed run has the same flows")
			for _, n := range []string{"TraceId", "SpanId"} {
				f.attrs["_fctx."+n] = w.attrs["_fctx."+n] // these tell about the tracing
			}
		}
		sameState(now, seen[i], "an observed run after a step")
		if len(now.flows) > 1 {
			vsym.Reach("subflow active")
		}
		if inst.Status() >= model.FlowStatusCompleted || !inst.DoStep() {
			vsym.Assert(i == len(seen)-1, "no step is missing")
			break
		}
		_ = inst.RecordState(time.Time{})
	}
	stopListening()
	instance.EnableChangeTracking(false, "off")
	vsym.Observe("steps", len(seen), len(ran), int(inst.Status()))
	vsym.Assert(len(ran) == len(runLog), "an observed run executes the same tasks")
	for i := range ran {
		vsym.Assert(ran[i] == runLog[i], "an observed run executes the same tasks")
	}
	if inst.Status() == model.FlowStatusFailed {
		vsym.Reach("failed")
		vsym.Assert(plain.GetError() != nil && inst.GetError() != nil && plain.GetError().Error() == inst.GetError().Error(), "an observed run ends with the same error")
	}
	x, _ := plain.GetReturnData()
	y, _ := inst.GetReturnData()
	vsym.Assert(len(x) == len(y) && same(x["o"], y["o"]), "an observed run ends with the same outputs")
}
