package h

import (
	"context"
	"encoding/json"
	"os"

	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/engine"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/core/trigger"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/state"
	flowsupport "github.com/project-flogo/flow/support"
)

// ledger is a recorder that keeps the order of what it is told.
type ledger struct {
	book
	order string // B: begins, S: snapshot, s: step, E: ends
	ran   *int   // number of activities run so far
	at    []int
}

func (l *ledger) note(c string) { l.order += c; l.at = append(l.at, *l.ran) }
func (l *ledger) RecordStart(s *state.FlowState) error {
	l.note("B")
	return l.book.RecordStart(s)
}
func (l *ledger) RecordSnapshot(s *state.Snapshot) error {
	l.note("S")
	return l.book.RecordSnapshot(s)
}
func (l *ledger) RecordStep(s *state.Step) error {
	l.note("s")
	return l.book.RecordStep(s)
}
func (l *ledger) RecordDone(s *state.FlowState) error {
	l.note("E")
	return l.book.RecordDone(s)
}

// The ways the last task of a chronicled flow ends.
const (
	cReturns = iota
	cFails
	cWaits
	cAfterReturn
	nChEnds
)

// chronicle is a flow T0 -> T1 -> T2, T1 calling another flow or not, and what it does.
type chronicle struct {
	def  *definition.Definition
	subs provider
	end  int
	sub  bool
	ran  int
	ids  []string
	x    interface{}
	ev   interface{}
}

func aChronicle() *chronicle {
	c := &chronicle{end: vsym.Choice("end", nChEnds), sub: vsym.Choice("sub", 2) == 1, subs: provider{}}
	g := newGraph("f", 3)
	g.addEdge(0, 1, kDep)
	g.addEdge(1, 2, kDep)
	r := g.rep()
	if c.sub {
		r.Tasks[1] = subflowTask("T1", "sub", nil, false)
		c.subs["sub"] = &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}
		*behaviourOf("s", "S0") = Behaviour{Eval: func(ctx activity.Context) (bool, error) { c.ran++; return true, nil }}
	}
	inputsOf(r, map[string]interface{}{"x": 0})
	outputs(r, "o")
	for _, n := range []string{"T0", "T1", "T2"} {
		n := n
		*behaviourOf("f", n) = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
			c.ran++
			c.ids = append(c.ids, ctx.ActivityHost().ID())
			if n != "T2" {
				return true, nil
			}
			c.x = sees(ctx, "$flow.x")
			c.ev, _ = ctx.ActivityHost().Scope().GetValue(instance.EventIdAttr)
			switch c.end {
			case cFails:
				return false, fails(true)
			case cWaits:
				return false, nil
			}
			ctx.ActivityHost().Return(map[string]interface{}{"o": c.x}, nil)
			return true, fails(c.end == cAfterReturn)
		}}
	}
	c.def = mustDef(r)
	return c
}

// countSteps is the number of steps an instance takes.
func countSteps(inst *instance.IndependentInstance) int {
	n := 0
	for more := true; more && inst.Status() < model.FlowStatusCompleted && n < 20; n++ {
		more = inst.DoStep()
	}
	return n
}

// C39_Run: a flow of three tasks, the middle one calling another flow or not, that returns, fails, does both or waits for ever, is started, or restarted or
// resumed after any of its steps, with the number of the step to go on with (any up to 1000) or none, with any mode of recording, an id, the id of
// the run it repeats, new input, an event; it is detached or not, asks for its id or not, is a rerun or not
// (quick: outside full mode, an id is given exactly if the id is asked for, and there is an event exactly for detached runs).
//
// Shards: 8
// Reaches: started, restarted, resumed, detached, failed, waits
func C39_Run() {
	c := aChronicle()
	mode := vsym.Choice("mode", len(modes))
	vsym.Assume(vsym.Tier() == 1 || modes[mode] == "full" || c.end != cAfterReturn)
	op, which := instance.OpStart, vsym.Choice("op", 3)
	switch which {
	case 1:
		op = instance.OpRestart
	case 2:
		op = instance.OpResume
	}
	o := &instance.RunOptions{Op: op, ReturnID: vsym.Choice("asks", 2) == 1, Rerun: vsym.Bool("rerun"), OriginalInstanceId: vsym.Str("original", vsym.Choice("repeats", 2)*2)}
	o.DetachExecution = vsym.Choice("detached", 2) == 1
	given := vsym.Choice("given id", 2) == 1
	if given {
		o.PreservedInstanceId = "given"
	}
	first := 0
	if which > 0 && vsym.Choice("goes on", 2) == 1 {
		first = vsym.Range("first", 1, 1000)
		o.InitStepId = first
	}
	x := vsym.Range("x", -1000, 1000)
	l := &ledger{ran: &c.ran}
	sm := recorderService(nil)
	_ = sm.RegisterService(ledgerService{l})
	initAction(map[string]interface{}{"stateRecordingMode": modes[mode]}, sm, c.def)
	a := newAction("res://flow:f")
	named(c.def, c.subs)
	wantSteps := 0
	inputs := map[string]interface{}{}
	if which == 0 {
		inst := newInst(c.def)
		inst.Start(map[string]interface{}{"x": x})
		wantSteps = countSteps(inst)
		inputs["x"] = x
	} else {
		inst := newInst(c.def)
		inst.Start(map[string]interface{}{"x": x})
		for i, k := 0, vsym.Choice("steps", 3); i < k; i++ {
			vsym.Assume(inst.DoStep())
		}
		b := stored(inst)
		wantSteps = countSteps(restored(b))
		o.InitialState = read(b)
		if vsym.Choice("new", 2) == 1 {
			x = vsym.Range("newX", -1000, 1000)
			inputs["x"] = x
		}
	}
	c.ran, c.ids = 0, nil
	ctx := context.Background()
	event := vsym.Choice("event", 2) == 1
	// quick: fewer combinations of what the caller asks for, other than in full mode
	vsym.Assume(vsym.Tier() == 1 || modes[mode] == "full" || o.ReturnID == given && event == o.DetachExecution)
	if event {
		ctx = trigger.NewContextWithEventId(ctx, "ev1")
	}
	given0 := len(inputs)
	inputs["_run_options"] = o
	out := &chronicleOutcome{ran: &c.ran}
	err := a.Run(ctx, inputs, out)
	vsym.Assert(err == nil, "a run starts")
	out.wait(false)
	for i := 0; i < 4; i++ {
		vsym.Yield()
	}

	// the id
	vsym.Assert(len(c.ids) > 0, "a run goes on")
	id := c.ids[0]
	for _, other := range c.ids {
		vsym.Assert(other == id || c.sub, "a run has one id")
	}
	if which < 2 {
		vsym.Assert(id != "" && id != "inst" && (id == "given") == given, "a run has the id given for it, or a new one")
	} else {
		vsym.Assert(id == "inst", "a resumed run keeps its id")
		vsym.Reach("resumed")
	}

	// the caller
	vsym.Assert(out.done == 1, "a caller is told once that the run is done")
	if o.DetachExecution {
		vsym.Assert(out.ranAtDone == 0 && out.doneAt == 0, "a caller is told at once that a detached run is done")
		vsym.Reach("detached")
	} else {
		vsym.Assert(out.doneAt == len(out.results), "a caller is told the outcome before the run is done")
	}
	res := out.results
	errs := out.errs
	if o.ReturnID {
		vsym.Assert(len(res) > 0 && errs[0] == nil && res[0]["id"] == id && len(res[0]) == 1 && out.ranAt[0] == 0, "a caller that asks for the id of the run is told it first")
		res, errs = res[1:], errs[1:]
	}
	status := "Completed"
	switch c.end {
	case cReturns:
		vsym.Assert(len(res) == 1 && errs[0] == nil && sameNum(res[0]["o"], x), "a caller is told the outcome")
	case cFails, cAfterReturn:
		status = "Failed"
		vsym.Assert(len(res) == 1 && errs[0] != nil && len(res[0]) == 0, "a caller is told the outcome")
		vsym.Reach("failed")
	case cWaits:
		status = "Started"
		vsym.Assert(len(res) == 0, "a run that waits has no outcome")
		vsym.Reach("waits")
	}
	vsym.Assert(sameNum(c.x, x), "a run has the data it is given")
	if event {
		vsym.Assert(c.ev == "ev1", "a run knows the event that caused it")
	}

	// the recorder
	steps, snaps := state.RecordSteps(state.RecordingMode(modes[mode])), state.RecordSnapshot(state.RecordingMode(modes[mode]))
	n := wantSteps
	if first == 0 {
		n++
	}
	want := "B"
	for i := 0; i < n; i++ {
		if snaps {
			want += "S"
		}
		if steps {
			want += "s"
		}
	}
	vsym.Observe("records", l.order, want)
	vsym.Assert(l.order == want+"E", "the recorder is told of the start of a run, all its steps and its end")
	vsym.Assert(l.at[0] == 0 && l.at[len(l.at)-1] == c.ran, "the recorder is told of the start of a run before and of its end after all activities")
	for i, f := range []*state.FlowState{l.start[0], l.done[0]} {
		vsym.Assert(f.FlowInstanceId == id && f.FlowName == "f", "the recorder is told which run it is")
		vsym.Assert(len(f.FlowInputs) == given0 && (given0 == 0 || sameNum(f.FlowInputs["x"], x)), "the recorder is told the data of a run")
		vsym.Assert(!f.StartTime.After(f.EndTime) && f.StartTime.Equal(l.start[0].StartTime), "the recorder is told the times of a run")
		if i == 0 {
			vsym.Assert(f.OriginalInstanceId == o.OriginalInstanceId, "the recorder is told the run that is repeated")
		} else {
			vsym.Observe("status", f.FlowStats)
			vsym.Assert(f.FlowStats == status, "the recorder is told how a run ended")
			vsym.Assert(c.end == cAfterReturn || c.end != cReturns && len(f.FlowOutputs) == 0 || c.end == cReturns && sameNum(f.FlowOutputs["o"], x), "the recorder is told the result of a run")
		}
	}
	for i, s := range l.steps {
		vsym.Assert(s.Id == first+i, "the steps of a run are numbered")
		vsym.Assert(s.FlowId == id && s.Rerun == o.Rerun, "a step tells the run it is of")
		vsym.Assert(!s.StartTime.After(s.EndTime), "a step tells when it was")
	}
	for _, s := range l.snaps {
		vsym.Assert(s.Id == id, "a snapshot tells the run it is of")
	}
	vsym.Reach([]string{"started", "restarted", "resumed"}[which])
}

type ledgerService struct{ *ledger }

func (ledgerService) Name() string { return "ledger" }
func (ledgerService) Start() error { return nil }
func (ledgerService) Stop() error  { return nil }

// chronicleOutcome also tells how many activities had run.
type chronicleOutcome struct {
	outcome
	ran       *int
	ranAtDone int
}

func (o *chronicleOutcome) HandleResult(res map[string]interface{}, err error) {
	o.outcome.HandleResult(res, err)
	o.ranAt[len(o.ranAt)-1] = *o.ran
}

func (o *chronicleOutcome) Done() {
	o.outcome.Done()
	o.ranAtDone = *o.ran
}

// read is the instance as it was written down.
func read(b []byte) *instance.IndependentInstance {
	inst := &instance.IndependentInstance{}
	vsym.Assert(inst.UnmarshalJSON(b) == nil, "a serialised instance can be read")
	return inst
}

// C39_Refused: requests to run a flow with an operation there is not, to restart or resume none, or a flow that is gone, with any other options.
//
// Reaches: refused
func C39_Refused() {
	ran := 0
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T1", "")}}
	*behaviourOf("f", "T1") = Behaviour{Eval: func(ctx activity.Context) (bool, error) { ran++; return true, nil }}
	def := mustDef(r)
	l := &ledger{ran: &ran}
	sm := recorderService(nil)
	_ = sm.RegisterService(ledgerService{l})
	initAction(map[string]interface{}{"stateRecordingMode": "full"}, sm, def)
	a := newAction("res://flow:f")
	o := &instance.RunOptions{ReturnID: vsym.Choice("asks", 2) == 1, DetachExecution: vsym.Choice("detached", 2) == 1, Rerun: vsym.Bool("rerun"), InitStepId: vsym.Range("first", 0, 5)}
	switch vsym.Choice("what", 4) {
	case 0:
		o.Op = instance.OpRestart
	case 1:
		o.Op = instance.OpResume
	case 2:
		o.Op = vsym.Int("operation")
		vsym.Assume(o.Op != instance.OpStart && o.Op != instance.OpRestart && o.Op != instance.OpResume)
	case 3:
		o.Op = []int{instance.OpRestart, instance.OpResume}[vsym.Choice("op", 2)]
		inst, err := instance.NewIndependentInstance("inst", "res://flow:gone", def, instance.NewStateInstanceRecorder(nil, "off", false), log.RootLogger())
		vsym.Assert(err == nil, "set up")
		inst.Start(nil)
		o.InitialState = read(stored(inst))
	}
	out := &chronicleOutcome{ran: &ran}
	err := a.Run(context.Background(), map[string]interface{}{"_run_options": o}, out)
	for i := 0; i < 4; i++ {
		vsym.Yield()
	}
	vsym.Assert(err != nil, "a run that cannot be is refused")
	vsym.Assert(ran == 0 && out.done == 0 && len(out.results) == 0 && l.order == "", "nothing is done for a run that is refused")
	vsym.Reach("refused")
}

// C39_Origin: a flow that calls another one runs in an app with a name and version, of a user on a host; each of these is told by the environment, in any
// text of one or two characters, or not.
//
// Reaches: told, default
func C39_Origin() {
	_, err := engine.LoadAppConfig(`{"name":"app","type":"flogo:app","version":"1.2"}`, false)
	vsym.Assert(err == nil, "set up")
	host, _ := os.Hostname()
	names := []string{"FLOGO_APP_USERNAME", "FLOGO_HOST_NAME", "FLOGO_APP_NAME", "FLOGO_APP_VERSION"}
	want := []string{"flogo", host, "app", "1.2"}
	for i, n := range names {
		if vsym.Choice("set", 2) == 1 {
			v := vsym.Str(n, 1+i%2)
			vsym.Assume(v[0] != 0 && v[len(v)-1] != 0)
			vsym.Setenv(n, v)
			want[i] = v
			vsym.Reach("told")
		} else {
			vsym.Unsetenv(n)
			vsym.Reach("default")
		}
	}
	ran := 0
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{subflowTask("T0", "sub", nil, false), task("T1", "")}, Links: []*definition.LinkRep{link("T0", "T1", "", "")}}
	s := &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}
	look := Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		ran++
		vsym.Assert(sees(ctx, "$flowctx[AppName]") == want[2] && sees(ctx, "$flowctx[AppVersion]") == want[3], "a flow knows the app it is of")
		return true, nil
	}}
	*behaviourOf("s", "S0"), *behaviourOf("f", "T1") = look, look
	def := mustDef(r)
	l := &ledger{ran: &ran}
	sm := recorderService(nil)
	_ = sm.RegisterService(ledgerService{l})
	initAction(map[string]interface{}{"stateRecordingMode": "full"}, sm, def)
	a := newAction("res://flow:f")
	named(def, provider{"sub": s})
	out := &chronicleOutcome{ran: &ran}
	vsym.Assert(a.Run(context.Background(), map[string]interface{}{}, out) == nil, "a run starts")
	out.wait(false)
	for i := 0; i < 4; i++ {
		vsym.Yield()
	}
	vsym.Assert(ran == 2 && len(l.start) == 1 && len(l.done) == 1, "the recorder is told of the start and the end of a run")
	for _, f := range []*state.FlowState{l.start[0], l.done[0]} {
		vsym.Assert(f.UserId == want[0], "the recorder is told the user")
		vsym.Assert(f.HostId == want[1], "the recorder is told the host")
		vsym.Assert(f.AppName == want[2] && f.AppVersion == want[3], "the recorder is told the app")
	}
}

// C39_Limit: a flow as in C39_Run is started with a limit of two steps, which it exceeds, with any mode of recording, detached or not, asks for its id or not.
//
// Env: FLOGO_MAX_STEP_COUNT=2
// Reaches: stopped, detached
func C39_Limit() {
	c := aChronicle()
	mode := modes[vsym.Choice("mode", len(modes))]
	o := &instance.RunOptions{ReturnID: vsym.Choice("asks", 2) == 1, DetachExecution: vsym.Choice("detached", 2) == 1, PreservedInstanceId: "given"}
	x := vsym.Range("x", -1000, 1000)
	l := &ledger{ran: &c.ran}
	sm := recorderService(nil)
	_ = sm.RegisterService(ledgerService{l})
	initAction(map[string]interface{}{"stateRecordingMode": mode}, sm, c.def)
	a := newAction("res://flow:f")
	named(c.def, c.subs)
	out := &chronicleOutcome{ran: &c.ran}
	vsym.Assert(a.Run(context.Background(), map[string]interface{}{"x": x, "_run_options": o}, out) == nil, "a run starts")
	out.wait(false)
	for i := 0; i < 4; i++ {
		vsym.Yield()
	}
	vsym.Assert(c.ran < 3, "a run is stopped by the limit")
	vsym.Assert(out.done == 1, "a caller is told once that the run is done")
	errs := out.errs
	if o.ReturnID {
		vsym.Assert(len(errs) > 0 && errs[0] == nil && out.results[0]["id"] == "given", "a caller that asks for the id of the run is told it first")
		errs = errs[1:]
	}
	vsym.Assert(len(errs) == 1 && errs[0] != nil, "a caller is told the outcome")
	if o.DetachExecution {
		vsym.Reach("detached")
	}
	vsym.Observe("records", l.order)
	vsym.Assert(len(l.start) == 1 && len(l.done) == 1 && l.order[0] == 'B' && l.order[len(l.order)-1] == 'E', "the recorder is told of the start of a run before and of its end after all else")
	vsym.Assert(l.at[0] == 0 && l.at[len(l.at)-1] == c.ran, "the recorder is told of the start of a run before and of its end after all activities")
	vsym.Assert(l.start[0].FlowInstanceId == "given" && l.done[0].FlowInstanceId == "given", "the recorder is told which run it is")
	vsym.Assert(sameNum(l.start[0].FlowInputs["x"], x) && sameNum(l.done[0].FlowInputs["x"], x), "the recorder is told the data of a run")
	vsym.Assert(l.done[0].FlowStats != "Completed", "the recorder is told how a run ended")
	for i, s := range l.steps {
		vsym.Assert(s.Id == i && s.FlowId == "given", "the steps of a run are numbered")
	}
	vsym.Reach("stopped")
}

// C39_Gone: a flow T0 -> T1 calls a flow S0 -> S1, which calls a third one U0; after any number of its steps it is written down, and a run is asked to go on from
// there, with any options, when all of it is still there, or one of the flows that have not ended is gone, known under a URI of a resource or of the provider, or
// has lost a task or a link that the state is about.
//
// Reaches: refused, runs
func C39_Gone() {
	ran := 0
	kind := vsym.Choice("uris", 2)
	uri := []string{"", "res://flow:"}[kind]
	mk := func(name, first, second, calls string) *definition.DefinitionRep {
		r := &definition.DefinitionRep{Name: name, Tasks: []*definition.TaskRep{task(first, "")}}
		if second != "" {
			r.Tasks = append(r.Tasks, subflowTask(second, uri+calls, nil, false))
			r.Links = []*definition.LinkRep{link(first, second, "", "")}
		}
		*behaviourOf(name, first) = Behaviour{Eval: func(ctx activity.Context) (bool, error) { ran++; return true, nil }}
		return r
	}
	all := []*definition.DefinitionRep{mk("f", "T0", "T1", "s"), mk("s", "S0", "S1", "u"), mk("u", "U0", "", "")}
	l := &ledger{ran: &ran}
	sm := recorderService(nil)
	_ = sm.RegisterService(ledgerService{l})
	initAction(map[string]interface{}{"stateRecordingMode": "full"}, sm, mustDef(all[0]))
	a := newAction("res://flow:f")
	// known makes the given flows the ones that are known
	known := func(reps []*definition.DefinitionRep) {
		rm, p := resource.NewManager(nil), provider{}
		for _, r := range reps {
			if r == nil {
				continue
			}
			if kind == 1 {
				rm.SetResource("flow:"+r.Name, resource.New("flow", mustDef(r)))
			} else {
				p[r.Name] = r
			}
		}
		flowsupport.InitDefaultDefLookup(flowsupport.NewFlowManager(p), rm)
	}
	known(all)
	inst, err := instance.NewIndependentInstance("inst", uri+"f", mustDef(all[0]), instance.NewStateInstanceRecorder(nil, "off", false), log.RootLogger())
	vsym.Assert(err == nil, "set up")
	inst.Start(nil)
	steps := vsym.Choice("steps", 8)
	for i := 0; i < steps; i++ {
		inst.DoStep()
	}
	vsym.Assume(inst.Status() == model.FlowStatusActive)
	b := stored(inst)
	// the tasks that are there, of each of the flows
	var s struct {
		Tasks    []struct{ ID string }
		Links    []struct{ LinkID int }
		SubFlows []struct {
			SubFlowID int
			Tasks     []struct{ ID string }
			Links     []struct{ LinkID int }
		}
	}
	vsym.Assert(json.Unmarshal(b, &s) == nil, "a serialised instance can be read")
	there := []bool{true, false, false}
	tasks, links := [][]string{nil, nil, nil}, []int{len(s.Links), 0, 0}
	for _, t := range s.Tasks {
		tasks[0] = append(tasks[0], t.ID)
	}
	for _, f := range s.SubFlows {
		there[f.SubFlowID], links[f.SubFlowID] = true, len(f.Links)
		for _, t := range f.Tasks {
			tasks[f.SubFlowID] = append(tasks[f.SubFlowID], t.ID)
		}
	}
	refused := false
	now := append([]*definition.DefinitionRep{}, all...)
	which := vsym.Choice("which", 3)
	changed := *all[which]
	switch vsym.Choice("change", 4) {
	case 1: // gone
		now[which] = nil
		refused = there[which]
	case 2: // a task is gone
		lost := vsym.Choice("lost", 2)
		vsym.Assume(lost < len(changed.Tasks))
		for _, t := range tasks[which] {
			refused = refused || t == changed.Tasks[lost].ID
		}
		changed.Tasks = append(append([]*definition.TaskRep{}, changed.Tasks[:lost]...), changed.Tasks[lost+1:]...)
		changed.Links = nil
		refused = refused || links[which] > 0
		now[which] = &changed
	case 3: // the links are gone
		changed.Links = nil
		refused = links[which] > 0
		now[which] = &changed
	}
	known(now)
	ran = 0
	o := &instance.RunOptions{Op: []int{instance.OpRestart, instance.OpResume}[vsym.Choice("op", 2)], DetachExecution: vsym.Bool("detached"), InitStepId: vsym.Choice("first", 2)}
	o.InitialState = read(b)
	out := &chronicleOutcome{ran: &ran}
	err = a.Run(context.Background(), map[string]interface{}{"_run_options": o}, out)
	for i := 0; i < 4; i++ {
		vsym.Yield()
	}
	if refused {
		vsym.Assert(err != nil, "a run that cannot be is refused")
		vsym.Assert(ran == 0 && out.done == 0 && len(out.results) == 0 && l.order == "", "nothing is done for a run that is refused")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(err == nil && out.done == 1 && l.order != "", "a run that can be is not refused")
	vsym.Reach("runs")
}
