package h

import (
	"strings"

	"encoding/json"

	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/model/simple"
	"github.com/project-flogo/flow/util"
)

// panics tells whether f does.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// C35_Registry: up to 3 (thorough 5) registrations of models, as default or not, under three names, one of which is taken from the start, of new models or
// the one that has the name, or of no model at all; every model has a kind of tasks of its own and one that the others have, too.
//
// Shards: 3
// Reaches: refused, default
func C35_Registry() {
	names := []string{"flogo-simple", "m1", "m2", "nosuch"}
	old, err := model.Get("flogo-simple")
	vsym.Assert(err == nil && old.Name() == "flogo-simple", "the simple model is registered")
	byName := map[string]*model.FlowModel{"flogo-simple": old}
	def := model.Default()
	kinds := map[*model.FlowModel]string{}
	n := 3 + 2*vsym.Tier()
	for i := 0; i < n; i++ {
		k := string(rune('0' + i))
		op := vsym.Choice("op"+k, 5)
		switch op {
		case 0:
			vsym.Assert(panics(func() { model.Register(nil) }), "no model is not registered")
		case 1:
			vsym.Assert(panics(func() { model.RegisterDefault(nil) }), "no model is not registered")
		default:
			name := names[op-2]
			m := model.New(name)
			kind := "kind" + k
			m.RegisterTaskBehavior(kind, &simple.TaskBehavior{})
			m.RegisterTaskBehavior("basic", &simple.TaskBehavior{})
			again := byName[name] != nil && vsym.Choice("same"+k, 2) == 1
			if again {
				m = byName[name] // the very model
			} else {
				kinds[m] = kind
			}
			if vsym.Choice("default"+k, 2) == 1 {
				model.RegisterDefault(m)
				if byName[name] == nil {
					byName[name] = m
				}
				def = m
				vsym.Reach("default")
				break
			}
			p := panics(func() { model.Register(m) })
			vsym.Assert(p == (byName[name] != nil), "a name can be taken once")
			if p {
				vsym.Reach("refused")
			} else {
				byName[name] = m
			}
		}
		vsym.Assert(model.Default() == def, "the default model is the one registered as such last")
		for _, name := range append(names, vsym.Str("name"+k, 2)) {
			m, err := model.Get(name)
			vsym.Assert(m == byName[name] && (err != nil) == (m == nil), "a model is found under its name")
			checkKinds(name, m, kinds)
		}
		if def != nil && kinds[def] != "" {
			checkKinds("", def, kinds)
		}
		list := model.Registered()
		vsym.Assert(len(list) == len(byName), "the models registered are listed")
		for _, m := range list {
			vsym.Assert(byName[m.Name()] == m, "the models registered are listed")
		}
	}
}

// checkKinds checks that the kinds of tasks allowed for the name are those of the model.
func checkKinds(name string, m *model.FlowModel, kinds map[*model.FlowModel]string) {
	vsym.Assert(util.IsValidTaskType(name, "basic") == (m != nil), "the kinds of tasks allowed are those of the model")
	vsym.Assert(!util.IsValidTaskType(name, "nosuch"), "the kinds of tasks allowed are those of the model")
	for o, k := range kinds {
		vsym.Assert(util.IsValidTaskType(name, k) == (o == m), "the kinds of tasks allowed are those of the model")
	}
	if m != nil {
		vsym.Assert(util.IsValidTaskType(name, "iterator") == (kinds[m] == ""), "the kinds of tasks allowed are those of the model")
	}
}

// C35_Kinds: up to 3 (thorough 5) registrations of kinds of tasks of a model, as default or not.
func C35_Kinds() {
	m := model.New("m")
	byName := map[string]model.TaskBehavior{}
	var def model.TaskBehavior
	names := []string{"a", "b"}
	for i := 0; i < 3+2*vsym.Tier(); i++ {
		k := string(rune('0' + i))
		name := names[vsym.Choice("kind"+k, 2)]
		b := &modelTask{name: k}
		if vsym.Choice("default"+k, 2) == 1 {
			m.RegisterDefaultTaskBehavior(name, b)
			def = b
		} else {
			m.RegisterTaskBehavior(name, b)
		}
		byName[name] = b
		for _, name := range append(names, vsym.Str("name"+k, 1)) {
			w, ok := byName[name]
			vsym.Assert(m.IsValidTaskType(name) == ok && m.GetTaskBehavior(name) == w, "the kind of a task has the behaviour registered for it")
		}
		vsym.Assert(m.IsValidTaskType("") == (def != nil), "a task without kind has the default behaviour")
		vsym.Assert(m.GetTaskBehavior("") == def && m.GetDefaultTaskBehavior() == def, "a task without kind has the default behaviour")
	}
}

// modelTask and modelFlow record the use of a model's behaviours.
type modelTask struct {
	simple.TaskBehavior
	name string
}

type modelFlow struct {
	simple.FlowBehavior
	name string
}

var used []string

func (b *modelTask) use(ctx model.TaskContext) {
	used = append(used, b.name+" "+ctx.Task().ID())
}
func (b *modelTask) Enter(ctx model.TaskContext) model.EnterResult {
	b.use(ctx)
	return b.TaskBehavior.Enter(ctx)
}
func (b *modelTask) Eval(ctx model.TaskContext) (model.EvalResult, error) {
	b.use(ctx)
	return b.TaskBehavior.Eval(ctx)
}
func (b *modelTask) PostEval(ctx model.TaskContext) (model.EvalResult, error) {
	b.use(ctx)
	return b.TaskBehavior.PostEval(ctx)
}
func (b *modelTask) Done(ctx model.TaskContext) (bool, []*model.TaskEntry, error) {
	b.use(ctx)
	return b.TaskBehavior.Done(ctx)
}
func (b *modelTask) Skip(ctx model.TaskContext) (bool, []*model.TaskEntry, bool) {
	b.use(ctx)
	return b.TaskBehavior.Skip(ctx)
}
func (b *modelTask) Error(ctx model.TaskContext, err error) (bool, []*model.TaskEntry) {
	b.use(ctx)
	return b.TaskBehavior.Error(ctx, err)
}
func (b *modelFlow) use(ctx model.FlowContext) {
	used = append(used, b.name+" "+ctx.FlowDefinition().Name())
}
func (b *modelFlow) Start(ctx model.FlowContext) (bool, []*model.TaskEntry) {
	b.use(ctx)
	return b.FlowBehavior.Start(ctx)
}
func (b *modelFlow) StartErrorHandler(ctx model.FlowContext) []*model.TaskEntry {
	b.use(ctx)
	return b.FlowBehavior.StartErrorHandler(ctx)
}
func (b *modelFlow) TaskDone(ctx model.FlowContext) bool {
	b.use(ctx)
	return b.FlowBehavior.TaskDone(ctx)
}
func (b *modelFlow) Done(ctx model.FlowContext) {
	b.use(ctx)
	b.FlowBehavior.Done(ctx)
}

func recordingModel(name string) *model.FlowModel {
	m := model.New(name)
	m.RegisterFlowBehavior(&modelFlow{name: name})
	m.RegisterDefaultTaskBehavior("basic", &modelTask{name: name})
	m.RegisterTaskBehavior("own-"+name, &modelTask{name: name + "!"})
	return m
}

// modelName is no name or any name of two bytes.
func modelName(name string) string {
	if vsym.Choice(name+"default", 2) == 0 {
		return ""
	}
	return vsym.Str(name, 2)
}

// whichModel is 0 for the default model, 1 for m1, 2 for m2, 3 for another one.
func whichModel(n string) int {
	switch n {
	case "":
		return 0
	case "m1":
		return 1
	case "m2":
		return 2
	}
	return 3
}

// C35_Run: a flow calls another one, each with the default model or one with any name of two bytes, two of which are known; tasks are of no kind, a common one, or
// one of the model; each may have a task fail - handled by a link, the error handler or not - and the run may be interrupted after
// any of its steps and be continued from its stored state.
//
// Shards: 6
// Reaches: ran, refused, fails, restarted
func C35_Run() {
	model.RegisterDefault(recordingModel("d"))
	model.Register(recordingModel("m1"))
	model.Register(recordingModel("m2"))
	mainModel, subModel := modelName("main"), modelName("sub")
	mi, si := whichModel(mainModel), whichModel(subModel)
	behaves := map[string]string{"f": "d", "s": "d"}
	mk := func(name, m string) *definition.DefinitionRep {
		p := string(name[0])
		r := &definition.DefinitionRep{Name: name, ModelID: m, Tasks: []*definition.TaskRep{task(p+"0", ""), task(p+"1", ""), task(p+"2", "")}}
		r.Links = []*definition.LinkRep{link(p+"0", p+"1", "", ""), link(p+"1", p+"2", "error", "")}
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task(p+"h", "")}}
		for _, t := range []string{"0", "1", "2", "h"} {
			*behaviourOf(name, p+t) = Behaviour{}
		}
		behaves[name] = []string{"d", "m1", "m2", "nosuch"}[whichModel(m)]
		return r
	}
	main, sub := mk("f", mainModel), mk("s", subModel)
	own := map[string]bool{}
	for _, r := range []*definition.DefinitionRep{main, sub} {
		switch vsym.Choice("kind"+r.Name, 3) {
		case 1:
			r.Tasks[0].Type = "basic"
		case 2:
			r.Tasks[0].Type = "own-" + behaves[r.Name]
			own[r.Tasks[0].ID] = true
		}
		switch vsym.Choice("fails"+r.Name, 3) {
		case 1:
			*behaviourOf(r.Name, r.Tasks[1].ID) = Behaviour{Eval: func(activity.Context) (bool, error) { return false, errText("bad") }}
			vsym.Reach("fails")
		case 2:
			r.Links = r.Links[:1]
			*behaviourOf(r.Name, r.Tasks[1].ID) = Behaviour{Eval: func(activity.Context) (bool, error) { return false, errText("bad") }}
		}
	}
	ranSub := false
	*behaviourOf("f", "f0") = *hostBehaviour("sub", nil)
	*behaviourOf("s", "s0") = Behaviour{Eval: func(activity.Context) (bool, error) { ranSub = true; return true, nil }}
	setFlows(provider{"sub": sub, "f": main})
	def, err := definition.NewDefinition(main)
	if mi == 3 {
		if err == nil {
			_, err = instance.NewIndependentInstance("inst", "f", def, nil, log.RootLogger())
		}
		vsym.Assert(err != nil && len(used) == 0, "a flow with an unknown model is refused")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(err == nil, "a flow whose tasks are of the kinds of its model is loaded")
	inst, err := instance.NewIndependentInstance("inst", "f", def, instance.NewStateInstanceRecorder(nil, "off", false), log.RootLogger())
	vsym.Assert(err == nil, "a flow whose tasks are of the kinds of its model is run")
	inst.Start(nil)
	if k := vsym.Choice("stop", 5); k > 0 {
		for i := 0; i < k && inst.Status() < model.FlowStatusCompleted; i++ {
			inst.DoStep()
		}
		if inst.Status() == model.FlowStatusActive && (mi != 0 || si != 0) {
			b := stored(inst)
			again := &instance.IndependentInstance{}
			vsym.Assert(json.Unmarshal(b, again) == nil && again.Restart(log.RootLogger(), "inst", -1) == nil, "a run can be continued")
			again.SetInstanceRecorder(instance.NewStateInstanceRecorder(nil, "off", false))
			inst = again
			vsym.Reach("restarted")
		} else {
			vsym.Assume(false)
		}
	}
	vsym.Assert(drive(inst, 30) && inst.Status() >= model.FlowStatusCompleted, "run ends")
	vsym.Assert(ranSub == (si != 3), "a flow with an unknown model is refused")
	vsym.Assert(si != 3 || inst.Status() == model.FlowStatusFailed || len(used) > 0, "a flow with an unknown model is refused")
	for _, u := range used {
		at := 0
		for u[at] != ' ' {
			at++
		}
		who, what := u[:at], u[at+1:]
		want := behaves[what[:1]]
		if own[what] {
			want += "!"
		}
		vsym.Assert(who == want, "a flow runs with the behaviour of its model")
	}
	vsym.Reach("ran")
}

// C35_Definition: a flow with a task of any kind, in the main part or the error handler, and the default model or the one with any name of two bytes is loaded exactly if the model is known to have that
// kind of tasks; a task without kind is always possible.
func C35_Definition() {
	kinds := []string{"", "basic", "iterator", "doWhile", "own-m1", "own-m2", "own-d", "nosuch"}
	isDefault := vsym.Choice("m2", 3)
	model.Register(recordingModel("m1"))
	switch isDefault {
	case 1:
		model.Register(recordingModel("m2"))
	case 2:
		model.RegisterDefault(recordingModel("m2"))
	}
	k := vsym.Choice("kind", len(kinds)+1)
	if k == len(kinds) {
		kinds = append(kinds, vsym.Str("kind", 5))
	}
	name := "flogo-simple"
	if vsym.Choice("simple", 2) == 0 {
		name = modelName("model")
	}
	r := &definition.DefinitionRep{Name: "f", ModelID: name, Tasks: []*definition.TaskRep{task("A", "")}}
	t := task("B", "")
	t.Type = kinds[k]
	if kinds[k] == "iterator" {
		t.Settings = map[string]interface{}{"iterate": 1}
	}
	if kinds[k] == "doWhile" {
		t.Settings = map[string]interface{}{"condition": "more"}
	}
	if vsym.Choice("handler", 2) == 1 {
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{t}}
	} else {
		r.Tasks = append(r.Tasks, t)
	}
	_, err := definition.NewDefinition(r)
	who := name
	if who == "" && isDefault == 2 {
		who = "m2"
	} else if who == "" {
		who = "flogo-simple"
	}
	ok := false
	switch kinds[k] {
	case "":
		ok = true
	case "basic":
		ok = who == "flogo-simple" || who == "m1" || (who == "m2" && isDefault > 0)
	case "iterator", "doWhile":
		ok = who == "flogo-simple"
	case "own-m1":
		ok = who == "m1"
	case "own-m2":
		ok = who == "m2" && isDefault > 0
	}
	vsym.Assert((err == nil) == ok, "a flow is loaded exactly if its model has the kinds of its tasks")
}

// boom is the behaviour of tasks that panic when evaluated, or when done.
type boom struct {
	simple.TaskBehavior
	atEnd bool
}

func (b *boom) Eval(ctx model.TaskContext) (model.EvalResult, error) {
	if b.atEnd {
		return b.TaskBehavior.Eval(ctx)
	}
	panic("boom")
}

func (b *boom) Done(ctx model.TaskContext) (bool, []*model.TaskEntry, error) {
	if b.atEnd {
		panic("boom")
	}
	return b.TaskBehavior.Done(ctx)
}

// C35_Panic: a flow calls another one, each with two tasks; one task of the two flows is of a kind whose behaviour panics, when evaluated - handled by a link, the error handler
// of its flow, the calling task's link, the caller's error handler, or not - or when the task is done - handled by all of those except a link of its own.
//
// Reaches: handled, unhandled
func C35_Panic() {
	m := recordingModel("d")
	atEnd := vsym.Choice("atEnd", 2) == 1
	m.RegisterTaskBehavior("boom", &boom{atEnd: atEnd})
	model.RegisterDefault(m)
	ran := map[string]int{}
	at := ""
	mk := func(name string) *definition.DefinitionRep {
		p := string(name[0])
		r := &definition.DefinitionRep{Name: name, Tasks: []*definition.TaskRep{task(p+"0", ""), task(p+"1", ""), task(p+"2", "")}}
		r.Links = []*definition.LinkRep{link(p+"0", p+"1", "", "")}
		for _, t := range []string{"0", "1", "2", "h"} {
			t := p + t
			*behaviourOf(name, t) = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
				ran[t]++
				if t[1] == '2' || t[1] == 'h' {
					text, _ := sees(ctx, "$error.message").(string)
					who := sees(ctx, "$error.activity")
					vsym.Assert(strings.Contains(text, "boom"), "the error data tells why the task failed")
					vsym.Assert(t[:1] != at[:1] || who == at || who == nameOf(at), "the error data tells which task failed")
				}
				return true, nil
			}}
		}
		return r
	}
	main, sub := mk("f"), mk("s")
	where := vsym.Choice("where", 4) // s0, s1, f1, f0
	inSub := where < 2
	at = []string{"s0", "s1", "f1", "f0"}[where]
	reps := map[string]*definition.DefinitionRep{"f": main, "s": sub}
	handler, linked := map[string]bool{}, map[string]bool{}
	for _, n := range []string{"f", "s"} {
		r := reps[n]
		from := n + at[1:]
		if n == "f" && inSub {
			from = "f0" // the calling task
		}
		if linked[n] = (!atEnd || from != at) && vsym.Choice("link"+n, 2) == 1; linked[n] {
			r.Links = append(r.Links, link(from, n+"2", "error", ""))
		} else {
			r.Tasks = r.Tasks[:2]
		}
		if handler[n] = vsym.Choice("handler"+n, 2) == 1; handler[n] {
			r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task(n+"h", "")}}
		}
	}
	reps[at[:1]].Tasks[int(at[1]-'0')].Type = "boom"
	*behaviourOf("f", "f0") = *hostBehaviour("sub", nil)
	setFlows(provider{"sub": sub, "f": main})
	inst := newInst(mustDef(main))
	inst.Start(nil)
	vsym.Assert(drive(inst, 30), "run ends")
	want := map[string]int{}
	failing := false
	if where != 3 || atEnd {
		// the subflow
		want["s0"], want["s1"] = btoi(where != 0 || atEnd), btoi(where >= 2 || (where == 1 && atEnd))
		if inSub {
			want["s2"], want["sh"] = btoi(linked["s"]), btoi(!linked["s"] && handler["s"])
			failing = !linked["s"] && !handler["s"]
		}
		want["f1"] = btoi(!failing && where < 3 && (where != 2 || atEnd))
	}
	if failing || !inSub {
		want["f2"], want["fh"] = btoi(linked["f"]), btoi(!linked["f"] && handler["f"])
		failing = !linked["f"] && !handler["f"]
	}
	for _, t := range []string{"s0", "s1", "s2", "sh", "f1", "f2", "fh"} {
		vsym.Assert(ran[t] == want[t], "a task whose behaviour panics fails")
	}
	vsym.Assert((inst.Status() == model.FlowStatusFailed) == failing, "a task whose behaviour panics fails")
	if failing {
		vsym.Reach("unhandled")
	} else {
		vsym.Reach("handled")
	}
}
