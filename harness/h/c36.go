package h

import (
	"encoding/json"
	"strconv"
	"strings"

	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/util"
)

// The ways the last task of a limited flow ends it.
const (
	lPlain = iota
	lSet
	lReturn
	lFail
	lHandled
	nLast
)

// limitedFlow is a flow of some length, what it does without limit, and what it does in the run in progress.
type limitedFlow struct {
	rep   *definition.DefinitionRep
	did   []string // activities run
	after []int    // number of activities run after each step
	want  *outcome
	steps []string
	n     int
	flows provider
}

func (l *limitedFlow) does(flow, id string, eval func(ctx activity.Context) (bool, error)) {
	*behaviourOf(flow, id) = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		l.did = append(l.did, id)
		if eval != nil {
			return eval(ctx)
		}
		return true, nil
	}}
}

// aLimitedFlow is a flow of up to chain tasks, one that repeats or calls another flow of that length, and one that ends it in any way; inLoops is 0 to leave loops out.
func aLimitedFlow(chain, loops, inLoops int) *limitedFlow {
	l := &limitedFlow{rep: &definition.DefinitionRep{Name: "f"}, flows: provider{}}
	r := l.rep
	l.n = vsym.Range("repeats", 0, loops)
	value := vsym.Range("value", 0, 1000)
	outputs(r, "r")
	add := func(t *definition.TaskRep) {
		if k := len(r.Tasks); k > 0 {
			r.Links = append(r.Links, link(r.Tasks[k-1].ID, t.ID, "", ""))
		}
		r.Tasks = append(r.Tasks, t)
	}
	for i, k := 0, vsym.Choice("chain", chain+1); i < k; i++ {
		id := "T" + strconv.Itoa(i)
		add(task(id, ""))
		l.does("f", id, nil)
	}
	repeat := vsym.Choice("repeat", 2+2*inLoops)
	if repeat > 0 && inLoops == 0 {
		repeat = 3
	}
	switch repeat {
	case 1:
		t := task("I", "iterator")
		t.Settings = map[string]interface{}{"iterate": l.n}
		add(t)
		l.does("f", "I", nil)
	case 2:
		t := task("D", "doWhile")
		t.Settings = map[string]interface{}{"condition": "more"}
		add(t)
		exprs["more"] = func(s data.Scope) (interface{}, error) {
			times := 0
			for _, d := range l.did {
				if d == "D" {
					times++
				}
			}
			return times < l.n, nil
		}
		l.does("f", "D", nil)
	case 3:
		add(task("S", ""))
		l.does("f", "S", func(ctx activity.Context) (bool, error) { return false, instance.StartSubFlow(ctx, "sub", nil) })
		s := &definition.DefinitionRep{Name: "s"}
		for i, k := 0, vsym.Choice("sub", loops); i < k; i++ {
			id := "S" + strconv.Itoa(i)
			s.Tasks = append(s.Tasks, task(id, ""))
			if i > 0 {
				s.Links = append(s.Links, link("S"+strconv.Itoa(i-1), id, "", ""))
			}
			l.does("s", id, nil)
		}
		l.flows["sub"] = s
	}
	add(task("E", ""))
	end := vsym.Choice("end", nLast)
	l.does("f", "E", func(ctx activity.Context) (bool, error) {
		switch end {
		case lSet:
			setAttr(ctx, "r", value)
		case lReturn:
			ctx.ActivityHost().Return(map[string]interface{}{"r": value}, nil)
		case lFail, lHandled:
			return false, errText("bad")
		}
		return true, nil
	})
	if end == lHandled {
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("H", "")}}
		l.does("f", "H", nil)
	}
	// without limit
	setFlows(l.flows)
	def := mustDef(r)
	inst := newInst(def)
	l.want = &outcome{}
	inst.SetResultHandler(l.want)
	inst.Start(nil)
	for inst.Status() < model.FlowStatusCompleted {
		inst.DoStep()
		l.after = append(l.after, len(l.did))
		vsym.Assert(len(l.after) < 40, "a flow ends")
	}
	if inst.Status() == model.FlowStatusCompleted {
		res, err := inst.GetReturnData()
		l.want.HandleResult(res, err)
	} else {
		l.want.HandleResult(nil, inst.GetError())
	}
	l.steps, l.did = l.did, nil
	return l
}

// check compares what a run gave with what it gives without limit. Of the limit are left so many steps; a run that needs at most
// so many is not stopped, one that needs more than atMost is.
func (l *limitedFlow) check(o *outcome, limit, left, atMost int) {
	vsym.Yield()
	vsym.Assert(o.done == 1 && o.doneAt == len(o.results), "a run is completed once, after its results")
	vsym.Assert(len(o.results) == 1, "a run gives one result")
	vsym.Assert(len(l.did) <= len(l.steps), "a run does what it does without limit")
	for i, d := range l.did {
		vsym.Assert(d == l.steps[i], "a run does what it does without limit")
	}
	err, want := o.errs[0], l.want.errs[0]
	stopped := len(l.did) < len(l.steps) || (err != nil && strings.Contains(err.Error(), "max step count"))
	if len(l.after) <= left {
		vsym.Assert(!stopped, "a flow that needs no more steps than the limit is not stopped by it")
	} else if len(l.after) > atMost {
		vsym.Assert(err != nil && strings.Contains(err.Error(), strconv.Itoa(limit)) && o.results[0] == nil, "a flow that runs on is stopped with an error naming the limit")
		vsym.Assert(len(l.did) <= l.after[left], "a flow is stopped after no more steps than the limit and one")
		vsym.Reach("stopped")
		return
	}
	if !stopped {
		vsym.Assert((err == nil) == (want == nil) && (err == nil || err.Error() == want.Error()), "a flow that is not stopped gives its result")
		vsym.Assert(len(o.results[0]) == len(l.want.results[0]), "a flow that is not stopped gives its result")
		if err == nil {
			a, b := o.results[0]["r"], l.want.results[0]["r"]
			vsym.Assert((a == nil) == (b == nil) && (a == nil || sameNum(a, b)), "a flow that is not stopped gives its result")
		} else {
			vsym.Reach("fails")
		}
		vsym.Reach("ended")
	}
}

func limited(limit int) {
	l := aLimitedFlow(limit+1, limit+1, 1)
	initAction(nil, nil, mustDef(l.rep))
	act := newAction("res://flow:f")
	setFlows(l.flows)
	o, err := runAct(act, nil, nil)
	vsym.Assert(err == nil, "a run starts")
	l.check(o, limit, limit, limit)
}

// C36_One: flows of up to 2 tasks, one that repeats up to twice, in an iterator or a loop, or calls a flow of up to one task, and a task that ends the flow in any
// way; the limit is 1 step.
//
// Env: FLOGO_MAX_STEP_COUNT=1
// Reaches: stopped, ended, fails
func C36_One() { limited(1) }

// C36_Three: as C36_One with a limit of 3 steps, and lengths of up to 4.
//
// Env: FLOGO_MAX_STEP_COUNT=3
// Reaches: stopped, ended, fails
func C36_Three() { limited(3) }

// C36_Seven: as C36_One with a limit of 7 steps, and lengths of up to 8.
//
// Env: FLOGO_MAX_STEP_COUNT=7
// Tier: thorough
// Shards: 4
// Reaches: stopped, ended, fails
func C36_Seven() { limited(7) }

// C36_Zero: as C36_One with settings that are no usable limit, flows of up to 20 steps.
//
// Env: FLOGO_MAX_STEP_COUNT=0
// Reaches: ended, fails
func C36_Zero() { unlimited() }

// C36_Negative: as C36_Zero with a negative limit.
//
// Env: FLOGO_MAX_STEP_COUNT=-3
// Reaches: ended, fails
func C36_Negative() { unlimited() }

// C36_Text: as C36_Zero with a text as limit.
//
// Env: FLOGO_MAX_STEP_COUNT=3x
// Reaches: ended, fails
func C36_Text() { unlimited() }

func unlimited() {
	l := aLimitedFlow(2, 4, 1)
	initAction(nil, nil, mustDef(l.rep))
	act := newAction("res://flow:f")
	setFlows(l.flows)
	o, err := runAct(act, nil, nil)
	vsym.Assert(err == nil, "a run starts")
	l.check(o, 1000, 1000, 1000)
}

// C36_OnDemand: as C36_Three, handed to the on-demand action.
//
// Env: FLOGO_MAX_STEP_COUNT=3
// Reaches: stopped, ended, fails
func C36_OnDemand() {
	l := aLimitedFlow(4, 4, 1)
	b, err := json.Marshal(map[string]interface{}{"flow": l.rep})
	vsym.Assert(err == nil, "text")
	act := onDemand()
	setFlows(l.flows)
	o, err := ask(act, json.RawMessage(b), true, nil)
	vsym.Assert(err == nil, "a run starts")
	vsym.Assert(len(o.results) > 0 && o.errs[0] == nil && o.results[0]["id"] != nil, "a flow without explicit reply is answered with its id")
	o.results, o.errs = o.results[1:], o.errs[1:]
	o.doneAt--
	l.check(o, 3, 3, 3)
}

// C36_Restart: as C36_Three without loops, where the run is stopped after any step and continued from its stored state by a restart or resumption
// that counts on from any step number up to 6 (without calls if that is given).
//
// Env: FLOGO_MAX_STEP_COUNT=3
// Shards: 2
// Reaches: stopped, ended, fails
func C36_Restart() {
	l := aLimitedFlow(3, 3, 0)
	def := mustDef(l.rep)
	initAction(nil, nil, def)
	act := newAction("res://flow:f")
	l.flows["f"] = l.rep
	setFlows(l.flows)
	inst, err := instance.NewIndependentInstance("inst", "f", def, instance.NewStateInstanceRecorder(nil, "off", false), log.RootLogger())
	vsym.Assert(err == nil, "a run starts")
	inst.Start(nil)
	k := vsym.Choice("at", 4)
	for i := 0; i < k; i++ {
		inst.DoStep()
		vsym.Assume(inst.Status() < model.FlowStatusCompleted)
	}
	again := &instance.IndependentInstance{}
	vsym.Assert(json.Unmarshal(stored(inst), again) == nil, "a stored run can be read")
	from := vsym.Choice("from", 7)
	vsym.Assume(from == 0 || len(l.flows) == 1) // otherwise the activity at which the run was stopped is to be run again
	o, err := runAct(act, nil, &instance.RunOptions{Op: instance.OpResume + vsym.Choice("op", 2), InitialState: again, InitStepId: from})
	vsym.Assert(err == nil, "a run starts")
	// the steps made before do not count for the steps needed
	l.after = l.after[k:]
	before := 0
	if from > 0 {
		before = from - 1
	}
	left := 3 - before
	if left < 0 {
		left = 0
	}
	l.check(o, 3, left, 3)
}

// C36_Setting: the limit in force for the limit set to any text of up to 4 (thorough 6) bytes, to large numbers, and none.
//
// Reaches: usable, unusable
func C36_Setting() {
	n := vsym.Choice("n", 7+2*vsym.Tier())
	want := util.MaxStepCountDefault
	switch n {
	case 0:
		vsym.Unsetenv("FLOGO_MAX_STEP_COUNT")
	case 1:
		text := []string{"9223372036854775807", "9223372036854775808", "99999999999999999999", "-9223372036854775808", "10000001", "1e3", "0x10", "1.0", " 10"}
		i := vsym.Choice("text", len(text))
		vsym.Setenv("FLOGO_MAX_STEP_COUNT", text[i])
		switch i {
		case 0:
			want = 9223372036854775807
		case 4:
			want = 10000001
		}
	default:
		s := vsym.Str("text", n-2)
		for i := 0; i < len(s); i++ {
			vsym.Assume(s[i] != 0)
		}
		vsym.Setenv("FLOGO_MAX_STEP_COUNT", s)
		v, digits, ok := 0, 0, true
		for i := 0; i < len(s); i++ {
			if c := s[i]; c >= '0' && c <= '9' {
				v = v*10 + int(c-'0')
				digits++
			} else if i > 0 || c != '+' {
				ok = false
			}
		}
		if ok && digits > 0 && v > 0 {
			want = v
			vsym.Reach("usable")
		} else {
			vsym.Reach("unusable")
		}
	}
	vsym.Assert(util.GetMaxStepCount() == want, "a number is the limit, anything else leaves the default in force")
}
