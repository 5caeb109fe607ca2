package h

import (
	"errors"

	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data/coerce"
	"github.com/project-flogo/core/data/schema"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
)

// span-like schemas: a value matches if it is a number between lo and hi.
type numbersSchema struct {
	def    *schema.Def
	lo, hi int
}

func (s *numbersSchema) Type() string  { return s.def.Type }
func (s *numbersSchema) Value() string { return s.def.Value }
func (s *numbersSchema) Validate(v interface{}) error {
	n, err := coerce.ToInt(v)
	if v == nil || err != nil || n < s.lo || n > s.hi {
		return errors.New(s.def.Value + " expected")
	}
	return nil
}

// numbersFactory makes schemas with the bounds given for their text.
type numbersFactory map[string][2]int

func (f numbersFactory) New(def *schema.Def) (schema.Schema, error) {
	b, ok := f[def.Value]
	if !ok {
		return nil, errors.New("no such schema")
	}
	return &numbersSchema{def, b[0], b[1]}, nil
}

// The ways validation can be switched.
const (
	sOff     = iota
	sNone    // switched off before the flow is loaded
	sStopped // switched off afterwards
	sOn
	nSwitches
)

// someSchema is the schema with the text, written in any way.
func someSchema(text string, later *[]string) interface{} {
	switch vsym.Choice("written"+text, 5) {
	case 0:
		return map[string]interface{}{"type": "numbers", "value": text}
	case 1:
		return map[string]string{"type": "numbers", "value": text}
	case 2:
		return &schema.Def{Type: "numbers", Value: text}
	case 3:
		_, err := schema.Register(text, &schema.Def{Type: "numbers", Value: text})
		vsym.Assert(err == nil, "set up")
	case 4:
		*later = append(*later, text)
	}
	return "schema://" + text
}

// switched sets validation up, loads the flow and tells if it is validated.
func switched(f numbersFactory, load func() *definition.DefinitionRep) (*definition.Definition, bool, int) {
	_ = schema.RegisterFactory("numbers", f)
	s := vsym.Choice("switch", nSwitches)
	if s != sOff {
		schema.Enable()
	}
	if s == sNone {
		schema.DisableValidation()
	}
	var later []string
	laterSchemas = &later
	def := mustDef(load())
	for _, text := range later {
		_, err := schema.Register(text, &schema.Def{Type: "numbers", Value: text})
		vsym.Assert(err == nil, "set up")
	}
	schema.ResolveSchemas()
	if s == sStopped {
		schema.DisableValidation()
	}
	bypasses = vsym.Choice("bypass", 2) == 1
	return def, s == sOn && !bypasses, s
}

var laterSchemas *[]string

// C38_Task: a task with a schema for its input and one for its output, each written in any way, or one of them only; the input and the output have the same name or not; values, and the bounds the schemas set, are arbitrary.
// The task runs once, or in a loop of two runs, finishes in the first evaluation or waits for a flow it calls; its failure is followed by an error link, the error handler or not.
//
// Shards: 4
// Reaches: valid, input, output, off
func C38_Task() {
	inLo, inHi := vsym.Range("inLo", -100, 100), vsym.Range("inHi", -100, 100)
	outLo, outHi := vsym.Range("outLo", -100, 100), vsym.Range("outHi", -100, 100)
	x, y := vsym.Range("x", -200, 200), vsym.Range("y", -200, 200)
	kind := vsym.Choice("kind", 3)
	hasIn, hasOut := true, true
	switch vsym.Choice("schemas", 3) {
	case 1:
		hasIn = false
	case 2:
		hasOut = false
	}
	follow := vsym.Choice("follow", 3)
	inName, outName := "in", "out"
	if vsym.Choice("names", 2) == 1 {
		inName, outName = "num", "num"
	}
	ran, ranT2, ranE, ranH := 0, 0, 0, 0
	var seenOut interface{}
	var message interface{}
	def, on, sw := switched(numbersFactory{"in": {inLo, inHi}, "out": {outLo, outHi}}, func() *definition.DefinitionRep {
		r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T1", ""), task("T2", "")},
			Links: []*definition.LinkRep{link("T1", "T2", "", "")}}
		cfg := r.Tasks[0].ActivityCfgRep
		cfg.Input = map[string]interface{}{inName: "=$flow.x"}
		inputsOf(r, map[string]interface{}{"x": x})
		cfg.Schemas = &activity.SchemaConfig{Input: map[string]interface{}{}, Output: map[string]interface{}{}}
		if hasIn {
			cfg.Schemas.Input[inName] = someSchema("in", laterSchemas)
		}
		if hasOut {
			cfg.Schemas.Output[outName] = someSchema("out", laterSchemas)
		}
		if kind == 1 {
			r.Tasks[0].Type = "iterator"
			r.Tasks[0].Settings = map[string]interface{}{"iterate": 2}
		}
		eh := func(ctx activity.Context) (bool, error) {
			message = sees(ctx, "$error[T1].message")
			return true, nil
		}
		switch follow {
		case 1:
			r.Tasks = append(r.Tasks, task("E", ""))
			r.Links = append(r.Links, link("T1", "E", "error", ""))
			*behaviourOf("f", "E") = Behaviour{Eval: func(ctx activity.Context) (bool, error) { ranE++; return eh(ctx) }}
		case 2:
			r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("H", "")}}
			*behaviourOf("f", "H") = Behaviour{Eval: func(ctx activity.Context) (bool, error) { ranH++; return eh(ctx) }}
		}
		return r
	})
	set := func(ctx activity.Context) {
		// the second run of a loop gives another output
		_ = ctx.SetOutput(outName, y+ran-1)
	}
	*behaviourOf("f", "T1") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		ran++
		vsym.Assert(sameNum(ctx.GetInput(inName), x), "an activity gets its input")
		io, ok := ctx.(schema.HasSchemaIO)
		vsym.Assert(ok, "an activity sees its schemas")
		check := func(s schema.Schema, has bool, text string) {
			vsym.Assert((s != nil) == has, "an activity sees its schemas")
			if has && sw != sOff {
				vsym.Assert(s.Type() == "numbers" && s.Value() == text, "an activity sees its schemas")
			}
		}
		check(io.GetInputSchema(inName), hasIn, "in")
		check(io.GetOutputSchema(outName), hasOut, "out")
		check(io.GetInputSchema("out2"), false, "")
		if kind == 2 {
			return false, instance.StartSubFlow(ctx, "sub", nil)
		}
		set(ctx)
		return true, nil
	}, Post: func(ctx activity.Context) (bool, error) { set(ctx); return true, nil }}
	*behaviourOf("f", "T2") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		ranT2++
		seenOut = sees(ctx, "$activity[T1]."+outName)
		return true, nil
	}}
	setFlows(provider{"sub": &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}})
	inst := newInst(def)
	inst.Start(nil)
	vsym.Assert(drive(inst, 30), "run ends")
	runs, wants := 1, ""
	if kind == 1 {
		runs = 2
	}
	wantRan := 0
	for i := 0; i < runs && wants == ""; i++ {
		if on && hasIn && (x < inLo || x > inHi) {
			wants = "in expected"
			vsym.Reach("input")
			break
		}
		wantRan++
		if on && hasOut && (y+i < outLo || y+i > outHi) {
			wants = "out expected"
			vsym.Reach("output")
		}
	}
	vsym.Assert(ran == wantRan, "an activity runs exactly if its input matches its schema")
	if wants == "" {
		vsym.Assert(inst.Status() == model.FlowStatusCompleted && ranT2 == 1 && ranE == 0 && ranH == 0, "a task whose values match its schemas does not fail")
		vsym.Assert(sameNum(seenOut, y+runs-1), "the output of a task is seen")
		vsym.Reach("valid")
		if !on {
			vsym.Reach("off")
		}
		return
	}
	vsym.Assert(ranT2 == 0, "a task whose values do not match its schemas fails")
	vsym.Assert((ranE == 1) == (follow == 1) && (ranH == 1) == (follow == 2) && (inst.Status() == model.FlowStatusFailed) == (follow == 0), "a task whose values do not match its schemas fails")
	if follow > 0 {
		vsym.Assert(message == wants, "the error tells what does not match")
	} else {
		vsym.Assert(inst.GetError() != nil, "a task whose values do not match its schemas fails")
	}
}

// C38_Names: a task with two inputs and two outputs, each with a schema of its own bounds, or not; an input that is not mapped and an output that is not set are not validated.
//
// Shards: 2
// MapRot: 1
// Reaches: valid, input, output
func C38_Names() {
	names := []string{"in", "num", "out", "out2"}
	f := numbersFactory{}
	has, given := map[string]bool{}, map[string]bool{}
	v, lo, hi := map[string]int{}, map[string]int{}, map[string]int{}
	for _, n := range names {
		lo[n], hi[n], v[n] = vsym.Range("lo"+n, -100, 100), vsym.Range("hi"+n, -100, 100), vsym.Range("v"+n, -200, 200)
		f[n] = [2]int{lo[n], hi[n]}
		has[n] = vsym.Choice("has"+n, 2) == 1
		given[n] = vsym.Choice("given"+n, 2) == 1
	}
	_ = schema.RegisterFactory("numbers", f)
	schema.Enable()
	t := task("T1", "")
	t.ActivityCfgRep.Input = map[string]interface{}{}
	t.ActivityCfgRep.Schemas = &activity.SchemaConfig{Input: map[string]interface{}{}, Output: map[string]interface{}{}}
	for i, n := range names {
		if has[n] && i < 2 {
			t.ActivityCfgRep.Schemas.Input[n] = map[string]interface{}{"type": "numbers", "value": n}
		} else if has[n] {
			t.ActivityCfgRep.Schemas.Output[n] = map[string]interface{}{"type": "numbers", "value": n}
		}
		if given[n] && i < 2 {
			t.ActivityCfgRep.Input[n] = v[n]
		}
	}
	ran := 0
	*behaviourOf("f", "T1") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		ran++
		for _, n := range names[2:] {
			if given[n] {
				_ = ctx.SetOutput(n, v[n])
			}
		}
		return true, nil
	}}
	inst := newInst(mustDef(&definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{t}}))
	inst.Start(nil)
	vsym.Assert(drive(inst, 10), "run ends")
	bad := func(n string) bool { return has[n] && given[n] && (v[n] < lo[n] || v[n] > hi[n]) }
	in, out := bad("in") || bad("num"), bad("out") || bad("out2")
	vsym.Assert((ran == 1) == !in, "an activity runs exactly if its input matches its schema")
	vsym.Assert((inst.Status() == model.FlowStatusCompleted) == (!in && !out), "a task fails exactly if its values do not match its schemas")
	switch {
	case in:
		vsym.Reach("input")
	case out:
		vsym.Reach("output")
	default:
		vsym.Reach("valid")
	}
}

// C38_Load: a task of the main part or the error handler, with a schema for an input or an output that is malformed in some way, or not, with schemas enabled or not, or validation off.
//
// Reaches: loaded, refused
func C38_Load() {
	_ = schema.RegisterFactory("numbers", numbersFactory{"known": {0, 1}})
	on := vsym.Choice("on", 3)
	if on > 0 {
		schema.Enable()
	}
	if on == 1 {
		schema.DisableValidation()
	}
	var s interface{}
	ok := true
	switch vsym.Choice("schema", 11) {
	case 0:
		s = map[string]interface{}{"type": "numbers", "value": "known"}
	case 1:
		s = map[string]interface{}{"type": "numbers", "value": "unknown"}
		ok = on < 2
	case 2:
		s = map[string]interface{}{"type": "nosuch", "value": "known"}
		ok = on < 2
	case 3:
		s, ok = map[string]interface{}{"type": "numbers"}, false
	case 4:
		s, ok = map[string]interface{}{"value": "known"}, false
	case 5:
		s, ok = map[string]interface{}{"type": 1, "value": "known"}, false
	case 6:
		s, ok = map[string]interface{}{"type": "numbers", "value": vsym.Int("value")}, false
	case 7:
		text := vsym.Str("text", 3)
		s, ok = text, false
	case 8:
		s = "schema://" + vsym.Str("id", 1)
	case 9:
		s = nil
	case 10:
		s, ok = vsym.Int("number"), false
	}
	t := task("T1", "")
	t.ActivityCfgRep.Schemas = &activity.SchemaConfig{}
	if vsym.Choice("output", 2) == 1 {
		t.ActivityCfgRep.Schemas.Output = map[string]interface{}{"out": s}
	} else {
		t.ActivityCfgRep.Schemas.Input = map[string]interface{}{"in": s}
	}
	r := &definition.DefinitionRep{Name: "f"}
	if vsym.Choice("handler", 2) == 1 {
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{t}}
	} else {
		r.Tasks = []*definition.TaskRep{t}
	}
	_, err := definition.NewDefinition(r)
	vsym.Assert((err == nil) == ok, "a flow whose schemas are malformed or unknown is refused")
	if ok {
		vsym.Reach("loaded")
	} else {
		vsym.Reach("refused")
	}
}

// C38_Absent: a task with a schema for its input and one for its output, each of which is a valid number, null or missing; the task
// finishes in the first evaluation, waits for a flow it calls, or is an iteration. Null has to match the schema, too; what is missing has not.
//
// Reaches: valid, input, output, off
func C38_Absent() {
	const valid, null, missing = 0, 1, 2
	in, out, kind := vsym.Choice("in", 3), vsym.Choice("out", 3), vsym.Choice("kind", 3)
	x := vsym.Range("x", -100, 100)
	def, on, _ := switched(numbersFactory{"in": {-100, 100}, "out": {-100, 100}}, func() *definition.DefinitionRep {
		r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("T1", ""), task("T2", "")},
			Links: []*definition.LinkRep{link("T1", "T2", "", "")}}
		inputsOf(r, map[string]interface{}{"x": x, "none": nil})
		cfg := r.Tasks[0].ActivityCfgRep
		switch in {
		case valid:
			cfg.Input = map[string]interface{}{"in": "=$flow.x"}
		case null:
			cfg.Input = map[string]interface{}{"in": "=$flow.none"}
		}
		cfg.Schemas = &activity.SchemaConfig{Input: map[string]interface{}{"in": &schema.Def{Type: "numbers", Value: "in"}}, Output: map[string]interface{}{"out": &schema.Def{Type: "numbers", Value: "out"}}}
		if kind == 2 {
			r.Tasks[0].Type = "iterator"
			r.Tasks[0].Settings = map[string]interface{}{"iterate": 1}
		}
		return r
	})
	set := func(ctx activity.Context) {
		switch out {
		case valid:
			_ = ctx.SetOutput("out", x)
		case null:
			_ = ctx.SetOutput("out", nil)
		}
	}
	ran, ranT2 := 0, 0
	*behaviourOf("f", "T1") = Behaviour{Eval: func(ctx activity.Context) (bool, error) {
		ran++
		if kind == 1 {
			return false, instance.StartSubFlow(ctx, "sub", nil)
		}
		set(ctx)
		return true, nil
	}, Post: func(ctx activity.Context) (bool, error) { set(ctx); return true, nil }}
	*behaviourOf("f", "T2") = Behaviour{Eval: func(ctx activity.Context) (bool, error) { ranT2++; return true, nil }}
	setFlows(provider{"sub": &definition.DefinitionRep{Name: "s", Tasks: []*definition.TaskRep{task("S0", "")}}})
	inst := newInst(def)
	inst.Start(nil)
	vsym.Assert(drive(inst, 30), "run ends")
	vsym.Observe("runs", ran, ranT2, int(inst.Status()))
	done := false
	switch {
	case on && in == null:
		vsym.Reach("input")
		vsym.Assert(ran == 0, "an activity does not run with an input that does not match")
	case on && out == null:
		vsym.Reach("output")
		vsym.Assert(ran == 1, "a task with matching inputs runs")
	default:
		if on {
			vsym.Reach("valid")
		} else {
			vsym.Reach("off")
		}
		done = true
		vsym.Assert(ran == 1, "a task with matching inputs runs")
	}
	vsym.Assert((ranT2 == 1) == done && (inst.Status() == model.FlowStatusCompleted) == done, "a task whose data does not match fails")
}
