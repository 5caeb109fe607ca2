package h

import (
	"encoding/json"
	"strconv"

	"flowverif/acts/reply"
	"flowverif/acts/ret"
	"flowverif/vsym"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/metadata"
	"github.com/project-flogo/core/support"
	"github.com/project-flogo/flow/definition"
	flowsupport "github.com/project-flogo/flow/support"
)

func init() {
	_ = support.RegisterAlias("activity", "h", StubRef)
}

// someLink describes a link with any kind, value, label and ends, the latter out of names.
func someLink(names ...string) *definition.LinkRep {
	l := &definition.LinkRep{Type: linkKinds[vsym.Choice("kind", len(linkKinds))].text}
	l.FromID, l.ToID = names[vsym.Choice("from", len(names))], names[vsym.Choice("to", len(names))]
	l.Value = []string{"", "c", "bad c"}[vsym.Choice("value", 3)]
	if vsym.Bool("labelled") {
		l.Label = vsym.Str("label", 2)
	}
	return l
}

var linkKinds = []struct {
	text string
	kind definition.LinkType
}{
	{"", definition.LtDependency}, {"default", definition.LtDependency}, {"dependency", definition.LtDependency}, {"0", definition.LtDependency},
	{"expression", definition.LtExpression}, {"1", definition.LtExpression}, {"label", definition.LtLabel}, {"2", definition.LtLabel},
	{"error", definition.LtError}, {"3", definition.LtError}, {"exprOtherwise", definition.LtExprOtherwise}, {"4", definition.LtExprOtherwise},
	{"strange", definition.LtDependency}, {"Expression", definition.LtDependency},
}

func kindOf(l *definition.LinkRep) definition.LinkType {
	for _, k := range linkKinds {
		if k.text == l.Type {
			return k.kind
		}
	}
	return -1
}

// linkOK tells whether a link can be loaded next to the tasks.
func linkOK(l *definition.LinkRep, tasks []*definition.TaskRep) bool {
	from, to := false, false
	for _, t := range tasks {
		from = from || t.ID == l.FromID
		to = to || t.ID == l.ToID
	}
	return from && to && (kindOf(l) != definition.LtExpression || l.Value != "" && l.Value != "bad c")
}

// sameLink tells whether a link is as described.
func sameLink(l *definition.Link, r *definition.LinkRep) bool {
	if (l.Expr() != nil) != (kindOf(r) == definition.LtExpression) {
		return false
	}
	if l.Expr() != nil {
		if v, err := l.Expr().Eval(nil); err != nil || v != "value of "+r.Value {
			return false
		}
	}
	return l.Type() == kindOf(r) && l.Value() == r.Value && l.Label() == r.Label && l.FromTask().ID() == r.FromID && l.ToTask().ID() == r.ToID
}

// checkLinks compares the links of some tasks with the description: those of each task, in order.
func checkLinks(get func(id string) *definition.Task, byID func(id int) *definition.Link, tasks []*definition.TaskRep, links []*definition.LinkRep, seen map[int]bool) {
	for _, t := range tasks {
		to, from := get(t.ID).ToLinks(), get(t.ID).FromLinks()
		for _, l := range links {
			if l.FromID == t.ID {
				vsym.Assert(len(to) > 0 && sameLink(to[0], l), "the links of a task are as described and in order")
				vsym.Assert(to[0].FromTask() == get(l.FromID) && to[0].ToTask() == get(l.ToID), "a link joins the tasks of its flow")
				vsym.Assert(!seen[to[0].ID()], "every link has an id of its own")
				seen[to[0].ID()] = true
				vsym.Assert(byID(to[0].ID()) == to[0], "a link is found under its id")
				to = to[1:]
			}
			if l.ToID == t.ID {
				vsym.Assert(len(from) > 0 && sameLink(from[0], l), "the links to a task are as described and in order")
				vsym.Assert(from[0].FromTask() == get(l.FromID) && from[0].ToTask() == get(l.ToID), "a link joins the tasks of its flow")
				from = from[1:]
			}
		}
		vsym.Assert(len(to) == 0 && len(from) == 0, "a task has no other links")
	}
}

// checkDef compares a definition with its description.
func checkDef(d *definition.Definition, r *definition.DefinitionRep) {
	vsym.Assert(d.Name() == r.Name && d.ModelID() == r.ModelID && d.Metadata() == r.Metadata, "the flow has its name, model and metadata")
	vsym.Assert(len(d.Tasks()) == len(r.Tasks) && len(d.Links()) == len(r.Links), "the flow has the described tasks and links and no others")
	for _, t := range r.Tasks {
		checkTask(d.GetTask(t.ID), t)
	}
	seen := map[int]bool{}
	checkLinks(d.GetTask, d.GetLink, r.Tasks, r.Links, seen)
	vsym.Assert((d.GetErrorHandler() != nil) == (r.ErrorHandler != nil), "the flow has an error handler if one is described")
	if h := d.GetErrorHandler(); h != nil {
		vsym.Assert(len(h.Tasks()) == len(r.ErrorHandler.Tasks), "the error handler has the described tasks and no others")
		for _, t := range r.ErrorHandler.Tasks {
			checkTask(h.GetTask(t.ID), t)
		}
		checkLinks(h.GetTask, h.GetLink, r.ErrorHandler.Tasks, r.ErrorHandler.Links, seen)
	}
}

func checkTask(t *definition.Task, r *definition.TaskRep) {
	vsym.Assert(t != nil && t.ID() == r.ID && t.Name() == r.Name && t.TypeID() == r.Type, "a task has its id, name and type")
	vsym.Assert((t.ActivityConfig() != nil) == (r.ActivityCfgRep != nil), "a task has an activity if one is described")
}

// twice loads a description two times: it is rejected both times or not at all.
func twice(r *definition.DefinitionRep) (*definition.Definition, *definition.Definition) {
	d, err := definition.NewDefinition(r)
	d2, err2 := definition.NewDefinition(r)
	vsym.Assert((err == nil) == (err2 == nil), "loading again gives the same")
	if err != nil {
		vsym.Reach("rejected")
		return nil, nil
	}
	vsym.Reach("loaded")
	return d, d2
}

func valueExprs(names ...string) {
	for _, n := range names {
		n := n
		exprs[n] = func(data.Scope) (interface{}, error) { return "value of " + n, nil }
	}
}

// C20_Links: two tasks, a link between them and up to two more (thorough: three) of any kind with any
// value, any label and any ends, one of which may be no task; the additional links belong to the
// main flow or, with two tasks of its own, the error handler.
//
// Shards: 6
// Reaches: loaded, rejected
func C20_Links() {
	valueExprs("c")
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("A", ""), task("B", "")}}
	r.Links = []*definition.LinkRep{link("A", "B", "label", "first")}
	n := 1 + vsym.Choice("links", 1+vsym.Tier())
	if vsym.Bool("handler") {
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("G", ""), task("H", "")}}
		r.ErrorHandler.Links = []*definition.LinkRep{link("G", "H", "", "")}
		for i := 0; i < n; i++ {
			r.ErrorHandler.Links = append(r.ErrorHandler.Links, someLink("H", "G", "A"))
		}
	} else {
		for i := 0; i < n; i++ {
			r.Links = append(r.Links, someLink("B", "A", "none"))
		}
	}
	ok := true
	for _, l := range r.Links {
		ok = ok && linkOK(l, r.Tasks)
	}
	if r.ErrorHandler != nil {
		for _, l := range r.ErrorHandler.Links {
			ok = ok && linkOK(l, r.ErrorHandler.Tasks)
		}
	}
	d, d2 := twice(r)
	vsym.Assert((d != nil) == ok, "a flow is loaded exactly if its links can be")
	if d != nil {
		checkDef(d, r)
		checkDef(d2, r)
	}
}

// someActivity describes an activity in any form; ok tells whether it can be loaded.
func someActivity() (c *activity.Config, ok, ends bool) {
	switch vsym.Choice("activity", 10) {
	case 1:
		return &activity.Config{Ref: "#h"}, true, false
	case 2:
		return &activity.Config{Type: "h"}, true, false
	case 3:
		return &activity.Config{Ref: StubRef, Type: "other"}, true, false
	case 4:
		return &activity.Config{Ref: activity.GetRef(&ret.Activity{})}, true, true
	case 5:
		return &activity.Config{Ref: activity.GetRef(&reply.Activity{})}, true, true
	case 6:
		return &activity.Config{Ref: "#nosuch"}, false, false
	case 7:
		return &activity.Config{Ref: "no/such/activity"}, false, false
	case 8:
		return &activity.Config{}, false, false
	case 9:
		return nil, false, false
	}
	return &activity.Config{Ref: StubRef}, true, false
}

// C20_Tasks: two tasks and maybe one of an error handler; one of them, in any position, has any id and
// type and any activity: by reference, alias, old-style type, with or without details, unknown,
// unnamed or none; the model is the default one, the simple one or unknown, and the flow asks for
// explicit replies or not.
//
// Shards: 6
// Reaches: loaded, rejected
func C20_Tasks() {
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("A", ""), task("B", "")}}
	r.ModelID = []string{"", "flogo-simple", "nosuch"}[vsym.Choice("model", 3)]
	r.ExplicitReply = vsym.Bool("explicit")
	where := r.Tasks
	if vsym.Bool("handler") {
		where = []*definition.TaskRep{task("A", ""), task("B", "")}
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: where}
	}
	t := where[vsym.Choice("position", 2)]
	t.ID = []string{"A", "B", "C"}[vsym.Choice("id", 3)]
	t.Type = []string{"", "basic", "iterator", "doWhile", "nosuch"}[vsym.Choice("type", 5)]
	t.Name = "the name"
	c, ok, ends := someActivity()
	t.ActivityCfgRep = c
	ok = ok && t.Type != "nosuch" && (r.ModelID != "nosuch" || t.Type == "")
	ok = ok && where[0].ID != where[1].ID
	d, d2 := twice(r)
	vsym.Assert((d != nil) == ok, "a flow is loaded exactly if its tasks can be")
	if d == nil {
		return
	}
	for _, d := range []*definition.Definition{d, d2} {
		checkDef(d, r)
		vsym.Assert(d.ExplicitReply() == (r.ExplicitReply || ends), "a flow that ends or answers explicitly is one with explicit replies")
		u := d.GetTask(t.ID)
		if r.ErrorHandler != nil {
			u = d.GetErrorHandler().GetTask(t.ID)
		}
		if c != nil {
			want := StubRef
			if ends {
				want = c.Ref
			}
			vsym.Assert(u.ActivityConfig().Ref() == want, "a task has the activity it names")
			vsym.Assert(u.ActivityConfig().Name == "the name" && u.ActivityConfig().HostName == "f", "the activity knows its task and flow")
		}
	}
}

// C20_Values: an activity with a setting and literal inputs: a number given as an int, as text of two
// arbitrary characters or none, or as something else, and any other value, declared or not; the activity gets
// exactly those values.
//
// Shards: 2
// Reaches: loaded, rejected
func C20_Values() {
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("A", "")}}
	c := r.Tasks[0].ActivityCfgRep
	n := vsym.Int("n")
	var num interface{}
	ok := true
	var want interface{} = n
	switch vsym.Choice("number", 6) {
	case 0:
		num = n
	case 5:
		num, ok = "", false
	case 1:
		b := vsym.Str("text", 2)
		num = b
		ok = b[0] >= '0' && b[0] <= '9' && b[1] >= '0' && b[1] <= '9' || (b[0] == '-' || b[0] == '+') && b[1] >= '0' && b[1] <= '9'
		vsym.Assume(b[0] != '=')
		if ok {
			w, _ := strconv.Atoi(b)
			want = w
		}
	case 2:
		num, ok = []interface{}{1}, false
	case 3:
		num, want = nil, nil
	case 4:
		num, want = true, 1
	}
	any := someAny(n)
	c.Input = map[string]interface{}{"num": num, "in": any, "undeclared": any}
	c.Settings = map[string]interface{}{"s": any}
	d, d2 := twice(r)
	vsym.Assert((d != nil) == ok, "a flow is loaded exactly if its values are of their types")
	if d == nil {
		return
	}
	for _, d := range []*definition.Definition{d, d2} {
		cfg := d.GetTask("A").ActivityConfig()
		got, err := cfg.InputMapper().Apply(data.NewSimpleScope(nil, nil))
		vsym.Assert(err == nil && len(got) <= 3, "the inputs are mapped")
		if want == nil {
			vsym.Assert(got["num"] == nil || got["num"] == 0, "nothing stays nothing")
		} else {
			vsym.Assert(got["num"] == want, "the number is the one given")
		}
		vsym.Assert(same(got["in"], any) && same(got["undeclared"], any), "any value is passed on")
		s, has := cfg.GetSetting("s")
		vsym.Assert(has && same(s, any), "a setting has its value")
	}
}

func someAny(n int) interface{} {
	switch vsym.Choice("any", 5) {
	case 1:
		return "text"
	case 2:
		return []interface{}{n, "x"}
	case 3:
		return map[string]interface{}{"k": n}
	case 4:
		return nil
	}
	return n
}

// odd is something in the place of something else.
func odd() interface{} {
	switch vsym.Choice("odd", 8) {
	case 1:
		return 7
	case 2:
		return true
	case 3:
		return "text"
	case 4:
		return []interface{}{}
	case 5:
		return []interface{}{nil}
	case 6:
		return map[string]interface{}{}
	case 7:
		return ""
	}
	return nil
}

// C20_Text: the text of a flow resource in which any one element is replaced by something else, left
// out or unchanged; nothing panics, it is rejected or loaded, and unchanged it is loaded as described.
//
// Shards: 6
// Reaches: loaded, rejected, unchanged
func C20_Text() {
	valueExprs("c")
	type m = map[string]interface{}
	type l = []interface{}
	act := m{"ref": StubRef, "settings": m{"s": "v"}, "input": m{"num": 3, "in": "=$flow.x"}, "output": m{"num": 4}}
	settings := m{"iterate": "=$flow.x", "accumulate": true, "delay": 0, "retryOnError": m{"count": 1, "interval": 2}}
	ta := m{"id": "A", "name": "first", "activity": act}
	tb := m{"id": "B", "name": "second", "type": "iterator", "settings": settings, "activity": m{"ref": "#h"}}
	ln := m{"from": "A", "to": "B", "type": "expression", "value": "c", "label": "l"}
	eh := m{"tasks": l{m{"id": "H", "activity": m{"ref": StubRef}}}, "links": l{}}
	in := m{"name": "x", "type": "any"}
	md := m{"input": l{in}, "output": l{m{"name": "y", "type": "string"}}}
	top := m{"name": "f", "model": "flogo-simple", "metadata": md, "tasks": l{ta, tb}, "links": l{ln}, "errorHandler": eh}
	places := []struct {
		m   m
		key string
	}{
		{top, "name"}, {top, "model"}, {top, "metadata"}, {top, "tasks"}, {top, "links"}, {top, "errorHandler"}, {top, "explicitReply"},
		{ta, "id"}, {ta, "activity"}, {ta, "name"}, {ta, "settings"}, {ta, "type"},
		{act, "ref"}, {act, "settings"}, {act, "input"}, {act, "output"}, {act, "schemas"}, {act, "type"},
		{tb, "settings"}, {settings, "iterate"}, {settings, "accumulate"}, {settings, "delay"}, {settings, "retryOnError"}, {settings, "condition"},
		{settings, "doWhile"}, {settings, "loopConfig"},
		{ln, "from"}, {ln, "to"}, {ln, "type"}, {ln, "value"},
		{eh, "tasks"}, {eh, "links"}, {in, "name"}, {in, "type"}, {md, "input"}, {md, "output"},
	}
	p := places[vsym.Choice("place", len(places))]
	changed := vsym.Choice("change", 3)
	var text interface{} = top
	switch changed {
	case 1:
		delete(p.m, p.key)
	case 2:
		p.m[p.key] = odd()
	}
	bytes, err := json.Marshal(text)
	if err != nil {
		panic(err)
	}
	res, err := (&flowsupport.FlowLoader{}).LoadResource(&resource.Config{ID: "flow:f", Data: bytes})
	if err != nil {
		vsym.Reach("rejected")
		vsym.Assert(changed != 0, "a good flow is loaded")
		return
	}
	vsym.Reach("loaded")
	d, ok := res.Object().(*definition.Definition)
	vsym.Assert(ok && d != nil, "what is loaded is a flow")
	if changed != 0 {
		return
	}
	vsym.Reach("unchanged")
	checkDef(d, &definition.DefinitionRep{Name: "f", ModelID: "flogo-simple", Metadata: d.Metadata(),
		Tasks:        []*definition.TaskRep{{ID: "A", Name: "first", ActivityCfgRep: &activity.Config{}}, {ID: "B", Name: "second", Type: "iterator", ActivityCfgRep: &activity.Config{}}},
		Links:        []*definition.LinkRep{{FromID: "A", ToID: "B", Type: "expression", Value: "c", Label: "l"}},
		ErrorHandler: &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{{ID: "H", ActivityCfgRep: &activity.Config{}}}}})
	checkMd(d.Metadata())
	lc := d.GetTask("B").LoopConfig()
	vsym.Assert(lc != nil && lc.Accumulate() && lc.GetIterateOn() != nil && d.GetTask("B").RetryOnErrConfig() != nil, "a task has its settings")
	vsym.Assert(d.GetTask("A").LoopConfig() == nil && d.GetTask("A").RetryOnErrConfig() == nil, "and only those")
}

func checkMd(md *metadata.IOMetadata) {
	vsym.Assert(len(md.Input) == 1 && md.Input["x"].Type() == data.TypeAny, "the inputs are as described")
	vsym.Assert(len(md.Output) == 1 && md.Output["y"].Type() == data.TypeString, "the outputs are as described")
}

// C20_Ids: two tasks with up to 6 links between them, and an error handler of two tasks with up to 4 links between them.
//
// Reaches: loaded
func C20_Ids() {
	r := &definition.DefinitionRep{Name: "f", Tasks: []*definition.TaskRep{task("A", ""), task("B", "")}}
	for i, n := 0, vsym.Choice("links", 7); i < n; i++ {
		l := link("A", "B", "label", "v"+strconv.Itoa(i))
		l.Label = vsym.Str("label", 2)
		r.Links = append(r.Links, l)
	}
	r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: []*definition.TaskRep{task("G", ""), task("H", "")}}
	for i, n := 0, vsym.Choice("handlerLinks", 5); i < n; i++ {
		l := link("H", "G", "label", "w"+strconv.Itoa(i))
		l.Label = vsym.Str("label", 2)
		r.ErrorHandler.Links = append(r.ErrorHandler.Links, l)
	}
	d, d2 := twice(r)
	vsym.Assert(d != nil, "a good flow is loaded")
	checkDef(d, r)
	checkDef(d2, r)
}
