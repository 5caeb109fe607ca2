package h

import (
	"flowverif/vsym"

	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/state/change"
)

// combined checks the combination of records against a wanted state.
func combined(steps []*state.Step, want *st) {
	before := []*state.Step{}
	for _, s := range steps {
		before = append(before, copyOf(s))
	}
	snap := state.StepsToSnapshot("inst", steps)
	vsym.Assert(snap != nil && snap.Id == "inst", "a snapshot names its flow instance")
	sameState(shown(snap), want, "the combined records give the state of the instance")
	vsym.Assert(len(steps) == len(before), "combining records does not change them")
	for i, s := range steps {
		unchanged(s, before[i], "combining records does not change them")
	}
	again := state.StepsToSnapshot("inst", steps)
	sameState(shown(again), want, "combining records again gives the same state")
}

// C17_Runs: the flows of C16_Records: the combination of all records made so far is the state of the instance, after every step.
//
// Shards: 4
// Timeout: 300
// Env: FLOGO_FLOW_SM_ENDPOINT=x
// Reaches: subflow active, failed
func C17_Runs() {
	recorded(recFlow(false), state.RecordingModeStep, map[string]interface{}{"x": vsym.Int("x")}, 40, func(inst *instance.IndependentInstance, steps []*state.Step) {
		snap := inst.Snapshot()
		if len(snap.Subflows) > 1 {
			vsym.Reach("subflow active")
		}
		if inst.Status() == model.FlowStatusFailed {
			vsym.Reach("failed")
		}
		combined(steps, shown(snap))
	})
}

// C17_Sequences: sequences of 3 (thorough 4) records, each of which changes the main flow and may start, change or end one of
// two subflows, with any status, changes of two attributes, additions, updates and deletions of two tasks and two
// links with any status, and additions and deletions of two pieces of work; in any order that a run could give.
//
// Shards: 8
// Timeout: 300
func C17_Sequences() {
	unnamedWork = true
	n := 3 + vsym.Tier()
	what := vsym.Choice("what", 4) // what changes, so that the cases stay few
	flow := vsym.Choice("flow", 3) // 0: the main flow, 1: a subflow, 2: a subflow of the subflow
	var steps []*state.Step
	have := []bool{false, false}
	ended := false
	for i := 0; i < n; i++ {
		s := &state.Step{Id: i, FlowId: "inst", FlowChanges: map[int]*change.Flow{}, QueueChanges: map[int]*change.Queue{}}
		if i == 0 {
			s.FlowChanges[0] = &change.Flow{NewFlow: true, FlowURI: "main", Status: 100}
			if flow > 0 {
				s.FlowChanges[1] = &change.Flow{NewFlow: true, FlowURI: "sub", SubflowId: 1, TaskId: "host"}
			}
			if flow > 1 {
				s.FlowChanges[2] = &change.Flow{NewFlow: true, FlowURI: "leaf", SubflowId: 2, TaskId: "inner", Status: 100}
			}
		}
		c := s.FlowChanges[flow]
		if c == nil && vsym.Choice("touched", 2) == 1 {
			c = &change.Flow{SubflowId: flow, TaskId: "other", FlowURI: "other"}
			s.FlowChanges[flow] = c
		}
		if c != nil && !ended {
			switch what {
			case 0:
				if vsym.Choice("status", 2) == 1 {
					c.Status = vsym.Range("st", 1, 800)
					ended = c.Status >= int(model.FlowStatusCompleted)
				}
				for _, a := range []string{"a", "b"} {
					switch vsym.Choice("attr", 3) {
					case 1:
						c.Attrs = addAttr(c.Attrs, a, vsym.Int("value"))
					case 2:
						c.Attrs = addAttr(c.Attrs, a, nil)
					}
				}
			case 1:
				for j, t := range []string{"t", "u"} {
					if k := vsym.Choice("task", 4); k > 0 {
						vsym.Assume(have[j] == (k != 1))
						have[j] = k != 3
						if c.Tasks == nil {
							c.Tasks = map[string]*change.Task{}
						}
						c.Tasks[t] = &change.Task{ChgType: change.Type(k - 1), Status: vsym.Range("ts", 0, 100)}
					}
				}
			case 2:
				for j := range have {
					if k := vsym.Choice("link", 4); k > 0 {
						vsym.Assume(have[j] == (k != 1))
						have[j] = k != 3
						if c.Links == nil {
							c.Links = map[int]*change.Link{}
						}
						c.Links[j] = &change.Link{ChgType: change.Type(k - 1), Status: vsym.Range("ls", 0, 3)}
					}
				}
			}
		}
		if what == 3 {
			for j := range have {
				if vsym.Choice("work", 2) == 1 {
					q := &change.Queue{SubflowId: flow, TaskId: "t"}
					if have[j] {
						q = &change.Queue{ChgType: change.Delete}
						if j == 0 {
							q.SubflowId, q.TaskId = flow, "t"
						}
					}
					have[j] = !have[j]
					s.QueueChanges[j+1] = q
				}
			}
		}
		steps = append(steps, s)
	}
	combined(steps, replayed(steps))
}

func addAttr(m map[string]interface{}, n string, v interface{}) map[string]interface{} {
	if m == nil {
		m = map[string]interface{}{}
	}
	m[n] = v
	return m
}

// C17_SameIds: the flows of C15_SameIds, as C17_Runs.
//
// Env: FLOGO_FLOW_SM_ENDPOINT=x
// Reaches: same ids
func C17_SameIds() {
	main, p, _ := sameIds(func(string) {})
	named(mustDef(main), p)
	recorded(main, state.RecordingModeStep, nil, 40, func(inst *instance.IndependentInstance, steps []*state.Step) { combined(steps, shown(inst.Snapshot())) })
}
