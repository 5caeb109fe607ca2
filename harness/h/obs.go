package h

import (
	"context"

	"flowverif/vsym"
	"github.com/project-flogo/core/support/trace"
	"github.com/project-flogo/core/trigger"
)

// span is one span given to the tracer.
type span struct {
	id       int
	op       string
	tags     map[string]interface{}
	parent   *span
	finished int
	err      error
}

func (s *span) TraceObject() interface{} { return s }
func (s *span) SetTags(tags map[string]interface{}) bool {
	for k, v := range tags {
		s.tags[k] = v
	}
	return true
}
func (s *span) SetTag(k string, v interface{}) bool   { s.tags[k] = v; return true }
func (s *span) LogKV(kvs map[string]interface{}) bool { return true }
func (s *span) TraceID() string                       { return "trace" }
func (s *span) SpanID() string                        { return "span" + string(rune('a'+s.id%26)) }

// tracer keeps all spans.
// within is the span in the context flows are run with, if there is one.
var within *span

func runContext() context.Context {
	ctx := context.Background()
	if forEvent != "" {
		ctx = trigger.NewContextWithEventId(ctx, forEvent)
	}
	if within == nil {
		return ctx
	}
	return trace.AppendTracingContext(ctx, within)
}

// forEvent is the id of the event flows are run for, if any.
var forEvent string

// namesEvent checks that the span of a flow tells the event it is run for.
func (t *tracer) namesEvent(flow string) {
	for _, sp := range t.spans {
		if sp.tags["task_name"] != nil || sp.op != flow {
			continue
		}
		if forEvent == "" {
			vsym.Assert(sp.tags["flogo_event_id"] == nil, "the span of a flow tells the event it is run for, if any")
		} else {
			vsym.Assert(sp.tags["flogo_event_id"] == forEvent, "the span of a flow tells the event it is run for, if any")
		}
	}
}

type tracer struct {
	spans   []*span
	foreign int // spans finished that were not started here
}

func (t *tracer) Start() error { return nil }
func (t *tracer) Stop() error  { return nil }
func (t *tracer) Name() string { return "h" }
func (t *tracer) Extract(trace.CarrierFormat, interface{}) (trace.TracingContext, error) {
	return nil, nil
}
func (t *tracer) Inject(trace.TracingContext, trace.CarrierFormat, interface{}) error { return nil }
func (t *tracer) StartTrace(c trace.Config, parent trace.TracingContext) (trace.TracingContext, error) {
	s := &span{id: len(t.spans), op: c.Operation, tags: map[string]interface{}{}}
	for k, v := range c.Tags {
		s.tags[k] = v
	}
	if parent != nil {
		s.parent, _ = parent.(*span)
	}
	t.spans = append(t.spans, s)
	return s, nil
}
func (t *tracer) FinishTrace(c trace.TracingContext, err error) error {
	s, _ := c.(*span)
	if s == nil {
		t.foreign++
		return nil
	}
	s.finished++
	s.err = err
	return nil
}
