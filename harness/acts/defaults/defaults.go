// Package defaults holds an activity with defaults for an input and an output.
package defaults

import (
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/metadata"
)

// Activity is that activity.
type Activity struct{}

// Eval is what it does.
var Eval = func(ctx activity.Context) (bool, error) { return true, nil }

var md = &activity.Metadata{IOMetadata: &metadata.IOMetadata{
	Input:  map[string]data.TypedValue{"in": data.NewAttribute("in", data.TypeAny, nil), "def": data.NewAttribute("def", data.TypeAny, 5)},
	Output: map[string]data.TypedValue{"out": data.NewAttribute("out", data.TypeAny, 9)},
}}

func init() { _ = activity.Register(&Activity{}) }

// Metadata implements activity.Activity.
func (*Activity) Metadata() *activity.Metadata { return md }

// Eval implements activity.Activity.
func (a *Activity) Eval(ctx activity.Context) (bool, error) { return Eval(ctx) }
