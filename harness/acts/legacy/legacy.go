// Package legacy holds an activity that is registered the deprecated way.
package legacy

import (
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/metadata"
)

// Activity is that activity.
type Activity struct{}

// Eval is what it does.
var Eval = func(ctx activity.Context) (bool, error) { return true, nil }

// Ref is the reference of the activity.
const Ref = "flowverif/acts/legacy"

var md = &activity.Metadata{IOMetadata: &metadata.IOMetadata{
	Input:  map[string]data.TypedValue{"in": data.NewAttribute("in", data.TypeAny, nil)},
	Output: map[string]data.TypedValue{"out": data.NewAttribute("out", data.TypeAny, nil), "num": data.NewAttribute("num", data.TypeInt, nil)},
}, Settings: map[string]data.TypedValue{"own": data.NewAttribute("own", data.TypeInt, nil)}}

func init() { _ = activity.LegacyRegister(Ref, &Activity{}) }

// Metadata implements activity.Activity.
func (*Activity) Metadata() *activity.Metadata { return md }

// Eval implements activity.Activity.
func (a *Activity) Eval(ctx activity.Context) (bool, error) { return Eval(ctx) }
