// Package life holds an activity that is made by a factory, can be reconfigured and has to be cleaned up.
package life

import (
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
)

// Activity is that activity.
type Activity struct{ Name, Host string }

// Made is called when an activity is made, Reconfigured and Cleaned when it is told so.
var (
	Made         = func(ctx activity.InitContext) error { return nil }
	Reconfigured = func(a *Activity, settings map[string]interface{}) error { return nil }
	Cleaned      = func(a *Activity) error { return nil }
	Eval         = func(a *Activity, ctx activity.Context) (bool, error) { return true, nil }
)

var md = &activity.Metadata{Settings: map[string]data.TypedValue{
	"num": data.NewTypedValue(data.TypeInt, nil), "any": data.NewTypedValue(data.TypeAny, nil)}}

func init() {
	_ = activity.Register(&Activity{}, func(ctx activity.InitContext) (activity.Activity, error) {
		return &Activity{ctx.Name(), ctx.HostName()}, Made(ctx)
	})
}

// Metadata implements activity.Activity.
func (*Activity) Metadata() *activity.Metadata { return md }

// Eval implements activity.Activity.
func (a *Activity) Eval(ctx activity.Context) (bool, error) { return Eval(a, ctx) }

// Cleanup implements support.NeedsCleanup.
func (a *Activity) Cleanup() error { return Cleaned(a) }

// Reconfigure implements activity.ReconfigurableActivity.
func (a *Activity) Reconfigure(settings map[string]interface{}) error {
	return Reconfigured(a, settings)
}
