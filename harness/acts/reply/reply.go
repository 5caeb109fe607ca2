// Package reply holds an activity that declares that it is a reply.
package reply

import "github.com/project-flogo/core/activity"

// Activity is that activity.
type Activity struct{}

var md = &activity.Metadata{}

func init() { _ = activity.Register(&Activity{}) }

// Metadata implements activity.Activity.
func (*Activity) Metadata() *activity.Metadata { return md }

// Details implements activity.HasDetails.
func (*Activity) Details() *activity.Details { return &activity.Details{IsReply: true} }

// Eval implements activity.Activity.
func (*Activity) Eval(ctx activity.Context) (bool, error) { return true, nil }
