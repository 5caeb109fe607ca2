// Package shared holds an activity all tasks share, that has to be cleaned up.
package shared

import "github.com/project-flogo/core/activity"

// Activity is that activity.
type Activity struct{}

// Cleaned is the number of times it was cleaned up.
var Cleaned int

var md = &activity.Metadata{}

func init() { _ = activity.Register(&Activity{}) }

// Metadata implements activity.Activity.
func (*Activity) Metadata() *activity.Metadata { return md }

// Eval implements activity.Activity.
func (*Activity) Eval(ctx activity.Context) (bool, error) { return true, nil }

// Cleanup implements support.NeedsCleanup.
func (*Activity) Cleanup() error { Cleaned++; return nil }
