// Package vmodel holds models that replace environment code (logging, pools) in symbolic runs.
package vmodel

import (
	"sync"

	"github.com/project-flogo/core/support/log"
)

// Nop is a logger that drops everything.
type Nop struct{}

func (Nop) DebugEnabled() bool                { return false }
func (Nop) TraceEnabled() bool                { return false }
func (Nop) Trace(a ...interface{})            {}
func (Nop) Debug(a ...interface{})            {}
func (Nop) Info(a ...interface{})             {}
func (Nop) Warn(a ...interface{})             {}
func (Nop) Error(a ...interface{})            {}
func (Nop) Tracef(t string, a ...interface{}) {}
func (Nop) Debugf(t string, a ...interface{}) {}
func (Nop) Infof(t string, a ...interface{})  {}
func (Nop) Warnf(t string, a ...interface{})  {}
func (Nop) Errorf(t string, a ...interface{}) {}
func (Nop) Structured() log.StructuredLogger  { return NopS{} }

// NopS is the structured counterpart.
type NopS struct{}

func (NopS) Debug(m string, f ...log.Field) {}
func (NopS) Info(m string, f ...log.Field)  {}
func (NopS) Warn(m string, f ...log.Field)  {}
func (NopS) Error(m string, f ...log.Field) {}

// Models of the core logging functions.
func RootLogger() log.Logger                                        { return Nop{} }
func ChildLogger(l log.Logger, name string) log.Logger              { return Nop{} }
func ChildLoggerWithFields(l log.Logger, f ...log.Field) log.Logger { return Nop{} }
func CreateLoggerFromRef(l log.Logger, t, ref string) log.Logger    { return Nop{} }
func NewLogger(name string) log.Logger                              { return Nop{} }
func SetLogLevel(l log.Logger, level log.Level)                     {}
func Sync()                                                         {}
func CtxLoggingEnabled() bool                                       { return false }
func ConfigureLogging()                                             {}
func FieldString(k, v string) log.Field                             { return nil }

// PoolGet models (*sync.Pool).Get: nothing is ever retained.
func PoolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

// PoolPut models (*sync.Pool).Put.
func PoolPut(p *sync.Pool, x any) {}
