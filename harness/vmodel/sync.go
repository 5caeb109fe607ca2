package vmodel

import (
	"reflect"
	"sync"
	"time"
)

var syncMaps map[*sync.Map]map[any]any

func syncMap(m *sync.Map) map[any]any {
	if syncMaps == nil {
		syncMaps = map[*sync.Map]map[any]any{}
	}
	r := syncMaps[m]
	if r == nil {
		r = map[any]any{}
		syncMaps[m] = r
	}
	return r
}

// Models of the methods of sync.Map.
func MapLoad(m *sync.Map, k any) (any, bool) { v, ok := syncMap(m)[k]; return v, ok }
func MapStore(m *sync.Map, k, v any)         { syncMap(m)[k] = v }
func MapDelete(m *sync.Map, k any)           { delete(syncMap(m), k) }
func MapClear(m *sync.Map)                   { delete(syncMaps, m) }
func MapLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	if w, ok := syncMap(m)[k]; ok {
		return w, true
	}
	syncMap(m)[k] = v
	return v, false
}
func MapLoadAndDelete(m *sync.Map, k any) (any, bool) {
	v, ok := syncMap(m)[k]
	delete(syncMap(m), k)
	return v, ok
}
func MapSwap(m *sync.Map, k, v any) (any, bool) {
	w, ok := syncMap(m)[k]
	syncMap(m)[k] = v
	return w, ok
}
func MapCompareAndSwap(m *sync.Map, k, old, v any) bool {
	w, ok := syncMap(m)[k]
	if !ok || w != old {
		return false
	}
	syncMap(m)[k] = v
	return true
}
func MapCompareAndDelete(m *sync.Map, k, old any) bool {
	w, ok := syncMap(m)[k]
	if !ok || w != old {
		return false
	}
	delete(syncMap(m), k)
	return true
}
func MapRange(m *sync.Map, f func(k, v any) bool) {
	for k, v := range syncMap(m) {
		if !f(k, v) {
			return
		}
	}
}

// timer is the state of a time.Timer or time.Ticker; it elapses when nothing else can run.
type timer struct {
	run int // the run of it that counts
	f   func()
	c   chan time.Time
	on  bool
}

var timers map[*time.Timer]*timer

func (t *timer) start(d time.Duration) {
	t.run++
	t.on = true
	run := t.run
	go func() {
		if t.run != run {
			return
		}
		time.Sleep(d)
		t.on = false
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- time.Now():
		default:
		}
	}()
}

func (t *timer) stop() bool {
	was := t.on
	t.run, t.on = t.run+1, false
	return was
}

func newTimer(d time.Duration, f func()) *time.Timer {
	m := &timer{f: f, c: make(chan time.Time, 1)}
	t := &time.Timer{C: m.c}
	if timers == nil {
		timers = map[*time.Timer]*timer{}
	}
	timers[t] = m
	m.start(d)
	return t
}

// Models of functions of package time.
func NewTimer(d time.Duration) *time.Timer            { return newTimer(d, nil) }
func AfterFunc(d time.Duration, f func()) *time.Timer { return newTimer(d, f) }
func After(d time.Duration) <-chan time.Time          { return newTimer(d, nil).C }
func TimerStop(t *time.Timer) bool                    { return timers[t].stop() }
func TimerReset(t *time.Timer, d time.Duration) bool {
	m := timers[t]
	was := m.stop()
	m.start(d)
	return was
}

var tickers map[*time.Ticker]*bool

func NewTicker(d time.Duration) *time.Ticker {
	c := make(chan time.Time)
	t := &time.Ticker{C: c}
	stopped := new(bool)
	if tickers == nil {
		tickers = map[*time.Ticker]*bool{}
	}
	tickers[t] = stopped
	go func() {
		for !*stopped {
			c <- time.Now()
			time.Sleep(d)
		}
	}()
	return t
}
func TickerStop(t *time.Ticker)             { *tickers[t] = true }
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

var waiting map[*sync.Cond][]chan bool

// Models of the methods of sync.Cond.
func CondWait(c *sync.Cond) {
	if waiting == nil {
		waiting = map[*sync.Cond][]chan bool{}
	}
	w := make(chan bool, 1)
	waiting[c] = append(waiting[c], w)
	c.L.Unlock()
	<-w
	c.L.Lock()
}

func CondSignal(c *sync.Cond) {
	if l := waiting[c]; len(l) > 0 {
		waiting[c] = l[1:]
		l[0] <- true
	}
}

func CondBroadcast(c *sync.Cond) {
	l := waiting[c]
	delete(waiting, c)
	for _, w := range l {
		w <- true
	}
}

type joined struct{ errs []error }

func (e *joined) Unwrap() []error { return e.errs }
func (e *joined) Error() string {
	s := ""
	for i, err := range e.errs {
		if i > 0 {
			s += "\n"
		}
		s += err.Error()
	}
	return s
}

// Join models errors.Join.
func Join(errs ...error) error {
	var l []error
	for _, e := range errs {
		if e != nil {
			l = append(l, e)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return &joined{l}
}

// Is models errors.Is.
func Is(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return is(err, target, reflect.TypeOf(target).Comparable())
}

func is(err, target error, comparable bool) bool {
	for {
		if comparable && reflect.TypeOf(err) == reflect.TypeOf(target) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			if err = x.Unwrap(); err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if is(e, target, comparable) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}
