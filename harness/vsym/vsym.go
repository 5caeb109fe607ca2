// Package vsym is the interface between harnesses and the two worlds that run them: the
// symbolic VM (which intercepts every function here) and the native replay binary (which
// feeds recorded concrete values).
package vsym

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

// RuntimeError is the run-time panic value raised by symbolically executed code.
type RuntimeError struct{ Msg string }

func (e RuntimeError) Error() string {
	if strings.HasPrefix(e.Msg, "interface conversion: ") || strings.HasPrefix(e.Msg, "assignment to ") {
		return e.Msg
	}
	return "runtime error: " + e.Msg
}
func (e RuntimeError) RuntimeError() {}

// Input is one recorded nondeterministic value.
type Input struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Int  int64  `json:"int"`
	Str  string `json:"str,omitempty"`
}

// Exit codes of a native replay.
const (
	ExitOK       = 0
	ExitViolated = 3
	ExitAssume   = 4
	ExitDiverged = 5
)

var (
	mu     sync.Mutex
	inputs []Input
	pos    int
	tier   int
	known  map[string]bool
	obs    []string
)

// Load prepares a native run.
func Load(in []Input, t int, kn map[string]bool) {
	waitMark = time.Now()
	inputs, pos, tier, known, obs = in, 0, t, kn, nil
}

// Observations returns what the run observed.
func Observations() []string {
	mu.Lock()
	defer mu.Unlock()
	return append([]string(nil), obs...)
}

// LoadFile reads a replay file.
func LoadFile(f string) ([]Input, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	var r struct {
		Inputs []Input `json:"inputs"`
	}
	return r.Inputs, json.Unmarshal(b, &r)
}

func exit(code int, msg string) {
	Cleanup()
	mu.Lock()
	fmt.Println(msg)
	for _, o := range obs {
		fmt.Println("OBS " + o)
	}
	os.Exit(code)
}

func next(name string) Input {
	mu.Lock()
	if pos >= len(inputs) {
		mu.Unlock()
		exit(ExitDiverged, "DIVERGED: no recorded value for "+name)
	}
	in := inputs[pos]
	pos++
	mu.Unlock()
	if in.Name != name {
		exit(ExitDiverged, "DIVERGED: asked for "+name+", recorded "+in.Name)
	}
	return in
}

// Int is an arbitrary int.
func Int(name string) int { return int(next(name).Int) }

// Int64 is an arbitrary int64.
func Int64(name string) int64 { return next(name).Int }

// Int32 is an arbitrary int32.
func Int32(name string) int32 { return int32(next(name).Int) }

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(next(name).Int) }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return next(name).Int != 0 }

// Range is an arbitrary int in [lo,hi].
func Range(name string, lo, hi int) int { return int(next(name).Int) }

// Choice is an arbitrary int in [0,n); the symbolic run explores each value separately.
func Choice(name string, n int) int { return int(next(name).Int) }

// Str is an arbitrary printable ASCII string of length n.
func Str(name string, n int) string { return next(name).Str }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		exit(ExitAssume, "ASSUMPTION-FAILED")
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		exit(ExitViolated, "ASSERTION-FAILED "+label)
	}
}

// AssertKnown is Assert, except that violations inside class belong to the known finding kf.
func AssertKnown(kf string, class, c bool, label string) {
	if !c && !(class && known[kf]) {
		exit(ExitViolated, "ASSERTION-FAILED "+label)
	}
}

// Reach marks a point the exploration must reach (vacuity guard).
func Reach(label string) {}

// Tier is 0 for quick and 1 for thorough runs.
func Tier() int { return tier }

// Symbolic tells whether the run is symbolic.
func Symbolic() bool { return false }

// MapOrder switches nondeterministic iteration order of maps ranged over by flow code.
func MapOrder(on bool) {}

// Observe records values for comparison between the symbolic and the native run.
func Observe(label string, vs ...any) {
	s := label
	for _, v := range vs {
		s += " " + render(v)
	}
	mu.Lock()
	obs = append(obs, s)
	mu.Unlock()
}

func render(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint(x)
	case string:
		return fmt.Sprintf("%q", x)
	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("<%T>", v)
}

// Setenv sets an environment variable.
func Setenv(k, v string) { _ = os.Setenv(k, v) }

// Unsetenv removes an environment variable.
func Unsetenv(k string) { _ = os.Unsetenv(k) }

// Yield lets other goroutines run until they block.
func Yield() { time.Sleep(30 * time.Millisecond) }

// Debug prints in verbose symbolic runs.
func Debug(vs ...any) {}

// SortStrings sorts in place (kept here so that harness oracles do not depend on library models).
func SortStrings(s []string) { sort.Strings(s) }

var waitMark = time.Now()

// Waited tells whether the code under test has slept for ms milliseconds in total since the last
// call (natively up to 0.3 s more, for the time everything else takes).
func Waited(ms int) bool {
	d := time.Since(waitMark).Milliseconds()
	waitMark = time.Now()
	return d >= int64(ms) && d < int64(ms)+300
}

// Gzip compresses.
func Gzip(b []byte) []byte {
	var o bytes.Buffer
	w := gzip.NewWriter(&o)
	_, _ = w.Write(b)
	_ = w.Close()
	return o.Bytes()
}

var scratch string

// Cleanup removes what the run left on disk.
func Cleanup() {
	if scratch != "" {
		_ = os.RemoveAll(scratch)
	}
}

// PutFile makes a file in a scratch directory and returns its URI.
func PutFile(name string, b []byte) string {
	if scratch == "" {
		scratch, _ = os.MkdirTemp("", "flowverif")
	}
	f := scratch + "/" + name
	_ = os.WriteFile(f, b, 0600)
	return "file://" + f
}

// Serve answers requests for a path on the loopback network and returns its URI.
func Serve(path string, answer func() (status int, header, value string, body []byte)) string {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path != "/"+path || r.Method != "GET" {
			w.WriteHeader(404)
			return
		}
		st, h, v, b := answer()
		if h != "" {
			w.Header().Set(h, v)
		}
		w.WriteHeader(st)
		_, _ = w.Write(b)
	}))
	return s.URL + "/" + path
}
