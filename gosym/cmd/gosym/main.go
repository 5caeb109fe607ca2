// Command gosym decides one property of project-flogo/flow: it loads the harnesses of the
// property together with the current source of /repo, executes them symbolically, replays
// every counterexample against the natively compiled code and writes the evidence file.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/gosym/vm"
)

var (
	fProp    = flag.String("prop", "", "property identifier")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fRepo    = flag.String("repo", "/repo", "repository")
	fVerif   = flag.String("verif", "/verif", "verification directory")
	fOnly    = flag.String("only", "", "only this harness")
	fReplay  = flag.String("replay", "", "replay a violation file natively and exit")
	fVerbose = flag.Bool("v", false, "verbose")
	fDebug   = flag.Bool("debug", false, "engine debugging")
	fWorkers = flag.Int("j", runtime.NumCPU(), "workers")
	fSolver  = flag.String("solver", "z3", "SMT solver binary")
	fBudget  = flag.Duration("budget", 0, "exploration budget (default per tier)")
	fMaxP    = flag.Int("maxpaths", 0, "stop a harness after that many paths")
	fNoNat   = flag.Bool("nonative", false, "skip native replay (development only)")
	fSamples = flag.Int("samples", 0, "sampled paths per harness validated natively (default per tier)")
)

// harness is one entry point with the directives of its doc comment.
type harness struct {
	fn      *ssa.Function
	name    string
	doc     string
	shards  int
	steps   int
	mapRot  int
	solo    bool
	reach   []string
	env     []string
	tries   int
	timeout time.Duration

	mu      sync.Mutex
	st      vm.Stats
	viol    []*vm.Violation
	samples []vm.PathSample
	funcs   map[string]bool
	q       solverCount
	wall    time.Duration
	skip    bool
}

type solverCount struct {
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
}

func fatal(code int, format string, a ...any) {
	fmt.Printf(format+"\n", a...)
	cleanup()
	os.Exit(code)
}

var tmpDir string

func cleanup() {
	if tmpDir != "" {
		_ = os.RemoveAll(tmpDir)
	}
}

func goEnv(work string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.Index(e, "=")]
		switch k {
		case "GOFLAGS", "GOWORK", "GO111MODULE", "GOPROXY", "GOSUMDB", "GOTOOLCHAIN", "GOOS", "GOARCH":
			continue
		}
		if strings.HasPrefix(k, "FLOGO_") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=", "GOWORK="+work, "GO111MODULE=on", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	start := time.Now()
	if *fReplay != "" {
		os.Exit(replayOnly())
	}
	if *fProp == "" {
		fatal(2, "usage: gosym -prop ID")
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	thorough := *fTier == "thorough"
	budget := *fBudget
	if budget == 0 {
		budget = 240 * time.Second
		if thorough {
			budget = 640 * time.Second
		}
	}
	env := setupWork()
	p, hs := load(env, *fProp+"_")
	if len(hs) == 0 {
		fatal(2, "ERROR: no harness for %s", *fProp)
	}
	loadWall := time.Since(start)
	known := readKnown(*fProp)

	// native replay binary, built concurrently
	bin := filepath.Join(tmpDir, "replay")
	natErr := make(chan error, 1)
	go func() {
		if *fNoNat {
			natErr <- errors.New("native replay disabled")
			return
		}
		natErr <- buildReplay(env, bin, hs)
	}()

	type job struct {
		h     *harness
		shard int
	}
	var jobs []job
	for _, h := range hs {
		if *fOnly != "" && h.name != *fOnly {
			h.skip = true
			continue
		}
		for i := 0; i < h.shards; i++ {
			jobs = append(jobs, job{h, i})
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].h.shards > jobs[j].h.shards })
	var next int32 = -1
	var wg sync.WaitGroup
	expl := time.Now()
	nsamp := *fSamples
	if nsamp == 0 {
		nsamp = 6
		if thorough {
			nsamp = 24
		}
	}
	kn := map[string]bool{}
	for _, k := range known {
		kn[k.id] = true
	}
	tier := 0
	if thorough {
		tier = 1
	}
	for w := 0; w < *fWorkers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt32(&next, 1))
				if i >= len(jobs) {
					return
				}
				j := jobs[i]
				t0 := time.Now()
				s, err := vm.NewSolver(*fSolver, 20000)
				if err != nil {
					fatal(2, "ERROR: solver: %v", err)
				}
				left := budget - time.Since(expl)
				if left < time.Second {
					left = time.Second
				}
				m := vm.NewVM(p, s, vm.Options{
					MaxSteps: j.h.steps, MaxPaths: *fMaxP, MaxDepth: 400, MaxViol: 12,
					Samples: (nsamp + j.h.shards - 1) / j.h.shards, Tier: tier, Known: kn, MapRot: j.h.mapRot,
					Deadline: left, Seed: seed*1000 + int64(i) + 1, Verbose: *fVerbose, Debug: *fDebug,
					ShardN: j.h.shards, ShardI: j.shard,
				})
				for _, e := range j.h.env {
					k, v, _ := strings.Cut(e, "=")
					m.SetEnv(k, v)
				}
				m.Run(j.h.name, j.h.fn)
				s.Close()
				j.h.merge(m, s, time.Since(t0))
			}
		}()
	}
	wg.Wait()
	explWall := time.Since(expl)
	nerr := <-natErr

	rep := &report{prop: *fProp, tier: *fTier, seed: seed, known: known, start: start, loadWall: loadWall, explWall: explWall, bin: bin, natErr: nerr, tierN: tier}
	code := rep.finish(hs)
	cleanup()
	os.Exit(code)
}

func setupWork() []string {
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal(2, "ERROR: %v", err)
	}
	tmpDir = d
	work := filepath.Join(d, "go.work")
	ver := "1.18"
	txt := fmt.Sprintf("go %s\n\nuse (\n\t%s\n\t%s\n\t%s\n)\n", ver, filepath.Join(*fVerif, "harness"), *fRepo, filepath.Join(*fRepo, "activity/subflow"))
	must(os.WriteFile(work, []byte(txt), 0o644))
	// sums of the modules the workspace needs
	var sums []string
	for _, f := range []string{filepath.Join(*fRepo, "go.sum"), filepath.Join(*fRepo, "activity/subflow/go.sum"), filepath.Join(*fVerif, "harness/work.sum")} {
		if b, err := os.ReadFile(f); err == nil {
			sums = append(sums, string(b))
		}
	}
	must(os.WriteFile(filepath.Join(d, "go.work.sum"), []byte(strings.Join(sums, "")), 0o644))
	return goEnv(work)
}

func must(err error) {
	if err != nil {
		fatal(2, "ERROR: %v", err)
	}
}

var directive = regexp.MustCompile(`(?m)^\s*(Shards|Steps|MapRot|Tries|Timeout|Reaches|Env):\s*(.*)$`)

func load(env []string, prefix string) (*vm.Program, []*harness) {
	p, pkgs, err := vm.Load(filepath.Join(*fVerif, "harness"), env, nil, []string{"flowverif/h", "flowverif/vmodel"})
	if err != nil {
		fatal(2, "ERROR: %v", err)
	}
	p.ModPrefix = []string{"flowverif", "github.com/project-flogo"}
	p.FlowPrefix = "github.com/project-flogo/flow"
	const L = "github.com/project-flogo/core/support/log."
	for _, n := range []string{"RootLogger", "ChildLogger", "ChildLoggerWithFields", "CreateLoggerFromRef", "NewLogger", "SetLogLevel", "Sync", "CtxLoggingEnabled", "FieldString"} {
		must(p.Override(L+n, "flowverif/vmodel", n))
	}
	must(p.Override(L+"configureLogging", "flowverif/vmodel", "ConfigureLogging"))
	must(p.Override("(*sync.Pool).Get", "flowverif/vmodel", "PoolGet"))
	must(p.Override("(*sync.Pool).Put", "flowverif/vmodel", "PoolPut"))
	for n, m := range map[string]string{"flowverif/vsym.PutFile": "PutFile", "flowverif/vsym.Serve": "Serve", "os.ReadFile": "ReadFile",
		"net/http.NewRequest": "NewRequest", "(*net/http.Client).Do": "Do", "encoding/json.NewDecoder": "JSONNewDecoder", "(*encoding/json.Decoder).Decode": "JSONDecode",
		"encoding/json.NewEncoder": "JSONNewEncoder", "(*encoding/json.Encoder).Encode": "JSONEncode", "compress/gzip.NewReader": "GzipNewReader", "(*compress/gzip.Reader).Read": "GzipRead",
		"(*compress/gzip.Reader).Close": "GzipClose", "os.Open": "FileOpen", "(*os.File).Read": "FileRead", "(*os.File).Close": "FileClose", "(*os.File).WriteTo": "FileWriteTo",
		"net/http.NewRequestWithContext": "NewRequestWithContext", "time.NewTimer": "NewTimer", "time.AfterFunc": "AfterFunc", "time.After": "After",
		"(*time.Timer).Stop": "TimerStop", "(*time.Timer).Reset": "TimerReset", "time.NewTicker": "NewTicker", "time.Tick": "Tick", "(*time.Ticker).Stop": "TickerStop",
		"(*sync.Map).Load": "MapLoad", "(*sync.Map).Store": "MapStore", "(*sync.Map).Delete": "MapDelete", "(*sync.Map).Clear": "MapClear", "(*sync.Map).LoadOrStore": "MapLoadOrStore",
		"(*sync.Map).LoadAndDelete": "MapLoadAndDelete", "(*sync.Map).Swap": "MapSwap", "(*sync.Map).CompareAndSwap": "MapCompareAndSwap",
		"errors.Join": "Join", "errors.Is": "Is", "fmt.Fprint": "Fprint", "fmt.Fprintf": "Fprintf", "fmt.Fprintln": "Fprintln", "os.Stat": "Stat", "(*sync.Cond).Wait": "CondWait", "(*sync.Cond).Signal": "CondSignal", "(*sync.Cond).Broadcast": "CondBroadcast",
		"(*sync.Map).CompareAndDelete": "MapCompareAndDelete", "(*sync.Map).Range": "MapRange"} {
		must(p.Override(n, "flowverif/vmodel", m))
	}
	var hs []*harness
	for _, pk := range pkgs {
		pk.Build()
		for _, f := range vm.Harnesses(pk, prefix) {
			h := &harness{fn: f, name: f.Name(), shards: 1, steps: 4000000, mapRot: 0, tries: 40, timeout: 5 * time.Second, funcs: map[string]bool{}}
			h.st.Unsupported, h.st.Reached, h.st.Known = map[string]int{}, map[string]int{}, map[string]int{}
			if d, ok := f.Syntax().(*ast.FuncDecl); ok {
				h.doc = strings.TrimSpace(d.Doc.Text())
				ast.Inspect(d, func(n ast.Node) bool {
					if c, ok := n.(*ast.CallExpr); ok {
						if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Reach" && len(c.Args) == 1 {
							if l, ok := c.Args[0].(*ast.BasicLit); ok {
								t, _ := strconv.Unquote(l.Value)
								h.reach = append(h.reach, t)
							}
						}
					}
					return true
				})
			}
			for _, m := range directive.FindAllStringSubmatch(h.doc, -1) {
				n, _ := strconv.Atoi(strings.TrimSpace(m[2]))
				switch m[1] {
				case "Shards":
					h.shards = n
				case "Steps":
					h.steps = n
				case "MapRot":
					h.mapRot = n
				case "Tries":
					h.tries = n
				case "Env":
					h.env = append(h.env, strings.TrimSpace(m[2]))
				case "Timeout":
					h.timeout = time.Duration(n) * time.Second
				case "Reaches":
					for _, l := range strings.Split(m[2], ",") {
						h.reach = append(h.reach, strings.TrimSpace(l))
					}
				}
			}
			h.doc = strings.TrimSpace(directive.ReplaceAllString(h.doc, ""))
			if strings.Contains(h.doc, "Tier: thorough") {
				if *fTier != "thorough" && *fOnly != h.name {
					continue
				}
			}
			hs = append(hs, h)
		}
	}
	return p, hs
}

func (h *harness) merge(m *vm.VM, s *vm.Solver, d time.Duration) {
	h.mu.Lock()
	defer h.mu.Unlock()
	a, b := &h.st, &m.St
	a.Paths += b.Paths
	a.PathsOK += b.PathsOK
	a.AssumeFail += b.AssumeFail
	a.Limit += b.Limit
	a.Asserts += b.Asserts
	a.AssertConc += b.AssertConc
	a.AssertSym += b.AssertSym
	a.AssertUnknown += b.AssertUnknown
	a.Choices += b.Choices
	a.Steps += b.Steps
	if b.MaxDepth > a.MaxDepth {
		a.MaxDepth = b.MaxDepth
	}
	a.Truncated = a.Truncated || b.Truncated
	for k, v := range b.Unsupported {
		a.Unsupported[k] += v
	}
	for k, v := range b.Reached {
		a.Reached[k] += v
	}
	for k, v := range b.Known {
		a.Known[k] += v
	}
	h.viol = append(h.viol, m.Viol...)
	h.samples = append(h.samples, m.Samples...)
	for _, f := range m.FuncNames("github.com/project-flogo/flow") {
		h.funcs[f] = true
	}
	h.q.Queries += s.Queries
	h.q.Sat += s.Sat
	h.q.Unsat += s.Unsat
	h.q.Unknown += s.Unknown
	h.q.Time += s.Time
	h.wall += d
}

// ---------- native replay ----------

func buildReplay(env []string, bin string, hs []*harness) error {
	var sb bytes.Buffer
	sb.WriteString("package main\n\nimport \"flowverif/h\"\n\nvar table = map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t%q: h.%s,\n", h.name, h.name)
	}
	sb.WriteString("}\n")
	tf := filepath.Join(tmpDir, "table.go")
	if err := os.WriteFile(tf, sb.Bytes(), 0o644); err != nil {
		return err
	}
	ov := filepath.Join(tmpDir, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(*fVerif, "harness/cmd/replay/table.go"): tf}})
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return err
	}
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, "flowverif/cmd/replay")
	cmd.Dir = filepath.Join(*fVerif, "harness")
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

type natRun struct {
	code int
	head string
	obs  []string
	out  string
}

func runNative(bin, name string, in []vm.ReplayInput, tier int, known []knownF, timeout time.Duration, henv []string) natRun {
	f, err := os.CreateTemp(tmpDir, "in*.json")
	if err != nil {
		return natRun{code: 99, head: err.Error()}
	}
	b, _ := json.Marshal(map[string]any{"inputs": in})
	_, _ = f.Write(b)
	_ = f.Close()
	defer os.Remove(f.Name())
	var ks []string
	for _, k := range known {
		ks = append(ks, k.id)
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout+5*time.Second)
	defer cancel()
	wd, err := os.MkdirTemp(tmpDir, "wd")
	if err != nil {
		return natRun{code: 99, head: err.Error()}
	}
	defer os.RemoveAll(wd)
	cmd := exec.CommandContext(ctx, bin, "-harness", name, "-file", f.Name(), "-tier", strconv.Itoa(tier), "-known", strings.Join(ks, ","), "-timeout", timeout.String())
	cmd.Dir = wd
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "FLOGO_") {
			env = append(env, e)
		}
	}
	cmd.Env = append(append(env, "FLOGO_LOG_LEVEL=ERROR", "GOMAXPROCS=2"), henv...)
	out, err := cmd.CombinedOutput()
	r := natRun{out: string(out)}
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			r.code = ee.ExitCode()
		} else {
			r.code = 99
		}
	}
	for _, l := range strings.Split(string(out), "\n") {
		switch {
		case strings.HasPrefix(l, "OBS "):
			r.obs = append(r.obs, l[4:])
		case strings.HasPrefix(l, "OK"), strings.HasPrefix(l, "ASSERTION-FAILED"), strings.HasPrefix(l, "TIMEOUT"), strings.HasPrefix(l, "panic:"), strings.HasPrefix(l, "fatal error:"), strings.HasPrefix(l, "DIVERGED"), strings.HasPrefix(l, "ASSUMPTION"):
			if r.head == "" {
				r.head = l
			}
		}
	}
	return r
}

// reproduces tells whether a native run shows the violation.
func reproduces(v *vm.Violation, r natRun) bool {
	switch v.Kind {
	case "assert":
		return r.code == 3
	case "panic":
		return r.code == 2 && (strings.HasPrefix(r.head, "panic:") || strings.HasPrefix(r.head, "fatal error:"))
	case "deadlock":
		return r.code == 6 || (r.code == 2 && strings.Contains(r.head, "deadlock"))
	}
	return false
}

type knownF struct{ id, text string }

func knownFile() string { return filepath.Join(*fVerif, "KNOWN_FINDINGS.txt") }

func readKnown(prop string) []knownF {
	b, err := os.ReadFile(knownFile())
	if err != nil {
		return nil
	}
	var out []knownF
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		rest, ok := strings.CutPrefix(l, "known: property="+prop+" ")
		if !ok {
			continue
		}
		id, text, _ := strings.Cut(strings.TrimSpace(rest), " ")
		out = append(out, knownF{id, text})
	}
	return out
}

func replayOnly() int {
	b, err := os.ReadFile(*fReplay)
	must(err)
	var v struct {
		Property string
		Tier     int
		vm.Violation
	}
	must(json.Unmarshal(b, &v))
	env := setupWork()
	defer cleanup()
	_, hs := load(env, v.Harness)
	bin := filepath.Join(tmpDir, "replay")
	must(buildReplay(env, bin, hs))
	var henv []string
	for _, h := range hs {
		if h.name == v.Harness {
			henv = h.env
		}
	}
	for i := 0; i < 200; i++ {
		r := runNative(bin, v.Harness, v.Inputs, v.Tier, readKnown(v.Property), 5*time.Second, henv)
		if reproduces(&v.Violation, r) {
			fmt.Print(r.out)
			fmt.Println("REPRODUCED", v.Label)
			return 1
		}
	}
	fmt.Println("NOT REPRODUCED")
	return 0
}
