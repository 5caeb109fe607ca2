package vm

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Program is the loaded SSA program shared by all VMs.
type Program struct {
	SSA       *ssa.Program
	mu        sync.Mutex
	codes     sync.Map // *ssa.Function -> *Code
	globals   map[*ssa.Global]int
	globList  []*ssa.Global
	methods   sync.Map // methKey -> *ssa.Function (or nil)
	rtErrType types.Type
	taErrType types.Type
	rtypePtr  types.Type
	errStrPtr types.Type
	overrides map[string]*ssa.Function
	nextCode  int64
	ModPrefix []string // module path prefixes whose packages are initialised eagerly
	FlowPrefix string
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

var (
	canonMu    sync.Mutex
	canonMap   typeutil.Map
	canonCache sync.Map
)

// canon maps identical types to one representative.
func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := canonCache.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	c := canonMap.At(t)
	if c == nil {
		canonMap.Set(t, t)
		c = t
	}
	canonCache.Store(t, c)
	return c.(types.Type)
}

// Frame is one activation record. Only vm code mutates it; snapshots deep-copy it.
type Frame struct {
	code     *Code
	regs     []Val
	pc       int
	prevPC   int
	dst      int // result register in the caller, -1 none
	isDefer  bool
	mode     int8 // 0 normal, 1 unwinding (running defers because of a panic)
	recov    bool
	panicVal Val
	defers   []deferRec
	allocs   bool
}

type deferRec struct {
	fn   *Fn
	args []Val
}

type Gor struct {
	id      int
	frames  []*Frame
	blocked func(vm *VM) bool // nil = runnable; returns true when it can run again
	why     string
	done    bool
}

type undo struct {
	p   *Val
	old Val
	f   func()
}

type altRec struct {
	dec  int
	cons *Expr
}

type choicePoint struct {
	gors    []*Gor
	cur     int
	trail   int
	pc      int
	inputs  int
	obs     int
	dec     []int
	alts    []altRec
	next    int
	sc      scalars
	why     string
	fnname  string
}

// scalars are small path-local counters saved by value.
type scalars struct {
	steps     int
	nGor      int
	clock     int64
	symSeq    int
	mapForks  int
	model     map[string]int64
	preempts  int
	loopWarn  bool
	depth     int
	forkDepth int
	hash      uint64
}

type Input struct {
	Kind  string
	Name  string
	E     Val // *Expr, int64, bool, or SymStr
	W     int
}

type Obs struct {
	Label string
	Vals  []Val
}

type Violation struct {
	Harness string           `json:"harness"`
	Label   string           `json:"label"`
	Kind    string           `json:"kind"`
	Msg     string           `json:"msg"`
	Known   string           `json:"known,omitempty"`
	Inputs  []ReplayInput    `json:"inputs"`
	Where   string           `json:"where"`
	Trace   []string         `json:"observations,omitempty"`
}

type ReplayInput struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Int  int64  `json:"int"`
	Str  string `json:"str,omitempty"`
}

type PathSample struct {
	Inputs []ReplayInput `json:"inputs"`
	Obs    []string      `json:"obs"`
}

// Stats of one exploration.
type Stats struct {
	Paths        int
	PathsOK      int
	AssumeFail   int
	Unsupported  map[string]int
	Limit        int
	Asserts      int
	AssertConc   int
	AssertSym    int
	AssertUnknown int
	Choices      int
	Steps        int64
	Reached      map[string]int
	Funcs        map[*Code]bool
	MaxDepth     int
	Known        map[string]int
	Truncated    bool
}

type VM struct {
	P       *Program
	T       *exprTab
	S       *Solver
	globals []*Val
	inited  map[*ssa.Package]int
	gors    []*Gor
	cur     int
	g       *Gor
	trail   []undo
	pc      []*Expr
	inputs  []Input
	obs     []Obs
	dec     []int
	decPos  int
	cps     []*choicePoint
	sc      scalars
	perm    bool // running package initialisers: no trail, no forks
	curPC   int
	Opt     Options
	St      Stats
	Viol    []*Violation
	Samples []PathSample
	harness string
	env     map[string]Val
	inNest  int
	preNext *choicePoint
	forcedPrefix []int
	choiceLog []int
	sampleRng uint64
	deadline time.Time
	fnStack []string
	natFn   map[string]*Fn
	extra   map[string]any
	blockReq bool
	curTop  *Frame
	StopReq *int32
	dbgTrace bool
	mapRotOn bool
}

type Options struct {
	MaxSteps   int
	MaxPaths   int
	MaxDepth   int
	MaxViol    int
	Samples    int
	Tier       int
	Known      map[string]bool
	SchedForks int // max preemptive/choice scheduling forks per path
	MapRot     int // max nondeterministic map ranges per path in flow code
	Deadline   time.Duration
	Seed       int64
	Verbose    bool
	Debug      bool
	ShardN     int // this VM explores only the paths of shard ShardI of ShardN
	ShardI     int
}

// shardDepth is the number of forks after which a path belongs to one shard.
const shardDepth = 8

// descend accounts for taking alternative i of a fork; false when the subtree belongs to
// another shard.
func (vm *VM) descend(i int) bool {
	vm.sc.forkDepth++
	if vm.sc.forkDepth > shardDepth {
		return true
	}
	vm.sc.hash = (vm.sc.hash*31 + uint64(i) + 1) * 0x9E3779B97F4A7C15
	return vm.sc.forkDepth < shardDepth || vm.ownShard()
}

func (vm *VM) ownShard() bool {
	return vm.Opt.ShardN <= 1 || int((vm.sc.hash>>33)%uint64(vm.Opt.ShardN)) == vm.Opt.ShardI
}

func NewVM(p *Program, s *Solver, opt Options) *VM {
	vm := &VM{P: p, T: newExprTab(), S: s, inited: map[*ssa.Package]int{}, Opt: opt, env: map[string]Val{}, natFn: map[string]*Fn{}, extra: map[string]any{}}
	vm.St.Unsupported = map[string]int{}
	vm.St.Reached = map[string]int{}
	vm.St.Known = map[string]int{}
	vm.St.Funcs = map[*Code]bool{}
	vm.sampleRng = uint64(opt.Seed)*2654435761 + 88172645463325252
	return vm
}

// ---------- heap ----------

func (vm *VM) set(p *Val, v Val) {
	if len(vm.cps) > 0 && !vm.perm {
		vm.trail = append(vm.trail, undo{p: p, old: *p})
	}
	*p = v
}

func (vm *VM) onUndo(f func()) {
	if len(vm.cps) > 0 && !vm.perm {
		vm.trail = append(vm.trail, undo{f: f})
	}
}

func (vm *VM) store(p *Val, v Val) {
	if p == nil {
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch old := (*p).(type) {
	case structV:
		nv, ok := v.(structV)
		if !ok || len(nv) != len(old) {
			unsupported("store shape mismatch %T", v)
		}
		for i := range old {
			vm.store(&old[i], nv[i])
		}
	case arrayV:
		nv, ok := v.(arrayV)
		if !ok || len(nv) != len(old) {
			unsupported("store shape mismatch %T", v)
		}
		for i := range old {
			vm.store(&old[i], nv[i])
		}
	default:
		vm.set(p, v)
	}
}

func (vm *VM) load(p *Val) Val {
	if p == nil {
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	return copyVal(*p)
}

// ---------- panics raised by interpreted code ----------

type goPanic struct{ v Val }

func (vm *VM) rtPanic(msg string) {
	panic(goPanic{iface{vm.P.rtErrType, structV{msg}}})
}

// SetEnv sets an environment variable before anything runs.
func (vm *VM) SetEnv(k, v string) { vm.env[k] = v }

// ---------- globals / init ----------

func (p *Program) globalIndex(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.globList)
	p.globals[g] = i
	p.globList = append(p.globList, g)
	return i
}

func (vm *VM) globalPtr(i int, g *ssa.Global) *Val {
	if i < len(vm.globals) {
		if c := vm.globals[i]; c != nil {
			return c
		}
	} else {
		n := make([]*Val, i+64)
		copy(n, vm.globals)
		vm.globals = n
	}
	vm.ensureInit(g.Pkg)
	if vm.globals[i] == nil {
		if g.Pkg.Pkg.Path() == "os" && strings.HasPrefix(g.Name(), "Err") {
			// the errors of package os that are those of io/fs
			if fs := g.Pkg.Prog.ImportedPackage("io/fs"); fs != nil {
				if o := fs.Var(g.Name()); o != nil {
					c := vm.globalPtr(vm.P.globalIndex(o), o)
					vm.globals[i] = c
					return c
				}
			}
		}
		c := new(Val)
		*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
		vm.globals[i] = c
	}
	return vm.globals[i]
}

var noInit = map[string]bool{"runtime": true, "reflect": true, "os": true, "syscall": true, "internal/poll": true, "net": true, "net/http": true,
	"crypto/tls": true, "encoding/json": true, "internal/godebug": true, "internal/reflectlite": true, "unsafe": true, "internal/cpu": true,
	"internal/bisect": true, "internal/testlog": true, "internal/oserror": false, "sync": true, "internal/sync": true, "log": true, "math/rand": true, "encoding/gob": true}

func (vm *VM) ensureInit(pkg *ssa.Package) {
	if pkg == nil || vm.inited[pkg] != 0 {
		return
	}
	vm.inited[pkg] = 1
	if noInit[pkg.Pkg.Path()] || strings.HasPrefix(pkg.Pkg.Path(), "go.uber.org/zap") || strings.HasPrefix(pkg.Pkg.Path(), "crypto/") || strings.HasPrefix(pkg.Pkg.Path(), "net/") && pkg.Pkg.Path() != "net/url" && pkg.Pkg.Path() != "net/textproto" || strings.HasPrefix(pkg.Pkg.Path(), "vendor/") {
		return
	}
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	vm.runNested(fn)
	vm.inited[pkg] = 2
}

// runNested runs fn to completion in permanent mode (package initialisation).
func (vm *VM) runNested(fn *ssa.Function) {
	saveG, saveCur, saveGg, savePerm, savePC, saveSteps := vm.gors, vm.cur, vm.g, vm.perm, vm.curPC, vm.sc.steps
	saveDec, saveDP := vm.dec, vm.decPos
	vm.perm = true
	g := &Gor{id: 0}
	vm.gors = []*Gor{g}
	vm.cur = 0
	vm.g = g
	vm.inNest++
	func() {
		defer func() {
			vm.inNest--
			if r := recover(); r != nil {
				vm.gors, vm.cur, vm.g, vm.perm, vm.curPC, vm.sc.steps = saveG, saveCur, saveGg, savePerm, savePC, saveSteps
				vm.dec, vm.decPos = saveDec, saveDP
				vm.inited[fn.Pkg] = 0
				if pe, ok := r.(pathEnd); ok {
					panic(pathEnd{"unsupported", "init of " + fn.Pkg.Pkg.Path() + ": " + pe.kind + " " + pe.msg})
				}
				panic(r)
			}
		}()
		vm.call(&Fn{code: vm.P.codeOf(fn)}, nil, -1)
		vm.loop(true)
	}()
	vm.gors, vm.cur, vm.g, vm.perm, vm.curPC, vm.sc.steps = saveG, saveCur, saveGg, savePerm, savePC, saveSteps
	vm.dec, vm.decPos = saveDec, saveDP
}

// ---------- calls ----------

func (vm *VM) call(fn *Fn, args []Val, dst int) {
	if fn == nil {
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	if fn.nat != nil {
		r := fn.nat(vm, args)
		if _, fb := r.(fallback); !fb {
			vm.setDst(dst, r)
			return
		}
		if fn.code == nil {
			unsupported("native %s: symbolic arguments", fn.name)
		}
	}
	c := fn.code
	if !c.compiled.Load() {
		vm.P.compile(c)
	}
	if c.nat != nil && fn.nat == nil {
		r := c.nat(vm, args)
		if _, fb := r.(fallback); !fb {
			vm.setDst(dst, r)
			return
		}
	}
	if c.ins == nil {
		unsupported("function without body: %s", c.name)
	}
	if c.isInit {
		// package initialiser called from another one: run once, lazily for library packages
		if vm.inited[c.fn.Pkg] != 0 && c.fn.Pkg.Func("init") == c.fn && len(vm.g.frames) > 0 {
			return
		}
		if len(vm.g.frames) > 0 {
			eager := false
			for _, p := range vm.P.ModPrefix {
				if strings.HasPrefix(c.fn.Pkg.Pkg.Path(), p) {
					eager = true
				}
			}
			if !eager {
				return
			}
			vm.inited[c.fn.Pkg] = 1
		}
	}
	if len(vm.g.frames) > vm.Opt.MaxDepth {
		panic(pathEnd{"limit", "call depth"})
	}
	if !vm.St.Funcs[c] {
		vm.St.Funcs[c] = true
	}
	fr := &Frame{code: c, dst: dst}
	fr.regs = make([]Val, c.nregs)
	copy(fr.regs, args)
	copy(fr.regs[c.nparams:], fn.free)
	vm.g.frames = append(vm.g.frames, fr)
}

func (vm *VM) setDst(dst int, r Val) {
	if dst >= 0 {
		f := vm.g.frames[len(vm.g.frames)-1]
		f.regs[dst] = r
	}
}

type fallback struct{}

// doReturn pops the current frame delivering result r.
func (vm *VM) doReturn(r Val) {
	g := vm.g
	f := g.frames[len(g.frames)-1]
	g.frames[len(g.frames)-1] = nil
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		g.done = true
		return
	}
	p := g.frames[len(g.frames)-1]
	if f.isDefer {
		if p.mode == 1 {
			vm.continueUnwind()
		}
		// otherwise the parent re-executes its RunDefers instruction
		return
	}
	if f.dst >= 0 {
		p.regs[f.dst] = r
	}
}

func (vm *VM) startPanic(v Val) {
	f := vm.g.frames[len(vm.g.frames)-1]
	f.mode = 1
	f.recov = false
	f.panicVal = v
	vm.continueUnwind()
}

func (vm *VM) continueUnwind() {
	g := vm.g
	for {
		f := g.frames[len(g.frames)-1]
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			if d.fn != nil && d.fn.nat != nil || (d.fn != nil && d.fn.code != nil && vm.natOf(d.fn.code) != nil) {
				// native deferred call (mutex unlock and the like)
				func() {
					defer func() {
						if r := recover(); r != nil {
							if gp, ok := r.(goPanic); ok {
								f.recov = false
								f.panicVal = gp.v
								return
							}
							panic(r)
						}
					}()
					vm.call(d.fn, d.args, -1)
				}()
				continue
			}
			if d.fn == nil {
				f.recov = false
				f.panicVal = iface{vm.P.rtErrType, structV{"invalid memory address or nil pointer dereference"}}
				continue
			}
			vm.call(d.fn, d.args, -1)
			g.frames[len(g.frames)-1].isDefer = true
			return
		}
		if f.recov {
			f.mode = 0
			f.recov = false
			f.panicVal = nil
			if f.code.recoverPC >= 0 {
				f.pc = f.code.recoverPC
				return
			}
			res := f.code.fn.Signature.Results()
			switch res.Len() {
			case 0:
				vm.doReturn(nil)
			case 1:
				vm.doReturn(zero(res.At(0).Type()))
			default:
				vm.doReturn(zero(res))
			}
			return
		}
		pv := f.panicVal
		isDef := f.isDefer
		g.frames = g.frames[:len(g.frames)-1]
		if len(g.frames) == 0 {
			g.done = true
			panic(pathEnd{"panic", "uncaught panic: " + describePanic(vm, pv)})
		}
		p := g.frames[len(g.frames)-1]
		_ = isDef
		p.mode = 1
		p.recov = false
		p.panicVal = pv
	}
}

func (vm *VM) natOf(c *Code) func(vm *VM, args []Val) Val {
	if !c.compiled.Load() {
		vm.P.compile(c)
	}
	return c.nat
}

func describePanic(vm *VM, v Val) string {
	if i, ok := v.(iface); ok && i.t != nil {
		return i.t.String() + ": " + describe(i.v, 0)
	}
	return describe(v, 0)
}

// ---------- forking ----------

func copyGors(gs []*Gor) []*Gor {
	out := make([]*Gor, len(gs))
	for i, g := range gs {
		ng := &Gor{id: g.id, blocked: g.blocked, why: g.why, done: g.done}
		ng.frames = make([]*Frame, len(g.frames), len(g.frames)+8)
		for j, f := range g.frames {
			nf := *f
			nf.regs = append([]Val(nil), f.regs...)
			if len(f.defers) > 0 {
				nf.defers = append([]deferRec(nil), f.defers...)
			}
			ng.frames[j] = &nf
		}
		out[i] = ng
	}
	return out
}

func (vm *VM) snapshot(alts []altRec, why string) {
	cp := &choicePoint{cur: vm.cur, trail: len(vm.trail), pc: len(vm.pc), inputs: len(vm.inputs), obs: len(vm.obs), alts: alts, sc: vm.sc, why: why}
	cp.gors = copyGors(vm.gors)
	if vm.cur >= 0 && vm.cur < len(cp.gors) {
		g := cp.gors[vm.cur]
		if n := len(g.frames); n > 0 {
			g.frames[n-1].pc = vm.curPC
		}
	}
	cp.dec = append([]int(nil), vm.dec[:vm.decPos]...)
	vm.cps = append(vm.cps, cp)
	vm.St.Choices++
	if len(vm.cps) > vm.St.MaxDepth {
		vm.St.MaxDepth = len(vm.cps)
	}
}

// enter goes on with the first alternative after a snapshot.
func (vm *VM) enter() {
	if !vm.descend(0) {
		panic(pathEnd{"othershard", ""})
	}
}

// fork returns one of n alternatives (all explored); no constraint attached.
func (vm *VM) fork(n int, why string) int {
	if n <= 1 {
		return 0
	}
	if vm.decPos < len(vm.dec) {
		d := vm.dec[vm.decPos]
		vm.decPos++
		return d
	}
	if vm.perm {
		unsupported("fork during init")
	}
	alts := make([]altRec, 0, n-1)
	for i := 1; i < n; i++ {
		alts = append(alts, altRec{dec: i})
	}
	vm.snapshot(alts, why)
	vm.dec = append(vm.dec, 0)
	vm.decPos++
	vm.enter()
	return 0
}

func (vm *VM) addPC(e *Expr) { vm.pc = append(vm.pc, e) }

// feas decides whether pc /\ c is satisfiable, using the current model first.
func (vm *VM) feas(c *Expr) (bool, map[string]int64) {
	if c.isConst() {
		return c.K != 0, vm.sc.model
	}
	if vm.sc.model != nil && c.eval(vm.sc.model, map[*Expr]int64{}) != 0 {
		return true, vm.sc.model
	}
	r, m := vm.S.Check(vm.pc, c)
	switch r {
	case RSat:
		return true, m
	case RUnsat:
		return false, nil
	}
	panic(pathEnd{"unknown", "solver answered unknown on a branch"})
}

// branch decides a boolean, forking when both outcomes are feasible.
func (vm *VM) branch(c Val, why string) bool {
	switch x := c.(type) {
	case bool:
		return x
	case *Expr:
		if x.isConst() {
			return x.K != 0
		}
		if vm.decPos < len(vm.dec) {
			d := vm.dec[vm.decPos]
			vm.decPos++
			return d == 1
		}
		if vm.perm {
			unsupported("symbolic branch during init")
		}
		okT, mT := vm.feas(x)
		nx := vm.T.Not(x)
		okF, mF := vm.feas(nx)
		if okT && okF {
			vm.snapshot([]altRec{{dec: 0, cons: nx}}, why)
			vm.dec = append(vm.dec, 1)
			vm.decPos++
			vm.addPC(x)
			vm.cps[len(vm.cps)-1].sc.model = mF
			vm.sc.model = mT
			vm.enter()
			return true
		}
		if okT {
			vm.dec = append(vm.dec, 1)
			vm.decPos++
			vm.sc.model = mT
			return true
		}
		if okF {
			vm.dec = append(vm.dec, 0)
			vm.decPos++
			vm.sc.model = mF
			return false
		}
		panic(pathEnd{"assume", "infeasible"})
	}
	panic(fmt.Sprintf("branch on %T", c))
}

// concretize enumerates the feasible values of an integer expression.
func (vm *VM) concInt(v Val, w int, signed bool) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Expr:
		if x.isConst() {
			return normInt(x.K, w, signed)
		}
		for n := 0; n < 4096; n++ {
			// candidate from the model: deterministic given the same pc prefix and decisions
			var cand int64
			if vm.decPos < len(vm.dec) {
				// replaying: the candidate was recorded as decision -1000-k pairs
				cand = int64(vm.dec[vm.decPos])
				vm.decPos++
			} else {
				if vm.sc.model == nil {
					r, m := vm.S.Check(vm.pc, nil)
					if r != RSat {
						panic(pathEnd{"unknown", "no model"})
					}
					vm.sc.model = m
				}
				cand = x.eval(vm.sc.model, map[*Expr]int64{})
				vm.dec = append(vm.dec, int(cand))
				vm.decPos++
			}
			if vm.branch(vm.T.Eq(x, vm.T.BV(cand, x.W)), "concretize") {
				return normInt(cand, w, signed)
			}
		}
		panic(pathEnd{"limit", "concretisation"})
	}
	panic(fmt.Sprintf("concInt %T", v))
}

// ---------- main loop ----------

type blockGor struct {
	pred func(vm *VM) bool
	why  string
}

// loop runs until the current goroutine set finishes (nested: goroutine 0 done).
func (vm *VM) loop(nested bool) {
	for {
		if vm.segment() {
			return
		}
	}
}

// segment runs instructions; returns true when the main goroutine is done.
func (vm *VM) segment() (fin bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case goPanic:
				vm.startPanicAt(x.v)
				fin = false
			case blockGor:
				g := vm.g
				g.frames[len(g.frames)-1].pc = vm.curPC
				g.blocked = x.pred
				g.why = x.why
				fin = false
			default:
				panic(r)
			}
		}
	}()
	for {
		g := vm.g
		if g == nil || g.done || g.blocked != nil {
			if vm.gors[0].done {
				return true
			}
			vm.schedule()
			g = vm.g
		}
		f := g.frames[len(g.frames)-1]
		vm.curPC = f.pc
		ins := f.code.ins[f.pc]
		f.pc++
		vm.sc.steps++
		vm.St.Steps++
		if vm.sc.steps > vm.Opt.MaxSteps {
			panic(pathEnd{"limit", "step limit in " + f.code.name})
		}
		if vm.sc.steps&0xffff == 0 {
			if vm.StopReq != nil && atomic.LoadInt32(vm.StopReq) != 0 {
				panic(pathEnd{"stop", ""})
			}
			if !vm.deadline.IsZero() && time.Now().After(vm.deadline) {
				panic(pathEnd{"deadline", ""})
			}
		}
		if len(vm.dec) > 0 {
			// decisions belong to one instruction only
			if vm.decPos == 0 {
				// being re-executed after backtracking: keep
			} else {
				vm.dec = vm.dec[:0]
				vm.decPos = 0
			}
		}
		ins(vm, f)
	}
}

func (vm *VM) startPanicAt(v Val) {
	vm.dec = vm.dec[:0]
	vm.decPos = 0
	for {
		again := func() (again bool) {
			defer func() {
				if r := recover(); r != nil {
					if gp, ok := r.(goPanic); ok {
						v = gp.v
						again = true
						return
					}
					panic(r)
				}
			}()
			vm.startPanic(v)
			return false
		}()
		if !again {
			return
		}
	}
}

func (vm *VM) schedule() {
	// wake whoever can run
	var run []int
	for i, g := range vm.gors {
		if g.done {
			continue
		}
		if g.blocked != nil {
			if g.blocked(vm) {
				run = append(run, i)
			}
			continue
		}
		run = append(run, i)
	}
	if len(run) == 0 {
		var why []string
		for _, g := range vm.gors {
			if !g.done {
				why = append(why, fmt.Sprintf("g%d:%s", g.id, g.why))
			}
		}
		panic(pathEnd{"deadlock", strings.Join(why, "; ")})
	}
	pick := 0
	vm.cur = run[pick]
	vm.g = vm.gors[vm.cur]
	vm.g.blocked = nil
	vm.g.why = ""
}

// Run explores all paths of the harness function.
func (vm *VM) Run(name string, entry *ssa.Function) {
	vm.harness = name
	if vm.Opt.Deadline > 0 {
		vm.deadline = time.Now().Add(vm.Opt.Deadline)
	}
	// package initialisation, permanent
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok {
					vm.St.Unsupported["init: "+pe.kind+" "+pe.msg]++
					return
				}
				panic(r)
			}
		}()
		vm.ensureInit(entry.Pkg)
	}()
	if len(vm.St.Unsupported) > 0 {
		return
	}
	g := &Gor{id: 0}
	vm.gors = []*Gor{g}
	vm.cur, vm.g = 0, g
	vm.sc = scalars{nGor: 1}
	vm.sc.model = map[string]int64{}
	vm.call(&Fn{code: vm.P.codeOf(entry)}, nil, -1)
	for {
		end := vm.runPath()
		if end.kind != "othershard" && (vm.sc.forkDepth >= shardDepth || vm.ownShard()) {
			vm.St.Paths++
			vm.finishPath(end)
		}
		if !vm.deadline.IsZero() && vm.St.Paths&0xf == 0 && time.Now().After(vm.deadline) {
			end.kind = "deadline"
		}
		if end.kind == "stop" || end.kind == "deadline" {
			vm.St.Truncated = true
			return
		}
		if vm.Opt.MaxPaths > 0 && vm.St.Paths >= vm.Opt.MaxPaths {
			vm.St.Truncated = true
			return
		}
		if vm.Opt.MaxViol > 0 && len(vm.Viol) >= vm.Opt.MaxViol {
			vm.St.Truncated = true
			return
		}
		if !vm.backtrack() {
			return
		}
	}
}

func (vm *VM) runPath() (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(pathEnd); ok {
				end = pe
				return
			}
			fmt.Fprintf(os.Stderr, "engine failure in %s: %v\n%s\n", vm.harness, r, vm.stack())
			if vm.Opt.Debug {
				panic(r)
			}
			end = pathEnd{"unsupported", fmt.Sprintf("engine failure: %v", r)}
		}
	}()
	vm.loop(false)
	return pathEnd{"ok", ""}
}

func (vm *VM) stack() string {
	if vm.g == nil {
		return ""
	}
	var sb strings.Builder
	for i := len(vm.g.frames) - 1; i >= 0; i-- {
		f := vm.g.frames[i]
		pc := f.pc
		if pc > 0 {
			pc--
		}
		fmt.Fprintf(&sb, "  %s (%s)\n", f.code.name, f.code.posOf(vm.P, pc))
	}
	return sb.String()
}

func (vm *VM) finishPath(end pathEnd) {
	switch end.kind {
	case "ok":
		vm.St.PathsOK++
		vm.maybeSample()
	case "assume":
		vm.St.AssumeFail++
	case "limit":
		vm.St.Limit++
		vm.St.Unsupported["limit: "+end.msg]++
		if vm.Opt.Verbose {
			fmt.Fprintf(os.Stderr, "[%s] LIMIT %s\n%s\n", vm.harness, end.msg, vm.stack())
		}
	case "unsupported", "unknown":
		vm.St.Unsupported[end.kind+": "+end.msg]++
		if vm.Opt.Verbose {
			fmt.Fprintf(os.Stderr, "[%s] UNSUPPORTED %s\n%s\n", vm.harness, end.msg, vm.stack())
		}
	case "violation":
	case "panic", "deadlock":
		m := vm.sc.model
		if m == nil {
			_, m = vm.S.Check(vm.pc, nil)
		}
		vm.recordViolation(end.kind, end.kind, end.msg, m, "")
	}
}

func (vm *VM) backtrack() bool {
	for len(vm.cps) > 0 {
		cp := vm.cps[len(vm.cps)-1]
		// undo heap
		for i := len(vm.trail) - 1; i >= cp.trail; i-- {
			u := vm.trail[i]
			if u.f != nil {
				u.f()
			} else {
				*u.p = u.old
			}
		}
		vm.trail = vm.trail[:cp.trail]
		vm.pc = vm.pc[:cp.pc]
		vm.inputs = vm.inputs[:cp.inputs]
		vm.obs = vm.obs[:cp.obs]
		if cp.next >= len(cp.alts) {
			vm.cps = vm.cps[:len(vm.cps)-1]
			continue
		}
		a := cp.alts[cp.next]
		cp.next++
		last := cp.next >= len(cp.alts)
		if last {
			vm.gors = cp.gors
		} else {
			vm.gors = copyGors(cp.gors)
		}
		vm.cur = cp.cur
		vm.g = vm.gors[vm.cur]
		vm.sc = cp.sc
		vm.dec = append(append([]int(nil), cp.dec...), a.dec)
		vm.decPos = 0
		if a.cons != nil {
			vm.addPC(a.cons)
		}
		if last {
			vm.cps = vm.cps[:len(vm.cps)-1]
		}
		if !vm.descend(cp.next) {
			continue
		}
		return true
	}
	return false
}

// ---------- reporting ----------

func (vm *VM) recordViolation(kind, label, msg string, m map[string]int64, known string) {
	for _, v := range vm.Viol {
		if v.Label == label && v.Kind == kind && vm.countLabel(kind, label) >= 4 {
			return
		}
	}
	v := &Violation{Harness: vm.harness, Label: label, Kind: kind, Msg: msg, Known: known, Where: vm.stack()}
	v.Inputs = vm.concInputs(m)
	v.Trace = vm.concObs(m)
	vm.Viol = append(vm.Viol, v)
}

func (vm *VM) countLabel(kind, label string) int {
	n := 0
	for _, v := range vm.Viol {
		if v.Label == label && v.Kind == kind {
			n++
		}
	}
	return n
}

func evalVal(v Val, m map[string]int64) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case bool:
		return b2i(x)
	case *Expr:
		return x.eval(m, map[*Expr]int64{})
	}
	return 0
}

func (vm *VM) concInputs(m map[string]int64) []ReplayInput {
	out := []ReplayInput{}
	for _, in := range vm.inputs {
		r := ReplayInput{Kind: in.Kind, Name: in.Name}
		if s, ok := in.E.(*SymStr); ok {
			b := make([]byte, len(s.b))
			for i, c := range s.b {
				b[i] = byte(evalVal(c, m))
			}
			r.Str = string(b)
		} else if s, ok := in.E.(string); ok {
			r.Str = s
		} else {
			r.Int = evalVal(in.E, m)
		}
		out = append(out, r)
	}
	return out
}

func (vm *VM) concObs(m map[string]int64) []string {
	out := []string{}
	for _, o := range vm.obs {
		var sb strings.Builder
		sb.WriteString(o.Label)
		for _, v := range o.Vals {
			sb.WriteString(" ")
			sb.WriteString(vm.render(v, m, 0))
		}
		out = append(out, sb.String())
	}
	return out
}

// render prints an observed value the way the native harness prints it.
func (vm *VM) render(v Val, m map[string]int64, depth int) string {
	if depth > 6 {
		return "..."
	}
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint(x)
	case int64:
		return fmt.Sprint(x)
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, c := range x.b {
			b[i] = byte(evalVal(c, m))
		}
		return fmt.Sprintf("%q", string(b))
	case *Expr:
		if x.W == 0 {
			return fmt.Sprint(x.eval(m, map[*Expr]int64{}) != 0)
		}
		return fmt.Sprint(x.eval(m, map[*Expr]int64{}))
	case iface:
		if x.t == nil {
			return "nil"
		}
		if w, signed, ok := intInfo(x.t); ok {
			if e, ok := x.v.(*Expr); ok {
				return fmt.Sprint(normInt(e.eval(m, map[*Expr]int64{}), w, signed))
			}
		}
		return vm.render(x.v, m, depth+1)
	}
	return fmt.Sprintf("<%T>", v)
}

func (vm *VM) maybeSample() {
	n := vm.St.PathsOK
	k := vm.Opt.Samples
	if k == 0 {
		return
	}
	idx := -1
	if len(vm.Samples) < k {
		vm.Samples = append(vm.Samples, PathSample{})
		idx = len(vm.Samples) - 1
	} else {
		vm.sampleRng ^= vm.sampleRng << 13
		vm.sampleRng ^= vm.sampleRng >> 7
		vm.sampleRng ^= vm.sampleRng << 17
		if j := int(vm.sampleRng % uint64(n)); j < k {
			idx = j
		}
	}
	if idx < 0 {
		return
	}
	m := vm.sc.model
	if m == nil {
		r, mm := vm.S.Check(vm.pc, nil)
		if r != RSat {
			return
		}
		m = mm
	}
	vm.Samples[idx] = PathSample{Inputs: vm.concInputs(m), Obs: vm.concObs(m)}
}

// FuncNames lists executed functions whose package path has the prefix.
func (vm *VM) FuncNames(prefix string) []string {
	var out []string
	for c := range vm.St.Funcs {
		if c.fn != nil && c.fn.Pkg != nil && strings.HasPrefix(c.fn.Pkg.Pkg.Path(), prefix) {
			out = append(out, c.name)
		}
	}
	sort.Strings(out)
	return out
}
