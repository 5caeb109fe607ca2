package vm

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/json"
	"bytes"
	"compress/gzip"
	"fmt"
	"go/types"
	"io"
	"math"
	"os"
	"path"
	"strconv"
	"strings"
	"unicode"
)

type natFunc = func(vm *VM, a []Val) Val

var natives map[string]natFunc

func (p *Program) bindNative(c *Code) {
	if n, ok := natives[originName(c.fn)]; ok {
		c.nat = n
		return
	}
	if c.fn.Pkg != nil {
		pp := c.fn.Pkg.Pkg.Path()
		if strings.HasPrefix(pp, "go.uber.org/zap") && !c.isInit {
			nm := c.name
			c.nat = func(vm *VM, a []Val) Val { unsupported("zap: %s", nm); return nil }
		}
	}
}

func conc(a ...Val) bool {
	for _, v := range a {
		switch v.(type) {
		case *Expr, *SymStr, *OpaqueStr, *OpaqueFloat:
			return false
		}
	}
	return true
}

func str(v Val) string {
	s, ok := v.(string)
	if !ok {
		unsupported("concrete string expected, got %T", v)
	}
	return s
}

func (vm *VM) fresh(kind, name string, w int) *Expr {
	vm.sc.symSeq++
	n := fmt.Sprintf("v%d_%s", vm.sc.symSeq, sanitize(name))
	if w == 0 {
		n += "_b"
	} else {
		n += fmt.Sprintf("_%d", w)
	}
	return vm.T.Var(n, w)
}

func sanitize(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			b[i] = '_'
		}
	}
	return string(b)
}

func (vm *VM) newInput(kind, name string, w int) *Expr {
	if vm.perm {
		unsupported("symbolic input during init")
	}
	e := vm.fresh(kind, name, w)
	vm.inputs = append(vm.inputs[:len(vm.inputs):len(vm.inputs)], Input{Kind: kind, Name: name, E: e, W: w})
	return e
}

// runSync calls an interpreted function from native code and runs it to completion.
// Forking is not possible inside (the native caller cannot be resumed).
func (vm *VM) runSync(fn *Fn, args []Val) Val {
	g := vm.g
	depth := len(g.frames)
	saveDec, saveDP, savePC := vm.dec, vm.decPos, vm.curPC
	vm.inNest++
	defer func() {
		vm.inNest--
	}()
	// a barrier frame receives the result
	bf := &Frame{code: barrierCode, dst: -1, regs: make([]Val, 1)}
	g.frames = append(g.frames, bf)
	vm.dec, vm.decPos = nil, 0
	vm.call(fn, args, 0)
	for len(g.frames) > depth+1 {
		f := g.frames[len(g.frames)-1]
		vm.curPC = f.pc
		ins := f.code.ins[f.pc]
		f.pc++
		vm.sc.steps++
		if vm.sc.steps > vm.Opt.MaxSteps {
			panic(pathEnd{"limit", "step limit in " + f.code.name})
		}
		vm.syncStep(ins, f, depth+1)
	}
	g.frames = g.frames[:depth]
	vm.dec, vm.decPos, vm.curPC = saveDec, saveDP, savePC
	return bf.regs[0]
}

func (vm *VM) syncStep(ins instr, f *Frame, floor int) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case goPanic:
				// unwinding stays above the barrier, otherwise the panic belongs to the native's caller
				for {
					n := len(vm.g.frames)
					if n <= floor {
						vm.g.frames = vm.g.frames[:floor-1]
						panic(goPanic{x.v})
					}
					top := vm.g.frames[n-1]
					if len(top.defers) > 0 {
						unsupported("panic with deferred calls below a native frame")
					}
					vm.g.frames = vm.g.frames[:n-1]
				}
			case blockGor:
				unsupported("blocking operation below a native frame: %s", x.why)
			default:
				panic(r)
			}
		}
	}()
	ins(vm, f)
	if len(vm.dec) > 0 {
		vm.dec, vm.decPos = vm.dec[:0], 0
	}
}

var barrierCode = &Code{name: "native barrier", recoverPC: -1}

func (vm *VM) mkErr(msg Val) Val {
	p := new(Val)
	*p = structV{msg}
	return iface{vm.P.errStrPtr, p}
}

var tString = types.Typ[types.String]
var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tFloat64 = types.Typ[types.Float64]
var tEmptyIface = types.NewInterfaceType(nil, nil)
var tMapSA = types.NewMap(tString, tEmptyIface)
var tSliceA = types.NewSlice(tEmptyIface)

func mkIface(t types.Type, v Val) Val { return iface{canon(t), v} }

func goStrings(v Val) ([]string, bool) {
	s, ok := v.([]Val)
	if !ok {
		return nil, false
	}
	out := make([]string, len(s))
	for i, x := range s {
		str, ok := x.(string)
		if !ok {
			return nil, false
		}
		out[i] = str
	}
	return out, true
}

func mkStrs(ss []string) Val {
	if ss == nil {
		return []Val(nil)
	}
	out := make([]Val, len(ss))
	for i, s := range ss {
		out[i] = s
	}
	return out
}

func fieldPtr(p Val, i int) *Val {
	pp := p.(*Val)
	if pp == nil {
		return nil
	}
	return &(*pp).(structV)[i]
}

// leaf finds the first scalar cell inside a (possibly nested) struct: used as the state of a lock.
func leaf(p *Val) *Val {
	if s, ok := (*p).(structV); ok {
		for i := range s {
			if l := leaf(&s[i]); l != nil {
				return l
			}
		}
		return nil
	}
	return p
}

func (vm *VM) nilChk(p Val) *Val {
	pp, _ := p.(*Val)
	if pp == nil {
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	return pp
}

// lastLeaf: scalar cell by path
func sub(p *Val, idx ...int) *Val {
	for _, i := range idx {
		p = &(*p).(structV)[i]
	}
	return p
}

func init() {
	natives = map[string]natFunc{}
	N := natives
	// ---------------- harness intrinsics ----------------
	const V = "flowverif/vsym."
	N[V+"Int"] = func(vm *VM, a []Val) Val { return vm.newInput("int", str(a[0]), 64) }
	N[V+"Int64"] = N[V+"Int"]
	N[V+"Int32"] = func(vm *VM, a []Val) Val { return vm.newInput("int", str(a[0]), 32) }
	N[V+"Byte"] = func(vm *VM, a []Val) Val { return vm.newInput("byte", str(a[0]), 8) }
	N[V+"Bool"] = func(vm *VM, a []Val) Val { return vm.newInput("bool", str(a[0]), 0) }
	N[V+"Range"] = func(vm *VM, a []Val) Val {
		lo, hi := a[1].(int64), a[2].(int64)
		T := vm.T
		if vm.decPos < len(vm.dec) {
			unsupported("range re-executed")
		}
		e := vm.newInput("int", str(a[0]), 64)
		vm.addPC(T.And(T.Bin("bvsle", T.BV(lo, 64), e), T.Bin("bvsle", e, T.BV(hi, 64))))
		vm.bindModel(e, lo)
		return e
	}
	N[V+"Choice"] = func(vm *VM, a []Val) Val {
		n := int(a[1].(int64))
		if n <= 0 {
			unsupported("choice of 0")
		}
		name := str(a[0])
		T := vm.T
		e := T.Var(fmt.Sprintf("v%d_%s_c", vm.sc.symSeq+1, sanitize(name)), 64)
		d := 0
		if vm.decPos < len(vm.dec) {
			d = vm.dec[vm.decPos]
			vm.decPos++
		} else {
			alts := make([]altRec, 0, n)
			for i := 1; i < n; i++ {
				alts = append(alts, altRec{dec: i, cons: T.Eq(e, T.BV(int64(i), 64))})
			}
			if n > 1 {
				vm.snapshot(alts, "choice "+name)
			}
			vm.dec = append(vm.dec, 0)
			vm.decPos++
			vm.addPC(T.Eq(e, T.BV(0, 64)))
			if n > 1 {
				vm.enter()
			}
		}
		vm.sc.symSeq++
		vm.bindModel(e, int64(d))
		vm.inputs = append(vm.inputs[:len(vm.inputs):len(vm.inputs)], Input{Kind: "choice", Name: name, E: e, W: 64})
		return int64(d)
	}
	N[V+"Str"] = func(vm *VM, a []Val) Val {
		n := int(a[1].(int64))
		name := str(a[0])
		b := make([]Val, n)
		for i := range b {
			e := vm.fresh("str", name, 8)
			T := vm.T
			vm.addPC(T.And(T.Bin("bvule", T.BV(0x20, 8), e), T.Bin("bvule", e, T.BV(0x7e, 8))))
			vm.bindModel(e, 0x20)
			b[i] = e
		}
		s := Val(&SymStr{b})
		if n == 0 {
			s = ""
		}
		vm.inputs = append(vm.inputs[:len(vm.inputs):len(vm.inputs)], Input{Kind: "str", Name: name, E: s})
		return s
	}
	N[V+"Assume"] = func(vm *VM, a []Val) Val {
		switch c := a[0].(type) {
		case bool:
			if !c {
				panic(pathEnd{"assume", ""})
			}
		case *Expr:
			ok, m := vm.feas(c)
			if !ok {
				panic(pathEnd{"assume", ""})
			}
			vm.addPC(c)
			vm.sc.model = m
		}
		return nil
	}
	N[V+"Assert"] = func(vm *VM, a []Val) Val {
		vm.assert(a[0], str(a[1]), "", false)
		return nil
	}
	N[V+"AssertKnown"] = func(vm *VM, a []Val) Val {
		vm.assert(a[2], str(a[3]), str(a[0]), a[1])
		return nil
	}
	N[V+"Reach"] = func(vm *VM, a []Val) Val {
		vm.St.Reached[str(a[0])]++
		return nil
	}
	N[V+"Tier"] = func(vm *VM, a []Val) Val { return int64(vm.Opt.Tier) }
	N[V+"Symbolic"] = func(vm *VM, a []Val) Val { return true }
	N[V+"MapOrder"] = func(vm *VM, a []Val) Val {
		old := vm.mapRotOn
		vm.mapRotOn = a[0].(bool)
		vm.onUndo(func() { vm.mapRotOn = old })
		return nil
	}
	N[V+"Observe"] = func(vm *VM, a []Val) Val {
		vs := append([]Val(nil), a[1].([]Val)...)
		vm.obs = append(vm.obs[:len(vm.obs):len(vm.obs)], Obs{str(a[0]), vs})
		return nil
	}
	N[V+"Setenv"] = func(vm *VM, a []Val) Val {
		k := str(a[0])
		old, had := vm.env[k]
		vm.env[k] = a[1]
		vm.onUndo(func() {
			if had {
				vm.env[k] = old
			} else {
				delete(vm.env, k)
			}
		})
		return nil
	}
	toBytes := func(v Val) []byte { return []byte(str(mkStr(v.([]Val)))) }
	N[V+"Gzip"] = func(vm *VM, a []Val) Val {
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		_, _ = w.Write(toBytes(a[0]))
		_ = w.Close()
		r, _ := strBytes(b.String())
		return r
	}
	N["flowverif/vmodel.gunzip"] = func(vm *VM, a []Val) Val {
		r, err := gzip.NewReader(bytes.NewReader(toBytes(a[0])))
		if err != nil {
			return tupleV{[]Val(nil), false, false}
		}
		d, err := io.ReadAll(r)
		o, _ := strBytes(string(d))
		return tupleV{o, true, err == nil}
	}
	// firstJSON splits the first JSON value off a text
	N["flowverif/vmodel.firstJSON"] = func(vm *VM, a []Val) Val {
		b := a[0].([]Val)
		if len(b) > 0 {
			if _, ok := b[0].(*jsonBox); ok {
				return tupleV{b[:1], b[1:], ""}
			}
		}
		t := toBytes(a[0])
		d := json.NewDecoder(bytes.NewReader(t))
		var m json.RawMessage
		if err := d.Decode(&m); err != nil {
			return tupleV{[]Val(nil), []Val(nil), err.Error()}
		}
		n := int(d.InputOffset())
		return tupleV{b[:n], b[n:], ""}
	}
	N[V+"Unsetenv"] = func(vm *VM, a []Val) Val {
		k := str(a[0])
		old, had := vm.env[k]
		delete(vm.env, k)
		vm.onUndo(func() {
			if had {
				vm.env[k] = old
			}
		})
		return nil
	}
	N[V+"Yield"] = func(vm *VM, a []Val) Val {
		// let every other goroutine run until it blocks or ends
		g := vm.g
		idle := func(vm *VM) bool {
			for _, o := range vm.gors {
				if o != g && !o.done && (o.blocked == nil || (o.why != "yield" && o.blocked(vm))) {
					return false
				}
			}
			return true
		}
		if !idle(vm) {
			vm.block("yield", idle)
		}
		return nil
	}
	N[V+"Steps"] = func(vm *VM, a []Val) Val { return int64(vm.sc.steps) }
	N[V+"Debug"] = func(vm *VM, a []Val) Val {
		if vm.Opt.Verbose {
			s := []string{}
			for _, v := range a[0].([]Val) {
				s = append(s, describe(v, 0))
			}
			fmt.Fprintln(os.Stderr, "DEBUG", strings.Join(s, " "))
		}
		return nil
	}

	// ---------------- sync ----------------
	lock := func(vm *VM, a []Val) Val {
		p := leaf(vm.nilChk(a[0]))
		if (*p).(int64) != 0 {
			vm.block("mutex lock", func(*VM) bool { return (*p).(int64) == 0 })
		}
		vm.set(p, int64(1))
		return nil
	}
	unlock := func(vm *VM, a []Val) Val {
		p := leaf(vm.nilChk(a[0]))
		if (*p).(int64) == 0 {
			panic(pathEnd{"panic", "fatal error: sync: unlock of unlocked mutex"})
		}
		vm.set(p, int64(0))
		return nil
	}
	N["(*sync.Mutex).Lock"] = lock
	N["(*sync.Mutex).Unlock"] = unlock
	N["(*sync.Mutex).TryLock"] = func(vm *VM, a []Val) Val {
		p := leaf(vm.nilChk(a[0]))
		if (*p).(int64) != 0 {
			return false
		}
		vm.set(p, int64(1))
		return true
	}
	N["(*internal/sync.Mutex).Lock"] = lock
	N["(*internal/sync.Mutex).Unlock"] = unlock
	// RWMutex: w (leaf) = writer flag; readerCount approximated in field 1 (writerSem)
	rwCell := func(vm *VM, p *Val) *Val { return leaf(sub(p, 1)) }
	N["(*sync.RWMutex).Lock"] = func(vm *VM, a []Val) Val {
		p := vm.nilChk(a[0])
		w, r := leaf(p), rwCell(vm, p)
		if (*w).(int64) != 0 || (*r).(int64) != 0 {
			vm.block("rwmutex lock", func(*VM) bool { return (*w).(int64) == 0 && (*r).(int64) == 0 })
		}
		vm.set(w, int64(1))
		return nil
	}
	N["(*sync.RWMutex).Unlock"] = unlock
	N["(*sync.RWMutex).RLock"] = func(vm *VM, a []Val) Val {
		p := vm.nilChk(a[0])
		w, r := leaf(p), rwCell(vm, p)
		if (*w).(int64) != 0 {
			vm.block("rwmutex rlock", func(*VM) bool { return (*w).(int64) == 0 })
		}
		vm.set(r, (*r).(int64)+1)
		return nil
	}
	N["(*sync.RWMutex).RUnlock"] = func(vm *VM, a []Val) Val {
		p := vm.nilChk(a[0])
		r := rwCell(vm, p)
		if (*r).(int64) == 0 {
			panic(pathEnd{"panic", "fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		vm.set(r, (*r).(int64)-1)
		return nil
	}
	wgCell := func(vm *VM, p *Val) *Val {
		k := fmt.Sprintf("wg%p", p)
		if c, ok := vm.extra[k]; ok {
			return c.(*Val)
		}
		c := new(Val)
		*c = int64(0)
		vm.extra[k] = c
		return c
	}
	N["(*sync.WaitGroup).Add"] = func(vm *VM, a []Val) Val {
		c := wgCell(vm, vm.nilChk(a[0]))
		vm.set(c, (*c).(int64)+vm.concInt(a[1], 64, true))
		if (*c).(int64) < 0 {
			panic(goPanic{iface{vm.P.rtErrType, structV{"sync: negative WaitGroup counter"}}})
		}
		return nil
	}
	N["(*sync.WaitGroup).Done"] = func(vm *VM, a []Val) Val {
		return N["(*sync.WaitGroup).Add"](vm, []Val{a[0], int64(-1)})
	}
	N["(*sync.WaitGroup).Wait"] = func(vm *VM, a []Val) Val {
		c := wgCell(vm, vm.nilChk(a[0]))
		if (*c).(int64) != 0 {
			vm.block("waitgroup", func(*VM) bool { return (*c).(int64) == 0 })
		}
		return nil
	}
	N["(*sync.Pool).Put"] = func(vm *VM, a []Val) Val { return nil }
	N["sync.runtime_registerPoolCleanup"] = func(vm *VM, a []Val) Val { return nil }
	// ---------------- sync/atomic ----------------
	for _, k := range []struct {
		n string
		w int
		s bool
	}{{"Int32", 32, true}, {"Int64", 64, true}, {"Uint32", 32, false}, {"Uint64", 64, false}, {"Uintptr", 64, false}} {
		k := k
		N["sync/atomic.Load"+k.n] = func(vm *VM, a []Val) Val { return vm.load(vm.nilChk(a[0])) }
		N["sync/atomic.Store"+k.n] = func(vm *VM, a []Val) Val { vm.store(vm.nilChk(a[0]), a[1]); return nil }
		N["sync/atomic.Add"+k.n] = func(vm *VM, a []Val) Val {
			p := vm.nilChk(a[0])
			x, ok1 := (*p).(int64)
			y, ok2 := a[1].(int64)
			var r Val
			if ok1 && ok2 {
				r = normInt(x+y, k.w, k.s)
			} else {
				r = lowerI(vm.T.Bin("bvadd", vm.lift(*p, k.w), vm.lift(a[1], k.w)), k.w, k.s)
			}
			vm.set(p, r)
			return r
		}
		N["sync/atomic.CompareAndSwap"+k.n] = func(vm *VM, a []Val) Val {
			p := vm.nilChk(a[0])
			if vm.branch(vm.eq(*p, a[1]), "cas") {
				vm.set(p, a[2])
				return true
			}
			return false
		}
		N["sync/atomic.Swap"+k.n] = func(vm *VM, a []Val) Val {
			p := vm.nilChk(a[0])
			o := *p
			vm.set(p, a[1])
			return o
		}
	}
	for _, t := range []string{"LoadPointer"} {
		N["sync/atomic."+t] = func(vm *VM, a []Val) Val { return vm.load(vm.nilChk(a[0])) }
	}
	N["sync/atomic.StorePointer"] = func(vm *VM, a []Val) Val { vm.store(vm.nilChk(a[0]), a[1]); return nil }
	N["sync/atomic.CompareAndSwapPointer"] = func(vm *VM, a []Val) Val {
		p := vm.nilChk(a[0])
		if vm.branch(vm.eq(*p, a[1]), "cas") {
			vm.set(p, a[2])
			return true
		}
		return false
	}
	vcell := func(vm *VM, p Val) *Val { return sub(vm.nilChk(p), 0) }
	N["(*sync/atomic.Value).Load"] = func(vm *VM, a []Val) Val { return *vcell(vm, a[0]) }
	N["(*sync/atomic.Value).Store"] = func(vm *VM, a []Val) Val { vm.set(vcell(vm, a[0]), a[1]); return nil }
	N["(*sync/atomic.Value).Swap"] = func(vm *VM, a []Val) Val {
		p := vcell(vm, a[0])
		o := *p
		vm.set(p, a[1])
		return o
	}
	N["(*sync/atomic.Value).CompareAndSwap"] = func(vm *VM, a []Val) Val {
		p := vcell(vm, a[0])
		if vm.branch(vm.eq(*p, a[1]), "cas") {
			vm.set(p, a[2])
			return true
		}
		return false
	}
	ptrCell := func(vm *VM, p Val) *Val {
		s := (*vm.nilChk(p)).(structV)
		return &s[len(s)-1]
	}
	N["(*sync/atomic.Pointer[T]).Load"] = func(vm *VM, a []Val) Val { return *ptrCell(vm, a[0]) }
	N["(*sync/atomic.Pointer[T]).Store"] = func(vm *VM, a []Val) Val { vm.set(ptrCell(vm, a[0]), a[1]); return nil }
	N["(*sync/atomic.Pointer[T]).Swap"] = func(vm *VM, a []Val) Val {
		p := ptrCell(vm, a[0])
		o := *p
		vm.set(p, a[1])
		return o
	}
	N["(*sync/atomic.Pointer[T]).CompareAndSwap"] = func(vm *VM, a []Val) Val {
		p := ptrCell(vm, a[0])
		if vm.branch(vm.eq(*p, a[1]), "cas") {
			vm.set(p, a[2])
			return true
		}
		return false
	}
	// ---------------- runtime / os / time ----------------
	nop := func(vm *VM, a []Val) Val { return nil }
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched", "os/signal.Notify", "os/signal.Stop",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Disable", "internal/race.Enable", "internal/race.ReleaseMerge", "internal/race.Read", "internal/race.Write",
		"internal/godebug.setUpdate", "internal/godebug.registerMetric", "internal/godebug.setNewIncNonDefault"} {
		N[n] = nop
	}
	for _, n := range []string{"Print", "Printf", "Println", "SetOutput", "SetFlags", "SetPrefix"} {
		N["log."+n] = nop
	}
	N["runtime/debug.Stack"] = func(vm *VM, a []Val) Val { b, _ := strBytes("stack"); return append([]Val(nil), b...) }
	N["runtime.NumGoroutine"] = func(vm *VM, a []Val) Val { return int64(4) }
	N["runtime.Caller"] = func(vm *VM, a []Val) Val { return tupleV{int64(0), "", int64(0), false} }
	N["runtime.Callers"] = func(vm *VM, a []Val) Val { return int64(0) }
	N["math/rand.runtime_rand"] = func(vm *VM, a []Val) Val { vm.sc.clock++; return vm.sc.clock * 0x5851f42d4c957f2d }
	N["math/rand/v2.runtime_rand"] = N["math/rand.runtime_rand"]
	N["maps.clone"] = func(vm *VM, a []Val) Val {
		i := a[0].(iface)
		m, _ := i.v.(*mapV)
		if m == nil {
			return i
		}
		c := &mapV{}
		for j := range m.slots {
			if m.slots[j].used {
				vm.mapSet(c, copyVal(m.slots[j].k), copyVal(m.slots[j].v))
			}
		}
		return iface{i.t, c}
	}
	hash := func(n string, f func([]byte) []byte) {
		N[n] = func(vm *VM, a []Val) Val {
			b, _ := a[0].([]Val)
			s, ok := mkStr(b).(string)
			if !ok {
				unsupported("hash of a symbolic text")
			}
			var r arrayV
			for _, c := range f([]byte(s)) {
				r = append(r, int64(c))
			}
			return r
		}
	}
	hash("crypto/sha256.Sum256", func(b []byte) []byte { s := sha256.Sum256(b); return s[:] })
	hash("crypto/sha1.Sum", func(b []byte) []byte { s := sha1.Sum(b); return s[:] })
	hash("crypto/md5.Sum", func(b []byte) []byte { s := md5.Sum(b); return s[:] })
	N["runtime.NumCPU"] = func(vm *VM, a []Val) Val { return int64(8) }
	N["runtime.GOMAXPROCS"] = func(vm *VM, a []Val) Val { return int64(8) }
	N["os.Getenv"] = func(vm *VM, a []Val) Val {
		if v, ok := vm.env[str(a[0])]; ok {
			return v
		}
		return ""
	}
	N["os.LookupEnv"] = func(vm *VM, a []Val) Val {
		if v, ok := vm.env[str(a[0])]; ok {
			return tupleV{v, true}
		}
		return tupleV{"", false}
	}
	N["os.Setenv"] = func(vm *VM, a []Val) Val { N[V+"Setenv"](vm, a); return iface{} }
	N["os.Unsetenv"] = func(vm *VM, a []Val) Val { N[V+"Unsetenv"](vm, a); return iface{} }
	N["os.Hostname"] = func(vm *VM, a []Val) Val { return tupleV{"host", iface{}} }
	N["os.Getpid"] = func(vm *VM, a []Val) Val { return int64(4242) }
	N["time.Now"] = func(vm *VM, a []Val) Val {
		vm.sc.clock++
		// wall=0, ext=seconds since year 1 (about 2023) + ticks, loc=nil (UTC)
		return structV{int64(0), int64(63800000000) + vm.sc.clock, (*Val)(nil)}
	}
	N["time.runtimeNano"] = func(vm *VM, a []Val) Val { return int64(1000) }
	N["time.Since"] = func(vm *VM, a []Val) Val { return int64(1000) }
	N["time.Until"] = func(vm *VM, a []Val) Val { return int64(1000) }
	N["(time.Time).String"] = func(vm *VM, a []Val) Val { return "2023-01-01 00:00:00 +0000 UTC" }
	N["(time.Time).Format"] = func(vm *VM, a []Val) Val { return "2023-01-01T00:00:00Z" }
	N["time.Sleep"] = func(vm *VM, a []Val) Val {
		l, _ := vm.extra["sleeps"].([]Val)
		old := l
		vm.extra["sleeps"] = append(l[:len(l):len(l)], a[0])
		vm.onUndo(func() { vm.extra["sleeps"] = old })
		return nil
	}
	N[V+"Waited"] = func(vm *VM, a []Val) Val {
		l, _ := vm.extra["sleeps"].([]Val)
		old := l
		vm.extra["sleeps"] = []Val(nil)
		vm.onUndo(func() { vm.extra["sleeps"] = old })
		toE := func(v Val) *Expr {
			if x, ok := v.(*Expr); ok {
				return x
			}
			return vm.T.BV(v.(int64), 64)
		}
		sum := vm.T.BV(0, 64)
		for _, d := range l {
			sum = vm.T.Bin("bvadd", sum, toE(d))
		}
		return lowerB(vm.T.Eq(sum, vm.T.Bin("bvmul", toE(a[0]), vm.T.BV(1000000, 64))))
	}
	N[V+"Sleeps"] = func(vm *VM, a []Val) Val {
		l, _ := vm.extra["sleeps"].([]Val)
		return append([]Val(nil), l...)
	}
	N["internal/godebug.New"] = func(vm *VM, a []Val) Val { p := new(Val); *p = structV{}; return p }
	N["(*internal/godebug.Setting).Value"] = func(vm *VM, a []Val) Val { return "" }
	N["(*internal/godebug.Setting).IncNonDefault"] = nop
	N["internal/bytealg.MakeNoZero"] = func(vm *VM, a []Val) Val {
		n := int(vm.concInt(a[0], 64, true))
		s := make([]Val, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s
	}
	// ---------------- math ----------------
	N["math.Float64bits"] = func(vm *VM, a []Val) Val { return int64(math.Float64bits(f64(a[0]))) }
	N["math.Float64frombits"] = func(vm *VM, a []Val) Val { return math.Float64frombits(uint64(a[0].(int64))) }
	N["math.Float32bits"] = func(vm *VM, a []Val) Val { return int64(math.Float32bits(float32(f64(a[0])))) }
	N["math.Float32frombits"] = func(vm *VM, a []Val) Val { return float64(math.Float32frombits(uint32(a[0].(int64)))) }
	for n, fn := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs, "Round": math.Round, "Log": math.Log, "Exp": math.Exp} {
		fn := fn
		N["math."+n] = func(vm *VM, a []Val) Val {
			if o, ok := a[0].(*OpaqueFloat); ok && (n == "Floor" || n == "Ceil" || n == "Trunc" || n == "Round") {
				return o
			}
			return fn(f64(a[0]))
		}
	}
	N["math.Max"] = func(vm *VM, a []Val) Val { return math.Max(f64(a[0]), f64(a[1])) }
	N["math.Min"] = func(vm *VM, a []Val) Val { return math.Min(f64(a[0]), f64(a[1])) }
	N["math.Pow"] = func(vm *VM, a []Val) Val { return math.Pow(f64(a[0]), f64(a[1])) }
	N["math.Mod"] = func(vm *VM, a []Val) Val { return math.Mod(f64(a[0]), f64(a[1])) }
	// ---------------- strings / strconv: concrete fast paths; symbolic falls back to the real body ----------------
	s1 := func(n string, fn func(string) Val) {
		N[n] = func(vm *VM, a []Val) Val {
			if s, ok := a[0].(string); ok {
				return fn(s)
			}
			return fallback{}
		}
	}
	s2 := func(n string, fn func(a, b string) Val) {
		N[n] = func(vm *VM, a []Val) Val {
			x, ok := a[0].(string)
			y, ok2 := a[1].(string)
			if ok && ok2 {
				return fn(x, y)
			}
			return fallback{}
		}
	}
	s1("strings.ToLower", func(s string) Val { return strings.ToLower(s) })
	s1("strings.ToUpper", func(s string) Val { return strings.ToUpper(s) })
	s1("strings.TrimSpace", func(s string) Val { return strings.TrimSpace(s) })
	s1("strings.Title", func(s string) Val { return strings.Title(s) })
	s1("strings.Fields", func(s string) Val { return mkStrs(strings.Fields(s)) })
	s2("strings.HasPrefix", func(a, b string) Val { return strings.HasPrefix(a, b) })
	s2("strings.HasSuffix", func(a, b string) Val { return strings.HasSuffix(a, b) })
	s2("strings.Contains", func(a, b string) Val { return strings.Contains(a, b) })
	s2("strings.ContainsAny", func(a, b string) Val { return strings.ContainsAny(a, b) })
	s2("strings.Index", func(a, b string) Val { return int64(strings.Index(a, b)) })
	s2("strings.LastIndex", func(a, b string) Val { return int64(strings.LastIndex(a, b)) })
	s2("strings.IndexAny", func(a, b string) Val { return int64(strings.IndexAny(a, b)) })
	s2("strings.Split", func(a, b string) Val { return mkStrs(strings.Split(a, b)) })
	s2("strings.EqualFold", func(a, b string) Val { return strings.EqualFold(a, b) })
	s2("strings.TrimPrefix", func(a, b string) Val { return strings.TrimPrefix(a, b) })
	s2("strings.TrimSuffix", func(a, b string) Val { return strings.TrimSuffix(a, b) })
	s2("strings.Trim", func(a, b string) Val { return strings.Trim(a, b) })
	s2("strings.TrimLeft", func(a, b string) Val { return strings.TrimLeft(a, b) })
	s2("strings.TrimRight", func(a, b string) Val { return strings.TrimRight(a, b) })
	s2("strings.Count", func(a, b string) Val { return int64(strings.Count(a, b)) })
	s2("strings.Compare", func(a, b string) Val { return int64(strings.Compare(a, b)) })
	s2("path.Match", func(a, b string) Val { unsupported("path.Match"); return nil })
	s1("path.Base", func(s string) Val { return path.Base(s) })
	s1("path.Dir", func(s string) Val { return path.Dir(s) })
	s1("path.Clean", func(s string) Val { return path.Clean(s) })
	N["strings.IndexByte"] = func(vm *VM, a []Val) Val {
		s, ok := a[0].(string)
		c, ok2 := a[1].(int64)
		if ok && ok2 {
			return int64(strings.IndexByte(s, byte(c)))
		}
		return vm.symIndexByte(a[0], a[1])
	}
	N["internal/bytealg.IndexByteString"] = N["strings.IndexByte"]
	N["internal/stringslite.IndexByte"] = N["strings.IndexByte"]
	N["strings.LastIndexByte"] = func(vm *VM, a []Val) Val {
		s, ok := a[0].(string)
		c, ok2 := a[1].(int64)
		if ok && ok2 {
			return int64(strings.LastIndexByte(s, byte(c)))
		}
		return fallback{}
	}
	N["strings.Replace"] = func(vm *VM, a []Val) Val {
		if conc(a...) {
			return strings.Replace(str(a[0]), str(a[1]), str(a[2]), int(a[3].(int64)))
		}
		return fallback{}
	}
	N["strings.ReplaceAll"] = func(vm *VM, a []Val) Val {
		if conc(a...) {
			return strings.ReplaceAll(str(a[0]), str(a[1]), str(a[2]))
		}
		return fallback{}
	}
	N["strings.SplitN"] = func(vm *VM, a []Val) Val {
		if conc(a...) {
			return mkStrs(strings.SplitN(str(a[0]), str(a[1]), int(a[2].(int64))))
		}
		return fallback{}
	}
	N["strings.Repeat"] = func(vm *VM, a []Val) Val {
		if conc(a...) && a[1].(int64) >= 0 && a[1].(int64) < 10000 {
			return strings.Repeat(str(a[0]), int(a[1].(int64)))
		}
		return fallback{}
	}
	N["strings.Join"] = func(vm *VM, a []Val) Val {
		ss, ok := goStrings(a[0])
		sep, ok2 := a[1].(string)
		if ok && ok2 {
			return strings.Join(ss, sep)
		}
		var r Val = ""
		for i, s := range a[0].([]Val) {
			if i > 0 {
				r = vm.strOp(addTok, r, a[1])
			}
			r = vm.strOp(addTok, r, s)
		}
		return r
	}
	N["internal/bytealg.CountString"] = func(vm *VM, a []Val) Val {
		if s, ok := a[0].(string); ok {
			return int64(strings.Count(s, string([]byte{byte(a[1].(int64))})))
		}
		unsupported("count in symbolic string")
		return nil
	}
	N["internal/bytealg.IndexString"] = func(vm *VM, a []Val) Val {
		if conc(a...) {
			return int64(strings.Index(str(a[0]), str(a[1])))
		}
		unsupported("substring search in symbolic string")
		return nil
	}
	N["internal/bytealg.Index"] = func(vm *VM, a []Val) Val {
		return N["internal/bytealg.IndexString"](vm, []Val{mkStr(a[0].([]Val)), mkStr(a[1].([]Val))})
	}
	N["internal/bytealg.IndexByte"] = func(vm *VM, a []Val) Val { return vm.symIndexByte(mkStr(a[0].([]Val)), a[1]) }
	N["internal/bytealg.Equal"] = func(vm *VM, a []Val) Val { return vm.eq(mkStr(a[0].([]Val)), mkStr(a[1].([]Val))) }
	N["bytes.Equal"] = N["internal/bytealg.Equal"]
	N["internal/bytealg.Compare"] = func(vm *VM, a []Val) Val {
		return int64(strings.Compare(str(mkStr(a[0].([]Val))), str(mkStr(a[1].([]Val)))))
	}
	N["internal/bytealg.CompareString"] = func(vm *VM, a []Val) Val {
		return int64(strings.Compare(str(a[0]), str(a[1])))
	}
	N["strconv.Itoa"] = func(vm *VM, a []Val) Val {
		if i, ok := a[0].(int64); ok {
			return strconv.Itoa(int(i))
		}
		return &OpaqueStr{parts: []Val{decInt{a[0].(*Expr), true}}}
	}
	N["strconv.FormatInt"] = func(vm *VM, a []Val) Val {
		if conc(a...) {
			return strconv.FormatInt(a[0].(int64), int(a[1].(int64)))
		}
		if b, ok := a[1].(int64); ok && b == 10 {
			return &OpaqueStr{parts: []Val{decInt{a[0].(*Expr), true}}}
		}
		return &OpaqueStr{parts: []Val{a[0]}}
	}
	N["strconv.FormatUint"] = func(vm *VM, a []Val) Val {
		if conc(a...) {
			return strconv.FormatUint(uint64(a[0].(int64)), int(a[1].(int64)))
		}
		if b, ok := a[1].(int64); ok && b == 10 {
			return &OpaqueStr{parts: []Val{decInt{a[0].(*Expr), false}}}
		}
		return &OpaqueStr{parts: []Val{a[0]}}
	}
	N["strconv.FormatBool"] = func(vm *VM, a []Val) Val {
		if b, ok := a[0].(bool); ok {
			return strconv.FormatBool(b)
		}
		if vm.branch(a[0], "formatbool") {
			return "true"
		}
		return "false"
	}
	N["strconv.FormatFloat"] = func(vm *VM, a []Val) Val {
		if conc(a...) {
			return strconv.FormatFloat(a[0].(float64), byte(a[1].(int64)), int(a[2].(int64)), int(a[3].(int64)))
		}
		if o, ok := a[0].(*OpaqueFloat); ok && conc(a[1:]...) && a[1].(int64) == 'f' && a[2].(int64) == -1 {
			return &OpaqueStr{parts: []Val{decInt{o.e, o.signed}}}
		}
		return &OpaqueStr{parts: []Val{a[0]}}
	}
	atoi := func(vm *VM, a []Val) Val {
		if d, ok := asDec(a[0]); ok && d.signed && d.e.W == 64 && (len(a) == 1 || (a[1] == Val(int64(10)) && (a[2] == Val(int64(64)) || a[2] == Val(int64(0))))) {
			return tupleV{d.e, iface{}}
		}
		return fallback{}
	}
	N["strconv.Atoi"] = atoi
	N["strconv.ParseInt"] = atoi
	N["strconv.Quote"] = func(vm *VM, a []Val) Val {
		if conc(a...) {
			return strconv.Quote(str(a[0]))
		}
		return &OpaqueStr{parts: []Val{"\"", a[0], "\""}}
	}
	N["strconv.ParseFloat"] = func(vm *VM, a []Val) Val {
		if !conc(a...) {
			if d, ok := asDec(a[0]); ok {
				vm.exactFloat(d.e, d.signed, 1<<53)
				return tupleV{&OpaqueFloat{d.e, d.signed}, iface{}}
			}
			unsupported("ParseFloat of symbolic string")
		}
		f, err := strconv.ParseFloat(str(a[0]), int(a[1].(int64)))
		if err != nil {
			return tupleV{f, vm.mkErr(err.Error())}
		}
		return tupleV{f, iface{}}
	}
	// strings.Builder (unsafe inside)
	N["(*strings.Builder).WriteString"] = func(vm *VM, a []Val) Val {
		c := sub(vm.nilChk(a[0]), 1)
		vm.set(c, appendBytes(*c, a[1]))
		n := lenOfSafe(a[1])
		return tupleV{n, iface{}}
	}
	N["(*strings.Builder).WriteByte"] = func(vm *VM, a []Val) Val {
		c := sub(vm.nilChk(a[0]), 1)
		old, _ := (*c).([]Val)
		vm.set(c, append(old[:len(old):len(old)], a[1]))
		return iface{}
	}
	N["(*strings.Builder).WriteRune"] = func(vm *VM, a []Val) Val {
		c := sub(vm.nilChk(a[0]), 1)
		switch r := a[1].(type) {
		case int64:
			vm.set(c, appendBytes(*c, string(rune(r))))
		case *Expr:
			if !vm.branch(lowerB(vm.T.Bin("bvult", r, vm.T.BV(0x80, r.W))), "ascii") {
				unsupported("non-ascii symbolic rune")
			}
			old, _ := (*c).([]Val)
			vm.set(c, append(old[:len(old):len(old)], vm.T.Ext(r, false, 8)))
		}
		return tupleV{int64(1), iface{}}
	}
	N["(*strings.Builder).Write"] = func(vm *VM, a []Val) Val {
		c := sub(vm.nilChk(a[0]), 1)
		old, _ := (*c).([]Val)
		vm.set(c, append(old[:len(old):len(old)], a[1].([]Val)...))
		return tupleV{int64(len(a[1].([]Val))), iface{}}
	}
	N["(*strings.Builder).String"] = func(vm *VM, a []Val) Val {
		c := sub(vm.nilChk(a[0]), 1)
		b, _ := (*c).([]Val)
		return builderStr(b)
	}
	N["(*strings.Builder).Len"] = func(vm *VM, a []Val) Val {
		b, _ := (*sub(vm.nilChk(a[0]), 1)).([]Val)
		return int64(len(b))
	}
	N["(*strings.Builder).Grow"] = nop
	N["(*strings.Builder).Reset"] = func(vm *VM, a []Val) Val { vm.set(sub(vm.nilChk(a[0]), 1), []Val(nil)); return nil }
	N["unicode.IsUpper"] = func(vm *VM, a []Val) Val {
		if r, ok := a[0].(int64); ok {
			return unicode.IsUpper(rune(r))
		}
		return fallback{}
	}
	N["crypto/rand.Read"] = func(vm *VM, a []Val) Val {
		for i := range a[0].([]Val) {
			vm.set(&a[0].([]Val)[i], int64(i*7%256))
		}
		return tupleV{int64(len(a[0].([]Val))), iface{}}
	}
	N["net/url.ParseRequestURI"] = func(vm *VM, a []Val) Val { unsupported("url parse"); return nil }
	registerReflect(N)
	registerFmt(N)
	registerJSON(N)
	registerMisc(N)
}

func f64(v Val) float64 {
	f, ok := v.(float64)
	if !ok {
		unsupported("symbolic float")
	}
	return f
}

func lenOfSafe(v Val) Val {
	switch x := v.(type) {
	case string:
		return int64(len(x))
	case *SymStr:
		return int64(len(x.b))
	}
	return int64(0)
}

func appendBytes(cell Val, s Val) Val {
	old, _ := cell.([]Val)
	old = old[:len(old):len(old)]
	if o, ok := s.(*OpaqueStr); ok {
		return append(old, o)
	}
	b, _ := strBytes(s)
	return append(old, b...)
}

func builderStr(b []Val) Val {
	opaque := false
	for _, x := range b {
		if _, ok := x.(*OpaqueStr); ok {
			opaque = true
		}
	}
	if !opaque {
		return mkStr(b)
	}
	var parts []Val
	run := []Val{}
	for _, x := range b {
		if o, ok := x.(*OpaqueStr); ok {
			if len(run) > 0 {
				parts = append(parts, mkStr(run))
				run = nil
			}
			parts = append(parts, o)
			continue
		}
		run = append(run, x)
	}
	if len(run) > 0 {
		parts = append(parts, mkStr(run))
	}
	return &OpaqueStr{parts}
}

func (vm *VM) symIndexByte(s Val, c Val) Val {
	b, ok := strBytes(s)
	if !ok {
		unsupported("search in formatted symbolic string")
	}
	for i, x := range b {
		if vm.branch(vm.eq(x, c), "indexbyte") {
			return int64(i)
		}
	}
	return int64(-1)
}

func (vm *VM) bindModel(e *Expr, v int64) {
	if vm.sc.model == nil {
		return
	}
	m := make(map[string]int64, len(vm.sc.model)+1)
	for k, x := range vm.sc.model {
		m[k] = x
	}
	m[e.Name] = v
	vm.sc.model = m
}

// assert discharges cond under the path condition. class marks a listed known finding.
func (vm *VM) assert(c Val, label, known string, class Val) {
	vm.St.Asserts++
	if known != "" && vm.Opt.Known[known] {
		// violations inside the listed class are known
		if cl, ok := class.(bool); !ok || cl {
			bad := vm.andV(vm.notV(c), class)
			hit := false
			switch b := bad.(type) {
			case bool:
				hit = b
			case *Expr:
				r, _ := vm.S.Check(vm.pc, b)
				hit = r == RSat
			}
			if hit {
				vm.St.Known[known]++
			}
			c = vm.notV(vm.andV(vm.notV(c), vm.notV(class)))
		}
	}
	switch x := c.(type) {
	case bool:
		vm.St.AssertConc++
		if !x {
			// the path condition itself must have a model: the solver's verdict on this path
			m := vm.sc.model
			r, mm := vm.S.Check(vm.pc, nil)
			if r == RUnsat {
				panic(pathEnd{"assume", "infeasible path at assertion"})
			}
			if r == RSat {
				m = mm
			}
			vm.recordViolation("assert", label, "", m, known)
			panic(pathEnd{"violation", label})
		}
	case *Expr:
		vm.St.AssertSym++
		r, m := vm.S.Check(vm.pc, vm.T.Not(x))
		switch r {
		case RUnknown:
			vm.St.AssertUnknown++
			panic(pathEnd{"unknown", "solver answered unknown on assertion " + label})
		case RSat:
			vm.recordViolation("assert", label, x.String(), m, known)
			ok, m2 := vm.feas(x)
			if !ok {
				panic(pathEnd{"violation", label})
			}
			vm.addPC(x)
			vm.sc.model = m2
		case RUnsat:
		}
	}
}
