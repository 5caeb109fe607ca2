package vm

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type instr func(vm *VM, f *Frame)

// Code is the decoded form of one SSA function.
type Code struct {
	fn        *ssa.Function
	name      string
	nregs     int
	nparams   int
	ins       []instr
	src       []ssa.Instruction
	recoverPC int
	nat       func(vm *VM, args []Val) Val
	isInit    bool
	compiled  atomic.Bool
	mu        sync.Mutex
	inFlow    bool
}

func (c *Code) posOf(p *Program, pc int) string {
	for i := pc; i >= 0 && i < len(c.src); i-- {
		if c.src[i] != nil && c.src[i].Pos().IsValid() {
			return p.SSA.Fset.Position(c.src[i].Pos()).String()
		}
	}
	if c.fn != nil {
		return p.SSA.Fset.Position(c.fn.Pos()).String()
	}
	return ""
}

func (p *Program) codeOf(fn *ssa.Function) *Code {
	if c, ok := p.codes.Load(fn); ok {
		return c.(*Code)
	}
	c := &Code{fn: fn, name: fn.String(), recoverPC: -1}
	if fn.Synthetic == "package initializer" {
		c.isInit = true
	}
	c.nparams = len(fn.Params)
	act, _ := p.codes.LoadOrStore(fn, c)
	return act.(*Code)
}

const (
	kReg = iota
	kConst
	kGlobal
)

type opnd struct {
	kind int8
	idx  int
	c    Val
	g    *ssa.Global
}

func (o *opnd) get(vm *VM, f *Frame) Val {
	switch o.kind {
	case kReg:
		return f.regs[o.idx]
	case kConst:
		return o.c
	}
	return vm.globalPtr(o.idx, o.g)
}

type compiler struct {
	p    *Program
	c    *Code
	regs map[ssa.Value]int
	starts map[*ssa.BasicBlock]int
}

var buildMu sync.Mutex

func (p *Program) compile(c *Code) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.compiled.Load() {
		return
	}
	fn := c.fn
	p.bindNative(c)
	if ov, ok := p.overrides[originName(fn)]; ok && ov != fn {
		// body replaced by an interpreted model
		oc := p.codeOf(ov)
		p.compile(oc)
		c.ins, c.src, c.nregs, c.nparams, c.recoverPC = oc.ins, oc.src, oc.nregs, oc.nparams, oc.recoverPC
		c.nat = oc.nat
		c.name = oc.name + " (model of " + fn.String() + ")"
		c.markCompiled()
		return
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		buildMu.Lock()
		fn.Pkg.Build()
		buildMu.Unlock()
	}
	if fn.Blocks == nil {
		c.markCompiled()
		return
	}
	cc := &compiler{p: p, c: c, regs: map[ssa.Value]int{}, starts: map[*ssa.BasicBlock]int{}}
	n := 0
	for _, v := range fn.Params {
		cc.regs[v] = n
		n++
	}
	for _, v := range fn.FreeVars {
		cc.regs[v] = n
		n++
	}
	pos := 0
	for _, b := range fn.Blocks {
		cc.starts[b] = pos
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				cc.regs[v] = n
				n++
			}
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			default:
				pos++
			}
		}
	}
	c.nregs = n
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			c.ins = append(c.ins, cc.instr(in))
			c.src = append(c.src, in)
		}
	}
	if fn.Recover != nil {
		c.recoverPC = cc.starts[fn.Recover]
	}
	c.markCompiled()
}

var memBarrier int64

func (c *Code) markCompiled() {
	_ = memBarrier
	c.compiled.Store(true)
}

func originName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (cc *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{kind: kConst, c: constVal(x)}
	case *ssa.Global:
		return opnd{kind: kGlobal, idx: cc.p.globalIndex(x), g: x}
	case *ssa.Function:
		return opnd{kind: kConst, c: cc.p.fnVal(x)}
	case *ssa.Builtin:
		name := x.Name()
		return opnd{kind: kConst, c: &Fn{name: "builtin " + name, nat: func(vm *VM, args []Val) Val {
			unsupported("builtin %s as value", name)
			return nil
		}}}
	}
	r, ok := cc.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %v", v, cc.c.name))
	}
	return opnd{kind: kReg, idx: r}
}

var fnVals sync.Map

func (p *Program) fnVal(fn *ssa.Function) *Fn {
	if f, ok := fnVals.Load(fn); ok {
		return f.(*Fn)
	}
	f, _ := fnVals.LoadOrStore(fn, &Fn{code: p.codeOf(fn)})
	return f.(*Fn)
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			if w, signed, ok := intInfo(t); ok {
				v := constant.ToInt(c.Value)
				if i, exact := constant.Int64Val(v); exact {
					return normInt(i, w, signed)
				}
				u, _ := constant.Uint64Val(v)
				return int64(u)
			}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			w, _ := floatInfo(t)
			return roundF(f, w)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		case b.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	}
	panic(fmt.Sprintf("constVal %v", c))
}

type phiMove struct {
	dst int
	src opnd
}

func (cc *compiler) edge(from, to *ssa.BasicBlock) (int, []phiMove) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	var mv []phiMove
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		mv = append(mv, phiMove{cc.regs[ph], cc.op(ph.Edges[idx])})
	}
	return cc.starts[to], mv
}

// edgeN handles the rare case of both successors being the same block.
func (cc *compiler) edgeN(from, to *ssa.BasicBlock, which int) (int, []phiMove) {
	if len(from.Succs) == 2 && from.Succs[0] == from.Succs[1] {
		k := 0
		idx := -1
		for i, p := range to.Preds {
			if p == from {
				if k == which {
					idx = i
				}
				k++
			}
		}
		var mv []phiMove
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			mv = append(mv, phiMove{cc.regs[ph], cc.op(ph.Edges[idx])})
		}
		return cc.starts[to], mv
	}
	return cc.edge(from, to)
}

func doMoves(vm *VM, f *Frame, mv []phiMove) {
	switch len(mv) {
	case 0:
	case 1:
		f.regs[mv[0].dst] = mv[0].src.get(vm, f)
	default:
		var buf [8]Val
		tmp := buf[:0]
		for i := range mv {
			tmp = append(tmp, mv[i].src.get(vm, f))
		}
		for i := range mv {
			f.regs[mv[i].dst] = tmp[i]
		}
	}
}

func (cc *compiler) instr(in ssa.Instruction) instr {
	switch x := in.(type) {
	case *ssa.Alloc:
		dst := cc.regs[x]
		et := x.Type().Underlying().(*types.Pointer).Elem()
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
			return func(vm *VM, f *Frame) {
				p := new(Val)
				*p = zero(et)
				f.regs[dst] = p
			}
		}
		z := zero(et)
		return func(vm *VM, f *Frame) {
			p := new(Val)
			*p = z
			f.regs[dst] = p
		}
	case *ssa.BinOp:
		return cc.binop(x)
	case *ssa.UnOp:
		return cc.unop(x)
	case *ssa.Call:
		return cc.call(x, &x.Call, cc.regs[x])
	case *ssa.Go:
		return cc.goDefer(&x.Call, true)
	case *ssa.Defer:
		return cc.goDefer(&x.Call, false)
	case *ssa.ChangeInterface:
		dst, a := cc.regs[x], cc.op(x.X)
		return func(vm *VM, f *Frame) { f.regs[dst] = a.get(vm, f) }
	case *ssa.ChangeType:
		dst, a := cc.regs[x], cc.op(x.X)
		return func(vm *VM, f *Frame) { f.regs[dst] = a.get(vm, f) }
	case *ssa.Convert:
		dst, a := cc.regs[x], cc.op(x.X)
		from, to := x.X.Type(), x.Type()
		return func(vm *VM, f *Frame) { f.regs[dst] = vm.convert(a.get(vm, f), from, to) }
	case *ssa.MultiConvert:
		dst, a := cc.regs[x], cc.op(x.X)
		from, to := x.X.Type(), x.Type()
		return func(vm *VM, f *Frame) { f.regs[dst] = vm.convert(a.get(vm, f), from, to) }
	case *ssa.SliceToArrayPointer:
		dst, a := cc.regs[x], cc.op(x.X)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		return func(vm *VM, f *Frame) {
			s, _ := a.get(vm, f).([]Val)
			n := int(at.Len())
			if len(s) < n {
				vm.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
			}
			if s == nil {
				f.regs[dst] = (*Val)(nil)
				return
			}
			p := new(Val)
			*p = arrayV(s[:n:n])
			f.regs[dst] = p
		}
	case *ssa.Extract:
		dst, a, i := cc.regs[x], cc.op(x.Tuple), x.Index
		return func(vm *VM, f *Frame) { f.regs[dst] = a.get(vm, f).(tupleV)[i] }
	case *ssa.Field:
		dst, a, i := cc.regs[x], cc.op(x.X), x.Field
		return func(vm *VM, f *Frame) { f.regs[dst] = a.get(vm, f).(structV)[i] }
	case *ssa.FieldAddr:
		dst, a, i := cc.regs[x], cc.op(x.X), x.Field
		return func(vm *VM, f *Frame) {
			p, ok := a.get(vm, f).(*Val)
			if !ok {
				unsupported("field address of %T", a.get(vm, f))
			}
			if p == nil {
				vm.rtPanic("invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(structV)
			if !ok {
				unsupported("field address through %T (unsafe cast?)", *p)
			}
			f.regs[dst] = &s[i]
		}
	case *ssa.If:
		c := cc.op(x.Cond)
		b := x.Block()
		pcT, mvT := cc.edgeN(b, b.Succs[0], 0)
		pcF, mvF := cc.edgeN(b, b.Succs[1], 1)
		return func(vm *VM, f *Frame) {
			v := c.get(vm, f)
			t, ok := v.(bool)
			if !ok {
				t = vm.branch(v, "if")
			}
			if t {
				doMoves(vm, f, mvT)
				f.pc = pcT
			} else {
				doMoves(vm, f, mvF)
				f.pc = pcF
			}
		}
	case *ssa.Jump:
		b := x.Block()
		pc, mv := cc.edge(b, b.Succs[0])
		return func(vm *VM, f *Frame) {
			doMoves(vm, f, mv)
			f.pc = pc
		}
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
			return func(vm *VM, f *Frame) { vm.doReturn(nil) }
		case 1:
			r := cc.op(x.Results[0])
			return func(vm *VM, f *Frame) { vm.doReturn(r.get(vm, f)) }
		}
		rs := make([]opnd, len(x.Results))
		for i, r := range x.Results {
			rs[i] = cc.op(r)
		}
		return func(vm *VM, f *Frame) {
			t := make(tupleV, len(rs))
			for i := range rs {
				t[i] = rs[i].get(vm, f)
			}
			vm.doReturn(t)
		}
	case *ssa.RunDefers:
		return func(vm *VM, f *Frame) {
			n := len(f.defers)
			if n == 0 {
				return
			}
			d := f.defers[n-1]
			if d.fn == nil {
				f.defers = f.defers[:n-1 : n-1]
				f.pc = vm.curPC
				vm.rtPanic("invalid memory address or nil pointer dereference")
			}
			if d.fn.nat != nil || vm.natOf(d.fn.code) != nil {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(goPanic); ok {
								f.defers = f.defers[:n-1 : n-1]
							}
							panic(r)
						}
					}()
					vm.call(d.fn, d.args, -1)
				}()
				f.defers = f.defers[:n-1 : n-1]
				f.pc = vm.curPC
				return
			}
			f.defers = f.defers[:n-1 : n-1]
			f.pc = vm.curPC
			vm.call(d.fn, d.args, -1)
			vm.g.frames[len(vm.g.frames)-1].isDefer = true
		}
	case *ssa.Panic:
		a := cc.op(x.X)
		return func(vm *VM, f *Frame) {
			v := a.get(vm, f)
			if i, ok := v.(iface); ok && i.t == nil {
				v = iface{vm.P.rtErrType, structV{"panic called with nil argument (use GODEBUG=panicnil=1 to disable)"}}
			}
			panic(goPanic{v})
		}
	case *ssa.Index:
		dst, a, i := cc.regs[x], cc.op(x.X), cc.op(x.Index)
		iw, is, _ := intInfo(x.Index.Type())
		return func(vm *VM, f *Frame) {
			switch s := a.get(vm, f).(type) {
			case arrayV:
				f.regs[dst] = copyVal(s[vm.index(i.get(vm, f), iw, is, len(s))])
			case string:
				f.regs[dst] = int64(s[vm.index(i.get(vm, f), iw, is, len(s))])
			case *SymStr:
				f.regs[dst] = s.b[vm.index(i.get(vm, f), iw, is, len(s.b))]
			default:
				unsupported("index of %T", s)
			}
		}
	case *ssa.IndexAddr:
		dst, a, i := cc.regs[x], cc.op(x.X), cc.op(x.Index)
		iw, is, _ := intInfo(x.Index.Type())
		return func(vm *VM, f *Frame) {
			switch s := a.get(vm, f).(type) {
			case []Val:
				f.regs[dst] = &s[vm.index(i.get(vm, f), iw, is, len(s))]
			case *Val:
				if s == nil {
					vm.rtPanic("invalid memory address or nil pointer dereference")
				}
				arr, ok := (*s).(arrayV)
				if !ok {
					unsupported("index address through %T", *s)
				}
				f.regs[dst] = &arr[vm.index(i.get(vm, f), iw, is, len(arr))]
			default:
				unsupported("index address of %T", s)
			}
		}
	case *ssa.Lookup:
		dst, a, k := cc.regs[x], cc.op(x.X), cc.op(x.Index)
		if isStringT(x.X.Type()) {
			iw, is, _ := intInfo(x.Index.Type())
			return func(vm *VM, f *Frame) {
				switch s := a.get(vm, f).(type) {
				case string:
					f.regs[dst] = int64(s[vm.index(k.get(vm, f), iw, is, len(s))])
				case *SymStr:
					f.regs[dst] = s.b[vm.index(k.get(vm, f), iw, is, len(s.b))]
				default:
					unsupported("string index of %T", s)
				}
			}
		}
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		commaOk := x.CommaOk
		return func(vm *VM, f *Frame) {
			m, _ := a.get(vm, f).(*mapV)
			v, ok := vm.mapGet(m, k.get(vm, f))
			if ok {
				v = copyVal(v)
			} else {
				v = zero(vt)
			}
			if commaOk {
				f.regs[dst] = tupleV{v, ok}
			} else {
				f.regs[dst] = v
			}
		}
	case *ssa.MakeChan:
		dst, a := cc.regs[x], cc.op(x.Size)
		return func(vm *VM, f *Frame) {
			f.regs[dst] = &chanV{cap: int(vm.concInt(a.get(vm, f), 64, true))}
		}
	case *ssa.MakeClosure:
		dst := cc.regs[x]
		fn := x.Fn.(*ssa.Function)
		code := cc.p.codeOf(fn)
		bs := make([]opnd, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = cc.op(b)
		}
		return func(vm *VM, f *Frame) {
			c := &Fn{code: code, free: make([]Val, len(bs))}
			for i := range bs {
				c.free[i] = bs[i].get(vm, f)
			}
			f.regs[dst] = c
		}
	case *ssa.MakeInterface:
		dst, a := cc.regs[x], cc.op(x.X)
		t := canon(x.X.Type())
		return func(vm *VM, f *Frame) { f.regs[dst] = iface{t, a.get(vm, f)} }
	case *ssa.MakeMap:
		dst := cc.regs[x]
		inFlow := cc.c.fn.Pkg != nil && cc.p.isFlow(cc.c.fn)
		return func(vm *VM, f *Frame) { f.regs[dst] = &mapV{rot: inFlow} }
	case *ssa.MakeSlice:
		dst, l, c := cc.regs[x], cc.op(x.Len), cc.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		lw, ls, _ := intInfo(x.Len.Type())
		cw, cs, _ := intInfo(x.Cap.Type())
		return func(vm *VM, f *Frame) {
			n := vm.concInt(l.get(vm, f), lw, ls)
			cp := vm.concInt(c.get(vm, f), cw, cs)
			if n < 0 || n > cp {
				vm.rtPanic("makeslice: len out of range")
			}
			if cp > 1<<22 {
				unsupported("slice of %d elements", cp)
			}
			s := make([]Val, cp)
			for i := range s {
				s[i] = zero(et)
			}
			f.regs[dst] = s[:n]
		}
	case *ssa.MapUpdate:
		m, k, v := cc.op(x.Map), cc.op(x.Key), cc.op(x.Value)
		return func(vm *VM, f *Frame) {
			mm, _ := m.get(vm, f).(*mapV)
			if mm == nil {
				vm.rtPanic("assignment to entry in nil map")
			}
			vm.mapSet(mm, k.get(vm, f), copyVal(v.get(vm, f)))
		}
	case *ssa.Range:
		dst, a := cc.regs[x], cc.op(x.X)
		inFlow := cc.p.isFlow(cc.c.fn)
		if isStringT(x.X.Type()) {
			return func(vm *VM, f *Frame) {
				p := new(Val)
				*p = int64(0)
				f.regs[dst] = tupleV{a.get(vm, f), p}
			}
		}
		return func(vm *VM, f *Frame) {
			m, _ := a.get(vm, f).(*mapV)
			f.regs[dst] = vm.newIter(m, inFlow)
		}
	case *ssa.Next:
		dst, a := cc.regs[x], cc.op(x.Iter)
		if x.IsString {
			return func(vm *VM, f *Frame) {
				it := a.get(vm, f).(tupleV)
				f.regs[dst] = vm.strNext(it[0], it[1].(*Val))
			}
		}
		tt := x.Type().(*types.Tuple)
		kz, vz := safeZero(tt.At(1).Type()), safeZero(tt.At(2).Type())
		return func(vm *VM, f *Frame) {
			it := a.get(vm, f).(*mapIter)
			k, v, ok := vm.iterNext(it)
			if !ok {
				f.regs[dst] = tupleV{false, kz, vz}
				return
			}
			f.regs[dst] = tupleV{true, k, copyVal(v)}
		}
	case *ssa.Select:
		return cc.sel(x)
	case *ssa.Send:
		ch, v := cc.op(x.Chan), cc.op(x.X)
		return func(vm *VM, f *Frame) {
			c, _ := ch.get(vm, f).(*chanV)
			vm.chanSend(c, copyVal(v.get(vm, f)))
		}
	case *ssa.Slice:
		return cc.slice(x)
	case *ssa.Store:
		a, v := cc.op(x.Addr), cc.op(x.Val)
		return func(vm *VM, f *Frame) {
			p, ok := a.get(vm, f).(*Val)
			if !ok {
				unsupported("store through %T", a.get(vm, f))
			}
			vm.store(p, copyVal(v.get(vm, f)))
		}
	case *ssa.TypeAssert:
		return cc.typeAssert(x)
	}
	msg := fmt.Sprintf("instruction %T", in)
	return func(vm *VM, f *Frame) { unsupported("%s", msg) }
}

func safeZero(t types.Type) (v Val) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func (p *Program) isFlow(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	return hasPrefix(fn.Pkg.Pkg.Path(), p.FlowPrefix)
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func (cc *compiler) typeAssert(x *ssa.TypeAssert) instr {
	dst, a := cc.regs[x], cc.op(x.X)
	at := canon(x.AssertedType)
	commaOk := x.CommaOk
	ift := x.X.Type()
	toIface := isIface(at)
	var it *types.Interface
	if toIface {
		it = at.Underlying().(*types.Interface)
	}
	var z Val
	if commaOk {
		z = zero(at)
	}
	return func(vm *VM, f *Frame) {
		v, ok := a.get(vm, f).(iface)
		if !ok {
			unsupported("type assertion on %T", a.get(vm, f))
		}
		good := false
		if v.t != nil {
			if toIface {
				good = vm.P.implements(v.t, it)
			} else {
				good = v.t == at || canon(v.t) == at
			}
		}
		if good {
			var r Val = v.v
			if toIface {
				r = v
			}
			if commaOk {
				f.regs[dst] = tupleV{r, true}
			} else {
				f.regs[dst] = r
			}
			return
		}
		if commaOk {
			f.regs[dst] = tupleV{z, false}
			return
		}
		msg := "interface conversion: "
		switch {
		case toIface && v.t == nil:
			msg += "interface is nil, not " + typeString(at)
		case toIface:
			msg += typeString(v.t) + " is not " + typeString(at)
			if m, _ := types.MissingMethod(v.t, it, true); m != nil {
				msg += ": missing method " + m.Name()
			}
		case v.t == nil:
			msg += typeString(ift) + " is nil, not " + typeString(at)
		default:
			msg += typeString(ift) + " is " + typeString(v.t) + ", not " + typeString(at)
		}
		panic(goPanic{iface{vm.P.rtErrType, structV{msg}}})
	}
}

type implKey struct {
	t types.Type
	i *types.Interface
}

var implCache sync.Map

func (p *Program) implements(t types.Type, it *types.Interface) bool {
	k := implKey{canon(t), it}
	if r, ok := implCache.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t, it)
	implCache.Store(k, r)
	return r
}

// callee resolution --------------------------------------------------

func (cc *compiler) call(site ssa.CallInstruction, c *ssa.CallCommon, dst int) instr {
	if c.IsInvoke() {
		recv := cc.op(c.Value)
		args := cc.ops(c.Args)
		m := c.Method
		return func(vm *VM, f *Frame) {
			fn, av := vm.invoke(recv.get(vm, f), m, args, f)
			vm.call(fn, av, dst)
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return cc.builtin(b, c, dst)
	}
	args := cc.ops(c.Args)
	if fn := c.StaticCallee(); fn != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); !ok {
			fv := cc.p.fnVal(fn)
			return func(vm *VM, f *Frame) { vm.call(fv, getArgs(vm, f, args), dst) }
		} else {
			_ = mc
		}
	}
	fo := cc.op(c.Value)
	return func(vm *VM, f *Frame) {
		fn, ok := fo.get(vm, f).(*Fn)
		if !ok {
			unsupported("call of %T", fo.get(vm, f))
		}
		vm.call(fn, getArgs(vm, f, args), dst)
	}
}

func (cc *compiler) ops(vs []ssa.Value) []opnd {
	o := make([]opnd, len(vs))
	for i, v := range vs {
		o[i] = cc.op(v)
	}
	return o
}

func getArgs(vm *VM, f *Frame, ops []opnd) []Val {
	if len(ops) == 0 {
		return nil
	}
	a := make([]Val, len(ops))
	for i := range ops {
		a[i] = ops[i].get(vm, f)
	}
	return a
}

func (vm *VM) invoke(rv Val, m *types.Func, args []opnd, f *Frame) (*Fn, []Val) {
	r, ok := rv.(iface)
	if !ok {
		unsupported("invoke on %T", rv)
	}
	if r.t == nil {
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	fn := vm.P.method(r.t, m)
	if fn == nil {
		unsupported("no method %s on %v", m.Name(), r.t)
	}
	av := make([]Val, len(args)+1)
	av[0] = r.v
	for i := range args {
		av[i+1] = args[i].get(vm, f)
	}
	return fn, av
}

func (p *Program) method(t types.Type, m *types.Func) *Fn {
	k := methKey{canon(t), m.Name(), nil}
	if !m.Exported() {
		k.pkg = m.Pkg()
	}
	if r, ok := p.methods.Load(k); ok {
		return r.(*Fn)
	}
	buildMu.Lock()
	fn := p.SSA.LookupMethod(t, m.Pkg(), m.Name())
	buildMu.Unlock()
	if fn == nil {
		return nil
	}
	f := p.fnVal(fn)
	p.methods.Store(k, f)
	return f
}

func (cc *compiler) goDefer(c *ssa.CallCommon, isGo bool) instr {
	var mk func(vm *VM, f *Frame) (*Fn, []Val)
	args := cc.ops(c.Args)
	if c.IsInvoke() {
		recv := cc.op(c.Value)
		m := c.Method
		mk = func(vm *VM, f *Frame) (*Fn, []Val) { return vm.invoke(recv.get(vm, f), m, args, f) }
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		name := b.Name()
		mk = func(vm *VM, f *Frame) (*Fn, []Val) {
			av := getArgs(vm, f, args)
			return &Fn{name: "builtin " + name, nat: func(vm *VM, a []Val) Val {
				return vm.builtinVal(name, a)
			}}, av
		}
	} else {
		fo := cc.op(c.Value)
		mk = func(vm *VM, f *Frame) (*Fn, []Val) {
			fn, ok := fo.get(vm, f).(*Fn)
			if !ok {
				unsupported("go/defer of %T", fo.get(vm, f))
			}
			return fn, getArgs(vm, f, args)
		}
	}
	if isGo {
		return func(vm *VM, f *Frame) {
			fn, av := mk(vm, f)
			if fn == nil {
				vm.rtPanic("go of nil func value")
			}
			vm.spawn(fn, av)
		}
	}
	return func(vm *VM, f *Frame) {
		fn, av := mk(vm, f)
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], deferRec{fn, av})
	}
}

func (vm *VM) spawn(fn *Fn, av []Val) {
	g := &Gor{id: vm.sc.nGor}
	if fn.nat != nil || vm.natOf(fn.code) != nil {
		unsupported("go statement on native %s", fn.name)
	}
	vm.sc.nGor++
	save := vm.g
	vm.gors = append(vm.gors[:len(vm.gors):len(vm.gors)], g)
	vm.g = g
	vm.call(fn, av, -1)
	vm.g = save
}

func (cc *compiler) slice(x *ssa.Slice) instr {
	dst, a := cc.regs[x], cc.op(x.X)
	var lo, hi, mx *opnd
	if x.Low != nil {
		o := cc.op(x.Low)
		lo = &o
	}
	if x.High != nil {
		o := cc.op(x.High)
		hi = &o
	}
	if x.Max != nil {
		o := cc.op(x.Max)
		mx = &o
	}
	return func(vm *VM, f *Frame) {
		v := a.get(vm, f)
		var l, h, m int64 = 0, -1, -1
		if lo != nil {
			l = vm.concInt(lo.get(vm, f), 64, true)
		}
		if hi != nil {
			h = vm.concInt(hi.get(vm, f), 64, true)
			if h < 0 {
				vm.rtPanic("slice bounds out of range")
			}
		}
		if mx != nil {
			m = vm.concInt(mx.get(vm, f), 64, true)
		}
		chk := func(n, c int64) {
			if h < 0 {
				h = n
			}
			if m < 0 {
				m = c
			}
			if l < 0 || l > h || h > m || m > c {
				vm.rtPanic("slice bounds out of range")
			}
		}
		switch s := v.(type) {
		case string:
			n := int64(len(s))
			chk(n, n)
			f.regs[dst] = s[l:h]
		case *SymStr:
			n := int64(len(s.b))
			chk(n, n)
			f.regs[dst] = mkStr(s.b[l:h])
		case []Val:
			chk(int64(len(s)), int64(cap(s)))
			f.regs[dst] = s[l:h:m]
		case *Val:
			if s == nil {
				vm.rtPanic("invalid memory address or nil pointer dereference")
			}
			arr := (*s).(arrayV)
			chk(int64(len(arr)), int64(len(arr)))
			f.regs[dst] = []Val(arr)[l:h:m]
		default:
			unsupported("slice of %T", v)
		}
	}
}

var _ = token.ADD
