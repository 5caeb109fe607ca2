package vm

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (vm *VM) lift(v Val, w int) *Expr {
	switch x := v.(type) {
	case *Expr:
		return x
	case int64:
		return vm.T.BV(x, w)
	case bool:
		return vm.T.Bool(x)
	}
	unsupported("lift of %T", v)
	return nil
}

// lowerI turns constant expressions back into concrete ints.
func lowerI(e *Expr, w int, signed bool) Val {
	if e.isConst() {
		return normInt(e.K, w, signed)
	}
	return e
}

func lowerB(e *Expr) Val {
	if e.isConst() {
		return e.K != 0
	}
	return e
}

func (vm *VM) notV(v Val) Val {
	switch x := v.(type) {
	case bool:
		return !x
	case *Expr:
		return lowerB(vm.T.Not(x))
	}
	unsupported("not of %T", v)
	return nil
}

func (vm *VM) andV(a, b Val) Val {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return lowerB(vm.T.And(a.(*Expr), b.(*Expr)))
}

func (vm *VM) index(i Val, w int, signed bool, n int) int {
	if x, ok := i.(int64); ok {
		if x < 0 {
			vm.rtPanic(fmt.Sprintf("index out of range [%d]", x))
		}
		if x >= int64(n) {
			vm.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return int(x)
	}
	e := i.(*Expr)
	in := vm.T.Bin("bvult", vm.T.Ext(e, signed, 64), vm.T.BV(int64(n), 64))
	if !vm.branch(lowerB(in), "bounds") {
		vm.rtPanic("index out of range")
	}
	return int(vm.concInt(e, w, signed))
}

func (cc *compiler) binop(x *ssa.BinOp) instr {
	dst := cc.regs[x]
	a, b := cc.op(x.X), cc.op(x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL:
		ty := x.Y.Type()
		_ = ty
		return func(vm *VM, f *Frame) { f.regs[dst] = vm.eq(a.get(vm, f), b.get(vm, f)) }
	case token.NEQ:
		return func(vm *VM, f *Frame) { f.regs[dst] = vm.notV(vm.eq(a.get(vm, f), b.get(vm, f))) }
	}
	if w, signed, ok := intInfo(t); ok {
		if x.Op == token.SHL || x.Op == token.SHR {
			w2, s2, _ := intInfo(x.Y.Type())
			return func(vm *VM, f *Frame) {
				f.regs[dst] = vm.shift(x.Op, a.get(vm, f), b.get(vm, f), w, signed, w2, s2)
			}
		}
		op := x.Op
		return func(vm *VM, f *Frame) {
			av, bv := a.get(vm, f), b.get(vm, f)
			if p, ok := av.(int64); ok {
				if q, ok := bv.(int64); ok {
					f.regs[dst] = vm.intOp(op, p, q, w, signed)
					return
				}
			}
			f.regs[dst] = vm.symIntOp(op, av, bv, w, signed)
		}
	}
	if fw, ok := floatInfo(t); ok {
		op := x.Op
		return func(vm *VM, f *Frame) {
			av, ok1 := a.get(vm, f).(float64)
			bv, ok2 := b.get(vm, f).(float64)
			if !ok1 || !ok2 {
				f.regs[dst] = vm.symFloatOp(op, a.get(vm, f), b.get(vm, f))
				return
			}
			switch op {
			case token.ADD:
				f.regs[dst] = roundF(av+bv, fw)
			case token.SUB:
				f.regs[dst] = roundF(av-bv, fw)
			case token.MUL:
				f.regs[dst] = roundF(av*bv, fw)
			case token.QUO:
				f.regs[dst] = roundF(av/bv, fw)
			case token.LSS:
				f.regs[dst] = av < bv
			case token.LEQ:
				f.regs[dst] = av <= bv
			case token.GTR:
				f.regs[dst] = av > bv
			case token.GEQ:
				f.regs[dst] = av >= bv
			default:
				unsupported("float op %v", op)
			}
		}
	}
	if isStringT(t) {
		op := x.Op
		return func(vm *VM, f *Frame) { f.regs[dst] = vm.strOp(op, a.get(vm, f), b.get(vm, f)) }
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		op := x.Op
		return func(vm *VM, f *Frame) {
			av, bv := a.get(vm, f), b.get(vm, f)
			switch op {
			case token.AND, token.LAND:
				f.regs[dst] = vm.andV(av, bv)
			case token.OR, token.LOR:
				f.regs[dst] = vm.notV(vm.andV(vm.notV(av), vm.notV(bv)))
			default:
				unsupported("bool op %v", op)
			}
		}
	}
	return func(vm *VM, f *Frame) { unsupported("binop %v on %v", x.Op, t) }
}

func (vm *VM) intOp(op token.Token, p, q int64, w int, signed bool) Val {
	switch op {
	case token.ADD:
		return normInt(p+q, w, signed)
	case token.SUB:
		return normInt(p-q, w, signed)
	case token.MUL:
		return normInt(p*q, w, signed)
	case token.QUO, token.REM:
		if q == 0 {
			vm.rtPanic("integer divide by zero")
		}
		if signed {
			if q == -1 {
				if op == token.QUO {
					return normInt(-p, w, signed)
				}
				return int64(0)
			}
			if op == token.QUO {
				return normInt(p/q, w, signed)
			}
			return normInt(p%q, w, signed)
		}
		if op == token.QUO {
			return normInt(int64(uint64(p)/uint64(q)), w, signed)
		}
		return normInt(int64(uint64(p)%uint64(q)), w, signed)
	case token.AND:
		return p & q
	case token.OR:
		return p | q
	case token.XOR:
		return normInt(p^q, w, signed)
	case token.AND_NOT:
		return normInt(p&^q, w, signed)
	case token.LSS:
		if signed {
			return p < q
		}
		return uint64(p) < uint64(q)
	case token.LEQ:
		if signed {
			return p <= q
		}
		return uint64(p) <= uint64(q)
	case token.GTR:
		if signed {
			return p > q
		}
		return uint64(p) > uint64(q)
	case token.GEQ:
		if signed {
			return p >= q
		}
		return uint64(p) >= uint64(q)
	}
	unsupported("int op %v", op)
	return nil
}

func (vm *VM) symIntOp(op token.Token, av, bv Val, w int, signed bool) Val {
	T := vm.T
	a, b := vm.lift(av, w), vm.lift(bv, w)
	s := func(n string) Val { return lowerI(T.Bin(n, a, b), w, signed) }
	lt, le := "bvult", "bvule"
	if signed {
		lt, le = "bvslt", "bvsle"
	}
	switch op {
	case token.ADD:
		return s("bvadd")
	case token.SUB:
		return s("bvsub")
	case token.MUL:
		return s("bvmul")
	case token.QUO, token.REM:
		if vm.branch(lowerB(T.Eq(b, T.BV(0, w))), "div0") {
			vm.rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			if signed {
				return s("bvsdiv")
			}
			return s("bvudiv")
		}
		if signed {
			return s("bvsrem")
		}
		return s("bvurem")
	case token.AND:
		return s("bvand")
	case token.OR:
		return s("bvor")
	case token.XOR:
		return s("bvxor")
	case token.AND_NOT:
		return lowerI(T.Bin("bvand", a, T.BVNot(b)), w, signed)
	case token.LSS:
		return lowerB(T.Bin(lt, a, b))
	case token.LEQ:
		return lowerB(T.Bin(le, a, b))
	case token.GTR:
		return lowerB(T.Bin(lt, b, a))
	case token.GEQ:
		return lowerB(T.Bin(le, b, a))
	}
	unsupported("symbolic int op %v", op)
	return nil
}

func (vm *VM) shift(op token.Token, av, bv Val, w int, signed bool, w2 int, s2 bool) Val {
	if q, ok := bv.(int64); ok {
		if s2 && q < 0 {
			vm.rtPanic("negative shift amount")
		}
		if p, ok := av.(int64); ok {
			u := uint64(q)
			if op == token.SHL {
				if u >= 64 {
					return int64(0)
				}
				return normInt(p<<u, w, signed)
			}
			if signed {
				if u >= 64 {
					u = 63
				}
				return p >> u
			}
			if u >= 64 {
				return int64(0)
			}
			return normInt(int64(uint64(p)>>u), w, signed)
		}
		T := vm.T
		if uint64(q) >= uint64(w) {
			q = int64(w)
		}
		n := "bvshl"
		if op == token.SHR {
			n = "bvlshr"
			if signed {
				n = "bvashr"
			}
		}
		return lowerI(T.Bin(n, av.(*Expr), T.BV(q, w)), w, signed)
	}
	q := vm.concInt(bv, w2, s2)
	return vm.shift(op, av, q, w, signed, w2, s2)
}

func (vm *VM) symFloatOp(op token.Token, a, b Val) Val {
	unsupported("symbolic float op %v", op)
	return nil
}

func mkStr(b []Val) Val {
	conc := true
	for _, x := range b {
		if _, ok := x.(int64); !ok {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, x := range b {
			bs[i] = byte(x.(int64))
		}
		return string(bs)
	}
	return &SymStr{append([]Val(nil), b...)}
}

func strBytes(v Val) ([]Val, bool) {
	switch x := v.(type) {
	case string:
		b := make([]Val, len(x))
		for i := 0; i < len(x); i++ {
			b[i] = int64(x[i])
		}
		return b, true
	case *SymStr:
		return x.b, true
	}
	return nil, false
}

func (vm *VM) strOp(op token.Token, a, b Val) Val {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			switch op {
			case token.ADD:
				return x + y
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			case token.GEQ:
				return x >= y
			}
		}
	}
	if op == token.ADD {
		if x, ok := a.(string); ok && x == "" {
			return b
		}
		if y, ok := b.(string); ok && y == "" {
			return a
		}
		_, o1 := a.(*OpaqueStr)
		_, o2 := b.(*OpaqueStr)
		if o1 || o2 {
			return &OpaqueStr{parts: []Val{a, b}}
		}
		x, _ := strBytes(a)
		y, _ := strBytes(b)
		return mkStr(append(append([]Val(nil), x...), y...))
	}
	x, ok1 := strBytes(a)
	y, ok2 := strBytes(b)
	if !ok1 || !ok2 {
		unsupported("comparison of formatted symbolic string")
	}
	switch op {
	case token.GTR:
		return vm.strLess(y, x, false)
	case token.LSS:
		return vm.strLess(x, y, false)
	case token.LEQ:
		return vm.strLess(x, y, true)
	case token.GEQ:
		return vm.strLess(y, x, true)
	}
	unsupported("string op %v", op)
	return nil
}

func (vm *VM) strLess(x, y []Val, orEq bool) Val {
	T := vm.T
	var rec func(i int) *Expr
	rec = func(i int) *Expr {
		if i >= len(x) {
			if i >= len(y) {
				return T.Bool(orEq)
			}
			return T.Bool(true)
		}
		if i >= len(y) {
			return T.Bool(false)
		}
		a, b := vm.lift(x[i], 8), vm.lift(y[i], 8)
		return T.Ite(T.Bin("bvult", a, b), T.Bool(true), T.And(T.Eq(a, b), rec(i+1)))
	}
	return lowerB(rec(0))
}

// eq compares two values, giving bool or a symbolic condition.
func (vm *VM) eq(a, b Val) Val {
	switch x := a.(type) {
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case *Expr:
			return lowerB(vm.T.Eq(y, vm.T.BV(x, y.W)))
		}
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *Expr:
			return lowerB(vm.T.Eq(y, vm.T.Bool(x)))
		}
	case *Expr:
		switch y := b.(type) {
		case *Expr:
			return lowerB(vm.T.Eq(x, y))
		case int64:
			return lowerB(vm.T.Eq(x, vm.T.BV(y, x.W)))
		case bool:
			return lowerB(vm.T.Eq(x, vm.T.Bool(y)))
		}
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
		if y, ok := b.(*OpaqueFloat); ok {
			return vm.eqFloat(y, x)
		}
	case *OpaqueFloat:
		if y, ok := b.(float64); ok {
			return vm.eqFloat(x, y)
		}
		if y, ok := b.(*OpaqueFloat); ok && x.e.W == y.e.W && x.signed == y.signed {
			return lowerB(vm.T.Eq(x.e, y.e))
		}
		unsupported("symbolic float equality")
	case string:
		switch y := b.(type) {
		case string:
			return x == y
		case *SymStr:
			return vm.eqSymStr(y, x)
		case *OpaqueStr:
			return vm.eqOpaque(y, x)
		}
	case *SymStr:
		switch y := b.(type) {
		case string:
			return vm.eqSymStr(x, y)
		case *SymStr:
			if x == y {
				return true
			}
			if len(x.b) != len(y.b) {
				return false
			}
			return vm.eqSeq(x.b, y.b)
		case *OpaqueStr:
			unsupported("comparison of formatted symbolic string")
		}
	case *OpaqueStr:
		if y, ok := b.(*OpaqueStr); ok {
			if x == y {
				return true
			}
			return vm.eqOpaque2(x, y)
		}
		if y, ok := b.(string); ok {
			return vm.eqOpaque(x, y)
		}
		unsupported("comparison of formatted symbolic string")
	case *Val:
		y, _ := b.(*Val)
		return x == y
	case *mapV:
		y, _ := b.(*mapV)
		return x == y
	case *chanV:
		y, _ := b.(*chanV)
		return x == y
	case *Fn:
		y, _ := b.(*Fn)
		return x == y
	case []Val:
		y, _ := b.([]Val)
		if x == nil || y == nil {
			return (x == nil) == (y == nil)
		}
		unsupported("slice comparison")
	case iface:
		y, ok := b.(iface)
		if !ok {
			unsupported("interface comparison with %T", b)
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if canon(x.t) != canon(y.t) {
			return false
		}
		if !types.Comparable(x.t) {
			if _, isRt := x.v.(rtypeV); !isRt {
				vm.rtPanic("comparing uncomparable type " + x.t.String())
			}
		}
		return vm.eq(x.v, y.v)
	case structV:
		return vm.eqSeq(x, b.(structV))
	case arrayV:
		return vm.eqSeq(x, b.(arrayV))
	case rtypeV:
		y, ok := b.(rtypeV)
		return ok && canon(x.t) == canon(y.t)
	case decInt:
		if y, ok := b.(decInt); ok && x.e.W == y.e.W && x.signed == y.signed {
			return vm.eq(x.e, y.e)
		}
	case nil:
		return b == nil
	}
	unsupported("eq of %T and %T", a, b)
	return nil
}

func (vm *VM) eqFloat(o *OpaqueFloat, f float64) Val {
	if f != math.Trunc(f) || math.Abs(f) >= 1<<53 {
		return false
	}
	if o.e.W < 64 && (f > float64(int64(1)<<uint(o.e.W)) || f < -float64(int64(1)<<uint(o.e.W))) {
		return false
	}
	return lowerB(vm.T.Eq(o.e, vm.T.BV(int64(f), o.e.W)))
}

func (vm *VM) eqSymStr(x *SymStr, y string) Val {
	if len(x.b) != len(y) {
		return false
	}
	yb, _ := strBytes(y)
	return vm.eqSeq(x.b, yb)
}

func flattenOpaque(v Val, out []Val) []Val {
	if o, ok := v.(*OpaqueStr); ok {
		for _, p := range o.parts {
			out = flattenOpaque(p, out)
		}
		return out
	}
	if s, ok := v.(string); ok && len(out) > 0 {
		if ps, ok := out[len(out)-1].(string); ok {
			out[len(out)-1] = ps + s
			return out
		}
	}
	return append(out, v)
}

// opaqueMin is the least length a formatted symbolic string can have.
func opaquePrefix(o *OpaqueStr) (string, string, int) {
	ps := flattenOpaque(o, nil)
	pre, suf := "", ""
	min := 0
	for _, p := range ps {
		switch x := p.(type) {
		case string:
			min += len(x)
		case *SymStr:
			min += len(x.b)
		case *Expr, decInt:
			min++
		}
	}
	if len(ps) > 0 {
		if s, ok := ps[0].(string); ok {
			pre = s
		}
		if s, ok := ps[len(ps)-1].(string); ok {
			suf = s
		}
	}
	return pre, suf, min
}

func (vm *VM) eqOpaque(o *OpaqueStr, s string) Val {
	pre, suf, min := opaquePrefix(o)
	if len(s) < min || !strings.HasPrefix(s, pre) || !strings.HasSuffix(s, suf) {
		return false
	}
	ps := flattenOpaque(o, nil)
	at := -1
	for i, p := range ps {
		if _, ok := p.(string); ok {
			continue
		}
		if _, ok := p.(decInt); ok && at < 0 {
			at = i
			continue
		}
		at = len(ps)
	}
	if at >= 0 && at < len(ps) {
		d := ps[at].(decInt)
		pre, suf = "", ""
		for i, p := range ps {
			if i < at {
				pre += p.(string)
			} else if i > at {
				suf += p.(string)
			}
		}
		if len(s) <= len(pre)+len(suf) || !strings.HasPrefix(s, pre) || !strings.HasSuffix(s, suf) {
			return false
		}
		m := s[len(pre) : len(s)-len(suf)]
		if d.signed {
			n, err := strconv.ParseInt(m, 10, int(d.e.W))
			if err != nil || strconv.FormatInt(n, 10) != m {
				return false
			}
			return vm.eq(d.e, n)
		}
		n, err := strconv.ParseUint(m, 10, int(d.e.W))
		if err != nil || strconv.FormatUint(n, 10) != m {
			return false
		}
		return vm.eq(d.e, int64(n))
	}
	unsupported("comparison of formatted symbolic string with %q", s)
	return nil
}

func (vm *VM) eqOpaque2(a, b *OpaqueStr) Val {
	x, y := flattenOpaque(a, nil), flattenOpaque(b, nil)
	if len(x) == len(y) {
		// same shape: equal iff the symbolic parts are equal (formatting is injective per part when
		// the constant parts coincide and at most one part is symbolic)
		nsym := 0
		var cond Val = true
		same := true
		for i := range x {
			sx, okx := x[i].(string)
			sy, oky := y[i].(string)
			if okx != oky {
				same = false
				break
			}
			if okx {
				if sx != sy {
					same = false
					break
				}
				continue
			}
			nsym++
			cond = vm.andV(cond, vm.eq(x[i], y[i]))
		}
		if same && nsym == 1 {
			return cond
		}
	}
	p1, s1, _ := opaquePrefix(a)
	p2, s2, _ := opaquePrefix(b)
	if !strings.HasPrefix(p1, p2) && !strings.HasPrefix(p2, p1) {
		return false
	}
	if !strings.HasSuffix(s1, s2) && !strings.HasSuffix(s2, s1) {
		return false
	}
	unsupported("comparison of two formatted symbolic strings")
	return nil
}

func (vm *VM) eqSeq(x, y []Val) Val {
	if len(x) != len(y) {
		return false
	}
	var r Val = true
	for i := range x {
		r = vm.andV(r, vm.eq(x[i], y[i]))
		if b, ok := r.(bool); ok && !b {
			return false
		}
	}
	return r
}

func (cc *compiler) unop(x *ssa.UnOp) instr {
	dst, a := cc.regs[x], cc.op(x.X)
	switch x.Op {
	case token.MUL:
		return func(vm *VM, f *Frame) {
			p, ok := a.get(vm, f).(*Val)
			if !ok {
				unsupported("load through %T", a.get(vm, f))
			}
			f.regs[dst] = vm.load(p)
		}
	case token.NOT:
		return func(vm *VM, f *Frame) { f.regs[dst] = vm.notV(a.get(vm, f)) }
	case token.SUB:
		if w, signed, ok := intInfo(x.Type()); ok {
			return func(vm *VM, f *Frame) {
				switch v := a.get(vm, f).(type) {
				case int64:
					f.regs[dst] = normInt(-v, w, signed)
				case *Expr:
					f.regs[dst] = lowerI(vm.T.Bin("bvsub", vm.T.BV(0, w), v), w, signed)
				}
			}
		}
		return func(vm *VM, f *Frame) {
			v, ok := a.get(vm, f).(float64)
			if !ok {
				unsupported("negation of %T", a.get(vm, f))
			}
			f.regs[dst] = -v
		}
	case token.XOR:
		w, signed, _ := intInfo(x.Type())
		return func(vm *VM, f *Frame) {
			switch v := a.get(vm, f).(type) {
			case int64:
				f.regs[dst] = normInt(^v, w, signed)
			case *Expr:
				f.regs[dst] = lowerI(vm.T.BVNot(v), w, signed)
			}
		}
	case token.ARROW:
		commaOk := x.CommaOk
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		return func(vm *VM, f *Frame) {
			c, _ := a.get(vm, f).(*chanV)
			v, ok := vm.chanRecv(c, et)
			if commaOk {
				f.regs[dst] = tupleV{v, ok}
			} else {
				f.regs[dst] = v
			}
		}
	}
	return func(vm *VM, f *Frame) { unsupported("unop %v", x.Op) }
}

func (vm *VM) convert(v Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	if tw, ts, ok := intInfo(to); ok {
		if _, fs, ok := intInfo(from); ok {
			switch x := v.(type) {
			case int64:
				return normInt(x, tw, ts)
			case *Expr:
				return lowerI(vm.T.Ext(x, fs, tw), tw, ts)
			}
		}
		if _, ok := floatInfo(from); ok {
			switch x := v.(type) {
			case float64:
				if ts {
					return normInt(int64(x), tw, ts)
				}
				return normInt(int64(uint64(x)), tw, ts)
			case *OpaqueFloat:
				return lowerI(vm.T.Ext(x.e, x.signed, tw), tw, ts)
			}
		}
		if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			unsupported("unsafe.Pointer to integer")
		}
	}
	if tw, ok := floatInfo(to); ok {
		if fw, fs, ok := intInfo(from); ok {
			switch x := v.(type) {
			case int64:
				if fs {
					return roundF(float64(x), tw)
				}
				return roundF(float64(uint64(x)), tw)
			case *Expr:
				// exact only below 2^53 (2^24 for float32): assert the range, else give up on the path
				lim := int64(1) << 53
				if tw == 32 {
					lim = 1 << 24
				}
				_ = fw
				if x.W > 32 || tw == 32 {
					vm.exactFloat(x, fs, lim)
				}
				return &OpaqueFloat{x, fs}
			}
		}
		if _, ok := floatInfo(from); ok {
			switch x := v.(type) {
			case float64:
				return roundF(x, tw)
			case *OpaqueFloat:
				return x
			}
		}
	}
	if isStringT(to) {
		if isStringT(from) {
			return v
		}
		if _, _, ok := intInfo(from); ok {
			w, s, _ := intInfo(from)
			return string(rune(vm.concInt(v, w, s)))
		}
		if sl, ok := fu.(*types.Slice); ok {
			xs := v.([]Val)
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				if o, ok := boxedString(xs); ok {
					return o
				}
				return mkStr(xs)
			}
			var sb strings.Builder
			var out []Val
			symb := false
			for _, r := range xs {
				switch c := r.(type) {
				case int64:
					sb.WriteRune(rune(c))
					bb := string(rune(c))
					for i := 0; i < len(bb); i++ {
						out = append(out, int64(bb[i]))
					}
				case *Expr:
					symb = true
					lt := vm.T.Bin("bvult", c, vm.T.BV(0x80, c.W))
					if !vm.branch(lowerB(lt), "ascii") {
						unsupported("non-ascii symbolic rune")
					}
					out = append(out, vm.T.Ext(c, false, 8))
				}
			}
			if symb {
				return mkStr(out)
			}
			return sb.String()
		}
	}
	if sl, ok := tu.(*types.Slice); ok && isStringT(from) {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			switch x := v.(type) {
			case *OpaqueStr:
				return []Val{x}
			default:
				bs, _ := strBytes(x)
				if bs == nil {
					bs = []Val{}
				}
				return append([]Val(nil), bs...)[:len(bs):len(bs)]
			}
		}
		switch x := v.(type) {
		case string:
			var out []Val
			for _, r := range x {
				out = append(out, int64(r))
			}
			return out
		case *SymStr:
			out := make([]Val, 0, len(x.b))
			for _, c := range x.b {
				switch y := c.(type) {
				case int64:
					if y >= 0x80 {
						unsupported("non-ascii byte in symbolic string")
					}
					out = append(out, y)
				case *Expr:
					if !vm.branch(lowerB(vm.T.Bin("bvult", y, vm.T.BV(-128, 8))), "ascii") {
						unsupported("non-ascii symbolic byte")
					}
					out = append(out, vm.T.Ext(y, false, 32))
				}
			}
			return out
		}
	}
	// pointer/unsafe conversions keep the value
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	switch tu.(type) {
	case *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Struct:
		return v
	}
	unsupported("conversion %v -> %v (%T)", from, to, v)
	return nil
}

// exactFloat gives up on the path unless the integer is below the limit up to which floats are exact.
func (vm *VM) exactFloat(x *Expr, signed bool, lim int64) {
	e := vm.T.Ext(x, signed, 64)
	in := vm.T.And(vm.T.Bin("bvslt", e, vm.T.BV(lim, 64)), vm.T.Bin("bvslt", vm.T.BV(-lim, 64), e))
	if !vm.branch(lowerB(in), "float-range") {
		unsupported("symbolic integer beyond exact float range")
	}
}

func boxedString(xs []Val) (Val, bool) {
	if len(xs) == 1 {
		if o, ok := xs[0].(*OpaqueStr); ok {
			return o, true
		}
	}
	return nil, false
}

func (vm *VM) strNext(s Val, off *Val) Val {
	i := int((*off).(int64))
	switch x := s.(type) {
	case string:
		if i >= len(x) {
			return tupleV{false, int64(0), int64(0)}
		}
		r, n := utf8.DecodeRuneInString(x[i:])
		vm.set(off, int64(i+n))
		return tupleV{true, int64(i), int64(r)}
	case *SymStr:
		if i >= len(x.b) {
			return tupleV{false, int64(0), int64(0)}
		}
		switch c := x.b[i].(type) {
		case int64:
			if c >= 0x80 {
				unsupported("non-ascii byte in symbolic string")
			}
			vm.set(off, int64(i+1))
			return tupleV{true, int64(i), c}
		case *Expr:
			if !vm.branch(lowerB(vm.T.Bin("bvult", c, vm.T.BV(-128, 8))), "ascii") {
				unsupported("non-ascii symbolic byte")
			}
			vm.set(off, int64(i+1))
			return tupleV{true, int64(i), vm.T.Ext(c, false, 32)}
		}
	}
	unsupported("range over %T", s)
	return nil
}

// ---------- builtins ----------

func (cc *compiler) builtin(b *ssa.Builtin, c *ssa.CallCommon, dst int) instr {
	args := cc.ops(c.Args)
	name := b.Name()
	set := func(f *Frame, v Val) {
		if dst >= 0 {
			f.regs[dst] = v
		}
	}
	switch name {
	case "len":
		return func(vm *VM, f *Frame) { set(f, lenOf(args[0].get(vm, f))) }
	case "cap":
		return func(vm *VM, f *Frame) {
			switch x := args[0].get(vm, f).(type) {
			case []Val:
				set(f, int64(cap(x)))
			case *chanV:
				set(f, int64(x.cap))
			default:
				set(f, lenOf(x))
			}
		}
	case "append":
		et := c.Args[0].Type().Underlying()
		sl, _ := et.(*types.Slice)
		return func(vm *VM, f *Frame) {
			s, _ := args[0].get(vm, f).([]Val)
			if len(args) == 1 {
				set(f, s)
				return
			}
			var add []Val
			switch y := args[1].get(vm, f).(type) {
			case []Val:
				add = y
			case string, *SymStr:
				add, _ = strBytes(y)
			default:
				unsupported("append of %T", y)
			}
			if len(add) == 0 {
				set(f, s)
				return
			}
			n := len(s)
			if n+len(add) <= cap(s) {
				r := s[: n+len(add) : cap(s)]
				for i, v := range add {
					vm.set(&r[n+i], copyVal(v))
				}
				set(f, r)
				return
			}
			ncap := cap(s) * 2
			if ncap < n+len(add) {
				ncap = n + len(add)
			}
			if ncap < 4 {
				ncap = growCap(ncap)
			}
			r := make([]Val, n+len(add), ncap)
			copy(r, s)
			for i, v := range add {
				r[n+i] = copyVal(v)
			}
			if ncap > len(r) && sl != nil {
				full := r[:ncap]
				for i := len(r); i < ncap; i++ {
					full[i] = zero(sl.Elem())
				}
			}
			for i := 0; i < n; i++ {
				r[i] = copyVal(r[i])
			}
			set(f, r)
		}
	case "copy":
		return func(vm *VM, f *Frame) {
			d := args[0].get(vm, f).([]Val)
			var src []Val
			switch y := args[1].get(vm, f).(type) {
			case []Val:
				src = append([]Val(nil), y...)
			default:
				src, _ = strBytes(y)
			}
			n := len(d)
			if len(src) < n {
				n = len(src)
			}
			for i := 0; i < n; i++ {
				vm.store(&d[i], src[i])
			}
			set(f, int64(n))
		}
	case "delete":
		return func(vm *VM, f *Frame) {
			m, _ := args[0].get(vm, f).(*mapV)
			vm.mapDelete(m, args[1].get(vm, f))
		}
	case "clear":
		return func(vm *VM, f *Frame) {
			switch x := args[0].get(vm, f).(type) {
			case *mapV:
				vm.mapClear(x)
			case []Val:
				if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
					for i := range x {
						vm.store(&x[i], zero(s.Elem()))
					}
				}
			default:
				unsupported("clear of %T", x)
			}
		}
	case "close":
		return func(vm *VM, f *Frame) {
			c := args[0].get(vm, f).(*chanV)
			if c == nil || c.closed {
				panic(goPanic{iface{vm.P.rtErrType, structV{"close of closed or nil channel"}}})
			}
			c.closed = true
			vm.onUndo(func() { c.closed = false })
		}
	case "panic":
		return func(vm *VM, f *Frame) { panic(goPanic{args[0].get(vm, f)}) }
	case "recover":
		return func(vm *VM, f *Frame) {
			fs := vm.g.frames
			r := Val(iface{})
			if f.isDefer && len(fs) >= 2 {
				p := fs[len(fs)-2]
				if p.mode == 1 && !p.recov {
					p.recov = true
					r = p.panicVal
				}
			}
			set(f, r)
		}
	case "print", "println":
		return func(vm *VM, f *Frame) {}
	case "ssa:wrapnilchk":
		return func(vm *VM, f *Frame) {
			v := args[0].get(vm, f)
			if p, ok := v.(*Val); ok && p == nil {
				vm.rtPanic("value method called using nil pointer")
			}
			set(f, v)
		}
	case "ssa:deferstack":
		return func(vm *VM, f *Frame) { set(f, (*Val)(nil)) }
	case "min", "max":
		w, signed, isInt := intInfo(c.Args[0].Type())
		return func(vm *VM, f *Frame) {
			r := args[0].get(vm, f)
			for i := 1; i < len(args); i++ {
				y := args[i].get(vm, f)
				var lt Val
				if isInt {
					if p, ok := r.(int64); ok {
						if q, ok := y.(int64); ok {
							lt = vm.intOp(token.LSS, q, p, w, signed)
						}
					}
					if lt == nil {
						lt = vm.symIntOp(token.LSS, y, r, w, signed)
					}
				} else if p, ok := r.(float64); ok {
					lt = y.(float64) < p
				} else {
					lt = vm.strOp(token.LSS, y, r)
				}
				if name == "max" {
					lt = vm.notV(lt)
				}
				switch l := lt.(type) {
				case bool:
					if l {
						r = y
					}
				case *Expr:
					if isInt {
						r = lowerI(vm.T.Ite(l, vm.lift(y, w), vm.lift(r, w)), w, signed)
					} else {
						unsupported("symbolic min/max")
					}
				}
			}
			set(f, r)
		}
	case "String":
		return func(vm *VM, f *Frame) {
			p, _ := args[0].get(vm, f).(*Val)
			n := int(vm.concInt(args[1].get(vm, f), 64, true))
			set(f, vm.unsafeString(p, n))
		}
	case "StringData", "SliceData":
		return func(vm *VM, f *Frame) {
			switch x := args[0].get(vm, f).(type) {
			case []Val:
				if len(x) == 0 {
					set(f, (*Val)(nil))
				} else {
					set(f, &x[0])
					vm.extra["slicedata"] = x
				}
			default:
				unsupported("%s", name)
			}
		}
	}
	return func(vm *VM, f *Frame) { unsupported("builtin %s", name) }
}

func growCap(n int) int { return n }

func (vm *VM) unsafeString(p *Val, n int) Val {
	if n == 0 {
		return ""
	}
	if x, ok := vm.extra["slicedata"].([]Val); ok && len(x) >= n && &x[0] == p {
		return mkStr(x[:n])
	}
	unsupported("unsafe.String")
	return nil
}

func (vm *VM) builtinVal(name string, a []Val) Val {
	switch name {
	case "close":
		c := a[0].(*chanV)
		c.closed = true
		vm.onUndo(func() { c.closed = false })
		return nil
	case "delete":
		vm.mapDelete(a[0].(*mapV), a[1])
		return nil
	case "recover":
		return iface{}
	case "print", "println":
		return nil
	case "panic":
		panic(goPanic{a[0]})
	}
	unsupported("deferred builtin %s", name)
	return nil
}

func lenOf(v Val) Val {
	switch x := v.(type) {
	case string:
		return int64(len(x))
	case *SymStr:
		return int64(len(x.b))
	case []Val:
		if len(x) == 1 {
			if _, ok := x[0].(*OpaqueStr); ok {
				return int64(1)
			}
		}
		return int64(len(x))
	case arrayV:
		return int64(len(x))
	case *mapV:
		if x == nil {
			return int64(0)
		}
		return int64(x.n)
	case *chanV:
		if x == nil {
			return int64(0)
		}
		return int64(len(x.buf))
	case *Val:
		if x != nil {
			if a, ok := (*x).(arrayV); ok {
				return int64(len(a))
			}
		}
	case *OpaqueStr:
		_, _, min := opaquePrefix(x)
		if min > 0 {
			unsupported("length of formatted symbolic string")
		}
	}
	unsupported("len of %T", v)
	return nil
}
