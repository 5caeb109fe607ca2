package vm

import (
	"fmt"
	"strings"
)

// Expr is a hash-consed SMT term: sort Bool (W==0) or bit-vector of width W.
type Expr struct {
	id   int
	Op   string
	W    int
	K    int64 // constant (sign-extended for BV; 0/1 for Bool) or parameter (extract lo, ext amount)
	Name string
	A    []*Expr
}

type exprKey struct {
	op      string
	w       int
	k       int64
	name    string
	a, b, c int
}

type exprTab struct {
	m    map[exprKey]*Expr
	next int
}

func newExprTab() *exprTab { return &exprTab{m: map[exprKey]*Expr{}, next: 1} }

func (t *exprTab) mk(op string, w int, k int64, name string, args ...*Expr) *Expr {
	key := exprKey{op: op, w: w, k: k, name: name}
	if len(args) > 0 {
		key.a = args[0].id
	}
	if len(args) > 1 {
		key.b = args[1].id
	}
	if len(args) > 2 {
		key.c = args[2].id
	}
	if e, ok := t.m[key]; ok {
		return e
	}
	e := &Expr{id: t.next, Op: op, W: w, K: k, Name: name, A: args}
	t.next++
	t.m[key] = e
	return e
}

func (e *Expr) isConst() bool { return e.Op == "const" }

func (t *exprTab) Bool(b bool) *Expr {
	if b {
		return t.mk("const", 0, 1, "")
	}
	return t.mk("const", 0, 0, "")
}

func truncS(v int64, w int) int64 {
	if w >= 64 {
		return v
	}
	sh := uint(64 - w)
	return v << sh >> sh
}

func (t *exprTab) BV(v int64, w int) *Expr     { return t.mk("const", w, truncS(v, w), "") }
func (t *exprTab) Var(name string, w int) *Expr { return t.mk("var", w, 0, name) }

func (t *exprTab) Not(a *Expr) *Expr {
	if a.isConst() {
		return t.Bool(a.K == 0)
	}
	if a.Op == "not" {
		return a.A[0]
	}
	return t.mk("not", 0, 0, "", a)
}

func (t *exprTab) And(a, b *Expr) *Expr {
	if a.isConst() {
		if a.K == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.K == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.Op == "not" && a.A[0] == b) || (b.Op == "not" && b.A[0] == a) {
		return t.Bool(false)
	}
	return t.mk("and", 0, 0, "", a, b)
}

func (t *exprTab) Or(a, b *Expr) *Expr { return t.Not(t.And(t.Not(a), t.Not(b))) }

func (t *exprTab) Ite(c, a, b *Expr) *Expr {
	if c.isConst() {
		if c.K != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.W == 0 {
		if a.isConst() && b.isConst() {
			if a.K != 0 {
				return c
			}
			return t.Not(c)
		}
	}
	return t.mk("ite", a.W, 0, "", c, a, b)
}

func (t *exprTab) Eq(a, b *Expr) *Expr {
	if a == b {
		return t.Bool(true)
	}
	if a.isConst() && b.isConst() {
		return t.Bool(a.K == b.K)
	}
	if a.W == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.K != 0 {
				return a
			}
			return t.Not(a)
		}
	}
	if a.W != b.W {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.W, b.W))
	}
	if a.isConst() {
		a, b = b, a
	}
	// (sext x) == const  -> x == const when in range
	if b.isConst() && (a.Op == "sext" || a.Op == "zext") {
		in := a.A[0]
		var back int64
		if a.Op == "sext" {
			back = truncS(b.K, in.W)
		} else {
			back = zx(b.K, in.W)
		}
		if back != b.K {
			return t.Bool(false)
		}
		return t.Eq(in, t.BV(b.K, in.W))
	}
	return t.mk("=", 0, 0, "", a, b)
}

func zx(v int64, w int) int64 {
	if w >= 64 {
		return v
	}
	return int64(uint64(v) & (1<<uint(w) - 1))
}

// Bin builds a BV binary op; comparison ops give Bool.
func (t *exprTab) Bin(op string, a, b *Expr) *Expr {
	w := a.W
	if a.W != b.W {
		panic(fmt.Sprintf("%s width mismatch %d %d", op, a.W, b.W))
	}
	if a.isConst() && b.isConst() {
		if v, isb, ok := evalBin(op, a.K, b.K, w); ok {
			if isb {
				return t.Bool(v != 0)
			}
			return t.BV(v, w)
		}
	}
	switch op {
	case "bvadd":
		if a.isConst() && a.K == 0 {
			return b
		}
		if b.isConst() && b.K == 0 {
			return a
		}
	case "bvsub":
		if b.isConst() && b.K == 0 {
			return a
		}
		if a == b {
			return t.BV(0, w)
		}
	case "bvmul":
		if b.isConst() && b.K == 1 {
			return a
		}
		if a.isConst() && a.K == 1 {
			return b
		}
	case "bvslt", "bvult":
		if a == b {
			return t.Bool(false)
		}
		return t.mk(op, 0, 0, "", a, b)
	case "bvsle":
		return t.Not(t.Bin("bvslt", b, a))
	case "bvule":
		return t.Not(t.Bin("bvult", b, a))
	}
	return t.mk(op, w, 0, "", a, b)
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// evalBin evaluates op on sign-extended constants of width w.
func evalBin(op string, a, b int64, w int) (v int64, isBool bool, ok bool) {
	ua, ub := uint64(zx(a, w)), uint64(zx(b, w))
	switch op {
	case "bvadd":
		return truncS(a+b, w), false, true
	case "bvsub":
		return truncS(a-b, w), false, true
	case "bvmul":
		return truncS(a*b, w), false, true
	case "bvsdiv":
		if b == 0 {
			return 0, false, false
		}
		if b == -1 {
			return truncS(-a, w), false, true
		}
		return truncS(a/b, w), false, true
	case "bvsrem":
		if b == 0 {
			return 0, false, false
		}
		if b == -1 {
			return 0, false, true
		}
		return truncS(a%b, w), false, true
	case "bvudiv":
		if ub == 0 {
			return 0, false, false
		}
		return truncS(int64(ua/ub), w), false, true
	case "bvurem":
		if ub == 0 {
			return 0, false, false
		}
		return truncS(int64(ua%ub), w), false, true
	case "bvand":
		return a & b, false, true
	case "bvor":
		return a | b, false, true
	case "bvxor":
		return a ^ b, false, true
	case "bvshl":
		if ub >= uint64(w) {
			return 0, false, true
		}
		return truncS(a<<ub, w), false, true
	case "bvlshr":
		if ub >= uint64(w) {
			return 0, false, true
		}
		return truncS(int64(ua>>ub), w), false, true
	case "bvashr":
		if ub >= uint64(w) {
			ub = uint64(w - 1)
		}
		return truncS(a>>ub, w), false, true
	case "bvslt":
		return b2i(a < b), true, true
	case "bvsle":
		return b2i(a <= b), true, true
	case "bvult":
		return b2i(ua < ub), true, true
	case "bvule":
		return b2i(ua <= ub), true, true
	}
	return 0, false, false
}

func (t *exprTab) BVNot(a *Expr) *Expr {
	if a.isConst() {
		return t.BV(^a.K, a.W)
	}
	return t.mk("bvnot", a.W, 0, "", a)
}

// Ext resizes a (interpreted as signed or unsigned) to width w.
func (t *exprTab) Ext(a *Expr, signed bool, w int) *Expr {
	if a.W == w {
		return a
	}
	if a.isConst() {
		if a.W < w && !signed {
			return t.BV(zx(a.K, a.W), w)
		}
		return t.BV(a.K, w)
	}
	if a.W > w {
		if (a.Op == "sext" || a.Op == "zext") && a.A[0].W <= w {
			return t.Ext(a.A[0], a.Op == "sext", w)
		}
		return t.mk("extract", w, 0, "", a)
	}
	if signed {
		return t.mk("sext", w, int64(w-a.W), "", a)
	}
	return t.mk("zext", w, int64(w-a.W), "", a)
}

// eval under a model (var name -> value); missing vars are 0.
func (e *Expr) eval(m map[string]int64, memo map[*Expr]int64) int64 {
	switch e.Op {
	case "const":
		return e.K
	case "var":
		return truncSB(m[e.Name], e.W)
	}
	if v, ok := memo[e]; ok {
		return v
	}
	var v int64
	switch e.Op {
	case "not":
		v = 1 - e.A[0].eval(m, memo)
	case "and":
		v = e.A[0].eval(m, memo) & e.A[1].eval(m, memo)
	case "ite":
		if e.A[0].eval(m, memo) != 0 {
			v = e.A[1].eval(m, memo)
		} else {
			v = e.A[2].eval(m, memo)
		}
	case "=":
		v = b2i(e.A[0].eval(m, memo) == e.A[1].eval(m, memo))
	case "bvnot":
		v = ^e.A[0].eval(m, memo)
	case "sext":
		v = e.A[0].eval(m, memo)
	case "zext":
		v = zx(e.A[0].eval(m, memo), e.A[0].W)
	case "extract":
		v = truncS(e.A[0].eval(m, memo), e.W)
	default:
		a, b := e.A[0].eval(m, memo), e.A[1].eval(m, memo)
		r, _, ok := evalBin(e.Op, a, b, e.A[0].W)
		if !ok { // SMT-LIB division by zero semantics
			switch e.Op {
			case "bvudiv":
				r = -1
			case "bvsdiv":
				r = -1
				if a < 0 {
					r = 1
				}
			default:
				r = a
			}
		}
		v = r
	}
	memo[e] = v
	return v
}

func truncSB(v int64, w int) int64 {
	if w == 0 {
		return v & 1
	}
	return truncS(v, w)
}

func (e *Expr) smt(sb *strings.Builder) {
	switch e.Op {
	case "const":
		if e.W == 0 {
			if e.K != 0 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
			return
		}
		fmt.Fprintf(sb, "(_ bv%d %d)", uint64(zx(e.K, e.W)), e.W)
	case "var":
		sb.WriteString(e.Name)
	case "sext":
		fmt.Fprintf(sb, "((_ sign_extend %d) ", e.K)
		e.A[0].smt(sb)
		sb.WriteString(")")
	case "zext":
		fmt.Fprintf(sb, "((_ zero_extend %d) ", e.K)
		e.A[0].smt(sb)
		sb.WriteString(")")
	case "extract":
		fmt.Fprintf(sb, "((_ extract %d 0) ", e.W-1)
		e.A[0].smt(sb)
		sb.WriteString(")")
	default:
		sb.WriteString("(")
		sb.WriteString(e.Op)
		for _, a := range e.A {
			sb.WriteString(" ")
			a.smt(sb)
		}
		sb.WriteString(")")
	}
}

// size of DAG (for let sharing decisions)
func (e *Expr) treeSize(limit int) int {
	n := 1
	for _, a := range e.A {
		n += a.treeSize(limit - n)
		if n > limit {
			return n
		}
	}
	return n
}

func (e *Expr) String() string {
	var sb strings.Builder
	e.smt(&sb)
	s := sb.String()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}
