package vm

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a run-time value:
//   integers: int64 (sign- or zero-extended per static type) or *Expr
//   bool: bool or *Expr;  string: string, *SymStr or *OpaqueStr
//   floats: float64 (or *OpaqueFloat); complex: complex128
//   pointers: *Val;  structs: structV;  arrays: arrayV;  slices: []Val
//   maps: *mapV; interfaces: iface; funcs: *Fn; chans: *chanV; tuples: tupleV
type Val = any

type structV []Val
type arrayV []Val
type tupleV []Val

type iface struct {
	t types.Type
	v Val
}

type Fn struct {
	code *Code
	free []Val
	nat  func(vm *VM, args []Val) Val
	name string
}

type rtypeV struct{ t types.Type }

// SymStr is a string of concrete length whose bytes may be symbolic.
type SymStr struct{ b []Val }

// OpaqueStr is a formatted string whose exact content depends on symbolic values.
type OpaqueStr struct{ parts []Val }

// decInt is the decimal text of a symbolic integer, as a part of an OpaqueStr.
type decInt struct {
	e      *Expr
	signed bool
}

// asDec reports whether v is just the decimal text of a symbolic integer.
func asDec(v Val) (decInt, bool) {
	o, ok := v.(*OpaqueStr)
	if !ok {
		return decInt{}, false
	}
	var r decInt
	n := 0
	for _, p := range flattenOpaque(o, nil) {
		if s, ok := p.(string); ok && s == "" {
			continue
		}
		d, ok := p.(decInt)
		if !ok {
			return decInt{}, false
		}
		r = d
		n++
	}
	return r, n == 1
}

// OpaqueFloat is a float64 converted from a symbolic integer (only conversion back and equality are supported).
type OpaqueFloat struct {
	e      *Expr
	signed bool
}

type chanV struct {
	buf    []Val
	cap    int
	closed bool
	// rendezvous
	sendq []*chanWaiter
}

type chanWaiter struct {
	v    Val
	done bool
}

type mslot struct {
	used bool
	k, v Val
}

type mapV struct {
	slots []mslot
	idx   map[any]int
	n     int
	rot   bool
}

type mapIter struct {
	m     *mapV
	pos   int // iterations already made over the small table
	start int
	size  int
	str   []rune
	// string iteration
	isStr bool
	s     Val
	off   int
}

type nilKey struct{}
type ifaceKey struct {
	t types.Type
	k any
}

// unsupported aborts a path.
type pathEnd struct {
	kind string
	msg  string
}

func unsupported(format string, args ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(format, args...)})
}

// hashKey gives a Go-comparable key for concrete values; ok=false if symbolic inside.
func hashKey(v Val) (any, bool) {
	switch x := v.(type) {
	case int64, bool, string, float64, *Val, *mapV, *chanV, *Fn:
		return x, true
	case *Expr:
		if x.isConst() {
			if x.W == 0 {
				return x.K != 0, true
			}
			return x.K, true
		}
		return nil, false
	case *SymStr, *OpaqueStr, *OpaqueFloat:
		return nil, false
	case iface:
		if x.t == nil {
			return nilKey{}, true
		}
		k, ok := hashKey(x.v)
		return ifaceKey{canon(x.t), k}, ok
	case structV:
		return hashSeq("s", x)
	case arrayV:
		return hashSeq("a", x)
	case rtypeV:
		return canon(x.t), true
	case nil:
		return nilKey{}, true
	}
	unsupported("hash of %T", v)
	return nil, false
}

func hashSeq(p string, xs []Val) (any, bool) {
	var sb strings.Builder
	sb.WriteString(p)
	for _, e := range xs {
		k, ok := hashKey(e)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "|%T:%v", k, k)
	}
	return sb.String(), true
}

func copyVal(v Val) Val {
	switch x := v.(type) {
	case structV:
		n := make(structV, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	case arrayV:
		n := make(arrayV, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	}
	return v
}

func zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*Val)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Val)(nil)
	case *types.Slice:
		return []Val(nil)
	case *types.Map:
		return (*mapV)(nil)
	case *types.Chan:
		return (*chanV)(nil)
	case *types.Signature:
		return (*Fn)(nil)
	case *types.Interface:
		return iface{}
	case *types.Struct:
		s := make(structV, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := u.Len()
		if n > 1<<20 {
			unsupported("huge array")
		}
		a := make(arrayV, n)
		et := u.Elem()
		for i := range a {
			a[i] = zero(et)
		}
		return a
	case *types.Tuple:
		tv := make(tupleV, u.Len())
		for i := range tv {
			tv[i] = zero(u.At(i).Type())
		}
		return tv
	}
	panic(fmt.Sprintf("zero: %v", t))
}

// intInfo returns width and signedness of an integer type.
func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func normInt(v int64, w int, signed bool) int64 {
	if signed {
		return truncS(v, w)
	}
	return zx(v, w)
}

func floatInfo(t types.Type) (w int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return 64, true
	case types.Float32:
		return 32, true
	}
	return 0, false
}

func roundF(f float64, w int) float64 {
	if w == 32 {
		return float64(float32(f))
	}
	return f
}

var _ = math.NaN
var _ = ssa.BuilderMode(0)

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// describe prints a value for traces and messages.
func describe(v Val, depth int) string {
	if depth > 4 {
		return "..."
	}
	switch x := v.(type) {
	case nil:
		return "nil"
	case int64, bool, float64:
		return fmt.Sprint(x)
	case string:
		return fmt.Sprintf("%q", x)
	case *Expr:
		return x.String()
	case decInt:
		return x.e.String()
	case *SymStr:
		return fmt.Sprintf("symstr(%d)", len(x.b))
	case *OpaqueStr:
		var s []string
		for _, p := range x.parts {
			s = append(s, describe(p, depth+1))
		}
		return "fmt(" + strings.Join(s, ",") + ")"
	case iface:
		if x.t == nil {
			return "nil"
		}
		return describe(x.v, depth+1)
	case structV:
		var s []string
		for _, p := range x {
			s = append(s, describe(p, depth+1))
		}
		return "{" + strings.Join(s, " ") + "}"
	case []Val:
		var s []string
		for i, p := range x {
			if i > 20 {
				break
			}
			s = append(s, describe(p, depth+1))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *Val:
		if x == nil {
			return "nil"
		}
		return "&" + describe(*x, depth+1)
	case *mapV:
		return fmt.Sprintf("map(%p)", x)
	}
	return fmt.Sprintf("<%T>", v)
}
