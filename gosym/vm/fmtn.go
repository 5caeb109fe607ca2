package vm

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

const addTok = token.ADD

func (vm *VM) findMethod(t types.Type, name string) *Fn {
	ms := vm.P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name && s.Obj().Exported() {
			return vm.P.method(t, s.Obj().(*types.Func))
		}
	}
	return nil
}

func isStringMethod(vm *VM, t types.Type, name string) *Fn {
	k := [2]any{canon(t), name}
	if r, ok := fmtMeth.Load(k); ok {
		return r.(*Fn)
	}
	buildMu.Lock()
	sel := vm.P.SSA.MethodSets.MethodSet(t)
	buildMu.Unlock()
	var fn *Fn
	for i := 0; i < sel.Len(); i++ {
		o, ok := sel.At(i).Obj().(*types.Func)
		if !ok || o.Name() != name {
			continue
		}
		sig := o.Type().(*types.Signature)
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isStringT(sig.Results().At(0).Type()) {
			fn = vm.P.method(t, o)
		}
	}
	fmtMeth.Store(k, fn)
	return fn
}

// fmtArg formats one operand for a verb.
func (vm *VM) fmtArg(v Val, verb byte, flags string, depth int) Val {
	i, ok := v.(iface)
	if !ok {
		unsupported("fmt operand %T", v)
	}
	if i.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return typeString(i.t)
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if !strings.Contains(flags, "#") {
			for _, m := range []string{"Error", "String"} {
				if fn := isStringMethod(vm, i.t, m); fn != nil {
					if m == "Error" && !types.Implements(i.t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
						continue
					}
					if p, isP := i.v.(*Val); isP && p == nil {
						return "<nil>"
					}
					s := vm.runSync(fn, []Val{i.v})
					if verb == 'q' {
						return vm.quote(s)
					}
					return s
				}
			}
		}
	}
	return vm.fmtVal(i.v, i.t, verb, flags, depth)
}

func (vm *VM) quote(s Val) Val {
	if x, ok := s.(string); ok {
		return strconv.Quote(x)
	}
	return &OpaqueStr{[]Val{"\"", s, "\""}}
}

func (vm *VM) fmtVal(v Val, t types.Type, verb byte, flags string, depth int) Val {
	if depth > 6 {
		return "..."
	}
	switch x := v.(type) {
	case string, *SymStr, *OpaqueStr:
		if s, ok := x.(string); ok && (flags != "" || verb != 'v' && verb != 's') {
			return fmt.Sprintf("%"+flags+string(verb), s)
		}
		if verb == 'q' || strings.Contains(flags, "#") {
			return vm.quote(x)
		}
		return x
	case int64:
		if _, signed, ok := intInfo(t); ok {
			f := "%" + flags + string(verb)
			if signed {
				return fmt.Sprintf(f, x)
			}
			return fmt.Sprintf(f, uint64(x))
		}
		return fmt.Sprint(x)
	case bool:
		return fmt.Sprintf("%"+flags+string(verb), x)
	case float64:
		return fmt.Sprintf("%"+flags+string(verb), x)
	case *Expr:
		if x.W == 0 && flags == "" && vm.inNest == 0 {
			if vm.branch(x, "formatbool") {
				return "true"
			}
			return "false"
		}
		if _, signed, ok := intInfo(t); ok && flags == "" && (verb == 'v' || verb == 'd') {
			return &OpaqueStr{[]Val{decInt{x, signed}}}
		}
		return &OpaqueStr{[]Val{x}}
	case *OpaqueFloat:
		return &OpaqueStr{[]Val{x.e}}
	case *Val:
		if x == nil {
			return "<nil>"
		}
		if depth == 0 {
			if _, ok := (*x).(structV); ok {
				return vm.concat("&", vm.fmtVal(*x, elemOf(t), verb, flags, depth+1))
			}
		}
		return "0xc000000000"
	case []Val:
		et := elemOf(t)
		if s, ok := byteText(et, x, verb, flags); ok {
			return s
		}
		return vm.fmtSeq("[", "]", len(x), func(i int) Val { return vm.fmtElem(x[i], et, verb, flags, depth) })
	case arrayV:
		et := elemOf(t)
		if s, ok := byteText(et, x, verb, flags); ok {
			return s
		}
		return vm.fmtSeq("[", "]", len(x), func(i int) Val { return vm.fmtElem(x[i], et, verb, flags, depth) })
	case structV:
		st := t.Underlying().(*types.Struct)
		return vm.fmtSeq("{", "}", len(x), func(i int) Val {
			e := vm.fmtElem(x[i], st.Field(i).Type(), verb, flags, depth)
			if strings.Contains(flags, "+") {
				return vm.concat(st.Field(i).Name()+":", e)
			}
			return e
		})
	case *mapV:
		if x == nil {
			return "map[]"
		}
		mt := t.Underlying().(*types.Map)
		var idx []int
		for i := range x.slots {
			if x.slots[i].used {
				idx = append(idx, i)
			}
		}
		sort.SliceStable(idx, func(a, b int) bool {
			p, ok1 := x.slots[idx[a]].k.(string)
			q, ok2 := x.slots[idx[b]].k.(string)
			if ok1 && ok2 {
				return p < q
			}
			r, ok1 := x.slots[idx[a]].k.(int64)
			s, ok2 := x.slots[idx[b]].k.(int64)
			return ok1 && ok2 && r < s
		})
		return vm.fmtSeq("map[", "]", len(idx), func(i int) Val {
			s := x.slots[idx[i]]
			return vm.concat(vm.fmtElem(s.k, mt.Key(), verb, flags, depth), ":", vm.fmtElem(s.v, mt.Elem(), verb, flags, depth))
		})
	case iface:
		return vm.fmtArg(x, verb, flags, depth+1)
	case *Fn:
		if x == nil {
			return "<nil>"
		}
		return "0xfeedbeef"
	case *chanV:
		return "0xc0000000"
	}
	return fmt.Sprintf("<%T>", v)
}

// byteText formats bytes as text.
func byteText(et types.Type, x []Val, verb byte, flags string) (Val, bool) {
	b, ok := et.Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Uint8 || strings.IndexByte("sqxX", verb) < 0 {
		return nil, false
	}
	s := mkStr(x)
	if c, ok := s.(string); ok {
		return fmt.Sprintf("%"+flags+string(verb), c), true
	}
	return s, verb == 's'
}

func (vm *VM) fmtElem(v Val, t types.Type, verb byte, flags string, depth int) Val {
	if isIface(t) {
		if i, ok := v.(iface); ok && i.t == nil {
			return "<nil>"
		}
		return vm.fmtArg(v, verb, flags, depth+1)
	}
	return vm.fmtArg(iface{canon(t), v}, verb, flags, depth+1)
}

func (vm *VM) concat(parts ...Val) Val {
	var r Val = ""
	for _, p := range parts {
		r = vm.strOp(addTok, r, p)
	}
	return r
}

func (vm *VM) fmtSeq(l, r string, n int, f func(i int) Val) Val {
	var out Val = l
	for i := 0; i < n; i++ {
		if i > 0 {
			out = vm.concat(out, " ")
		}
		out = vm.concat(out, f(i))
	}
	return vm.concat(out, r)
}

func (vm *VM) sprintf(format Val, args []Val) Val {
	f, ok := format.(string)
	if !ok {
		// a symbolic format string: treat it as opaque text
		return &OpaqueStr{append([]Val{format}, args...)}
	}
	var out Val = ""
	ai := 0
	i := 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = vm.concat(out, f[i:])
			break
		}
		out = vm.concat(out, f[i:i+j])
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		flags := f[st:i]
		if i >= len(f) {
			out = vm.concat(out, "%!(NOVERB)")
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			out = vm.concat(out, "%")
			continue
		}
		if ai >= len(args) {
			out = vm.concat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		if verb == 'w' {
			verb = 'v'
		}
		out = vm.concat(out, vm.fmtArg(args[ai], verb, flags, 0))
		ai++
	}
	if ai < len(args) {
		out = vm.concat(out, "%!(EXTRA)")
	}
	return out
}

func (vm *VM) sprint(args []Val, ln bool) Val {
	var out Val = ""
	prevStr := true
	for i, a := range args {
		isStr := false
		if x, ok := a.(iface); ok && x.t != nil {
			isStr = isStringT(x.t)
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = vm.concat(out, " ")
		}
		out = vm.concat(out, vm.fmtArg(a, 'v', "", 0))
		prevStr = isStr
	}
	if ln {
		out = vm.concat(out, "\n")
	}
	return out
}

func registerFmt(N map[string]natFunc) {
	ifs := func(v Val) []Val {
		s, _ := v.([]Val)
		return s
	}
	N["fmt.Sprintf"] = func(vm *VM, a []Val) Val { return vm.sprintf(a[0], ifs(a[1])) }
	N["fmt.Sprint"] = func(vm *VM, a []Val) Val { return vm.sprint(ifs(a[0]), false) }
	N["fmt.Sprintln"] = func(vm *VM, a []Val) Val { return vm.sprint(ifs(a[0]), true) }
	N["fmt.Errorf"] = func(vm *VM, a []Val) Val {
		args := ifs(a[1])
		msg := vm.sprintf(a[0], args)
		if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
			// find the operand of %w
			k := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
					i++
				}
				if f[i] == '%' {
					continue
				}
				if f[i] == 'w' && k < len(args) {
					if t := vm.P.wrapErrPtr(); t != nil {
						if w, ok := args[k].(iface); ok && w.t != nil {
							p := new(Val)
							*p = structV{msg, w}
							return iface{t, p}
						}
					}
				}
				k++
			}
		}
		return vm.mkErr(msg)
	}
	out := func(vm *VM, a []Val) Val { return tupleV{int64(0), iface{}} }
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		N[n] = out
	}
}
