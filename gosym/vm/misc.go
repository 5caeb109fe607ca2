package vm

import (
	"go/types"
	"sync"
)

var fmtMeth sync.Map

func (p *Program) wrapErrPtr() types.Type {
	pk := p.SSA.ImportedPackage("fmt")
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup("wrapError")
	if o == nil {
		return nil
	}
	return canon(types.NewPointer(o.Type()))
}

func registerMisc(N map[string]natFunc) {
	N["internal/abi.NoEscape"] = func(vm *VM, a []Val) Val { return a[0] }
	N["internal/abi.Escape[T any]"] = func(vm *VM, a []Val) Val { return a[0] }
	N["internal/abi.Escape"] = func(vm *VM, a []Val) Val { return a[0] }
	N["strings.noescape"] = func(vm *VM, a []Val) Val { return a[0] }
	N["internal/stringslite.Clone"] = func(vm *VM, a []Val) Val { return a[0] }
	N["strings.Clone"] = N["internal/stringslite.Clone"]
	N["errors.New"] = func(vm *VM, a []Val) Val { return vm.mkErr(a[0]) }
	var as func(vm *VM, cur iface, tp iface, et types.Type, depth int) bool
	as = func(vm *VM, cur iface, tp iface, et types.Type, depth int) bool {
		for i := 0; i < 32 && depth < 8; i++ {
			if cur.t == nil {
				return false
			}
			if isIface(et) {
				if types.Implements(cur.t, et.Underlying().(*types.Interface)) {
					vm.store(tp.v.(*Val), cur)
					return true
				}
			} else if canon(cur.t) == canon(et) {
				vm.store(tp.v.(*Val), cur.v)
				return true
			}
			if m := vm.jsonMethod(cur.t, "As"); m != nil {
				if ok, is := vm.runSync(m, []Val{cur.v, tp}).(bool); is && ok {
					return true
				}
			}
			m := vm.jsonMethod(cur.t, "Unwrap")
			if m == nil {
				return false
			}
			switch r := vm.runSync(m, []Val{cur.v}).(type) {
			case iface:
				cur = r
			case []Val:
				for _, e := range r {
					if c, ok := e.(iface); ok && as(vm, c, tp, et, depth+1) {
						return true
					}
				}
				return false
			default:
				return false
			}
		}
		return false
	}
	N["errors.As"] = func(vm *VM, a []Val) Val {
		cur, _ := a[0].(iface)
		tp := a[1].(iface)
		return as(vm, cur, tp, elemOf(tp.t), 0)
	}
}
