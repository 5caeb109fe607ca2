package vm

import (
	"go/types"
	"reflect"
	"regexp"
	"strings"
)

// reflect.Value is modelled in its own three fields: {typ rtypeV, ptr value, flag}.
// When addressable, field 2 holds the *Val it aliases.

func (vm *VM) mkRV(t types.Type, v Val, addr *Val) Val {
	if t == nil {
		return structV{nil, nil, (*Val)(nil)}
	}
	return structV{rtypeV{canon(t)}, v, addr}
}

func rvParts(v Val) (t types.Type, val Val, addr *Val, valid bool) {
	s, ok := v.(structV)
	if !ok || len(s) < 3 {
		return nil, nil, nil, false
	}
	rt, ok := s[0].(rtypeV)
	if !ok {
		return nil, nil, nil, false
	}
	addr, _ = s[2].(*Val)
	if addr != nil {
		return rt.t, *addr, addr, true
	}
	return rt.t, s[1], nil, true
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (vm *VM) mkType(t types.Type) Val {
	if t == nil {
		return iface{}
	}
	return iface{vm.P.rtypePtr, rtypeV{canon(t)}}
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func qual(p *types.Package) string { return p.Name() }

func (vm *VM) deepEqual(a, b Val, depth int) Val {
	if depth > 60 {
		unsupported("deep equal recursion")
	}
	switch x := a.(type) {
	case iface:
		y, ok := b.(iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if canon(x.t) != canon(y.t) {
			return false
		}
		return vm.deepEqual(x.v, y.v, depth+1)
	case []Val:
		y, ok := b.([]Val)
		if !ok || (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var r Val = true
		for i := range x {
			r = vm.andV(r, vm.deepEqual(x[i], y[i], depth+1))
		}
		return r
	case structV:
		y, ok := b.(structV)
		if !ok || len(x) != len(y) {
			return false
		}
		var r Val = true
		for i := range x {
			r = vm.andV(r, vm.deepEqual(x[i], y[i], depth+1))
		}
		return r
	case arrayV:
		y, ok := b.(arrayV)
		if !ok || len(x) != len(y) {
			return false
		}
		var r Val = true
		for i := range x {
			r = vm.andV(r, vm.deepEqual(x[i], y[i], depth+1))
		}
		return r
	case *mapV:
		y, _ := b.(*mapV)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		if x == y {
			return true
		}
		if x.n != y.n {
			return false
		}
		var r Val = true
		for i := range x.slots {
			if !x.slots[i].used {
				continue
			}
			v, ok := vm.mapGet(y, x.slots[i].k)
			if !ok {
				return false
			}
			r = vm.andV(r, vm.deepEqual(x.slots[i].v, v, depth+1))
		}
		return r
	case *Val:
		y, _ := b.(*Val)
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return vm.deepEqual(*x, *y, depth+1)
	case *Fn:
		y, _ := b.(*Fn)
		return x == nil && y == nil
	}
	return vm.eq(a, b)
}

// deepCopy models github.com/mohae/deepcopy.Copy: containers are cloned recursively.
func (vm *VM) deepCopyT(v Val, t types.Type, depth int) Val {
	if depth > 60 {
		unsupported("deep copy recursion")
	}
	switch x := v.(type) {
	case iface:
		if x.t == nil {
			return x
		}
		return iface{x.t, vm.deepCopyT(x.v, x.t, depth+1)}
	case []Val:
		if x == nil {
			return x
		}
		et := elemOf(t)
		n := make([]Val, len(x))
		for i := range x {
			n[i] = vm.deepCopyT(x[i], et, depth+1)
		}
		return n
	case *mapV:
		if x == nil {
			return x
		}
		mt := t.Underlying().(*types.Map)
		m := &mapV{}
		for i := range x.slots {
			if x.slots[i].used {
				vm.mapSet(m, vm.deepCopyT(x.slots[i].k, mt.Key(), depth+1), vm.deepCopyT(x.slots[i].v, mt.Elem(), depth+1))
			}
		}
		return m
	case structV:
		if named, ok := t.(*types.Named); ok && named.Obj().Name() == "Time" && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == "time" {
			return copyVal(x)
		}
		st := t.Underlying().(*types.Struct)
		n := make(structV, len(x))
		for i := range x {
			if !st.Field(i).Exported() {
				n[i] = zero(st.Field(i).Type())
				continue
			}
			n[i] = vm.deepCopyT(x[i], st.Field(i).Type(), depth+1)
		}
		return n
	case arrayV:
		return copyVal(x) // deepcopy sets arrays by value
	case *Val:
		if x == nil {
			return x
		}
		et := elemOf(t)
		if et == nil {
			return x
		}
		p := new(Val)
		*p = vm.deepCopyT(*x, et, depth+1)
		return p
	}
	return v
}

var anyT = regexp.MustCompile(`interface\{\}|\bany\b`)

func typeString(t types.Type) string {
	return anyT.ReplaceAllString(types.TypeString(t, qual), "interface {}")
}

func registerReflect(N map[string]natFunc) {
	ft := func(vm *VM, a []Val) Val {
		i := a[0].(iface)
		return vm.mkType(i.t)
	}
	N["reflect.TypeOf"] = ft
	N["internal/reflectlite.TypeOf"] = ft
	N["reflect.ValueOf"] = func(vm *VM, a []Val) Val {
		i := a[0].(iface)
		return vm.mkRV(i.t, i.v, nil)
	}
	N["internal/reflectlite.ValueOf"] = N["reflect.ValueOf"]
	N["reflect.DeepEqual"] = func(vm *VM, a []Val) Val { return vm.deepEqual(a[0], a[1], 0) }
	N["reflect.Zero"] = func(vm *VM, a []Val) Val {
		t := a[0].(iface).v.(rtypeV).t
		return vm.mkRV(t, zero(t), nil)
	}
	N["reflect.New"] = func(vm *VM, a []Val) Val {
		t := a[0].(iface).v.(rtypeV).t
		p := new(Val)
		*p = zero(t)
		return vm.mkRV(types.NewPointer(t), p, nil)
	}
	N["reflect.Indirect"] = func(vm *VM, a []Val) Val {
		t, v, _, ok := rvParts(a[0])
		if ok {
			if pt, isP := t.Underlying().(*types.Pointer); isP {
				p := v.(*Val)
				if p == nil {
					return vm.mkRV(nil, nil, nil)
				}
				return vm.mkRV(pt.Elem(), nil, p)
			}
		}
		return a[0]
	}
	N["reflect.MakeSlice"] = func(vm *VM, a []Val) Val {
		t := a[0].(iface).v.(rtypeV).t
		n := vm.concInt(a[1], 64, true)
		c := vm.concInt(a[2], 64, true)
		s := make([]Val, c)
		for i := range s {
			s[i] = zero(elemOf(t))
		}
		return vm.mkRV(t, s[:n], nil)
	}
	N["reflect.MakeMap"] = func(vm *VM, a []Val) Val {
		t := a[0].(iface).v.(rtypeV).t
		return vm.mkRV(t, &mapV{}, nil)
	}
	N["(reflect.Kind).String"] = func(vm *VM, a []Val) Val { return reflect.Kind(vm.concInt(a[0], 64, false)).String() }
	N["reflect.Append"] = func(vm *VM, a []Val) Val {
		t, v, _, _ := rvParts(a[0])
		s, _ := v.([]Val)
		s = s[:len(s):len(s)]
		xs, _ := a[1].([]Val)
		for _, x := range xs {
			xt, xv, _, _ := rvParts(x)
			if isIface(elemOf(t)) && !isIface(xt) {
				xv = iface{xt, xv}
			}
			s = append(s, copyVal(xv))
		}
		return vm.mkRV(t, s, nil)
	}
	// ---- Type methods ----
	for _, r := range []string{"(*reflect.rtype).", "(internal/reflectlite.rtype).", "(*internal/reflectlite.rtype)."} {
		T := func(f func(vm *VM, t types.Type, a []Val) Val) natFunc {
			return func(vm *VM, a []Val) Val {
				rt, ok := a[0].(rtypeV)
				if !ok {
					unsupported("reflect.Type receiver %T", a[0])
				}
				return f(vm, rt.t, a)
			}
		}
		N[r+"Kind"] = T(func(vm *VM, t types.Type, a []Val) Val { return int64(kindOf(t)) })
		N[r+"String"] = T(func(vm *VM, t types.Type, a []Val) Val { return typeString(t) })
		N[r+"Name"] = T(func(vm *VM, t types.Type, a []Val) Val {
			switch n := t.(type) {
			case *types.Named:
				return n.Obj().Name()
			case *types.Basic:
				return n.Name()
			}
			return ""
		})
		N[r+"PkgPath"] = T(func(vm *VM, t types.Type, a []Val) Val {
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
			return ""
		})
		N[r+"Elem"] = T(func(vm *VM, t types.Type, a []Val) Val {
			e := elemOf(t)
			if e == nil {
				vm.rtPanic("reflect: Elem of invalid type " + typeString(t))
			}
			return vm.mkType(e)
		})
		N[r+"Key"] = T(func(vm *VM, t types.Type, a []Val) Val {
			return vm.mkType(t.Underlying().(*types.Map).Key())
		})
		N[r+"Comparable"] = T(func(vm *VM, t types.Type, a []Val) Val { return types.Comparable(t) })
		N[r+"NumField"] = T(func(vm *VM, t types.Type, a []Val) Val { return int64(t.Underlying().(*types.Struct).NumFields()) })
		N[r+"NumMethod"] = T(func(vm *VM, t types.Type, a []Val) Val { return int64(types.NewMethodSet(t).Len()) })
		N[r+"Implements"] = T(func(vm *VM, t types.Type, a []Val) Val {
			o := a[1].(iface).v.(rtypeV).t
			return types.Implements(t, o.Underlying().(*types.Interface))
		})
		N[r+"AssignableTo"] = T(func(vm *VM, t types.Type, a []Val) Val {
			return types.AssignableTo(t, a[1].(iface).v.(rtypeV).t)
		})
		N[r+"ConvertibleTo"] = T(func(vm *VM, t types.Type, a []Val) Val {
			return types.ConvertibleTo(t, a[1].(iface).v.(rtypeV).t)
		})
		N[r+"Len"] = T(func(vm *VM, t types.Type, a []Val) Val { return t.Underlying().(*types.Array).Len() })
		field := func(vm *VM, t types.Type, i int) Val {
			st := t.Underlying().(*types.Struct)
			f := st.Field(i)
			pp := ""
			if !f.Exported() {
				pp = f.Pkg().Path()
			}
			// StructField{Name, PkgPath, Type, Tag, Offset, Index, Anonymous}
			return structV{f.Name(), pp, vm.mkType(f.Type()), st.Tag(i), int64(i), []Val{int64(i)}, f.Anonymous()}
		}
		N[r+"Field"] = T(func(vm *VM, t types.Type, a []Val) Val { return field(vm, t, int(vm.concInt(a[1], 64, true))) })
		N[r+"FieldByName"] = T(func(vm *VM, t types.Type, a []Val) Val {
			st := t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == str(a[1]) {
					return tupleV{field(vm, t, i), true}
				}
			}
			return tupleV{structV{"", "", iface{}, "", int64(0), []Val(nil), false}, false}
		})
	}
	// ---- Value methods ----
	type vf func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val
	M := func(name string, f vf) {
		for _, r := range []string{"(reflect.Value).", "(internal/reflectlite.Value)."} {
			N[r+name] = func(vm *VM, a []Val) Val {
				t, v, addr, ok := rvParts(a[0])
				if !ok {
					vm.rtPanic("reflect: call of reflect.Value." + name + " on zero Value")
				}
				return f(vm, t, v, addr, a)
			}
		}
	}
	for _, r := range []string{"(reflect.Value).", "(internal/reflectlite.Value)."} {
		N[r+"IsValid"] = func(vm *VM, a []Val) Val { _, _, _, ok := rvParts(a[0]); return ok }
		N[r+"Kind"] = func(vm *VM, a []Val) Val {
			t, _, _, ok := rvParts(a[0])
			if !ok {
				return int64(0)
			}
			return int64(kindOf(t))
		}
		N[r+"String"] = func(vm *VM, a []Val) Val {
			t, v, _, ok := rvParts(a[0])
			if !ok {
				return "<invalid Value>"
			}
			if kindOf(t) == reflect.String {
				return v
			}
			return "<" + typeString(t) + " Value>"
		}
	}
	M("Type", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val { return vm.mkType(t) })
	M("CanInt", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		k := kindOf(t)
		return k >= reflect.Int && k <= reflect.Int64
	})
	M("CanUint", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		k := kindOf(t)
		return k >= reflect.Uint && k <= reflect.Uintptr
	})
	M("CanFloat", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		k := kindOf(t)
		return k == reflect.Float32 || k == reflect.Float64
	})
	M("Interface", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		if isIface(t) {
			return v
		}
		return iface{t, copyVal(v)}
	})
	M("CanInterface", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val { return true })
	M("CanSet", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val { return addr != nil })
	M("CanAddr", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val { return addr != nil })
	M("Addr", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		return vm.mkRV(types.NewPointer(t), addr, nil)
	})
	M("IsNil", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		switch x := v.(type) {
		case *Val:
			return x == nil
		case []Val:
			return x == nil
		case *mapV:
			return x == nil
		case *chanV:
			return x == nil
		case *Fn:
			return x == nil
		case iface:
			return x.t == nil
		}
		vm.rtPanic("reflect: call of reflect.Value.IsNil on " + kindOf(t).String() + " Value")
		return nil
	})
	M("IsZero", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val { return vm.deepEqual(v, zero(t), 0) })
	M("Elem", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		switch x := v.(type) {
		case iface:
			return vm.mkRV(x.t, x.v, nil)
		case *Val:
			if x == nil {
				return vm.mkRV(nil, nil, nil)
			}
			return vm.mkRV(elemOf(t), nil, x)
		}
		vm.rtPanic("reflect: call of reflect.Value.Elem on " + kindOf(t).String() + " Value")
		return nil
	})
	M("Len", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		switch kindOf(t) {
		case reflect.Slice, reflect.Array, reflect.Map, reflect.String, reflect.Chan:
			return lenOf(v)
		}
		vm.rtPanic("reflect: call of reflect.Value.Len on " + kindOf(t).String() + " Value")
		return nil
	})
	M("Index", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		switch x := v.(type) {
		case []Val:
			i := vm.index(a[1], 64, true, len(x))
			return vm.mkRV(elemOf(t), nil, &x[i])
		case arrayV:
			i := vm.index(a[1], 64, true, len(x))
			if addr != nil {
				return vm.mkRV(elemOf(t), nil, &x[i])
			}
			return vm.mkRV(elemOf(t), x[i], nil)
		case string:
			i := vm.index(a[1], 64, true, len(x))
			return vm.mkRV(types.Typ[types.Uint8], int64(x[i]), nil)
		}
		vm.rtPanic("reflect: call of reflect.Value.Index on " + kindOf(t).String() + " Value")
		return nil
	})
	M("MapKeys", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		m, _ := v.(*mapV)
		out := []Val{}
		if m != nil {
			it := vm.newIter(m, true)
			for {
				k, _, ok := vm.iterNext(it)
				if !ok {
					break
				}
				out = append(out, vm.mkRV(t.Underlying().(*types.Map).Key(), k, nil))
			}
		}
		return out
	})
	M("MapIndex", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		m, _ := v.(*mapV)
		mt := t.Underlying().(*types.Map)
		_, kv, _, _ := rvParts(a[1])
		kt, _, _, _ := rvParts(a[1])
		if isIface(mt.Key()) && !isIface(kt) {
			kv = iface{kt, kv}
		}
		x, ok := vm.mapGet(m, kv)
		if !ok {
			return vm.mkRV(nil, nil, nil)
		}
		return vm.mkRV(mt.Elem(), copyVal(x), nil)
	})
	M("SetMapIndex", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		m, _ := v.(*mapV)
		mt := t.Underlying().(*types.Map)
		kt, kv, _, _ := rvParts(a[1])
		if isIface(mt.Key()) && !isIface(kt) {
			kv = iface{kt, kv}
		}
		et, ev, _, ok := rvParts(a[2])
		if !ok {
			vm.mapDelete(m, kv)
			return nil
		}
		if isIface(mt.Elem()) && !isIface(et) {
			ev = iface{et, ev}
		}
		if m == nil {
			vm.rtPanic("assignment to entry in nil map")
		}
		vm.mapSet(m, kv, copyVal(ev))
		return nil
	})
	M("MapRange", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		m, _ := v.(*mapV)
		p := new(Val)
		*p = structV{a[0], tupleV{vm.newIter(m, true)}, tupleV{}}
		return p
	})
	N["(*reflect.MapIter).Next"] = func(vm *VM, a []Val) Val {
		s := (*a[0].(*Val)).(structV)
		it := s[1].(tupleV)[0].(*mapIter)
		k, v, ok := vm.iterNext(it)
		if ok {
			vm.set(&s[2], tupleV{k, v})
		}
		return ok
	}
	N["(*reflect.MapIter).Key"] = func(vm *VM, a []Val) Val {
		s := (*a[0].(*Val)).(structV)
		t, _, _, _ := rvParts(s[0])
		return vm.mkRV(t.Underlying().(*types.Map).Key(), s[2].(tupleV)[0], nil)
	}
	N["(*reflect.MapIter).Value"] = func(vm *VM, a []Val) Val {
		s := (*a[0].(*Val)).(structV)
		t, _, _, _ := rvParts(s[0])
		return vm.mkRV(t.Underlying().(*types.Map).Elem(), s[2].(tupleV)[1], nil)
	}
	M("NumField", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		return int64(t.Underlying().(*types.Struct).NumFields())
	})
	M("Field", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		st := t.Underlying().(*types.Struct)
		i := vm.index(a[1], 64, true, st.NumFields())
		s := v.(structV)
		if addr != nil {
			return vm.mkRV(st.Field(i).Type(), nil, &s[i])
		}
		return vm.mkRV(st.Field(i).Type(), s[i], nil)
	})
	M("FieldByName", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		st := t.Underlying().(*types.Struct)
		s := v.(structV)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == str(a[1]) {
				if addr != nil {
					return vm.mkRV(st.Field(i).Type(), nil, &s[i])
				}
				return vm.mkRV(st.Field(i).Type(), s[i], nil)
			}
		}
		return vm.mkRV(nil, nil, nil)
	})
	num := func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val { return v }
	ext := func(to types.Type) vf {
		return func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val { return vm.convert(v, t, to) }
	}
	M("Int", ext(types.Typ[types.Int64]))
	M("Uint", ext(types.Typ[types.Uint64]))
	M("Float", num)
	M("Bool", num)
	M("Bytes", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		switch x := v.(type) {
		case []Val:
			return x
		case arrayV:
			return []Val(x)
		}
		return []Val(nil)
	})
	M("Call", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		sig := t.Underlying().(*types.Signature)
		in, _ := a[1].([]Val)
		if sig.Variadic() {
			unsupported("reflect call of a variadic function")
		}
		var args []Val
		for i, x := range in {
			xt, xv, _, _ := rvParts(x)
			if isIface(sig.Params().At(i).Type()) && !isIface(xt) {
				xv = iface{xt, xv}
			}
			args = append(args, copyVal(xv))
		}
		fn, _ := v.(*Fn)
		if fn == nil {
			vm.rtPanic("reflect: call of nil function")
		}
		r := vm.runSync(fn, args)
		var out []Val
		switch n := sig.Results().Len(); n {
		case 0:
		case 1:
			out = append(out, vm.mkRV(sig.Results().At(0).Type(), r, nil))
		default:
			for i := 0; i < n; i++ {
				out = append(out, vm.mkRV(sig.Results().At(i).Type(), r.(tupleV)[i], nil))
			}
		}
		return out
	})
	M("Pointer", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val { unsupported("reflect Pointer"); return nil })
	M("Set", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		if addr == nil {
			vm.rtPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		et, ev, _, ok := rvParts(a[1])
		if !ok {
			vm.rtPanic("reflect: Set with zero Value")
		}
		if isIface(t) && !isIface(et) {
			ev = iface{et, ev}
		}
		vm.store(addr, copyVal(ev))
		return nil
	})
	for _, n := range []string{"SetString", "SetInt", "SetBool", "SetFloat", "SetUint"} {
		M(n, func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
			if addr == nil {
				vm.rtPanic("reflect: Set using unaddressable value")
			}
			nv := a[1]
			if w, s, ok := intInfo(t); ok {
				switch x := nv.(type) {
				case int64:
					nv = normInt(x, w, s)
				case *Expr:
					nv = lowerI(vm.T.Ext(x, true, w), w, s)
				}
			}
			vm.set(addr, nv)
			return nil
		})
	}
	M("Convert", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		to := a[1].(iface).v.(rtypeV).t
		if isIface(to) {
			if isIface(t) {
				return vm.mkRV(to, v, nil)
			}
			return vm.mkRV(to, iface{t, v}, nil)
		}
		return vm.mkRV(to, vm.convert(v, t, to), nil)
	})
	M("Comparable", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val { return types.Comparable(t) })
	M("Slice", func(vm *VM, t types.Type, v Val, addr *Val, a []Val) Val {
		i, j := vm.concInt(a[1], 64, true), vm.concInt(a[2], 64, true)
		if s, ok := v.([]Val); ok {
			return vm.mkRV(t, s[i:j], nil)
		}
		unsupported("reflect slice")
		return nil
	})
	N["internal/reflectlite.Swapper"] = func(vm *VM, a []Val) Val {
		s, ok := a[0].(iface).v.([]Val)
		if !ok {
			unsupported("swapper")
		}
		return &Fn{name: "swapper", nat: func(vm *VM, b []Val) Val {
			i, j := vm.index(b[0], 64, true, len(s)), vm.index(b[1], 64, true, len(s))
			x, y := copyVal(s[i]), copyVal(s[j])
			vm.store(&s[i], y)
			vm.store(&s[j], x)
			return nil
		}}
	}
	N["reflect.Swapper"] = N["internal/reflectlite.Swapper"]
	N["github.com/mohae/deepcopy.Copy"] = func(vm *VM, a []Val) Val {
		i := a[0].(iface)
		if i.t == nil {
			return i
		}
		return iface{i.t, vm.deepCopyT(i.v, i.t, 0)}
	}
	N["reflect.Copy"] = func(vm *VM, a []Val) Val { unsupported("reflect.Copy"); return nil }
	_ = strings.Builder{}
}
