package vm

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// JSON is modelled at tree level: Marshal produces a []byte holding one boxed tree, so
// symbolic scalars survive a Marshal/Unmarshal round trip; concrete JSON text is parsed
// with the real encoding/json. Struct tags, omitempty, embedded structs, map keys and
// custom (Un)MarshalJSON methods follow encoding/json.

type jObj struct {
	k []string
	v []Val
}
type jArr struct{ v []Val }
type jNull struct{}
type jNum struct {
	v      Val
	signed bool
	isF    bool
}
type jsonBox struct{ tree Val }

type jField struct {
	name  string
	path  []int
	t     types.Type
	omit  bool
	quote bool
}

func jsonFields(t *types.Struct) []jField {
	var out []jField
	var walk func(st *types.Struct, path []int)
	seen := map[string]int{}
	walk = func(st *types.Struct, path []int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			name := parts[0]
			p := append(append([]int(nil), path...), i)
			if f.Anonymous() && name == "" {
				ft := f.Type()
				if pt, ok := ft.Underlying().(*types.Pointer); ok {
					ft = pt.Elem()
				}
				if es, ok := ft.Underlying().(*types.Struct); ok {
					walk(es, p)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			omit := false
			for _, o := range parts[1:] {
				if o == "omitempty" {
					omit = true
				}
			}
			jf := jField{name: name, path: p, t: f.Type(), omit: omit}
			if j, ok := seen[name]; ok {
				if len(out[j].path) > len(p) {
					out[j] = jf
				}
				continue
			}
			seen[name] = len(out)
			out = append(out, jf)
		}
	}
	walk(t, nil)
	return out
}

func (vm *VM) jsonMethod(t types.Type, name string) *Fn {
	k := [2]any{canon(t), "json:" + name}
	if r, ok := fmtMeth.Load(k); ok {
		return r.(*Fn)
	}
	buildMu.Lock()
	sel := vm.P.SSA.MethodSets.MethodSet(t)
	buildMu.Unlock()
	var fn *Fn
	for i := 0; i < sel.Len(); i++ {
		if o, ok := sel.At(i).Obj().(*types.Func); ok && o.Name() == name {
			fn = vm.P.method(t, o)
		}
	}
	fmtMeth.Store(k, fn)
	return fn
}

type jsonErr struct{ msg Val }

func (vm *VM) toTree(v Val, t types.Type, depth int) Val {
	if depth > 100 {
		panic(jsonErr{"json: unsupported value: encountered a cycle"})
	}
	if isIface(t) {
		i := v.(iface)
		if i.t == nil {
			return jNull{}
		}
		return vm.toTree(i.v, i.t, depth+1)
	}
	if p, ok := v.(*Val); ok {
		if p == nil {
			return jNull{}
		}
	}
	if typeString(t) == "json.RawMessage" {
		b, _ := v.([]Val)
		if b == nil {
			return jNull{}
		}
		return vm.bytesTree(b)
	}
	if m := vm.jsonMethod(t, "MarshalJSON"); m != nil {
		r := vm.runSync(m, []Val{v}).(tupleV)
		if e := r[1].(iface); e.t != nil {
			panic(jsonErr{e})
		}
		return vm.bytesTree(r[0].([]Val))
	}
	if tm := vm.jsonMethod(t, "MarshalText"); tm != nil {
		r := vm.runSync(tm, []Val{v}).(tupleV)
		if e := r[1].(iface); e.t != nil {
			panic(jsonErr{e})
		}
		return mkStr(r[0].([]Val))
	}
	switch x := v.(type) {
	case string, *SymStr, *OpaqueStr, bool:
		return x
	case *Expr:
		if x.W == 0 {
			return x
		}
		_, s, _ := intInfo(t)
		return jNum{v: x, signed: s}
	case int64:
		_, s, _ := intInfo(t)
		return jNum{v: x, signed: s}
	case float64:
		return jNum{v: x, isF: true}
	case *OpaqueFloat:
		return jNum{v: x, isF: true}
	case *Val:
		return vm.toTree(*x, elemOf(t), depth+1)
	case structV:
		o := &jObj{}
		for _, f := range jsonFields(t.Underlying().(*types.Struct)) {
			var cur Val = x
			ok := true
			for _, i := range f.path {
				if pp, isP := cur.(*Val); isP {
					if pp == nil {
						ok = false
						break
					}
					cur = *pp
				}
				cur = cur.(structV)[i]
			}
			if !ok {
				continue
			}
			if f.omit && vm.isEmptyJSON(cur) {
				continue
			}
			o.k = append(o.k, f.name)
			o.v = append(o.v, vm.toTree(cur, f.t, depth+1))
		}
		return o
	case []Val:
		if x == nil {
			return jNull{}
		}
		et := elemOf(t)
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			s := mkStr(x)
			if cs, ok := s.(string); ok {
				return base64.StdEncoding.EncodeToString([]byte(cs))
			}
			unsupported("base64 of symbolic bytes")
		}
		a := &jArr{}
		for _, e := range x {
			a.v = append(a.v, vm.toTree(e, et, depth+1))
		}
		return a
	case arrayV:
		a := &jArr{}
		for _, e := range x {
			a.v = append(a.v, vm.toTree(e, elemOf(t), depth+1))
		}
		return a
	case *mapV:
		if x == nil {
			return jNull{}
		}
		mt := t.Underlying().(*types.Map)
		o := &jObj{}
		type kv struct {
			k string
			v Val
		}
		var kvs []kv
		for _, s := range x.slots {
			if !s.used {
				continue
			}
			var ks string
			switch k := s.k.(type) {
			case string:
				ks = k
			case int64:
				ks = jsonInt(k)
			case iface:
				panic(jsonErr{"json: unsupported type: " + typeString(t)})
			default:
				unsupported("json of map with symbolic keys")
			}
			kvs = append(kvs, kv{ks, vm.toTree(s.v, mt.Elem(), depth+1)})
		}
		if b, ok := mt.Key().Underlying().(*types.Basic); !ok || b.Info()&(types.IsString|types.IsInteger) == 0 {
			panic(jsonErr{"json: unsupported type: " + typeString(t)})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		for _, e := range kvs {
			o.k = append(o.k, e.k)
			o.v = append(o.v, e.v)
		}
		return o
	case *Fn, *chanV:
		panic(jsonErr{"json: unsupported type: " + typeString(t)})
	}
	unsupported("json of %T", v)
	return nil
}

func jsonInt(k int64) string { b, _ := json.Marshal(k); return string(b) }

func (vm *VM) isEmptyJSON(v Val) bool {
	switch x := v.(type) {
	case string:
		return x == ""
	case *SymStr:
		return len(x.b) == 0
	case *OpaqueStr:
		return false
	case bool:
		return !x
	case int64:
		return x == 0
	case float64:
		return x == 0
	case *Expr:
		if x.W == 0 {
			if vm.inNest > 0 {
				unsupported("omitempty on a symbolic value below a native frame")
			}
			return !vm.branch(x, "omitempty")
		}
		if vm.inNest > 0 {
			unsupported("omitempty on a symbolic value below a native frame")
		}
		return vm.branch(vm.eq(x, int64(0)), "omitempty")
	case []Val:
		return len(x) == 0
	case *mapV:
		return x == nil || x.n == 0
	case *Val:
		return x == nil
	case iface:
		return x.t == nil
	case arrayV:
		return len(x) == 0
	}
	return false
}

func (vm *VM) bytesTree(b []Val) Val {
	space := func(v Val) bool { c, ok := v.(uint8); return ok && (c == ' ' || c == '\n' || c == '\t' || c == '\r') }
	for len(b) > 1 && space(b[len(b)-1]) {
		b = b[:len(b)-1]
	}
	for len(b) > 1 && space(b[0]) {
		b = b[1:]
	}
	if len(b) == 1 {
		if bx, ok := b[0].(*jsonBox); ok {
			return bx.tree
		}
		if d, ok := asDec(b[0]); ok {
			return jNum{v: d.e, signed: d.signed}
		}
	}
	s, ok := mkStr(b).(string)
	if !ok {
		unsupported("parsing symbolic JSON text")
	}
	t, err := parseTree(s)
	if err != "" {
		panic(jsonErr{err})
	}
	return t
}

func parseTree(s string) (Val, string) {
	d := json.NewDecoder(bytes.NewReader([]byte(s)))
	d.UseNumber()
	if !json.Valid([]byte(s)) {
		var x any
		if err := json.Unmarshal([]byte(s), &x); err != nil {
			return nil, err.Error()
		}
	}
	var rd func() (Val, error)
	rd = func() (Val, error) {
		tk, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch x := tk.(type) {
		case json.Delim:
			if x == '{' {
				o := &jObj{}
				for d.More() {
					k, err := d.Token()
					if err != nil {
						return nil, err
					}
					v, err := rd()
					if err != nil {
						return nil, err
					}
					o.k = append(o.k, k.(string))
					o.v = append(o.v, v)
				}
				d.Token()
				return o, nil
			}
			a := &jArr{}
			for d.More() {
				v, err := rd()
				if err != nil {
					return nil, err
				}
				a.v = append(a.v, v)
			}
			d.Token()
			return a, nil
		case json.Number:
			if i, err := x.Int64(); err == nil {
				return jNum{v: i, signed: true}, nil
			}
			f, err := x.Float64()
			return jNum{v: f, isF: true}, err
		case string:
			return x, nil
		case bool:
			return x, nil
		case nil:
			return jNull{}, nil
		}
		return nil, nil
	}
	v, err := rd()
	if err != nil {
		return nil, err.Error()
	}
	return v, ""
}

// treeToAny decodes into interface{}.
func (vm *VM) treeToAny(t Val, useNumber bool) Val {
	switch x := t.(type) {
	case jNull:
		return iface{}
	case string, *SymStr, *OpaqueStr:
		return mkIface(tString, x)
	case bool:
		return mkIface(tBool, x)
	case *Expr:
		return mkIface(tBool, x)
	case jNum:
		if useNumber {
			unsupported("json.Number decoding")
		}
		return mkIface(tFloat64, vm.numFloat(x))
	case *jArr:
		s := make([]Val, len(x.v))
		for i, e := range x.v {
			s[i] = vm.treeToAny(e, useNumber)
		}
		return mkIface(tSliceA, s)
	case *jObj:
		m := &mapV{}
		for i, k := range x.k {
			vm.mapSet(m, k, vm.treeToAny(x.v[i], useNumber))
		}
		return mkIface(tMapSA, m)
	}
	unsupported("json tree %T", t)
	return nil
}

func (vm *VM) numFloat(n jNum) Val {
	if n.isF {
		return n.v
	}
	switch x := n.v.(type) {
	case int64:
		if n.signed {
			return float64(x)
		}
		return float64(uint64(x))
	case *Expr:
		if x.W > 32 {
			vm.exactFloat(x, n.signed, 1<<53)
		}
		return &OpaqueFloat{x, n.signed}
	}
	return n.v
}

func (vm *VM) fromTree(tr Val, p *Val, t types.Type, depth int) {
	if depth > 100 {
		unsupported("json decode depth")
	}
	if typeString(t) == "json.RawMessage" {
		vm.store(p, []Val{&jsonBox{tr}})
		return
	}
	pt := types.NewPointer(t)
	if _, isNull := tr.(jNull); !isNull || true {
		if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
			if m := vm.jsonMethod(pt, "UnmarshalJSON"); m != nil {
				r := vm.runSync(m, []Val{p, []Val{&jsonBox{tr}}})
				if e := r.(iface); e.t != nil {
					panic(jsonErr{e})
				}
				return
			}
			if m := vm.jsonMethod(pt, "UnmarshalText"); m != nil {
				if s, ok := tr.(string); ok {
					b, _ := strBytes(s)
					r := vm.runSync(m, []Val{p, b})
					if e := r.(iface); e.t != nil {
						panic(jsonErr{e})
					}
					return
				}
			}
		}
	}
	bad := func(what string) {
		panic(jsonErr{"json: cannot unmarshal " + what + " into Go value of type " + typeString(t)})
	}
	if _, ok := tr.(jNull); ok {
		switch t.Underlying().(type) {
		case *types.Interface, *types.Pointer, *types.Map, *types.Slice:
			vm.store(p, zero(t))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		q, _ := (*p).(*Val)
		if q == nil {
			q = new(Val)
			*q = zero(u.Elem())
			vm.set(p, q)
		}
		vm.fromTree(tr, q, u.Elem(), depth+1)
	case *types.Interface:
		if u.NumMethods() > 0 {
			bad("value")
		}
		vm.set(p, vm.treeToAny(tr, false))
	case *types.Struct:
		o, ok := tr.(*jObj)
		if !ok {
			bad("value")
		}
		fs := jsonFields(u)
		for i, k := range o.k {
			var hit *jField
			for j := range fs {
				if fs[j].name == k {
					hit = &fs[j]
					break
				}
			}
			if hit == nil {
				for j := range fs {
					if strings.EqualFold(fs[j].name, k) {
						hit = &fs[j]
						break
					}
				}
			}
			if hit == nil {
				continue
			}
			cell := p
			ct := t
			for _, ix := range hit.path {
				if pp, isP := (*cell).(*Val); isP {
					if pp == nil {
						pp = new(Val)
						*pp = zero(elemOf(ct))
						vm.set(cell, pp)
					}
					cell = pp
					ct = elemOf(ct)
				}
				ct = ct.Underlying().(*types.Struct).Field(ix).Type()
				cell = &(*cell).(structV)[ix]
			}
			vm.fromTree(o.v[i], cell, hit.t, depth+1)
		}
	case *types.Map:
		o, ok := tr.(*jObj)
		if !ok {
			bad("value")
		}
		m, _ := (*p).(*mapV)
		if m == nil {
			m = &mapV{}
			vm.set(p, m)
		}
		for i, k := range o.k {
			var kv Val = k
			if _, _, isInt := intInfo(u.Key()); isInt {
				var n int64
				if json.Unmarshal([]byte(k), &n) != nil {
					bad("key")
				}
				kv = n
			}
			c := new(Val)
			*c = zero(u.Elem())
			vm.fromTree(o.v[i], c, u.Elem(), depth+1)
			vm.mapSet(m, kv, *c)
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			s, ok := tr.(string)
			if !ok {
				bad("value")
			}
			raw, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				panic(jsonErr{err.Error()})
			}
			bs, _ := strBytes(string(raw))
			vm.set(p, append([]Val(nil), bs...))
			return
		}
		a, ok := tr.(*jArr)
		if !ok {
			bad("value")
		}
		s := make([]Val, len(a.v))
		for i := range s {
			s[i] = zero(u.Elem())
			vm.fromTree(a.v[i], &s[i], u.Elem(), depth+1)
		}
		vm.set(p, s)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if typeString(t) == "json.Number" {
				if n, ok := tr.(jNum); ok {
					vm.set(p, vm.fmtVal(n.v, types.Typ[types.Int64], 'v', "", 0))
					return
				}
			}
			switch tr.(type) {
			case string, *SymStr, *OpaqueStr:
				vm.set(p, tr)
				return
			}
			bad("value")
		case u.Info()&types.IsBoolean != 0:
			switch b := tr.(type) {
			case bool:
				vm.set(p, b)
				return
			case *Expr:
				if b.W == 0 {
					vm.set(p, b)
					return
				}
			}
			bad("value")
		case u.Info()&types.IsInteger != 0:
			n, ok := tr.(jNum)
			if !ok || n.isF {
				bad("number")
			}
			w, s, _ := intInfo(t)
			switch x := n.v.(type) {
			case int64:
				if normInt(x, w, s) != x {
					bad("number")
				}
				vm.set(p, x)
			case *Expr:
				e := x
				if x.W > w {
					// value must fit
					back := vm.T.Ext(vm.T.Ext(x, n.signed, w), s, x.W)
					if vm.inNest > 0 {
						unsupported("narrowing symbolic JSON number")
					}
					if !vm.branch(lowerB(vm.T.Eq(back, x)), "jsonfit") {
						bad("number")
					}
				}
				vm.set(p, lowerI(vm.T.Ext(e, n.signed, w), w, s))
			}
		case u.Info()&types.IsFloat != 0:
			n, ok := tr.(jNum)
			if !ok {
				bad("value")
			}
			vm.set(p, vm.numFloat(n))
		}
	default:
		bad("value")
	}
}

func (vm *VM) jsonCatch(f func()) (errv Val) {
	errv = iface{}
	depth := len(vm.g.frames)
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				vm.g.frames = vm.g.frames[:depth]
				switch m := je.msg.(type) {
				case iface:
					errv = m
				default:
					errv = vm.mkErr(m)
				}
				return
			}
			panic(r)
		}
	}()
	f()
	return
}

// treeText renders a concrete tree as JSON text ("" if symbolic).
func treeText(t Val) (string, bool) {
	switch x := t.(type) {
	case jNull:
		return "null", true
	case string:
		b, _ := json.Marshal(x)
		return string(b), true
	case bool:
		if x {
			return "true", true
		}
		return "false", true
	case jNum:
		switch n := x.v.(type) {
		case int64:
			if x.signed {
				return jsonInt(n), true
			}
			b, _ := json.Marshal(uint64(n))
			return string(b), true
		case float64:
			b, err := json.Marshal(n)
			return string(b), err == nil
		}
		return "", false
	case *jArr:
		var s []string
		for _, e := range x.v {
			q, ok := treeText(e)
			if !ok {
				return "", false
			}
			s = append(s, q)
		}
		return "[" + strings.Join(s, ",") + "]", true
	case *jObj:
		var s []string
		for i, e := range x.v {
			q, ok := treeText(e)
			if !ok {
				return "", false
			}
			kb, _ := json.Marshal(x.k[i])
			s = append(s, string(kb)+":"+q)
		}
		return "{" + strings.Join(s, ",") + "}", true
	}
	return "", false
}

func registerJSON(N map[string]natFunc) {
	marshal := func(vm *VM, a []Val) Val {
		var tr Val
		e := vm.jsonCatch(func() {
			i := a[0].(iface)
			if i.t == nil {
				tr = jNull{}
				return
			}
			tr = vm.toTree(i.v, i.t, 0)
		})
		if e.(iface).t != nil {
			return tupleV{[]Val(nil), e}
		}
		if s, ok := treeText(tr); ok {
			b, _ := strBytes(s)
			return tupleV{append([]Val(nil), b...), iface{}}
		}
		return tupleV{[]Val{&jsonBox{tr}}, iface{}}
	}
	N["encoding/json.Marshal"] = marshal
	N["encoding/json.MarshalIndent"] = marshal
	N["encoding/json.Unmarshal"] = func(vm *VM, a []Val) Val {
		return vm.jsonCatch(func() {
			i := a[1].(iface)
			p, ok := i.v.(*Val)
			if !ok || p == nil {
				panic(jsonErr{"json: Unmarshal(non-pointer)"})
			}
			tr := vm.bytesTree(a[0].([]Val))
			if m := vm.jsonMethod(i.t, "UnmarshalJSON"); m != nil {
				r := vm.runSync(m, []Val{p, []Val{&jsonBox{tr}}})
				if e := r.(iface); e.t != nil {
					panic(jsonErr{e})
				}
				return
			}
			vm.fromTree(tr, p, elemOf(i.t), 0)
		})
	}
	N["encoding/json.Valid"] = func(vm *VM, a []Val) Val {
		b := a[0].([]Val)
		if len(b) == 1 {
			if _, ok := b[0].(*jsonBox); ok {
				return true
			}
		}
		return json.Valid([]byte(str(mkStr(b))))
	}
	N["(encoding/json.RawMessage).MarshalJSON"] = func(vm *VM, a []Val) Val { return tupleV{a[0], iface{}} }
	// decoders over a reader: the reader's bytes are collected by the harness model
}
