package vm

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------- maps ----------
// Up to 8 entries the table mirrors the runtime's small swiss map: insertion goes to
// the first free slot and iteration visits the slots cyclically from an arbitrary start.

func (vm *VM) mapFind(m *mapV, k Val) int {
	if m == nil || m.n == 0 {
		vm.checkHashable(k)
		return -1
	}
	hk, conc := hashKey(k)
	if !conc {
		return vm.mapFindSym(m, k)
	}
	if m.idx != nil {
		if i, ok := m.idx[hk]; ok {
			return i
		}
	}
	// symbolic keys stored in the map?
	for i := range m.slots {
		s := &m.slots[i]
		if !s.used {
			continue
		}
		if _, c := hashKey(s.k); c {
			continue
		}
		e := vm.eq(s.k, k)
		if vm.branch(e, "mapkey") {
			return i
		}
	}
	return -1
}

func (vm *VM) checkHashable(k Val) {
	if i, ok := k.(iface); ok && i.t != nil {
		if _, isRt := i.v.(rtypeV); !isRt && !types.Comparable(i.t) {
			vm.rtPanic("hash of unhashable type " + i.t.String())
		}
	}
}

func (vm *VM) mapFindSym(m *mapV, k Val) int {
	for i := range m.slots {
		s := &m.slots[i]
		if !s.used {
			continue
		}
		if vm.branch(vm.eq(s.k, k), "mapkey") {
			return i
		}
	}
	return -1
}

func (vm *VM) mapGet(m *mapV, k Val) (Val, bool) {
	vm.checkHashable(k)
	i := vm.mapFind(m, k)
	if i < 0 {
		return nil, false
	}
	return m.slots[i].v, true
}

func (vm *VM) mapSet(m *mapV, k, v Val) {
	vm.checkHashable(k)
	i := vm.mapFind(m, k)
	if i >= 0 {
		old := m.slots[i].v
		m.slots[i].v = v
		vm.onUndo(func() { m.slots[i].v = old })
		return
	}
	pos := -1
	if len(m.slots) <= 8 {
		for j := range m.slots {
			if !m.slots[j].used {
				pos = j
				break
			}
		}
	}
	grew := false
	if pos < 0 {
		m.slots = append(m.slots, mslot{})
		pos = len(m.slots) - 1
		grew = true
	}
	m.slots[pos] = mslot{true, k, v}
	m.n++
	hk, conc := hashKey(k)
	if conc {
		if m.idx == nil {
			m.idx = map[any]int{}
		}
		m.idx[hk] = pos
	}
	vm.onUndo(func() {
		m.n--
		if conc {
			delete(m.idx, hk)
		}
		if grew {
			m.slots = m.slots[:pos]
		} else {
			m.slots[pos] = mslot{}
		}
	})
}

func (vm *VM) mapDelete(m *mapV, k Val) {
	i := vm.mapFind(m, k)
	if i < 0 {
		return
	}
	old := m.slots[i]
	hk, conc := hashKey(old.k)
	m.slots[i] = mslot{}
	m.n--
	if conc {
		delete(m.idx, hk)
	}
	vm.onUndo(func() {
		m.slots[i] = old
		m.n++
		if conc {
			m.idx[hk] = i
		}
	})
}

func (vm *VM) mapClear(m *mapV) {
	if m == nil {
		return
	}
	os, oi, on := m.slots, m.idx, m.n
	m.slots, m.idx, m.n = nil, nil, 0
	vm.onUndo(func() { m.slots, m.idx, m.n = os, oi, on })
}

func (vm *VM) newIter(m *mapV, inFlow bool) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	if len(m.slots) <= 8 {
		it.size = 8
	}
	if inFlow && m.n >= 2 && len(m.slots) <= 8 && !vm.perm && vm.mapRotOn && vm.sc.mapForks < vm.Opt.MapRot {
		// distinct rotations: one per occupied starting slot
		var occ []int
		for i := range m.slots {
			if m.slots[i].used {
				occ = append(occ, i)
			}
		}
		k := vm.fork(len(occ), "maporder")
		vm.sc.mapForks++
		it.start = occ[k]
	}
	return it
}

func (vm *VM) iterNext(it *mapIter) (Val, Val, bool) {
	m := it.m
	if m == nil {
		return nil, nil, false
	}
	for {
		i := it.pos
		if it.size == 8 {
			// small table: all 8 slots, cyclically from the start
			if it.pos >= 8 {
				return nil, nil, false
			}
			i = (it.start + it.pos) % 8
			if len(m.slots) > 8 {
				unsupported("map grew beyond 8 entries while being ranged over")
			}
		} else if i >= len(m.slots) {
			return nil, nil, false
		}
		old := it.pos
		it.pos++
		vm.onUndo(func() { it.pos = old })
		if i >= len(m.slots) {
			continue
		}
		if s := m.slots[i]; s.used {
			return s.k, s.v, true
		}
	}
}

// ---------- channels ----------

func (vm *VM) block(why string, pred func(vm *VM) bool) {
	panic(blockGor{pred, why})
}

func (vm *VM) chanSend(c *chanV, v Val) {
	if c == nil {
		vm.block("send on nil channel", func(*VM) bool { return false })
	}
	if c.closed {
		panic(goPanic{iface{vm.P.rtErrType, structV{"send on closed channel"}}})
	}
	// an unbuffered send completes when a receiver takes the value; it is modelled
	// as a one-slot hand-over: the sender may run ahead of the receiver.
	lim := c.cap
	if lim == 0 {
		lim = 1
	}
	if len(c.buf) >= lim {
		vm.block("channel send", func(*VM) bool { return len(c.buf) < lim || c.closed })
	}
	old := c.buf
	c.buf = append(append([]Val(nil), c.buf...), v)
	vm.onUndo(func() { c.buf = old })
}

func (vm *VM) chanRecv(c *chanV, et types.Type) (Val, bool) {
	if c == nil {
		vm.block("receive on nil channel", func(*VM) bool { return false })
	}
	if len(c.buf) == 0 {
		if c.closed {
			return zero(et), false
		}
		vm.block("channel receive", func(*VM) bool { return len(c.buf) > 0 || c.closed })
	}
	v := c.buf[0]
	old := c.buf
	c.buf = append([]Val(nil), c.buf[1:]...)
	vm.onUndo(func() { c.buf = old })
	return v, true
}

func (cc *compiler) sel(x *ssa.Select) instr {
	dst := cc.regs[x]
	type st struct {
		ch, v opnd
		send  bool
		et    types.Type
	}
	var sts []st
	for _, s := range x.States {
		e := st{ch: cc.op(s.Chan), send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if e.send {
			e.v = cc.op(s.Send)
		}
		sts = append(sts, e)
	}
	blocking := x.Blocking
	nrecv := 0
	for _, s := range sts {
		if !s.send {
			nrecv++
		}
	}
	return func(vm *VM, f *Frame) {
		chans := make([]*chanV, len(sts))
		var ready []int
		isReady := func(i int) bool {
			c := chans[i]
			if c == nil {
				return false
			}
			if sts[i].send {
				lim := c.cap
				if lim == 0 {
					lim = 1
				}
				return c.closed || len(c.buf) < lim
			}
			return len(c.buf) > 0 || c.closed
		}
		for i := range sts {
			chans[i], _ = sts[i].ch.get(vm, f).(*chanV)
			if isReady(i) {
				ready = append(ready, i)
			}
		}
		res := make(tupleV, 2+nrecv)
		k := 2
		for _, s := range sts {
			if !s.send {
				res[k] = zero(s.et)
				k++
			}
		}
		if len(ready) == 0 {
			if !blocking {
				res[0], res[1] = int64(-1), false
				f.regs[dst] = res
				return
			}
			vm.block("select", func(*VM) bool {
				for i := range sts {
					if isReady(i) {
						return true
					}
				}
				return false
			})
		}
		p := ready[vm.fork(len(ready), "select")]
		res[0] = int64(p)
		res[1] = false
		if sts[p].send {
			vm.chanSend(chans[p], sts[p].v.get(vm, f))
		} else {
			v, ok := vm.chanRecv(chans[p], sts[p].et)
			k := 2
			for i, s := range sts {
				if s.send {
					continue
				}
				if i == p {
					res[k] = v
				}
				k++
			}
			res[1] = ok
		}
		f.regs[dst] = res
	}
}
