package main

import (
	"go/types"
)

// Models of the parts of sync, sync/atomic, errors and time that have no Go
// body or rely on unsafe.

// silentSet stores without the write monitor: atomic accesses are no races.
func (vm *VM) silentSet(a *Agg, i int, v Value) {
	if a.ep == 0 && !vm.initing {
		vm.undo = append(vm.undo, undoRec{a, i, a.c[i]})
	}
	a.c[i] = v
}

type cellKey struct {
	a *Agg
	i uint64
}

type smap struct{ k, v []Value }

// lastCell is the last field of the struct a pointer points to.
func lastCell(p Value) (*Agg, int) {
	st := p.o.(*Agg).c[p.n].o.(*Agg)
	return st, len(st.c) - 1
}

func (vm *VM) ptrTerm(a, b Value) bool { return a.o == b.o && (a.o == nil || a.n == b.n) }

func init() {
	I := intrinsics
	for _, k := range []struct {
		n string
		w uint8
		s bool
	}{{"Int32", 32, true}, {"Int64", 64, true}, {"Uint32", 32, false}, {"Uint64", 64, false}, {"Uintptr", 64, false}} {
		k := k
		ptr := func(v Value) (*Agg, int) { return v.o.(*Agg), int(v.n) }
		I["sync/atomic.Load"+k.n] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			x, i := ptr(a[0])
			return x.c[i], true
		}
		I["sync/atomic.Store"+k.n] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			x, i := ptr(a[0])
			vm.silentSet(x, i, a[1])
			return Value{}, true
		}
		I["sync/atomic.Swap"+k.n] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			x, i := ptr(a[0])
			old := x.c[i]
			vm.silentSet(x, i, a[1])
			return old, true
		}
		I["sync/atomic.Add"+k.n] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			x, i := ptr(a[0])
			v := vm.fromTerm(vm.tm.bin(KAdd, vm.term(x.c[i], k.w), vm.term(a[1], k.w)), k.s)
			vm.silentSet(x, i, v)
			return v, true
		}
		I["sync/atomic.CompareAndSwap"+k.n] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			x, i := ptr(a[0])
			if !vm.decideT(vm.tm.bin(KEq, vm.term(x.c[i], k.w), vm.term(a[1], k.w))) {
				return boolV(false), true
			}
			vm.silentSet(x, i, a[2])
			return boolV(true), true
		}
	}
	// atomic.Pointer[T], atomic.Value: the last field holds the value
	for _, n := range []string{"(*sync/atomic.Pointer[T]).", "(*sync/atomic.Value)."} {
		n := n
		I[n+"Load"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			c, i := lastCell(a[0])
			return c.c[i], true
		}
		I[n+"Store"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			c, i := lastCell(a[0])
			vm.silentSet(c, i, a[1])
			return Value{}, true
		}
		I[n+"Swap"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			c, i := lastCell(a[0])
			old := c.c[i]
			vm.silentSet(c, i, a[1])
			return old, true
		}
		I[n+"CompareAndSwap"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			c, i := lastCell(a[0])
			same := vm.ptrTerm(c.c[i], a[1])
			if n == "(*sync/atomic.Value)." {
				same = vm.decideT(vm.ifaceEq(c.c[i], a[1]))
			}
			if same {
				vm.silentSet(c, i, a[2])
			}
			return boolV(same), true
		}
	}
	I["time.runtimeNano"] = func(vm *VM, fn *Func, a []Value) (Value, bool) { return intV(1), true }
	I["sync/atomic.runtime_procPin"] = func(vm *VM, fn *Func, a []Value) (Value, bool) { return Value{}, true }

	// A pool hands out what was put into it last. While writes are monitored it
	// hands out new values: those of a pool belong to one call at a time.
	I["(*sync.Pool).Put"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		if vm.frz == 0 && !vm.initing && a[1].o != nil {
			if vm.pools == nil {
				vm.pools = map[cellKey][]Value{}
			}
			k := cellKey{a[0].o.(*Agg), a[0].n}
			vm.pools[k] = append(vm.pools[k], a[1])
		}
		return Value{}, true
	}
	fresh := I["(*sync.Pool).Get"]
	I["(*sync.Pool).Get"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		k := cellKey{a[0].o.(*Agg), a[0].n}
		if l := vm.pools[k]; vm.frz == 0 && len(l) > 0 {
			vm.pools[k] = l[:len(l)-1]
			return l[len(l)-1], true
		}
		return fresh(vm, fn, a)
	}

	find := func(vm *VM, m *smap, k Value) int {
		for i := range m.k {
			if vm.decideT(vm.ifaceEq(m.k[i], k)) {
				return i
			}
		}
		return -1
	}
	get := func(vm *VM, p Value) *smap {
		if vm.smaps == nil {
			vm.smaps = map[cellKey]*smap{}
		}
		k := cellKey{p.o.(*Agg), p.n}
		if vm.smaps[k] == nil {
			vm.smaps[k] = &smap{}
		}
		return vm.smaps[k]
	}
	load := func(del bool) intrinsic {
		return func(vm *VM, fn *Func, a []Value) (Value, bool) {
			m := get(vm, a[0])
			i := find(vm, m, a[1])
			if i < 0 {
				return tuple(Value{}, boolV(false)), true
			}
			v := m.v[i]
			if del {
				m.k = append(append([]Value{}, m.k[:i]...), m.k[i+1:]...)
				m.v = append(append([]Value{}, m.v[:i]...), m.v[i+1:]...)
			}
			return tuple(v, boolV(true)), true
		}
	}
	store := func(vm *VM, p, k, v Value) {
		m := get(vm, p)
		if i := find(vm, m, k); i >= 0 {
			m.v[i] = v
			return
		}
		m.k, m.v = append(m.k, k), append(m.v, v)
	}
	I["(*sync.Map).Load"] = load(false)
	I["(*sync.Map).LoadAndDelete"] = load(true)
	I["(*sync.Map).Delete"] = func(vm *VM, fn *Func, a []Value) (Value, bool) { load(true)(vm, fn, a); return Value{}, true }
	I["(*sync.Map).Store"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		store(vm, a[0], a[1], a[2])
		return Value{}, true
	}
	I["(*sync.Map).LoadOrStore"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		m := get(vm, a[0])
		if i := find(vm, m, a[1]); i >= 0 {
			return tuple(m.v[i], boolV(true)), true
		}
		store(vm, a[0], a[1], a[2])
		return tuple(a[2], boolV(false)), true
	}
	I["(*sync.Map).Clear"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		*get(vm, a[0]) = smap{}
		return Value{}, true
	}
	I["(*sync.Map).Range"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		m := *get(vm, a[0])
		for i := range m.k {
			if !vm.decideT(vm.term(vm.callValue(a[1], []Value{m.k[i], m.v[i]}), 1)) {
				break
			}
		}
		return Value{}, true
	}
	for _, n := range []string{"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		I[n] = func(vm *VM, fn *Func, a []Value) (Value, bool) { return Value{}, true }
	}

	I["errors.As"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		e := a[0]
		if e.o == nil {
			return boolV(false), true
		}
		if a[1].o == nil {
			return Value{}, false
		}
		t := a[1].o.(*Iface)
		pt, ok := t.t.t.Underlying().(*types.Pointer)
		if !ok || t.v.o == nil {
			return Value{}, false
		}
		want := pt.Elem()
		it, isIface := want.Underlying().(*types.Interface)
		cell, at := t.v.o.(*Agg), int(t.v.n)
		for e.o != nil {
			i := e.o.(*Iface)
			if isIface && vm.implements(i.t, it) {
				vm.storeCell(cell, at, e, want, false)
				return boolV(true), true
			}
			if !isIface && types.Identical(i.t.t, want) {
				vm.storeCell(cell, at, i.v, want, isAgg(want))
				return boolV(true), true
			}
			if vm.hasMeth(i.t, "As") {
				return Value{}, false
			}
			if !vm.hasMeth(i.t, "Unwrap") {
				return boolV(false), true
			}
			r, _ := vm.callMethod(i, "Unwrap")
			if _, ok := r.o.(*Slice); ok {
				return Value{}, false
			}
			e = r
		}
		return boolV(false), true
	}
}
