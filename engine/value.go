package main

import (
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is any Go value of the program under analysis.  Scalars keep their
// concrete bits in n (sign- or zero-extended to 64 bits) unless o is a *Term.
type Value struct {
	n uint64
	o any
}

// Agg is a block of memory or an aggregate value (struct, array).
type Agg struct {
	c  []Value
	ep int32
}

// pointers: o=*Agg, n=index of the cell.  The pointee of an aggregate pointer
// is a cell whose o is the child *Agg.

type Slice struct {
	a             *Agg
	off, len, cap int
}

type SStr struct{ b []Value } // string with at least one symbolic byte

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn  *Func
	env []Value
}

type Tuple struct{ v []Value }

type RType struct {
	id      int
	t       types.Type
	methods map[string]*Func
}

type mapEntry struct {
	k, v Value
	dead bool
}

type Map struct {
	ents []mapEntry
	idx  map[any]int
	nsym int // entries with symbolic keys
	n    int
	ep   int32
	vm   *VM
}

type MapIter struct {
	m     *Map
	order []int
	pos   int
}

type StrIter struct {
	s   Value
	pos int
}

// DecF is a float64 that is the exact decimal mant * 10^-scale (at most 15
// significant digits, so decimal text and float64 determine each other).
type DecF struct {
	neg   *Term // bool
	mant  *Term // 64-bit
	scale int
	vm    *VM
	big   bool // the mantissa may be 10^15 or more; fixed when the value is looked at
}

type Builtin struct{ name string }

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		return true
	case *types.Basic:
		return t.Underlying().(*types.Basic).Kind() == types.UnsafePointer
	}
	return false
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func norm(n uint64, w uint8, signed bool) uint64 {
	switch {
	case w == 64:
		return n
	case signed:
		return uint64(sext(n, w))
	}
	return n & mask(w)
}

func (vm *VM) fromTerm(t *Term, signed bool) Value {
	if t.kind == KConst {
		if t.w == 1 {
			return Value{n: t.k}
		}
		return Value{n: norm(t.k, t.w, signed)}
	}
	return Value{o: t}
}

func (vm *VM) term(v Value, w uint8) *Term {
	if v.o == nil {
		return vm.tm.konst(w, v.n)
	}
	t, ok := v.o.(*Term)
	if !ok {
		panic(abortT{"internal: expected scalar"})
	}
	return t
}

func boolV(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

func intV(i int) Value         { return Value{n: uint64(int64(i))} }
func floatV(f float64) Value   { return Value{n: math.Float64bits(f)} }
func (v Value) float() float64 { return math.Float64frombits(v.n) }

func strV(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{o: s}
}

func strLen(v Value) int {
	switch s := v.o.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(abortT{"internal: not a string"})
}

func strAt(v Value, i int) Value {
	switch s := v.o.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SStr:
		return s.b[i]
	}
	panic(abortT{"internal: not a string"})
}

func strBytes(v Value) []Value {
	switch s := v.o.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := range r {
			r[i].n = uint64(s[i])
		}
		return r
	case *SStr:
		return s.b
	}
	panic(abortT{"internal: not a string"})
}

func mkStr(b []Value) Value {
	for i := range b {
		if b[i].o != nil {
			return Value{o: &SStr{append([]Value(nil), b...)}}
		}
	}
	if len(b) == 0 {
		return Value{}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for i := range b {
		sb.WriteByte(byte(b[i].n))
	}
	return Value{o: sb.String()}
}

func strSub(v Value, i, j int) Value {
	switch s := v.o.(type) {
	case nil:
		return v
	case string:
		return strV(s[i:j])
	case *SStr:
		return mkStr(s.b[i:j])
	}
	panic(abortT{"internal: not a string"})
}

func concreteStr(v Value) (string, bool) {
	switch s := v.o.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func (vm *VM) strConcat(a, b Value) Value {
	if x, ok := concreteStr(a); ok {
		if y, ok := concreteStr(b); ok {
			return strV(x + y)
		}
		if x == "" {
			return b
		}
	}
	if strLen(b) == 0 {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return Value{o: &SStr{r}}
}

// zero returns the zero value of a type.
func (vm *VM) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{c: make([]Value, u.NumFields()), ep: vm.epoch}
		for i := range a.c {
			if isAgg(u.Field(i).Type()) {
				a.c[i] = vm.zero(u.Field(i).Type())
			}
		}
		return Value{o: a}
	case *types.Array:
		a := &Agg{c: make([]Value, u.Len()), ep: vm.epoch}
		if isAgg(u.Elem()) {
			for i := range a.c {
				a.c[i] = vm.zero(u.Elem())
			}
		}
		return Value{o: a}
	}
	return Value{}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// copyVal copies an aggregate value (memory is mutable, values are not).
func (vm *VM) copyVal(v Value) Value {
	a, ok := v.o.(*Agg)
	if !ok {
		return v
	}
	n := &Agg{c: make([]Value, len(a.c)), ep: vm.epoch}
	copy(n.c, a.c)
	return Value{o: n}
}

// loadAgg deep-copies the aggregate of type t stored in memory.
func (vm *VM) loadAgg(a *Agg, t types.Type) *Agg {
	n := &Agg{c: make([]Value, len(a.c)), ep: vm.epoch}
	copy(n.c, a.c)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := range n.c {
			ft := u.Field(i).Type()
			if isAgg(ft) {
				n.c[i].o = vm.loadAgg(n.c[i].o.(*Agg), ft)
			}
		}
	case *types.Array:
		if isAgg(u.Elem()) {
			for i := range n.c {
				n.c[i].o = vm.loadAgg(n.c[i].o.(*Agg), u.Elem())
			}
		}
	}
	return n
}

func (vm *VM) storeAgg(dst, src *Agg, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := range dst.c {
			ft := u.Field(i).Type()
			if isAgg(ft) {
				vm.storeAgg(dst.c[i].o.(*Agg), src.c[i].o.(*Agg), ft)
			} else {
				vm.setCell(dst, i, src.c[i])
			}
		}
	case *types.Array:
		if isAgg(u.Elem()) {
			for i := range dst.c {
				vm.storeAgg(dst.c[i].o.(*Agg), src.c[i].o.(*Agg), u.Elem())
			}
		} else {
			for i := range dst.c {
				vm.setCell(dst, i, src.c[i])
			}
		}
	}
}

func (vm *VM) setCell(a *Agg, i int, v Value) {
	if a.ep < vm.epoch {
		vm.oldWrite(a, i)
	}
	a.c[i] = v
}

func (vm *VM) loadCell(a *Agg, i int, t types.Type, agg bool) Value {
	if agg {
		return Value{o: vm.loadAgg(a.c[i].o.(*Agg), t)}
	}
	return a.c[i]
}

func (vm *VM) storeCell(a *Agg, i int, v Value, t types.Type, agg bool) {
	if agg {
		vm.storeAgg(a.c[i].o.(*Agg), v.o.(*Agg), t)
		return
	}
	vm.setCell(a, i, v)
}

// newCell allocates one cell holding the zero value of t and returns a pointer.
func (vm *VM) newCell(t types.Type) Value {
	a := &Agg{c: []Value{vm.zero(t)}, ep: vm.epoch}
	return Value{o: a}
}

func (vm *VM) newSlice(t types.Type, n, c int) Value {
	a := &Agg{c: make([]Value, c), ep: vm.epoch}
	if isAgg(t) {
		for i := range a.c {
			a.c[i] = vm.zero(t)
		}
	}
	return Value{o: &Slice{a: a, len: n, cap: c}}
}

func (vm *VM) bytesSlice(b []Value) Value {
	a := &Agg{c: append([]Value(nil), b...), ep: vm.epoch}
	return Value{o: &Slice{a: a, len: len(b), cap: len(b)}}
}

func sliceOf(v Value) *Slice {
	if v.o == nil {
		return &Slice{}
	}
	return v.o.(*Slice)
}

func (vm *VM) sliceVals(v Value) []Value {
	s := sliceOf(v)
	if s.a == nil {
		return nil
	}
	return s.a.c[s.off : s.off+s.len]
}

// --- types ---

func (vm *VM) rtype(t types.Type) *RType {
	if r := vm.rtypes.At(t); r != nil {
		return r.(*RType)
	}
	r := &RType{id: vm.nrt, t: t, methods: map[string]*Func{}}
	vm.nrt++
	vm.rtypes.Set(t, r)
	return r
}

func (vm *VM) method(r *RType, m *types.Func) *Func {
	key := m.Id()
	if f, ok := r.methods[key]; ok {
		return f
	}
	var pkg *types.Package = m.Pkg()
	f := vm.prog.LookupMethod(r.t, pkg, m.Name())
	var fn *Func
	if f != nil {
		fn = vm.fn(f)
	}
	r.methods[key] = fn
	return fn
}

func (vm *VM) implements(r *RType, it *types.Interface) bool {
	key := implKey{r, it}
	if b, ok := vm.impl[key]; ok {
		return b
	}
	b := types.Implements(r.t, it)
	vm.impl[key] = b
	return b
}

type implKey struct {
	r *RType
	i *types.Interface
}

// --- equality ---

// eq returns the boolean term a == b for values of type t.
func (vm *VM) eq(t types.Type, a, b Value) *Term {
	tm := vm.tm
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return vm.strEq(a, b)
		case u.Info()&types.IsFloat != 0:
			return vm.floatCmp("==", a, b)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return tm.boolc(a.o == b.o && a.n == b.n)
		case u.Info()&types.IsComplex != 0:
			panic(abortT{"unsupported: complex"})
		}
		if a.o == nil && b.o == nil {
			return tm.boolc(a.n == b.n)
		}
		w, _, _ := intInfo(t)
		return tm.bin(KEq, vm.term(a, w), vm.term(b, w))
	case *types.Struct:
		x, y := a.o.(*Agg), b.o.(*Agg)
		r := tm.True
		for i := range x.c {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = tm.bin(KAnd, r, vm.eq(u.Field(i).Type(), x.c[i], y.c[i]))
			if r == tm.False {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.o.(*Agg), b.o.(*Agg)
		r := tm.True
		for i := range x.c {
			r = tm.bin(KAnd, r, vm.eq(u.Elem(), x.c[i], y.c[i]))
			if r == tm.False {
				return r
			}
		}
		return r
	case *types.Interface:
		return vm.ifaceEq(a, b)
	case *types.Signature, *types.Map, *types.Slice:
		return tm.boolc(a.o == nil && b.o == nil)
	}
	return tm.boolc(a.o == b.o && a.n == b.n)
}

func (vm *VM) ifaceEq(a, b Value) *Term {
	tm := vm.tm
	if a.o == nil || b.o == nil {
		return tm.boolc(a.o == nil && b.o == nil)
	}
	x, y := a.o.(*Iface), b.o.(*Iface)
	if x.t != y.t {
		return tm.False
	}
	if !types.Comparable(x.t.t) {
		vm.rtPanic("comparing uncomparable type " + x.t.t.String())
	}
	return vm.eq(x.t.t, x.v, y.v)
}

func (vm *VM) strEq(a, b Value) *Term {
	tm := vm.tm
	if strLen(a) != strLen(b) {
		return tm.False
	}
	x, ok1 := concreteStr(a)
	y, ok2 := concreteStr(b)
	if ok1 && ok2 {
		return tm.boolc(x == y)
	}
	n := strLen(a)
	if n == 0 {
		return tm.True
	}
	r := tm.True
	for i := 0; i < n; i++ {
		p, q := strAt(a, i), strAt(b, i)
		if p.o == nil && q.o == nil {
			if p.n != q.n {
				return tm.False
			}
			continue
		}
		r = tm.bin(KAnd, r, tm.bin(KEq, vm.term(p, 8), vm.term(q, 8)))
		if r == tm.False {
			return r
		}
	}
	return r
}

// strLess returns a < b.
func (vm *VM) strLess(a, b Value) *Term {
	tm := vm.tm
	x, ok1 := concreteStr(a)
	y, ok2 := concreteStr(b)
	if ok1 && ok2 {
		return tm.boolc(x < y)
	}
	n := min(strLen(a), strLen(b))
	r := tm.boolc(strLen(a) < strLen(b))
	for i := n - 1; i >= 0; i-- {
		p, q := vm.term(strAt(a, i), 8), vm.term(strAt(b, i), 8)
		r = tm.bin(KOr, tm.bin(KUlt, p, q), tm.bin(KAnd, tm.bin(KEq, p, q), r))
	}
	return r
}

// hashKey returns a comparable native key for a fully concrete value.
func (vm *VM) hashKey(t types.Type, v Value) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := concreteStr(v)
			return s, ok
		}
		if v.o == nil {
			return v.n, true
		}
		if u.Kind() == types.UnsafePointer {
			return v, true
		}
		return nil, false
	case *types.Interface:
		if v.o == nil {
			return nil, true
		}
		i := v.o.(*Iface)
		k, ok := vm.hashKey(i.t.t, i.v)
		return [2]any{i.t, k}, ok
	case *types.Pointer, *types.Chan:
		return v, true
	case *types.Array, *types.Struct:
		a := v.o.(*Agg)
		var key any = "agg"
		for i := range a.c {
			var et types.Type
			if s, ok := u.(*types.Struct); ok {
				et = s.Field(i).Type()
			} else {
				et = u.(*types.Array).Elem()
			}
			k, ok := vm.hashKey(et, a.c[i])
			if !ok {
				return nil, false
			}
			key = [2]any{key, k}
		}
		return key, true
	}
	return nil, false
}

// mapFind returns the index of the entry equal to k, or -1 (forking when the
// comparison is symbolic).
func (vm *VM) mapFind(m *Map, kt types.Type, k Value) int {
	if m == nil {
		return -1
	}
	key, ok := vm.hashKey(kt, k)
	if ok {
		if i, found := m.idx[key]; found {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		if ok {
			if _, conc := vm.hashKey(kt, e.k); conc {
				continue
			}
		}
		c := vm.eq(kt, e.k, k)
		if c == vm.tm.False {
			continue
		}
		if vm.decide(c) {
			return i
		}
	}
	return -1
}

func (vm *VM) mapSet(m *Map, kt types.Type, k, v Value) {
	if m.ep < vm.epoch {
		vm.oldMapWrite(m)
	}
	if i := vm.mapFind(m, kt, k); i >= 0 {
		m.ents[i].v = v
		return
	}
	if key, ok := vm.hashKey(kt, k); ok {
		m.idx[key] = len(m.ents)
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, mapEntry{k: k, v: v})
	m.n++
}

func (vm *VM) mapDelete(m *Map, kt types.Type, k Value) {
	if m == nil {
		return
	}
	if m.ep < vm.epoch {
		vm.oldMapWrite(m)
	}
	i := vm.mapFind(m, kt, k)
	if i < 0 {
		return
	}
	if key, ok := vm.hashKey(kt, m.ents[i].k); ok {
		delete(m.idx, key)
	} else {
		m.nsym--
	}
	m.ents[i].dead = true
	m.n--
}

func (vm *VM) newMap() *Map { return &Map{idx: map[any]int{}, ep: vm.epoch, vm: vm} }

var _ = ssa.Function{}
