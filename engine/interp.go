package main

import (
	"cmp"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type abortT struct{ reason string } // engine gives up on this path
type endT struct{ kind string }     // path ends normally (assume, done)
type specAbort struct{}             // speculation/merge cannot continue

// tpanic is a panic of the program under analysis.
type tpanic struct {
	val Value // interface value
	msg string
	pos string
}

type undoRec struct {
	a *Agg
	i int
	v Value
}
type undoMap struct {
	m    *Map
	ents []mapEntry
	idx  map[any]int
	nsym int
	n    int
}

type VM struct {
	prog              *ssa.Program
	eng               *Engine
	tm                *TM
	solver            *Solver
	cross             *Solver
	funcs             map[*ssa.Function]*Func
	globals           map[*ssa.Global]*Agg
	rtypes            typeutil.Map
	nrt               int
	impl              map[implKey]bool
	epoch             int32
	pools             map[cellKey][]Value // contents of sync.Pools
	smaps             map[cellKey]*smap   // contents of sync.Maps
	undo              []undoRec
	undoM             []undoMap
	frz               int32
	writes            []string
	steps             int64
	maxStep, extra    int64
	depth, peak       int
	maxDep            int
	p                 *Path
	merge             *mergeCtx
	spec              int
	cur               *frame
	mergeOK, mergeBad int64
	blkCov            map[*Block]bool
	initing           bool
	errStr            types.Type
	mapMode           int
	nAudit, nAuditP   int
	reduced           map[string]int
	forkAt            map[string]int
}

type frame struct {
	f        *Func
	regs     []Value
	caller   *frame
	defers   []deferred
	panicked *tpanic
	recov    bool
	pos      token.Pos
	result   Value
}

type deferred struct {
	in   *Instr
	fn   Value
	args []Value
}

func (vm *VM) isRepo(path string) bool { return strings.HasPrefix(path, vm.eng.repoPath) }

func (vm *VM) global(g *ssa.Global) *Agg {
	if a := vm.globals[g]; a != nil {
		return a
	}
	ep := vm.epoch
	vm.epoch = 0
	a := vm.newCell(g.Type().Underlying().(*types.Pointer).Elem()).o.(*Agg)
	vm.epoch = ep
	vm.globals[g] = a
	return a
}

func (vm *VM) where() string {
	for fr := vm.cur; fr != nil; fr = fr.caller {
		if fr.f.repo {
			p := vm.prog.Fset.Position(fr.pos)
			return fmt.Sprintf("%s (%s:%d)", fr.f.name, shortPath(p.Filename), p.Line)
		}
	}
	if vm.cur != nil {
		return vm.cur.f.name
	}
	return "?"
}

func (vm *VM) oldWrite(a *Agg, i int) {
	if a.ep == 0 && !vm.initing {
		vm.undo = append(vm.undo, undoRec{a, i, a.c[i]})
	}
	if vm.frz > 0 && a.ep < vm.frz {
		vm.writes = append(vm.writes, vm.where())
	}
}

func (vm *VM) oldMapWrite(m *Map) {
	if m.ep == 0 && !vm.initing {
		idx := make(map[any]int, len(m.idx))
		for k, v := range m.idx {
			idx[k] = v
		}
		vm.undoM = append(vm.undoM, undoMap{m, append([]mapEntry(nil), m.ents...), idx, m.nsym, m.n})
	}
	if vm.frz > 0 && m.ep < vm.frz {
		vm.writes = append(vm.writes, vm.where())
	}
}

func (vm *VM) rollback() {
	for i := len(vm.undo) - 1; i >= 0; i-- {
		u := &vm.undo[i]
		u.a.c[u.i] = u.v
	}
	vm.undo = vm.undo[:0]
	for i := len(vm.undoM) - 1; i >= 0; i-- {
		u := &vm.undoM[i]
		u.m.ents, u.m.idx, u.m.nsym, u.m.n = u.ents, u.idx, u.nsym, u.n
	}
	vm.undoM = vm.undoM[:0]
}

func (vm *VM) mkError(msg string) Value {
	cell := vm.newCell(vm.errStr).o.(*Agg)
	cell.c[0].o.(*Agg).c[0] = strV(msg)
	return Value{o: &Iface{t: vm.rtype(types.NewPointer(vm.errStr)), v: Value{o: cell}}}
}

func (vm *VM) rtPanic(msg string) {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	panic(&tpanic{val: vm.mkError("runtime error: " + msg), msg: "runtime error: " + msg, pos: vm.where()})
}

func (fr *frame) get(i int32) Value {
	if i >= 0 {
		return fr.regs[i]
	}
	return fr.f.consts[^i]
}

func (vm *VM) callFn(fn *Func, args []Value, env []Value) Value {
	if fn.intr != nil {
		if r, ok := fn.intr(vm, fn, args); ok {
			return r
		}
	}
	if fn.isInit && !vm.eng.wantInit(fn.ssa.Pkg.Pkg.Path()) {
		return Value{}
	}
	if !fn.compiled {
		vm.compile(fn)
	}
	if len(fn.blocks) == 0 {
		panic(abortT{"unsupported: no body for " + fn.name})
	}
	if fn.isInit && vm.initing {
		return vm.runInit(fn)
	}
	// merge pure calls with symbolic scalar arguments
	if fn.pure >= 0 && !vm.initing {
		sym := false
		for i := range args {
			if _, ok := args[i].o.(*Term); ok {
				sym = true
				break
			}
		}
		if sym && (fn.pure > 0 || pureFunc(vm, fn.ssa, nil)) {
			if r, ok := vm.callMerged(fn, args, env); ok {
				return r
			}
			if vm.spec > 0 {
				panic(specAbort{})
			}
		}
	}
	return vm.run(fn, args, env)
}

// run2 runs a compiled function without arguments.
func (vm *VM) run2(fn *Func) {
	if !fn.compiled {
		vm.compile(fn)
	}
	vm.run(fn, nil, nil)
}

// runInit runs a package initialiser; what cannot be executed (reflection in
// the standard library) leaves the remaining variables of that package zero.
func (vm *VM) runInit(fn *Func) Value {
	cur, dep := vm.cur, vm.depth
	defer func() {
		if r := recover(); r != nil {
			vm.cur, vm.depth = cur, dep
			why := fmt.Sprint(r)
			switch r := r.(type) {
			case abortT:
				why = r.reason
			case *tpanic:
				why = r.msg
			}
			p := fn.ssa.Pkg.Pkg.Path()
			logf("init of %s stopped: %s", p, why)
			if vm.isRepo(p) || strings.HasPrefix(p, "verif/") {
				vm.eng.noteSafe("initialisation of " + p + " stopped: " + why)
			}
		}
	}()
	return vm.run(fn, nil, nil)
}

func (vm *VM) run(fn *Func, args []Value, env []Value) Value {
	vm.depth++
	if vm.depth > vm.peak {
		vm.peak = vm.depth
	}
	if vm.depth > vm.maxDep {
		panic(abortT{"depth limit"})
	}
	fr := &frame{f: fn, regs: make([]Value, fn.nregs), caller: vm.cur}
	for i, p := range fn.params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.freevars {
		fr.regs[p] = env[i]
	}
	save, dep := vm.cur, vm.depth
	vm.cur = fr
	if !fn.hasDefer {
		r := vm.exec(fr, 0)
		vm.cur = save
		vm.depth = dep - 1
		return r
	}
	r := vm.execDefer(fr, save, dep)
	vm.cur = save
	vm.depth = dep - 1
	return r
}

func (vm *VM) execDefer(fr *frame, save *frame, dep int) (res Value) {
	done := false
	func() {
		defer func() {
			if done {
				return
			}
			r := recover()
			tp, ok := r.(*tpanic)
			if !ok {
				panic(r)
			}
			vm.cur = fr
			vm.depth = dep
			fr.panicked = tp
			fr.recov = false
			vm.runDefers(fr)
		}()
		res = vm.exec(fr, 0)
		done = true
	}()
	if done {
		return res
	}
	if fr.panicked != nil && !fr.recov {
		panic(fr.panicked)
	}
	fr.panicked = nil
	if fr.f.recover >= 0 {
		return vm.exec(fr, fr.f.recover)
	}
	return vm.zeroResult(fr.f.ssa.Signature)
}

func (vm *VM) zeroResult(sig *types.Signature) Value {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return Value{}
	case 1:
		return vm.zero(r.At(0).Type())
	}
	t := &Tuple{}
	for i := 0; i < r.Len(); i++ {
		t.v = append(t.v, vm.zero(r.At(i).Type()))
	}
	return Value{o: t}
}

func (vm *VM) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if fr.panicked == nil {
			vm.doDeferred(fr, d)
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*tpanic)
					if !ok {
						panic(r)
					}
					fr.panicked = tp
					fr.recov = false
					vm.cur = fr
				}
			}()
			vm.doDeferred(fr, d)
		}()
		if fr.recov {
			fr.panicked = nil
			fr.recov = true
		}
	}
}

func (vm *VM) doDeferred(fr *frame, d deferred) {
	in := d.in
	switch Op(in.c) {
	case opBuiltin:
		vm.builtin(fr, in, d.args)
	default:
		vm.callValue(d.fn, d.args)
	}
}

func (vm *VM) callValue(fv Value, args []Value) Value {
	c, ok := fv.o.(*Closure)
	if !ok || c == nil {
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	return vm.callFn(c.fn, args, c.env)
}

func (vm *VM) bump(fr *frame) {
	vm.steps++
	if vm.steps > vm.maxStep+vm.extra {
		panic(abortT{"step limit"})
	}
}

func (vm *VM) exec(fr *frame, start int32) Value {
	blocks := fr.f.blocks
	bi := start
	prev := int32(-1)
	var tmp [8]Value
	for {
		b := &blocks[bi]
		if fr.f.repo && b.hits == 0 {
			vm.noteCover(fr.f, b)
		}
		b.hits++
		vm.steps += int64(len(b.instrs)) + 1
		if vm.steps > vm.maxStep+vm.extra {
			panic(abortT{"step limit"})
		}
		if prev >= 0 {
			if mv := b.edges[prev]; len(mv) > 0 {
				if len(mv) == 1 {
					fr.regs[mv[0].dst] = fr.get(mv[0].src)
				} else {
					t := tmp[:0]
					for _, m := range mv {
						t = append(t, fr.get(m.src))
					}
					for i, m := range mv {
						fr.regs[m.dst] = t[i]
					}
				}
			}
		}
		n := len(b.instrs)
		for k := 0; k < n; k++ {
			in := &b.instrs[k]
			switch in.op {
			case opJump:
				prev, bi = bi, in.succ[0]
			case opIf:
				c := fr.get(in.a)
				if c.o == nil {
					if c.n != 0 {
						prev, bi = bi, in.succ[0]
					} else {
						prev, bi = bi, in.succ[1]
					}
				} else {
					fr.pos = in.pos
					prev, bi = vm.symIf(fr, b, in, c.o.(*Term))
				}
			case opReturn:
				switch len(in.args) {
				case 0:
					return Value{}
				case 1:
					return fr.get(in.args[0])
				}
				t := &Tuple{v: make([]Value, len(in.args))}
				for i, a := range in.args {
					t.v[i] = fr.get(a)
				}
				return Value{o: t}
			default:
				vm.step(fr, in)
			}
		}
	}
}

// symIf handles a branch on a symbolic condition and returns the (pred, next)
// blocks.
func (vm *VM) symIf(fr *frame, b *Block, in *Instr, c *Term) (int32, int32) {
	cur := b.idx
	for {
		sc := b.sc
		if sc == nil {
			break
		}
		c2, ok := vm.speculate(fr, sc, c)
		if !ok {
			break
		}
		if sc.diam {
			// value diamond: merge phis of the join block
			j := &fr.f.blocks[sc.join]
			ea, eb := j.edges[b.idx], j.edges[sc.b]
			vals := make([]Value, len(ea))
			for i := range ea {
				var src2 int32
				for _, m := range eb {
					if m.dst == ea[i].dst {
						src2 = m.src
					}
				}
				x, y := vm.term(fr.get(ea[i].src), 1), vm.term(fr.get(src2), 1)
				cc := c
				if sc.bOnTru {
					cc = vm.tm.not(c)
				}
				vals[i] = vm.fromTerm(vm.tm.ite(cc, x, y), false)
			}
			for i := range ea {
				fr.regs[ea[i].dst] = vals[i]
			}
			// enter the join block without re-running phi moves
			return -1, sc.join
		}
		// condition under which control reaches join
		enterB := c
		if !sc.bOnTru {
			enterB = vm.tm.not(c)
		}
		toJoinFromB := c2
		if !sc.joinT {
			toJoinFromB = vm.tm.not(c2)
		}
		join := vm.tm.andor(KOr, vm.tm.not(enterB), vm.tm.andor(KAnd, enterB, toJoinFromB))
		join2 := vm.tm.andor(KOr, vm.tm.not(enterB), toJoinFromB)
		_ = join
		if join2.kind == KConst {
			if join2.k == 1 {
				return cur, sc.join
			}
			return sc.b, sc.other
		}
		// try to extend the chain: B's If may itself start a short circuit with
		// the same join
		nb := &fr.f.blocks[sc.b]
		if nb.sc != nil && !nb.sc.diam && nb.sc.join == sc.join {
			// join when !enterB, or chain through B
			c3, ok := vm.speculate(fr, nb.sc, c2)
			if ok {
				enterC := c2
				if !nb.sc.bOnTru {
					enterC = vm.tm.not(c2)
				}
				tj := c3
				if !nb.sc.joinT {
					tj = vm.tm.not(c3)
				}
				j3 := vm.tm.andor(KOr, vm.tm.not(enterB), vm.tm.andor(KOr, vm.tm.not(enterC), tj))
				if vm.decideT(j3) {
					return cur, sc.join
				}
				return nb.sc.b, nb.sc.other
			}
		}
		if vm.decideT(join2) {
			return cur, sc.join
		}
		return sc.b, sc.other
	}
	if vm.decideT(c) {
		return cur, in.succ[0]
	}
	return cur, in.succ[1]
}

func (vm *VM) decideT(c *Term) bool {
	if c.kind == KConst {
		return c.k == 1
	}
	return vm.decide(c)
}

// speculate evaluates the instructions of the speculated block and returns its
// condition (or nil for a diamond).
func (vm *VM) speculate(fr *frame, sc *shortCircuit, c *Term) (t *Term, ok bool) {
	b := &fr.f.blocks[sc.b]
	if len(b.instrs) == 1 {
		// nothing to evaluate
		if sc.diam {
			return nil, true
		}
	}
	save, dep, m := vm.cur, vm.depth, vm.merge
	vm.spec++
	defer func() {
		vm.spec--
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				vm.cur, vm.depth, vm.merge = save, dep, m
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	for k := 0; k < len(b.instrs)-1; k++ {
		vm.step(fr, &b.instrs[k])
	}
	vm.steps += int64(len(b.instrs))
	if sc.diam {
		return nil, true
	}
	return vm.term(fr.get(b.instrs[len(b.instrs)-1].a), 1), true
}

func (vm *VM) step(fr *frame, in *Instr) {
	switch in.op {
	case opNop:
	case opBin:
		fr.regs[in.dst] = vm.binop(fr, in, fr.get(in.a), fr.get(in.b))
	case opNot:
		v := fr.get(in.a)
		if v.o == nil {
			fr.regs[in.dst] = Value{n: v.n ^ 1}
		} else {
			fr.regs[in.dst] = vm.fromTerm(vm.tm.not(v.o.(*Term)), false)
		}
	case opNeg:
		v := fr.get(in.a)
		if in.bk == bkFloat {
			if d, ok := v.o.(*DecF); ok {
				fr.regs[in.dst] = Value{o: &DecF{neg: vm.tm.not(d.neg), mant: d.mant, scale: d.scale, vm: vm, big: d.big}}
			} else {
				fr.regs[in.dst] = floatV(-v.float())
			}
		} else if v.o == nil {
			fr.regs[in.dst] = Value{n: norm(-v.n, in.w, in.signed)}
		} else {
			fr.regs[in.dst] = vm.fromTerm(vm.tm.neg(v.o.(*Term)), in.signed)
		}
	case opBNot:
		v := fr.get(in.a)
		if v.o == nil {
			fr.regs[in.dst] = Value{n: norm(^v.n, in.w, in.signed)}
		} else {
			fr.regs[in.dst] = vm.fromTerm(vm.tm.bnot(v.o.(*Term)), in.signed)
		}
	case opLoad:
		p := fr.get(in.a)
		a, ok := p.o.(*Agg)
		if !ok || a == nil {
			if sp, is := p.o.(*symPtr); is {
				fr.regs[in.dst] = vm.loadSym(fr, in, sp)
				return
			}
			fr.pos = in.pos
			vm.rtPanic("invalid memory address or nil pointer dereference")
		}
		if in.agg {
			fr.regs[in.dst] = Value{o: vm.loadAgg(a.c[p.n].o.(*Agg), in.t)}
		} else {
			fr.regs[in.dst] = a.c[p.n]
		}
	case opStore:
		p := fr.get(in.a)
		a, ok := p.o.(*Agg)
		if !ok || a == nil {
			fr.pos = in.pos
			if sp, is := p.o.(*symPtr); is {
				i := vm.concretize(sp.idx, 64)
				vm.storeCell(sp.a, sp.off+int(i), fr.get(in.b), in.t, in.agg)
				return
			}
			vm.rtPanic("invalid memory address or nil pointer dereference")
		}
		if in.agg {
			fr.pos = in.pos
			vm.storeAgg(a.c[p.n].o.(*Agg), fr.get(in.b).o.(*Agg), in.t)
		} else {
			if a.ep < vm.epoch {
				fr.pos = in.pos
				vm.oldWrite(a, int(p.n))
			}
			a.c[p.n] = fr.get(in.b)
		}
	case opFieldAddr:
		p := fr.get(in.a)
		a, ok := p.o.(*Agg)
		if !ok || a == nil {
			fr.pos = in.pos
			if sp, is := p.o.(*symPtr); is {
				i := vm.concretize(sp.idx, 64)
				a, p.n = sp.a, uint64(sp.off)+i
			} else {
				vm.rtPanic("invalid memory address or nil pointer dereference")
			}
		}
		fr.regs[in.dst] = Value{o: a.c[p.n].o.(*Agg), n: uint64(in.b)}
	case opField:
		fr.regs[in.dst] = fr.get(in.a).o.(*Agg).c[in.b]
	case opIndexAddr:
		fr.pos = in.pos
		fr.regs[in.dst] = vm.indexAddr(fr, in)
	case opIndex:
		fr.pos = in.pos
		fr.regs[in.dst] = vm.index(fr, in)
	case opCall:
		fr.pos = in.pos
		var buf [4]Value
		args := buf[:0]
		for _, a := range in.args {
			args = append(args, fr.get(a))
		}
		r := vm.callFn(in.fn, args, nil)
		if in.dst >= 0 {
			fr.regs[in.dst] = r
		}
	case opCallFn:
		fr.pos = in.pos
		args := make([]Value, len(in.args))
		for i, a := range in.args {
			args[i] = fr.get(a)
		}
		fr.regs[in.dst] = vm.callValue(fr.get(in.a), args)
	case opInvoke:
		fr.pos = in.pos
		fn, recv := vm.resolve(fr.get(in.a), in.meth)
		args := make([]Value, 1+len(in.args))
		args[0] = recv
		for i, a := range in.args {
			args[i+1] = fr.get(a)
		}
		fr.regs[in.dst] = vm.callFn(fn, args, nil)
	case opBuiltin:
		fr.pos = in.pos
		args := make([]Value, len(in.args))
		for i, a := range in.args {
			args[i] = fr.get(a)
		}
		r := vm.builtin(fr, in, args)
		if in.dst >= 0 {
			fr.regs[in.dst] = r
		}
	case opMove:
		fr.regs[in.dst] = fr.get(in.a)
	case opConvert:
		fr.pos = in.pos
		fr.regs[in.dst] = vm.convert(in, fr.get(in.a))
	case opAlloc:
		fr.regs[in.dst] = vm.newCell(in.t)
	case opMakeSlice:
		fr.pos = in.pos
		n := int64(vm.conc(fr.get(in.a)))
		c := int64(vm.conc(fr.get(in.b)))
		if n < 0 || n > 1<<24 {
			vm.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			vm.rtPanic("makeslice: cap out of range")
		}
		fr.regs[in.dst] = vm.newSlice(in.t, int(n), int(c))
	case opMakeMap:
		fr.regs[in.dst] = Value{o: vm.newMap()}
	case opMakeClosure:
		c := &Closure{fn: in.fn, env: make([]Value, len(in.args))}
		for i, a := range in.args {
			c.env[i] = fr.get(a)
		}
		fr.regs[in.dst] = Value{o: c}
	case opMakeIface:
		fr.regs[in.dst] = Value{o: &Iface{t: in.rt, v: fr.get(in.a)}}
	case opLookup:
		fr.pos = in.pos
		mv := fr.get(in.a)
		var m *Map
		if mv.o != nil {
			m = mv.o.(*Map)
		}
		i := vm.mapFind(m, in.t, fr.get(in.b))
		var v Value
		if i >= 0 {
			v = m.ents[i].v
		} else {
			v = vm.zero(in.t2)
		}
		if in.commaOk {
			fr.regs[in.dst] = Value{o: &Tuple{v: []Value{v, boolV(i >= 0)}}}
		} else {
			fr.regs[in.dst] = v
		}
	case opMapUpdate:
		fr.pos = in.pos
		mv := fr.get(in.a)
		if mv.o == nil {
			if vm.spec > 0 {
				panic(specAbort{})
			}
			panic(&tpanic{val: vm.mkError("assignment to entry in nil map"), msg: "assignment to entry in nil map", pos: vm.where()})
		}
		vm.mapSet(mv.o.(*Map), in.t, fr.get(in.b), fr.get(in.c))
	case opSlice:
		fr.pos = in.pos
		fr.regs[in.dst] = vm.sliceOp(fr, in)
	case opRange:
		v := fr.get(in.a)
		if _, ok := in.t.Underlying().(*types.Map); ok {
			it := &MapIter{}
			if v.o != nil {
				it.m = v.o.(*Map)
				it.order = vm.mapOrder(it.m)
			}
			fr.regs[in.dst] = Value{o: it}
		} else {
			fr.regs[in.dst] = Value{o: &StrIter{s: v}}
		}
	case opNext:
		fr.pos = in.pos
		fr.regs[in.dst] = vm.next(fr.get(in.a))
	case opAssert:
		fr.pos = in.pos
		fr.regs[in.dst] = vm.assert(in, fr.get(in.a))
	case opExtract:
		fr.regs[in.dst] = fr.get(in.a).o.(*Tuple).v[in.b]
	case opDefer:
		fr.pos = in.pos
		d := deferred{in: in}
		for _, a := range in.args {
			d.args = append(d.args, fr.get(a))
		}
		switch Op(in.c) {
		case opCall:
			d.fn = Value{o: &Closure{fn: in.fn}}
		case opCallFn:
			d.fn = fr.get(in.a)
		case opInvoke:
			fn, recv := vm.resolve(fr.get(in.a), in.meth)
			d.fn = Value{o: &Closure{fn: fn}}
			d.args = append([]Value{recv}, d.args...)
		}
		fr.defers = append(fr.defers, d)
	case opRunDefers:
		vm.runDefers(fr)
	case opPanic:
		fr.pos = in.pos
		if vm.spec > 0 {
			panic(specAbort{})
		}
		v := fr.get(in.a)
		panic(&tpanic{val: v, msg: "panic: " + vm.describe(v), pos: vm.where()})
	default:
		panic(abortT{"unsupported: " + in.name})
	}
}

func (vm *VM) describe(v Value) string {
	if v.o == nil {
		return "nil"
	}
	i, ok := v.o.(*Iface)
	if !ok {
		return "?"
	}
	if b, ok := i.t.t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsString != 0 {
			return vm.showStr(i.v)
		}
		if i.v.o == nil {
			return fmt.Sprint(int64(i.v.n))
		}
	}
	return "(" + i.t.t.String() + ")"
}

// showStr renders a possibly symbolic string under the current model.
func (vm *VM) showStr(v Value) string {
	if s, ok := concreteStr(v); ok {
		return s
	}
	b := strBytes(v)
	r := make([]byte, len(b))
	for i := range b {
		if b[i].o == nil {
			r[i] = byte(b[i].n)
		} else {
			r[i] = byte(vm.tm.eval(b[i].o.(*Term), vm.p.model))
		}
	}
	return string(r)
}

func (vm *VM) resolve(iv Value, m *types.Func) (*Func, Value) {
	if iv.o == nil {
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	i := iv.o.(*Iface)
	fn := vm.method(i.t, m)
	if fn == nil {
		panic(abortT{"unsupported: no method " + m.Name() + " on " + i.t.t.String()})
	}
	return fn, i.v
}

// conc returns the concrete value of a scalar, forking over its values.
func (vm *VM) conc(v Value) uint64 {
	if v.o == nil {
		return v.n
	}
	t := v.o.(*Term)
	return vm.concretize(t, t.w)
}

type symPtr struct {
	a   *Agg
	off int
	n   int
	idx *Term
}

func (vm *VM) boundsIdx(iv Value, w uint8, signed bool, n int) (idx int, t *Term) {
	if iv.o == nil {
		i := int64(iv.n)
		if !signed && iv.n > 1<<62 {
			i = -1
		}
		if i < 0 || i >= int64(n) {
			vm.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t = iv.o.(*Term)
	t64 := vm.tm.conv(t, 64, signed)
	in := vm.tm.bin(KUlt, t64, vm.tm.konst(64, uint64(n)))
	if !vm.decideT(in) {
		vm.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return 0, t64
}

func (vm *VM) indexAddr(fr *frame, in *Instr) Value {
	x := fr.get(in.a)
	var a *Agg
	off, n := 0, 0
	if in.bk == 0 {
		s := sliceOf(x)
		a, off, n = s.a, s.off, s.len
	} else {
		p, ok := x.o.(*Agg)
		if !ok || p == nil {
			vm.rtPanic("invalid memory address or nil pointer dereference")
		}
		a = p.c[x.n].o.(*Agg)
		n = len(a.c)
	}
	i, t := vm.boundsIdx(fr.get(in.b), in.w, in.signed, n)
	if t == nil {
		return Value{o: a, n: uint64(off + i)}
	}
	if t.kind == KConst {
		return Value{o: a, n: uint64(off) + t.k}
	}
	if in.agg {
		k := vm.concretize(t, 64)
		return Value{o: a, n: uint64(off) + k}
	}
	return Value{o: &symPtr{a: a, off: off, n: n, idx: t}}
}

// loadSym reads memory at a symbolic index.
func (vm *VM) loadSym(fr *frame, in *Instr, sp *symPtr) Value {
	vals := sp.a.c[sp.off : sp.off+sp.n]
	w, signed, ok := intInfo(in.t)
	if ok {
		if r, done := vm.selectTab(sp.idx, vals, w, signed); done {
			return r
		}
	}
	fr.pos = in.pos
	k := vm.concretize(sp.idx, 64)
	return vals[k]
}

func (vm *VM) selectTab(idx *Term, vals []Value, w uint8, signed bool) (Value, bool) {
	tm := vm.tm
	if idx.kind == KTab {
		allc := true
		tab := make([]uint64, len(idx.tab))
		d := &tm.dom[idx.v.ord]
		for i, x := range idx.tab {
			if !d.has(i) || x >= uint64(len(vals)) {
				continue
			}
			if vals[x].o != nil {
				allc = false
				break
			}
			tab[i] = vals[x].n
		}
		if allc {
			return vm.fromTerm(tm.mkTab(idx.v, w, tab), signed), true
		}
		seen := map[uint64]bool{}
		var r *Term
		for i, x := range idx.tab {
			if !d.has(i) || x >= uint64(len(vals)) || seen[x] {
				continue
			}
			seen[x] = true
			t := vm.term(vals[x], w)
			if r == nil {
				r = t
			} else {
				r = tm.ite(tm.bin(KEq, idx, tm.konst(64, x)), t, r)
			}
		}
		if r != nil {
			return vm.fromTerm(r, signed), true
		}
	}
	return Value{}, false
}

func (vm *VM) index(fr *frame, in *Instr) Value {
	x := fr.get(in.a)
	if in.bk == 3 {
		i, t := vm.boundsIdx(fr.get(in.b), in.w, in.signed, strLen(x))
		if t == nil {
			return strAt(x, i)
		}
		if t.kind == KConst {
			return strAt(x, int(t.k))
		}
		if r, ok := vm.selectTab(t, strBytes(x), 8, false); ok {
			return r
		}
		return strAt(x, int(vm.concretize(t, 64)))
	}
	a := x.o.(*Agg)
	i, t := vm.boundsIdx(fr.get(in.b), in.w, in.signed, len(a.c))
	if t == nil {
		return a.c[i]
	}
	if w, s, ok := intInfo(in.t2); ok && t.kind != KConst {
		if r, done := vm.selectTab(t, a.c, w, s); done {
			return r
		}
	}
	return a.c[vm.concretize(t, 64)]
}

func (vm *VM) sliceOp(fr *frame, in *Instr) Value {
	x := fr.get(in.a)
	get := func(i int32, def int) int {
		if i == -1<<30 {
			return def
		}
		return int(int64(vm.conc(fr.get(i))))
	}
	switch {
	case in.isPtr:
		p, ok := x.o.(*Agg)
		if !ok || p == nil {
			vm.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := p.c[x.n].o.(*Agg)
		n := len(a.c)
		lo := get(in.b, 0)
		hi := get(in.c, n)
		mx := get(in.d, n)
		if lo < 0 || hi < lo || mx < hi || mx > n {
			vm.rtPanic("slice bounds out of range")
		}
		return Value{o: &Slice{a: a, off: lo, len: hi - lo, cap: mx - lo}}
	}
	if _, ok := in.t.Underlying().(*types.Basic); ok {
		n := strLen(x)
		lo := get(in.b, 0)
		hi := get(in.c, n)
		if lo < 0 || hi < lo || hi > n {
			vm.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return strSub(x, lo, hi)
	}
	s := sliceOf(x)
	lo := get(in.b, 0)
	hi := get(in.c, s.len)
	mx := get(in.d, s.cap)
	if lo < 0 || hi < lo || mx < hi || mx > s.cap {
		vm.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, s.cap))
	}
	if s.a == nil {
		return Value{}
	}
	return Value{o: &Slice{a: s.a, off: s.off + lo, len: hi - lo, cap: mx - lo}}
}

func (vm *VM) next(iv Value) Value {
	switch it := iv.o.(type) {
	case *MapIter:
		for it.m != nil {
			if it.pos >= len(it.order) {
				break
			}
			i := it.order[it.pos]
			it.pos++
			if i >= len(it.m.ents) || it.m.ents[i].dead {
				continue
			}
			e := it.m.ents[i]
			return Value{o: &Tuple{v: []Value{{n: 1}, e.k, e.v}}}
		}
		return Value{o: &Tuple{v: []Value{{}, {}, {}}}}
	case *StrIter:
		n := strLen(it.s)
		if it.pos >= n {
			return Value{o: &Tuple{v: []Value{{}, {}, {}}}}
		}
		p := it.pos
		r, size := vm.decodeRune(it.s, p)
		it.pos += size
		return Value{o: &Tuple{v: []Value{{n: 1}, intV(p), r}}}
	}
	panic(abortT{"internal: next"})
}

// decodeRune decodes one rune at byte p (forking over ASCII / non-ASCII).
func (vm *VM) decodeRune(s Value, p int) (Value, int) {
	c := strAt(s, p)
	n := strLen(s)
	if c.o != nil {
		t := c.o.(*Term)
		if vm.decideT(vm.tm.bin(KUlt, t, vm.tm.konst(8, 0x80))) {
			return vm.fromTerm(vm.tm.conv(t, 32, false), true), 1
		}
	} else if c.n < 0x80 {
		return c, 1
	}
	// concretise the following bytes
	var b []byte
	for i := p; i < n && i < p+4; i++ {
		b = append(b, byte(vm.conc(strAt(s, i))))
	}
	r, size := decodeRuneB(b)
	return Value{n: uint64(int64(r))}, size
}

func (vm *VM) assert(in *Instr, v Value) Value {
	ok := false
	var res Value
	if v.o != nil {
		i := v.o.(*Iface)
		if in.it != nil {
			if vm.implements(i.t, in.it) {
				ok = true
				res = v
			}
		} else if i.t == in.rt {
			ok = true
			res = i.v
		}
	}
	if !ok {
		if !in.commaOk {
			vm.rtPanic("interface conversion: type assertion to " + in.t.String() + " failed")
		}
		res = vm.zero(in.t)
	}
	if in.commaOk {
		return Value{o: &Tuple{v: []Value{res, boolV(ok)}}}
	}
	return res
}

var tokKind = map[token.Token]Kind{token.ADD: KAdd, token.MUL: KMul, token.AND: KBAnd, token.OR: KBOr, token.XOR: KBXor}

func (vm *VM) binop(fr *frame, in *Instr, x, y Value) Value {
	op := token.Token(in.sub)
	switch in.bk {
	case bkInt:
		if x.o == nil && y.o == nil {
			a, b := x.n, y.n
			w, s := in.w, in.signed
			switch op {
			case token.ADD:
				return Value{n: norm(a+b, w, s)}
			case token.SUB:
				return Value{n: norm(a-b, w, s)}
			case token.MUL:
				return Value{n: norm(a*b, w, s)}
			case token.QUO, token.REM:
				if b == 0 {
					fr.pos = in.pos
					vm.rtPanic("integer divide by zero")
				}
				var r uint64
				if s {
					if int64(b) == -1 {
						if op == token.QUO {
							r = -a
						}
					} else if op == token.QUO {
						r = uint64(int64(a) / int64(b))
					} else {
						r = uint64(int64(a) % int64(b))
					}
				} else if op == token.QUO {
					r = a / b
				} else {
					r = a % b
				}
				return Value{n: norm(r, w, s)}
			case token.AND:
				return Value{n: a & b}
			case token.OR:
				return Value{n: a | b}
			case token.XOR:
				return Value{n: norm(a^b, w, s)}
			case token.AND_NOT:
				return Value{n: norm(a&^b, w, s)}
			case token.SHL:
				if in.commaOk && int64(b) < 0 {
					fr.pos = in.pos
					vm.rtPanic("negative shift amount")
				}
				if b >= 64 {
					return Value{}
				}
				return Value{n: norm(a<<b, w, s)}
			case token.SHR:
				if in.commaOk && int64(b) < 0 {
					fr.pos = in.pos
					vm.rtPanic("negative shift amount")
				}
				if s {
					if b >= 64 {
						b = 63
					}
					return Value{n: uint64(int64(a) >> b)}
				}
				if b >= 64 {
					return Value{}
				}
				return Value{n: a >> b}
			case token.EQL:
				return boolV(a == b)
			case token.NEQ:
				return boolV(a != b)
			case token.LSS:
				if s {
					return boolV(int64(a) < int64(b))
				}
				return boolV(a < b)
			case token.LEQ:
				if s {
					return boolV(int64(a) <= int64(b))
				}
				return boolV(a <= b)
			case token.GTR:
				if s {
					return boolV(int64(a) > int64(b))
				}
				return boolV(a > b)
			case token.GEQ:
				if s {
					return boolV(int64(a) >= int64(b))
				}
				return boolV(a >= b)
			}
			panic(abortT{"unsupported: int op " + op.String()})
		}
		return vm.symInt(fr, in, op, x, y)
	case bkString:
		switch op {
		case token.ADD:
			return vm.strConcat(x, y)
		case token.EQL:
			return vm.fromTerm(vm.strEq(x, y), false)
		case token.NEQ:
			return vm.fromTerm(vm.tm.not(vm.strEq(x, y)), false)
		case token.LSS:
			return vm.fromTerm(vm.strLess(x, y), false)
		case token.GTR:
			return vm.fromTerm(vm.strLess(y, x), false)
		case token.LEQ:
			return vm.fromTerm(vm.tm.not(vm.strLess(y, x)), false)
		case token.GEQ:
			return vm.fromTerm(vm.tm.not(vm.strLess(x, y)), false)
		}
	case bkFloat:
		if x.o == nil && y.o == nil {
			a, b := x.float(), y.float()
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.EQL:
				return boolV(a == b)
			case token.NEQ:
				return boolV(a != b)
			case token.LSS:
				return boolV(a < b)
			case token.LEQ:
				return boolV(a <= b)
			case token.GTR:
				return boolV(a > b)
			case token.GEQ:
				return boolV(a >= b)
			}
			if in.t.Underlying().(*types.Basic).Kind() == types.Float32 {
				r = float64(float32(r))
			}
			return floatV(r)
		}
		fr.pos = in.pos
		return vm.floatOp(op, x, y)
	}
	switch op {
	case token.EQL:
		fr.pos = in.pos
		return vm.fromTerm(vm.eq(in.t, x, y), false)
	case token.NEQ:
		fr.pos = in.pos
		return vm.fromTerm(vm.tm.not(vm.eq(in.t, x, y)), false)
	}
	panic(abortT{"unsupported: op " + op.String()})
}

func (vm *VM) symInt(fr *frame, in *Instr, op token.Token, x, y Value) Value {
	tm := vm.tm
	w, s := in.w, in.signed
	fr.pos = in.pos
	a := vm.term(x, w)
	if op == token.SHL || op == token.SHR {
		sw := uint8(in.c)
		b := vm.term(y, sw)
		if in.commaOk {
			if vm.decideT(tm.bin(KSlt, b, tm.konst(sw, 0))) {
				vm.rtPanic("negative shift amount")
			}
		}
		// shift amounts: clamp to w when larger
		if sw != w {
			if sw > w {
				big := tm.bin(KUlt, tm.konst(sw, mask(w)), b)
				b = tm.ite(big, tm.konst(w, mask(w)), tm.conv(b, w, false))
			} else {
				b = tm.conv(b, w, false)
			}
		}
		k := KShl
		if op == token.SHR {
			k = KLshr
			if s {
				k = KAshr
			}
		}
		return vm.fromTerm(tm.bin(k, a, b), s)
	}
	b := vm.term(y, w)
	switch op {
	case token.ADD:
		return vm.fromTerm(tm.bin(KAdd, a, b), s)
	case token.SUB:
		return vm.fromTerm(tm.bin(KAdd, a, tm.neg(b)), s)
	case token.MUL:
		return vm.fromTerm(tm.bin(KMul, a, b), s)
	case token.QUO, token.REM:
		if vm.decideT(tm.bin(KEq, b, tm.konst(w, 0))) {
			vm.rtPanic("integer divide by zero")
		}
		k := KUDiv
		if op == token.REM {
			k = KURem
		}
		if s {
			k += KSDiv - KUDiv
		}
		if r := vm.divFork(a, b, op == token.REM); r != nil {
			return vm.fromTerm(r, s)
		}
		return vm.fromTerm(tm.bin(k, a, b), s)
	case token.AND:
		return vm.fromTerm(tm.bin(KBAnd, a, b), s)
	case token.OR:
		return vm.fromTerm(tm.bin(KBOr, a, b), s)
	case token.XOR:
		return vm.fromTerm(tm.bin(KBXor, a, b), s)
	case token.AND_NOT:
		return vm.fromTerm(tm.bin(KBAnd, a, tm.bnot(b)), s)
	case token.EQL:
		return vm.fromTerm(tm.bin(KEq, a, b), false)
	case token.NEQ:
		return vm.fromTerm(tm.not(tm.bin(KEq, a, b)), false)
	}
	lt := KUlt
	if s {
		lt = KSlt
	}
	switch op {
	case token.LSS:
		return vm.fromTerm(tm.bin(lt, a, b), false)
	case token.GTR:
		return vm.fromTerm(tm.bin(lt, b, a), false)
	case token.LEQ:
		return vm.fromTerm(tm.not(tm.bin(lt, b, a)), false)
	case token.GEQ:
		return vm.fromTerm(tm.not(tm.bin(lt, a, b)), false)
	}
	panic(abortT{"unsupported: int op " + op.String()})
}

func (vm *VM) convert(in *Instr, v Value) Value {
	dw, ds, dint := intInfo(in.t)
	_, ss, sint := intInfo(in.t2)
	tb, _ := in.t.Underlying().(*types.Basic)
	fb, _ := in.t2.Underlying().(*types.Basic)
	switch {
	case dint && sint:
		if v.o == nil {
			return Value{n: norm(v.n, dw, ds)}
		}
		if _, ok := v.o.(*Term); !ok { // uintptr from unsafe.Pointer etc.
			return v
		}
		return vm.fromTerm(vm.tm.conv(v.o.(*Term), dw, ss), ds)
	case tb != nil && tb.Info()&types.IsString != 0:
		if sint { // string(rune)
			if v.o == nil {
				r := rune(v.n)
				if int64(v.n) > 0x10FFFF || int64(v.n) < 0 {
					r = 0xFFFD
				}
				return strV(string(r))
			}
			t := vm.tm.conv(v.o.(*Term), 64, ss)
			if vm.decideT(vm.tm.bin(KUlt, t, vm.tm.konst(64, 0x80))) {
				return mkStr([]Value{vm.fromTerm(vm.tm.conv(t, 8, false), false)})
			}
			return strV(string(rune(vm.concretize(t, 64))))
		}
		if s, ok := in.t2.Underlying().(*types.Slice); ok {
			if w, _, _ := intInfo(s.Elem()); w == 8 {
				return mkStr(vm.sliceVals(v))
			}
			var out []Value // []rune
			for _, r := range vm.sliceVals(v) {
				if r.o == nil {
					out = append(out, strBytes(strV(string(rune(r.n))))...)
					continue
				}
				t := r.o.(*Term)
				if vm.decideT(vm.tm.bin(KUlt, t, vm.tm.konst(32, 0x80))) {
					out = append(out, vm.fromTerm(vm.tm.conv(t, 8, false), false))
				} else {
					out = append(out, strBytes(strV(string(rune(vm.concretize(t, 32)))))...)
				}
			}
			return mkStr(out)
		}
		return v
	case fb != nil && fb.Info()&types.IsString != 0:
		if s, ok := in.t.Underlying().(*types.Slice); ok {
			if w, _, _ := intInfo(s.Elem()); w == 8 {
				return vm.bytesSlice(strBytes(v))
			}
			var out []Value
			for p := 0; p < strLen(v); {
				r, n := vm.decodeRune(v, p)
				out = append(out, r)
				p += n
			}
			return vm.bytesSlice(out)
		}
		return v
	case tb != nil && tb.Info()&types.IsFloat != 0:
		if sint {
			if v.o == nil {
				if ss {
					return floatV(float64(int64(v.n)))
				}
				return floatV(float64(v.n))
			}
			return vm.intToFloat(vm.tm.conv(v.o.(*Term), 64, ss), ss)
		}
		if v.o == nil && tb.Kind() == types.Float32 {
			return floatV(float64(float32(v.float())))
		}
		return v
	case fb != nil && fb.Info()&types.IsFloat != 0 && dint:
		if v.o == nil {
			f := v.float()
			if ds {
				return Value{n: norm(uint64(int64(f)), dw, ds)}
			}
			return Value{n: norm(uint64(f), dw, ds)}
		}
		return vm.floatToInt(v, dw, ds)
	}
	return v // pointers, unsafe.Pointer
}

func (vm *VM) builtin(fr *frame, in *Instr, args []Value) Value {
	switch in.name {
	case "len":
		switch x := args[0].o.(type) {
		case nil:
			if p, ok := in.t2.Underlying().(*types.Array); ok {
				return intV(int(p.Len()))
			}
			return Value{}
		case string, *SStr:
			return intV(strLen(args[0]))
		case *Slice:
			return intV(x.len)
		case *Map:
			return intV(x.n)
		case *Agg:
			if p, ok := in.t2.Underlying().(*types.Pointer); ok {
				return intV(int(p.Elem().Underlying().(*types.Array).Len()))
			}
			return intV(len(x.c))
		}
	case "cap":
		switch x := args[0].o.(type) {
		case nil:
			return Value{}
		case *Slice:
			return intV(x.cap)
		case *Agg:
			if p, ok := in.t2.Underlying().(*types.Pointer); ok {
				return intV(int(p.Elem().Underlying().(*types.Array).Len()))
			}
			return intV(len(x.c))
		}
	case "append":
		return vm.doAppend(in, args)
	case "copy":
		dst := sliceOf(args[0])
		var src []Value
		if _, ok := args[1].o.(*Slice); ok {
			src = vm.sliceVals(args[1])
		} else {
			src = strBytes(args[1])
		}
		n := min(dst.len, len(src))
		et := in.t2.Underlying().(*types.Slice).Elem()
		if isAgg(et) {
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i].o = vm.loadAgg(src[i].o.(*Agg), et)
			}
			for i := range tmp {
				vm.storeCell(dst.a, dst.off+i, tmp[i], et, true)
			}
		} else if n > 0 {
			if dst.a.ep < vm.epoch {
				tmp := append([]Value(nil), src[:n]...)
				for i := range tmp {
					vm.setCell(dst.a, dst.off+i, tmp[i])
				}
			} else {
				copy(dst.a.c[dst.off:dst.off+n], src[:n])
			}
		}
		return intV(n)
	case "delete":
		m, _ := args[0].o.(*Map)
		vm.mapDelete(m, in.t2.Underlying().(*types.Map).Key(), args[1])
		return Value{}
	case "clear":
		switch x := args[0].o.(type) {
		case nil:
			return Value{}
		case *Map:
			if x.ep < vm.epoch {
				vm.oldMapWrite(x)
			}
			x.ents, x.idx, x.nsym, x.n = nil, map[any]int{}, 0, 0
		case *Slice:
			et := in.t2.Underlying().(*types.Slice).Elem()
			for i := 0; i < x.len; i++ {
				vm.storeCell(x.a, x.off+i, vm.zero(et), et, isAgg(et))
			}
		}
		return Value{}
	case "panic":
		panic(&tpanic{val: args[0], msg: "panic: " + vm.describe(args[0]), pos: vm.where()})
	case "recover":
		// called from a deferred function: the panicking frame is the caller's
		// caller (deferred function's caller frame)
		if f := fr.caller; f != nil && f.panicked != nil && !f.recov {
			f.recov = true
			v := f.panicked.val
			if v.o == nil {
				return vm.mkError("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			return v
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		r := args[0]
		w, s, ok := intInfo(in.t)
		if !ok {
			b, _ := in.t.Underlying().(*types.Basic)
			if b == nil || b.Info()&(types.IsString|types.IsFloat) == 0 {
				panic(abortT{"unsupported: min/max"})
			}
			for _, a := range args[1:] {
				var c int
				if b.Info()&types.IsString != 0 {
					c = int(int64(vm.conc(vm.compare(strBytes(a), strBytes(r)))))
				} else {
					x, y := vm.pinFloat(a, "min and max pinned"), vm.pinFloat(r, "min and max pinned")
					c = cmp.Compare(x, y)
					if x != x || y != y {
						// any NaN makes the result NaN
						r = floatV(math.NaN())
						continue
					}
				}
				if in.name == "max" && c > 0 || in.name == "min" && c < 0 {
					r = a
				}
			}
			return r
		}
		lt := KUlt
		if s {
			lt = KSlt
		}
		for _, a := range args[1:] {
			x, y := vm.term(r, w), vm.term(a, w)
			c := vm.tm.bin(lt, y, x)
			if in.name == "max" {
				c = vm.tm.bin(lt, x, y)
			}
			r = vm.fromTerm(vm.tm.ite(c, y, x), s)
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].o == nil {
			vm.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		s := sliceOf(args[0])
		if s.a == nil {
			return Value{}
		}
		return Value{o: s.a, n: uint64(s.off)}
	case "StringData":
		if strLen(args[0]) == 0 {
			return Value{}
		}
		return Value{o: &Agg{c: append([]Value(nil), strBytes(args[0])...), ep: vm.epoch}}
	case "String":
		n := int(int64(vm.conc(args[1])))
		if n == 0 {
			return Value{}
		}
		a := args[0].o.(*Agg)
		return mkStr(a.c[args[0].n : int(args[0].n)+n])
	case "Slice":
		n := int(int64(vm.conc(args[1])))
		if args[0].o == nil {
			return Value{}
		}
		return Value{o: &Slice{a: args[0].o.(*Agg), off: int(args[0].n), len: n, cap: n}}
	}
	panic(abortT{"unsupported: builtin " + in.name})
}

func (vm *VM) doAppend(in *Instr, args []Value) Value {
	s := sliceOf(args[0])
	st, ok := in.t2.Underlying().(*types.Slice)
	if !ok {
		panic(abortT{"unsupported: append"})
	}
	et := st.Elem()
	var add []Value
	if _, ok := args[1].o.(*Slice); ok {
		add = vm.sliceVals(args[1])
	} else if args[1].o != nil {
		add = strBytes(args[1])
	}
	if len(add) == 0 {
		return args[0]
	}
	agg := isAgg(et)
	if agg {
		t := make([]Value, len(add))
		for i := range t {
			t[i].o = vm.loadAgg(add[i].o.(*Agg), et)
		}
		add = t
	}
	n := s.len + len(add)
	if n <= s.cap {
		if !agg && s.a.ep >= vm.epoch {
			copy(s.a.c[s.off+s.len:s.off+n], add)
		} else {
			tmp := append([]Value(nil), add...)
			for i := range tmp {
				vm.storeCell(s.a, s.off+s.len+i, tmp[i], et, agg)
			}
		}
		return Value{o: &Slice{a: s.a, off: s.off, len: n, cap: s.cap}}
	}
	c := growCap(s.cap, n, et)
	a := &Agg{c: make([]Value, c), ep: vm.epoch}
	if s.len > 0 {
		copy(a.c, s.a.c[s.off:s.off+s.len])
		if agg {
			for i := 0; i < s.len; i++ {
				a.c[i].o = vm.loadAgg(a.c[i].o.(*Agg), et)
			}
		}
	}
	copy(a.c[s.len:], add)
	if agg {
		for i := n; i < c; i++ {
			a.c[i] = vm.zero(et)
		}
	}
	return Value{o: &Slice{a: a, len: n, cap: c}}
}

// growCap mirrors the runtime's growth (capacity sharing is observable through
// aliasing), including size-class rounding for common element sizes.
func growCap(old, n int, et types.Type) int {
	c := old
	if n > 2*old {
		c = n
	} else if old < 256 {
		c = 2 * old
	} else {
		for c < n {
			c += (c + 3*256) / 4
		}
	}
	size := int(stdSizes.Sizeof(et))
	if size == 0 {
		return c
	}
	need := c * size
	for _, sc := range sizeClasses {
		if sc >= need {
			return sc / size
		}
	}
	pages := (need + 8191) / 8192 * 8192
	return pages / size
}

var stdSizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var _ = math.Pi

// divFork divides a linear term by a constant, forking over the carry of the
// part that is not a multiple of the divisor.
func (vm *VM) divFork(a, b *Term, rem bool) *Term {
	tm := vm.tm
	if b.kind != KConst || b.k < 2 || b.k > 1<<60 || a.kind != KSum || vm.merge != nil || vm.spec > 0 {
		return nil
	}
	lo, _, ok := tm.srange(a)
	if !ok || lo < 0 {
		return nil
	}
	if q, _ := tm.divmod(a, b.k); q != nil {
		return nil
	}
	ps, k, ok := tm.normParts(a)
	if !ok {
		return nil
	}
	c := int64(b.k)
	q, r := k/c, k%c
	var A, B []npart
	hi := r
	for _, p := range ps {
		all := true
		for _, x := range p.tab {
			if x%c != 0 {
				all = false
				break
			}
		}
		if all {
			for i := range p.tab {
				p.tab[i] /= c
			}
			A = append(A, p)
			continue
		}
		hi += p.max
		B = append(B, p)
	}
	big := func() {
		sort.Slice(B, func(i, j int) bool { return B[i].max > B[j].max })
		p := B[0]
		tab := make([]uint64, len(p.tab))
		for i, x := range p.tab {
			tab[i] = uint64(x)
		}
		vm.concretize(tm.mkTab(p.v, a.w, tab), a.w)
	}
	again := func() *Term {
		k := KUDiv
		if rem {
			k = KURem
		}
		// the domain is narrower now
		if r := vm.divFork(a, b, rem); r != nil {
			return r
		}
		return tm.bin(k, a, b)
	}
	if len(B) > 2 || hi/c > 24 {
		if len(B) > 4 {
			return nil
		}
		big()
		return again()
	}
	bt := tm.fromParts(a.w, B, r)
	carry := int64(0)
	for carry < hi/c && !vm.decideT(tm.bin(KUlt, bt, tm.konst(a.w, uint64((carry+1)*c)))) {
		carry++
	}
	left := tm.bin(KAdd, bt, tm.konst(a.w, uint64(-carry*c)))
	if lo, hi, ok := tm.srange(left); !ok || lo < 0 || hi >= c {
		big()
		return again()
	}
	if rem {
		return left
	}
	return tm.fromParts(a.w, A, q+carry)
}
