package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	opBin Op = iota
	opNeg
	opNot
	opBNot
	opLoad
	opCall   // static
	opCallFn // function value
	opInvoke
	opBuiltin
	opMove // ChangeType, ChangeInterface
	opConvert
	opAlloc
	opMakeSlice
	opMakeMap
	opMakeClosure
	opMakeIface
	opFieldAddr
	opField
	opIndexAddr
	opIndexLoad // IndexAddr whose only use is a load
	opIndex
	opLookup
	opSlice
	opRange
	opNext
	opAssert
	opExtract
	opStore
	opMapUpdate
	opDefer
	opRunDefers
	opJump
	opIf
	opReturn
	opPanic
	opNop
	opUnsupported
	opSliceToArr
)

// kinds for opBin
const (
	bkInt = iota
	bkFloat
	bkString
	bkOther
)

type Instr struct {
	op      Op
	sub     uint8 // token for opBin, etc.
	bk      uint8
	w       uint8
	signed  bool
	agg     bool
	commaOk bool
	isPtr   bool
	dst     int32
	a, b, c int32
	d       int32
	args    []int32
	t, t2   types.Type
	rt      *RType
	it      *types.Interface
	fn      *Func
	intr    intrinsic
	meth    *types.Func
	name    string
	pos     token.Pos
	succ    [2]int32
}

type phiMove struct{ dst, src int32 }

type Block struct {
	instrs []Instr
	edges  map[int32][]phiMove // by predecessor
	sc     *shortCircuit
	hits   int
	idx    int32
}

// shortCircuit describes "if a || b": when the condition of this block's If is
// symbolic, block B can be evaluated speculatively and the two tests joined.
type shortCircuit struct {
	b      int32 // the speculated block
	bOnTru bool  // B is entered when the condition is true (a && b)
	join   int32 // common successor
	other  int32 // B's other successor
	joinT  bool  // B goes to join when its condition is true
	diam   bool  // B jumps unconditionally to join (value diamond)
}

type Func struct {
	ssa      *ssa.Function
	name     string
	nregs    int
	params   []int32
	freevars []int32
	blocks   []Block
	consts   []Value
	intr     intrinsic
	compiled bool
	pure     int8 // 0 unknown, 1 yes, -1 no
	hasDefer bool
	recover  int32
	repo     bool
	short    string
	resW     uint8
	resSign  bool
	isInit   bool
}

type compiler struct {
	vm   *VM
	f    *Func
	slot map[ssa.Value]int32
	cidx map[ssa.Value]int32
	fuse map[ssa.Instruction]ssa.Value
}

func (vm *VM) fn(s *ssa.Function) *Func {
	if f := vm.funcs[s]; f != nil {
		return f
	}
	f := &Func{ssa: s, name: s.String(), recover: -1}
	vm.funcs[s] = f
	if s.Pkg != nil {
		f.repo = vm.isRepo(s.Pkg.Pkg.Path())
	} else if o := s.Origin(); o != nil && o.Pkg != nil {
		f.repo = vm.isRepo(o.Pkg.Pkg.Path())
	}
	f.intr = lookupIntrinsic(s)
	f.isInit = s.Pkg != nil && s.Pkg.Func("init") == s
	return f
}

func (vm *VM) compile(f *Func) {
	f.compiled = true
	s := f.ssa
	c := &compiler{vm: vm, f: f, slot: map[ssa.Value]int32{}, cidx: map[ssa.Value]int32{}, fuse: map[ssa.Instruction]ssa.Value{}}
	for _, p := range s.Params {
		f.params = append(f.params, c.dst(p))
	}
	for _, p := range s.FreeVars {
		f.freevars = append(f.freevars, c.dst(p))
	}
	if s.Recover != nil {
		f.recover = int32(s.Recover.Index)
	}
	if r := s.Signature.Results(); r.Len() == 1 {
		f.resW, f.resSign, _ = intInfo(r.At(0).Type())
	}
	f.blocks = make([]Block, len(s.Blocks))
	for i, b := range s.Blocks {
		blk := &f.blocks[i]
		blk.idx = int32(i)
		blk.edges = map[int32][]phiMove{}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				d := c.dst(phi)
				for j, e := range phi.Edges {
					p := int32(b.Preds[j].Index)
					blk.edges[p] = append(blk.edges[p], phiMove{d, c.val(e)})
				}
				continue
			}
			blk.instrs = append(blk.instrs, c.instr(in))
		}
	}
	f.nregs = len(c.slot)
	for i := range s.Blocks {
		f.blocks[i].sc = c.shortCircuit(s.Blocks[i])
	}
}

func (c *compiler) dst(v ssa.Value) int32 {
	if i, ok := c.slot[v]; ok {
		return i
	}
	i := int32(len(c.slot))
	c.slot[v] = i
	return i
}

func (c *compiler) val(v ssa.Value) int32 {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		if i, ok := c.cidx[v]; ok {
			return i
		}
		c.f.consts = append(c.f.consts, c.vm.constVal(v))
		i := ^int32(len(c.f.consts) - 1)
		c.cidx[v] = i
		return i
	}
	return c.dst(v)
}

func (vm *VM) constVal(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Global:
		return Value{o: vm.global(v)}
	case *ssa.Function:
		return Value{o: &Closure{fn: vm.fn(v)}}
	case *ssa.Builtin:
		return Value{o: &Builtin{v.Name()}}
	case *ssa.Const:
		if v.Value == nil {
			if _, ok := v.Type().Underlying().(*types.Tuple); ok {
				return Value{}
			}
			if _, ok := v.Type().(*types.TypeParam); ok {
				return Value{}
			}
			ep := vm.epoch
			vm.epoch = 0
			z := vm.zero(v.Type())
			vm.epoch = ep
			return z
		}
		b, ok := v.Type().Underlying().(*types.Basic)
		if !ok {
			return Value{}
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			return boolV(constant.BoolVal(v.Value))
		case b.Info()&types.IsString != 0:
			if v.Value.Kind() == constant.Int {
				i, _ := constant.Int64Val(v.Value)
				return strV(string(rune(i)))
			}
			return strV(constant.StringVal(v.Value))
		case b.Info()&types.IsInteger != 0:
			w, s, _ := intInfo(v.Type())
			x := constant.ToInt(v.Value)
			if i, ok := constant.Int64Val(x); ok {
				return Value{n: norm(uint64(i), w, s)}
			}
			u, _ := constant.Uint64Val(x)
			return Value{n: norm(u, w, s)}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(v.Value)
			if b.Kind() == types.Float32 {
				f32, _ := constant.Float32Val(v.Value)
				f = float64(f32)
			}
			return floatV(f)
		}
		return Value{}
	}
	panic("constVal")
}

var tokSub = map[token.Token]uint8{}

func (c *compiler) instr(in ssa.Instruction) Instr {
	I := Instr{pos: in.Pos(), dst: -1}
	if v, ok := in.(ssa.Value); ok {
		I.dst = c.dst(v)
		I.t = v.Type()
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		I.op = opNop
	case *ssa.BinOp:
		I.op = opBin
		I.sub = uint8(in.Op)
		I.a, I.b = c.val(in.X), c.val(in.Y)
		I.t = in.X.Type()
		if in.Op == token.EQL || in.Op == token.NEQ {
			if types.IsInterface(in.X.Type()) != types.IsInterface(in.Y.Type()) {
				// mixed comparison (rare)
				if types.IsInterface(in.Y.Type()) {
					I.t = in.Y.Type()
				}
			}
		}
		I.w, I.signed, _ = intInfo(I.t)
		I.bk = bkOther
		if b, ok := I.t.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&(types.IsInteger|types.IsBoolean) != 0:
				I.bk = bkInt
			case b.Info()&types.IsFloat != 0:
				I.bk = bkFloat
			case b.Info()&types.IsString != 0:
				I.bk = bkString
			}
		}
		if in.Op == token.SHL || in.Op == token.SHR {
			sw, ss, _ := intInfo(in.Y.Type())
			I.c = int32(sw)
			I.commaOk = ss
		}
	case *ssa.UnOp:
		I.a = c.val(in.X)
		I.w, I.signed, _ = intInfo(in.X.Type())
		switch in.Op {
		case token.MUL:
			I.op = opLoad
			I.t = in.Type()
			I.agg = isAgg(in.Type())
			if g, ok := in.X.(*ssa.Global); ok {
				I.name = g.String()
			}
		case token.SUB:
			I.op = opNeg
			if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				I.bk = bkFloat
			} else {
				I.bk = bkInt
			}
		case token.NOT:
			I.op = opNot
		case token.XOR:
			I.op = opBNot
		default:
			I.op = opUnsupported
			I.name = "unop " + in.Op.String()
		}
	case *ssa.Call:
		c.call(&I, in.Common())
	case *ssa.Go:
		// one schedule: the goroutine runs to its end at once
		c.call(&I, in.Common())
		I.dst = c.dst(&ssa.Parameter{})
	case *ssa.Defer:
		c.call(&I, in.Common())
		I.c = int32(I.op)
		I.op = opDefer
		c.f.hasDefer = true
	case *ssa.RunDefers:
		I.op = opRunDefers
	case *ssa.ChangeType:
		I.op = opMove
		I.a = c.val(in.X)
	case *ssa.ChangeInterface:
		I.op = opMove
		I.a = c.val(in.X)
	case *ssa.Convert:
		I.op = opConvert
		I.a = c.val(in.X)
		I.t, I.t2 = in.Type(), in.X.Type()
	case *ssa.MultiConvert:
		I.op = opConvert
		I.a = c.val(in.X)
		I.t, I.t2 = in.Type(), in.X.Type()
	case *ssa.Alloc:
		I.op = opAlloc
		I.t = in.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.MakeSlice:
		I.op = opMakeSlice
		I.a, I.b = c.val(in.Len), c.val(in.Cap)
		I.t = in.Type().Underlying().(*types.Slice).Elem()
	case *ssa.MakeMap:
		I.op = opMakeMap
	case *ssa.MakeClosure:
		I.op = opMakeClosure
		I.fn = c.vm.fn(in.Fn.(*ssa.Function))
		for _, b := range in.Bindings {
			I.args = append(I.args, c.val(b))
		}
	case *ssa.MakeInterface:
		I.op = opMakeIface
		I.a = c.val(in.X)
		I.rt = c.vm.rtype(in.X.Type())
	case *ssa.FieldAddr:
		I.op = opFieldAddr
		I.a = c.val(in.X)
		I.b = int32(in.Field)
	case *ssa.Field:
		I.op = opField
		I.a = c.val(in.X)
		I.b = int32(in.Field)
	case *ssa.IndexAddr:
		I.op = opIndexAddr
		I.a, I.b = c.val(in.X), c.val(in.Index)
		c.indexInfo(&I, in.X.Type(), in.Index.Type())
	case *ssa.Index:
		I.op = opIndex
		I.a, I.b = c.val(in.X), c.val(in.Index)
		c.indexInfo(&I, in.X.Type(), in.Index.Type())
	case *ssa.Lookup:
		I.op = opLookup
		I.a, I.b = c.val(in.X), c.val(in.Index)
		I.commaOk = in.CommaOk
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			I.t, I.t2 = m.Key(), m.Elem()
		} else {
			I.op = opIndex
			c.indexInfo(&I, in.X.Type(), in.Index.Type())
		}
	case *ssa.Slice:
		I.op = opSlice
		I.a = c.val(in.X)
		I.b, I.c, I.d = -1<<30, -1<<30, -1<<30
		if in.Low != nil {
			I.b = c.val(in.Low)
		}
		if in.High != nil {
			I.c = c.val(in.High)
		}
		if in.Max != nil {
			I.d = c.val(in.Max)
		}
		I.t = in.X.Type()
		_, I.isPtr = in.X.Type().Underlying().(*types.Pointer)
	case *ssa.SliceToArrayPointer:
		I.op = opUnsupported
		I.name = "slice to array pointer"
	case *ssa.Range:
		I.op = opRange
		I.a = c.val(in.X)
		I.t = in.X.Type()
	case *ssa.Next:
		I.op = opNext
		I.a = c.val(in.Iter)
		I.commaOk = in.IsString
	case *ssa.TypeAssert:
		I.op = opAssert
		I.a = c.val(in.X)
		I.commaOk = in.CommaOk
		I.t = in.AssertedType
		if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			I.it = it
		} else {
			I.rt = c.vm.rtype(in.AssertedType)
		}
	case *ssa.Extract:
		I.op = opExtract
		I.a = c.val(in.Tuple)
		I.b = int32(in.Index)
	case *ssa.Store:
		I.op = opStore
		I.a, I.b = c.val(in.Addr), c.val(in.Val)
		I.t = in.Val.Type()
		I.agg = isAgg(I.t)
	case *ssa.MapUpdate:
		I.op = opMapUpdate
		I.a, I.b, I.c = c.val(in.Map), c.val(in.Key), c.val(in.Value)
		m := in.Map.Type().Underlying().(*types.Map)
		I.t = m.Key()
	case *ssa.Jump:
		I.op = opJump
		I.succ[0] = int32(in.Block().Succs[0].Index)
	case *ssa.If:
		I.op = opIf
		I.a = c.val(in.Cond)
		I.succ[0] = int32(in.Block().Succs[0].Index)
		I.succ[1] = int32(in.Block().Succs[1].Index)
	case *ssa.Return:
		I.op = opReturn
		for _, r := range in.Results {
			I.args = append(I.args, c.val(r))
		}
	case *ssa.Panic:
		I.op = opPanic
		I.a = c.val(in.X)
	default:
		I.op = opUnsupported
		I.name = in.String()
	}
	return I
}

func (c *compiler) indexInfo(I *Instr, xt, it types.Type) {
	I.w, I.signed, _ = intInfo(it)
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		I.t2 = u.Elem()
		I.bk = 0
	case *types.Pointer:
		I.t2 = u.Elem().Underlying().(*types.Array).Elem()
		I.bk = 1
	case *types.Array:
		I.t2 = u.Elem()
		I.bk = 2
	case *types.Basic:
		I.t2 = types.Typ[types.Uint8]
		I.bk = 3
	}
	if I.t2 != nil {
		I.agg = isAgg(I.t2)
	}
}

func (c *compiler) call(I *Instr, cc *ssa.CallCommon) {
	I.pos = cc.Pos()
	if cc.IsInvoke() {
		I.op = opInvoke
		I.a = c.val(cc.Value)
		I.meth = cc.Method
	} else {
		switch f := cc.Value.(type) {
		case *ssa.Builtin:
			I.op = opBuiltin
			I.name = f.Name()
			if len(cc.Args) > 0 {
				I.t2 = cc.Args[0].Type()
			}
			if sig, ok := f.Type().(*types.Signature); ok && sig.Results().Len() > 0 {
				I.t = sig.Results().At(0).Type()
			}
		case *ssa.Function:
			I.op = opCall
			I.fn = c.vm.fn(f)
		default:
			I.op = opCallFn
			I.a = c.val(cc.Value)
		}
	}
	for _, a := range cc.Args {
		I.args = append(I.args, c.val(a))
	}
}

// --- purity (for merging) ---

func pureInstr(vm *VM, in ssa.Instruction, spec bool, seen map[*ssa.Function]bool) bool {
	switch in := in.(type) {
	case *ssa.BinOp:
		if spec && (in.Op == token.QUO || in.Op == token.REM || in.Op == token.SHL || in.Op == token.SHR) {
			if _, ok := in.Y.(*ssa.Const); !ok {
				return false
			}
		}
		b, ok := in.X.Type().Underlying().(*types.Basic)
		if !ok {
			return false
		}
		return b.Info()&(types.IsInteger|types.IsBoolean) != 0
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if spec {
				return false
			}
			_, _, ok := intInfo(in.Type())
			return ok
		}
		return in.Op != token.ARROW
	case *ssa.Convert:
		_, _, ok1 := intInfo(in.Type())
		_, _, ok2 := intInfo(in.X.Type())
		return ok1 && ok2
	case *ssa.ChangeType:
		_, _, ok := intInfo(in.Type())
		return ok
	case *ssa.Call:
		if in.Call.IsInvoke() {
			return false
		}
		if f, ok := in.Call.Value.(*ssa.Function); ok {
			return pureFunc(vm, f, seen)
		}
		return false
	case *ssa.DebugRef:
		return true
	case *ssa.Phi, *ssa.If, *ssa.Jump:
		return !spec
	case *ssa.Return:
		return !spec
	case *ssa.IndexAddr, *ssa.Index:
		return !spec
	case *ssa.FieldAddr, *ssa.Field, *ssa.Extract:
		return !spec
	}
	return false
}

func pureFunc(vm *VM, s *ssa.Function, seen map[*ssa.Function]bool) bool {
	f := vm.fn(s)
	if f.pure != 0 {
		return f.pure > 0
	}
	if seen == nil {
		seen = map[*ssa.Function]bool{}
	}
	if seen[s] {
		return false
	}
	seen[s] = true
	ok := f.intr == nil && len(s.Blocks) > 0 && s.Signature.Results().Len() == 1 && s.Recover == nil && len(s.FreeVars) == 0
	if ok {
		_, _, ok = intInfo(s.Signature.Results().At(0).Type())
	}
	nscalar := 0
	for _, p := range s.Params {
		if _, _, sc := intInfo(p.Type()); sc {
			nscalar++
		}
	}
	if nscalar == 0 {
		ok = false
	}
	if ok {
	loop:
		for _, b := range s.Blocks {
			for _, in := range b.Instrs {
				if !pureInstr(vm, in, false, seen) {
					ok = false
					break loop
				}
			}
		}
	}
	f.pure = -1
	if ok {
		f.pure = 1
	}
	return ok
}

// shortCircuit recognises A: if c goto X else B; B: pure...; if d goto X else Y
// (and the && and diamond variants).
func (c *compiler) shortCircuit(a *ssa.BasicBlock) *shortCircuit {
	if len(a.Instrs) == 0 {
		return nil
	}
	if _, ok := a.Instrs[len(a.Instrs)-1].(*ssa.If); !ok {
		return nil
	}
	for i := 0; i < 2; i++ {
		b, x := a.Succs[i], a.Succs[1-i]
		if len(b.Preds) != 1 || b == x || b == a {
			continue
		}
		pure := true
		n := 0
		for _, in := range b.Instrs[:len(b.Instrs)-1] {
			if !pureInstr(c.vm, in, true, nil) {
				pure = false
				break
			}
			n++
		}
		if !pure || n > 12 {
			continue
		}
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.If:
			for j := 0; j < 2; j++ {
				if b.Succs[j] == x && b.Succs[1-j] != x && phisAgree(x, a, b) {
					return &shortCircuit{b: int32(b.Index), bOnTru: i == 0, join: int32(x.Index), other: int32(b.Succs[1-j].Index), joinT: j == 0}
				}
			}
		case *ssa.Jump:
			if b.Succs[0] == x && phisScalar(x) {
				return &shortCircuit{b: int32(b.Index), bOnTru: i == 0, join: int32(x.Index), diam: true}
			}
		}
	}
	return nil
}

func phisAgree(x, a, b *ssa.BasicBlock) bool {
	ia, ib := -1, -1
	for i, p := range x.Preds {
		if p == a {
			if ia >= 0 {
				return false
			}
			ia = i
		}
		if p == b {
			if ib >= 0 {
				return false
			}
			ib = i
		}
	}
	for _, in := range x.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if phi.Edges[ia] != phi.Edges[ib] {
			ca, ok1 := phi.Edges[ia].(*ssa.Const)
			cb, ok2 := phi.Edges[ib].(*ssa.Const)
			if ok1 && ok2 && ca.Value != nil && cb.Value != nil && constant.Compare(ca.Value, token.EQL, cb.Value) {
				continue
			}
			return false
		}
	}
	return true
}

func phisScalar(x *ssa.BasicBlock) bool {
	for _, in := range x.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		b, isb := phi.Type().Underlying().(*types.Basic)
		if !isb || b.Info()&types.IsBoolean == 0 {
			return false
		}
	}
	return true
}
