package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// Item is one unexplored subtree: a decision prefix and a model of its path
// condition.
type Item struct {
	prefix []int64
	model  []uint8
}

type draw struct {
	v    *Var  // nil for forked choices
	k    int64 // value of a forked choice
	kind string
}

type pendAssert struct {
	c   *Term
	msg string
}

type Path struct {
	prefix  []int64
	taken   []int64
	model   []uint8
	vars    []*Var
	multi   []*Term
	byVar   map[*Var][]int
	draws   []draw
	pend    []pendAssert
	obs     []Value
	covers  []string
	asserts int
	folded  int
	pinned  bool
	notes   []string
}

type mergeCtx struct {
	prefix []bool
	taken  []bool
	conds  []*Term
	pend   [][]bool
	saved  []savedDom
	outer  *mergeCtx
}

type savedDom struct {
	ord int
	b   Bits
}

func (vm *VM) freshVar(name string, vals []uint64) *Var {
	p := vm.p
	ord := len(p.vars)
	if ord >= 1<<16 {
		panic(abortT{"too many symbolic inputs"})
	}
	v := vm.tm.newVar(ord, name, vals)
	p.vars = append(p.vars, v)
	vm.tm.dom = append(vm.tm.dom, fullBits(len(vals)))
	if ord >= len(p.model) {
		// spread initial values a little so first witnesses are not degenerate
		p.model = append(p.model, 0)
	}
	return v
}

// addCond adds a condition to the path condition.
func (vm *VM) addCond(c *Term) {
	p := vm.p
	switch c.kind {
	case KConst:
		if c.k == 0 {
			panic(abortT{"internal: infeasible path"})
		}
		return
	case KTab:
		d := &vm.tm.dom[c.v.ord]
		for i := range c.tab {
			if c.tab[i] == 0 {
				d.clr(i)
			}
		}
		if d.empty() {
			panic(abortT{"internal: empty domain"})
		}
		return
	case KAnd:
		for _, a := range c.args {
			vm.addCond(a)
		}
		return
	case KNot:
		if o := c.args[0]; o.kind == KOr {
			for _, a := range o.args {
				vm.addCond(vm.tm.not(a))
			}
			return
		}
	}
	i := len(p.multi)
	p.multi = append(p.multi, c)
	for _, v := range c.vars {
		p.byVar[v] = append(p.byVar[v], i)
	}
}

// component collects the constraints transitively connected to the variables.
func (vm *VM) component(vars []*Var) ([]*Var, []*Term) {
	p := vm.p
	if len(p.multi) == 0 {
		return vars, nil
	}
	seenV := map[*Var]bool{}
	seenC := map[int]bool{}
	var outV []*Var
	var outC []*Term
	queue := append([]*Var(nil), vars...)
	for _, v := range vars {
		seenV[v] = true
	}
	for len(queue) > 0 {
		v := queue[0]
		queue = queue[1:]
		outV = append(outV, v)
		for _, i := range p.byVar[v] {
			if seenC[i] {
				continue
			}
			seenC[i] = true
			outC = append(outC, p.multi[i])
			for _, u := range p.multi[i].vars {
				if !seenV[u] {
					seenV[u] = true
					queue = append(queue, u)
				}
			}
		}
	}
	sort.Slice(outV, func(i, j int) bool { return outV[i].ord < outV[j].ord })
	return outV, outC
}

func (vm *VM) holdAll(cs []*Term, m []uint8) bool {
	vm.tm.stamp++
	for _, c := range cs {
		if vm.tm.ev(c, m) == 0 {
			return false
		}
	}
	return true
}

// feasible decides PC and c; on SAT it returns a model.
func (vm *VM) feasible(c *Term) ([]uint8, Res) {
	p, tm := vm.p, vm.tm
	if c.kind == KConst {
		if c.k == 1 {
			return p.model, SAT
		}
		return nil, UNSAT
	}
	eng := vm.eng
	model := append([]uint8(nil), p.model...)
	if c.kind == KTab {
		d := tm.dom[c.v.ord]
		for i := range c.tab {
			if c.tab[i] == 0 {
				d.clr(i)
			}
		}
		if d.empty() {
			vm.audit([]*Var{c.v}, []*Term{c}, UNSAT)
			return nil, UNSAT
		}
		if len(p.byVar[c.v]) == 0 {
			model[c.v.ord] = uint8(d.first())
			eng.stat(&eng.nLocal)
			vm.audit([]*Var{c.v}, []*Term{c}, SAT)
			return model, SAT
		}
		cs := make([]*Term, 0, 8)
		for _, i := range p.byVar[c.v] {
			cs = append(cs, p.multi[i])
		}
		for i := range c.v.vals {
			if d.has(i) {
				model[c.v.ord] = uint8(i)
				if vm.holdAll(cs, model) {
					eng.stat(&eng.nLocal)
					return model, SAT
				}
			}
		}
		copy(model, p.model)
	} else {
		// vary single variables around the current model
		tried := 0
		for _, v := range c.vars {
			if tried > 600 {
				break
			}
			cs := []*Term{c}
			for _, i := range p.byVar[v] {
				cs = append(cs, p.multi[i])
			}
			old := model[v.ord]
			d := tm.dom[v.ord]
			for i := range v.vals {
				if d.has(i) {
					tried++
					model[v.ord] = uint8(i)
					if vm.holdAll(cs, model) {
						eng.stat(&eng.nLocal)
						return model, SAT
					}
				}
			}
			model[v.ord] = old
		}
	}
	vars, cs := vm.component(c.vars)
	cs = append(append([]*Term(nil), cs...), c)
	r := vm.solver.check(tm, vars, tm.dom, cs, model)
	if r == SAT && !vm.holdAll(cs, model) {
		eng.note("solver model does not satisfy the constraints")
		return nil, UNKNOWN
	}
	if r != SAT {
		return nil, r
	}
	return model, SAT
}

// audit confirms verdicts of the finite-domain procedure with the solver: the
// first ones of every harness and a share of the others.
func (vm *VM) audit(vars []*Var, cs []*Term, want Res) {
	vm.nAudit++
	every := 64
	if vm.eng.tier > 0 {
		every = 16
	}
	if vm.nAudit > 100 && vm.nAudit%every != 0 {
		return
	}
	r := vm.solver.check(vm.tm, vars, vm.tm.dom, cs, nil)
	vm.eng.stat(&vm.eng.nAudit)
	if r != want && r != UNKNOWN {
		vm.eng.stat(&vm.eng.nAuditBad)
		vm.eng.note("solver and finite-domain procedure disagree")
	}
}

// auditPath confirms with the solver that the path is taken by some input, so
// that its assertions are not discharged vacuously.
func (vm *VM) auditPath() {
	p := vm.p
	if len(p.vars) == 0 {
		return
	}
	vm.nAuditP++
	every := 64
	if vm.eng.tier > 0 {
		every = 16
	}
	if vm.nAuditP > 50 && vm.nAuditP%every != 0 {
		return
	}
	r := vm.solver.check(vm.tm, p.vars, vm.tm.dom, p.multi, nil)
	vm.eng.stat(&vm.eng.nAuditP)
	if r == UNSAT {
		vm.eng.stat(&vm.eng.nAuditBad)
		vm.eng.note("the solver finds a path infeasible")
	}
}

// decide takes a branch on a symbolic condition.
func (vm *VM) decide(c *Term) bool {
	if c.kind == KConst {
		return c.k == 1
	}
	if vm.merge != nil {
		return vm.mergeDecide(c)
	}
	if vm.spec > 0 {
		panic(specAbort{})
	}
	p := vm.p
	i := len(p.taken)
	if i < len(p.prefix) {
		d := p.prefix[i]
		p.taken = append(p.taken, d)
		if d == 1 {
			vm.addCond(c)
		} else {
			vm.addCond(vm.tm.not(c))
		}
		return d == 1
	}
	v := vm.tm.eval(c, p.model) == 1
	other := c
	if v {
		other = vm.tm.not(c)
	}
	if vm.eng.trackForks {
		vm.forkAt[vm.where()]++
	}
	ts := time.Now()
	m, r := vm.feasible(other)
	if slowLog && time.Since(ts) > 300*time.Millisecond {
		fmt.Fprintf(os.Stderr, "SLOWAT %v %s\n", time.Since(ts), vm.whereStack())
	}
	d := int64(0)
	if v {
		d = 1
	}
	switch r {
	case SAT:
		pre := make([]int64, len(p.taken)+1)
		copy(pre, p.taken)
		pre[len(p.taken)] = 1 - d
		vm.eng.push(&Item{pre, m})
	case UNKNOWN:
		vm.reduce("solver gave no answer for a branch")
	}
	p.taken = append(p.taken, d)
	if v {
		vm.addCond(c)
	} else {
		vm.addCond(vm.tm.not(c))
	}
	return v
}

func (vm *VM) reduce(why string) {
	if vm.reduced == nil {
		vm.reduced = map[string]int{}
	}
	vm.reduced[why]++
}

// choice is an unconstrained n-way fork.
func (vm *VM) choice(n int) int {
	if n <= 1 {
		return 0
	}
	if vm.merge != nil || vm.spec > 0 {
		panic(specAbort{})
	}
	p := vm.p
	i := len(p.taken)
	if i < len(p.prefix) {
		d := p.prefix[i]
		p.taken = append(p.taken, d)
		return int(d)
	}
	for k := n - 1; k >= 1; k-- {
		pre := make([]int64, len(p.taken)+1)
		copy(pre, p.taken)
		pre[len(p.taken)] = int64(k)
		vm.eng.push(&Item{pre, append([]uint8(nil), p.model...)})
	}
	p.taken = append(p.taken, 0)
	return 0
}

// concretize forks over the values a term can take.
func (vm *VM) concretize(t *Term, w uint8) uint64 {
	if t.kind == KConst {
		return t.k
	}
	if vm.merge != nil || vm.spec > 0 {
		panic(specAbort{})
	}
	p := vm.p
	for {
		var v uint64
		if i := len(p.taken); i < len(p.prefix) {
			v = uint64(p.prefix[i])
		} else {
			v = vm.tm.eval(t, p.model)
		}
		p.taken = append(p.taken, int64(v))
		if vm.decide(vm.tm.bin(KEq, t, vm.tm.konst(t.w, v))) {
			return v
		}
	}
}

// pin fixes a term to its value in the current model without exploring the
// alternatives: an explicit reduction of the bound.
func (vm *VM) pin(t *Term, why string) uint64 {
	if t.kind == KConst {
		return t.k
	}
	if vm.merge != nil || vm.spec > 0 {
		panic(specAbort{})
	}
	vm.reduce(why)
	p := vm.p
	var v uint64
	if i := len(p.taken); i < len(p.prefix) {
		v = uint64(p.prefix[i])
	} else {
		v = vm.tm.eval(t, p.model)
	}
	p.taken = append(p.taken, int64(v))
	vm.addCond(vm.tm.bin(KEq, t, vm.tm.konst(t.w, v)))
	return v
}

func (vm *VM) pinStr(v Value, why string) string {
	if s, ok := concreteStr(v); ok {
		return s
	}
	b := strBytes(v)
	r := make([]byte, len(b))
	for i := range b {
		if b[i].o == nil {
			r[i] = byte(b[i].n)
		} else {
			r[i] = byte(vm.pin(b[i].o.(*Term), why))
		}
	}
	return string(r)
}

// concStr forks over all values of a symbolic string.
func (vm *VM) concStr(v Value) string {
	if s, ok := concreteStr(v); ok {
		return s
	}
	b := strBytes(v)
	r := make([]byte, len(b))
	for i := range b {
		r[i] = byte(vm.conc(b[i]))
	}
	return string(r)
}

func (vm *VM) mergeDecide(c *Term) bool {
	m := vm.merge
	i := len(m.taken)
	var v bool
	if i < len(m.prefix) {
		v = m.prefix[i]
	} else {
		v = true
		alt := make([]bool, i+1)
		copy(alt, m.taken)
		m.pend = append(m.pend, alt)
	}
	m.taken = append(m.taken, v)
	cond := c
	if !v {
		cond = vm.tm.not(c)
	}
	m.conds = append(m.conds, cond)
	vm.mergeNarrow(cond)
	return v
}

func (vm *VM) mergeNarrow(c *Term) {
	m := vm.merge
	switch c.kind {
	case KTab:
		d := &vm.tm.dom[c.v.ord]
		m.saved = append(m.saved, savedDom{c.v.ord, *d})
		n := *d
		for i := range c.tab {
			if c.tab[i] == 0 {
				n.clr(i)
			}
		}
		if n.empty() {
			panic(specAbort{})
		}
		*d = n
	case KAnd:
		for _, a := range c.args {
			vm.mergeNarrow(a)
		}
	}
}

// callMerged explores all paths of a pure function and joins the results.
func (vm *VM) callMerged(fn *Func, args []Value, env []Value) (res Value, ok bool) {
	type leaf struct {
		cond *Term
		r    *Term
	}
	var leaves []leaf
	work := [][]bool{nil}
	outer := vm.merge
	saveCur, saveDepth := vm.cur, vm.depth
	w := fn.resW
	if w == 0 {
		if !fn.compiled {
			vm.compile(fn)
		}
		w = fn.resW
	}
	n := 0
	for len(work) > 0 {
		n++
		if n > 96 {
			vm.mergeBad++
			return Value{}, false
		}
		pre := work[len(work)-1]
		work = work[:len(work)-1]
		m := &mergeCtx{prefix: pre, outer: outer}
		vm.merge = m
		good := func() (good bool) {
			defer func() {
				vm.merge = outer
				for i := len(m.saved) - 1; i >= 0; i-- {
					vm.tm.dom[m.saved[i].ord] = m.saved[i].b
				}
				if r := recover(); r != nil {
					vm.cur, vm.depth = saveCur, saveDepth
					switch r.(type) {
					case specAbort, *tpanic:
						good = false
						return
					}
					panic(r)
				}
			}()
			r := vm.run(fn, args, env)
			t := vm.term(r, w)
			leaves = append(leaves, leaf{nil, t})
			return true
		}()
		if !good {
			vm.mergeBad++
			return Value{}, false
		}
		c := vm.tm.True
		for _, x := range m.conds {
			c = vm.tm.andor(KAnd, c, x)
		}
		leaves[len(leaves)-1].cond = c
		work = append(work, m.pend...)
	}
	if len(leaves) == 0 {
		return Value{}, false
	}
	var t *Term
	for i, l := range leaves {
		if i == 0 {
			t = l.r
			continue
		}
		t = vm.tm.ite(l.cond, l.r, t)
	}
	if w != 1 && !isLin(t) {
		vm.mergeBad++
		return Value{}, false
	}
	vm.mergeOK++
	return vm.fromTerm(t, fn.resSign), true
}

// flush discharges the pending assertions under the current path condition.
func (vm *VM) flush() {
	p := vm.p
	if len(p.pend) == 0 {
		return
	}
	tm := vm.tm
	pend := p.pend
	p.pend = nil
	all := tm.True
	for _, a := range pend {
		all = tm.andor(KAnd, all, a.c)
	}
	neg := tm.not(all)
	if neg.kind == KConst {
		p.folded += len(pend)
		return
	}
	vars, cs := vm.component(neg.vars)
	cs = append(append([]*Term(nil), cs...), neg)
	model := append([]uint8(nil), p.model...)
	r := vm.solver.check(tm, vars, tm.dom, cs, model)
	vm.eng.statN(&vm.eng.nVerdict, 1)
	if vm.eng.cross != "" {
		vm.crossCheck(vars, cs, r)
	}
	switch r {
	case UNKNOWN:
		vm.reduce("solver gave no answer for an assertion")
	case SAT:
		if !vm.holdAll(cs, model) {
			vm.eng.note("assertion model does not satisfy the constraints")
			return
		}
		for _, a := range pend {
			if tm.eval(a.c, model) == 0 {
				vm.candidate("assert", a.msg, model)
				break
			}
		}
	}
}

func (vm *VM) doAssert(c Value, msg string) {
	p := vm.p
	p.asserts++
	if c.o == nil {
		if c.n != 0 {
			p.folded++
			return
		}
		vm.candidate("assert", msg, p.model)
		return
	}
	t := c.o.(*Term)
	if vm.tm.eval(t, p.model) == 0 {
		vm.candidate("assert", msg, p.model)
		return
	}
	p.pend = append(p.pend, pendAssert{t, msg})
}

func (vm *VM) doAssume(c Value) {
	vm.flush()
	if c.o == nil {
		if c.n == 0 {
			panic(endT{"assume"})
		}
		return
	}
	t := c.o.(*Term)
	p := vm.p
	if vm.merge != nil || vm.spec > 0 {
		panic(specAbort{})
	}
	// explore only the true side; no decision is needed
	if len(p.taken) >= len(p.prefix) && vm.tm.eval(t, p.model) == 0 {
		m, r := vm.feasible(t)
		if r != SAT {
			if r == UNKNOWN {
				vm.reduce("solver gave no answer for an assumption")
			}
			panic(endT{"assume"})
		}
		p.model = m
	}
	vm.addCond(t)
}

// drawsUnder renders the nondeterministic choices under a model.
func (vm *VM) drawsUnder(model []uint8) []int64 {
	r := make([]int64, len(vm.p.draws))
	for i, d := range vm.p.draws {
		if d.v != nil {
			if d.kind == "index" {
				r[i] = int64(model[d.v.ord])
			} else {
				r[i] = int64(d.v.vals[model[d.v.ord]])
			}
		} else {
			r[i] = d.k
		}
	}
	return r
}

func (vm *VM) candidate(kind, msg string, model []uint8) {
	vm.eng.addCandidate(&Candidate{kind: kind, msg: msg, draws: vm.drawsUnder(model), at: vm.whereStack()})
}

func (vm *VM) whereStack() string {
	var parts []string
	for fr := vm.cur; fr != nil && len(parts) < 6; fr = fr.caller {
		p := vm.prog.Fset.Position(fr.pos)
		parts = append(parts, fmt.Sprintf("%s:%d", fr.f.ssa.Name(), p.Line))
	}
	return strings.Join(parts, " < ")
}

func pow10(n int) uint64 {
	r := uint64(1)
	for i := 0; i < n; i++ {
		r *= 10
	}
	return r
}

// digits renders a non-negative 64-bit term in decimal, forking over lengths.
func (vm *VM) digits(t *Term) []Value {
	tm := vm.tm
	n := 1
	for n < 19 {
		if vm.decideT(tm.bin(KUlt, t, tm.konst(64, pow10(n)))) {
			break
		}
		n++
	}
	if n >= 19 {
		s := fmt.Sprint(vm.pin(t, "integer beyond 18 digits pinned"))
		return strBytes(strV(s))
	}
	return vm.digitsN(t, n)
}

func (vm *VM) digitsN(t *Term, n int) []Value {
	tm := vm.tm
	out := make([]Value, n)
	ten := tm.konst(64, 10)
	for i := n - 1; i >= 0; i-- {
		d := tm.bin(KURem, t, ten)
		t = tm.bin(KUDiv, t, ten)
		out[i] = vm.fromTerm(tm.conv(tm.bin(KAdd, d, tm.konst(64, '0')), 8, false), false)
	}
	return out
}

func (vm *VM) itoa(v Value, signed bool) Value {
	if v.o == nil {
		if signed {
			return strV(fmt.Sprint(int64(v.n)))
		}
		return strV(fmt.Sprint(v.n))
	}
	t := vm.tm.conv(v.o.(*Term), 64, signed)
	if t.kind == KConst {
		return vm.itoa(Value{n: t.k}, signed)
	}
	var out []Value
	if signed && vm.decideT(vm.tm.bin(KSlt, t, vm.tm.konst(64, 0))) {
		out = append(out, Value{n: '-'})
		t = vm.tm.neg(t)
	}
	return mkStr(append(out, vm.digits(t)...))
}
