package main

import (
	"math/bits"
	"sort"
)

// Terms are fixed-width bit-vector expressions over small finite-domain
// variables (every nondeterministic input has at most 256 values).  Any term
// that depends on a single variable is kept as a table (Tab); linear sums of
// tables over different variables are kept as Sum; everything else is a
// generic operator node that only the SMT solver reasons about.

type Kind uint8

const (
	KConst Kind = iota
	KTab
	KSum
	KNot
	KAnd
	KOr
	KEq
	KUlt
	KSlt
	KAdd
	KMul
	KUDiv
	KURem
	KSDiv
	KSRem
	KBAnd
	KBOr
	KBXor
	KShl
	KLshr
	KAshr
	KTrunc
	KZext
	KSext
	KIte
)

type Var struct {
	gid  int // unique within a worker
	ord  int // creation order within a path
	vals []uint64
	name string
}

type Term struct {
	id    int32
	kind  Kind
	w     uint8
	k     uint64
	v     *Var
	tab   []uint64
	args  []*Term
	vars  []*Var // sorted by ord
	hash  uint64
	stamp uint64
	ev    uint64
}

type Bits [4]uint64

func (b *Bits) has(i int) bool { return b[i>>6]>>(uint(i)&63)&1 != 0 }
func (b *Bits) set(i int)      { b[i>>6] |= 1 << (uint(i) & 63) }
func (b *Bits) clr(i int)      { b[i>>6] &^= 1 << (uint(i) & 63) }
func (b *Bits) count() int {
	return bits.OnesCount64(b[0]) + bits.OnesCount64(b[1]) + bits.OnesCount64(b[2]) + bits.OnesCount64(b[3])
}
func (b *Bits) empty() bool { return b[0]|b[1]|b[2]|b[3] == 0 }
func (b *Bits) first() int {
	for i := 0; i < 4; i++ {
		if b[i] != 0 {
			return i*64 + bits.TrailingZeros64(b[i])
		}
	}
	return -1
}
func fullBits(n int) (b Bits) {
	for i := 0; i < n; i++ {
		b.set(i)
	}
	return
}

// TM is a per-worker term manager.
type TM struct {
	tbl   map[uint64][]*Term
	n     int32
	stamp uint64
	True  *Term
	False *Term
	vars  map[string]*Var
	nvars int
	dom   []Bits // current path's domains, by ord
}

func newTM() *TM {
	tm := &TM{tbl: map[uint64][]*Term{}, vars: map[string]*Var{}}
	tm.True = tm.konst(1, 1)
	tm.False = tm.konst(1, 0)
	return tm
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(x uint64, w uint8) int64 {
	if w >= 64 {
		return int64(x)
	}
	s := 64 - uint(w)
	return int64(x<<s) >> s
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func (tm *TM) intern(t *Term) *Term {
	h := mix(uint64(t.kind)<<8|uint64(t.w), t.k)
	if t.v != nil {
		h = mix(h, uint64(t.v.gid))
	}
	for _, x := range t.tab {
		h = mix(h, x)
	}
	for _, a := range t.args {
		h = mix(h, uint64(a.id)+7)
	}
	t.hash = h
next:
	for _, u := range tm.tbl[h] {
		if u.kind != t.kind || u.w != t.w || u.k != t.k || u.v != t.v || len(u.tab) != len(t.tab) || len(u.args) != len(t.args) {
			continue
		}
		for i := range u.tab {
			if u.tab[i] != t.tab[i] {
				continue next
			}
		}
		for i := range u.args {
			if u.args[i] != t.args[i] {
				continue next
			}
		}
		return u
	}
	tm.n++
	t.id = tm.n
	switch {
	case t.v != nil:
		t.vars = []*Var{t.v}
	case len(t.args) == 1:
		t.vars = t.args[0].vars
	case len(t.args) > 1:
		t.vars = t.args[0].vars
		for _, a := range t.args[1:] {
			t.vars = unionVars(t.vars, a.vars)
		}
	}
	tm.tbl[h] = append(tm.tbl[h], t)
	return t
}

func unionVars(a, b []*Var) []*Var {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]*Var, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i].ord < b[j].ord:
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j].ord < a[i].ord:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (tm *TM) konst(w uint8, k uint64) *Term {
	return tm.intern(&Term{kind: KConst, w: w, k: k & mask(w)})
}

func (tm *TM) boolc(b bool) *Term {
	if b {
		return tm.True
	}
	return tm.False
}

// mkTab makes a unary term; it folds to a constant when the table is constant
// on the variable's current domain.
func (tm *TM) mkTab(v *Var, w uint8, tab []uint64) *Term {
	m := mask(w)
	d := &tm.dom[v.ord]
	first := true
	var c uint64
	same := true
	for i := range tab {
		tab[i] &= m
		if !d.has(i) {
			continue
		}
		if first {
			c, first = tab[i], false
		} else if tab[i] != c {
			same = false
		}
	}
	if same && !first {
		return tm.konst(w, c)
	}
	return tm.intern(&Term{kind: KTab, w: w, v: v, tab: tab})
}

func (tm *TM) newVar(ord int, name string, vals []uint64) *Var {
	key := make([]byte, 0, 32+len(vals)*2)
	key = append(key, name...)
	key = append(key, '|', byte(ord), byte(ord>>8))
	for _, x := range vals {
		key = append(key, byte(x), byte(x>>8), byte(x>>16), byte(x>>24), byte(x>>63))
	}
	if v := tm.vars[string(key)]; v != nil {
		return v
	}
	tm.nvars++
	v := &Var{gid: tm.nvars, ord: ord, vals: append([]uint64(nil), vals...), name: name}
	tm.vars[string(key)] = v
	return v
}

func (tm *TM) varTerm(v *Var, w uint8) *Term {
	return tm.mkTab(v, w, append([]uint64(nil), v.vals...))
}

func evalBin(k Kind, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch k {
	case KEq:
		if a == b {
			return 1
		}
		return 0
	case KUlt:
		if a < b {
			return 1
		}
		return 0
	case KSlt:
		if sext(a, w) < sext(b, w) {
			return 1
		}
		return 0
	case KAdd:
		return (a + b) & m
	case KMul:
		return (a * b) & m
	case KUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case KURem:
		if b == 0 {
			return a
		}
		return a % b
	case KSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case KSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case KBAnd, KAnd:
		return a & b
	case KBOr, KOr:
		return a | b
	case KBXor:
		return a ^ b
	case KShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & m
	case KLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case KAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	}
	panic("evalBin")
}

func (t *Term) isConst() bool { return t.kind == KConst }

func at(t *Term, i int) uint64 {
	if t.kind == KConst {
		return t.k
	}
	return t.tab[i]
}

func resW(k Kind, w uint8) uint8 {
	if k == KEq || k == KUlt || k == KSlt {
		return 1
	}
	return w
}

// unary reports the single variable both operands range over, if any.
func oneVar(a, b *Term) *Var {
	switch {
	case a.kind == KTab && b.kind == KTab && a.v == b.v:
		return a.v
	case a.kind == KTab && b.kind == KConst:
		return a.v
	case a.kind == KConst && b.kind == KTab:
		return b.v
	}
	return nil
}

func (tm *TM) bin(k Kind, a, b *Term) *Term {
	w := a.w
	if k == KAnd || k == KOr {
		return tm.andor(k, a, b)
	}
	if a.kind == KConst && b.kind == KConst {
		return tm.konst(resW(k, w), evalBin(k, w, a.k, b.k))
	}
	if w == 1 && k == KEq {
		// boolean equality
		if a.kind == KConst {
			a, b = b, a
		}
		if b.kind == KConst {
			if b.k == 1 {
				return a
			}
			return tm.not(a)
		}
	}
	if v := oneVar(a, b); v != nil {
		tab := make([]uint64, len(v.vals))
		for i := range tab {
			tab[i] = evalBin(k, w, at(a, i), at(b, i))
		}
		return tm.mkTab(v, resW(k, w), tab)
	}
	if a == b {
		switch k {
		case KEq:
			return tm.True
		case KUlt, KSlt:
			return tm.False
		case KBAnd, KBOr:
			return a
		case KBXor:
			return tm.konst(w, 0)
		}
	}
	switch k {
	case KAdd:
		if r := tm.linAdd(a, b); r != nil {
			return r
		}
		if a.kind == KConst {
			a, b = b, a
		}
		if b.kind == KConst && b.k == 0 {
			return a
		}
		if a.kind == KIte && b.kind == KConst {
			return tm.ite(a.args[0], tm.bin(k, a.args[1], b), tm.bin(k, a.args[2], b))
		}
	case KMul:
		if a.kind == KConst {
			a, b = b, a
		}
		if b.kind == KConst {
			if r := tm.linScale(a, b.k); r != nil {
				return r
			}
			if b.k == 1 {
				return a
			}
			if b.k == 0 {
				return b
			}
		}
	case KShl:
		if b.kind == KConst {
			if b.k >= uint64(w) {
				return tm.konst(w, 0)
			}
			if r := tm.linScale(a, 1<<b.k); r != nil {
				return r
			}
		}
	case KLshr:
		if b.kind == KConst && b.k < uint64(w) {
			if q, _ := tm.divmod(a, 1<<b.k); q != nil {
				return q
			}
		}
	case KUDiv, KSDiv:
		if b.kind == KConst && b.k != 0 && (k == KUDiv || sext(b.k, w) > 0) {
			if q, _ := tm.divmod(a, b.k); q != nil {
				return q
			}
		}
	case KURem, KSRem:
		if b.kind == KConst && b.k != 0 && (k == KURem || sext(b.k, w) > 0) {
			if _, r := tm.divmod(a, b.k); r != nil {
				return r
			}
		}
	case KBAnd:
		if a.kind == KConst {
			a, b = b, a
		}
		if b.kind == KConst && b.k&(b.k+1) == 0 {
			if _, r := tm.divmod(a, b.k+1); r != nil && b.k != mask(w) {
				return r
			}
			if b.k == mask(w) {
				return a
			}
		}
	case KEq:
		lo1, hi1, ok1 := tm.srange(a)
		lo2, hi2, ok2 := tm.srange(b)
		if ok1 && ok2 && (hi1 < lo2 || hi2 < lo1) {
			return tm.False
		}
		// a-b == 0 when both are linear
		if a.kind == KSum || b.kind == KSum {
			if nb := tm.linScale(b, ^uint64(0)); nb != nil {
				if d := tm.linAdd(a, nb); d != nil {
					if d.kind == KConst {
						return tm.boolc(d.k == 0)
					}
					if d.kind == KTab {
						return tm.bin(KEq, d, tm.konst(w, 0))
					}
					if r := tm.sumEqSplit(d); r != nil {
						return r
					}
					if w == 64 {
						if r := tm.cmpSplit(d, false); r != nil {
							return r
						}
					}
				}
			}
		}
		if a.kind == KIte && b.kind == KConst {
			return tm.ite(a.args[0], tm.bin(k, a.args[1], b), tm.bin(k, a.args[2], b))
		}
		if b.kind == KIte && a.kind == KConst {
			return tm.ite(b.args[0], tm.bin(k, b.args[1], a), tm.bin(k, b.args[2], a))
		}
		if a.id > b.id {
			a, b = b, a
		}
	case KUlt, KSlt:
		if k == KUlt && w == 64 {
			if a.kind == KConst && a.k >= 1<<62 {
				if _, hi, ok := tm.urange(b); ok && uint64(hi) <= a.k {
					return tm.False
				}
			}
			if b.kind == KConst && b.k >= 1<<62 {
				if _, hi, ok := tm.urange(a); ok && uint64(hi) < b.k {
					return tm.True
				}
			}
		}
		lo1, hi1, ok1 := tm.srange(a)
		lo2, hi2, ok2 := tm.srange(b)
		if ok1 && ok2 && (k == KSlt || lo1 >= 0 && lo2 >= 0) {
			if hi1 < lo2 {
				return tm.True
			}
			if lo1 >= hi2 {
				return tm.False
			}
			if isLin(a) && isLin(b) && (w == 64 || w == 32) {
				if nb := tm.linScale(b, ^uint64(0)); nb != nil {
					if d := tm.linAdd(a, nb); d != nil {
						if r := tm.cmpSplit(d, true); r != nil {
							return r
						}
					}
				}
			}
		}
		if a.kind == KIte && b.kind == KConst {
			return tm.ite(a.args[0], tm.bin(k, a.args[1], b), tm.bin(k, a.args[2], b))
		}
		if b.kind == KIte && a.kind == KConst {
			return tm.ite(b.args[0], tm.bin(k, a, b.args[1]), tm.bin(k, a, b.args[2]))
		}
	}
	return tm.intern(&Term{kind: k, w: resW(k, w), args: []*Term{a, b}})
}

// sumEqSplit decides S == 0 for a positional sum (like a decimal number), where
// it is equivalent to a conjunction of unary conditions: used when every part
// is scaled beyond the total range of the smaller ones.
func (tm *TM) sumEqSplit(s *Term) *Term {
	if s.kind != KSum {
		return nil
	}
	ps, k, ok := tm.normParts(s)
	if !ok {
		return nil
	}
	// S = k + sum p_i, p_i >= 0, want == 0: sum p_i == -k =: target
	target := -k
	if target < 0 {
		return tm.False
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].max > ps[j].max })
	// rest[i] = max sum of parts after i
	rest := int64(0)
	rests := make([]int64, len(ps))
	for i := len(ps) - 1; i >= 0; i-- {
		rests[i] = rest
		rest += ps[i].max
	}
	res := tm.True
	for i, p := range ps {
		// the value p takes must leave a remainder in [0, rests[i]]
		var cand int64
		n := 0
		seen := map[int64]bool{}
		for j, x := range p.tab {
			if !tm.dom[p.v.ord].has(j) || seen[x] {
				continue
			}
			seen[x] = true
			r := target - x
			if r >= 0 && r <= rests[i] {
				cand = x
				n++
			}
		}
		if n == 0 {
			return tm.False
		}
		if n > 1 {
			return nil
		}
		tab := make([]uint64, len(p.tab))
		for j, x := range p.tab {
			if x == cand && tm.dom[p.v.ord].has(j) {
				tab[j] = 1
			}
		}
		res = tm.bin(KAnd, res, tm.mkTab(p.v, 1, tab))
		target -= cand
	}
	if target != 0 {
		return tm.False
	}
	return res
}

// cmpSplit decides S < 0 (or S == 0) for a linear sum as a boolean combination
// of conditions on single inputs, by comparing digit by digit from the most
// significant part; nil when that gets too large.
func (tm *TM) cmpSplit(s *Term, lt bool) *Term {
	switch s.kind {
	case KConst:
		v := sext(s.k, s.w)
		if lt {
			return tm.boolc(v < 0)
		}
		return tm.boolc(v == 0)
	case KTab:
		tab := make([]uint64, len(s.tab))
		for i, x := range s.tab {
			v := sext(x, s.w)
			if lt && v < 0 || !lt && v == 0 {
				tab[i] = 1
			}
		}
		return tm.mkTab(s.v, 1, tab)
	case KSum:
	default:
		return nil
	}
	lo, hi, ok := tm.srange(s)
	if !ok {
		return nil
	}
	if lt && hi < 0 {
		return tm.True
	}
	if lt && lo >= 0 || lo > 0 || !lt && hi < 0 {
		return tm.False
	}
	ps, k, ok := tm.normParts(s)
	if !ok {
		return nil
	}
	sort.Slice(ps, func(i, j int) bool {
		if ps[i].max != ps[j].max {
			return ps[i].max > ps[j].max
		}
		return ps[i].v.ord < ps[j].v.ord
	})
	rests := make([]int64, len(ps)+1)
	for i := len(ps) - 1; i >= 0; i-- {
		rests[i] = rests[i+1] + ps[i].max
	}
	type key struct {
		i int
		t int64
	}
	memo := map[key]*Term{}
	nodes := 0
	var rec func(i int, t int64) *Term // sum of parts i.. < t (or == t)
	rec = func(i int, t int64) *Term {
		if lt {
			if rests[i] < t {
				return tm.True
			}
			if t <= 0 {
				return tm.False
			}
		} else {
			if t < 0 || t > rests[i] {
				return tm.False
			}
			if i == len(ps) {
				return tm.True
			}
		}
		if r, ok := memo[key{i, t}]; ok {
			return r
		}
		if nodes++; nodes > 120 {
			return nil
		}
		p := ps[i]
		groups := map[int64][]int{}
		var order []int64
		for j, x := range p.tab {
			if !tm.dom[p.v.ord].has(j) {
				continue
			}
			if _, ok := groups[x]; !ok {
				order = append(order, x)
			}
			groups[x] = append(groups[x], j)
		}
		by := map[*Term][]int{}
		var subs []*Term
		for _, x := range order {
			r := rec(i+1, t-x)
			if r == nil {
				return nil
			}
			if _, ok := by[r]; !ok {
				subs = append(subs, r)
			}
			by[r] = append(by[r], groups[x]...)
		}
		res := tm.False
		for _, r := range subs {
			if r == tm.False {
				continue
			}
			tab := make([]uint64, len(p.tab))
			for _, j := range by[r] {
				tab[j] = 1
			}
			c := tm.mkTab(p.v, 1, tab)
			if len(subs) == 1 {
				c = tm.True
			}
			res = tm.bin(KOr, res, tm.bin(KAnd, c, r))
		}
		memo[key{i, t}] = res
		return res
	}
	return rec(0, -k)
}

type npart struct {
	v   *Var
	tab []int64
	max int64
}

// normParts writes a linear term as k + sum of non-negative parts (on the
// current domains).
func (tm *TM) normParts(t *Term) (ps []npart, k int64, ok bool) {
	parts := t.args
	k = sext(t.k, t.w)
	switch t.kind {
	case KTab:
		parts = []*Term{t}
		k = 0
	case KSum:
	case KConst:
		return nil, k, true
	default:
		return nil, 0, false
	}
	for _, p := range parts {
		d := &tm.dom[p.v.ord]
		first := true
		var lo, hi int64
		for i, x := range p.tab {
			if !d.has(i) {
				continue
			}
			s := sext(x, t.w)
			if first || s < lo {
				lo = s
			}
			if first || s > hi {
				hi = s
			}
			first = false
		}
		if lo < -1<<60 || hi > 1<<60 {
			return nil, 0, false
		}
		n := npart{v: p.v, tab: make([]int64, len(p.tab)), max: hi - lo}
		for i, x := range p.tab {
			if d.has(i) {
				n.tab[i] = sext(x, t.w) - lo
			}
		}
		k += lo
		if k > 1<<61 || k < -1<<61 {
			return nil, 0, false
		}
		ps = append(ps, n)
	}
	var tot int64
	for _, p := range ps {
		tot += p.max
		if tot > 1<<61 {
			return nil, 0, false
		}
	}
	return ps, k, true
}

func (tm *TM) fromParts(w uint8, ps []npart, k int64) *Term {
	r := tm.konst(w, uint64(k))
	for _, p := range ps {
		tab := make([]uint64, len(p.tab))
		for i, x := range p.tab {
			tab[i] = uint64(x)
		}
		r = tm.linAdd(r, tm.mkTab(p.v, w, tab))
	}
	return r
}

// divmod divides a non-negative linear term by a positive constant when the
// parts split into multiples of c and a remainder below c.
func (tm *TM) divmod(t *Term, c uint64) (*Term, *Term) {
	if c == 0 || c > 1<<60 {
		return nil, nil
	}
	lo, hi, ok := tm.srange(t)
	if !ok || lo < 0 {
		return nil, nil
	}
	if uint64(hi) < c {
		return tm.konst(t.w, 0), t
	}
	ps, k, ok := tm.normParts(t)
	if !ok {
		return nil, nil
	}
	cc := int64(c)
	q := k / cc
	r := k % cc
	if r < 0 {
		r += cc
		q--
	}
	var A, B []npart
	rem := r
	for _, p := range ps {
		all := true
		for _, x := range p.tab {
			if x%cc != 0 {
				all = false
				break
			}
		}
		if all {
			n := npart{v: p.v, tab: make([]int64, len(p.tab)), max: p.max / cc}
			for i, x := range p.tab {
				n.tab[i] = x / cc
			}
			A = append(A, n)
		} else {
			rem += p.max
			B = append(B, p)
		}
	}
	if rem >= cc {
		return nil, nil
	}
	return tm.fromParts(t.w, A, q), tm.fromParts(t.w, B, r)
}

// srange returns a signed range of the term's value (as a w-bit signed number;
// for sums it must not wrap).
func (tm *TM) srange(t *Term) (int64, int64, bool) {
	switch t.kind {
	case KConst:
		s := sext(t.k, t.w)
		return s, s, true
	case KTab:
		d := &tm.dom[t.v.ord]
		first := true
		var lo, hi int64
		for i, x := range t.tab {
			if !d.has(i) {
				continue
			}
			s := sext(x, t.w)
			if first || s < lo {
				lo = s
			}
			if first || s > hi {
				hi = s
			}
			first = false
		}
		return lo, hi, !first
	case KSum:
		ps, k, ok := tm.normParts(t)
		if !ok {
			return 0, 0, false
		}
		hi := k
		for _, p := range ps {
			hi += p.max
		}
		if t.w < 64 {
			if k < -(1<<(t.w-1)) || hi >= 1<<(t.w-1) {
				return 0, 0, false
			}
		}
		return k, hi, true
	case KIte:
		l1, h1, ok1 := tm.srange(t.args[1])
		l2, h2, ok2 := tm.srange(t.args[2])
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		return min(l1, l2), max(h1, h2), true
	case KZext:
		l, h, ok := tm.urange(t.args[0])
		return l, h, ok
	case KSext:
		return tm.srange(t.args[0])
	case KUDiv:
		if t.args[1].kind == KConst && t.args[1].k > 0 && t.args[1].k < 1<<60 {
			l, h, ok := tm.urange(t.args[0])
			if ok {
				return l / int64(t.args[1].k), h / int64(t.args[1].k), true
			}
		}
	case KURem:
		if t.args[1].kind == KConst && t.args[1].k > 0 && t.args[1].k < 1<<60 && t.w > 8 {
			return 0, int64(t.args[1].k) - 1, true
		}
	}
	return 0, 0, false
}

func (tm *TM) urange(t *Term) (int64, int64, bool) {
	switch t.kind {
	case KConst:
		if t.k > 1<<62 {
			return 0, 0, false
		}
		return int64(t.k), int64(t.k), true
	case KTab:
		d := &tm.dom[t.v.ord]
		first := true
		var lo, hi uint64
		for i, x := range t.tab {
			if !d.has(i) {
				continue
			}
			if first || x < lo {
				lo = x
			}
			if first || x > hi {
				hi = x
			}
			first = false
		}
		return int64(lo), int64(hi), !first && hi < 1<<62
	}
	l, h, ok := tm.srange(t)
	return l, h, ok && l >= 0
}

func isLin(t *Term) bool { return t.kind == KConst || t.kind == KTab || t.kind == KSum }

func (tm *TM) linAdd(a, b *Term) *Term {
	if !isLin(a) || !isLin(b) {
		return nil
	}
	w := a.w
	m := mask(w)
	k := uint64(0)
	var parts []*Term
	add := func(p *Term) {
		for i, q := range parts {
			if q.v == p.v {
				tab := make([]uint64, len(p.tab))
				for j := range tab {
					tab[j] = (p.tab[j] + q.tab[j]) & m
				}
				t := tm.mkTab(p.v, w, tab)
				parts[i] = t
				return
			}
		}
		parts = append(parts, p)
	}
	for _, t := range []*Term{a, b} {
		switch t.kind {
		case KConst:
			k += t.k
		case KTab:
			add(t)
		case KSum:
			k += t.k
			for _, p := range t.args {
				add(p)
			}
		}
	}
	return tm.mkSum(w, k, parts)
}

func (tm *TM) mkSum(w uint8, k uint64, parts []*Term) *Term {
	m := mask(w)
	var ps []*Term
	for _, p := range parts {
		if p.kind == KConst {
			k += p.k
			continue
		}
		ps = append(ps, p)
	}
	k &= m
	if len(ps) == 0 {
		return tm.konst(w, k)
	}
	if len(ps) == 1 {
		if k == 0 {
			return ps[0]
		}
		tab := make([]uint64, len(ps[0].tab))
		for i, x := range ps[0].tab {
			tab[i] = (x + k) & m
		}
		return tm.mkTab(ps[0].v, w, tab)
	}
	// normalise: tab[0] == 0
	for i, p := range ps {
		if p.tab[0] != 0 {
			c := p.tab[0]
			tab := make([]uint64, len(p.tab))
			for j, x := range p.tab {
				tab[j] = (x - c) & m
			}
			ps[i] = tm.mkTab(p.v, w, tab)
			k = (k + c) & m
			if ps[i].kind == KConst {
				return tm.mkSum(w, k, ps)
			}
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].v.ord < ps[j].v.ord })
	return tm.intern(&Term{kind: KSum, w: w, k: k, args: ps})
}

func (tm *TM) linScale(a *Term, c uint64) *Term {
	if !isLin(a) {
		return nil
	}
	m := mask(a.w)
	switch a.kind {
	case KConst:
		return tm.konst(a.w, a.k*c)
	case KTab:
		tab := make([]uint64, len(a.tab))
		for i, x := range a.tab {
			tab[i] = x * c & m
		}
		return tm.mkTab(a.v, a.w, tab)
	}
	parts := make([]*Term, len(a.args))
	for i, p := range a.args {
		parts[i] = tm.linScale(p, c)
	}
	return tm.mkSum(a.w, a.k*c, parts)
}

func (tm *TM) not(a *Term) *Term {
	switch a.kind {
	case KConst:
		return tm.boolc(a.k == 0)
	case KTab:
		tab := make([]uint64, len(a.tab))
		for i, x := range a.tab {
			tab[i] = x ^ 1
		}
		return tm.mkTab(a.v, 1, tab)
	case KNot:
		return a.args[0]
	}
	return tm.intern(&Term{kind: KNot, w: 1, args: []*Term{a}})
}

func (tm *TM) andor(k Kind, a, b *Term) *Term {
	abs, id := tm.False, tm.True // absorbing, identity
	if k == KOr {
		abs, id = tm.True, tm.False
	}
	var args []*Term
	push := func(t *Term) bool {
		if t == abs {
			return false
		}
		if t == id {
			return true
		}
		if t.kind == KTab {
			for i, u := range args {
				if u.kind == KTab && u.v == t.v {
					tab := make([]uint64, len(t.tab))
					for j := range tab {
						tab[j] = evalBin(k, 1, t.tab[j], u.tab[j])
					}
					n := tm.mkTab(t.v, 1, tab)
					if n == abs {
						return false
					}
					if n == id {
						args = append(args[:i:i], args[i+1:]...)
						return true
					}
					args[i] = n
					return true
				}
			}
		}
		for _, u := range args {
			if u == t {
				return true
			}
			if u.kind == KNot && u.args[0] == t || t.kind == KNot && t.args[0] == u {
				return false
			}
		}
		args = append(args, t)
		return true
	}
	for _, t := range []*Term{a, b} {
		if t.kind == k {
			for _, u := range t.args {
				if !push(u) {
					return abs
				}
			}
		} else if !push(t) {
			return abs
		}
	}
	switch len(args) {
	case 0:
		return id
	case 1:
		return args[0]
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	return tm.intern(&Term{kind: k, w: 1, args: args})
}

func (tm *TM) ite(c, a, b *Term) *Term {
	if c.kind == KConst {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 1 {
		if a == tm.True {
			return tm.andor(KOr, c, b)
		}
		if a == tm.False {
			return tm.andor(KAnd, tm.not(c), b)
		}
		if b == tm.True {
			return tm.andor(KOr, tm.not(c), a)
		}
		if b == tm.False {
			return tm.andor(KAnd, c, a)
		}
	}
	if c.kind == KTab && (a.kind == KConst || a.kind == KTab && a.v == c.v) && (b.kind == KConst || b.kind == KTab && b.v == c.v) {
		tab := make([]uint64, len(c.tab))
		for i := range tab {
			if c.tab[i] != 0 {
				tab[i] = at(a, i)
			} else {
				tab[i] = at(b, i)
			}
		}
		return tm.mkTab(c.v, a.w, tab)
	}
	return tm.intern(&Term{kind: KIte, w: a.w, args: []*Term{c, a, b}})
}

// conv changes width; signed tells how the source is extended.
func (tm *TM) conv(t *Term, w uint8, signed bool) *Term {
	if t.w == w {
		return t
	}
	switch t.kind {
	case KConst:
		if signed {
			return tm.konst(w, uint64(sext(t.k, t.w)))
		}
		return tm.konst(w, t.k)
	case KTab:
		tab := make([]uint64, len(t.tab))
		for i, x := range t.tab {
			if signed {
				tab[i] = uint64(sext(x, t.w))
			} else {
				tab[i] = x
			}
		}
		return tm.mkTab(t.v, w, tab)
	case KSum:
		if w < t.w {
			parts := make([]*Term, len(t.args))
			for i, p := range t.args {
				parts[i] = tm.conv(p, w, false)
			}
			return tm.mkSum(w, t.k, parts)
		}
		if lo, _, ok := tm.srange(t); ok && (signed || lo >= 0) {
			if ps, k, ok := tm.normParts(t); ok {
				return tm.fromParts(w, ps, k)
			}
		}
	case KIte:
		return tm.ite(t.args[0], tm.conv(t.args[1], w, signed), tm.conv(t.args[2], w, signed))
	}
	k := KTrunc
	if w > t.w {
		k = KZext
		if signed {
			k = KSext
		}
	}
	return tm.intern(&Term{kind: k, w: w, args: []*Term{t}})
}

func (tm *TM) neg(t *Term) *Term {
	if r := tm.linScale(t, ^uint64(0)); r != nil {
		return r
	}
	return tm.bin(KMul, t, tm.konst(t.w, ^uint64(0)))
}

func (tm *TM) bnot(t *Term) *Term { return tm.bin(KBXor, t, tm.konst(t.w, ^uint64(0))) }

// eval evaluates a term under a model (index of the chosen value by ord).
func (tm *TM) eval(t *Term, model []uint8) uint64 {
	tm.stamp++
	return tm.ev(t, model)
}

func (tm *TM) ev(t *Term, m []uint8) uint64 {
	switch t.kind {
	case KConst:
		return t.k
	case KTab:
		return t.tab[m[t.v.ord]]
	}
	if t.stamp == tm.stamp {
		return t.ev
	}
	var r uint64
	switch t.kind {
	case KSum:
		r = t.k
		for _, p := range t.args {
			r += p.tab[m[p.v.ord]]
		}
		r &= mask(t.w)
	case KNot:
		r = tm.ev(t.args[0], m) ^ 1
	case KAnd:
		r = 1
		for _, a := range t.args {
			if tm.ev(a, m) == 0 {
				r = 0
				break
			}
		}
	case KOr:
		for _, a := range t.args {
			if tm.ev(a, m) == 1 {
				r = 1
				break
			}
		}
	case KTrunc:
		r = tm.ev(t.args[0], m) & mask(t.w)
	case KZext:
		r = tm.ev(t.args[0], m)
	case KSext:
		r = uint64(sext(tm.ev(t.args[0], m), t.args[0].w)) & mask(t.w)
	case KIte:
		if tm.ev(t.args[0], m) != 0 {
			r = tm.ev(t.args[1], m)
		} else {
			r = tm.ev(t.args[2], m)
		}
	default:
		r = evalBin(t.kind, t.args[0].w, tm.ev(t.args[0], m), tm.ev(t.args[1], m))
	}
	t.stamp = tm.stamp
	t.ev = r
	return r
}
