package main

import (
	"go/token"
	"math"
	"strconv"
	"strings"
)

const maxDec = 1000000000000000 // 10^15: below this, decimals and float64 determine each other

func (vm *VM) intToFloat(t *Term, signed bool) Value {
	tm := vm.tm
	if t.kind == KConst {
		if signed {
			return floatV(float64(int64(t.k)))
		}
		return floatV(float64(t.k))
	}
	neg := tm.False
	if signed {
		if lo, _, ok := tm.srange(t); !ok || lo < 0 {
			if vm.decideT(tm.bin(KSlt, t, tm.konst(64, 0))) {
				neg = tm.True
				t = tm.neg(t)
			}
		}
	}
	if !vm.decideT(tm.bin(KUlt, t, tm.konst(64, maxDec))) {
		return Value{o: &DecF{neg: neg, mant: t, vm: vm, big: true}}
	}
	return Value{o: &DecF{neg: neg, mant: t, vm: vm}}
}

// small fixes the value of a float made from a large integer, where possible to
// one that a float64 does not hold exactly.
func (vm *VM) small(v Value) Value {
	d, ok := v.o.(*DecF)
	if !ok || !d.big {
		return v
	}
	tm, p := vm.tm, vm.p
	if len(p.taken) >= len(p.prefix) && vm.merge == nil && vm.spec == 0 {
		c := tm.bin(KAnd, tm.bin(KUlt, tm.konst(64, 1<<53), d.mant), tm.bin(KEq, tm.bin(KURem, d.mant, tm.konst(64, 2)), tm.konst(64, 1)))
		if m, r := vm.feasible(c); r == SAT {
			p.model = m
		}
	}
	f := float64(vm.pin(d.mant, "integer beyond 10^15 converted to float: pinned"))
	if vm.pin(d.neg, "integer beyond 10^15 converted to float: pinned") == 1 {
		f = -f
	}
	return floatV(f)
}

// toDec converts a value to exact decimal form.
func (vm *VM) toDec(v Value) (*DecF, bool) {
	if d, ok := v.o.(*DecF); ok {
		return d, true
	}
	f := v.float()
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return nil, false
	}
	s := strconv.FormatFloat(math.Abs(f), 'f', -1, 64)
	ip, fp, _ := strings.Cut(s, ".")
	if len(strings.TrimLeft(ip+fp, "0")) > 15 {
		return nil, false
	}
	m, err := strconv.ParseUint(ip+fp, 10, 64)
	if err != nil {
		return nil, false
	}
	return &DecF{neg: vm.tm.boolc(math.Signbit(f)), mant: vm.tm.konst(64, m), scale: len(fp), vm: vm}, true
}

// align brings two decimals to a common scale.
func (vm *VM) align(a, b *DecF) (*Term, *Term, int, bool) {
	s := max(a.scale, b.scale)
	if s-a.scale > 18 || s-b.scale > 18 {
		return nil, nil, 0, false
	}
	tm := vm.tm
	up := func(d *DecF) *Term { return tm.bin(KMul, d.mant, tm.konst(64, pow10(s-d.scale))) }
	for _, d := range []*DecF{a, b} {
		k := s - d.scale
		if k > 3 {
			// avoid overflow: mant < 10^15 always, so up to 10^18 is safe
			return nil, nil, 0, false
		}
	}
	return up(a), up(b), s, true
}

func (vm *VM) pinFloat(v Value, why string) float64 {
	v = vm.small(v)
	d, ok := v.o.(*DecF)
	if !ok {
		return v.float()
	}
	m := vm.pin(d.mant, why)
	neg := vm.pin(d.neg, why) == 1
	f, _ := strconv.ParseFloat(strconv.FormatUint(m, 10)+"e-"+strconv.Itoa(d.scale), 64)
	if neg {
		f = -f
	}
	return f
}

func (vm *VM) floatCmp(op string, x, y Value) *Term {
	tm := vm.tm
	x, y = vm.small(x), vm.small(y)
	if x.o == nil && y.o == nil {
		a, b := x.float(), y.float()
		if op == "==" {
			return tm.boolc(a == b)
		}
		return tm.boolc(a < b)
	}
	// a symbolic decimal is below 10^15 in magnitude
	if x.o == nil && math.Abs(x.float()) >= 1e16 {
		return tm.boolc(op == "<" && x.float() < 0)
	}
	if y.o == nil && math.Abs(y.float()) >= 1e16 {
		return tm.boolc(op == "<" && y.float() > 0)
	}
	a, ok1 := vm.toDec(x)
	b, ok2 := vm.toDec(y)
	var am, bm *Term
	ok := ok1 && ok2
	if ok {
		am, bm, _, ok = vm.align(a, b)
		if !ok && op == "==" {
			// strip: pin below
		}
	}
	if !ok {
		// comparison with NaN/Inf or far scales
		if !ok1 || !ok2 {
			f := y
			if !ok1 {
				f = x
			}
			if g := f.float(); math.IsNaN(g) || math.IsInf(g, 0) {
				if op == "==" || math.IsNaN(g) {
					return tm.False
				}
				return tm.boolc((g > 0) == ok1)
			}
		}
		p, q := vm.pinFloat(x, "float comparison pinned"), vm.pinFloat(y, "float comparison pinned")
		if op == "==" {
			return tm.boolc(p == q)
		}
		return tm.boolc(p < q)
	}
	zero := tm.konst(64, 0)
	if op == "==" {
		return tm.bin(KAnd, tm.bin(KEq, am, bm), tm.bin(KOr, tm.bin(KEq, a.neg, b.neg), tm.bin(KEq, am, zero)))
	}
	both0 := tm.bin(KAnd, tm.bin(KEq, am, zero), tm.bin(KEq, bm, zero))
	return tm.ite(a.neg,
		tm.ite(b.neg, tm.bin(KUlt, bm, am), tm.not(both0)),
		tm.ite(b.neg, tm.False, tm.bin(KUlt, am, bm)))
}

func (vm *VM) floatOp(op token.Token, x, y Value) Value {
	tm := vm.tm
	x, y = vm.small(x), vm.small(y)
	switch op {
	case token.EQL:
		return vm.fromTerm(vm.floatCmp("==", x, y), false)
	case token.NEQ:
		return vm.fromTerm(tm.not(vm.floatCmp("==", x, y)), false)
	case token.LSS:
		return vm.fromTerm(vm.floatCmp("<", x, y), false)
	case token.GTR:
		return vm.fromTerm(vm.floatCmp("<", y, x), false)
	case token.LEQ:
		return vm.fromTerm(tm.bin(KOr, vm.floatCmp("<", x, y), vm.floatCmp("==", x, y)), false)
	case token.GEQ:
		return vm.fromTerm(tm.bin(KOr, vm.floatCmp("<", y, x), vm.floatCmp("==", x, y)), false)
	}
	// multiplication by +-1 is exact; the rest is pinned
	if op == token.MUL {
		for i := 0; i < 2; i++ {
			if y.o == nil && (y.float() == 1 || y.float() == -1) {
				if d, ok := x.o.(*DecF); ok {
					if y.float() == 1 {
						return x
					}
					return Value{o: &DecF{neg: tm.not(d.neg), mant: d.mant, scale: d.scale, vm: vm}}
				}
			}
			x, y = y, x
		}
	}
	if op == token.MUL {
		// an integral product below 2^53 is exact
		for i := 0; i < 2; i++ {
			if d, ok := x.o.(*DecF); ok && d.scale == 0 && y.o == nil {
				c := y.float()
				if _, hi, ok := tm.urange(d.mant); ok && c == math.Trunc(c) && c > 0 && c < 1<<53 && float64(hi)*c < 1<<49 {
					return Value{o: &DecF{neg: d.neg, mant: tm.bin(KMul, d.mant, tm.konst(64, uint64(c))), vm: vm}}
				}
			}
			x, y = y, x
		}
	}
	if op == token.QUO && y.o == nil {
		// the quotient of an exact integer and a power of ten is the float64
		// nearest to the decimal
		if d, ok := x.o.(*DecF); ok && d.scale == 0 {
			for k := 1; k <= 15; k++ {
				if y.float() == float64(pow10(k)) {
					return Value{o: &DecF{neg: d.neg, mant: d.mant, scale: k, vm: vm}}
				}
			}
		}
	}
	if op == token.QUO && y.o == nil && y.float() == 1 {
		return x
	}
	if (op == token.ADD || op == token.SUB) && y.o == nil && y.float() == 0 {
		return x
	}
	a, b := vm.pinFloat(x, "float arithmetic pinned"), vm.pinFloat(y, "float arithmetic pinned")
	switch op {
	case token.ADD:
		return floatV(a + b)
	case token.SUB:
		return floatV(a - b)
	case token.MUL:
		return floatV(a * b)
	case token.QUO:
		return floatV(a / b)
	}
	panic(abortT{"unsupported: float op"})
}

func (vm *VM) floatToInt(v Value, w uint8, signed bool) Value {
	tm := vm.tm
	v = vm.small(v)
	if v.o == nil {
		f, n := v.float(), uint64(0)
		if signed {
			n = uint64(int64(f))
		} else {
			n = uint64(f)
		}
		return Value{n: norm(n, w, signed)}
	}
	d := v.o.(*DecF)
	m := d.mant
	if d.scale > 18 {
		m = tm.konst(64, 0)
	} else if d.scale > 0 {
		m = tm.bin(KUDiv, m, tm.konst(64, pow10(d.scale)))
	}
	if vm.decideT(d.neg) {
		m = tm.neg(m)
	}
	return vm.fromTerm(tm.conv(m, w, true), signed)
}

// parseFloat handles strconv.ParseFloat on symbolic text; ok=false when the
// text is not a plain decimal.
func (vm *VM) parseFloat(s Value) (Value, bool) {
	tm := vm.tm
	b := strBytes(s)
	neg := tm.False
	i := 0
	if len(b) > 0 {
		if c := b[0]; c.o == nil && (c.n == '-' || c.n == '+') {
			neg = tm.boolc(c.n == '-')
			i++
		}
	}
	mant := tm.konst(64, 0)
	nd, scale := 0, 0
	dot, digits := false, 0
	for ; i < len(b); i++ {
		c := b[i]
		if c.o == nil {
			switch {
			case c.n == '.' && !dot:
				dot = true
				continue
			case c.n >= '0' && c.n <= '9':
			default:
				return Value{}, false
			}
		} else {
			t := c.o.(*Term)
			dg := vm.tm.bin(KUlt, tm.bin(KAdd, t, tm.konst(8, 256-'0')), tm.konst(8, 10))
			if !vm.decideT(dg) {
				ch := vm.concretize(t, 8)
				b = append([]Value(nil), b...)
				b[i] = Value{n: ch}
				i--
				continue
			}
		}
		t := tm.conv(tm.bin(KAdd, vm.term(c, 8), tm.konst(8, 256-'0')), 64, false)
		digits++
		if nd > 0 || t.kind != KConst || t.k != 0 {
			nd++
		}
		if nd > 15 {
			return Value{}, false
		}
		mant = tm.bin(KAdd, tm.bin(KMul, mant, tm.konst(64, 10)), t)
		if dot {
			scale++
		}
	}
	if digits == 0 {
		return Value{}, false
	}
	if mant.kind == KConst && neg.kind == KConst {
		f, _ := strconv.ParseFloat(strconv.FormatUint(mant.k, 10)+"e-"+strconv.Itoa(scale), 64)
		if neg == tm.True {
			f = -f
		}
		return floatV(f), true
	}
	return Value{o: &DecF{neg: neg, mant: mant, scale: scale, vm: vm}}, true
}

// formatFloat renders a decimal in 'f' format with shortest precision.
func (vm *VM) formatFloat(d *DecF, prec int) Value {
	tm := vm.tm
	if d.big {
		return strV(strconv.FormatFloat(vm.small(Value{o: d}).float(), 'f', prec, 64))
	}
	var out []Value
	if vm.decideT(d.neg) {
		out = append(out, Value{n: '-'})
	}
	m, s := d.mant, d.scale
	ten := tm.konst(64, 10)
	for s > 0 && (prec < 0 || s > prec) {
		last := tm.bin(KURem, m, ten)
		if !vm.decideT(tm.bin(KEq, last, tm.konst(64, 0))) {
			if prec >= 0 {
				f := vm.pinFloat(Value{o: d}, "rounded float formatting pinned")
				return strV(strconv.FormatFloat(f, 'f', prec, 64))
			}
			break
		}
		m = tm.bin(KUDiv, m, ten)
		s--
	}
	var ds []Value
	if s == 0 {
		ds = vm.digits(m)
	} else {
		n := s + 1
		for n < 18 && !vm.decideT(tm.bin(KUlt, m, tm.konst(64, pow10(n)))) {
			n++
		}
		ds = vm.digitsN(m, n)
	}
	out = append(out, ds[:len(ds)-s]...)
	if s > 0 || prec > 0 {
		out = append(out, Value{n: '.'})
		out = append(out, ds[len(ds)-s:]...)
		for k := s; k < prec; k++ {
			out = append(out, Value{n: '0'})
		}
	}
	return mkStr(out)
}
