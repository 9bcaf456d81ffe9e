package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(vm *VM, fn *Func, args []Value) (Value, bool)

var intrinsics map[string]intrinsic

func lookupIntrinsic(s *ssa.Function) intrinsic {
	name := s.String()
	if o := s.Origin(); o != nil {
		name = o.String()
	}
	return intrinsics[name]
}

func decodeRuneB(b []byte) (rune, int) { return utf8.DecodeRune(b) }

func tuple(vs ...Value) Value { return Value{o: &Tuple{v: vs}} }

func asBytes(vm *VM, v Value) []Value {
	if _, ok := v.o.(*Slice); ok {
		return vm.sliceVals(v)
	}
	if v.o == nil {
		return nil
	}
	return strBytes(v)
}

func bytesConcrete(b []Value) (string, bool) {
	var sb strings.Builder
	for i := range b {
		if b[i].o != nil {
			return "", false
		}
		sb.WriteByte(byte(b[i].n))
	}
	return sb.String(), true
}

func (vm *VM) byteEq(a, b Value) *Term {
	if a.o == nil && b.o == nil {
		return vm.tm.boolc(byte(a.n) == byte(b.n))
	}
	return vm.tm.bin(KEq, vm.term(a, 8), vm.term(b, 8))
}

func (vm *VM) bytesEq(a, b []Value) *Term {
	if len(a) != len(b) {
		return vm.tm.False
	}
	r := vm.tm.True
	for i := range a {
		r = vm.tm.andor(KAnd, r, vm.byteEq(a[i], b[i]))
		if r == vm.tm.False {
			return r
		}
	}
	return r
}

func (vm *VM) indexOf(hay, needle []Value) int {
	for i := 0; i+len(needle) <= len(hay); i++ {
		if vm.decideT(vm.bytesEq(hay[i:i+len(needle)], needle)) {
			return i
		}
	}
	return -1
}

// mapBytes applies an ASCII byte map to a string (native is used for text with
// non-ASCII bytes, which are concretised).
func (vm *VM) mapBytes(s Value, native func(string) string) Value {
	if c, ok := concreteStr(s); ok {
		return strV(native(c))
	}
	tm := vm.tm
	b := append([]Value(nil), strBytes(s)...)
	// bytes that are decided to be non-ASCII are concretised
	for i := range b {
		if b[i].o != nil && !vm.decideT(tm.bin(KUlt, b[i].o.(*Term), tm.konst(8, 0x80))) {
			b[i] = Value{n: vm.conc(b[i])}
		}
	}
	var out []Value
	for i := 0; i < len(b); {
		if b[i].o != nil {
			out = append(out, vm.mapByte(b[i].o.(*Term), func(x byte) byte { return native(string(rune(x)))[0] }))
			i++
			continue
		}
		j := i
		var run []byte
		for j < len(b) && b[j].o == nil {
			run = append(run, byte(b[j].n))
			j++
		}
		for _, c := range []byte(native(string(run))) {
			out = append(out, Value{n: uint64(c)})
		}
		i = j
	}
	return mkStr(out)
}

func (vm *VM) mapByte(t *Term, f func(byte) byte) Value {
	tm := vm.tm
	switch t.kind {
	case KTab:
		tab := make([]uint64, len(t.tab))
		for i, x := range t.tab {
			if x < 0x80 {
				tab[i] = uint64(f(byte(x)))
			} else {
				tab[i] = x
			}
		}
		return vm.fromTerm(tm.mkTab(t.v, 8, tab), false)
	case KConst:
		return Value{n: uint64(f(byte(t.k)))}
	}
	// generic byte: case shift by ranges
	inU := tm.bin(KUlt, tm.bin(KAdd, t, tm.konst(8, 256-'A')), tm.konst(8, 26))
	inL := tm.bin(KUlt, tm.bin(KAdd, t, tm.konst(8, 256-'a')), tm.konst(8, 26))
	du := int(f('A')) - 'A'
	dl := int(f('a')) - 'a'
	r := tm.ite(inU, tm.bin(KAdd, t, tm.konst(8, uint64(du))), tm.ite(inL, tm.bin(KAdd, t, tm.konst(8, uint64(dl))), t))
	return vm.fromTerm(r, false)
}

func errResult(vm *VM, v Value, err error) Value {
	if err == nil {
		return tuple(v, Value{})
	}
	return tuple(v, vm.mkError(err.Error()))
}

func (vm *VM) callMethod(i *Iface, name string, args ...Value) (Value, bool) {
	vm.eng.implMu.Lock()
	f := vm.prog.LookupMethod(i.t.t, nil, name)
	vm.eng.implMu.Unlock()
	if f == nil {
		return Value{}, false
	}
	return vm.callFn(vm.fn(f), append([]Value{i.v}, args...), nil), true
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name && ms.At(i).Obj().Exported() {
			return true
		}
	}
	return false
}

func (vm *VM) hasMeth(r *RType, name string) bool {
	key := "has:" + name
	if f, ok := r.methods[key]; ok {
		return f != nil
	}
	var f *Func
	if hasMethod(r.t, name) {
		f = &Func{}
	}
	r.methods[key] = f
	return f != nil
}

// fmtValue renders one operand for a verb.
func (vm *VM) fmtValue(verb byte, plus, sharp bool, prec int, v Value) []Value {
	if v.o == nil {
		if verb == 'T' || verb == 'v' {
			return strBytes(strV("<nil>"))
		}
		return strBytes(strV("%!" + string(verb) + "(<nil>)"))
	}
	i := v.o.(*Iface)
	if verb == 'T' {
		return strBytes(strV(types.TypeString(i.t.t, func(p *types.Package) string { return p.Name() })))
	}
	if !sharp && strings.IndexByte("vsxXq", verb) >= 0 {
		for _, m := range []string{"Error", "String"} {
			if vm.hasMeth(i.t, m) {
				if _, isPtr := i.t.t.Underlying().(*types.Pointer); isPtr && i.v.o == nil {
					return strBytes(strV("<nil>"))
				}
				r, _ := vm.callMethod(i, m)
				return vm.fmtStr(verb, r)
			}
		}
	}
	return vm.fmtPlain(verb, sharp, prec, i.t.t, i.v, 0)
}

func (vm *VM) fmtStr(verb byte, s Value) []Value {
	switch verb {
	case 'q':
		return strBytes(strV(strconv.Quote(vm.concStr(s))))
	case 'x':
		return strBytes(strV(fmt.Sprintf("%x", vm.concStr(s))))
	case 'X':
		return strBytes(strV(fmt.Sprintf("%X", vm.concStr(s))))
	}
	return strBytes(s)
}

func (vm *VM) fmtPlain(verb byte, sharp bool, prec int, t types.Type, v Value, depth int) []Value {
	str := func(s string) []Value { return strBytes(strV(s)) }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if vm.decideT(vm.term(v, 1)) {
				return str("true")
			}
			return str("false")
		case u.Info()&types.IsString != 0:
			return vm.fmtStr(verb, v)
		case u.Info()&types.IsInteger != 0:
			_, s, _ := intInfo(t)
			switch verb {
			case 'd', 'v':
				return strBytes(vm.itoa(v, s))
			case 'c':
				return str(string(rune(vm.conc(v))))
			case 'q':
				return str(strconv.QuoteRune(rune(vm.conc(v))))
			case 'x':
				return str(strconv.FormatUint(vm.conc(v), 16))
			case 'X':
				return str(strings.ToUpper(strconv.FormatUint(vm.conc(v), 16)))
			case 'U':
				return str(fmt.Sprintf("%U", rune(vm.conc(v))))
			case 'o':
				return str(strconv.FormatUint(vm.conc(v), 8))
			case 'b':
				return str(strconv.FormatUint(vm.conc(v), 2))
			}
			return str("%!" + string(verb) + "(int)")
		case u.Info()&types.IsFloat != 0:
			if d, ok := v.o.(*DecF); ok {
				if verb == 'f' || verb == 'F' {
					if prec < 0 {
						prec = 6
					}
					return strBytes(vm.formatFloat(d, prec))
				}
				if verb == 'v' && prec < 0 {
					if d.scale <= 4 && !d.big {
						return strBytes(vm.formatFloat(d, -1))
					}
				}
				v = floatV(vm.pinFloat(v, "float formatting pinned"))
			}
			f := v.float()
			switch verb {
			case 'v':
				return str(fmt.Sprint(f))
			case 'f', 'F', 'g', 'G', 'e', 'E':
				if prec >= 0 {
					return str(fmt.Sprintf("%.*"+string(verb), prec, f))
				}
				return str(fmt.Sprintf("%"+string(verb), f))
			}
			return str("%!" + string(verb) + "(float64)")
		}
	case *types.Slice, *types.Array:
		var et types.Type
		var vals []Value
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
			vals = vm.sliceVals(v)
			if w, _, ok := intInfo(et); ok && w == 8 && (verb == 's' || verb == 'q') {
				return vm.fmtStr(verb, mkStr(vals))
			}
		} else {
			et = u.(*types.Array).Elem()
			vals = v.o.(*Agg).c
		}
		out := str("[")
		for i, x := range vals {
			if i > 0 {
				out = append(out, Value{n: ' '})
			}
			out = append(out, vm.fmtElem(verb, sharp, prec, et, x, depth+1)...)
		}
		return append(out, Value{n: ']'})
	case *types.Struct:
		out := str("{")
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				out = append(out, Value{n: ' '})
			}
			out = append(out, vm.fmtElem(verb, sharp, prec, u.Field(i).Type(), v.o.(*Agg).c[i], depth+1)...)
		}
		return append(out, Value{n: '}'})
	case *types.Pointer:
		if v.o == nil {
			return str("<nil>")
		}
		if depth == 0 && isAgg(u.Elem()) {
			a := v.o.(*Agg)
			return append(str("&"), vm.fmtPlain(verb, sharp, prec, u.Elem(), a.c[v.n], depth+1)...)
		}
		return str("0xc000000000")
	}
	if u, ok := t.Underlying().(*types.Map); ok {
		var es []mapEntry
		if m, _ := v.o.(*Map); m != nil {
			for _, e := range m.ents {
				if !e.dead {
					es = append(es, e)
				}
			}
		}
		_, signed, isInt := intInfo(u.Key())
		b, _ := u.Key().Underlying().(*types.Basic)
		if isInt || b != nil && b.Info()&types.IsString != 0 {
			sort.SliceStable(es, func(i, j int) bool {
				if !isInt {
					return vm.concStr(es[i].k) < vm.concStr(es[j].k)
				}
				x, y := vm.conc(es[i].k), vm.conc(es[j].k)
				if signed {
					return int64(x) < int64(y)
				}
				return x < y
			})
			out := str("map[")
			for i, e := range es {
				if i > 0 {
					out = append(out, Value{n: ' '})
				}
				out = append(out, vm.fmtElem(verb, sharp, prec, u.Key(), e.k, depth+1)...)
				out = append(out, Value{n: ':'})
				out = append(out, vm.fmtElem(verb, sharp, prec, u.Elem(), e.v, depth+1)...)
			}
			return append(out, Value{n: ']'})
		}
	}
	panic(abortT{"unsupported: fmt of " + t.String()})
}

func (vm *VM) fmtElem(verb byte, sharp bool, prec int, t types.Type, v Value, depth int) []Value {
	if types.IsInterface(t) {
		if v.o == nil {
			return strBytes(strV("<nil>"))
		}
		return vm.fmtValue(verb, false, sharp, prec, v)
	}
	r := vm.rtype(t)
	if verb == 'v' || verb == 's' {
		return vm.fmtValue(verb, false, sharp, prec, Value{o: &Iface{t: r, v: v}})
	}
	return vm.fmtPlain(verb, sharp, prec, t, v, depth)
}

func (vm *VM) sprintf(format string, args []Value) Value {
	var out []Value
	lit := func(s string) { out = append(out, strBytes(strV(s))...) }
	ai, reord := 0, false
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			out = append(out, Value{n: uint64(c)})
			continue
		}
		i++
		zero, minus, plus, sharp, space := false, false, false, false, false
	flags:
		for ; i < len(format); i++ {
			switch format[i] {
			case '0':
				zero = true
			case '-':
				minus = true
			case '+':
				plus = true
			case '#':
				sharp = true
			case ' ':
				space = true
			default:
				break flags
			}
		}
		width, prec := -1, -1
		// an argument given by number, or as width or precision
		index := func() {
			if i >= len(format) || format[i] != '[' {
				return
			}
			k := strings.IndexByte(format[i:], ']')
			n, err := strconv.Atoi(format[i+1 : i+max(k, 1)])
			if k < 0 || err != nil || n < 1 || n > len(args) {
				panic(abortT{"unsupported: fmt verb"})
			}
			ai, reord = n-1, true
			i += k + 1
		}
		star := func() int {
			if i >= len(format) || format[i] != '*' {
				return -1
			}
			i++
			if ai >= len(args) || args[ai].o == nil || args[ai].o.(*Iface).t.t != types.Typ[types.Int] {
				panic(abortT{"unsupported: fmt verb"})
			}
			n := int(int64(vm.conc(args[ai].o.(*Iface).v)))
			ai++
			return n
		}
		index()
		if n := star(); n < -1 {
			width, minus = -n, true
		} else if n >= 0 {
			width = n
		}
		for ; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
			if width < 0 {
				width = 0
			}
			width = width*10 + int(format[i]-'0')
		}
		if i < len(format) && format[i] == '.' {
			prec = 0
			i++
			index()
			prec = max(star(), 0)
			for ; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
				prec = prec*10 + int(format[i]-'0')
			}
		}
		index()
		if i >= len(format) {
			lit("%!(NOVERB)")
			break
		}
		verb := format[i]
		if verb == '%' {
			lit("%")
			continue
		}
		if verb == '*' || verb == '[' {
			panic(abortT{"unsupported: fmt verb"})
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		if verb == 'w' {
			verb = 'v'
		}
		s := vm.fmtValue(verb, plus, sharp, prec, a)
		if (plus || space) && verb == 'd' && (len(s) == 0 || s[0].n != '-' || s[0].o != nil) {
			ch := byte('+')
			if !plus {
				ch = ' '
			}
			s = append([]Value{{n: uint64(ch)}}, s...)
		}
		if verb == 's' && prec >= 0 && prec < len(s) {
			s = s[:prec]
		}
		if pad := width - len(s); pad > 0 {
			switch {
			case minus:
				for k := 0; k < pad; k++ {
					s = append(s, Value{n: ' '})
				}
			case zero:
				sign := 0
				if len(s) > 0 && s[0].o == nil && (s[0].n == '-' || s[0].n == '+') {
					sign = 1
				}
				n := append([]Value(nil), s[:sign]...)
				for k := 0; k < pad; k++ {
					n = append(n, Value{n: '0'})
				}
				s = append(n, s[sign:]...)
			default:
				n := make([]Value, 0, width)
				for k := 0; k < pad; k++ {
					n = append(n, Value{n: ' '})
				}
				s = append(n, s...)
			}
		}
		out = append(out, s...)
	}
	if ai < len(args) && !reord {
		lit("%!(EXTRA ")
		for k := ai; k < len(args); k++ {
			if k > ai {
				lit(", ")
			}
			out = append(out, vm.fmtValue('T', false, false, -1, args[k])...)
			lit("=")
			out = append(out, vm.fmtValue('v', false, false, -1, args[k])...)
		}
		lit(")")
	}
	return mkStr(out)
}

func (vm *VM) sprint(args []Value, ln bool) Value {
	var out []Value
	prevStr := true
	for i, a := range args {
		isStr := false
		if a.o != nil {
			if b, ok := a.o.(*Iface).t.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if i > 0 && (ln || !isStr && !prevStr) {
			out = append(out, Value{n: ' '})
		}
		prevStr = isStr
		out = append(out, vm.fmtValue('v', false, false, -1, a)...)
	}
	if ln {
		out = append(out, Value{n: '\n'})
	}
	return mkStr(out)
}

func (vm *VM) fwrite(w Value, s Value) Value {
	if w.o == nil {
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	i := w.o.(*Iface)
	if strings.HasSuffix(i.t.t.String(), "os.File") {
		return tuple(intV(strLen(s)), Value{})
	}
	r, ok := vm.callMethod(i, "Write", vm.bytesSlice(strBytes(s)))
	if !ok {
		panic(abortT{"unsupported: fmt writer"})
	}
	return r
}

// less/cmp helper for bytealg.Compare
func (vm *VM) compare(a, b []Value) Value {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if vm.decideT(vm.byteEq(a[i], b[i])) {
			continue
		}
		if vm.decideT(vm.tm.bin(KUlt, vm.term(a[i], 8), vm.term(b[i], 8))) {
			return intV(-1)
		}
		return intV(1)
	}
	switch {
	case len(a) < len(b):
		return intV(-1)
	case len(a) > len(b):
		return intV(1)
	}
	return intV(0)
}

func (vm *VM) mapOrder(m *Map) []int {
	var live []int
	for i := range m.ents {
		if !m.ents[i].dead {
			live = append(live, i)
		}
	}
	n := len(live)
	k := vm.mapMode
	if k == 0 || n < 2 {
		// keep entries added during iteration reachable
		return live
	}
	if k == 1 {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			live[i], live[j] = live[j], live[i]
		}
		return live
	}
	if n <= 4 {
		f := 1
		for i := 2; i <= n; i++ {
			f *= i
		}
		p := (k - 2) % f
		var out []int
		rest := append([]int(nil), live...)
		for i := n; i >= 1; i-- {
			f /= i
			j := p / f
			p %= f
			out = append(out, rest[j])
			rest = append(rest[:j], rest[j+1:]...)
		}
		return out
	}
	r := (k - 1) % n
	return append(append([]int(nil), live[r:]...), live[:r]...)
}

func concreteF(v Value) bool { return v.o == nil }

func mathFn(f func(float64) float64) intrinsic {
	return func(vm *VM, fn *Func, a []Value) (Value, bool) {
		return floatV(f(vm.pinFloat(a[0], "math function pinned"))), true
	}
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	const ndp = "verif/harness/nd."
	// --- nd ---
	newByte := func(vm *VM, name string, vals []uint64, kind string, w uint8, signed bool) Value {
		if len(vals) == 0 {
			panic(endT{"assume"})
		}
		v := vm.freshVar(name, vals)
		vm.p.draws = append(vm.p.draws, draw{v: v, kind: kind})
		return vm.fromTerm(vm.tm.varTerm(v, w), signed)
	}
	I[ndp+"Byte"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		var vals []uint64
		for x := vm.conc(a[0]); x <= vm.conc(a[1]); x++ {
			vals = append(vals, x)
		}
		return newByte(vm, "byte", vals, "byte", 8, false), true
	}
	I[ndp+"ByteOf"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		s := vm.concStr(a[0])
		var vals []uint64
		seen := [256]bool{}
		for i := 0; i < len(s); i++ {
			if !seen[s[i]] {
				seen[s[i]] = true
				vals = append(vals, uint64(s[i]))
			}
		}
		return newByte(vm, "byte", vals, "byte", 8, false), true
	}
	I[ndp+"Int"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		var vals []uint64
		lo, hi := int64(vm.conc(a[0])), int64(vm.conc(a[1]))
		if hi-lo > 255 {
			panic(abortT{"nd.Int range too large"})
		}
		for x := lo; x <= hi; x++ {
			vals = append(vals, uint64(x))
		}
		return newByte(vm, "int", vals, "int", 64, true), true
	}
	I[ndp+"Bool"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		v := vm.freshVar("bool", []uint64{0, 1})
		vm.p.draws = append(vm.p.draws, draw{v: v, kind: "int"})
		return vm.fromTerm(vm.tm.varTerm(v, 1), false), true
	}
	I[ndp+"Choice"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		k := vm.choice(int(int64(vm.conc(a[0]))))
		vm.p.draws = append(vm.p.draws, draw{k: int64(k)})
		return intV(k), true
	}
	I[ndp+"OneOf"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		var opts []string
		for _, o := range vm.sliceVals(a[0]) {
			opts = append(opts, vm.concStr(o))
		}
		if len(opts) == 0 {
			panic(endT{"assume"})
		}
		if len(opts) == 1 {
			vm.p.draws = append(vm.p.draws, draw{k: 0})
			return strV(opts[0]), true
		}
		vals := make([]uint64, len(opts))
		for i := range vals {
			vals[i] = uint64(i)
		}
		v := vm.freshVar("oneof", vals)
		vm.p.draws = append(vm.p.draws, draw{v: v, kind: "index"})
		tm := vm.tm
		// fork over lengths
		lens := map[int]bool{}
		var order []int
		for _, o := range opts {
			if !lens[len(o)] {
				lens[len(o)] = true
				order = append(order, len(o))
			}
		}
		n := order[len(order)-1]
		for _, l := range order[:len(order)-1] {
			tab := make([]uint64, len(opts))
			for i, o := range opts {
				if len(o) == l {
					tab[i] = 1
				}
			}
			if vm.decideT(tm.mkTab(v, 1, tab)) {
				n = l
				break
			}
		}
		out := make([]Value, n)
		for j := 0; j < n; j++ {
			tab := make([]uint64, len(opts))
			for i, o := range opts {
				if len(o) == n {
					tab[i] = uint64(o[j])
				}
			}
			out[j] = vm.fromTerm(tm.mkTab(v, 8, tab), false)
		}
		return mkStr(out), true
	}
	I[ndp+"Assume"] = func(vm *VM, fn *Func, a []Value) (Value, bool) { vm.doAssume(a[0]); return Value{}, true }
	I[ndp+"Assert"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		vm.doAssert(a[0], vm.showStr(a[1]))
		return Value{}, true
	}
	I[ndp+"Cover"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		vm.p.covers = append(vm.p.covers, vm.showStr(a[0]))
		return Value{}, true
	}
	I[ndp+"Observe"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		vm.p.obs = append(vm.p.obs, a[0])
		return Value{}, true
	}
	I[ndp+"MapOrder"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		vm.mapMode = int(int64(vm.conc(a[0])))
		return Value{}, true
	}
	I[ndp+"Reinit"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		p := vm.prog.ImportedPackage(repoMod)
		if p == nil {
			panic(abortT{"no package to initialise"})
		}
		vm.mapMode = int(int64(vm.conc(a[0])))
		g := vm.global(p.Var("init$guard"))
		vm.storeCell(g, 0, boolV(false), types.Typ[types.Bool], false)
		f := vm.fn(p.Func("init"))
		vm.run2(f)
		vm.mapMode = 0
		return Value{}, true
	}
	I[ndp+"Freeze"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		vm.epoch++
		vm.frz = vm.epoch
		vm.writes = nil
		return Value{}, true
	}
	I[ndp+"Writes"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		if vm.frz == 0 {
			return Value{}, true
		}
		n := len(vm.writes)
		if n > 0 {
			vm.p.notes = append(vm.p.notes, vm.writes[0])
			vm.eng.note("write to shared memory: " + vm.writes[0])
		}
		return intV(n), true
	}
	I[ndp+"Unfreeze"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		vm.frz = 0
		vm.writes = nil
		return Value{}, true
	}
	I[ndp+"Depth"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		d := vm.peak - vm.depth
		vm.peak = vm.depth
		vm.extra += 2 * vm.maxStep // each measured call may be long
		return intV(d), true
	}
	I[ndp+"Tier"] = func(vm *VM, fn *Func, a []Value) (Value, bool) { return intV(vm.eng.tier), true }
	I[ndp+"Symbolic"] = func(vm *VM, fn *Func, a []Value) (Value, bool) { return boolV(true), true }

	// --- strings/bytes ---
	I["strings.ToLower"] = func(vm *VM, fn *Func, a []Value) (Value, bool) { return vm.mapBytes(a[0], strings.ToLower), true }
	I["strings.ToUpper"] = func(vm *VM, fn *Func, a []Value) (Value, bool) { return vm.mapBytes(a[0], strings.ToUpper), true }
	I["strings.EqualFold"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		x, ok1 := concreteStr(a[0])
		y, ok2 := concreteStr(a[1])
		if ok1 && ok2 {
			return boolV(strings.EqualFold(x, y)), true
		}
		if strLen(a[0]) != strLen(a[1]) {
			if ok1 || ok2 {
				// different lengths can only match for non-ASCII text
				if ok2 {
					x = y
				}
				isASCII := true
				for i := 0; i < len(x); i++ {
					if x[i] >= 0x80 || x[i] == 'k' || x[i] == 'K' || x[i] == 's' || x[i] == 'S' {
						isASCII = false
					}
				}
				if isASCII {
					return Value{}, true
				}
			}
			return boolV(strings.EqualFold(vm.concStr(a[0]), vm.concStr(a[1]))), true
		}
		l := vm.mapBytes(a[0], strings.ToLower)
		r := vm.mapBytes(a[1], strings.ToLower)
		return vm.fromTerm(vm.strEq(l, r), false), true
	}
	for _, n := range []string{"internal/bytealg.Equal", "bytes.Equal"} {
		I[n] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			return vm.fromTerm(vm.bytesEq(asBytes(vm, a[0]), asBytes(vm, a[1])), false), true
		}
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString"} {
		I[n] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			return intV(vm.indexOf(asBytes(vm, a[0]), []Value{a[1]})), true
		}
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		I[n] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			b := asBytes(vm, a[0])
			for i := len(b) - 1; i >= 0; i-- {
				if vm.decideT(vm.byteEq(b[i], a[1])) {
					return intV(i), true
				}
			}
			return intV(-1), true
		}
	}
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString"} {
		I[n] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			return intV(vm.indexOf(asBytes(vm, a[0]), asBytes(vm, a[1]))), true
		}
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		I[n] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			k := 0
			for _, b := range asBytes(vm, a[0]) {
				if vm.decideT(vm.byteEq(b, a[1])) {
					k++
				}
			}
			return intV(k), true
		}
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare", "bytes.Compare"} {
		I[n] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			return vm.compare(asBytes(vm, a[0]), asBytes(vm, a[1])), true
		}
	}
	I["internal/bytealg.MakeNoZero"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		n := int(int64(vm.conc(a[0])))
		c := growCap(0, n, types.Typ[types.Byte])
		return vm.newSlice(types.Typ[types.Byte], n, c), true
	}
	I["internal/abi.NoEscape"] = func(vm *VM, fn *Func, a []Value) (Value, bool) { return a[0], true }
	I["internal/abi.Escape"] = I["internal/abi.NoEscape"]
	I["internal/stringslite.Clone"] = I["internal/abi.NoEscape"]
	I["strings.Clone"] = I["internal/abi.NoEscape"]
	I["unique.Make"] = nil
	delete(I, "unique.Make")

	// --- strconv ---
	I["strconv.Itoa"] = func(vm *VM, fn *Func, a []Value) (Value, bool) { return vm.itoa(a[0], true), true }
	I["strconv.FormatInt"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		b := int(int64(vm.conc(a[1])))
		if b == 10 {
			return vm.itoa(a[0], true), true
		}
		return strV(strconv.FormatInt(int64(vm.conc(a[0])), b)), true
	}
	I["strconv.FormatUint"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		b := int(int64(vm.conc(a[1])))
		if b == 10 {
			return vm.itoa(a[0], false), true
		}
		return strV(strconv.FormatUint(vm.conc(a[0]), b)), true
	}
	I["strconv.AppendInt"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		s, _ := I["strconv.FormatInt"](vm, fn, a[1:])
		b := append(append([]Value(nil), vm.sliceVals(a[0])...), strBytes(s)...)
		return vm.bytesSlice(b), true
	}
	I["strconv.ParseFloat"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		bits := int(int64(vm.conc(a[1])))
		s, ok := concreteStr(a[0])
		if !ok {
			if bits == 64 {
				if v, ok := vm.parseFloat(a[0]); ok {
					return tuple(v, Value{}), true
				}
			}
			s = vm.pinStr(a[0], "number outside plain decimals of 15 digits pinned")
		}
		f, err := strconv.ParseFloat(s, bits)
		if err != nil {
			if ne, ok := err.(*strconv.NumError); ok {
				return tuple(floatV(f), vm.numError(ne)), true
			}
		}
		return errResult(vm, floatV(f), err), true
	}
	I["strconv.FormatFloat"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		f, prec, bits := byte(vm.conc(a[1])), int(int64(vm.conc(a[2]))), int(int64(vm.conc(a[3])))
		if d, ok := a[0].o.(*DecF); ok {
			if f == 'f' && bits == 64 {
				return vm.formatFloat(d, prec), true
			}
			if f == 'g' && bits == 64 && prec == -1 && d.scale <= 4 && !d.big {
				return vm.formatFloat(d, prec), true
			}
		}
		return strV(strconv.FormatFloat(vm.pinFloat(a[0], "float formatting pinned"), f, prec, bits)), true
	}
	I["strconv.AppendFloat"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		s, _ := I["strconv.FormatFloat"](vm, fn, a[1:])
		b := append(append([]Value(nil), vm.sliceVals(a[0])...), strBytes(s)...)
		return vm.bytesSlice(b), true
	}
	I["strconv.Quote"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		return strV(strconv.Quote(vm.concStr(a[0]))), true
	}

	// --- math ---
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round, "Sqrt": math.Sqrt, "Log10": math.Log10, "Log": math.Log, "Exp": math.Exp} {
		I["math."+n] = mathFn(f)
	}
	trunc := func(n string, f func(float64) float64) {
		I["math."+n] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			d, ok := a[0].o.(*DecF)
			if !ok {
				return floatV(f(a[0].float())), true
			}
			if d.scale == 0 {
				return a[0], true
			}
			if n == "Trunc" && d.scale <= 18 {
				return Value{o: &DecF{neg: d.neg, mant: vm.tm.bin(KUDiv, d.mant, vm.tm.konst(64, pow10(d.scale))), vm: vm}}, true
			}
			return floatV(f(vm.pinFloat(a[0], "math function pinned"))), true
		}
	}
	trunc("Trunc", math.Trunc)
	trunc("Floor", math.Floor)
	trunc("Round", math.Round)
	I["math.Abs"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		if d, ok := a[0].o.(*DecF); ok {
			return Value{o: &DecF{neg: vm.tm.False, mant: d.mant, scale: d.scale, vm: vm, big: d.big}}, true
		}
		return floatV(math.Abs(a[0].float())), true
	}
	I["math.Signbit"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		if d, ok := a[0].o.(*DecF); ok {
			return vm.fromTerm(d.neg, false), true
		}
		return boolV(math.Signbit(a[0].float())), true
	}
	I["math.IsNaN"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		return boolV(a[0].o == nil && math.IsNaN(a[0].float())), true
	}
	I["math.IsInf"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		return boolV(a[0].o == nil && math.IsInf(a[0].float(), int(int64(a[1].n)))), true
	}
	I["math.Float64bits"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		return Value{n: math.Float64bits(vm.pinFloat(a[0], "float bits pinned"))}, true
	}
	I["math.Float64frombits"] = func(vm *VM, fn *Func, a []Value) (Value, bool) { return Value{n: vm.conc(a[0])}, true }
	for n, f := range map[string]func(x, y float64) float64{"Max": math.Max, "Min": math.Min, "Dim": math.Dim, "Hypot": math.Hypot, "Remainder": math.Remainder, "Copysign": math.Copysign} {
		I["math."+n] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
			return floatV(f(vm.pinFloat(a[0], "math function pinned"), vm.pinFloat(a[1], "math function pinned"))), true
		}
	}
	I["math.Mod"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		return floatV(math.Mod(vm.pinFloat(a[0], "math function pinned"), vm.pinFloat(a[1], "math function pinned"))), true
	}
	I["math.Modf"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		x, y := math.Modf(vm.pinFloat(a[0], "math function pinned"))
		return tuple(floatV(x), floatV(y)), true
	}
	I["math.Pow"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		return floatV(math.Pow(vm.pinFloat(a[0], "math function pinned"), vm.pinFloat(a[1], "math function pinned"))), true
	}

	// --- fmt, errors, sync ---
	I["fmt.Sprintf"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		return vm.sprintf(vm.concStr(a[0]), vm.sliceVals(a[1])), true
	}
	I["fmt.Sprint"] = func(vm *VM, fn *Func, a []Value) (Value, bool) { return vm.sprint(vm.sliceVals(a[0]), false), true }
	I["fmt.Sprintln"] = func(vm *VM, fn *Func, a []Value) (Value, bool) { return vm.sprint(vm.sliceVals(a[0]), true), true }
	I["fmt.Fprintf"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		return vm.fwrite(a[0], vm.sprintf(vm.concStr(a[1]), vm.sliceVals(a[2]))), true
	}
	I["fmt.Fprint"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		return vm.fwrite(a[0], vm.sprint(vm.sliceVals(a[1]), false)), true
	}
	I["fmt.Fprintln"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		return vm.fwrite(a[0], vm.sprint(vm.sliceVals(a[1]), true)), true
	}
	I["fmt.Errorf"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		f := vm.concStr(a[0])
		args := vm.sliceVals(a[1])
		s := vm.sprintf(f, args)
		if strings.Contains(f, "%w") {
			k := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				if f[i] == '%' {
					continue
				}
				if f[i] == 'w' {
					break
				}
				k++
			}
			if p := vm.prog.ImportedPackage("fmt"); p != nil && p.Type("wrapError") != nil && k < len(args) {
				t := p.Type("wrapError").Type()
				cell := vm.newCell(t).o.(*Agg)
				cell.c[0].o.(*Agg).c[0] = s
				cell.c[0].o.(*Agg).c[1] = args[k]
				return Value{o: &Iface{t: vm.rtype(types.NewPointer(t)), v: Value{o: cell}}}, true
			}
		}
		cell := vm.newCell(vm.errStr).o.(*Agg)
		cell.c[0].o.(*Agg).c[0] = s
		return Value{o: &Iface{t: vm.rtype(types.NewPointer(vm.errStr)), v: Value{o: cell}}}, true
	}
	I["errors.Is"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		target := a[1]
		var is func(e Value) bool
		is = func(e Value) bool {
			for e.o != nil {
				i := e.o.(*Iface)
				if types.Comparable(i.t.t) && vm.decideT(vm.ifaceEq(e, target)) {
					return true
				}
				if vm.hasMeth(i.t, "Is") {
					if r, ok := vm.callMethod(i, "Is", target); ok && (r.o == nil && r.n != 0 || r.o != nil && vm.decideT(r.o.(*Term))) {
						return true
					}
				}
				if !vm.hasMeth(i.t, "Unwrap") {
					return false
				}
				r, _ := vm.callMethod(i, "Unwrap")
				if s, ok := r.o.(*Slice); ok {
					for k := 0; k < s.len; k++ {
						if is(s.a.c[s.off+k]) {
							return true
						}
					}
					return false
				}
				e = r
			}
			return false
		}
		if a[0].o == nil {
			return boolV(target.o == nil), true
		}
		return boolV(is(a[0])), true
	}
	nop := func(vm *VM, fn *Func, a []Value) (Value, bool) { return Value{}, true }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Pool).Put", "runtime.KeepAlive", "runtime.GC", "runtime.Gosched"} {
		I[n] = nop
	}
	I["(*sync.Mutex).TryLock"] = func(vm *VM, fn *Func, a []Value) (Value, bool) { return boolV(true), true }
	I["(*sync.Pool).Get"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		p := a[0].o.(*Agg)
		st := p.c[a[0].n].o.(*Agg)
		nf := st.c[len(st.c)-1]
		if nf.o == nil {
			return Value{}, true
		}
		return vm.callValue(nf, nil), true
	}
	I["(*sync.Once).Do"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		st := a[0].o.(*Agg).c[a[0].n].o.(*Agg)
		// first scalar cell of the Once is used as the done flag
		var cell *Agg
		idx := 0
		var find func(x *Agg)
		find = func(x *Agg) {
			for i := range x.c {
				if cell != nil {
					return
				}
				if ch, ok := x.c[i].o.(*Agg); ok {
					find(ch)
				} else {
					cell, idx = x, i
				}
			}
		}
		find(st)
		if cell == nil {
			return Value{}, false
		}
		if cell.c[idx].n == 0 {
			vm.setCell(cell, idx, Value{n: 1})
			vm.callValue(a[1], nil)
		}
		return Value{}, true
	}
	I["sort.Slice"] = func(vm *VM, fn *Func, a []Value) (Value, bool) {
		s := a[0].o.(*Iface).v
		sl := sliceOf(s)
		et := a[0].o.(*Iface).t.t.Underlying().(*types.Slice).Elem()
		for i := 1; i < sl.len; i++ {
			for j := i; j > 0; j-- {
				r := vm.callValue(a[1], []Value{intV(j), intV(j - 1)})
				if !vm.decideT(vm.term(r, 1)) {
					break
				}
				x := vm.loadCell(sl.a, sl.off+j, et, isAgg(et))
				y := vm.loadCell(sl.a, sl.off+j-1, et, isAgg(et))
				vm.storeCell(sl.a, sl.off+j, y, et, isAgg(et))
				vm.storeCell(sl.a, sl.off+j-1, x, et, isAgg(et))
			}
		}
		return Value{}, true
	}
	I["sort.SliceStable"] = I["sort.Slice"]
	_ = unicode.MaxRune
}

func (vm *VM) numError(ne *strconv.NumError) Value {
	var p *ssa.Package
	for _, path := range []string{"internal/strconv", "strconv"} {
		if q := vm.prog.ImportedPackage(path); q != nil && q.Type("NumError") != nil {
			p = q
		}
	}
	if p == nil {
		return vm.mkError(ne.Error())
	}
	t := p.Type("NumError").Type()
	cell := vm.newCell(t).o.(*Agg)
	st := cell.c[0].o.(*Agg)
	st.c[0], st.c[1] = strV(ne.Func), strV(ne.Num)
	name := "ErrSyntax"
	if ne.Err == strconv.ErrRange {
		name = "ErrRange"
	}
	if q := vm.prog.ImportedPackage("strconv"); q != nil {
		if g := q.Var(name); g != nil {
			st.c[2] = vm.global(g).c[0]
		}
	}
	return Value{o: &Iface{t: vm.rtype(types.NewPointer(t)), v: Value{o: cell}}}
}
