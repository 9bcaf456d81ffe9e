package main

import (
	"strconv"
	"strings"
	"time"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// A set of types an expression may count as.
type types uint

const (
	tInt types = 1 << iota
	tFloat
	tStr
	tBool
	tGeo
	tInts
	tFloats
	tStrs
	tRange
	tNum = tInt | tFloat
	tVec = tInts | tFloats | tGeo
)

// fits is the documented relation: the type of the result, 0 if the operands do
// not fit the operator.
func fits(op gql.Token, a, b types) types {
	switch op {
	case gql.OR, gql.AND:
		if a&tBool != 0 && b&tBool != 0 {
			return tBool
		}
	case gql.ADD, gql.SUB, gql.MUL, gql.QUO, gql.REM:
		if a&tInt != 0 && b&tInt != 0 {
			return tInt
		}
		if a&tNum != 0 && b&tNum != 0 {
			return tFloat
		}
		if op == gql.ADD && a&tStr != 0 && b&tStr != 0 {
			return tStr
		}
	case gql.LSS, gql.LEQ, gql.GTR, gql.GEQ:
		if a&tNum != 0 && b&tNum != 0 {
			return tBool
		}
	case gql.EQL, gql.LEQL, gql.NOT_EQ, gql.LNEQ:
		if a&tNum != 0 && b&tNum != 0 || a&b&(tStr|tBool|tStrs) != 0 || a&tVec != 0 && b&tVec != 0 {
			return tBool
		}
	case gql.IN, gql.NOT_IN:
		if a&tInt != 0 && b&(tInts|tRange|tGeo) != 0 || a&tFloat != 0 && b&(tFloats|tRange|tGeo) != 0 ||
			a&tStr != 0 && b&tStrs != 0 || a&b&tGeo != 0 {
			return tBool
		}
	case gql.NEARBY, gql.NOT_NEARBY, gql.INTERSECTS, gql.NOT_INTERSECTS:
		if a&(tGeo|tNum) != 0 && b&tGeo != 0 {
			return tBool
		}
	}
	return 0
}

// tb builds conditions with their variables and dictionary.
type tb struct {
	d    gql.Dictionary
	vars []*gql.Assign
	n    int
}

// typesOf tells what an operand counts as.
func (b *tb) typesOf(e gql.Expr) types {
	switch x := e.(type) {
	case *gql.IntTyp:
		return tInt
	case *gql.FloatTyp, *gql.PercentTyp, *gql.SpeedTyp, *gql.DistanceTyp, *gql.PressureTyp, *gql.TemperatureTyp:
		return tFloat
	case *gql.StringTyp:
		return tStr
	case *gql.BooleanTyp:
		return tBool
	case *gql.GeometryPointTyp, *gql.GeometryLineTyp, *gql.GeometryPolygonTyp, *gql.GeometryMultiObjectTyp, *gql.GeometryCollectionTyp:
		return tGeo
	case *gql.Selector:
		switch b.d[x.Ident] {
		case gql.Int, gql.ArrayInt:
			return tInt | tInts
		case gql.Float, gql.ArrayFloat:
			return tFloat | tFloats
		case gql.String, gql.ArrayString:
			return tStr | tStrs
		case gql.Boolean:
			return tBool
		}
	case *gql.Ref:
		for _, a := range b.vars {
			if a.Left.Val == x.ID {
				return b.typesOf(a.Right)
			}
		}
	case *gql.Range:
		if b.typesOf(x.Low)&tNum != 0 && b.typesOf(x.High)&tNum != 0 {
			return tRange
		}
	case *gql.ArrayTyp:
		all := tInt | tFloat | tStr
		for _, i := range x.List {
			all &= b.typesOf(i)
		}
		switch {
		case all&tInt != 0:
			return tInts
		case all&tFloat != 0:
			return tFloats
		case all&tStr != 0:
			return tStrs
		}
	}
	return 0
}

// check is the independent checker of a condition.
func (b *tb) check(e gql.Expr) (types, bool) {
	switch x := e.(type) {
	case *gql.ParenExpr:
		return b.check(x.Expr)
	case *gql.BinaryExpr:
		l, ok := b.check(x.Left)
		if !ok {
			return 0, false
		}
		r, ok := b.check(x.Right)
		if !ok {
			return 0, false
		}
		t := fits(x.Op, l, r)
		return t, t != 0
	}
	return b.typesOf(e), true
}

const nLeaf = 21

func (b *tb) leaf(k int) gql.Expr {
	switch k {
	case 0:
		return &gql.IntTyp{Val: -7}
	case 1:
		return &gql.FloatTyp{Val: 1.5}
	case 2:
		return &gql.StringTyp{Val: "q"}
	case 3:
		return &gql.BooleanTyp{Val: true}
	case 4:
		return b.sel()
	case 5:
		return &gql.PercentTyp{Val: 10}
	case 6:
		return &gql.SpeedTyp{Val: 10, U: gql.Kph}
	case 7:
		return &gql.DistanceTyp{Val: 10, U: gql.Meter}
	case 8:
		return &gql.PressureTyp{Val: 10, U: gql.Psi}
	case 9:
		return &gql.TemperatureTyp{Val: 10, U: gql.Celsius, Vec: gql.Minus}
	case 10:
		return &gql.DurationTyp{Val: time.Hour}
	case 11:
		return &gql.WildcardTyp{}
	case 12:
		return &gql.DateTyp{Year: 2030, Month: 1, Day: 2}
	case 13:
		return &gql.TimeTyp{Hours: 10, Minutes: 11}
	case 14:
		return &gql.WeekdayTyp{Val: 1}
	case 15:
		return &gql.MonthTyp{Val: 1}
	case 16:
		return &gql.GeometryPointTyp{Val: [2]float64{1, 2}}
	case 17:
		return &gql.GeometryLineTyp{Val: [][2]float64{{1, 2}, {3, 4}}}
	case 18:
		return &gql.GeometryPolygonTyp{Val: [][][2]float64{{{1, 2}}}}
	case 19:
		return &gql.GeometryMultiObjectTyp{Kind: gql.GEOMETRY_MULTIPOINT, Val: []gql.Expr{&gql.GeometryPointTyp{Val: [2]float64{1, 2}}}}
	}
	return &gql.GeometryCollectionTyp{Objects: []gql.Expr{&gql.GeometryPointTyp{Val: [2]float64{1, 2}}}}
}

// sel is a selector with any declared type, or undeclared.
func (b *tb) sel() gql.Expr {
	b.n++
	n := "s" + strconv.Itoa(b.n)
	if nd.Bool() {
		b.d[n] = gql.SelectorType(nd.Int(-1, 9))
	}
	return &gql.Selector{Ident: n, Wildcard: true}
}

// ref assigns the value to a variable and refers to it.
func (b *tb) ref(e gql.Expr) gql.Expr {
	b.n++
	n := "v" + strconv.Itoa(b.n)
	b.vars = append(b.vars, &gql.Assign{Left: &gql.Ident{Val: n}, Right: e})
	return &gql.Ref{ID: n}
}

// direct or through a variable.
func (b *tb) maybeRef(e gql.Expr) gql.Expr {
	if nd.Bool() {
		return b.ref(e)
	}
	return e
}

// end is a range end, item a list element.
func (b *tb) end() gql.Expr {
	switch k := nd.Choice(8); k {
	case 0, 1, 2, 3, 4, 5:
		return b.maybeRef(b.leaf([]int{0, 1, 2, 4, 7, 10}[k]))
	case 6:
		return b.leaf(13)
	}
	return &gql.Ref{ID: "unassigned"}
}

func (b *tb) list(n int) gql.Expr {
	a := &gql.ArrayTyp{Kind: gql.INT}
	for i := 0; i < n; i++ {
		var e gql.Expr
		switch k := nd.Choice(7); k {
		case 0, 1, 2:
			e = b.leaf(k)
		case 3:
			e = b.sel()
		case 4:
			e = b.ref(b.leaf([]int{0, 1, 2, 4, 3}[nd.Choice(5)]))
		case 5:
			e = b.leaf(5)
		case 6:
			e = []gql.Expr{&gql.DurationTyp{Val: 1}, &gql.Range{Low: b.leaf(0), High: b.leaf(0)}, &gql.Ref{ID: "unassigned"}}[nd.Choice(3)]
		}
		a.List = append(a.List, e)
	}
	return a
}

// some is an operand with few cases of every type.
func (b *tb) some() gql.Expr {
	switch k := nd.Choice(8); k {
	case 0, 1, 2, 3:
		return b.leaf(k)
	case 4:
		return b.leaf(16)
	case 5:
		return b.leaf(7)
	case 6:
		return &gql.ArrayTyp{Kind: gql.INT, List: []gql.Expr{b.leaf(nd.Choice(3))}}
	}
	return b.sel()
}

var tokens = []gql.Token{gql.ILLEGAL, gql.EOF, gql.OR, gql.AND, gql.NOT_EQ, gql.EQL, gql.LEQL, gql.LNEQ, gql.GEQ, gql.LEQ, gql.GTR, gql.LSS,
	gql.ADD, gql.SUB, gql.MUL, gql.QUO, gql.REM, gql.IN, gql.NOT_IN, gql.NEARBY, gql.NOT_NEARBY, gql.INTERSECTS, gql.NOT_INTERSECTS}

// op is an arbitrary token.
func op() gql.Token { return gql.Token(nd.Int(-1, 120)) }

func (b *tb) decide(e gql.Expr) {
	t := &gql.Trigger{When: e, Vars: b.vars}
	before, _ := format(t)
	nd.Observe(before)
	_, want := b.check(e)
	err := gql.CheckType(t, b.d)
	if want {
		nd.Assert(err == nil, "a well-typed condition is rejected")
	} else {
		nd.Assert(err != nil, "an ill-typed condition is accepted")
		if err != nil {
			nd.Assert(err.Error() != "", "the type error has a text")
		}
	}
	after, _ := format(t)
	nd.Assert(before == after, "type checking changes the rule")
	nd.Assert(t.When == e && len(t.Vars) == len(b.vars), "type checking changes the rule")
}

func newTB() *tb { return &tb{d: gql.Dict()} }

// P08_Leaf: two operands of any kind, direct or through variables, any operator.
func P08_Leaf() {
	b := newTB()
	l := b.maybeRef(b.leaf(nd.Choice(nLeaf)))
	r := b.maybeRef(b.leaf(nd.Choice(nLeaf)))
	b.decide(&gql.BinaryExpr{Op: tokens[2+nd.Choice(len(tokens)-2)], Left: l, Right: r})
}

// P08_Op: any token as operator.
func P08_Op() {
	b := newTB()
	l := b.some()
	r := b.some()
	b.decide(&gql.BinaryExpr{Op: op(), Left: l, Right: r})
}

// P08_Range: ranges with ends of any kind, direct or through a variable.
func P08_Range() {
	b := newTB()
	r := b.maybeRef(&gql.Range{Low: b.end(), High: b.end()})
	l := b.some()
	o := []gql.Token{gql.IN, gql.NOT_IN, gql.EQL, gql.GTR, gql.ADD, gql.INTERSECTS}[nd.Choice(6)]
	if nd.Choice(4) == 0 {
		l, r = r, l
	}
	b.decide(&gql.BinaryExpr{Op: o, Left: l, Right: r})
}

// P08_List: lists of elements of any kinds, direct or through a variable.
func P08_List() {
	b := newTB()
	n := 1 + nd.Choice(2)
	if nd.Tier() > 0 {
		n = 1 + nd.Choice(3)
	}
	r := b.maybeRef(b.list(n))
	var l gql.Expr
	switch nd.Choice(6) {
	case 0:
		l = b.leaf(0)
	case 1:
		l = b.leaf(1)
	case 2:
		l = b.leaf(2)
	case 3:
		l = b.leaf(16)
	case 4:
		l = &gql.ArrayTyp{Kind: gql.INT, List: []gql.Expr{b.leaf(0), b.leaf(nd.Choice(3))}}
	case 5:
		l = b.sel()
	}
	o := []gql.Token{gql.IN, gql.NOT_IN, gql.EQL, gql.LNEQ, gql.SUB, gql.NEARBY}[nd.Choice(6)]
	if nd.Bool() {
		l, r = r, l
	}
	b.decide(&gql.BinaryExpr{Op: o, Left: l, Right: r})
}

// P08_LongList: one odd element anywhere in a list.
func P08_LongList() {
	b := newTB()
	n := 2 + nd.Choice(5)
	k, j := nd.Choice(3), nd.Choice(nLeaf)
	at := nd.Choice(n)
	a := &gql.ArrayTyp{Kind: gql.INT}
	for i := 0; i < n; i++ {
		if i == at {
			a.List = append(a.List, b.maybeRef(b.leaf(j)))
		} else {
			a.List = append(a.List, b.leaf(k))
		}
	}
	o := []gql.Token{gql.IN, gql.EQL}[nd.Choice(2)]
	var l gql.Expr = b.leaf(k)
	if o == gql.EQL {
		l = &gql.ArrayTyp{Kind: gql.INT, List: []gql.Expr{b.leaf(k)}}
	}
	b.decide(&gql.BinaryExpr{Op: o, Left: l, Right: b.maybeRef(a)})
}

var opReps = []gql.Token{gql.AND, gql.LNEQ, gql.GEQ, gql.ADD, gql.REM, gql.IN, gql.NOT_NEARBY, gql.NOT_IN, gql.EQL}

// P08_Nested: operations nested on either side.
func P08_Nested() {
	b := newTB()
	var in gql.Expr = &gql.BinaryExpr{Op: opReps[nd.Choice(len(opReps))], Left: b.some(), Right: b.some()}
	switch nd.Choice(3) {
	case 1:
		in = &gql.ParenExpr{Expr: in}
	case 2:
		in = &gql.ParenExpr{Expr: &gql.ParenExpr{Expr: in}}
	}
	x := b.leaf([]int{0, 1, 2, 3, 16}[nd.Choice(5)])
	if nd.Tier() > 0 && nd.Bool() {
		x = &gql.BinaryExpr{Op: opReps[nd.Choice(len(opReps))], Left: x, Right: b.leaf([]int{0, 1, 2, 3, 16}[nd.Choice(5)])}
	}
	o := opReps[nd.Choice(len(opReps))]
	if nd.Bool() {
		b.decide(&gql.BinaryExpr{Op: o, Left: in, Right: x})
	} else {
		b.decide(&gql.BinaryExpr{Op: o, Left: x, Right: in})
	}
}

// P08_Deep: one ill-typed operation anywhere in a chain of operations.
func P08_Deep() {
	b := newTB()
	n := 1 + nd.Choice(8)
	at := nd.Choice(n + 1)
	var e gql.Expr = &gql.BinaryExpr{Op: gql.GTR, Left: b.leaf(0), Right: b.leaf(1)}
	for i := 0; i <= n; i++ {
		var x gql.Expr = &gql.BinaryExpr{Op: gql.EQL, Left: b.leaf(2), Right: b.leaf(2)}
		if i == at {
			x = b.maybeRef(b.leaf(nd.Choice(nLeaf)))
			if nd.Bool() {
				x = &gql.BinaryExpr{Op: opReps[nd.Choice(len(opReps))], Left: b.leaf(0), Right: x}
			}
		}
		if i%3 == 1 {
			x = &gql.ParenExpr{Expr: x}
		}
		o := []gql.Token{gql.AND, gql.OR}[i%2]
		if i%4 < 2 {
			e = &gql.BinaryExpr{Op: o, Left: e, Right: x}
		} else {
			e = &gql.ParenExpr{Expr: &gql.BinaryExpr{Op: o, Left: x, Right: e}}
		}
	}
	b.decide(e)
}

// P08_Paren: operands and operations below many parentheses.
func P08_Paren() {
	b := newTB()
	deep := func(e gql.Expr, n int) gql.Expr {
		for ; n > 0; n-- {
			e = &gql.ParenExpr{Expr: e}
		}
		return e
	}
	max := 8
	if nd.Tier() > 0 {
		max = 40
	}
	n, m := nd.Choice(max), []int{0, 4}[nd.Choice(2)]
	var e gql.Expr
	switch nd.Choice(3) {
	case 0:
		e = b.maybeRef(b.leaf(nd.Choice(nLeaf)))
	case 1:
		e = &gql.BinaryExpr{Op: opReps[nd.Choice(len(opReps))], Left: deep(b.leaf(0), m), Right: b.leaf([]int{0, 2, 16}[nd.Choice(3)])}
	case 2:
		e = &gql.BinaryExpr{Op: gql.AND, Left: &gql.BinaryExpr{Op: gql.EQL, Left: b.leaf(0), Right: b.leaf(nd.Choice(4))}, Right: deep(&gql.BinaryExpr{Op: gql.LSS, Left: b.leaf(1), Right: b.leaf(nd.Choice(4))}, m)}
	}
	e = deep(e, n)
	x := b.leaf([]int{0, 3}[nd.Choice(2)])
	switch nd.Choice(3) {
	case 0:
		b.decide(e)
	case 1:
		b.decide(&gql.BinaryExpr{Op: opReps[nd.Choice(len(opReps))], Left: e, Right: x})
	case 2:
		b.decide(&gql.BinaryExpr{Op: opReps[nd.Choice(len(opReps))], Left: x, Right: deep(e, m)})
	}
}

// P08_Text: parsed rules.
func P08_Text() {
	l, r := tiny(nd.Choice(nTiny)), tiny(nd.Choice(nTiny))
	nd.Assume(!hasProps(l.node))
	o := ops[rep[nd.Choice(len(rep))]]
	set := "trigger set R1 = 5; b1 = \"s\"; "
	src := set + glue("when "+l.text+o.text, r.text)
	t := parse(src)
	if t == nil {
		return
	}
	b := newTB()
	b.vars = t.Vars
	if nd.Bool() {
		b.d["sel"] = gql.SelectorType(nd.Int(1, 7))
		b.d["a"] = gql.SelectorType(nd.Int(1, 7))
	}
	nd.Observe(src)
	_, want := b.check(t.When)
	err := gql.CheckType(t, b.d)
	nd.Assert(want == (err == nil), "type check of a parsed rule")
}

// P08_Single: a condition without operator is always accepted.
func P08_Single() {
	b := newTB()
	e := b.maybeRef(b.leaf(nd.Choice(nLeaf)))
	if nd.Bool() {
		e = &gql.ParenExpr{Expr: e}
	}
	b.decide(e)
}

// P08_NestedIn: the result of an operation as a member of lists, ranges, geometries.
func P08_NestedIn() {
	b := newTB()
	ar := []gql.Token{gql.ADD, gql.SUB, gql.MUL, gql.QUO, gql.REM, gql.EQL}
	num := func() gql.Expr {
		switch k := nd.Choice(5); k {
		case 0, 1, 2:
			return b.leaf(k)
		case 3:
			return b.leaf(7)
		}
		return b.sel()
	}
	var in gql.Expr = &gql.BinaryExpr{Op: ar[nd.Choice(len(ar))], Left: b.leaf(nd.Choice(3)), Right: num()}
	switch nd.Choice(3) {
	case 1:
		in = &gql.ParenExpr{Expr: in}
	case 2:
		in = &gql.BinaryExpr{Op: []gql.Token{gql.ADD, gql.REM}[nd.Choice(2)], Left: in, Right: b.leaf(0)}
	}
	var x gql.Expr
	switch nd.Choice(5) {
	case 0:
		x = &gql.ArrayTyp{Kind: gql.INT, List: []gql.Expr{b.leaf(nd.Choice(3))}}
	case 1:
		x = b.ref(&gql.ArrayTyp{Kind: gql.INT, List: []gql.Expr{b.leaf(0), b.leaf(nd.Choice(2))}})
	case 2:
		x = &gql.Range{Low: b.leaf(0), High: b.leaf(nd.Choice(3))}
	case 3:
		x = b.leaf(16)
	case 4:
		x = b.sel()
	}
	o := []gql.Token{gql.IN, gql.EQL, gql.INTERSECTS}[nd.Choice(3)]
	if nd.Bool() {
		in, x = x, in
	}
	b.decide(&gql.BinaryExpr{Op: o, Left: in, Right: x})
}

// alike are names of n characters or one more that differ from name in a way.
func alike(n, how int) (string, string) {
	w := strings.Repeat("abcd_e12fg", n/10+1)[:n]
	switch how {
	case 0:
		return w, w + "x"
	case 1:
		return w, "x" + w
	case 2:
		return w, w[:n-1] + "X"
	case 3:
		return w, "x" + w[1:]
	case 4:
		return w, w[:n/2] + "x" + w[n/2+1:]
	case 5:
		return w, strings.ToUpper(w)
	case 6:
		return w + "1", w + "2"
	case 7:
		return w + "_", w
	}
	return w + "é", w + "è"
}

// P08_Names: variables and selectors are the ones of exactly the written name.
func P08_Names() {
	n := 1 + nd.Choice(24)
	if nd.Tier() > 0 {
		n = []int{1, 2, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025}[n-1]
	}
	x, y := alike(n, nd.Choice(9))
	z := ""
	if nd.Bool() {
		x, y = y, x
	}
	b := newTB()
	pair := [][2]int{{0, 3}, {1, 2}, {2, 0}, {3, 2}, {16, 1}}[nd.Choice(5)]
	var e gql.Expr
	if nd.Bool() {
		b.vars = []*gql.Assign{{Left: &gql.Ident{Val: x}, Right: b.leaf(pair[0])}, {Left: &gql.Ident{Val: y}, Right: b.leaf(pair[1])}}
		z = []string{x, y, x[1:]}[nd.Choice(3)]
		e = &gql.Ref{ID: z}
	} else {
		of := map[int]gql.SelectorType{0: gql.Int, 1: gql.Float, 2: gql.String, 3: gql.Boolean, 16: gql.ArrayInt}
		b.d[x], b.d[y] = of[pair[0]], of[pair[1]]
		z = []string{x, y, x[1:]}[nd.Choice(3)]
		e = &gql.Selector{Ident: z, Wildcard: true}
	}
	i := nd.Choice(4)
	o := []gql.Token{gql.LEQL, gql.ADD, gql.AND, gql.INTERSECTS}[i]
	l := b.leaf([]int{0, 2, 3, 16}[i])
	if nd.Bool() {
		b.decide(&gql.BinaryExpr{Op: o, Left: e, Right: l})
	} else {
		b.decide(&gql.BinaryExpr{Op: o, Left: l, Right: e})
	}
}
