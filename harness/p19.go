package main

import (
	"strings"
	"time"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

const (
	listMsg  = "the list is not the written one"
	rangeMsg = "the range is not the written one"
)

// elemKind is the kind of list an element belongs to, ILLEGAL if none.
func elemKind(e gql.Expr) gql.Token {
	switch e.(type) {
	case *gql.IntTyp:
		return gql.INT
	case *gql.FloatTyp:
		return gql.FLOAT
	case *gql.PercentTyp:
		return gql.PERCENT
	case *gql.SpeedTyp:
		return gql.SPEED
	case *gql.DistanceTyp:
		return gql.DISTANCE
	case *gql.PressureTyp:
		return gql.PRESSURE
	case *gql.TemperatureTyp:
		return gql.TEMPERATURE
	case *gql.DurationTyp:
		return gql.DURATION
	case *gql.StringTyp:
		return gql.STRING
	case *gql.Ref:
		return gql.IDENT
	case *gql.Selector:
		return gql.SELECTOR
	case *gql.Range:
		return gql.RANGE
	}
	return gql.ILLEGAL
}

// listCtxs are places that take a list or a range.
var listCtxs = []ctx{
	{"when a in ", "", func(t *gql.Trigger) gql.Expr { return bin(t.When).Right }},
	{"when (", " == a) or b", func(t *gql.Trigger) gql.Expr { return bin(paren(bin(t.When).Left)).Left }},
	{"trigger set u = 1; v = ", " when a", func(t *gql.Trigger) gql.Expr { return variable(t, 1) }},
	{"when s:1, ", " repeat 3", func(t *gql.Trigger) gql.Expr { return prop(t.When, 1) }},
}

// list decides whether the elements make a list and if so asserts that it is
// the parsed one, else that the rule is rejected.
func list(c ctx, xs ...lit) {
	a := &gql.ArrayTyp{Kind: elemKind(xs[0].node)}
	var ts []string
	ok := true
	for _, x := range xs {
		k := elemKind(x.node)
		ok = ok && k != gql.ILLEGAL && k == a.Kind
		ts = append(ts, x.text)
		a.List = append(a.List, x.node)
	}
	l := lit{"[" + strings.Join(ts, ", ") + "]", a}
	if ok {
		nd.Cover("accepted")
		captured(c, l, listMsg)
	} else {
		nd.Cover("rejected")
		rejected(c.pre+l.text+c.post, "a list of elements of different kinds is accepted")
	}
}

func listCtx(xs ...lit) ctx {
	c := listCtxs[nd.Choice(len(listCtxs))]
	for _, x := range xs {
		nd.Assume(!isRef(x.node) || c.post != " when a") // a list of references is not assignable
	}
	return c
}

// P19_Pair: two elements of any kinds.
func P19_Pair() {
	a, b := nd.Choice(nTiny), nd.Choice(nTiny)
	nd.Assume(a != 18) // its properties would take the other element
	x, y := tiny(a), tiny(b)
	list(listCtx(x, y), x, y)
}

// P19_One: a list of one element of any kind.
func P19_One() {
	x := tiny(nd.Choice(nTiny))
	list(listCtx(x), x)
}

// P19_Odd: one element of any kind among several of one kind.
func P19_Odd() {
	n := 3 + nd.Choice(5)
	if nd.Tier() > 0 {
		n = 3 + nd.Choice(20)
	}
	k, j := nd.Choice(nTiny), nd.Choice(nTiny)
	nd.Assume(k != 18 && j != 18)
	x, y := tiny(k), tiny(j)
	nd.Assume(inArray(x.node))
	at := nd.Choice(n)
	xs := make([]lit, n)
	for i := range xs {
		xs[i] = x
		if i == at {
			xs[i] = y
		}
	}
	list(listCtxs[0], xs...)
}

// P19_Alike: elements whose kinds are easily mistaken for one another.
func P19_Alike() {
	one := func() lit {
		s, v := digs(1)
		f := float64(v)
		switch nd.Choice(12) {
		case 0:
			return lit{s, &gql.IntTyp{Val: v}}
		case 1:
			return lit{s + ".0", &gql.FloatTyp{Val: f}}
		case 2:
			return lit{s + "m", &gql.DurationTyp{Val: time.Duration(v) * time.Minute}}
		case 3:
			return lit{s + "M", &gql.DistanceTyp{Val: f, U: gql.Meter}}
		case 4:
			return lit{s + "Km", &gql.DistanceTyp{Val: f, U: gql.Kilometer}}
		case 5:
			return lit{s + "Kph", &gql.SpeedTyp{Val: f, U: gql.Kph}}
		case 6:
			return lit{s + "C", &gql.TemperatureTyp{Val: f, U: gql.Celsius}}
		case 7:
			return lit{s + "F", &gql.TemperatureTyp{Val: f, U: gql.Fahrenheit}}
		case 8:
			return lit{s + "Psi", &gql.PressureTyp{Val: f, U: gql.Psi}}
		case 9:
			return lit{s + "%", &gql.PercentTyp{Val: f}}
		case 10:
			return lit{`"` + s + `"`, &gql.StringTyp{Val: s}}
		}
		return lit{s + " .. " + s, &gql.Range{Low: &gql.IntTyp{Val: v}, High: &gql.IntTyp{Val: v}}}
	}
	x, y := one(), one()
	if nd.Bool() {
		list(listCtxs[0], x, y)
	} else {
		list(listCtxs[0], x, x, y, one())
	}
}

// P19_Value: lists of one kind with arbitrary values.
func P19_Value() {
	l := arrayLit()
	captured(listCtxs[nd.Choice(len(listCtxs))], l, listMsg)
}

// P19_Range: ranges with ends of any kinds.
func P19_Range() {
	a, b := nd.Choice(nTiny), nd.Choice(nTiny)
	nd.Assume(a != 18)
	x, y := tiny(a), tiny(b)
	c := listCtxs[nd.Choice(len(listCtxs))]
	t := x.text + " .. " + y.text
	if a == 15 || b == 15 {
		rejected(c.pre+t+c.post, "a range of ranges is accepted")
		return
	}
	captured(c, lit{t, &gql.Range{Low: x.node, High: y.node}}, rangeMsg)
}

// P19_RangeValue: ranges with arbitrary values.
func P19_RangeValue() {
	l := rangeLit()
	captured(listCtxs[nd.Choice(len(listCtxs))], l, rangeMsg)
}

// P19_Same: lists and ranges of parts that may be equal.
func P19_Same() {
	k := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 15}[nd.Choice(12)]
	xs := []lit{tiny(k), tiny(k)}
	if nd.Bool() && k != 15 {
		x, y := xs[nd.Choice(2)], xs[nd.Choice(2)]
		captured(listCtxs[0], lit{x.text + " .. " + y.text, &gql.Range{Low: x.node, High: y.node}}, rangeMsg)
		return
	}
	n := 2 + nd.Choice(3+nd.Tier())
	var ls []lit
	for i := 0; i < n; i++ {
		ls = append(ls, xs[nd.Choice(2)])
	}
	list(listCtxs[0], ls...)
}

// P19_Wide: ranges and lists of two numbers of several digits.
func P19_Wide() {
	if nd.Bool() {
		k := nd.Choice(8)
		list(listCtxs[nd.Choice(len(listCtxs))], wide(k), wide(k))
		return
	}
	x, y := wide(nd.Choice(8)), wide(nd.Choice(8))
	c := listCtxs[nd.Choice(len(listCtxs))]
	captured(c, lit{x.text + " .. " + y.text, &gql.Range{Low: x.node, High: y.node}}, rangeMsg)
}

// P19_NoElement: an operand with anything around it, or next to it, is no
// element of a list of such operands.
func P19_NoElement() {
	k := nd.Choice(nTiny)
	nd.Assume(k != 18)
	x := tiny(k)
	nd.Assume(inArray(x.node))
	y := x.text
	switch nd.Choice(11) {
	case 0:
		y = "(" + y + ")"
	case 1:
		y = "((" + y + "))"
	case 2:
		y = "[" + y + "]"
	case 3:
		y = y + " + " + y
	case 4:
		y = y + " == " + y
	case 5:
		y = y + " " + y
	case 6:
		y = ""
	case 7:
		y = "{" + y + "}"
	case 8:
		y = "; " + y
	case 10:
		y = y + "; " + y
	case 9:
		y = "(" + y + " * " + y + ")"
	}
	n := 1 + nd.Choice(4)
	at := nd.Choice(n)
	xs := make([]string, n)
	for i := range xs {
		xs[i] = x.text
		if i == at {
			xs[i] = y
		}
	}
	c := listCtxs[nd.Choice(len(listCtxs))]
	rejected(c.pre+"["+strings.Join(xs, ", ")+"]"+c.post, "what is no element of a list is accepted")
}

// P19_RangeList: ranges as elements, ends and operands of operations.
func P19_RangeList() {
	num := func() lit { return tiny([]int{0, 1, 4, 6, 8, 10}[nd.Choice(6)]) }
	rg := func() lit {
		x, y := num(), num()
		return lit{x.text + nd.OneOf(" .. ", " Range ", "\n..\t") + y.text, &gql.Range{Low: x.node, High: y.node}}
	}
	switch nd.Choice(3) {
	case 0:
		list(listCtxs[0], rg(), rg())
	case 1:
		// the ends of a range bind tighter than any operator
		r, x := rg(), num()
		o := ops[nd.Choice(len(ops))]
		e := &gql.BinaryExpr{Op: o.tok, Left: r.node, Right: x.node}
		captured(ctxs[4], lit{r.text + o.text + x.text, e}, rangeMsg)
	case 2:
		r, x := rg(), num()
		o := ops[nd.Choice(len(ops))]
		e := &gql.BinaryExpr{Op: o.tok, Left: x.node, Right: r.node}
		captured(ctxs[4], lit{x.text + o.text + r.text, e}, rangeMsg)
	}
}

// listGrammar is the documented grammar of lists and ranges in expressions.
type listGrammar struct{ grammar }

func (g *listGrammar) fail() gql.Expr {
	g.bad = true
	return nil
}

func (g *listGrammar) expr() gql.Expr {
	xs := []gql.Expr{g.unary()}
	var os []opT
	for !g.bad {
		switch g.peek() {
		case "*":
			os = append(os, opT{"*", gql.MUL, 5})
		case "-":
			os = append(os, opT{"-", gql.SUB, 4})
		case "in":
			os = append(os, opT{"in", gql.IN, 3})
		default:
			return climb(xs, os)
		}
		g.i++
		xs = append(xs, g.unary())
	}
	return nil
}

func (g *listGrammar) unary() gql.Expr {
	e := g.operand()
	if g.bad || !g.take("..") {
		return e
	}
	h := g.unary()
	if isRange(h) {
		return g.fail()
	}
	return &gql.Range{Low: e, High: h}
}

func (g *listGrammar) operand() gql.Expr {
	t := g.peek()
	g.i++
	switch t {
	case "1":
		return &gql.IntTyp{Val: 1}
	case "2.5":
		return &gql.FloatTyp{Val: 2.5}
	case "3M":
		return &gql.DistanceTyp{Val: 3, U: gql.Meter}
	case "4s":
		return &gql.DurationTyp{Val: 4 * time.Second}
	case "-":
		if g.take("1") {
			return &gql.IntTyp{Val: -1}
		}
		if g.take("2.5") {
			return &gql.FloatTyp{Val: -2.5}
		}
		return g.fail()
	case `"x"`:
		return &gql.StringTyp{Val: "x"}
	case "true":
		return &gql.BooleanTyp{Val: true}
	case "*":
		return &gql.WildcardTyp{}
	case "@r":
		return &gql.Ref{ID: "r"}
	case "(":
		e := g.expr()
		g.must(")")
		return &gql.ParenExpr{Expr: e}
	case "[":
		return g.array()
	case "z":
		s := &gql.Selector{Ident: "z", Wildcard: true}
		if g.take(":") {
			s.Props = append(s.Props, g.unary())
			for !g.bad && g.take(",") {
				s.Props = append(s.Props, g.unary())
			}
		}
		return s
	}
	return g.fail()
}

func (g *listGrammar) array() gql.Expr {
	a := &gql.ArrayTyp{}
	for !g.bad {
		e := g.unary()
		if g.bad {
			return nil
		}
		k := elemKind(e)
		if k == gql.ILLEGAL || len(a.List) > 0 && a.Kind != k {
			return g.fail()
		}
		a.Kind = k
		a.List = append(a.List, e)
		if g.take("]") {
			return a
		}
		if k == gql.INT && g.take(":") {
			continue
		}
		g.must(",")
	}
	return a
}

func decideList(ts []string) {
	src := "when ( " + join(ts) + " )"
	g := &listGrammar{grammar{ts: append(append([]string{}, ts...), ")")}}
	e := g.expr()
	if !g.bad && (g.peek() != ")" || g.i != len(ts)) {
		g.bad = true
	}
	if g.bad {
		nd.Cover("rejected")
		rejected(src, "a malformed list or range is accepted")
		return
	}
	nd.Cover("accepted")
	isRule(src, &gql.Trigger{When: &gql.ParenExpr{Expr: e}})
}

var listVocab = strings.Fields(`1 2.5 3M 4s "x" true @r z .. [ ] , : ; ( ) - *`)

var listBases = [][]string{
	strings.Fields(`z in [ 1 , - 1 , 1 ]`),
	strings.Fields(`[ 3M , 3M ] in [ "x" ]`),
	strings.Fields(`z in [ 1 .. 2.5 , z .. 4s ]`),
	strings.Fields(`1 - 2.5 .. 3M * 1`),
	strings.Fields(`z : 1 , [ 4s ] , @r .. 1`),
	strings.Fields(`[ @r , @r ] in ( - 1 .. 1 )`),
	strings.Fields(`[ z , z : 1 ] .. [ 2.5 ]`),
}

// P19_Edit: one token edited.
func P19_Edit() {
	ts, _ := edit(listBases[nd.Choice(len(listBases))], listVocab)
	decideList(ts)
}

// P19_Edit2: two such edits.
func P19_Edit2() {
	few := strings.Fields(`1 2.5 .. [ ] , : -`)
	i := 2
	if nd.Tier() > 0 {
		few = listVocab
		i = nd.Choice(len(listBases))
	}
	ts, _ := edit(listBases[i], few)
	ts, _ = edit(ts, few)
	decideList(ts)
}

// P19_Tokens: any tokens in a list.
func P19_Tokens() {
	s := strings.Fields([]string{"[", "[ 1", "[ 1 ,", "[ z", "[ z : 1", "[ 1 ..", "[ 1 .. 1", "1 ..", "[ 2.5 ,", "[ @r ,", "[ 3M ,"}[nd.Choice(11)])
	n := 2
	if nd.Tier() > 0 {
		n = 3
	}
	for i := nd.Choice(n + 1); i > 0; i-- {
		s = append(s, listVocab[nd.Choice(len(listVocab))])
	}
	if nd.Bool() {
		s = append(s, "]")
	}
	decideList(s)
}

// P19_Big: long lists, with and without an odd element.
func P19_Big() {
	if nd.Bool() {
		capturedBig(0, 1, 2, 14, 15, 22, 23, 25)
		return
	}
	n := size()
	k := []int{0, 1, 4, 8, 11, 15}[nd.Choice(6)]
	x, y := tiny(k), tiny([]int{0, 1, 3, 4, 7, 8, 10, 11, 15, 16}[nd.Choice(10)])
	at := []int{0, n / 2, n - 1}[nd.Choice(3)]
	xs := make([]lit, n)
	for i := range xs {
		xs[i] = x
		if i == at {
			xs[i] = y
		}
	}
	list(listCtxs[0], xs...)
}
