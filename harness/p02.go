package main

import (
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// P02_Literal: every kind of operand as the right operand of a comparison.
func P02_Literal() {
	l := anyLit(nd.Choice(nLits))
	roundTrip("when a == " + l.text)
}

// P02_Place: an operand of every kind in every place.
func P02_Place() {
	l := small()
	c := place(l)
	roundTrip(c.pre + l.text + c.post)
}

// P02_Decimal: numbers of up to 44 digits in literals of every kind.
func P02_Decimal() {
	l := decimalLit()
	roundTrip("when a == " + l.text)
}

// P02_Long: names and texts of many lengths.
func P02_Long() {
	l := longText(nd.Choice(6), longSize())
	if nd.Bool() && !isRef(l.node) {
		roundTrip("trigger set v = " + l.text + "; w = [1, 2] when a == @v")
		return
	}
	roundTrip("when a == " + l.text)
}

// P02_Set: variables of every kind.
func P02_Set() {
	l := anyLit(nd.Choice(nLits - 1))
	nd.Assume(!isRef(l.node))
	roundTrip("trigger set Var_1 = " + l.text + "; when a == @Var_1")
}

// P02_Geometry: lines, rings and lists of any size up to the bound, so that
// every way the formatter breaks lines is met.
func P02_Geometry() {
	max := 12
	if nd.Tier() > 0 {
		max = 40
	}
	n := 1 + nd.Choice(max)
	k := coords(0, nil)
	var l lit
	switch nd.Choice(6) {
	case 0:
		l = lineLit(n, k, nd.Bool())
	case 1:
		l = polygonLit(k, n)
	case 2:
		l = polygonLit(k, n, 1+nd.Choice(8))
	case 3:
		l = polygonLit(k, 1+nd.Choice(8), n, 2)
	case 4:
		l = multiLit(gql.GEOMETRY_MULTILINE, lineLit(n, k, nd.Bool()), lineLit(1+nd.Choice(7), k, false))
	case 5:
		l = collectionLit(lineLit(n, k, nd.Bool()), multiLit(gql.GEOMETRY_MULTIPOLYGON, polygonLit(k, n), polygonLit(k, 2, 5)))
	}
	if nd.Bool() {
		roundTrip("trigger set v = " + l.text + "; when a")
	} else {
		roundTrip("when a nearby (" + l.text + ")")
	}
}

// P02_Selector: device ids of any number and length up to the bound.
func P02_Selector() {
	n := []int{1, 2, 4, 6}[nd.Choice(4)]
	width := []int{1, 16, 22, 33, 65}[nd.Choice(5)]
	t := "s{"
	if nd.Bool() {
		t += "*, "
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			t += ", "
		}
		c := byte('p' - i)
		if i < 2 {
			c = nd.ByteOf("AaqZ")
		}
		t += `"` + string([]byte{c, byte('p' + i)}) + strings.Repeat("d", width-1) + `"`
	}
	t += "}"
	switch nd.Choice(3) {
	case 1:
		t += ":1km, 2h"
	case 2:
		t += ":7 .. 9"
	}
	switch nd.Choice(3) {
	case 0:
		roundTrip("when a == " + t)
	case 1:
		roundTrip("trigger set v = " + t + " when (" + t + ")")
	case 2:
		roundTrip("trigger set v = [" + t + "]; when [" + t + "] in b")
	}
}

// P02_Clauses: rules with every combination of clauses.
func P02_Clauses() {
	s, _ := clauses()
	roundTrip(s)
}

// P02_Chain: conditions of three operators with parentheses anywhere.
func P02_Chain() {
	x := lit{}
	if nd.Tier() > 0 {
		x = chain(4, 2)
	} else if nd.Bool() {
		x = chain(3, 0)
	} else {
		x = chain(2, 2)
	}
	roundTrip("when " + x.text)
}

// P02_Triple: any three operators.
func P02_Triple() { roundTrip("when " + triple().text) }

// P02_Deep: nested parentheses to the bound.
func P02_Deep() {
	max := 20
	if nd.Tier() > 0 {
		max = 60
	}
	n := 1 + nd.Choice(max)
	in := nd.OneOf("a", "a == 1", "a and b or c", "-1", "[1, 2]", "a+1 > 2", `s{"x"}:1km`)
	post := nd.OneOf(")", " or b)", "*2)")
	roundTrip("when " + strings.Repeat("(", n) + in + strings.Repeat(post, n))
}

// P02_Op: two operands of any kind and any operator between them.
func P02_Op() {
	a, b := tiny(nd.Choice(nTiny)), tiny(nd.Choice(nTiny))
	o := ops[nd.Choice(len(ops))]
	t := a.text + " " + o.text + " " + b.text
	switch nd.Choice(3) {
	case 0:
		roundTrip("when " + t)
	case 1:
		roundTrip("when c / (" + t + ") * d")
	case 2:
		p := ops[rep[nd.Choice(len(rep))]]
		roundTrip(glue("when c "+p.text, t))
	}
}

// wrap is an operand that contains the given one.
func wrap(x string) string {
	switch nd.Choice(11) {
	case 0:
		return "(" + x + ")"
	case 1:
		return "[" + x + "]"
	case 2:
		return "[" + x + ", " + x + ", " + x + "]"
	case 3:
		return "s : " + x
	case 4:
		return `s{"a", *} : 1km, ` + x + ", 2"
	case 5:
		return x + " .. 2"
	case 6:
		return "* .. " + x
	case 7:
		return "(* / " + x + ")"
	case 8:
		return "(" + x + " - " + x + ")"
	case 9:
		return "(a and " + x + " or " + x + ")"
	}
	return "(" + x + " * 1 == 2)"
}

// nested is an accepted rule with operands of any kind inside n others.
// Not every operand may stand in every other: the second result is false for
// rules that are rejected.
func nested(n int) (string, bool) {
	t := tiny(nd.Choice(nTiny)).text
	for ; n > 0; n-- {
		t = wrap(t)
	}
	var src string
	switch nd.Choice(4) {
	case 0:
		src = "when " + t
	case 1:
		src = "when b not in " + t + " repeat 3"
	case 2:
		src = "trigger set v = " + t + "; w = 1; when a"
	case 3:
		src = "when b/" + t + "*" + t
	}
	if _, err := gql.Parse(src); err != nil {
		nd.Cover("rejected")
		return src, false
	}
	nd.Cover("accepted")
	return src, true
}

// P02_Nest: operands of any kind inside others.
func P02_Nest() {
	if src, ok := nested(2 + nd.Tier()); ok {
		roundTrip(src)
	}
}

// P02_Calendar: calendar literals with arbitrary fields.
func P02_Calendar() {
	k := nd.Choice(4)
	a, b := calItem(k), shortCalItem(k)
	s := a.text
	switch nd.Choice(4) {
	case 1:
		s += ", " + b.text
	case 2:
		s = b.text + " .. " + s
	case 3:
		s = b.text + ", " + s + ", " + b.text
	}
	c := ctxs[nd.Choice(2)]
	roundTrip(c.pre + calWords[k] + "[" + s + "]" + c.post)
}
