package main

import (
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// kids are the expressions directly under a node, in source order.
func kids(e gql.Expr) (l []gql.Expr) {
	switch x := e.(type) {
	case *gql.Trigger:
		for _, v := range x.Vars {
			l = append(l, v)
		}
		if x.When != nil {
			l = append(l, x.When)
		}
		for _, c := range []gql.Expr{x.RepeatCount, x.RepeatInterval, x.ResetAfter} {
			if c != nil {
				l = append(l, c)
			}
		}
	case *gql.Assign:
		l = []gql.Expr{x.Left, x.Right}
	case *gql.ParenExpr:
		l = []gql.Expr{x.Expr}
	case *gql.BinaryExpr:
		l = []gql.Expr{x.Left, x.Right}
	case *gql.Range:
		l = []gql.Expr{x.Low, x.High}
	case *gql.ArrayTyp:
		l = append(l, x.List...)
	case *gql.Selector:
		l = append(l, x.Props...)
	case *gql.GeometryPointTyp:
		if x.Radius != nil {
			l = []gql.Expr{x.Radius}
		}
	case *gql.GeometryLineTyp:
		if x.Margin != nil {
			l = []gql.Expr{x.Margin}
		}
	case *gql.GeometryMultiObjectTyp:
		l = append(l, x.Val...)
	case *gql.GeometryCollectionTyp:
		l = append(l, x.Objects...)
	}
	return
}

// all are a node and everything under it, parents first.
func all(e gql.Expr) (l []gql.Expr) {
	l = append(l, e)
	for _, k := range kids(e) {
		l = append(l, all(k)...)
	}
	return
}

// visits is the expected sequence of visits if those numbered at are declined.
func visits(e gql.Expr, n *int, at func(int) bool) (l []gql.Expr) {
	l = append(l, e)
	no := at(*n)
	*n++
	if no {
		return
	}
	for _, k := range kids(e) {
		l = append(l, visits(k, n, at)...)
	}
	return append(l, nil)
}

type recorder struct {
	l  []gql.Expr
	n  int
	at func(int) bool
}

func (r *recorder) visit(e gql.Expr) bool {
	r.l = append(r.l, e)
	if e == nil {
		return true
	}
	no := r.at(r.n)
	r.n++
	return !no
}

func (r *recorder) Visit(e gql.Expr) gql.Visitor {
	if r.visit(e) {
		return r
	}
	return nil
}

// walked is the property of P14 for the walk that starts at one node.
func walked(e gql.Expr) {
	a, b := -1, -1
	switch nd.Choice(3) {
	case 1:
		a = nd.Int(0, 120)
	case 2:
		a = nd.Int(0, 120)
		b = a + 1 + nd.Choice(3)
	}
	at := func(i int) bool { return i == a || i == b }
	n := 0
	want := visits(e, &n, at)
	if a >= 0 {
		nd.Assume(a < n)
	}
	r := &recorder{at: at}
	if nd.Bool() {
		gql.Walk(r, e)
	} else {
		gql.Visit(e, r.visit)
	}
	for i := 0; i < len(want) && i < len(r.l); i++ {
		nd.Assert((want[i] == nil) == (r.l[i] == nil), "a walk leaves a node too early or too late")
		nd.Assert(want[i] == r.l[i], "a walk visits another node")
	}
	nd.Assert(len(want) == len(r.l), "number of visits")
}

func walkText(src string) {
	nd.Observe(src)
	t := parse(src)
	if t == nil {
		return
	}
	walked(t)
}

// P14_Rule: rules that cover the grammar.
func P14_Rule() {
	r := rules[nd.Choice(len(rules))]
	walkText(r)
}

// P14_Under: walks that start at any node of these rules.
func P14_Under() {
	r := append(append([]string{}, rules...), "when a == collection[multipoint[point[1, 2]:1km, point[1, 2]], line[[1, 2]]:5M]")
	t := parse(r[nd.Choice(len(r))])
	if t == nil {
		return
	}
	l := all(t)
	walked(l[nd.Choice(len(l))])
}

// P14_Place: operands of every kind in every place.
func P14_Place() {
	l := small()
	c := place(l)
	walkText(c.pre + l.text + c.post)
}

// P14_Clauses: every combination of clauses.
func P14_Clauses() {
	s := nd.OneOf("when a", "trigger set v = 1; when a", "trigger set v = [1 .. 2]; w = [\"x\", \"y\"] u = s:1, 2 when a")
	s += nd.OneOf("", " repeat 3", " repeat 3 every 10s", " repeat")
	s += nd.OneOf("", " reset after 1h")
	walkText(s)
}

// P14_Chain: chains of operators with parentheses.
func P14_Chain() {
	n := 2
	if nd.Tier() > 0 {
		n = 3
	}
	x := chain(n, 1)
	walkText("when " + x.text)
}

// P14_Geometry: geometries of every kind and size, with and without distance.
func P14_Geometry() {
	k := coords(0, nil)
	n := 1 + nd.Choice(3)
	if nd.Tier() > 0 {
		n = 1 + nd.Choice(20)
	}
	var ms []lit
	d := nd.Bool()
	odd := nd.Choice(2)
	for i := 0; i < n; i++ {
		ms = append(ms, pointLit(k, d != (i%2 == odd)))
	}
	var l lit
	switch nd.Choice(4) {
	case 0:
		l = multiLit(gql.GEOMETRY_MULTIPOINT, ms...)
	case 1:
		for i := range ms {
			ms[i] = lineLit(2, k, d != (i%2 == odd))
		}
		l = multiLit(gql.GEOMETRY_MULTILINE, ms...)
	case 2:
		for i := range ms {
			ms[i] = polygonLit(k, 2)
		}
		l = multiLit(gql.GEOMETRY_MULTIPOLYGON, ms...)
	case 3:
		for i := range ms {
			switch i % 4 {
			case 1:
				ms[i] = lineLit(1, k, d)
			case 2:
				ms[i] = multiLit(gql.GEOMETRY_MULTIPOINT, ms[0], ms[0])
			case 3:
				ms[i] = polygonLit(k, 1)
			}
		}
		l = collectionLit(ms...)
	}
	if nd.Bool() {
		walkText("when a nearby " + l.text)
	} else {
		walkText("trigger set v = " + l.text + "; when a")
	}
}

// P14_Long: lists, properties, variables and operator chains of any length.
func P14_Long() {
	n := 1 + nd.Choice(12)
	if nd.Tier() > 0 {
		n = 1 + nd.Choice(45)
	}
	rep := func(s, sep string) string { return strings.Repeat(s+sep, n-1) + s }
	switch nd.Choice(5) {
	case 0:
		walkText("when a in [" + rep("1", ", ") + "]")
	case 1:
		walkText("when s:" + rep("b{\"x\"}", ", "))
	case 2:
		walkText("when " + rep("a", " and "))
	case 3:
		s := "trigger set "
		for i := 0; i < n; i++ {
			s += "v" + string([]byte{byte('a' + i/26), byte('a' + i%26)}) + " = 1 .. 2; "
		}
		walkText(s + "when a")
	case 4:
		walkText("when " + strings.Repeat("(", n) + "a" + strings.Repeat(")", n))
	}
}

// P14_Nest: operands of any kind inside others.
func P14_Nest() {
	if src, ok := nested(1 + nd.Tier()); ok {
		walkText(src)
	}
}
