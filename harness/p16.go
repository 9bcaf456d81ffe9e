package main

import (
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// quiet asserts that a call writes to no memory that exists before it. Replayed,
// the call runs in several goroutines at once under the race detector.
func quiet(f func()) {
	nd.Freeze()
	par(f)
	n := nd.Writes()
	nd.Unfreeze()
	nd.Assert(n == 0, "race: a call writes to memory that other calls use")
}

func quietParse(src string) {
	nd.Observe(src)
	quiet(func() { _, _ = gql.Parse(src) })
}

type nopVisitor struct{}

func (nopVisitor) Visit(e gql.Expr) gql.Visitor { return nopVisitor{} }

// quietAll is the property of P16 for one rule.
func quietAll(src string, d gql.Dictionary) {
	nd.Observe(src)
	st, err := gql.Parse(src)
	if err == nil {
		t := st.(*gql.Trigger)
		quiet(func() {
			var sb strings.Builder
			_ = gql.Format(&sb, t)
			_ = gql.Format(&failW{at: 3, err: errPlain}, t)
		})
		quiet(func() { gql.Walk(nopVisitor{}, t) })
		quiet(func() { _ = gql.CheckType(t, d) })
		quiet(func() { gql.Visit(t, func(e gql.Expr) bool { return e != nil && e.Pos() <= e.End() }) })
	}
	quiet(func() {
		st, err := gql.Parse(src)
		if err != nil {
			_ = err.Error()
			return
		}
		var sb strings.Builder
		_ = gql.Format(&sb, st)
		_ = gql.CheckType(st, d)
		gql.Walk(nopVisitor{}, st.(*gql.Trigger))
	})
	quiet(func() {
		tk := gql.NewTokenizer(strings.NewReader(src))
		for i := 0; i <= len(src); i++ {
			k, _ := tk.Scan()
			_ = gql.KeywordString(k)
			if k == gql.EOF {
				break
			}
		}
	})
}

func someDict() gql.Dictionary {
	d := gql.Dict()
	t := gql.SelectorType(nd.Int(0, 8))
	for _, n := range []string{"a", "b", "sel", "t", "x"} {
		d[n] = t
	}
	return d
}

// P16_Rule: the rules that cover the grammar, accepted and rejected.
func P16_Rule() {
	l := append(append([]string{}, rules...), texts...)
	quietAll(l[nd.Choice(len(l))], someDict())
}

// P16_Place: operands of every kind in every place.
func P16_Place() {
	l := small()
	c := place(l)
	quietAll(c.pre+l.text+c.post, gql.Dictionary{"a": gql.Int, "b": gql.ArrayInt, "sel": gql.String})
}

// P16_Literal: every spelling of every literal.
func P16_Literal() {
	l := anyLit([]int{0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 14, 15, 16, 17}[nd.Choice(11+4*nd.Tier())])
	quietParse("when a == " + l.text)
}

// P16_Calendar: calendar literals and geometries.
func P16_Calendar() {
	if nd.Bool() {
		k, i := nd.Choice(4), nd.Choice(3)
		s := calWords[k] + "[" + calSamples[k][i].text + nd.OneOf("", ", ", " .. ") + calSamples[k][(i+1)%3].text + "]"
		quietAll("when a in "+s, gql.Dictionary{"a": gql.Int})
		return
	}
	quietAll("trigger set v = "+geomLit().text+"; when a nearby @v", gql.Dictionary{"a": gql.Int})
}

// P16_Bytes: arbitrary texts.
func P16_Bytes() {
	quietParse(starts[nd.Choice(len(starts))] + bytesOf(1))
}

// P16_Check: the type check of any operation.
func P16_Check() {
	b := newTB()
	var l, r gql.Expr
	switch nd.Choice(4) {
	case 0:
		l, r = b.maybeRef(b.leaf(nd.Choice(nLeaf))), b.some()
	case 1:
		l, r = b.some(), b.maybeRef(&gql.Range{Low: b.leaf(nd.Choice(2)), High: b.leaf(nd.Choice(2))})
	case 2:
		l, r = b.some(), b.maybeRef(b.list(1))
	case 3:
		l = &gql.ParenExpr{Expr: &gql.BinaryExpr{Op: ops[rep[nd.Choice(len(rep))]].tok, Left: b.leaf(nd.Choice(4)), Right: b.leaf(nd.Choice(4))}}
		r = b.leaf(nd.Choice(4))
	}
	t := &gql.Trigger{When: &gql.BinaryExpr{Op: ops[rep[nd.Choice(len(rep))]].tok, Left: l, Right: r}, Vars: b.vars}
	d := b.d
	quiet(func() { _ = gql.CheckType(t, d) })
}

// P16_Distinct: two parses of the same text share no node.
func P16_Distinct() {
	l := small()
	c := place(l)
	src := c.pre + l.text + c.post
	if nd.Bool() {
		src = rules[nd.Choice(len(rules))]
	}
	nd.Observe(src)
	a, b := parse(src), parse(src)
	if a == nil || b == nil {
		return
	}
	x, y := all(a), all(b)
	for i := range x {
		for j := range y {
			nd.Assert(x[i] != y[j], "two results share a node")
		}
		if s, ok := x[i].(*gql.Selector); ok && i < len(y) && len(s.Args) > 0 {
			if z, ok := y[i].(*gql.Selector); ok {
				before := len(z.Args)
				s.Args["another"] = struct{}{}
				nd.Assert(len(z.Args) == before, "two results share device ids")
			}
		}
	}
	// changing the one leaves the other as it is
	text, _ := format(b)
	for _, e := range x {
		switch v := e.(type) {
		case *gql.ArrayTyp:
			v.List[0] = nil
			v.List = append(v.List[:0], nil)
		case *gql.GeometryLineTyp:
			v.Val[0][0] = 99
		case *gql.GeometryPolygonTyp:
			v.Val[0][0][0] = 99
		case *gql.GeometryMultiObjectTyp:
			v.Val[0] = nil
		case *gql.GeometryCollectionTyp:
			v.Objects[0] = nil
		case *gql.Trigger:
			if len(v.Vars) > 0 {
				v.Vars[0] = nil
			}
		}
	}
	text2, _ := format(b)
	nd.Assert(text == text2, "two results share memory")
}

// P16_Nest: operands of any kind inside others.
func P16_Nest() {
	if src, ok := nested(2 + nd.Tier()); ok {
		quietAll(src, someDict())
	}
}
