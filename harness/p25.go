package main

import (
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// first is the first operation that does not fit, in the order of evaluation.
func (b *tb) first(e gql.Expr) *gql.BinaryExpr {
	switch x := e.(type) {
	case *gql.ParenExpr:
		return b.first(x.Expr)
	case *gql.BinaryExpr:
		if f := b.first(x.Left); f != nil {
			return f
		}
		if f := b.first(x.Right); f != nil {
			return f
		}
		if _, ok := b.check(x); !ok {
			return x
		}
	}
	return nil
}

func bare(e gql.Expr) gql.Expr {
	for {
		p, ok := e.(*gql.ParenExpr)
		if !ok {
			return e
		}
		e = p.Expr
	}
}

// quote is the text of an operand on one line.
func quote(e gql.Expr) (string, bool) {
	if _, ok := e.(*gql.BinaryExpr); ok {
		return "", false
	}
	s, ok := format(&gql.Trigger{When: e})
	s = strings.TrimSuffix(strings.TrimPrefix(s, "TRIGGER\nWHEN\n\t"), "\n")
	return s, ok && !strings.Contains(s, "\n")
}

// blamed is the property of P25.
func (b *tb) blamed(e gql.Expr) {
	t := &gql.Trigger{When: e, Vars: b.vars}
	text, _ := format(t)
	nd.Observe(text)
	err := gql.CheckType(t, b.d)
	f := b.first(e)
	if f == nil || err == nil {
		nd.Assert((f == nil) == (err == nil), "an error exactly for an operation that does not fit")
		return
	}
	l, lok := quote(bare(f.Left))
	r, rok := quote(bare(f.Right))
	kw := " " + gql.KeywordString(f.Op) + " "
	want := kw
	if lok {
		want = l + want
	}
	if rok {
		want += r
	}
	nd.Assert(strings.Contains(err.Error(), want), "the error does not quote the first operation that does not fit")
}

// P25_Leaf: two operands of any kind, direct or through variables.
func P25_Leaf() {
	b := newTB()
	l := b.maybeRef(b.leaf(nd.Choice(nLeaf)))
	r := b.maybeRef(b.leaf(nd.Choice(nLeaf)))
	o := tokens[2+nd.Choice(len(tokens)-2)]
	if nd.Tier() == 0 {
		o = opReps[nd.Choice(len(opReps))]
	}
	b.blamed(&gql.BinaryExpr{Op: o, Left: l, Right: r})
}

// P25_Op: any token as operator.
func P25_Op() {
	b := newTB()
	l := b.some()
	b.blamed(&gql.BinaryExpr{Op: op(), Left: l, Right: b.some()})
}

// P25_List: lists and ranges.
func P25_List() {
	b := newTB()
	var r gql.Expr
	if nd.Bool() {
		r = b.list(1 + nd.Choice(2))
	} else {
		r = &gql.Range{Low: b.end(), High: b.end()}
	}
	b.blamed(&gql.BinaryExpr{Op: []gql.Token{gql.IN, gql.NOT_IN, gql.NEARBY}[nd.Choice(3)], Left: b.leaf(nd.Choice(3)), Right: r})
}

// P25_Literal: operands with arbitrary values in parsed rules.
func P25_Literal() {
	a := anyLit(nd.Choice(14))
	k := nd.Choice(nTiny)
	x := tiny(k)
	if nd.Bool() {
		a, x = x, a
	}
	t := parse("when " + a.text + " " + []string{"and", "nearby", "+", "not in", "=="}[nd.Choice(5)] + " " + x.text)
	if t == nil {
		return
	}
	b := newTB()
	b.vars = t.Vars
	b.blamed(t.When)
}

// P25_Nested: two operations of four may not fit.
func P25_Nested() {
	b := newTB()
	part := func() gql.Expr {
		var e gql.Expr = &gql.BinaryExpr{Op: opReps[nd.Choice(4)], Left: b.leaf(nd.Choice(4)), Right: b.leaf(nd.Choice(4))}
		if nd.Bool() {
			e = &gql.ParenExpr{Expr: e}
		}
		return e
	}
	x, y := part(), part()
	b.blamed(&gql.BinaryExpr{Op: []gql.Token{gql.AND, gql.ADD, gql.LSS}[nd.Choice(3)], Left: x, Right: y})
}

// P25_Deep: two ill-typed operations in a chain of operations.
func P25_Deep() {
	b := newTB()
	n := 2 + nd.Choice(7)
	at, at2 := nd.Choice(n+1), nd.Choice(n+1)
	var e gql.Expr = &gql.BinaryExpr{Op: gql.GTR, Left: b.leaf(0), Right: b.leaf(1)}
	for i := 0; i <= n; i++ {
		var x gql.Expr = &gql.BinaryExpr{Op: gql.EQL, Left: b.leaf(2), Right: b.leaf(2)}
		if i == at || i == at2 {
			x = &gql.BinaryExpr{Op: gql.LSS, Left: &gql.IntTyp{Val: i}, Right: b.leaf(2)}
			if nd.Bool() {
				x = b.leaf(3)
			}
		}
		if i%3 == 1 {
			x = &gql.ParenExpr{Expr: x}
		}
		o := []gql.Token{gql.AND, gql.OR}[i%2]
		if i%4 < 2 {
			e = &gql.BinaryExpr{Op: o, Left: e, Right: x}
		} else {
			e = &gql.ParenExpr{Expr: &gql.BinaryExpr{Op: o, Left: x, Right: e}}
		}
	}
	b.blamed(e)
}

// P25_Big: operands of many parts.
func P25_Big() {
	b := newTB()
	src, _ := positions("when 1 and " + big(nd.Choice(nBig), size()).text)
	t := parse(src)
	if t == nil {
		return
	}
	b.vars = t.Vars
	b.blamed(t.When)
}
