package main

import (
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

func lower(s string) string { return strings.ToLower(s) }

type opT struct {
	text string
	tok  gql.Token
	prec int
}

// ops is the documented operator table.
var ops = []opT{
	{" or ", gql.OR, 1},
	{" and ", gql.AND, 2},
	{"<", gql.LSS, 3},
	{"<=", gql.LEQ, 3},
	{">", gql.GTR, 3},
	{">=", gql.GEQ, 3},
	{"==", gql.LEQL, 3},
	{" eq ", gql.EQL, 3},
	{"!=", gql.LNEQ, 3},
	{" not eq ", gql.NOT_EQ, 3},
	{" in ", gql.IN, 3},
	{" not in ", gql.NOT_IN, 3},
	{" intersects ", gql.INTERSECTS, 3},
	{" not intersects ", gql.NOT_INTERSECTS, 3},
	{" nearby ", gql.NEARBY, 3},
	{" not nearby ", gql.NOT_NEARBY, 3},
	{"+", gql.ADD, 4},
	{"-", gql.SUB, 4},
	{"*", gql.MUL, 5},
	{"/", gql.QUO, 5},
	{" rem ", gql.REM, 5},
	{" mod ", gql.REM, 5},
}

// climb builds the tree of an operator chain by the documented table:
// the operator of lowest precedence, the last one among equals, is the root.
func climb(xs []gql.Expr, os []opT) gql.Expr {
	if len(os) == 0 {
		return xs[0]
	}
	k := 0
	for i := range os {
		if os[i].prec <= os[k].prec {
			k = i
		}
	}
	return &gql.BinaryExpr{Op: os[k].tok, Left: climb(xs[:k+1], os[:k]), Right: climb(xs[k+1:], os[k+1:])}
}

// glue joins texts; a blank keeps a quotient of a wildcard from being a comment.
func glue(a, b string) string {
	if strings.HasSuffix(a, "/") && strings.HasPrefix(b, "*") {
		return a + " " + b
	}
	return a + b
}

// rep are representatives of the precedence levels.
var rep = []int{0, 1, 2, 10, 13, 16, 17, 18, 19, 20}

func operand(i int) lit {
	n := string([]byte{byte('a' + i)})
	return lit{n, &gql.Selector{Ident: n, Wildcard: true}}
}

// chain is a chain of n operators taken from one representative per precedence
// level and spelling class; up to depth levels of parentheses surround operands.
func chain(n, depth int) lit {
	var xs []gql.Expr
	var os []opT
	s := ""
	group := -1
	if depth > 0 && n > 0 {
		group = nd.Choice(n+2) - 1 // which operand is parenthesised, if any
	}
	for i := 0; i <= n; i++ {
		x := operand(i)
		if i == group {
			in := chain(n-1, depth-1)
			x = lit{"(" + in.text + ")", &gql.ParenExpr{Expr: in.node}}
		}
		if i == 0 {
			s = x.text
		} else {
			o := ops[rep[nd.Choice(len(rep))]]
			os = append(os, o)
			s += o.text + x.text
		}
		xs = append(xs, x.node)
	}
	return lit{s, climb(xs, os)}
}
