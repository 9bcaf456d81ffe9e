package main

import (
	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// tree is the property of P03 for one condition.
func tree(x lit) {
	src := "when " + x.text
	nd.Observe(src)
	t := parse(src)
	if t == nil {
		return
	}
	same(x.node, t.When, "operator tree")
}

// anyOp is an arbitrary operator in arbitrary spelling.
func anyOp() opT {
	o := ops[nd.Choice(len(ops))]
	switch nd.Choice(3) {
	case 0:
		return o
	case 1:
		return opT{" " + o.text + " ", o.tok, o.prec}
	}
	return opT{anyCase(o.text), o.tok, o.prec}
}

// P03_Pairs: every pair of operators.
func P03_Pairs() {
	o, p := anyOp(), anyOp()
	tree(lit{"a" + o.text + "b" + p.text + "c", climb([]gql.Expr{operand(0).node, operand(1).node, operand(2).node}, []opT{o, p})})
}

// triple is a chain of any three operators.
func triple() lit {
	var os []opT
	s := "a"
	xs := []gql.Expr{operand(0).node}
	for i := 1; i < 4; i++ {
		o := ops[nd.Choice(len(ops))]
		s += o.text + operand(i).text
		os = append(os, o)
		xs = append(xs, operand(i).node)
	}
	return lit{s, climb(xs, os)}
}

// P03_Triple: any three operators.
func P03_Triple() { tree(triple()) }

// P03_Chain: chains over the precedence levels.
func P03_Chain() {
	n := 4
	if nd.Tier() > 0 {
		n = 5
	}
	tree(chain(n, 0))
}

// P03_Long: long chains in which the operators follow a pattern.
func P03_Long() {
	max := 16
	if nd.Tier() > 0 {
		max = 40
	}
	n := 5 + nd.Choice(max-4)
	o, p, q := ops[rep[nd.Choice(len(rep))]], ops[rep[nd.Choice(len(rep))]], ops[rep[nd.Choice(len(rep))]]
	xs := []gql.Expr{operand(0).node}
	var os []opT
	s := "a"
	for i := 0; i < n; i++ {
		r := []opT{o, p, q}[i%3]
		x := operand(1 + i%20)
		s += r.text + x.text
		xs = append(xs, x.node)
		os = append(os, r)
	}
	tree(lit{s, climb(xs, os)})
}

// P03_Paren: parentheses around any operand of a chain, nested.
func P03_Paren() {
	if nd.Tier() > 0 {
		tree(chain(3, 3))
	} else {
		tree(chain(2, 3))
	}
}

// P03_Group: parentheses around any part of a chain.
func P03_Group() {
	n := 4
	var os []opT
	var text [5]string
	xs := make([]gql.Expr, 0, n+1)
	for i := 0; i <= n; i++ {
		l := operand(i)
		xs = append(xs, l.node)
		text[i] = l.text
		if i < n {
			if i == 1 || i == 2 || nd.Tier() > 0 {
				os = append(os, ops[rep[nd.Choice(len(rep))]])
			} else {
				os = append(os, ops[[]int{0, 4, 16, 20}[nd.Choice(4)]])
			}
		}
	}
	i := nd.Choice(n + 1)
	j := i + nd.Choice(n+1-i)
	s := ""
	for k := 0; k <= n; k++ {
		if k == i {
			s += "("
		}
		s += text[k]
		if k == j {
			s += ")"
		}
		if k < n {
			s += os[k].text
		}
	}
	inner := &gql.ParenExpr{Expr: climb(xs[i:j+1], os[i:j])}
	ys := append(append(append([]gql.Expr{}, xs[:i]...), inner), xs[j+1:]...)
	qs := append(append([]opT{}, os[:i]...), os[j:]...)
	tree(lit{s, climb(ys, qs)})
}

// P03_Operands: operands of every kind between operators.
func P03_Operands() {
	ks := []int{0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 19, 20}
	x, y := tiny(ks[nd.Choice(len(ks))]), tiny(ks[nd.Choice(len(ks))])
	o, p := ops[rep[nd.Choice(len(rep))]], ops[[]int{1, 10, 17, 20}[nd.Choice(4)]]
	z := tiny(0)
	tree(lit{glue(x.text+o.text, y.text) + p.text + z.text, climb([]gql.Expr{x.node, y.node, z.node}, []opT{o, p})})
}

// P03_Same: operands that may be equal, and equal parts on both sides.
func P03_Same() {
	xs := []lit{operand(0), operand(1)}
	if nd.Bool() {
		xs = []lit{tiny(0), {"(a and b)", &gql.ParenExpr{Expr: climb([]gql.Expr{operand(0).node, operand(1).node}, []opT{ops[1]})}}}
	}
	n := 1 + nd.Choice(3+nd.Tier())
	var es []gql.Expr
	var os []opT
	s := ""
	o := ops[rep[nd.Choice(len(rep))]]
	p := ops[rep[nd.Choice(len(rep))]]
	for i := 0; i <= n; i++ {
		x := xs[nd.Choice(2)]
		if i > 0 {
			q := o
			if nd.Bool() {
				q = p
			}
			os = append(os, q)
			s += q.text
		}
		s += x.text
		es = append(es, x.node)
	}
	tree(lit{s, climb(es, os)})
}

// P03_Clauses: the tree does not depend on what surrounds the condition.
func P03_Clauses() {
	x := chain(2, 1)
	pre := nd.OneOf("when ", "trigger when ", "trigger set v = 1; when ", "trigger set v = (a and b or c) when ", "trigger set v = [1, 2] w = -5 when ")
	post := nd.OneOf("", " repeat 3", " repeat 3 every 1h reset after 2s", " reset after 2s", "\n")
	src := pre + x.text + post
	nd.Observe(src)
	if t := parse(src); t != nil {
		same(x.node, t.When, "operator tree")
	}
}

// wrapped is x in up to 3 pairs of parentheses.
func wrapped(x lit) lit {
	for n := nd.Choice(4); n > 0; n-- {
		x = lit{"(" + x.text + ")", &gql.ParenExpr{Expr: x.node}}
	}
	return x
}

// grown adds an operand to x on either side, or none.
func grown(x lit, i int, some []int) lit {
	z := operand(i)
	_, chain := x.node.(*gql.BinaryExpr)
	side := nd.Choice(3)
	if side == 0 || chain {
		return x
	}
	o := ops[some[nd.Choice(len(some))]]
	if side == 1 {
		return lit{x.text + o.text + z.text, climb([]gql.Expr{x.node, z.node}, []opT{o})}
	}
	return lit{z.text + o.text + x.text, climb([]gql.Expr{z.node, x.node}, []opT{o})}
}

// P03_Double: several pairs of parentheses around the same and around growing parts.
func P03_Double() {
	x := grown(operand(0), 1, rep)
	x = grown(wrapped(x), 2, []int{0, 1, 6, 17, 20})
	x = grown(wrapped(x), 3, []int{1, 10, 16})
	tree(wrapped(x))
}
