package main

import (
	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// ctx is a place in a rule where an operand may stand.
type ctx struct {
	pre, post string
	get       func(*gql.Trigger) gql.Expr
}

func bin(e gql.Expr) *gql.BinaryExpr {
	b, _ := e.(*gql.BinaryExpr)
	if b == nil {
		bad("the condition is not the written binary expression")
		return &gql.BinaryExpr{}
	}
	return b
}

func paren(e gql.Expr) gql.Expr {
	p, _ := e.(*gql.ParenExpr)
	if p == nil {
		bad("the parentheses are lost")
		return nil
	}
	return p.Expr
}

func prop(e gql.Expr, i int) gql.Expr {
	s, _ := e.(*gql.Selector)
	if s == nil || i >= len(s.Props) {
		bad("the selector property is lost")
		return nil
	}
	return s.Props[i]
}

func elem(e gql.Expr, i int) gql.Expr {
	s, _ := e.(*gql.ArrayTyp)
	if s == nil || i >= len(s.List) {
		bad("the list element is lost")
		return nil
	}
	return s.List[i]
}

func variable(t *gql.Trigger, i int) gql.Expr {
	if i >= len(t.Vars) || t.Vars[i] == nil {
		bad("the variable is lost")
		return nil
	}
	return t.Vars[i].Right
}

func low(e gql.Expr) gql.Expr {
	r, _ := e.(*gql.Range)
	if r == nil {
		bad("the range is lost")
		return nil
	}
	return r.Low
}

func high(e gql.Expr) gql.Expr {
	r, _ := e.(*gql.Range)
	if r == nil {
		bad("the range is lost")
		return nil
	}
	return r.High
}

// ctxs are the places that take an operand of any kind (but variables take no
// references; setCtxs).
var ctxs = []ctx{
	{"when a == ", "", func(t *gql.Trigger) gql.Expr { return bin(t.When).Right }},
	{"when ", "", func(t *gql.Trigger) gql.Expr { return t.When }},
	{"trigger when ", " in b", func(t *gql.Trigger) gql.Expr { return bin(t.When).Left }},
	{"when (a > ", ")", func(t *gql.Trigger) gql.Expr { return bin(paren(t.When)).Right }},
	{"when (", ")", func(t *gql.Trigger) gql.Expr { return paren(t.When) }},
	{"when a < ", " and b", func(t *gql.Trigger) gql.Expr { return bin(bin(t.When).Left).Right }},
	{"when b or a+", " repeat 3 every 10s", func(t *gql.Trigger) gql.Expr { return bin(bin(t.When).Right).Right }},
	{"when a nearby ", " reset after 1h", func(t *gql.Trigger) gql.Expr { return bin(t.When).Right }},
	{"when a intersects\n", "\n", func(t *gql.Trigger) gql.Expr { return bin(t.When).Right }},
	{"when -1 * ", " - -2", func(t *gql.Trigger) gql.Expr { return bin(bin(t.When).Left).Right }},
	{"when ((a)==(", "))", func(t *gql.Trigger) gql.Expr { return paren(bin(paren(t.When)).Right) }},
}

var setCtxs = []ctx{
	{"trigger set v = ", "; when a == @v", func(t *gql.Trigger) gql.Expr { return variable(t, 0) }},
	{"trigger set v = ", " when a", func(t *gql.Trigger) gql.Expr { return variable(t, 0) }},
	{"trigger set u = -1 v=", "; w = \"q\" when a", func(t *gql.Trigger) gql.Expr { return variable(t, 1) }},
}

// propCtxs are the places inside selector properties, rangeCtxs range ends,
// arrayCtxs list elements.
var propCtxs = []ctx{
	{"when s:", " == 1", func(t *gql.Trigger) gql.Expr { return prop(bin(t.When).Left, 0) }},
	{"when 1 == s{\"d\"} : 1h, ", "", func(t *gql.Trigger) gql.Expr { return prop(bin(t.When).Right, 1) }},
	{"when s : ", " , 5km in b", func(t *gql.Trigger) gql.Expr { return prop(bin(t.When).Left, 0) }},
}

var rangeCtxs = []ctx{
	{"when a in ", " .. -7", func(t *gql.Trigger) gql.Expr { return low(bin(t.When).Right) }},
	{"when a in -7 .. ", " and b", func(t *gql.Trigger) gql.Expr { return high(bin(bin(t.When).Left).Right) }},
	{"when ", " range 1 == b", func(t *gql.Trigger) gql.Expr { return low(bin(t.When).Left) }},
	{"trigger set v = -1.5 .. ", "; when a", func(t *gql.Trigger) gql.Expr { return high(variable(t, 0)) }},
}

var arrayCtxs = []ctx{
	{"when a in [", "]", func(t *gql.Trigger) gql.Expr { return elem(bin(t.When).Right, 0) }},
	{"when [", "] == a", func(t *gql.Trigger) gql.Expr { return elem(bin(t.When).Left, 0) }},
	{"trigger set v = [", "] when a", func(t *gql.Trigger) gql.Expr { return elem(variable(t, 0), 0) }},
}

// inArray tells whether a list may hold the literal.
func inArray(e gql.Expr) bool {
	switch e.(type) {
	case *gql.IntTyp, *gql.FloatTyp, *gql.PercentTyp, *gql.SpeedTyp, *gql.DistanceTyp, *gql.PressureTyp,
		*gql.TemperatureTyp, *gql.DurationTyp, *gql.StringTyp, *gql.Ref, *gql.Selector, *gql.Range:
		return true
	}
	return false
}

func isRef(e gql.Expr) bool {
	switch x := e.(type) {
	case *gql.Ref:
		return true
	case *gql.ArrayTyp:
		return x.Kind == gql.IDENT
	}
	return false
}

func isRange(e gql.Expr) bool { _, ok := e.(*gql.Range); return ok }

func hasProps(e gql.Expr) bool {
	s, ok := e.(*gql.Selector)
	return ok && len(s.Props) > 0
}

// place puts the literal in an arbitrary place that takes it.
func place(l lit) ctx {
	switch nd.Choice(5) {
	case 0:
		i := nd.Choice(len(ctxs))
		return ctxs[i]
	case 1:
		nd.Assume(!isRef(l.node))
		return setCtxs[nd.Choice(len(setCtxs))]
	case 2:
		// a selector with properties swallows what follows
		nd.Assume(!hasProps(l.node))
		return propCtxs[nd.Choice(len(propCtxs))]
	case 3:
		nd.Assume(!isRange(l.node) && !hasProps(l.node))
		return rangeCtxs[nd.Choice(len(rangeCtxs))]
	}
	nd.Assume(inArray(l.node))
	n := len(arrayCtxs)
	if isRef(l.node) {
		n-- // a list of references is not assignable
	}
	return arrayCtxs[nd.Choice(n)]
}

// captured asserts that the literal, written in the place c, parses to its node.
func captured(c ctx, l lit, msg string) {
	src := c.pre + l.text + c.post
	nd.Observe(src)
	t := parse(src)
	if t == nil {
		return
	}
	same(l.node, c.get(t), msg)
}

// rejected asserts that the text is not a rule.
func rejected(src, msg string) {
	nd.Observe(src)
	st, err := gql.Parse(src)
	nd.Assert(err != nil && st == nil, msg)
}
