package main

import (
	"io"
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// A copier builds a rule anew from the content of another one: no node keeps
// the place where it was written, operators and assignments any other one.
type copier struct {
	of   map[gql.Expr]gql.Expr
	pos  gql.Pos
	bare bool // empty lists are absent
}

func (c *copier) list(l []gql.Expr) []gql.Expr {
	if len(l) == 0 && c.bare {
		return nil
	}
	n := make([]gql.Expr, len(l))
	for i := range l {
		n[i] = c.expr(l[i])
	}
	return n
}

func (c *copier) dist(d *gql.DistanceTyp) *gql.DistanceTyp {
	if d == nil {
		return nil
	}
	return c.expr(d).(*gql.DistanceTyp)
}

func line(l [][2]float64) [][2]float64 { return append([][2]float64{}, l...) }

func (c *copier) expr(e gql.Expr) gql.Expr {
	n := c.node(e)
	if e != nil {
		c.of[e] = n
	}
	return n
}

func (c *copier) node(e gql.Expr) gql.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *gql.IntTyp:
		return &gql.IntTyp{Val: x.Val}
	case *gql.FloatTyp:
		return &gql.FloatTyp{Val: x.Val}
	case *gql.PercentTyp:
		return &gql.PercentTyp{Val: x.Val}
	case *gql.SpeedTyp:
		return &gql.SpeedTyp{Val: x.Val, U: x.U}
	case *gql.DistanceTyp:
		return &gql.DistanceTyp{Val: x.Val, U: x.U}
	case *gql.PressureTyp:
		return &gql.PressureTyp{Val: x.Val, U: x.U}
	case *gql.TemperatureTyp:
		return &gql.TemperatureTyp{Val: x.Val, U: x.U, Vec: x.Vec}
	case *gql.DurationTyp:
		return &gql.DurationTyp{Val: x.Val}
	case *gql.StringTyp:
		return &gql.StringTyp{Val: x.Val}
	case *gql.BooleanTyp:
		return &gql.BooleanTyp{Val: x.Val}
	case *gql.WildcardTyp:
		return &gql.WildcardTyp{}
	case *gql.Ref:
		return &gql.Ref{ID: x.ID}
	case *gql.Ident:
		return &gql.Ident{Val: x.Val}
	case *gql.DateTyp:
		return &gql.DateTyp{Year: x.Year, Day: x.Day, Month: x.Month}
	case *gql.TimeTyp:
		return &gql.TimeTyp{Hours: x.Hours, Minutes: x.Minutes, Seconds: x.Seconds, U: x.U}
	case *gql.WeekdayTyp:
		return &gql.WeekdayTyp{Val: x.Val}
	case *gql.MonthTyp:
		return &gql.MonthTyp{Val: x.Val}
	case *gql.Range:
		return &gql.Range{Low: c.expr(x.Low), High: c.expr(x.High)}
	case *gql.ArrayTyp:
		return &gql.ArrayTyp{Kind: x.Kind, List: c.list(x.List)}
	case *gql.ParenExpr:
		return &gql.ParenExpr{Expr: c.expr(x.Expr)}
	case *gql.BinaryExpr:
		return &gql.BinaryExpr{Op: x.Op, Left: c.expr(x.Left), Right: c.expr(x.Right), OpPos: c.pos}
	case *gql.Selector:
		s := &gql.Selector{Ident: x.Ident, Wildcard: x.Wildcard, Props: c.list(x.Props)}
		if len(x.Args) > 0 || !c.bare {
			s.Args = make(map[string]struct{})
		}
		for k := range x.Args {
			s.Args[k] = struct{}{}
		}
		return s
	case *gql.GeometryPointTyp:
		return &gql.GeometryPointTyp{Val: x.Val, Radius: c.dist(x.Radius)}
	case *gql.GeometryLineTyp:
		return &gql.GeometryLineTyp{Val: line(x.Val), Margin: c.dist(x.Margin)}
	case *gql.GeometryPolygonTyp:
		p := &gql.GeometryPolygonTyp{}
		for _, r := range x.Val {
			p.Val = append(p.Val, line(r))
		}
		return p
	case *gql.GeometryMultiObjectTyp:
		return &gql.GeometryMultiObjectTyp{Kind: x.Kind, Val: c.list(x.Val)}
	case *gql.GeometryCollectionTyp:
		return &gql.GeometryCollectionTyp{Objects: c.list(x.Objects)}
	case *gql.Assign:
		return &gql.Assign{Left: c.expr(x.Left).(*gql.Ident), Right: c.expr(x.Right), TokPos: c.pos}
	case *gql.Trigger:
		t := &gql.Trigger{
			When:           c.expr(x.When),
			RepeatCount:    c.expr(x.RepeatCount),
			RepeatInterval: c.expr(x.RepeatInterval),
			ResetAfter:     c.expr(x.ResetAfter),
		}
		if !c.bare {
			t.Vars = []*gql.Assign{}
		}
		for _, v := range x.Vars {
			t.Vars = append(t.Vars, c.expr(v).(*gql.Assign))
		}
		return t
	}
	bad("an unknown kind of node")
	return nil
}

func newCopier() *copier {
	return &copier{of: map[gql.Expr]gql.Expr{}, pos: gql.Pos(nd.Int(-1, 100)), bare: nd.Bool()}
}

// sameContent is the property of P22 for one rule.
func sameContent(src string, d gql.Dictionary) {
	nd.Observe(src)
	t := parse(src)
	if t == nil {
		return
	}
	text, ok := format(t)
	if !ok {
		return
	}
	c := newCopier()
	u := c.expr(t).(*gql.Trigger)
	text2, ok := format(u)
	nd.Assert(ok && text == text2, "a rule of the same content is formatted otherwise")
	var l []gql.Expr
	gql.Visit(u, func(e gql.Expr) bool {
		l = append(l, e)
		return true
	})
	i := 0
	gql.Visit(t, func(e gql.Expr) bool {
		nd.Assert(i < len(l) && (e == nil && l[i] == nil || e != nil && c.of[e] == l[i]), "a rule of the same content is walked otherwise")
		i++
		return true
	})
	nd.Assert(i == len(l), "a rule of the same content is walked otherwise")
	nd.Assert((gql.CheckType(t, d) == nil) == (gql.CheckType(u, d) == nil), "a rule of the same content is checked otherwise")
	st, err := gql.Parse(text2)
	if err != nil {
		bad("the text of a rule does not parse")
		return
	}
	sameRule(u, st.(*gql.Trigger), "the text of a rule is another rule")
}

var twoTypes = gql.Dictionary{"a": gql.Int, "b": gql.ArrayInt, "sel": gql.String}

// P22_Rule: the rules that cover the grammar.
func P22_Rule() { sameContent(rules[nd.Choice(len(rules))], someDict()) }

// P22_Place: operands of every kind in every place.
func P22_Place() {
	l := small()
	c := place(l)
	sameContent(c.pre+l.text+c.post, twoTypes)
}

// P22_Literal: operands of every kind with any values.
func P22_Literal() {
	l := anyLit(nd.Choice(nLits))
	sameContent("when a == "+l.text, twoTypes)
}

// P22_Clauses: combinations of clauses.
func P22_Clauses() {
	s, _ := clauses()
	sameContent(s, twoTypes)
}

// P22_Op: two operands of any kind and any operator between them.
func P22_Op() {
	a, b := tiny(nd.Choice(nTiny)), tiny(nd.Choice(nTiny))
	sameContent("when "+a.text+" "+ops[rep[nd.Choice(len(rep))]].text+" "+b.text, someDict())
}

// P22_Nest: operands of any kind inside others.
func P22_Nest() {
	if src, ok := nested(1 + nd.Tier()); ok {
		sameContent(src, twoTypes)
	}
}

// P22_Changed: a rule whose parts are replaced after it was formatted, checked
// and walked is the changed rule from then on.
func P22_Changed() {
	l, m := tiny(nd.Choice(nTiny)), small()
	c := place(m)
	s, r := "trigger set v = 1; when b == "+l.text+" repeat 2", c.pre+m.text+c.post
	nd.Observe(s)
	nd.Observe(r)
	t, u := parse(s), parse(r)
	if t == nil || u == nil {
		return
	}
	use := func() { _, _ = format(t); _ = gql.CheckType(t, twoTypes); gql.Walk(nopVisitor{}, t) }
	use()
	want, _ := format(u)
	if nd.Bool() {
		*t = *newCopier().expr(u).(*gql.Trigger)
	} else {
		t.Vars = u.Vars
		use()
		t.When, t.RepeatCount = u.When, u.RepeatCount
		use()
		t.RepeatInterval, t.ResetAfter = u.RepeatInterval, u.ResetAfter
	}
	got, ok := format(t)
	nd.Assert(ok && got == want, "a changed rule is formatted otherwise")
	nd.Assert((gql.CheckType(t, twoTypes) == nil) == (gql.CheckType(u, twoTypes) == nil), "a changed rule is checked otherwise")
	a, b := all(t), all(u)
	n := 0
	gql.Visit(t, func(e gql.Expr) bool {
		if e != nil {
			nd.Assert(n < len(a) && e == a[n], "a changed rule is walked otherwise")
			n++
		}
		return true
	})
	nd.Assert(n == len(b), "a changed rule is walked otherwise")
}

// P22_Inside: a value inside of a rule is changed after the rule was used.
func P22_Inside() {
	l, m := small(), tiny(nd.Choice(nTiny))
	c := place(l)
	s := c.pre + l.text + c.post
	nd.Observe(s)
	t := parse(s)
	if t == nil {
		return
	}
	_, _ = format(t)
	_ = gql.CheckType(t, twoTypes)
	// a list, property, operand or range end, any of them
	var set []func(gql.Expr)
	for _, e := range all(t) {
		switch x := e.(type) {
		case *gql.ArrayTyp:
			i := len(x.List) - 1
			set = append(set, func(e gql.Expr) { x.List[i] = e })
		case *gql.Selector:
			if i := len(x.Props) - 1; i >= 0 {
				set = append(set, func(e gql.Expr) { x.Props[i] = e })
			} else {
				set = append(set, func(gql.Expr) { x.Ident = "other" }, func(gql.Expr) { x.Args, x.Wildcard = map[string]struct{}{"q": {}}, false })
			}
		case *gql.Range:
			set = append(set, func(e gql.Expr) { x.Low = e }, func(e gql.Expr) { x.High = e })
		case *gql.BinaryExpr:
			set = append(set, func(e gql.Expr) { x.Right = e }, func(gql.Expr) { x.Op = gql.ADD })
		case *gql.IntTyp:
			set = append(set, func(gql.Expr) { x.Val = 77 })
		case *gql.GeometryPointTyp:
			set = append(set, func(gql.Expr) { x.Val[1], x.Radius = 7.5, &gql.DistanceTyp{Val: 3, U: gql.Meter} })
		case *gql.Ident:
			set = append(set, func(gql.Expr) { x.Val = "renamed" })
		}
	}
	if len(set) == 0 {
		return
	}
	set[nd.Choice(len(set))](m.node)
	got, ok := format(t)
	want, ok2 := format(newCopier().expr(t).(*gql.Trigger))
	nd.Assert(ok && ok2 && got == want, "a changed rule is formatted otherwise")
}

// P22_Missing: a rule without a required part.
func P22_Missing() {
	var t *gql.Trigger
	if k := nd.Choice(len(rules) + 1); k < len(rules) {
		t = parse(rules[k])
	} else {
		l := tiny(nd.Choice(nTiny))
		c := place(l)
		t = parse(c.pre + l.text + c.post)
	}
	if t == nil {
		return
	}
	u := newCopier().expr(t).(*gql.Trigger)
	var drop []func()
	for _, e := range all(u) {
		switch x := e.(type) {
		case *gql.Trigger:
			drop = append(drop, func() { x.When = nil })
		case *gql.Assign:
			drop = append(drop, func() { x.Left = nil }, func() { x.Right = nil })
		case *gql.BinaryExpr:
			drop = append(drop, func() { x.Left = nil }, func() { x.Right = nil })
		case *gql.Range:
			drop = append(drop, func() { x.Low = nil }, func() { x.High = nil })
		case *gql.ParenExpr:
			drop = append(drop, func() { x.Expr = nil })
		case *gql.ArrayTyp:
			for i := range x.List {
				i := i
				drop = append(drop, func() { x.List[i] = nil })
			}
		case *gql.Selector:
			for i := range x.Props {
				i := i
				drop = append(drop, func() { x.Props[i] = nil })
			}
		case *gql.GeometryMultiObjectTyp:
			drop = append(drop, func() { x.Val[len(x.Val)-1] = nil })
		case *gql.GeometryCollectionTyp:
			drop = append(drop, func() { x.Objects[0] = nil })
		}
	}
	k := nd.Choice(len(drop) + 1)
	var st gql.Statement = u
	if k < len(drop) {
		drop[k]()
	} else {
		st = (*gql.Trigger)(nil)
		if nd.Bool() {
			st = nil
		}
	}
	var w io.StringWriter = &strings.Builder{}
	if nd.Bool() {
		w = &failW{at: 1 << 30}
	}
	nd.Assert(gql.Format(w, st) != nil, "a rule without a required part is formatted")
}

// P22_Big: operands of many parts.
func P22_Big() {
	c, l := allBig()
	sameContent(c.plain(l), twoTypes)
}

// P22_Empty: an empty list of devices, properties or variables is the same as
// none, whether the selector means the current device or not.
func P22_Empty() {
	wild := nd.Bool()
	name := nd.OneOf("a", "b", "sel", "Long")
	d := &gql.DistanceTyp{Val: 2, U: gql.Meter}
	props := func() []gql.Expr { return nil }
	if nd.Bool() {
		props = func() []gql.Expr { return []gql.Expr{&gql.DistanceTyp{Val: d.Val, U: d.U}, &gql.IntTyp{Val: 7}} }
	}
	at := nd.Choice(6)
	build := func(empty bool) *gql.Trigger {
		s := &gql.Selector{Ident: name, Wildcard: wild, Props: props()}
		t := &gql.Trigger{}
		if empty {
			s.Args = map[string]struct{}{}
			t.Vars = []*gql.Assign{}
			if s.Props == nil {
				s.Props = []gql.Expr{}
			}
		}
		one := &gql.IntTyp{Val: 1}
		switch at {
		case 0:
			t.When = s
		case 1:
			t.When = &gql.BinaryExpr{Op: gql.LEQL, Left: s, Right: one}
		case 2:
			t.When = &gql.BinaryExpr{Op: gql.IN, Left: one, Right: s}
		case 3:
			t.When = &gql.ParenExpr{Expr: &gql.BinaryExpr{Op: gql.ADD, Left: one, Right: s}}
		case 4:
			t.When = &gql.Selector{Ident: "b", Wildcard: true, Props: []gql.Expr{s, one}}
		case 5:
			t.When = &gql.BinaryExpr{Op: gql.LEQL, Left: one, Right: &gql.Ref{ID: "v"}}
			t.Vars = []*gql.Assign{{Left: &gql.Ident{Val: "v"}, Right: s}}
		}
		return t
	}
	t, u := build(false), build(true)
	a, ok := format(t)
	b, ok2 := format(u)
	nd.Assert(ok && ok2 && a == b, "a rule of the same content is formatted otherwise")
	nd.Assert((gql.CheckType(t, twoTypes) == nil) == (gql.CheckType(u, twoTypes) == nil), "a rule of the same content is checked otherwise")
	x, y := all(t), all(u)
	nd.Assert(len(x) == len(y), "a rule of the same content is walked otherwise")
	want := squeeze(name)
	if props() != nil {
		want += ":2M,7"
	}
	nd.Assert(strings.Contains(squeeze(a), want), "the text of a rule is another rule")
	nd.Assert(!strings.Contains(a, "{"), "the text of a rule is another rule")
}

// P22_Shared: a node that stands in several places of a rule is as good as
// several equal ones.
func P22_Shared() {
	var x gql.Expr
	if k := nd.Choice(nTiny + 2); k < nTiny {
		x = tiny(k).node
	} else {
		y := &gql.Selector{Ident: "a", Wildcard: true, Props: []gql.Expr{&gql.IntTyp{Val: 1}}}
		x = &gql.BinaryExpr{Op: gql.ADD, Left: y, Right: &gql.IntTyp{Val: 2}}
		if k > nTiny {
			x = &gql.ParenExpr{Expr: &gql.BinaryExpr{Op: gql.ADD, Left: y, Right: y}}
		}
	}
	o := ops[rep[nd.Choice(len(rep))]].tok
	two := &gql.IntTyp{Val: 2}
	t := &gql.Trigger{}
	switch nd.Choice(8) {
	case 0:
		t.When = &gql.BinaryExpr{Op: o, Left: x, Right: x}
	case 1:
		y := &gql.BinaryExpr{Op: o, Left: x, Right: two}
		t.When = &gql.BinaryExpr{Op: gql.AND, Left: &gql.ParenExpr{Expr: y}, Right: &gql.ParenExpr{Expr: y}}
	case 2:
		y := &gql.ParenExpr{Expr: &gql.BinaryExpr{Op: o, Left: two, Right: x}}
		t.When = &gql.BinaryExpr{Op: gql.AND, Left: y, Right: y}
	case 3:
		t.When = &gql.BinaryExpr{Op: o, Left: two, Right: &gql.ArrayTyp{Kind: gql.INT, List: []gql.Expr{x, two, x}}}
	case 4:
		t.When = &gql.BinaryExpr{Op: o, Left: &gql.Selector{Ident: "b", Wildcard: true, Props: []gql.Expr{x, two, two}}, Right: two}
	case 5:
		t.When = &gql.BinaryExpr{Op: o, Left: x, Right: &gql.Range{Low: x, High: x}}
	case 6:
		t.When = &gql.BinaryExpr{Op: o, Left: &gql.Ref{ID: "v"}, Right: x}
		t.Vars = []*gql.Assign{{Left: &gql.Ident{Val: "v"}, Right: x}, {Left: &gql.Ident{Val: "w"}, Right: x}}
	case 7:
		d := &gql.DurationTyp{Val: 7000000000}
		t.When = &gql.BinaryExpr{Op: o, Left: d, Right: x}
		t.RepeatCount, t.RepeatInterval, t.ResetAfter = two, d, d
	}
	u := newCopier().expr(t).(*gql.Trigger)
	a, ok := format(t)
	nd.Observe(a)
	b, ok2 := format(u)
	nd.Assert(ok && ok2 && a == b, "a rule of the same content is formatted otherwise")
	nd.Assert((gql.CheckType(t, twoTypes) == nil) == (gql.CheckType(u, twoTypes) == nil), "a rule of the same content is checked otherwise")
	p, q := visited(t), visited(u)
	nd.Assert(len(p) == len(q), "a rule of the same content is walked otherwise")
	for i := 0; i < len(p) && i < len(q); i++ {
		nd.Assert((p[i] == nil) == (q[i] == nil), "a rule of the same content is walked otherwise")
	}
}

// visited are the calls of a walk.
func visited(e gql.Expr) []gql.Expr {
	var l []gql.Expr
	gql.Visit(e, func(e gql.Expr) bool {
		l = append(l, e)
		return true
	})
	return l
}
