package main

import (
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// order is an arbitrary map iteration order other than the first one.
func order() int {
	n := 14
	if nd.Tier() > 0 {
		n = 25
	}
	return 1 + nd.Choice(n)
}

// spelled is the spelling of the tokens that have one.
var spelled = map[gql.Token]string{
	gql.TRIGGER: "trigger", gql.SET: "set", gql.WHEN: "when", gql.REPEAT: "repeat", gql.RESET: "reset",
	gql.ASSIGN: "=", gql.SEMICOLON: ";", gql.LPAREN: "(", gql.RPAREN: ")", gql.COMMA: ",", gql.GEQ: ">=", gql.LEQ: "<=",
	gql.GTR: ">", gql.LSS: "<", gql.REM: "rem", gql.OR: "or", gql.AND: "and", gql.LBRACK: "[", gql.RBRACK: "]",
	gql.LBRACE: "{", gql.RBRACE: "}", gql.QUO: "/", gql.MUL: "*", gql.SUB: "-", gql.ADD: "+", gql.COLON: ":",
	gql.EQL: "eq", gql.LEQL: "==", gql.PERIOD: ".", gql.NOT_EQ: "not eq", gql.LNEQ: "!=", gql.IN: "in", gql.RANGE: "range",
	gql.IDENT: "@", gql.NOT_IN: "not in", gql.NEARBY: "nearby", gql.NOT_NEARBY: "not nearby",
	gql.INTERSECTS: "intersects", gql.NOT_INTERSECTS: "not intersects",
	gql.TIME: "time", gql.DATE: "date", gql.WEEKDAY: "weekday", gql.MONTH: "month",
}

// P09_Init: spellings do not depend on the order in which tables are built.
func P09_Init() {
	m := 0
	if nd.Bool() {
		m = 1 + nd.Choice(60)
	}
	nd.Reinit(m)
	nd.MapOrder(m)
	for k := gql.Token(-1); k < 120; k++ {
		if s, ok := spelled[k]; ok {
			nd.Assert(gql.KeywordString(k) == s, "order: the spelling of a keyword")
		}
	}
	o := ops[nd.Choice(len(ops))]
	t := parse("when a" + o.text + "b")
	if t == nil {
		return
	}
	nd.Assert(bin(t.When).Op == o.tok, "order: the operator")
	f, _ := format(t)
	s := strings.TrimSpace(o.text)
	if o.tok == gql.REM {
		s = "rem"
	}
	nd.Assert(squeeze(f) == "TRIGGERWHENa"+squeeze(s)+"b", "order: the text of an operator")
}

// P09_Words: every word and unit is read the same whatever the order of
// tables.
func P09_Words() {
	m := 0
	if nd.Bool() {
		m = 1 + nd.Choice(12)
	}
	nd.Reinit(m)
	nd.MapOrder(m)
	n := 24
	c := nd.Choice(n + nTiny)
	if c < nTiny {
		l := tiny(c)
		t := parse("when " + l.text)
		if t != nil {
			same(t.When, l.node, "order: value")
		}
		return
	}
	i := c - nTiny
	if i < 12 {
		w := []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}[i]
		t := parse("when month[" + w + "]")
		if t != nil {
			same(t.When, &gql.MonthTyp{Val: i + 1}, "order: month")
			f, _ := format(t)
			nd.Assert(strings.Contains(f, w), "order: text of a month")
		}
		return
	}
	if i < 19 {
		w := []string{"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}[i-12]
		t := parse("when weekday[" + w + "]")
		if t != nil {
			same(t.When, &gql.WeekdayTyp{Val: i - 12}, "order: weekday")
			f, _ := format(t)
			nd.Assert(strings.Contains(f, w), "order: text of a weekday")
		}
		return
	}
	w := []string{"1M", "1Km", "1Mph", "1Psi", "1Bar"}[i-19]
	t := parse("when " + w)
	if t != nil {
		f, _ := format(t)
		nd.Assert(strings.Contains(f, w), "order: text of a unit")
	}
}

// P09_Selector: device ids, wherever the selector stands.
func P09_Selector() {
	m := order()
	ids := []string{"\"b\"", "\"a\"", "\"Z\"", "\"ab\"", "\"0\"", "\"" + strings.Repeat("l", 40) + "\"", "\"" + strings.Repeat("k", 40) + "\""}
	n := 2 + nd.Choice(3)
	i := nd.Choice(len(ids))
	var l []string
	for k := 0; k < n; k++ {
		l = append(l, ids[(i+k)%len(ids)])
	}
	s := "s{" + strings.Join(l, ", ") + "}"
	if nd.Bool() {
		s = "s{*, " + strings.Join(l, ", ") + "}:1km, t{\"x\", \"y\"}"
	}
	pre := []string{"when ", "when a in ", "trigger set v = ", "trigger set v = [", "when ("}[nd.Choice(5)]
	src := pre + s
	switch pre[len(pre)-1] {
	case '[':
		src += "]; when a"
	case '(':
		src += ")"
	}
	if pre == "trigger set v = " {
		src += "; when a"
	}
	nd.Observe(src)
	t := parse(src)
	if t == nil {
		return
	}
	a, _ := format(t)
	nd.MapOrder(m)
	b, _ := format(t)
	nd.Assert(a == b, "order: the text of a rule depends on map iteration")
	w := &failW{at: []int{0, 3, 7, 15}[nd.Choice(4)], err: errPlain}
	_ = gql.Format(w, t)
	nd.Assert(len(w.out) <= len(a) && w.out == a[:len(w.out)], "order: the text of a rule depends on map iteration")
	t2 := parse(src)
	if t2 != nil {
		sameRule(t, t2, "order: the rule depends on map iteration")
	}
}

// P09_Ids: device ids of different lengths, one or two of them long.
func P09_Ids() {
	m := order()
	n := 2 + nd.Choice(8)
	p, q := nd.Choice(n), nd.Choice(n)
	nd.Assume(p <= q)
	long := []int{14, 22, 33, 60, 63, 64, 65}[nd.Choice(7)]
	var l []string
	for i := 0; i < n; i++ {
		w := 1
		if i == p || i == q {
			w = long
		}
		l = append(l, "\""+strings.Repeat(string([]byte{byte('a' + i)}), w)+"\"")
	}
	src := "s{" + strings.Join(l, ", ") + "}"
	switch nd.Choice(4) {
	case 0:
		src = "when a in " + src
	case 1:
		src = "trigger set v = " + src + "; when a"
	case 2:
		src = "trigger set v = [" + src + ":1km]; when a"
	case 3:
		src = "trigger set v = (a or " + src + "); when a"
	}
	nd.Observe(src)
	t := parse(src)
	if t == nil {
		return
	}
	a, _ := format(t)
	nd.MapOrder(m)
	b, _ := format(t)
	nd.Assert(a == b, "order: the text of a rule depends on map iteration")
}

func checkBoth(b *tb, e gql.Expr) {
	t := &gql.Trigger{When: e, Vars: b.vars}
	m := order()
	err := gql.CheckType(t, b.d)
	nd.MapOrder(m)
	err2 := gql.CheckType(t, b.d)
	nd.Assert((err == nil) == (err2 == nil), "order: the type check depends on map iteration")
	if err != nil && err2 != nil {
		nd.Assert(err.Error() == err2.Error(), "order: the type error depends on map iteration")
	}
}

// P09_Check: the type check of two operands of any kind.
func P09_Check() {
	b := newTB()
	var l, r gql.Expr
	switch nd.Choice(4) {
	case 0:
		l, r = b.leaf(nd.Choice(5)), b.leaf(nd.Choice(5))
	case 1:
		l, r = b.some(), b.maybeRef(&gql.Range{Low: b.leaf(nd.Choice(2)), High: b.leaf(nd.Choice(2))})
	case 2:
		l, r = b.some(), b.maybeRef(b.list(1))
	case 3:
		l, r = b.leaf(16), b.leaf(16+nd.Choice(5))
	}
	checkBoth(b, &gql.BinaryExpr{Op: ops[rep[nd.Choice(len(rep))]].tok, Left: l, Right: r})
}

// P09_Nested: the type check of nested operations.
func P09_Nested() {
	b := newTB()
	var e gql.Expr = &gql.BinaryExpr{Op: ops[rep[nd.Choice(len(rep))]].tok, Left: b.leaf(nd.Choice(4)), Right: b.leaf(nd.Choice(4))}
	x := b.leaf(nd.Choice(4))
	o := ops[rep[nd.Choice(len(rep))]].tok
	if nd.Bool() {
		e = &gql.BinaryExpr{Op: o, Left: e, Right: x}
	} else {
		e = &gql.BinaryExpr{Op: o, Left: x, Right: e}
	}
	checkBoth(b, e)
}

// texts of accepted and rejected rules, and of single literals.
var texts = []string{
	"trigger set v = 1; w = \"x\" when a == @v repeat 3 every 10s reset after 1h",
	"trigger set v = \"s\" when a == @v",
	"when -5.5C <= t and -1 < x",
	"when +5C <= t",
	"when not_a and b{\"x\", *}:1km",
	"when b{\"y\"}",
	"when time[9:00AM .. 10:00PM] == 1 or date[2030-1-2] == 2",
	"when point[-1, 2]:5km nearby line[[1, 2]]",
	"when a == -",
	"when a == [1, \"x\"]",
	"when \"unterminated",
	"when ((a == 1)",
	"when a not",
	"when a =",
	"trigger set v = -1; v = 2 when a",
	"when time[25:00]",
	"when -10%",
	"when point[-1",
	"when a.",
	"when a repeat x",
	"",
}

type outcome struct {
	t    *gql.Trigger
	err  string
	text string
	chk  string
}

func outcomeOf(src string, d gql.Dictionary) (o outcome) {
	st, err := gql.Parse(src)
	if err != nil {
		o.err = err.Error()
		return
	}
	o.t = st.(*gql.Trigger)
	o.text, _ = format(o.t)
	if err := gql.CheckType(o.t, d); err != nil {
		o.chk = err.Error()
	}
	return
}

func sameOutcome(a, b outcome) {
	nd.Assert(a.err == b.err, "order: the parse error depends on earlier calls")
	nd.Assert((a.t == nil) == (b.t == nil), "order: acceptance depends on earlier calls")
	nd.Assert(a.text == b.text, "order: the text depends on earlier calls")
	nd.Assert(a.chk == b.chk, "order: the type check depends on earlier calls")
	if a.t != nil && b.t != nil {
		sameRule(a.t, b.t, "order: the rule depends on earlier calls")
	}
}

// P09_History: the same call before and after other calls.
func P09_History() {
	d := gql.Dict()
	d["a"], d["b"], d["t"], d["x"] = gql.Int, gql.String, gql.Float, gql.Int
	src := texts[nd.Choice(len(texts))]
	nd.Observe(src)
	first := outcomeOf(src, d)
	n := 1
	if nd.Tier() > 0 {
		n = 1 + nd.Choice(2)
	}
	for i := 0; i < n; i++ {
		other := texts[nd.Choice(len(texts))]
		switch nd.Choice(4) {
		case 0:
			outcomeOf(other, gql.Dictionary{"a": gql.String, "b": gql.Int})
		case 1:
			if st, err := gql.Parse(other); err == nil {
				w := &failW{at: nd.Int(0, 6), err: errPlain}
				_ = gql.Format(w, st)
			}
		case 2:
			tk := gql.NewTokenizer(strings.NewReader(other))
			for k := 0; k < 4; k++ {
				tk.Scan()
			}
		case 3:
			if st, err := gql.Parse(other); err == nil {
				k := nd.Choice(4)
				gql.Visit(st.(*gql.Trigger), func(gql.Expr) bool { k--; return k != 0 })
				_ = gql.CheckType(st, nil)
			}
		}
	}
	if nd.Bool() && first.t != nil {
		// the statement first parsed is formatted and checked again
		text, _ := format(first.t)
		nd.Assert(text == first.text, "order: the text depends on earlier calls")
		chk := ""
		if err := gql.CheckType(first.t, d); err != nil {
			chk = err.Error()
		}
		nd.Assert(chk == first.chk, "order: the type check depends on earlier calls")
		return
	}
	sameOutcome(first, outcomeOf(src, d))
}

// P09_Fresh: what a call gives after another one is what was written, not what
// was written before.
func P09_Fresh() {
	k := nd.Choice(nTiny)
	l := tiny(k)
	m := nd.Choice(nTiny + 4)
	if m < nTiny {
		x := tiny(m)
		_, _ = gql.Parse("trigger set v = " + x.text + "; when a == " + x.text)
	} else {
		_, _ = gql.Parse([]string{"when -", "when -1 ..", "when point[-1", "when -5"}[m-nTiny])
	}
	t := parse("when a == " + l.text)
	if t != nil {
		same(bin(t.When).Right, l.node, "order: value")
	}
}

// P09_Types: the type checks of two rules one after the other, with the same
// names declared and assigned differently.
func P09_Types() {
	run := func(s gql.SelectorType, v gql.Expr, o gql.Token) {
		b := newTB()
		b.d["s"] = s
		b.vars = []*gql.Assign{{Left: &gql.Ident{Val: "v"}, Right: v}}
		e := &gql.BinaryExpr{Op: o, Left: &gql.Selector{Ident: "s", Wildcard: true}, Right: &gql.Ref{ID: "v"}}
		t := &gql.Trigger{When: e, Vars: b.vars}
		_, want := b.check(e)
		nd.Assert((gql.CheckType(t, b.d) == nil) == want, "order: the type check depends on earlier calls")
	}
	b := newTB()
	o := []gql.Token{gql.EQL, gql.IN, gql.ADD, gql.AND, gql.NEARBY, gql.LSS}[nd.Choice(6)]
	vals := func() gql.Expr { return b.leaf([]int{0, 1, 2, 3, 16}[nd.Choice(5)]) }
	run(gql.SelectorType(nd.Int(0, 8)), vals(), o)
	run(gql.SelectorType(nd.Int(0, 8)), vals(), o)
}

// named are rules about a name, counted rules about a number.
var named = []string{
	"trigger set v = qx{\"" + strings.Repeat("l", 70) + "\"}; when a",
	"trigger set v = qx{\"1\", \"2\"}; when a",
	"when qx{\"b\", \"c\"}:1km > 2",
	"when qx",
	"trigger set qx = 1 when a == @qx",
	"trigger set qx = \"s\"; when a == @qx",
	"trigger set qx = [1, 2]; when a in @qx",
	"trigger set qx = 1 .. 2; qx = 3 when a",
	"when qx == \"qx\"",
	"when a{\"qx\"} in [qx, qx{\"b\"}]",
	"when @qx + 1 > qx",
	"trigger set v = [qx{\"" + strings.Repeat("l", 70) + "\"}, qx]; w = a{\"qx\", *} when a:qx{\"c\"}, 1",
	"when qx == ",
	"when qx{qx}",
}

var counted = []string{
	"when a == 7", "when a == -7", "when a == 7Km", "when a == 7M", "when a == 7%", "when a == 7.5", "when a == -7C", "when a == +7F", "when a == 7h", "when a == \"7\"",
	"trigger set v = point[7, 1]:7km; when a nearby @v", "when a nearby line[[7, 77]]:7km", "when a == time[7:07]", "when a in time[7:00PM .. 9:00PM]", "when a == date[2030-7-17]", "when a in 7 .. 77",
	"trigger set v7 = [7, 77]; when a in @v7", "when a == 7Bar", "when a == 7psi", "when a > 7mph and b < 7kph", "when a repeat 7 every 7s reset after 7m", "when a == 7 7", "when a{\"7\", \"77\"}:7km",
}

// P09_Renamed: a rule about one name or number after another about it gives
// the same as about a name or number never seen before.
func P09_Renamed() {
	l, x, y := named, "qx", "qy"
	if nd.Bool() {
		l, x, y = counted, "7", "8"
	}
	d := gql.Dictionary{"qx": gql.Int, "qy": gql.Int, "a": gql.Int}
	src := l[nd.Choice(len(l))]
	nd.Observe(src)
	outcomeOf(l[nd.Choice(len(l))], d)
	a, b := outcomeOf(src, d), outcomeOf(strings.ReplaceAll(src, x, y), d)
	nd.Assert(a.err == strings.ReplaceAll(b.err, y, x), "order: the parse error depends on earlier calls")
	nd.Assert(a.text == strings.ReplaceAll(b.text, y, x), "order: the text depends on earlier calls")
	nd.Assert(a.chk == strings.ReplaceAll(b.chk, y, x), "order: the type check depends on earlier calls")
}

// P09_Errors: the message of a failure is about its own text, whatever failed
// before at the same place.
func P09_Errors() {
	max := 40
	if nd.Tier() > 0 {
		max = 120
	}
	n := 1 + nd.Choice(max)
	bad := []string{" ==", " )", " == 1 2", " == )\n\nmore", " repeat x"}[nd.Choice(5)]
	var text [2]string
	for i := range text {
		b := make([]byte, n)
		for j := range b {
			b[j] = "ab"[i]
		}
		text[i] = "when " + string(b) + bad
	}
	first := make([]string, 2)
	for i := 0; i < 4; i++ {
		_, err := gql.Parse(text[i%2])
		e, ok := err.(*gql.Error)
		if !ok {
			nd.Assert(false, "a failure is no *Error")
			return
		}
		if i < 2 {
			first[i] = err.Error()
		}
		nd.Assert(err.Error() == first[i%2], "the same text fails otherwise the second time")
		nd.Assert(!strings.Contains(e.Msg, string("ba"[i%2])) || i%2 == 1 && strings.Contains(bad, "a"), "the failure is about another text")
	}
}

// P09_Dicts: the type checks of a condition one after the other, with other
// declarations and values of the same names, also of the same rule.
func P09_Dicts() {
	o := []gql.Token{gql.EQL, gql.IN, gql.ADD, gql.NEARBY}[nd.Choice(4)]
	at := nd.Choice(8)
	left := nd.Choice(3)
	build := func(v gql.Expr) *gql.Trigger {
		b := newTB()
		s, r := &gql.Selector{Ident: "s", Wildcard: true}, &gql.Ref{ID: "v"}
		five := &gql.IntTyp{Val: 5}
		var e gql.Expr
		switch at {
		case 0:
			e = &gql.Range{Low: s, High: five}
		case 1:
			e = &gql.Range{Low: five, High: s}
		case 2:
			e = &gql.Range{Low: r, High: s}
		case 3:
			e = &gql.ArrayTyp{Kind: gql.SELECTOR, List: []gql.Expr{s}}
		case 4:
			e = &gql.ArrayTyp{Kind: gql.INT, List: []gql.Expr{r, s}}
		case 5:
			e = &gql.ParenExpr{Expr: &gql.BinaryExpr{Op: gql.ADD, Left: s, Right: r}}
		case 6:
			e = s
		case 7:
			e = r
		}
		b.vars = []*gql.Assign{{Left: &gql.Ident{Val: "v"}, Right: v}}
		return &gql.Trigger{When: &gql.BinaryExpr{Op: o, Left: b.leaf(left), Right: e}, Vars: b.vars}
	}
	val := func() gql.Expr { return newTB().leaf([]int{0, 1, 2, 16}[nd.Choice(4)]) }
	typ := func() gql.SelectorType { return gql.SelectorType(nd.Int(0, 8)) }
	t := build(val())
	d := gql.Dictionary{"s": typ()}
	decide := func() {
		b := &tb{d: d, vars: t.Vars}
		_, want := b.check(t.When)
		nd.Assert((gql.CheckType(t, d) == nil) == want, "order: the type check depends on earlier calls")
	}
	decide()
	switch nd.Choice(3) {
	case 0: // another rule with other declarations
		t, d = build(val()), gql.Dictionary{"s": typ()}
	case 1: // the same rule
		d = gql.Dictionary{"s": typ()}
	case 2: // the same rule and dictionary, changed
		d["s"] = typ()
		t.Vars[0].Right = val()
	}
	decide()
}
