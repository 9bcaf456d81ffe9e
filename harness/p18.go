package main

import (
	"strconv"
	"strings"
	"time"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

var selCtxs = []ctx{
	{"when ", "", func(t *gql.Trigger) gql.Expr { return t.When }},
	{"when (", ")", func(t *gql.Trigger) gql.Expr { return paren(t.When) }},
	{"when b and ", " == 1", func(t *gql.Trigger) gql.Expr { return bin(bin(t.When).Right).Left }},
	{"trigger set v = ", ";\nwhen a", func(t *gql.Trigger) gql.Expr { return variable(t, 0) }},
	{"when a == ", " repeat 3", func(t *gql.Trigger) gql.Expr { return bin(t.When).Right }},
}

func selCtx() ctx { return selCtxs[nd.Choice(len(selCtxs))] }

const selMsg = "the selector is not the written one"

// P18_Name: any name of 1..4 characters that is no keyword.
func P18_Name() {
	n := 1 + nd.Choice(4)
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.ByteOf(wordch)
	}
	nd.Assume(b[0] < '0' || b[0] > '9')
	w := string(b)
	nd.Assume(!isKeyword(w))
	sel := &gql.Selector{Ident: lower(w), Wildcard: true}
	switch nd.Choice(3) {
	case 1:
		w += "{\"d\"}"
		sel.Args, sel.Wildcard = map[string]struct{}{"d": {}}, false
	case 2:
		w += ":1"
		sel.Props = []gql.Expr{&gql.IntTyp{Val: 1}}
	}
	captured(selCtx(), lit{w, sel}, selMsg)
}

// P18_LongName: long names and names of other letters.
func P18_LongName() {
	w := []string{"é", "Éa", "я1", "日本", "zÄÖÜ", "Σας", "_", "__", "_1", "Ångström", "İ"}[nd.Choice(11)]
	if nd.Bool() {
		n := []int{5, 6, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 2049}[nd.Choice(22)]
		w = "Z" + strings.Repeat("q", n-2) + string([]byte{nd.ByteOf(wordch)})
	}
	captured(selCtx(), lit{w, selector(w)}, selMsg)
}

// devices is a selector with the written device ids; "*" is the wildcard.
func devices(name string, ids []string, sep string) lit {
	sel := &gql.Selector{Ident: lower(name)}
	for i, d := range ids {
		if d == "*" {
			sel.Wildcard = true
			continue
		}
		if sel.Args == nil {
			sel.Args = map[string]struct{}{}
		}
		sel.Args[d] = struct{}{}
		ids[i] = "\"" + d + "\""
	}
	if sel.Args == nil {
		sel.Wildcard = true
	}
	return lit{name + "{" + strings.Join(ids, sep) + "}", sel}
}

// P18_Devices: any number of device ids, the wildcard at any place.
func P18_Devices() {
	n := nd.Choice(6)
	ids := make([]string, n)
	for i := range ids {
		if n <= 3 {
			ids[i] = string([]byte{nd.ByteOf("aA*{, é\t"[:6]), nd.ByteOf(wordch)})
		} else {
			ids[i] = "d" + strconv.Itoa(i)
		}
	}
	if n > 3 {
		k := nd.Choice(n)
		ids[k] = string([]byte{nd.ByteOf("d}"), nd.ByteOf("0123456789:*")})
	}
	for i := nd.Choice(3); i > 0; i-- {
		k := nd.Choice(len(ids) + 1)
		ids = append(append(append([]string{}, ids[:k]...), "*"), ids[k:]...)
	}
	captured(selCtx(), devices("Dev", ids, []string{",", " , "}[nd.Choice(2)]), selMsg)
}

// P18_Content: a device id with any content.
func P18_Content() {
	c := content()
	switch nd.Choice(4) {
	case 0:
		captured(selCtx(), devices("z", []string{c}, ","), selMsg)
	case 1:
		captured(selCtx(), devices("z", []string{"*", c}, ","), selMsg)
	case 2:
		captured(selCtx(), devices("z", []string{c, c + "x"}, ","), selMsg)
	case 3:
		captured(selCtx(), devices("z", []string{"x" + c, c, "*"}, ", "), selMsg)
	}
}

// P18_Quotes: escaped quotes at the ends of device ids.
func P18_Quotes() {
	e := []string{`\"`, `\"\"`, `\\`, `\\\"`, `'`, "`", `\"a`, `a\"`, `\"a\"`, " ", " a ", "é", "\u00a0", "*", "{}", "//", "/*"}
	a, b := e[nd.Choice(len(e))], e[nd.Choice(len(e))]
	captured(selCtx(), devices("z", []string{a, b + string([]byte{nd.ByteOf(wordch)}), a + b}, ","), selMsg)
}

// P18_LongId: long device ids.
func P18_LongId() {
	n := []int{4, 7, 15, 31, 32, 33, 63, 64, 65, 127, 255, 256, 511, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049}[nd.Choice(22)]
	d := strings.Repeat("Q", n-1) + string([]byte{nd.ByteOf(wordch + " *\t")})
	captured(selCtx(), devices("z", []string{d, "*", d + "x"}, ","), selMsg)
}

// P18_Many: many device ids and properties.
func P18_Many() {
	n := 1 + nd.Choice(12)
	if nd.Tier() > 0 {
		n = []int{13, 16, 17, 31, 32, 33, 64, 65, 80}[nd.Choice(9)]
	}
	ids := make([]string, n)
	for i := range ids {
		ids[i] = "dev-" + strconv.Itoa(n-i)
	}
	k := nd.Choice(3)
	if k > 0 {
		ids[nd.Choice(n)] = []string{"*", "dev-1"}[k-1]
	}
	l := devices("z", ids, ", ")
	if m := nd.Choice(3); m > 0 {
		l.text += ":"
		var ps []gql.Expr
		for i := 0; i < n*m; i++ {
			if i > 0 {
				l.text += ", "
			}
			l.text += strconv.Itoa(i) + "Km"
			ps = append(ps, &gql.DistanceTyp{Val: float64(i), U: gql.Kilometer})
		}
		l.node.(*gql.Selector).Props = ps
	}
	captured(selCtx(), l, selMsg)
}

// P18_Same: properties that may be equal.
func P18_Same() {
	k := nd.Choice(nTiny)
	nd.Assume(k != 18)
	xs := []lit{tiny(k), {"9h", &gql.DurationTyp{Val: 9 * time.Hour}}}
	n := 2 + nd.Choice(3)
	l := lit{"z", &gql.Selector{Ident: "z", Wildcard: true}}
	sel := l.node.(*gql.Selector)
	l.text += ":"
	for i := 0; i < n; i++ {
		x := xs[nd.Choice(2)]
		if i > 0 {
			l.text += ","
		}
		l.text += x.text
		sel.Props = append(sel.Props, x.node)
	}
	captured(selCtxs[nd.Choice(2)], l, selMsg)
}

// P18_Props: up to 3 (4) properties of any kind, in order.
func P18_Props() {
	n := 1 + nd.Choice(3)
	if nd.Tier() > 0 {
		n = 1 + nd.Choice(4)
	}
	l := lit{"z", &gql.Selector{Ident: "z", Wildcard: true}}
	if nd.Bool() {
		l = devices("z", []string{"a", "b"}, ",")
	}
	sel := l.node.(*gql.Selector)
	l.text += []string{":", " : "}[nd.Choice(2)]
	f := nd.Choice(n)
	for i := 0; i < n; i++ {
		k := []int{4, 7, 8, 9, 1}[i]
		if i == f {
			k = nd.Choice(nTiny)
			nd.Assume(k != 18 || i == n-1)
		}
		x := tiny(k)
		if i > 0 {
			l.text += []string{",", " , "}[f%2]
		}
		l.text += x.text
		sel.Props = append(sel.Props, x.node)
	}
	captured(selCtx(), l, selMsg)
}

// P18_PropPair: two properties of any kinds.
func P18_PropPair() {
	a, b := nd.Choice(nTiny), nd.Choice(nTiny)
	nd.Assume(a != 18)
	x, y := tiny(a), tiny(b)
	captured(selCtxs[nd.Choice(2)], lit{"z:" + x.text + "," + y.text, &gql.Selector{Ident: "z", Wildcard: true, Props: []gql.Expr{x.node, y.node}}}, selMsg)
}

// P18_Place: selectors with arbitrary names, ids and properties in all places.
func P18_Place() {
	l := selLit(true)
	captured(place(l), l, selMsg)
}

// P18_PlaceMany: selectors of several ids and properties in all places.
func P18_PlaceMany() {
	l := many([]int{0, 1, 2, 5}[nd.Choice(4)])
	captured(place(l), l, selMsg)
}

// selGrammar is the documented grammar of selectors in expressions.
type selGrammar struct{ grammar }

func (g *selGrammar) fail() gql.Expr {
	g.bad = true
	return nil
}

func (g *selGrammar) expr() gql.Expr {
	xs := []gql.Expr{g.unary()}
	var os []opT
	for !g.bad {
		switch g.peek() {
		case "*":
			os = append(os, opT{"*", gql.MUL, 5})
		case "+":
			os = append(os, opT{"+", gql.ADD, 4})
		case "==":
			os = append(os, opT{"==", gql.LEQL, 3})
		default:
			return climb(xs, os)
		}
		g.i++
		xs = append(xs, g.unary())
	}
	return nil
}

func (g *selGrammar) unary() gql.Expr {
	t := g.peek()
	g.i++
	switch t {
	case "1":
		return &gql.IntTyp{Val: 1}
	case "2":
		return &gql.IntTyp{Val: 2}
	case "2h":
		return &gql.DurationTyp{Val: 2 * time.Hour}
	case "+":
		switch g.peek() {
		case "1", "2", "2h":
			return g.unary()
		}
		return g.fail()
	case `"a"`, `"b"`:
		return &gql.StringTyp{Val: t[1:2]}
	case "*":
		return &gql.WildcardTyp{}
	case "@r":
		return &gql.Ref{ID: "r"}
	case "(":
		e := g.expr()
		g.must(")")
		return &gql.ParenExpr{Expr: e}
	case "[":
		return g.array()
	case "z", "K":
		return g.sel(t)
	}
	return g.fail()
}

func (g *selGrammar) array() gql.Expr {
	a := &gql.ArrayTyp{}
	for !g.bad {
		e := g.unary()
		k := gql.ILLEGAL
		switch e.(type) {
		case *gql.IntTyp:
			k = gql.INT
		case *gql.DurationTyp:
			k = gql.DURATION
		case *gql.StringTyp:
			k = gql.STRING
		case *gql.Ref:
			k = gql.IDENT
		case *gql.Selector:
			k = gql.SELECTOR
		}
		if k == gql.ILLEGAL || len(a.List) > 0 && a.Kind != k {
			return g.fail()
		}
		a.Kind = k
		a.List = append(a.List, e)
		if g.take("]") {
			return a
		}
		if k == gql.INT && g.take(":") {
			continue
		}
		g.must(",")
	}
	return a
}

func (g *selGrammar) sel(n string) gql.Expr {
	s := &gql.Selector{Ident: lower(n), Wildcard: true}
	if g.take("{") && !g.take("}") {
		s.Wildcard = false
		for !g.bad {
			if t := g.peek(); t == `"a"` || t == `"b"` {
				if s.Args == nil {
					s.Args = map[string]struct{}{}
				}
				s.Args[t[1:2]] = struct{}{}
			} else if t == "*" {
				s.Wildcard = true
			} else {
				g.bad = true
			}
			g.i++
			if g.take("}") {
				break
			}
			g.must(",")
		}
		if len(s.Args) == 0 {
			s.Wildcard = true
		}
	}
	if g.take(":") {
		s.Props = append(s.Props, g.unary())
		for !g.bad && g.take(",") {
			s.Props = append(s.Props, g.unary())
		}
	}
	return s
}

func decideSelector(ts []string) {
	src := "when ( " + join(ts) + " )"
	g := &selGrammar{grammar{ts: append(append([]string{}, ts...), ")")}}
	e := g.expr()
	if !g.bad && (g.peek() != ")" || g.i != len(ts)) {
		g.bad = true
	}
	if g.bad {
		nd.Cover("rejected")
		rejected(src, "a malformed selector is accepted")
		return
	}
	nd.Cover("accepted")
	isRule(src, &gql.Trigger{When: &gql.ParenExpr{Expr: e}})
}

var selBases = [][]string{
	strings.Fields(`z { "a" , * , "b" } : 1 , 2h`),
	strings.Fields(`K : "a" , [ 1 , 2 ] , ( z ) + 1`),
	strings.Fields(`1 == z { * } : @r`),
	strings.Fields(`z { "a" , "b" } == [ K , z { } ]`),
}

var selVocab = strings.Fields(`{ } , : * "a" "b" 1 2h z K [ ] ( ) @r + ;`)

// P18_Edit: one token removed, replaced, swapped or inserted.
func P18_Edit() {
	ts, _ := edit(selBases[nd.Choice(len(selBases))], selVocab)
	decideSelector(ts)
}

// P18_Edit2: two such edits.
func P18_Edit2() {
	few := strings.Fields(`{ } , : * "a" z 1`)
	i := 2
	if nd.Tier() > 0 {
		few = selVocab
		i = nd.Choice(len(selBases))
	}
	ts, _ := edit(selBases[i], few)
	ts, _ = edit(ts, few)
	decideSelector(ts)
}

// P18_Tokens: any tokens inside a device list and a property list.
func P18_Tokens() {
	s := strings.Fields([]string{"z", "z {", `z { "a"`, `z { "a" ,`, "z { *", "z {}", "z :", "z : 1", "z : 1 ,", `z { "b" } :`}[nd.Choice(10)])
	if s[len(s)-1] == "{}" {
		s = append(s[:len(s)-1], "{", "}")
	}
	n := 3
	if nd.Tier() > 0 {
		n = 4
	}
	for i := nd.Choice(n + 1); i > 0; i-- {
		s = append(s, selVocab[nd.Choice(len(selVocab))])
	}
	decideSelector(s)
}

// P18_Byte: an arbitrary byte inside a device list.
func P18_Byte() {
	k := nd.Choice(6)
	pre := []string{"z{", `z{"a"`, `z{"a",`, `z{"a"}`, "z{*", "z{"}[k]
	post := []string{`"a"}`, `}`, `"b"}`, "", "}", "}"}[k]
	b := nd.Byte(0, 255)
	src := "when (" + pre + string([]byte{b}) + post + ")"
	nd.Observe(src)
	st, err := gql.Parse(src)
	if err != nil {
		return
	}
	ws := b == ' ' || b == '\t' || b == '\n' || b == '\r'
	ok := ws || k == 5 && b == '*'
	if k == 4 {
		ok = ws
	}
	nd.Assert(ok, "a malformed device list is accepted")
	e, isSel := paren(st.(*gql.Trigger).When).(*gql.Selector)
	nd.Assert(isSel && e.Wildcard == (k >= 4), selMsg)
}

// P18_Inner: a property that is a selector takes the properties behind it.
func P18_Inner() {
	num := func(from, n int) (string, []gql.Expr) {
		s, l := "", []gql.Expr(nil)
		for i := from; i < from+n; i++ {
			if i > from {
				s += ", "
			}
			s += strconv.Itoa(i)
			l = append(l, &gql.IntTyp{Val: i})
		}
		return s, l
	}
	max := 9
	if nd.Tier() > 0 {
		max = 33
	}
	n, m := nd.Choice(5), 1+nd.Choice(max)
	s, ps := num(1, n)
	if n > 0 {
		s += ", "
	}
	in := lit{"inn", &gql.Selector{Ident: "inn", Wildcard: true}}
	if nd.Bool() {
		in = devices("inn", []string{"a", "b"}, ",")
	}
	t, qs := num(10, m)
	in.text += ":" + t
	in.node.(*gql.Selector).Props = qs
	if nd.Bool() {
		k := 1 + nd.Choice(max)
		t, rs := num(50, k)
		in.text += ", deep:" + t
		in.node.(*gql.Selector).Props = append(qs, &gql.Selector{Ident: "deep", Wildcard: true, Props: rs})
	}
	out := lit{"z:" + s + in.text, &gql.Selector{Ident: "z", Wildcard: true, Props: append(ps, in.node)}}
	captured(selCtxs[nd.Choice(2)], out, selMsg)
}
