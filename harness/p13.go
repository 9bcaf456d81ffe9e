package main

import (
	"strconv"
	"strings"
	"time"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// isRule asserts that a text parses to exactly the given rule.
func isRule(src string, want *gql.Trigger) {
	nd.Observe(src)
	t := parse(src)
	if t != nil {
		sameRule(want, t, "the rule is not the written one")
	}
}

func selector(n string) gql.Expr { return &gql.Selector{Ident: lower(n), Wildcard: true} }

func assign(n string, e gql.Expr) *gql.Assign {
	return &gql.Assign{Left: &gql.Ident{Val: n}, Right: e}
}

// P13_Clauses: any combination of clauses.
func P13_Clauses() {
	src, t := clauses()
	isRule(src, t)
}

// anyName is a name of one of several shapes.
func anyName() string {
	switch nd.Choice(4) {
	case 0:
		return string([]byte{nd.ByteOf("zZ")})
	case 1:
		return string([]byte{nd.ByteOf("zZ"), nd.ByteOf(wordch)})
	case 2:
		return string([]byte{'_', nd.ByteOf(wordch)})
	}
	return string([]byte{nd.ByteOf("zZ"), nd.ByteOf("zZ1_"), nd.ByteOf(wordch)})
}

// P13_Names: variables with arbitrary names are all kept, unless two have the
// same name.
func P13_Names() {
	n := 2
	if nd.Tier() > 0 {
		n = 2 + nd.Choice(2)
	}
	want := &gql.Trigger{When: selector("a")}
	src := "trigger set "
	dup := false
	sep := []string{"; ", " "}[nd.Choice(2)]
	for i := 0; i < n; i++ {
		m := anyName()
		for _, v := range want.Vars {
			if v.Left.Val == m {
				dup = true
			}
		}
		src += m + " = " + strconv.Itoa(i) + sep
		want.Vars = append(want.Vars, assign(m, &gql.IntTyp{Val: i}))
	}
	src += "when a"
	if dup {
		nd.Cover("duplicate")
		rejected(src, "a variable is assigned twice")
		return
	}
	nd.Cover("distinct")
	isRule(src, want)
}

// P13_Ref: references keep the exact written name, wherever they stand.
func P13_Ref() {
	n := anyName()
	if nd.Bool() {
		n = anyCase([]string{"every", "after", "inx", "sun", "jan", "km", "h", "am", "pm"}[nd.Choice(9)])
	}
	l := lit{[]string{"@", "@ "}[nd.Choice(2)] + n, &gql.Ref{ID: n}}
	c := place(l)
	nd.Assume(!strings.Contains(c.post, "..") || c.pre != "")
	captured(c, l, "the reference has another name")
}

// P13_LongName: names of variables of many lengths.
func P13_LongName() {
	n := longText(3, longSize()).text
	isRule("trigger set "+n+" = 1; w = 2 when a == @"+n, &gql.Trigger{
		Vars: []*gql.Assign{{Left: &gql.Ident{Val: n}, Right: &gql.IntTyp{Val: 1}}, {Left: &gql.Ident{Val: "w"}, Right: &gql.IntTyp{Val: 2}}},
		When: &gql.BinaryExpr{Op: gql.LEQL, Left: operand(0).node, Right: &gql.Ref{ID: n}},
	})
}

// P13_Word: any word as variable name, kept unless it is a keyword.
func P13_Word() {
	n := 1 + nd.Choice(3)
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.ByteOf(wordch)
	}
	nd.Assume(b[0] < '0' || b[0] > '9')
	m := string(b)
	k := isKeyword(m)
	src := "trigger set " + m + " = 1; when a == @" + m
	if k {
		nd.Cover("keyword")
		rejected(src, "a keyword is a variable")
		return
	}
	isRule(src, &gql.Trigger{Vars: []*gql.Assign{assign(m, &gql.IntTyp{Val: 1})},
		When: &gql.BinaryExpr{Op: gql.LEQL, Left: selector("a"), Right: &gql.Ref{ID: m}}})
}

// P13_RefValue: references are no values of variables.
func P13_RefValue() {
	n := 1 + nd.Choice(3)
	k := nd.Choice(n)
	src := "trigger set "
	for i := 0; i < n; i++ {
		v := tiny([]int{0, 4, 8}[nd.Choice(3)]).text
		if i == k {
			v = []string{"@v0", "@other", "[@v0]", "[@x, @y]", "[ @x ,@y,@x]"}[nd.Choice(5)]
		}
		src += "v" + strconv.Itoa(i) + " = " + v + []string{";", " "}[nd.Choice(2)]
	}
	rejected(src+" when a", "a reference is assigned")
}

// P13_Value: values of every kind among other variables.
func P13_Value() {
	n := 3
	f := nd.Choice(n)
	l := anyLit(nd.Choice(nLits - 1))
	nd.Assume(!isRef(l.node))
	nd.Assume(l.text[0] != '*' || l.text == "*")
	want := &gql.Trigger{When: selector("a")}
	src := "trigger set "
	for i := 0; i < n; i++ {
		m, x := "v"+strconv.Itoa(i), lit{"7", &gql.IntTyp{Val: 7}}
		if i == f {
			x = l
		}
		src += m + " = " + x.text + []string{"; ", " "}[f%2]
		want.Vars = append(want.Vars, assign(m, x.node))
	}
	isRule(src+" when a", want)
}

// P13_Many: many variables; two with the same name at any distance.
func P13_Many() {
	n := 1 + nd.Choice(12)
	if nd.Tier() > 0 {
		n = []int{4, 8, 16, 17, 32, 33, 64, 65}[nd.Choice(8)]
	}
	names := make([]string, n)
	for i := range names {
		names[i] = "Var_" + strings.Repeat("x", i%3) + strconv.Itoa(i)
	}
	dup := nd.Bool()
	if dup {
		i, j := nd.Choice(n), nd.Choice(n)
		nd.Assume(i < j)
		names[j] = names[i]
	} else if n > 1 {
		// one that differs in its letter case only
		j := 1 + nd.Choice(n-1)
		names[j] = lower(names[j-1])
	}
	want := &gql.Trigger{When: selector("a")}
	src := "trigger set"
	for i, m := range names {
		src += " " + m + " = " + strconv.Itoa(i) + "; "
		want.Vars = append(want.Vars, assign(m, &gql.IntTyp{Val: i}))
	}
	src += "when a"
	if dup {
		rejected(src, "a variable is assigned twice")
		return
	}
	isRule(src, want)
}

// P13_Count: any count.
func P13_Count() {
	n := 1 + nd.Choice(18)
	c, v := digs(n)
	src := "when a repeat " + c
	want := &gql.Trigger{When: selector("a"), RepeatCount: &gql.IntTyp{Val: v}}
	switch nd.Choice(4) {
	case 1:
		src += " every 10s"
		want.RepeatInterval = &gql.DurationTyp{Val: 10 * time.Second}
	case 2:
		src += " reset after 2m"
		want.ResetAfter = &gql.DurationTyp{Val: 2 * time.Minute}
	case 3:
		src += " every 10s reset after 2m"
		want.RepeatInterval = &gql.DurationTyp{Val: 10 * time.Second}
		want.ResetAfter = &gql.DurationTyp{Val: 2 * time.Minute}
	}
	isRule(src, want)
}

// P13_BigCount: a count that is no integer is an error.
func P13_BigCount() {
	c := []string{"9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999", "1_0", "0x10", "0b1", "017", "08", "1e3"}[nd.Choice(10)]
	src := "when a repeat " + c + []string{"", " every 1s", " reset after 1s"}[nd.Choice(3)]
	nd.Observe(src)
	st, err := gql.Parse(src)
	switch c {
	case "9223372036854775807":
		nd.Assert(err == nil, "the largest count is rejected")
	case "9223372036854775808", "18446744073709551616", "99999999999999999999":
		nd.Assert(err != nil, "a count that does not fit is accepted")
	}
	if err == nil {
		c, ok := st.(*gql.Trigger).RepeatCount.(*gql.IntTyp)
		nd.Assert(ok && c.Val > 0, "the count has another value")
	}
}

// P13_Duration: any duration as interval and delay.
func P13_Duration() {
	d := durLit()
	t := &gql.Trigger{When: selector("a")}
	switch nd.Choice(3) {
	case 0:
		t.RepeatCount = &gql.IntTyp{Val: 3}
		t.RepeatInterval = d.node
		isRule("when a repeat 3 every "+d.text, t)
	case 1:
		t.ResetAfter = d.node
		isRule("when a reset after "+d.text, t)
	case 2:
		t.RepeatCount = &gql.IntTyp{Val: 3}
		t.RepeatInterval = d.node
		t.ResetAfter = &gql.DurationTyp{Val: 7 * time.Hour}
		isRule("when a repeat 3 every "+d.text+" reset after 7h", t)
	}
}

// P13_Kind: values of other kinds in the clauses.
func P13_Kind() {
	var l lit
	if nd.Bool() {
		l = tiny(nd.Choice(nTiny))
	} else {
		l = []lit{{"3", nil}, {"1h", &gql.DurationTyp{}}, {"2m", &gql.DurationTyp{}}, {"2.5s", &gql.DurationTyp{}}, {"+3", nil}, {"+1h", nil}, {"-1h", nil}, {"2M", nil}, {"(1h)", nil}, {"[1h]", nil}, {"1h..2h", nil}, {"1h, 2h", nil}, {"1h 2h", nil}, {"1h 2", nil}, {"h", nil}, {"\"1h\"", nil}, {"time[10:00]", nil}, {"every", nil}, {"after 1h", nil}, {"1.5", nil}, {"1 h", &gql.DurationTyp{}}, {"1h;", nil}, {"3%", nil}, {"3 %", nil}}[nd.Choice(24)]
	}
	_, isDur := l.node.(*gql.DurationTyp)
	post := []string{"", " reset after 1s", " every 1s"}[nd.Choice(3)]
	switch nd.Choice(3) {
	case 0:
		nd.Assume(l.text != "3")
		rejected("when a repeat "+l.text+post, "a count of another kind is accepted")
	case 1:
		nd.Assume(!isDur && post != " every 1s")
		rejected("when a repeat 3 every "+l.text+post, "an interval of another kind is accepted")
	case 2:
		nd.Assume(!isDur)
		rejected("when a reset after "+l.text, "a delay of another kind is accepted")
	}
}

// clauseRules are rules over the words of the clauses.
var clauseRules = [][]string{
	strings.Fields("TRIGGER SET v = 1 ; w = \"x\" ; WHEN a == @v REPEAT 3 every 2h RESET after 5s"),
	strings.Fields("TRIGGER SET v = 2h w = a WHEN a == 1 RESET after 1.5h"),
	strings.Fields("WHEN a REPEAT 3"),
	strings.Fields("TRIGGER WHEN @v == \"x\" REPEAT 3 RESET after 2h"),
	strings.Fields("WHEN a == b == k REPEAT 3 every 2h"),
}

var clauseVocab = strings.Fields("TRIGGER SET WHEN REPEAT RESET every after v w = ; == 1 2h 1.5 \"x\" @v -")

// grammar is the documented grammar of clauses.
type grammar struct {
	ts  []string
	i   int
	bad bool
}

func (g *grammar) peek() string {
	if g.i < len(g.ts) {
		return g.ts[g.i]
	}
	return ""
}

func (g *grammar) take(s string) bool {
	if g.peek() == s {
		g.i++
		return true
	}
	return false
}

func (g *grammar) must(s string) {
	if !g.take(s) {
		g.bad = true
	}
}

func (g *grammar) operand() gql.Expr {
	t := g.peek()
	switch t {
	case "", "TRIGGER", "SET", "WHEN", "REPEAT", "RESET", "=", "==", ";":
		g.bad = true
		return nil
	}
	g.i++
	switch t {
	case "-":
		if g.take("1") {
			return &gql.IntTyp{Val: -1}
		}
		if g.take("3") {
			return &gql.IntTyp{Val: -3}
		}
		if g.take("1.5") {
			return &gql.FloatTyp{Val: -1.5}
		}
		g.bad = true
		return nil
	case "1":
		return &gql.IntTyp{Val: 1}
	case "3":
		return &gql.IntTyp{Val: 3}
	case "2h":
		return &gql.DurationTyp{Val: 2 * time.Hour}
	case "5s":
		return &gql.DurationTyp{Val: 5 * time.Second}
	case "1.5h":
		return &gql.DurationTyp{Val: 90 * time.Minute}
	case "1.5":
		return &gql.FloatTyp{Val: 1.5}
	case "\"x\"":
		return &gql.StringTyp{Val: "x"}
	case "@v":
		return &gql.Ref{ID: "v"}
	}
	return selector(t)
}

func (g *grammar) duration(word string) gql.Expr {
	g.must(word)
	e := g.operand()
	if _, ok := e.(*gql.DurationTyp); !ok {
		g.bad = true
		return nil
	}
	return e
}

// rule is the rule of the tokens, nil if they are none.
func (g *grammar) rule() *gql.Trigger {
	t := &gql.Trigger{}
	if g.take("TRIGGER") && g.take("SET") {
		for g.peek() != "WHEN" && !g.bad {
			n := g.peek()
			if s, ok := g.operand().(*gql.Selector); !ok || s.Ident != n {
				g.bad = true
				break
			}
			g.must("=")
			v := g.operand()
			if isRef(v) {
				g.bad = true
			}
			for _, w := range t.Vars {
				if w.Left.Val == n {
					g.bad = true
				}
			}
			t.Vars = append(t.Vars, assign(n, v))
			g.take(";")
		}
	}
	g.must("WHEN")
	t.When = g.operand()
	for !g.bad && (g.peek() == "==" || g.peek() == "-") {
		op := g.peek()
		g.i++
		r := g.operand()
		if op == "==" {
			for !g.bad && g.take("-") {
				r = &gql.BinaryExpr{Op: gql.SUB, Left: r, Right: g.operand()}
			}
			t.When = &gql.BinaryExpr{Op: gql.LEQL, Left: t.When, Right: r}
		} else {
			t.When = &gql.BinaryExpr{Op: gql.SUB, Left: t.When, Right: r}
		}
	}
	if g.take("REPEAT") && g.peek() != "" && g.peek() != "RESET" {
		if g.peek() == "-" {
			g.bad = true
		}
		t.RepeatCount = g.operand()
		if _, ok := t.RepeatCount.(*gql.IntTyp); !ok {
			g.bad = true
		}
		if g.peek() != "" && g.peek() != "RESET" {
			t.RepeatInterval = g.duration("every")
		}
	}
	if g.take("RESET") {
		t.ResetAfter = g.duration("after")
	}
	if g.bad || g.i != len(g.ts) {
		return nil
	}
	return t
}

// equals joins '=' characters to tokens.
func equals(ts []string) (l []string) {
	n := 0
	for _, t := range append(ts, "") {
		switch t {
		case "=":
			n++
			continue
		case "==":
			n += 2
			continue
		}
		for ; n > 0; n -= 2 {
			if n == 1 {
				l = append(l, "=")
				break
			}
			l = append(l, "==")
		}
		n = 0
		if t != "" {
			l = append(l, t)
		}
	}
	return
}

func decideClauses(ts []string) {
	src := join(ts)
	g := &grammar{ts: equals(ts)}
	want := g.rule()
	if want == nil {
		nd.Cover("rejected")
		rejected(src, "malformed clauses are accepted")
		return
	}
	nd.Cover("accepted")
	isRule(src, want)
}

// P13_Edit: one token removed, replaced, swapped or inserted.
func P13_Edit() {
	ts, _ := edit(clauseRules[nd.Choice(len(clauseRules))], clauseVocab)
	decideClauses(ts)
}

// P13_Edit2: two such edits.
func P13_Edit2() {
	few := clauseVocab
	i := 2 + nd.Choice(3)
	if nd.Tier() > 0 {
		i = nd.Choice(len(clauseRules))
	} else {
		few = strings.Fields("SET WHEN REPEAT RESET every after v = 1 2h")
		nd.Assume(i != 4)
	}
	ts, _ := edit(clauseRules[i], few)
	ts, _ = edit(ts, few)
	decideClauses(ts)
}

// P13_Tokens: any tokens after the beginnings of clauses.
func P13_Tokens() {
	s := strings.Fields([]string{"", "TRIGGER", "TRIGGER SET", "TRIGGER SET v = 1", "TRIGGER SET v = 1 WHEN a", "WHEN a", "WHEN a REPEAT 3", "WHEN a REPEAT 3 every 2h", "WHEN a RESET", "WHEN a RESET after 2h"}[nd.Choice(10)])
	n := 3
	if nd.Tier() > 0 {
		n = 4
	}
	for i := nd.Choice(n); i >= 0; i-- {
		s = append(s, clauseVocab[nd.Choice(len(clauseVocab))])
	}
	decideClauses(s)
}

// P13_Order: whole clauses in any order and number.
func P13_Order() {
	parts := []string{"TRIGGER", "SET v = 1", "SET w = 2h ;", "WHEN a", "WHEN a == @v", "REPEAT 3", "REPEAT 3 every 2h", "RESET after 5s", "every 2h", "after 5s", "REPEAT", "v = 1"}
	var ts []string
	for i := 1 + nd.Choice(4); i > 0; i-- {
		ts = append(ts, strings.Fields(parts[nd.Choice(len(parts))])...)
	}
	decideClauses(ts)
}

// P13_SetVar: variables set by a program.
func P13_SetVar() {
	t := &gql.Trigger{When: selector("a")}
	n := 1 + nd.Choice(3)
	if nd.Tier() > 0 {
		n = 1 + nd.Choice(4)
	}
	var want []*gql.Assign
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		w := anyName()
		a := assign(w, &gql.IntTyp{Val: i})
		err := t.SetVar(a)
		if seen[w] {
			nd.Cover("again")
			nd.Assert(err != nil, "a variable is assigned twice")
		} else {
			nd.Cover("first")
			nd.Assert(err == nil, "a variable is rejected")
			want = append(want, a)
		}
		seen[w] = true
	}
	nd.Assert(len(t.Vars) == len(want), "number of variables")
	for i := range want {
		nd.Assert(t.Vars[i] == want[i], "the variables are not those assigned")
	}
}
