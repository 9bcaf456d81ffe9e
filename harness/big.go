package main

import (
	"strconv"
	"strings"
	"time"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// size is a number of elements: few, and around the sizes at which buffers, tables and
// counters usually change.
func size() int {
	l := []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 15, 16, 17, 24, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 1025}
	if nd.Tier() > 0 {
		l = append(l, 300, 400, 500, 511, 512, 513, 600, 800, 999, 1000, 1001, 1023, 1024, 2050)
	}
	return l[nd.Choice(len(l))]
}

// longTexts are literals with a text of n characters, the last arbitrary.
func longText(k, n int) lit {
	c := nd.ByteOf("aZ_9")
	x := strings.Repeat("x", n-1) + string([]byte{c})
	if n == 1 {
		x = string([]byte{nd.ByteOf("azZ_")})
	}
	switch k {
	case 0:
		return lit{`"` + x + `"`, &gql.StringTyp{Val: x}}
	case 1:
		y := strings.Repeat("é \\\"", n/5) + x
		return lit{`"` + y + `"`, &gql.StringTyp{Val: y}}
	case 2:
		return lit{"@" + x, &gql.Ref{ID: x}}
	case 3:
		return lit{x, &gql.Selector{Ident: lower(x), Wildcard: true}}
	case 4:
		return lit{`z{"b", "` + x + `"}`, &gql.Selector{Ident: "z", Args: map[string]struct{}{"b": {}, x: {}}}}
	}
	return lit{`z:"` + x + `"`, &gql.Selector{Ident: "z", Wildcard: true, Props: []gql.Expr{&gql.StringTyp{Val: x}}}}
}

// longSize is a length of a text.
func longSize() int {
	if nd.Choice(4) == 0 {
		return []int{1, 512, 1000, 1020, 1023, 1024, 1025, 1500, 2047, 2049, 3000}[nd.Choice(11)]
	}
	return size()
}

const nBig = 29

// joined joins n marked literals.
func joined(n int, f func(int) lit) (string, []gql.Expr) {
	var b strings.Builder
	var l []gql.Expr
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(", ")
		}
		x := f(i)
		b.WriteString(x.text)
		l = append(l, x.node)
	}
	return b.String(), l
}

// big is an operand of n parts of kind k. Its text has the starts of its nodes
// marked as in P15.
func big(k, n int) lit {
	d, v := digs(1)
	// the last number is arbitrary
	num := func(i int) (string, int) {
		if i == n-1 {
			return d, v
		}
		return strconv.Itoa(i), i
	}
	array := func(kind gql.Token, f func(int) lit) lit {
		t, l := joined(n, f)
		return lit{"^[" + t + "]", &gql.ArrayTyp{Kind: kind, List: l}}
	}
	cal := func(kind int, f func(int) lit) lit {
		t, l := joined(n, f)
		return lit{strings.Repeat("^", n+1) + calWords[kind] + "[" + t + "]", &gql.ArrayTyp{Kind: calKinds[kind], List: l}}
	}
	spot := func(i int) (string, [2]float64) {
		t, x := num(i)
		return "[" + t + ", -" + strconv.Itoa(i%7) + ".5]", [2]float64{float64(x), -float64(i%7) - 0.5}
	}
	spots := func(m, i int) (string, [][2]float64) {
		var b strings.Builder
		var p [][2]float64
		for j := 0; j < m; j++ {
			if j > 0 {
				b.WriteString(", ")
			}
			t, q := spot(i + j)
			b.WriteString(t)
			p = append(p, q)
		}
		return "[" + b.String() + "]", p
	}
	point := func(i int) lit {
		t, p := spot(i)
		g := &gql.GeometryPointTyp{Val: p}
		if i%3 == 1 {
			g.Radius = &gql.DistanceTyp{Val: float64(i), U: gql.Meter}
			t += ":^" + strconv.Itoa(i) + "M"
		}
		return lit{"^point" + t, g}
	}
	line := func(i int) lit {
		t, p := spots(1+i%2, i)
		g := &gql.GeometryLineTyp{Val: p}
		if i%3 == 2 {
			g.Margin = &gql.DistanceTyp{Val: float64(i), U: gql.Meter}
			t += ":^" + strconv.Itoa(i) + "M"
		}
		return lit{"^line" + t, g}
	}
	polygon := func(i int) lit {
		t, p := spots(1+i%2, i)
		return lit{"^polygon[" + t + "]", &gql.GeometryPolygonTyp{Val: [][][2]float64{p}}}
	}
	multi := func(w string, kind gql.Token, f func(int) lit) lit {
		t, l := joined(n, f)
		return lit{"^" + w + "[" + t + "]", &gql.GeometryMultiObjectTyp{Kind: kind, Val: l}}
	}
	sel := func(s string) *gql.Selector { return &gql.Selector{Ident: s, Wildcard: true} }
	switch k {
	case 0:
		return array(gql.INT, func(i int) lit {
			t, x := num(i)
			if i%3 == 1 && i < n-1 {
				return lit{"^-" + t, &gql.IntTyp{Val: -x}}
			}
			return lit{"^" + t, &gql.IntTyp{Val: x}}
		})
	case 1:
		return array(gql.STRING, func(i int) lit {
			t, _ := num(i)
			return lit{`^"s` + t + `"`, &gql.StringTyp{Val: "s" + t}}
		})
	case 2:
		return array(gql.RANGE, func(i int) lit {
			t, x := num(i)
			return lit{"~^" + t + " .. ^-7", &gql.Range{Low: &gql.IntTyp{Val: x}, High: &gql.IntTyp{Val: -7}}}
		})
	case 3:
		return cal(0, func(i int) lit { return calSamples[0][i%3] })
	case 4:
		return cal(1, func(i int) lit { return calSamples[1][i%3] })
	case 5:
		return cal(2, func(i int) lit { return calSamples[2][i%3] })
	case 6:
		return cal(3, func(i int) lit { return calSamples[3][i%3] })
	case 7:
		t, p := spots(n, 0)
		return lit{"^line" + t + ":^3Km", &gql.GeometryLineTyp{Val: p, Margin: &gql.DistanceTyp{Val: 3, U: gql.Kilometer}}}
	case 8:
		t, p := spots(n, 0)
		return lit{"^polygon[" + t + ", [[1, 2]]]", &gql.GeometryPolygonTyp{Val: [][][2]float64{p, {{1, 2}}}}}
	case 9:
		var ts []string
		g := &gql.GeometryPolygonTyp{}
		for i := 0; i < n; i++ {
			t, p := spots(1+i%2, i)
			ts = append(ts, t)
			g.Val = append(g.Val, p)
		}
		return lit{"^polygon[" + strings.Join(ts, ", ") + "]", g}
	case 10:
		return multi("multipoint", gql.GEOMETRY_MULTIPOINT, point)
	case 11:
		return multi("multiline", gql.GEOMETRY_MULTILINE, line)
	case 12:
		return multi("multipolygon", gql.GEOMETRY_MULTIPOLYGON, polygon)
	case 13:
		t, l := joined(n, func(i int) lit {
			switch i % 4 {
			case 0:
				return point(i)
			case 1:
				return polygon(i)
			case 2:
				return line(i)
			}
			p := point(i)
			return lit{"^multipoint[" + p.text + "]", &gql.GeometryMultiObjectTyp{Kind: gql.GEOMETRY_MULTIPOINT, Val: []gql.Expr{p.node}}}
		})
		return lit{"^collection[" + t + "]", &gql.GeometryCollectionTyp{Objects: l}}
	case 14:
		return array(gql.SELECTOR, func(i int) lit {
			t, _ := num(i)
			return lit{"^z" + t, sel("z" + t)}
		})
	case 15:
		return array(gql.IDENT, func(i int) lit {
			t, _ := num(i)
			return lit{"^@V" + t, &gql.Ref{ID: "V" + t}}
		})
	case 16:
		s := &gql.Selector{Ident: "z", Args: map[string]struct{}{}}
		var ts []string
		for i := 0; i < n; i++ {
			id := "D" + strconv.Itoa(n-i)
			s.Args[id] = struct{}{}
			ts = append(ts, `"`+id+`"`)
		}
		return lit{"^z{" + strings.Join(ts, ", ") + "}", s}
	case 17:
		t, l := joined(n, func(i int) lit {
			t, x := num(i)
			return lit{"^" + t + "Km", &gql.DistanceTyp{Val: float64(x), U: gql.Kilometer}}
		})
		return lit{`^z{"d"}:` + t, &gql.Selector{Ident: "z", Args: map[string]struct{}{"d": {}}, Props: l}}
	case 18:
		var e gql.Expr = &gql.IntTyp{Val: v}
		for i := 0; i < n; i++ {
			e = &gql.ParenExpr{Expr: e}
		}
		return lit{strings.Repeat("^(", n) + "^" + d + strings.Repeat(")", n), e}
	case 19, 20, 21:
		// a chain inside parentheses
		var b strings.Builder
		b.WriteString("^(^z")
		xs := []gql.Expr{sel("z")}
		var os []opT
		for i := 0; i < n; i++ {
			o := ops[[]int{16, 17, 18, 19}[i%4]]
			if k == 20 {
				o = ops[[]int{2, 1, 6, 0}[i%4]]
			} else if k == 21 {
				o = ops[16]
			}
			t, x := num(i)
			b.WriteString(o.text)
			b.WriteString("^" + t)
			os = append(os, o)
			xs = append(xs, &gql.IntTyp{Val: x})
		}
		return lit{b.String() + ")", &gql.ParenExpr{Expr: fold(xs, os)}}
	case 22:
		return array(gql.DURATION, func(i int) lit {
			t, x := num(i)
			return lit{"^" + t + "s", &gql.DurationTyp{Val: time.Duration(x) * time.Second}}
		})
	case 23:
		return array(gql.TEMPERATURE, func(i int) lit {
			t, x := num(i)
			return lit{"^-" + t + "C", &gql.TemperatureTyp{Val: float64(x), U: gql.Celsius, Vec: gql.Minus}}
		})
	case 26:
		// devices and properties
		s := &gql.Selector{Ident: "z", Args: map[string]struct{}{}}
		var ts []string
		for i := 0; i < n; i++ {
			id := "d" + strconv.Itoa(i)
			s.Args[id] = struct{}{}
			ts = append(ts, `"`+id+`"`)
		}
		t, l := joined(n, func(i int) lit {
			t, x := num(i)
			if i%2 == 1 {
				return lit{"^@V" + t, &gql.Ref{ID: "V" + t}}
			}
			return lit{"^" + t, &gql.IntTyp{Val: x}}
		})
		s.Props = l
		return lit{"^z{" + strings.Join(ts, ", ") + "}:" + t, s}
	case 27:
		// a long string
		t := strings.Repeat("aB /*", n/5) + d + strings.Repeat("é", n%5)
		return lit{`^"` + t + `"`, &gql.StringTyp{Val: t}}
	case 28:
		// a long name
		t := "z" + strings.Repeat("q_7w", n/4) + strings.Repeat("x", n%4) + d
		return lit{"^" + t + ":^1", &gql.Selector{Ident: t, Wildcard: true, Props: []gql.Expr{&gql.IntTyp{Val: 1}}}}
	case 24:
		// operations nested on the right
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString("^(^" + strconv.Itoa(i) + " - ")
		}
		var e gql.Expr = &gql.IntTyp{Val: v}
		for i := n - 1; i >= 0; i-- {
			e = &gql.ParenExpr{Expr: &gql.BinaryExpr{Op: gql.SUB, Left: &gql.IntTyp{Val: i}, Right: e}}
		}
		return lit{b.String() + "^" + d + strings.Repeat(")", n), e}
	}
	return array(gql.FLOAT, func(i int) lit {
		t, x := num(i)
		return lit{"^" + t + ".25", &gql.FloatTyp{Val: float64(x*100+25) / 100}}
	})
}

// fold is climb for long chains: operators and operands on two stacks.
func fold(xs []gql.Expr, os []opT) gql.Expr {
	st := []gql.Expr{xs[0]}
	var ws []opT
	pop := func() {
		n := len(st)
		st = append(st[:n-2], &gql.BinaryExpr{Op: ws[len(ws)-1].tok, Left: st[n-2], Right: st[n-1]})
		ws = ws[:len(ws)-1]
	}
	for i, o := range os {
		for len(ws) > 0 && ws[len(ws)-1].prec >= o.prec {
			pop()
		}
		ws = append(ws, o)
		st = append(st, xs[i+1])
	}
	for len(ws) > 0 {
		pop()
	}
	return st[0]
}

// bigRule puts a big operand in a place.
func bigRule(ks ...int) (ctx, lit) { return bigOf(size, ks...) }

func bigOf(size func() int, ks ...int) (ctx, lit) {
	k := ks[nd.Choice(len(ks))]
	l := big(k, size())
	if k == 15 || k == 17 || k == 26 || nd.Bool() {
		return ctx{"when ^a in ", "", func(t *gql.Trigger) gql.Expr { return bin(t.When).Right }}, l
	}
	return ctx{"trigger set ^v = ", "; when ^a", func(t *gql.Trigger) gql.Expr { return variable(t, 0) }}, l
}

// fewSizes are fewer sizes, where each costs more.
func fewSizes() int {
	if nd.Tier() > 0 {
		return size()
	}
	return []int{3, 5, 6, 9, 16, 17, 32, 33, 64, 65, 100, 128, 257}[nd.Choice(13)]
}

func allBig() (ctx, lit) { return allOf(size) }

func allOf(size func() int) (ctx, lit) {
	ks := make([]int, nBig)
	for i := range ks {
		ks[i] = i
	}
	return bigOf(size, ks...)
}

func (c ctx) plain(l lit) string {
	s, _ := positions(c.pre + l.text + c.post)
	return s
}

func capturedBig(ks ...int) {
	c, l := bigRule(ks...)
	src := c.plain(l)
	nd.Observe(src)
	if t := parse(src); t != nil {
		same(l.node, c.get(t), "big operand")
	}
}

// P02_Big: operands of many parts.
func P02_Big() {
	c, l := allBig()
	roundTrip(c.plain(l))
}

// P03_Big: long chains and deep nesting.
func P03_Big() { capturedBig(18, 19, 20, 21, 24) }

// P04_Big: long lists of scalars.
func P04_Big() { capturedBig(0, 1, 2, 22, 23, 25, 27) }

// P05_Big: long calendar lists.
func P05_Big() { capturedBig(3, 4, 5, 6) }

// P06_Big: geometries of many positions, rings and members.
func P06_Big() { capturedBig(7, 8, 9, 10, 11, 12, 13) }

// P07_Big: the tokens of operands of many parts.
func P07_Big() {
	k := nd.Choice(nBig)
	nd.Assume(k != 16 && k != 26 && k != 22 && k != 3 && k != 4 && k != 5 && k != 6) // written in another order or spelling
	src, _ := positions("TRIGGER WHEN a in " + big(k, size()).text)
	nd.Observe(src)
	t := parse(src)
	if t == nil {
		return
	}
	f, _ := format(t)
	nd.Assert(strings.ReplaceAll(squeeze(f), "{*}", "") == squeeze(src), "the accepted rule has other tokens than its text")
}

// P14_Big: walks over operands of many parts.
func P14_Big() {
	c, l := allOf(fewSizes)
	src := c.plain(l)
	nd.Observe(src)
	t := parse(src)
	if t == nil {
		return
	}
	n := len(all(t))
	a := []int{-1, n / 2, n - 2}[nd.Choice(3)]
	at := func(i int) bool { return i == a }
	m := 0
	want := visits(t, &m, at)
	r := &recorder{at: at}
	if nd.Bool() {
		gql.Walk(r, t)
	} else {
		gql.Visit(t, r.visit)
	}
	for i := 0; i < len(want) && i < len(r.l); i++ {
		nd.Assert(want[i] == r.l[i], "a walk visits another node")
	}
	nd.Assert(len(want) == len(r.l), "number of visits")
}

// P15_Big: the starts of all nodes of operands of many parts.
func P15_Big() {
	c, l := allBig()
	placed(c.pre + l.text + c.post)
}

// P10_Big: failing writes at the beginning, in the middle and at the end of
// operands of many parts.
func P10_Big() {
	c, l := allOf(fewSizes)
	src := c.plain(l)
	nd.Observe(src)
	t := parse(src)
	if t == nil {
		return
	}
	full := &failW{at: 1 << 30}
	nd.Assert(gql.Format(full, t) == nil, "formatting fails although no write fails")
	n := full.n
	at := []int{n / 3, n / 2, n - 12, n - 3, n - 2}[nd.Choice(5)]
	nd.Assume(at >= 0 && at < n)
	w := &failW{at: at, err: errTyped2, sticky: at%2 == 0, short: at%3 == 0}
	err := gql.Format(w, t)
	nd.Assert(err == w.err, "the error returned is not the writer's")
	nd.Assert(w.after == 0, "a write follows the failing one")
	nd.Assert(len(w.out) <= len(full.out) && w.out == full.out[:len(w.out)], "what was written is not a prefix of the output")
}

// P16_Big: all operations on operands of many parts.
func P16_Big() {
	c, l := allBig()
	quietAll(c.plain(l), gql.Dict())
}

// P18_Big: many device ids and properties.
func P18_Big() { capturedBig(14, 16, 17, 26, 28) }

// P09_Big: the same text twice, the formatted text twice.
func P09_Big() {
	c, l := allBig()
	src := c.plain(l)
	nd.Observe(src)
	a, b := parse(src), parse(src)
	if a == nil || b == nil {
		return
	}
	sameRule(a, b, "order: parsing twice gives two rules")
	f, _ := format(a)
	g, _ := format(b)
	h, _ := format(a)
	nd.Assert(f == g && f == h, "order: formatting twice gives two texts")
	nd.Assert((gql.CheckType(a, gql.Dict()) == nil) == (gql.CheckType(b, gql.Dict()) == nil), "order: two verdicts")
}

// P13_Big: many variables.
func P13_Big() {
	n := size()
	want := &gql.Trigger{When: selector("a")}
	var b strings.Builder
	b.WriteString("trigger set")
	d, v := digs(1)
	dup := nd.Choice(4)
	for i := 0; i < n; i++ {
		m := "V_" + strconv.Itoa(i)
		if i == n-1 {
			m = []string{m, "v_1", "V_0", "V_" + strconv.Itoa(n-2)}[dup]
		}
		b.WriteString(" " + m + " = ")
		if i == n-1 {
			b.WriteString(d)
			want.Vars = append(want.Vars, assign(m, &gql.IntTyp{Val: v}))
		} else {
			b.WriteString(strconv.Itoa(i) + ";")
			want.Vars = append(want.Vars, assign(m, &gql.IntTyp{Val: i}))
		}
	}
	b.WriteString(" when a")
	if dup > 1 {
		rejected(b.String(), "a variable is assigned twice")
		return
	}
	isRule(b.String(), want)
}

// P08_Big: long lists and chains with one part that may not fit.
func P08_Big() {
	b := newTB()
	n := size()
	at := []int{0, 1, n / 2, n - 2, n - 1}[nd.Choice(5)]
	odd := []int{0, 1, 2, 3, 16}[nd.Choice(5)]
	switch nd.Choice(3) {
	case 0:
		a := &gql.ArrayTyp{Kind: gql.INT}
		for i := 0; i < n; i++ {
			if i == at {
				a.List = append(a.List, b.leaf(odd))
			} else {
				a.List = append(a.List, &gql.IntTyp{Val: i})
			}
		}
		b.decide(&gql.BinaryExpr{Op: gql.IN, Left: &gql.IntTyp{Val: 1}, Right: b.maybeRef(a)})
	case 1:
		var e gql.Expr = &gql.IntTyp{Val: 1}
		for i := 0; i < n; i++ {
			var r gql.Expr = &gql.IntTyp{Val: i}
			if i == at {
				r = b.leaf(odd)
			}
			e = &gql.BinaryExpr{Op: gql.SUB, Left: e, Right: r}
		}
		b.decide(e)
	case 2:
		e := b.leaf(odd)
		for i := 0; i < n; i++ {
			e = &gql.ParenExpr{Expr: &gql.BinaryExpr{Op: gql.ADD, Left: &gql.IntTyp{Val: i}, Right: e}}
		}
		b.decide(e)
	}
}
