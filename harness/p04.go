package main

import (
	"strconv"
	"strings"
	"time"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// P04_Value: every kind of scalar literal.
func P04_Value() {
	l := anyLit(nd.Choice(10))
	captured(ctxs[0], l, "literal")
}

// P04_Place: scalar literals with their sign in every place.
func P04_Place() {
	l := tiny(nd.Choice(11))
	captured(place(l), l, "literal")
}

// wide is a number of kind k with several digits and any sign it may have.
func wide(k int) lit {
	sg := ""
	if k < 2 || k == 6 {
		sg = sign()
	}
	n := []int{2, 4, 7}[nd.Choice(3)]
	s, v := digs(n)
	if k == 1 {
		d, w := digs(1)
		f := float64(v*10+w) / 10
		if sg == "-" {
			f = -f
		}
		return lit{sg + s + "." + d, &gql.FloatTyp{Val: f}}
	}
	f := float64(v)
	switch k {
	case 0:
		if sg == "-" {
			v = -v
		}
		return lit{sg + s, &gql.IntTyp{Val: v}}
	case 2:
		return lit{s + "%", &gql.PercentTyp{Val: f}}
	case 3:
		return lit{s + "Mph", &gql.SpeedTyp{Val: f, U: gql.Mph}}
	case 4:
		return lit{s + "M", &gql.DistanceTyp{Val: f, U: gql.Meter}}
	case 5:
		return lit{s + "Bar", &gql.PressureTyp{Val: f, U: gql.Bar}}
	case 6:
		t := &gql.TemperatureTyp{Val: f, U: gql.Fahrenheit}
		switch sg {
		case "-":
			t.Vec = gql.Minus
		case "+":
			t.Vec = gql.Plus
		}
		return lit{sg + s + "F", t}
	}
	return lit{s + "s", &gql.DurationTyp{Val: time.Duration(v) * time.Second}}
}

// P04_PlaceWide: numbers of several digits in every place.
func P04_PlaceWide() {
	l := wide(nd.Choice(8))
	captured(place(l), l, "literal")
}

// signed is a literal of kind k with few cases and the given sign.
func signed(k int, sg string) lit {
	s, v := digs(1)
	f := float64(v)
	n, g := v, f
	if sg == "-" {
		n, g = -n, -g
	}
	t := &gql.TemperatureTyp{Val: f, U: gql.Celsius}
	switch sg {
	case "-":
		t.Vec = gql.Minus
	case "+":
		t.Vec = gql.Plus
	}
	switch k {
	case 0:
		return lit{sg + s, &gql.IntTyp{Val: n}}
	case 1:
		return lit{sg + s + ".0", &gql.FloatTyp{Val: g}}
	case 2:
		return lit{sg + s + "C", t}
	case 3:
		return lit{sg + s + "%", &gql.PercentTyp{Val: f}}
	case 4:
		return lit{sg + s + "Kph", &gql.SpeedTyp{Val: f, U: gql.Kph}}
	case 5:
		return lit{sg + s + "Km", &gql.DistanceTyp{Val: f, U: gql.Kilometer}}
	case 6:
		return lit{sg + s + "Psi", &gql.PressureTyp{Val: f, U: gql.Psi}}
	}
	return lit{sg + s + "h", &gql.DurationTyp{Val: time.Duration(v) * time.Hour}}
}

// P04_Sign: a sign belongs to the literal it precedes and to no other: two
// literals of any kind with any signs, next to each other in every construct.
func P04_Sign() {
	sg := func() string {
		return []string{"", "-", "+"}[nd.Choice(3)]
	}
	a, b := sg(), sg()
	i, j := nd.Choice(8), nd.Choice(8)
	x, y := signed(i, a), signed(j, b)
	neg := a == "-" && i > 2 || b == "-" && j > 2
	var src string
	var get func(*gql.Trigger) (gql.Expr, gql.Expr)
	two := func(f, g func(*gql.Trigger) gql.Expr) {
		get = func(t *gql.Trigger) (gql.Expr, gql.Expr) { return f(t), g(t) }
	}
	w := func(t *gql.Trigger) gql.Expr { return t.When }
	switch nd.Choice(7) {
	case 0:
		src = "when " + x.text + " .. " + y.text
		two(func(t *gql.Trigger) gql.Expr { return low(w(t)) }, func(t *gql.Trigger) gql.Expr { return high(w(t)) })
	case 1:
		src = "when a in " + x.text + " .. " + y.text + " and b"
		two(func(t *gql.Trigger) gql.Expr { return low(bin(bin(w(t)).Left).Right) }, func(t *gql.Trigger) gql.Expr { return high(bin(bin(w(t)).Left).Right) })
	case 2:
		src = "when " + x.text + " + " + y.text
		two(func(t *gql.Trigger) gql.Expr { return bin(w(t)).Left }, func(t *gql.Trigger) gql.Expr { return bin(w(t)).Right })
	case 3:
		src = "when " + x.text + "-" + y.text + "*1"
		two(func(t *gql.Trigger) gql.Expr { return bin(w(t)).Left }, func(t *gql.Trigger) gql.Expr { return bin(bin(w(t)).Right).Left })
	case 4:
		src = "when a:" + x.text + ", " + y.text
		two(func(t *gql.Trigger) gql.Expr { return prop(w(t), 0) }, func(t *gql.Trigger) gql.Expr { return prop(w(t), 1) })
	case 5:
		src = "trigger set v = " + x.text + "; w = " + y.text + " when a"
		two(func(t *gql.Trigger) gql.Expr { return variable(t, 0) }, func(t *gql.Trigger) gql.Expr { return variable(t, 1) })
	case 6:
		nd.Assume(i == j)
		src = "when [" + x.text + "," + y.text + "]"
		two(func(t *gql.Trigger) gql.Expr { return elem(w(t), 0) }, func(t *gql.Trigger) gql.Expr { return elem(w(t), 1) })
	}
	if neg {
		rejected(src, "the sign of a quantity that cannot be negative is ignored")
		return
	}
	nd.Observe(src)
	if t := parse(src); t != nil {
		p, q := get(t)
		same(x.node, p, "first literal")
		same(y.node, q, "second literal")
	}
}

// P04_Misplaced: a sign before anything that is not a number is an error, and
// so are two signs.
func P04_Misplaced() {
	l := tiny([]int{8, 9, 10, 11, 12, 13, 14, 16, 17, 19, 20, 0}[nd.Choice(12)])
	s := nd.OneOf("-", "+", "- ", "+\n")
	if l.text[0] == '-' {
		// "- -1": one sign too many
		rejected("when a == "+s+l.text, "two signs are accepted")
		return
	}
	c := ctxs[nd.Choice(3)]
	rejected(c.pre+s+l.text+c.post, "a sign before "+l.text+" is accepted")
}

// unitOf is the documented table of unit spellings.
func unitOf(w string, v float64, n string) gql.Expr {
	switch w {
	case "PCT", "Pct":
		return &gql.PercentTyp{Val: v}
	case "bar", "Bar", "BAR":
		return &gql.PressureTyp{Val: v, U: gql.Bar}
	case "psi", "Psi", "PSI":
		return &gql.PressureTyp{Val: v, U: gql.Psi}
	case "kph", "Kph", "KPH":
		return &gql.SpeedTyp{Val: v, U: gql.Kph}
	case "mph", "Mph", "MPH":
		return &gql.SpeedTyp{Val: v, U: gql.Mph}
	case "km", "Km", "rkm", "rKM", "Rkm":
		return &gql.DistanceTyp{Val: v, U: gql.Kilometer}
	case "M", "rm", "rM", "Rm":
		return &gql.DistanceTyp{Val: v, U: gql.Meter}
	case "c", "C":
		return &gql.TemperatureTyp{Val: v, U: gql.Celsius}
	case "f", "F":
		return &gql.TemperatureTyp{Val: v, U: gql.Fahrenheit}
	}
	switch strings.ToLower(w) {
	case "h":
		return &gql.DurationTyp{Val: time.Duration(v) * time.Hour}
	case "m":
		return &gql.DurationTyp{Val: time.Duration(v) * time.Minute}
	case "s":
		return &gql.DurationTyp{Val: time.Duration(v) * time.Second}
	case "ms":
		return &gql.DurationTyp{Val: time.Duration(v) * time.Millisecond}
	}
	return nil
}

// P04_Word: a number followed by an arbitrary word is a quantity if the word is
// a unit, and an error otherwise.
func P04_Word() {
	s, v := digs(1)
	n := 1 + nd.Choice(3)
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.ByteOf(letter)
	}
	w := string(b)
	src := "when a == " + s + w
	nd.Observe(src)
	want := unitOf(w, float64(v), s)
	st, err := gql.Parse(src)
	if want == nil {
		nd.Assert(err != nil && st == nil, "an unknown unit is accepted")
		return
	}
	nd.Assert(err == nil && st != nil, "a unit is rejected")
	if err == nil {
		same(want, bin(st.(*gql.Trigger).When).Right, "unit")
	}
}

// P04_Int: integers are exact up to the largest and rejected beyond.
func P04_Int() {
	switch nd.Choice(4) {
	case 0:
		// around the largest
		a, v := digs(2)
		src := "when a == 92233720368547758" + a
		nd.Observe(src)
		st, err := gql.Parse(src)
		if v > 7 {
			nd.Assert(err != nil && st == nil, "an integer that does not fit is accepted")
			return
		}
		nd.Assert(err == nil && st != nil, "an integer that fits is rejected")
		if err == nil {
			same(&gql.IntTyp{Val: 9223372036854775800 + v}, bin(st.(*gql.Trigger).When).Right, "literal")
		}
	case 1:
		a, _ := digs(3)
		rejected("when a == 9"+a+strings.Repeat("0", 16), "an integer that does not fit is accepted")
	case 2:
		// leading zeros
		z := strings.Repeat("0", nd.Choice(30))
		a, v := digs(2)
		captured(ctxs[0], lit{z + a, &gql.IntTyp{Val: v}}, "literal")
	case 3:
		n := 1 + nd.Choice(18)
		captured(ctxs[nd.Choice(2)], intLitN(n), "literal")
	}
}

// P04_Float: decimals of every shape up to 15 significant digits, and longer
// ones at a few values.
func P04_Float() {
	max := 8
	if nd.Tier() > 0 {
		max = 14
	}
	switch nd.Choice(3) {
	case 0:
		ni := 1 + nd.Choice(max)
		nf := nd.Choice(max)
		nd.Assume(ni+nf <= 15 && nf <= 9)
		sg := sign()
		s, _, f := number(ni, nf)
		if sg == "-" {
			f = -f
		}
		captured(ctxs[0], lit{sg + s, &gql.FloatTyp{Val: f}}, "literal")
	case 1:
		s := []string{"0.1000000000000000055511151231257827", "123456789012345678.5", "9007199254740993.0", "0.30000000000000004", "179769313486231570000000000000000000000.0", "1.7976931348623157", "4.9406564584124654", "99999999999999999999999999.99", "00000000000000000001.5"}[nd.Choice(9)]
		v, _ := strconv.ParseFloat(s, 64)
		captured(ctxs[0], lit{s, &gql.FloatTyp{Val: v}}, "literal")
	case 2:
		// no digits before or behind the point
		ni, nf := 0, 1+nd.Choice(max)
		if nd.Bool() {
			ni, nf = nf, 0
		}
		nd.Assume(ni+nf <= 9)
		s, _, f := number(ni, nf)
		l := lit{s, &gql.FloatTyp{Val: f}}
		switch nd.Choice(4) {
		case 0:
			l.text, l.node = "-"+s, &gql.FloatTyp{Val: -f}
		case 1:
			l.text, l.node = s+"km", &gql.DistanceTyp{Val: f, U: gql.Kilometer}
		case 2:
			l.text, l.node = "-"+s+"C", &gql.TemperatureTyp{Val: f, U: gql.Celsius, Vec: gql.Minus}
		}
		captured(ctxs[nd.Choice(3)], l, "literal")
	}
}

// P04_Decimal: numbers of up to 44 digits in literals of every kind.
func P04_Decimal() {
	l := decimalLit()
	captured(ctxs[0], l, "literal")
}

// P04_Long: texts of many lengths, of characters of several bytes, with escapes.
func P04_Long() {
	l := longText(nd.Choice(3), longSize())
	captured(ctxs[nd.Choice(3)], l, "literal")
}

// P04_Layout: a unit is a token of its own.
func P04_Layout() {
	l := signed(2+nd.Choice(6), []string{"", "+"}[nd.Choice(2)])
	i := 0
	for i < len(l.text)-1 && (l.text[i] == '+' || l.text[i] >= '0' && l.text[i] <= '9' || l.text[i] == '.') {
		i++
	}
	captured(ctxs[nd.Choice(6)], lit{l.text[:i] + nd.OneOf("", " ", "\n", "\t ") + l.text[i:], l.node}, "literal")
}

// P04_String: string literals keep their bytes.
func P04_String() {
	var s string
	switch nd.Choice(3) {
	case 0:
		s = content()
	case 1:
		// bytes of the whole range that stand for themselves
		n := 1 + nd.Choice(3)
		b := make([]byte, n)
		for i := range b {
			b[i] = nd.Byte(1, 127)
			nd.Assume(b[i] != '"' && b[i] != '\\' && b[i] != '\n')
		}
		s = string(b)
	case 2:
		s = strings.Repeat(nd.OneOf("a", "é", "\\\""), []int{1, 2, 60, 64, 65, 127, 128, 255, 256, 257, 1020, 1024, 1030, 2050}[nd.Choice(14)]) + string([]byte{nd.ByteOf(wordch)})
	}
	l := lit{`"` + s + `"`, &gql.StringTyp{Val: s}}
	captured(ctxs[nd.Choice(3)], l, "string")
}

// P04_Bool: the four boolean words in any case.
func P04_Bool() {
	i := nd.Choice(4)
	w := anyCase([]string{"true", "up", "false", "down"}[i])
	captured(ctxs[nd.Choice(len(ctxs))], lit{w, &gql.BooleanTyp{Val: i < 2}}, "boolean")
}
