package main

import (
	"strconv"
	"strings"
	"time"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// lit is a piece of rule text and the node it has to parse to.
type lit struct {
	text string
	node gql.Expr
}

const digit = "0123456789"

// digs is n arbitrary digits and their value.
func digs(n int) (string, int) {
	b := make([]byte, n)
	v := 0
	for i := range b {
		b[i] = nd.ByteOf(digit)
		v = v*10 + int(b[i]-'0')
	}
	return string(b), v
}

var pow10 = []float64{1, 10, 100, 1000, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9}

// number is an unsigned number with ni digits before and nf digits after the
// point (nf < 0: no point).
func number(ni, nf int) (string, int, float64) {
	s, v := digs(ni)
	if nf < 0 {
		return s, v, float64(v)
	}
	f, w := "", 0
	if nf > 0 {
		f, w = digs(nf)
	}
	for i := 0; i < nf; i++ {
		v *= 10
	}
	return s + "." + f, 0, float64(v+w) / pow10[nf]
}

// decimal is a number of any length: up to 22 digits on either side of the
// point, of a few patterns of digits, and its value.
func decimal() (string, float64) {
	p := []string{"1234567890123456789012", "9999999999999999999999", "1000000000000000000001", "8205000000000000000000", "5000000000000000000005", "3300000000000000000000", "0123456789012345678901", "0000000000000000000009"}
	step := 3
	if nd.Tier() > 0 {
		step = 1
	}
	ni, nf := 1+nd.Choice(22/step)*step, nd.Choice(24/step)*step-1
	nd.Assume(nf >= 0 || ni <= 18)
	s := p[nd.Choice(len(p))][:ni]
	if nf >= 0 {
		s += "." + p[nd.Choice(len(p))][22-nf:]
	}
	v, _ := strconv.ParseFloat(s, 64)
	return s, v
}

// decimalLit is a literal with such a number.
func decimalLit() lit {
	s, f := decimal()
	neg := nd.Bool()
	isInt := !strings.Contains(s, ".")
	switch nd.Choice(7) {
	case 0:
		if neg {
			s, f = "-"+s, -f
		}
		if isInt {
			v, _ := strconv.Atoi(s)
			return lit{s, &gql.IntTyp{Val: v}}
		}
		return lit{s, &gql.FloatTyp{Val: f}}
	case 1:
		return lit{s + "%", &gql.PercentTyp{Val: f}}
	case 2:
		return lit{s + "Kph", &gql.SpeedTyp{Val: f, U: gql.Kph}}
	case 3:
		return lit{s + "Km", &gql.DistanceTyp{Val: f, U: gql.Kilometer}}
	case 4:
		return lit{s + "Psi", &gql.PressureTyp{Val: f, U: gql.Psi}}
	case 5:
		t := &gql.TemperatureTyp{Val: f, U: gql.Celsius}
		if neg {
			s, t.Vec = "-"+s, gql.Minus
		}
		return lit{s + "C", t}
	}
	if neg {
		s, f = "-"+s, -f
	}
	return lit{"point[" + s + ", 1]:2km", &gql.GeometryPointTyp{Val: [2]float64{f, 1}, Radius: &gql.DistanceTyp{Val: 2, U: gql.Kilometer}}}
}

// shape draws the shape of a number: integers and decimals of a few lengths.
func shape() (int, int) {
	switch nd.Choice(4) {
	case 0:
		return 1, -1
	case 1:
		return 3, -1
	case 2:
		return 1, 1
	}
	return 2, 2
}

func anyNumber() (string, int, float64, bool) {
	ni, nf := shape()
	s, v, f := number(ni, nf)
	return s, v, f, nf < 0
}

func sign() string { return nd.OneOf("", "-", "+") }

func intLit() lit {
	n := []int{1, 2, 5, 18}[nd.Choice(4)]
	return intLitN(n)
}

func intLitN(n int) lit {
	sg := sign()
	s, v := digs(n)
	if sg == "-" {
		v = -v
	}
	return lit{sg + s, &gql.IntTyp{Val: v}}
}

func floatLit() lit {
	ni, nf := 1, 1
	switch nd.Choice(3) {
	case 1:
		ni, nf = 3, 4
	case 2:
		ni, nf = 2, 0
	}
	sg := sign()
	s, _, f := number(ni, nf)
	if sg == "-" {
		f = -f
	}
	return lit{sg + s, &gql.FloatTyp{Val: f}}
}

func percentLit() lit {
	s, _, f, _ := anyNumber()
	return lit{nd.OneOf("", "+") + s + nd.OneOf("%", "PCT", "Pct"), &gql.PercentTyp{Val: f}}
}

func speedLit() lit {
	s, _, f, _ := anyNumber()
	if nd.Bool() {
		return lit{s + nd.OneOf("kph", "Kph", "KPH"), &gql.SpeedTyp{Val: f, U: gql.Kph}}
	}
	return lit{s + nd.OneOf("mph", "Mph", "MPH"), &gql.SpeedTyp{Val: f, U: gql.Mph}}
}

func distLit() lit {
	s, _, f, _ := anyNumber()
	if nd.Bool() {
		return lit{s + nd.OneOf("km", "Km", "rkm", "rKM", "Rkm"), &gql.DistanceTyp{Val: f, U: gql.Kilometer}}
	}
	return lit{s + nd.OneOf("M", "rm", "rM", "Rm"), &gql.DistanceTyp{Val: f, U: gql.Meter}}
}

func pressureLit() lit {
	s, _, f, _ := anyNumber()
	if nd.Bool() {
		return lit{s + nd.OneOf("bar", "Bar", "BAR"), &gql.PressureTyp{Val: f, U: gql.Bar}}
	}
	return lit{s + nd.OneOf("psi", "Psi", "PSI"), &gql.PressureTyp{Val: f, U: gql.Psi}}
}

func tempLit() lit {
	sg := sign()
	s, _, f, _ := anyNumber()
	t := &gql.TemperatureTyp{Val: f}
	switch sg {
	case "-":
		t.Vec = gql.Minus
	case "+":
		t.Vec = gql.Plus
	}
	if nd.Bool() {
		t.U = gql.Celsius
		return lit{sg + s + nd.OneOf("c", "C"), t}
	}
	t.U = gql.Fahrenheit
	return lit{sg + s + nd.OneOf("f", "F"), t}
}

// durLit: single and combined units, integral and fractional.
func durLit() lit {
	switch nd.Choice(5) {
	case 0:
		s, v := digs(1 + nd.Choice(3))
		u, d := "s", time.Second
		switch nd.Choice(4) {
		case 1:
			u, d = "m", time.Minute
		case 2:
			u, d = "h", time.Hour
		case 3:
			u, d = "ms", time.Millisecond
		}
		return lit{s + u, &gql.DurationTyp{Val: time.Duration(v) * d}}
	case 1: // 1h30m5s
		a, h := digs(1)
		b, m := digs(2)
		c, s := digs(1)
		return lit{a + "h" + b + "m" + c + "s", &gql.DurationTyp{Val: time.Duration(h)*time.Hour + time.Duration(m)*time.Minute + time.Duration(s)*time.Second}}
	case 2: // 5m30s
		a, m := digs(2)
		b, s := digs(2)
		return lit{a + "m" + b + "s", &gql.DurationTyp{Val: time.Duration(m)*time.Minute + time.Duration(s)*time.Second}}
	case 3: // 1.5h, 2.5m, 3.5s, 1.5ms
		s, v := digs(1)
		f, w := digs(1)
		u, d := "s", time.Second
		switch nd.Choice(4) {
		case 1:
			u, d = "m", time.Minute
		case 2:
			u, d = "h", time.Hour
		case 3:
			u, d = "ms", time.Millisecond
		}
		return lit{s + "." + f + u, &gql.DurationTyp{Val: time.Duration(v*10+w) * (d / 10)}}
	}
	// decimals of a second down to nanoseconds
	k := []int{2, 3, 4, 9}[nd.Choice(4)]
	s, v := digs(1 + nd.Choice(2))
	f, w := digs(k)
	ns := time.Duration(v) * time.Second
	fr := time.Duration(w)
	for i := k; i < 9; i++ {
		fr *= 10
	}
	return lit{s + "." + f + "s", &gql.DurationTyp{Val: ns + fr}}
}

// content is the content of a string literal: arbitrary bytes, escapes and
// multi-byte characters.
func content() string {
	const plain = " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~\t\r"
	switch nd.Choice(6) {
	case 5:
		// escapes at the ends
		return []string{"", "x", " "}[nd.Choice(3)] + []string{`\"`, `\\`, `\n`, `\"\"`, `\\\"`, `\"x\"`, `\x41`, `'`, "`", "é"}[nd.Choice(10)]
	case 0:
		return ""
	case 1:
		return string([]byte{nd.ByteOf(plain)})
	case 2:
		return string([]byte{nd.ByteOf(plain), nd.ByteOf(plain), nd.ByteOf(plain)})
	case 3:
		return string([]byte{nd.ByteOf(plain)}) + nd.OneOf(`\"`, `\\`, `\n`, `\t`, `\a`, `\x41`, `\101`, `\u00e9`, `\U0001F600`) + string([]byte{nd.ByteOf(plain)})
	}
	return string([]byte{nd.ByteOf(plain)}) + nd.OneOf("é", "я", "日", "😀", "\u00a0", "\u2028", "\ufeff", "\ufffd") + string([]byte{nd.ByteOf(plain)})
}

func stringLit() lit {
	s := content()
	return lit{`"` + s + `"`, &gql.StringTyp{Val: s}}
}

func boolLit() lit {
	s := nd.OneOf("true", "up", "false", "down", "TRUE", "False")
	return lit{s, &gql.BooleanTyp{Val: s == "true" || s == "up" || s == "TRUE"}}
}

const letter = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
const wordch = letter + digit + "_"

// name is an identifier that is no keyword (it starts with z or Z or _).
func name() string {
	switch nd.Choice(3) {
	case 0:
		return string([]byte{nd.ByteOf("zZ_")})
	case 1:
		return string([]byte{nd.ByteOf("zZ_"), nd.ByteOf(wordch), nd.ByteOf(wordch)})
	}
	return nd.OneOf("speed", "Tracker", "inx", "orb", "and1", "notes", "setx", "whenever", "mods", "remx", "ranges", "timex", "dates", "points", "lines", "eqx")
}

func refLit() lit {
	n := name()
	return lit{"@" + n, &gql.Ref{ID: n}}
}

// selName is a selector, with its node; props tells whether it may carry
// properties.
func selLit(props bool) lit {
	n := name()
	t := n
	sel := &gql.Selector{Ident: strings.ToLower(n), Wildcard: true}
	switch nd.Choice(5) {
	case 0:
	case 1:
		t += nd.OneOf("{}", "{*}", "{ * }", "{*, *}")
	case 2:
		c := content()
		sel.Args = map[string]struct{}{c: {}}
		sel.Wildcard = false
		t += `{"` + c + `"}`
	case 3:
		a := string([]byte{nd.ByteOf("ABab01"), nd.ByteOf(wordch)})
		b := string([]byte{nd.ByteOf("ABab01"), nd.ByteOf(wordch), 'x'})
		c := string([]byte{nd.ByteOf("Yy")})
		sel.Args = map[string]struct{}{a: {}, b: {}, c: {}}
		sel.Wildcard = false
		t += `{"` + a + `", "` + b + `","` + c + `"}`
	case 4:
		a := string([]byte{nd.ByteOf("ABab01"), nd.ByteOf(wordch)})
		sel.Args = map[string]struct{}{a: {}}
		if nd.Bool() {
			t += `{*, "` + a + `"}`
		} else {
			t += `{"` + a + `",*}`
		}
	}
	if props {
		switch nd.Choice(4) {
		case 1:
			s, v := digs(1)
			t += ":" + s + "km"
			sel.Props = []gql.Expr{&gql.DistanceTyp{Val: float64(v), U: gql.Kilometer}}
		case 2:
			s, v := digs(1)
			r, w := digs(2)
			t += ":" + s + "h, " + r + "%"
			sel.Props = []gql.Expr{&gql.DurationTyp{Val: time.Duration(v) * time.Hour}, &gql.PercentTyp{Val: float64(w)}}
		case 3:
			s, v := digs(1)
			t += ` : time[10:` + s + `0 .. 11:00 pm] , "q" ,true`
			nd.Assume(v < 6)
			sel.Props = []gql.Expr{&gql.Range{Low: &gql.TimeTyp{Hours: 10, Minutes: v * 10}, High: &gql.TimeTyp{Hours: 11, U: gql.PM}}, &gql.StringTyp{Val: "q"}, &gql.BooleanTyp{Val: true}}
		}
	}
	return lit{t, sel}
}

// num2 is a two-digit field in [lo, hi], written with one or two digits.
func field(lo, hi int) (string, int) {
	var s string
	var v int
	if nd.Bool() {
		s, v = digs(2)
	} else {
		s, v = digs(1)
	}
	nd.Assume(v >= lo && v <= hi)
	return s, v
}

func dateItem() lit {
	y, yv := digs(4)
	nd.Assume(yv >= 2022 && yv <= 2200)
	m, mv := field(1, 12)
	d, dv := field(1, 31)
	return lit{y + "-" + m + "-" + d, &gql.DateTyp{Year: yv, Month: mv, Day: dv}}
}

func timeItem() lit {
	h, hv := field(0, 24)
	m, mv := field(0, 59)
	t := &gql.TimeTyp{Hours: hv, Minutes: mv}
	s := h + ":" + m
	if nd.Bool() {
		c, cv := field(0, 59)
		s += ":" + c
		t.Seconds = cv
	}
	switch nd.Choice(3) {
	case 1:
		t.U = gql.AM
		s += nd.OneOf("am", "AM", "Am", "aM", " am", " AM")
	case 2:
		t.U = gql.PM
		s += nd.OneOf("pm", "PM", "Pm", "pM", " pm", " PM")
	}
	return lit{s, t}
}

var dayNames = []string{"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}
var monthNames = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}

// anyCase is s with every letter in arbitrary case.
func anyCase(s string) string {
	b := make([]byte, len(s))
	for i := range b {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z':
			b[i] = nd.ByteOf(string([]byte{c, c - 32}))
		case c >= 'A' && c <= 'Z':
			b[i] = nd.ByteOf(string([]byte{c, c + 32}))
		default:
			b[i] = c
		}
	}
	return string(b)
}

func weekdayItem() lit {
	i := nd.Choice(len(dayNames))
	return lit{anyCase(dayNames[i]), &gql.WeekdayTyp{Val: i}}
}

func monthItem() lit {
	i := nd.Choice(len(monthNames))
	return lit{anyCase(monthNames[i]), &gql.MonthTyp{Val: i + 1}}
}

// calItem draws an item of a calendar kind; short ones keep the number of cases
// down where the item itself is not the subject.
func calItem(kind int) lit {
	switch kind {
	case 0:
		return dateItem()
	case 1:
		return timeItem()
	case 2:
		return weekdayItem()
	}
	return monthItem()
}

func shortCalItem(kind int) lit {
	switch kind {
	case 0:
		m, mv := digs(1)
		nd.Assume(mv > 0)
		return lit{"2030-0" + m + "-1" + m, &gql.DateTyp{Year: 2030, Month: mv, Day: 10 + mv}}
	case 1:
		m, mv := digs(1)
		return lit{"0" + m + ":4" + m, &gql.TimeTyp{Hours: mv, Minutes: 40 + mv}}
	case 2:
		s := nd.OneOf(dayNames...)
		for i, n := range dayNames {
			if s == n {
				return lit{s, &gql.WeekdayTyp{Val: i}}
			}
		}
	}
	s := nd.OneOf(monthNames...)
	for i, n := range monthNames {
		if s == n {
			return lit{s, &gql.MonthTyp{Val: i + 1}}
		}
	}
	return lit{}
}

var calWords = []string{"date", "time", "weekday", "month"}
var calKinds = []gql.Token{gql.DATE, gql.TIME, gql.WEEKDAY, gql.MONTH}

// calLit is a calendar literal: one item, a list or a range.
func calLit(kind int, item func(int) lit) lit {
	w := calWords[kind]
	switch nd.Choice(4) {
	case 0:
		a := item(kind)
		return lit{w + "[" + a.text + "]", a.node}
	case 1:
		a, b := item(kind), item(kind)
		return lit{w + "[" + a.text + ", " + b.text + "]", &gql.ArrayTyp{Kind: calKinds[kind], List: []gql.Expr{a.node, b.node}}}
	case 2:
		a, b, c := shortCalItem(kind), shortCalItem(kind), shortCalItem(kind)
		return lit{w + "[" + a.text + "," + b.text + "," + c.text + "]", &gql.ArrayTyp{Kind: calKinds[kind], List: []gql.Expr{a.node, b.node, c.node}}}
	}
	a, b := item(kind), item(kind)
	return lit{w + "[" + a.text + " .. " + b.text + "]", &gql.Range{Low: a.node, High: b.node}}
}

// coord is a coordinate: integer or decimal, optionally negative.
func coord() (string, float64) {
	var s string
	var f float64
	switch nd.Choice(3) {
	case 0:
		s, _, f = number(1, 1)
	case 1:
		s, _, f = number(2, -1)
	case 2:
		s, _, f = number(3, 4)
	}
	if nd.Bool() {
		return "-" + s, -f
	}
	return s, f
}

// shortCoord is a coordinate with fewer cases.
func shortCoord() (string, float64) {
	if nd.Bool() {
		s, _, f := number(1, 1)
		return "-" + s, -f
	}
	s, _, f := number(2, -1)
	return s, f
}

// coords supplies n coordinates: one of them, at an arbitrary place, is
// arbitrary, the others are distinct and of either sign.
func coords(n int, c func() (string, float64)) func() (string, float64) {
	focus := -1
	if n > 0 {
		focus = nd.Choice(n)
	}
	i := -1
	return func() (string, float64) {
		i++
		if i == focus {
			return c()
		}
		switch i % 5 {
		case 0:
			return strconv.Itoa(20 + i), float64(20 + i)
		case 1:
			return "-" + strconv.Itoa(30+i), -float64(30 + i)
		case 2:
			return "-" + strconv.Itoa(40+i) + ".5", -float64(40+i) - 0.5
		case 3:
			return strconv.Itoa(50+i) + ".25", float64(50+i) + 0.25
		}
		return "0", 0
	}
}

// smallDist is a distance with fewer cases.
func smallDist() lit {
	s, v := digs(1)
	if nd.Bool() {
		return lit{s + nd.OneOf("km", "Km"), &gql.DistanceTyp{Val: float64(v), U: gql.Kilometer}}
	}
	return lit{s + ".5" + nd.OneOf("M", "rm"), nil}.dist(float64(v*10+5)/10, gql.Meter)
}

func (l lit) dist(v float64, u gql.Unit) lit {
	l.node = &gql.DistanceTyp{Val: v, U: u}
	return l
}

func position(c func() (string, float64)) (string, [2]float64) {
	a, x := c()
	b, y := c()
	return "[" + a + ", " + b + "]", [2]float64{x, y}
}

func path(n int, c func() (string, float64)) (string, [][2]float64) {
	s := "["
	var p [][2]float64
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ", "
		}
		t, q := position(c)
		s += t
		p = append(p, q)
	}
	return s + "]", p
}

func pointLit(c func() (string, float64), radius bool) lit {
	s, p := position(c)
	g := &gql.GeometryPointTyp{Val: p}
	s = "point" + s
	if radius {
		d := smallDist()
		s += ":" + d.text
		g.Radius = d.node.(*gql.DistanceTyp)
	}
	return lit{s, g}
}

func lineLit(n int, c func() (string, float64), margin bool) lit {
	s, p := path(n, c)
	g := &gql.GeometryLineTyp{Val: p}
	s = "line" + s
	if margin {
		d := smallDist()
		s += " : " + d.text
		g.Margin = d.node.(*gql.DistanceTyp)
	}
	return lit{s, g}
}

func polygonLit(c func() (string, float64), sizes ...int) lit {
	s := "polygon["
	g := &gql.GeometryPolygonTyp{}
	for i, n := range sizes {
		if i > 0 {
			s += ", "
		}
		t, p := path(n, c)
		s += t
		g.Val = append(g.Val, p)
	}
	return lit{s + "]", g}
}

func multiLit(kind gql.Token, ms ...lit) lit {
	w := "multipoint"
	switch kind {
	case gql.GEOMETRY_MULTILINE:
		w = "multiline"
	case gql.GEOMETRY_MULTIPOLYGON:
		w = "multipolygon"
	}
	s := w + "["
	g := &gql.GeometryMultiObjectTyp{Kind: kind}
	for i, m := range ms {
		if i > 0 {
			s += ", "
		}
		s += m.text
		g.Val = append(g.Val, m.node)
	}
	return lit{s + "]", g}
}

func collectionLit(ms ...lit) lit {
	s := "collection["
	g := &gql.GeometryCollectionTyp{}
	for i, m := range ms {
		if i > 0 {
			s += ", "
		}
		s += m.text
		g.Objects = append(g.Objects, m.node)
	}
	return lit{s + "]", g}
}

// geomLit is a geometry of every kind.
func geomLit() lit {
	c := func(n int) func() (string, float64) { return coords(n, shortCoord) }
	switch nd.Choice(13) {
	case 0:
		return pointLit(coords(2, coord), false)
	case 1:
		return pointLit(c(2), true)
	case 2:
		return lineLit(2, coords(4, coord), false)
	case 3:
		n := 1 + nd.Choice(3)
		return lineLit(n, c(2*n), true)
	case 4:
		return polygonLit(coords(6, coord), 3)
	case 5:
		return polygonLit(c(10), 3, 2)
	case 6:
		return polygonLit(c(8), 1, 2, 1)
	case 7:
		k := c(4)
		return multiLit(gql.GEOMETRY_MULTIPOINT, pointLit(k, true), pointLit(k, false))
	case 8:
		k := c(6)
		return multiLit(gql.GEOMETRY_MULTILINE, lineLit(2, k, true), lineLit(1, k, false))
	case 9:
		k := c(10)
		return multiLit(gql.GEOMETRY_MULTIPOLYGON, polygonLit(k, 2), polygonLit(k, 1, 2))
	case 10:
		k := c(2)
		return multiLit(gql.GEOMETRY_MULTIPOINT, pointLit(k, true))
	case 11:
		k := c(8)
		return collectionLit(pointLit(k, false), multiLit(gql.GEOMETRY_MULTIPOINT, pointLit(k, true)), lineLit(2, k, false))
	}
	k := c(8)
	return collectionLit(polygonLit(k, 1), multiLit(gql.GEOMETRY_MULTILINE, lineLit(1, k, false)), multiLit(gql.GEOMETRY_MULTIPOLYGON, polygonLit(k, 1)), pointLit(k, true))
}

func wildLit() lit { return lit{"*", &gql.WildcardTyp{}} }

// tiny is an operand of kind k with few cases.
func tiny(k int) lit {
	s, v := digs(1)
	f := float64(v)
	switch k {
	case 0:
		return lit{"-" + s, &gql.IntTyp{Val: -v}}
	case 1:
		return lit{s + ".5", &gql.FloatTyp{Val: float64(v*10+5) / 10}}
	case 2:
		return lit{s + "%", &gql.PercentTyp{Val: f}}
	case 3:
		return lit{s + "Kph", &gql.SpeedTyp{Val: f, U: gql.Kph}}
	case 4:
		return lit{s + "M", &gql.DistanceTyp{Val: f, U: gql.Meter}}
	case 5:
		return lit{s + "Bar", &gql.PressureTyp{Val: f, U: gql.Bar}}
	case 6:
		return lit{"-" + s + "C", &gql.TemperatureTyp{Val: f, U: gql.Celsius, Vec: gql.Minus}}
	case 7:
		return lit{s + "h", &gql.DurationTyp{Val: time.Duration(v) * time.Hour}}
	case 8:
		return lit{`"s` + s + `"`, &gql.StringTyp{Val: "s" + s}}
	case 9:
		return lit{"down", &gql.BooleanTyp{}}
	case 10:
		return lit{"@R" + s, &gql.Ref{ID: "R" + s}}
	case 11:
		return lit{"sel" + s + `{"D"}`, &gql.Selector{Ident: "sel" + s, Args: map[string]struct{}{"D": {}}}}
	case 12:
		return lit{"date[2030-10-1" + s + "]", &gql.DateTyp{Year: 2030, Month: 10, Day: 10 + v}}
	case 13:
		return lit{"point[" + s + ", -1.5]", &gql.GeometryPointTyp{Val: [2]float64{f, -1.5}}}
	case 14:
		return wildLit()
	case 15:
		return lit{s + " .. 7", &gql.Range{Low: &gql.IntTyp{Val: v}, High: &gql.IntTyp{Val: 7}}}
	case 16:
		return lit{"[" + s + ", 2]", &gql.ArrayTyp{Kind: gql.INT, List: []gql.Expr{&gql.IntTyp{Val: v}, &gql.IntTyp{Val: 2}}}}
	case 17:
		return lit{"[@a, @b" + s + "]", &gql.ArrayTyp{Kind: gql.IDENT, List: []gql.Expr{&gql.Ref{ID: "a"}, &gql.Ref{ID: "b" + s}}}}
	case 18:
		return lit{"sel:" + s + "M", &gql.Selector{Ident: "sel", Wildcard: true, Props: []gql.Expr{&gql.DistanceTyp{Val: f, U: gql.Meter}}}}
	case 19:
		return lit{"(a + " + s + ")", &gql.ParenExpr{Expr: &gql.BinaryExpr{Op: gql.ADD, Left: &gql.Selector{Ident: "a", Wildcard: true}, Right: &gql.IntTyp{Val: v}}}}
	}
	return lit{"weekday[Sun]", &gql.WeekdayTyp{}}
}

const nTiny = 21

// many is an operand of many parts.
func many(k int) lit {
	s, v := digs(1)
	f := float64(v)
	h, km := &gql.DurationTyp{Val: time.Duration(v) * time.Hour}, &gql.DistanceTyp{Val: f, U: gql.Kilometer}
	q := &gql.StringTyp{Val: "q" + s}
	set := func(l ...string) map[string]struct{} {
		m := map[string]struct{}{}
		for _, x := range l {
			m[x] = struct{}{}
		}
		return m
	}
	p := func(x float64) *gql.GeometryPointTyp { return &gql.GeometryPointTyp{Val: [2]float64{f, x}} }
	switch k {
	case 0:
		return lit{"sel:" + s + "h, " + s + "km", &gql.Selector{Ident: "sel", Wildcard: true, Props: []gql.Expr{h, km}}}
	case 1:
		return lit{`sel{"B", "A` + s + `"} : "q` + s + `", ` + s + "km," + s + "h", &gql.Selector{Ident: "sel", Args: set("B", "A"+s), Props: []gql.Expr{q, km, h}}}
	case 2:
		return lit{`[x, y{"D` + s + `", "C"}, z]`, &gql.ArrayTyp{Kind: gql.SELECTOR, List: []gql.Expr{&gql.Selector{Ident: "x", Wildcard: true}, &gql.Selector{Ident: "y", Args: set("D"+s, "C")}, &gql.Selector{Ident: "z", Wildcard: true}}}}
	case 3:
		return lit{"[1 .. " + s + ", -" + s + " .. 2]", &gql.ArrayTyp{Kind: gql.RANGE, List: []gql.Expr{&gql.Range{Low: &gql.IntTyp{Val: 1}, High: &gql.IntTyp{Val: v}}, &gql.Range{Low: &gql.IntTyp{Val: -v}, High: &gql.IntTyp{Val: 2}}}}}
	case 4:
		return lit{`["q` + s + `", "q", "Q"]`, &gql.ArrayTyp{Kind: gql.STRING, List: []gql.Expr{q, &gql.StringTyp{Val: "q"}, &gql.StringTyp{Val: "Q"}}}}
	case 5:
		sel := &gql.Selector{Ident: "sel", Wildcard: true, Props: []gql.Expr{h, &gql.IntTyp{Val: 2}}}
		return lit{"(sel:" + s + "h,2)", &gql.ParenExpr{Expr: sel}}
	case 6:
		return lit{"([" + s + "km, " + s + "km])", &gql.ParenExpr{Expr: &gql.ArrayTyp{Kind: gql.DISTANCE, List: []gql.Expr{km, &gql.DistanceTyp{Val: f, U: gql.Kilometer}}}}}
	case 7:
		return lit{"((" + s + "h .. 2h))", &gql.ParenExpr{Expr: &gql.ParenExpr{Expr: &gql.Range{Low: h, High: &gql.DurationTyp{Val: 2 * time.Hour}}}}}
	case 8:
		return lit{"weekday[Sun, Sat, Mon]", &gql.ArrayTyp{Kind: gql.WEEKDAY, List: []gql.Expr{&gql.WeekdayTyp{}, &gql.WeekdayTyp{Val: 6}, &gql.WeekdayTyp{Val: 1}}}}
	case 9:
		return lit{"time[10:1" + s + " .. 11:00 pm]", &gql.Range{Low: &gql.TimeTyp{Hours: 10, Minutes: 10 + v}, High: &gql.TimeTyp{Hours: 11, U: gql.PM}}}
	case 10:
		return lit{"polygon[[[" + s + ", 1], [2, 3]], [[4, 5]]]", &gql.GeometryPolygonTyp{Val: [][][2]float64{{{f, 1}, {2, 3}}, {{4, 5}}}}}
	case 11:
		a := p(1)
		a.Radius = km
		return lit{"multipoint[point[" + s + ", 1]:" + s + "km, point[" + s + ", 2]]", &gql.GeometryMultiObjectTyp{Kind: gql.GEOMETRY_MULTIPOINT, Val: []gql.Expr{a, p(2)}}}
	case 12:
		return lit{"line[[" + s + ", 1], [2, 3]]:" + s + "km", &gql.GeometryLineTyp{Val: [][2]float64{{f, 1}, {2, 3}}, Margin: km}}
	case 13:
		return lit{"collection[point[" + s + ", 1], line[[2, " + s + "]], point[" + s + ", 2]]", &gql.GeometryCollectionTyp{Objects: []gql.Expr{p(1), &gql.GeometryLineTyp{Val: [][2]float64{{2, f}}}, p(2)}}}
	case 14:
		in := &gql.ParenExpr{Expr: &gql.BinaryExpr{Op: gql.MUL, Left: &gql.IntTyp{Val: v}, Right: &gql.IntTyp{Val: 3}}}
		return lit{"(1 - (" + s + " * 3))", &gql.ParenExpr{Expr: &gql.BinaryExpr{Op: gql.SUB, Left: &gql.IntTyp{Val: 1}, Right: in}}}
	}
	return lit{"@a" + s + " .. @b", &gql.Range{Low: &gql.Ref{ID: "a" + s}, High: &gql.Ref{ID: "b"}}}
}

const nMany = 16

// small is an operand of any kind with few cases, alone or of many parts.
func small() lit {
	k := nd.Choice(nTiny + nMany)
	if k < nTiny {
		return tiny(k)
	}
	return many(k - nTiny)
}

// rangeLit is a range between literals of various kinds.
func rangeLit() lit {
	var a, b lit
	switch nd.Choice(6) {
	case 0:
		a, b = intLitN(2), intLitN(1)
	case 1:
		a, b = floatLit(), tiny(0)
	case 2:
		a, b = tempLit(), tiny(6)
	case 3:
		a, b = tiny(4), tempLit()
	case 4:
		// any two kinds (a range cannot be the end of a range)
		a, b = tiny(endKind()), tiny(endKind())
	case 5:
		a, b = stringLit(), refLit()
	}
	return lit{a.text + nd.OneOf(" .. ", " range ") + b.text, &gql.Range{Low: a.node, High: b.node}}
}

// endKind is a kind of range end. A selector with properties would take the
// range for its property, and two calendar values of one kind are written
// inside one pair of brackets.
func endKind() int {
	k := nd.Choice(nTiny)
	nd.Assume(k != 15 && k != 18)
	return k
}

// arrayLit is a list of two or three elements of one kind.
func arrayLit() lit {
	var f func() lit
	k := gql.INT
	switch nd.Choice(11) {
	case 0:
		f, k = func() lit { return intLitN(2) }, gql.INT
	case 1:
		f, k = func() lit { s, _, v := number(1, 2); return lit{s, &gql.FloatTyp{Val: v}} }, gql.FLOAT
	case 2:
		f, k = func() lit { s, v := digs(2); return lit{s + "%", &gql.PercentTyp{Val: float64(v)}} }, gql.PERCENT
	case 3:
		f, k = func() lit { s, v := digs(2); return lit{s + "kph", &gql.SpeedTyp{Val: float64(v), U: gql.Kph}} }, gql.SPEED
	case 4:
		f, k = func() lit { s, v := digs(2); return lit{s + "M", &gql.DistanceTyp{Val: float64(v), U: gql.Meter}} }, gql.DISTANCE
	case 5:
		f, k = func() lit {
			s, v := digs(2)
			return lit{"-" + s + "C", &gql.TemperatureTyp{Val: float64(v), U: gql.Celsius, Vec: gql.Minus}}
		}, gql.TEMPERATURE
	case 6:
		f, k = func() lit { s, v := digs(1); return lit{s + "psi", &gql.PressureTyp{Val: float64(v), U: gql.Psi}} }, gql.PRESSURE
	case 7:
		f, k = func() lit {
			s, v := digs(2)
			return lit{s + "m", &gql.DurationTyp{Val: time.Duration(v) * time.Minute}}
		}, gql.DURATION
	case 8:
		f, k = func() lit {
			s := string([]byte{nd.ByteOf(wordch), nd.ByteOf(wordch)})
			return lit{`"` + s + `"`, &gql.StringTyp{Val: s}}
		}, gql.STRING
	case 9:
		f, k = func() lit {
			s := string([]byte{nd.ByteOf("zZ"), nd.ByteOf(wordch)})
			return lit{s, &gql.Selector{Ident: strings.ToLower(s), Wildcard: true}}
		}, gql.SELECTOR
	case 10:
		f, k = func() lit {
			s, v := digs(1)
			return lit{"-" + s + " .. " + s, &gql.Range{Low: &gql.IntTyp{Val: -v}, High: &gql.IntTyp{Val: v}}}
		}, gql.RANGE
	}
	a := &gql.ArrayTyp{Kind: k}
	t := "["
	n := 1 + nd.Choice(3)
	for i := 0; i < n; i++ {
		if i > 0 {
			t += nd.OneOf(", ", ",")
		}
		x := f()
		t += x.text
		a.List = append(a.List, x.node)
	}
	return lit{t + "]", a}
}

// refArrayLit is a list of references (not assignable to a variable).
func refArrayLit() lit {
	a, b := refLit(), refLit()
	return lit{"[" + a.text + ", " + b.text + "]", &gql.ArrayTyp{Kind: gql.IDENT, List: []gql.Expr{a.node, b.node}}}
}

const nLits = 18

// anyLit draws an operand of kind k.
func anyLit(k int) lit {
	switch k {
	case 0:
		return intLit()
	case 1:
		return floatLit()
	case 2:
		return percentLit()
	case 3:
		return speedLit()
	case 4:
		return distLit()
	case 5:
		return pressureLit()
	case 6:
		return tempLit()
	case 7:
		return durLit()
	case 8:
		return stringLit()
	case 9:
		return boolLit()
	case 10:
		return refLit()
	case 11:
		return selLit(true)
	case 12:
		return calLit(nd.Choice(4), shortCalItem)
	case 13:
		return geomLit()
	case 14:
		return wildLit()
	case 15:
		return rangeLit()
	case 16:
		return arrayLit()
	}
	return refArrayLit()
}
