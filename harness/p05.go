package main

import (
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// decides asserts that the operand is accepted exactly when want is not nil,
// and then parses to it.
func decides(c ctx, text string, want gql.Expr, msg string) {
	src := c.pre + text + c.post
	nd.Observe(src)
	st, err := gql.Parse(src)
	if want == nil {
		nd.Assert(err != nil && st == nil, msg+": an invalid literal is accepted")
		return
	}
	nd.Assert(err == nil && st != nil, msg+": a valid literal is rejected")
	if err == nil && st != nil {
		same(want, c.get(st.(*gql.Trigger)), msg)
	}
}

// date is a written date with any digits, and its node if it is valid.
func date(ny, nm, ndy int) (string, gql.Expr) {
	y, yv := digs(ny)
	m, mv := digs(nm)
	d, dv := digs(ndy)
	s := y + "-" + m + "-" + d
	if yv < 2022 || yv > 2200 || mv < 1 || mv > 12 || dv < 1 || dv > 31 {
		return s, nil
	}
	return s, &gql.DateTyp{Year: yv, Month: mv, Day: dv}
}

// P05_Date: every combination of digits in a date.
func P05_Date() {
	s, w := date(3+nd.Choice(3), 1+nd.Choice(3), 1+nd.Choice(3))
	decides(ctxs[nd.Choice(3)], "date["+s+"]", w, "date")
}

// clock is a written time with any digits, and its node if it is valid.
func clock(nh, nm, ns int) (string, gql.Expr) {
	h, hv := digs(nh)
	m, mv := digs(nm)
	t := &gql.TimeTyp{Hours: hv, Minutes: mv}
	s := h + ":" + m
	if ns > 0 {
		c, cv := digs(ns)
		s += ":" + c
		t.Seconds = cv
	}
	switch nd.Choice(3) {
	case 1:
		t.U = gql.AM
		s += nd.OneOf("am", "AM", "Am", "aM", " am", " AM", "\tAm")
	case 2:
		t.U = gql.PM
		s += nd.OneOf("pm", "PM", "Pm", "pM", " pm", " PM", "\nPm")
	}
	if hv > 24 || mv > 59 || t.Seconds > 59 {
		return s, nil
	}
	return s, t
}

// P05_Time: every combination of digits in a time.
func P05_Time() {
	s, w := clock(1+nd.Choice(3), 1+nd.Choice(3), nd.Choice(4))
	decides(ctxs[nd.Choice(3)], "time["+s+"]", w, "time")
}

// P05_Name: an arbitrary word of three letters as weekday and as month.
func P05_Name() {
	n := 3
	if nd.Choice(3) == 0 {
		n = 2 + nd.Choice(3)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.ByteOf(letter)
	}
	s := string(b)
	l := strings.ToLower(s)
	if nd.Bool() {
		var w gql.Expr
		for i, d := range dayNames {
			if l == strings.ToLower(d) {
				w = &gql.WeekdayTyp{Val: i}
			}
		}
		decides(ctxs[nd.Choice(3)], "weekday["+s+"]", w, "weekday")
		return
	}
	var w gql.Expr
	for i, d := range monthNames {
		if l == strings.ToLower(d) {
			w = &gql.MonthTyp{Val: i + 1}
		}
	}
	decides(ctxs[nd.Choice(3)], "month["+s+"]", w, "month")
}

// P05_Marker: an arbitrary word after a time is accepted only if it is AM or PM.
func P05_Marker() {
	n := 1 + nd.Choice(3)
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.ByteOf(letter)
	}
	m := string(b)
	var w gql.Expr
	switch strings.ToLower(m) {
	case "am":
		w = &gql.TimeTyp{Hours: 9, Minutes: 5, U: gql.AM}
	case "pm":
		w = &gql.TimeTyp{Hours: 9, Minutes: 5, U: gql.PM}
	}
	decides(ctxs[0], "time[9:05"+m+"]", w, "am/pm")
}

// P05_Item: every item in every construct that takes it.
func P05_Item() {
	l := calLit(nd.Choice(4), shortCalItem)
	i := nd.Choice(6)
	c := ctxs[i]
	if i == 5 {
		c = setCtxs[nd.Choice(len(setCtxs))]
	}
	captured(c, l, "calendar literal")
}

// P05_Full: items with all their fields in a list and a range.
func P05_Full() {
	k := nd.Choice(2)
	x := calItem(k)
	y := shortCalItem(k)
	if nd.Bool() {
		x, y = y, x
	}
	w := calWords[k]
	if nd.Bool() {
		captured(ctxs[0], lit{w + "[" + x.text + "," + y.text + "]", &gql.ArrayTyp{Kind: calKinds[k], List: []gql.Expr{x.node, y.node}}}, "calendar list")
	} else {
		captured(ctxs[0], lit{w + "[" + x.text + " .. " + y.text + "]", &gql.Range{Low: x.node, High: y.node}}, "calendar range")
	}
}

var calSamples = [][]lit{
	{{"2030-1-5", &gql.DateTyp{Year: 2030, Month: 1, Day: 5}}, {"2022-12-31", &gql.DateTyp{Year: 2022, Month: 12, Day: 31}}, {"2200-02-01", &gql.DateTyp{Year: 2200, Month: 2, Day: 1}}},
	{{"9:05", &gql.TimeTyp{Hours: 9, Minutes: 5}}, {"23:59:58", &gql.TimeTyp{Hours: 23, Minutes: 59, Seconds: 58}}, {"1:00pm", &gql.TimeTyp{Hours: 1, U: gql.PM}}},
	{{"Sun", &gql.WeekdayTyp{}}, {"wed", &gql.WeekdayTyp{Val: 3}}, {"SAT", &gql.WeekdayTyp{Val: 6}}},
	{{"Jan", &gql.MonthTyp{Val: 1}}, {"may", &gql.MonthTyp{Val: 5}}, {"DEC", &gql.MonthTyp{Val: 12}}},
}

// P05_Joined: items joined by arbitrary separators are accepted only as a list
// (all commas) or as a range of two.
func P05_Joined() {
	k := nd.Choice(4)
	max := 3
	if nd.Tier() > 0 {
		max = 5
	}
	n := 1 + nd.Choice(max)
	start := nd.Choice(3)
	s := calWords[k] + "["
	commas := true
	rng := n == 2
	var list []gql.Expr
	for i := 0; i < n; i++ {
		if i > 0 {
			switch nd.Choice(5) {
			case 0:
				s += nd.OneOf(",", ", ", " , ")
				rng = false
			case 1:
				s += nd.OneOf(" .. ", " range ")
				commas = false
			case 2:
				s += " "
				commas, rng = false, false
			case 3:
				s += nd.OneOf(" ; ", " : ", " - ", " . ", " ( ", " = ", " @ ")
				commas, rng = false, false
			case 4:
				s += nd.OneOf(" .. , ", " and ", ",,")
				commas, rng = false, false
			}
		}
		x := calSamples[k][(i+start)%3]
		s += x.text
		list = append(list, x.node)
	}
	var w gql.Expr
	switch {
	case n == 1:
		w = list[0]
	case commas:
		w = &gql.ArrayTyp{Kind: calKinds[k], List: list}
	case rng:
		w = &gql.Range{Low: list[0], High: list[1]}
	}
	end := nd.OneOf("]", ",]", " ..]", "", ")", "}", "]]", " ")
	if end != "]" {
		w = nil
	}
	decides(ctxs[0], s+end, w, "calendar items")
}

// P05_Kind: an item of one kind inside the brackets of another is rejected.
func P05_Kind() {
	k, j := nd.Choice(4), nd.Choice(4)
	nd.Assume(k != j)
	x := calSamples[j][nd.Choice(3)].text
	y := calSamples[k][0].text
	w := calWords[k]
	s := []string{w + "[" + x + "]", w + "[" + y + "," + x + "]", w + "[" + x + "," + y + "]", w + "[" + y + " .. " + x + "]"}[nd.Choice(4)]
	decides(ctxs[nd.Choice(2)], s, nil, "calendar kinds")
}

// P05_Edit: a calendar literal with one token removed, replaced or added is
// rejected unless the edit gives another valid literal.
func P05_Edit() {
	base := [][]string{
		{"date", "[", "2030", "-", "10", "-", "11", "]"},
		{"time", "[", "10", ":", "11", ":", "12", "pm", "]"},
		{"time", "[", "10", ":", "11", "]"},
		{"weekday", "[", "Sun", "]"},
		{"month", "[", "Jan", "]"},
		{"date", "[", "2030", "-", "10", "-", "11", "..", "2031", "-", "1", "-", "2", "]"},
		{"time", "[", "10", ":", "11", ",", "12", ":", "13", "am", "]"},
	}[nd.Choice(7)]
	ts, at := edit(base, []string{"-", ":", ",", "..", "[", "]", "10", "pm", "Sun", "1.5", "-1", "*", "(", ";", "a", "\"x\"", "+", "/"})
	// an operator after the literal makes a longer expression
	nd.Assume(at > 0 && (at < len(base) || len(ts) <= len(base)))
	decides(ctxs[0], join(ts), calendar(ts), "calendar literal")
}

// edit removes, replaces, doubles or inserts one token.
func edit(base []string, vocab []string) ([]string, int) {
	i := nd.Choice(len(base) + 1)
	switch nd.Choice(4) {
	case 0:
		nd.Assume(i < len(base))
		return append(append([]string{}, base[:i]...), base[i+1:]...), i
	case 1:
		nd.Assume(i < len(base))
		t := append([]string{}, base...)
		t[i] = vocab[nd.Choice(len(vocab))]
		return t, i
	case 2:
		nd.Assume(i+1 < len(base))
		t := append([]string{}, base...)
		t[i], t[i+1] = t[i+1], t[i]
		return t, i
	}
	t := append([]string{}, base[:i]...)
	t = append(t, vocab[nd.Choice(len(vocab))])
	return append(t, base[i:]...), i
}

func join(ts []string) string { return strings.Join(ts, " ") }

// calendar recognises a calendar literal in a list of tokens.
func calendar(ts []string) gql.Expr {
	if len(ts) < 4 || ts[1] != "[" {
		return nil
	}
	k := -1
	for i, w := range calWords {
		if ts[0] == w {
			k = i
		}
	}
	if k < 0 {
		return nil
	}
	var items []gql.Expr
	sep := ""
	i := 2
	num := func() int {
		if i >= len(ts) || ts[i] == "" {
			return -1
		}
		v := 0
		for _, c := range []byte(ts[i]) {
			if c < '0' || c > '9' {
				return -1
			}
			v = v*10 + int(c-'0')
		}
		i++
		return v
	}
	is := func(s string) bool {
		if i < len(ts) && ts[i] == s {
			i++
			return true
		}
		return false
	}
	for {
		switch k {
		case 0:
			y := num()
			a := is("-")
			m := num()
			b := is("-")
			d := num()
			if !a || !b || y < 2022 || y > 2200 || m < 1 || m > 12 || d < 1 || d > 31 {
				return nil
			}
			items = append(items, &gql.DateTyp{Year: y, Month: m, Day: d})
		case 1:
			h := num()
			a := is(":")
			m := num()
			c := 0
			if is(":") {
				c = num()
			}
			if !a || h < 0 || h > 24 || m < 0 || m > 59 || c < 0 || c > 59 {
				return nil
			}
			t := &gql.TimeTyp{Hours: h, Minutes: m, Seconds: c}
			if is("pm") {
				t.U = gql.PM
			} else if is("am") {
				t.U = gql.AM
			}
			items = append(items, t)
		default:
			var x gql.Expr
			names := dayNames
			if k == 3 {
				names = monthNames
			}
			for j, n := range names {
				if i < len(ts) && ts[i] == n {
					if k == 2 {
						x = &gql.WeekdayTyp{Val: j}
					} else {
						x = &gql.MonthTyp{Val: j + 1}
					}
				}
			}
			if x == nil {
				return nil
			}
			i++
			items = append(items, x)
		}
		if is("]") {
			break
		}
		switch {
		case is(",") && sep != "..":
			sep = ","
		case is("..") && sep == "":
			sep = ".."
		default:
			return nil
		}
	}
	if i != len(ts) {
		return nil
	}
	switch sep {
	case ",":
		return &gql.ArrayTyp{Kind: calKinds[k], List: items}
	case "..":
		return &gql.Range{Low: items[0], High: items[1]}
	}
	return items[0]
}
