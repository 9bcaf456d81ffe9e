package main

import (
	"errors"
	"strconv"
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// marked are rules with the start of every node marked, in the order of a walk:
// ^ where its text starts, ~ for nodes whose start is not fixed (ranges).
var marked = []string{
	"trigger set ^v = ^multipoint[^point[1.1, 1]:^400M, ^point[-2, 2]:^5Km]; ^u = ~^1 .. ^2 when ^a mod ^2 == ^0",
	"when ^c intersects ^@v and ^p/^q*^100 > ^20% or ^not_x not in ^[^1, ^-2 , ^+3]",
	"when ^t in ^^^time[9:01AM .. 12:12PM] and ^d == ^^^date[2030-10-02, 2031-1-3] or ^time[10:11:12] == ^weekday[Sun]",
	"when ^w in ^^^weekday[Sun .. Fri] or ^m eq ^^^month[Jan,Feb] and ^month[Mar] != ^date[ 2030-01-01 ]",
	"when ^(^s{\"a\", *}:^1km,^2h in ~^10Kph .. ^40Kph) repeat ^3 every ^10s reset after ^1h5m",
	"when ^g nearby ^line[[1, 2], [-3.5, 4]]:^5M and ^h == ^polygon[[[1, 2]], [[3, 4]]] or ^x in ~^-1 .. ^- 2",
	"trigger set ^s = ^\"x\\\"é\" ^k = ^[^\"u\", ^\"v\"] when ^true != ^false and ^-5.5C <= ^+3F",
	"when ^collection[^point[1, 2], ^multiline[^line[[1, 2]]], ^multipolygon[^polygon[[[1, 2]]]]] == ^- 1 mod ^2bar",
	"when ^* == ^- 5 C and ^+ 7.5 < ^1.25 psi or ^(^(^a)) != ^1h",
	"when ^\"世界\" == ^é{} and ^(^(^a - ^-1) * ^- 1.5) > ^@ ref",
	"when ^[~^-1 .. ^2, ~^3 .. ^-4] == ^[^@a, ^@ b] and ^[^a:^1km] == ^[^- 1C, ^+ 2C]",
	"trigger set ^a = ^-1; ^b=^+2.5 ^k = ^true ; when ^x repeat ^5 reset after ^1.5h",
	"when ^s:^- 1, ^b:~^1 .. ^2, ^point[1, 2] : ^5 km",
}

// positions removes the marks and returns the text and the places, -1 if open.
func positions(s string) (string, []int) {
	var b strings.Builder
	var l []int
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '^':
			l = append(l, b.Len())
		case '~':
			l = append(l, -1)
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String(), l
}

func placed(m string) {
	src, want := positions(m)
	nd.Observe(src)
	t := parse(src)
	if t == nil {
		return
	}
	i := 0
	for _, e := range all(t) {
		switch x := e.(type) {
		case *gql.Trigger, *gql.BinaryExpr:
			continue
		case *gql.Assign:
			nd.Assert(i < len(want) && int(x.Pos()) == want[i], "start of an assignment")
			continue
		}
		if i >= len(want) {
			bad("more nodes than written")
			return
		}
		nd.Assert(want[i] < 0 || int(e.Pos()) == want[i], "start of a node")
		i++
	}
	nd.Assert(i == len(want), "fewer nodes than written")
}

// P15_Rule: the start of every node, for any layout.
func P15_Rule() {
	m := marked[nd.Choice(len(marked))]
	ws := []string{"  ", "\n", "\t\t\t", " /*é*/ ", "\r\n\r\n", " //世\n", strings.Repeat(" ", 1030)}
	parts := strings.Split(m, " ")
	i := nd.Choice(len(parts))
	w := ws[nd.Choice(len(ws))]
	if i == 0 {
		m = w + m
	} else {
		m = strings.Join(parts[:i], " ") + w + strings.Join(parts[i:], " ")
	}
	placed(m)
}

// P15_Between: white space next to a bracket or separator.
func P15_Between() {
	m := marked[nd.Choice(len(marked))]
	var at []int
	in := false
	for i := 1; i < len(m); i++ {
		in = in != (m[i-1] == '"')
		digits := strings.ContainsRune("0123456789", rune(m[i-1])) || i+1 < len(m) && strings.ContainsRune("0123456789", rune(m[i+1]))
		if in || m[i-1] == '^' || m[i-1] == '~' || m[i] == ':' && digits || m[i-1] == ':' && i > 1 && strings.ContainsRune("0123456789", rune(m[i-2])) {
			continue
		}
		if strings.ContainsRune("()[]{},:;", rune(m[i])) || strings.ContainsRune("()[]{},:;", rune(m[i-1])) {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return
	}
	i := at[nd.Choice(len(at))]
	w := []string{" ", "\n\n", " /*é*/\t"}[nd.Choice(3)]
	placed(m[:i] + w + m[i:])
}

// P15_Pad: any number of characters before, also around the buffer length.
func P15_Pad() {
	m := marked[nd.Choice(len(marked))]
	n := nd.Choice(70)
	if nd.Tier() > 0 {
		n = nd.Choice(140)
	}
	pad := []string{" ", "\n"}[nd.Choice(2)]
	mark := ""
	if n%7 < 3 && nd.Bool() {
		mark = bom
	}
	switch {
	case n < 5:
		n = []int{0, 1, 2, 3, 7}[n]
	default:
		n += 955
	}
	placed(mark + strings.Repeat(pad, n) + m)
}

// P15_Far: the start of every node far behind the beginning of the text.
func P15_Far() {
	n := []int{4097, 8200, 17000, 33000, 66000}[nd.Choice(5)]
	m := marked[nd.Choice(len(marked))]
	placed([]string{strings.Repeat(" ", n), "//" + strings.Repeat("x", n) + "\n", strings.Repeat("\n", n)}[nd.Choice(3)] + m)
}

// P15_Literal: the start of every literal in every spelling.
func P15_Literal() {
	var l lit
	k := nd.Choice(14)
	if nd.Tier() > 0 {
		l = anyLit([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}[k])
	} else {
		l = tiny([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}[k])
	}
	c := place(l)
	src := c.pre + l.text + c.post
	nd.Observe(src)
	t := parse(src)
	if t == nil {
		return
	}
	e := c.get(t)
	nd.Assert(e != nil && int(e.Pos()) == len(c.pre), "start of a literal")
}

// P15_Sign: the sign belongs to the number behind it, and to no other.
func P15_Sign() {
	num := []string{"1", "2.5", "3C", "4.5 F"}
	neg := func() string {
		s := nd.OneOf("", "-", "+", "- ", "+  ", "-\n")
		return "^" + s + num[nd.Choice(4)]
	}
	a, b := neg(), neg()
	m := ""
	switch nd.Choice(6) {
	case 0:
		m = "when " + a + " == " + b
	case 1:
		m = "when ~" + a + " .. " + b
	case 2:
		m = "when ^(" + a + ") - " + b
	case 3:
		m = "when ^s:" + a + ", " + b
	case 4:
		m = "trigger set ^v = " + a + "; ^w = " + b + " when ^a"
	case 5:
		m = "when " + a + " == ^\"x\" and ^[" + b + "] == ^@r"
	}
	placed(m)
}

// quoted is the property of P15 for one rejected text.
func quoted(s string) {
	nd.Observe(s)
	_, err := gql.Parse(s)
	if err == nil {
		return
	}
	var e *gql.Error
	for x := err; x != nil && e == nil; x = errors.Unwrap(x) {
		e, _ = x.(*gql.Error)
	}
	if e == nil {
		bad("the error is no syntax error")
		return
	}
	nd.Assert(e.Offset >= 0 && e.Offset <= len(s), "the offset of the error is outside of the input")
	if e.Offset >= 0 && e.Offset <= len(s) {
		nd.Assert(e.Msg == s[:e.Offset], "the error quotes other text than that before its offset")
	}
	text := err.Error()
	nd.Assert(strings.Contains(text, strconv.Itoa(e.Offset)) && strings.Contains(text, strings.TrimSpace(e.Msg)), "the error text leaves out offset or quote")
}

// P15_Error: arbitrary bytes after every beginning.
func P15_Error() {
	if nd.Tier() > 0 {
		quoted(starts[nd.Choice(len(starts))] + anyBytes(2))
		return
	}
	quoted(starts[nd.Choice(len(starts))] + bytesOf(1) + nd.OneOf("", " a", "\n1"))
}

// P15_Cut: rules cut off and edited.
func P15_Cut() {
	if nd.Bool() {
		r := rules[nd.Choice(len(rules))]
		quoted([]string{"", bom}[nd.Choice(2)] + r[:nd.Choice(len(r)+1)] + nd.OneOf("", "é", "\xff", "\x00", " )", "]", "\"", " 1 1"))
		return
	}
	ts, _ := edit(canonical[nd.Choice(len(canonical))], []string{"(", "]", "-", "1", "abc", "\"x", "é", "\x00", "@"})
	quoted(join(ts))
}

// P15_Long: errors after long texts.
func P15_Long() {
	n := 1015 + nd.Choice(20)
	switch nd.Choice(3) {
	case 1:
		n += 1024
	case 2:
		n = []int{4100, 9000}[nd.Choice(2)]
	}
	s := []string{"when a ", "when \"", "when a == ", "trigger set "}[nd.Choice(4)]
	s += strings.Repeat([]string{" ", "x", "é", "\n"}[nd.Choice(4)], n)
	if nd.Bool() {
		s = bom + s
	}
	quoted(s + nd.OneOf("", ")", " )", "\"", "\xff", "= -", "é"))
}
