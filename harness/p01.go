package main

import (
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// total is the property of P01 for one text.
func total(s string) {
	nd.Observe(s)
	st, err := gql.Parse(s)
	if err != nil {
		nd.Assert(st == nil, "an error comes with a statement")
		nd.Assert(err.Error() != "", "the error has a text")
	} else {
		t, ok := st.(*gql.Trigger)
		nd.Assert(ok && t != nil, "no statement and no error")
		if ok && t != nil {
			nd.Assert(t.When != nil, "accepted without a condition")
		}
	}
}

func bytesOf(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.Byte(0, 255)
	}
	return string(b)
}

// starts lead into every construct of the grammar.
var starts = []string{
	"",
	"trigger ",
	"trigger set",
	"trigger set v",
	"set v = ",
	"trigger set v = ",
	"trigger set v = 1;",
	"trigger set v = 1 w",
	"trigger set v = @",
	"trigger set v = 1 when ",
	"when",
	"when ",
	"when -",
	"when a",
	"when a ",
	"when a=",
	"when a !",
	"when a not ",
	"when a == ",
	"when a == 1",
	"when a == -1.",
	"when a == 10.5",
	"when a == 1h",
	"when a == 1_",
	"when a in 1 .",
	"when a in 1 .. ",
	"when a in 1 .. -2",
	"when a == \"",
	"when a == \"x\\",
	"when a == \"\\u00",
	"when a == @",
	"when a == @b",
	"when a{",
	"when a{*",
	"when a{\"x\"",
	"when a{\"x\",",
	"when a{}:",
	"when a:1km",
	"when a:1km,",
	"when (",
	"when (a",
	"when (a)",
	"when ((a and b",
	"when [",
	"when [1",
	"when [1,",
	"when [1 .. 2",
	"when [\"x\":",
	"when date",
	"when date[",
	"when date[2030",
	"when date[2030-1-",
	"when date[2030-10-02",
	"when date[2030-10-02,",
	"when date[2030-10-02 .. ",
	"when time[",
	"when time[1",
	"when time[10:11",
	"when time[10:11:",
	"when time[10:11pm",
	"when time[10:11,",
	"when time[10:11 .. 12:1",
	"when weekday[",
	"when weekday[Su",
	"when weekday[Sun,",
	"when weekday[Sun .. ",
	"when month[J",
	"when month[Jan",
	"when month[Jan .. Dec",
	"when point",
	"when point[",
	"when point[1",
	"when point[1,-",
	"when point[1, 2",
	"when point[1, 2]",
	"when point[1, 2]:",
	"when point[1, 2]:1",
	"when line[",
	"when line[[1,2",
	"when line[[1,2]",
	"when line[[1,2],",
	"when line[[1,2]]:",
	"when polygon[",
	"when polygon[[",
	"when polygon[[[1,2],[3,4]]",
	"when polygon[[[1,2],[3,4]],",
	"when multipoint[",
	"when multipoint[point[1,2]",
	"when multipoint[point[1,2]:1km,",
	"when multiline[line[[1,2]]",
	"when multipolygon[polygon[[[1,2]]]",
	"when collection[",
	"when collection[point[1,2]",
	"when collection[multipoint[point[1,2]],",
	"when a repeat",
	"when a repeat ",
	"when a repeat 3 ",
	"when a repeat 3 every ",
	"when a repeat 3 every 1",
	"when a repeat 3 every 10s",
	"when a reset",
	"when a reset after ",
	"when a reset after 1h",
	"when a repeat 3 every 10s reset after 1h",
}

// anyBytes is n arbitrary bytes; in the quick tier only the last may be any
// byte, the others are ASCII or one of a few others.
func anyBytes(n int) string {
	b := make([]byte, n)
	for i := range b {
		if nd.Tier() > 0 || i == n-1 {
			b[i] = nd.Byte(0, 255)
		} else {
			b[i] = nd.ByteOf("\x00\t\n\r !\"#$%&'()*+,-./0159:;<=>?@AEFXZ[\\]^_`aehmnoprstwz{|}~\x7f\x80\xc3\xef\xff")
		}
	}
	return string(b)
}

// P01_Start: every construct followed by arbitrary bytes.
func P01_Start() { total(starts[nd.Choice(len(starts))] + anyBytes(2)) }

// P01_Start1: every construct followed by one arbitrary byte and a further
// token.
func P01_Start1() {
	s := starts[nd.Choice(len(starts))] + bytesOf(1)
	total(s + nd.OneOf("", "1", " 1", "a", " a", "]", ")", "}", "\"", "\"x\"", ".", "..", " when", ",", ":", ";", "[", "(", "{", "=", "-", "@", " and b", "é"))
}

// P01_Bytes: arbitrary texts.
func P01_Bytes() {
	n := 2
	if nd.Tier() > 0 {
		n = 3
	}
	total(bytesOf(nd.Choice(n + 1)))
}

// P01_Middle: two arbitrary bytes anywhere in a rule.
func P01_Middle() {
	r := rules[nd.Choice(len(rules))]
	i := nd.Choice(len(r) + 1)
	j := i + nd.Choice(2)
	if j > len(r) {
		j = len(r)
	}
	n := 1
	if nd.Tier() > 0 {
		n = 2
	}
	total(r[:i] + bytesOf(n) + r[j:])
}

// rules cover every construct.
var rules = []string{
	"trigger set v = multipoint[point[1.1, 1]:400M, point[-2, 2]:5Km]; u = 1 .. 2 when a mod 2 == 0",
	"when c intersects @v and p/q*100 > 20% or not_x not in [1, -2]",
	"when t in time[9:01AM .. 12:12PM] and d == date[2030-10-02, 2031-1-3]",
	"when w in weekday[Sun .. Fri] or m eq month[Jan,Feb]",
	"when (s{\"a\", *}:1km,2h in 10Kph .. 40Kph) repeat 3 every 10s reset after 1h5m",
	"when g nearby line[[1, 2], [-3.5, 4]]:5M and h == polygon[[[1, 2]], [[3, 4]]]",
	"trigger set s = \"x\\\"y\" k = [\"u\", \"v\"] when true != false and -5.5C <= +3F",
	"when collection[point[1, 2], multiline[line[[1, 2]]], multipolygon[polygon[[[1, 2]]]]] == 1 mod 2bar",
}

// P01_Cut: every rule cut off anywhere, also inside a character.
func P01_Cut() {
	r := rules[nd.Choice(len(rules))]
	total(r[:nd.Choice(len(r)+1)] + nd.OneOf("", "\xe2", "é", "\x00", "\\", "\"", "/*", "\n", "(", ")", "]", "}", ";", ",", ":", "-", "1", "a", "@", ".", "#", "not"))
}

// tokenized is the property of P01 for the tokenizer: the end is reached after
// at most one token per byte.
func tokenized(s string) {
	nd.Observe(s)
	t := gql.NewTokenizer(strings.NewReader(s))
	for i := 0; i <= len(s); i++ {
		tok, _ := t.Scan()
		if tok == gql.EOF {
			tok, _ = t.Scan()
			nd.Assert(tok == gql.EOF, "a token follows the end of input")
			return
		}
	}
	bad("the tokenizer does not reach the end of input")
}

// P01_Tokens: the tokenizer on arbitrary texts.
func P01_Tokens() {
	n := 2
	if nd.Tier() > 0 {
		n = 3
	}
	pre := nd.OneOf("", "not ", "\"", "1.", "a", "..", "=", ".", "!", "'", "`", "/", "0x", "1e", "\xef\xbb", "\\")
	tokenized(pre + anyBytes(nd.Choice(n+1)))
}

// P01_Long: tokens longer than the internal buffer, of every kind.
func P01_Long() {
	n := []int{1015, 1019, 1021, 1022, 1023, 1024, 1025, 2047, 2049}[nd.Choice(9)]
	if nd.Tier() > 0 {
		n = 1010 + nd.Choice(20)
		if nd.Bool() {
			n += 1024
		}
	}
	c := nd.OneOf("a", "1", " ", "\"", ".", "(", "é", "-", "\n")
	pre := nd.OneOf("", "when ", "when \"")
	total(pre + strings.Repeat(c, n) + nd.OneOf("", "1", "a", "\"", ".", " ", ")", "é", "\xff", "=", "\x00"))
}

// P01_Deep: every way to nest expressions, to the bound.
func P01_Deep() {
	max := 60
	if nd.Tier() > 0 {
		max = 300
	}
	open := []string{"(", "[", "a:", "1 .. ", "a+(", "a{\"x\"}:[", "collection[", "not ", "-", "when "}[nd.Choice(10)]
	n := 1 + nd.Choice(max)
	total("when " + strings.Repeat(open, n) + "1" + nd.OneOf("", ")", "]", " "))
}

// P01_Endless: how deep the calls go has a bound that no input exceeds, so no
// rule exhausts the stack.
func P01_Endless() {
	open := []string{"(", "[", "a:", "1 .. ", "a{\"x\"}:[", "not ", "-", "a+(", "collection[", "collection[point[1, 2], ", "multipoint[", "polygon[", "time[", "@v:", "[[1], "}[nd.Choice(15)]
	if !nd.Symbolic() {
		st, err := gql.Parse("when " + strings.Repeat(open, 5000000) + "1")
		nd.Assert((err == nil) != (st == nil), "no statement and no error, or both")
		return
	}
	_ = nd.Depth()
	s := "when " + strings.Repeat(open, 10500) + "1"
	_ = nd.Depth()
	_, _ = gql.Parse(s)
	d := nd.Depth()
	s = "when " + strings.Repeat(open, 12500) + "1"
	_ = nd.Depth()
	_, _ = gql.Parse(s)
	nd.Assert(nd.Depth() <= d, "nesting has no bound")
}

// P01_Huge: numbers of any size in every place.
func P01_Huge() {
	max := 22
	if nd.Tier() > 0 {
		max = 60
	}
	n := 1 + nd.Choice(max)
	d := strings.Repeat([]string{"9", "0", "1"}[nd.Choice(3)], n)
	if nd.Bool() {
		d = []string{"1", "-1", "0.", "-0.", "1."}[nd.Choice(5)] + d
	}
	p := [][2]string{
		{"when a == ", ""}, {"when a == 1 repeat ", ""}, {"when a repeat ", " every 1s"}, {"when a repeat 3 every ", "s"}, {"when a repeat 3 every ", "h"},
		{"when a reset after ", "m"}, {"when a reset after ", "ms"}, {"when point[", ", 1]"}, {"when line[[1, ", "]]:3M"}, {"when point[1, 2]:", "Km"},
		{"when polygon[[[", ", 2]]]"}, {"when date[", "-1-1]"}, {"when date[2030-", "-1]"}, {"when date[2030-1-", "]"}, {"when time[", ":1]"}, {"when time[1:", "pm]"}, {"when time[1:1:", "]"},
		{"when a in [", ", 1]"}, {"when a in ", " .. 1"}, {"when a in 1 .. ", ""}, {"when a:", " > 1"}, {"when a:1, ", "km"}, {"trigger set v = ", "; when @v"},
		{"when a == ", "C"}, {"when a == ", "Psi"}, {"when a == ", "%"}, {"when a == ", "Mph"}, {"when a rem ", ""}, {"when a / ", ""}, {"when @v", ""}, {"when a", " "},
	}
	k := p[nd.Choice(len(p))]
	total(k[0] + d + k[1])
}
