package main

import (
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// layoutRules are rules as tokens that may be separated by any white space;
// together they contain every keyword.
var layoutRules = [][]string{
	strings.Fields("trigger set v = 1 ; w = [ 1 , - 2 ] ; u = 1.5 .. 2 ; x = true when a == @v"),
	strings.Fields("trigger set p = point [ 1.5 , - 2 ] : 3M q = line [ [ 1 , 2 ] , [ 3 , 4 ] ] : 2M when g nearby @p or g not nearby @ q"),
	strings.Fields("when ( a + k * 2 ) >= - 3 and not_x not in [ \"x\" , \"y\" ] or d != up or e == down"),
	strings.Fields("when s { * , \"a\" } : 1Km , 20s in 10Kph range 40Kph repeat 3 every 10s reset after 30s"),
	strings.Fields("when t in time [ 9:01AM .. 12:12PM ] and d in date [ 2030-10-12 , 2031-11-13 ] and w in weekday [ Sun , Fri ] or n in month [ Jan .. Feb ]"),
	strings.Fields("when g intersects polygon [ [ [ 1 , 2 ] , [ 3 , 4 ] ] , [ [ 5 , 6 ] ] ] reset after 30s"),
	strings.Fields("trigger when collection [ multipoint [ point [ 1 , 2 ] : 3M ] , multiline [ line [ [ 1 , 2 ] ] ] , multipolygon [ polygon [ [ [ 1 , 2 ] ] ] ] ] not intersects b repeat 3"),
	strings.Fields("when ( ( a rem 2 mod c - @r / 10% ) < - 3F ) eq ( b <= 7.5Psi ) and a not eq false or b > + 5"),
}

// keywordList are all words with a meaning of their own.
var keywordList = []string{"trigger", "set", "when", "repeat", "reset", "rem", "mod", "or", "and", "eq", "not", "in", "range", "nearby", "intersects",
	"time", "date", "weekday", "month", "point", "multipoint", "line", "multiline", "polygon", "multipolygon", "collection", "true", "false", "up", "down"}

func isKeyword(s string) bool {
	s = lower(s)
	for _, k := range keywordList {
		if s == k {
			return true
		}
	}
	return false
}

// caseless tells whether the case of a token does not matter.
func caseless(t string) bool {
	return isKeyword(t) || t == "every" || t == "after"
}

// gaps joins tokens by one space except for the gap before token i.
func gaps(ts []string, i int, gap string) string {
	s := ""
	for j, t := range ts {
		switch {
		case j == i:
			s += gap
		case j > 0:
			s += " "
		}
		s += t
	}
	if i == len(ts) {
		s += gap
	}
	return s
}

func sameAs(ts []string, text string) {
	nd.Observe(text)
	a, b := parse(join(ts)), parse(text)
	if a != nil && b != nil {
		sameRule(a, b, "another spelling is another rule")
	}
}

// P12_Case: one or all keywords of a rule in any letter case.
func P12_Case() {
	ts := layoutRules[nd.Choice(len(layoutRules))]
	k := nd.Choice(len(ts) + 1)
	l := append([]string{}, ts...)
	if k == len(ts) {
		for i, t := range ts {
			if caseless(t) {
				l[i] = strings.ToUpper(t)
			}
		}
	} else {
		nd.Assume(caseless(ts[k]))
		l[k] = anyCase(ts[k])
	}
	sameAs(ts, join(l))
}

// P12_Token: the tokenizer takes keywords in any letter case.
func P12_Token() {
	k := keywordList[nd.Choice(len(keywordList))]
	scan := func(s string) (gql.Token, string, gql.Token) {
		t := gql.NewTokenizer(strings.NewReader(s))
		tok, l := t.Scan()
		end, _ := t.Scan()
		nd.Assert(t.Err() == nil, "a keyword is a lexical error")
		return tok, l, end
	}
	post := ""
	if k == "not" {
		post = " " + []string{"in", "eq", "nearby", "intersects"}[nd.Choice(4)]
	}
	a, x, e := scan(k + post)
	w := anyCase(k + post)
	nd.Observe(w)
	b, y, f := scan(w)
	nd.Assert(a != gql.ILLEGAL && a != gql.SELECTOR, "a keyword has no token")
	nd.Assert(a == b && x == y, "the letter case of a keyword matters")
	nd.Assert(e == gql.EOF && f == gql.EOF, "a keyword is more than a token")
}

// layout is white space.
func layout() string {
	const ws = " \t\n\r"
	n := 7
	if nd.Tier() > 0 {
		n = 8
	}
	switch nd.Choice(n) {
	case 0:
		return string([]byte{nd.ByteOf(ws)})
	case 1:
		return string([]byte{nd.ByteOf(ws), nd.ByteOf(ws)})
	case 2:
		return string([]byte{nd.ByteOf(ws), nd.ByteOf(ws), nd.ByteOf(ws)})
	case 3:
		return " /* " + string([]byte{nd.ByteOf("a\"[*/ \n")}) + " */ "
	case 4:
		return " // " + string([]byte{nd.ByteOf("a\"[*/ \t")}) + "\n"
	case 5:
		return []string{" /**/", "\n// a\n\n", "\t/* when\n*/", " // \r\n", " /***/ /* / */"}[nd.Choice(5)]
	case 6:
		return strings.Repeat([]string{" ", "\n", "\r\n"}[nd.Choice(3)], []int{5, 16, 64}[nd.Choice(3)])
	}
	return strings.Repeat([]string{" ", "\t", "\n"}[nd.Choice(3)], []int{5, 16, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049}[nd.Choice(13)])
}

// P12_Layout: white space at one place.
func P12_Layout() {
	ts := layoutRules[nd.Choice(len(layoutRules))]
	i := nd.Choice(len(ts) + 1)
	sameAs(ts, gaps(ts, i, layout()))
}

// P12_Comment: comments with arbitrary text at one place.
func P12_Comment() {
	ts := layoutRules[nd.Choice(len(layoutRules))]
	n := 3 + nd.Tier()
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.Byte(1, 127)
	}
	s := string(b)
	if nd.Choice(3) == 0 {
		s = []string{"é\r", "\r", "日 \\", "when \"", "'", "`", "/* //", "\"\r", "\x01\x7f", "\u2028", "*", "; when b"}[nd.Choice(12)]
	}
	c := ""
	if nd.Bool() {
		nd.Assume(!strings.Contains(s, "\n"))
		c = "//" + s + " b)\n"
	} else {
		nd.Assume(!strings.Contains(s+"*", "*/"))
		c = "/*" + s + "*/"
	}
	i := []int{0, 1, len(ts) / 2, len(ts)}[nd.Choice(4)]
	sameAs(ts, gaps(ts, i, " "+c+" "))
}

// P12_Everywhere: the same white space at all places, after every sign,
// separator and bracket, or before these.
func P12_Everywhere() {
	ts := layoutRules[nd.Choice(len(layoutRules))]
	g := layout()
	mode := nd.Choice(3)
	s := ""
	for i, t := range ts {
		switch {
		case i == 0:
		case mode == 0, mode == 1 && punct(ts[i-1]), mode == 2 && punct(t):
			s += g
		default:
			s += " "
		}
		s += t
	}
	sameAs(ts, s)
}

func punct(t string) bool {
	return len(t) == 1 && strings.ContainsAny(t, "()[]{},;:=<>+-*/") || t == "==" || t == "!=" || t == ">=" || t == "<="
}

// P12_Tight: no white space at one place or wherever it is not needed.
func P12_Tight() {
	ts := layoutRules[nd.Choice(len(layoutRules))]
	n := len(ts)
	k := nd.Choice(n)
	s := ""
	for i, t := range ts {
		free := i > 0 && (punct(ts[i-1]) || punct(t))
		if i > 0 && !(free && (k == 0 || k == i)) {
			s += " "
		}
		s += t
	}
	sameAs(ts, s)
}

var wordCtxs = []ctx{
	{"when ", " == 1", func(t *gql.Trigger) gql.Expr { return bin(t.When).Left }},
	{"when a <", "", func(t *gql.Trigger) gql.Expr { return bin(t.When).Right }},
	{"when a in [", ",b]", func(t *gql.Trigger) gql.Expr { return elem(bin(t.When).Right, 0) }},
	{"when (", ") and b", func(t *gql.Trigger) gql.Expr { return paren(bin(t.When).Left) }},
	{"when s:b,", "", func(t *gql.Trigger) gql.Expr { return prop(t.When, 1) }},
	{"trigger set v=", ";when a", func(t *gql.Trigger) gql.Expr { return variable(t, 0) }},
}

// word asserts that a word is a selector wherever an operand may stand.
func word(w string) {
	c := wordCtxs[nd.Choice(len(wordCtxs))]
	captured(c, lit{w, &gql.Selector{Ident: lower(w), Wildcard: true}}, "a longer word is not the word it is")
}

// P12_Word: a keyword with one more character before or behind it.
func P12_Word() {
	k := anyFirst(keywordList[nd.Choice(len(keywordList))])
	c := string([]byte{nd.ByteOf(wordch)})
	if nd.Bool() {
		word(k + c)
		return
	}
	nd.Assume(c[0] < '0' || c[0] > '9')
	word(c + k)
}

// anyFirst is a word, its first letter in any case.
func anyFirst(s string) string { return anyCase(s[:1]) + s[1:] }

// P12_Words: two keywords joined, directly or by an underscore.
func P12_Words() {
	a, b := keywordList[nd.Choice(len(keywordList))], keywordList[nd.Choice(len(keywordList))]
	w := a + []string{"", "_", "é"}[nd.Choice(3)] + b
	if nd.Bool() {
		w = strings.ToUpper(a) + b
	}
	captured(wordCtxs[1], lit{w, &gql.Selector{Ident: lower(w), Wildcard: true}}, "a longer word is not the word it is")
}

// P12_Letter: keywords beside letters and digits outside ASCII.
func P12_Letter() {
	k := keywordList[nd.Choice(len(keywordList))]
	l := []string{"é", "É", "я", "日", "ǅ", "ª", "𝒜", "٣"}[nd.Choice(8)]
	if nd.Bool() {
		word(k + l)
		return
	}
	nd.Assume(l != "٣")
	word(l + k)
}

// P12_Like: words with a letter that looks like one of a keyword.
func P12_Like() {
	k := keywordList[nd.Choice(len(keywordList))]
	i := nd.Choice(len(k))
	var like []string
	switch k[i] {
	case 's':
		like = []string{"\u017f", "\u0455"}
	case 'i':
		like = []string{"\u0131", "\u0456"}
	case 'a':
		like = []string{"\u0430", "\u00e0", "\u00aa"}
	case 'o':
		like = []string{"\u043e", "\u03bf", "\u00ba"}
	case 'e':
		like = []string{"\u0435", "\u00e9"}
	}
	if k[i] >= 'a' && k[i] <= 'z' {
		like = append(like, string(rune(0xff41+int(k[i]-'a'))), string(rune(0x1d41a+int(k[i]-'a'))))
	}
	if len(like) == 0 {
		return
	}
	c := like[nd.Choice(len(like))]
	k = anyFirst(k[:i] + "x" + k[i+1:])
	word(k[:i] + c + k[i+1:])
}

// P12_Longer: a keyword lengthened where a rule needs it.
func P12_Longer() {
	ts := layoutRules[nd.Choice(len(layoutRules))]
	k := nd.Choice(len(ts))
	nd.Assume(caseless(ts[k]))
	switch ts[k] {
	case "true", "false", "up", "down":
		nd.Assume(false)
	}
	l := append([]string{}, ts...)
	switch nd.Choice(3) {
	case 0:
		l[k] += string([]byte{nd.ByteOf(wordch)})
	case 1:
		c := nd.ByteOf(letter + "_")
		l[k] = string([]byte{c}) + l[k]
	case 2:
		l[k] = l[k][:len(l[k])-1]
		nd.Assume(l[k] != "o") // the rest may be a word of its own
	}
	rejected(join(l), "another word than the keyword is taken for the keyword")
}

// P12_Long: long words are taken whole.
func P12_Long() {
	n := nd.Choice(24) + 1
	if n > 8 {
		n = []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025}[n-9]
	}
	k := []string{"in", "when", "multipolygon", "true", "a"}[nd.Choice(5)]
	c := nd.ByteOf(wordch)
	w := k + strings.Repeat("x", n) + string([]byte{c})
	word(w)
}

// P12_LongBuffer (thorough): words that cross the end of the read buffer.
func P12_LongBuffer() {
	if nd.Tier() == 0 {
		return
	}
	k := anyFirst([]string{"in", "intersects", "nearby", "and", "inx"}[nd.Choice(5)])
	p := 1010 + nd.Choice(16)
	src := "when a" + strings.Repeat(" ", p) + k + " b"
	nd.Observe(src)
	if lower(k) == "inx" {
		rejected(src, "another word than the keyword is taken for the keyword")
		return
	}
	t := parse(src)
	if t != nil {
		sameRule(parse("when a "+lower(k)+" b"), t, "another spelling is another rule")
	}
}
