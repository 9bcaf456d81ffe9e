package main

import (
	"strings"
	"unicode"
	"unicode/utf8"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// vtok is a token of the documented vocabulary: its text, its kind, the text
// Scan reports for it, and whether its start is the tokenizer's offset.
type vtok struct {
	text string
	kind gql.Token
	lit  string
	one  bool
}

// vocabulary are the tokens with a fixed text.
var vocabulary = []vtok{
	{"Trigger", gql.TRIGGER, "trigger", true},
	{"WHEN", gql.WHEN, "when", true},
	{"set", gql.SET, "set", true},
	{"repeat", gql.REPEAT, "repeat", true},
	{"reset", gql.RESET, "reset", true},
	{"date", gql.DATE, "date", true},
	{"time", gql.TIME, "time", true},
	{"weekday", gql.WEEKDAY, "weekday", true},
	{"Month", gql.MONTH, "month", true},
	{"point", gql.GEOMETRY_POINT, "point", true},
	{"line", gql.GEOMETRY_LINE, "line", true},
	{"polygon", gql.GEOMETRY_POLYGON, "polygon", true},
	{"multipoint", gql.GEOMETRY_MULTIPOINT, "multipoint", true},
	{"MULTILINE", gql.GEOMETRY_MULTILINE, "multiline", true},
	{"multipolygon", gql.GEOMETRY_MULTIPOLYGON, "multipolygon", true},
	{"collection", gql.GEOMETRY_COLLECTION, "collection", true},
	{"true", gql.BOOLEAN, "true", true},
	{"False", gql.BOOLEAN, "false", true},
	{"up", gql.BOOLEAN, "up", true},
	{"down", gql.BOOLEAN, "down", true},
	{"or", gql.OR, "or", true},
	{"AND", gql.AND, "and", true},
	{"eq", gql.EQL, "eq", true},
	{"in", gql.IN, "in", true},
	{"Nearby", gql.NEARBY, "nearby", true},
	{"intersects", gql.INTERSECTS, "intersects", true},
	{"rem", gql.REM, "rem", true},
	{"mod", gql.REM, "mod", true},
	{"range", gql.RANGE, "range", true},
	{"not eq", gql.NOT_EQ, "not eq", false},
	{"NOT in", gql.NOT_IN, "not in", false},
	{"not\tNearby", gql.NOT_NEARBY, "not nearby", false},
	{"not intersects", gql.NOT_INTERSECTS, "not intersects", false},
	{"..", gql.RANGE, "range", false},
	{".", gql.PERIOD, ".", false},
	{"=", gql.ASSIGN, "=", false},
	{"==", gql.LEQL, "==", false},
	{"!=", gql.LNEQ, "!=", false},
	{"!", gql.ILLEGAL, "!", false},
	{">", gql.GTR, ">", false},
	{">=", gql.GEQ, ">=", false},
	{"<", gql.LSS, "<", false},
	{"<=", gql.LEQ, "<=", false},
	{"@", gql.IDENT, "@", true},
	{";", gql.SEMICOLON, ";", true},
	{",", gql.COMMA, ",", true},
	{":", gql.COLON, ":", true},
	{"(", gql.LPAREN, "(", true},
	{")", gql.RPAREN, ")", true},
	{"[", gql.LBRACK, "[", true},
	{"]", gql.RBRACK, "]", true},
	{"{", gql.LBRACE, "{", true},
	{"}", gql.RBRACE, "}", true},
	{"/", gql.QUO, "/", true},
	{"*", gql.MUL, "*", true},
	{"+", gql.ADD, "+", true},
	{"-", gql.SUB, "-", true},
	{"%", gql.ILLEGAL, "%", true},
}

// foreign are words and other characters from outside of ASCII.
var foreign = []vtok{
	{"É", gql.SELECTOR, "é", true},
	{"ЯZя", gql.SELECTOR, "яzя", true},
	{"zÀ٣", gql.SELECTOR, "zà٣", true},
	{"日本", gql.SELECTOR, "日本", true},
	{"Inß", gql.SELECTOR, "inß", true},
	{"𝒜1", gql.SELECTOR, "𝒜1", true},
	{"٣", gql.ILLEGAL, "٣", true},
	{"€", gql.ILLEGAL, "€", true},
	{"…", gql.ILLEGAL, "…", true},
	{"😀", gql.ILLEGAL, "😀", true},
	{"−", gql.ILLEGAL, "−", true},
	{"\u00a0", gql.ILLEGAL, "\u00a0", true},
	{"\"É\"", gql.STRING, "\"é\"", true},
}

// anyWord is a token, one of the vocabulary or a number, a string or a word
// with arbitrary characters.
func anyWord() vtok {
	k := nd.Choice(len(vocabulary) + 6)
	if k < len(vocabulary) {
		return vocabulary[k]
	}
	switch k - len(vocabulary) {
	case 0:
		d := string([]byte{nd.ByteOf("123456789"), nd.ByteOf("0123456789")})
		return vtok{d, gql.INT, d, true}
	case 1:
		d := string([]byte{nd.ByteOf("123456789"), '.', nd.ByteOf("0123456789")})
		d = d[nd.Choice(2):]
		return vtok{d, gql.FLOAT, d, true}
	case 2:
		d := `"` + string([]byte{nd.ByteOf(wordch + " .,/*=<[{")}) + `"`
		return vtok{d, gql.STRING, lower(d), true}
	case 3:
		d := string([]byte{nd.ByteOf("zZ_"), nd.ByteOf(wordch)})
		return vtok{d, gql.SELECTOR, lower(d), true}
	}
	if k == len(vocabulary)+4 {
		return foreign[nd.Choice(len(foreign))]
	}
	// a character that begins no token
	d := string([]byte{nd.ByteOf("#$&?\\^|~\x01\x7f")})
	return vtok{d, gql.ILLEGAL, d, true}
}

// apart tells whether two tokens keep apart without white space.
func apart(a, b vtok) bool {
	const single = "()[]{},;:@+-"
	is := func(w vtok) bool { return strings.Contains(single, w.text) }
	if is(a) {
		return true
	}
	switch a.kind {
	case gql.INT, gql.FLOAT, gql.STRING, gql.SELECTOR:
		return is(b) || b.kind == gql.STRING
	}
	return is(b)
}

// tokens asserts that the text is split into exactly these tokens.
func splits(src string, ws []vtok, starts []int) {
	nd.Observe(src)
	t := gql.NewTokenizer(strings.NewReader(src))
	for i, w := range ws {
		k, l := t.Scan()
		nd.Assert(k == w.kind, "kind of token")
		nd.Assert(l == w.lit, "text of token")
		if w.one {
			nd.Assert(int(t.Offset()) == starts[i], "offset of token")
			nd.Assert(t.TokenText() == w.text, "token text")
		}
	}
	for i := 0; i < 3; i++ {
		k, l := t.Scan()
		nd.Assert(k == gql.EOF && l == "", "the text has more tokens")
	}
	nd.Assert(t.Err() == nil && t.ErrorCount() == 0, "a lexical error in a text without one")
}

// P20_Text: any tokens in a row.
func P20_Text() {
	n := 2
	if nd.Tier() > 0 {
		n = 2 + nd.Choice(2)
	}
	src := []string{"", " \n"}[nd.Choice(2)]
	sep := []string{" ", "\n\t", "/* - */", ""}[nd.Choice(4)]
	var ws []vtok
	var starts []int
	for i := 0; i < n; i++ {
		var w vtok
		if i < 2 {
			w = anyWord()
		} else {
			w = vocabulary[[]int{0, 23, 24, 33, 34, 36, 37, 40, 44, 46, 53, 56}[nd.Choice(12)]]
		}
		if i > 0 {
			nd.Assume(sep != "" || apart(ws[i-1], w))
			// a comment after a quotient would begin one character earlier
			nd.Assume(sep != "/* - */" || ws[i-1].text != "/")
			src += sep
			// two-part operators may be written apart
			a := ws[i-1].text
			nd.Assume(w.text != "=" && w.text != "==" || a != "=" && a != "!" && a != ">" && a != "<")
			nd.Assume(w.text != "." && w.text != ".." || a != ".")
		}
		starts = append(starts, len(src))
		src += w.text
		ws = append(ws, w)
	}
	splits(src, ws, starts)
}

// P20_Not: "not" in front of any other token is no operator.
func P20_Not() {
	w := anyWord()
	src := nd.OneOf("not ", "NOT\n", "noT /**/") + w.text
	nd.Observe(src)
	t := gql.NewTokenizer(strings.NewReader(src))
	k, l := t.Scan()
	want := gql.ILLEGAL
	switch w.kind {
	case gql.EQL:
		want = gql.NOT_EQ
	case gql.IN:
		want = gql.NOT_IN
	case gql.NEARBY:
		want = gql.NOT_NEARBY
	case gql.INTERSECTS:
		want = gql.NOT_INTERSECTS
	}
	nd.Assert(k == want, "kind of token after not")
	if want != gql.ILLEGAL {
		nd.Assert(l == "not "+w.lit, "text of token after not")
		k, _ = t.Scan()
		nd.Assert(k == gql.EOF, "the text has more tokens")
	}
}

// P20_Byte: an arbitrary byte between two words.
func P20_Byte() {
	b := nd.Byte(0, 127)
	nd.Assume(b != '\'' && b != '`') // begin literals which the rule language does not have
	src := "zz " + string([]byte{b}) + " 77"
	nd.Observe(src)
	t := gql.NewTokenizer(strings.NewReader(src))
	k, l := t.Scan()
	nd.Assert(k == gql.SELECTOR && l == "zz", "kind of token")
	switch {
	case b == ' ' || b == '\t' || b == '\n' || b == '\r':
	case b == '"' || b == 0:
		// an unterminated string, or NUL, is an error
		for i := 0; i < 3; i++ {
			t.Scan()
		}
		nd.Assert(t.Err() != nil, "a lexical error is not reported")
		return
	default:
		want := gql.ILLEGAL
		for _, w := range vocabulary {
			if len(w.text) == 1 && w.text[0] == b {
				want = w.kind
			}
		}
		switch {
		case b >= '0' && b <= '9':
			want = gql.INT
		case b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_':
			want = gql.SELECTOR
		}
		k, l = t.Scan()
		nd.Assert(k == want, "kind of token")
		nd.Assert(l == lower(string([]byte{b})), "text of token")
	}
	k, l = t.Scan()
	nd.Assert(k == gql.INT && l == "77", "kind of token")
	k, _ = t.Scan()
	nd.Assert(k == gql.EOF, "the text has more tokens")
	nd.Assert(t.Err() == nil, "a lexical error in a text without one")
}

// P20_Rune: an arbitrary character outside of ASCII between two words, or next
// to one.
func P20_Rune() {
	lo, hi := byte(0x80), byte(0xbf)
	var c string
	switch nd.Choice(4) {
	case 0:
		c = string([]byte{nd.Byte(0xc2, 0xdf), nd.Byte(lo, hi)})
	case 1:
		l := []byte{0xe0, 0xe1, 0xe2, 0xe3, 0xea, 0xef}[nd.Choice(6)]
		if l == 0xe0 {
			lo = 0xa0
		}
		m := nd.Byte(lo, hi)
		if nd.Tier() == 0 && l != 0xe2 && l != 0xef {
			m = []byte{0xa0, 0x80, 0x81, 0x9c, 0xbf}[nd.Choice(5)]
			nd.Assume(m >= lo)
		}
		c = string([]byte{l, m, nd.Byte(0x80, hi)})
	case 2:
		c = string([]byte{0xf0, []byte{0x90, 0x9d, 0x9f, 0xa0}[nd.Choice(4)], []byte{0x80, 0x92, 0x98, 0xbf}[nd.Choice(4)], nd.Byte(lo, hi)})
	case 3:
		c = string([]byte{0xf4, 0x8f, 0xbf, nd.Byte(lo, hi)})
	}
	before, after := " ", " "
	switch nd.Choice(3) {
	case 1:
		before = ""
	case 2:
		after = ""
	}
	src := "zz" + before + c + after + "77"
	nd.Observe(src)
	r, _ := utf8.DecodeRuneInString(c)
	word := unicode.IsLetter(r)
	words := []vtok{{"zz", gql.SELECTOR, "zz", true}, {c, gql.ILLEGAL, lower(c), true}, {"77", gql.INT, "77", true}}
	starts := []int{0, 2 + len(before), 2 + len(before) + len(c) + len(after)}
	if word || before == "" && unicode.IsDigit(r) {
		w := vtok{c, gql.SELECTOR, lower(c), true}
		switch {
		case before == "":
			w.text, w.lit = "zz"+c, "zz"+lower(c)
			words, starts = []vtok{w, words[2]}, []int{0, starts[2]}
		case after == "":
			w.text, w.lit = c+"77", lower(c)+"77"
			words, starts = []vtok{words[0], w}, starts[:2]
		default:
			words[1] = w
		}
	}
	splits(src, words, starts)
}

// P20_Spelling: the canonical spelling of a kind scans to that kind.
func P20_Spelling() {
	k := gql.Token(nd.Int(-1, 120))
	s := gql.KeywordString(k)
	nd.Observe(s)
	if s == "" {
		return
	}
	nd.Cover("spelled")
	t := gql.NewTokenizer(strings.NewReader(s))
	x, l := t.Scan()
	nd.Assert(x == k, "a spelling scans to another kind")
	nd.Assert(l == s, "a spelling scans to another text")
	x, _ = t.Scan()
	nd.Assert(x == gql.EOF, "a spelling is more than a token")
}

// P20_Operators: every operator and symbol has a spelling, and its precedence
// is the documented one; other tokens have none.
func P20_Operators() {
	k := gql.Token(nd.Int(-1, 120))
	want := 0
	for _, o := range ops {
		if o.tok == k {
			want = o.prec
		}
	}
	nd.Assert(k.Precedence() == want, "precedence of a token")
	for _, w := range vocabulary {
		if w.kind == k && k != gql.ILLEGAL && k != gql.BOOLEAN && (k < gql.GEOMETRY_POINT || k > gql.GEOMETRY_COLLECTION) {
			nd.Cover("spelled")
			nd.Assert(gql.KeywordString(k) != "", "a token has no spelling")
		}
	}
}

// P20_Big: many tokens.
func P20_Big() {
	n := size()
	var ws []vtok
	var starts []int
	src := ""
	for i := 0; i < n; i++ {
		w := vocabulary[(i*7+n)%len(vocabulary)]
		if i == n/2 {
			w = anyWord()
		}
		if w.text == "=" || w.text == "!" || w.text == ">" || w.text == "<" || w.text == "." {
			src += "z "
			ws = append(ws, vtok{"z", gql.SELECTOR, "z", true})
			starts = append(starts, len(src)-2)
		}
		starts = append(starts, len(src))
		ws = append(ws, w)
		src += w.text + " z\n"
		ws = append(ws, vtok{"z", gql.SELECTOR, "z", true})
		starts = append(starts, len(src)-2)
	}
	splits(src, ws, starts)
}

// P20_Pair: two punctuation characters in a row.
func P20_Pair() {
	const chars = "!#$%&()*+,-./:;<=>?@[]^{|}~\\"
	a, b := nd.ByteOf(chars), nd.ByteOf(chars)
	c := string([]byte{a, b})
	kind := func(s string) (gql.Token, string) {
		for _, w := range vocabulary {
			if w.text == s {
				return w.kind, w.lit
			}
		}
		return gql.ILLEGAL, s
	}
	before, after := " ", " 77"
	if nd.Bool() {
		before = ""
	}
	if nd.Bool() {
		after = "\n77"
	}
	src := "zz" + before + c + after
	nd.Observe(src)
	var ks []gql.Token
	var ls []string
	add := func(s string) {
		k, l := kind(s)
		ks, ls = append(ks, k), append(ls, l)
	}
	switch c {
	case "..", "==", "!=", "<=", ">=":
		add(c)
	case "//":
		nd.Assume(after[0] == '\n')
	case "/*":
		nd.Assume(false)
	default:
		add(c[:1])
		add(c[1:])
	}
	t := gql.NewTokenizer(strings.NewReader(src))
	k, l := t.Scan()
	nd.Assert(k == gql.SELECTOR && l == "zz", "kind of token")
	for i := range ks {
		k, l = t.Scan()
		nd.Assert(k == ks[i], "kind of token")
		nd.Assert(l == ls[i], "text of token")
	}
	k, l = t.Scan()
	nd.Assert(k == gql.INT && l == "77", "kind of token")
	k, _ = t.Scan()
	nd.Assert(k == gql.EOF, "the text has more tokens")
	nd.Assert(t.Err() == nil, "a lexical error in a text without one")
}
