package main

import (
	"errors"
	"io"
	"strings"
	ref "text/scanner"
	"unicode/utf8"

	"github.com/mmadfox/go-geoql-parser/scanner"
	"verif/harness/nd"
)

// A scanErr is a call of a scanner's error function.
type scanErr struct {
	msg       string
	off, l, c int    // Pos
	text      string // TokenText
	at        int    // Position
}

// A twin is a scanner and Go's scanner over the same bytes. The reference is
// told to recognize no numbers: these have their own form.
type twin struct {
	src    string
	a      scanner.Scanner
	b      ref.Scanner
	mode   uint
	ident  func(rune, int) bool
	ea, eb []scanErr
	seen   int    // errors compared
	fails  [2]int // read errors reported: how far a scanner reads ahead is its own affair
}

const lost = "lost"

func (x *twin) init(src string, ra, rb io.Reader) {
	x.src = src
	x.a.Init(ra)
	x.b.Init(rb)
	nd.Assert(x.a.Mode == uint(x.b.Mode) && x.a.Whitespace == x.b.Whitespace, "Init sets other modes")
	nd.Assert(x.a.ErrorCount == 0 && x.a.Error == nil, "Init keeps the errors")
	x.ea, x.eb, x.seen, x.fails = nil, nil, 0, [2]int{}
	x.a.Error = func(s *scanner.Scanner, msg string) {
		if msg == lost {
			x.fails[0]++
			return
		}
		p := s.Pos()
		x.ea = append(x.ea, scanErr{msg, p.Offset, p.Line, p.Column, s.TokenText(), s.Offset})
	}
	x.b.Error = func(s *ref.Scanner, msg string) {
		if msg == lost {
			x.fails[1]++
			return
		}
		p := s.Pos()
		x.eb = append(x.eb, scanErr{msg, p.Offset, p.Line, p.Column, s.TokenText(), s.Offset})
	}
}

func newTwin(src string, ra, rb io.Reader, mode uint, ws uint64, ident func(rune, int) bool) *twin {
	x := &twin{mode: mode, ident: ident}
	x.init(src, ra, rb)
	x.a.Filename, x.b.Filename = "rule", "rule"
	x.a.Mode, x.a.Whitespace, x.a.IsIdentRune = mode, ws, ident
	x.b.Mode, x.b.Whitespace, x.b.IsIdentRune = mode&^(ref.ScanInts|ref.ScanFloats), ws, ident
	return x
}

func isDig(c byte) bool { return '0' <= c && c <= '9' }

// number is the length and the kind of the number at the given place.
func (x *twin) number(i int) (int, rune) {
	s := x.src[i:]
	if len(s) == 0 || x.mode&(scanner.ScanInts|scanner.ScanFloats) == 0 {
		return 0, 0
	}
	if x.ident != nil && x.ident(rune(s[0]), 0) {
		return 0, 0
	}
	floats := x.mode&scanner.ScanFloats != 0
	n, k := 0, rune(scanner.Int)
	switch {
	case isDig(s[0]):
		for n < len(s) && (isDig(s[n]) || s[n] == '_') {
			n++
		}
		if !floats || n == len(s) || s[n] != '.' {
			return n, k
		}
	case s[0] == '.' && floats && len(s) > 1 && isDig(s[1]):
	default:
		return 0, 0
	}
	n, k = n+1, scanner.Float
	for n < len(s) && (isDig(s[n]) || s[n] == '_') {
		n++
	}
	return n, k
}

// errors compares the errors reported since.
func (x *twin) errors(number bool) {
	nd.Assert(len(x.ea) == len(x.eb) && x.a.ErrorCount == len(x.ea)+x.fails[0] && x.b.ErrorCount == len(x.eb)+x.fails[1], "number of errors differs")
	for ; x.seen < len(x.ea) && x.seen < len(x.eb); x.seen++ {
		a, b := x.ea[x.seen], x.eb[x.seen]
		nd.Assert(a.msg == b.msg, "error differs")
		nd.Assert(a.off == b.off && a.l == b.l && a.c == b.c, "place of an error differs")
		if !number {
			nd.Assert(a.text == b.text && a.at == b.at, "token of an error differs")
		}
	}
}

func (x *twin) pos() {
	p, q := x.a.Pos(), x.b.Pos()
	nd.Assert(p.Filename == q.Filename && p.Offset == q.Offset && p.Line == q.Line && p.Column == q.Column, "place behind a token differs")
}

// scan reads a token from both and reports whether there is a further one.
func (x *twin) scan() bool {
	k, w := x.a.Scan(), x.b.Scan()
	p, q := x.a.Position, x.b.Position
	nd.Assert(p.Filename == q.Filename && p.Offset == q.Offset && p.Line == q.Line && p.Column == q.Column, "place of a token differs")
	off := q.Offset
	if off > len(x.src) {
		bad("a token lies behind the end")
		return false
	}
	n, nk := 0, rune(0)
	if w >= 0 {
		n, nk = x.number(off)
	}
	if n == 0 {
		nd.Assert(k == w, "kind of token differs")
		nd.Assert(x.a.TokenText() == x.b.TokenText(), "text of token differs")
	} else {
		nd.Assert(k == nk, "kind of number")
		nd.Assert(x.a.TokenText() == x.src[off:off+n], "text of number")
		for ; n > 1; n-- {
			x.b.Next()
		}
	}
	x.pos()
	x.errors(n > 0)
	return w != ref.EOF
}

func (x *twin) all() {
	nd.Observe(x.src)
	for i := 0; i <= len(x.src); i++ {
		if !x.scan() {
			x.scan()
			nd.Assert((x.fails[0] > 0) == (x.fails[1] > 0), "a read error is not reported")
			return
		}
	}
	bad("the scanner does not reach the end")
}

// idents are the ways to recognize identifiers.
func idents() func(rune, int) bool {
	switch nd.Choice(4) {
	case 1:
		return func(ch rune, i int) bool { return ch == 'a' || ch == '%' || ch == '1' && i > 0 || ch == 'é' && i < 2 }
	case 2:
		return func(ch rune, i int) bool { return ch != ' ' && ch != '\n' }
	case 3:
		return func(ch rune, i int) bool {
			return i == 0 && (ch == '"' || ch == '/') || i > 0 && ch != ';' && ch != 'c'
		}
	}
	return nil
}

func twinOf(s string, mode uint, ws uint64, ident func(rune, int) bool) *twin {
	return newTwin(s, strings.NewReader(s), strings.NewReader(s), mode, ws, ident)
}

// P21_Bytes: arbitrary bytes after every beginning, in every mode.
func P21_Bytes() {
	pre := scanStarts[nd.Choice(len(scanStarts))]
	if nd.Tier() == 0 {
		twinOf(pre+anyBytes(2), anyMode(), masks[nd.Choice(2)], nil).all()
		return
	}
	twinOf(pre+anyBytes(3), anyMode(), masks[nd.Choice(len(masks))], nil).all()
}

// P21_Pairs: tokens of every kind, in every mode.
func P21_Pairs() {
	n := len(scanPieces)
	s := scanPieces[nd.Choice(n)] + scanPieces[nd.Choice(n)]
	if nd.Tier() > 0 {
		s += scanPieces[nd.Choice(n)]
	}
	s += nd.OneOf("", "a", " \n", "\"")
	twinOf(s, anyMode(), masks[nd.Choice(4)], idents()).all()
}

// P21_Escape: escape sequences in characters and strings.
func P21_Escape() {
	s := nd.OneOf("\"", "'", "'x", "\"é", "`") + "\\"
	e := nd.Choice(9)
	max := 9
	switch e {
	case 0:
		s += "x"
		max = 3
	case 1:
		s += "u"
		max = 5
	case 2:
		s += "U"
	case 3:
		s += string([]byte{nd.Byte('0', '9')})
		max = 3
	default:
		s += string([]byte{nd.Byte(0, 255)})
		max = 1
	}
	n := nd.Choice(max + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.ByteOf("07")
		if i >= n-2 {
			b[i] = nd.ByteOf("0178aFfgG/:@`\"'\\")
		}
	}
	s += string(b) + nd.OneOf("", "'", "\"", "\"'", "\n", "0\"'\"", "é`")
	mode := uint(scanner.GoTokens)
	if nd.Tier() > 0 {
		mode = anyMode()
	}
	twinOf(s, mode, scanner.GoWhitespace, nil).all()
}

// P21_Number: numbers and what looks like numbers.
func P21_Number() {
	n := 4 + nd.Tier()
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.ByteOf("0189__..eExXpPobaF+-/ ")
	}
	s := nd.OneOf("", "0", ".", "1_", "a", "99999999999999999999") + string(b)
	twinOf(s, anyMode(), masks[nd.Choice(2)], nil).all()
}

// P21_Comment: comments of arbitrary characters.
func P21_Comment() {
	n := 3 + nd.Tier()
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.ByteOf("/*\n\r\x00 a\"\xff")
	}
	s := nd.OneOf("/", "//", "/*", "a /*/") + string(b) + nd.OneOf("", "*/z", "\nz")
	twinOf(s, anyMode(), masks[nd.Choice(2)], nil).all()
}

const edge = "\x7f\x80\x8f\x90\x9f\xa0\xbf\xc0"

// P21_Utf: characters of up to four bytes, also malformed ones.
func P21_Utf() {
	var b []byte
	if nd.Bool() {
		b = []byte{nd.Byte(0x80, 255), nd.ByteOf(edge + "a\"")}
	} else {
		b = []byte{nd.ByteOf("\xe0\xe4\xed\xef\xf0\xf4"), nd.ByteOf(edge), nd.ByteOf(edge)}
		if nd.Tier() > 0 || nd.Bool() {
			b = append(b, nd.ByteOf("\x7f\x80\xbf\xc0"))
		}
	}
	s := nd.OneOf("", "a", "\"", "1", bom, "//", "`", "'")
	s += string(b) + nd.OneOf("", "a", "\"", "'")
	twinOf(s, scanner.GoTokens, scanner.GoWhitespace, nil).all()
}

// P21_Calls: characters and tokens read in any order.
func P21_Calls() {
	n := len(scanPieces)
	s := scanPieces[nd.Choice(n)] + scanPieces[nd.Choice(n)]
	if nd.Tier() > 0 {
		s += scanPieces[nd.Choice(n)]
	}
	nd.Observe(s)
	mode := uint(scanner.GoTokens)
	if nd.Tier() > 0 {
		mode = anyMode()
	}
	x := twinOf(s, mode, masks[nd.Choice(2)], nil)
	for i := 0; i < 5; i++ {
		switch nd.Choice(3) {
		case 0:
			nd.Assert(x.a.Peek() == x.b.Peek(), "Peek differs")
		case 1:
			a, b := x.a.Next(), x.b.Next()
			nd.Assert(a == b, "Next differs")
			nd.Assert(x.a.TokenText() == "" && x.a.Line == x.b.Line && !x.a.IsValid(), "a character has a text or a place")
		case 2:
			x.scan()
		}
		x.pos()
		x.errors(true)
	}
}

// P21_Reader: bytes delivered in any way, by readers that fail.
func P21_Reader() {
	var s string
	if nd.Tier() > 0 {
		s = scanPieces[nd.Choice(len(scanPieces))] + []string{"", "é", "\"", "/*", "\xe4\xb8", "1."}[nd.Choice(6)]
	} else {
		s = []string{"é1", "1.5", "'cc'", "`\n`", "/*\n*/", "世", "\xff", "\x00"}[nd.Choice(8)] + []string{"", "\"", "\xe4\xb8"}[nd.Choice(3)]
	}
	few := 2 + 2*nd.Tier()
	switch nd.Choice(3) {
	case 1:
		s = strings.Repeat([]string{"x", "\n", " ", "1"}[nd.Choice(few)], 1019+nd.Choice(6)) + s
	case 2:
		s = []string{"/*", "\"", "`", "'"}[nd.Choice(few)] + strings.Repeat("x", 1019+nd.Choice(6)) + s
	}
	err := []error{io.EOF, errors.New(lost)}[nd.Choice(2)]
	a := &chunkR{s: s, err: err}
	switch nd.Choice(3) {
	case 0:
		a.ends = []int{nd.Choice(3)}
	case 1:
		a.one = len(s) < 50
		a.empty = true
	}
	a.withData = nd.Bool()
	b := *a
	mode := []uint{scanner.GoTokens, scanner.GoTokens &^ scanner.SkipComments, scanner.ScanIdents | scanner.ScanFloats | scanner.ScanStrings}[nd.Choice(2+nd.Tier())]
	newTwin(s, a, &b, mode, scanner.GoWhitespace, nil).all()
}

// P21_Again: a scanner used again.
func P21_Again() {
	n := len(scanPieces)
	x := twinOf(scanPieces[nd.Choice(n)]+nd.OneOf("\"", "a\n\nb", "\x00"), scanner.ScanIdents, 0, nil)
	x.a.IsIdentRune, x.b.IsIdentRune = nil, nil
	for i := nd.Choice(4); i > 0; i-- {
		if nd.Bool() {
			x.scan()
		} else {
			x.a.Next()
			x.b.Next()
		}
	}
	s := scanPieces[nd.Choice(n)] + nd.OneOf("", " a", "\n1.5")
	x.init(s, strings.NewReader(s), strings.NewReader(s))
	x.mode = scanner.GoTokens
	x.b.Mode &^= ref.ScanInts | ref.ScanFloats
	x.all()
}

// P21_Names: the texts of kinds and places.
func P21_Names() {
	k := rune(nd.Int(-12, 200))
	if nd.Bool() {
		k = []rune{0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000, -1 << 31, 1<<31 - 1}[nd.Choice(14)]
	}
	nd.Assert(scanner.TokenString(k) == ref.TokenString(k), "name of a kind differs")
	p := scanner.Position{Filename: nd.OneOf("", "f"), Offset: nd.Int(0, 3), Line: nd.Int(-1, 12), Column: nd.Int(0, 12)}
	q := ref.Position{Filename: p.Filename, Offset: p.Offset, Line: p.Line, Column: p.Column}
	nd.Assert(p.IsValid() == q.IsValid(), "validity of a place differs")
	nd.Assert(p.String() == q.String(), "text of a place differs")
}

// P21_Big: many tokens.
func P21_Big() {
	n := size()
	var sb strings.Builder
	for i := 0; i < n; i++ {
		p := scanPieces[(i*5+n)%len(scanPieces)]
		if i == n/2 {
			p = scanPieces[nd.Choice(len(scanPieces))]
		}
		if utf8.ValidString(p) && strings.Count(p, "\"")%2 == 0 && p != "/*" {
			sb.WriteString(p + " ")
		}
	}
	twinOf(sb.String(), scanner.GoTokens&^scanner.SkipComments, scanner.GoWhitespace, nil).all()
}
