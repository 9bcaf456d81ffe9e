package main

import (
	"io"
	"strings"
	"unicode/utf8"

	"github.com/mmadfox/go-geoql-parser/scanner"
	"verif/harness/nd"
)

const bom = "\ufeff"

// lineCol is the line and column of a place of the text, given those of an
// earlier place.
func lineCol(s string, from, line, col, off int) (int, int) {
	for i := from; i < off; {
		n := 1
		if s[i] >= utf8.RuneSelf {
			_, n = utf8.DecodeRuneInString(s[i:])
		}
		if s[i] == '\n' {
			line++
			col = 0
		}
		col++
		i += n
	}
	return line, col
}

// gap reports whether nothing but white space and, if skip, comments lie
// between two places of the text.
func gap(s string, from, to int, ws uint64, skip bool) bool {
	i := from
	if i == 0 && strings.HasPrefix(s, bom) {
		i = len(bom)
	}
	for i < to {
		switch {
		case s[i] <= ' ' && ws&(1<<s[i]) != 0:
			i++
		case skip && i+1 < len(s) && s[i] == '/' && s[i+1] == '/':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case skip && i+1 < len(s) && s[i] == '/' && s[i+1] == '*':
			n := strings.Index(s[i+2:], "*/")
			if n < 0 {
				i = len(s)
			} else {
				i += n + 4
			}
		default:
			return false
		}
	}
	return i == to
}

type scan struct {
	s    scanner.Scanner
	src  string
	at   int
	last int // a place at or before at, with its line and column
	l, c int
	ws   uint64
	skip bool
}

func newScan(src string, r io.Reader, mode uint, ws uint64, ident bool) *scan {
	x := &scan{src: src, ws: ws, l: 1, c: 1}
	x.skip = mode&scanner.ScanComments != 0 && mode&scanner.SkipComments != 0
	x.s.Init(r)
	x.s.Error = func(*scanner.Scanner, string) {}
	x.s.Mode, x.s.Whitespace = mode, ws
	if ident {
		x.s.IsIdentRune = func(ch rune, i int) bool { return ch == 'a' || ch == '%' || ch == '1' && i > 0 || ch == 'é' && i < 2 }
	}
	return x
}

// place checks line and column; with a byte order mark the columns of the
// first line are left open.
func (x *scan) place(p scanner.Position, off int, msg string) {
	l, c := lineCol(x.src, x.last, x.l, x.c, off)
	x.last, x.l, x.c = off, l, c
	nd.Assert(p.Offset == off, msg+" offset is wrong")
	if off == 0 && len(x.src) == 0 {
		return
	}
	nd.Assert(p.Line == l, msg+" line is wrong")
	if l > 1 || !strings.HasPrefix(x.src, bom) {
		nd.Assert(p.Column == c, msg+" column is wrong")
	}
}

// scan reads a token and reports whether there is a further one.
func (x *scan) scan() bool {
	k := x.s.Scan()
	off, text := x.s.Offset, x.s.TokenText()
	nd.Assert(off >= x.at && off <= len(x.src), "the tokens are not in order")
	if off < x.at || off > len(x.src) {
		return false
	}
	nd.Assert(gap(x.src, x.at, off, x.ws, x.skip), "other than white space and comments lies between tokens")
	if k == scanner.EOF {
		nd.Assert(off == len(x.src), "the end is not at the end")
		nd.Assert(text == "", "the end has a text")
		return false
	}
	nd.Assert(text != "", "a token is empty")
	nd.Assert(strings.HasPrefix(x.src[off:], text), "the text of a token is not the input at its offset")
	nd.Assert(x.s.TokenText() == text, "the text of a token changes")
	x.place(x.s.Position, off, "token")
	x.at = off + len(text)
	x.place(x.s.Pos(), x.at, "end of token")
	return true
}

// tiles is the property of P17 for one text.
func tiles(src string, r io.Reader, mode uint, ws uint64, ident bool) {
	nd.Observe(src)
	x := newScan(src, r, mode, ws, ident)
	for i := 0; i <= len(src); i++ {
		if !x.scan() {
			nd.Assert(x.s.Scan() == scanner.EOF, "a token follows the end")
			return
		}
	}
	bad("the scanner does not reach the end")
}

func anyMode() uint { return uint(nd.Int(0, 255)) << 2 }

var masks = []uint64{scanner.GoWhitespace, 0, 1 << ' ', 1<<' ' | 1<<'\n' | 1<<1 | 1}

var scanStarts = []string{"", "a", "1", "1.", ".", "\"", "\"a", "\"\\", "'", "'a", "`", "`\n", "/", "//", "/*", "/*\n*", "é", "\xe4\xb8", bom, "\n", "\r", " \n", "\n\n"}

// P17_Bytes: arbitrary bytes after every beginning, in every mode.
func P17_Bytes() {
	pre := scanStarts[nd.Choice(len(scanStarts))]
	if nd.Tier() == 0 {
		s := pre + anyBytes(2)
		tiles(s, strings.NewReader(s), anyMode(), masks[nd.Choice(2)], false)
		return
	}
	s := pre + anyBytes(3)
	tiles(s, strings.NewReader(s), anyMode(), masks[nd.Choice(len(masks))], false)
}

var scanPieces = []string{"a", "é1", "12", "1.5", ".5", "08", "\"x\"", "\"\n", "'c'", "'cc'", "`r`", "`\n`", "//c", "//c\n", "/**/", "/*\n*/", "/*", "\n", " ", "\t", "\r", "世", "\xff", "\x00", "\\", bom}

// P17_Pairs: three tokens of every kind, in every mode, with several sets of
// white space and a caller's own identifiers.
func P17_Pairs() {
	n := len(scanPieces)
	var s string
	if nd.Tier() > 0 {
		s = scanPieces[nd.Choice(n)] + scanPieces[nd.Choice(n)] + scanPieces[nd.Choice(n)] + nd.OneOf("", "a", " \n ")
	} else {
		s = scanPieces[nd.Choice(n)] + scanPieces[nd.Choice(n)] + nd.OneOf("", "a", " \n", "\"")
	}
	tiles(s, strings.NewReader(s), anyMode(), masks[nd.Choice(4)], nd.Bool())
}

// P17_Buffer: tokens of every kind at every place relative to the buffer.
func P17_Buffer() {
	p := []string{"a", "é", "12", "1.5", "\"世\"", "'é'", "`\n`", "//é\n", "/*\né*/", "世世", "\xff\xff", "\n\n"}[nd.Choice(12)]
	l := 1024 - nd.Choice(len(p)+3)
	pad := []string{"\n", "\"", "x", "//", "/*", "`", "'"}[nd.Choice(7)]
	s := pad + strings.Repeat([]string{" ", "x"}[nd.Choice(2)], l-len(pad)) + p + "b\nc"
	modes := []uint{scanner.GoTokens, scanner.GoTokens &^ scanner.SkipComments, scanner.ScanIdents}
	r := &chunkR{s: s, err: io.EOF}
	if nd.Bool() {
		r.ends, r.empty = []int{1, 500, l + 1}, true
	}
	tiles(s, r, modes[nd.Choice(3)], masks[nd.Choice(2)], false)
}

// P17_Far: tokens far to the right and far down.
func P17_Far() {
	n := []int{255, 1001, 4097, 10001, 33000, 66000}[nd.Choice(6)]
	if nd.Tier() > 0 {
		n += nd.Choice(3) * 32768
	}
	s := strings.Repeat([]string{" ", "\n", "x", "\t"}[nd.Choice(4)], n) + []string{"", "\n"}[nd.Choice(2)] + scanPieces[nd.Choice(len(scanPieces))] + []string{"b", "\nc"}[nd.Choice(2)]
	tiles(s, strings.NewReader(s), scanner.GoTokens, scanner.GoWhitespace, false)
}

// P17_Next: reading characters in between.
func P17_Next() {
	n := len(scanPieces) - 1
	s := scanPieces[nd.Choice(n)] + scanPieces[nd.Choice(n)]
	if nd.Tier() > 0 {
		s += scanPieces[nd.Choice(n)]
	}
	nd.Observe(s)
	mode := uint(scanner.GoTokens)
	if nd.Tier() > 0 {
		mode = anyMode()
	}
	x := newScan(s, strings.NewReader(s), mode, masks[nd.Choice(2)], false)
	for i := 0; i < 5; i++ {
		want, w := rune(scanner.EOF), 0
		if x.at < len(s) {
			want, w = utf8.DecodeRuneInString(s[x.at:])
		}
		switch nd.Choice(3) {
		case 0:
			nd.Assert(x.s.Peek() == want, "Peek is not the next character")
		case 1:
			nd.Assert(x.s.Next() == want, "Next is not the next character")
			x.at += w
			x.place(x.s.Pos(), x.at, "place after a character")
		case 2:
			if !x.scan() {
				x.at = len(s)
			}
		}
	}
}
