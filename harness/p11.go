package main

import (
	"errors"
	"io"
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// A chunkR delivers s in reads that end at the given places; it may return no
// bytes at first, and the end (or another error) together with the last bytes.
type chunkR struct {
	s        string
	i        int
	ends     []int
	one      bool // byte by byte
	empty    bool // reads without bytes in between
	many     int  // how many of them in a row (0: one)
	withData bool // the last read carries the error
	err      error
	idle     int
}

func (r *chunkR) Read(p []byte) (int, error) {
	if r.i >= len(r.s) {
		return 0, r.err
	}
	if r.empty && r.idle <= r.many {
		r.idle++
		return 0, nil
	}
	r.idle = 0
	n := len(r.s) - r.i
	for _, e := range r.ends {
		if e > r.i && e-r.i < n {
			n = e - r.i
		}
	}
	if r.one {
		n = 1
	}
	n = copy(p[:], r.s[r.i:r.i+min(n, len(p))])
	r.i += n
	if r.withData && r.i >= len(r.s) {
		return n, r.err
	}
	return n, nil
}

type tok struct {
	k    gql.Token
	lit  string
	text string
	off  gql.Pos
}

// allTokens reads all tokens.
func allTokens(r io.Reader, max int) ([]tok, *gql.Tokenizer) {
	t := gql.NewTokenizer(r)
	var ts []tok
	for i := 0; i <= max; i++ {
		k, l := t.Scan()
		ts = append(ts, tok{k, l, t.TokenText(), t.Offset()})
		if k == gql.EOF {
			return ts, t
		}
	}
	bad("the tokenizer does not reach the end of input")
	return ts, t
}

func sameTokens(a, b []tok, shift int, msg string) {
	nd.Assert(len(a) == len(b), msg+": number of tokens")
	for i := 0; i < len(a) && i < len(b); i++ {
		nd.Assert(a[i].k == b[i].k, msg+": kind of token")
		nd.Assert(a[i].lit == b[i].lit, msg+": literal of token")
		nd.Assert(a[i].text == b[i].text, msg+": text of token")
		nd.Assert(int(a[i].off) == int(b[i].off)+shift, msg+": offset of token")
	}
}

// split reads s in any of the ways to deliver it.
func split(s string) {
	nd.Observe(s)
	want, t := allTokens(&chunkR{s: s, err: io.EOF}, len(s))
	r := &chunkR{s: s, err: io.EOF}
	switch nd.Choice(3) {
	case 0:
		r.ends = []int{nd.Choice(len(s) + 1)}
	case 1:
		i := nd.Choice(len(s) + 1)
		r.ends = []int{i, i + 1}
		r.empty = true
	case 2:
		r.one = true
		r.empty = nd.Bool()
	}
	r.withData = nd.Bool()
	got, t2 := allTokens(r, len(s))
	sameTokens(got, want, 0, "tokens depend on the reads")
	nd.Assert(t.ErrorCount() == t2.ErrorCount(), "number of errors depends on the reads")
	e, e2 := t.Err(), t2.Err()
	nd.Assert((e == nil) == (e2 == nil), "error depends on the reads")
	if e != nil && e2 != nil {
		nd.Assert(e.Error() == e2.Error(), "error depends on the reads")
	}
}

// P11_Idle: a reader that delivers nothing many times in a row.
func P11_Idle() {
	s := pieces[nd.Choice(len(pieces))]
	if nd.Tier() > 0 {
		s += []string{" ", ""}[nd.Choice(2)] + pieces[nd.Choice(len(pieces))]
	} else {
		s += []string{"", " a", "=", "\"x\"", "é"}[nd.Choice(5)]
	}
	nd.Observe(s)
	want, t := allTokens(&chunkR{s: s, err: io.EOF}, len(s))
	r := &chunkR{s: s, err: io.EOF, empty: true, many: []int{2, 9, 30, 60}[nd.Choice(4)]}
	if nd.Bool() {
		r.ends = []int{nd.Choice(len(s) + 1)}
	}
	got, t2 := allTokens(r, len(s))
	sameTokens(got, want, 0, "tokens depend on the empty reads")
	nd.Assert(t.ErrorCount() == t2.ErrorCount() && (t.Err() == nil) == (t2.Err() == nil), "error depends on the empty reads")
}

// pieces are tokens of every kind, also malformed ones.
var pieces = []string{
	"a", "abc_1", "né", "trigger", "not in", "not\nintersects", "not x", "range", "12", "1_2", "1.5", "1.", ".", "..", "...",
	"=", "==", "!=", "!", ">=", ">", "<=", "<", "@v", "{*}", "\"x\"", "\"é\\\"\"", "\"世界\"", "\"\\u00e9\"", "\"x", "\"\n", "\xff", "\xe4\xb8", "\x00", "\ufeff", "世", "10Kph", "/", "//", "'", "`",
}

// P11_Pairs: two tokens of every kind, delivered in any way.
func P11_Pairs() {
	a := pieces[nd.Choice(len(pieces))]
	var b string
	if nd.Tier() > 0 {
		b = pieces[nd.Choice(len(pieces))]
	} else {
		b = nd.OneOf("", "a", "1", "=", ".", "\"x\"", "é", "in")
	}
	split(a + nd.OneOf("", " ") + b)
}

// P11_Bytes: arbitrary bytes, delivered in any way.
func P11_Bytes() {
	pre := []string{"", "a", "1.", "\"", "not ", "é", "="}[nd.Choice(7)]
	if nd.Tier() > 0 {
		split(pre + anyBytes(2))
		return
	}
	s := pre + anyBytes(2)
	nd.Observe(s)
	want, _ := allTokens(&chunkR{s: s, err: io.EOF}, len(s))
	got, _ := allTokens(&chunkR{s: s, err: io.EOF, one: true, empty: true}, len(s))
	sameTokens(got, want, 0, "tokens depend on the reads")
}

// P11_Buffer: tokens at any place relative to the internal buffers.
func P11_Buffer() {
	var a, b string
	if nd.Tier() > 0 {
		a = pieces[nd.Choice(len(pieces))]
		b = pieces[nd.Choice(len(pieces))]
	} else {
		a = []string{"abc_1", "né", "not in", "1.5", "..", "==", "!=", "\"é\\\"\"", "\"世界\"", "\xff", "世", "\x00", "10Kph"}[nd.Choice(13)]
		b = nd.OneOf("", "a", "=", "\"x\"", "é")
	}
	s := a + " " + b
	l := 1024 - nd.Choice(len(a)+4)
	if nd.Bool() {
		l += 1024
	}
	want, _ := allTokens(&chunkR{s: s, err: io.EOF}, len(s))
	pad := strings.Repeat([]string{" ", "\n"}[nd.Choice(2)], l)
	nd.Observe(s)
	got, _ := allTokens(&chunkR{s: pad + s, err: io.EOF}, l+len(s))
	sameTokens(got, want, l, "tokens depend on their place")
	word := strings.Repeat("w", l-1)
	got, _ = allTokens(&chunkR{s: word + " " + s, err: io.EOF}, l+len(s))
	nd.Assert(len(got) > 0 && got[0].text == word && got[0].lit == word && got[0].off == 0, "a long word is not returned whole")
	if len(got) > 0 {
		sameTokens(got[1:], want, l, "tokens depend on those before")
	}
}

func longLengths() int {
	if nd.Tier() > 0 {
		n := nd.Choice(90)
		return []int{1, 57, 121, 250, 507, 1015, 1530, 2040, 4090}[n/10] + n%10
	}
	return []int{1, 2, 3, 7, 8, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 2050}[nd.Choice(27)]
}

// P11_Long: tokens of any length are returned whole, delivered in any way.
func P11_Long() {
	n := longLengths()
	pre := []string{"", " ", "a ", "= "}[nd.Choice(4)]
	var text string
	kind := gql.SELECTOR
	switch nd.Choice(6) {
	case 0:
		text = strings.Repeat("w", n-1) + "z"
	case 1:
		text = "x" + strings.Repeat("é", n/2) + "y"
	case 2:
		text, kind = "1"+strings.Repeat("7", n-1), gql.INT
	case 3:
		text, kind = "1."+strings.Repeat("7", n), gql.FLOAT
	case 4:
		text, kind = "\""+strings.Repeat("s", n)+"\"", gql.STRING
	case 5:
		text, kind = "\""+strings.Repeat("世", n/3)+"\\\"k\"", gql.STRING
	}
	s := pre + text + nd.OneOf("", " b", "=", "\xff")
	nd.Observe(s)
	r := &chunkR{s: s, err: io.EOF, withData: nd.Bool()}
	switch nd.Choice(3) {
	case 1:
		r.ends = []int{len(pre) + len(text) - 1, len(pre) + len(text)}
	case 2:
		r.ends = []int{1, 2, 64, 65, 1000, 1023, 1024, 1025}
		r.empty = true
	}
	ts, _ := allTokens(r, len(s))
	at := 0
	if len(pre) > 1 {
		at = 1
	}
	nd.Assert(len(ts) > at && ts[at].text == text, "a long token is not returned whole")
	if len(ts) > at {
		nd.Assert(ts[at].k == kind, "a long token has another kind")
		nd.Assert(len(pre) == 2 && pre[0] == '=' || int(ts[at].off) == len(pre), "a long token has another offset")
	}
}

var errRead = errors.New("connection lost")

// P11_Error: a reader that fails.
func P11_Error() {
	s := []string{"", "when a", "when \"x", "when 1.", "é", "a not", "\xe4\xb8", "a =", "when a == 1 ", "/*", "\"\\", ".", "a  \n"}[nd.Choice(13)]
	if nd.Bool() {
		s = strings.Repeat([]string{" ", "x", "é", "1"}[nd.Choice(4)], 1020+nd.Choice(6)) + s
	} else if nd.Bool() && !strings.ContainsAny(s, "\"\xe4") {
		s += string(rune(nd.Byte(1, 127)))
	}
	nd.Observe(s)
	r := &chunkR{s: s, err: errRead, withData: nd.Bool(), one: nd.Bool()}
	if nd.Bool() {
		r.err = io.ErrUnexpectedEOF
	}
	got, t := allTokens(r, len(s))
	want, _ := allTokens(&chunkR{s: s, err: io.EOF}, len(s))
	sameTokens(got, want, 0, "tokens depend on a read error after them")
	nd.Assert(t.Err() != nil && t.ErrorCount() > 0, "a read error is not reported")
	if t.Err() != nil {
		nd.Assert(t.Err().Error() == r.err.Error(), "another error than the read error is reported")
	}
}
