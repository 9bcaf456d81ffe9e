package main

import (
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// pushed is the property of P23 for one text and n calls.
func pushed(src string, ws []vtok, n int) {
	nd.Observe(src)
	t := gql.NewTokenizer(strings.NewReader(src))
	i, back := 0, false // tokens read, and whether the last one was put back
	at := gql.Pos(0)
	scan := func() {
		k, l := t.Scan()
		w := vtok{"", gql.EOF, "", true}
		again := back
		if !back {
			i++
		}
		if i <= len(ws) {
			w = ws[i-1]
		}
		back = false
		nd.Assert(k == w.kind, "kind of token")
		nd.Assert(l == w.lit, "text of token")
		if w.one {
			nd.Assert(t.TokenText() == w.text, "token text")
			nd.Assert(!again || t.Offset() == at, "a token read again lies elsewhere")
			at = t.Offset()
		}
	}
	scan()
	for ; n > 0; n-- {
		one := i > len(ws) || ws[i-1].one
		c := nd.Choice(3)
		nd.Assume(c == 0 || one)
		switch c {
		case 0:
			scan()
		case 1:
			t.Reset()
			back = true
		case 2:
			t.Unwind()
			back = false
		}
		nd.Assert(t.Err() == nil && t.ErrorCount() == 0, "a lexical error in a text without one")
	}
	for j := 0; j < 4 && i <= len(ws); j++ {
		scan()
	}
}

// P23_Calls: three tokens, Scan, Reset and Unwind in any order.
func P23_Calls() {
	a, b := anyWord(), vtok{"zz", gql.SELECTOR, "zz", true}
	if nd.Bool() {
		a, b = b, a
	}
	c := vocabulary[[]int{4, 23, 24, 46}[nd.Choice(4)]]
	nd.Assume(b.text != "=" && b.text != "!" && b.text != ">" && b.text != "<" && b.text != "." || c.one)
	pushed(a.text+" "+b.text+" "+c.text, []vtok{a, b, c}, 5+nd.Tier())
}

// P23_Pairs: any two tokens.
func P23_Pairs() {
	a, b := anyWord(), anyWord()
	nd.Assume(a.one || b.one)
	pushed(a.text+"\n"+b.text, []vtok{a, b}, 3+nd.Tier())
}

// P23_Long: many tokens, one of them put back.
func P23_Long() {
	n := size()
	var ws []vtok
	for i := 0; i < n; i++ {
		ws = append(ws, vocabulary[[]int{0, 45, 44, 16, 22, 51}[i%6]])
	}
	ts := make([]string, n)
	for i := range ws {
		ts[i] = ws[i].text
	}
	src := strings.Join(ts, " ")
	nd.Observe(src)
	t := gql.NewTokenizer(strings.NewReader(src))
	at := nd.OneOf("first", "middle", "last", "every")
	for i, w := range ws {
		k, l := t.Scan()
		nd.Assert(k == w.kind && l == w.lit, "kind or text of token")
		if at == "every" || at == "first" && i == 0 || at == "middle" && i == n/2 || at == "last" && i == n-1 {
			t.Reset()
			k, l = t.Scan()
			nd.Assert(k == w.kind && l == w.lit, "a token put back is not read again")
			t.Reset()
			t.Unwind()
		}
	}
	k, _ := t.Scan()
	nd.Assert(k == gql.EOF, "the text has more tokens")
}
