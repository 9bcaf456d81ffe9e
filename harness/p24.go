package main

import (
	"errors"
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

func syntaxError(err error) *gql.Error {
	for ; err != nil; err = errors.Unwrap(err) {
		if e, ok := err.(*gql.Error); ok {
			return e
		}
	}
	return nil
}

// lexical tells whether the scanner finds something wrong in the text.
func lexical(s string) bool {
	t := gql.NewTokenizer(strings.NewReader(s))
	for i := 0; i < len(s)+2; i++ {
		if k, _ := t.Scan(); k == gql.EOF {
			break
		}
	}
	return t.ErrorCount() > 0
}

func cause(e *gql.Error) string {
	if e.Err == nil {
		return ""
	}
	return e.Err.Error()
}

const moreMsg = "the same error with other text behind it"

// decided is the property of P24 for a text: whoever reads it up to the reported
// token knows the error.
func decided(s string) {
	nd.Observe(s)
	_, err := gql.Parse(s)
	if err == nil {
		return
	}
	e := syntaxError(err)
	if e == nil || e.Offset < 0 || e.Offset > len(s) {
		bad("the error is no syntax error inside the text")
		return
	}
	nd.Assert(strings.Contains(err.Error(), e.Lit) && strings.Contains(err.Error(), cause(e)), "the error text leaves out the token or the cause")
	if lexical(s) {
		return
	}
	end := e.Offset + len(e.Lit)
	nd.Assert(end <= len(s), "the token is no part of the text")
	if end > len(s) {
		return
	}
	nd.Assert(s[e.Offset:end] == e.Lit, "the token of the error does not stand at its offset")
	if e.Lit == "" {
		nd.Assert(e.Offset == len(s), "an error without token before the end")
	}
	if e.Lit != "" && nd.Bool() {
		_, err2 := gql.Parse(s[:end] + nd.OneOf("", "\n", " a", "\t)", " when b", "\n\"", " /*", " 1", " ]", ";\x00", "\n\xff", " ..", " = 5; when a reset after 5s", "\n{\"x\"}:1, 2, 3"))
		f := syntaxError(err2)
		nd.Assert(f != nil, "a text is accepted although its beginning is wrong")
		if f != nil {
			nd.Assert(f.Offset == e.Offset && f.Lit == e.Lit && f.Msg == e.Msg && cause(f) == cause(e), moreMsg)
		}
		return
	}
	if strings.HasPrefix(s, bom) {
		return
	}
	w := nd.OneOf(" ", "\n\t ", "/* é when */", "//a\n")
	_, err2 := gql.Parse(w + s)
	f := syntaxError(err2)
	nd.Assert(f != nil, "a wrong text is accepted with white space in front")
	if f != nil {
		nd.Assert(f.Offset == e.Offset+len(w) && f.Lit == e.Lit && f.Msg == w+e.Msg && cause(f) == cause(e), "another error with white space in front")
	}
}

// P24_Bytes: arbitrary bytes after every beginning.
func P24_Bytes() {
	if nd.Tier() > 0 {
		decided(starts[nd.Choice(len(starts))] + anyBytes(2))
		return
	}
	decided(starts[nd.Choice(len(starts))] + bytesOf(1) + nd.OneOf("", " a", "\n1"))
}

// P24_Cut: rules cut off.
func P24_Cut() {
	r := rules[nd.Choice(len(rules))]
	decided([]string{"", bom}[nd.Choice(2)] + r[:nd.Choice(len(r)+1)] + nd.OneOf("", " )", "]", " é", " 1 1", " ;", " .."))
}

// P24_Edit: edited rules.
func P24_Edit() {
	ts, _ := edit(canonical[nd.Choice(len(canonical))], []string{"(", "]", "-", "1", "abc", `"x"`, "..", "=", "@", "not", "when", "5km", "point", ":", ";"})
	decided(join(ts))
}

// P24_Tokens: arbitrary tokens after every beginning.
func P24_Tokens() {
	s := starts[nd.Choice(len(starts))]
	n := 1 + nd.Tier()
	for i := 0; i < n; i++ {
		s += " " + vocabulary[nd.Choice(len(vocabulary))].text
	}
	decided(s)
}

// P24_Long: errors after long texts.
func P24_Long() {
	n := []int{1015, 1021, 1023, 1025, 2043, 2049, 4100}[nd.Choice(7)]
	if nd.Tier() > 0 {
		n = 1015 + nd.Choice(20) + 1024*nd.Choice(3)
	}
	s := []string{"when a ", "when a == ", "trigger set ", "when a and "}[nd.Choice(4)]
	s += strings.Repeat([]string{" ", "x", "é", "\n"}[nd.Choice(4)], n)
	decided(s + nd.OneOf("", " )", "é", " "+strings.Repeat("y", 1500)+" 1"))
}
