package main

import (
	"errors"
	"io"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

type customErr struct{ code int }

func (e customErr) Error() string { return "custom" }

// failW fails at the write number at, and again afterwards if sticky.
type failW struct {
	n, at  int
	err    error
	sticky bool
	short  bool
	out    string
	after  int
}

func (w *failW) WriteString(s string) (int, error) {
	i := w.n
	w.n++
	if i > w.at {
		w.after++
		if !w.sticky {
			return len(s), nil
		}
		return 0, w.err
	}
	if i == w.at {
		if w.short && len(s) > 0 {
			w.out += s[:len(s)-1]
			return len(s) - 1, w.err
		}
		return 0, w.err
	}
	w.out += s
	return len(s), nil
}

var (
	errPlain  = errors.New("disk full")
	errTyped  = customErr{7}
	errTyped2 = &customErr{8}
)

// failing is the property of P10 for one rule.
func failing(src string) {
	nd.Observe(src)
	t := parse(src)
	if t == nil {
		return
	}
	full := &failW{at: 1 << 30}
	err := gql.Format(full, t)
	nd.Assert(err == nil, "formatting fails although no write fails")
	nd.Assert(full.n > 0, "formatting writes nothing")
	at := 0
	if full.n <= 240 {
		at = nd.Int(0, 239)
		nd.Assume(at < full.n)
	} else {
		at = full.n - 240 + nd.Int(0, 239)
	}
	w := &failW{at: at}
	switch nd.Choice(4) {
	case 0:
		w.err, w.sticky = errPlain, true
	case 1:
		w.err = errTyped
	case 2:
		w.err, w.short = io.EOF, true
	case 3:
		w.err, w.sticky, w.short = errTyped2, true, true
	}
	err = gql.Format(w, t)
	nd.Assert(err != nil, "a failing write is not reported")
	nd.Assert(err == w.err, "the error returned is not the writer's")
	nd.Assert(w.after == 0, "a write follows the failing one")
	nd.Assert(len(w.out) <= len(full.out) && w.out == full.out[:len(w.out)], "what was written is not a prefix of the output")
}

// P10_Literal: one operand of every kind.
func P10_Literal() {
	l := small()
	c := place(l)
	failing(c.pre + l.text + c.post)
}

// P10_Rule: the rules that cover the grammar.
func P10_Rule() { failing(rules[nd.Choice(len(rules))]) }

// P10_Geometry: geometries of every kind and size class.
func P10_Geometry() {
	k := coords(0, nil)
	n := []int{1, 2, 5, 7, 11}[nd.Choice(5)]
	var l lit
	switch nd.Choice(5) {
	case 0:
		l = pointLit(k, nd.Bool())
	case 1:
		l = lineLit(n, k, nd.Bool())
	case 2:
		l = polygonLit(k, n, 2)
	case 3:
		l = multiLit(gql.GEOMETRY_MULTILINE, lineLit(n, k, true), lineLit(1, k, false))
	case 4:
		l = collectionLit(pointLit(k, true), lineLit(n, k, false), multiLit(gql.GEOMETRY_MULTIPOLYGON, polygonLit(k, n)))
	}
	if nd.Bool() {
		failing("trigger set v = " + l.text + "; when a")
	} else {
		failing("when a nearby " + l.text)
	}
}

// P10_Calendar: calendar literals, lists and ranges of every kind.
func P10_Calendar() {
	k, i := nd.Choice(4), nd.Choice(3)
	item := func(j int) string { return calSamples[k][(i+j)%3].text }
	s := calWords[k] + "[" + item(0)
	switch nd.Choice(4) {
	case 1:
		s += ", " + item(1)
	case 2:
		s += "," + item(1) + "," + item(2)
	case 3:
		s += " .. " + item(1)
	}
	s += "]"
	c := ctxs[nd.Choice(2)]
	failing(c.pre + s + c.post)
}

// P10_Scalar: every spelling of the scalars.
func P10_Scalar() {
	if nd.Tier() == 0 {
		return
	}
	l := anyLit(nd.Choice(12))
	failing("when a == " + l.text)
}

// P10_Clauses: every combination of clauses.
func P10_Clauses() {
	s := nd.OneOf("when a", "trigger set v = 1; when a", "trigger set v = [1 .. 2]; w = [\"x\", \"y\"] when a")
	s += nd.OneOf("", " repeat 3", " repeat 3 every 10s", " repeat 3 every 1h5m")
	s += nd.OneOf("", " reset after 1h", " reset after 1.5s")
	failing(s)
}

// P10_Selector: device ids and properties of every number.
func P10_Selector() {
	s := "s" + nd.OneOf("", "{*}", "{\"a\"}", "{\"b\",\"a\", *}", "{\"a\",\"b\",\"c\",\"d\",\"e\"}", "{\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\",\"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb\"}")
	s += nd.OneOf("", ":1km", ":1km, 2h, 10%", ":1 .. 2, \"x\"")
	failing(nd.OneOf("when (", "when (a == ", "trigger set v = 1; when (a > ") + s + ")")
}

// P10_Errors: whatever the error is, also one of the standard library, an empty
// or a wrapped one.
func P10_Errors() {
	errs := []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress, io.ErrClosedPipe, errors.New(""), errTyped, errTyped2, errors.Join(io.EOF, errPlain), gqlErr}
	t := parse([]string{"when a", "trigger set v = [1, 2]; when a{\"x\"} repeat 2 every 3s reset after 4s", "when point[1, 2]:3M or a in time[1:02 .. 2:03]"}[nd.Choice(3)])
	if t == nil {
		return
	}
	full := &failW{at: 1 << 30}
	if gql.Format(full, t) != nil {
		bad("formatting fails although no write fails")
		return
	}
	w := &failW{at: nd.Int(0, 63), err: errs[nd.Choice(len(errs))], sticky: nd.Bool()}
	nd.Assume(w.at < full.n)
	err := gql.Format(w, t)
	nd.Assert(err != nil, "a failing write is not reported")
	nd.Assert(err == w.err, "the error returned is not the writer's")
	nd.Assert(w.after == 0, "a write follows the failing one")
	nd.Assert(w.out == full.out[:len(w.out)], "what was written is not a prefix of the output")
}

var gqlErr error = &gql.Error{Msg: "own"}

// P10_Nest: operands of any kind inside others.
func P10_Nest() {
	if src, ok := nested(1 + nd.Tier()); ok {
		failing(src)
	}
}
