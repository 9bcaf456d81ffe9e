package main

import (
	"time"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// smallDur is a duration with few cases.
func smallDur() lit {
	s, v := digs(1)
	n := 2
	if nd.Tier() > 0 {
		n = 4
	}
	switch nd.Choice(n) {
	case 0:
		return lit{s + "s", &gql.DurationTyp{Val: time.Duration(v) * time.Second}}
	case 1:
		return lit{"1" + s + "m", &gql.DurationTyp{Val: time.Duration(10+v) * time.Minute}}
	case 2:
		return lit{"0." + s + "h", &gql.DurationTyp{Val: time.Duration(v) * 6 * time.Minute}}
	}
	return lit{"2h" + s + "m", &gql.DurationTyp{Val: 2*time.Hour + time.Duration(v)*time.Minute}}
}

// clauses is a rule with an arbitrary combination of clauses, and its tree. In
// the quick tier either the variables or the other clauses are arbitrary.
func clauses() (string, *gql.Trigger) {
	t := &gql.Trigger{}
	s := ""
	nv := nd.Choice(4)
	focus := nd.Bool()
	if nd.Tier() > 0 {
		focus = true
	}
	if nv > 0 || nd.Bool() {
		s = "trigger "
	}
	if nv > 0 {
		s += "set "
	}
	for i := 0; i < nv; i++ {
		n := string([]byte{'z' - byte(i), nd.ByteOf(wordch)})
		l := tiny([]int{0, 13, 8}[i])
		if focus && (i == nv-1 || nd.Tier() > 0) {
			l = tiny([]int{4, 16, 11, 15, 19}[nd.Choice(5)])
		}
		sep := "; "
		if focus && i == nv-1 {
			sep = nd.OneOf("; ", " ", ";\n\t", " ;")
		} else if i == 0 {
			sep = " "
		}
		s += n + " = " + l.text + sep
		t.Vars = append(t.Vars, &gql.Assign{Left: &gql.Ident{Val: n}, Right: l.node})
	}
	if nd.Tier() > 0 {
		focus = false
	}
	dur := func() lit {
		if focus {
			return lit{"90m", &gql.DurationTyp{Val: 90 * time.Minute}}
		}
		return smallDur()
	}
	a := string([]byte{nd.ByteOf("zZ_")})
	w := lit{a, &gql.Selector{Ident: lower(a), Wildcard: true}}
	s += "when " + w.text
	t.When = w.node
	if nd.Bool() {
		n := 2
		if !focus {
			n = 1 + nd.Choice(2)
		}
		c, v := digs(n)
		s += " repeat " + c
		t.RepeatCount = &gql.IntTyp{Val: v}
		if nd.Bool() {
			d := dur()
			s += " every " + d.text
			t.RepeatInterval = d.node
		}
	}
	if nd.Bool() {
		d := dur()
		s += " reset after " + d.text
		t.ResetAfter = d.node
	}
	return s, t
}
