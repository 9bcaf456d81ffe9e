package main

import (
	"sort"
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// canonical rules, as tokens in the spelling Format uses.
var canonical = [][]string{
	strings.Fields("TRIGGER SET v = 1 ; w = [ 1 , 2 ] ; u = 1 .. 2 ; WHEN a == @v"),
	strings.Fields("TRIGGER SET p = point [ 1.5 , -2 ] : 3M ; q = line [ [ 1 , 2 ] , [ 3 , 4 ] ] : 2M ; WHEN g nearby @p"),
	strings.Fields("TRIGGER WHEN ( a + k * 2 ) >= -3 and not_x not in [ \"x\" , \"y\" ] or d != true"),
	strings.Fields("TRIGGER WHEN s { * , \"a\" } : 1Km , 20s in 10Kph .. 40Kph REPEAT 3 every 10s RESET after 30s"),
	strings.Fields("TRIGGER WHEN t in time [ 9:01AM .. 12:12PM ] and d in date [ 2030-10-12 , 2031-11-13 ] and w in weekday [ Sun , Fri ] or n in month [ Jan .. Feb ]"),
	strings.Fields("TRIGGER WHEN g intersects polygon [ [ [ 1 , 2 ] , [ 3 , 4 ] ] , [ [ 5 , 6 ] ] ] RESET after 30s"),
	strings.Fields("TRIGGER WHEN collection [ multipoint [ point [ 1 , 2 ] : 3M , point [ 3 , 4 ] ] , multiline [ line [ [ 1 , 2 ] ] ] , polygon [ [ [ 1 , 2 ] ] ] ] not intersects b REPEAT 3"),
	strings.Fields("TRIGGER WHEN ( ( a rem 2 - @r / 10% ) < -3F ) and ( b in [ 1 .. 2 , 3 .. -4 ] ) == false"),
}

var vocab = []string{
	"(", ")", "[", "]", "{", "}", ",", ";", ":", "..", "=", "==", "+", "-", "*", "/", "<", "!", ".", "@", "@k",
	"not", "not in", "and", "rem", "1", "-2", "1.5", "3M", "20s", "\"x\"", "\"x", "true", "abc",
	"point", "line", "time", "date", "month", "multipoint", "collection", "TRIGGER", "SET", "WHEN", "REPEAT", "RESET", "every", "after",
	"#", "é", "\\", "//", "/*", "'", "`", "\x00", "nearby", "2030-10-12", "9:00AM", "Sun",
}

// squeeze removes white space.
func squeeze(s string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' && s[i] != '\t' && s[i] != '\n' && s[i] != '\r' {
			b = append(b, s[i])
		}
	}
	return string(b)
}

func isNum(t string) bool {
	if strings.HasPrefix(t, "-") {
		t = t[1:]
	}
	return t != "" && t[0] >= '0' && t[0] <= '9'
}

// ends reports whether a token may end an operand.
func ends(t string) bool {
	switch t {
	case ")", "]", "}", "\"x\"", "\"y\"", "*":
		return true
	case "and", "or", "rem", "in", "not in", "nearby", "intersects", "not intersects", "not", "every", "after", "WHEN", "REPEAT", "RESET", "SET":
		return false
	}
	return isNum(t) || t[0] == '@' || t[0] == '+' && len(t) > 1 || t[0] >= 'a' && t[0] <= 'z'
}

// normal is the text of the tokens of an accepted rule as Format writes it: a
// semicolon ends every variable, a leading plus of other numbers than
// temperatures, an empty SET, a bare REPEAT and the device list of the current
// device only and comments are left out, device ids are sorted and unique, and the colon
// between integers of a list is a comma.
func normal(ts []string) string {
	var out []string
	put := func(t string) { out = append(out, t) }
	if len(ts) > 0 && ts[0] != "TRIGGER" {
		put("TRIGGER")
	}
	set := false
	var frames []string
	for i, t := range ts {
		if t == "//" {
			ts = ts[:i] // a comment
			break
		}
	}
	for i := 0; i < len(ts); i++ {
		t := ts[i]
		prev, next := "", ""
		if i > 0 {
			prev = ts[i-1]
		}
		if i+1 < len(ts) {
			next = ts[i+1]
		}
		switch {
		case t == "SET" && i < 2:
			set = true
			if next != "WHEN" {
				put(t)
			}
		case set && (t == "WHEN" || next == "="):
			if prev != "SET" && prev != ";" {
				put(";")
			}
			put(t)
			if t == "WHEN" {
				set = false
			}
		case t == "REPEAT" && (next == "" || next == "RESET"):
		case t == "+" && (!ends(prev) || prev == "*") && isNum(next) && !strings.HasSuffix(next, "F"):
		case t == "[":
			f := ""
			if prev == "" || !(prev[0] >= 'a' && prev[0] <= 'z') || !isWord(prev) {
				f = "list"
			}
			if len(frames) > 0 && frames[len(frames)-1] != "list" {
				f = ""
			}
			frames = append(frames, f)
			put(t)
		case t == "]":
			if len(frames) > 0 {
				frames = frames[:len(frames)-1]
			}
			put(t)
		case t == ":" && len(frames) > 0 && frames[len(frames)-1] == "list" && (prev == "1" || prev == "2" || prev == "-2"):
			put(",")
		case t == "{":
			wild := false
			ids := map[string]bool{}
			j := i + 1
			for ; j < len(ts) && ts[j] != "}"; j++ {
				if ts[j] == "*" {
					wild = true
				} else if ts[j] != "," {
					ids[ts[j]] = true
				}
			}
			if len(ids) > 0 {
				var l []string
				for k := range ids {
					l = append(l, k)
				}
				sort.Strings(l)
				if wild {
					l = append([]string{"*"}, l...)
				}
				put("{" + strings.Join(l, ",") + "}")
			}
			i = j
		default:
			put(t)
		}
	}
	return squeeze(strings.Join(out, ""))
}

func isWord(t string) bool {
	switch t {
	case "point", "line", "polygon", "multipoint", "multiline", "multipolygon", "collection", "date", "time", "month", "weekday":
		return true
	}
	return false
}

// kept is the property of P07 for the tokens of one rule.
func kept(ts []string) {
	text := join(ts)
	nd.Observe(text)
	st, err := gql.Parse(text)
	if err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Cover("accepted")
	f, ok := format(st.(*gql.Trigger))
	if !ok {
		return
	}
	nd.Assert(lower(squeeze(f)) == lower(normal(ts)), "the accepted rule has other tokens than its text")
}

// P07_Rule: the canonical rules are accepted and kept.
func P07_Rule() {
	ts := canonical[nd.Choice(len(canonical))]
	text := join(ts)
	t := parse(text)
	if t == nil {
		return
	}
	f, _ := format(t)
	nd.Assert(squeeze(f) == squeeze(text), "the accepted rule has other tokens than its text")
}

// P07_Edit: one token removed, replaced, swapped or inserted.
func P07_Edit() {
	ts, _ := edit(canonical[nd.Choice(len(canonical))], vocab)
	kept(ts)
}

// P07_Edit2: two such edits.
func P07_Edit2() {
	if nd.Tier() == 0 {
		return
	}
	few := []string{"(", ")", "]", ",", ";", ":", "-", "1", "abc", "and", "WHEN"}
	ts, _ := edit(canonical[nd.Choice(len(canonical))], few)
	ts, _ = edit(ts, few)
	kept(ts)
}

// P07_Remove: any two parts of a rule removed, or one part repeated.
func P07_Remove() {
	ts := canonical[nd.Choice(len(canonical))]
	n := len(ts)
	i := nd.Choice(n)
	j := i + 1 + nd.Choice(4)
	nd.Assume(j <= n)
	if nd.Bool() {
		kept(append(append([]string{}, ts[:j]...), ts[i:]...))
		return
	}
	k := nd.Choice(n - j + 1)
	l := append(append([]string{}, ts[:i]...), ts[j:]...)
	p := i + k
	if p < len(l) {
		l = append(append([]string{}, l[:p]...), l[p+1:]...)
	}
	kept(l)
}

// P07_Tokens: tokens in any order after every beginning.
func P07_Tokens() {
	s := []string{
		"WHEN", "WHEN a", "WHEN a ==", "WHEN ( a", "WHEN [ 1", "WHEN [ abc", "WHEN a { \"x\"", "WHEN a : 1", "WHEN 1 ..", "WHEN a == 1 REPEAT", "WHEN a REPEAT 3", "WHEN a REPEAT 3 every",
		"WHEN a RESET after", "WHEN a RESET after 3s", "TRIGGER SET v =", "SET v = 1", "TRIGGER SET v = 1 ; w", "WHEN point [ 1", "WHEN point [ 1 , 2 ]", "WHEN time [ 9:00AM", "WHEN date [ 2030-10-12 ..", "WHEN month [", "WHEN @",
	}[nd.Choice(23)]
	ts := strings.Fields(s)
	n := 2
	if nd.Tier() > 0 {
		n = 2 + nd.Choice(2)
	}
	few := []string{"(", ")", "[", "]", "{", "}", ",", ";", ":", "..", "=", "+", "-", "*", "!", "@k", "not", "not in", "and", "1", "-2", "1.5", "3M", "\"x\"", "\"x", "true", "abc", "WHEN", "REPEAT", "RESET", "every", "after", "\x00"}
	for i := 0; i < n; i++ {
		ts = append(ts, few[nd.Choice(len(few))])
	}
	kept(ts)
}

// P07_Byte: an arbitrary byte anywhere that is no letter, digit, white space,
// dot, plus, colon or semicolon.
func P07_Byte() {
	ts := canonical[nd.Choice(len(canonical))]
	text := join(ts)
	i := nd.Choice(len(text) + 1)
	b := nd.Byte(0, 255)
	nd.Assume(b < '0' || b > '9')
	nd.Assume(b < 'a' || b > 'z')
	nd.Assume(b < 'A' || b > 'Z')
	nd.Assume(b != ' ' && b != '\t' && b != '\n' && b != '\r' && b != '.' && b != '/' && b != '+' && b != ':' && b != ';' && b != '_')
	s := text[:i] + string([]byte{b}) + text[i:]
	nd.Observe(s)
	st, err := gql.Parse(s)
	if err != nil {
		return
	}
	f, ok := format(st.(*gql.Trigger))
	if ok {
		nd.Assert(lower(squeeze(f)) == lower(squeeze(s)), "the accepted rule has other characters than its text")
	}
}

// P07_After: anything after the end of a rule.
func P07_After() {
	base := []string{"WHEN a", "WHEN a == 1", "WHEN ( a )", "WHEN a in [ 1 ]", "WHEN a REPEAT 3", "WHEN a REPEAT 3 every 10s", "WHEN a RESET after 1h", "WHEN a { \"x\" }", "WHEN a == \"x\"", "WHEN a == point [ 1 , 2 ]", "WHEN a == @v", "WHEN a == month [ Jan ]"}[nd.Choice(12)]
	c := nd.ByteOf("!\"#$&',;?@\\]^`|}~_abz019\x00\x7f\x80\xff")
	s := base + " " + string([]byte{c}) + nd.OneOf("", " ", "a", " a", "1", "\n1")
	nd.Observe(s)
	_, err := gql.Parse(s)
	if strings.HasSuffix(base, "1") || strings.HasSuffix(base, "3") {
		// the letters may be a unit
		nd.Assume(c != 'a' && c != 'b' && c != 'z' && c != '_')
	}
	if strings.HasSuffix(base, "Jan ]") || strings.HasSuffix(base, "\"x\"") || err == nil {
		nd.Assert(err != nil, "text after the end of the rule is accepted")
	}
}

// P07_List: the elements of every list are kept: all of them, in their order,
// also when some are the same.
func P07_List() {
	lists := []struct{ pre, post, a, b, c string }{
		{"WHEN a in month [", "]", "Jan", "feb", "Dec"},
		{"WHEN a in weekday [", "]", "Sun", "mon", "Sat"},
		{"WHEN a in date [", "]", "2030-10-12", "2031-01-01", "2022-12-31"},
		{"WHEN a in time [", "]", "9:01AM", "12:12PM", "23:59"},
		{"WHEN a in month [ Jan ..", "]", "Jan", "Feb", "Dec"},
		{"WHEN a in [", "]", "1", "-2", "0"},
		{"WHEN a in [", "]", "1.5", "-2.5", "0.1"},
		{"WHEN a in [", "]", "3M", "2Km", "1M"},
		{"WHEN a in [", "]", "20s", "1s", "1m0s"},
		{"WHEN a in [", "]", "1C", "-2F", "0C"},
		{"WHEN a in [", "]", `"x"`, `"y"`, `"X"`},
		{"WHEN a in [", "]", "@a", "@b", "@A"},
		{"WHEN a in [", "]", "1 .. 2", "2 .. 1", "1 .. 1"},
		{"WHEN a in [", "]", "time [ 9:01AM ]", "time [ 9:02AM , 9:01AM ]", "time [ 9:01AM .. 9:02AM ]"},
		{"WHEN a in [", "]", "point [ 1 , 2 ]", "point [ 1 , 2 ] : 3M", "point [ 2 , 1 ]"},
		{"WHEN a in line [", "]", "[ 1 , 2 ]", "[ 2 , 1 ]", "[ -1 , 2 ]"},
		{"WHEN a in polygon [ [", "] ]", "[ 1 , 2 ]", "[ 2 , 1 ]", "[ 1.5 , 2 ]"},
		{"WHEN a in polygon [", "]", "[ [ 1 , 2 ] ]", "[ [ 1 , 2 ] , [ 1 , 2 ] ]", "[ [ 2 , 1 ] ]"},
		{"WHEN a in multipoint [", "]", "point [ 1 , 2 ]", "point [ 1 , 2 ] : 3M", "point [ 2 , 1 ]"},
		{"WHEN a in multiline [", "]", "line [ [ 1 , 2 ] ]", "line [ [ 1 , 2 ] ] : 3M", "line [ [ 1 , 2 ] , [ 1 , 2 ] ]"},
		{"WHEN a in multipolygon [", "]", "polygon [ [ [ 1 , 2 ] ] ]", "polygon [ [ [ 1 , 2 ] ] , [ [ 1 , 2 ] ] ]", "polygon [ [ [ 2 , 1 ] ] ]"},
		{"WHEN a in collection [", "]", "point [ 1 , 2 ]", "multipoint [ point [ 1 , 2 ] ]", "line [ [ 1 , 2 ] ]"},
		{"WHEN a :", "> 1", "1", "3M", `"x"`},
		{"WHEN a :", "> 1", "1", "@a", "1 .. 2"},
		{"WHEN a {", "}", `"x"`, "*", `"y"`},
	}
	l := lists[nd.Choice(len(lists))]
	text := l.pre
	n := 1 + nd.Choice(4+nd.Tier())
	for i := 0; i < n; i++ {
		if i > 0 {
			text += " ,"
		}
		text += " " + []string{l.a, l.b, l.c}[nd.Choice(3)]
	}
	kept(strings.Fields(text + " " + l.post))
}

// P07_Same: the same condition, clause or variable value repeated is kept.
func P07_Same() {
	xs := []string{"a", "1", "-2.5", `"x"`, "@v", "( a )", "( a + 1 )", "[ 1 , 1 ]", "time [ 9:01AM ]", "point [ 1 , 2 ] : 3M", "1 .. 1", "true", "a : 1", "20s"}
	ops := []string{"and", "or", "==", "+", "-", "*", "/", "rem", "in", "not in", "nearby", "<", ">="}
	x := xs[nd.Choice(len(xs))]
	o := " " + ops[nd.Choice(len(ops))] + " "
	var text string
	switch nd.Choice(7) {
	case 0:
		text = "WHEN " + x + o + x
	case 1:
		text = "WHEN " + x + o + x + o + x
	case 2:
		text = "WHEN ( " + x + o + x + " ) " + o + " ( " + x + o + x + " )"
	case 3:
		text = "WHEN ( ( " + x + " ) )" + o + "( ( ( " + x + " ) ) )"
	case 4:
		text = "WHEN " + x + o + x + " and " + x + o + x
	case 5:
		text = "WHEN " + x + o + x + " or " + x + o + x + " REPEAT 20 every 20s RESET after 20s"
	case 6:
		nd.Assume(x[0] != '@' && x[0] != 'a' && x[0] != '(')
		text = "TRIGGER SET v = " + x + " ; w = " + x + " ; V = " + x + " ; WHEN " + x + o + "@v" + o + "@w" + o + "@v"
	}
	ts := strings.Fields(text)
	kept(ts)
}

// P07_Zero: zero counts, times and values are kept as any other one.
func P07_Zero() {
	n := []string{"0", "1", "20", "-1", "300"}
	d := []string{"0s", "1s", "1m0s", "20s", "1h0m0s", "24h0m0s"}
	text := "WHEN a == " + []string{"0", "-0.5", "0M", "0Km", "0Kph", "0Bar", "0%", "0F", "+0C", "-0F", "0s", "\"\"", "0 .. 0", "[ 0 , 0 ]", "point [ 0 , 0 ] : 0M", "@v0", "time [ 00:00 ]"}[nd.Choice(17)]
	switch nd.Choice(4) {
	case 1:
		text += " REPEAT " + n[nd.Choice(len(n))]
	case 2:
		text += " REPEAT " + n[nd.Choice(len(n))] + " every " + d[nd.Choice(len(d))]
	}
	if nd.Bool() {
		text += " RESET after " + d[nd.Choice(len(d))]
	}
	if nd.Bool() {
		text = "TRIGGER SET v = " + []string{"0", "0M", "0s", "[ 0 ]", "\"\""}[nd.Choice(5)] + " ; " + text
	}
	kept(strings.Fields(text))
}
