package main

import (
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// parse parses a rule that has to be accepted.
func parse(s string) *gql.Trigger {
	st, err := gql.Parse(s)
	if err != nil || st == nil {
		nd.Observe(s)
		nd.Assert(false, "a valid rule is rejected")
		return nil
	}
	t, ok := st.(*gql.Trigger)
	nd.Assert(ok && t != nil, "an accepted rule is a trigger")
	return t
}

func format(t *gql.Trigger) (string, bool) {
	var sb strings.Builder
	err := gql.Format(&sb, t)
	nd.Assert(err == nil, "formatting an accepted rule fails")
	return sb.String(), err == nil
}

func bad(msg string) { nd.Assert(false, msg) }

// sameUnit etc. compare everything but source positions.
func sameDist(a, b *gql.DistanceTyp, msg string) {
	if a == nil || b == nil {
		nd.Assert(a == nil && b == nil, msg+": distance present")
		return
	}
	nd.Assert(a.Val == b.Val, msg+": distance value")
	nd.Assert(a.U == b.U, msg+": distance unit")
}

func sameList(a, b []gql.Expr, msg string) {
	nd.Assert(len(a) == len(b), msg+": number of elements")
	if len(a) != len(b) {
		return
	}
	for i := range a {
		same(a[i], b[i], msg)
	}
}

func samePos(a, b [][2]float64, msg string) {
	nd.Assert(len(a) == len(b), msg+": number of positions")
	if len(a) != len(b) {
		return
	}
	for i := range a {
		nd.Assert(a[i][0] == b[i][0], msg+": x coordinate")
		nd.Assert(a[i][1] == b[i][1], msg+": y coordinate")
	}
}

// same asserts that two expressions are equal up to source positions.
func same(a, b gql.Expr, msg string) {
	switch x := a.(type) {
	case nil:
		nd.Assert(b == nil, msg+": absent clause")
		return
	case *gql.IntTyp:
		if y, ok := b.(*gql.IntTyp); ok {
			nd.Assert(x.Val == y.Val, msg+": int value")
			return
		}
	case *gql.FloatTyp:
		if y, ok := b.(*gql.FloatTyp); ok {
			nd.Assert(x.Val == y.Val, msg+": float value")
			return
		}
	case *gql.PercentTyp:
		if y, ok := b.(*gql.PercentTyp); ok {
			nd.Assert(x.Val == y.Val, msg+": percent value")
			return
		}
	case *gql.SpeedTyp:
		if y, ok := b.(*gql.SpeedTyp); ok {
			nd.Assert(x.Val == y.Val, msg+": speed value")
			nd.Assert(x.U == y.U, msg+": speed unit")
			return
		}
	case *gql.DistanceTyp:
		if y, ok := b.(*gql.DistanceTyp); ok {
			sameDist(x, y, msg)
			return
		}
	case *gql.PressureTyp:
		if y, ok := b.(*gql.PressureTyp); ok {
			nd.Assert(x.Val == y.Val, msg+": pressure value")
			nd.Assert(x.U == y.U, msg+": pressure unit")
			return
		}
	case *gql.TemperatureTyp:
		if y, ok := b.(*gql.TemperatureTyp); ok {
			nd.Assert(x.Val == y.Val, msg+": temperature value")
			nd.Assert(x.U == y.U, msg+": temperature unit")
			nd.Assert(x.Vec == y.Vec, msg+": temperature sign")
			return
		}
	case *gql.DurationTyp:
		if y, ok := b.(*gql.DurationTyp); ok {
			nd.Assert(x.Val == y.Val, msg+": duration value")
			return
		}
	case *gql.StringTyp:
		if y, ok := b.(*gql.StringTyp); ok {
			nd.Assert(x.Val == y.Val, msg+": string value")
			return
		}
	case *gql.BooleanTyp:
		if y, ok := b.(*gql.BooleanTyp); ok {
			nd.Assert(x.Val == y.Val, msg+": boolean value")
			return
		}
	case *gql.WildcardTyp:
		if _, ok := b.(*gql.WildcardTyp); ok {
			return
		}
	case *gql.Ref:
		if y, ok := b.(*gql.Ref); ok {
			nd.Assert(x.ID == y.ID, msg+": reference name")
			return
		}
	case *gql.Ident:
		if y, ok := b.(*gql.Ident); ok {
			nd.Assert(x.Val == y.Val, msg+": variable name")
			return
		}
	case *gql.DateTyp:
		if y, ok := b.(*gql.DateTyp); ok {
			nd.Assert(x.Year == y.Year, msg+": year")
			nd.Assert(x.Month == y.Month, msg+": month of date")
			nd.Assert(x.Day == y.Day, msg+": day")
			return
		}
	case *gql.TimeTyp:
		if y, ok := b.(*gql.TimeTyp); ok {
			nd.Assert(x.Hours == y.Hours, msg+": hours")
			nd.Assert(x.Minutes == y.Minutes, msg+": minutes")
			nd.Assert(x.Seconds == y.Seconds, msg+": seconds")
			nd.Assert(x.U == y.U, msg+": am/pm")
			return
		}
	case *gql.WeekdayTyp:
		if y, ok := b.(*gql.WeekdayTyp); ok {
			nd.Assert(x.Val == y.Val, msg+": weekday")
			return
		}
	case *gql.MonthTyp:
		if y, ok := b.(*gql.MonthTyp); ok {
			nd.Assert(x.Val == y.Val, msg+": month")
			return
		}
	case *gql.Range:
		if y, ok := b.(*gql.Range); ok {
			same(x.Low, y.Low, msg+": range low")
			same(x.High, y.High, msg+": range high")
			return
		}
	case *gql.ArrayTyp:
		if y, ok := b.(*gql.ArrayTyp); ok {
			nd.Assert(x.Kind == y.Kind, msg+": list kind")
			sameList(x.List, y.List, msg+": list")
			return
		}
	case *gql.ParenExpr:
		if y, ok := b.(*gql.ParenExpr); ok {
			same(x.Expr, y.Expr, msg)
			return
		}
	case *gql.BinaryExpr:
		if y, ok := b.(*gql.BinaryExpr); ok {
			nd.Assert(x.Op == y.Op, msg+": operator")
			same(x.Left, y.Left, msg)
			same(x.Right, y.Right, msg)
			return
		}
	case *gql.Selector:
		if y, ok := b.(*gql.Selector); ok {
			nd.Assert(x.Ident == y.Ident, msg+": selector name")
			nd.Assert(x.Wildcard == y.Wildcard, msg+": selector wildcard")
			nd.Assert(len(x.Args) == len(y.Args), msg+": number of device ids")
			for k := range x.Args {
				_, ok := y.Args[k]
				nd.Assert(ok, msg+": device ids")
			}
			sameList(x.Props, y.Props, msg+": selector properties")
			return
		}
	case *gql.GeometryPointTyp:
		if y, ok := b.(*gql.GeometryPointTyp); ok {
			nd.Assert(x.Val[0] == y.Val[0], msg+": point x")
			nd.Assert(x.Val[1] == y.Val[1], msg+": point y")
			sameDist(x.Radius, y.Radius, msg+": radius")
			return
		}
	case *gql.GeometryLineTyp:
		if y, ok := b.(*gql.GeometryLineTyp); ok {
			samePos(x.Val, y.Val, msg+": line")
			sameDist(x.Margin, y.Margin, msg+": margin")
			return
		}
	case *gql.GeometryPolygonTyp:
		if y, ok := b.(*gql.GeometryPolygonTyp); ok {
			nd.Assert(len(x.Val) == len(y.Val), msg+": number of rings")
			nd.Assert(y.HasHoles() == (len(x.Val) > 1), msg+": holes")
			for i := 0; i < len(x.Val) && i < len(y.Val); i++ {
				samePos(x.Val[i], y.Val[i], msg+": ring")
			}
			return
		}
	case *gql.GeometryMultiObjectTyp:
		if y, ok := b.(*gql.GeometryMultiObjectTyp); ok {
			nd.Assert(x.Kind == y.Kind, msg+": multi geometry kind")
			sameList(x.Val, y.Val, msg+": multi geometry")
			return
		}
	case *gql.GeometryCollectionTyp:
		if y, ok := b.(*gql.GeometryCollectionTyp); ok {
			sameList(x.Objects, y.Objects, msg+": collection")
			return
		}
	}
	bad(msg + ": node kind")
}

// sameRule compares two triggers up to source positions.
func sameRule(a, b *gql.Trigger, msg string) {
	nd.Assert(len(a.Vars) == len(b.Vars), msg+": number of variables")
	for i := 0; i < len(a.Vars) && i < len(b.Vars); i++ {
		same(a.Vars[i].Left, b.Vars[i].Left, msg)
		same(a.Vars[i].Right, b.Vars[i].Right, msg+": variable")
	}
	same(a.When, b.When, msg+": condition")
	same(a.RepeatCount, b.RepeatCount, msg+": repeat count")
	same(a.RepeatInterval, b.RepeatInterval, msg+": repeat interval")
	same(a.ResetAfter, b.ResetAfter, msg+": reset after")
}

// roundTrip is the property of P02 for one rule.
func roundTrip(src string) {
	t := parse(src)
	if t == nil {
		return
	}
	text, ok := format(t)
	if !ok {
		return
	}
	nd.Observe(src)
	st, err := gql.Parse(text)
	if err != nil || st == nil {
		nd.Observe(text)
		bad("the formatted rule does not parse")
		return
	}
	t2 := st.(*gql.Trigger)
	sameRule(t, t2, "parse(format(rule)) differs")
	text2, ok := format(t2)
	if ok {
		nd.Assert(text == text2, "formatting is not idempotent")
	}
}
