package main

import (
	"strconv"
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
	"verif/harness/nd"
)

// P06_Value: geometries of every kind with arbitrary coordinates.
func P06_Value() {
	captured(ctxs[0], geomLit(), "geometry")
}

// P06_Place: geometries in every place.
func P06_Place() {
	k := coords(6, func() (string, float64) { s, v := digs(1); return "-" + s, -float64(v) })
	var l lit
	switch nd.Choice(5) {
	case 0:
		l = pointLit(k, nd.Bool())
	case 1:
		l = lineLit(3, k, nd.Bool())
	case 2:
		l = polygonLit(k, 2, 1)
	case 3:
		l = multiLit(gql.GEOMETRY_MULTIPOINT, pointLit(k, true), pointLit(k, nd.Bool()), pointLit(k, false))
	case 4:
		l = collectionLit(pointLit(k, true), lineLit(1, k, true), multiLit(gql.GEOMETRY_MULTIPOLYGON, polygonLit(k, 1)))
	}
	if nd.Bool() {
		captured(ctxs[nd.Choice(len(ctxs))], l, "geometry")
	} else {
		captured(setCtxs[nd.Choice(len(setCtxs))], l, "geometry")
	}
}

// P06_Coordinate: one coordinate of any shape at any place of a geometry.
func P06_Coordinate() {
	max := 4
	if nd.Tier() > 0 {
		max = 9
	}
	ni, nf := 1+nd.Choice(max), nd.Choice(max+1)-1
	c := func() (string, float64) {
		s, _, f := number(ni, nf)
		switch nd.Choice(3) {
		case 1:
			return "-" + s, -f
		case 2:
			return "- " + s, -f
		}
		return s, f
	}
	var l lit
	switch nd.Choice(3) {
	case 0:
		l = pointLit(coords(2, c), false)
	case 1:
		l = lineLit(2, coords(4, c), false)
	case 2:
		l = polygonLit(coords(4, c), 1, 1)
	}
	captured(ctxs[0], l, "geometry")
}

// P06_Radius: the radius and the margin are the written distance.
func P06_Radius() {
	d := distLit()
	k := coords(0, nil)
	sp := nd.OneOf(":", " : ", ": ", " :")
	g := d.node.(*gql.DistanceTyp)
	s, p := position(k)
	t, q := path(2, k)
	switch nd.Choice(4) {
	case 0:
		captured(ctxs[0], lit{"point" + s + sp + d.text, &gql.GeometryPointTyp{Val: p, Radius: g}}, "radius")
	case 1:
		captured(ctxs[0], lit{"line" + t + sp + d.text, &gql.GeometryLineTyp{Val: q, Margin: g}}, "margin")
	case 2:
		captured(ctxs[0], lit{"multipoint[point" + s + sp + d.text + ", point" + s + "]",
			&gql.GeometryMultiObjectTyp{Kind: gql.GEOMETRY_MULTIPOINT, Val: []gql.Expr{&gql.GeometryPointTyp{Val: p, Radius: g}, &gql.GeometryPointTyp{Val: p}}}}, "radius")
	case 3:
		captured(ctxs[0], lit{"collection[line" + t + ", line" + t + sp + d.text + "]",
			&gql.GeometryCollectionTyp{Objects: []gql.Expr{&gql.GeometryLineTyp{Val: q}, &gql.GeometryLineTyp{Val: q, Margin: g}}}}, "margin")
	}
}

// P06_NotRadius: anything but a distance after the colon is an error.
func P06_NotRadius() {
	k := []int{0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 13, 14, 16, 19}[nd.Choice(15)]
	x := tiny(k)
	g := []string{"point[1, 2]", "line[[1, 2]]", "polygon[[[1, 2]]]", "multipoint[point[1, 2]]", "collection[point[1, 2]]"}[nd.Choice(5)]
	decides(ctxs[nd.Choice(3)], g+":"+x.text, nil, "radius")
}

// P06_Size: geometries of any number of positions, rings and members.
func P06_Size() {
	max := 12
	if nd.Tier() > 0 {
		max = 60
	}
	n := 1 + nd.Choice(max)
	m := nd.Choice(3) * (n - 1) / 2 // the member with a radius
	k := coords(2*n, func() (string, float64) {
		c := nd.ByteOf("123456789")
		return "-" + string([]byte{c}) + ".5", -(float64(int(c-'0')*10+5) / 10)
	})
	var l lit
	switch nd.Choice(5) {
	case 0:
		l = lineLit(n, k, nd.Bool())
	case 1:
		l = polygonLit(k, n)
	case 2:
		sizes := make([]int, n)
		for i := range sizes {
			sizes[i] = 1 + i%3
		}
		l = polygonLit(k, sizes...)
	case 3:
		var ms []lit
		for i := 0; i < n; i++ {
			ms = append(ms, pointLit(k, i == m))
		}
		if nd.Bool() {
			l = multiLit(gql.GEOMETRY_MULTIPOINT, ms...)
		} else {
			l = collectionLit(ms...)
		}
	case 4:
		var ms []lit
		for i := 0; i < n; i++ {
			ms = append(ms, multiLit(gql.GEOMETRY_MULTILINE, lineLit(1+i%3, k, i == m)))
		}
		l = collectionLit(ms...)
	}
	captured(ctxs[nd.Choice(2)], l, "geometry")
}

// P06_Same: positions, rings and members that may be equal.
func P06_Same() {
	max := 4
	if nd.Tier() > 0 {
		max = 6
	}
	n := 1 + nd.Choice(max)
	c := func() (string, float64) {
		if nd.Bool() {
			return "1", 1
		}
		return "2", 2
	}
	half := func() func() (string, float64) {
		i := 0
		return func() (string, float64) {
			i++
			if i%2 == 0 {
				return "5", 5
			}
			return c()
		}
	}()
	var l lit
	switch nd.Choice(5) {
	case 0:
		nd.Assume(n <= 3)
		l = lineLit(n, c, false)
	case 1:
		l = lineLit(n, half, nd.Tier() > 0)
	case 2:
		l = polygonLit(half, n, 1, n)
	case 3:
		var ms []lit
		for i := 0; i < n; i++ {
			ms = append(ms, pointLit(half, false))
		}
		if nd.Bool() {
			l = multiLit(gql.GEOMETRY_MULTIPOINT, ms...)
		} else {
			l = collectionLit(ms...)
		}
	case 4:
		k := []gql.Token{gql.GEOMETRY_MULTILINE, gql.GEOMETRY_MULTIPOLYGON}[nd.Choice(2)]
		var ms []lit
		for i := 0; i < n; i++ {
			if k == gql.GEOMETRY_MULTILINE {
				ms = append(ms, lineLit(2, half, false))
			} else {
				ms = append(ms, polygonLit(half, 1, 1))
			}
		}
		l = multiLit(k, ms...)
	}
	captured(ctxs[0], l, "geometry")
}

var geoBases = [][]string{
	{"point", "[", "1", ",", "-", "2.5", "]", ":", "3Km"},
	{"line", "[", "[", "1", ",", "2", "]", ",", "[", "-", "3", ",", "4", "]", "]", ":", "3Km"},
	{"polygon", "[", "[", "[", "1", ",", "2", "]", ",", "[", "3", ",", "4", "]", "]", ",", "[", "[", "5", ",", "6", "]", "]", "]"},
	{"multipoint", "[", "point", "[", "1", ",", "2", "]", ":", "3Km", ",", "point", "[", "3", ",", "4", "]", "]"},
	{"multiline", "[", "line", "[", "[", "1", ",", "2", "]", "]", ",", "line", "[", "[", "3", ",", "4", "]", "]", "]"},
	{"multipolygon", "[", "polygon", "[", "[", "[", "1", ",", "2", "]", "]", "]", "]"},
	{"collection", "[", "point", "[", "1", ",", "2", "]", ",", "multipoint", "[", "point", "[", "3", ",", "4", "]", "]", "]"},
}

var geoVocab = []string{"[", "]", ",", ":", "-", "5", "1.5", "3Km", "point", "line", "polygon", "multipoint", "multiline", "multipolygon", "collection", "a", "(", ")", "\"s\"", "*", "..", "+", "@", ";", "{", "3%"}

// P06_Edit: a geometry with one token removed, replaced, swapped or added is
// rejected unless it is another valid geometry, which is then what is parsed.
func P06_Edit() {
	base := geoBases[nd.Choice(len(geoBases))]
	ts, at := edit(base, geoVocab)
	// an operator after the literal makes a longer expression
	nd.Assume(at > 0 && !operator(ts))
	g := &geo{ts: ts}
	w := g.geometry(true)
	if g.fail || g.i != len(ts) {
		w = nil
	}
	decides(ctxs[0], join(ts), w, "geometry")
}

// P06_Edit2 (thorough): two edits.
func P06_Edit2() {
	if nd.Tier() == 0 {
		return
	}
	ts, at := edit(geoBases[nd.Choice(len(geoBases))], geoVocab[:12])
	nd.Assume(at > 0)
	ts, at = edit(ts, geoVocab[:12])
	nd.Assume(at > 0 && !operator(ts))
	g := &geo{ts: ts}
	w := g.geometry(true)
	if g.fail || g.i != len(ts) {
		w = nil
	}
	decides(ctxs[0], join(ts), w, "geometry")
}

// operator tells whether an operator stands where an operator may stand: after
// the closing bracket of the whole literal or after its distance.
func operator(ts []string) bool {
	d := 0
	for i, t := range ts {
		switch t {
		case "[":
			d++
		case "]":
			d--
		case "-", "*", "+", "..":
			if i > 0 && d == 0 {
				return true
			}
		}
	}
	return false
}

// geo recognises a geometry in a list of tokens.
type geo struct {
	ts   []string
	i    int
	fail bool
}

func (g *geo) peek() string {
	if g.i < len(g.ts) {
		return g.ts[g.i]
	}
	return ""
}

func (g *geo) is(s string) bool {
	if g.peek() == s {
		g.i++
		return true
	}
	return false
}

func (g *geo) must(s string) {
	if !g.is(s) {
		g.fail = true
	}
}

func (g *geo) coord() float64 {
	minus := g.is("-")
	v, err := strconv.ParseFloat(g.peek(), 64)
	if err != nil {
		g.fail = true
		return 0
	}
	g.i++
	if minus {
		v = -v
	}
	return v
}

func (g *geo) list(item func()) {
	g.must("[")
	for !g.fail {
		item()
		if g.is("]") {
			return
		}
		g.must(",")
	}
}

func (g *geo) pos() (p [2]float64) {
	g.must("[")
	p[0] = g.coord()
	g.must(",")
	p[1] = g.coord()
	g.must("]")
	return
}

func (g *geo) path() (p [][2]float64) {
	g.list(func() { p = append(p, g.pos()) })
	return
}

func (g *geo) dist() *gql.DistanceTyp {
	if !g.is(":") {
		return nil
	}
	g.must("3Km")
	return &gql.DistanceTyp{Val: 3, U: gql.Kilometer}
}

func (g *geo) geometry(coll bool) gql.Expr {
	if g.fail {
		return nil
	}
	switch {
	case g.is("point"):
		p := g.pos()
		return &gql.GeometryPointTyp{Val: p, Radius: g.dist()}
	case g.is("line"):
		p := g.path()
		return &gql.GeometryLineTyp{Val: p, Margin: g.dist()}
	case g.is("polygon"):
		x := &gql.GeometryPolygonTyp{}
		g.list(func() { x.Val = append(x.Val, g.path()) })
		return x
	case g.is("multipoint"):
		return g.multi(gql.GEOMETRY_MULTIPOINT, "point")
	case g.is("multiline"):
		return g.multi(gql.GEOMETRY_MULTILINE, "line")
	case g.is("multipolygon"):
		return g.multi(gql.GEOMETRY_MULTIPOLYGON, "polygon")
	case coll && g.is("collection"):
		x := &gql.GeometryCollectionTyp{}
		g.list(func() { x.Objects = append(x.Objects, g.geometry(false)) })
		return x
	}
	g.fail = true
	return nil
}

func (g *geo) multi(k gql.Token, member string) gql.Expr {
	x := &gql.GeometryMultiObjectTyp{Kind: k}
	g.list(func() {
		if g.peek() != member {
			g.fail = true
			return
		}
		x.Val = append(x.Val, g.geometry(false))
	})
	return x
}

// P06_Member: multi geometries and collections of up to three members, one of
// any kind at any place.
func P06_Member() {
	kinds := []string{"multipoint", "multiline", "multipolygon", "collection"}
	own := []string{"point [ 1 , 2 ]", "line [ [ 1 , 2 ] , [ 3 , 4 ] ]", "polygon [ [ [ 1 , 2 ] ] ]", "multipoint [ point [ 5 , 6 ] ]"}
	others := []string{
		"point [ 7 , - 8 ]", "point [ 7 , 8 ] : 3Km", "line [ [ 7 , 8 ] ]", "line [ [ 7 , 8 ] ] : 3Km", "polygon [ [ [ 7 , 8 ] ] , [ [ 9 , 5 ] ] ]",
		"multipoint [ point [ 7 , 8 ] ]", "multiline [ line [ [ 7 , 8 ] ] ]", "multipolygon [ polygon [ [ [ 7 , 8 ] ] ] ]", "collection [ point [ 7 , 8 ] ]",
		"5", "a", "@g", "3Km", "[ 7 , 8 ]", "[ [ 7 , 8 ] ]", "( point [ 7 , 8 ] )", "*", "\"s\"", "point", "point [ ]", "line [ ]", "polygon [ ]", "polygon [ [ ] ]", "multipoint [ ]", "", "time [ 9:00AM ]", "point [ 7 , 8 ] point [ 7 , 8 ]", "point { \"d\" }",
	}
	k := nd.Choice(4)
	n, o := 1+nd.Choice(3), nd.Choice(len(others))
	at := nd.Choice(n)
	ts := []string{kinds[k], "["}
	for i := 0; i < n; i++ {
		if i > 0 {
			ts = append(ts, ",")
		}
		m := own[k]
		if i == at {
			m = others[o]
		}
		ts = append(ts, strings.Fields(m)...)
	}
	ts = append(ts, "]")
	if nd.Bool() {
		// the whole as the only or last member of a collection
		in := []string{"collection", "["}
		if nd.Bool() {
			in = append(in, "point", "[", "1", ",", "2", "]", ",")
		}
		ts = append(append(in, ts...), "]")
	}
	g := &geo{ts: ts}
	w := g.geometry(true)
	if g.fail || g.i != len(ts) {
		w = nil
	}
	decides(ctxs[nd.Choice(3)], join(ts), w, "geometry")
}

// P06_Margin: distances of any size as radius and margin.
func P06_Margin() {
	max := 7
	if nd.Tier() > 0 {
		max = 9
	}
	n := 1 + nd.Choice(max)
	d, v := digs(1)
	if nd.Bool() {
		d = strings.Repeat("0", n-1) + d
	} else {
		for i := 1; i < n; i++ {
			d, v = d+"0", v*10
		}
	}
	g := &gql.DistanceTyp{Val: float64(v), U: gql.Meter}
	if nd.Bool() {
		d, g.U = d+"Km", gql.Kilometer
	} else {
		d += "M"
	}
	w := coords(0, nil)
	s, p := position(w)
	t, q := path(2, w)
	c := ctxs[0]
	if nd.Bool() {
		c = setCtxs[0]
	}
	if nd.Bool() {
		captured(c, lit{"point" + s + ":" + d, &gql.GeometryPointTyp{Val: p, Radius: g}}, "radius")
	} else {
		captured(c, lit{"line" + t + ":" + d, &gql.GeometryLineTyp{Val: q, Margin: g}}, "margin")
	}
}
