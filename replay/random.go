package main

import (
	"math"
	"strings"
	"unicode"

	"github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/random"
)

func c23(c *ctx) {
	switch c.Intn(5) {
	case 0:
		var codes []string
		random.EachCountry(func(code, name string) { codes = append(codes, code) })
		code := codes[c.Intn(len(codes))]
		switch c.Intn(3) {
		case 0:
			code = strings.ToLower(code)
		case 1:
			code = string(rune('A'+c.Intn(26))) + string(rune('A'+c.Intn(26)))
		}
		b, err := random.BoundingBox(code)
		p, err2 := random.LatLonByCountry(code)
		c.check((err == nil) == (err2 == nil), "country %q: bounding box error %v, location error %v", code, err, err2)
		if err == nil && err2 == nil {
			c.check(b.MinLon <= b.MaxLon && b.MinLat <= b.MaxLat && b.MinLon >= -180 && b.MaxLon <= 180 && b.MinLat >= -90 && b.MaxLat <= 90, "country %q has the box %+v", code, b)
			const e = 1e-7
			c.check(p.Lon >= b.MinLon-e && p.Lon <= b.MaxLon+e && p.Lat >= b.MinLat-e && p.Lat <= b.MaxLat+e, "%+v is outside the box %+v of country %q", p, b, code)
		}
		for _, bad := range []string{"", "U", "USA", "usa", "1!", "zz", "ıı", "ı"} {
			_, err := random.LatLonByCountry(bad)
			c.check(err != nil, "a location for the unknown country %q", bad)
		}
	case 1:
		p := random.LatLon()
		c.check(math.Abs(p.Lat) <= 90 && math.Abs(p.Lon) <= 180, "random location %+v", p)
		r := rune(c.Intn(unicode.MaxRune))
		c.check(unicode.ToUpper(unicode.ToUpper(r)) == unicode.ToUpper(r), "upper-casing %q twice", r)
	case 2:
		n := c.Intn(80) - 10
		s := random.String(n)
		c.check(len(s) == max(n, 0), "random.String(%d) has length %d", n, len(s))
		for i := 0; i < len(s); i++ {
			ch := s[i]
			c.check(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9', "random.String(%d) contains %q", n, ch)
		}
	case 3:
		n := c.Intn(40) - 4
		z := []float64{0, -5, 1000, 5000, 0.5, c.Float64() * 600}[c.Intn(6)]
		c.note("random.Polygon(%d, %v)", n, z)
		p := random.Polygon(n, z)
		w := n + 1
		if n <= 0 {
			w = 17
		}
		c.check(len(p) == w, "random.Polygon(%d, %v) has %d points", n, z, len(p))
		c.check(p[0] == p[len(p)-1], "random.Polygon(%d, %v) is not closed", n, z)
		for i, q := range p {
			c.check(!math.IsNaN(q[0]) && !math.IsNaN(q[1]), "random.Polygon(%d, %v) point %d is %v", n, z, i, q)
		}
	default:
		n := c.Intn(6) - 1
		level := []int{-1, 0, 1, 10, 60, 120, 300, 600, 1000}[c.Intn(9)]
		lo, la := c.Float64()*300-150, c.Float64()*120-60
		w := n
		var r *navigator.Route
		switch c.Intn(6) {
		case 0:
			r, w, lo, la = gpsgen.RandomRouteForNewYork(), 3, -74.006, 40.7128
		case 1:
			r, w, lo, la = gpsgen.RandomRouteForMoscow(), 3, 37.621096697276414, 55.753437064373315
		case 2:
			r, w, lo, la = gpsgen.RandomRouteForParis(), 3, 2.349892200521907, 48.855323829674006
		default:
			c.note("gpsgen.RandomRoute(%v, %v, %d, %d)", lo, la, n, level)
			r = gpsgen.RandomRoute(lo, la, n, level)
		}
		if w < 0 {
			w = 1
		}
		c.check(r != nil && r.NumTracks() == w, "%d tracks instead of %d", r.NumTracks(), w)
		c.check(len(r.Name().String()) > 0, "the route has no name")
		for i := 0; i < r.NumTracks(); i++ {
			t := r.TrackAt(i)
			c.check(t.IsClosed() && len(t.Name().String()) > 0, "track %d: closed %v, name %q", i, t.IsClosed(), t.Name().String())
			// offsets of a level-600 polygon are exponentially distributed with a mean below 0.36 degrees
			for j := 0; j < t.NumSegments(); j++ {
				p := t.SegmentAt(j).PointA()
				c.check(math.Abs(p.Lat-la) < 12 && math.Abs(p.Lon-lo) < 12, "track %d has the point %+v, centre (%v, %v)", i, p, la, lo)
			}
		}
	}
}

func init() { reg("C23", c23) }
