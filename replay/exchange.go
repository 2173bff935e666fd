package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/geojson"
	"github.com/mmadfox/go-gpsgen/gpx"
	"github.com/mmadfox/go-gpsgen/navigator"
)

// ---- C14, C15: what is exported comes back ----

var names = []string{"name", "My route", "12345", "true", "1.50", "a<b>&\"c\"", "строка"}

func (c *ctx) exchangeTrack(i int, finite bool) *navigator.Track {
	n := 2 + c.Intn(4)
	var ps []geo.LatLonPoint
	for k := 0; k < n; k++ {
		ps = append(ps, geo.LatLonPoint{Lat: float64(c.Intn(1600)-800) / 10, Lon: float64(c.Intn(3400)-1700) / 10})
	}
	if n > 2 && c.Intn(2) == 0 {
		ps[n-1] = ps[0]
	}
	id := fmt.Sprintf("track%d", i)
	if c.Intn(4) == 0 {
		id = fmt.Sprint(1000 + i)
	}
	t, err := navigator.RestoreTrack(id, []string{"#ff0000", "#112233", ""}[c.Intn(3)], ps)
	if err != nil {
		panic(err)
	}
	if c.Intn(2) == 0 {
		t.ChangeName(names[c.Intn(len(names))])
	}
	if c.Intn(2) == 0 {
		t.Props().Set("key", fmt.Sprintf("value of track %d", i))
	}
	return t
}

func (c *ctx) exchangeRoutes(empty bool) []*navigator.Route {
	var out []*navigator.Route
	n := 1 + c.Intn(4)
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("route%d", i)
		if c.Intn(4) == 0 {
			id = fmt.Sprint(77 + i)
		}
		r := navigator.RestoreRoute(id, []string{"#00ff00", "#000001", ""}[c.Intn(3)], nil)
		if c.Intn(2) == 0 {
			r.ChangeName(names[c.Intn(len(names))])
		}
		if c.Intn(2) == 0 {
			r.Props().Set("info", fmt.Sprintf("value of route %d", i))
		}
		m := 1 + c.Intn(3)
		if empty && c.Intn(5) == 0 {
			m = 0
		}
		for k := 0; k < m; k++ {
			r.AddTrack(c.exchangeTrack(10*i+k, true))
		}
		out = append(out, r)
	}
	return out
}

func points(t *navigator.Track) []geo.LatLonPoint {
	var out []geo.LatLonPoint
	for i := 0; i < t.NumSegments(); i++ {
		out = append(out, t.SegmentAt(i).PointA())
		if i == t.NumSegments()-1 {
			out = append(out, t.SegmentAt(i).PointB())
		}
	}
	return out
}

func (c *ctx) sameRoutes(what string, a, b []*navigator.Route) {
	if !c.check(len(a) == len(b), "%s: %d routes became %d", what, len(a), len(b)) {
		return
	}
	for i := range a {
		x, y := a[i], b[i]
		c.check(x.ID() == y.ID() && x.Color() == y.Color() && x.Name().String() == y.Name().String(), "%s: route %d: %q %q %q became %q %q %q", what, i, x.ID(), x.Color(), x.Name().String(), y.ID(), y.Color(), y.Name().String())
		c.check(fmt.Sprint(x.Props()) == fmt.Sprint(y.Props()), "%s: route %d: properties %v became %v", what, i, x.Props(), y.Props())
		c.check(close6(x.Distance(), y.Distance()), "%s: route %d: distance %v became %v", what, i, x.Distance(), y.Distance())
		if !c.check(x.NumTracks() == y.NumTracks(), "%s: route %d: %d tracks became %d", what, i, x.NumTracks(), y.NumTracks()) {
			return
		}
		for k := 0; k < x.NumTracks(); k++ {
			s, t := x.TrackAt(k), y.TrackAt(k)
			c.check(s.ID() == t.ID() && s.Color() == t.Color() && s.Name().String() == t.Name().String(), "%s: route %d track %d: %q %q %q became %q %q %q", what, i, k, s.ID(), s.Color(), s.Name().String(), t.ID(), t.Color(), t.Name().String())
			c.check(fmt.Sprint(s.Props()) == fmt.Sprint(t.Props()), "%s: route %d track %d: properties %v became %v", what, i, k, s.Props(), t.Props())
			c.check(fmt.Sprint(points(s)) == fmt.Sprint(points(t)), "%s: route %d track %d: points %v became %v", what, i, k, points(s), points(t))
			c.check(s.IsClosed() == t.IsClosed(), "%s: route %d track %d: closed %v became %v", what, i, k, s.IsClosed(), t.IsClosed())
		}
	}
}

func c14(c *ctx) {
	rs := c.exchangeRoutes(true)
	var kept []*navigator.Route
	for _, r := range rs {
		if r.NumTracks() > 0 {
			kept = append(kept, r)
		}
	}
	data, err := geojson.Encode(rs)
	if !c.check(err == nil, "geojson.Encode: %v", err) {
		return
	}
	c.note("%s", data)
	// the document itself, read without this module
	var doc struct {
		Type     string
		Features []struct {
			Type     string
			Geometry struct {
				Type        string
				Coordinates interface{}
				Geometries  []struct {
					Type        string
					Coordinates interface{}
				}
			}
			Properties map[string]interface{}
		}
	}
	if !c.check(json.Unmarshal(data, &doc) == nil, "the document is not JSON") {
		return
	}
	if !c.check(len(doc.Features) == len(kept), "%d features for %d routes with tracks", len(doc.Features), len(kept)) {
		return
	}
	for i, f := range doc.Features {
		r := kept[i]
		gs := f.Geometry.Geometries
		if r.NumTracks() == 1 {
			gs = append(gs, struct {
				Type        string
				Coordinates interface{}
			}{f.Geometry.Type, f.Geometry.Coordinates})
		}
		if !c.check(len(gs) == r.NumTracks(), "feature %d has %d geometries for %d tracks", i, len(gs), r.NumTracks()) {
			return
		}
		c.check(f.Properties["routeID"] == r.ID() && f.Properties["color"] == r.Color() && f.Properties["name"] == r.Name().String(), "feature %d has the properties %v", i, f.Properties)
		c.check(f.Properties["numTracks"] == float64(r.NumTracks()) && close6(f.Properties["distance"].(float64), r.Distance()), "feature %d has the properties %v", i, f.Properties)
		for k, g := range gs {
			t := r.TrackAt(k)
			var ps [][]float64
			for _, p := range points(t) {
				ps = append(ps, []float64{p.Lon, p.Lat})
			}
			w := "LineString"
			var want interface{} = ps
			if t.IsClosed() {
				w, want = "Polygon", []interface{}{ps}
			}
			c.check(g.Type == w && fmt.Sprint(g.Coordinates) == fmt.Sprint(want), "feature %d geometry %d is a %s %v, want %s %v", i, k, g.Type, g.Coordinates, w, want)
		}
	}
	back, err := geojson.Decode(data)
	if !c.check(err == nil, "geojson.Decode: %v", err) {
		return
	}
	c.sameRoutes("GeoJSON", kept, back)
}

func c15(c *ctx) {
	rs := c.exchangeRoutes(false)
	data, err := gpx.Encode(rs)
	if !c.check(err == nil, "gpx.Encode: %v", err) {
		return
	}
	c.note("%s", data)
	c.check(strings.Count(string(data), "<trk>") == len(rs), "%d track elements for %d routes", strings.Count(string(data), "<trk>"), len(rs))
	back, err := gpx.Decode(data)
	if !c.check(err == nil, "gpx.Decode: %v", err) {
		return
	}
	c.sameRoutes("GPX", rs, back)
}

// ---- C16: documents of all kinds ----

func (c *ctx) coords(depth int) interface{} {
	switch {
	case c.Intn(25) == 0:
		return nil
	case depth == 0:
		return []float64{float64(c.Intn(170)), float64(c.Intn(80))}
	}
	out := make([]interface{}, 0)
	n := c.Intn(4)
	if c.Intn(2) == 0 {
		n += 2
	}
	for ; n > 0; n-- {
		out = append(out, c.coords(depth-1))
	}
	return out
}

func (c *ctx) geometry(depth int) interface{} {
	kinds := map[string]int{"Point": 0, "MultiPoint": 1, "LineString": 1, "MultiLineString": 2, "Polygon": 2, "MultiPolygon": 3}
	names := []string{"LineString", "LineString", "LineString", "Polygon", "Polygon", "MultiLineString", "MultiPolygon", "MultiPoint", "Point"}
	if c.Intn(20) == 0 {
		return nil
	}
	if depth > 0 && c.Intn(2) == 0 {
		gs := make([]interface{}, 0)
		for n := c.Intn(4); n > 0; n-- {
			gs = append(gs, c.geometry(depth-1))
		}
		return map[string]interface{}{"type": "GeometryCollection", "geometries": gs}
	}
	k := names[c.Intn(len(names))]
	return map[string]interface{}{"type": k, "coordinates": c.coords(kinds[k])}
}

func (c *ctx) anything(v interface{}) interface{} {
	switch c.Intn(12) {
	case 0:
		return nil
	case 1:
		return c.Intn(5)
	case 2:
		return []interface{}{}
	case 3:
		return ""
	}
	return v
}

func (c *ctx) feature() interface{} {
	if c.Intn(15) == 0 {
		return nil
	}
	f := map[string]interface{}{"type": "Feature", "geometry": c.geometry(2)}
	ps := map[string]interface{}{"info": "x"}
	if c.Intn(2) == 0 {
		ps["routeID"] = c.anything("r1")
		ps["color"] = c.anything("#ff0000")
		ps["name"] = c.anything("route name")
		var ts []interface{}
		for n := c.Intn(4); n > 0; n-- {
			t := map[string]interface{}{"trackID": c.anything("t1"), "color": c.anything("#ff0000"), "name": c.anything("track name"), "properties": c.anything(map[string]interface{}{"a": 1})}
			ts = append(ts, c.anything(t))
		}
		ps["tracksInfo"] = c.anything(ts)
	}
	f["properties"] = c.anything(ps)
	if c.Intn(20) == 0 {
		delete(f, "geometry")
	}
	if c.Intn(20) == 0 {
		f["type"] = "Thing"
	}
	return f
}

func (c *ctx) validRoutes(rs []*navigator.Route) {
	for i, r := range rs {
		if !c.check(r != nil, "route %d is nil", i) {
			return
		}
		r.EachTrack(func(k int, t *navigator.Track) bool {
			c.check(t != nil && t.NumSegments() >= 1, "route %d track %d is nil or empty", i, k)
			return true
		})
	}
}

func c16json(c *ctx) {
	fs := make([]interface{}, 0)
	for n := c.Intn(4); n > 0; n-- {
		fs = append(fs, c.feature())
	}
	var doc interface{} = map[string]interface{}{"type": "FeatureCollection", "features": fs}
	switch c.Intn(40) {
	case 0:
		doc = nil
	case 1:
		doc = map[string]interface{}{"type": "FeatureCollection"}
	case 2:
		doc = map[string]interface{}{"type": "FeatureCollection", "features": nil}
	}
	data, err := json.Marshal(doc)
	if err != nil {
		panic(err)
	}
	c.note("geojson.Decode of %s", data)
	rs, err := geojson.Decode(data)
	if err == nil {
		c.validRoutes(rs)
	}
}

func c16gpx(c *ctx) {
	var b strings.Builder
	b.WriteString(`<?xml version="1.0" encoding="UTF-8"?><gpx xmlns="http://www.topografix.com/GPX/1/1" version="1.1" creator="x">`)
	pts := func(tag string, n int) {
		for ; n > 0; n-- {
			fmt.Fprintf(&b, `<%s lat="%d" lon="%d"></%s>`, tag, c.Intn(80), c.Intn(170), tag)
		}
	}
	if c.Intn(4) == 0 {
		pts("wpt", c.Intn(4))
	}
	if c.Intn(3) == 0 {
		for n := c.Intn(3); n > 0; n-- {
			b.WriteString("<rte>")
			pts("rtept", c.Intn(4))
			b.WriteString("</rte>")
		}
	}
	var segs []int
	for n := c.Intn(4); n > 0; n-- {
		b.WriteString("<trk>")
		m := c.Intn(4)
		segs = append(segs, m)
		for ; m > 0; m-- {
			b.WriteString("<trkseg>")
			k := 2 + c.Intn(3)
			if c.Intn(6) == 0 {
				k = c.Intn(2)
			}
			pts("trkpt", k)
			b.WriteString("</trkseg>")
		}
		b.WriteString("</trk>")
	}
	if c.Intn(3) > 0 {
		b.WriteString("<extensions>")
		if c.Intn(10) == 0 {
			b.WriteString("<other></other>")
		}
		if c.Intn(10) > 0 {
			b.WriteString("<gpsgen>")
			for _, m := range segs {
				if c.Intn(12) == 0 {
					continue
				}
				if c.Intn(12) == 0 {
					b.WriteString("<route>")
				} else {
					b.WriteString(`<route id="r" color="#ff0000" name="some name">`)
				}
				if c.Intn(12) == 0 {
					m += c.Intn(3) - 1
				}
				for ; m > 0; m-- {
					if c.Intn(8) == 0 {
						b.WriteString("<track></track>")
					} else {
						b.WriteString(`<track name="some name" color="">t</track>`)
					}
				}
				b.WriteString("</route>")
			}
			b.WriteString("</gpsgen>")
		}
		b.WriteString("</extensions>")
	}
	b.WriteString("</gpx>")
	c.note("gpx.Decode of %s", b.String())
	rs, err := gpx.Decode([]byte(b.String()))
	if err == nil {
		c.validRoutes(rs)
	}
}

func init() {
	reg("C14", c14)
	reg("C15", c15)
	reg("C16", c16json, c16gpx)
}
