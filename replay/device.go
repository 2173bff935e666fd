package main

import (
	"math"
	"time"

	"github.com/icholy/utm"
	"github.com/lucasb-eyer/go-colorful"
	"github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"
)

// ---- C18 ----

func sameF(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

// mirrored compares everything the device publishes with its components.
func (c *ctx) mirrored(what string, d *gpsgen.Device) {
	s := d.State()
	snap := d.Snapshot()
	eq := func(name string, got, want float64) {
		c.check(sameF(got, want), "%s: published %s is %v, the device has %v", what, name, got, want)
	}
	if !c.check(s.Distance != nil && s.Navigator != nil && s.Location != nil && s.Battery != nil, "%s: parts missing", what) {
		return
	}
	eq("distance", s.Distance.Distance, d.Distance())
	eq("current distance", s.Distance.CurrentDistance, d.CurrentDistance())
	eq("route distance", s.Distance.RouteDistance, d.RouteDistance())
	eq("current route distance", s.Distance.CurrentRouteDistance, d.CurrentRouteDistance())
	eq("track distance", s.Distance.TrackDistance, d.TrackDistance())
	eq("current track distance", s.Distance.CurrentTrackDistance, d.CurrentTrackDistance())
	eq("segment distance", s.Distance.SegmentDistance, d.SegmentDistance())
	eq("current segment distance", s.Distance.CurrentSegmentDistance, d.CurrentSegmentDistance())
	eq("route index", float64(s.Navigator.CurrentRouteIndex), float64(d.RouteIndex()))
	eq("track index", float64(s.Navigator.CurrentTrackIndex), float64(d.TrackIndex()))
	eq("segment index", float64(s.Navigator.CurrentSegmentIndex), float64(d.SegmentIndex()))
	rid, tid := "", ""
	if r := d.RouteAt(d.RouteIndex()); r != nil {
		rid = r.ID()
		if t := r.TrackAt(d.TrackIndex()); t != nil {
			tid = t.ID()
		}
	}
	c.check(s.Navigator.CurrentRouteId == rid, "%s: published route id %q, want %q", what, s.Navigator.CurrentRouteId, rid)
	c.check(s.Navigator.CurrentTrackId == tid, "%s: published track id %q, want %q", what, s.Navigator.CurrentTrackId, tid)
	p := d.Location()
	eq("latitude", s.Location.Lat, p.Lat)
	eq("longitude", s.Location.Lon, p.Lon)
	eq("bearing", s.Location.Bearing, d.CurrentBearing())
	eq("elevation", s.Location.Elevation, snap.Navigator.Elevation.ValY)
	if u := s.Location.Utm; c.check(u != nil, "%s: no utm", what) {
		e, n, z := utm.ToUTM(p.Lat, p.Lon)
		eq("easting", u.Easting, e)
		eq("northing", u.Northing, n)
		eq("zone", float64(u.LongZone), float64(z.Number))
	}
	dms := func(name string, deg, min, sec int64, dir string, v float64, pos, neg string) {
		got := (float64(deg) + float64(min)/60 + float64(sec)/3600)
		if dir == neg {
			got = -got
		}
		c.check(math.Abs(got-v) <= 2.0/3600 && (dir == pos || dir == neg), "%s: published %s %d %d %d %s, want %v", what, name, deg, min, sec, dir, v)
	}
	if a := s.Location.LatDms; c.check(a != nil, "%s: no dms", what) {
		dms("latitude", int64(a.Degrees), int64(a.Minutes), int64(a.Seconds), a.Direction, p.Lat, "N", "S")
	}
	if a := s.Location.LonDms; c.check(a != nil, "%s: no dms", what) {
		dms("longitude", int64(a.Degrees), int64(a.Minutes), int64(a.Seconds), a.Direction, p.Lon, "E", "W")
	}
	c.check(s.IsOffline == d.IsOffline(), "%s: published offline flag %v", what, s.IsOffline)
	eq("offline duration", float64(s.OfflineDuration), float64(snap.Navigator.OfflineIndex))
	b := new(types.Battery)
	b.FromSnapshot(snap.Battery)
	eq("battery charge", s.Battery.Charge, b.Value())
	eq("charge time", float64(s.Battery.ChargeTime), float64(int64(time.Duration(snap.Battery.ChargeTime).Seconds())))
	c.mirroredSensors(what, d)
}

func (c *ctx) mirroredSensors(what string, d *gpsgen.Device) {
	s := d.State()
	if !c.check(len(s.Sensors) == d.NumSensors(), "%s: %d published sensors of %d", what, len(s.Sensors), d.NumSensors()) {
		return
	}
	for i, x := range d.Sensors() {
		y := s.Sensors[i]
		c.check(y.Id == x.ID() && y.Name == x.Name(), "%s: published sensor %d is %s %s, want %s %s", what, i, y.Id, y.Name, x.ID(), x.Name())
		c.check(sameF(y.ValX, x.ValueX()) && sameF(y.ValY, x.ValueY()), "%s: published sensor %d has values %v %v, want %v %v", what, i, y.ValX, y.ValY, x.ValueX(), x.ValueY())
	}
}

func (c *ctx) mirroredRoutes(what string, d *gpsgen.Device) {
	rs := d.State().Routes.Routes
	if !c.check(len(rs) == d.NumRoutes(), "%s: %d published routes of %d", what, len(rs), d.NumRoutes()) {
		return
	}
	for i, p := range rs {
		r := d.RouteAt(i)
		if !c.check(p.RouteId == r.ID() && p.Color == r.Color() && p.Distance == r.Distance() && len(p.Tracks) == r.NumTracks() && int(p.PropsCount) == len(r.Props()),
			"%s: published route %d is %v", what, i, p) {
			return
		}
		for j, q := range p.Tracks {
			t := r.TrackAt(j)
			c.check(q.TrackId == t.ID() && q.Color == t.Color() && q.Distance == t.Distance() && int(q.NumSegments) == t.NumSegments() && int(q.PropsCount) == len(t.Props()),
				"%s: published track %d of route %d is %v", what, j, i, q)
		}
	}
}

func c18(c *ctx) {
	d, _ := c.device(navOpt{dup: true, empty: true, offline: c.Intn(2) == 0})
	dirty := false
	var touched []*navigator.Route
	for k := 0; k < 25 && c.fail == ""; k++ {
		switch c.Intn(14) {
		case 0:
			d.Update()
			c.mirrored("Update", d)
			c.mirroredRoutes("Update", d)
			dirty = false
		case 1:
			d.AddSensor(c.anySensor(), nil, c.anySensor())
			c.mirroredSensors("AddSensor", d)
		case 2:
			if d.NumSensors() > 0 {
				d.RemoveSensor(d.SensorAt(c.Intn(d.NumSensors())).ID())
				c.mirroredSensors("RemoveSensor", d)
			}
		case 3:
			if c.Intn(4) == 0 {
				d.ResetSensors()
				c.mirroredSensors("ResetSensors", d)
			}
		case 4:
			r := c.namedRoute([]string{"x", "y", "z"}[c.Intn(3)])
			if d.AddRoute(r) == nil {
				c.mirroredRoutes("AddRoute", d)
				dirty = false
			}
		case 5:
			if d.NumRoutes() > 0 && c.Intn(3) == 0 {
				d.RemoveRoute(d.RouteAt(c.Intn(d.NumRoutes())).ID())
				c.mirroredRoutes("RemoveRoute", d)
				dirty = false
			}
		case 6:
			if d.NumRoutes() > 0 {
				r := d.RouteAt(c.Intn(d.NumRoutes()))
				if r.NumTracks() > 0 && d.RemoveTrack(r.ID(), r.TrackAt(c.Intn(r.NumTracks())).ID()) {
					c.mirroredRoutes("RemoveTrack", d)
					dirty = false
				}
			}
		case 7:
			if c.Intn(10) == 0 && d.ResetRoutes() {
				c.mirroredRoutes("ResetRoutes", d)
				dirty = false
			}
		case 8:
			if d.NumRoutes() > 0 {
				r := d.RouteAt(c.Intn(d.NumRoutes()))
				touched = append(touched, r)
				dirty = true
				switch c.Intn(4) {
				case 0:
					r.AddTrack(c.track("new", true))
				case 1:
					if r.NumTracks() > 0 && r.NumTracks()-1 > d.TrackIndex() {
						r.RemoveTrack(r.TrackAt(r.NumTracks() - 1).ID())
					}
				case 2:
					if r.NumTracks() > 0 {
						r.TrackAt(c.Intn(r.NumTracks())).ChangeColor([]string{"#010203", "#ff0102"}[c.Intn(2)])
					}
				case 3:
					r.ChangeColor(colors[c.Intn(len(colors))])
				}
			}
		case 9:
			d.MoveToSegment(c.Intn(3), c.Intn(3), c.Intn(3))
		default:
			if d.Next(c.Float64() * 30) {
				c.mirrored("Next", d)
				c.mirroredRoutes("Next", d)
				s := d.Snapshot().Speed
				want := s.Val
				if s.Min == s.Max {
					want = s.Min
				}
				c.check(d.State().Speed == want, "Next: published speed %v, drew %v", d.State().Speed, want)
				dirty = false
			}
		}
	}
	_, _ = dirty, touched
}

func init() { reg("C18", c18) }

var colors = []colorful.Color{{R: 1}, {G: 1}, {B: 1}, {R: 0.2, G: 0.4, B: 0.6}}
