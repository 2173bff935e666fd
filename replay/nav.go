package main

import (
	"fmt"
	"math"

	"github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
)

// ---- generators ----

var ids = []string{"a", "b", "c", "d", "e", "a1", "0123456789012345678901234567890123456789"}

func (c *ctx) point() geo.LatLonPoint {
	switch c.Intn(4) {
	case 0:
		return geo.LatLonPoint{Lat: float64(c.Intn(5)) / 1000, Lon: float64(c.Intn(5)) / 1000}
	case 1:
		return geo.LatLonPoint{Lat: c.Float64()*170 - 85, Lon: c.Float64()*358 - 179}
	}
	return geo.LatLonPoint{Lat: 50 + c.Float64()/100, Lon: 30 + c.Float64()/100}
}

// path returns n points; some consecutive ones coincide when dup is set.
func (c *ctx) path(n int, dup bool) []geo.LatLonPoint {
	var out []geo.LatLonPoint
	p := c.point()
	for i := 0; i < n; i++ {
		if i > 0 && (!dup || c.Intn(3) != 0) {
			p.Lat += (c.Float64() - 0.5) / 100
			p.Lon += (c.Float64() + 0.01) / 100
		}
		out = append(out, p)
	}
	if n > 2 && c.Intn(3) == 0 {
		out[n-1] = out[0]
	}
	return out
}

func (c *ctx) track(id string, dup bool) *navigator.Track {
	t, err := navigator.RestoreTrack(id, "#ff0000", c.path(2+c.Intn(4), dup))
	if err != nil {
		panic(err)
	}
	return t
}

type navOpt struct {
	dup, empty bool // zero-length segments, routes without tracks
	offline    bool
	maxRoutes  int
}

func (c *ctx) route(id string, o navOpt) *navigator.Route {
	r := navigator.RestoreRoute(id, "#00ff00", nil)
	n := 1 + c.Intn(3)
	if o.empty && c.Intn(4) == 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("t%d", i)
		if c.Intn(5) == 0 {
			id = "t0"
		}
		r.AddTrack(c.track(id, o.dup))
	}
	return r
}

func (c *ctx) routes(o navOpt) []*navigator.Route {
	var out []*navigator.Route
	m := o.maxRoutes
	if m == 0 {
		m = 3
	}
	n := 1 + c.Intn(m)
	if o.empty && c.Intn(6) == 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		out = append(out, c.route(fmt.Sprintf("r%d", i), o))
	}
	return out
}

func (c *ctx) nav(o navOpt) *navigator.Navigator {
	var opts []navigator.Option
	if !o.offline {
		opts = append(opts, navigator.SkipOfflineMode())
	}
	n, err := navigator.New(opts...)
	if err != nil {
		panic(err)
	}
	n.AddRoute(c.routes(o)...)
	return n
}

// walk brings a navigator into an arbitrary reachable state.
func (c *ctx) walk(n *navigator.Navigator) {
	k := c.Intn(8)
	for i := 0; i < k; i++ {
		switch c.Intn(6) {
		case 0:
			n.MoveToSegment(c.Intn(4), c.Intn(4), c.Intn(4))
		case 1:
			n.DestinationTo(c.Float64() * n.Distance() * 1.1)
		case 2:
			n.ToOffline()
		case 3:
			for j := c.Intn(30); j > 0; j-- {
				n.NextLocation(1, c.Float64()*200)
			}
		default:
			n.NextLocation(float64(c.Intn(10)), c.Float64()*300)
		}
	}
	c.note("state: %v of %s", posOf(n), shape(n))
}

func shape(n *navigator.Navigator) string {
	s := "routes["
	for i := 0; i < n.NumRoutes(); i++ {
		r := n.RouteAt(i)
		s += fmt.Sprintf(" %s(", r.ID())
		for j := 0; j < r.NumTracks(); j++ {
			t := r.TrackAt(j)
			s += fmt.Sprintf(" %s:", t.ID())
			for k := 0; k < t.NumSegments(); k++ {
				s += fmt.Sprintf("%.1f,", t.SegmentAt(k).Distance())
			}
		}
		s += ")"
	}
	return s + "]"
}

type pos struct {
	R, T, S           int
	Total, Rd, Td, Sd float64
	Off               int
	P                 geo.LatLonPoint
}

func posOf(n *navigator.Navigator) pos {
	return pos{n.RouteIndex(), n.TrackIndex(), n.SegmentIndex(), n.CurrentDistance(), n.CurrentRouteDistance(),
		n.CurrentTrackDistance(), n.CurrentSegmentDistance(), n.OfflineDuration(), n.Location()}
}

func posOfDev(d *gpsgen.Device) pos {
	off := 0
	if d.IsOffline() {
		off = 1
	}
	return pos{d.RouteIndex(), d.TrackIndex(), d.SegmentIndex(), d.CurrentDistance(), d.CurrentRouteDistance(),
		d.CurrentTrackDistance(), d.CurrentSegmentDistance(), off, d.Location()}
}

func segAt(n *navigator.Navigator, r, t, s int) (navigator.Segment, bool) {
	rt := n.RouteAt(r)
	if rt == nil {
		return navigator.Segment{}, false
	}
	tr := rt.TrackAt(t)
	if tr == nil || s < 0 || s >= tr.NumSegments() {
		return navigator.Segment{}, false
	}
	return tr.SegmentAt(s), true
}

// ---- C09 ----

func expectMove(n *navigator.Navigator, b pos, r, t, s int) (bool, pos) {
	seg, ok := segAt(n, r, t, s)
	if !ok || b.R == r && b.T == t && b.S == s {
		return false, b
	}
	a := b
	a.Sd = 0
	if t != b.T || r != b.R {
		a.Td = 0
	}
	if r != b.R {
		a.Rd = 0
	}
	a.R, a.T, a.S, a.Off, a.P = r, t, s, 0, seg.PointA()
	return true, a
}

func firstRoute(n *navigator.Navigator, id string) int {
	for i := 0; i < n.NumRoutes(); i++ {
		if n.RouteAt(i).ID() == id {
			return i
		}
	}
	return -1
}

func firstTrack(r *navigator.Route, id string) int {
	for i := 0; r != nil && i < r.NumTracks(); i++ {
		if r.TrackAt(i).ID() == id {
			return i
		}
	}
	return -1
}

type mover interface {
	MoveToSegment(int, int, int) bool
	MoveToTrack(int, int) bool
	MoveToRoute(int) bool
	MoveToTrackByID(string, string) bool
	MoveToRouteByID(string) bool
}

type devMover struct{ *gpsgen.Device }

func moveScenario(c *ctx, n *navigator.Navigator, m mover, next, prev func() bool, get func() pos) {
	for k := 0; k < 12 && c.fail == ""; k++ {
		b := get()
		r, t, s := c.Intn(6)-1, c.Intn(5)-1, c.Intn(6)-1
		if c.Intn(10) == 0 {
			r = math.MaxInt64
		}
		if c.Intn(10) == 0 {
			s = math.MinInt64
		}
		if c.Intn(3) == 0 {
			r = b.R
		}
		if c.Intn(3) == 0 {
			t = b.T
		}
		if c.Intn(3) == 0 {
			s = b.S
		}
		var got, want bool
		var a pos
		var call string
		switch c.Intn(7) {
		case 0:
			call = fmt.Sprintf("MoveToSegment(%d,%d,%d)", r, t, s)
			want, a = expectMove(n, b, r, t, s)
			got = m.MoveToSegment(r, t, s)
		case 1:
			call = fmt.Sprintf("MoveToTrack(%d,%d)", r, t)
			want, a = expectMove(n, b, r, t, 0)
			got = m.MoveToTrack(r, t)
		case 2:
			call = fmt.Sprintf("MoveToRoute(%d)", r)
			want, a = expectMove(n, b, r, 0, 0)
			got = m.MoveToRoute(r)
		case 3:
			call = "NextRoute()"
			want, a = expectMove(n, b, b.R+1, 0, 0)
			got = next()
		case 4:
			call = "PrevRoute()"
			want, a = expectMove(n, b, b.R-1, 0, 0)
			got = prev()
		case 5:
			id := fmt.Sprintf("r%d", c.Intn(4))
			if c.Intn(8) == 0 {
				id = ""
			}
			call = fmt.Sprintf("MoveToRouteByID(%q)", id)
			want, a = expectMove(n, b, firstRoute(n, id), 0, 0)
			got = m.MoveToRouteByID(id)
		case 6:
			id, tid := fmt.Sprintf("r%d", c.Intn(4)), fmt.Sprintf("t%d", c.Intn(4))
			call = fmt.Sprintf("MoveToTrackByID(%q,%q)", id, tid)
			ri := firstRoute(n, id)
			want, a = expectMove(n, b, ri, firstTrack(n.RouteAt(ri), tid), 0)
			got = m.MoveToTrackByID(id, tid)
		}
		after := get()
		c.note("%s = %v: %v", call, got, after)
		c.check(got == want, "%s returned %v, want %v, from %+v", call, got, want, b)
		c.check(after == a, "%s left %+v, want %+v, from %+v", call, after, a, b)
	}
}

func c09nav(c *ctx) {
	n := c.nav(navOpt{empty: true, offline: c.Intn(2) == 0})
	c.walk(n)
	moveScenario(c, n, n, n.NextRoute, n.PrevRoute, func() pos { return posOf(n) })
}

func (c *ctx) device(o navOpt) (*gpsgen.Device, *navigator.Navigator) {
	opts := gpsgen.DefaultTrackerOptions()
	if !o.offline {
		opts.Navigator.SkipOffline = true
	}
	d, err := gpsgen.NewDevice(opts)
	if err != nil {
		panic(err)
	}
	rs := c.routes(o)
	d.AddRoute(rs...)
	n, _ := navigator.New()
	n.AddRoute(rs...)
	return d, n
}

func (c *ctx) walkDev(d *gpsgen.Device) {
	k := c.Intn(8)
	for i := 0; i < k; i++ {
		switch c.Intn(5) {
		case 0:
			d.MoveToSegment(c.Intn(4), c.Intn(4), c.Intn(4))
		case 1:
			d.DestinationTo(c.Float64() * d.Distance() * 1.1)
		case 2:
			d.ToOffline()
		default:
			for j := c.Intn(60); j > 0; j-- {
				d.Next(1 + float64(c.Intn(10)))
			}
		}
	}
}

func c09dev(c *ctx) {
	d, n := c.device(navOpt{empty: true, offline: c.Intn(2) == 0})
	c.walkDev(d)
	moveScenario(c, n, d, d.ToNextRoute, d.ToPrevRoute, func() pos { return posOfDev(d) })
}

func init() { reg("C09", c09nav, c09dev) }
