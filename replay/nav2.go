package main

import (
	"fmt"
	"math"

	"github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/proto"
)

// ---- reference model of a navigator ----

type seg struct {
	A, B      geo.LatLonPoint
	Dist, Brg float64
	Rel       int
}

type model struct {
	routes [][][]seg
	total  float64
	b      pos
	skip   bool
	lo, hi int
}

// pending: the position is the one a finished pass leaves.
func (m *model) pending() bool {
	return m.b.R == 0 && m.b.T == 0 && m.b.S == 0 && m.b.Rd == 0 && m.b.Total == 0.1
}

func modelOf(n *navigator.Navigator, lo, hi int, skip bool) *model {
	m := &model{skip: skip, lo: lo, hi: hi}
	for i := 0; i < n.NumRoutes(); i++ {
		r := n.RouteAt(i)
		var ts [][]seg
		for j := 0; j < r.NumTracks(); j++ {
			t := r.TrackAt(j)
			snap := t.Snapshot()
			var ss []seg
			for k := 0; k < t.NumSegments(); k++ {
				s := t.SegmentAt(k)
				ss = append(ss, seg{s.PointA(), s.PointB(), s.Distance(), s.Bearing(), int(snap.Segmenets[k].Rel)})
				m.total += s.Distance()
			}
			ts = append(ts, ss)
		}
		m.routes = append(m.routes, ts)
	}
	return m
}

func (m *model) track() []seg {
	if m.b.R < len(m.routes) && m.b.T < len(m.routes[m.b.R]) {
		return m.routes[m.b.R][m.b.T]
	}
	return nil
}

// step is the reference for NextLocation. off reports whether the navigator goes offline in it.
func (m *model) step(d float64) (ok, off bool) {
	b := &m.b
	if len(m.routes) == 0 {
		return false, false
	}
	if !m.skip && b.Off > 0 {
		b.Off--
		return false, false
	}
	for {
		tr := m.track()
		if b.S < len(tr) && tr[b.S].Dist != 0 && b.Sd+d <= tr[b.S].Dist {
			start := b.S == 0 && b.Sd == 0
			b.Total += d
			b.Rd += d
			b.Td += d
			b.Sd += d
			at := b.Sd
			if start {
				at = 1
			}
			b.P.Lat, b.P.Lon = geo.Destination(tr[b.S].A.Lat, tr[b.S].A.Lon, at, tr[b.S].Brg)
			return true, false
		}
		if b.S < len(tr)-1 {
			rel := tr[b.S].Rel
			b.S++
			b.Sd = 0
			if rel == -1 {
				return false, !m.skip
			}
			continue
		}
		b.S, b.Sd, b.Td = 0, 0, 0
		if b.T < len(m.routes[b.R])-1 {
			b.T++
			return false, !m.skip
		}
		b.T, b.Rd = 0, 0
		if b.R < len(m.routes)-1 {
			b.R++
			return false, !m.skip
		}
		b.R = 0
		b.Total = 0.1
		return false, !m.skip
	}
}

func nearP(a, b geo.LatLonPoint) bool { return near(a.Lat, b.Lat) && near(a.Lon, b.Lon) }

func samePos(a, b pos) bool {
	return a.R == b.R && a.T == b.T && a.S == b.S && a.Off == b.Off && near(a.Total, b.Total) && near(a.Rd, b.Rd) &&
		near(a.Td, b.Td) && near(a.Sd, b.Sd) && nearP(a.P, b.P)
}

func (c *ctx) navWith(o navOpt) (*navigator.Navigator, int, int) {
	lo, hi := 1, 10
	var opts []navigator.Option
	if !o.offline {
		opts = append(opts, navigator.SkipOfflineMode())
	} else if c.Intn(2) == 0 {
		lo = 1 + c.Intn(3)
		hi = lo + c.Intn(4)
		opts = append(opts, navigator.WithOffline(lo, hi))
	}
	n, err := navigator.New(opts...)
	if err != nil {
		panic(err)
	}
	n.AddRoute(c.routes(o)...)
	return n, lo, hi
}

// simulate drives a navigator and the reference side by side.
func simulate(c *ctx, o navOpt) {
	n, lo, hi := c.navWith(o)
	m := modelOf(n, lo, hi, !o.offline)
	m.b = posOf(n)
	c.note("%s offline=%v %d..%d", shape(n), o.offline, lo, hi)
	for k := 0; k < 60 && c.fail == ""; k++ {
		before := posOf(n)
		var call string
		switch x := c.Intn(24); {
		case x == 0:
			r, t, s := c.Intn(4), c.Intn(3), c.Intn(4)
			call = fmt.Sprintf("MoveToSegment(%d,%d,%d)", r, t, s)
			want, a := expectMove(n, m.b, r, t, s)
			got := n.MoveToSegment(r, t, s)
			c.check(got == want, "%s = %v, want %v", call, got, want)
			m.b = a
		case x == 1:
			call = "ToOffline()"
			n.ToOffline()
			if !m.skip {
				off := n.OfflineDuration()
				c.check(off >= lo && off <= hi, "ToOffline: offline for %d, limits %d..%d", off, lo, hi)
				m.b.Off = off
			}
		case x == 2:
			call = "Reset()"
			n.Reset()
			off, p := m.b.Off, m.b.P
			m.b = pos{Off: off, P: p}
		case x == 3 && c.Intn(2) == 0:
			d := c.Float64() * m.total * 1.2
			if c.Intn(4) == 0 {
				d = 1
			}
			call = fmt.Sprintf("DestinationTo(%v)", d)
			checkJump(c, n, m, d, call)
			m.b = posOf(n)
		case x == 4:
			call = "IsFinish()"
			got := n.IsFinish()
			want := m.pending()
			c.check(got == want, "IsFinish() = %v, want %v at %+v", got, want, before)
			if want {
				m.b.Total = 0
			}
		default:
			tick, speed := float64(c.Intn(10)), c.Float64()*300
			switch c.Intn(8) {
			case 0:
				speed = 0
			case 1:
				speed *= 10
			case 2:
				tick, speed = 1, 0.1
			case 3:
				// exactly to the end of the segment
				if tr := m.track(); m.b.S < len(tr) {
					tick, speed = 1, tr[m.b.S].Dist-m.b.Sd
				}
			}
			call = fmt.Sprintf("NextLocation(%v, %v)", tick, speed)
			ok, off := m.step(tick * speed)
			got := n.NextLocation(tick, speed)
			c.check(got == ok, "%s = %v, want %v from %+v", call, got, ok, before)
			if off {
				d := n.OfflineDuration()
				c.check(d >= lo && d <= hi, "%s: offline for %d, limits %d..%d", call, d, lo, hi)
				m.b.Off = d
			}
		}
		after := posOf(n)
		c.note("%s -> %+v", call, after)
		c.check(samePos(after, m.b), "%s left %+v, want %+v, from %+v", call, after, m.b, before)
		if tr := m.track(); m.b.S < len(tr) {
			c.check(after.Sd <= tr[m.b.S].Dist+1e-6, "%s: %v m travelled on a segment of %v m", call, after.Sd, tr[m.b.S].Dist)
		}
		c.check(n.IsOffline() == (after.Off > 0), "IsOffline")
		c.check(near(n.Distance(), m.total), "Distance() = %v, sum of parts %v", n.Distance(), m.total)
		checkQueries(c, n)
	}
}

func checkQueries(c *ctx, n *navigator.Navigator) {
	p := posOf(n)
	r := n.CurrentRoute()
	c.check((r == nil) == (n.NumRoutes() == 0), "CurrentRoute nil=%v with %d routes", r == nil, n.NumRoutes())
	if r != nil {
		c.check(r == n.RouteAt(p.R), "CurrentRoute is not route %d", p.R)
		c.check(n.RouteDistance() == r.Distance(), "RouteDistance")
		t := n.CurrentTrack()
		c.check(t == r.TrackAt(p.T), "CurrentTrack is not track %d", p.T)
		if t != nil {
			c.check(n.TrackDistance() == t.Distance(), "TrackDistance")
			s := n.CurrentSegment()
			if w := t.SegmentAt(p.S); !w.IsEmpty() {
				c.check(s == w, "CurrentSegment is not segment %d", p.S)
				c.check(n.SegmentDistance() == w.Distance() && n.CurrentBearing() == w.Bearing(), "SegmentDistance or CurrentBearing")
			}
		}
	}
}

func checkJump(c *ctx, n *navigator.Navigator, m *model, d float64, call string) {
	b := posOf(n)
	ok := n.DestinationTo(d)
	t := d
	if t > n.Distance() {
		t = n.Distance()
	}
	a := posOf(n)
	if !(t >= 1) {
		c.check(!ok && a == b, "%s = %v moved from %+v to %+v", call, ok, b, a)
		return
	}
	if !c.check(ok, "%s fails on a navigator of %v m", call, n.Distance()) {
		return
	}
	sum, rs, ts := 0.0, 0.0, 0.0
	for i := range m.routes {
		rd := 0.0
		for j := range m.routes[i] {
			td := 0.0
			for k := range m.routes[i][j] {
				if i == a.R && j == a.T && k == a.S {
					s := m.routes[i][j][k]
					rest := t - sum
					rs, ts = rd+rest, td+rest
					c.check(rest >= -1e-6 && rest <= s.Dist+1e-6, "%s landed on %d/%d/%d, which starts at %v and is %v m long", call, i, j, k, sum, s.Dist)
					c.check(near(a.Total, t) && near(a.Rd, rs) && near(a.Td, ts) && math.Abs(a.Sd-rest) < 1e-5, "%s: travelled %+v, want total %v route %v track %v segment %v", call, a, t, rs, ts, rest)
					var p geo.LatLonPoint
					p.Lat, p.Lon = geo.Destination(s.A.Lat, s.A.Lon, a.Sd, s.Brg)
					c.check(nearP(a.P, p), "%s: at %+v, want %+v", call, a.P, p)
					return
				}
				sum += m.routes[i][j][k].Dist
				rd += m.routes[i][j][k].Dist
				td += m.routes[i][j][k].Dist
			}
		}
	}
	c.failf("%s landed on a place that does not exist: %+v", call, a)
}

func c07(c *ctx) {
	simulate(c, navOpt{empty: c.Intn(3) == 0, dup: c.Intn(2) == 0, offline: c.Intn(2) == 0})
}
func c08(c *ctx) {
	simulate(c, navOpt{empty: c.Intn(3) == 0, dup: c.Intn(3) == 0, offline: c.Intn(4) == 0, maxRoutes: 2})
}

func c10(c *ctx) {
	o := navOpt{dup: c.Intn(3) == 0, empty: c.Intn(3) == 0, offline: c.Intn(2) == 0}
	n, lo, hi := c.navWith(o)
	m := modelOf(n, lo, hi, !o.offline)
	c.note("%s", shape(n))
	c.walk(n)
	for k := 0; k < 6 && c.fail == ""; k++ {
		d := c.Float64() * m.total
		switch c.Intn(8) {
		case 0:
			d = m.total
		case 1:
			d = m.total * 2
		case 2:
			d = 1
		case 3:
			d = c.Float64()
		case 4:
			d = -d
		case 5:
			// the border of two tracks
			if len(m.routes) > 0 && len(m.routes[0]) > 0 {
				d = 0
				for _, s := range m.routes[0][0] {
					d += s.Dist
				}
			}
		case 6:
			if c.Intn(3) == 0 {
				d = math.Inf(1 - 2*c.Intn(2))
			}
		}
		call := fmt.Sprintf("DestinationTo(%v)", d)
		checkJump(c, n, m, d, call)
		c.note("%s -> %+v", call, posOf(n))
		if c.Intn(3) == 0 {
			c.walk(n)
		}
	}
}

func c10dev(c *ctx) {
	d, n := c.device(navOpt{})
	m := modelOf(n, 1, 10, true)
	x := 1 + c.Float64()*m.total
	b := posOfDev(d)
	ok := d.DestinationTo(x)
	want := n.DestinationTo(x)
	c.check(ok == want, "device DestinationTo(%v) = %v, navigator %v", x, ok, want)
	a, w := posOfDev(d), posOf(n)
	w.Off = a.Off
	if ok {
		c.check(samePos(a, w), "device DestinationTo(%v) left %+v, want %+v from %+v", x, a, w, b)
	}
}

// ---- C05, C06, C11: registries ----

var trackIDs = []string{"t0", "t1", "t2", "t3", "", "0123456789012345678901234567890123456789", "012345678901234567890123456789012345"}
var routeIDs = []string{"r0", "r1", "r2", "r3", "", "0123456789012345678901234567890123456789", "012345678901234567890123456789012345"}

func pick(c *ctx, ids []string) string {
	if c.Intn(4) != 0 {
		return ids[c.Intn(4)]
	}
	return ids[c.Intn(len(ids))]
}

// named is an identifier an item can have.
func named(c *ctx, ids []string) string {
	for {
		if id := pick(c, ids); id != "" {
			return id
		}
	}
}

func findable(id string) bool { return len(id) > 0 && len(id) <= 36 }

func idsOf(n *navigator.Navigator) []string {
	var out []string
	for i := 0; i < n.NumRoutes(); i++ {
		out = append(out, n.RouteAt(i).ID())
	}
	return out
}

func routeSum(r *navigator.Route) float64 {
	s := 0.0
	for j := 0; j < r.NumTracks(); j++ {
		s += r.TrackAt(j).Distance()
	}
	return s
}

func checkSums(c *ctx, n *navigator.Navigator, call string) {
	total := 0.0
	for i := 0; i < n.NumRoutes(); i++ {
		total += n.RouteAt(i).Distance()
		c.check(near(n.RouteAt(i).Distance(), routeSum(n.RouteAt(i))), "%s: route %d has distance %v, its tracks sum to %v", call, i, n.RouteAt(i).Distance(), routeSum(n.RouteAt(i)))
	}
	c.check(near(n.Distance(), total), "%s: Distance() = %v, the routes sum to %v", call, n.Distance(), total)
}

func sameRoutes(a, b []*navigator.Route) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameTracks(r *navigator.Route, want []*navigator.Track) bool {
	if r.NumTracks() != len(want) {
		return false
	}
	for i := range want {
		if r.TrackAt(i) != want[i] {
			return false
		}
	}
	return true
}

func tracksOf(r *navigator.Route) []*navigator.Track {
	var out []*navigator.Track
	for i := 0; i < r.NumTracks(); i++ {
		out = append(out, r.TrackAt(i))
	}
	return out
}

func registry(c *ctx) {
	o := navOpt{empty: c.Intn(2) == 0, dup: c.Intn(3) == 0, offline: c.Intn(2) == 0}
	n := c.nav(o)
	list := n.Routes()
	for k := 0; k < 25 && c.fail == ""; k++ {
		if c.Intn(3) == 0 {
			c.walk(n)
		}
		c.note("routes %v", idsOf(n))
		change := false
		var call string
		switch c.Intn(9) {
		case 0:
			var add []*navigator.Route
			for j := c.Intn(4); j > 0; j-- {
				switch {
				case c.Intn(5) == 0:
					add = append(add, nil)
				case c.Intn(6) == 0 && len(list) > 0:
					add = append(add, list[c.Intn(len(list))])
				default:
					add = append(add, c.route(named(c, routeIDs), o))
				}
			}
			call = fmt.Sprintf("AddRoute(%d routes)", len(add))
			want := append([]*navigator.Route{}, list...)
			for _, r := range add {
				if r == nil {
					continue
				}
				dup := false
				for _, x := range want {
					dup = dup || x.ID() == r.ID()
				}
				if !dup {
					want = append(want, r)
					change = true
				}
			}
			err := n.AddRoute(add...)
			c.check((err != nil) == (len(add) == 0), "%s: error %v", call, err)
			list = want
		case 1:
			id := pick(c, routeIDs)
			call = fmt.Sprintf("RemoveRoute(%q)", id)
			i := -1
			if findable(id) {
				i = firstRoute(n, id)
			}
			ok := n.RemoveRoute(id)
			c.check(ok == (i >= 0), "%s = %v, first such route %d", call, ok, i)
			if i >= 0 {
				list = append(append([]*navigator.Route{}, list[:i]...), list[i+1:]...)
				change = true
			}
		case 2:
			if c.Intn(4) != 0 {
				continue
			}
			call = "ResetRoutes()"
			ok := n.ResetRoutes()
			c.check(ok == (len(list) > 0), "%s = %v with %d routes", call, ok, len(list))
			change = ok
			list = nil
		case 3:
			rid, tid := pick(c, routeIDs), pick(c, trackIDs)
			call = fmt.Sprintf("RemoveTrack(%q, %q)", rid, tid)
			ri, ti := -1, -1
			if findable(rid) && findable(tid) {
				if ri = firstRoute(n, rid); ri >= 0 {
					ti = firstTrack(n.RouteAt(ri), tid)
				}
			}
			var want []*navigator.Track
			if ti >= 0 {
				old := tracksOf(n.RouteAt(ri))
				want = append(append(want, old[:ti]...), old[ti+1:]...)
			}
			ok := n.RemoveTrack(rid, tid)
			c.check(ok == (ti >= 0), "%s = %v", call, ok)
			if ti >= 0 {
				c.check(sameTracks(n.RouteAt(ri), want), "%s left other tracks than expected", call)
				change = true
			}
		case 4:
			id := pick(c, routeIDs)
			call = fmt.Sprintf("RouteByID(%q)", id)
			i := firstRoute(n, id)
			r, err := n.RouteByID(id)
			if err == nil {
				c.check(i >= 0 && r == list[i], "%s found a wrong route", call)
			} else {
				c.check(r == nil && (i < 0 || !findable(id)), "%s: %v", call, err)
			}
		case 5:
			i := c.Intn(6) - 1
			call = fmt.Sprintf("RouteAt(%d)", i)
			r := n.RouteAt(i)
			if i >= 0 && i < len(list) {
				c.check(r == list[i], "%s is a wrong route", call)
			} else {
				c.check(r == nil, "%s is not nil", call)
			}
		case 6:
			call = "EachRoute"
			stop := c.Intn(4)
			j := 0
			n.EachRoute(func(i int, r *navigator.Route) bool {
				c.check(i == j && i < len(list) && r == list[i], "EachRoute: call %d gets index %d", j, i)
				j++
				return j <= stop
			})
			want := len(list)
			if stop+1 < want {
				want = stop + 1
			}
			c.check(j == want, "EachRoute made %d calls, want %d", j, want)
		case 7:
			call = "Routes()"
			x := n.Routes()
			c.check(sameRoutes(x, list), "Routes() differs")
			for i := range x {
				x[i] = nil
			}
		case 8:
			if len(list) == 0 {
				continue
			}
			routeRegistry(c, list[c.Intn(len(list))], o)
			n.Reset()
			change = true
			call = "Reset()"
		}
		c.note("%s", call)
		c.check(n.NumRoutes() == len(list) && sameRoutes(n.Routes(), list), "%s left %v, want %d routes", call, idsOf(n), len(list))
		if c.fail == "" {
			checkSums(c, n, call)
			checkQueries(c, n)
		}
		if change {
			p := posOf(n)
			p.Off, p.P = 0, geo.LatLonPoint{}
			c.check(p == pos{}, "%s did not rewind: %+v", call, p)
		}
	}
}

func routeRegistry(c *ctx, r *navigator.Route, o navOpt) {
	for k := 0; k < 5 && c.fail == ""; k++ {
		list := tracksOf(r)
		var call string
		switch c.Intn(6) {
		case 0, 1:
			t := c.track(named(c, trackIDs), o.dup)
			if c.Intn(5) == 0 {
				t = nil
			}
			call = "AddTrack"
			q := r.AddTrack(t)
			c.check(q == r, "AddTrack does not return the route")
			if t != nil {
				list = append(list, t)
			}
		case 2:
			id := pick(c, trackIDs)
			call = fmt.Sprintf("RemoveTrack(%q)", id)
			i := -1
			if findable(id) {
				i = firstTrack(r, id)
			}
			ok := r.RemoveTrack(id)
			c.check(ok == (i >= 0), "%s = %v, first such track %d", call, ok, i)
			if i >= 0 {
				list = append(append([]*navigator.Track{}, list[:i]...), list[i+1:]...)
			}
		case 3:
			id := pick(c, trackIDs)
			call = fmt.Sprintf("TrackByID(%q)", id)
			i := firstTrack(r, id)
			t, err := r.TrackByID(id)
			if err == nil {
				c.check(i >= 0 && t == list[i], "%s found a wrong track", call)
			} else {
				c.check(t == nil && (i < 0 || !findable(id)), "%s: %v", call, err)
			}
		case 4:
			i := c.Intn(6) - 1
			call = fmt.Sprintf("TrackAt(%d)", i)
			t := r.TrackAt(i)
			if i >= 0 && i < len(list) {
				c.check(t == list[i], "%s is a wrong track", call)
				s := c.Intn(7) - 1
				sg := t.SegmentAt(s)
				c.check((s >= 0 && s < t.NumSegments()) || sg == (navigator.Segment{}), "SegmentAt(%d) of %d is not empty", s, t.NumSegments())
			} else {
				c.check(t == nil, "%s is not nil", call)
			}
		case 5:
			call = "EachTrack"
			stop := c.Intn(4)
			j := 0
			r.EachTrack(func(i int, t *navigator.Track) bool {
				c.check(i == j && i < len(list) && t == list[i], "EachTrack: call %d gets index %d", j, i)
				j++
				return j <= stop
			})
			want := len(list)
			if stop+1 < want {
				want = stop + 1
			}
			c.check(j == want, "EachTrack made %d calls, want %d", j, want)
		}
		c.check(sameTracks(r, list), "%s left %d tracks, want %d", call, r.NumTracks(), len(list))
		c.check(near(r.Distance(), routeSum(r)), "%s: route distance %v, its tracks sum to %v", call, r.Distance(), routeSum(r))
	}
	var ts []*navigator.Track
	for i := c.Intn(4); i > 0; i-- {
		ts = append(ts, c.track("t", o.dup))
	}
	q := navigator.RouteFromTracks(ts...)
	c.check(sameTracks(q, ts) && near(q.Distance(), routeSum(q)), "RouteFromTracks: distance %v of %d tracks, sum %v of %d", q.Distance(), q.NumTracks(), routeSum(q), len(ts))
}

// c05 makes arbitrary calls: no panic, and the position always exists.
func c05(c *ctx) {
	o := navOpt{empty: c.Intn(2) == 0, dup: c.Intn(2) == 0, offline: c.Intn(2) == 0}
	n := c.nav(o)
	anyInt := func() int {
		switch c.Intn(8) {
		case 0:
			return -1
		case 1:
			return math.MaxInt64
		case 2:
			return math.MinInt64
		}
		return c.Intn(5)
	}
	anyF := func() float64 {
		switch c.Intn(8) {
		case 0:
			return -c.Float64() * 1000
		case 1:
			return c.Float64() * 1e9
		case 2:
			return 0
		}
		return c.Float64() * n.Distance() * 1.2
	}
	c.note("%s", shape(n))
	for k := 0; k < 40 && c.fail == ""; k++ {
		call := ""
		switch c.Intn(16) {
		case 0:
			r, t, s := anyInt(), anyInt(), anyInt()
			call = fmt.Sprintf("MoveToSegment(%d,%d,%d)=%v", r, t, s, n.MoveToSegment(r, t, s))
		case 1:
			r, t := anyInt(), anyInt()
			call = fmt.Sprintf("MoveToTrack(%d,%d)=%v", r, t, n.MoveToTrack(r, t))
		case 2:
			r := anyInt()
			call = fmt.Sprintf("MoveToRoute(%d)=%v", r, n.MoveToRoute(r))
		case 3:
			a, b := pick(c, routeIDs), pick(c, trackIDs)
			call = fmt.Sprintf("MoveToTrackByID(%q,%q)=%v", a, b, n.MoveToTrackByID(a, b))
		case 4:
			a := pick(c, routeIDs)
			call = fmt.Sprintf("MoveToRouteByID(%q)=%v", a, n.MoveToRouteByID(a))
		case 5:
			d := anyF()
			call = fmt.Sprintf("DestinationTo(%v)=%v", d, n.DestinationTo(d))
		case 6:
			call = fmt.Sprintf("NextRoute=%v", n.NextRoute())
		case 7:
			call = fmt.Sprintf("PrevRoute=%v", n.PrevRoute())
		case 8:
			a := pick(c, routeIDs)
			call = fmt.Sprintf("RemoveRoute(%q)=%v", a, n.RemoveRoute(a))
		case 9:
			a, b := pick(c, routeIDs), pick(c, trackIDs)
			call = fmt.Sprintf("RemoveTrack(%q,%q)=%v", a, b, n.RemoveTrack(a, b))
		case 10:
			if c.Intn(3) == 0 {
				call = fmt.Sprintf("ResetRoutes=%v", n.ResetRoutes())
			}
		case 11:
			n.AddRoute(nil, c.route(named(c, routeIDs), o))
			call = "AddRoute"
		case 12:
			n.ToOffline()
			call = "ToOffline"
		default:
			a, b := float64(c.Intn(10)), anyF()
			call = fmt.Sprintf("NextLocation(%v,%v)=%v", a, b, n.NextLocation(a, b))
		}
		n.RouteAt(anyInt())
		n.NextElevation(c.Float64())
		if c.Intn(8) == 0 {
			n.ShuffleElevation()
		}
		n.IsFinish()
		n.Sum()
		c.note("%s -> %+v", call, posOf(n))
		p := posOf(n)
		okR := p.R == 0 || p.R > 0 && p.R < n.NumRoutes()
		okT := p.T == 0 || okR && p.R < n.NumRoutes() && p.T > 0 && p.T < n.RouteAt(p.R).NumTracks()
		okS := p.S == 0 || okT && p.R < n.NumRoutes() && p.T < n.RouteAt(p.R).NumTracks() && p.S > 0 && p.S < n.RouteAt(p.R).TrackAt(p.T).NumSegments()
		c.check(okR && okT && okS, "%s leaves the position outside the routes: %+v of %s", call, p, shape(n))
		if c.fail == "" {
			checkQueries(c, n)
		}
		n.Update(new(proto.Device))
	}
}

func c05dev(c *ctx) {
	d, _ := c.device(navOpt{empty: true, dup: c.Intn(2) == 0, offline: c.Intn(2) == 0})
	for k := 0; k < 30; k++ {
		switch c.Intn(10) {
		case 0:
			d.MoveToSegment(c.Intn(5)-1, c.Intn(5)-1, c.Intn(5)-1)
		case 1:
			d.MoveToTrackByID(pick(c, routeIDs), pick(c, trackIDs))
		case 2:
			d.RemoveRoute(pick(c, routeIDs))
		case 3:
			d.RemoveTrack(pick(c, routeIDs), pick(c, trackIDs))
		case 4:
			d.AddRoute(nil, c.route(named(c, routeIDs), navOpt{empty: true}))
		case 5:
			d.DestinationTo(c.Float64() * 5000)
		case 6:
			d.ToOffline()
		case 7:
			if c.Intn(4) == 0 {
				d.ResetRoutes()
			}
		default:
			d.Next(1 + c.Float64()*100)
		}
		d.RouteAt(c.Intn(5) - 1)
		d.SensorAt(c.Intn(5) - 1)
		d.Update()
		d.State()
		d.CurrentBearing()
		d.CurrentRoute()
		d.CurrentTrack()
		d.CurrentSegment()
		d.RouteDistance()
		d.TrackDistance()
		d.SegmentDistance()
		d.ToNextRoute()
		d.ToPrevRoute()
		d.Snapshot()
		n := d.NumRoutes()
		c.check(d.RouteIndex() == 0 || d.RouteIndex() > 0 && d.RouteIndex() < n, "route index %d of %d routes", d.RouteIndex(), n)
	}
}

// ---- C04 ----

func c04(c *ctx) {
	n := c.Intn(7)
	ps := c.path(n, c.Intn(2) == 0)
	if n > 2 && c.Intn(3) == 0 {
		ps[n-1] = ps[0]
		if c.Intn(2) == 0 {
			ps[n-1].Lat += 0.001
		} else if c.Intn(2) == 0 {
			ps[n-1].Lon += 0.001
		}
	}
	var t *navigator.Track
	var err error
	if c.Intn(2) == 0 {
		t, err = navigator.NewTrack(ps)
	} else {
		t, err = navigator.RestoreTrack("x", "#112233", ps)
		if err == nil {
			c.check(t.ID() == "x" && t.Color() == "#112233", "restored track has id %q color %q", t.ID(), t.Color())
		}
	}
	c.note("points %v", ps)
	c.check((err != nil) == (n < 2), "track of %d points: error %v", n, err)
	if err != nil || c.fail != "" {
		return
	}
	if !c.check(t.NumSegments() == n-1, "%d points give %d segments", n, t.NumSegments()) {
		return
	}
	sum := 0.0
	snap := t.Snapshot()
	for i := 0; i < n-1; i++ {
		s := t.SegmentAt(i)
		a, b := ps[i], ps[i+1]
		d, g := geo.Distance(a.Lat, a.Lon, b.Lat, b.Lon), geo.Bearing(a.Lat, a.Lon, b.Lat, b.Lon)
		c.check(s.PointA() == a && s.PointB() == b && s.Index() == i && near(s.Distance(), d) && near(s.Bearing(), g), "segment %d is %+v, want %+v to %+v, %v m, %v degrees", i, s, a, b, d, g)
		sum += d
		if n-1 > 1 {
			c.check(snap.Segmenets[i].Rel != -1, "segment %d of %d is not chained", i, n-1)
		}
	}
	c.check(near(t.Distance(), sum), "track distance %v, segments sum to %v", t.Distance(), sum)
	closed := n >= 3 && ps[0] == ps[n-1]
	c.check(t.IsClosed() == closed, "IsClosed() = %v, want %v", t.IsClosed(), closed)
}

func c06dev(c *ctx) {
	o := navOpt{empty: c.Intn(2) == 0}
	d, _ := c.device(o)
	for k := 0; k < 12 && c.fail == ""; k++ {
		c.walkDev(d)
		before := d.NumRoutes()
		changed := false
		var call string
		switch c.Intn(5) {
		case 0:
			d.AddRoute(c.route(named(c, routeIDs), o))
			changed = d.NumRoutes() != before
			call = "AddRoute"
		case 1:
			changed = d.RemoveRoute(pick(c, routeIDs))
			call = "RemoveRoute"
		case 2:
			changed = d.RemoveTrack(pick(c, routeIDs), pick(c, trackIDs))
			call = "RemoveTrack"
		case 3:
			changed = d.ResetRoutes()
			call = "ResetRoutes"
		case 4:
			d.ResetNavigator()
			changed = true
			call = "ResetNavigator"
		}
		total := 0.0
		d.EachRoute(func(i int, r *navigator.Route) bool {
			total += routeSum(r)
			return true
		})
		c.check(near(d.Distance(), total), "device %s: distance %v, the tracks sum to %v", call, d.Distance(), total)
		if changed {
			p := posOfDev(d)
			p.Off, p.P = 0, geo.LatLonPoint{}
			c.check(p == pos{}, "device %s did not rewind: %+v", call, p)
		}
	}
}

var _ gpsgen.Status

func init() {
	reg("C04", c04)
	reg("C05", c05, c05dev, registry)
	reg("C06", registry, c06dev)
	reg("C07", c07)
	reg("C08", c08)
	reg("C10", c10, c10dev)
	reg("C11", registry)
}
