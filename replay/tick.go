package main

import (
	"math"

	"github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
)

// ---- C17 ----

func cps(ps []*pb.Snapshot_Curve_ControlPoint) (out []float64) {
	for _, p := range ps {
		out = append(out, p.Cp.Y)
	}
	return
}

func begin(d *gpsgen.Device) bool {
	return d.RouteIndex() == 0 && d.TrackIndex() == 0 && d.SegmentIndex() == 0
}

// twin builds components equal to those of the device.
type parts struct {
	battery   *types.Battery
	speed     *types.Speed
	elevation *types.Sensor
	sensors   []*types.Sensor
}

func partsOf(d *gpsgen.Device) parts { return partsOfSnap(d.Snapshot()) }

func partsOfSnap(s *pb.Snapshot) parts {
	p := parts{new(types.Battery), new(types.Speed), new(types.Sensor), nil}
	p.battery.FromSnapshot(s.Battery)
	p.speed.FromSnapshot(s.Speed)
	p.elevation.FromSnapshot(s.Navigator.Elevation)
	for _, x := range s.Sensors {
		y := new(types.Sensor)
		y.FromSnapshot(x)
		p.sensors = append(p.sensors, y)
	}
	return p
}

func c17(c *ctx) {
	opts := gpsgen.DefaultTrackerOptions()
	opts.Navigator.SkipOffline = c.Intn(2) == 0
	opts.Battery.ChargeTime = 1e9 * 3600
	if c.Intn(2) == 0 {
		opts.Battery.ChargeTime = 1e9 * 120
	}
	if !opts.Navigator.SkipOffline {
		opts.Navigator.Offline.Min, opts.Navigator.Offline.Max = 3, 6
	}
	if c.Intn(5) == 0 {
		opts.Speed.Min, opts.Speed.Max = 3, 3
	}
	d, err := gpsgen.NewDevice(opts)
	if err != nil {
		panic(err)
	}
	idle := d.Snapshot()
	c.check(!d.Next(1) && d.State().Duration == 0 && d.State().Tick == 0 && d.Snapshot().Battery.Val == idle.Battery.Val, "a tick on a device without routes changed something")
	rs := c.routes(navOpt{dup: true})
	d.AddRoute(rs...)
	for k := c.Intn(3); k > 0; k-- {
		d.AddSensor(c.anySensor())
	}
	speedMin, speedMax := d.Snapshot().Speed.Min, d.Snapshot().Speed.Max
	for k := 0; k < 40 && c.fail == ""; k++ {
		if c.Intn(12) == 0 {
			d.MoveToSegment(c.Intn(3), c.Intn(3), c.Intn(3))
		}
		if c.Intn(15) == 0 {
			d.ToOffline()
		}
		tick := c.Float64() * 20
		if c.Intn(4) == 0 {
			tick = c.Float64() * 100
		}
		missed := 0
		if c.Intn(4) == 0 {
			before := d.Snapshot()
			d.EachSensor(func(int, *types.Sensor) bool { return false })
			d.EachRoute(func(int, *navigator.Route) bool {
				// the device is busy here
				for missed = 1 + c.Intn(3); ; {
					for i := 0; i < missed; i++ {
						if d.Next(7) {
							c.failf("a tick on a busy device succeeded")
						}
					}
					break
				}
				return false
			})
			after := d.Snapshot()
			c.check(before.Duration == after.Duration && before.Battery.Val == after.Battery.Val && before.Tick == after.Tick && before.Navigator.CurrentDistance == after.Navigator.CurrentDistance,
				"ticks on a busy device changed it")
		}
		sec := float64(missed) + tick
		b := d.Snapshot()
		p := partsOf(d)
		wasBegin := begin(d)
		offline := d.IsOffline()
		loc := d.Location()
		p.battery.Next(sec)
		low := p.battery.IsLow()
		seg, cur := d.CurrentSegment(), d.CurrentSegmentDistance()
		ok := d.Next(tick)
		a := d.Snapshot()
		c.note("Next(%v) with %d missed = %v", tick, missed, ok)
		c.check(near(a.Tick, sec), "tick of %v with %d missed ticks recorded as %v", tick, missed, a.Tick)
		finished := !ok && !(a.Navigator.CurrentDistance == b.Navigator.CurrentDistance) || begin(d) && !wasBegin
		if finished {
			c.check(!ok && a.Duration == 0, "after completing the routes the duration is %v", a.Duration)
			same := func(x, y []float64) bool {
				for i := range x {
					if x[i] != y[i] {
						return false
					}
				}
				return len(x) > 2
			}
			c.check(!same(cps(b.Navigator.Elevation.Gen.Points), cps(a.Navigator.Elevation.Gen.Points)), "elevation was not reshuffled on completing the routes")
			c.check(speedMin == speedMax || !same(cps(b.Speed.Gen.Points), cps(a.Speed.Gen.Points)), "speed was not reshuffled on completing the routes")
			for i := range a.Sensors {
				if a.Sensors[i].Min == a.Sensors[i].Max || b.Sensors[i].Gen.Mode != 0 && len(b.Sensors[i].Gen.Points) < 5 {
					continue
				}
				c.check(!same(cps(b.Sensors[i].Gen.Points), cps(a.Sensors[i].Gen.Points)), "sensor %d was not reshuffled on completing the routes", i)
			}
		} else if ok || !begin(d) || b.Navigator.CurrentDistance != 0 {
			c.check(near(a.Duration, b.Duration+sec), "duration went from %v to %v in a tick of %v with %d missed", b.Duration, a.Duration, tick, missed)
		}
		if low {
			c.check(a.Battery.Val == 0, "a low battery was not recharged: %v", a.Battery.Val)
			if !opts.Navigator.SkipOffline {
				c.check(!ok && d.IsOffline() && d.Location() == loc, "the device did not go offline with a low battery")
			}
		} else {
			c.check(near(a.Battery.Val, b.Battery.Val+sec), "battery went from %v to %v in a tick of %v with %d missed", b.Battery.Val, a.Battery.Val, tick, missed)
			if !offline && seg.Distance() > 0 {
				if !opts.Navigator.SkipOffline && cur+sec*d.State().Speed < seg.Distance()-1e-6 {
					c.check(ok && !d.IsOffline(), "the device stopped although the battery is not low and the segment is not used up")
				}
			}
		}
		if !ok {
			continue
		}
		// the X of a draw is its time, scaled by the number of control points
		t := a.Navigator.Elevation.ValX / float64(len(a.Navigator.Elevation.Gen.Points)-1)
		if !c.check(t >= -1e-9 && t <= 1+1e-9, "the elevation was drawn at the normalised time %v", t) {
			return
		}
		close := func(x, y float64) bool { return math.Abs(x-y) <= 1e-6*math.Max(1, math.Abs(x)) }
		q := partsOfSnap(b)
		q.speed.Next(t)
		q.elevation.Next(t)
		c.check(close(q.speed.Value(), d.State().Speed), "speed %v was not drawn at the normalised time %v of the elevation", d.State().Speed, t)
		c.check(close(q.elevation.ValueY(), a.Navigator.Elevation.ValY), "elevation was not drawn at one normalised time")
		for i, s := range q.sensors {
			s.Next(t)
			c.check(close(s.ValueX(), a.Sensors[i].ValX) && close(s.ValueY(), a.Sensors[i].ValY), "sensor %d was not drawn at the normalised time %v of the elevation", i, t)
		}
		c.check(near(a.Navigator.CurrentDistance, b.Navigator.CurrentDistance+sec*d.State().Speed), "moved from %v to %v in %v s at %v m/s", b.Navigator.CurrentDistance, a.Navigator.CurrentDistance, sec, d.State().Speed)
	}
}

func init() { reg("C17", c17) }
