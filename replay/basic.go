package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/curve"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/properties"
	"github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
)

// ---- C01 ----

func (c *ctx) amp() int {
	switch c.Intn(4) {
	case 0:
		return 4
	case 1:
		return 512
	}
	return 4 + c.Intn(60)
}

func (c *ctx) unit() float64 {
	switch c.Intn(4) {
	case 0:
		return 0
	case 1:
		return 1
	}
	return c.Float64()
}

func inRange(x, lo, hi float64) bool {
	e := 1e-6 * math.Max(1, math.Max(math.Abs(lo), math.Abs(hi)))
	return x >= lo-e && x <= hi+e
}

func close6(a, b float64) bool { return math.Abs(a-b) <= 1e-6*math.Max(1, math.Abs(b)) }

func c01(c *ctx) {
	lo := float64(c.Intn(200))
	hi := lo + c.Float64()*300
	switch c.Intn(6) {
	case 0:
		hi = lo
	case 1:
		lo = 0
	}
	mode := types.SensorMode(0)
	modes := []types.SensorMode{types.WithSensorRandomMode, types.WithSensorStartMode, types.WithSensorEndMode, types.WithSensorStartMode | types.WithSensorEndMode, 0, 1}
	mode = modes[c.Intn(len(modes))]
	amp := c.amp()
	start, end := mode&types.WithSensorStartMode != 0, mode&types.WithSensorEndMode != 0
	c.note("limits %v..%v amplitude %d mode %d", lo, hi, amp, mode)
	drive := func(what string, lo, hi float64, start, end, static bool, next func(float64), val func() float64, shuffle func()) {
		for i := 0; i < 12 && c.fail == ""; i++ {
			if c.Intn(3) == 0 {
				shuffle()
			}
			t := c.unit()
			next(t)
			v := val()
			c.check(inRange(v, lo, hi), "%s reports %v at %v after limits %v..%v", what, v, t, lo, hi)
			if static {
				c.check(v == lo, "%s reports %v with both limits %v", what, v, lo)
			}
			if start && t == 0 || end && t == 1 {
				c.check(close6(v, lo), "%s in mode %d reports %v at %v, minimum %v", what, mode, v, t, lo)
			}
		}
	}
	sp, err := types.NewSpeed(lo, hi, amp)
	if err == nil {
		if c.Intn(4) == 0 {
			old := sp
			sp = new(types.Speed)
			sp.FromSnapshot(old.Snapshot())
		}
		a, b := lo, hi
		if a == 0 && b == 0 {
			a, b = 1, 1
		}
		drive("speed", a, b, false, false, a == b, sp.Next, sp.Value, sp.Shuffle)
		if a == b {
			c.check(sp.Value() == a, "static speed %v", sp.Value())
		}
	}
	slo, shi := lo, hi
	if c.Intn(3) == 0 {
		slo -= 500
	}
	var s *types.Sensor
	if c.Intn(2) == 0 {
		s, err = types.NewSensor("abc", slo, shi, amp, mode)
	} else {
		s, err = types.RestoreSensor("0b3a6a5e-7a5a-4a39-9d5f-1d2f3a4b5c6d", "abc", slo, shi, amp, mode)
	}
	if c.check(err == nil, "sensor: %v", err) {
		drive("sensor", slo, shi, start, end, false, s.Next, s.ValueY, s.Shuffle)
	}
	n, err := navigator.New(navigator.WithElevation(lo, hi, amp, mode))
	if c.check(err == nil, "navigator: %v", err) {
		if lo == 0 && hi == 0 {
			return
		}
		drive("elevation", lo, hi, start, end, false, n.NextElevation, n.Elevation, n.ShuffleElevation)
	}
	k := curve.New(lo, hi, amp, curve.CurveMode(mode))
	var y float64
	drive("curve", lo, hi, start, end, false, func(t float64) { y = k.Point(t).Y }, func() float64 { return y }, k.Shuffle)
}

// ---- C02 ----

func c02(c *ctx) {
	lo := float64(c.Intn(101))
	hi := lo + c.Float64()*(100-lo)
	switch c.Intn(5) {
	case 0:
		hi = lo
	case 1:
		lo, hi = 0, 100
	case 2:
		hi = 100
	}
	ct := time.Duration(c.Intn(7200)) * time.Second
	switch c.Intn(8) {
	case 0:
		ct = time.Duration(1 + c.Intn(int(time.Second)))
	case 1:
		ct = 0
	case 2:
		ct = time.Duration(c.Int63n(int64(1000 * time.Hour)))
	}
	b, err := types.NewBattery(lo, hi, ct)
	if !c.check(err == nil, "NewBattery(%v,%v,%v): %v", lo, hi, ct, err) {
		return
	}
	c.note("battery %v..%v charge time %v", lo, hi, ct)
	fresh := b.Value()
	used := 0.0
	for i := 0; i < 30 && c.fail == ""; i++ {
		v := b.Value()
		w := lo
		if ct > 0 {
			w = math.Max(lo, math.Min(hi, 100-used/ct.Seconds()*100))
		}
		c.check(v >= lo && v <= hi, "charge %v outside %v..%v after %v s", v, lo, hi, used)
		c.check(math.Abs(v-w) <= 1e-7, "charge %v after %v of %v s, want %v", v, used, ct.Seconds(), w)
		c.check(b.IsLow() == (v == lo), "IsLow() = %v at charge %v, minimum %v", b.IsLow(), v, lo)
		if c.Intn(10) == 0 {
			b.Reset()
			used = 0
			c.note("Reset")
			c.check(b.Value() == fresh, "charge %v after a reset, %v of a fresh battery", b.Value(), fresh)
			continue
		}
		d := c.Float64() * ct.Seconds() / 5
		switch c.Intn(5) {
		case 0:
			d = 0
		case 1:
			d = ct.Seconds()
		case 2:
			d = 1
		}
		b.Next(d)
		used += d
		c.note("Next(%v) -> %v", d, b.Value())
		c.check(b.Value() <= v, "charge rises from %v to %v in %v s", v, b.Value(), d)
	}
}

// ---- C03 ----

func (c *ctx) bound(bs ...float64) float64 {
	b := bs[c.Intn(len(bs))]
	switch c.Intn(5) {
	case 0:
		return b
	case 1:
		return b + 1
	case 2:
		return b - 1
	case 3:
		return b + 0.001
	}
	return b + (c.Float64()-0.5)*200
}

func (c *ctx) anyAmp() int {
	return []int{-1, 0, 3, 4, 5, 16, 511, 512, 513, 4 + c.Intn(509)}[c.Intn(10)]
}

func badAmp(a int) bool { return a < 4 || a > 512 }

func c03(c *ctx) {
	lo, hi, amp := c.bound(0, 500, 1000), c.bound(0, 500, 1000), c.anyAmp()
	e := hi
	if e <= 0 {
		e = lo
	}
	s, err := types.NewSpeed(lo, hi, amp)
	call := fmt.Sprintf("NewSpeed(%v, %v, %d)", lo, hi, amp)
	bad := lo < 0 || e > 1000 || lo > e || badAmp(amp)
	c.check((err != nil) == bad, "%s: error %v", call, err)
	if err != nil {
		ok := errors.Is(err, types.ErrMinSpeed) && lo < 0 || errors.Is(err, types.ErrMaxSpeed) && e > 1000 ||
			errors.Is(err, types.ErrSpeedMinGreaterMax) && lo > e || errors.Is(err, types.ErrMinAmplitude) && amp < 4 ||
			errors.Is(err, types.ErrMaxAmplitude) && amp > 512
		c.check(ok, "%s: wrong error %v", call, err)
	} else if !bad {
		if lo == 0 && e == 0 {
			c.check(s.Min() == 1 && s.Max() == 1, "%s: limits %v..%v", call, s.Min(), s.Max())
		} else {
			c.check(s.Min() == lo && s.Max() == e, "%s: limits %v..%v", call, s.Min(), s.Max())
		}
		c.check(len(s.Snapshot().Gen.Points) == amp && s.Snapshot().Gen.Min == s.Min() && s.Snapshot().Gen.Max == s.Max(), "%s: generator of %d points over %v..%v", call, len(s.Snapshot().Gen.Points), s.Snapshot().Gen.Min, s.Snapshot().Gen.Max)
	}

	lo, hi = c.bound(0, 50, 100), c.bound(0, 50, 100)
	ct := []time.Duration{-1, -time.Hour, 0, 1, time.Hour, time.Duration(c.Int63n(1e15))}[c.Intn(6)]
	b, err := types.NewBattery(lo, hi, ct)
	call = fmt.Sprintf("NewBattery(%v, %v, %v)", lo, hi, ct)
	bad = lo < 0 || hi < 0 || hi > 100
	c.check((err != nil) == bad, "%s: error %v", call, err)
	if err != nil {
		ok := errors.Is(err, types.ErrMinBattery) && (lo < 0 || hi < 0) || errors.Is(err, types.ErrMaxBattery) && hi > 100
		c.check(ok, "%s: wrong error %v", call, err)
	} else if !bad {
		c.check(b.Max() == hi && b.Min() == math.Min(lo, hi), "%s: limits %v..%v", call, b.Min(), b.Max())
		w := ct
		if ct < 0 {
			w = 9 * time.Hour
		}
		c.check(ct == 0 || b.ChargeTime() == w, "%s: charge time %v", call, b.ChargeTime())
	}

	name := strings.Repeat("x", c.Intn(3))
	slo, shi := c.bound(-5, 0, 100), c.bound(-5, 0, 100)
	mode := types.SensorMode(c.Intn(1 << 16))
	if c.Intn(3) == 0 {
		mode = 0
	}
	id := []string{"", "x", "0b3a6a5e-7a5a-4a39-9d5f-1d2f3a4b5c6d"}[c.Intn(3)]
	restored := c.Intn(2) == 0
	var sn *types.Sensor
	if restored {
		sn, err = types.RestoreSensor(id, name, slo, shi, amp, mode)
		call = fmt.Sprintf("RestoreSensor(%q, %q, %v, %v, %d, %d)", id, name, slo, shi, amp, mode)
		bad = len(id) < 2 || name == "" || badAmp(amp)
	} else {
		sn, err = types.NewSensor(name, slo, shi, amp, mode)
		call = fmt.Sprintf("NewSensor(%q, %v, %v, %d, %d)", name, slo, shi, amp, mode)
		bad = name == "" || badAmp(amp)
	}
	c.check((err != nil) == bad, "%s: error %v", call, err)
	if err == nil && !bad {
		wm := int64(mode)
		if mode == 0 {
			wm = int64(types.WithSensorRandomMode)
		}
		g := sn.Snapshot().Gen
		c.check(sn.Name() == name && sn.Min() == slo && sn.Max() == shi, "%s: %v", call, sn.Snapshot())
		c.check(len(g.Points) == amp && g.Min == slo && g.Max == shi && g.Mode == wm, "%s: generator of %d points over %v..%v mode %d", call, len(g.Points), g.Min, g.Max, g.Mode)
		c.check(!restored || sn.ID() == id, "%s: id %q", call, sn.ID())
	}

	rl, rh := c.Intn(12)-3, c.Intn(12)-3
	if c.Intn(3) == 0 {
		rh = rl + c.Intn(2000)
	}
	r := types.NewRandom(rl, rh)
	call = fmt.Sprintf("NewRandom(%d, %d)", rl, rh)
	c.check(r.Min() >= 0 && r.Min() <= r.Max(), "%s: %d..%d", call, r.Min(), r.Max())
	if rl >= 0 && rh >= rl && rh > 0 {
		c.check(r.Min() == rl && r.Max() == rh, "%s: %d..%d", call, r.Min(), r.Max())
	}
	for i := 0; i < 20; i++ {
		v := r.Value()
		c.check(v >= r.Min() && v <= r.Max(), "%s: value %d", call, v)
	}

	m := strings.Repeat("m", []int{0, 1, 2, 3, 4, 63, 64, 65, 100}[c.Intn(9)])
	mv, err := types.NewModel(m)
	c.check((err != nil) == (len(m) < 3 || len(m) > 64), "NewModel of %d characters: %v", len(m), err)
	c.check(err == nil && mv.String() == m || err != nil && mv.IsEmpty(), "NewModel of %d characters: %q", len(m), mv)
	if err != nil {
		c.check(errors.Is(err, types.ErrModelTooShort) == (len(m) < 3) && errors.Is(err, types.ErrModelTooLong) == (len(m) > 64), "NewModel of %d characters: %v", len(m), err)
	}
	rm := types.RandomModel().String()
	c.check(len(rm) >= 3 && len(rm) <= 64, "RandomModel %q", rm)

	nm := strings.Repeat("n", []int{0, 1, 2, 3, 4, 255, 256, 257, 300}[c.Intn(9)])
	p, err := navigator.ParseName(nm)
	c.check((err != nil) == (len(nm) < 3 || len(nm) > 256), "ParseName of %d characters: %v", len(nm), err)
	c.check(err != nil || p.String() == nm, "ParseName of %d characters: %q", len(nm), p)
	rt, tr := c.route("r", navOpt{}), c.track("t", false)
	was := rt.Name()
	err = rt.ChangeName(nm)
	c.check((err != nil) == (len(nm) < 3 || len(nm) > 256), "route name of %d characters: %v", len(nm), err)
	c.check(err == nil && rt.Name().String() == nm || err != nil && rt.Name() == was, "route name of %d characters: %q", len(nm), rt.Name())
	tw := tr.Name()
	err = tr.ChangeName(nm)
	c.check((err != nil) == (len(nm) < 3 || len(nm) > 256), "track name of %d characters: %v", len(nm), err)
	c.check(err == nil && tr.Name().String() == nm || err != nil && tr.Name() == tw, "track name of %d characters: %q", len(nm), tr.Name())
}

func c03nav(c *ctx) {
	ol, oh := int(c.bound(0, 5, 3600)), int(c.bound(0, 5, 3600))
	if c.Intn(2) == 0 {
		ol, oh = c.Intn(6)-1, c.Intn(6)-1
	}
	el, eh, amp := c.bound(0, 100, 50000), c.bound(0, 100, 50000), c.anyAmp()
	if c.Intn(2) == 0 {
		amp = 8
	}
	skip := c.Intn(4) == 0
	opts := []navigator.Option{navigator.WithOffline(ol, oh), navigator.WithElevation(el, eh, amp, 0)}
	if skip {
		opts = append(opts, navigator.SkipOfflineMode())
	}
	call := fmt.Sprintf("navigator.New(offline %d..%d skip %v, elevation %v..%v amplitude %d)", ol, oh, skip, el, eh, amp)
	n, err := navigator.New(opts...)
	bad := ol < 0 || oh > 3600 || el < 0 || eh > 50000 || badAmp(amp)
	c.check((err != nil) == bad, "%s: error %v", call, err)
	if err != nil {
		return
	}
	s := n.Snapshot()
	c.check(s.Elevation.Min >= 0 && s.Elevation.Min <= s.Elevation.Max && s.Elevation.Max <= 50000, "%s: elevation %v..%v", call, s.Elevation.Min, s.Elevation.Max)
	if el <= eh && eh > 0 {
		c.check(s.Elevation.Min == el && s.Elevation.Max == eh, "%s: elevation %v..%v", call, s.Elevation.Min, s.Elevation.Max)
	}
	if !skip {
		c.check(s.OfflineMin >= 0 && s.OfflineMin <= s.OfflineMax && s.OfflineMax <= 3600, "%s: offline %d..%d", call, s.OfflineMin, s.OfflineMax)
		if ol <= oh && oh > 0 {
			c.check(int(s.OfflineMin) == ol && int(s.OfflineMax) == oh, "%s: offline %d..%d", call, s.OfflineMin, s.OfflineMax)
		}
		n.ToOffline()
		d := n.OfflineDuration()
		c.check(d >= int(s.OfflineMin) && d <= int(s.OfflineMax), "%s: offline for %d", call, d)
	}
	c.check(s.SkipOffline == skip, "%s: skip %v", call, s.SkipOffline)
	if _, err := navigator.New(); err != nil {
		c.failf("navigator.New(): %v", err)
	}
}

func c03dev(c *ctx) {
	mk := []func() *gpsgen.DeviceOptions{gpsgen.NewDeviceOptions, gpsgen.DefaultTrackerOptions, gpsgen.KidsTrackerOptions, gpsgen.DogTrackerOptions, gpsgen.BicycleTrackerOptions, gpsgen.DroneTrackerOptions}
	o := mk[c.Intn(len(mk))]()
	if _, err := gpsgen.NewDevice(mk[c.Intn(len(mk))]()); err != nil {
		c.failf("a predefined device: %v", err)
	}
	bad := false
	switch c.Intn(6) {
	case 0:
		o.Speed.Min, o.Speed.Max = c.bound(0, 1000), c.bound(0, 1000)
		e := o.Speed.Max
		if e <= 0 {
			e = o.Speed.Min
		}
		bad = o.Speed.Min < 0 || e > 1000 || o.Speed.Min > e
	case 1:
		o.Battery.Min, o.Battery.Max = c.bound(0, 100), c.bound(0, 100)
		bad = o.Battery.Min < 0 || o.Battery.Max < 0 || o.Battery.Max > 100
	case 2:
		o.Model = strings.Repeat("m", []int{0, 1, 2, 3, 64, 65}[c.Intn(6)])
		bad = len(o.Model) > 0 && (len(o.Model) < 3 || len(o.Model) > 64)
	case 3:
		o.Speed.Amplitude = c.anyAmp()
		bad = badAmp(o.Speed.Amplitude)
	case 4:
		o.Navigator.Offline.Min, o.Navigator.Offline.Max = int(c.bound(0, 3600)), int(c.bound(0, 3600))
		bad = o.Navigator.Offline.Min < 0 || o.Navigator.Offline.Max > 3600
	case 5:
		o.Navigator.Elevation.Min, o.Navigator.Elevation.Max = c.bound(0, 50000), c.bound(0, 50000)
		bad = o.Navigator.Elevation.Min < 0 || o.Navigator.Elevation.Max > 50000
	}
	o.ID = []string{"", "dev-1"}[c.Intn(2)]
	w := *o
	d, err := gpsgen.NewDevice(o)
	c.check((err != nil) == bad, "NewDevice(%+v): error %v", w, err)
	if err != nil || d == nil {
		return
	}
	s := d.Snapshot()
	c.check(s.Speed.Min >= 0 && s.Speed.Min <= s.Speed.Max && s.Speed.Max <= 1000, "NewDevice(%+v): speed %v..%v", w, s.Speed.Min, s.Speed.Max)
	c.check(s.Battery.Min >= 0 && s.Battery.Min <= s.Battery.Max && s.Battery.Max <= 100, "NewDevice(%+v): battery %v..%v", w, s.Battery.Min, s.Battery.Max)
	if w.Speed.Min > 0 && w.Speed.Max > 0 {
		c.check(s.Speed.Min == w.Speed.Min && s.Speed.Max == w.Speed.Max, "NewDevice(%+v): speed %v..%v", w, s.Speed.Min, s.Speed.Max)
	}
	if w.Battery.Min <= w.Battery.Max {
		c.check(s.Battery.Min == w.Battery.Min && s.Battery.Max == w.Battery.Max, "NewDevice(%+v): battery %v..%v", w, s.Battery.Min, s.Battery.Max)
	}
	if w.Navigator.Offline.Min <= w.Navigator.Offline.Max && w.Navigator.Offline.Max > 0 && !w.Navigator.SkipOffline {
		c.check(int(s.Navigator.OfflineMin) == w.Navigator.Offline.Min && int(s.Navigator.OfflineMax) == w.Navigator.Offline.Max, "NewDevice(%+v): offline %d..%d", w, s.Navigator.OfflineMin, s.Navigator.OfflineMax)
	}
	if w.Navigator.Elevation.Min <= w.Navigator.Elevation.Max && w.Navigator.Elevation.Max > 0 {
		c.check(s.Navigator.Elevation.Min == w.Navigator.Elevation.Min && s.Navigator.Elevation.Max == w.Navigator.Elevation.Max, "NewDevice(%+v): elevation %v..%v", w, s.Navigator.Elevation.Min, s.Navigator.Elevation.Max)
	}
	c.check(w.ID == "" || d.ID() == w.ID, "NewDevice(%+v): id %q", w, d.ID())
	c.check(w.Model == "" || d.Model() == w.Model, "NewDevice(%+v): model %q", w, d.Model())
	c.check(d.Status() == gpsgen.Stopped, "NewDevice: status %v", d.Status())
	m := strings.Repeat("q", []int{0, 2, 3, 64, 65}[c.Intn(5)])
	was := d.Model()
	err = d.SetModel(m)
	c.check((err != nil) == (len(m) < 3 || len(m) > 64), "SetModel of %d characters: %v", len(m), err)
	c.check(err == nil && d.Model() == m || err != nil && d.Model() == was, "SetModel of %d characters: %q", len(m), d.Model())
}

// ---- C22 ----

const rad = math.Pi / 180

func (c *ctx) coord() geo.LatLonPoint {
	lats := []float64{-90, 90, 0, 45}
	lons := []float64{-180, 180, 0, 179.999}
	p := geo.LatLonPoint{Lat: c.Float64()*180 - 90, Lon: c.Float64()*360 - 180}
	if c.Intn(5) == 0 {
		p.Lat = lats[c.Intn(4)]
	}
	if c.Intn(5) == 0 {
		p.Lon = lons[c.Intn(4)]
	}
	return p
}

func c22(c *ctx) {
	a, b := c.coord(), c.coord()
	switch c.Intn(6) {
	case 0:
		b = a
	case 1:
		b.Lat, b.Lon = a.Lat+(c.Float64()-0.5)/1000, a.Lon+(c.Float64()-0.5)/1000
	case 2:
		b.Lat = -a.Lat
		b.Lon = a.Lon + 180
	}
	h := math.Pow(math.Sin((b.Lat-a.Lat)*rad/2), 2) + math.Cos(a.Lat*rad)*math.Cos(b.Lat*rad)*math.Pow(math.Sin((b.Lon-a.Lon)*rad/2), 2)
	want := 2 * 6371e3 * math.Asin(math.Sqrt(math.Min(1, h)))
	d := geo.Distance(a.Lat, a.Lon, b.Lat, b.Lon)
	// near antipodal points the arcsine magnifies rounding
	c.check(math.Abs(d-want) <= 1e-3 || h > 0.999999 && math.Abs(d-want) < 10, "Distance(%v, %v) = %v, want %v", a, b, d, want)
	c.check(math.Abs(d-geo.Distance(b.Lat, b.Lon, a.Lat, a.Lon)) <= 1e-3 || h > 0.999999, "Distance(%v, %v) is not symmetric", a, b)
	c.check(d >= 0 && (a != b || d == 0), "Distance(%v, %v) = %v", a, b, d)
	g := geo.Haversine(a.Lat, a.Lon, b.Lat, b.Lon)
	c.check(math.Abs(g-h) <= 1e-12, "Haversine(%v, %v) = %v, want %v", a, b, g, h)
	m := c.Float64() * 2e7
	c.check(math.Abs(geo.DistanceToHaversine(m)-math.Pow(math.Sin(m/2/6371e3), 2)) < 1e-12, "DistanceToHaversine(%v) = %v", m, geo.DistanceToHaversine(m))
	c.check(math.Abs(geo.DistanceFromHaversine(h)-want) < 1e-6, "DistanceFromHaversine(%v) = %v, want %v", h, geo.DistanceFromHaversine(h), want)
	big := c.Float64() * 2e8
	c.check(math.Abs(geo.NormalizeDistance(big)-math.Mod(big, 2*math.Pi*6371e3)) < 1e-3, "NormalizeDistance(%v) = %v", big, geo.NormalizeDistance(big))

	y := math.Sin((b.Lon-a.Lon)*rad) * math.Cos(b.Lat*rad)
	x := math.Cos(a.Lat*rad)*math.Sin(b.Lat*rad) - math.Sin(a.Lat*rad)*math.Cos(b.Lat*rad)*math.Cos((b.Lon-a.Lon)*rad)
	br := geo.Bearing(a.Lat, a.Lon, b.Lat, b.Lon)
	c.check(br >= 0 && br < 360, "Bearing(%v, %v) = %v", a, b, br)
	if math.Hypot(x, y) > 1e-6 {
		w := math.Atan2(y, x) / rad
		df := math.Mod(br-w+720, 360)
		c.check(df < 1e-6 || df > 360-1e-6, "Bearing(%v, %v) = %v, want %v", a, b, br, w)
	}
	t := c.Float64() * 360
	la, lo := geo.Destination(a.Lat, a.Lon, m, t)
	dl := m / 6371e3
	wla := math.Asin(math.Max(-1, math.Min(1, math.Sin(a.Lat*rad)*math.Cos(dl)+math.Cos(a.Lat*rad)*math.Sin(dl)*math.Cos(t*rad))))
	wlo := a.Lon + math.Atan2(math.Sin(t*rad)*math.Sin(dl)*math.Cos(a.Lat*rad), math.Cos(dl)-math.Sin(a.Lat*rad)*math.Sin(wla))/rad
	df := math.Mod(lo-wlo+1080, 360)
	pole := math.Abs(wla/rad) > 89.99 || math.Abs(a.Lat) > 89.99
	c.check(math.Abs(la-wla/rad) < 1e-6 || pole && math.Abs(la-wla/rad) < 1e-3, "Destination(%v, %v, %v) = %v, want %v", a, m, t, la, wla/rad)
	c.check(pole || df < 1e-6 || df > 360-1e-6, "Destination(%v, %v, %v) = longitude %v, want %v", a, m, t, lo, wlo)
	c.check(lo >= -180.0001 && lo <= 180.0001 && !math.IsNaN(la), "Destination(%v, %v, %v) = %v, %v", a, m, t, la, lo)

	v := []float64{-1, 0, 1, 2, 0.5, 3}
	rv := func() float64 { return v[c.Intn(len(v))] }
	bx := geo.BBox{MinLon: rv(), MinLat: rv(), MaxLon: rv(), MaxLat: rv()}
	p := geo.LatLonPoint{Lat: rv(), Lon: rv()}
	in := p.Lat >= bx.MinLat && p.Lat <= bx.MaxLat && p.Lon >= bx.MinLon && p.Lon <= bx.MaxLon
	c.check(bx.In(p) == in, "%+v In(%v) = %v", bx, p, bx.In(p))
	ce := bx.Center()
	c.check(near(ce.Lat, (bx.MinLat+bx.MaxLat)/2) && near(ce.Lon, (bx.MinLon+bx.MaxLon)/2), "%+v Center() = %v", bx, ce)
	var ps [][2]float64
	for i := c.Intn(5); i > 0; i-- {
		ps = append(ps, [2]float64{c.Float64(), c.Float64()})
	}
	q := geo.NormalizeCoordinates(a.Lat, a.Lon, ps)
	if c.check(len(q) == len(ps), "NormalizeCoordinates: %d of %d points", len(q), len(ps)) {
		for i := range q {
			c.check(near(q[i].Lat, ps[i][0]+a.Lat) && near(q[i].Lon, ps[i][1]+a.Lon), "NormalizeCoordinates(%v, %v): point %d is %v of %v", a.Lat, a.Lon, i, q[i], ps[i])
		}
	}
}

// ---- C24 ----

func c24(c *ctx) {
	p := c.coord()
	if c.Intn(3) == 0 {
		p.Lat = math.Round(p.Lat*60) / 60
		p.Lon = math.Round(p.Lon)
	}
	q := p
	q.Lat += 0.01
	if q.Lat > 90 {
		q.Lat = 89
	}
	t, err := navigator.NewTrack([]geo.LatLonPoint{p, q})
	if err != nil {
		panic(err)
	}
	n, _ := navigator.New(navigator.SkipOfflineMode())
	n.AddRoute(navigator.RouteFromTracks(t))
	for i := 0; i < 5; i++ {
		n.NextLocation(1, c.Float64()*200)
		st := new(proto.Device)
		n.Update(st)
		l := n.Location()
		one := func(what string, x float64, d *proto.Device_Location_DMS, pl, mi string) {
			sum := float64(d.Degrees) + float64(d.Minutes)/60 + d.Seconds/3600
			c.check(d.Degrees >= 0 && d.Minutes >= 0 && d.Minutes < 60 && d.Seconds >= -1e-6 && d.Seconds < 60+1e-6, "%s %v: %v", what, x, d)
			c.check(math.Abs(sum-math.Abs(x)) < 1e-9, "%s %v: %v adds up to %v", what, x, d, sum)
			c.check(d.Direction == pl || d.Direction == mi, "%s %v: %v", what, x, d)
			c.check(x == 0 || (x > 0) == (d.Direction == pl), "%s %v: %v", what, x, d)
		}
		c.check(st.Location.Lat == l.Lat && st.Location.Lon == l.Lon, "published %v %v at %v", st.Location.Lat, st.Location.Lon, l)
		one("latitude", l.Lat, st.Location.LatDms, "N", "S")
		one("longitude", l.Lon, st.Location.LonDms, "E", "W")
	}
}

// ---- C25 ----

func c25(c *ctx) {
	keys := []string{"a", "b", "c", "", "k"}
	val := func() interface{} {
		vs := []interface{}{"x", "", true, false, 1, 0, int64(5), int32(-3), 1.5, 0.0, nil, uint(3), int8(3), []int{1}, float32(2), int16(1), uint64(4)}
		return vs[c.Intn(len(vs))]
	}
	p := properties.Make()
	c.check(p != nil && len(p) == 0, "Make() = %v", p)
	m := map[string]interface{}{}
	for i := 0; i < 25 && c.fail == ""; i++ {
		k := keys[c.Intn(len(keys))]
		switch c.Intn(8) {
		case 0:
			p.Remove(k)
			delete(m, k)
			c.note("Remove(%q)", k)
		case 1:
			if c.Intn(3) == 0 {
				p.Reset()
				m = map[string]interface{}{}
				c.note("Reset")
			}
		case 2, 3:
			o := properties.Make()
			for j := c.Intn(4); j > 0; j-- {
				o[keys[c.Intn(len(keys))]] = val()
			}
			w := properties.Make()
			for k, v := range o {
				m[k] = v
				w[k] = v
			}
			if c.Intn(6) == 0 {
				o = nil
				w = nil
				m = map[string]interface{}{}
				for k, v := range p {
					m[k] = v
				}
			}
			p.Merge(o)
			c.check(len(o) == len(w) && (len(o) == 0 || reflect.DeepEqual(o, w)), "Merge changes its argument from %v to %v", w, o)
			c.note("Merge(%v)", o)
		default:
			v := val()
			q := p.Set(k, v)
			m[k] = v
			c.check(reflect.ValueOf(q).Pointer() == reflect.ValueOf(p).Pointer(), "Set returns another map")
			c.note("Set(%q, %T %v)", k, v, v)
		}
		c.check(p != nil && reflect.DeepEqual(map[string]interface{}(p), m), "map is %v, want %v", p, m)
		for _, k := range keys {
			v := m[k]
			s, ok := v.(string)
			g, gok := p.String(k)
			c.check(g == s && gok == ok, "String(%q) of %T %v = %v, %v", k, v, v, g, gok)
			b, ok := v.(bool)
			h, hok := p.Bool(k)
			c.check(h == b && hok == ok, "Bool(%q) of %T %v = %v, %v", k, v, v, h, hok)
			f, ok := v.(float64)
			e, eok := p.Float64(k)
			c.check(e == f && eok == ok, "Float64(%q) of %T %v = %v, %v", k, v, v, e, eok)
			w, ok := 0, true
			switch x := v.(type) {
			case int:
				w = x
			case int32:
				w = int(x)
			case int64:
				w = int(x)
			default:
				ok = false
			}
			n, nok := p.Int(k)
			c.check(n == w && nok == ok, "Int(%q) of %T %v = %v, %v", k, v, v, n, nok)
		}
	}
}

func init() {
	reg("C01", c01)
	reg("C02", c02)
	reg("C03", c03, c03nav, c03dev)
	reg("C22", c22)
	reg("C24", c24)
	reg("C25", c25)
}
