package main

import (
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/curve"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
)

// ---- C12 ----

// same reports the first difference between two values, private state
// included; nil and empty slices are equal. skip names the attributes that
// are not part of what is saved.
func same(a, b reflect.Value, path string, skip map[string]bool, depth int) string {
	if depth > 40 {
		return ""
	}
	if a.IsValid() != b.IsValid() {
		return path + ": present in one only"
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %v against %v", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": nil in one only"
			}
			return ""
		}
		return same(a.Elem(), b.Elem(), path, skip, depth+1)
	case reflect.Struct:
		t := a.Type()
		for i := 0; i < t.NumField(); i++ {
			if skip[t.Name()+"."+t.Field(i).Name] {
				continue
			}
			if d := same(a.Field(i), b.Field(i), path+"."+t.Field(i).Name, skip, depth+1); d != "" {
				return d
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d against %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := same(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), skip, depth+1); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d against %d entries", path, a.Len(), b.Len())
		}
	case reflect.Float64:
		if a.Float() != b.Float() {
			return fmt.Sprintf("%s: %v against %v", path, a.Float(), b.Float())
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %v against %v", path, a.Int(), b.Int())
		}
	case reflect.Uint8, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %v against %v", path, a.Uint(), b.Uint())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q against %q", path, a.String(), b.String())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v against %v", path, a.Bool(), b.Bool())
		}
	}
	return ""
}

var unsaved = map[string]bool{
	"Route.props": true, "Track.props": true, "Navigator.offline": true,
	"Device.mu": true, "Device.state": true, "Device.status": true, "Device.avgT": true, "Device.tick": true, "Device.ns": true,
}

func (c *ctx) sameObj(what string, a, b interface{}) {
	if d := same(reflect.ValueOf(a), reflect.ValueOf(b), what, unsaved, 0); d != "" {
		c.failf("restored %s", d)
	}
}

func sameState(a, b *pb.Device) string {
	return same(reflect.ValueOf(a), reflect.ValueOf(b), "state", map[string]bool{
		"Device.state": true, "Device.sizeCache": true, "Device.unknownFields": true,
	}, 0)
}

// saved checks that restoring reproduces the object, that the message itself
// survives, and that saving left the object alone.
func (c *ctx) saved(what string, obj interface{}, snap func() proto.Message, restore func(proto.Message) interface{}) {
	s := snap()
	twin := snap()
	c.check(proto.Equal(s, twin), "%s: two snapshots in a row differ", what)
	r := restore(proto.Clone(s))
	c.sameObj(what, obj, r)
	r2 := restore(proto.Clone(twin))
	c.sameObj(what, obj, r2)
}

func (c *ctx) anySensor() *types.Sensor {
	modes := []types.SensorMode{types.WithSensorRandomMode, types.WithSensorStartMode, types.WithSensorEndMode, types.WithSensorStartMode | types.WithSensorEndMode}
	lo := c.Float64()*20 - 10
	s, err := types.NewSensor(fmt.Sprintf("s%d", c.Intn(100)), lo, lo+c.Float64()*50, c.amp(), modes[c.Intn(4)])
	if err != nil {
		panic(err)
	}
	for k := c.Intn(3); k > 0; k-- {
		s.Next(c.unit())
		if c.Intn(2) == 0 {
			s.Shuffle()
		}
	}
	return s
}

func (c *ctx) namedRoute(id string) *navigator.Route {
	r := c.route(id, navOpt{dup: true, empty: true})
	if c.Intn(2) == 0 {
		r.ChangeName(fmt.Sprintf("route %d", c.Intn(100)))
	}
	for j := 0; j < r.NumTracks(); j++ {
		if c.Intn(2) == 0 {
			r.TrackAt(j).ChangeName(fmt.Sprintf("track %d", c.Intn(100)))
		}
		if c.Intn(2) == 0 {
			r.TrackAt(j).ChangeColor("#0102ff")
		}
	}
	if c.Intn(4) == 0 && r.NumTracks() > 1 {
		r.RemoveTrack(r.TrackAt(0).ID())
	}
	return r
}

func c12parts(c *ctx) {
	lo := c.Float64()*20 - 10
	cv := curve.New(lo, lo+c.Float64()*30, c.amp(), curve.CurveMode(c.Intn(5)))
	if c.Intn(2) == 0 {
		cv.Shuffle()
	}
	c.saved("curve", cv, func() proto.Message { return cv.Snapshot() }, func(m proto.Message) interface{} {
		x := new(curve.Curve)
		x.FromSnapshot(m.(*pb.Snapshot_Curve))
		return x
	})
	s := c.anySensor()
	c.saved("sensor", s, func() proto.Message { return s.Snapshot() }, func(m proto.Message) interface{} {
		x := new(types.Sensor)
		x.FromSnapshot(m.(*types.SensorSnapshot))
		return x
	})
	sp, err := types.NewSpeed(c.Float64()*5, 5+c.Float64()*20, c.amp())
	if err != nil {
		panic(err)
	}
	sp.Next(c.unit())
	c.saved("speed", sp, func() proto.Message { return sp.Snapshot() }, func(m proto.Message) interface{} {
		x := new(types.Speed)
		x.FromSnapshot(m.(*pb.Snapshot_CommonType))
		return x
	})
	b, err := types.NewBattery(c.Float64()*20, 30+c.Float64()*70, time.Duration(c.Intn(1e9))*1000+time.Duration(c.Intn(1000)))
	if err != nil {
		panic(err)
	}
	b.Next(c.Float64() * 5000)
	c.saved("battery", b, func() proto.Message { return b.Snapshot() }, func(m proto.Message) interface{} {
		x := new(types.Battery)
		x.FromSnapshot(m.(*pb.Snapshot_BatteryType))
		return x
	})
	r := c.namedRoute("r0")
	c.saved("route", r, func() proto.Message { return r.Snapshot() }, func(m proto.Message) interface{} {
		x := new(navigator.Route)
		if err := x.RouteFromSnapshot(m.(*navigator.RouteSnapshot)); err != nil {
			c.failf("RouteFromSnapshot: %v", err)
		}
		return x
	})
	for j := 0; j < r.NumTracks(); j++ {
		t := r.TrackAt(j)
		c.saved("track", t, func() proto.Message { return t.Snapshot() }, func(m proto.Message) interface{} {
			x := new(navigator.Track)
			navigator.TrackFromSnapshot(x, m.(*navigator.TrackSnapshot))
			return x
		})
		for k := 0; k < t.NumSegments(); k++ {
			g := t.SegmentAt(k)
			c.saved("segment", &g, func() proto.Message { return g.Snapshot() }, func(m proto.Message) interface{} {
				x := new(navigator.Segment)
				*x = navigator.SegmentFromSnapshot(m.(*navigator.SegmentSnapshot))
				return x
			})
		}
	}
}

func c12nav(c *ctx) {
	o := navOpt{dup: true, empty: true, offline: c.Intn(2) == 0}
	n := c.nav(o)
	c.walk(n)
	c.saved("navigator", n, func() proto.Message { return n.Snapshot() }, func(m proto.Message) interface{} {
		x := new(navigator.Navigator)
		x.FromSnapshot(m.(*pb.Snapshot_Navigator))
		return x
	})
	s := n.Snapshot()
	x := new(navigator.Navigator)
	x.FromSnapshot(s)
	if !s.SkipOffline {
		y := x.Snapshot()
		c.check(y.OfflineMin == s.OfflineMin && y.OfflineMax == s.OfflineMax, "offline limits %v..%v became %v..%v", s.OfflineMin, s.OfflineMax, y.OfflineMin, y.OfflineMax)
	}
	c.check(near(n.CurrentBearing(), x.CurrentBearing()), "bearing %v became %v", n.CurrentBearing(), x.CurrentBearing())
}

func (c *ctx) busyDevice() *gpsgen.Device {
	d, _ := c.device(navOpt{dup: true, empty: true, offline: c.Intn(2) == 0})
	for k := c.Intn(3); k > 0; k-- {
		d.AddSensor(c.anySensor())
	}
	c.walkDev(d)
	if c.Intn(2) == 0 {
		d.SetUserID("user")
		d.SetDescription("descr")
		d.SetModel("model")
	}
	return d
}

func (c *ctx) sameDevice(d, r *gpsgen.Device) {
	c.sameObj("device", d, r)
	a, b := d.State(), r.State()
	for _, p := range [][3]interface{}{
		{"id", a.Id, b.Id}, {"user", a.UserId, b.UserId}, {"model", a.Model, b.Model}, {"color", a.Color, b.Color},
		{"description", a.Description, b.Description}, {"tick", a.Tick, b.Tick}, {"duration", a.Duration, b.Duration},
	} {
		c.check(p[1] == p[2], "device %v: %v became %v", p[0], p[1], p[2])
	}
	c.check(d.NumRoutes() == r.NumRoutes() && d.NumSensors() == r.NumSensors(), "device lost routes or sensors")
	c.check(d.Version() == r.Version(), "version %v became %v", d.Version(), r.Version())
	c.check(r.Status() == gpsgen.Stopped, "restored device has status %v", r.Status())
}

func c12dev(c *ctx) {
	d := c.busyDevice()
	before := proto.Clone(d.State())
	c.saved("device", d, func() proto.Message { return d.Snapshot() }, func(m proto.Message) interface{} {
		x := new(gpsgen.Device)
		x.FromSnapshot(m.(*pb.Snapshot))
		return x
	})
	c.check(proto.Equal(before, d.State()), "Snapshot changed the device's state")
	r := new(gpsgen.Device)
	r.FromSnapshot(d.Snapshot())
	c.sameDevice(d, r)
	data, err := d.MarshalBinary()
	c.check(err == nil, "MarshalBinary: %v", err)
	r = new(gpsgen.Device)
	c.check(r.UnmarshalBinary(data) == nil, "UnmarshalBinary refused its own data")
	c.sameDevice(d, r)
}

func c12io(c *ctx) {
	d := c.busyDevice()
	data, err := gpsgen.EncodeTracker(d)
	c.check(err == nil, "EncodeTracker: %v", err)
	if c.fail != "" {
		return
	}
	r, err := gpsgen.DecodeTracker(data)
	if !c.check(err == nil, "DecodeTracker: %v", err) {
		return
	}
	c.sameDevice(d, r)
	var ss []*types.Sensor
	for k := 1 + c.Intn(3); k > 0; k-- {
		ss = append(ss, c.anySensor())
	}
	data, err = gpsgen.EncodeSensors(ss)
	c.check(err == nil, "EncodeSensors: %v", err)
	got, err := gpsgen.DecodeSensors(data)
	c.check(err == nil, "DecodeSensors: %v", err)
	c.sameObj("sensors", ss, got)
	var rs []*navigator.Route
	for k := 1 + c.Intn(3); k > 0; k-- {
		rs = append(rs, c.namedRoute(fmt.Sprintf("r%d", k)))
	}
	data, err = gpsgen.EncodeRoutes(rs)
	c.check(err == nil, "EncodeRoutes: %v", err)
	gr, err := gpsgen.DecodeRoutes(data)
	c.check(err == nil, "DecodeRoutes: %v", err)
	c.sameObj("routes", rs, gr)
}

// ---- C13 ----

func (c *ctx) f64() float64 {
	switch c.Intn(8) {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(1 - 2*c.Intn(2))
	case 2:
		return 0
	case 3:
		return -c.Float64() * 100
	}
	return c.Float64() * 100
}

func (c *ctx) idx() int64 {
	switch c.Intn(6) {
	case 0:
		return -1
	case 1:
		return math.MaxInt64
	case 2:
		return math.MinInt64
	}
	return int64(c.Intn(4))
}

// scribble fills a message with arbitrary content, leaving parts out.
func (c *ctx) scribble(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if c.Intn(5) == 0 || depth > 8 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		c.scribble(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && c.Intn(8) != 0 {
				c.scribble(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte([]string{"", "{}", "null", "{\"a\":1}", "[", "3"}[c.Intn(6)]))
			return
		}
		n := c.Intn(4)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			c.scribble(v.Index(i), depth+1)
		}
	case reflect.Float64:
		v.SetFloat(c.f64())
	case reflect.Int64, reflect.Int32:
		v.SetInt(c.idx())
	case reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(c.Intn(10)))
	case reflect.Bool:
		v.SetBool(c.Intn(2) == 0)
	case reflect.String:
		v.SetString([]string{"", "ab", "route", "#ff0000"}[c.Intn(4)])
	}
}

func (c *ctx) usePos(n *navigator.Navigator) {
	if n.NumRoutes() > 0 {
		c.check(n.RouteIndex() >= 0 && n.RouteIndex() < n.NumRoutes(), "position names route %d of %d", n.RouteIndex(), n.NumRoutes())
		r := n.CurrentRoute()
		if r != nil && r.NumTracks() > 0 {
			c.check(n.TrackIndex() >= 0 && n.TrackIndex() < r.NumTracks(), "position names track %d of %d", n.TrackIndex(), r.NumTracks())
			t := n.CurrentTrack()
			if t != nil && t.NumSegments() > 0 {
				c.check(n.SegmentIndex() >= 0 && n.SegmentIndex() < t.NumSegments(), "position names segment %d of %d", n.SegmentIndex(), t.NumSegments())
			}
		}
	}
}

func useNav(n *navigator.Navigator) {
	n.CurrentRoute()
	n.CurrentTrack()
	n.CurrentSegment()
	n.CurrentBearing()
	n.Distance()
	n.RouteDistance()
	n.TrackDistance()
	n.SegmentDistance()
	n.IsFinish()
	n.IsOffline()
	n.Sum()
	n.Elevation()
	n.NextElevation(0.5)
	n.MoveToSegment(0, 0, 0)
	n.NextLocation(1, 10)
	n.DestinationTo(5)
	n.ShuffleElevation()
	n.Snapshot()
}

func useDev(d *gpsgen.Device) {
	d.State()
	d.Snapshot()
	d.CurrentRoute()
	d.CurrentTrack()
	d.CurrentSegment()
	d.CurrentBearing()
	d.RouteDistance()
	d.TrackDistance()
	d.SegmentDistance()
	d.IsFinish()
	d.IsOffline()
	d.Location()
	d.Version()
	for i := 0; i < d.NumSensors(); i++ {
		useSensor(d.SensorAt(i))
	}
	for i := 0; i < d.NumRoutes(); i++ {
		useRoute(d.RouteAt(i))
	}
	d.SensorByID("ab")
	d.Update()
	d.MoveToSegment(0, 0, 0)
	d.Next(1)
	d.Next(100)
	d.MarshalBinary()
}

func useRoute(r *navigator.Route) {
	r.ID()
	r.Distance()
	r.Snapshot()
	r.TrackByID("ab")
	r.Props()
	for i := 0; i < r.NumTracks(); i++ {
		t := r.TrackAt(i)
		t.ID()
		t.Props()
		t.Snapshot()
		for k := 0; k < t.NumSegments(); k++ {
			t.SegmentAt(k).Distance()
		}
	}
}

func useSensor(s *types.Sensor) {
	s.ID()
	s.Name()
	s.Min()
	s.Max()
	_ = s.String()
	s.Next(0.3)
	s.ValueX()
	s.ValueY()
	s.Shuffle()
	s.Snapshot()
}

func (c *ctx) bytes(m proto.Message) []byte {
	data, err := proto.Marshal(m)
	if err != nil || c.Intn(4) == 0 {
		data = make([]byte, c.Intn(40))
		c.Read(data)
	}
	for k := c.Intn(3); k > 0 && len(data) > 0; k-- {
		data[c.Intn(len(data))] ^= byte(1 << c.Intn(8))
	}
	if c.Intn(4) == 0 && len(data) > 0 {
		data = data[:c.Intn(len(data))]
	}
	return data
}

func c13snap(c *ctx) {
	s := new(pb.Snapshot)
	c.scribble(reflect.ValueOf(s).Elem(), 0)
	c.note("snapshot %v", s)
	if s.Navigator != nil {
		n := new(navigator.Navigator)
		n.FromSnapshot(s.Navigator)
		c.usePos(n)
		useNav(n)
		c.usePos(n)
	}
	if s.Navigator != nil && len(s.Navigator.Routes) > 0 {
		r := new(navigator.Route)
		if r.RouteFromSnapshot(s.Navigator.Routes[0]) == nil {
			useRoute(r)
		}
	}
	if len(s.Sensors) > 0 {
		x := new(types.Sensor)
		x.FromSnapshot(s.Sensors[0])
		useSensor(x)
	}
	cv := new(curve.Curve)
	cv.FromSnapshot(s.Speed.GetGen())
	cv.Shuffle()
	cv.Point(0.4)
	d := new(gpsgen.Device)
	d.FromSnapshot(s)
	useDev(d)
	data := c.bytes(s)
	if d, err := gpsgen.DecodeTracker(data); err == nil {
		useDev(d)
	}
}

func c13lists(c *ctx) {
	for _, e := range []error{
		func() error { _, e := gpsgen.DecodeTracker(nil); return e }(),
		func() error { _, e := gpsgen.DecodeSensors([]byte{}); return e }(),
		func() error { _, e := gpsgen.DecodeRoutes(nil); return e }(),
		new(gpsgen.Device).UnmarshalBinary(nil),
	} {
		c.check(e != nil, "empty input accepted")
	}
	ss := new(pb.Snapshot_Sensors)
	c.scribble(reflect.ValueOf(ss).Elem(), 0)
	if l, err := gpsgen.DecodeSensors(c.bytes(ss)); err == nil {
		for _, s := range l {
			useSensor(s)
		}
	}
	rs := new(pb.Snapshot_Navigator_Routes)
	c.scribble(reflect.ValueOf(rs).Elem(), 0)
	if l, err := gpsgen.DecodeRoutes(c.bytes(rs)); err == nil {
		for _, r := range l {
			useRoute(r)
		}
	}
	_ = geo.LatLonPoint{}
}

func init() {
	reg("C12", c12parts, c12nav, c12dev, c12io)
	reg("C13", c13snap, c13lists)
}
