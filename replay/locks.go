package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/lucasb-eyer/go-colorful"
	"github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"
)

// ---- C19 ----

func lockOf(x interface{}, field string) *sync.RWMutex {
	return (*sync.RWMutex)(unsafe.Pointer(reflect.ValueOf(x).Elem().FieldByName(field).UnsafeAddr()))
}

// dump renders the private state reachable from v, except for locks and atomic counters.
func dump(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 12 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			dump(sb, v.Elem(), depth+1)
		}
	case reflect.Struct:
		t := v.Type()
		if strings.HasPrefix(t.PkgPath(), "sync") || strings.HasPrefix(t.PkgPath(), "google") || strings.HasPrefix(t.PkgPath(), "context") {
			return
		}
		for i := 0; i < t.NumField(); i++ {
			switch t.Field(i).Name {
			case "tick", "rnd", "sizeCache", "unknownFields", "state":
				if t.Field(i).Name != "state" || t.Name() != "Device" || t.PkgPath() != "github.com/mmadfox/go-gpsgen" {
					continue
				}
			}
			sb.WriteString(t.Field(i).Name + ":")
			dump(sb, v.Field(i), depth+1)
		}
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(sb, "[%d", v.Len())
		for i := 0; i < v.Len(); i++ {
			dump(sb, v.Index(i), depth+1)
		}
		sb.WriteByte(']')
	case reflect.Map:
		fmt.Fprintf(sb, "map%d", v.Len())
	case reflect.Float64:
		fmt.Fprintf(sb, "%v ", v.Float())
	case reflect.Int, reflect.Int64, reflect.Int32:
		fmt.Fprintf(sb, "%d ", v.Int())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(sb, "%d ", v.Uint())
	case reflect.String:
		sb.WriteString(v.String() + " ")
	case reflect.Bool:
		fmt.Fprintf(sb, "%v ", v.Bool())
	}
}

func state(x interface{}) string {
	var sb strings.Builder
	dump(&sb, reflect.ValueOf(x), 0)
	return sb.String()
}

type lockedCall struct {
	name string
	run  func()
	try  bool // gives up instead of waiting
}

func (c *ctx) lockCheck(x interface{}, mu *sync.RWMutex, m lockedCall) {
	panicked := false
	start := func() chan struct{} {
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() { panicked = recover() != nil }()
			m.run()
		}()
		return done
	}
	within := func(done chan struct{}, d time.Duration) bool {
		select {
		case <-done:
			return true
		case <-time.After(d):
			return false
		}
	}
	free := func() {
		if !c.check(mu.TryLock(), "%s: a lock is still held after the call returned", m.name) {
			return
		}
		mu.Unlock()
	}
	switch c.Intn(5) {
	case 0: // nobody holds the lock
		if !c.check(within(start(), 5*time.Second), "%s does not return although nobody holds the lock", m.name) {
			return
		}
	case 1: // another goroutine writes
		before := state(x)
		mu.Lock()
		done := start()
		if within(done, 4*time.Millisecond) {
			changed := state(x) != before
			mu.Unlock()
			if m.try {
				c.check(!changed, "%s changed the object while another goroutine held its lock exclusively", m.name)
			} else {
				c.failf("%s completed while another goroutine held the lock exclusively", m.name)
			}
			return
		}
		changed := state(x) != before
		mu.Unlock()
		c.check(!changed, "%s changed the object while another goroutine held its lock exclusively", m.name)
		if !c.check(within(done, 5*time.Second), "%s does not return after the lock was released", m.name) {
			return
		}
	case 3: // another goroutine is in the middle of changing everything
		mu.Lock()
		restore := blank(x)
		done := start()
		fin := within(done, 4*time.Millisecond)
		restore()
		mu.Unlock()
		c.check(!fin || m.try, "%s completed while another goroutine held the lock exclusively", m.name)
		if !c.check(within(done, 5*time.Second), "%s does not return after the lock was released", m.name) {
			return
		}
		c.check(!panicked, "%s read the object before it held the lock", m.name)
	case 4: // readers and writers all the time
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					mu.Lock()
					mu.Unlock()
				}
			}
		}()
		stuck := false
		for i := 0; i < 40 && !stuck; i++ {
			stuck = !within(start(), 5*time.Second)
		}
		close(stop)
		if !c.check(!stuck, "%s does not return while writers wait for the lock", m.name) {
			return
		}
		wg.Wait()
	case 2: // another goroutine reads
		before := state(x)
		mu.RLock()
		done := start()
		fin := within(done, 4*time.Millisecond)
		changed := state(x) != before
		mu.RUnlock()
		c.check(!changed, "%s changed the object while another goroutine held its lock for reading", m.name)
		if !fin && !c.check(within(done, 5*time.Second), "%s does not return after the lock was released", m.name) {
			return
		}
	}
	free()
}

// blank empties the fields the lock protects and returns a function that puts them back.
func blank(x interface{}) func() {
	v := reflect.ValueOf(x).Elem()
	var undo []func()
	for i := 0; i < v.NumField(); i++ {
		switch v.Type().Field(i).Name {
		case "navigator", "sensors", "state", "speed", "battery", "devices":
			f := reflect.NewAt(v.Field(i).Type(), unsafe.Pointer(v.Field(i).UnsafeAddr())).Elem()
			old := reflect.New(f.Type()).Elem()
			old.Set(f)
			f.Set(reflect.Zero(f.Type()))
			undo = append(undo, func() { f.Set(old) })
		}
	}
	return func() {
		for _, u := range undo {
			u()
		}
	}
}

func c19device(c *ctx) {
	d, n := c.device(navOpt{})
	if c.Intn(2) == 0 {
		c.walkDev(d)
	}
	s, err := types.NewSensor("s", 0, 1, 8, types.WithSensorRandomMode)
	if err != nil {
		return
	}
	d.AddSensor(s)
	rt, tr := "none", "none"
	if r := d.RouteAt(c.Intn(1 + d.NumRoutes())); r != nil {
		rt = r.ID()
		if t := r.TrackAt(0); t != nil {
			tr = t.ID()
		}
	}
	extra := c.route("extra", navOpt{})
	data, _ := gpsgen.EncodeTracker(d)
	snap := d.Snapshot()
	meters := float64(1 + c.Intn(500))
	i, j, k := c.Intn(3), c.Intn(3), c.Intn(3)
	sid := s.ID()
	ms := []lockedCall{
		{"SetModel", func() { d.SetModel("m2") }, false}, {"SetUserID", func() { d.SetUserID("2a3ab3d1-9b0a-4b8e-8d2b-6a3f0b9b6d5a") }, false},
		{"SetDescription", func() { d.SetDescription("other") }, false}, {"SetColor", func() { d.SetColor(colorful.Color{R: 1}) }, false},
		{"ID", func() { d.ID() }, false}, {"Model", func() { d.Model() }, false}, {"UserID", func() { d.UserID() }, false}, {"Color", func() { d.Color() }, false}, {"Descr", func() { d.Descr() }, false},
		{"AddSensor", func() {
			x, _ := types.NewSensor("t", 0, 1, 8, types.WithSensorRandomMode)
			d.AddSensor(x)
		}, false},
		{"ResetSensors", func() { d.ResetSensors() }, false}, {"Sensors", func() { d.Sensors() }, false}, {"SensorByID", func() { d.SensorByID(sid) }, false},
		{"RemoveSensor", func() { d.RemoveSensor(sid) }, false}, {"NumRoutes", func() { d.NumRoutes() }, false}, {"NumSensors", func() { d.NumSensors() }, false},
		{"SensorAt", func() { d.SensorAt(0) }, false}, {"EachSensor", func() { d.EachSensor(func(int, *types.Sensor) bool { return true }) }, false},
		{"EachRoute", func() { d.EachRoute(func(int, *navigator.Route) bool { return true }) }, false},
		{"AddRoute", func() { d.AddRoute(extra) }, false}, {"Routes", func() { d.Routes() }, false}, {"RemoveRoute", func() { d.RemoveRoute(rt) }, false}, {"RemoveTrack", func() { d.RemoveTrack(rt, tr) }, false},
		{"Status", func() { d.Status() }, false}, {"State", func() { d.State() }, false}, {"Update", func() { d.Update() }, false},
		{"CurrentBearing", func() { d.CurrentBearing() }, false}, {"Distance", func() { d.Distance() }, false}, {"CurrentDistance", func() { d.CurrentDistance() }, false},
		{"RouteDistance", func() { d.RouteDistance() }, false}, {"CurrentRouteDistance", func() { d.CurrentRouteDistance() }, false}, {"TrackDistance", func() { d.TrackDistance() }, false},
		{"CurrentTrackDistance", func() { d.CurrentTrackDistance() }, false}, {"SegmentDistance", func() { d.SegmentDistance() }, false}, {"CurrentSegmentDistance", func() { d.CurrentSegmentDistance() }, false},
		{"IsFinish", func() { d.IsFinish() }, false}, {"CurrentRoute", func() { d.CurrentRoute() }, false}, {"CurrentTrack", func() { d.CurrentTrack() }, false}, {"CurrentSegment", func() { d.CurrentSegment() }, false},
		{"RouteIndex", func() { d.RouteIndex() }, false}, {"TrackIndex", func() { d.TrackIndex() }, false}, {"SegmentIndex", func() { d.SegmentIndex() }, false}, {"IsOffline", func() { d.IsOffline() }, false},
		{"ResetRoutes", func() { d.ResetRoutes() }, false}, {"Location", func() { d.Location() }, false}, {"DestinationTo", func() { d.DestinationTo(meters) }, false},
		{"MoveToSegment", func() { d.MoveToSegment(i, j, k) }, false}, {"MoveToTrack", func() { d.MoveToTrack(i, j) }, false}, {"MoveToRoute", func() { d.MoveToRoute(i) }, false},
		{"MoveToTrackByID", func() { d.MoveToTrackByID(rt, tr) }, false}, {"MoveToRouteByID", func() { d.MoveToRouteByID(rt) }, false}, {"ToPrevRoute", func() { d.ToPrevRoute() }, false}, {"ToNextRoute", func() { d.ToNextRoute() }, false},
		{"ToOffline", func() { d.ToOffline() }, false}, {"ResetNavigator", func() { d.ResetNavigator() }, false}, {"RouteAt", func() { d.RouteAt(0) }, false}, {"Duration", func() { d.Duration() }, false}, {"Version", func() { d.Version() }, false},
		{"Next", func() { d.Next(1) }, true}, {"MarshalBinary", func() { d.MarshalBinary() }, false}, {"UnmarshalBinary", func() { d.UnmarshalBinary(data) }, false},
		{"Snapshot", func() { d.Snapshot() }, false}, {"FromSnapshot", func() { d.FromSnapshot(snap) }, false},
	}
	_ = n
	m := ms[c.Intn(len(ms))]
	c.note("Device.%s", m.name)
	c.lockCheck(d, lockOf(d, "mu"), m)
}

func c19generator(c *ctx) {
	g := gpsgen.New(nil)
	defer g.Close()
	d, _ := c.device(navOpt{})
	e, _ := c.device(navOpt{})
	g.Attach(d)
	ms := []lockedCall{
		{"HasTracker", func() { g.HasTracker(d.ID()) }, false}, {"Attach", func() { g.Attach(e) }, false}, {"Detach", func() { g.Detach(d.ID()) }, false},
		{"Each", func() { g.Each(func(int, *gpsgen.Device) bool { return true }) }, false}, {"Lookup", func() { g.Lookup(d.ID()) }, false}, {"NumDevices", func() { g.NumDevices() }, false},
		{"OnError", func() { g.OnError(func(error) {}) }, false}, {"OnPacket", func() { g.OnPacket(func([]byte) {}) }, false}, {"OnNext", func() { g.OnNext(func() {}) }, false},
	}
	m := ms[c.Intn(len(ms))]
	c.note("Generator.%s", m.name)
	if c.Intn(3) == 0 && (m.name == "Attach" || m.name == "Detach") {
		x := e
		if m.name == "Detach" {
			x = d
		}
		c.lockCheck(x, lockOf(x, "mu"), m)
		return
	}
	c.lockCheck(g, lockOf(g, "mu"), m)
}

func init() { reg("C19", c19device, c19generator) }
