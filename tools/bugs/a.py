bug('C02-low-rounded', 'C02', [('types/battery.go', '''	return val == t.min
''', '''	return int(val) == int(t.min)
''')], 'types', '''
import ("testing"; "time")
func TestPlantedDemo(t *testing.T) {
	b, err := NewBattery(20, 100, 1000*time.Second)
	if err != nil { t.Fatal(err) }
	b.Next(795)
	if v := b.Value(); v <= 20 { t.Fatal(v) }
	if b.IsLow() { t.Fatalf("low at %v", b.Value()) }
}
''', 'a charge less than one percent above the minimum', 'the battery is reported low above its minimum')
bug('C03-speed-swapped', 'C03', [('types/speed.go', '''	if min == 0 && max == 0 {
''', '''	if min == 0 && max < 1 {
''')], 'types', '''
import "testing"
func TestPlantedDemo(t *testing.T) {
	s, err := NewSpeed(0, 0.5, 4)
	if err != nil { t.Fatal(err) }
	if s.Min() != 0 || s.Max() != 0.5 { t.Fatalf("limits %v..%v", s.Min(), s.Max()) }
}
''', 'a minimum of zero with a maximum between zero and one', 'in-limit inputs are not kept')
bug('C09-track-distance', 'C09', [('navigator/navigator.go', '''	if routeIndex != n.routeIndex {
		n.currentRouteDistance = 0
		n.currentTrackDistance = 0
		n.currentSegmentDistance = 0
	}
''', '''	if routeIndex != n.routeIndex {
		n.currentRouteDistance = 0
		if trackIndex == 0 {
			n.currentTrackDistance = 0
		}
		n.currentSegmentDistance = 0
	}
''')], 'navigator', '''
import ("testing"; "github.com/mmadfox/go-gpsgen/geo")
func TestPlantedDemo(t *testing.T) {
	mk := func() *Route {
		r := NewRoute()
		for i := 0; i < 2; i++ {
			tr, err := NewTrack([]geo.LatLonPoint{{Lat: 1, Lon: 1}, {Lat: 1, Lon: 1.01}, {Lat: 1, Lon: 1.02}})
			if err != nil { t.Fatal(err) }
			r.AddTrack(tr)
		}
		return r
	}
	n, err := New(SkipOfflineMode())
	if err != nil { t.Fatal(err) }
	n.AddRoute(mk(), mk())
	if !n.MoveToTrack(0, 1) { t.Fatal("move") }
	n.NextLocation(1, 10)
	n.NextLocation(1, 10)
	if !n.MoveToTrack(1, 1) { t.Fatal("move") }
	if n.CurrentTrackDistance() != 0 { t.Fatalf("travelled track distance %v", n.CurrentTrackDistance()) }
}
''', 'travel on a track with index above zero, then move to the track with the same index of another route', 'the travelled track distance of the track that was left is kept')
bug('C25-int-uint', 'C25', [('properties/properties.go', '''	case int64:
		return int(val), true
''', '''	case int64:
		return int(int32(val)), true
''')], 'properties', '''
import "testing"
func TestPlantedDemo(t *testing.T) {
	p := Make()
	p.Set("k", int64(1)<<40)
	if v, ok := p.Int("k"); !ok || v != 1<<40 { t.Fatal(v, ok) }
}
''', 'an int64 property beyond 32 bits', 'the typed accessor returns another value')
bug('C22-destination-mod', 'C22', [('geo/destination.go', '''	λ2 = math.Mod(λ2+3*math.Pi, 2*math.Pi) - math.Pi''', '''	λ2 = math.Mod(λ2+math.Pi, 2*math.Pi) - math.Pi''')], 'geo', '''
import "testing"
func TestPlantedDemo(t *testing.T) {
	_, lon := Destination(10, -179.9, 100000, 270)
	if lon < -180 || lon >= 180 { t.Fatalf("longitude %v", lon) }
}
''', 'a destination west of the antimeridian', 'the longitude leaves [-180,180)')
bug('C24-seconds-from-minutes', 'C24', [('navigator/location.go', '''	longitudeMinutes := int((lon - float64(longitude)) * 60)
''', '''	longitudeMinutes := int(math.Round((lon - float64(longitude)) * 60))
'''),('navigator/location.go', '''	longitudeSeconds := (lon - float64(longitude) - float64(longitudeMinutes)/60) * 3600
''', '''	longitudeSeconds := math.Abs((lon - float64(longitude) - float64(longitudeMinutes)/60) * 3600)
''')], 'navigator', '''
import ("testing"; "math"; "github.com/mmadfox/go-gpsgen/proto")
func TestPlantedDemo(t *testing.T) {
	a, b := new(proto.Device_Location_DMS), new(proto.Device_Location_DMS)
	setDMS(10.999, 20.996, a, b)
	if v := float64(b.Degrees) + float64(b.Minutes)/60 + b.Seconds/3600; math.Abs(v-20.996) > 1e-6 { t.Fatal(v) }
}
''', 'a coordinate in the second half of a minute', 'the parts do not add up to the coordinate')
