include "nav.inc"
include "ext.inc"
include "snap.inc"
include "dev.inc"
include "devroutes0.inc"
package curve

contract (*curve.Curve).Snapshot (c) (s)
  requires c != nil
  modifies nothing
  inv (points []*proto.Snapshot_Curve_ControlPoint) forall i int :: 0 <= i && i < $k ==> pointIs(c.points[i], points[i])
  ensures [picture] fullCurve(s) && curveIs(c, s)
  ensures [new] fresh(s)

contract (*curve.Curve).FromSnapshot (c, s)
  requires c != nil
  modifies c.*
  inv forall i int :: 0 <= i && i < $k && s.Points[i] != nil && s.Points[i].Vp != nil && s.Points[i].Cp != nil ==> pointIs(c.points[i], s.Points[i])
  ensures [restored] fullCurve(s) ==> curveIs(c, s)
  ensures [partial] s != nil ==> c.min == s.Min && c.max == s.Max && c.mode == s.Mode && len(c.points) == len(s.Points)

package types
contract (*types.Battery).Snapshot (b) (s)
  requires b != nil
  modifies nothing
  ensures [picture] s != nil && batteryIs(b, s) && fresh(s)

contract (*types.Battery).FromSnapshot (b, s)
  requires b != nil
  modifies b.*
  ensures [restored] s != nil ==> batteryIs(b, s)

contract (*types.Speed).Snapshot (t) (s)
  requires t != nil && t.gen != nil
  modifies nothing
  ensures [picture] fullSpeed(s) && speedIs(t, s) && fresh(s)

contract (*types.Speed).FromSnapshot (t, s)
  requires t != nil
  modifies t.*
  ensures [restored] fullSpeed(s) ==> speedIs(t, s)
  ensures [usable] t.gen != nil

contract (*types.Sensor).Snapshot (t) (s)
  requires t != nil && t.gen != nil
  modifies nothing
  ensures [picture] fullSensor(s) && sensorIs(t, s) && fresh(s)

contract (*types.Sensor).FromSnapshot (t, s)
  requires t != nil
  modifies t.*
  ensures [restored] fullSensor(s) ==> sensorIs(t, s)
  ensures [usable] t.gen != nil

package navigator
contract (navigator.Segment).Snapshot (x) (s)
  modifies nothing
  ensures [picture] fullSegment(s) && segmentIs(x, s) && fresh(s) && fresh(s.PointA) && fresh(s.PointB)

contract navigator.SegmentFromSnapshot (s) (x)
  modifies nothing
  ensures [restored] fullSegment(s) ==> segmentIs(x, s)

contract (*navigator.Track).Snapshot (t) (s)
  requires t != nil
  modifies nothing
  inv (segments []*proto.Snapshot_Navigator_Route_Track_Segment) forall i int :: 0 <= i && i < $k ==> segmentIs(t.segments[i], segments[i])
  ensures [picture] fullTrack(s) && trackIs(t, s) && fresh(s)

contract navigator.TrackFromSnapshot (t, s)
  modifies t.*
  inv forall i int :: 0 <= i && i < $k && fullSegment(s.Segmenets[i]) ==> segmentIs(t.segments[i], s.Segmenets[i])
  ensures [restored] t != nil && fullTrack(s) ==> trackIs(t, s)

contract (*navigator.Route).Snapshot (r) (s)
  requires okRoute(r) && goodName(r.name.value)
  modifies nothing
  inv (tracks []*proto.Snapshot_Navigator_Route_Track) forall i int :: 0 <= i && i < $k ==> trackIs(r.tracks[i], tracks[i])
  ensures [picture] s != nil && fullTracks(s) && goodName(s.Name) && (r.props == nil ==> len(s.Props) == 0) && routeIs(r, s) && fresh(s)

contract (*navigator.Route).RouteFromSnapshot (r, s) (err)
  requires r != nil
  modifies r.*
  inv (tracks []*navigator.Track) forall i int :: 0 <= i && i < $k ==> tracks[i] != nil && fresh(tracks[i])
  inv (tracks []*navigator.Track) forall i int :: 0 <= i && i < $k && fullTrack(s.Tracks[i]) ==> trackIs(tracks[i], s.Tracks[i])
  ensures [accepts] fullTracks(s) && goodName(s.Name) && len(s.Props) == 0 ==> err == nil
  ensures [restored] err == nil && fullTracks(s) && old(r.name.value) == "" ==> routeIs(r, s)

def namedRoutes(n *Navigator) bool = forall i int :: {n.routes[i]} 0 <= i && i < len(n.routes) ==> goodName(n.routes[i].name.value)
// As New and AddRoute leave it.
def okSaved(n *Navigator) bool =
  okNav(n) && namedRoutes(n) && n.elevation != nil && n.elevation.gen != nil &&
  (n.skipOffline || n.offline != nil && 0 <= n.offline.min && n.offline.min <= n.offline.max && n.offline.max > 0)

contract (*navigator.Navigator).Snapshot (n) (s)
  requires okSaved(n)
  modifies nothing
  inv (routes []*proto.Snapshot_Navigator_Route) forall i int :: {n.routes[i]} {routes[i]} 0 <= i && i < $k ==> routeIs(n.routes[i], routes[i]) && fullTracks(routes[i]) && goodName(routes[i].Name) && (n.routes[i].props == nil ==> len(routes[i].Props) == 0)
  ensures [routes] s != nil && navRoutesAre(n, s) && fresh(s)
  ensures [place] navPlaceIs(n, s) && okSnapPlace(s)
  ensures [rest] navRestIs(n, s) && fullSensor(s.Elevation)
  ensures [offline] n.skipOffline || 0 <= s.OfflineMin && s.OfflineMin <= s.OfflineMax && s.OfflineMax > 0
  ensures [full] (forall i int :: {n.routes[i]} 0 <= i && i < len(n.routes) ==> n.routes[i].props == nil) ==> fullRoutes(s)

contract (*navigator.Navigator).FromSnapshot (n, s)
  requires n != nil
  modifies n.*
  inv (i int) forall j int :: 0 <= j && j < i ==> n.routes[j] != nil && fresh(n.routes[j])
  inv (i int) fullRoutes(s) ==> (forall j int :: 0 <= j && j < i ==> routeIs(n.routes[j], s.Routes[j]))
  ensures [routes] fullRoutes(s) ==> navRoutesAre(n, s)
  ensures [place] fullRoutes(s) && okSnapPlace(s) ==> navPlaceIs(n, s)
  ensures [rest] s != nil && s.Point != nil && fullSensor(s.Elevation) ==> navRestIs(n, s)

package gpsgen
// The device as its constructor and methods leave it.
def okSavedDevice(d *Device) bool =
  d != nil && d.state != nil && d.navigator != nil && okSaved(d.navigator) && d.speed != nil && d.speed.gen != nil && d.battery != nil &&
  (forall i int :: {d.sensors[i]} 0 <= i && i < len(d.sensors) ==> d.sensors[i] != nil && d.sensors[i].gen != nil)
def headIs(d *Device, s *proto.Snapshot) bool =
  d.state.Id == s.Id && d.state.UserId == s.UserId && d.state.Model == s.Model && d.state.Tick == s.Tick &&
  d.state.Color == s.Color && d.state.Description == s.Descr && d.state.Duration == s.Duration
def sensorsAre(d *Device, s *proto.Snapshot) bool =
  len(d.sensors) == len(s.Sensors) && (forall i int :: {d.sensors[i]} 0 <= i && i < len(d.sensors) ==> d.sensors[i] != nil && s.Sensors[i] != nil && sensorIs(d.sensors[i], s.Sensors[i]))
def noProps(n *navigator.Navigator) bool = forall i int :: {n.routes[i]} 0 <= i && i < len(n.routes) ==> n.routes[i].props == nil
def fullSensors(s *proto.Snapshot) bool = forall i int :: {s.Sensors[i]} 0 <= i && i < len(s.Sensors) ==> fullSensor(s.Sensors[i])

contract (*gpsgen.Device).Snapshot (d) (s)
  requires okSavedDevice(d)
  modifies nothing
  inv (x []*proto.Snapshot_SensorType) forall i int :: {x[i]} {d.sensors[i]} 0 <= i && i < $k ==> fullSensor(x[i]) && sensorIs(d.sensors[i], x[i])
  inv (snap *proto.Snapshot) forall i int :: {snap.Sensors[i]} {d.sensors[i]} 0 <= i && i < $k ==> fullSensor(snap.Sensors[i]) && sensorIs(d.sensors[i], snap.Sensors[i])
  ensures [head] s != nil && headIs(d, s)
  ensures [navigator] s.Navigator != nil && navRoutesAre(d.navigator, s.Navigator) && navPlaceIs(d.navigator, s.Navigator) && navRestIs(d.navigator, s.Navigator)
  ensures [speed] speedIs(d.speed, s.Speed) && fullSpeed(s.Speed)
  ensures [battery] s.Battery != nil && batteryIs(d.battery, s.Battery)
  ensures [sensors] sensorsAre(d, s) && fullSensors(s)
  ensures [full] okSnapPlace(s.Navigator) && (noProps(d.navigator) ==> fullRoutes(s.Navigator))

// A message with every part present.
def fullSnap(s *proto.Snapshot) bool =
  s != nil && s.Navigator != nil && s.Navigator.Point != nil && fullSensor(s.Navigator.Elevation) && fullRoutes(s.Navigator) && okSnapPlace(s.Navigator) &&
  fullSpeed(s.Speed) && s.Battery != nil && fullSensors(s)

contract (*gpsgen.Device).FromSnapshot (d, s)
  requires d != nil && fullSnap(s)
  modifies d.*, all(navigator.Route.props), all(navigator.Track.props), all(proto.Device_Sensor.ValX), all(proto.Device_Sensor.ValY)
  inv (i int) forall j int :: {d.sensors[j]} 0 <= j && j < i ==> d.sensors[j] != nil && fresh(d.sensors[j]) && d.sensors[j].gen != nil
  inv (i int) forall j int :: {d.sensors[j]} 0 <= j && j < i ==> sensorIs(d.sensors[j], s.Sensors[j])
  ensures [head] headIs(d, s)
  ensures [routes] navRoutesAre(d.navigator, s.Navigator)
  ensures [navigator] navPlaceIs(d.navigator, s.Navigator) && navRestIs(d.navigator, s.Navigator)
  ensures [speed] speedIs(d.speed, s.Speed)
  ensures [battery] batteryIs(d.battery, s.Battery)
  ensures [sensors] sensorsAre(d, s)
  ensures [usable] okParts(d) && sensorList(d)

// The binary form. The protocol-buffer codec itself is assumed: wire(a, m) says that the bytes in array a are the encoding of message m.
uf wire(a int, m int) bool
extern "google.golang.org/protobuf/proto.Marshal" (m) (data, err)
  modifies nothing
  ensures err == nil ==> fresh(arr(data))
  ensures err == nil && typeis(m, *proto.Snapshot) ==> wire(arr(data), ref(unbox(m, *proto.Snapshot)))
  ensures err == nil && typeis(m, *proto.Snapshot_Sensors) ==> wire(arr(data), ref(unbox(m, *proto.Snapshot_Sensors)))
  ensures err == nil && typeis(m, *proto.Snapshot_Navigator_Routes) ==> wire(arr(data), ref(unbox(m, *proto.Snapshot_Navigator_Routes)))
extern "google.golang.org/protobuf/proto.Unmarshal" (data, m) (err)
  modifies unbox(m, *proto.Snapshot).*, unbox(m, *proto.Snapshot_Sensors).*, unbox(m, *proto.Snapshot_Navigator_Routes).*
  ensures err == nil && typeis(m, *proto.Snapshot) ==> wire(arr(data), ref(unbox(m, *proto.Snapshot))) && fullSnap(unbox(m, *proto.Snapshot))
  ensures err == nil && typeis(m, *proto.Snapshot_Sensors) ==> wire(arr(data), ref(unbox(m, *proto.Snapshot_Sensors)))
  ensures err == nil && typeis(m, *proto.Snapshot_Navigator_Routes) ==> wire(arr(data), ref(unbox(m, *proto.Snapshot_Navigator_Routes)))

def pictured(d *Device, s *proto.Snapshot) bool =
  headIs(d, s) && s.Navigator != nil && navRoutesAre(d.navigator, s.Navigator) && navPlaceIs(d.navigator, s.Navigator) && navRestIs(d.navigator, s.Navigator) &&
  speedIs(d.speed, s.Speed) && s.Battery != nil && batteryIs(d.battery, s.Battery) && sensorsAre(d, s)

contract (*gpsgen.Device).MarshalBinary (d) (data, err)
  requires okSavedDevice(d)
  modifies nothing
  ensures [saved] err == nil ==> (exists s *proto.Snapshot :: {wire(arr(data), ref(s))} s != nil && wire(arr(data), ref(s)) && pictured(d, s))

contract (*gpsgen.Device).UnmarshalBinary (d, data) (err)
  requires d != nil
  modifies d.*, all(navigator.Route.props), all(navigator.Track.props), all(proto.Device_Sensor.ValX), all(proto.Device_Sensor.ValY)
  ensures [restored] err == nil ==> (exists s *proto.Snapshot :: {wire(arr(data), ref(s))} s != nil && wire(arr(data), ref(s)) && pictured(d, s))
  ensures [usable] err == nil ==> okParts(d) && sensorList(d)

contract gpsgen.EncodeSensors (sensors) (data, err)
  requires forall i int :: {sensors[i]} 0 <= i && i < len(sensors) ==> sensors[i] != nil && sensors[i].gen != nil
  modifies nothing
  inv (m *proto.Snapshot_Sensors) forall i int :: {m.Sensors[i]} {sensors[i]} 0 <= i && i < $k ==> fullSensor(m.Sensors[i]) && sensorIs(sensors[i], m.Sensors[i])
  ensures [empty] len(sensors) == 0 ==> err != nil
  ensures [saved] err == nil ==> (exists s *proto.Snapshot_Sensors :: {wire(arr(data), ref(s))} s != nil && wire(arr(data), ref(s)) && len(s.Sensors) == len(sensors) && (forall i int :: {sensors[i]} 0 <= i && i < len(sensors) ==> fullSensor(s.Sensors[i]) && sensorIs(sensors[i], s.Sensors[i])))

contract gpsgen.DecodeSensors (data) (sensors, err)
  modifies nothing
  inv (sensors []*types.Sensor) forall i int :: {sensors[i]} 0 <= i && i < $k ==> sensors[i] != nil && fresh(sensors[i])
  inv (sensors []*types.Sensor, m *proto.Snapshot_Sensors) forall i int :: {sensors[i]} 0 <= i && i < $k && fullSensor(m.Sensors[i]) ==> sensorIs(sensors[i], m.Sensors[i])
  ensures [restored] err == nil ==> (exists s *proto.Snapshot_Sensors :: {wire(arr(data), ref(s))} s != nil && wire(arr(data), ref(s)) && len(s.Sensors) == len(sensors) && (forall i int :: {sensors[i]} 0 <= i && i < len(sensors) && fullSensor(s.Sensors[i]) ==> sensors[i] != nil && sensorIs(sensors[i], s.Sensors[i])))

contract gpsgen.EncodeRoutes (routes) (data, err)
  requires forall i int :: {routes[i]} 0 <= i && i < len(routes) ==> okRoute(routes[i]) && goodName(routes[i].name.value)
  modifies nothing
  inv (m *proto.Snapshot_Navigator_Routes) forall i int :: {m.Routes[i]} {routes[i]} 0 <= i && i < $k ==> fullTracks(m.Routes[i]) && routeIs(routes[i], m.Routes[i])
  ensures [empty] len(routes) == 0 ==> err != nil
  ensures [saved] err == nil ==> (exists s *proto.Snapshot_Navigator_Routes :: {wire(arr(data), ref(s))} s != nil && wire(arr(data), ref(s)) && len(s.Routes) == len(routes) && (forall i int :: {routes[i]} 0 <= i && i < len(routes) ==> routeIs(routes[i], s.Routes[i])))

contract gpsgen.DecodeRoutes (data) (routes, err)
  modifies nothing
  inv (routes []*navigator.Route) forall i int :: {routes[i]} 0 <= i && i < $k ==> routes[i] != nil && fresh(routes[i])
  inv (routes []*navigator.Route, m *proto.Snapshot_Navigator_Routes) forall i int :: {routes[i]} 0 <= i && i < $k && fullTracks(m.Routes[i]) ==> routeIs(routes[i], m.Routes[i])
  ensures [restored] err == nil ==> (exists s *proto.Snapshot_Navigator_Routes :: {wire(arr(data), ref(s))} s != nil && wire(arr(data), ref(s)) && len(s.Routes) == len(routes) && (forall i int :: {routes[i]} 0 <= i && i < len(routes) && fullTracks(s.Routes[i]) ==> routeIs(routes[i], s.Routes[i])))

contract gpsgen.EncodeTracker (t) (data, err)
  noframe
  requires t == nil || okSavedDevice(t) && okParts(t) && (len(t.state.Sensors) == len(t.sensors) ==> sensorList(t))
  ensures [saved] t != nil && err == nil ==> (exists s *proto.Snapshot :: {wire(arr(data), ref(s))} s != nil && wire(arr(data), ref(s)) && pictured(t, s))
  ensures [same] t != nil ==> t.navigator == old(t.navigator) && t.speed == old(t.speed) && t.battery == old(t.battery) && t.sensors == old(t.sensors) && t.state == old(t.state) &&
    heapeq(types.Speed) && heapeq(types.Battery) && heapeq(types.Sensor) && heapeq(navigator.Navigator) && heapeq(curve.Curve)

contract gpsgen.DecodeTracker (data) (t, err)
  noframe
  ensures [restored] err == nil ==> t != nil && (exists s *proto.Snapshot :: {wire(arr(data), ref(s))} s != nil && wire(arr(data), ref(s)) && pictured(t, s))
