include "nav.inc"
include "ext.inc"
option terminates
package gpsgen

// The protocol-buffer decoder is assumed only to fill in the message: any message at all may result.
extern "google.golang.org/protobuf/proto.Marshal" (m) (data, err)
  modifies nothing
  ensures err == nil ==> fresh(arr(data))
extern "google.golang.org/protobuf/proto.Unmarshal" (data, m) (err)
  modifies unbox(m, *proto.Snapshot).*, unbox(m, *proto.Snapshot_Sensors).*, unbox(m, *proto.Snapshot_Navigator_Routes).*, unbox(m, *proto.Packet).*

package curve
contract (*curve.Curve).FromSnapshot (c, s)
  requires c != nil
  modifies c.*
contract (*curve.Curve).Point (c, t) (p)
  requires c != nil
  modifies elems(c.points)
contract (*curve.Curve).Shuffle (c)
  requires c != nil
  modifies elems(c.points)
contract (*curve.Curve).Snapshot (c) (s)
  requires c != nil
  modifies nothing

package types
// What a decoded sensor or speed must have for its methods to be safe.
def okSensor(x *Sensor) bool = x != nil && x.gen != nil
contract (*types.Battery).FromSnapshot (b, s)
  requires b != nil
  modifies b.*
contract (*types.Speed).FromSnapshot (t, s)
  requires t != nil
  modifies t.*
  ensures [usable] t.gen != nil
contract (*types.Sensor).FromSnapshot (t, s)
  requires t != nil
  modifies t.*
  ensures [usable] okSensor(t)
contract (*types.Sensor).ID (x)
  local
  noframe
  requires okSensor(x)
  ensures [safe] okSensor(x)
contract (*types.Sensor).Name (x)
  local
  noframe
  requires okSensor(x)
  ensures [safe] okSensor(x)
contract (*types.Sensor).Min (x)
  local
  noframe
  requires okSensor(x)
  ensures [safe] okSensor(x)
contract (*types.Sensor).Max (x)
  local
  noframe
  requires okSensor(x)
  ensures [safe] okSensor(x)
contract (*types.Sensor).ValueX (x)
  local
  noframe
  requires okSensor(x)
  ensures [safe] okSensor(x)
contract (*types.Sensor).ValueY (x)
  local
  noframe
  requires okSensor(x)
  ensures [safe] okSensor(x)
contract (*types.Sensor).String (x)
  local
  noframe
  requires okSensor(x)
  ensures [safe] okSensor(x)
contract (*types.Sensor).Snapshot (x)
  requires okSensor(x)
  modifies nothing
contract (*types.Speed).Min (x)
  local
  noframe
  requires x != nil && x.gen != nil
  ensures [safe] x != nil && x.gen != nil
contract (*types.Speed).Max (x)
  local
  noframe
  requires x != nil && x.gen != nil
  ensures [safe] x != nil && x.gen != nil
contract (*types.Speed).Value (x)
  local
  noframe
  requires x != nil && x.gen != nil
  ensures [safe] x != nil && x.gen != nil
contract (*types.Speed).String (x)
  local
  noframe
  requires x != nil && x.gen != nil
  ensures [safe] x != nil && x.gen != nil
contract (*types.Speed).Snapshot (x)
  requires x != nil && x.gen != nil
  modifies nothing
contract (*types.Battery).Min (x)
  local
  noframe
  requires x != nil
  ensures [safe] x != nil
contract (*types.Battery).Max (x)
  local
  noframe
  requires x != nil
  ensures [safe] x != nil
contract (*types.Battery).ChargeTime (x)
  local
  noframe
  requires x != nil
  ensures [safe] x != nil
contract (*types.Battery).IsLow (x)
  local
  noframe
  requires x != nil
  ensures [safe] x != nil
contract (*types.Battery).Value (x)
  local
  noframe
  requires x != nil
  ensures [safe] x != nil
contract (*types.Battery).String (x)
  local
  noframe
  requires x != nil
  ensures [safe] x != nil
contract (*types.Battery).Snapshot (x)
  requires x != nil
  modifies nothing

package navigator
def wfNav(n *Navigator) bool = okNav(n) && n.elevation != nil && n.elevation.gen != nil && (n.skipOffline || n.offline != nil && 0 <= n.offline.min && n.offline.min <= n.offline.max)
contract navigator.SegmentFromSnapshot (s) (x)
  modifies nothing
contract navigator.TrackFromSnapshot (t, s)
  modifies t.*
contract (*navigator.Route).RouteFromSnapshot (r, s) (err)
  requires r != nil && len(r.tracks) == 0
  modifies r.*
  inv (tracks []*navigator.Track) forall i int :: 0 <= i && i < $k ==> tracks[i] != nil && fresh(tracks[i])
  ensures [usable] okRoute(r)
contract (*navigator.Navigator).FromSnapshot (n, s)
  requires n != nil
  modifies n.*
  inv (i int) forall j int :: {n.routes[j]} 0 <= j && j < i ==> okRoute(n.routes[j]) && fresh(n.routes[j])
  ensures [position] s != nil ==> okNav(n)
  ensures [usable] s != nil ==> wfNav(n)
contract (*navigator.Route).ID (r)
  local
  noframe
  requires okRoute(r)
  ensures [safe] okRoute(r)
contract (*navigator.Route).Color (r)
  local
  noframe
  requires okRoute(r)
  ensures [safe] okRoute(r)
contract (*navigator.Route).Distance (r)
  local
  noframe
  requires okRoute(r)
  ensures [safe] okRoute(r)
contract (*navigator.Route).Name (r)
  local
  noframe
  requires okRoute(r)
  ensures [safe] okRoute(r)
contract (*navigator.Route).NumTracks (r)
  local
  noframe
  requires okRoute(r)
  ensures [safe] okRoute(r)
contract (*navigator.Route).TrackAt (r, i)
  local
  noframe
  requires okRoute(r)
  ensures [safe] okRoute(r)
contract (*navigator.Route).TrackByID (r, id)
  local
  noframe
  requires okRoute(r)
  ensures [safe] okRoute(r)
contract (*navigator.Route).EachTrack (r, fn)
  ghosts
  local
  noframe
  requires fn != nil && okRoute(r)
  ensures [safe] okRoute(r)
contract (*navigator.Route).Snapshot (r)
  requires okRoute(r)
  modifies nothing
contract (*navigator.Track).ID (t)
  local
  noframe
  requires t != nil
  ensures [safe] t != nil
contract (*navigator.Track).IsClosed (t)
  local
  noframe
  requires t != nil
  ensures [safe] t != nil
contract (*navigator.Track).Color (t)
  local
  noframe
  requires t != nil
  ensures [safe] t != nil
contract (*navigator.Track).Name (t)
  local
  noframe
  requires t != nil
  ensures [safe] t != nil
contract (*navigator.Track).Distance (t)
  local
  noframe
  requires t != nil
  ensures [safe] t != nil
contract (*navigator.Track).NumSegments (t)
  local
  noframe
  requires t != nil
  ensures [safe] t != nil
contract (*navigator.Track).SegmentAt (t, i)
  local
  noframe
  requires t != nil
  ensures [safe] t != nil
contract (*navigator.Track).Snapshot (t)
  requires t != nil
  modifies nothing
contract (*navigator.Navigator).Location (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).CurrentBearing (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).Sum (n)
  requires wfNav(n)
  modifies nothing
contract (*navigator.Navigator).RouteByID (n, id)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).EachRoute (n, fn)
  ghosts
  local
  noframe
  requires fn != nil && wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).Distance (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).CurrentDistance (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).RouteDistance (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).CurrentRouteDistance (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).TrackDistance (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).CurrentTrackDistance (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).SegmentDistance (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).CurrentSegmentDistance (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).IsFinish (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).Routes (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).CurrentRoute (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).CurrentTrack (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).CurrentSegment (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).NumRoutes (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).RouteAt (n, i)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).TrackIndex (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).RouteIndex (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).SegmentIndex (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).Elevation (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).IsOffline (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).OfflineDuration (n)
  local
  noframe
  requires wfNav(n)
  ensures [safe] wfNav(n)
contract (*navigator.Navigator).Snapshot (n)
  requires wfNav(n)
  modifies nothing

// The published state, as far as safety needs it.
def okLocation(s *proto.Device) bool = s.Location == nil || s.Location.Utm != nil && s.Location.LatDms != nil && s.Location.LonDms != nil
contract (*navigator.Navigator).Update (n, s)
  requires wfNav(n) && s != nil && okLocation(s)
  modifies s.Distance, s.Navigator, s.Location, s.IsOffline, s.OfflineDuration, s.Distance.*, s.Navigator.*, s.Location.*, s.Location.Utm.*, s.Location.LatDms.*, s.Location.LonDms.*
  ensures [usable] okLocation(s) && s.Distance != nil

package gpsgen
def okSensors(d *Device) bool = forall i int :: {d.sensors[i]} 0 <= i && i < len(d.sensors) ==> d.sensors[i] != nil && d.sensors[i].gen != nil
def listed(d *Device) bool = forall i int :: {d.state.Sensors[i]} 0 <= i && i < len(d.state.Sensors) ==> d.state.Sensors[i] != nil
def okParts(d *Device) bool =
  d != nil && d.state != nil && d.state.Routes != nil && d.state.Battery != nil && okLocation(d.state) && d.navigator != nil && wfNav(d.navigator) &&
  d.speed != nil && d.speed.gen != nil && d.battery != nil && okSensors(d)
// A device on which every query is safe.
def ready(d *Device) bool = okParts(d) && listed(d)

helper (*gpsgen.Device).updateSensors (d)
  requires d != nil && d.state != nil && okSensors(d)
  modifies d.state.Sensors
  inv fresh(arr(d.state.Sensors)) && len(d.state.Sensors) == $k
  inv forall i int :: {d.state.Sensors[i]} 0 <= i && i < len(d.state.Sensors) ==> d.state.Sensors[i] != nil && fresh(d.state.Sensors[i])
  inv (out []*proto.Device_Sensor) fresh(arr(out))
  inv (out []*proto.Device_Sensor) len(out) == $k
  inv (out []*proto.Device_Sensor) forall i int :: {out[i]} 0 <= i && i < $k ==> out[i] != nil && fresh(out[i])
  ensures listed(d) && len(d.state.Sensors) == len(d.sensors) && (forall i int :: {d.state.Sensors[i]} 0 <= i && i < len(d.state.Sensors) ==> fresh(d.state.Sensors[i]))
helper (*gpsgen.Device).updateState (d)
  requires ready(d)
  modifies d.state.Distance, d.state.Navigator, d.state.Location, d.state.IsOffline, d.state.OfflineDuration, d.state.TimeEstimate, d.state.Sensors
  modifies d.state.Distance.*, d.state.Navigator.*, d.state.Location.*, d.state.Location.Utm.*, d.state.Location.LatDms.*, d.state.Location.LonDms.*, d.state.Battery.Charge, d.state.Battery.ChargeTime
  modifies all(proto.Device_Sensor.ValX), all(proto.Device_Sensor.ValY)
  ensures ready(d)
contract (*navigator.Route).Props (r) (p)
  requires r != nil
  modifies r.props
  ensures p == r.props && p != nil
contract (*navigator.Track).Props (t) (p)
  requires t != nil
  modifies t.props
  ensures p == t.props && p != nil
helper (*gpsgen.Device).updateRoutes (d)
  requires d != nil && d.state != nil && d.state.Routes != nil && d.navigator != nil && wfNav(d.navigator) && d.speed != nil
  modifies d.state.Routes.Routes, d.avgT, d.ns, all(navigator.Route.props), all(navigator.Track.props)
  inv fresh(arr(d.state.Routes.Routes))
  inv (tracks []*proto.Device_Routes_Route_Track) arr(tracks) == 0 || fresh(arr(tracks))

contract (*gpsgen.Device).FromSnapshot (d, s)
  requires d != nil && s != nil
  modifies d.*, all(navigator.Route.props), all(navigator.Track.props), all(proto.Device_Sensor.ValX), all(proto.Device_Sensor.ValY)
  inv (i int) forall j int :: {d.sensors[j]} 0 <= j && j < i ==> d.sensors[j] != nil && fresh(d.sensors[j]) && d.sensors[j].gen != nil
  ensures [usable] ready(d)
  ensures [position] okNav(d.navigator)
contract (*gpsgen.Device).UnmarshalBinary (d, data) (err)
  requires d != nil
  modifies d.*, all(navigator.Route.props), all(navigator.Track.props), all(proto.Device_Sensor.ValX), all(proto.Device_Sensor.ValY)
  ensures [empty] len(data) == 0 ==> err != nil
  ensures [usable] err == nil ==> ready(d)
contract gpsgen.DecodeTracker (data) (t, err)
  noframe
  ensures [empty] len(data) == 0 ==> err != nil
  ensures [usable] err == nil ==> ready(t)
contract gpsgen.DecodeSensors (data) (xs, err)
  noframe
  inv (sensors []*types.Sensor) forall i int :: {sensors[i]} 0 <= i && i < $k ==> okSensor(sensors[i])
  ensures [empty] len(data) == 0 ==> err != nil
  ensures [usable] err == nil ==> (forall i int :: {xs[i]} 0 <= i && i < len(xs) ==> okSensor(xs[i]))
contract gpsgen.DecodeRoutes (data) (rs, err)
  noframe
  inv (routes []*navigator.Route) forall i int :: {routes[i]} 0 <= i && i < $k ==> fresh(routes[i]) && okRoute(routes[i])
  ensures [empty] len(data) == 0 ==> err != nil
  ensures [usable] err == nil ==> (forall i int :: {rs[i]} 0 <= i && i < len(rs) ==> okRoute(rs[i]))
contract gpsgen.PacketFromBytes (data) (p, err)
  noframe
  ensures [empty] len(data) == 0 ==> err != nil
  ensures [usable] err == nil ==> p != nil
contract (*gpsgen.Device).ID (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).Model (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).UserID (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).Color (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).Descr (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).Sensors (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).SensorByID (d, id)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).NumRoutes (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).NumSensors (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).SensorAt (d, i)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).EachSensor (d, fn)
  ghosts
  local
  noframe
  requires fn != nil && ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).EachRoute (d, fn)
  ghosts
  local
  noframe
  requires fn != nil && ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).Routes (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).Status (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).State (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).Update (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).CurrentBearing (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).Distance (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).CurrentDistance (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).RouteDistance (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).CurrentRouteDistance (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).TrackDistance (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).CurrentTrackDistance (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).SegmentDistance (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).CurrentSegmentDistance (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).IsFinish (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).CurrentRoute (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).CurrentTrack (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).CurrentSegment (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).RouteIndex (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).TrackIndex (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).SegmentIndex (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).IsOffline (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).Location (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).RouteAt (d, i)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).Duration (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).Version (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
contract (*gpsgen.Device).Snapshot (d)
  requires ready(d)
  modifies nothing
contract (*gpsgen.Device).MarshalBinary (d)
  local
  noframe
  requires ready(d)
  ensures [safe] ready(d)
