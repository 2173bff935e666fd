// The published state of a device.
package navigator
helper navigator.setDMS (lat, lon, a, b)
  requires a != nil && b != nil
  modifies a.*, b.*

helper navigator.setUTM (lat, lon, u)
  requires u != nil
  modifies u.*
  ensures u.Easting == res(0, icholy_utm.ToUTM(lat, lon)) && u.Northing == res(1, icholy_utm.ToUTM(lat, lon))

def okLocation(s *proto.Device) bool = s.Location == nil || s.Location.Utm != nil && s.Location.LatDms != nil && s.Location.LonDms != nil
def onTrack(n *Navigator) bool = 0 <= n.routeIndex && n.routeIndex < len(n.routes) && 0 <= n.trackIndex && n.trackIndex < len(n.routes[n.routeIndex].tracks)
def onSegment(n *Navigator) bool = onTrack(n) && 0 <= n.segmentIndex && n.segmentIndex < len(n.routes[n.routeIndex].tracks[n.trackIndex].segments)
def distancesAre(n *Navigator, s *proto.Device) bool =
  s.Distance != nil && s.Distance.Distance == n.distance && s.Distance.CurrentDistance == n.currentDistance && s.Distance.CurrentRouteDistance == n.currentRouteDistance &&
  s.Distance.CurrentTrackDistance == n.currentTrackDistance && s.Distance.CurrentSegmentDistance == n.currentSegmentDistance &&
  s.Distance.RouteDistance == (0 <= n.routeIndex && n.routeIndex < len(n.routes) ? n.routes[n.routeIndex].dist : 0.0) &&
  s.Distance.TrackDistance == (onTrack(n) ? n.routes[n.routeIndex].tracks[n.trackIndex].dist : 0.0) &&
  s.Distance.SegmentDistance == (onSegment(n) ? n.routes[n.routeIndex].tracks[n.trackIndex].segments[n.segmentIndex].dist : 0.0)
def placeIs(n *Navigator, s *proto.Device) bool =
  s.Navigator != nil && s.Navigator.CurrentRouteIndex == n.routeIndex && s.Navigator.CurrentTrackIndex == n.trackIndex && s.Navigator.CurrentSegmentIndex == n.segmentIndex &&
  s.Navigator.CurrentRouteId == (0 <= n.routeIndex && n.routeIndex < len(n.routes) ? n.routes[n.routeIndex].id : "") &&
  s.Navigator.CurrentTrackId == (onTrack(n) ? n.routes[n.routeIndex].tracks[n.trackIndex].id : "")
def locationIs(n *Navigator, s *proto.Device) bool =
  s.Location != nil && s.Location.Lat == n.point.Lat && s.Location.Lon == n.point.Lon && s.Location.Elevation == n.elevation.valY &&
  s.Location.Bearing == (onSegment(n) && n.routes[n.routeIndex].tracks[n.trackIndex].segments[n.segmentIndex].dist != 0.0 ? n.routes[n.routeIndex].tracks[n.trackIndex].segments[n.segmentIndex].bearing : 0.0) &&
  s.Location.Utm.Easting == res(0, icholy_utm.ToUTM(n.point.Lat, n.point.Lon)) && s.Location.Utm.Northing == res(1, icholy_utm.ToUTM(n.point.Lat, n.point.Lon))
def offlineIs(n *Navigator, s *proto.Device) bool = s.IsOffline == (n.offlineIndex > 0) && s.OfflineDuration == n.offlineIndex

contract (*navigator.Navigator).Update (n, s)
  requires okNav(n) && n.elevation != nil && s != nil && okLocation(s)
  modifies s.Distance, s.Navigator, s.Location, s.IsOffline, s.OfflineDuration, s.Distance.*, s.Navigator.*, s.Location.*, s.Location.Utm.*, s.Location.LatDms.*, s.Location.LonDms.*
  ensures [distances] distancesAre(n, s)
  ensures [place] placeIs(n, s)
  ensures [location] locationIs(n, s)
  ensures [offline] offlineIs(n, s)
  ensures [kept] okLocation(s) && (old(s.Distance) != nil ==> s.Distance == old(s.Distance)) && (old(s.Navigator) != nil ==> s.Navigator == old(s.Navigator)) && (old(s.Location) != nil ==> s.Location == old(s.Location))
  ensures [new] (old(s.Distance) == nil ==> fresh(s.Distance)) && (old(s.Navigator) == nil ==> fresh(s.Navigator)) && (old(s.Location) == nil ==> fresh(s.Location))

package types
// The charge itself is C02's business.
def raw(b *Battery) float64 = b.chargeTime > 0 ? 100.0 - b.val / seconds(b.chargeTime) * 100.0 : b.min
def min1(r float64, lo float64) float64 = r < lo ? lo : r
def charge(b *Battery) float64 = min1(raw(b) > b.max ? b.max : raw(b), b.min)
contract (*types.Battery).Value (b) (v)
  requires b != nil
  modifies nothing
  ensures [charge] v == charge(b)
contract (*types.Battery).IsLow (b) (low)
  requires b != nil
  modifies nothing
  ensures [low] low <==> charge(b) == b.min

package gpsgen
// A device as its constructor and methods leave it.
def okParts(d *Device) bool =
  d != nil && d.state != nil && d.state.Routes != nil && d.state.Battery != nil && okLocation(d.state) &&
  d.navigator != nil && okNav(d.navigator) && d.navigator.elevation != nil && d.navigator.elevation.gen != nil && d.speed != nil && d.speed.gen != nil && d.battery != nil &&
  (forall i int :: {d.sensors[i]} 0 <= i && i < len(d.sensors) ==> d.sensors[i] != nil && d.sensors[i].gen != nil)
def sensorIdIs(x *types.Sensor, s *proto.Device_Sensor) bool = s != nil && s.Id == x.id && s.Name == x.name
def sensorValIs(x *types.Sensor, s *proto.Device_Sensor) bool = s.ValX == x.valX && s.ValY == x.valY
def sensorsMirror(d *Device) bool = len(d.state.Sensors) == len(d.sensors) &&
  (forall i int :: {d.sensors[i]} {d.state.Sensors[i]} 0 <= i && i < len(d.sensors) ==> sensorIdIs(d.sensors[i], d.state.Sensors[i]) && sensorValIs(d.sensors[i], d.state.Sensors[i]))
// One published entry per sensor, in order (values may be those of an earlier tick).
def sensorList(d *Device) bool = len(d.state.Sensors) == len(d.sensors) &&
  (forall i int :: {d.sensors[i]} {d.state.Sensors[i]} 0 <= i && i < len(d.sensors) ==> sensorIdIs(d.sensors[i], d.state.Sensors[i])) &&
  (forall i int, j int :: {d.state.Sensors[i], d.state.Sensors[j]} 0 <= i && i < j && j < len(d.state.Sensors) ==> d.state.Sensors[i] != d.state.Sensors[j])
def batteryMirror(d *Device) bool =
  d.state.Battery != nil && d.state.Battery.Charge == charge(d.battery) && d.state.Battery.ChargeTime == int(seconds(d.battery.chargeTime))

contract (*gpsgen.Device).updateSensors (d)
  requires d != nil && d.state != nil && (forall i int :: {d.sensors[i]} 0 <= i && i < len(d.sensors) ==> d.sensors[i] != nil)
  modifies d.state.Sensors
  inv len(d.state.Sensors) == $k && fresh(arr(d.state.Sensors))
  inv forall i int :: {d.state.Sensors[i]} 0 <= i && i < $k ==> fresh(d.state.Sensors[i]) && sensorIdIs(d.sensors[i], d.state.Sensors[i]) && sensorValIs(d.sensors[i], d.state.Sensors[i])
  inv forall i int, j int :: {d.state.Sensors[i], d.state.Sensors[j]} 0 <= i && i < j && j < $k ==> d.state.Sensors[i] != d.state.Sensors[j]
  inv (out []*proto.Device_Sensor) fresh(arr(out))
  inv (out []*proto.Device_Sensor) len(out) == $k
  inv (out []*proto.Device_Sensor) forall i int :: {out[i]} 0 <= i && i < $k ==> fresh(out[i]) && sensorIdIs(d.sensors[i], out[i]) && sensorValIs(d.sensors[i], out[i])
  inv (out []*proto.Device_Sensor) forall i int, j int :: {out[i], out[j]} 0 <= i && i < j && j < $k ==> out[i] != out[j]
  ensures [mirror] sensorsMirror(d)
  ensures [list] sensorList(d)
  ensures [new] forall i int :: {d.state.Sensors[i]} 0 <= i && i < len(d.state.Sensors) ==> fresh(d.state.Sensors[i])

def stateMirror(d *Device) bool = distancesAre(d.navigator, d.state) && placeIs(d.navigator, d.state) && locationIs(d.navigator, d.state) && offlineIs(d.navigator, d.state) && batteryMirror(d)
def keptParts(d *Device) bool = (old(d.state.Distance) != nil ==> d.state.Distance == old(d.state.Distance)) && (old(d.state.Navigator) != nil ==> d.state.Navigator == old(d.state.Navigator)) && (old(d.state.Location) != nil ==> d.state.Location == old(d.state.Location))

contract (*gpsgen.Device).updateState (d)
  requires okParts(d) && (len(d.state.Sensors) == len(d.sensors) ==> sensorList(d))
  modifies d.state.Distance, d.state.Navigator, d.state.Location, d.state.IsOffline, d.state.OfflineDuration, d.state.TimeEstimate, d.state.Sensors
  modifies d.state.Distance.*, d.state.Navigator.*, d.state.Location.*, d.state.Location.Utm.*, d.state.Location.LatDms.*, d.state.Location.LonDms.*, d.state.Battery.Charge, d.state.Battery.ChargeTime
  modifies all(proto.Device_Sensor.ValX), all(proto.Device_Sensor.ValY)
  inv sensorList(d)
  inv (i int) forall j int :: {d.sensors[j]} 0 <= j && j < i ==> sensorValIs(d.sensors[j], d.state.Sensors[j])
  ensures [state] stateMirror(d)
  ensures [sensors] sensorsMirror(d)
  ensures [list] sensorList(d)
  ensures [kept] okLocation(d.state) && keptParts(d)

