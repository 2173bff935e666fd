// What it means that a message is the picture of an object.
package curve
def pointIs(p point, s *proto.Snapshot_Curve_ControlPoint) bool =
  s != nil && s.Vp != nil && s.Cp != nil && p.vp.X == s.Vp.X && p.vp.Y == s.Vp.Y && p.cp.X == s.Cp.X && p.cp.Y == s.Cp.Y
def curveIs(c *Curve, s *proto.Snapshot_Curve) bool =
  c.min == s.Min && c.max == s.Max && c.mode == s.Mode && len(c.points) == len(s.Points) &&
  (forall i int :: {c.points[i]} 0 <= i && i < len(c.points) ==> pointIs(c.points[i], s.Points[i]))

// A message with every part present.
def fullCurve(s *proto.Snapshot_Curve) bool =
  s != nil && (forall i int :: {s.Points[i]} 0 <= i && i < len(s.Points) ==> s.Points[i] != nil && s.Points[i].Vp != nil && s.Points[i].Cp != nil)

package types
def fullSpeed(s *proto.Snapshot_CommonType) bool = s != nil && fullCurve(s.Gen)
def fullSensor(s *proto.Snapshot_SensorType) bool = s != nil && fullCurve(s.Gen)
def speedIs(t *Speed, s *proto.Snapshot_CommonType) bool =
  t.min == s.Min && t.max == s.Max && t.val == s.Val && s.Gen != nil && t.gen != nil && curveIs(t.gen, s.Gen)
def batteryIs(t *Battery, s *proto.Snapshot_BatteryType) bool =
  t.min == s.Min && t.max == s.Max && t.val == s.Val && t.chargeTime == s.ChargeTime
def sensorIs(t *Sensor, s *proto.Snapshot_SensorType) bool =
  t.id == s.Id && t.name == s.Name && t.min == s.Min && t.max == s.Max && t.valX == s.ValX && t.valY == s.ValY &&
  s.Gen != nil && t.gen != nil && curveIs(t.gen, s.Gen)

package navigator
def fullSegment(s *proto.Snapshot_Navigator_Route_Track_Segment) bool = s != nil && s.PointA != nil && s.PointB != nil
def fullTrack(s *proto.Snapshot_Navigator_Route_Track) bool =
  s != nil && (forall i int :: {s.Segmenets[i]} 0 <= i && i < len(s.Segmenets) ==> fullSegment(s.Segmenets[i]))
def goodName(s string) bool = s == "" || len(s) >= 3 && len(s) <= 256
def fullTracks(s *proto.Snapshot_Navigator_Route) bool =
  s != nil && (forall i int :: {s.Tracks[i]} 0 <= i && i < len(s.Tracks) ==> fullTrack(s.Tracks[i]))
def segmentIs(x Segment, s *proto.Snapshot_Navigator_Route_Track_Segment) bool =
  s != nil && s.PointA != nil && s.PointB != nil && x.pointA.Lat == s.PointA.Lat && x.pointA.Lon == s.PointA.Lon &&
  x.pointB.Lat == s.PointB.Lat && x.pointB.Lon == s.PointB.Lon && x.dist == s.Distance && x.bearing == s.Bearing &&
  x.index == s.Index && x.rel == s.Rel
def trackIs(t *Track, s *proto.Snapshot_Navigator_Route_Track) bool =
  t != nil && s != nil && t.id == s.Id && t.color == s.Color && t.dist == s.Distance && t.isClosed == s.IsClosed && t.name.value == s.Name && t.version == s.Version &&
  len(t.segments) == len(s.Segmenets) &&
  (forall i int :: {t.segments[i]} 0 <= i && i < len(t.segments) ==> segmentIs(t.segments[i], s.Segmenets[i]))
def routeIs(r *Route, s *proto.Snapshot_Navigator_Route) bool =
  r != nil && s != nil && r.id == s.Id && r.color == s.Color && r.dist == s.Distance && r.name.value == s.Name && r.version == s.Version &&
  len(r.tracks) == len(s.Tracks) &&
  (forall i int :: {r.tracks[i]} 0 <= i && i < len(r.tracks) ==> trackIs(r.tracks[i], s.Tracks[i]))
def fullRoutes(s *proto.Snapshot_Navigator) bool =
  s != nil && (forall i int :: {s.Routes[i]} 0 <= i && i < len(s.Routes) ==> fullTracks(s.Routes[i]) && goodName(s.Routes[i].Name) && len(s.Routes[i].Props) == 0)
// The position the message names exists in its routes.
def okSnapPlace(s *proto.Snapshot_Navigator) bool =
  0 <= s.RouteIndex && 0 <= s.TrackIndex && 0 <= s.SegmentIndex &&
  (s.RouteIndex == 0 || s.RouteIndex < len(s.Routes)) &&
  (s.TrackIndex == 0 || s.RouteIndex < len(s.Routes) && s.TrackIndex < len(s.Routes[s.RouteIndex].Tracks)) &&
  (s.SegmentIndex == 0 || s.RouteIndex < len(s.Routes) && s.TrackIndex < len(s.Routes[s.RouteIndex].Tracks) && s.SegmentIndex < len(s.Routes[s.RouteIndex].Tracks[s.TrackIndex].Segmenets))
def navRoutesAre(n *Navigator, s *proto.Snapshot_Navigator) bool =
  len(n.routes) == len(s.Routes) && (forall i int :: {n.routes[i]} 0 <= i && i < len(n.routes) ==> routeIs(n.routes[i], s.Routes[i]))
def navPlaceIs(n *Navigator, s *proto.Snapshot_Navigator) bool =
  n.routeIndex == s.RouteIndex && n.trackIndex == s.TrackIndex && n.segmentIndex == s.SegmentIndex &&
  n.currentSegmentDistance == s.CurrentSegmentDistance && n.currentRouteDistance == s.CurrentRouteDistance &&
  n.currentTrackDistance == s.CurrentTrackDistance && n.currentDistance == s.CurrentDistance
def navRestIs(n *Navigator, s *proto.Snapshot_Navigator) bool =
  n.offlineIndex == s.OfflineIndex && s.Point != nil && n.point.Lat == s.Point.Lat && n.point.Lon == s.Point.Lon &&
  n.distance == s.Distance && n.skipOffline == s.SkipOffline && n.version == s.Version &&
  n.elevation != nil && s.Elevation != nil && sensorIs(n.elevation, s.Elevation) &&
  (!n.skipOffline && 0 <= s.OfflineMin && s.OfflineMin <= s.OfflineMax && s.OfflineMax > 0 ==> n.offline != nil && n.offline.min == s.OfflineMin && n.offline.max == s.OfflineMax)
