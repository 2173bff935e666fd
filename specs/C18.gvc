include "nav.inc"
include "step.inc"
include "ext.inc"
include "dev.inc"
include "devroutes.inc"
package curve
contract (*curve.Curve).Point (c, t) (p)
  requires c != nil
  modifies elems(c.points)
contract (*curve.Curve).Shuffle (c)
  requires c != nil
  modifies elems(c.points)

package navigator
// The versions of the routes, and of all their tracks, added up in order.
sum RouteVersions(n *Navigator, k int; i) int = n.routes[i].version
sum TrackVersions(r *Route, k int; j) int = r.tracks[j].version
sum AllTrackVersions(n *Navigator, k int; i) int = TrackVersions(n.routes[i], len(n.routes[i].tracks))

contract (*navigator.Navigator).Sum (n) (s)
  requires okRoutes(n)
  modifies nothing
  inv (i int, a int) a == RouteVersions(n, i)
  inv (i int, b int) b == AllTrackVersions(n, i)
  inv (i int, j int, b int) b == AllTrackVersions(n, i) + TrackVersions(n.routes[i], j)
  ensures [exact] s[0] == n.version && s[1] == RouteVersions(n, len(n.routes)) && s[2] == AllTrackVersions(n, len(n.routes))

// Whatever the published list shows of a route or track changes only together with a version.
contract (*navigator.Route).AddTrack (r, t) (q)
  requires okRoute(r)
  noframe
  local
  ensures [bumps] r.tracks != old(r.tracks) ==> r.version > old(r.version)
  ensures [tracks] okRoute(r)
contract (*navigator.Route).RemoveTrack (r, id) (ok)
  requires okRoute(r)
  noframe
  local
  ensures [bumps] ok ==> r.version > old(r.version)
  ensures [kept] !ok ==> r.tracks == old(r.tracks) && r.version == old(r.version)
contract (*navigator.Route).ChangeColor (r, col) (err)
  requires r != nil
  noframe
  local
  ensures [bumps] err == nil ==> r.version > old(r.version)
  ensures [kept] err != nil ==> r.color == old(r.color)
contract (*navigator.Track).ChangeColor (t, col) (err)
  requires t != nil
  noframe
  local
  ensures [bumps] err == nil ==> t.version > old(t.version)
  ensures [kept] err != nil ==> t.color == old(t.color)

contract (*navigator.Navigator).AddRoute (n, rs) (err)
  requires okNav(n) && (len(rs) == 0 || arr(rs) != arr(n.routes)) && (forall i int :: 0 <= i && i < len(rs) && rs[i] != nil ==> okRoute(rs[i]))
  modifies n.*, elems(n.routes)
  inv okRoutes(n) && (arr(n.routes) == old(arr(n.routes)) || fresh(arr(n.routes)))
  inv len(n.routes) >= old(len(n.routes)) && (len(n.routes) == old(len(n.routes)) ==> n.routes == old(n.routes))
  inv arr(n.routes) != arr(rs) || len(rs) == 0
  inv (ok int) len(n.routes) == old(len(n.routes)) + ok
  ensures [bumps] len(n.routes) != old(len(n.routes)) ==> n.version > old(n.version)
  ensures [intact] okNav(n) && n.elevation == old(n.elevation)
contract (*navigator.Navigator).RemoveRoute (n, id) (ok)
  requires okNav(n)
  modifies n.*, elems(n.routes)
  ensures [bumps] ok ==> n.version > old(n.version)
  ensures [kept] !ok ==> n.routes == old(n.routes) && (forall i int :: 0 <= i && i < len(n.routes) ==> n.routes[i] == old(n.routes[i]))
  ensures [intact] okNav(n) && n.elevation == old(n.elevation)
contract (*navigator.Navigator).RemoveTrack (n, rid, tid) (ok)
  requires okNav(n)
  noframe
  local
  ensures [bumps] ok ==> n.version > old(n.version)
contract (*navigator.Navigator).ResetRoutes (n) (ok)
  requires okNav(n)
  modifies n.*
  ensures [bumps] ok ==> n.version > old(n.version)
  ensures [kept] !ok ==> n.routes == old(n.routes)
  ensures [intact] okNav(n) && n.elevation == old(n.elevation)

// Where a step may lead is C05's, C07's and C08's business.
contract (*navigator.Navigator).NextLocation (n, tick, speed) (ok)
  requires okStep(n)
  modifies n.point, n.routeIndex, n.trackIndex, n.segmentIndex, n.offlineIndex, n.currentSegmentDistance, n.currentTrackDistance, n.currentRouteDistance, n.currentDistance
  inv okNav(n)
  ensures [position] okNav(n)

package gpsgen
contract (*gpsgen.Device).Update (d)
  requires okParts(d) && (len(d.state.Sensors) == len(d.sensors) ==> sensorList(d))
  noframe
  ensures [state] stateMirror(d)
  ensures [sensors] sensorsMirror(d)
  ensures [routes] routesMirror(d)

contract (*gpsgen.Device).AddRoute (d, rs) (err)
  requires okParts(d) && (len(rs) == 0 || arr(rs) != arr(d.navigator.routes)) && (forall i int :: 0 <= i && i < len(rs) && rs[i] != nil ==> okRoute(rs[i]))
  noframe
  ensures [refreshed] err == nil ==> routesMirror(d)
contract (*gpsgen.Device).RemoveRoute (d, id) (ok)
  requires okParts(d)
  noframe
  ensures [refreshed] ok ==> routesMirror(d)
contract (*gpsgen.Device).RemoveTrack (d, rid, tid) (ok)
  requires okParts(d)
  noframe
  ensures [refreshed] ok ==> routesMirror(d)
contract (*gpsgen.Device).ResetRoutes (d) (ok)
  requires okParts(d)
  noframe
  ensures [refreshed] ok ==> routesMirror(d)

contract (*gpsgen.Device).AddSensor (d, ss)
  requires okParts(d) && (len(ss) == 0 || arr(ss) != arr(d.sensors)) && (forall i int :: 0 <= i && i < len(ss) && ss[i] != nil ==> ss[i].gen != nil)
  noframe
  inv forall k int :: {d.sensors[k]} 0 <= k && k < len(d.sensors) ==> d.sensors[k] != nil
  inv len(d.sensors) >= old(len(d.sensors)) && (arr(d.sensors) == old(arr(d.sensors)) || fresh(arr(d.sensors))) && (len(d.sensors) == old(len(d.sensors)) ==> d.sensors == old(d.sensors))
  inv arr(d.sensors) != arr(ss) || len(ss) == 0
  inv (ok int) len(d.sensors) == old(len(d.sensors)) + ok
  ensures [refreshed] len(d.sensors) != old(len(d.sensors)) ==> sensorsMirror(d)
contract (*gpsgen.Device).RemoveSensor (d, id) (ok)
  requires okParts(d)
  noframe
  ensures [refreshed] ok ==> sensorsMirror(d)
contract (*gpsgen.Device).ResetSensors (d)
  requires okParts(d)
  noframe
  ensures [refreshed] sensorsMirror(d) && len(d.sensors) == 0

contract (*gpsgen.Device).Next (d, tick) (ok)
  requires okParts(d) && okStep(d.navigator) && (len(d.state.Sensors) == len(d.sensors) ==> sensorList(d))
  noframe
  ghosts
  ensures [state] ok ==> stateMirror(d)
  ensures [speed] ok ==> d.state.Speed == (d.speed.min == d.speed.max ? d.speed.min : d.speed.val)
  ensures [sensors] ok ==> sensorsMirror(d)
  ensures [routes] ok && old(d.ns[0] != d.navigator.version || d.ns[1] != RouteVersions(d.navigator, len(d.navigator.routes)) || d.ns[2] != AllTrackVersions(d.navigator, len(d.navigator.routes))) ==> routesMirror(d)
  ensures [offline] !ok && nbusy() == old(nbusy()) && len(d.navigator.routes) > 0 ==> offlineIs(d.navigator, d.state)
