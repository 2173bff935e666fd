option floatReal
include "nav.inc"
include "ext.inc"
package navigator

sum TrackSum(r *Route, k int; i) float64 = r.tracks[i].dist
sum RouteSum(n *Navigator, k int; i) float64 = n.routes[i].dist
def sums(n *Navigator) bool = n.distance == RouteSum(n, len(n.routes))
def rewound(n *Navigator) bool =
  n.routeIndex == 0 && n.trackIndex == 0 && n.segmentIndex == 0 && n.currentDistance == 0.0 &&
  n.currentRouteDistance == 0.0 && n.currentTrackDistance == 0.0 && n.currentSegmentDistance == 0.0
// Every route has its own list of tracks.
def owned(n *Navigator) bool =
  forall i int, j int :: {n.routes[i].tracks, n.routes[j].tracks} 0 <= i && i < len(n.routes) && 0 <= j && j < len(n.routes) && n.routes[i] != n.routes[j] ==> arr(n.routes[i].tracks) == 0 || arr(n.routes[i].tracks) != arr(n.routes[j].tracks)
def apart(n *Navigator, rs []*Route) bool = len(rs) == 0 || arr(rs) != arr(n.routes)

contract (*navigator.Route).AddTrack (r, t) (q)
  requires okRoute(r)
  modifies r.tracks, elems(r.tracks), r.dist, r.version
  inv (i int) r.dist == TrackSum(r, i)
  inv r.dist == TrackSum(r, $k)
  inv (s float64) s == TrackSum(r, $k)
  inv (i int) 0 <= i && i <= len(r.tracks)
  ensures [sum] t != nil ==> r.dist == TrackSum(r, len(r.tracks))
  ensures [absent] t == nil ==> r.dist == old(r.dist) && r.tracks == old(r.tracks)
  ensures [keeps] old(r.dist) == old(TrackSum(r, len(r.tracks))) ==> r.dist == TrackSum(r, len(r.tracks))
  ensures [intact] okRoute(r) && q == r
  ensures [storage] arr(r.tracks) == old(arr(r.tracks)) || fresh(arr(r.tracks))

contract (*navigator.Route).RemoveTrack (r, id) (ok)
  requires okRoute(r)
  modifies r.tracks, elems(r.tracks), r.dist, r.version
  inv (i int) r.dist == TrackSum(r, i)
  inv r.dist == TrackSum(r, $k)
  inv (s float64) s == TrackSum(r, $k)
  inv (i int) 0 <= i && i <= len(r.tracks)
  ensures [sum] ok ==> r.dist == TrackSum(r, len(r.tracks))
  ensures [absent] !ok ==> r.dist == old(r.dist) && r.tracks == old(r.tracks)
  ensures [keeps] old(r.dist) == old(TrackSum(r, len(r.tracks))) ==> r.dist == TrackSum(r, len(r.tracks))
  ensures [intact] okRoute(r)

contract navigator.RouteFromTracks (ts) (r)
  requires forall i int :: 0 <= i && i < len(ts) ==> ts[i] != nil
  modifies nothing
  inv (newRoute *Route) okRoute(newRoute) && newRoute.dist == TrackSum(newRoute, len(newRoute.tracks))
  inv (newRoute *Route) fresh(newRoute) && (arr(newRoute.tracks) == 0 || fresh(arr(newRoute.tracks)))
  ensures [sum] okRoute(r) && r.dist == TrackSum(r, len(r.tracks))

contract (*navigator.Navigator).AddRoute (n, rs) (err)
  requires okRoutes(n) && apart(n, rs)
  requires forall i int :: 0 <= i && i < len(rs) && rs[i] != nil ==> okRoute(rs[i])
  modifies n.*, elems(n.routes)
  inv (i int) n.distance == RouteSum(n, i)
  inv n.distance == RouteSum(n, $k)
  inv (s float64) s == RouteSum(n, $k)
  inv (i int) 0 <= i && i <= len(n.routes)
  inv okRoutes(n)
  inv (ok int) ok >= 0 && len(n.routes) == old(len(n.routes)) + ok
  inv (ok int) ok == 0 ==> n.routes == old(n.routes)
  ensures [sum] len(n.routes) != old(len(n.routes)) ==> sums(n) && rewound(n)
  ensures [grows] len(n.routes) >= old(len(n.routes))
  ensures [absent] len(n.routes) == old(len(n.routes)) ==> n.distance == old(n.distance)
  ensures [intact] okRoutes(n)

contract (*navigator.Navigator).RemoveRoute (n, id) (ok)
  requires okRoutes(n)
  modifies n.*, elems(n.routes)
  inv (i int) n.distance == RouteSum(n, i)
  inv n.distance == RouteSum(n, $k)
  inv (s float64) s == RouteSum(n, $k)
  inv (i int) 0 <= i && i <= len(n.routes)
  ensures [sum] ok ==> sums(n) && rewound(n)
  ensures [absent] !ok ==> n.distance == old(n.distance) && n.routes == old(n.routes)
  ensures [intact] okRoutes(n)

contract (*navigator.Navigator).ResetRoutes (n) (ok)
  requires okRoutes(n)
  modifies n.*
  inv (i int) n.distance == RouteSum(n, i)
  inv n.distance == RouteSum(n, $k)
  inv (s float64) s == RouteSum(n, $k)
  ensures [sum] ok ==> sums(n) && rewound(n) && len(n.routes) == 0
  ensures [absent] !ok ==> n.distance == old(n.distance) && len(n.routes) == 0 && n.routes == old(n.routes)
  ensures [decides] ok <==> old(len(n.routes)) > 0

contract (*navigator.Navigator).Reset (n)
  requires okRoutes(n)
  modifies n.*
  inv (i int) n.distance == RouteSum(n, i)
  inv n.distance == RouteSum(n, $k)
  inv (s float64) s == RouteSum(n, $k)
  inv (i int) 0 <= i && i <= len(n.routes)
  ensures [sum] sums(n) && rewound(n)
  ensures [kept] n.routes == old(n.routes)

contract (*navigator.Navigator).RemoveTrack (n, rid, tid) (ok)
  requires okRoutes(n) && owned(n)
  noframe
  inv (i int) n.distance == RouteSum(n, i)
  inv n.distance == RouteSum(n, $k)
  inv (s float64) s == RouteSum(n, $k)
  inv (i int) 0 <= i && i <= len(n.routes)
  ensures [sum] ok ==> sums(n) && rewound(n)
  ensures [absent] !ok ==> n.distance == old(n.distance) && n.routes == old(n.routes)
  ensures [route] forall i int :: {n.routes[i]} 0 <= i && i < len(n.routes) && n.routes[i].tracks != old(n.routes[i].tracks) ==> n.routes[i].dist == TrackSum(n.routes[i], len(n.routes[i].tracks))
  ensures [kept] n.routes == old(n.routes)

contract (*navigator.Navigator).Distance (n) (d)
  requires n != nil
  modifies nothing
  ensures [exact] d == n.distance
contract (*navigator.Route).Distance (n) (d)
  requires n != nil
  modifies nothing
  ensures [exact] d == n.dist

package gpsgen

def okDev(d *Device) bool = d != nil && d.navigator != nil && d.state != nil && d.state.Routes != nil && d.speed != nil && okRoutes(d.navigator)

helper (*gpsgen.Device).updateRoutes (d)
  requires okDev(d)
  modifies d.state.Routes.Routes, d.avgT, d.ns, all(navigator.Route.props), all(navigator.Track.props), allelems(*proto.Device_Routes_Route_Track)
  ensures okDev(d)

contract (*gpsgen.Device).AddRoute (d, rs) (err)
  requires okDev(d) && apart(d.navigator, rs)
  requires forall i int :: 0 <= i && i < len(rs) && rs[i] != nil ==> okRoute(rs[i])
  noframe
  ensures [sum] len(d.navigator.routes) != old(len(d.navigator.routes)) ==> sums(d.navigator) && rewound(d.navigator)
  ensures [same] d.navigator == old(d.navigator)

contract (*gpsgen.Device).RemoveRoute (d, id) (ok)
  requires okDev(d)
  noframe
  ensures [sum] ok ==> sums(d.navigator) && rewound(d.navigator)
  ensures [same] d.navigator == old(d.navigator)

contract (*gpsgen.Device).RemoveTrack (d, rid, tid) (ok)
  requires okDev(d) && owned(d.navigator)
  noframe
  ensures [sum] ok ==> sums(d.navigator) && rewound(d.navigator)
  ensures [same] d.navigator == old(d.navigator)

contract (*gpsgen.Device).ResetRoutes (d) (ok)
  requires okDev(d)
  noframe
  ensures [sum] ok ==> sums(d.navigator) && rewound(d.navigator)
  ensures [same] d.navigator == old(d.navigator)

contract (*gpsgen.Device).ResetNavigator (d)
  requires okDev(d)
  noframe
  ensures [sum] sums(d.navigator) && rewound(d.navigator)
  ensures [same] d.navigator == old(d.navigator)
