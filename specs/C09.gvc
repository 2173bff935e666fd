include "nav.inc"
package navigator

def place3(n *Navigator, r int, t int, s int) bool =
  0 <= r && r < len(n.routes) && 0 <= t && t < len(n.routes[r].tracks) && 0 <= s && s < len(n.routes[r].tracks[t].segments)
def firstRoute(n *Navigator, id string, r int) bool =
  0 <= r && r < len(n.routes) && n.routes[r].id == id && (forall i int :: 0 <= i && i < r ==> n.routes[i].id != id)
def firstTrack(q *Route, id string, t int) bool =
  0 <= t && t < len(q.tracks) && q.tracks[t].id == id && (forall i int :: 0 <= i && i < t ==> q.tracks[i].id != id)

contract (*navigator.Navigator).MoveToSegment (n, r, t, s) (ok)
  requires okNav(n)
  modifies n.point, n.routeIndex, n.trackIndex, n.segmentIndex, n.offlineIndex, n.currentSegmentDistance, n.currentTrackDistance, n.currentRouteDistance
  ensures [decides] ok <==> place3(n, r, t, s) && !(old(n.routeIndex) == r && old(n.trackIndex) == t && old(n.segmentIndex) == s)
  ensures [place] ok ==> n.routeIndex == r && n.trackIndex == t && n.segmentIndex == s && n.offlineIndex == 0 && n.point == n.routes[r].tracks[t].segments[s].pointA
  ensures [segdist] ok ==> n.currentSegmentDistance == 0
  ensures [trackdist] ok ==> n.currentTrackDistance == (old(n.routeIndex) == r && old(n.trackIndex) == t ? old(n.currentTrackDistance) : 0)
  ensures [routedist] ok ==> n.currentRouteDistance == (old(n.routeIndex) == r ? old(n.currentRouteDistance) : 0)
  ensures [unchanged] !ok ==> n.point == old(n.point) && n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) && n.segmentIndex == old(n.segmentIndex) && n.offlineIndex == old(n.offlineIndex) && n.currentSegmentDistance == old(n.currentSegmentDistance) && n.currentTrackDistance == old(n.currentTrackDistance) && n.currentRouteDistance == old(n.currentRouteDistance)

contract (*navigator.Navigator).MoveToTrack (n, r, t) (ok)
  requires okNav(n)
  modifies n.point, n.routeIndex, n.trackIndex, n.segmentIndex, n.offlineIndex, n.currentSegmentDistance, n.currentTrackDistance, n.currentRouteDistance
  ensures [decides] ok <==> place3(n, r, t, 0) && !(old(n.routeIndex) == r && old(n.trackIndex) == t && old(n.segmentIndex) == 0)
  ensures [place] ok ==> n.routeIndex == r && n.trackIndex == t && n.segmentIndex == 0 && n.offlineIndex == 0 && n.point == n.routes[r].tracks[t].segments[0].pointA
  ensures [counters] ok ==> n.currentSegmentDistance == 0 && n.currentTrackDistance == (old(n.routeIndex) == r && old(n.trackIndex) == t ? old(n.currentTrackDistance) : 0) && n.currentRouteDistance == (old(n.routeIndex) == r ? old(n.currentRouteDistance) : 0)
  ensures [unchanged] !ok ==> n.point == old(n.point) && n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) && n.segmentIndex == old(n.segmentIndex) && n.offlineIndex == old(n.offlineIndex) && n.currentSegmentDistance == old(n.currentSegmentDistance) && n.currentTrackDistance == old(n.currentTrackDistance) && n.currentRouteDistance == old(n.currentRouteDistance)

contract (*navigator.Navigator).MoveToRoute (n, r) (ok)
  requires okNav(n)
  modifies n.point, n.routeIndex, n.trackIndex, n.segmentIndex, n.offlineIndex, n.currentSegmentDistance, n.currentTrackDistance, n.currentRouteDistance
  ensures [decides] ok <==> place3(n, r, 0, 0) && !(old(n.routeIndex) == r && old(n.trackIndex) == 0 && old(n.segmentIndex) == 0)
  ensures [place] ok ==> n.routeIndex == r && n.trackIndex == 0 && n.segmentIndex == 0 && n.offlineIndex == 0 && n.point == n.routes[r].tracks[0].segments[0].pointA
  ensures [counters] ok ==> n.currentSegmentDistance == 0 && n.currentTrackDistance == (old(n.routeIndex) == r && old(n.trackIndex) == 0 ? old(n.currentTrackDistance) : 0) && n.currentRouteDistance == (old(n.routeIndex) == r ? old(n.currentRouteDistance) : 0)
  ensures [unchanged] !ok ==> n.point == old(n.point) && n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) && n.segmentIndex == old(n.segmentIndex) && n.offlineIndex == old(n.offlineIndex) && n.currentSegmentDistance == old(n.currentSegmentDistance) && n.currentTrackDistance == old(n.currentTrackDistance) && n.currentRouteDistance == old(n.currentRouteDistance)

contract (*navigator.Navigator).NextRoute (n) (ok)
  requires okNav(n)
  modifies n.point, n.routeIndex, n.trackIndex, n.segmentIndex, n.offlineIndex, n.currentSegmentDistance, n.currentTrackDistance, n.currentRouteDistance
  ensures [decides] ok <==> place3(n, old(n.routeIndex) + 1, 0, 0)
  ensures [place] ok ==> n.routeIndex == old(n.routeIndex) + 1 && n.trackIndex == 0 && n.segmentIndex == 0 && n.offlineIndex == 0 && n.point == n.routes[n.routeIndex].tracks[0].segments[0].pointA
  ensures [counters] ok ==> n.currentSegmentDistance == 0 && n.currentTrackDistance == 0 && n.currentRouteDistance == 0
  ensures [unchanged] !ok ==> n.point == old(n.point) && n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) && n.segmentIndex == old(n.segmentIndex) && n.offlineIndex == old(n.offlineIndex) && n.currentSegmentDistance == old(n.currentSegmentDistance) && n.currentTrackDistance == old(n.currentTrackDistance) && n.currentRouteDistance == old(n.currentRouteDistance)

contract (*navigator.Navigator).PrevRoute (n) (ok)
  requires okNav(n)
  modifies n.point, n.routeIndex, n.trackIndex, n.segmentIndex, n.offlineIndex, n.currentSegmentDistance, n.currentTrackDistance, n.currentRouteDistance
  ensures [decides] ok <==> place3(n, old(n.routeIndex) - 1, 0, 0)
  ensures [place] ok ==> n.routeIndex == old(n.routeIndex) - 1 && n.trackIndex == 0 && n.segmentIndex == 0 && n.offlineIndex == 0 && n.point == n.routes[n.routeIndex].tracks[0].segments[0].pointA
  ensures [counters] ok ==> n.currentSegmentDistance == 0 && n.currentTrackDistance == 0 && n.currentRouteDistance == 0
  ensures [unchanged] !ok ==> n.point == old(n.point) && n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) && n.segmentIndex == old(n.segmentIndex) && n.offlineIndex == old(n.offlineIndex) && n.currentSegmentDistance == old(n.currentSegmentDistance) && n.currentTrackDistance == old(n.currentTrackDistance) && n.currentRouteDistance == old(n.currentRouteDistance)

contract (*navigator.Navigator).MoveToRouteByID (n, id) (ok)
  requires okNav(n)
  modifies n.point, n.routeIndex, n.trackIndex, n.segmentIndex, n.offlineIndex, n.currentSegmentDistance, n.currentTrackDistance, n.currentRouteDistance
  inv (i int) (forall k int :: 0 <= k && k < i ==> n.routes[k].id != id)
  ensures [right] ok ==> firstRoute(n, id, n.routeIndex)
  ensures [complete] id != "" ==> (forall r int :: firstRoute(n, id, r) && place3(n, r, 0, 0) && !(old(n.routeIndex) == r && old(n.trackIndex) == 0 && old(n.segmentIndex) == 0) ==> ok)
  ensures [moved] ok ==> !(old(n.routeIndex) == n.routeIndex && old(n.trackIndex) == 0 && old(n.segmentIndex) == 0)
  ensures [place] ok ==> place3(n, n.routeIndex, 0, 0) && n.trackIndex == 0 && n.segmentIndex == 0 && n.offlineIndex == 0 && n.point == n.routes[n.routeIndex].tracks[0].segments[0].pointA
  ensures [counters] ok ==> n.currentSegmentDistance == 0 && n.currentTrackDistance == (old(n.routeIndex) == n.routeIndex && old(n.trackIndex) == 0 ? old(n.currentTrackDistance) : 0) && n.currentRouteDistance == (old(n.routeIndex) == n.routeIndex ? old(n.currentRouteDistance) : 0)
  ensures [unchanged] !ok ==> n.point == old(n.point) && n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) && n.segmentIndex == old(n.segmentIndex) && n.offlineIndex == old(n.offlineIndex) && n.currentSegmentDistance == old(n.currentSegmentDistance) && n.currentTrackDistance == old(n.currentTrackDistance) && n.currentRouteDistance == old(n.currentRouteDistance)

contract (*navigator.Navigator).MoveToTrackByID (n, id, tid) (ok)
  requires okNav(n)
  modifies n.point, n.routeIndex, n.trackIndex, n.segmentIndex, n.offlineIndex, n.currentSegmentDistance, n.currentTrackDistance, n.currentRouteDistance
  inv (i int) (forall k int :: 0 <= k && k < i ==> n.routes[k].id != id)
  inv (i int, q *Route) (forall k int :: 0 <= k && k < i ==> q.tracks[k].id != tid)
  ensures [right] ok ==> firstRoute(n, id, n.routeIndex) && firstTrack(n.routes[n.routeIndex], tid, n.trackIndex)
  ensures [complete] id != "" && tid != "" ==> (forall r int, t int :: firstRoute(n, id, r) && firstTrack(n.routes[r], tid, t) && place3(n, r, t, 0) && !(old(n.routeIndex) == r && old(n.trackIndex) == t && old(n.segmentIndex) == 0) ==> ok)
  ensures [moved] ok ==> !(old(n.routeIndex) == n.routeIndex && old(n.trackIndex) == n.trackIndex && old(n.segmentIndex) == 0)
  ensures [place] ok ==> place3(n, n.routeIndex, n.trackIndex, 0) && n.segmentIndex == 0 && n.offlineIndex == 0 && n.point == n.routes[n.routeIndex].tracks[n.trackIndex].segments[0].pointA
  ensures [counters] ok ==> n.currentSegmentDistance == 0 && n.currentTrackDistance == (old(n.routeIndex) == n.routeIndex && old(n.trackIndex) == n.trackIndex ? old(n.currentTrackDistance) : 0) && n.currentRouteDistance == (old(n.routeIndex) == n.routeIndex ? old(n.currentRouteDistance) : 0)
  ensures [unchanged] !ok ==> n.point == old(n.point) && n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) && n.segmentIndex == old(n.segmentIndex) && n.offlineIndex == old(n.offlineIndex) && n.currentSegmentDistance == old(n.currentSegmentDistance) && n.currentTrackDistance == old(n.currentTrackDistance) && n.currentRouteDistance == old(n.currentRouteDistance)

// The device passes moves through to its navigator unchanged.
package gpsgen
def navAt(d *Device, r int, t int, s int) bool = d.navigator.routeIndex == r && d.navigator.trackIndex == t && d.navigator.segmentIndex == s
def navSame(d *Device) bool = d.navigator.point == old(d.navigator.point) && navAt(d, old(d.navigator.routeIndex), old(d.navigator.trackIndex), old(d.navigator.segmentIndex)) && d.navigator.offlineIndex == old(d.navigator.offlineIndex) && d.navigator.currentSegmentDistance == old(d.navigator.currentSegmentDistance) && d.navigator.currentTrackDistance == old(d.navigator.currentTrackDistance) && d.navigator.currentRouteDistance == old(d.navigator.currentRouteDistance)

contract (*gpsgen.Device).MoveToSegment (d, r, t, s) (ok)
  requires d != nil && okNav(d.navigator)
  modifies d.navigator.point, d.navigator.routeIndex, d.navigator.trackIndex, d.navigator.segmentIndex, d.navigator.offlineIndex, d.navigator.currentSegmentDistance, d.navigator.currentTrackDistance, d.navigator.currentRouteDistance
  ensures [decides] ok <==> place3(d.navigator, r, t, s) && !old(navAt(d, r, t, s))
  ensures [place] ok ==> navAt(d, r, t, s) && d.navigator.offlineIndex == 0 && d.navigator.point == d.navigator.routes[d.navigator.routeIndex].tracks[d.navigator.trackIndex].segments[d.navigator.segmentIndex].pointA && d.navigator.currentSegmentDistance == 0
  ensures [unchanged] !ok ==> navSame(d)

contract (*gpsgen.Device).MoveToTrack (d, r, t) (ok)
  requires d != nil && okNav(d.navigator)
  modifies d.navigator.point, d.navigator.routeIndex, d.navigator.trackIndex, d.navigator.segmentIndex, d.navigator.offlineIndex, d.navigator.currentSegmentDistance, d.navigator.currentTrackDistance, d.navigator.currentRouteDistance
  ensures [decides] ok <==> place3(d.navigator, r, t, 0) && !old(navAt(d, r, t, 0))
  ensures [place] ok ==> navAt(d, r, t, 0) && d.navigator.offlineIndex == 0 && d.navigator.point == d.navigator.routes[d.navigator.routeIndex].tracks[d.navigator.trackIndex].segments[d.navigator.segmentIndex].pointA && d.navigator.currentSegmentDistance == 0
  ensures [unchanged] !ok ==> navSame(d)

contract (*gpsgen.Device).MoveToRoute (d, r) (ok)
  requires d != nil && okNav(d.navigator)
  modifies d.navigator.point, d.navigator.routeIndex, d.navigator.trackIndex, d.navigator.segmentIndex, d.navigator.offlineIndex, d.navigator.currentSegmentDistance, d.navigator.currentTrackDistance, d.navigator.currentRouteDistance
  ensures [decides] ok <==> place3(d.navigator, r, 0, 0) && !old(navAt(d, r, 0, 0))
  ensures [place] ok ==> navAt(d, r, 0, 0) && d.navigator.offlineIndex == 0 && d.navigator.point == d.navigator.routes[d.navigator.routeIndex].tracks[d.navigator.trackIndex].segments[d.navigator.segmentIndex].pointA && d.navigator.currentSegmentDistance == 0
  ensures [unchanged] !ok ==> navSame(d)

contract (*gpsgen.Device).ToNextRoute (d) (ok)
  requires d != nil && okNav(d.navigator)
  modifies d.navigator.point, d.navigator.routeIndex, d.navigator.trackIndex, d.navigator.segmentIndex, d.navigator.offlineIndex, d.navigator.currentSegmentDistance, d.navigator.currentTrackDistance, d.navigator.currentRouteDistance
  ensures [decides] ok <==> place3(d.navigator, old(d.navigator.routeIndex) + 1, 0, 0)
  ensures [place] ok ==> navAt(d, old(d.navigator.routeIndex) + 1, 0, 0) && d.navigator.offlineIndex == 0 && d.navigator.point == d.navigator.routes[d.navigator.routeIndex].tracks[d.navigator.trackIndex].segments[d.navigator.segmentIndex].pointA && d.navigator.currentSegmentDistance == 0
  ensures [unchanged] !ok ==> navSame(d)

contract (*gpsgen.Device).ToPrevRoute (d) (ok)
  requires d != nil && okNav(d.navigator)
  modifies d.navigator.point, d.navigator.routeIndex, d.navigator.trackIndex, d.navigator.segmentIndex, d.navigator.offlineIndex, d.navigator.currentSegmentDistance, d.navigator.currentTrackDistance, d.navigator.currentRouteDistance
  ensures [decides] ok <==> place3(d.navigator, old(d.navigator.routeIndex) - 1, 0, 0)
  ensures [place] ok ==> navAt(d, old(d.navigator.routeIndex) - 1, 0, 0) && d.navigator.offlineIndex == 0 && d.navigator.point == d.navigator.routes[d.navigator.routeIndex].tracks[d.navigator.trackIndex].segments[d.navigator.segmentIndex].pointA && d.navigator.currentSegmentDistance == 0
  ensures [unchanged] !ok ==> navSame(d)

contract (*gpsgen.Device).MoveToRouteByID (d, id) (ok)
  requires d != nil && okNav(d.navigator)
  modifies d.navigator.point, d.navigator.routeIndex, d.navigator.trackIndex, d.navigator.segmentIndex, d.navigator.offlineIndex, d.navigator.currentSegmentDistance, d.navigator.currentTrackDistance, d.navigator.currentRouteDistance
  ensures [right] ok ==> firstRoute(d.navigator, id, d.navigator.routeIndex)
  ensures [complete] id != "" ==> (forall r int :: firstRoute(d.navigator, id, r) && place3(d.navigator, r, 0, 0) && !old(navAt(d, r, 0, 0)) ==> ok)
  ensures [place] ok ==> navAt(d, d.navigator.routeIndex, 0, 0) && d.navigator.offlineIndex == 0 && d.navigator.point == d.navigator.routes[d.navigator.routeIndex].tracks[d.navigator.trackIndex].segments[d.navigator.segmentIndex].pointA && d.navigator.currentSegmentDistance == 0
  ensures [unchanged] !ok ==> navSame(d)

contract (*gpsgen.Device).MoveToTrackByID (d, id, tid) (ok)
  requires d != nil && okNav(d.navigator)
  modifies d.navigator.point, d.navigator.routeIndex, d.navigator.trackIndex, d.navigator.segmentIndex, d.navigator.offlineIndex, d.navigator.currentSegmentDistance, d.navigator.currentTrackDistance, d.navigator.currentRouteDistance
  ensures [right] ok ==> firstRoute(d.navigator, id, d.navigator.routeIndex) && firstTrack(d.navigator.routes[d.navigator.routeIndex], tid, d.navigator.trackIndex)
  ensures [complete] id != "" && tid != "" ==> (forall r int, t int :: firstRoute(d.navigator, id, r) && firstTrack(d.navigator.routes[r], tid, t) && place3(d.navigator, r, t, 0) && !old(navAt(d, r, t, 0)) ==> ok)
  ensures [place] ok ==> d.navigator.segmentIndex == 0 && d.navigator.offlineIndex == 0 && d.navigator.point == d.navigator.routes[d.navigator.routeIndex].tracks[d.navigator.trackIndex].segments[d.navigator.segmentIndex].pointA && d.navigator.currentSegmentDistance == 0
  ensures [unchanged] !ok ==> navSame(d)
