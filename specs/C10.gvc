option floatReal
option terminates
include "nav.inc"
package geo
helper geo.Destination (lat, lon, m, b) (a, o)
  pure
  modifies nothing
package navigator

// Length of the routes, tracks and segments before a place.
sum Routes(n *Navigator, k int; i) float64 = n.routes[i].dist
sum Tracks(r *Route, k int; i) float64 = r.tracks[i].dist
sum Segs(t *Track, k int; i) float64 = t.segments[i].dist

def valid(n *Navigator) bool = okNav(n) && n.distance == Routes(n, len(n.routes)) &&
  (forall i int :: {n.routes[i]} 0 <= i && i < len(n.routes) ==> n.routes[i].dist >= 0.0 && n.routes[i].dist == Tracks(n.routes[i], len(n.routes[i].tracks))) &&
  (forall i int, j int :: {n.routes[i].tracks[j]} 0 <= i && i < len(n.routes) && 0 <= j && j < len(n.routes[i].tracks) ==> n.routes[i].tracks[j].dist >= 0.0 && n.routes[i].tracks[j].dist == Segs(n.routes[i].tracks[j], len(n.routes[i].tracks[j].segments))) &&
  (forall i int, j int, k int :: {n.routes[i].tracks[j].segments[k]} 0 <= i && i < len(n.routes) && 0 <= j && j < len(n.routes[i].tracks) && 0 <= k && k < len(n.routes[i].tracks[j].segments) ==> n.routes[i].tracks[j].segments[k].dist >= 0.0)
def target(n *Navigator, m float64) float64 = m > n.distance ? n.distance : m
def place3(n *Navigator) bool =
  0 <= n.routeIndex && n.routeIndex < len(n.routes) && 0 <= n.trackIndex && n.trackIndex < len(n.routes[n.routeIndex].tracks) && 0 <= n.segmentIndex && n.segmentIndex < len(n.routes[n.routeIndex].tracks[n.trackIndex].segments)
def route(n *Navigator) *Route = n.routes[n.routeIndex]
def track(n *Navigator) *Track = route(n).tracks[n.trackIndex]

contract (*navigator.Navigator).DestinationTo (n, meters) (ok)
  requires valid(n)
  modifies n.point, n.routeIndex, n.trackIndex, n.segmentIndex, n.currentSegmentDistance, n.currentTrackDistance, n.currentRouteDistance, n.currentDistance
  inv (i int, route *Route, routeIndex int, routeDist float64) 0 <= i && i <= len(n.routes) && (route == nil ? Routes(n, i) == 0.0 && routeDist == 0.0 : 0 <= routeIndex && routeIndex < i && route == n.routes[routeIndex] && route.dist != 0.0 && routeDist == Routes(n, routeIndex) && Routes(n, i) == routeDist + route.dist && Routes(n, i) <= target(n, meters))
  inv (i int, track *Track, route *Route, routeIndex int, trackIndex int, routeDist float64, curRouteDist float64) 0 <= i && i <= len(route.tracks) && (track == nil ? Tracks(route, i) == 0.0 && curRouteDist == 0.0 && routeDist == Routes(n, routeIndex) : 0 <= trackIndex && trackIndex < i && track == route.tracks[trackIndex] && track.dist != 0.0 && curRouteDist == Tracks(route, trackIndex) && routeDist == Routes(n, routeIndex) + curRouteDist && Tracks(route, i) == curRouteDist + track.dist && routeDist + track.dist <= target(n, meters))
  inv (i int, segment Segment, track *Track, route *Route, trackIndex int, routeIndex int, segmentIndex int, routeDist float64, curRouteDist float64, curTrackDist float64)
    0 <= i && i <= len(track.segments) && curRouteDist == Tracks(route, trackIndex) + curTrackDist && routeDist == Routes(n, routeIndex) + curRouteDist &&
    (segment.dist == 0.0 ? Segs(track, i) == 0.0 && curTrackDist == 0.0 : 0 <= segmentIndex && segmentIndex < i && segment == track.segments[segmentIndex] && curTrackDist == Segs(track, segmentIndex) && Segs(track, i) == curTrackDist + segment.dist && routeDist + segment.dist <= target(n, meters))
  ensures [decides] ok <==> old(target(n, meters)) >= 1.0
  ensures [total] ok ==> n.currentDistance == old(target(n, meters))
  ensures [place] ok ==> place3(n) && track(n).segments[n.segmentIndex].dist > 0.0
  ensures [route] ok ==> n.currentRouteDistance == n.currentDistance - Routes(n, n.routeIndex)
  ensures [track] ok ==> n.currentTrackDistance == n.currentRouteDistance - Tracks(route(n), n.trackIndex)
  ensures [segment] ok ==> n.currentSegmentDistance == n.currentTrackDistance - Segs(track(n), n.segmentIndex)
  ensures [contains] ok ==> 0.0 <= n.currentSegmentDistance && n.currentSegmentDistance <= track(n).segments[n.segmentIndex].dist
  ensures [point] ok ==>
    n.point.Lat == res(0, geo.Destination(track(n).segments[n.segmentIndex].pointA.Lat, track(n).segments[n.segmentIndex].pointA.Lon, n.currentSegmentDistance, track(n).segments[n.segmentIndex].bearing)) &&
    n.point.Lon == res(1, geo.Destination(track(n).segments[n.segmentIndex].pointA.Lat, track(n).segments[n.segmentIndex].pointA.Lon, n.currentSegmentDistance, track(n).segments[n.segmentIndex].bearing))
  ensures [unchanged] !ok ==> n.point == old(n.point) && n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) && n.segmentIndex == old(n.segmentIndex) && n.currentSegmentDistance == old(n.currentSegmentDistance) && n.currentTrackDistance == old(n.currentTrackDistance) && n.currentRouteDistance == old(n.currentRouteDistance) && n.currentDistance == old(n.currentDistance)
