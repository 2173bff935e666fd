option floatReal
option terminates
include "nav.inc"
include "step.inc"
package navigator

// The travelled part of a segment never exceeds its length, whatever call is made (jumps: C10).
def validDists(n *Navigator) bool = forall i int, j int, k int :: 0 <= i && i < len(n.routes) && 0 <= j && j < len(n.routes[i].tracks) && 0 <= k && k < len(n.routes[i].tracks[j].segments) ==> n.routes[i].tracks[j].segments[k].dist >= 0.0
def inSeg(n *Navigator) bool = hasTrack(n) && n.segmentIndex < nseg(n) ? n.currentSegmentDistance <= track(n).segments[n.segmentIndex].dist : n.currentSegmentDistance == 0.0

contract (*navigator.Navigator).NextLocation (n, tick, speed) (ok)
  requires okStep(n)
  modifies n.point, n.routeIndex, n.trackIndex, n.segmentIndex, n.offlineIndex, n.currentSegmentDistance, n.currentTrackDistance, n.currentRouteDistance, n.currentDistance
  dec nseg(n) - n.segmentIndex
  inv n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) && n.segmentIndex >= old(n.segmentIndex)
  inv n.segmentIndex == old(n.segmentIndex) || n.segmentIndex < nseg(n)
  inv sameCounters(n) && n.point == old(n.point) && n.offlineIndex == old(n.offlineIndex)
  inv n.currentSegmentDistance == (n.segmentIndex == old(n.segmentIndex) ? old(n.currentSegmentDistance) : 0.0)
  inv tooShort(n, old(n.segmentIndex), n.segmentIndex, old(n.currentSegmentDistance), tick * speed)
  ensures [empty] len(n.routes) == 0 ==> !ok && sameCounters(n) && n.point == old(n.point) && n.offlineIndex == old(n.offlineIndex) && n.currentSegmentDistance == old(n.currentSegmentDistance)
  ensures [offline] len(n.routes) > 0 && !old(online(n)) ==> !ok && n.offlineIndex == old(n.offlineIndex) - 1 && sameCounters(n) && n.currentSegmentDistance == old(n.currentSegmentDistance) && n.point == old(n.point) && n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) && n.segmentIndex == old(n.segmentIndex)
  ensures [decides] old(online(n)) && old(fits(n, n.segmentIndex, n.currentSegmentDistance, tick * speed)) ==> ok && n.segmentIndex == old(n.segmentIndex)
  ensures [counters] ok ==> n.currentDistance == old(n.currentDistance) + tick * speed && n.currentRouteDistance == old(n.currentRouteDistance) + tick * speed && n.currentTrackDistance == old(n.currentTrackDistance) + tick * speed
  ensures [segment] ok ==> n.currentSegmentDistance == (n.segmentIndex == old(n.segmentIndex) ? old(n.currentSegmentDistance) : 0.0) + tick * speed
  ensures [place] ok ==> n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) && old(n.segmentIndex) <= n.segmentIndex && n.segmentIndex < nseg(n) && n.offlineIndex == old(n.offlineIndex)
  ensures [within] ok ==> n.currentSegmentDistance <= track(n).segments[n.segmentIndex].dist && track(n).segments[n.segmentIndex].dist != 0.0
  ensures [skips] ok ==> tooShort(n, old(n.segmentIndex), n.segmentIndex, old(n.currentSegmentDistance), tick * speed)
  ensures [point] ok && !(n.segmentIndex == 0 && old(n.segmentIndex) == 0 && old(n.currentSegmentDistance) == 0.0) ==>
    n.point.Lat == res(0, geo.Destination(track(n).segments[n.segmentIndex].pointA.Lat, track(n).segments[n.segmentIndex].pointA.Lon, n.currentSegmentDistance, track(n).segments[n.segmentIndex].bearing)) &&
    n.point.Lon == res(1, geo.Destination(track(n).segments[n.segmentIndex].pointA.Lat, track(n).segments[n.segmentIndex].pointA.Lon, n.currentSegmentDistance, track(n).segments[n.segmentIndex].bearing))
  ensures [start] ok && n.segmentIndex == 0 && old(n.segmentIndex) == 0 && old(n.currentSegmentDistance) == 0.0 ==>
    n.point.Lat == res(0, geo.Destination(track(n).segments[0].pointA.Lat, track(n).segments[0].pointA.Lon, 1.0, track(n).segments[0].bearing)) &&
    n.point.Lon == res(1, geo.Destination(track(n).segments[0].pointA.Lat, track(n).segments[0].pointA.Lon, 1.0, track(n).segments[0].bearing))
  ensures [inside] old(validDists(n) && inSeg(n)) ==> inSeg(n)
  ensures [stopped] !ok ==> n.point == old(n.point)
  // a step that fits nowhere: the next segment when the segments are not chained, else the next track, the next route or the very beginning
  ensures [leaves] !ok && len(n.routes) > 0 && old(online(n)) ==> wentOffline(n) && n.currentSegmentDistance == 0.0
  ensures [nextSegment] !ok && len(n.routes) > 0 && old(online(n)) && n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) && n.segmentIndex > 0 ==>
    sameCounters(n) && n.segmentIndex > old(n.segmentIndex) && n.segmentIndex < nseg(n) && tooShort(n, old(n.segmentIndex), n.segmentIndex, old(n.currentSegmentDistance), tick * speed)
  ensures [chained] old(online(n)) && old(nseg(n)) > 0 && (forall k int :: 0 <= k && k < old(nseg(n)) - 1 ==> old(track(n)).segments[k].rel != -1) ==>
    ok || old(forall k int :: n.segmentIndex <= k && k < nseg(n) ==> !fits(n, k, k == n.segmentIndex ? n.currentSegmentDistance : 0.0, tick * speed)) && n.segmentIndex == 0
  ensures [nextPart] !ok && len(n.routes) > 0 && old(online(n)) && n.segmentIndex == 0 ==>
    n.currentTrackDistance == 0.0 &&
    (old(n.trackIndex) < len(n.routes[old(n.routeIndex)].tracks) - 1
      ? n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) + 1 && n.currentRouteDistance == old(n.currentRouteDistance) && n.currentDistance == old(n.currentDistance)
      : n.trackIndex == 0 && n.currentRouteDistance == 0.0 && (old(n.routeIndex) < len(n.routes) - 1
          ? n.routeIndex == old(n.routeIndex) + 1 && n.currentDistance == old(n.currentDistance)
          : n.routeIndex == 0))

contract (*navigator.Navigator).MoveToSegment (n, r, t, s) (ok)
  requires okNav(n) && validDists(n) && inSeg(n)
  modifies n.*
  ensures [within] inSeg(n)

contract (*navigator.Navigator).ToOffline (n)
  requires okStep(n)
  modifies n.offlineIndex
  ensures [offline] wentOffline(n)

contract (*navigator.Navigator).IsOffline (n) (ok)
  requires n != nil
  modifies nothing
  ensures [exact] ok <==> n.offlineIndex > 0

contract (*navigator.Navigator).OfflineDuration (n) (d)
  requires n != nil
  modifies nothing
  ensures [exact] d == n.offlineIndex

contract (*navigator.Navigator).CurrentDistance (n) (d)
  requires n != nil
  modifies nothing
  ensures [exact] d == n.currentDistance
contract (*navigator.Navigator).CurrentRouteDistance (n) (d)
  requires n != nil
  modifies nothing
  ensures [exact] d == n.currentRouteDistance
contract (*navigator.Navigator).CurrentTrackDistance (n) (d)
  requires n != nil
  modifies nothing
  ensures [exact] d == n.currentTrackDistance
contract (*navigator.Navigator).CurrentSegmentDistance (n) (d)
  requires n != nil
  modifies nothing
  ensures [exact] d == n.currentSegmentDistance
contract (*navigator.Navigator).Location (n) (p)
  requires n != nil
  modifies nothing
  ensures [exact] p == n.point
