option floatReal
option terminates
include "nav.inc"
include "step.inc"
package navigator

// A completed pass that has not been acknowledged.
def begin(n *Navigator) bool = n.routeIndex == 0 && n.trackIndex == 0 && n.segmentIndex == 0
def pending(n *Navigator) bool = begin(n) && n.currentRouteDistance == 0.0 && n.currentDistance == 0.1000000000000000055511151231257827021181583404541015625
def lastTrack(n *Navigator, r int, t int) bool = t >= len(n.routes[r].tracks) - 1
def lastRoute(n *Navigator, r int) bool = r >= len(n.routes) - 1
def placed(n *Navigator, r int, t int, s int) bool = n.routeIndex == r && n.trackIndex == t && n.segmentIndex == s
def stays(n *Navigator) bool = placed(n, old(n.routeIndex), old(n.trackIndex), old(n.segmentIndex))
def sameTrack(n *Navigator) bool = n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex)
// The step runs past the last segment of the current track.
def exhausted(n *Navigator, d float64) bool = forall k int :: n.segmentIndex <= k && k < nseg(n) ==> !fits(n, k, k == n.segmentIndex ? n.currentSegmentDistance : 0.0, d)
def nonNeg(n *Navigator) bool = n.currentDistance >= 0.0 && n.currentRouteDistance >= 0.0 && n.currentTrackDistance >= 0.0 && n.currentSegmentDistance >= 0.0

contract (*navigator.Navigator).NextLocation (n, tick, speed) (ok)
  requires okStep(n)
  modifies n.point, n.routeIndex, n.trackIndex, n.segmentIndex, n.offlineIndex, n.currentSegmentDistance, n.currentTrackDistance, n.currentRouteDistance, n.currentDistance
  dec nseg(n) - n.segmentIndex
  inv sameTrack(n) && n.segmentIndex >= old(n.segmentIndex)
  inv n.segmentIndex == old(n.segmentIndex) || n.segmentIndex < nseg(n)
  inv sameCounters(n) && n.offlineIndex == old(n.offlineIndex)
  inv n.currentSegmentDistance == (n.segmentIndex == old(n.segmentIndex) ? old(n.currentSegmentDistance) : 0.0)
  inv tooShort(n, old(n.segmentIndex), n.segmentIndex, old(n.currentSegmentDistance), tick * speed)
  // where a step can lead
  ensures [order] len(n.routes) > 0 && old(online(n)) ==>
    sameTrack(n) && n.segmentIndex >= old(n.segmentIndex) && (n.segmentIndex == old(n.segmentIndex) || n.segmentIndex < nseg(n))
    || placed(n, old(n.routeIndex), old(n.trackIndex) + 1, 0) && !lastTrack(n, old(n.routeIndex), old(n.trackIndex))
    || placed(n, old(n.routeIndex) + 1, 0, 0) && lastTrack(n, old(n.routeIndex), old(n.trackIndex)) && !lastRoute(n, old(n.routeIndex))
    || begin(n) && lastTrack(n, old(n.routeIndex), old(n.trackIndex)) && lastRoute(n, old(n.routeIndex))
  ensures [offline] len(n.routes) == 0 || !old(online(n)) ==> stays(n) && sameCounters(n) && n.currentSegmentDistance == old(n.currentSegmentDistance)
  // a segment is left exactly when the step does not fit on it
  ensures [stays] old(online(n)) && old(fits(n, n.segmentIndex, n.currentSegmentDistance, tick * speed)) ==> ok && stays(n)
  ensures [noSkip] sameTrack(n) && n.segmentIndex > old(n.segmentIndex) ==> tooShort(n, old(n.segmentIndex), n.segmentIndex, old(n.currentSegmentDistance), tick * speed)
  ensures [leavesOne] len(n.routes) > 0 && old(online(n)) && old(exhausted(n, tick * speed)) && (forall k int :: 0 <= k && k < old(nseg(n)) - 1 ==> old(track(n)).segments[k].rel != -1) ==>
    !ok && n.segmentIndex == 0 && n.currentSegmentDistance == 0.0 && n.currentTrackDistance == 0.0 &&
    (!lastTrack(n, old(n.routeIndex), old(n.trackIndex)) ? placed(n, old(n.routeIndex), old(n.trackIndex) + 1, 0)
     : !lastRoute(n, old(n.routeIndex)) ? placed(n, old(n.routeIndex) + 1, 0, 0) : begin(n))
  ensures [leavesTrack] n.routeIndex != old(n.routeIndex) || n.trackIndex != old(n.trackIndex) ==> !ok && old(exhausted(n, tick * speed))
  // what is reset when a part is left
  ensures [resetSegment] !stays(n) ==> n.currentSegmentDistance == (ok ? tick * speed : 0.0)
  ensures [resetTrack] n.routeIndex != old(n.routeIndex) || n.trackIndex != old(n.trackIndex) ==> n.currentTrackDistance == 0.0
  ensures [keepTrack] !ok && sameTrack(n) && n.segmentIndex > old(n.segmentIndex) ==> sameCounters(n)
  ensures [resetRoute] n.routeIndex != old(n.routeIndex) ==> n.currentRouteDistance == 0.0
  ensures [keepRoute] !ok && n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) + 1 ==> n.currentRouteDistance == old(n.currentRouteDistance) && n.currentDistance == old(n.currentDistance)
  ensures [keepTotal] n.routeIndex == old(n.routeIndex) + 1 ==> n.currentDistance == old(n.currentDistance)
  // finishing
  ensures [finish] len(n.routes) > 0 && old(online(n)) && old(exhausted(n, tick * speed)) && old(nseg(n) <= 1) && lastTrack(n, old(n.routeIndex), old(n.trackIndex)) && lastRoute(n, old(n.routeIndex)) ==> pending(n)
  ensures [finishes] begin(n) && (old(n.routeIndex) != 0 || old(n.trackIndex) != 0 || old(n.segmentIndex) != 0) ==> pending(n) && !ok
  ensures [onlyFinish] pending(n) && !old(pending(n)) && old(nonNeg(n)) && tick >= 0.0 && speed >= 0.0 ==>
    !ok && old(exhausted(n, tick * speed)) && lastTrack(n, old(n.routeIndex), old(n.trackIndex)) && lastRoute(n, old(n.routeIndex))
  ensures [nonNegative] old(nonNeg(n)) && tick >= 0.0 && speed >= 0.0 ==> nonNeg(n)

contract (*navigator.Navigator).IsFinish (n) (ok)
  requires n != nil
  modifies n.currentDistance
  ensures [decides] ok <==> old(pending(n))
  ensures [acknowledged] ok ==> n.currentDistance == 0.0 && !pending(n)
  ensures [unchanged] !ok ==> n.currentDistance == old(n.currentDistance)

contract (*navigator.Navigator).Reset (n)
  requires okRoutes(n)
  modifies n.*
  ensures [begin] begin(n) && !pending(n) && n.currentDistance == 0.0

contract (*navigator.Navigator).ToOffline (n)
  requires okStep(n)
  modifies n.offlineIndex

package gpsgen
contract (*gpsgen.Device).IsFinish (d) (ok)
  requires d != nil && d.navigator != nil
  modifies d.navigator.currentDistance
  ensures [decides] ok <==> old(pending(d.navigator))
  ensures [acknowledged] ok ==> d.navigator.currentDistance == 0.0
  ensures [unchanged] !ok ==> d.navigator.currentDistance == old(d.navigator.currentDistance)
