// Definitions for location steps.
package geo
helper geo.Destination (lat, lon, m, b) (a, o)
  pure
  modifies nothing

package types
contract (*types.Random).Value (r) (v)
  modifies nothing
  requires r != nil && 0 <= r.min && r.min <= r.max && r.max - r.min < 4294967296
  ensures [range] r.min <= v && v <= r.max

package navigator

def okStep(n *Navigator) bool = okNav(n) && (n.skipOffline || n.offline != nil && 0 <= n.offline.min && n.offline.min <= n.offline.max && n.offline.max <= 3600)
def hasTrack(n *Navigator) bool = 0 <= n.routeIndex && n.routeIndex < len(n.routes) && 0 <= n.trackIndex && n.trackIndex < len(n.routes[n.routeIndex].tracks)
// The track the navigator stands on when the call is made.
def track(n *Navigator) *Track = n.routes[n.routeIndex].tracks[n.trackIndex]
def nseg(n *Navigator) int = hasTrack(n) ? len(track(n).segments) : 0
// A step of d metres from travelled distance c fits on segment k.
def fits(n *Navigator, k int, c float64, d float64) bool =
  hasTrack(n) && 0 <= k && k < nseg(n) && track(n).segments[k].dist != 0.0 && c + d <= track(n).segments[k].dist
def online(n *Navigator) bool = n.skipOffline || n.offlineIndex <= 0
def sameCounters(n *Navigator) bool =
  n.currentDistance == old(n.currentDistance) && n.currentRouteDistance == old(n.currentRouteDistance) && n.currentTrackDistance == old(n.currentTrackDistance)
def wentOffline(n *Navigator) bool =
  n.skipOffline ? n.offlineIndex == old(n.offlineIndex) : n.offline.min <= n.offlineIndex && n.offlineIndex <= n.offline.max
// Segments from..to-1 of the current track are all too short for the step.
def tooShort(n *Navigator, from int, to int, c float64, d float64) bool =
  forall k int :: from <= k && k < to ==> !fits(n, k, k == from ? c : 0.0, d)

