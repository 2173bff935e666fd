// Shared definitions for the navigator.
package navigator

// Structure every navigator has: no nil routes, no nil tracks.
def okRoute(r *Route) bool = r != nil && (forall j int :: 0 <= j && j < len(r.tracks) ==> r.tracks[j] != nil)
def okRoutes(n *Navigator) bool = n != nil && (forall i int :: 0 <= i && i < len(n.routes) ==> n.routes[i] != nil && okRoute(n.routes[i]))
// A place that exists: route ri, track ti, segment si (or index zero where there is nothing to index).
def okPlace(n *Navigator, ri int, ti int, si int) bool =
  0 <= ri && 0 <= ti && 0 <= si &&
  (ri == 0 || ri < len(n.routes)) &&
  (ti == 0 || ri < len(n.routes) && ti < len(n.routes[ri].tracks)) &&
  (si == 0 || ri < len(n.routes) && ti < len(n.routes[ri].tracks) && si < len(n.routes[ri].tracks[ti].segments))
def okNav(n *Navigator) bool = okRoutes(n) && okPlace(n, n.routeIndex, n.trackIndex, n.segmentIndex)
