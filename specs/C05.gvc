include "nav.inc"
include "ext.inc"
option terminates
package navigator

// Everything a navigator needs for its queries and steps.
def wfNav(n *Navigator) bool = okNav(n) && n.elevation != nil && n.elevation.gen != nil && (n.skipOffline || n.offline != nil)

contract (*navigator.Navigator).Location (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).CurrentBearing (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).Sum (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).ResetRoutes (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).Distance (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).CurrentDistance (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).RouteDistance (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).CurrentRouteDistance (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).TrackDistance (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).CurrentTrackDistance (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).SegmentDistance (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).CurrentSegmentDistance (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).IsFinish (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).Routes (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).CurrentRoute (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).CurrentTrack (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).CurrentSegment (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).NumRoutes (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).TrackIndex (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).RouteIndex (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).SegmentIndex (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).Elevation (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).IsOffline (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).OfflineDuration (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).NextRoute (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).PrevRoute (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).ToOffline (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).ShuffleElevation (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).Snapshot (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).Reset (n)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).RouteByID (n, id)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).RemoveRoute (n, id)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).MoveToRouteByID (n, id)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).RemoveTrack (n, id, tid)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).MoveToTrackByID (n, id, tid)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).RouteAt (n, x)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).MoveToRoute (n, x)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).NextElevation (n, x)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).DestinationTo (n, x)
  local
  noframe
  inv (i int, routeIndex int, route *Route) 0 <= i && 0 <= routeIndex && (routeIndex == 0 || routeIndex < len(n.routes)) && (route != nil ==> routeIndex < len(n.routes) && route == n.routes[routeIndex])
  inv (i int, trackIndex int, track *Track, route *Route) 0 <= i && 0 <= trackIndex && (trackIndex == 0 || trackIndex < len(route.tracks)) && (track != nil ==> trackIndex < len(route.tracks) && track == route.tracks[trackIndex])
  inv (i int, segmentIndex int, segment Segment, track *Track) 0 <= i && 0 <= segmentIndex && (segmentIndex == 0 || segmentIndex < len(track.segments)) && (segment.dist != 0 ==> segmentIndex < len(track.segments) && segment == track.segments[segmentIndex])
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).MoveToTrack (n, x, y)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).MoveToSegment (n, x, y, z)
  local
  noframe
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).EachRoute (n, fn)
  local
  noframe
  ghosts
  requires wfNav(n) && fn != nil
  ensures [position] wfNav(n)

contract (*navigator.Navigator).AddRoute (n, routes)
  local
  noframe
  inv okRoutes(n)
  requires wfNav(n) && arr(routes) != arr(n.routes) && (forall i int :: 0 <= i && i < len(routes) && routes[i] != nil ==> okRoute(routes[i]))
  ensures [position] wfNav(n)

contract (*navigator.Navigator).NextLocation (n, tick, speed)
  local
  noframe
  dec len(n.routes[n.routeIndex].tracks[n.trackIndex].segments) - n.segmentIndex
  inv okNav(n)
  requires wfNav(n)
  ensures [position] wfNav(n)

contract (*navigator.Navigator).FromSnapshot (n, snap)
  local
  noframe
  inv (i int) (forall k int :: 0 <= k && k < i ==> okRoute(n.routes[k]))
  requires n != nil
  ensures [position] snap != nil ==> wfNav(n)

contract (*navigator.Navigator).Update (n, state)
  local
  noframe
  requires wfNav(n) && state != nil && (state.Location == nil || state.Location.Utm != nil && state.Location.LatDms != nil && state.Location.LonDms != nil)
  ensures [position] wfNav(n)

// Routes and tracks on their own.
helper (*navigator.Route).RouteFromSnapshot (r, snap) (err)
  requires okRoute(r)
  modifies r.*
  inv (i int, tracks []*Track) (forall k int :: 0 <= k && k < i ==> tracks[k] != nil)
  ensures okRoute(r)

contract (*navigator.Route).ID (r)
  local
  noframe
  requires okRoute(r)
  ensures [intact] okRoute(r)

contract (*navigator.Route).Color (r)
  local
  noframe
  requires okRoute(r)
  ensures [intact] okRoute(r)

contract (*navigator.Route).Distance (r)
  local
  noframe
  requires okRoute(r)
  ensures [intact] okRoute(r)

contract (*navigator.Route).Name (r)
  local
  noframe
  requires okRoute(r)
  ensures [intact] okRoute(r)

contract (*navigator.Route).Props (r)
  local
  noframe
  requires okRoute(r)
  ensures [intact] okRoute(r)

contract (*navigator.Route).NumTracks (r)
  local
  noframe
  requires okRoute(r)
  ensures [intact] okRoute(r)

contract (*navigator.Route).Snapshot (r)
  local
  noframe
  requires okRoute(r)
  ensures [intact] okRoute(r)

contract (*navigator.Route).TrackAt (r, x)
  local
  noframe
  requires okRoute(r)
  ensures [intact] okRoute(r)

contract (*navigator.Route).ChangeName (r, x)
  local
  noframe
  requires okRoute(r)
  ensures [intact] okRoute(r)

contract (*navigator.Route).RemoveTrack (r, x)
  local
  noframe
  requires okRoute(r)
  ensures [intact] okRoute(r)

contract (*navigator.Route).TrackByID (r, x)
  local
  noframe
  requires okRoute(r)
  ensures [intact] okRoute(r)

contract (*navigator.Route).AddTrack (r, x)
  local
  noframe
  requires okRoute(r)
  ensures [intact] okRoute(r)

contract (*navigator.Route).EachTrack (r, fn)
  local
  noframe
  ghosts
  requires okRoute(r) && fn != nil
  ensures [intact] okRoute(r)

contract (*navigator.Track).ID (t)
  local
  noframe
  requires t != nil
  ensures [intact] t != nil

contract (*navigator.Track).IsClosed (t)
  local
  noframe
  requires t != nil
  ensures [intact] t != nil

contract (*navigator.Track).Color (t)
  local
  noframe
  requires t != nil
  ensures [intact] t != nil

contract (*navigator.Track).Name (t)
  local
  noframe
  requires t != nil
  ensures [intact] t != nil

contract (*navigator.Track).Distance (t)
  local
  noframe
  requires t != nil
  ensures [intact] t != nil

contract (*navigator.Track).Props (t)
  local
  noframe
  requires t != nil
  ensures [intact] t != nil

contract (*navigator.Track).NumSegments (t)
  local
  noframe
  requires t != nil
  ensures [intact] t != nil

contract (*navigator.Track).Snapshot (t)
  local
  noframe
  requires t != nil
  ensures [intact] t != nil

contract (*navigator.Track).SegmentAt (t, x)
  local
  noframe
  requires t != nil
  ensures [intact] t != nil

contract (*navigator.Track).ChangeName (t, x)
  local
  noframe
  requires t != nil
  ensures [intact] t != nil

contract (*navigator.Track).ChangeColor (t, x)
  local
  noframe
  requires t != nil
  ensures [intact] t != nil
