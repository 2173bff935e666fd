// The published route list.
package navigator
contract (*navigator.Route).Props (r) (p)
  requires r != nil
  modifies r.props
  ensures [map] p == r.props && p != nil && (old(r.props) != nil ==> p == old(r.props)) && len(p) == (old(r.props) == nil ? 0 : old(len(r.props)))
contract (*navigator.Track).Props (t) (p)
  requires t != nil
  modifies t.props
  ensures [map] p == t.props && p != nil && (old(t.props) != nil ==> p == old(t.props)) && len(p) == (old(t.props) == nil ? 0 : old(len(t.props)))

package gpsgen
// One entry per route and track, in order.
def trackMirror(t *navigator.Track, s *proto.Device_Routes_Route_Track) bool =
  s != nil && s.TrackId == t.id && s.Distance == t.dist && s.NumSegments == len(t.segments) && s.Color == t.color && s.PropsCount == len(t.props)
def routeMirror(r *navigator.Route, s *proto.Device_Routes_Route) bool =
  s != nil && s.RouteId == r.id && s.Distance == r.dist && s.Color == r.color && s.PropsCount == len(r.props) && len(s.Tracks) == len(r.tracks) &&
  (forall j int :: {r.tracks[j]} {s.Tracks[j]} 0 <= j && j < len(r.tracks) ==> trackMirror(r.tracks[j], s.Tracks[j]))
def propsMade(r *navigator.Route) bool = r.props != nil && (forall j int :: {r.tracks[j]} 0 <= j && j < len(r.tracks) ==> r.tracks[j].props != nil)
def routesMirror(d *Device) bool = len(d.state.Routes.Routes) == len(d.navigator.routes) &&
  (forall i int :: {d.navigator.routes[i]} {d.state.Routes.Routes[i]} 0 <= i && i < len(d.navigator.routes) ==> routeMirror(d.navigator.routes[i], d.state.Routes.Routes[i]))

contract (*gpsgen.Device).updateRoutes (d)
  requires d != nil && d.state != nil && d.state.Routes != nil && d.navigator != nil && okRoutes(d.navigator) && d.speed != nil
  modifies d.state.Routes.Routes, d.avgT, d.ns, all(navigator.Route.props), all(navigator.Track.props)
  inv len(d.state.Routes.Routes) <= len(d.navigator.routes) && fresh(arr(d.state.Routes.Routes))
  inv len(d.state.Routes.Routes) == $k
  inv d.state.Routes.Routes == $pre(d.state.Routes.Routes)
  inv forall i int :: {d.state.Routes.Routes[i]} {d.navigator.routes[i]} 0 <= i && i < len(d.state.Routes.Routes) ==> propsMade(d.navigator.routes[i]) && routeMirror(d.navigator.routes[i], d.state.Routes.Routes[i])
  inv (tracks []*proto.Device_Routes_Route_Track) len(tracks) == $k && (arr(tracks) == 0 || fresh(arr(tracks)))
  inv (route *navigator.Route, tracks []*proto.Device_Routes_Route_Track) forall j int :: {tracks[j]} {route.tracks[j]} 0 <= j && j < len(tracks) ==> route.tracks[j].props != nil && trackMirror(route.tracks[j], tracks[j])
  ensures [mirror] routesMirror(d)
