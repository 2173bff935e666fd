// What refreshing the published route list may touch (its contents are C18's business).
package navigator
contract (*navigator.Route).Props (r) (p)
  requires r != nil
  modifies r.props
  ensures [map] p == r.props && p != nil
contract (*navigator.Track).Props (t) (p)
  requires t != nil
  modifies t.props
  ensures [map] p == t.props && p != nil

package gpsgen
contract (*gpsgen.Device).updateRoutes (d)
  requires d != nil && d.state != nil && d.state.Routes != nil && d.navigator != nil && okRoutes(d.navigator) && d.speed != nil
  modifies d.state.Routes.Routes, d.avgT, d.ns, all(navigator.Route.props), all(navigator.Track.props)
  inv fresh(arr(d.state.Routes.Routes))
  inv (tracks []*proto.Device_Routes_Route_Track) arr(tracks) == 0 || fresh(arr(tracks))
