include "imp.inc"
option terminates

package geojson
// The JSON decoder leaves any document at all, including none.
extern "encoding/json.Unmarshal" (data, v) (err)
  requires typeis(v, **geojson.FeatureCollection)
  modifies deref(unbox(v, **geojson.FeatureCollection))
extern "(github.com/paulmach/orb.Point).Lon" (p) (r)
  modifies nothing
extern "(github.com/paulmach/orb.Point).Lat" (p) (r)
  modifies nothing
extern "github.com/paulmach/orb/geojson.NewFeatureCollection" () (fc)
  modifies nothing
  ensures fc != nil && fresh(fc)
helper geojson.toPoints (ps) (r)
  modifies nothing
  ensures [count] len(r) == len(ps) && fresh(r)
helper geojson.parseGeometry (r, info, g) (err)
  requires okRoute(r)
  inv okRoute(r)
  inv arr(r.tracks) == old(arr(r.tracks)) || fresh(r.tracks)
  modifies r.tracks, elems(r.tracks), r.dist, r.version, all(navigator.Track.props)
  ensures [intact] okRoute(r)
  ensures [array] arr(r.tracks) == old(arr(r.tracks)) || fresh(r.tracks)
helper geojson.parseGeometries (r, info, g) (err)
  requires okRoute(r)
  inv okRoute(r)
  inv arr(r.tracks) == old(arr(r.tracks)) || fresh(r.tracks)
  modifies r.tracks, elems(r.tracks), r.dist, r.version, all(navigator.Track.props)
  ensures [intact] okRoute(r)
  ensures [array] arr(r.tracks) == old(arr(r.tracks)) || fresh(r.tracks)
helper geojson.restoreTrack (info, ps) (t, err)
  modifies nothing
  ensures [made] err == nil ==> okTrack(t) && fresh(t)
helper geojson.restoreRoute (ps) (r, info, err)
  modifies nothing
  ensures [made] err == nil ==> okRoute(r) && fresh(r) && fresh(r.tracks) && len(r.tracks) == 0
contract geojson.Decode (data) (routes, err)
  noframe
  inv (routes []*navigator.Route) forall k int :: {routes[k]} 0 <= k && k < len(routes) ==> okRoute(routes[k])
  ensures [routes] err == nil ==> forall k int :: {routes[k]} 0 <= k && k < len(routes) ==> okRoute(routes[k])

package gpx
// The XML decoder leaves any document at all.
extern "github.com/tkrajina/gpxgo/gpx.ParseBytes" (data) (g, err)
  modifies nothing
  ensures err == nil ==> g != nil
helper gpx.makePoints (ps) (r)
  modifies nothing
  ensures [count] len(r) == len(ps)
helper gpx.makeProps (as) (ps)
  modifies nothing
  ensures [made] ps != nil && fresh(ps)
helper gpx.attr (as, name) (v, ok)
  modifies nothing
helper gpx.resetProps (ps)
  modifies map(ps)
helper gpx.routesExists (g) (r)
  requires g != nil
  modifies nothing
  ensures [node] r ==> len(g.Extensions.Nodes) > 0
helper gpx.validateRoutes (g) (err)
  requires g != nil
  modifies nothing
  inv (i int) forall k int :: {g.Tracks[k]} 0 <= k && k < i ==> len(g.Extensions.Nodes[0].Nodes[k].Nodes) == len(g.Tracks[k].Segments)
  ensures [counts] err == nil ==> len(g.Extensions.Nodes) > 0 && len(g.Extensions.Nodes[0].Nodes) == len(g.Tracks) && (forall k int :: {g.Tracks[k]} {g.Extensions.Nodes[0].Nodes[k]} 0 <= k && k < len(g.Tracks) ==> len(g.Extensions.Nodes[0].Nodes[k].Nodes) == len(g.Tracks[k].Segments))
contract gpx.Decode (data) (routes, err)
  noframe
  inv (routes []*navigator.Route) forall k int :: {routes[k]} 0 <= k && k < len(routes) ==> okRoute(routes[k])
  inv (route *navigator.Route) okRoute(route)
  ensures [routes] err == nil ==> forall k int :: {routes[k]} 0 <= k && k < len(routes) ==> okRoute(routes[k])
