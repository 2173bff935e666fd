include "nav.inc"
include "ext.inc"
package navigator

def apart(n *Navigator, rs []*Route) bool = len(rs) == 0 || arr(rs) != arr(n.routes)
def key(id string) bool = 1 <= len(id) && len(id) <= 36
def routeID(n *Navigator, i int) string = n.routes[i].id
// The m-th route is the first one with this identifier.
def first(n *Navigator, id string, m int) bool = 0 <= m && m < len(n.routes) && n.routes[m].id == id && (forall k int :: 0 <= k && k < m ==> n.routes[k].id != id)
def firstTrack(r *Route, id string, m int) bool = 0 <= m && m < len(r.tracks) && r.tracks[m].id == id && (forall k int :: 0 <= k && k < m ==> r.tracks[k].id != id)
// The first occurrence of rs[i] in rs.
def firstOf(rs []*Route, i int) bool = 0 <= i && i < len(rs) && (forall u int :: {rs[u]} 0 <= u && u < i ==> rs[u] != rs[i])

contract (*navigator.Navigator).AddRoute (n, rs) (err)
  requires okRoutes(n) && apart(n, rs)
  requires forall i int :: 0 <= i && i < len(rs) && rs[i] != nil ==> okRoute(rs[i])
  modifies n.*, elems(n.routes)
  inv okRoutes(n)
  inv len(n.routes) >= old(len(n.routes)) && (len(n.routes) > old(len(n.routes)) ==> arr(n.routes) == old(arr(n.routes)) || fresh(arr(n.routes)))
  inv len(n.routes) == old(len(n.routes)) ==> n.routes == old(n.routes)
  inv arr(n.routes) != arr(rs) || len(rs) == 0
  inv forall k int :: {n.routes[k]} 0 <= k && k < old(len(n.routes)) ==> n.routes[k] == old(n.routes[k])
  inv (ok int) len(n.routes) == old(len(n.routes)) + ok
  inv (i int, id string) forall k int :: {n.routes[k]} 0 <= k && k < i ==> n.routes[k].id != id
  inv (i int) forall j int :: {n.routes[j]} old(len(n.routes)) <= j && j < len(n.routes) ==> n.routes[j] != nil && (exists t int :: {mark(t)} {rs[t]} mark(t) && 0 <= t && t < i && n.routes[j] == rs[t])
  inv forall j int, k int :: {n.routes[j], n.routes[k]} old(len(n.routes)) <= j && j < len(n.routes) && 0 <= k && k < j ==> n.routes[k].id != n.routes[j].id
  inv (i int) forall t int :: {rs[t]} 0 <= t && t < i && rs[t] != nil ==> (exists j int :: {mark(j)} {n.routes[j]} mark(j) && 0 <= j && j < len(n.routes) && n.routes[j].id == rs[t].id)
  inv forall j int, k int, t int, u int :: {n.routes[j], n.routes[k], rs[t], rs[u]} old(len(n.routes)) <= j && j < k && k < len(n.routes) && firstOf(rs, t) && firstOf(rs, u) && n.routes[j] == rs[t] && n.routes[k] == rs[u] ==> t < u
  inv (i int) forall j int, t int, u int :: {n.routes[j], rs[t], rs[u]} old(len(n.routes)) <= j && j < len(n.routes) && 0 <= t && t < i && rs[t] != nil && rs[t].id == n.routes[j].id && firstOf(rs, u) && rs[u] == n.routes[j] ==> u <= t
  ensures [decides] err != nil <==> len(rs) == 0
  ensures [kept] len(n.routes) >= old(len(n.routes)) && (forall k int :: 0 <= k && k < old(len(n.routes)) ==> n.routes[k] == old(n.routes[k]))
  ensures [given] forall j int :: old(len(n.routes)) <= j && j < len(n.routes) ==> n.routes[j] != nil && (exists t int :: {mark(t)} {rs[t]} mark(t) && 0 <= t && t < len(rs) && n.routes[j] == rs[t])
  ensures [new] forall j int, k int :: old(len(n.routes)) <= j && j < len(n.routes) && 0 <= k && k < j ==> n.routes[k].id != n.routes[j].id
  ensures [all] forall t int :: 0 <= t && t < len(rs) && rs[t] != nil ==> (exists j int :: {mark(j)} {n.routes[j]} mark(j) && 0 <= j && j < len(n.routes) && n.routes[j].id == rs[t].id)
  ensures [ordered] forall j int, k int, t int, u int :: old(len(n.routes)) <= j && j < k && k < len(n.routes) && firstOf(rs, t) && firstOf(rs, u) && n.routes[j] == rs[t] && n.routes[k] == rs[u] ==> t < u
  ensures [earliest] forall j int, t int, u int :: old(len(n.routes)) <= j && j < len(n.routes) && 0 <= t && t < len(rs) && rs[t] != nil && rs[t].id == n.routes[j].id && firstOf(rs, u) && rs[u] == n.routes[j] ==> u <= t

contract (*navigator.Navigator).RemoveRoute (n, id) (ok)
  requires okRoutes(n)
  modifies n.*, elems(n.routes)
  inv (i int) forall k int :: {n.routes[k]} 0 <= k && k < i ==> n.routes[k].id != id
  ensures [decides] ok <==> key(id) && old(exists m int :: 0 <= m && m < len(n.routes) && n.routes[m].id == id)
  ensures [length] len(n.routes) == old(len(n.routes)) - (ok ? 1 : 0)
  ensures [before] ok ==> (forall m int, k int :: old(first(n, id, m)) && 0 <= k && k < m ==> n.routes[k] == old(n.routes[k]))
  ensures [after] ok ==> (forall m int, k int :: old(first(n, id, m)) && m <= k && k < len(n.routes) ==> n.routes[k] == old(n.routes[k+1]))
  ensures [absent] !ok ==> n.routes == old(n.routes) && (forall k int :: 0 <= k && k < len(n.routes) ==> n.routes[k] == old(n.routes[k]))

contract (*navigator.Navigator).ResetRoutes (n) (ok)
  requires okRoutes(n)
  modifies n.*
  ensures [empty] len(n.routes) == 0
  ensures [decides] ok <==> old(len(n.routes)) > 0

contract (*navigator.Navigator).RouteByID (n, id) (r, err)
  requires okRoutes(n)
  modifies nothing
  inv (i int) forall k int :: {n.routes[k]} 0 <= k && k < i ==> n.routes[k].id != id
  ensures [found] err == nil ==> (exists m int :: first(n, id, m) && r == n.routes[m])
  ensures [absent] err != nil ==> r == nil && (key(id) ==> (forall k int :: 0 <= k && k < len(n.routes) ==> n.routes[k].id != id))

contract (*navigator.Navigator).RouteAt (n, i) (r)
  requires okRoutes(n)
  modifies nothing
  ensures [found] 0 <= i && i < len(n.routes) ==> r == n.routes[i]
  ensures [absent] !(0 <= i && i < len(n.routes)) ==> r == nil

contract (*navigator.Navigator).NumRoutes (n) (c)
  requires okRoutes(n)
  modifies nothing
  ensures [exact] c == len(n.routes)

contract (*navigator.Navigator).Routes (n) (rs)
  requires okRoutes(n)
  modifies nothing
  ensures [copy] len(rs) == len(n.routes) && (forall k int :: 0 <= k && k < len(rs) ==> rs[k] == n.routes[k]) && (len(rs) == 0 || fresh(arr(rs)))

contract (*navigator.Navigator).EachRoute (n, fn)
  requires okRoutes(n)
  requires fn != nil
  noframe
  ghosts
  inv (i int) ncalls() == old(ncalls()) + i && n.routes == old(n.routes)
  inv (i int) forall k int :: 0 <= k && k < i ==> callfn(old(ncalls()) + k) == fn && callarg(old(ncalls()) + k, 0, int) == k && callarg(old(ncalls()) + k, 1, *Route) == n.routes[k] && callres(old(ncalls()) + k, 0, bool)
  ensures [order] forall k int :: 0 <= k && k < ncalls() - old(ncalls()) ==> callfn(old(ncalls()) + k) == fn && callarg(old(ncalls()) + k, 0, int) == k && callarg(old(ncalls()) + k, 1, *Route) == n.routes[k]
  ensures [goesOn] forall k int :: 0 <= k && k < ncalls() - old(ncalls()) - 1 ==> callres(old(ncalls()) + k, 0, bool)
  ensures [stops] 0 <= ncalls() - old(ncalls()) && ncalls() - old(ncalls()) <= len(n.routes) && (ncalls() - old(ncalls()) < len(n.routes) ==> ncalls() > old(ncalls()) && !callres(ncalls() - 1, 0, bool))

contract (*navigator.Route).AddTrack (r, t) (q)
  requires okRoute(r)
  modifies r.tracks, elems(r.tracks), r.dist, r.version
  ensures [appended] t != nil ==> len(r.tracks) == old(len(r.tracks)) + 1 && r.tracks[old(len(r.tracks))] == t
  ensures [absent] t == nil ==> r.tracks == old(r.tracks)
  ensures [kept] forall k int :: 0 <= k && k < old(len(r.tracks)) ==> r.tracks[k] == old(r.tracks[k])

contract (*navigator.Route).RemoveTrack (r, id) (ok)
  requires okRoute(r)
  modifies r.tracks, elems(r.tracks), r.dist, r.version
  inv (i int) forall k int :: {r.tracks[k]} 0 <= k && k < i ==> r.tracks[k].id != id
  ensures [decides] ok <==> key(id) && old(exists m int :: 0 <= m && m < len(r.tracks) && r.tracks[m].id == id)
  ensures [length] len(r.tracks) == old(len(r.tracks)) - (ok ? 1 : 0)
  ensures [before] ok ==> (forall m int, k int :: old(firstTrack(r, id, m)) && 0 <= k && k < m ==> r.tracks[k] == old(r.tracks[k]))
  ensures [after] ok ==> (forall m int, k int :: old(firstTrack(r, id, m)) && m <= k && k < len(r.tracks) ==> r.tracks[k] == old(r.tracks[k+1]))
  ensures [absent] !ok ==> r.tracks == old(r.tracks) && (forall k int :: 0 <= k && k < len(r.tracks) ==> r.tracks[k] == old(r.tracks[k]))

contract (*navigator.Route).TrackByID (r, id) (t, err)
  requires okRoute(r)
  modifies r.version
  inv (i int) forall k int :: {r.tracks[k]} 0 <= k && k < i ==> r.tracks[k].id != id
  ensures [found] err == nil ==> (exists m int :: firstTrack(r, id, m) && t == r.tracks[m])
  ensures [absent] err != nil ==> t == nil && (key(id) ==> (forall k int :: 0 <= k && k < len(r.tracks) ==> r.tracks[k].id != id))

contract (*navigator.Route).TrackAt (r, i) (t)
  requires okRoute(r)
  modifies nothing
  ensures [found] 0 <= i && i < len(r.tracks) ==> t == r.tracks[i]
  ensures [absent] !(0 <= i && i < len(r.tracks)) ==> t == nil

contract (*navigator.Route).NumTracks (r) (c)
  requires okRoute(r)
  modifies nothing
  ensures [exact] c == len(r.tracks)

contract (*navigator.Route).EachTrack (r, fn)
  requires okRoute(r)
  requires fn != nil
  noframe
  ghosts
  inv (i int) ncalls() == old(ncalls()) + i && r.tracks == old(r.tracks)
  inv (i int) forall k int :: 0 <= k && k < i ==> callfn(old(ncalls()) + k) == fn && callarg(old(ncalls()) + k, 0, int) == k && callarg(old(ncalls()) + k, 1, *Track) == r.tracks[k] && callres(old(ncalls()) + k, 0, bool)
  ensures [order] forall k int :: 0 <= k && k < ncalls() - old(ncalls()) ==> callfn(old(ncalls()) + k) == fn && callarg(old(ncalls()) + k, 0, int) == k && callarg(old(ncalls()) + k, 1, *Track) == r.tracks[k]
  ensures [goesOn] forall k int :: 0 <= k && k < ncalls() - old(ncalls()) - 1 ==> callres(old(ncalls()) + k, 0, bool)
  ensures [stops] 0 <= ncalls() - old(ncalls()) && ncalls() - old(ncalls()) <= len(r.tracks) && (ncalls() - old(ncalls()) < len(r.tracks) ==> ncalls() > old(ncalls()) && !callres(ncalls() - 1, 0, bool))

contract (*navigator.Track).SegmentAt (t, i) (s)
  requires t != nil
  modifies nothing
  ensures [found] 0 <= i && i < len(t.segments) ==> s == t.segments[i]
  ensures [absent] !(0 <= i && i < len(t.segments)) ==> s == zero(Segment)

contract (*navigator.Track).NumSegments (t) (c)
  requires t != nil
  modifies nothing
  ensures [exact] c == len(t.segments)

contract (*navigator.Navigator).RemoveTrack (n, rid, tid) (ok)
  requires okRoutes(n)
  noframe
  inv (i int) forall k int :: {n.routes[k]} 0 <= k && k < i ==> n.routes[k].id != rid
  ensures [decides] ok ==> key(rid) && key(tid) && old(exists m int, t int :: {mark(m), mark(t)} {n.routes[m].tracks[t]} first(n, rid, m) && 0 <= t && t < len(n.routes[m].tracks) && n.routes[m].tracks[t].id == tid)
  ensures [complete] key(rid) && key(tid) ==> (forall m int, t int :: old(first(n, rid, m) && 0 <= t && t < len(n.routes[m].tracks) && n.routes[m].tracks[t].id == tid) ==> ok)
  ensures [removed] forall m int :: ok && old(first(n, rid, m)) ==> len(n.routes[m].tracks) == old(len(n.routes[m].tracks)) - 1
  ensures [others] forall m int, k int :: old(first(n, rid, m)) && 0 <= k && k < len(n.routes) && n.routes[k] != n.routes[m] ==> n.routes[k].tracks == old(n.routes[k].tracks)
  ensures [kept] n.routes == old(n.routes)
  ensures [absent] !ok ==> (forall i int :: 0 <= i && i < len(n.routes) ==> n.routes[i].tracks == old(n.routes[i].tracks))

package gpsgen

def okSens(d *Device) bool = d != nil && d.state != nil && (forall i int :: 0 <= i && i < len(d.sensors) ==> d.sensors[i] != nil)
def apartS(d *Device, ss []*types.Sensor) bool = len(ss) == 0 || arr(ss) != arr(d.sensors)
def firstSensor(d *Device, id string, m int) bool = 0 <= m && m < len(d.sensors) && d.sensors[m].id == id && (forall k int :: 0 <= k && k < m ==> d.sensors[k].id != id)
def firstOfS(rs []*types.Sensor, i int) bool = 0 <= i && i < len(rs) && (forall u int :: {rs[u]} 0 <= u && u < i ==> rs[u] != rs[i])

helper (*gpsgen.Device).updateSensors (d)
  requires okSens(d)
  modifies d.state.Sensors
  ensures [entries] okSens(d)

contract (*gpsgen.Device).AddSensor (d, rs)
  requires okSens(d) && apartS(d, rs)
  modifies d.sensors, elems(d.sensors), d.state.Sensors
  inv okSens(d)
  inv len(d.sensors) >= old(len(d.sensors)) && (len(d.sensors) > old(len(d.sensors)) ==> arr(d.sensors) == old(arr(d.sensors)) || fresh(arr(d.sensors)))
  inv len(d.sensors) == old(len(d.sensors)) ==> d.sensors == old(d.sensors)
  inv arr(d.sensors) != arr(rs) || len(rs) == 0
  inv forall k int :: {d.sensors[k]} 0 <= k && k < old(len(d.sensors)) ==> d.sensors[k] == old(d.sensors[k])
  inv (i int, id string) forall k int :: {d.sensors[k]} 0 <= k && k < i ==> d.sensors[k].id != id
  inv (i int) forall j int :: {d.sensors[j]} old(len(d.sensors)) <= j && j < len(d.sensors) ==> d.sensors[j] != nil && (exists t int :: {mark(t)} {rs[t]} mark(t) && 0 <= t && t < i && d.sensors[j] == rs[t])
  inv forall j int, k int :: {d.sensors[j], d.sensors[k]} old(len(d.sensors)) <= j && j < len(d.sensors) && 0 <= k && k < j ==> d.sensors[k].id != d.sensors[j].id
  inv (i int) forall t int :: {rs[t]} 0 <= t && t < i && rs[t] != nil ==> (exists j int :: {mark(j)} {d.sensors[j]} mark(j) && 0 <= j && j < len(d.sensors) && d.sensors[j].id == rs[t].id)
  inv forall j int, k int, t int, u int :: {d.sensors[j], d.sensors[k], rs[t], rs[u]} old(len(d.sensors)) <= j && j < k && k < len(d.sensors) && firstOfS(rs, t) && firstOfS(rs, u) && d.sensors[j] == rs[t] && d.sensors[k] == rs[u] ==> t < u
  inv (i int) forall j int, t int, u int :: {d.sensors[j], rs[t], rs[u]} old(len(d.sensors)) <= j && j < len(d.sensors) && 0 <= t && t < i && rs[t] != nil && rs[t].id == d.sensors[j].id && firstOfS(rs, u) && rs[u] == d.sensors[j] ==> u <= t
  ensures [kept] len(d.sensors) >= old(len(d.sensors)) && (forall k int :: 0 <= k && k < old(len(d.sensors)) ==> d.sensors[k] == old(d.sensors[k]))
  ensures [given] forall j int :: old(len(d.sensors)) <= j && j < len(d.sensors) ==> d.sensors[j] != nil && (exists t int :: {mark(t)} {rs[t]} mark(t) && 0 <= t && t < len(rs) && d.sensors[j] == rs[t])
  ensures [new] forall j int, k int :: old(len(d.sensors)) <= j && j < len(d.sensors) && 0 <= k && k < j ==> d.sensors[k].id != d.sensors[j].id
  ensures [all] forall t int :: 0 <= t && t < len(rs) && rs[t] != nil ==> (exists j int :: {mark(j)} {d.sensors[j]} mark(j) && 0 <= j && j < len(d.sensors) && d.sensors[j].id == rs[t].id)
  ensures [ordered] forall j int, k int, t int, u int :: old(len(d.sensors)) <= j && j < k && k < len(d.sensors) && firstOfS(rs, t) && firstOfS(rs, u) && d.sensors[j] == rs[t] && d.sensors[k] == rs[u] ==> t < u
  ensures [earliest] forall j int, t int, u int :: old(len(d.sensors)) <= j && j < len(d.sensors) && 0 <= t && t < len(rs) && rs[t] != nil && rs[t].id == d.sensors[j].id && firstOfS(rs, u) && rs[u] == d.sensors[j] ==> u <= t

contract (*gpsgen.Device).RemoveSensor (d, id) (ok)
  requires okSens(d)
  modifies d.sensors, elems(d.sensors), d.state.Sensors
  inv (i int) forall k int :: {d.sensors[k]} 0 <= k && k < i ==> d.sensors[k].id != id
  ensures [decides] ok <==> id != "" && old(exists m int :: 0 <= m && m < len(d.sensors) && d.sensors[m].id == id)
  ensures [length] len(d.sensors) == old(len(d.sensors)) - (ok ? 1 : 0)
  ensures [before] ok ==> (forall m int, k int :: old(firstSensor(d, id, m)) && 0 <= k && k < m && k < len(d.sensors) ==> d.sensors[k] == old(d.sensors[k]))
  ensures [after] ok ==> (forall m int, k int :: old(firstSensor(d, id, m)) && m <= k && k < len(d.sensors) ==> d.sensors[k] == old(d.sensors[k+1]))
  ensures [absent] !ok ==> d.sensors == old(d.sensors) && (forall k int :: 0 <= k && k < len(d.sensors) ==> d.sensors[k] == old(d.sensors[k]))

contract (*gpsgen.Device).ResetSensors (d)
  requires okSens(d)
  modifies d.sensors, d.state.Sensors
  ensures [empty] len(d.sensors) == 0

contract (*gpsgen.Device).SensorByID (d, id) (s, ok)
  requires okSens(d)
  modifies nothing
  inv (i int) forall k int :: {d.sensors[k]} 0 <= k && k < i ==> d.sensors[k].id != id
  ensures [found] ok ==> (exists m int :: firstSensor(d, id, m) && s == d.sensors[m])
  ensures [absent] !ok ==> s == nil && (forall k int :: 0 <= k && k < len(d.sensors) ==> d.sensors[k].id != id)

contract (*gpsgen.Device).SensorAt (d, i) (s)
  requires okSens(d)
  modifies nothing
  ensures [found] 0 <= i && i < len(d.sensors) ==> s == d.sensors[i]
  ensures [absent] !(0 <= i && i < len(d.sensors)) ==> s == nil

contract (*gpsgen.Device).NumSensors (d) (c)
  requires okSens(d)
  modifies nothing
  ensures [exact] c == len(d.sensors)

contract (*gpsgen.Device).Sensors (d) (ss)
  requires okSens(d)
  modifies nothing
  ensures [copy] len(ss) == len(d.sensors) && (forall k int :: 0 <= k && k < len(ss) ==> ss[k] == d.sensors[k]) && (len(ss) == 0 || fresh(arr(ss)))

contract (*gpsgen.Device).EachSensor (d, fn)
  requires okSens(d)
  requires fn != nil
  noframe
  ghosts
  inv (i int) ncalls() == old(ncalls()) + i && d.sensors == old(d.sensors)
  inv (i int) forall k int :: 0 <= k && k < i ==> callfn(old(ncalls()) + k) == fn && callarg(old(ncalls()) + k, 0, int) == k && callarg(old(ncalls()) + k, 1, *types.Sensor) == d.sensors[k] && callres(old(ncalls()) + k, 0, bool)
  ensures [order] forall k int :: 0 <= k && k < ncalls() - old(ncalls()) ==> callfn(old(ncalls()) + k) == fn && callarg(old(ncalls()) + k, 0, int) == k && callarg(old(ncalls()) + k, 1, *types.Sensor) == d.sensors[k]
  ensures [goesOn] forall k int :: 0 <= k && k < ncalls() - old(ncalls()) - 1 ==> callres(old(ncalls()) + k, 0, bool)
  ensures [stops] 0 <= ncalls() - old(ncalls()) && ncalls() - old(ncalls()) <= len(d.sensors) && (ncalls() - old(ncalls()) < len(d.sensors) ==> ncalls() > old(ncalls()) && !callres(ncalls() - 1, 0, bool))

// The device hands routes to its navigator unchanged.
def okDev(d *Device) bool = d != nil && d.navigator != nil && okRoutes(d.navigator)

contract (*gpsgen.Device).Routes (d) (rs)
  requires okDev(d)
  modifies nothing
  ensures [copy] len(rs) == len(d.navigator.routes) && (forall k int :: 0 <= k && k < len(rs) ==> rs[k] == d.navigator.routes[k]) && (len(rs) == 0 || fresh(arr(rs)))

contract (*gpsgen.Device).RouteAt (d, i) (r)
  requires okDev(d)
  modifies nothing
  ensures [found] 0 <= i && i < len(d.navigator.routes) ==> r == d.navigator.routes[i]
  ensures [absent] !(0 <= i && i < len(d.navigator.routes)) ==> r == nil

contract (*gpsgen.Device).NumRoutes (d) (c)
  requires okDev(d)
  modifies nothing
  ensures [exact] c == len(d.navigator.routes)

contract (*gpsgen.Device).EachRoute (d, fn)
  requires okDev(d)
  requires fn != nil
  noframe
  ghosts
  inv (i int) ncalls() == old(ncalls()) + i && d.navigator.routes == old(d.navigator.routes)
  inv (i int) forall k int :: 0 <= k && k < i ==> callfn(old(ncalls()) + k) == fn && callarg(old(ncalls()) + k, 0, int) == k && callarg(old(ncalls()) + k, 1, *navigator.Route) == d.navigator.routes[k] && callres(old(ncalls()) + k, 0, bool)
  ensures [order] forall k int :: 0 <= k && k < ncalls() - old(ncalls()) ==> callfn(old(ncalls()) + k) == fn && callarg(old(ncalls()) + k, 0, int) == k && callarg(old(ncalls()) + k, 1, *navigator.Route) == d.navigator.routes[k]
  ensures [stops] 0 <= ncalls() - old(ncalls()) && ncalls() - old(ncalls()) <= len(d.navigator.routes) && (ncalls() - old(ncalls()) < len(d.navigator.routes) ==> ncalls() > old(ncalls()) && !callres(ncalls() - 1, 0, bool))
