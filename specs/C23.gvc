package random
option floatReal
// The tables of the package are set up once: a box of every country lies on the globe with its minimum below its maximum.
def okBox(b [4]float64) bool = -180.0 <= b[0] && b[0] <= b[2] && b[2] <= 180.0 && -90.0 <= b[1] && b[1] <= b[3] && b[3] <= 90.0
def tables() bool = bboxByCountries != nil && (forall c string :: {bboxByCountries[c]} c in bboxByCountries ==> len(c) == 2 && okBox(bboxByCountries[c]))
def source() bool = defaultRnd != nil && defaultRnd.rnd != nil
contract random.init ()
  noframe
  ensures [boxes] tables()
  ensures [source] source()

// A country is named by two letters of either case.
def known(c string) bool = len(c) == 2 && res(0, strings.ToUpper(c)) in bboxByCountries
def boxOf(c string) [4]float64 = bboxByCountries[res(0, strings.ToUpper(c))]
// Rounding of the two operations that scale a random number to a box.
def near() float64 = 0.0000001
// Upper-casing twice changes nothing more (checked for every rune by the scenarios of this property).
axiom [upper] forall c string :: {res(0, strings.ToUpper(c))} res(0, strings.ToUpper(res(0, strings.ToUpper(c)))) == res(0, strings.ToUpper(c))

contract random.BoundingBox (c) (b, err)
  requires tables()
  modifies nothing
  ensures [unknown] err != nil <==> !known(c)
  ensures [box] err == nil ==> b.MinLon == boxOf(c)[0] && b.MinLat == boxOf(c)[1] && b.MaxLon == boxOf(c)[2] && b.MaxLat == boxOf(c)[3]
contract random.LatLonByCountry (c) (p, err)
  requires tables()
  modifies nothing
  ensures [unknown] err != nil <==> !known(c)
  ensures [longitude] err == nil ==> boxOf(c)[0] - near() <= p.Lon && p.Lon <= boxOf(c)[2] + near()
  ensures [latitude] err == nil ==> boxOf(c)[1] - near() <= p.Lat && p.Lat <= boxOf(c)[3] + near()
contract random.LatLon () (p)
  modifies nothing
  ensures [globe] -180.0 <= p.Lon && p.Lon <= 180.0 && -90.0 <= p.Lat && p.Lat <= 90.0

def alphabet(b int) bool = 97 <= b && b <= 122 || 65 <= b && b <= 90 || 48 <= b && b <= 57
contract random.String (n) (s)
  requires source()
  modifies nothing
  inv (b []byte, i int) forall k int :: {b[k]} 0 <= k && k < i ==> alphabet(b[k])
  inv (b []byte, i int) forall k int :: {b[k]} 0 <= k && k <= i ==> alphabet(b[k])
  ensures [length] len(s) == (n < 0 ? 0 : n)
  ensures [alphabet] forall k int :: {s[k]} 0 <= k && k < len(s) ==> alphabet(s[k])

contract random.Polygon (n, z) (ps)
  requires source()
  modifies nothing
  ensures [count] len(ps) == (n <= 0 ? 16 : n) + 1
  ensures [closed] ps[len(ps)-1] == ps[0]
  ensures [fresh] fresh(ps)
  log polygon = ps

package geo
contract geo.NormalizeCoordinates (la, lo, ps) (r)
  modifies nothing
  inv (i int, coords []geo.LatLonPoint) (forall k int :: {coords[k]} 0 <= k && k < i ==> coords[k].Lat == ps[k][0] + la && coords[k].Lon == ps[k][1] + lo)
  ensures [count] len(r) == len(ps) && fresh(r)
  ensures [shift] forall i int :: {r[i]} 0 <= i && i < len(ps) ==> r[i].Lat == ps[i][0] + la && r[i].Lon == ps[i][1] + lo

package navigator
def faithful(s Segment, a geo.LatLonPoint, b geo.LatLonPoint) bool = s.pointA == a && s.pointB == b
contract navigator.NewTrack (ps) (t, err)
  modifies nothing
  inv (segments []Segment) forall k int :: {segments[k]} 0 <= k && k < len(segments) ==> faithful(segments[k], ps[k], ps[k + 1])
  inv (segments []Segment, i int) len(segments) == i
  inv (segments []Segment) len(segments) == len(ps) - 1
  ensures [rejects] err != nil <==> len(ps) < 2
  ensures [failed] err != nil ==> t == nil
  ensures [count] err == nil ==> t != nil && fresh(t) && len(t.segments) == len(ps) - 1
  ensures [chain] err == nil ==> forall i int :: {t.segments[i]} 0 <= i && i < len(t.segments) ==> faithful(t.segments[i], ps[i], ps[i + 1])
  ensures [closed] err == nil ==> (t.isClosed <==> len(ps) >= 3 && ps[0].Lat == ps[len(ps) - 1].Lat && ps[0].Lon == ps[len(ps) - 1].Lon)
contract (*navigator.Route).AddTrack (r, t) (q)
  requires r != nil && (forall k int :: {r.tracks[k]} 0 <= k && k < len(r.tracks) ==> r.tracks[k] != nil)
  modifies r.tracks, elems(r.tracks), r.dist, r.version
  ensures [same] q == r
  ensures [count] t != nil ==> len(r.tracks) == old(len(r.tracks)) + 1 && r.tracks[old(len(r.tracks))] == t
  ensures [rest] forall k int :: {r.tracks[k]} 0 <= k && k < old(len(r.tracks)) ==> r.tracks[k] == old(r.tracks[k])
  ensures [absent] t == nil ==> r.tracks == old(r.tracks)
contract (*navigator.Track).ChangeName (r, s) (err)
  requires r != nil
  modifies r.name, r.version
  ensures [rejects] err != nil <==> len(s) < 3 || len(s) > 256
  ensures [kept] err == nil ==> r.name.value == s
contract (*navigator.Route).ChangeName (r, s) (err)
  requires r != nil
  modifies r.name, r.version
  ensures [rejects] err != nil <==> len(s) < 3 || len(s) > 256
  ensures [kept] err == nil ==> r.name.value == s

package gpsgen
def shape(k int) [][2]float64 = logged(polygon, k, 0, [][2]float64)
def around(t *navigator.Track, ps [][2]float64, lo float64, la float64) bool =
  len(t.segments) == len(ps) - 1 && (forall i int :: {t.segments[i]} 0 <= i && i < len(ps) - 1 ==> t.segments[i].pointA.Lat == ps[i][0] + la && t.segments[i].pointA.Lon == ps[i][1] + lo && t.segments[i].pointB.Lat == ps[i+1][0] + la && t.segments[i].pointB.Lon == ps[i+1][1] + lo)
contract gpsgen.RandomRoute (lo, la, n, level) (r)
  requires source()
  noframe
  ghosts
  inv (route *navigator.Route, i int) len(route.tracks) == i
  inv (route *navigator.Route, i int) nlog(polygon) == old(nlog(polygon)) + i
  inv (route *navigator.Route, i int) forall k int :: {route.tracks[k]} 0 <= k && k < i ==> route.tracks[k] != nil && len(route.tracks[k].name.value) == 14 && route.tracks[k].isClosed
  inv (route *navigator.Route, i int) forall k int :: {route.tracks[k]} 0 <= k && k < i ==> around(route.tracks[k], shape(old(nlog(polygon)) + k), lo, la)
  ensures [count] r != nil && len(r.tracks) == (n < 0 ? 1 : n)
  ensures [named] len(r.name.value) == 14
  ensures [tracks] forall k int :: {r.tracks[k]} 0 <= k && k < len(r.tracks) ==> r.tracks[k] != nil && len(r.tracks[k].name.value) == 14 && r.tracks[k].isClosed
  ensures [around] nlog(polygon) == old(nlog(polygon)) + len(r.tracks) && (forall k int :: {r.tracks[k]} 0 <= k && k < len(r.tracks) ==> around(r.tracks[k], shape(old(nlog(polygon)) + k), lo, la))
contract gpsgen.RandomRouteForNewYork () (r)
  requires source()
  noframe
  ghosts
  ensures [count] r != nil && len(r.tracks) == 3
  ensures [around] forall k int :: {r.tracks[k]} 0 <= k && k < len(r.tracks) ==> around(r.tracks[k], shape(old(nlog(polygon)) + k), -74.006, 40.7128)
contract gpsgen.RandomRouteForMoscow () (r)
  requires source()
  noframe
  ghosts
  ensures [count] r != nil && len(r.tracks) == 3
  ensures [around] forall k int :: {r.tracks[k]} 0 <= k && k < len(r.tracks) ==> around(r.tracks[k], shape(old(nlog(polygon)) + k), 37.621096697276414, 55.753437064373315)
contract gpsgen.RandomRouteForParis () (r)
  requires source()
  noframe
  ghosts
  ensures [count] r != nil && len(r.tracks) == 3
  ensures [around] forall k int :: {r.tracks[k]} 0 <= k && k < len(r.tracks) ==> around(r.tracks[k], shape(old(nlog(polygon)) + k), 2.349892200521907, 48.855323829674006)
