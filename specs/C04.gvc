option floatReal
note "geo.Bearing and geo.Distance are deterministic functions of their arguments (their formulas are property C22)"
package geo

contract geo.Bearing (a, b, c, d) (r)
  pure
  modifies nothing
contract geo.Distance (a, b, c, d) (r)
  pure
  modifies nothing

package navigator

sum Len(segs []Segment, k int; i) float64 = segs[i].dist

def faithful(s Segment, a geo.LatLonPoint, b geo.LatLonPoint, i int) bool =
  s.pointA == a && s.pointB == b && s.index == i &&
  s.bearing == geo.Bearing(a.Lat, a.Lon, b.Lat, b.Lon) && s.dist == geo.Distance(a.Lat, a.Lon, b.Lat, b.Lon)
def closed(ps []geo.LatLonPoint) bool =
  len(ps) >= 3 && ps[0].Lat == ps[len(ps) - 1].Lat && ps[0].Lon == ps[len(ps) - 1].Lon
def okTrack(t *Track, ps []geo.LatLonPoint) bool =
  t != nil && len(t.segments) == len(ps) - 1 &&
  (forall i int :: {t.segments[i]} 0 <= i && i < len(t.segments) ==> faithful(t.segments[i], ps[i], ps[i + 1], i)) &&
  t.dist == Len(t.segments, len(t.segments)) &&
  (t.isClosed <==> closed(ps))

helper navigator.makeSegments (ps) (segs, dist, err)
  modifies nothing
  inv (segments []Segment) forall k int :: {segments[k]} 0 <= k && k < len(segments) ==> faithful(segments[k], ps[k], ps[k + 1], k)
  inv (segments []Segment, i int) len(segments) == i
  inv (segments []Segment) len(segments) == len(ps) - 1
  inv (segments []Segment, dist float64) dist == Len(segments, len(segments))
  ensures [rejects] err != nil <==> len(ps) < 2
  ensures [count] err == nil ==> len(segs) == len(ps) - 1
  ensures [chain] err == nil ==> forall i int :: {segs[i]} 0 <= i && i < len(segs) ==> faithful(segs[i], ps[i], ps[i + 1], i)
  ensures [length] err == nil ==> dist == Len(segs, len(segs))

contract navigator.NewTrack (ps) (t, err)
  modifies nothing
  inv (segments []Segment) forall k int :: {segments[k]} 0 <= k && k < len(segments) ==> faithful(segments[k], ps[k], ps[k + 1], k)
  inv (segments []Segment, i int) len(segments) == i
  inv (segments []Segment) len(segments) == len(ps) - 1
  inv (segments []Segment, dist float64) dist == Len(segments, len(segments))
  ensures [rejects] err != nil <==> len(ps) < 2
  ensures [failed] err != nil ==> t == nil
  ensures [count] err == nil ==> t != nil && len(t.segments) == len(ps) - 1
  ensures [chain] err == nil ==> forall i int :: {t.segments[i]} 0 <= i && i < len(t.segments) ==> faithful(t.segments[i], ps[i], ps[i + 1], i)
  ensures [length] err == nil ==> t.dist == Len(t.segments, len(t.segments))
  ensures [closed] err == nil ==> (t.isClosed <==> closed(ps))

contract navigator.RestoreTrack (id, color, ps) (t, err)
  modifies nothing
  inv (segments []Segment) forall k int :: {segments[k]} 0 <= k && k < len(segments) ==> faithful(segments[k], ps[k], ps[k + 1], k)
  inv (segments []Segment, i int) len(segments) == i
  inv (segments []Segment) len(segments) == len(ps) - 1
  inv (segments []Segment, dist float64) dist == Len(segments, len(segments))
  ensures [rejects] len(ps) < 2 ==> err != nil
  ensures [accepts] err != nil ==> len(ps) < 2 || len(id) == 0
  ensures [failed] err != nil ==> t == nil
  ensures [kept] err == nil ==> t.id == id && t.color == color
  ensures [count] err == nil ==> t != nil && len(t.segments) == len(ps) - 1
  ensures [chain] err == nil ==> forall i int :: {t.segments[i]} 0 <= i && i < len(t.segments) ==> faithful(t.segments[i], ps[i], ps[i + 1], i)
  ensures [length] err == nil ==> t.dist == Len(t.segments, len(t.segments))
  ensures [closed] err == nil ==> (t.isClosed <==> closed(ps))

// What a user reads of a track.
contract (*navigator.Track).NumSegments (t) (n)
  requires t != nil
  modifies nothing
  ensures [exact] n == len(t.segments)
contract (*navigator.Track).SegmentAt (t, i) (s)
  requires t != nil
  modifies nothing
  ensures [inside] 0 <= i && i < len(t.segments) ==> s == t.segments[i]
  ensures [outside] (i < 0 || i >= len(t.segments)) ==> s.dist == 0
contract (*navigator.Track).Distance (t) (d)
  requires t != nil
  modifies nothing
  ensures [exact] d == t.dist
contract (*navigator.Track).IsClosed (t) (c)
  requires t != nil
  modifies nothing
  ensures [exact] c == t.isClosed
contract (navigator.Segment).PointA (s) (p)
  modifies nothing
  ensures [exact] p == s.pointA
contract (navigator.Segment).PointB (s) (p)
  modifies nothing
  ensures [exact] p == s.pointB
contract (navigator.Segment).Index (s) (i)
  modifies nothing
  ensures [exact] i == s.index
contract (navigator.Segment).Distance (s) (d)
  modifies nothing
  ensures [exact] d == s.dist
contract (navigator.Segment).Bearing (s) (b)
  modifies nothing
  ensures [exact] b == s.bearing
