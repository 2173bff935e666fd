option floatReal
package geo

def rad(x float64) float64 = x * 0.017453292519943295
def hav(a float64, b float64, c float64, d float64) float64 =
  math.Sin((rad(c) - rad(a)) / 2.0) * math.Sin((rad(c) - rad(a)) / 2.0) + math.Cos(rad(a)) * math.Cos(rad(c)) * math.Sin((rad(d) - rad(b)) / 2.0) * math.Sin((rad(d) - rad(b)) / 2.0)
// Length of the great circle whose haversine is h; rounding can carry h above one.
def arc(h float64) float64 = 6371000.0 * 2.0 * math.Asin(math.Sqrt(math.Min(h, 1.0)))
def lat(x float64) bool = -90.0 <= x && x <= 90.0

lemma [symmetric] forall a float64, b float64, c float64, d float64 :: hav(a, b, c, d) == hav(c, d, a, b)
lemma [symmetricDistance] forall a float64, b float64, c float64, d float64 :: arc(hav(a, b, c, d)) == arc(hav(c, d, a, b))
lemma [same] forall a float64, b float64 :: arc(hav(a, b, a, b)) == 0.0

contract geo.Distance (a, b, c, d) (m)
  modifies nothing
  ensures [formula] m == arc(hav(a, b, c, d))
  ensures [range] lat(a) && lat(c) ==> m >= 0.0
  ensures [zero] a == c && b == d ==> m == 0.0

contract geo.Haversine (a, b, c, d) (h)
  modifies nothing
  ensures [formula] h == hav(a, b, c, d)
  ensures [range] lat(a) && lat(c) ==> h >= 0.0

contract geo.DistanceFromHaversine (h) (m)
  modifies nothing
  ensures [formula] m == arc(h)
  ensures [range] h >= 0.0 ==> m >= 0.0

contract geo.DistanceToHaversine (m) (h)
  modifies nothing
  ensures [formula] h == math.Sin(0.5 * m / 6371000.0) * math.Sin(0.5 * m / 6371000.0)
  ensures [range] h >= 0.0 && h <= 1.0

contract geo.NormalizeDistance (m) (r)
  modifies nothing
  ensures [formula] r == math.Mod(m, 40030173.59204114)
  ensures [range] m >= 0.0 ==> 0.0 <= r && r < 40030173.59204114

contract geo.Bearing (a, b, c, d) (r)
  modifies nothing
  ensures [formula] r == math.Mod(math.Atan2(math.Sin(rad(d - b)) * math.Cos(rad(c)), math.Cos(rad(a)) * math.Sin(rad(c)) - math.Sin(rad(a)) * math.Cos(rad(c)) * math.Cos(rad(d - b))) * 57.29577951308232 + 360.0, 360.0)
  ensures [range] 0.0 <= r && r < 360.0

def dlat(la float64, m float64, t float64) float64 =
  math.Asin(math.Sin(rad(la)) * math.Cos(m / 6371000.0) + math.Cos(rad(la)) * math.Sin(m / 6371000.0) * math.Cos(rad(t)))
def dlon(la float64, lo float64, m float64, t float64) float64 =
  rad(lo) + math.Atan2(math.Sin(rad(t)) * math.Sin(m / 6371000.0) * math.Cos(rad(la)), math.Cos(m / 6371000.0) - math.Sin(rad(la)) * math.Sin(dlat(la, m, t)))

contract geo.Destination (la, lo, m, t) (x, y)
  modifies nothing
  ensures [lat] x == dlat(la, m, t) * 57.29577951308232
  ensures [lon] y == (math.Mod(dlon(la, lo, m, t) + 9.42477796076938, 6.283185307179586) - 3.141592653589793) * 57.29577951308232
  ensures [latrange] -90.0001 <= x && x <= 90.0001
  ensures [lonrange] -180.0 <= lo && lo <= 180.0 ==> -180.0001 <= y && y < 180.0001

contract (geo.BBox).In (b, p) (ok)
  modifies nothing
  ensures [exact] ok <==> b.MinLon <= p.Lon && p.Lon <= b.MaxLon && b.MinLat <= p.Lat && p.Lat <= b.MaxLat

contract (geo.BBox).Center (b) (p)
  modifies nothing
  ensures [middle] p.Lat + p.Lat == b.MinLat + b.MaxLat && p.Lon + p.Lon == b.MinLon + b.MaxLon
  ensures [inside] b.MinLat <= b.MaxLat && b.MinLon <= b.MaxLon ==> b.MinLat <= p.Lat && p.Lat <= b.MaxLat && b.MinLon <= p.Lon && p.Lon <= b.MaxLon

contract geo.NormalizeCoordinates (la, lo, ps) (r)
  modifies nothing
  inv (i int, coords []geo.LatLonPoint) (forall k int :: 0 <= k && k < i ==> coords[k].Lat == ps[k][0] + la && coords[k].Lon == ps[k][1] + lo)
  ensures [count] len(r) == len(ps)
  ensures [shift] forall i int :: 0 <= i && i < len(ps) ==> r[i].Lat == ps[i][0] + la && r[i].Lon == ps[i][1] + lo
