proof "lemmas/Bernstein.lean"
option floatReal
option shallow
package curve

// Binomial coefficients in the order the code computes them, and powers.
rec B(m int, j int) float64 = j <= 0 ? 1.0 : self(m, j - 1) * (float64(m + 1 - j) / float64(j))
rec P(t float64, j int) float64 = j <= 0 ? 1.0 : self(t, j - 1) * t
rec W(m int, t float64, j int) float64 = B(m, j) * P(t, j)
// The last k + 1 of the weights B(m,j) t^j (1-t)^(m-j).
rec T(m int, t float64, k int) float64 =
  (k <= 0 ? 0.0 : self(m, t, k - 1)) + W(m, t, m - k) * P(1.0 - t, k)

// Proved in specs/lemmas/Bernstein.lean.
axiom [binomial] forall m int, t float64, k int :: {T(m, t, k)} m >= 0 && k == m ==> T(m, t, k) == 1.0
axiom [binomialPositive] forall m int, j int :: {B(m, j)} 0 <= j && j <= m ==> B(m, j) >= 0.0
axiom [binomialLast] forall m int, j int :: {B(m, j)} m >= 0 && j == m ==> B(m, j) == 1.0
axiom [powerPositive] forall t float64, j int :: {P(t, j)} t >= 0.0 ==> P(t, j) >= 0.0
axiom [powerZero] forall t float64, j int :: {P(t, j)} j == 0 ==> P(t, j) == 1.0
axiom [powerOfOne] forall t float64, j int :: {P(t, j)} t == 1.0 ==> P(t, j) == 1.0
axiom [powerOfZero] forall t float64, j int :: {P(t, j)} t == 0.0 && j >= 1 ==> P(t, j) == 0.0

def startMode(m int) bool = (m / 16384) % 2 == 1
def endMode(m int) bool = (m / 8192) % 2 == 1
def between(lo float64, w float64, x float64, hi float64) bool = lo * w <= x && x <= hi * w
// A curve over lo..hi: every control point is a value of lo..hi times its weight.
def okCurve(c *Curve, lo float64, hi float64) bool =
  c != nil && lo <= hi && len(c.points) >= 1 && c.mode >= 0 &&
  (forall i int :: {c.points[i]} 0 <= i && i < len(c.points) ==> between(lo, B(len(c.points) - 1, i), c.points[i].cp.Y, hi)) &&
  (startMode(c.mode) ==> c.points[0].cp.Y == lo) &&
  (endMode(c.mode) ==> c.points[len(c.points) - 1].cp.Y == lo)

contract curve.New (lo, hi, n, mode) (c)
  requires lo <= hi
  modifies nothing
  inv (w float64, points []curve.point) $k >= 1 ==> w == B(len(points) - 1, $k - 1)
  inv (points []curve.point) forall j int :: 0 <= j && j < $k ==> between(lo, B(len(points) - 1, j), points[j].cp.Y, hi)
  inv (points []curve.point) forall j int :: 0 <= j && j < len(points) ==> lo <= points[j].vp.Y && points[j].vp.Y <= hi
  inv (points []curve.point) forall j int :: 0 <= j && j < $k ==> lo <= points[j].vp.Y && points[j].vp.Y <= hi
  inv (points []curve.point) $k >= 1 && startMode(mode) ==> points[0].cp.Y == lo
  inv (points []curve.point) $k >= 1 && startMode(mode) ==> points[0].vp.Y == lo
  inv (points []curve.point) startMode(mode) ==> points[0].vp.Y == lo
  inv (points []curve.point) $k >= len(points) && endMode(mode) ==> points[len(points) - 1].vp.Y == lo
  inv (points []curve.point) endMode(mode) ==> points[len(points) - 1].vp.Y == lo
  inv (points []curve.point) $k >= len(points) && endMode(mode) ==> points[len(points) - 1].cp.Y == lo * B(len(points) - 1, len(points) - 1)
  ensures [limits] okCurve(c, lo, hi) && c.min == lo && c.max == hi && c.mode == mode && fresh(c)
  ensures [size] len(c.points) == (n <= 0 ? 4 : n)

contract (*curve.Curve).Point (c, t) (p)
  requires c != nil && okCurve(c, c.min, c.max) && 0.0 <= t && t <= 1.0
  modifies elems(c.points)
  inv forall j int :: {c.points[j]} 0 <= j && j < len(c.points) ==> c.points[j].cp.Y == old(c.points[j].cp.Y)
  inv (u float64) u == P(t, $k + 1)
  inv forall j int :: {c.points[j]} 0 <= j && j <= $k ==> c.points[j].vp.Y == c.points[j].cp.Y * P(t, j)
  inv forall j int :: {c.points[j]} 0 <= j && j <= $k ==> between(c.min, W(len(c.points) - 1, t, j), c.points[j].vp.Y, c.max)
  inv (tt float64) tt == P(1.0 - t, $k + 1)
  inv (p curve.Point) between(c.min, T(len(c.points) - 1, t, $k), p.Y, c.max)
  inv (i int) i == len(c.points) - 2 - $k
  inv (i int) i >= -1
  inv (p curve.Point, i int) t == 0.0 ==> (i < 0 ==> p.Y == c.points[0].cp.Y) && (i >= 0 ==> p.Y == 0.0)
  inv (p curve.Point) t == 1.0 ==> p.Y == c.points[len(c.points) - 1].cp.Y
  ensures [limits] c.min <= p.Y && p.Y <= c.max
  ensures [start] t == 0.0 && startMode(c.mode) ==> p.Y == c.min
  ensures [end] t == 1.0 && endMode(c.mode) ==> p.Y == c.min
  ensures [intact] okCurve(c, c.min, c.max)

contract (*curve.Curve).Shuffle (c)
  requires okCurve(c, c.min, c.max)
  modifies elems(c.points)
  inv (w float64) $k >= 1 ==> w == B(len(c.points) - 1, $k - 1)
  inv forall j int :: 0 <= j && j < $k ==> between(c.min, B(len(c.points) - 1, j), c.points[j].cp.Y, c.max)
  inv forall j int :: 0 <= j && j < len(c.points) ==> c.min <= c.points[j].vp.Y && c.points[j].vp.Y <= c.max
  inv forall j int :: 0 <= j && j < $k ==> c.min <= c.points[j].vp.Y && c.points[j].vp.Y <= c.max
  inv $k >= 1 && startMode(c.mode) ==> c.points[0].cp.Y == c.min
  inv $k >= 1 && startMode(c.mode) ==> c.points[0].vp.Y == c.min
  inv startMode(c.mode) ==> c.points[0].vp.Y == c.min
  inv $k >= len(c.points) && endMode(c.mode) ==> c.points[len(c.points) - 1].vp.Y == c.min
  inv endMode(c.mode) ==> c.points[len(c.points) - 1].vp.Y == c.min
  inv $k >= len(c.points) && endMode(c.mode) ==> c.points[len(c.points) - 1].cp.Y == c.min * B(len(c.points) - 1, len(c.points) - 1)
  ensures [intact] okCurve(c, c.min, c.max)

package types

// A speed generator as its constructor leaves it.
def okSpeed(s *Speed) bool = s != nil && s.gen != nil && okCurve(s.gen, s.gen.min, s.gen.max) && s.gen.min == s.min && s.gen.max == s.max
def okSensor(s *Sensor) bool = s != nil && s.gen != nil && okCurve(s.gen, s.gen.min, s.gen.max) && s.gen.min == s.min && s.gen.max == s.max

extern "github.com/google/uuid.Parse" (s) (u, err)

contract types.NewSpeed (lo, hi, amp) (s, err)
  modifies nothing
  ensures [generator] err == nil ==> okSpeed(s)
  ensures [limits] err == nil && lo > 0.0 && hi > 0.0 ==> s.min == lo && s.max == hi

contract (*types.Speed).Next (s, t)
  requires okSpeed(s) && 0.0 <= t && t <= 1.0
  modifies s.val, elems(s.gen.points)
  ensures [limits] s.min < s.max ==> s.min <= s.val && s.val <= s.max
  ensures [intact] okSpeed(s)

contract (*types.Speed).Value (s) (v)
  requires s != nil
  modifies nothing
  ensures [static] s.min == s.max ==> v == s.min
  ensures [limits] s.min <= s.val && s.val <= s.max ==> s.min <= v && v <= s.max
  ensures [reported] s.min != s.max ==> v == s.val

contract (*types.Speed).Shuffle (s)
  requires okSpeed(s)
  modifies elems(s.gen.points)
  ensures [intact] okSpeed(s)

contract types.NewSensor (name, lo, hi, amp, mode) (s, err)
  requires lo <= hi
  modifies nothing
  ensures [generator] err == nil ==> okSensor(s) && s.min == lo && s.max == hi
  ensures [mode] err == nil && mode > 0 ==> s.gen.mode == mode

contract types.RestoreSensor (id, name, lo, hi, amp, mode) (s, err)
  requires lo <= hi
  modifies nothing
  ensures [generator] err == nil ==> okSensor(s) && s.min == lo && s.max == hi
  ensures [mode] err == nil && mode > 0 ==> s.gen.mode == mode

contract (*types.Sensor).Next (s, t)
  requires okSensor(s) && 0.0 <= t && t <= 1.0
  modifies s.valX, s.valY, elems(s.gen.points)
  ensures [limits] s.min <= s.valY && s.valY <= s.max
  ensures [start] t == 0.0 && startMode(s.gen.mode) ==> s.valY == s.min
  ensures [end] t == 1.0 && endMode(s.gen.mode) ==> s.valY == s.min
  ensures [intact] okSensor(s)

contract (*types.Sensor).ValueY (s) (v)
  requires s != nil
  modifies nothing
  ensures [reported] v == s.valY

contract (*types.Sensor).Shuffle (s)
  requires okSensor(s)
  modifies elems(s.gen.points)
  ensures [intact] okSensor(s)

package navigator

contract (*navigator.Navigator).NextElevation (n, t)
  requires n != nil && okSensor(n.elevation) && 0.0 <= t && t <= 1.0
  modifies n.elevation.valX, n.elevation.valY, elems(n.elevation.gen.points)
  ensures [limits] n.elevation.min <= n.elevation.valY && n.elevation.valY <= n.elevation.max
  ensures [start] t == 0.0 && startMode(n.elevation.gen.mode) ==> n.elevation.valY == n.elevation.min
  ensures [end] t == 1.0 && endMode(n.elevation.gen.mode) ==> n.elevation.valY == n.elevation.min
  ensures [intact] okSensor(n.elevation)

contract (*navigator.Navigator).Elevation (n) (v)
  requires n != nil && okSensor(n.elevation)
  modifies nothing
  ensures [reported] v == n.elevation.valY

contract (*navigator.Navigator).ShuffleElevation (n)
  requires n != nil && okSensor(n.elevation)
  modifies elems(n.elevation.gen.points)
  ensures [intact] okSensor(n.elevation)
