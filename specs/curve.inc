// The value a generator draws, as a function of its control points and the normalised time.
package curve
rec P(t float64, j int) float64 = j <= 1 ? t : self(t, j - 1) * t
def VX(r [0]point, o int, t float64, j int) float64 = j == 0 ? at(r, o, j).cp.X : at(r, o, j).cp.X * P(t, j)
def VY(r [0]point, o int, t float64, j int) float64 = j == 0 ? at(r, o, j).cp.Y : at(r, o, j).cp.Y * P(t, j)
rec SX(r [0]point, o int, m int, t float64, k int) float64 = k <= 0 ? VX(r, o, t, m) : self(r, o, m, t, k - 1) + VX(r, o, t, m - k) * P(1.0 - t, k)
rec SY(r [0]point, o int, m int, t float64, k int) float64 = k <= 0 ? VY(r, o, t, m) : self(r, o, m, t, k - 1) + VY(r, o, t, m - k) * P(1.0 - t, k)

contract (*curve.Curve).Point (c, t) (p)
  requires c != nil && len(c.points) >= 1
  modifies elems(c.points)
  inv forall j int :: {c.points[j]} 0 <= j && j < len(c.points) ==> c.points[j].cp == old(c.points[j].cp)
  inv (u float64) u == P(t, $k + 1)
  inv forall j int :: {c.points[j]} 0 <= j && j <= $k ==> c.points[j].vp.X == VX(row(c.points), off(c.points), t, j) && c.points[j].vp.Y == VY(row(c.points), off(c.points), t, j)
  inv (tt float64) tt == P(1.0 - t, $k + 1)
  inv (p curve.Point) p.X == SX(old(row(c.points)), off(c.points), len(c.points) - 1, t, $k)
  inv (p curve.Point) p.Y == SY(old(row(c.points)), off(c.points), len(c.points) - 1, t, $k)
  inv (i int) i == len(c.points) - 2 - $k
  inv (i int) i >= -1
  ensures [drawn] p.X == old(SX(row(c.points), off(c.points), len(c.points) - 1, t, len(c.points) - 1)) && p.Y == old(SY(row(c.points), off(c.points), len(c.points) - 1, t, len(c.points) - 1))

contract (*curve.Curve).Shuffle (c)
  requires c != nil
  modifies elems(c.points)
  event shuffled(c)
