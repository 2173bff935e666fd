option floatReal
package types

def okBattery(b *Battery) bool = b != nil && b.min <= b.max && b.chargeTime >= 0 && b.val >= 0.0
def raw(b *Battery) float64 = b.chargeTime > 0 ? 100.0 - b.val / (float64(b.chargeTime) / 1000000000.0) * 100.0 : b.min
def charge(b *Battery) float64 = raw(b) > b.max ? b.max : raw(b) < b.min ? b.min : raw(b)

contract (*types.Battery).Value (b) (v)
  requires okBattery(b)
  modifies nothing
  ensures [limits] b.min <= v && v <= b.max
  ensures [proportional] v == charge(b)

contract (*types.Battery).IsLow (b) (low)
  requires okBattery(b)
  modifies nothing
  ensures [exact] low <==> charge(b) == b.min

contract (*types.Battery).Next (b, s)
  requires okBattery(b) && s >= 0.0
  modifies b.val
  ensures [time] b.val == old(b.val) + s
  ensures [drains] charge(b) <= old(charge(b))
  ensures [intact] okBattery(b)

contract (*types.Battery).Reset (b)
  requires okBattery(b)
  modifies b.val
  ensures [fresh] b.val == 0.0 && charge(b) == (b.chargeTime == 0 ? b.min : min(b.max, max(b.min, 100.0)))
  ensures [intact] okBattery(b)

contract types.NewBattery (lo, hi, t) (b, err)
  modifies nothing
  ensures [valid] err == nil ==> okBattery(b) && b.val == 0.0

contract (*types.Battery).Min (b) (v)
  requires b != nil
  modifies nothing
  ensures v == b.min

contract (*types.Battery).Max (b) (v)
  requires b != nil
  modifies nothing
  ensures v == b.max

contract (*types.Battery).ChargeTime (b) (v)
  requires b != nil
  modifies nothing
  ensures v == b.chargeTime
