option floatReal
include "nav.inc"
include "step.inc"
include "ext.inc"
include "devroutes0.inc"
package curve
// Every draw is recorded with its time and its outcome.
contract (*curve.Curve).Point (c, t) (p)
  requires c != nil
  modifies elems(c.points)
  event drawn(c) = t, p.X, p.Y
contract (*curve.Curve).Shuffle (c)
  requires c != nil
  modifies elems(c.points)
  event shuffled(c)

package types
contract (*types.Battery).Value (b) (v)
  requires b != nil
  modifies nothing
  ensures [charge] v == chargeAt(b, b.val)
contract (*types.Battery).IsLow (b) (low)
  requires b != nil
  modifies nothing
  ensures [low] low <==> chargeAt(b, b.val) == b.min
// The charge after so many seconds of use; C02 is about its value.
def raw(b *Battery, used float64) float64 = b.chargeTime > 0 ? 100.0 - used / seconds(b.chargeTime) * 100.0 : b.min
def min1(r float64, lo float64) float64 = r < lo ? lo : r
def chargeAt(b *Battery, used float64) float64 = min1(raw(b, used) > b.max ? b.max : raw(b, used), b.min)

package navigator
def begin(n *Navigator) bool = n.routeIndex == 0 && n.trackIndex == 0 && n.segmentIndex == 0
def pending(n *Navigator) bool = begin(n) && n.currentRouteDistance == 0.0 && n.currentDistance == 0.1000000000000000055511151231257827021181583404541015625
def stays(n *Navigator) bool = n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) && n.segmentIndex == old(n.segmentIndex)

contract (*navigator.Navigator).NextLocation (n, tick, speed) (ok)
  requires okStep(n)
  modifies n.point, n.routeIndex, n.trackIndex, n.segmentIndex, n.offlineIndex, n.currentSegmentDistance, n.currentTrackDistance, n.currentRouteDistance, n.currentDistance
  dec nseg(n) - n.segmentIndex
  inv n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) && n.segmentIndex >= old(n.segmentIndex)
  inv n.segmentIndex == old(n.segmentIndex) || n.segmentIndex < nseg(n)
  inv sameCounters(n) && n.point == old(n.point) && n.offlineIndex == old(n.offlineIndex)
  ensures [position] okNav(n)
  ensures [offline] len(n.routes) > 0 && !old(online(n)) ==> !ok && n.offlineIndex == old(n.offlineIndex) - 1 && stays(n) && sameCounters(n) && n.point == old(n.point)
  ensures [moved] ok ==> n.currentDistance == old(n.currentDistance) + tick * speed && n.routeIndex == old(n.routeIndex) && n.trackIndex == old(n.trackIndex) && n.offlineIndex == old(n.offlineIndex)
  ensures [stopped] !ok ==> n.currentDistance == old(n.currentDistance) || pending(n)
  ensures [finishes] begin(n) && !old(begin(n)) ==> pending(n) && !ok

contract (*navigator.Navigator).IsFinish (n) (ok)
  requires n != nil
  modifies n.currentDistance
  ensures [decides] ok <==> old(pending(n))
  ensures [acknowledged] ok ==> n.currentDistance == 0.0
  ensures [unchanged] !ok ==> n.currentDistance == old(n.currentDistance)

contract (*navigator.Navigator).ToOffline (n)
  requires okStep(n)
  modifies n.offlineIndex
  ensures [offline] n.skipOffline ? n.offlineIndex == old(n.offlineIndex) : n.offline.min <= n.offlineIndex && n.offlineIndex <= n.offline.max

helper (*navigator.Navigator).Sum (n) (s)
  requires okRoutes(n)
  modifies nothing
helper navigator.setDMS (lat, lon, a, b)
  requires a != nil && b != nil
  modifies a.*, b.*
helper navigator.setUTM (lat, lon, u)
  requires u != nil
  modifies u.*

def okLocation(s *proto.Device) bool = s.Location == nil || s.Location.Utm != nil && s.Location.LatDms != nil && s.Location.LonDms != nil
// What publishing the position may touch (its contents are C18's business).
contract (*navigator.Navigator).Update (n, s)
  requires okNav(n) && n.elevation != nil && s != nil && okLocation(s)
  modifies s.Distance, s.Navigator, s.Location, s.IsOffline, s.OfflineDuration, s.Distance.*, s.Navigator.*, s.Location.*, s.Location.Utm.*, s.Location.LatDms.*, s.Location.LonDms.*
  ensures [parts] s.Distance != nil && s.Location != nil && okLocation(s)

package gpsgen
def okParts(d *Device) bool =
  d != nil && d.state != nil && d.state.Routes != nil && d.state.Battery != nil && okLocation(d.state) &&
  d.navigator != nil && okNav(d.navigator) && d.navigator.elevation != nil && d.navigator.elevation.gen != nil && d.speed != nil && d.speed.gen != nil && d.battery != nil &&
  (forall i int :: {d.sensors[i]} 0 <= i && i < len(d.sensors) ==> d.sensors[i] != nil && d.sensors[i].gen != nil)
def entries(d *Device) bool = forall i int :: {d.state.Sensors[i]} 0 <= i && i < len(d.state.Sensors) ==> d.state.Sensors[i] != nil
contract (*gpsgen.Device).updateState (d)
  requires okParts(d) && entries(d)
  modifies d.state.Distance, d.state.Navigator, d.state.Location, d.state.IsOffline, d.state.OfflineDuration, d.state.TimeEstimate, d.state.Sensors
  modifies d.state.Distance.*, d.state.Navigator.*, d.state.Location.*, d.state.Location.Utm.*, d.state.Location.LatDms.*, d.state.Location.LonDms.*, d.state.Battery.Charge, d.state.Battery.ChargeTime
  modifies all(proto.Device_Sensor.ValX), all(proto.Device_Sensor.ValY)

// Every value generator belongs to one component.
def apartGens(d *Device) bool =
  d.speed.gen != d.navigator.elevation.gen &&
  (forall i int :: {d.sensors[i]} 0 <= i && i < len(d.sensors) ==> d.sensors[i].gen != d.speed.gen && d.sensors[i].gen != d.navigator.elevation.gen) &&
  (forall i int, j int :: {d.sensors[i], d.sensors[j]} 0 <= i && i < j && j < len(d.sensors) ==> d.sensors[i].gen != d.sensors[j].gen)
// The time at which the elevation was drawn: the reference for all the others.
def drawTime(d *Device) float64 = latest(drawn, d.navigator.elevation.gen, 0, float64)
def drawnOnce(g *curve.Curve) bool = count(drawn, g) == old(count(drawn, g)) + 1
def reshuffled(g *curve.Curve) bool = count(shuffled, g) == old(count(shuffled, g)) + 1
def drewSensor(d *Device, x *types.Sensor) bool = drawnOnce(x.gen) && latest(drawn, x.gen, 0, float64) == drawTime(d) && x.valX == latest(drawn, x.gen, 1, float64) && x.valY == latest(drawn, x.gen, 2, float64)
def static(d *Device) bool = d.speed.min == d.speed.max
def elapsed(d *Device, tick float64) float64 = old(float64(d.tick)) + tick
def sameDevice(d *Device) bool = d.state == old(d.state) && d.navigator == old(d.navigator) && d.speed == old(d.speed) && d.battery == old(d.battery) && d.sensors == old(d.sensors) && d.avgT == old(d.avgT) && d.ns == old(d.ns) && d.status == old(d.status)
def sameParts(d *Device) bool = allsame(proto.Device) && allsame(navigator.Navigator) && allsame(types.Speed) && allsame(types.Battery) && allsame(types.Sensor)
def low(d *Device, tick float64) bool = old(chargeAt(d.battery, d.battery.val + (float64(d.tick) + tick)) == d.battery.min)
def ticked(d *Device) bool = nbusy() == old(nbusy()) && old(len(d.navigator.routes)) > 0

helper (*gpsgen.Device).isNotValidNS (d, s) (ok)
  requires d != nil
  modifies nothing

contract (*gpsgen.Device).Next (d, tick) (ok)
  requires okParts(d) && okStep(d.navigator) && entries(d) && apartGens(d)
  requires !pending(d.navigator) && d.avgT > 0.0 && d.state.Duration >= 0.0 && tick >= 0.0 && d.tick < 4294967295
  noframe
  ghosts
  inv (i int) forall j int :: {d.sensors[j]} 0 <= j && j < i ==> drewSensor(d, d.sensors[j])
  inv (i int) forall j int :: {d.sensors[j]} i <= j && j < len(d.sensors) ==> count(drawn, d.sensors[j].gen) == old(count(drawn, d.sensors[j].gen))
  inv count(drawn, d.speed.gen) == $pre(count(drawn, d.speed.gen)) && latest(drawn, d.speed.gen, 0, float64) == $pre(latest(drawn, d.speed.gen, 0, float64)) && latest(drawn, d.speed.gen, 2, float64) == $pre(latest(drawn, d.speed.gen, 2, float64))
  inv count(drawn, d.navigator.elevation.gen) == $pre(count(drawn, d.navigator.elevation.gen)) && drawTime(d) == $pre(drawTime(d)) && latest(drawn, d.navigator.elevation.gen, 1, float64) == $pre(latest(drawn, d.navigator.elevation.gen, 1, float64)) && latest(drawn, d.navigator.elevation.gen, 2, float64) == $pre(latest(drawn, d.navigator.elevation.gen, 2, float64))
  inv d.navigator.elevation.valX == $pre(d.navigator.elevation.valX) && d.navigator.elevation.valY == $pre(d.navigator.elevation.valY)
  inv (i int) forall j int :: {d.sensors[j]} 0 <= j && j < i ==> reshuffled(d.sensors[j].gen)
  inv (i int) forall j int :: {d.sensors[j]} i <= j && j < len(d.sensors) ==> count(shuffled, d.sensors[j].gen) == old(count(shuffled, d.sensors[j].gen))
  inv count(shuffled, d.speed.gen) == $pre(count(shuffled, d.speed.gen)) && count(shuffled, d.navigator.elevation.gen) == $pre(count(shuffled, d.navigator.elevation.gen))
  // a busy device only counts the tick, a device without routes does nothing at all
  ensures [busy] nbusy() > old(nbusy()) ==> !ok && d.tick == old(d.tick) + 1 && sameDevice(d) && sameParts(d)
  ensures [noRoutes] nbusy() == old(nbusy()) && len(old(d.navigator.routes)) == 0 ==> !ok && d.tick == old(d.tick) && sameDevice(d) && sameParts(d)
  // time
  ensures [missed] ticked(d) ==> d.tick == 0 && d.state.Tick == elapsed(d, tick)
  ensures [duration] ticked(d) && (d.navigator.currentDistance != 0.0 || old(d.navigator.currentDistance) == 0.0 && !begin(d.navigator)) ==> d.state.Duration == old(d.state.Duration) + elapsed(d, tick)
  ensures [runs] ok ==> d.state.Duration == old(d.state.Duration) + elapsed(d, tick)
  // battery
  ensures [battery] ticked(d) ==> d.battery.val == (low(d, tick) ? 0.0 : old(d.battery.val) + elapsed(d, tick))
  ensures [recharges] ticked(d) && low(d, tick) && !d.navigator.skipOffline && d.navigator.offline.min >= 1 ==>
    !ok && d.navigator.offlineIndex >= d.navigator.offline.min - 1 && d.navigator.offlineIndex < d.navigator.offline.max && stays(d.navigator) && d.navigator.point == old(d.navigator.point)
  // everything is drawn at the same normalised time
  ensures [time] ok ==> 0.0 <= drawTime(d) && drawTime(d) <= 1.0
  ensures [elevation] ok ==> drawnOnce(d.navigator.elevation.gen) && d.navigator.elevation.valX == latest(drawn, d.navigator.elevation.gen, 1, float64) && d.navigator.elevation.valY == latest(drawn, d.navigator.elevation.gen, 2, float64)
  ensures [speed] ok && !static(d) ==> drawnOnce(d.speed.gen) && latest(drawn, d.speed.gen, 0, float64) == drawTime(d) && d.speed.val == latest(drawn, d.speed.gen, 2, float64)
  ensures [publishedSpeed] ticked(d) ==> d.state.Speed == (static(d) ? d.speed.min : d.speed.val)
  ensures [sensors] ok ==> (forall i int :: {d.sensors[i]} 0 <= i && i < len(d.sensors) ==> drewSensor(d, d.sensors[i]))
  ensures [location] ok ==> d.navigator.currentDistance == old(d.navigator.currentDistance) + elapsed(d, tick) * d.state.Speed
  // completing the routes
  ensures [restart] ticked(d) && (begin(d.navigator) && !old(begin(d.navigator)) || !ok && d.navigator.currentDistance != old(d.navigator.currentDistance)) ==>
    !ok && d.state.Duration == 0.0 && d.navigator.currentDistance == 0.0
  ensures [reshuffle] ticked(d) && (begin(d.navigator) && !old(begin(d.navigator)) || !ok && d.navigator.currentDistance != old(d.navigator.currentDistance)) ==>
    reshuffled(d.speed.gen) && reshuffled(d.navigator.elevation.gen) && (forall i int :: {d.sensors[i]} 0 <= i && i < len(d.sensors) ==> reshuffled(d.sensors[i].gen))
