option floatReal
package types

extern "github.com/google/uuid.Parse" (s) (u, err)

def badAmp(a int) bool = a < 4 || a > 512
def effMax(lo float64, hi float64) float64 = hi <= 0.0 ? lo : hi

contract types.NewSpeed (lo, hi, amp) (s, err)
  modifies nothing
  ensures [rejects] err != nil <==> lo < 0.0 || effMax(lo, hi) > 1000.0 || lo > effMax(lo, hi) || badAmp(amp)
  ensures [documented] err != nil ==> (err == ErrMinSpeed && lo < 0.0) || (err == ErrMaxSpeed && effMax(lo, hi) > 1000.0) || (err == ErrSpeedMinGreaterMax && lo > effMax(lo, hi)) || (err == ErrMinAmplitude && amp < 4) || (err == ErrMaxAmplitude && amp > 512)
  ensures [limits] err == nil ==> s != nil && 0.0 <= s.min && s.min <= s.max && s.max <= 1000.0
  ensures [kept] err == nil && lo > 0.0 ==> s.min == lo && s.max == effMax(lo, hi)
  ensures [keptzero] err == nil && lo == 0.0 && hi > 0.0 ==> s.min == 0.0 && s.max == hi
  ensures [default] err == nil && lo == 0.0 && hi <= 0.0 ==> s.min == 1.0 && s.max == 1.0
  ensures [generator] err == nil ==> s.gen != nil && len(s.gen.points) == amp && s.gen.min == s.min && s.gen.max == s.max

contract types.NewBattery (lo, hi, t) (b, err)
  modifies nothing
  ensures [rejects] err != nil <==> lo < 0.0 || hi < 0.0 || hi > 100.0
  ensures [documented] err != nil ==> (err == ErrMinBattery && (lo < 0.0 || hi < 0.0)) || (err == ErrMaxBattery && hi > 100.0)
  ensures [limits] err == nil ==> b != nil && 0.0 <= b.min && b.min <= b.max && b.max <= 100.0 && b.chargeTime >= 0
  ensures [kept] err == nil ==> b.max == hi && (lo <= hi ==> b.min == lo) && (lo > hi ==> b.min == hi) && (t > 0 ==> b.chargeTime == t)
  ensures [default] err == nil && t < 0 ==> b.chargeTime == 32400000000000
  ensures [full] err == nil ==> b.val == 0.0

contract types.NewSensor (name, lo, hi, amp, mode) (s, err)
  modifies nothing
  ensures [rejects] err != nil <==> badAmp(amp) || len(name) == 0
  ensures [documented] err != nil ==> (err == ErrMinAmplitude && amp < 4) || (err == ErrMaxAmplitude && amp > 512) || (err == ErrEmptySensorName && len(name) == 0)
  ensures [kept] err == nil ==> s != nil && s.name == name && s.min == lo && s.max == hi
  ensures [generator] err == nil ==> s.gen != nil && len(s.gen.points) == amp && s.gen.min == lo && s.gen.max == hi && s.gen.mode == (mode > 0 ? mode : 32768)

contract types.RestoreSensor (id, name, lo, hi, amp, mode) (s, err)
  modifies nothing
  ensures [rejects] err == nil ==> !badAmp(amp) && len(name) > 0
  ensures [documented] len(name) > 0 && badAmp(amp) ==> err != nil
  ensures [kept] err == nil ==> s != nil && s.name == name && s.min == lo && s.max == hi
  ensures [generator] err == nil ==> s.gen != nil && len(s.gen.points) == amp && s.gen.min == lo && s.gen.max == hi && s.gen.mode == (mode > 0 ? mode : 32768)

contract types.NewRandom (lo, hi) (r)
  modifies nothing
  ensures [limits] r != nil && 0 <= r.min && r.min <= r.max
  ensures [kept] 0 <= lo && lo <= hi && hi > 0 ==> r.min == lo && r.max == hi
  ensures [default] lo <= 0 && hi <= 0 ==> r.min == 0 && r.max <= 1

contract (*types.Random).Value (r) (v)
  modifies nothing
  requires r != nil && 0 <= r.min && r.min <= r.max && r.max - r.min < 4294967296
  ensures [range] r.min <= v && v <= r.max

contract types.NewModel (s) (m, err)
  modifies nothing
  ensures [rejects] err != nil <==> len(s) < 3 || len(s) > 64
  ensures [documented] err != nil ==> (err == ErrModelTooShort && len(s) < 3 || err == ErrModelTooLong && len(s) > 64) && m.val == ""
  ensures [kept] err == nil ==> m.val == s

contract types.RandomModel () (m)
  modifies nothing
  ensures [valid] len(m.val) >= 3 && len(m.val) <= 64

contract (types.Model).IsEmpty (m) (r)
  modifies nothing
  ensures [exact] r <==> m.val == ""

package navigator

helper (*navigator.navigatorOptions).validate (o) (err)
  requires o != nil
  modifies o.*
  ensures [rejects] err != nil <==> old(o.minOffline) < 0 || old(o.maxOffline) > 3600 || old(o.elevationMin) < 0.0 || old(o.elevationMax) > 50000.0
  ensures [limits] err == nil ==> 0 <= o.minOffline && o.minOffline <= o.maxOffline && o.maxOffline <= 3600 && o.maxOffline > 0
  ensures [elevation] err == nil ==> 0.0 <= o.elevationMin && o.elevationMin <= o.elevationMax && o.elevationMax <= 50000.0 && o.elevationMax > 0.0
  ensures [keptoffline] err == nil && old(o.minOffline) <= old(o.maxOffline) && old(o.maxOffline) > 0 ==> o.minOffline == old(o.minOffline) && o.maxOffline == old(o.maxOffline)
  ensures [keptelevation] err == nil && old(o.elevationMin) <= old(o.elevationMax) && old(o.elevationMax) > 0.0 ==> o.elevationMin == old(o.elevationMin) && o.elevationMax == old(o.elevationMax)
  ensures [rest] o.elevationMode == old(o.elevationMode) && o.elevationAmplitude == old(o.elevationAmplitude) && o.skipOffline == old(o.skipOffline)

// The options are arbitrary functions over the option record.
contract navigator.New (opts) (n, err)
  modifies nothing
  ghosts
  mutators
  requires forall i int :: 0 <= i && i < len(opts) ==> opts[i] != nil
  ensures [failed] (err != nil) == (n == nil)
  ensures [offline] err == nil && !n.skipOffline ==> n.offline != nil && 0 <= n.offline.min && n.offline.min <= n.offline.max && n.offline.max <= 3600
  ensures [elevation] err == nil ==> n.elevation != nil && 0.0 <= n.elevation.min && n.elevation.min <= n.elevation.max && n.elevation.max <= 50000.0
  ensures [generator] err == nil ==> n.elevation.gen != nil && n.elevation.gen.min == n.elevation.min && n.elevation.gen.max == n.elevation.max && 4 <= len(n.elevation.gen.points) && len(n.elevation.gen.points) <= 512
  ensures [start] err == nil ==> len(n.routes) == 0 && n.routeIndex == 0 && n.trackIndex == 0 && n.segmentIndex == 0

contract navigator.ParseName (s) (m, err)
  modifies nothing
  ensures [rejects] err != nil <==> len(s) < 3 || len(s) > 256
  ensures [kept] err == nil ==> m.value == s
  ensures [failed] err != nil ==> m.value == ""

contract (*navigator.Route).ChangeName (r, s) (err)
  requires r != nil
  modifies r.name, r.version
  ensures [rejects] err != nil <==> len(s) < 3 || len(s) > 256
  ensures [kept] err == nil ==> r.name.value == s
  ensures [failed] err != nil ==> r.name == old(r.name) && r.version == old(r.version)

contract (*navigator.Track).ChangeName (r, s) (err)
  requires r != nil
  modifies r.name, r.version
  ensures [rejects] err != nil <==> len(s) < 3 || len(s) > 256
  ensures [kept] err == nil ==> r.name.value == s
  ensures [failed] err != nil ==> r.name == old(r.name) && r.version == old(r.version)

package gpsgen

contract (*gpsgen.Device).SetModel (d, s) (err)
  modifies d.state.Model
  requires d != nil && d.state != nil
  ensures [rejects] err != nil <==> len(s) < 3 || len(s) > 64
  ensures [kept] err == nil ==> d.state.Model == s
  ensures [failed] err != nil ==> d.state.Model == old(d.state.Model)

contract gpsgen.NewDevice (o) (d, err)
  ghosts
  modifies o.ID
  ensures [speed] err == nil ==> d != nil && d.speed != nil && 0.0 <= d.speed.min && d.speed.min <= d.speed.max && d.speed.max <= 1000.0
  ensures [battery] err == nil ==> d.battery != nil && 0.0 <= d.battery.min && d.battery.min <= d.battery.max && d.battery.max <= 100.0
  ensures [navigator] err == nil ==> d.navigator != nil
  ensures [rejectsspeed] o != nil && (old(o.Speed.Min) < 0.0 || old(o.Speed.Max) > 1000.0 || old(o.Speed.Max) > 0.0 && old(o.Speed.Min) > old(o.Speed.Max)) ==> err != nil
  ensures [rejectsbattery] o != nil && (old(o.Battery.Min) < 0.0 || old(o.Battery.Max) < 0.0 || old(o.Battery.Max) > 100.0) ==> err != nil
  ensures [rejectsmodel] o != nil && old(len(o.Model)) > 0 && (old(len(o.Model)) < 3 || old(len(o.Model)) > 64) ==> err != nil
  ensures [model] err == nil && o != nil && old(len(o.Model)) > 0 ==> d.state.Model == old(o.Model)
  ensures [keptspeed] err == nil && o != nil && old(o.Speed.Min) > 0.0 && old(o.Speed.Max) > 0.0 ==> d.speed.min == old(o.Speed.Min) && d.speed.max == old(o.Speed.Max)
  ensures [keptbattery] err == nil && o != nil && old(o.Battery.Min) <= old(o.Battery.Max) ==> d.battery.min == old(o.Battery.Min) && d.battery.max == old(o.Battery.Max)
  ensures [keptid] err == nil && o != nil && old(o.ID) != "" ==> d.state.Id == old(o.ID)
  ensures [stopped] err == nil ==> d.status == Stopped
