include "ext.inc"
option locks
option nosafety
// Shared state of a device and of a generator, and the locks that protect it. Executions that panic are excluded (C05, C13).
guard gpsgen.Device.mu : navigator, sensors, state, status, speed, battery, ns, avgT
nested gpsgen.Device.mu : navigator.Navigator, types.Battery, types.Speed, proto.Device, proto.Device_Distance, proto.Device_Navigator, proto.Device_Battery, proto.Device_Location, proto.Device_Location_DMS, proto.Device_Location_UTM, proto.Device_Routes, proto.Device_Unit
nested gpsgen.Device.mu write : types.Sensor, curve.Curve, navigator.Route, navigator.Track, proto.Device_Sensor, proto.Device_Routes_Route, proto.Device_Routes_Route_Track
atomic gpsgen.Device.tick
guard gpsgen.Generator.mu : devices, onError, onPacket, onNext
nested gpsgen.Generator.mu write : gpsgen.Device
nested gpsgen.Generator.dmu : proto.Packet
nested gpsgen.Generator.dmu write : proto.Device

package gpsgen
extern "google.golang.org/protobuf/proto.Marshal" (m) (data, err)
  modifies nothing
extern "google.golang.org/protobuf/proto.Unmarshal" (data, m) (err)
  modifies unbox(m, *proto.Snapshot).*
extern "(google.golang.org/protobuf/proto.MarshalOptions).MarshalAppend" (o, buf, m) (data, err)
  modifies nothing

package curve
contract (*curve.Curve).Point (c, t) (p)
  modifies elems(c.points)
contract (*curve.Curve).Shuffle (c)
  modifies elems(c.points)
contract (*curve.Curve).Snapshot (c) (s)
  modifies nothing
contract (*curve.Curve).FromSnapshot (c, s)
  modifies c.*

package types
contract (*types.Battery).Value (b) (v)
  modifies nothing
contract (*types.Battery).IsLow (b) (v)
  modifies nothing
contract (*types.Battery).Next (b, s)
  modifies b.*
contract (*types.Battery).Reset (b)
  modifies b.*
contract (*types.Battery).FromSnapshot (b, s)
  modifies b.*
contract (*types.Speed).Next (t, x)
  modifies t.*, elems(t.gen.points)
contract (*types.Speed).Shuffle (t)
  modifies t.*, elems(t.gen.points)
contract (*types.Speed).FromSnapshot (t, s)
  modifies t.*
contract (*types.Sensor).Next (t, x)
  modifies t.valX, t.valY, elems(t.gen.points)
contract (*types.Sensor).Shuffle (t)
  modifies elems(t.gen.points)
contract (*types.Sensor).Snapshot (t) (s)
  modifies nothing
contract (*types.Sensor).FromSnapshot (t, s)
  modifies t.*

contract (*types.Speed).Snapshot (t) (s)
  modifies nothing
contract (*types.Battery).Snapshot (t) (s)
  modifies nothing

package navigator
contract navigator.SegmentFromSnapshot (s) (x)
  modifies nothing
contract navigator.TrackFromSnapshot (t, s)
  modifies t.*
contract (*navigator.Route).RouteFromSnapshot (r, s) (err)
  modifies r.*
  inv (tracks []*navigator.Track) forall i int :: 0 <= i && i < $k ==> fresh(tracks[i])
contract (*navigator.Track).Snapshot (t) (s)
  modifies nothing
contract (*navigator.Route).Snapshot (t) (s)
  modifies nothing
contract (*navigator.Route).Props (r) (p)
  modifies r.props
contract (*navigator.Track).Props (t) (p)
  modifies t.props
contract navigator.setDMS (lat, lon, a, b)
  modifies a.*, b.*
contract navigator.setUTM (lat, lon, u)
  modifies u.*
contract (*navigator.Navigator).AddRoute (n, rs)
  modifies n.*, allelems(*navigator.Route), allelems(*navigator.Track), all(navigator.Route.tracks), all(navigator.Route.dist), all(navigator.Route.version)
contract (*navigator.Navigator).ResetRoutes (n)
  modifies n.*, allelems(*navigator.Route), allelems(*navigator.Track), all(navigator.Route.tracks), all(navigator.Route.dist), all(navigator.Route.version)
contract (*navigator.Navigator).RemoveRoute (n, id)
  modifies n.*, allelems(*navigator.Route), allelems(*navigator.Track), all(navigator.Route.tracks), all(navigator.Route.dist), all(navigator.Route.version)
contract (*navigator.Navigator).RemoveTrack (n, rid, tid)
  modifies n.*, allelems(*navigator.Route), allelems(*navigator.Track), all(navigator.Route.tracks), all(navigator.Route.dist), all(navigator.Route.version)
contract (*navigator.Navigator).NextRoute (n)
  modifies n.*
contract (*navigator.Navigator).PrevRoute (n)
  modifies n.*
contract (*navigator.Navigator).MoveToRouteByID (n, id)
  modifies n.*
contract (*navigator.Navigator).MoveToTrackByID (n, a, b)
  modifies n.*, allelems(*navigator.Route), allelems(*navigator.Track), all(navigator.Route.tracks), all(navigator.Route.dist), all(navigator.Route.version)
contract (*navigator.Navigator).MoveToRoute (n, i)
  modifies n.*
contract (*navigator.Navigator).MoveToTrack (n, i, j)
  modifies n.*
contract (*navigator.Navigator).MoveToSegment (n, i, j, k)
  modifies n.*
contract (*navigator.Navigator).DestinationTo (n, m)
  modifies n.*
contract (*navigator.Navigator).ToOffline (n)
  modifies n.*
contract (*navigator.Navigator).NextLocation (n, t, s)
  modifies n.*
contract (*navigator.Navigator).Reset (n)
  modifies n.*
contract (*navigator.Navigator).FromSnapshot (n, s)
  modifies n.*
  inv (i int) forall j int :: {n.routes[j]} 0 <= j && j < i ==> fresh(n.routes[j])
contract (*navigator.Navigator).NextElevation (n, t)
  modifies n.elevation.valX, n.elevation.valY, elems(n.elevation.gen.points)
contract (*navigator.Navigator).ShuffleElevation (n)
  modifies n.elevation.valX, n.elevation.valY, elems(n.elevation.gen.points)
contract (*navigator.Navigator).Sum (n)
  modifies nothing
contract (*navigator.Navigator).Snapshot (n)
  modifies nothing
contract (*navigator.Navigator).Routes (n)
  modifies nothing
contract (*navigator.Navigator).RouteByID (n, id)
  modifies nothing
contract (*navigator.Navigator).Update (n, s)
  modifies s.Distance, s.Navigator, s.Location, s.IsOffline, s.OfflineDuration, s.Distance.*, s.Navigator.*, s.Location.*, s.Location.Utm.*, s.Location.LatDms.*, s.Location.LonDms.*

package gpsgen
// Refreshing the published state is done under the exclusive lock of the caller.
helper (*gpsgen.Device).updateSensors (d)
  requires lock(d.mu) == 2
  modifies d.state.Sensors
helper (*gpsgen.Device).updateState (d)
  requires lock(d.mu) == 2
  modifies d.state.Distance, d.state.Navigator, d.state.Location, d.state.IsOffline, d.state.OfflineDuration, d.state.TimeEstimate, d.state.Sensors
  modifies d.state.Distance.*, d.state.Navigator.*, d.state.Location.*, d.state.Location.Utm.*, d.state.Location.LatDms.*, d.state.Location.LonDms.*, d.state.Battery.Charge, d.state.Battery.ChargeTime
  modifies all(proto.Device_Sensor.ValX), all(proto.Device_Sensor.ValY)
helper (*gpsgen.Device).updateRoutes (d)
  requires lock(d.mu) == 2
  modifies d.state.Routes.Routes, d.avgT, d.ns, all(navigator.Route.props), all(navigator.Track.props)
  inv fresh(arr(d.state.Routes.Routes))
  inv (tracks []*proto.Device_Routes_Route_Track) arr(tracks) == 0 || fresh(arr(tracks))
// Public methods: none of the locks is held on entry, and each is free again on return.
contract (*gpsgen.Device).ID (d)
  modifies nothing
  requires lock(d.mu) == 0
contract (*gpsgen.Device).Model (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).UserID (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).Color (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).Descr (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).Sensors (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).NumRoutes (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).NumSensors (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).Routes (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).Status (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).State (d)
  modifies nothing
  requires lock(d.mu) == 0
contract (*gpsgen.Device).Update (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).ResetSensors (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).CurrentBearing (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).Distance (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).CurrentDistance (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).RouteDistance (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).CurrentRouteDistance (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).TrackDistance (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).CurrentTrackDistance (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).SegmentDistance (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).CurrentSegmentDistance (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).IsFinish (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).CurrentRoute (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).CurrentTrack (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).CurrentSegment (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).RouteIndex (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).TrackIndex (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).SegmentIndex (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).IsOffline (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).ResetRoutes (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).Location (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).ToPrevRoute (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).ToNextRoute (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).ToOffline (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).ResetNavigator (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).Duration (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).Version (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).Snapshot (d)
  modifies nothing
  requires lock(d.mu) == 0
contract (*gpsgen.Device).MarshalBinary (d)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).mount (d)
  modifies d.status
  requires lock(d.mu) == 0
contract (*gpsgen.Device).unmount (d)
  modifies d.status
  requires lock(d.mu) == 0
contract (*gpsgen.Device).SensorByID (d, id)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).SensorAt (d, i)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).EachSensor (d, fn)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).EachRoute (d, fn)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).RouteAt (d, i)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).SetModel (d, m)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).SetUserID (d, id)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).SetDescription (d, x)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).SetColor (d, c)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).AddSensor (d, s)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).RemoveSensor (d, id)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).AddRoute (d, rs)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).RemoveRoute (d, id)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).RemoveTrack (d, a, b)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).DestinationTo (d, m)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).MoveToSegment (d, i, j, k)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).MoveToTrack (d, i, j)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).MoveToRoute (d, i)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).MoveToTrackByID (d, a, b)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).MoveToRouteByID (d, a)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).Next (d, t)
  modifies d.tick, d.ns, d.avgT, d.state.*, d.battery.*, d.speed.*, d.navigator.*, d.navigator.elevation.*, allelems(curve.point), all(types.Sensor.valX), all(types.Sensor.valY)
  modifies all(navigator.Route.props), all(navigator.Track.props), d.state.Distance.*, d.state.Navigator.*, d.state.Location.*, d.state.Location.Utm.*, d.state.Location.LatDms.*, d.state.Location.LonDms.*
  modifies d.state.Battery.*, d.state.Routes.*, all(proto.Device_Sensor.ValX), all(proto.Device_Sensor.ValY)
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).UnmarshalBinary (d, data)
  noframe
  ghosts
  requires lock(d.mu) == 0
contract (*gpsgen.Device).FromSnapshot (d, s)
  noframe
  ghosts
  requires lock(d.mu) == 0
  inv (i int) forall j int :: {d.sensors[j]} 0 <= j && j < i ==> fresh(d.sensors[j])
def unlocked(g *Generator) bool = lock(g.mu) == 0 && lock(g.dmu) == 0
def devicesUnlocked(g *Generator) bool = forall d *Device :: {lock(d.mu)} lock(d.mu) == 0
contract (*gpsgen.Generator).HasTracker (g, id)
  noframe
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
contract (*gpsgen.Generator).Attach (g, d)
  noframe
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
contract (*gpsgen.Generator).Detach (g, id)
  noframe
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
contract (*gpsgen.Generator).Each (g, fn)
  noframe
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
contract (*gpsgen.Generator).Lookup (g, id)
  noframe
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
contract (*gpsgen.Generator).NumDevices (g)
  noframe
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
contract (*gpsgen.Generator).OnError (g, fn)
  noframe
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
contract (*gpsgen.Generator).OnPacket (g, fn)
  noframe
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
contract (*gpsgen.Generator).OnNext (g, fn)
  noframe
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
contract (*gpsgen.Generator).Close (g)
  noframe
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
contract (*gpsgen.Generator).Run (g)
  noframe
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
contract (*gpsgen.Generator).run (g)
  noframe
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
contract (*gpsgen.Generator).flush (g)
  modifies nothing
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
contract (*gpsgen.Generator).doNext (g)
  noframe
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
contract (*gpsgen.Generator).resetPacket (g)
  modifies elems(g.packet.Devices)
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
contract (*gpsgen.Generator).doWorker (g, n)
  noframe
  ghosts
  requires unlocked(g) && devicesUnlocked(g)
