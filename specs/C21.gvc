option terminates
package gpsgen
def okReg(g *Generator) bool = g != nil && (forall i int :: {g.devices[i]} 0 <= i && i < len(g.devices) ==> g.devices[i] != nil && g.devices[i].state != nil)
// Device m is the first one attached with this identifier.
def firstDevice(g *Generator, id string, m int) bool =
  0 <= m && m < len(g.devices) && g.devices[m].state.Id == id && (forall k int :: {g.devices[k]} 0 <= k && k < m ==> g.devices[k].state.Id != id)
def attached(g *Generator, id string) bool = exists m int :: {g.devices[m]} 0 <= m && m < len(g.devices) && g.devices[m].state.Id == id
def sameRegistry(g *Generator) bool = g.devices == old(g.devices) && (forall k int :: {g.devices[k]} 0 <= k && k < len(g.devices) ==> g.devices[k] == old(g.devices[k]))

contract (*gpsgen.Device).ID (d) (id)
  requires d != nil && d.state != nil
  modifies nothing
  ensures [id] id == d.state.Id
contract (*gpsgen.Device).Status (d) (s)
  requires d != nil
  modifies nothing
  ensures [status] s == d.status
helper (*gpsgen.Device).mount (d) (err)
  requires d != nil && d.state != nil
  modifies d.status
  ensures [decides] err == nil <==> old(d.status) != Running
  ensures [running] d.status == Running
helper (*gpsgen.Device).unmount (d) (err)
  requires d != nil && d.state != nil
  modifies d.status
  ensures [decides] err == nil <==> old(d.status) != Stopped
  ensures [stopped] d.status == Stopped

contract gpsgen.NewDevice (opts) (d, err)
  noframe
  ghosts
  ensures [stopped] err == nil ==> d != nil && d.status == Stopped && d.state != nil

contract gpsgen.New (opts) (g)
  noframe
  ensures [empty] okReg(g) && len(g.devices) == 0

contract (*gpsgen.Generator).Attach (g, d) (err)
  requires okReg(g) && (d == nil || d.state != nil)
  modifies g.devices, elems(g.devices), d.status
  ensures [none] d == nil ==> err == nil && sameRegistry(g)
  ensures [running] d != nil && old(d.status) == Running ==> err != nil && sameRegistry(g) && d.status == Running
  ensures [attached] d != nil && old(d.status) != Running ==> err == nil && d.status == Running && len(g.devices) == old(len(g.devices)) + 1 && g.devices[old(len(g.devices))] == d
  ensures [kept] forall k int :: {g.devices[k]} 0 <= k && k < old(len(g.devices)) ==> g.devices[k] == old(g.devices[k])
  ensures [intact] okReg(g)

contract (*gpsgen.Generator).Detach (g, id) (err)
  requires okReg(g)
  modifies g.devices, elems(g.devices), all(gpsgen.Device.status)
  inv (i int) forall k int :: {g.devices[k]} 0 <= k && k < i ==> g.devices[k].state.Id != id
  ensures [absent] id == "" || !old(attached(g, id)) ==> err == nil && sameRegistry(g) && heapeq(gpsgen.Device)
  ensures [length] id != "" && old(attached(g, id)) ==> len(g.devices) == old(len(g.devices)) - 1
  ensures [before] id != "" ==> (forall m int, k int :: old(firstDevice(g, id, m)) && 0 <= k && k < m ==> g.devices[k] == old(g.devices[k]))
  ensures [after] id != "" ==> (forall m int, k int :: old(firstDevice(g, id, m)) && m <= k && k < len(g.devices) ==> g.devices[k] == old(g.devices[k+1]))
  ensures [stopped] id != "" ==> (forall m int :: old(firstDevice(g, id, m)) ==> old(g.devices[m]).status == Stopped && (err == nil <==> old(g.devices[m].status) != Stopped))
  ensures [others] id != "" ==> (forall m int, d *Device :: {d.status} old(firstDevice(g, id, m)) && alloc(d) && d != old(g.devices[m]) ==> d.status == old(d.status))
  ensures [intact] okReg(g)

contract (*gpsgen.Generator).Lookup (g, id) (d, ok)
  requires okReg(g)
  modifies nothing
  inv (i int) forall k int :: {g.devices[k]} 0 <= k && k < i ==> g.devices[k].state.Id != id
  ensures [decides] ok <==> id != "" && attached(g, id)
  ensures [found] ok ==> (exists m int :: {g.devices[m]} firstDevice(g, id, m) && d == g.devices[m])
  ensures [absent] !ok ==> d == nil

contract (*gpsgen.Generator).HasTracker (g, id) (ok)
  requires okReg(g)
  modifies nothing
  inv (i int) forall k int :: {g.devices[k]} 0 <= k && k < i ==> g.devices[k].state.Id != id
  ensures [decides] ok <==> attached(g, id)

contract (*gpsgen.Generator).NumDevices (g) (n)
  requires okReg(g)
  modifies nothing
  ensures [exact] n == len(g.devices)

contract (*gpsgen.Generator).Each (g, fn)
  requires okReg(g)
  requires fn != nil
  noframe
  ghosts
  inv (i int) ncalls() == old(ncalls()) + i && g.devices == old(g.devices)
  inv (i int) forall k int :: 0 <= k && k < i ==> callfn(old(ncalls()) + k) == fn && callarg(old(ncalls()) + k, 0, int) == k && callarg(old(ncalls()) + k, 1, *Device) == g.devices[k] && callres(old(ncalls()) + k, 0, bool)
  ensures [order] forall k int :: 0 <= k && k < ncalls() - old(ncalls()) ==> callfn(old(ncalls()) + k) == fn && callarg(old(ncalls()) + k, 0, int) == k && callarg(old(ncalls()) + k, 1, *Device) == g.devices[k]
  ensures [goesOn] forall k int :: 0 <= k && k < ncalls() - old(ncalls()) - 1 ==> callres(old(ncalls()) + k, 0, bool)
  ensures [stops] 0 <= ncalls() - old(ncalls()) && ncalls() - old(ncalls()) <= len(g.devices) && (ncalls() - old(ncalls()) < len(g.devices) ==> ncalls() > old(ncalls()) && !callres(ncalls() - 1, 0, bool))
  ensures [intact] sameRegistry(g)
