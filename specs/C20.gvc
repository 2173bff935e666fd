option channels
option floatReal
package gpsgen
// The generator under consideration.
uf self() *Generator
// The channel a context closes when it is done; it carries nothing else.
uf doneOf(c context.Context) int
def apart(c context.Context, ch int) bool = doneOf(c) != ch
uf tsub(a time.Time, b time.Time) int
axiom [elapsed] forall a time.Time, b time.Time :: {tsub(a, b)} tsub(a, b) == -tsub(b, a)
extern "(time.Time).Sub" (a, b) (d)
  modifies nothing
  ensures d == tsub(a, b)
extern "(context.Context).Done" (c) (ch)
  modifies nothing
  ensures ref(ch) == doneOf(c)
extern "runtime.NumCPU" () (n)
  modifies nothing
  ensures n >= 1
// Encoding: the outcome of every call is recorded together with what it was given.
extern "(google.golang.org/protobuf/proto.MarshalOptions).MarshalAppend" (o, buf, m) (data, err)
  requires [slice] typeis(m, *proto.Packet) && handed(unbox(m, *proto.Packet).Devices)
  modifies nothing
  log encoded = data, err
// These states are exactly those of the slice received last.
def handed(ds []*proto.Device) bool =
  arr(ds) == arr(self().packet.Devices) && off(ds) == off(self().packet.Devices) + lastSlice().from && len(ds) == lastSlice().to - lastSlice().from
def lastSlice() slice = recvd(nrecvd(slice) - 1, slice)
// Every slice sent to a worker lies within the packet, and only {0, 0} is empty.
chaninv gpsgen.slice (s) = 0 <= s.from && s.to <= len(self().packet.Devices) && (s.from < s.to || s.from == 0 && s.to == 0)
chancount work gpsgen.slice (s) = s.from < s.to

def okGen(g *Generator) bool = g != nil && g.ctx != nil && g == self() && g.packet != nil && g.numWorkers >= 1 && g.packetSize >= 1024 && len(g.packet.Devices) == g.packetSize && g.workerSize == g.packetSize / g.numWorkers && g.ticker != nil && apart(g.ctx, ref(g.ticker.C)) && apart(g.ctx, ref(g.waitCh)) && apart(g.ctx, ref(g.sliceCh)) && g.waitCh != g.sliceCh
def okDevices(g *Generator) bool = (forall k int :: {g.devices[k]} 0 <= k && k < len(g.devices) ==> g.devices[k] != nil && g.devices[k].state != nil) && (forall k int, j int :: {g.devices[k], g.devices[j]} 0 <= k && k < j && j < len(g.devices) ==> g.devices[k] != g.devices[j] && g.devices[k].state != g.devices[j].state)

def amount(x float64) float64 = x < 0.0 ? -x : x
def elapsed(a time.Time, b time.Time) float64 = amount(seconds(tsub(a, b))) < 1.0 ? 1.0 : amount(seconds(tsub(a, b)))

contract (*gpsgen.Device).Next (d, tick) (ok)
  trusted
  requires [second] tick >= 1.0
  requires [elapsed] nrecvd(time.Time) >= 2 ==> tick == elapsed(recvd(nrecvd(time.Time) - 2, time.Time), recvd(nrecvd(time.Time) - 1, time.Time))
  modifies d.tick, d.ns, d.avgT, d.state.*, d.battery.*, d.speed.*, d.navigator.*, d.navigator.elevation.*, allelems(curve.point), all(types.Sensor.valX), all(types.Sensor.valY)
  modifies all(navigator.Route.props), all(navigator.Track.props), d.state.Distance.*, d.state.Navigator.*, d.state.Location.*, d.state.Location.Utm.*, d.state.Location.LatDms.*, d.state.Location.LonDms.*
  modifies d.state.Battery.*, d.state.Routes.*, all(proto.Device_Sensor.ValX), all(proto.Device_Sensor.ValY)
  event stepped(d)
contract (*gpsgen.Device).State (d) (s)
  requires d != nil
  modifies nothing
  ensures [state] s == d.state

contract gpsgen.New (opts) (g)
  noframe
  ensures [sizes] g != nil && g.packet != nil && g.numWorkers >= 1 && g.packetSize >= 1024 && len(g.packet.Devices) == g.packetSize && g.workerSize == g.packetSize / g.numWorkers
  ensures [asked] old(opts != nil && opts.NumWorkers > 0) ==> g.numWorkers == old(opts.NumWorkers)
  ensures [packet] old(opts != nil && opts.PacketSize >= 1024) ==> g.packetSize == old(opts.PacketSize)
  ensures [interval] g.interval > 0 && (old(opts != nil && opts.Interval > 0) ==> g.interval == old(opts.Interval))

contract (*gpsgen.Generator).Run (g)
  noframe
  ghosts
  requires okGen(g) && count(started_doWorker, 0) == 0 && count(started_run, 0) == 0 && count(started_doNext, 0) == 0
  inv (i int) count(started_doWorker, 0) >= i
  inv count(started_run, 0) == 0 || count(started_run, 0) == 1
  inv count(started_run, 0) == 0
  inv count(started_run, 0) == 1
  ensures [started] count(started_doWorker, 0) >= 1 && count(started_run, 0) == 1

// The slices handed to the workers divide the filled part of the packet, and unless the generator was closed as many acknowledgements were awaited.
def sawClosed(g *Generator) int = count(received, doneOf(g.ctx))
contract (*gpsgen.Generator).flush (g)
  requires okGen(g) && 0 <= g.index && g.index <= g.packetSize
  requires [distinct] forall i int, j int :: {g.packet.Devices[i], g.packet.Devices[j]} 0 <= i && i < j && j < g.index ==> g.packet.Devices[i] != g.packet.Devices[j]
  modifies nothing
  ghosts (send, recv, received, recv_struct__)
  events placed(i: g.index) = g.packet.Devices[i]
  inv (i int) nsent() == old(nsent()) + i && sawClosed(g) == old(sawClosed(g)) && count(received, ref(g.waitCh)) == old(count(received, ref(g.waitCh)))
  inv (i int, n int) nsent() == old(nsent()) + n && sawClosed(g) == old(sawClosed(g)) && count(received, ref(g.waitCh)) == old(count(received, ref(g.waitCh))) + i
  inv forall k int :: {sentch(k)} old(nsent()) <= k && k < nsent() ==> sentch(k) == ref(g.sliceCh)
  inv nsent() > old(nsent()) ==> sent(old(nsent()), slice).from == 0
  inv forall k int :: {sent(k, slice)} old(nsent()) < k && k < nsent() ==> sent(k, slice).from == sent(k-1, slice).to
  inv forall k int :: {sent(k, slice)} old(nsent()) <= k && k < nsent() ==> sent(k, slice).from < sent(k, slice).to
  inv (i int, step int) nsent() > old(nsent()) ==> sent(nsent() - 1, slice).to == (i == g.numWorkers ? g.index : i*step)
  inv nsent() > old(nsent()) && sent(nsent() - 1, slice).to == g.index
  ensures [channel] forall k int :: {sentch(k)} old(nsent()) <= k && k < nsent() ==> sentch(k) == ref(g.sliceCh)
  ensures [first] nsent() > old(nsent()) ==> sent(old(nsent()), slice).from == 0
  ensures [chain] forall k int :: {sent(k, slice)} old(nsent()) < k && k < nsent() ==> sent(k, slice).from == sent(k-1, slice).to
  ensures [work] forall k int :: {sent(k, slice)} old(nsent()) <= k && k < nsent() && g.index > 0 ==> sent(k, slice).from < sent(k, slice).to
  ensures [whole] sawClosed(g) == old(sawClosed(g)) ==> nsent() > old(nsent()) && sent(nsent() - 1, slice).to == g.index
  ensures [awaited] sawClosed(g) == old(sawClosed(g)) ==> count(received, ref(g.waitCh)) - old(count(received, ref(g.waitCh))) == nsent() - old(nsent())

def times() int = nrecvd(time.Time)
// Device k has been stepped n times and its state was handed over m times.
def progress(g *Generator, k int, n int, m int) bool = count(stepped, g.devices[k]) == n && count(placed, g.devices[k].state) == m

contract (*gpsgen.Generator).run (g)
  requires okGen(g) && okDevices(g)
  requires [start] times() == 0 && (forall k int :: {g.devices[k]} 0 <= k && k < len(g.devices) ==> progress(g, k, 0, 0))
  noframe
  ghosts
  diverges
  looseframes
  slowloops
  inv forall k int :: {g.devices[k]} 0 <= k && k < len(g.devices) ==> progress(g, k, times(), times())
  inv (last time.Time) times() >= 1 ==> last == recvd(times() - 1, time.Time)
  inv (i int) forall k int :: {g.devices[k]} 0 <= k && k < len(g.devices) ==> progress(g, k, k < i ? times() : times() - 1, times() - 1)
  inv (i int) forall k int :: {g.devices[k]} 0 <= k && k < len(g.devices) ==> progress(g, k, times(), k < i - g.index ? times() : times() - 1)
  inv (i int) 0 <= g.index && g.index <= i && g.index < g.packetSize
  inv (i int) forall m int :: {g.packet.Devices[m]} 0 <= m && m < g.index ==> g.packet.Devices[m] == g.devices[i - g.index + m].state
  inv (i int) forall k int :: {g.devices[k]} i - g.index <= k && k < i ==> g.packet.Devices[k - (i - g.index)] == g.devices[k].state
  ensures [once] forall k int :: {g.devices[k]} 0 <= k && k < len(g.devices) ==> progress(g, k, times(), times()) || progress(g, k, times() - 1, times() - 1)
  ensures [together] forall k int, j int :: {g.devices[k], g.devices[j]} 0 <= k && k < j && j < len(g.devices) ==> count(stepped, g.devices[k]) == count(stepped, g.devices[j])

// Every non-empty slice received is encoded, and the outcome goes to exactly one callback: the packet callback with the bytes, or the error callback with the error.
def done() int = nlog(encoded)
contract (*gpsgen.Generator).doWorker (g, n)
  requires okGen(g) && g.onError != nil && g.onPacket != nil
  requires [start] nlog(encoded) == 0 && count(work, 0) == 0 && ncalls() == 0
  noframe
  ghosts
  diverges
  inv nlog(encoded) == count(work, 0) && ncalls() == nlog(encoded)
  inv forall k int :: {callfn(k)} 0 <= k && k < ncalls() ==> outcome(g, k)
  ensures [encoded] count(work, 0) - 1 <= nlog(encoded) && nlog(encoded) <= count(work, 0)
  ensures [delivered] ncalls() == nlog(encoded) && (forall k int :: {callfn(k)} 0 <= k && k < ncalls() ==> outcome(g, k))
  ensures [acknowledged] nsent() - old(nsent()) > nrecvd(slice) - old(nrecvd(slice)) ==> nlog(encoded) == count(work, 0)
def outcome(g *Generator, k int) bool =
  logged(encoded, k, 1, error) == nil ? callfn(k) == g.onPacket && callarg(k, 0, []byte) == logged(encoded, k, 0, []byte) : callfn(k) == g.onError && callarg(k, 0, error) == logged(encoded, k, 1, error)
