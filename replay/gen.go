package main

import (
	"fmt"
	"math"
	"sync"
	"time"

	"github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"google.golang.org/protobuf/proto"
)

// plainDevice is a device with one long track.
func plainDevice(id string) *gpsgen.Device {
	opts := gpsgen.DefaultTrackerOptions()
	opts.ID = id
	opts.Navigator.SkipOffline = true
	d, err := gpsgen.NewDevice(opts)
	if err != nil {
		panic(err)
	}
	t, err := navigator.NewTrack([]geo.LatLonPoint{{Lat: 10, Lon: 10}, {Lat: 11, Lon: 11}, {Lat: 12, Lon: 10}})
	if err != nil {
		panic(err)
	}
	r := navigator.NewRoute()
	r.AddTrack(t)
	if err := d.AddRoute(r); err != nil {
		panic(err)
	}
	return d
}

// ---- C21 ----

func c21(c *ctx) {
	g := gpsgen.New(gpsgen.NewOptions())
	var pool []*gpsgen.Device
	for i := 0; i < 6; i++ {
		opts := gpsgen.DefaultTrackerOptions()
		opts.ID = fmt.Sprintf("d%d", i%4)
		d, err := gpsgen.NewDevice(opts)
		if err != nil {
			panic(err)
		}
		c.check(d.Status() == gpsgen.Stopped, "a new device has status %v", d.Status())
		pool = append(pool, d)
	}
	running := map[*gpsgen.Device]bool{}
	var want []*gpsgen.Device
	find := func(id string) int {
		for i, d := range want {
			if d.ID() == id {
				return i
			}
		}
		return -1
	}
	ids := []string{"d0", "d1", "d2", "d3", "nobody", ""}
	for step := 0; step < 30 && c.fail == ""; step++ {
		if c.Intn(2) == 0 {
			k := c.Intn(len(pool) + 1)
			if k == len(pool) {
				c.check(g.Attach(nil) == nil, "attaching nil is an error")
				c.note("attach nil")
			} else {
				d := pool[k]
				c.note("attach device %d (%s)", k, d.ID())
				err := g.Attach(d)
				c.check((err == nil) == !running[d], "attaching device %d, running %v, gives error %v", k, running[d], err)
				if !running[d] {
					want = append(want, d)
					running[d] = true
				}
			}
		} else {
			id := ids[c.Intn(len(ids))]
			c.note("detach %q", id)
			i := find(id)
			err := g.Detach(id)
			c.check(err == nil, "detaching %q gives error %v", id, err)
			if i >= 0 {
				running[want[i]] = false
				want = append(append([]*gpsgen.Device(nil), want[:i]...), want[i+1:]...)
			}
		}
		var got []*gpsgen.Device
		g.Each(func(i int, d *gpsgen.Device) bool {
			c.check(i == len(got), "iteration passes index %d for element %d", i, len(got))
			got = append(got, d)
			return true
		})
		c.check(len(got) == len(want) && g.NumDevices() == len(want), "%d devices iterated, %d counted, %d attached", len(got), g.NumDevices(), len(want))
		for i := range want {
			if i < len(got) {
				c.check(got[i] == want[i], "device %d is not the expected one", i)
			}
		}
		for k, d := range pool {
			s := gpsgen.Stopped
			if running[d] {
				s = gpsgen.Running
			}
			c.check(d.Status() == s, "device %d has status %v, expected %v", k, d.Status(), s)
		}
		for _, id := range ids {
			i := find(id)
			d, ok := g.Lookup(id)
			c.check(ok == (i >= 0) && (i < 0 && d == nil || i >= 0 && d == want[i]), "lookup of %q finds %v", id, ok)
			c.check(g.HasTracker(id) == (i >= 0), "HasTracker of %q says %v", id, !(i >= 0))
		}
		n, stop := 0, c.Intn(4)+1
		g.Each(func(int, *gpsgen.Device) bool { n++; return n < stop })
		lim := stop
		if len(want) < lim {
			lim = len(want)
		}
		c.check(n == lim, "iteration stopped at call %d made %d calls on %d devices", stop, n, len(want))
	}
}

// ---- C20 ----

func c20(c *ctx) {
	size := 1024
	if c.Intn(3) == 0 {
		size = []int{0, 1025, 1500, 2048}[c.Intn(4)]
	}
	workers := []int{1, 2, 3, 4, 5, 7, 8, 16, 33, 1000, 2000, 0}[c.Intn(12)]
	n := []int{0, 1, 2, 3, 5, 10, 33, 256, 257, 258, 260, 263, 500, 1023, 1024, 1025, 1030, 1500, 2047, 2048, 2049, 3000, 3072}[c.Intn(23)]
	if c.Intn(3) == 0 {
		n = c.Intn(2500)
	}
	bad := c.Intn(6) == 0 && n > 0
	opts := &gpsgen.Options{Interval: 2 * time.Millisecond, PacketSize: size, NumWorkers: workers}
	c.note("%d devices, packet size %d, %d workers", n, size, workers)
	g := gpsgen.New(opts)
	type seen struct {
		count    int
		duration float64
	}
	var mu sync.Mutex
	got := map[string]*seen{}
	all := map[string]*gpsgen.Device{}
	for i := 0; i < n; i++ {
		d := plainDevice(fmt.Sprintf("dev%d", i))
		all[d.ID()] = d
		got[d.ID()] = &seen{}
		if bad && i == n/2 {
			d.SetDescription("\xff")
			c.note("device %d cannot be encoded", i)
		}
		if err := g.Attach(d); err != nil {
			panic(err)
		}
	}
	errs, ticks, badSeen := 0, 0, false
	enough := make(chan struct{})
	var once sync.Once
	total, full := 0, 0
	g.OnPacket(func(data []byte) {
		mu.Lock()
		defer mu.Unlock()
		p := new(pb.Packet)
		if err := proto.Unmarshal(data, p); err != nil {
			c.failf("a packet cannot be decoded: %v", err)
			return
		}
		c.check(len(p.Devices) > 0, "an empty packet was delivered")
		for _, s := range p.Devices {
			if s == nil || got[s.Id] == nil {
				c.failf("a packet holds an unknown device %q", s.GetId())
				return
			}
			x := got[s.Id]
			c.check(s.Tick >= 1, "device %s was stepped by %v", s.Id, s.Tick)
			c.check(s.Duration > x.duration, "device %s was delivered twice in one tick (%v)", s.Id, s.Duration)
			if !bad {
				c.check(math.Abs(s.Duration-x.duration-s.Tick) < 1e-6, "device %s went from duration %v to %v in one tick of %v", s.Id, x.duration, s.Duration, s.Tick)
			}
			x.duration = s.Duration
			x.count++
			total++
		}
		if total >= 4*n {
			full++
			once.Do(func() { close(enough) })
		}
	})
	g.OnError(func(err error) {
		mu.Lock()
		defer mu.Unlock()
		errs++
		badSeen = true
		c.check(bad, "error callback: %v", err)
		if errs >= 4 {
			once.Do(func() { close(enough) })
		}
	})
	g.OnNext(func() {
		mu.Lock()
		defer mu.Unlock()
		ticks++
		if n == 0 && ticks >= 3 {
			once.Do(func() { close(enough) })
		}
	})
	done := make(chan struct{})
	go func() {
		defer close(done)
		g.Run()
	}()
	select {
	case <-enough:
	case <-time.After(8 * time.Second):
		mu.Lock()
		c.failf("after 8s %d states were delivered to the packet callback, %d errors, %d ticks", total, errs, ticks)
		mu.Unlock()
	}
	g.Close()
	mu.Lock()
	defer mu.Unlock()
	if bad {
		c.check(badSeen, "no error callback for a state that cannot be encoded")
		return
	}
	lo, hi := math.MaxInt, 0
	for _, x := range got {
		if x.count < lo {
			lo = x.count
		}
		if x.count > hi {
			hi = x.count
		}
	}
	c.check(n == 0 || hi-lo <= 1, "some devices were delivered %d times, others %d times", hi, lo)
}

func init() {
	reg("C20", c20)
	reg("C21", c21)
}
