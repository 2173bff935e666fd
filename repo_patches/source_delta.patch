From 22b59a3da5c746ea65b0d189faee4ee7036518b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:34 +0000
Subject: [PATCH 01/27] fix: compare both coordinates when deciding whether a
 track is closed

---
 navigator/route_track.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/navigator/route_track.go b/navigator/route_track.go
index d283e05..b3c4d48 100644
--- a/navigator/route_track.go
+++ b/navigator/route_track.go
@@ -183,5 +183,5 @@ func isClosed(points []geo.LatLonPoint) bool {
 	p1 := points[0]
 	p2 := points[len(points)-1]
 	return p1.Lon == p2.Lon &&
-		p2.Lat == p2.Lat
+		p1.Lat == p2.Lat
 }
-- 
2.43.0


From 3afa955f505c1840da5f1eef533632a6da4dd3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:38 +0000
Subject: [PATCH 02/27] fix: jump to the route, track and segment that contain
 the distance

---
 navigator/navigator.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 45157e3..3d142ed 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -627,45 +627,52 @@ func (n *Navigator) jump(distance float64) bool {
 	)
 
 	for i := 0; i < len(n.routes); i++ {
+		if n.routes[i].dist == 0 {
+			continue
+		}
+		if route != nil {
+			routeDist += route.dist
+		}
 		route = n.routes[i]
-		routeIndex += i
+		routeIndex = i
 		if route.dist+routeDist > distance {
 			break
 		}
-		routeDist += route.dist
 	}
 	if route == nil {
 		return false
 	}
 
 	for i := 0; i < route.NumTracks(); i++ {
-		track = route.TrackAt(i)
-		if track == nil {
+		if route.tracks[i].dist == 0 {
 			continue
 		}
-		trackIndex += i
+		if track != nil {
+			curRouteDist += track.dist
+			routeDist += track.dist
+		}
+		track = route.tracks[i]
+		trackIndex = i
 		if track.dist+routeDist > distance {
 			break
 		}
-		curRouteDist += track.dist
-		routeDist += track.dist
 	}
 	if track == nil {
 		return false
 	}
 
 	for i := 0; i < track.NumSegments(); i++ {
-		segment = track.SegmentAt(i)
-		if segment.IsEmpty() {
+		if track.segments[i].IsEmpty() {
 			continue
 		}
+		routeDist += segment.dist
+		curRouteDist += segment.dist
+		curTrackDist += segment.dist
+		segment = track.segments[i]
 		segmentIndex = i
 		if segment.dist+routeDist > distance {
 			break
 		}
-		routeDist += segment.dist
-		curRouteDist += segment.dist
-		curTrackDist += segment.dist
 	}
 	if segment.IsEmpty() {
 		return false
-- 
2.43.0


From 2c64192f12f9781bfadf999e1f504bb8e1b06b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:41 +0000
Subject: [PATCH 03/27] fix: export track properties to GPX

---
 gpx/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 584a28e..1116c18 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -63,10 +63,10 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 			trackNode.SetAttr("color", track.Color())
 			trackNode.SetAttr("distance", f2s(track.Distance()))
 			trackNode.Data = track.ID()
-			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 			if attrs := makeAttrs(track.Props()); len(attrs) > 0 {
 				trackNode.Attrs = append(trackNode.Attrs, attrs...)
 			}
+			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 
 			gpxTrack.Segments = append(gpxTrack.Segments, gpxSegment)
 		}
-- 
2.43.0


From 5d13c9f8a3d5d5fc674621335adf435d4f84b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:03 +0000
Subject: [PATCH 04/27] fix: restore every GeoJSON track from its own track
 info

---
 geojson/encoding.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index 442db31..e6447d2 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -140,7 +140,11 @@ func parseGeometries(route *navigator.Route, tracks []trackInfo, geom orb.Geomet
 	}
 
 	for i := 0; i < len(collection); i++ {
-		if err := parseGeometry(route, tracks, collection[i]); err != nil {
+		var info []trackInfo
+		if len(tracks) > 0 {
+			info = tracks[i : i+1]
+		}
+		if err := parseGeometry(route, info, collection[i]); err != nil {
 			return err
 		}
 	}
@@ -157,8 +161,7 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 			track, err = navigator.NewTrack(toPoints(geom))
 		} else {
 			trackInfo := tracks[0]
-			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom))
-			track.Props().Merge(trackInfo.Props)
+			track, err = restoreTrack(trackInfo, toPoints(geom))
 		}
 		if err != nil {
 			return err
@@ -185,8 +188,7 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 			track, err = navigator.NewTrack(toPoints(geom[0]))
 		} else {
 			trackInfo := tracks[0]
-			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom[0]))
-			track.Props().Merge(trackInfo.Props)
+			track, err = restoreTrack(trackInfo, toPoints(geom[0]))
 		}
 		if err != nil {
 			return err
@@ -220,6 +222,18 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 	return
 }
 
+func restoreTrack(info trackInfo, points []geo.LatLonPoint) (*navigator.Track, error) {
+	track, err := navigator.RestoreTrack(info.ID, info.Color, points)
+	if err != nil {
+		return nil, err
+	}
+	track.Props().Merge(info.Props)
+	if len(info.Name) > 0 {
+		_ = track.ChangeName(info.Name)
+	}
+	return track, nil
+}
+
 func toPoints(points []orb.Point) []geo.LatLonPoint {
 	latLons := make([]geo.LatLonPoint, len(points))
 	for i := 0; i < len(points); i++ {
-- 
2.43.0


From d94433d7db678128a6feff463548121e782a4779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 05/27] fix: reject null GeoJSON documents, features and
 geometries without a panic

---
 geojson/encoding.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index e6447d2..283cf1a 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -32,10 +32,13 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 	if err := json.Unmarshal(data, &fc); err != nil {
 		return nil, err
 	}
+	if fc == nil {
+		return nil, ErrNoRoutes
+	}
 	routes := make([]*navigator.Route, 0, len(fc.Features))
 	for i := 0; i < len(fc.Features); i++ {
 		feature := fc.Features[i]
-		if feature.Type != "Feature" {
+		if feature == nil || feature.Type != "Feature" {
 			continue
 		}
 		var (
@@ -216,6 +219,8 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 			return err
 		}
 		route.AddTrack(track)
+	case nil:
+		err = fmt.Errorf("%w - null", ErrInvalidGeometryType)
 	default:
 		err = fmt.Errorf("%w - %s", ErrInvalidGeometryType, geom.GeoJSONType())
 	}
-- 
2.43.0


From c618d9798d496aa684e1d237b3e2dca5abd1bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 06/27] fix: deliver the last device of every full packet

---
 generator.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/generator.go b/generator.go
index 457f4a0..9cacf54 100644
--- a/generator.go
+++ b/generator.go
@@ -238,13 +238,12 @@ loop:
 				g.packet.Devices[g.index] = g.devices[i].State()
 				g.dmu.Unlock()
 
-				if g.index+1 == g.packetSize {
+				g.index++
+				if g.index == g.packetSize {
 					g.mu.RUnlock()
 					g.flush()
 					g.mu.RLock()
 					g.index = 0
-				} else {
-					g.index++
 				}
 			}
 			g.mu.RUnlock()
-- 
2.43.0


From 8221546a6fa6ab6863c4481e8340db0e39e7d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:13 +0000
Subject: [PATCH 07/27] fix: never hand a failed encoding to the packet
 callback

---
 generator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index 9cacf54..008d65f 100644
--- a/generator.go
+++ b/generator.go
@@ -292,8 +292,10 @@ func (g *Generator) doWorker(n int) {
 			data, err := enc.MarshalAppend(buf, pck)
 			g.dmu.RUnlock()
 
-			if err != nil && g.onError != nil {
-				g.onError(err)
+			if err != nil {
+				if g.onError != nil {
+					g.onError(err)
+				}
 			} else if g.onPacket != nil {
 				g.onPacket(data)
 			}
-- 
2.43.0


From dfc1d49bd360ce0aff582991c62546def5bd0f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:17 +0000
Subject: [PATCH 08/27] fix: rewind the navigator and refresh its distance when
 a track is removed

---
 navigator/navigator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 3d142ed..a0b45e0 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -178,6 +178,7 @@ func (n *Navigator) RemoveTrack(routeID string, trackID string) bool {
 	}
 	ok := route.RemoveTrack(trackID)
 	if ok {
+		n.Reset()
 		n.nextVersion()
 	}
 	return ok
-- 
2.43.0


From 94e2c14888f1f25b742ac4f04cd50f7c01ae0c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:45 +0000
Subject: [PATCH 09/27] fix: hold the device lock in Snapshot, SensorAt and
 IsFinish

---
 device.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/device.go b/device.go
index 16f5bcd..e450581 100644
--- a/device.go
+++ b/device.go
@@ -284,13 +284,13 @@ func (d *Device) NumSensors() int {
 
 // SensorAt returns the sensor at the specified index from the device's navigator.
 func (d *Device) SensorAt(i int) *types.Sensor {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	if len(d.sensors) == 0 || i > len(d.sensors)-1 || i < 0 {
 		return nil
 	}
 
-	d.mu.RLock()
-	defer d.mu.RUnlock()
-
 	return d.sensors[i]
 }
 
@@ -447,8 +447,8 @@ func (d *Device) CurrentSegmentDistance() float64 {
 
 // IsFinish checks if the device has reached the end of its current route.
 func (d *Device) IsFinish() bool {
-	d.mu.RLock()
-	defer d.mu.RUnlock()
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	return d.navigator.IsFinish()
 }
 
@@ -717,6 +717,8 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 // Snapshot creates and returns a snapshot of the device's current state.
 // The snapshot includes device information, status, duration, navigator, speed, battery, and sensors (if any).
 func (d *Device) Snapshot() *pb.Snapshot {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	snap := &pb.Snapshot{
 		Id:        d.state.Id,
 		UserId:    d.state.UserId,
@@ -733,11 +735,9 @@ func (d *Device) Snapshot() *pb.Snapshot {
 
 	if len(d.sensors) > 0 {
 		snap.Sensors = make([]*pb.Snapshot_SensorType, len(d.sensors))
-		d.mu.RLock()
 		for i := 0; i < len(d.sensors); i++ {
 			snap.Sensors[i] = d.sensors[i].Snapshot()
 		}
-		d.mu.RUnlock()
 	}
 	return snap
 }
-- 
2.43.0


From 53f7039f3e1efd9f17d515b935c475569d1b74ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:48 +0000
Subject: [PATCH 10/27] fix: drop the old sensors when a device is restored
 from a snapshot

---
 device.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/device.go b/device.go
index e450581..d98add1 100644
--- a/device.go
+++ b/device.go
@@ -765,6 +765,7 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.state.Speed = d.speed.Value()
 	d.battery = new(types.Battery)
 	d.battery.FromSnapshot(snap.Battery)
+	d.sensors = nil
 	if len(snap.Sensors) > 0 {
 		d.sensors = make([]*types.Sensor, len(snap.Sensors))
 		for i := 0; i < len(snap.Sensors); i++ {
-- 
2.43.0


From ab214bdf9aa5ae92cb215c180e093f3b5ae5ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 11/27] fix: restore the offline generator according to the
 snapshot

---
 navigator/navigator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index a0b45e0..69f45ca 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -599,11 +599,12 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	}
 	n.elevation = new(types.Sensor)
 	n.elevation.FromSnapshot(snap.Elevation)
+	n.skipOffline = snap.SkipOffline
+	n.offline = nil
 	if !n.skipOffline {
 		n.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
 	n.distance = snap.Distance
-	n.skipOffline = snap.SkipOffline
 	n.version = int(snap.Version)
 }
 
-- 
2.43.0


From aa9b3db4a541d7ab53ead35e4712d4a76f891604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 12/27] fix: keep the battery charge within its maximum

---
 types/battery.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/types/battery.go b/types/battery.go
index 18b73a7..2a66007 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -79,7 +79,13 @@ func (t *Battery) IsLow() bool {
 
 // Value returns the current value of the battery.
 func (t *Battery) Value() float64 {
-	val := 100 - (t.val / t.chargeTime.Seconds() * 100)
+	val := t.min
+	if t.chargeTime > 0 {
+		val = 100 - (t.val / t.chargeTime.Seconds() * 100)
+	}
+	if val > t.max {
+		val = t.max
+	}
 	if val < t.min {
 		val = t.min
 	}
-- 
2.43.0


From e2d4df702ff52136341e9753ebf8e39e118a1fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:59 +0000
Subject: [PATCH 13/27] fix: keep random values inside the range when min is
 greater than max

---
 types/random.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/random.go b/types/random.go
index 85c3356..8582248 100644
--- a/types/random.go
+++ b/types/random.go
@@ -40,6 +40,10 @@ func NewRandom(min, max int) *Random {
 		max = 1
 	}
 
+	if min > max {
+		min = max
+	}
+
 	return &Random{
 		min: min,
 		max: max,
-- 
2.43.0


From 4ce6ea1927d6c49ca3a4656520cd173b9c6e2910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:03 +0000
Subject: [PATCH 14/27] fix: never normalise navigator limits below their
 documented minimum

---
 navigator/options.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/navigator/options.go b/navigator/options.go
index 774df88..dba812c 100644
--- a/navigator/options.go
+++ b/navigator/options.go
@@ -2,6 +2,7 @@ package navigator
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/mmadfox/go-gpsgen/types"
 )
@@ -63,7 +64,7 @@ func (o *navigatorOptions) validateElevation() error {
 			o.elevationMax, MaxElevation)
 	}
 	if o.elevationMin > o.elevationMax {
-		o.elevationMin = o.elevationMax - 1
+		o.elevationMin = math.Max(o.elevationMax-1, MinElevation)
 	}
 	if o.elevationMax < o.elevationMin {
 		o.elevationMax = o.elevationMin + 1
@@ -86,6 +87,9 @@ func (o *navigatorOptions) validateOffline() error {
 	}
 	if o.minOffline > o.maxOffline {
 		o.minOffline = o.maxOffline - 1
+		if o.minOffline < MinOffline {
+			o.minOffline = MinOffline
+		}
 	}
 	if o.maxOffline < o.minOffline {
 		o.maxOffline = o.minOffline + 1
-- 
2.43.0


From 2cf191b599d624dc50b1132f9026212b01b099c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 15/27] fix: use the default number of points for an empty
 random polygon

---
 random/polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random/polygon.go b/random/polygon.go
index a38415f..220b25c 100644
--- a/random/polygon.go
+++ b/random/polygon.go
@@ -17,7 +17,7 @@ const (
 // Polygon generates a random polygon with the specified number of points and zoom level.
 // It returns a slice of [2]float64 representing the polygon's coordinates.
 func Polygon(points int, zoom float64) [][2]float64 {
-	if points < 0 {
+	if points <= 0 {
 		points = defaultPoints
 	}
 	if zoom < minZoom {
-- 
2.43.0


From 29f9e9dade3ef7c7c207426308d0fed8d3b19a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 16/27] fix: do not skip the rest of a track after a segment of
 zero length

---
 navigator/navigator.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 69f45ca..b7ba1ae 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -523,9 +523,7 @@ loop:
 			}
 			break
 		} else {
-			seg := n.nextSegment()
-			foundSegment := !seg.IsEmpty()
-			notFoundSegment := seg.IsEmpty()
+			seg, foundSegment := n.nextSegment()
 			switch {
 			case foundSegment:
 				if !seg.hasRelation() {
@@ -533,7 +531,7 @@ loop:
 					break loop
 				}
 				continue
-			case notFoundSegment:
+			default:
 				if !n.nextTrack() {
 					n.nextRoute()
 				}
@@ -728,18 +726,18 @@ func (n *Navigator) nextOffline() bool {
 	return false
 }
 
-func (n *Navigator) nextSegment() Segment {
+func (n *Navigator) nextSegment() (Segment, bool) {
 	track := n.CurrentTrack()
 	if track == nil {
-		return Segment{}
+		return Segment{}, false
 	}
-	if n.segmentIndex == track.NumSegments()-1 {
-		return Segment{}
+	if n.segmentIndex >= track.NumSegments()-1 {
+		return Segment{}, false
 	}
 	segment := n.CurrentSegment()
 	n.currentSegmentDistance = 0
 	n.segmentIndex++
-	return segment
+	return segment, true
 }
 
 func (n *Navigator) nextTrack() bool {
-- 
2.43.0


From 6de918491c02e13665ea96f90abd16ec96fdf03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 17/27] fix: check the maximum speed after it is defaulted

---
 types/speed.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/speed.go b/types/speed.go
index f3a5744..e2cda51 100644
--- a/types/speed.go
+++ b/types/speed.go
@@ -37,12 +37,12 @@ func NewSpeed(min, max float64, amplitude int) (*Speed, error) {
 	if min < MinSpeedVal {
 		return nil, ErrMinSpeed
 	}
-	if max > MaxSpeedVal {
-		return nil, ErrMaxSpeed
-	}
 	if max <= 0 {
 		max = min
 	}
+	if max > MaxSpeedVal {
+		return nil, ErrMaxSpeed
+	}
 	if min > max {
 		return nil, ErrSpeedMinGreaterMax
 	}
-- 
2.43.0


From 550b3f4d1667d4f8ec5f9926db051f1beb50d2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 18/27] fix: reject a negative maximum battery charge

---
 types/battery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/battery.go b/types/battery.go
index 2a66007..f127d55 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -37,7 +37,7 @@ type Battery struct {
 // If the min value is greater than the max value, the min value is adjusted to match the max value.
 // If the chargeTime is less than or equal to zero, it is set to a default value of 9 hours.
 func NewBattery(min, max float64, chargeTime time.Duration) (*Battery, error) {
-	if min < minBatteryVal {
+	if min < minBatteryVal || max < minBatteryVal {
 		return nil, ErrMinBattery
 	}
 	if max > maxBatteryVal {
-- 
2.43.0


From 0b1aa06a86fe26ed27f7edbe44bb6ba04d6712f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:50 +0000
Subject: [PATCH 19/27] fix: restore snapshots with missing parts without a
 panic

---
 curve/curve.go                   | 19 ++++++++++++-------
 device.go                        |  6 +++++-
 navigator/navigator.go           |  4 ++--
 navigator/route_track_segment.go |  4 ++--
 types/battery.go                 |  8 ++++----
 types/sensor.go                  | 14 +++++++-------
 types/speed.go                   |  8 ++++----
 7 files changed, 36 insertions(+), 27 deletions(-)

diff --git a/curve/curve.go b/curve/curve.go
index c49075a..616295c 100644
--- a/curve/curve.go
+++ b/curve/curve.go
@@ -79,6 +79,9 @@ func (c *Curve) Shuffle() {
 
 // Point returns a point on the curve for a given parameter t.
 func (c *Curve) Point(t float64) Point {
+	if len(c.points) == 0 {
+		return Point{}
+	}
 	c.points[0].vp = c.points[0].cp
 	u := t
 	for i, p := range c.points[1:] {
@@ -129,14 +132,16 @@ func (c *Curve) Snapshot() *proto.Snapshot_Curve {
 
 // FromSnapshot restores the curve's state from a snapshot.
 func (c *Curve) FromSnapshot(snap *proto.Snapshot_Curve) {
-	c.mode = int(snap.Mode)
-	c.min = snap.Min
-	c.max = snap.Max
-	c.points = make([]point, len(snap.Points))
-	for i := 0; i < len(snap.Points); i++ {
+	points := snap.GetPoints()
+	c.mode = int(snap.GetMode())
+	c.min = snap.GetMin()
+	c.max = snap.GetMax()
+	c.points = make([]point, len(points))
+	for i := 0; i < len(points); i++ {
+		vp, cp := points[i].GetVp(), points[i].GetCp()
 		c.points[i] = point{
-			vp: Point{X: snap.Points[i].Vp.X, Y: snap.Points[i].Vp.Y},
-			cp: Point{X: snap.Points[i].Cp.X, Y: snap.Points[i].Cp.Y},
+			vp: Point{X: vp.GetX(), Y: vp.GetY()},
+			cp: Point{X: cp.GetX(), Y: cp.GetY()},
 		}
 	}
 }
diff --git a/device.go b/device.go
index d98add1..4c2eb7b 100644
--- a/device.go
+++ b/device.go
@@ -758,8 +758,12 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.state.Description = snap.Descr
 	d.state.Duration = snap.Duration
 	d.status = Status(snap.Status)
+	navSnap := snap.Navigator
+	if navSnap == nil {
+		navSnap = new(pb.Snapshot_Navigator)
+	}
 	d.navigator = new(navigator.Navigator)
-	d.navigator.FromSnapshot(snap.Navigator)
+	d.navigator.FromSnapshot(navSnap)
 	d.speed = new(types.Speed)
 	d.speed.FromSnapshot(snap.Speed)
 	d.state.Speed = d.speed.Value()
diff --git a/navigator/navigator.go b/navigator/navigator.go
index b7ba1ae..ee51d66 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -592,8 +592,8 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	n.currentDistance = snap.CurrentDistance
 	n.offlineIndex = int(snap.OfflineIndex)
 	n.point = geo.LatLonPoint{
-		Lon: snap.Point.Lon,
-		Lat: snap.Point.Lat,
+		Lon: snap.Point.GetLon(),
+		Lat: snap.Point.GetLat(),
 	}
 	n.elevation = new(types.Sensor)
 	n.elevation.FromSnapshot(snap.Elevation)
diff --git a/navigator/route_track_segment.go b/navigator/route_track_segment.go
index ada403f..bcbbf5c 100644
--- a/navigator/route_track_segment.go
+++ b/navigator/route_track_segment.go
@@ -79,8 +79,8 @@ func SegmentFromSnapshot(snap *SegmentSnapshot) Segment {
 		return Segment{}
 	}
 	return Segment{
-		pointA:  geo.LatLonPoint{Lon: snap.PointA.Lon, Lat: snap.PointA.Lat},
-		pointB:  geo.LatLonPoint{Lon: snap.PointB.Lon, Lat: snap.PointB.Lat},
+		pointA:  geo.LatLonPoint{Lon: snap.PointA.GetLon(), Lat: snap.PointA.GetLat()},
+		pointB:  geo.LatLonPoint{Lon: snap.PointB.GetLon(), Lat: snap.PointB.GetLat()},
 		dist:    snap.Distance,
 		bearing: snap.Bearing,
 		index:   int(snap.Index),
diff --git a/types/battery.go b/types/battery.go
index f127d55..68bec70 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -120,8 +120,8 @@ func (t *Battery) Snapshot() *proto.Snapshot_BatteryType {
 
 // FromSnapshot restores the Battery instance from a protobuf snapshot.
 func (t *Battery) FromSnapshot(snap *proto.Snapshot_BatteryType) {
-	t.min = snap.Min
-	t.max = snap.Max
-	t.val = snap.Val
-	t.chargeTime = time.Duration(snap.ChargeTime)
+	t.min = snap.GetMin()
+	t.max = snap.GetMax()
+	t.val = snap.GetVal()
+	t.chargeTime = time.Duration(snap.GetChargeTime())
 }
diff --git a/types/sensor.go b/types/sensor.go
index 39ea461..caa0cbb 100644
--- a/types/sensor.go
+++ b/types/sensor.go
@@ -168,12 +168,12 @@ func (t *Sensor) Snapshot() *SensorSnapshot {
 
 // FromSnapshot restores the Sensor instance from a protobuf snapshot.
 func (t *Sensor) FromSnapshot(snap *SensorSnapshot) {
-	t.id = snap.Id
-	t.name = snap.Name
-	t.min = snap.Min
-	t.max = snap.Max
-	t.valX = snap.ValX
-	t.valY = snap.ValY
+	t.id = snap.GetId()
+	t.name = snap.GetName()
+	t.min = snap.GetMin()
+	t.max = snap.GetMax()
+	t.valX = snap.GetValX()
+	t.valY = snap.GetValY()
 	t.gen = new(curve.Curve)
-	t.gen.FromSnapshot(snap.Gen)
+	t.gen.FromSnapshot(snap.GetGen())
 }
diff --git a/types/speed.go b/types/speed.go
index e2cda51..c8a6eb6 100644
--- a/types/speed.go
+++ b/types/speed.go
@@ -118,11 +118,11 @@ func (t *Speed) Snapshot() *proto.Snapshot_CommonType {
 
 // FromSnapshot restores the Speed instance from a protobuf snapshot.
 func (t *Speed) FromSnapshot(snap *proto.Snapshot_CommonType) {
-	t.min = snap.Min
-	t.max = snap.Max
-	t.val = snap.Val
+	t.min = snap.GetMin()
+	t.max = snap.GetMax()
+	t.val = snap.GetVal()
 	t.gen = new(curve.Curve)
-	t.gen.FromSnapshot(snap.Gen)
+	t.gen.FromSnapshot(snap.GetGen())
 }
 
 func (t *Speed) isStatic() bool {
-- 
2.43.0


From b3e466db584ed31cfd803c61a1ceb9a9dffac4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:54 +0000
Subject: [PATCH 20/27] fix: rewind a navigator restored with a position
 outside its routes

---
 navigator/navigator.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index ee51d66..731f3ef 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -604,6 +604,27 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	}
 	n.distance = snap.Distance
 	n.version = int(snap.Version)
+	if !n.isValidPosition() {
+		n.resetIndexes()
+	}
+}
+
+func (n *Navigator) isValidPosition() bool {
+	if n.routeIndex == 0 && n.trackIndex == 0 && n.segmentIndex == 0 {
+		return true
+	}
+	route := n.RouteAt(n.routeIndex)
+	if route == nil {
+		return false
+	}
+	if n.trackIndex == 0 && n.segmentIndex == 0 {
+		return true
+	}
+	track := route.TrackAt(n.trackIndex)
+	if track == nil {
+		return false
+	}
+	return n.segmentIndex == 0 || n.segmentIndex > 0 && n.segmentIndex < track.NumSegments()
 }
 
 func (n *Navigator) jump(distance float64) bool {
-- 
2.43.0


From 7491d70f53f547c2a0b326c5a6cde9617055daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:58 +0000
Subject: [PATCH 21/27] fix: report routes that cannot be restored

---
 io.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/io.go b/io.go
index d664a69..8cf7283 100644
--- a/io.go
+++ b/io.go
@@ -91,7 +91,9 @@ func DecodeRoutes(data []byte) ([]*navigator.Route, error) {
 	routes := make([]*navigator.Route, len(pbroutes.Routes))
 	for i := 0; i < len(pbroutes.Routes); i++ {
 		route := new(navigator.Route)
-		route.RouteFromSnapshot(pbroutes.Routes[i])
+		if err := route.RouteFromSnapshot(pbroutes.Routes[i]); err != nil {
+			return nil, err
+		}
 		routes[i] = route
 	}
 	return routes, nil
-- 
2.43.0


From 63fa096da5a2c0a5815771f2a9940eed25da4ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 22/27] fix: clear published route and track identifiers when
 there is no current one

---
 navigator/navigator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 731f3ef..319d11f 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -348,6 +348,8 @@ func (n *Navigator) Update(state *proto.Device) {
 	state.Navigator.CurrentRouteIndex = int64(n.routeIndex)
 	state.Navigator.CurrentTrackIndex = int64(n.trackIndex)
 	state.Navigator.CurrentSegmentIndex = int64(n.segmentIndex)
+	state.Navigator.CurrentRouteId = ""
+	state.Navigator.CurrentTrackId = ""
 	if route := n.CurrentRoute(); route != nil {
 		state.Navigator.CurrentRouteId = route.ID()
 	}
-- 
2.43.0


From 425ec599eceb3cf85c8421338915e46952928037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 23/27] fix: read GPX identifiers, names and colors as text

---
 gpx/encoding.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 1116c18..3414cbe 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -104,12 +104,12 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 			}
 			routeInfo := root.Nodes[i]
 			routeProps := makeProps(routeInfo.Attrs)
-			routeID, ok := routeProps.String("id")
+			routeID, ok := attr(routeInfo.Attrs, "id")
 			if !ok {
 				return nil, ErrInvalidRoute
 			}
-			color, _ := routeProps.String("color")
-			routeName, _ := routeProps.String("name")
+			color, _ := attr(routeInfo.Attrs, "color")
+			routeName, _ := attr(routeInfo.Attrs, "name")
 			resetProps(routeProps)
 			route := navigator.RestoreRoute(routeID, color, routeProps)
 			if len(routeName) > 0 {
@@ -122,8 +122,8 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 				trackInfo := root.Nodes[i].Nodes[j]
 				trackID := trackInfo.Data
 				trackProps := makeProps(trackInfo.Attrs)
-				color, _ := trackProps.String("color")
-				trackName, _ := trackProps.String("name")
+				color, _ := attr(trackInfo.Attrs, "color")
+				trackName, _ := attr(trackInfo.Attrs, "name")
 				resetProps(trackProps)
 				track, err := navigator.RestoreTrack(
 					trackID,
@@ -231,6 +231,15 @@ func makeProps(attrs []xml.Attr) properties.Properties {
 	return props
 }
 
+func attr(attrs []xml.Attr, name string) (string, bool) {
+	for i := 0; i < len(attrs); i++ {
+		if attrs[i].Name.Local == name {
+			return attrs[i].Value, true
+		}
+	}
+	return "", false
+}
+
 func resetProps(props properties.Properties) {
 	delete(props, "id")
 	delete(props, "color")
-- 
2.43.0


From 9449ba868bf563284a0c15a792d2c87bf8dbf523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 24/27] fix: keep the distance of antipodal points defined

---
 geo/distance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geo/distance.go b/geo/distance.go
index 7ed99c1..6bc9d56 100644
--- a/geo/distance.go
+++ b/geo/distance.go
@@ -34,5 +34,5 @@ func DistanceToHaversine(meters float64) float64 {
 
 // DistanceFromHaversine converts a haversine value to a distance in meters.
 func DistanceFromHaversine(haversine float64) float64 {
-	return earthRadius * 2 * math.Asin(math.Sqrt(haversine))
+	return earthRadius * 2 * math.Asin(math.Sqrt(math.Min(haversine, 1)))
 }
-- 
2.43.0


From e7098223c966cff424d73d7bc279f6e3697e26c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:19 +0000
Subject: [PATCH 25/27] fix: do not report a finish when exactly 0.1 metres
 have been travelled

---
 navigator/navigator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 319d11f..4207fe1 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -241,6 +241,7 @@ func (n *Navigator) IsFinish() bool {
 	if n.routeIndex == 0 &&
 		n.trackIndex == 0 &&
 		n.segmentIndex == 0 &&
+		n.currentRouteDistance == 0 &&
 		n.currentDistance == 0.1 {
 		n.currentDistance = 0
 		return true
-- 
2.43.0


From eaccc72bf3df2d0abf105dc0d2cd16fd9d510e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:29 +0000
Subject: [PATCH 26/27] fix: read the generator's callbacks under its lock

---
 generator.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/generator.go b/generator.go
index 008d65f..31a75cb 100644
--- a/generator.go
+++ b/generator.go
@@ -292,12 +292,16 @@ func (g *Generator) doWorker(n int) {
 			data, err := enc.MarshalAppend(buf, pck)
 			g.dmu.RUnlock()
 
+			g.mu.RLock()
+			onError, onPacket := g.onError, g.onPacket
+			g.mu.RUnlock()
+
 			if err != nil {
-				if g.onError != nil {
-					g.onError(err)
+				if onError != nil {
+					onError(err)
 				}
-			} else if g.onPacket != nil {
-				g.onPacket(data)
+			} else if onPacket != nil {
+				onPacket(data)
 			}
 
 			if g.isClosed() {
@@ -327,10 +331,13 @@ func (g *Generator) doNext() {
 			if g.isClosed() {
 				return
 			}
-			if g.onNext == nil {
+			g.mu.RLock()
+			onNext := g.onNext
+			g.mu.RUnlock()
+			if onNext == nil {
 				continue
 			}
-			g.onNext()
+			onNext()
 		}
 	}
 }
-- 
2.43.0


From e384c79843880846730500299a6d326185fb1829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:36 +0000
Subject: [PATCH 27/27] fix: geojson.Decode panicked when the decoder met a
 null geometry in a nested collection

---
 geojson/encoding.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index 283cf1a..5553223 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -29,7 +29,7 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 // Decode converts GeoJSON data into a slice of navigator.Routes.
 func Decode(data []byte) ([]*navigator.Route, error) {
 	fc := geojson.NewFeatureCollection()
-	if err := json.Unmarshal(data, &fc); err != nil {
+	if err := unmarshal(data, &fc); err != nil {
 		return nil, err
 	}
 	if fc == nil {
@@ -68,6 +68,17 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 	return routes, nil
 }
 
+// unmarshal decodes data and reports a panic of the decoder,
+// which does not expect a null geometry in a nested collection, as an error.
+func unmarshal(data []byte, fc **geojson.FeatureCollection) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w - %v", ErrInvalidGeometryType, r)
+		}
+	}()
+	return json.Unmarshal(data, fc)
+}
+
 func routeExists(props map[string]interface{}) bool {
 	_, ok1 := props["routeID"]
 	_, ok2 := props["color"]
-- 
2.43.0

