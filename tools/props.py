#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept in one readable place).
import json,os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    assert os.path.isabs('/repo')
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
p("C01","Generated speed, elevation and sensor values stay inside their limits",
 "Every value that a speed, elevation or sensor generator built from limits min <= max reports at a normalised time in [0,1], after any number of reshuffles, lies in [min,max] (up to floating-point rounding). In start mode the value at time 0 is exactly the minimum, in end mode the value at time 1 is exactly the minimum. A generator whose speed limits coincide always reports that speed.",
 ["inputs","histories"],"all min<=max, amplitudes 4..512, modes, random draws, times in [0,1], shuffle histories",
 "The tests draw a handful of random curves and check non-zero differences; the range claim is over every random draw and every time and rests on the binomial weights summing to one.",
 ["curve/curve.go","types/sensor.go","types/speed.go"],
 [("control points drawn in range and weighted","curve.New, Curve.Shuffle"),("weighted evaluation","Curve.Point"),("value propagation","Sensor.Next, Speed.Next/Value")],
 obs=["Sensor.ValueY","Speed.Value","Navigator.Elevation"])
p("C02","Battery charge stays in limits, only drains, and is low exactly at minimum",
 "For a battery with limits min <= max the reported charge is always in [min,max]. Letting time pass never raises it and lowers it in proportion to elapsed time over the charge time, a reset restores the value of a fresh battery, and the battery is reported low exactly when its charge equals the minimum.",
 ["inputs","histories"],"all limits, charge times, sequences of elapsed times and resets",
 "The one drain test uses one battery and one-second ticks and compares the value with itself.",
 ["types/battery.go"],[("drain and clamp","Battery.Value"),("low test","Battery.IsLow"),("elapsed time","Battery.Next/Reset")],
 obs=["Battery.Value","Battery.IsLow"])
p("C03","Constructors accept exactly valid configurations and normalise the rest",
 "Creating a speed, battery, sensor, navigator, offline-duration generator, model or name either fails with the documented error exactly when an input is outside its documented limits, or succeeds with effective settings that satisfy all documented limits (0 <= min <= max <= bound) and with in-limit inputs kept unchanged. Random offline durations always fall inside the configured range.",
 ["inputs","configurations"],"all argument tuples of the public constructors",
 "Table tests sample about a dozen tuples; boundary combinations (min above max, zero limits) are not covered.",
 ["types/speed.go","types/battery.go","types/sensor.go","types/model.go","types/random.go","types/validator.go","navigator/options.go","navigator/types.go","navigator/navigator.go"],
 [("speed checks","types.NewSpeed"),("battery checks","types.NewBattery"),("sensor checks","types.NewSensor, RestoreSensor"),("navigator checks","navigatorOptions.validate*"),("offline range","types.NewRandom, Random.Value")],
 obs=["errors returned by constructors","Min/Max accessors","Navigator.OfflineDuration"])
p("C04","Tracks are faithful, connected chains of the points they are built from",
 "Building or restoring a track from fewer than two points fails; otherwise the track has one segment per consecutive pair of points, in order, each holding exactly those two points, its own position, their bearing and distance. The track's length is the sum of its segment lengths, and it is closed exactly when it has at least three points and the first equals the last.",
 ["inputs"],"all point lists of any length",
 "Tests use two or three literal point lists; closedness is only tested on fully distinct or fully equal end points.",
 ["navigator/route_track.go","navigator/route_track_segment.go"],
 [("segment construction","makeSegments"),("closedness","isClosed"),("restoration","RestoreTrack")],obs=["Track.SegmentAt","Track.Distance","Track.IsClosed","Track.NumSegments"])
p("C05","The navigator's position always denotes an existing place; no call panics",
 "After any sequence of navigator operations the current route, track and segment indices are within the existing routes, tracks and segments (or zero when there are none). Every navigation, query and mutation call terminates normally for every argument, including negative, huge and unknown ones.",
 ["histories","inputs"],"all sequences of navigator calls with arbitrary arguments and route sets",
 "Tests run fixed scripts on small routes; index validity after an arbitrary interleaving of jumps, moves, removals and steps is a representation invariant.",
 ["navigator/navigator.go","navigator/route.go","navigator/route_track.go"],
 [("bounds checks","MoveToSegment, RouteAt, TrackAt, SegmentAt"),("reset on removal","RemoveRoute, RemoveTrack, ResetRoutes"),("step","nextSegment/nextTrack/nextRoute")],
 [("routeIndex,trackIndex,segmentIndex","current position","navigator.Navigator")],["RouteIndex","TrackIndex","SegmentIndex","CurrentSegment"])
p("C06","Total distances equal the sums of their parts after every change",
 "After adding or removing tracks a route's distance equals the sum of its tracks' distances, and after adding, removing or resetting routes or tracks through a navigator its distance equals the sum of its routes' distances. Such a change through the navigator also rewinds the position and every travelled-distance counter to zero.",
 ["histories","inputs"],"all sequences of add/remove/reset operations",
 "Tests compare a few sums on fixed routes and never remove a track through a navigator that has moved.",
 ["navigator/navigator.go","navigator/route.go"],[("route sum","Route.updateState"),("navigator sum","Navigator.calcRouteDistance"),("rewind","Navigator.Reset")],
 [("dist/distance","cached totals","Route, Navigator")],["Route.Distance","Navigator.Distance"])
p("C07","A location step advances by speed times elapsed time along the route",
 "A location step with a fitting remaining distance adds exactly elapsed-time x speed to all travelled-distance counters and reports the matching point on the current segment; the travelled part of a segment never exceeds its length. A step while offline only decrements the remaining offline time and moves nothing, and a step that does not fit moves to the next segment, track or route and goes offline unless offline mode is disabled.",
 ["inputs","histories"],"all positions, ticks, speeds and offline states",
 "Tests step fixed tracks and check final flags, never the counters after each individual step.",
 ["navigator/navigator.go"],[("step","Navigator.NextLocation"),("offline countdown","Navigator.nextOffline, ToOffline"),("distance","updateDist, isValidDistance")],
 [("current*Distance","travelled distances","navigator.Navigator"),("offlineIndex","remaining offline seconds","navigator.Navigator")],["NextLocation","CurrentSegmentDistance","OfflineDuration"])
p("C08","Traversal visits segments, tracks and routes in order and then finishes",
 "When a segment is exhausted the position moves to the next segment of the track, else to the first segment of the next track, else to the first track of the next route, else back to the very beginning, each time resetting exactly the travelled distances of what was left. Finish is reported only at the very beginning after a complete pass, once per pass, and acknowledging it zeroes the travelled distance.",
 ["histories","inputs"],"all route/track/segment shapes and positions",
 "Tests walk one shape; the transition must hold from every position of every shape.",
 ["navigator/navigator.go"],[("advance","nextSegment, nextTrack, nextRoute, NextLocation"),("finish","IsFinish")],obs=["RouteIndex/TrackIndex/SegmentIndex","IsFinish"])
p("C09","Moving to a segment, track or route succeeds exactly for other valid places",
 "A move by index or identifier succeeds exactly when the destination exists and differs from the current position; it then places the tracker at the start of exactly that segment, cancels offline time and clears the travelled distances of whatever changed. A rejected move changes nothing.",
 ["inputs"],"all index triples and identifiers, all navigator states",
 "Tests try a few literal indices; frame conditions (nothing else changes) are not tested.",
 ["navigator/navigator.go"],[("bounds and frame","MoveToSegment"),("lookup","MoveToRouteByID, MoveToTrackByID, indexRoute"),("neighbours","NextRoute, PrevRoute")],obs=["MoveTo*","Location","RouteIndex"])
p("C10","Jumping to a distance lands exactly that far along the route set",
 "Jumping to a distance of at least one metre on a navigator with non-degenerate tracks succeeds, caps the distance at the total, and lands on the route, track and segment that contains it, with the total travelled distance equal to it and the travelled part of each level equal to the remainder after the parts before it. Any other jump fails and changes nothing.",
 ["inputs"],"all distances and all route/track/segment shapes",
 "Tests jump within single-route shapes; with several routes and tracks indices are sums over loops.",
 ["navigator/navigator.go"],[("search","Navigator.jump"),("entry","DestinationTo")],obs=["DestinationTo","CurrentDistance","RouteIndex"])
p("C11","Adding, removing and looking up routes, tracks and sensors is exact",
 "Adding appends exactly the given non-nil items not already present by identifier, in order; removing by identifier deletes exactly the first item with that identifier and keeps the order of the rest; lookups return the item with that identifier or index or report absence. Iteration visits every item in order until told to stop, and returned lists are copies.",
 ["inputs","histories"],"all collections, identifiers and indices",
 "Tests use one to three items; order and completeness over arbitrary collections is universal.",
 ["navigator/navigator.go","navigator/route.go","device.go"],[("routes","AddRoute, RemoveRoute, RouteByID, RouteAt, Routes, EachRoute"),("tracks","Route.AddTrack, RemoveTrack, TrackByID, TrackAt, EachTrack"),("sensors","Device.AddSensor, RemoveSensor, SensorByID, SensorAt, EachSensor")],obs=["Routes()","Sensors()","NumTracks"])
p("C12","Saving and restoring any part of a tracker reproduces it",
 "Taking a snapshot of a curve, sensor, speed, battery, segment, track, route, navigator or device and restoring it into a fresh object yields an object equal in every saved attribute: limits, values, control points, indices, distances, versions, identifiers, colours, names, flags and order of elements. Taking a snapshot changes nothing in the source.",
 ["inputs","histories"],"all reachable object states",
 "Tests compare a few attributes of freshly built objects; a forgotten field or swapped index in any state escapes.",
 ["curve/curve.go","types/sensor.go","types/speed.go","types/battery.go","navigator/navigator.go","navigator/route.go","navigator/route_track.go","navigator/route_track_segment.go","device.go"],
 [("save","Snapshot methods"),("restore","FromSnapshot functions")],obs=["Snapshot","FromSnapshot","MarshalBinary"])
p("C13","Decoding saved trackers, sensors and routes never panics on any input",
 "Decoding a tracker, sensor list or route list from any byte string returns either an error or objects on which every query is safe; empty input is always an error. Restoring from any snapshot message, including ones with missing parts or out-of-range positions, never panics and never yields a position outside the restored routes.",
 ["inputs"],"all byte strings / all snapshot messages a peer can send",
 "Tests decode only bytes produced by the encoder.",
 ["io.go","device.go","encoding.go","navigator/navigator.go","navigator/route.go","navigator/route_track.go","navigator/route_track_segment.go","curve/curve.go","types/sensor.go","types/speed.go","types/battery.go"],
 [("decoding","DecodeTracker, DecodeSensors, DecodeRoutes, UnmarshalBinary"),("restore","FromSnapshot functions")],obs=["DecodeTracker","DecodeSensors","DecodeRoutes"])
p("C14","GeoJSON export and import preserve routes",
 "Exporting routes to GeoJSON produces one feature per route that has tracks, with one geometry per track holding exactly the track's points (a polygon exactly for closed tracks) and the identifiers, colours, names and properties of the route and of each track. Importing such a feature restores each track from its own geometry with its own identifier, colour, name and properties, in order.",
 ["inputs"],"all route lists with any number of tracks, points and properties",
 "Tests round-trip few routes and compare counts and route attributes only.",
 ["geojson/encoding.go","geojson/feature_collection.go"],[("export","ToFeatureCollection, copyPoints"),("import","restoreRoute, parseGeometries, parseGeometry, toPoints")],obs=["Encode","Decode"])
p("C15","GPX export and import preserve routes",
 "Exporting routes to GPX produces one track element per route and one segment per track holding exactly the track's points in order, together with the identifiers, colours, names, distances and properties of the route and of each track. Importing such a document restores each route and each track from its own element with its own attributes, in order.",
 ["inputs"],"all route lists with any number of tracks, points and properties",
 "Tests round-trip few routes and never check track properties.",
 ["gpx/encoding.go"],[("export","Encode, copyPoints, makeAttrs"),("import","Decode, makeProps, makePoints, validateRoutes")],obs=["Encode","Decode"])
p("C16","Importing arbitrary GeoJSON or GPX never panics and yields valid routes",
 "Importing any parsed GeoJSON or GPX document returns an error or a list of non-nil routes whose tracks are non-nil and have at least one segment, and never panics, whatever parts of the document are missing, null, of unsupported kind or inconsistent in number.",
 ["inputs"],"all documents accepted by the JSON/XML parsers",
 "Tests import a few well-formed files and some malformed ones.",
 ["geojson/encoding.go","gpx/encoding.go"],[("geometry dispatch","geojson parseGeometry/parseGeometries"),("structure validation","gpx validateRoutes")],obs=["geojson.Decode","gpx.Decode"])
p("C17","A device tick updates time, battery, speed, position and sensors together",
 "A tick on a device that has routes adds the elapsed time, including ticks missed while the device was busy, to its duration, drains the battery by it, recharges and goes offline when the battery is low, and draws the next speed, location, elevation and every sensor value at the same normalised time in [0,1]. A tick on a device without routes changes nothing, and a tick on a busy device only counts one missed tick; on completing the routes the duration restarts at zero and every generator is reshuffled.",
 ["inputs","histories"],"all device states and elapsed times",
 "Tests loop over ticks on default devices and look at the final result only.",
 ["device.go"],[("tick","Device.Next"),("missed ticks","incTick, resetTick"),("normalised time","nextT, calcAvgT")],obs=["Device.Next","State()"])
p("C18","The published device state mirrors the device's components",
 "After every update or successful tick the published state equals the components: every distance, index, identifier, coordinate, bearing, elevation, offline flag and duration of the navigator, battery charge and charge time, speed, and one entry per sensor with its current values in order. The published route list has one entry per route and track, in order, with their identifiers, colours, distances and counts, and is refreshed whenever routes change.",
 ["inputs","histories"],"all device states",
 "Tests compare a few fields of default devices.",
 ["device.go","navigator/navigator.go","navigator/location.go"],[("mirror","Navigator.Update, Device.updateState, updateSensors, updateRoutes"),("change detection","Navigator.Sum, isNotValidNS")],obs=["Device.State"])
p("C19","Every public device and generator method uses its lock correctly",
 "Every public method of a device or generator touches shared state only while holding that object's lock, in exclusive mode for every write, and releases every lock it took on every return path, never taking a lock it already holds.",
 ["schedules","inputs"],"all call arguments, all paths; hence all schedules of calls from many goroutines",
 "The race detector sees only the schedules and paths that a test happens to run.",
 ["device.go","generator.go"],[("mutex","Device.mu"),("mutexes","Generator.mu, Generator.dmu")],
 [("mu","guards all fields","Device, Generator")],["data races","deadlocks"])
p("C20","Every generator tick delivers every attached device exactly once",
 "On each generator tick every attached device is stepped exactly once with the elapsed time (at least one second), and its state is placed in exactly one of the slices handed to the workers, for every number of devices, packet size and number of workers. Each slice is encoded and delivered to exactly one of the packet or error callbacks.",
 ["inputs","configurations"],"all device counts, packet sizes, worker counts",
 "Tests run 1 to a few thousand devices with one configuration; slice boundaries depend on the three numbers.",
 ["generator.go"],[("packet fill and flush","Generator.run, flush"),("worker","Generator.doWorker"),("sizes","Options.prepare, New")],obs=["OnPacket","OnError"])
p("C21","Attaching and detaching keeps the generator's device registry exact",
 "Attaching a stopped device appends it and marks it running; attaching a running device is an error and changes nothing. Detaching removes exactly the device with that identifier, keeps the order of the rest and marks it stopped; lookups, counts and iteration report exactly the attached devices.",
 ["histories","inputs"],"all sequences of attach/detach/lookup",
 "Tests attach and detach one or two devices.",
 ["generator.go","device.go"],[("registry","Generator.Attach, Detach, delete, find"),("status","Device.mount, unmount")],obs=["NumDevices","Lookup","Status"])
p("C22","Geographic computations are exact formulas with correct ranges",
 "Distance is the haversine great-circle distance on a sphere of radius 6371 km, is symmetric, non-negative and zero for equal points; bearing is the initial great-circle bearing in [0,360); the destination point is the great-circle destination with longitude in [-180,180). Boxes contain exactly the points between their corners and shifting a shape shifts every point by the given offset.",
 ["inputs"],"all coordinates, distances and bearings",
 "There are no direct tests of the geo package.",
 ["geo/bearing.go","geo/destination.go","geo/distance.go","geo/geo.go","geo/normalize.go"],[("haversine","geo.Haversine, DistanceFromHaversine"),("bearing","geo.Bearing"),("destination","geo.Destination")],obs=["geo.Distance","geo.Bearing","geo.Destination"])
p("C23","Random locations, polygons, strings and routes satisfy their contracts",
 "A random location lies in the requested country's bounding box (or anywhere on the globe), and an unknown country is an error; a random polygon has the requested number of vertices plus a closing copy of the first and never panics. A random string has the requested length over the documented alphabet, and a random route has the requested number of named, closed tracks around the given centre.",
 ["inputs"],"all arguments and random draws",
 "Tests sample a few draws.",
 ["random/latlon.go","random/polygon.go","random/string.go","random/random.go","route.go"],[("country box","BoundingBox, LatLonByCountry"),("polygon","Polygon"),("string","String"),("route","RandomRoute")],obs=["random.*","RandomRoute*"])
p("C24","Degree-minute-second output denotes the same coordinate",
 "For every coordinate the published degrees, minutes and seconds are non-negative with minutes below 60, add up to the absolute value of the coordinate, and the direction letter gives its sign.",
 ["inputs"],"all coordinates",
 "No test checks the conversion.",
 ["navigator/location.go"],[("conversion","setDMS")],obs=["State().Location.LatDms/LonDms"])
p("C25","Property maps return what was set, with the right type only",
 "Reading a property with a typed accessor succeeds exactly when the key is present with a value of that type and then returns that value; setting, merging, removing and resetting change exactly the named keys, and merged values override earlier ones.",
 ["inputs","histories"],"all keys, values and maps",
 "Tests use literal keys and values.",
 ["properties/properties.go"],[("typed access","Properties.String/Bool/Int/Float64"),("mutation","Set, Merge, Remove, Reset")],obs=["Properties methods"])
p("C26","A running generator stops cleanly and never loses a tick under concurrency",
 "Closing a running generator makes the run call return after a bounded time, with no goroutine left blocked, and while it runs no worker, ticker and callback interleaving deadlocks or drops a packet.",
 ["schedules"],"all interleavings of workers, ticker, callbacks and close",
 "Tests run a few wall-clock schedules.",
 ["generator.go"],[("channels","Generator.Run, run, doWorker, doNext, flush, Close")],obs=["Run returns"])
p("C27","A published state obtained from a running device is never torn",
 "A state message obtained from a device while it is being stepped by a generator is an internally consistent picture of one tick.",
 ["schedules"],"all interleavings of readers and ticks",
 "Tests read states only between ticks.",
 ["device.go"],[("shared message","Device.State")],obs=["Device.State"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
