out=['include "nav.inc"','include "ext.inc"','option terminates','package navigator','']
out.append('''// Everything a navigator needs for its queries and steps.
def wfNav(n *Navigator) bool = okNav(n) && n.elevation != nil && n.elevation.gen != nil && (n.skipOffline || n.offline != nil)
''')
def c(name, params='', req='true', extra='', ens='wfNav(n)'):
    p='n'+(', '+params if params else '')
    out.append(f"contract (*navigator.Navigator).{name} ({p})\n  local\n  noframe\n{extra}  requires wfNav(n)"+(f" && {req}" if req!='true' else '')+f"\n  ensures [position] {ens}\n")
for m in "Location CurrentBearing Sum ResetRoutes Distance CurrentDistance RouteDistance CurrentRouteDistance TrackDistance CurrentTrackDistance SegmentDistance CurrentSegmentDistance IsFinish Routes CurrentRoute CurrentTrack CurrentSegment NumRoutes TrackIndex RouteIndex SegmentIndex Elevation IsOffline OfflineDuration NextRoute PrevRoute ToOffline ShuffleElevation Snapshot Reset".split(): c(m)
for m in "RouteByID RemoveRoute MoveToRouteByID".split(): c(m,'id')
for m in "RemoveTrack MoveToTrackByID".split(): c(m,'id, tid')
for m in "RouteAt MoveToRoute NextElevation".split(): c(m,'x')
c('DestinationTo','x',extra='''  inv (i int, routeIndex int, route *Route) 0 <= i && 0 <= routeIndex && (routeIndex == 0 || routeIndex < len(n.routes)) && (route != nil ==> routeIndex < len(n.routes) && route == n.routes[routeIndex])
  inv (i int, trackIndex int, track *Track, route *Route) 0 <= i && 0 <= trackIndex && (trackIndex == 0 || trackIndex < len(route.tracks)) && (track != nil ==> trackIndex < len(route.tracks) && track == route.tracks[trackIndex])
  inv (i int, segmentIndex int, segment Segment, track *Track) 0 <= i && 0 <= segmentIndex && (segmentIndex == 0 || segmentIndex < len(track.segments)) && (segment.dist != 0 ==> segmentIndex < len(track.segments) && segment == track.segments[segmentIndex])
''')
c('MoveToTrack','x, y'); c('MoveToSegment','x, y, z')
c('EachRoute','fn','fn != nil','  ghosts\n')
c('AddRoute','routes','arr(routes) != arr(n.routes) && (forall i int :: 0 <= i && i < len(routes) && routes[i] != nil ==> okRoute(routes[i]))','  inv okRoutes(n)\n')
c('NextLocation','tick, speed','true','  dec len(n.routes[n.routeIndex].tracks[n.trackIndex].segments) - n.segmentIndex\n  inv okNav(n)\n')
c('FromSnapshot','snap',extra='  inv (i int) (forall k int :: 0 <= k && k < i ==> okRoute(n.routes[k]))\n'); out[-1]=out[-1].replace('requires wfNav(n)','requires n != nil').replace('ensures [position] wfNav(n)','ensures [position] snap != nil ==> wfNav(n)')
c('Update','state','state != nil && (state.Location == nil || state.Location.Utm != nil && state.Location.LatDms != nil && state.Location.LonDms != nil)')

out.append('''// Routes and tracks on their own.
helper (*navigator.Route).RouteFromSnapshot (r, snap) (err)
  requires okRoute(r)
  modifies r.*
  inv (i int, tracks []*Track) (forall k int :: 0 <= k && k < i ==> tracks[k] != nil)
  ensures okRoute(r)
''')
def r(recv,name,params='',req='true',extra=''):
    v=recv[0].lower()
    p=v+(', '+params if params else '')
    inv='okRoute(r)' if recv=='Route' else 't != nil'
    out.append(f"contract (*navigator.{recv}).{name} ({p})\n  local\n  noframe\n{extra}  requires {inv}"+(f" && {req}" if req!='true' else '')+f"\n  ensures [intact] {inv}\n")
for m in "ID Color Distance Name Props NumTracks Snapshot".split(): r('Route',m)
for m in "TrackAt ChangeName RemoveTrack TrackByID AddTrack".split(): r('Route',m,'x')
r('Route','EachTrack','fn','fn != nil','  ghosts\n')
for m in "ID IsClosed Color Name Distance Props NumSegments Snapshot".split(): r('Track',m)
for m in "SegmentAt ChangeName ChangeColor".split(): r('Track',m,'x')
open('/verif/specs/C05.gvc','w').write('\n'.join(out))
