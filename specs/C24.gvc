include "nav.inc"
option floatReal
package navigator

def okDMS(d *proto.Device_Location_DMS, x float64) bool =
  d.Degrees >= 0 && 0 <= d.Minutes && d.Minutes < 60 && d.Seconds >= 0.0 && d.Seconds < 60.0 &&
  float64(d.Degrees) + float64(d.Minutes) / 60.0 + d.Seconds / 3600.0 == abs(x)

helper navigator.setDMS (lat, lon, a, b)
  requires a != nil && b != nil && a != b && -360.0 <= lat && lat <= 360.0 && -360.0 <= lon && lon <= 360.0
  modifies a.*, b.*
  ensures [lat] okDMS(a, lat)
  ensures [lon] okDMS(b, lon)
  ensures [latdir] (lat > 0.0 ==> a.Direction == "N") && (lat < 0.0 ==> a.Direction == "S")
  ensures [londir] (lon > 0.0 ==> b.Direction == "E") && (lon < 0.0 ==> b.Direction == "W")
  ensures [letter] (a.Direction == "N" || a.Direction == "S") && (b.Direction == "E" || b.Direction == "W")

contract (*navigator.Navigator).Update (n, state)
  noframe
  requires okNav(n) && n.elevation != nil && n.elevation.gen != nil && (n.skipOffline || n.offline != nil)
  requires state != nil && (state.Location == nil || state.Location.Utm != nil && state.Location.LatDms != nil && state.Location.LonDms != nil && state.Location.LatDms != state.Location.LonDms)
  requires -360.0 <= n.point.Lat && n.point.Lat <= 360.0 && -360.0 <= n.point.Lon && n.point.Lon <= 360.0
  ensures [coords] state.Location.Lat == n.point.Lat && state.Location.Lon == n.point.Lon
  ensures [lat] okDMS(state.Location.LatDms, n.point.Lat)
  ensures [lon] okDMS(state.Location.LonDms, n.point.Lon)
  ensures [latdir] (n.point.Lat > 0.0 ==> state.Location.LatDms.Direction == "N") && (n.point.Lat < 0.0 ==> state.Location.LatDms.Direction == "S")
  ensures [londir] (n.point.Lon > 0.0 ==> state.Location.LonDms.Direction == "E") && (n.point.Lon < 0.0 ==> state.Location.LonDms.Direction == "W")
  ensures [letter] (state.Location.LatDms.Direction == "N" || state.Location.LatDms.Direction == "S") && (state.Location.LonDms.Direction == "E" || state.Location.LonDms.Direction == "W")
