// Routes as the importers make them.
package navigator
def okTrack(t *Track) bool = t != nil && len(t.segments) >= 1
def okRoute(r *Route) bool = r != nil && (forall k int :: {r.tracks[k]} 0 <= k && k < len(r.tracks) ==> okTrack(r.tracks[k]))
contract navigator.NewTrack (ps) (t, err)
  modifies nothing
  inv (segments []Segment) len(segments) == len(ps) - 1
  ensures [rejects] err != nil <==> len(ps) < 2
  ensures [made] err == nil ==> okTrack(t) && fresh(t) && len(t.segments) == len(ps) - 1 && t.props == nil
contract navigator.RestoreTrack (id, color, ps) (t, err)
  modifies nothing
  ensures [rejects] err != nil <==> len(ps) < 2 || len(id) == 0
  ensures [made] err == nil ==> okTrack(t) && fresh(t) && len(t.segments) == len(ps) - 1 && t.props == nil
contract navigator.NewRoute () (r)
  modifies nothing
  ensures [made] okRoute(r) && fresh(r) && len(r.tracks) == 0 && fresh(r.tracks) && r.props == nil
contract navigator.RestoreRoute (id, color, props) (r)
  modifies nothing
  ensures [made] okRoute(r) && fresh(r) && len(r.tracks) == 0 && fresh(r.tracks) && r.props == props
contract (*navigator.Route).AddTrack (r, t) (q)
  requires okRoute(r) && (t == nil || okTrack(t))
  modifies r.tracks, elems(r.tracks), r.dist, r.version
  ensures [intact] okRoute(r) && q == r
  ensures [count] len(r.tracks) == old(len(r.tracks)) + (t == nil ? 0 : 1)
  ensures [array] arr(r.tracks) == old(arr(r.tracks)) || fresh(r.tracks)
contract (*navigator.Route).ChangeName (r, s) (err)
  requires r != nil
  modifies r.name, r.version
contract (*navigator.Track).ChangeName (r, s) (err)
  requires r != nil
  modifies r.name, r.version
