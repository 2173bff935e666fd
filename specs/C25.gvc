package properties

contract properties.Make () (p)
  modifies nothing
  ensures [empty] p != nil && fresh(p) && (forall k string :: !(k in p))

contract (properties.Properties).Merge (p, other)
  requires p != nil
  modifies map(p)
  inv forall k string :: $seen(k) ==> k in p && p[k] == old(other[k]) && old(k in other)
  inv forall k string :: !$seen(k) ==> (k in p <==> old(k in p)) && p[k] == old(p[k])
  ensures [values] forall k string :: k in old(other) ==> p[k] == old(other[k])
  ensures [rest] forall k string :: !(k in old(other)) ==> p[k] == old(p[k])
  ensures [keys] forall k string :: k in p <==> old(k in p) || old(k in other)

contract (properties.Properties).String (p, key) (s, ok)
  modifies nothing
  ensures [typed] ok <==> (key in p && typeis(p[key], string))
  ensures [value] ok ==> s == unbox(p[key], string)
  ensures [absent] !ok ==> s == ""

contract (properties.Properties).Bool (p, key) (s, ok)
  modifies nothing
  ensures [typed] ok <==> (key in p && typeis(p[key], bool))
  ensures [value] ok ==> s == unbox(p[key], bool)
  ensures [absent] !ok ==> !s

contract (properties.Properties).Float64 (p, key) (s, ok)
  modifies nothing
  ensures [typed] ok <==> (key in p && typeis(p[key], float64))
  ensures [value] ok ==> s == unbox(p[key], float64)
  ensures [absent] !ok ==> s == 0.0

// Integers stored as int, int32 or int64 are integers.
contract (properties.Properties).Int (p, key) (s, ok)
  modifies nothing
  ensures [typed] ok <==> (key in p && (typeis(p[key], int) || typeis(p[key], int32) || typeis(p[key], int64)))
  ensures [value] key in p && typeis(p[key], int) ==> s == unbox(p[key], int)
  ensures [value32] key in p && typeis(p[key], int32) ==> s == unbox(p[key], int32)
  ensures [value64] key in p && typeis(p[key], int64) ==> s == unbox(p[key], int64)
  ensures [absent] !ok ==> s == 0

contract (properties.Properties).Set (p, key, value) (q)
  requires p != nil
  modifies map(p)
  ensures [set] key in p && p[key] == value
  ensures [rest] forall k string :: k != key ==> ((k in p <==> old(k in p)) && p[k] == old(p[k]))
  ensures [same] q == p

contract (properties.Properties).Remove (p, key)
  modifies map(p)
  ensures [gone] !(key in p)
  ensures [rest] forall k string :: k != key ==> ((k in p <==> old(k in p)) && p[k] == old(p[k]))

contract (*properties.Properties).Reset (p)
  requires p != nil
  modifies deref(p)
  ensures [empty] *p != nil && (forall k string :: !(k in *p))
