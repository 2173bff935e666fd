// Assumed contracts of dependencies (no body in this repository).
package properties
extern "encoding/json.Marshal" (v) (data, err)
  modifies nothing
  ensures fresh(data) || arr(data) == 0
  ensures err == nil ==> len(data) > 0
// Unmarshal is only ever called with the address of a property map.
extern "encoding/json.Unmarshal" (data, v) (err)
  requires typeis(v, *Properties) && unbox(v, *Properties) != nil
  modifies deref(unbox(v, *Properties)), map(old(*unbox(v, *Properties)))
