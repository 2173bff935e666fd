package main

// Mapping of Go types to SMT sorts, zero values and heap names.

import (
	"fmt"
	"go/types"
	"strings"
)

const modPath = "github.com/mmadfox/go-gpsgen"

func shortPath(p string) string {
	p = strings.TrimPrefix(p, modPath+"/")
	if p == modPath {
		p = "gpsgen"
	}
	if i := strings.LastIndex(p, "/"); i >= 0 && !strings.Contains(p, "gpsgen") {
		// keep last two elements to stay unique
		parts := strings.Split(p, "/")
		if len(parts) > 2 {
			parts = parts[len(parts)-2:]
		}
		p = strings.Join(parts, "_")
	}
	return p
}

// deAlias removes type aliases at every depth, so that one type has one name.
func deAlias(t types.Type) types.Type {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		return types.NewPointer(deAlias(u.Elem()))
	case *types.Slice:
		return types.NewSlice(deAlias(u.Elem()))
	case *types.Array:
		return types.NewArray(deAlias(u.Elem()), u.Len())
	case *types.Map:
		return types.NewMap(deAlias(u.Key()), deAlias(u.Elem()))
	case *types.Chan:
		return types.NewChan(u.Dir(), deAlias(u.Elem()))
	default:
		return u
	}
}

func typeName(t types.Type) string {
	return sanitize(types.TypeString(deAlias(t), func(p *types.Package) string { return shortPath(p.Path()) }))
}

// canonical struct naming: named types with struct underlying get their own datatype.
func structDTName(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		return "S." + typeName(n)
	}
	s := typeName(t)
	if len(s) > 60 {
		h := uint32(2166136261)
		for i := 0; i < len(s); i++ {
			h = (h ^ uint32(s[i])) * 16777619
		}
		s = fmt.Sprintf("anon%08x", h)
	}
	return "S." + s
}

var opaquePkgs = map[string]bool{
	"sync": true, "sync/atomic": true, "google.golang.org/protobuf/internal/impl": true, "context": true,
	"reflect": true, "math/rand": true, "math/rand/v2": true, "internal/sync": true, "internal/race": true,
	"google.golang.org/protobuf/reflect/protoreflect": true, "github.com/valyala/fastrand": true,
	"google.golang.org/protobuf/internal/pragma": true, "time": true, "google.golang.org/protobuf/runtime/protoimpl": true,
}

func isOpaque(t types.Type) bool {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil && opaquePkgs[n.Obj().Pkg().Path()] {
			if _, ok := n.Underlying().(*types.Struct); ok {
				if n.Obj().Name() == "Ticker" || n.Obj().Name() == "Timer" {
					return false // the channel is public
				}
				return true
			}
		}
	}
	return false
}

const sliceDT = "Slice"

func init() {
	declDT(sliceDT, []string{"arr", "off", "len", "cap"}, []string{"Int", "Int", "Int", "Int"})
}

func sortOf(t types.Type) string {
	t = types.Unalias(t)
	if isOpaque(t) {
		return "Op." + typeName(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsFloat != 0:
			return "Real"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		case u.Kind() == types.UntypedNil:
			return "Int"
		}
		return "Op." + typeName(t)
	case *types.Pointer, *types.Map, *types.Chan:
		return "Int"
	case *types.Signature:
		return "Fn"
	case *types.Interface:
		return "Iface"
	case *types.Slice:
		return sliceDT
	case *types.Array:
		return arrSort("Int", sortOf(u.Elem()))
	case *types.Struct:
		name := structDTName(t)
		if _, ok := dts[name]; !ok {
			var fs, ss []string
			// reserve order: compute sorts of fields first (they must be declared before)
			for i := 0; i < u.NumFields(); i++ {
				ss = append(ss, sortOf(u.Field(i).Type()))
				fs = append(fs, fmt.Sprintf("%s", u.Field(i).Name()))
				if u.Field(i).Name() == "_" {
					fs[i] = fmt.Sprintf("_%d", i)
				}
			}
			declDT(name, fs, ss)
		}
		return name
	case *types.TypeParam:
		return "Op." + typeName(t)
	}
	return "Op." + typeName(t)
}

func nilSlice() *Term { return Ctor(sliceDT, Int(0), Int(0), Int(0), Int(0)) }

func nilIface() *Term { return Sym("nil.iface", "Iface") }
func nilFn() *Term    { return Sym("nil.fn", "Fn") }

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	if isOpaque(t) {
		s := sortOf(t)
		return Sym("zero."+s, s)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		name := sortOf(t)
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, zeroOf(u.Field(i).Type()))
		}
		return Ctor(name, args...)
	case *types.Array:
		return ConstArr(sortOf(t), zeroOf(u.Elem()))
	}
	switch s := sortOf(t); s {
	case "Bool":
		return False
	case "Int":
		return Int(0)
	case "Real":
		return RealF(0)
	case "Str":
		return StrLit("")
	case "Fn":
		return nilFn()
	case "Iface":
		return nilIface()
	case sliceDT:
		return nilSlice()
	default:
		return Sym("zero."+s, s)
	}
}

func sArr(s *Term) *Term { return Sel(s, 0) }
func sOff(s *Term) *Term { return Sel(s, 1) }
func sLen(s *Term) *Term { return Sel(s, 2) }
func sCap(s *Term) *Term { return Sel(s, 3) }

func mkSlice(arr, off, ln, cp *Term) *Term { return Ctor(sliceDT, arr, off, ln, cp) }

// sidx(off,i) = off+i, kept as a function so it can be used as a quantifier trigger.
func sidx(off, i *Term) *Term {
	if off.op == "app" && off.name == "sidx" && len(off.args) == 2 {
		return sidx(off.args[0], Add(off.args[1], i))
	}
	return sidx0(off, i)
}

// splitOff splits an offset sidx(base, lo) into base and lo.
func splitOff(off *Term) (*Term, *Term) {
	if off.op == "app" && off.name == "sidx" && len(off.args) == 2 {
		return off.args[0], off.args[1]
	}
	return off, Int(0)
}

func sidx0(off, i *Term) *Term {
	if off.op == "int" && off.num.Sign() == 0 {
		return i
	}
	if off.op == "int" && i.op == "int" {
		return Add(off, i)
	}
	return App("sidx", "Int", off, i)
}

// heap names -------------------------------------------------------------------------

// derefStruct returns the struct type a pointer type points to, or nil.
func structOf(t types.Type) (*types.Struct, types.Type) {
	t = types.Unalias(t)
	if isOpaque(t) {
		return nil, nil
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s, t
	}
	return nil, nil
}

func fieldHeap(st types.Type, i int) (string, string) {
	s := st.Underlying().(*types.Struct)
	n := s.Field(i).Name()
	if n == "_" {
		n = fmt.Sprintf("_%d", i)
	}
	return "H." + strings.TrimPrefix(structDTName(st), "S.") + "." + n, arrSort("Int", sortOf(s.Field(i).Type()))
}

func elemHeap(elem types.Type) (string, string) {
	return "E." + typeName(elem), arrSort("Int", arrSort("Int", sortOf(elem)))
}

func boxHeap(t types.Type) (string, string) {
	return "B." + typeName(t), arrSort("Int", sortOf(t))
}

func mapHeaps(m *types.Map) (dom, val, ln [2]string) {
	k, v := sortOf(m.Key()), sortOf(m.Elem())
	n := typeName(m.Key()) + "_" + typeName(m.Elem())
	dom = [2]string{"MD." + n, arrSort("Int", arrSort(k, "Bool"))}
	val = [2]string{"MV." + n, arrSort("Int", arrSort(k, v))}
	ln = [2]string{"ML." + n, arrSort("Int", "Int")}
	return
}

// isRefType: values of this type are references into the heap (Int sort, validity bounded by alloc).
func isRefType(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

// heapElemType records Go type of heap contents, for well-formedness facts.
var heapTypes = map[string]types.Type{}

// wfValue returns the well-formedness facts of a value of Go type t under allocation bound A.
func wfValue(v *Term, t types.Type, A *Term) *Term {
	t = types.Unalias(t)
	if isOpaque(t) {
		return True
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return And(Le(Int(0), v), Lt(v, A))
	case *types.Slice:
		return And(Le(Int(0), sArr(v)), Lt(sArr(v), A), Le(Int(0), sOff(v)), Le(Int(0), sLen(v)), Le(sLen(v), sCap(v)),
			Implies(Eq(sArr(v), Int(0)), And(Eq(sCap(v), Int(0)), Eq(sOff(v), Int(0)))))
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				cs = append(cs, wfValue(Sel(v, i), u.Field(i).Type(), A))
			}
		}
		return And(cs...)
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			c := Le(Int(0), v)
			if hi := maxOf(u); hi != nil {
				c = And(c, Le(v, hi))
			}
			return c
		}
		if u.Info()&types.IsInteger != 0 {
			if hi := maxOf(u); hi != nil && u.Kind() != types.Int && u.Kind() != types.Int64 && u.Kind() != types.UntypedInt {
				return And(Le(Neg(Add(hi, Int(1))), v), Le(v, hi))
			}
		}
	}
	return True
}

func maxOf(b *types.Basic) *Term {
	switch b.Kind() {
	case types.Uint8:
		return Int(255)
	case types.Int8:
		return Int(127)
	case types.Uint16:
		return Int(65535)
	case types.Int16:
		return Int(32767)
	case types.Uint32:
		return Int(4294967295)
	case types.Int32:
		return Int(2147483647)
	}
	return nil
}

// hasRefs: does the type carry facts worth asserting (refs, slices, bounded ints)?
func hasRefs(t types.Type) bool {
	t = types.Unalias(t)
	if isOpaque(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Basic:
		return u.Info()&types.IsInteger != 0 && u.Kind() != types.Int && u.Kind() != types.Int64 && u.Kind() != types.UntypedInt
	}
	return false
}
