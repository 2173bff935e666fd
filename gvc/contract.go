package main

// Applying contracts at call sites.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) contractFor(name string) *Contract {
	if e.spec == nil {
		return nil
	}
	ct := e.spec.contracts[name]
	if ct == nil || ct.dropped || ct.local || ct.noframe && !ct.extern && !ct.trusted {
		return nil
	}
	if ct.helper && e.uses != nil {
		e.uses[ct] = true
	}
	return ct
}

func (e *Engine) externFor(full string) *Contract {
	if e.spec == nil {
		return nil
	}
	if ct := e.spec.externs[full]; ct != nil {
		return ct
	}
	return e.spec.externs[strings.ReplaceAll(full, modPath+"/", "")]
}

// paramTypes returns receiver and parameter types of a signature (receiver first when present).
func paramTypes(fn *ssa.Function, sig *types.Signature, n int) []types.Type {
	var out []types.Type
	if fn != nil && len(fn.Params) > 0 {
		for _, p := range fn.Params {
			out = append(out, p.Type())
		}
		return out
	}
	if sig.Recv() != nil {
		out = append(out, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Type())
	}
	if len(out) < n && sig.Recv() == nil {
		// interface method without receiver in the signature
		out = append([]types.Type{tAny}, out...)
	}
	return out
}

// mayChange says whether the contract allows the ghost to change.
func (ct *Contract) mayChange(g string) bool {
	if !ct.ghosts {
		return false
	}
	for _, p := range ct.ghostOnly {
		if strings.HasPrefix(g, p+".") || g == "ev."+p || strings.HasPrefix(g, "ev."+p+"#") {
			return true
		}
	}
	return ct.ghostOnly == nil
}

func (e *Engine) ctxFor(ct *Contract, st, old *State, binds map[string]SVal) *evalCtx {
	return &evalCtx{e: e, st: st, old: old, binds: binds, pkg: ct.pkg, pos: ct.name}
}

func (e *Engine) bindParams(ct *Contract, fn *ssa.Function, sig *types.Signature, args []Val) map[string]SVal {
	pt := paramTypes(fn, sig, len(args))
	if len(ct.params) != len(args) || len(pt) != len(args) {
		panic(specErr{fmt.Sprintf("contract %s: %d parameter names for %d arguments", ct.name, len(ct.params), len(args))})
	}
	binds := map[string]SVal{}
	for i, n := range ct.params {
		t, ok := e.asTerm(args[i])
		if !ok {
			if ct.extern {
				continue
			}
			unsupported("argument %d of %s", i, ct.name)
		}
		binds[n] = SVal{t: t, ty: pt[i]}
	}
	return binds
}

func shortFn(name string) string {
	return name
}

// havocTargets applies the modifies clause to st.
func (e *Engine) havocTargets(ct *Contract, st, old *State, binds map[string]SVal, na *Term) {
	if ct.anyMod {
		e.havocAll(st)
	}
	for _, tg := range ct.modifies {
		c := e.ctxFor(ct, old, old, binds)
		e.eachTarget(c, tg, func(h, hs string, ref *Term, ty types.Type) {
			if ref == nil {
				if e.writes != nil {
					e.noteFull(h)
				}
				nh := Fresh(h, hs)
				heapTypes[h] = ty
				st.setHeap(h, nh)
				e.heapAxiom(nh, h, na)
				return
			}
			v := Fresh("mod."+lastDot(h), elemSortOf(hs))
			if !strings.HasPrefix(h, "E.") && !strings.HasPrefix(h, "M") && hasRefs(ty) {
				st.assume(wfValue(v, ty, na))
			}
			if strings.HasPrefix(h, "E.") || strings.HasPrefix(h, "MV.") {
				e.innerAxiom(v, ty, na)
			}
			st.write(h, hs, ref, v)
		})
	}
}

func (e *Engine) innerAxiom(v *Term, ty types.Type, na *Term) {
	if !hasRefs(ty) {
		return
	}
	i := BVar("i", indexSortOf(v.sort))
	sel := Select(v, i)
	symAxioms[v.name] = Forall([]*Term{i}, wfValue(sel, ty, na), []*Term{sel})
}

func lastDot(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (e *Engine) havocAll(st *State) {
	symSeq++
	ep := fmt.Sprintf("e%d", symSeq)
	e.epochAlloc[ep] = st.alloc
	for w := e.writes; w != nil; w = w.parent {
		w.all = true
	}
	for h := range st.heaps {
		if e.writes != nil {
			e.noteFull(h)
		}
	}
	for h := range heapSorts {
		if e.writes != nil {
			e.noteFull(h)
		}
	}
	locks := map[string]*Term{}
	for h, t := range st.heaps {
		if strings.HasPrefix(h, "LK") {
			locks[h] = t
		}
	}
	st.heaps = locks
	st.epoch = ep
}

// eachTarget enumerates heaps of a modifies target; ref == nil means the whole heap.
func (e *Engine) eachTarget(c *evalCtx, tg Target, f func(h, hs string, ref *Term, ty types.Type)) {
	structFields := func(ty types.Type, name string, ref *Term) {
		st, el := structOf(ty)
		if st == nil {
			c.fail("modifies target of non-struct %s", ty)
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if name != "" && st.Field(i).Name() != name {
				continue
			}
			found = true
			h, hs := fieldHeap(el, i)
			heapTypes[h] = st.Field(i).Type()
			f(h, hs, ref, st.Field(i).Type())
		}
		if !found {
			c.fail("no field %s in %s", name, ty)
		}
	}
	switch tg.kind {
	case "field", "star":
		if x := tg.e; x.op == "call" && x.args[0].op == "id" && x.args[0].s == "unbox" {
			// the fields of a boxed pointer, where the value is known to hold another type: no effect
			if t := tagIs(c.eval(x.args[1]).t, e.resolveType(x.args[2].ty, c.pkg)); t == False {
				return
			}
		}
		v := c.eval(tg.e)
		p, ok := types.Unalias(v.ty).Underlying().(*types.Pointer)
		if !ok {
			c.fail("modifies: %s is not a pointer", v.ty)
		}
		n := tg.s
		structFields(types.Unalias(p.Elem()), n, v.t)
	case "elems":
		v := c.eval(tg.e)
		sl, ok := types.Unalias(v.ty).Underlying().(*types.Slice)
		if !ok {
			c.fail("modifies elems of %s", v.ty)
		}
		h, hs := elemHeap(sl.Elem())
		heapTypes[h] = sl.Elem()
		f(h, hs, sArr(v.t), sl.Elem())
	case "map":
		v := c.eval(tg.e)
		mt, ok := types.Unalias(v.ty).Underlying().(*types.Map)
		if !ok {
			c.fail("modifies map of %s", v.ty)
		}
		dn, vn, ln := mapHeaps(mt)
		heapTypes[vn[0]] = mt.Elem()
		f(dn[0], dn[1], v.t, tBool)
		f(vn[0], vn[1], v.t, mt.Elem())
		f(ln[0], ln[1], v.t, tInt)
	case "all":
		ty := e.resolveType(tg.ty, c.pkg)
		structFields(ty, tg.s, nil)
	case "allelems":
		ty := e.resolveType(tg.ty, c.pkg)
		h, hs := elemHeap(ty)
		heapTypes[h] = ty
		f(h, hs, nil, ty)
	case "allmaps":
		ty := e.resolveType(tg.ty, c.pkg)
		mt := ty.Underlying().(*types.Map)
		dn, vn, ln := mapHeaps(mt)
		heapTypes[vn[0]] = mt.Elem()
		f(dn[0], dn[1], nil, tBool)
		f(vn[0], vn[1], nil, mt.Elem())
		f(ln[0], ln[1], nil, tInt)
	case "deref":
		v := c.eval(tg.e)
		p, ok := types.Unalias(v.ty).Underlying().(*types.Pointer)
		if !ok {
			c.fail("modifies deref of %s", v.ty)
		}
		h, hs := boxHeap(p.Elem())
		heapTypes[h] = p.Elem()
		f(h, hs, v.t, p.Elem())
	}
}

func resultsHaveRefs(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if hasRefs2(sig.Results().At(i).Type()) {
			return true
		}
		if _, ok := sig.Results().At(i).Type().Underlying().(*types.Interface); ok {
			return true
		}
	}
	return false
}

func (e *Engine) applyContract(s *State, ct *Contract, fn *ssa.Function, sig *types.Signature, args []Val, in ssa.Instruction, extern bool) []Outcome {
	binds := e.bindParams(ct, fn, sig, args)
	if extern {
		e.externUsed[ct.name+": assumed contract"] = true
	} else if ct.trusted {
		e.trustedUsed[ct.name] = true
	} else {
		e.usedContracts[ct.name] = true
	}
	if fn != nil && fn.Signature.Recv() != nil && !extern {
		if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			t, _ := e.asTerm(args[0])
			e.needNonNil(s, t, in, "receiver of "+ct.name)
		}
	}
	for _, r := range ct.requires {
		c := e.ctxFor(ct, s, s, binds)
		g := c.bool(r.e)
		l := r.label
		if l == "" {
			l = r.src
		}
		e.check(s, "pre", ct.name+": "+l, g, in)
	}
	if s.dead {
		return nil
	}
	if !extern {
		e.lockedCall(s, ct, fn, binds, args, in)
	}
	old := s.clone()
	na := s.alloc
	if len(ct.modifies) > 0 || ct.anyMod || resultsHaveRefs(sig) {
		e.noteAlloc()
		na = Fresh("alloc", "Int")
		s.assume(Le(s.alloc, na))
		s.alloc = na
	}
	e.havocTargets(ct, s, old, binds, na)
	if ct.ghosts {
		for _, g := range sortedKeys(ghostSorts) {
			if !ct.mayChange(g) {
				continue
			}
			s.ghostSet(g, Fresh("ghost."+g, ghostSorts[g]))
		}
	}
	var res []Val
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		rt := sig.Results().At(i).Type()
		var v *Term
		if ct.pure {
			var ts []*Term
			for _, a := range args {
				t, _ := e.asTerm(a)
				ts = append(ts, t)
			}
			v = App(pureRes(ct.name, i, n), sortOf(rt), ts...)
		} else {
			v = Fresh("r."+lastDot(ct.name), sortOf(rt))
		}
		s.assume(wfValue(v, rt, na))
		res = append(res, v)
		if i < len(ct.results) {
			binds[ct.results[i]] = SVal{t: v, ty: rt}
		}
		if n == 1 {
			binds["result"] = SVal{t: v, ty: rt}
		}
	}
	for _, ev := range ct.events {
		if ev.log {
			n := s.ghostGet("log_"+ev.name+".n", "Int")
			for i, ve := range ev.vals {
				v := e.ctxFor(ct, s, old, binds).eval(ve).t
				k := fmt.Sprintf("log_%s.%d", ev.name, i)
				s.ghostSet(k, Store(s.ghostGet(k, arrSort("Int", v.sort)), n, v))
			}
			s.ghostSet("log_"+ev.name+".n", Add(n, Int(1)))
			continue
		}
		if ev.idx != "" {
			i := BVar("i!"+ev.idx, "Int")
			b := map[string]SVal{}
			for k, v := range binds {
				b[k] = v
			}
			b[ev.idx] = SVal{t: i, ty: tInt}
			x := e.ctxFor(ct, old, old, b).eval(ev.e).t
			lim := e.ctxFor(ct, old, old, binds).eval(ev.lim).t
			g := s.ghostGet("ev."+ev.name, arrSort("Int", "Int"))
			h := Fresh("ghost.ev."+ev.name, arrSort("Int", "Int"))
			in := And(Le(Int(0), i), Lt(i, lim))
			once := Implies(in, Eq(Select(h, x), Add(Select(g, x), Int(1))))
			s.assume(Forall([]*Term{i}, once, []*Term{x}))
			y := BVar("y!"+ev.idx, "Int")
			s.assume(Forall([]*Term{y}, Or(Eq(Select(h, y), Select(g, y)), Exists([]*Term{i}, And(in, Eq(x, y)))), []*Term{Select(h, y)}))
			s.ghostSet("ev."+ev.name, h)
			continue
		}
		x := e.ctxFor(ct, old, old, binds).eval(ev.e).t
		g := s.ghostGet("ev."+ev.name, arrSort("Int", "Int"))
		s.ghostSet("ev."+ev.name, Store(g, x, Add(Select(g, x), Int(1))))
		for i, ve := range ev.vals {
			v := e.ctxFor(ct, s, old, binds).eval(ve).t
			k := fmt.Sprintf("ev.%s#%d", ev.name, i)
			s.ghostSet(k, Store(s.ghostGet(k, arrSort("Int", v.sort)), x, v))
		}
	}
	for _, en := range ct.ensures {
		c := e.ctxFor(ct, s, old, binds)
		s.assume(c.bool(en.e))
	}
	if s.dead {
		return nil
	}
	return []Outcome{{s, res}}
}
