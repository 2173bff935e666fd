package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Tuple []Val

type Closure struct {
	fn   *ssa.Function
	bind []Val
	id   int
}

type addrKind int

const (
	aObj    addrKind = iota // pointer to a heap struct: ref, ty
	aField                  // field of a heap struct
	aArr                    // pointer to heap array (whole)
	aElem                   // element of heap array/slice
	aBox                    // pointer to other heap cell
	aLocal                  // non-escaping local cell
	aGlobal                 // package-level variable
)

type pathEl struct {
	field int
	idx   *Term // nil for field
}

type Addr struct {
	kind  addrKind
	heap  string
	hsort string
	ref   *Term
	idx   *Term
	cell  int
	glob  *ssa.Global
	path  []pathEl
	root  types.Type // type of root location
	ty    types.Type // type of addressed location (after path)
}

// MapIter is the state of a range-over-map loop.
type MapIter struct {
	m     *Term
	mt    *types.Map
	cell  int // locals cell holding visited set
	dom0  *Term
	isStr bool
	str   *Term
}

type pcNode struct {
	up   *pcNode
	t    *Term
	n    int
	size int
	cand int // loop whose candidate invariant this is, 0 if none
}

type FrameState struct {
	env    map[ssa.Value]Val
	defers []deferRec
	parent *FrameState
	fn     *ssa.Function
	id     int
}

type deferRec struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type State struct {
	eng    *Engine
	pc     *pcNode
	heaps  map[string]*Term
	epoch  string
	alloc  *Term
	locals map[int]*Term
	frame  *FrameState
	ghost  map[string]*Term
	dead   bool
	fresh  *freshNode
}

type freshNode struct {
	up *freshNode
	id int
}

func (s *State) clone() *State {
	n := *s
	n.heaps = make(map[string]*Term, len(s.heaps))
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.locals = make(map[int]*Term, len(s.locals))
	for k, v := range s.locals {
		n.locals[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	if s.frame != nil {
		n.frame = s.frame.clone()
	}
	return &n
}

func (f *FrameState) clone() *FrameState {
	g := *f
	g.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferRec{}, f.defers...)
	return &g
}

// candTag marks assumptions made for candidate invariants, which may be withdrawn.
var candTag, candSeq int

func (s *State) assume(t *Term) {
	if t.op == "true" {
		return
	}
	if t.op == "false" {
		s.dead = true
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	// contradiction with a known literal?
	neg := Not(t)
	k := 0
	for n := s.pc; n != nil && k < 200; n = n.up {
		if n.t == t && (n.cand == 0 || n.cand == candTag) {
			return
		}
		if n.t == neg {
			s.dead = true
		}
		k++
	}
	d := 1
	if s.pc != nil {
		d = s.pc.n + 1
	}
	s.pc = &pcNode{up: s.pc, t: t, n: d, cand: candTag}
}

func (s *State) knows(t *Term) bool {
	if t.op == "true" {
		return true
	}
	if t.op == "and" {
		for _, a := range t.args {
			if !s.knows(a) {
				return false
			}
		}
		return true
	}
	for n := s.pc; n != nil; n = n.up {
		if n.t == t {
			return true
		}
	}
	return false
}

func (s *State) assumptions() []*Term {
	var out []*Term
	for n := s.pc; n != nil; n = n.up {
		out = append(out, n.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) heap(name, srt string) *Term {
	if s.eng.recHeaps != nil {
		s.eng.recHeaps[name] = srt
		if t, ok := s.eng.recSubst[name]; ok {
			return t
		}
		if s.eng.recAbstract {
			t := BVar("h."+name, srt)
			s.eng.recSubst[name] = t
			return t
		}
	}
	heapSorts[name] = srt
	if t, ok := s.heaps[name]; ok {
		return t
	}
	t := Sym(name+"@"+s.epoch, srt)
	s.heaps[name] = t
	if _, ok := symAxioms[t.name]; ok {
		return t
	}
	s.eng.heapAxiom(t, name, s.eng.epochAlloc[s.epoch])
	return t
}

var heapSorts = map[string]string{}

func (s *State) setHeap(name string, t *Term) {
	heapSorts[name] = t.sort
	s.heaps[name] = t
}

// heapAxiom registers well-formedness of a base heap symbol.
func (e *Engine) heapAxiom(h *Term, name string, A *Term) {
	if h.op != "const" || A == nil {
		return
	}
	ty, ok := heapTypes[name]
	if !ok || !hasRefs(ty) {
		return
	}
	heapMeta[h.name] = heapInfo{h, name, ty, A}
	r := BVar("r", "Int")
	switch name[0] {
	case 'E':
		i := BVar("i", "Int")
		sel := Select(Select(h, r), i)
		symAxioms[h.name] = Forall([]*Term{r, i}, Implies(And(Le(Int(0), r), Lt(r, A)), wfValue(sel, ty, A)), []*Term{sel})
	case 'M':
		ks := elemSortOf(h.sort) // (Array K V)
		_ = ks
		kvar := BVar("k", indexSortOf(elemSortOf(h.sort)))
		sel := Select(Select(h, r), kvar)
		symAxioms[h.name] = Forall([]*Term{r, kvar}, Implies(And(Le(Int(0), r), Lt(r, A)), wfValue(sel, ty, A)), []*Term{sel})
	default:
		sel := Select(h, r)
		symAxioms[h.name] = Forall([]*Term{r}, Implies(And(Le(Int(0), r), Lt(r, A)), wfValue(sel, ty, A)), []*Term{sel})
	}
}

// heapInfo remembers a base heap symbol.
type heapInfo struct {
	h    *Term
	name string
	ty   types.Type
	A    *Term
}

var heapMeta = map[string]heapInfo{}

func seqOf(n string) int {
	i := strings.LastIndexByte(n, '!')
	if i < 0 {
		return 0
	}
	k, _ := strconv.Atoi(n[i+1:])
	return k
}

func (m heapInfo) seq() int {
	if strings.Contains(m.h.name, "!") {
		return seqOf(m.h.name)
	}
	k := 0
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == "const" && seqOf(t.name) > k {
			k = seqOf(t.name)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(m.A)
	return k
}

// closureAxioms: what a base heap says about objects that callees allocated later.
// Objects below an allocation bound only refer to objects below that bound.
func closureAxioms(consts map[string]string) []*Term {
	var allocs []string
	for n := range consts {
		if strings.HasPrefix(n, "alloc!") {
			allocs = append(allocs, n)
		}
	}
	if len(allocs) == 0 {
		return nil
	}
	sort.Strings(allocs)
	var out []*Term
	for _, n := range sortedKeys(consts) {
		m, ok := heapMeta[n]
		if !ok {
			continue
		}
		q := m.seq()
		r := BVar("r", "Int")
		vs := []*Term{r}
		sel := Select(m.h, r)
		switch m.name[0] {
		case 'E':
			i := BVar("i", "Int")
			vs = append(vs, i)
			sel = Select(sel, i)
		case 'M':
			k := BVar("k", indexSortOf(elemSortOf(m.h.sort)))
			vs = append(vs, k)
			sel = Select(sel, k)
		}
		var cs []*Term
		for _, a := range allocs {
			if seqOf(a) > q {
				A := Sym(a, "Int")
				cs = append(cs, Implies(Lt(r, A), wfValue(sel, m.ty, A)))
			}
		}
		if len(cs) > 0 {
			out = append(out, Forall(vs, Implies(Le(Int(0), r), And(cs...)), []*Term{sel}))
		}
	}
	return out
}

func indexSortOf(arr string) string {
	e := elemSortOf(arr)
	return arr[len("(Array ") : len(arr)-len(e)-2]
}

var symAxioms = map[string]*Term{}

// ---- allocation -------------------------------------------------------------------------

func (s *State) newRef(hint string) *Term {
	r := s.alloc
	s.alloc = Add(s.alloc, Int(1))
	return r
}

// ---- addresses --------------------------------------------------------------------------

func (e *Engine) fieldAddr(a Addr, st types.Type, i int) Addr {
	s := st.Underlying().(*types.Struct)
	fty := s.Field(i).Type()
	if a.kind == aObj && len(a.path) == 0 {
		h, hs := fieldHeap(a.ty, i)
		heapTypes[h] = fty
		return Addr{kind: aField, heap: h, hsort: hs, ref: a.ref, root: fty, ty: fty}
	}
	b := a
	b.path = append(append([]pathEl{}, a.path...), pathEl{field: i})
	b.ty = fty
	return b
}

func (e *Engine) ptrAddr(v Val, ptrTy types.Type) (Addr, bool) {
	if a, ok := v.(Addr); ok {
		return a, true
	}
	t, ok := v.(*Term)
	if !ok {
		return Addr{}, false
	}
	el := types.Unalias(ptrTy.Underlying().(*types.Pointer).Elem())
	if st, _ := structOf(el); st != nil {
		return Addr{kind: aObj, ref: t, root: el, ty: el}, true
	}
	if arr, ok := el.Underlying().(*types.Array); ok {
		h, hs := elemHeap(arr.Elem())
		heapTypes[h] = arr.Elem()
		return Addr{kind: aArr, heap: h, hsort: hs, ref: t, root: el, ty: el}, true
	}
	h, hs := boxHeap(el)
	heapTypes[h] = el
	return Addr{kind: aBox, heap: h, hsort: hs, ref: t, root: el, ty: el}, true
}

func (s *State) rootLoad(a Addr) *Term {
	switch a.kind {
	case aObj:
		return s.loadStruct(a.ref, a.root)
	case aField, aBox, aArr:
		return Select(s.heap(a.heap, a.hsort), a.ref)
	case aElem:
		return Select(Select(s.heap(a.heap, a.hsort), a.ref), a.idx)
	case aLocal:
		return s.locals[a.cell]
	case aGlobal:
		return s.globalLoad(a.glob)
	}
	panic("rootLoad")
}

func (s *State) globalLoad(g *ssa.Global) *Term {
	name := "G." + shortPath(g.Pkg.Pkg.Path()) + "." + g.Name()
	ty := g.Type().Underlying().(*types.Pointer).Elem()
	if t, ok := s.ghost["G:"+name]; ok {
		return t
	}
	t := Sym(name, sortOf(ty))
	s.eng.noteGlobal(g, t, ty)
	return t
}

func (s *State) loadStruct(ref *Term, ty types.Type) *Term {
	st := ty.Underlying().(*types.Struct)
	var args []*Term
	for i := 0; i < st.NumFields(); i++ {
		h, hs := fieldHeap(ty, i)
		heapTypes[h] = st.Field(i).Type()
		args = append(args, Select(s.heap(h, hs), ref))
	}
	return Ctor(sortOf(ty), args...)
}

func (s *State) storeStruct(ref *Term, ty types.Type, v *Term) {
	st := ty.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		h, hs := fieldHeap(ty, i)
		heapTypes[h] = st.Field(i).Type()
		s.write(h, hs, ref, Sel(v, i))
	}
}

// write stores v at heap[ref], recording the write for scouting.
func (s *State) write(h, hs string, ref, v *Term) {
	if s.eng.writes != nil {
		s.eng.noteWrite(h, ref)
	}
	s.setHeap(h, Store(s.heap(h, hs), ref, v))
}

func pathLoad(v *Term, path []pathEl) *Term {
	for _, p := range path {
		if p.idx != nil {
			v = Select(v, p.idx)
		} else {
			v = Sel(v, p.field)
		}
	}
	return v
}

func pathStore(v *Term, path []pathEl, x *Term) *Term {
	if len(path) == 0 {
		return x
	}
	p := path[0]
	if p.idx != nil {
		return Store(v, p.idx, pathStore(Select(v, p.idx), path[1:], x))
	}
	return Upd(v, p.field, pathStore(Sel(v, p.field), path[1:], x))
}

func (s *State) load(a Addr) *Term {
	if a.kind == aObj && len(a.path) > 0 {
		panic("aObj path")
	}
	v := pathLoad(s.rootLoad(a), a.path)
	return v
}

func (s *State) store(a Addr, x *Term) {
	switch a.kind {
	case aObj:
		s.storeStruct(a.ref, a.root, x)
	case aField, aBox, aArr:
		if len(a.path) > 0 {
			x = pathStore(s.rootLoad(a), a.path, x)
		}
		s.write(a.heap, a.hsort, a.ref, x)
	case aElem:
		if len(a.path) > 0 {
			x = pathStore(s.rootLoad(a), a.path, x)
		}
		inner := Store(Select(s.heap(a.heap, a.hsort), a.ref), a.idx, x)
		s.write(a.heap, a.hsort, a.ref, inner)
	case aLocal:
		if len(a.path) > 0 {
			x = pathStore(s.rootLoad(a), a.path, x)
		}
		if s.eng.writes != nil {
			s.eng.noteLocal(a.cell)
		}
		s.locals[a.cell] = x
	case aGlobal:
		if len(a.path) > 0 {
			x = pathStore(s.rootLoad(a), a.path, x)
		}
		name := "G." + shortPath(a.glob.Pkg.Pkg.Path()) + "." + a.glob.Name()
		s.ghost["G:"+name] = x
	}
}

// asTerm converts a value to an SMT term (refs for pointers).
func (e *Engine) asTerm(v Val) (*Term, bool) {
	switch x := v.(type) {
	case *Term:
		return x, true
	case Addr:
		if len(x.path) == 0 && (x.kind == aObj || x.kind == aBox || x.kind == aArr) {
			return x.ref, true
		}
		return nil, false
	case *Closure:
		return e.closureTerm(x), true
	case *ssa.Function:
		return e.closureTerm(e.fnClosure(x)), true
	}
	return nil, false
}

var closureSyms = map[string]*Closure{}
var fnClosures = map[*ssa.Function]*Closure{}
var closureSeq = 0

func (e *Engine) fnClosure(f *ssa.Function) *Closure {
	if c, ok := fnClosures[f]; ok {
		return c
	}
	closureSeq++
	c := &Closure{fn: f, id: closureSeq}
	fnClosures[f] = c
	return c
}

func (e *Engine) closureTerm(c *Closure) *Term {
	if c.id == 0 {
		closureSeq++
		c.id = closureSeq
	}
	name := fmt.Sprintf("fn:%s#%d", c.fn.Name(), c.id)
	closureSyms[name] = c
	return Sym(name, "Fn")
}

// ---- merging ------------------------------------------------------------------------------

func commonPC(ss []*State) *pcNode {
	ns := make([]*pcNode, len(ss))
	for i, s := range ss {
		ns[i] = s.pc
	}
	for {
		same := true
		max := -1
		mi := -1
		for i, n := range ns {
			if n != ns[0] {
				same = false
			}
			d := 0
			if n != nil {
				d = n.n
			}
			if d > max {
				max, mi = d, i
			}
		}
		if same {
			return ns[0]
		}
		if ns[mi] == nil {
			return nil
		}
		ns[mi] = ns[mi].up
	}
}

func valEq(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Addr:
		y, ok := b.(Addr)
		if !ok || x.kind != y.kind || x.heap != y.heap || x.ref != y.ref || x.idx != y.idx || x.cell != y.cell || x.glob != y.glob || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return false
			}
		}
		return true
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case *MapIter:
		y, ok := b.(*MapIter)
		return ok && x == y
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return ok && x == y
	}
	return false
}

// mergeStates merges states (same frame position). extra: result values per state.
func (e *Engine) mergeStates(ss []*State, extra []Val, at *ssa.BasicBlock) (*State, Val, bool) {
	if len(ss) == 1 {
		var v Val
		if extra != nil {
			v = extra[0]
		}
		return ss[0], v, true
	}
	sels := make([]*Term, len(ss))
	for i := range ss {
		sels[i] = Fresh("sel", "Bool")
	}
	mergeT := func(ts []*Term) *Term {
		same := true
		for _, t := range ts {
			if t != ts[0] {
				same = false
			}
		}
		if same {
			return ts[0]
		}
		r := ts[len(ts)-1]
		for i := len(ts) - 2; i >= 0; i-- {
			r = Ite(sels[i], ts[i], r)
		}
		return r
	}
	var mergeV func(vs []Val) (Val, bool)
	mergeV = func(vs []Val) (Val, bool) {
		same := true
		for _, v := range vs {
			if !valEq(v, vs[0]) {
				same = false
			}
		}
		if same {
			return vs[0], true
		}
		if t0, ok := vs[0].(Tuple); ok {
			out := make(Tuple, len(t0))
			for i := range t0 {
				sub := make([]Val, len(vs))
				for j := range vs {
					tj, ok := vs[j].(Tuple)
					if !ok {
						return nil, false
					}
					sub[j] = tj[i]
				}
				m, ok := mergeV(sub)
				if !ok {
					return nil, false
				}
				out[i] = m
			}
			return out, true
		}
		// same-shape addresses differing in ref/idx only
		if a0, ok := vs[0].(Addr); ok && len(a0.path) == 0 && (a0.kind == aElem || a0.kind == aField || a0.kind == aObj) {
			allA := true
			for _, v := range vs {
				a, ok := v.(Addr)
				if !ok || a.kind != a0.kind || a.heap != a0.heap || len(a.path) != 0 {
					allA = false
				}
			}
			if allA {
				rs := make([]*Term, len(vs))
				is := make([]*Term, len(vs))
				for i, v := range vs {
					rs[i] = v.(Addr).ref
					is[i] = v.(Addr).idx
				}
				r := a0
				r.ref = mergeT(rs)
				if a0.kind == aElem {
					r.idx = mergeT(is)
				}
				return r, true
			}
		}
		ts := make([]*Term, len(vs))
		for i, v := range vs {
			t, ok := e.asTerm(v)
			if !ok {
				return nil, false
			}
			ts[i] = t
			if ts[i].sort != ts[0].sort {
				return nil, false
			}
		}
		return mergeT(ts), true
	}
	base := commonPC(ss)
	out := ss[0].clone()
	out.pc = base
	out.dead = false
	out.assume(Or(sels...))
	for i, s := range ss {
		for _, t := range pcSince(s.pc, base) {
			out.assume(Implies(sels[i], t))
		}
	}
	// frames
	for _, s := range ss {
		if s.frame.fn != ss[0].frame.fn || len(s.frame.defers) != len(ss[0].frame.defers) {
			return mergeFail(1)
		}
		for i := range s.frame.defers {
			a, b := s.frame.defers[i], ss[0].frame.defers[i]
			if a.call != b.call {
				return mergeFail(2)
			}
			if !valEq(a.fn, b.fn) {
				return mergeFail(3)
			}
			for j := range a.args {
				if !valEq(a.args[j], b.args[j]) {
					return mergeFail(4)
				}
			}
		}
		if s.frame.parent != ss[0].frame.parent {
			return mergeFail(5)
		}
	}
	env := map[ssa.Value]Val{}
	for k, v0 := range ss[0].frame.env {
		vs := make([]Val, len(ss))
		vs[0] = v0
		ok := true
		for i := 1; i < len(ss); i++ {
			v, has := ss[i].frame.env[k]
			if !has {
				ok = false
				break
			}
			vs[i] = v
		}
		if !ok {
			continue
		}
		m, ok := mergeV(vs)
		if !ok {
			if at != nil && at.Parent() == ss[0].frame.fn && !liveIn(at)[k] {
				continue
			}
			if os.Getenv("GVC_MERGE") != "" {
				fmt.Fprintf(os.Stderr, "value %s = %v: %T %v / %v\n", k.Name(), k, vs[0], vs[0], vs[1])
			}
			return mergeFail(6)
		}
		env[k] = m
	}
	out.frame.env = env
	// heaps (states with different epochs: heaps never touched so far become unknown)
	for _, s := range ss {
		if s.epoch != ss[0].epoch {
			symSeq++
			out.epoch = fmt.Sprintf("m%d", symSeq)
			break
		}
	}
	names := map[string]bool{}
	for _, s := range ss {
		for h := range s.heaps {
			names[h] = true
		}
	}
	var ns []string
	for h := range names {
		ns = append(ns, h)
	}
	sort.Strings(ns)
	for _, h := range ns {
		ts := make([]*Term, len(ss))
		for i, s := range ss {
			ts[i] = s.heap(h, heapSorts[h])
		}
		out.heaps[h] = mergeT(ts)
	}
	cells := map[int]bool{}
	for _, s := range ss {
		for c := range s.locals {
			cells[c] = true
		}
	}
	for c := range cells {
		ts := make([]*Term, 0, len(ss))
		for _, s := range ss {
			if t, ok := s.locals[c]; ok {
				ts = append(ts, t)
			}
		}
		if len(ts) == len(ss) {
			out.locals[c] = mergeT(ts)
		} else {
			delete(out.locals, c)
		}
	}
	gs := map[string]bool{}
	for _, s := range ss {
		for g := range s.ghost {
			gs[g] = true
		}
	}
	for g := range gs {
		ts := make([]*Term, 0, len(ss))
		for _, s := range ss {
			if t, ok := s.ghost[g]; ok {
				ts = append(ts, t)
			} else if srt, ok := ghostSorts[g]; ok {
				ts = append(ts, s.ghostGet(g, srt))
			}
		}
		if len(ts) != len(ss) {
			return mergeFail(7)
		}
		out.ghost[g] = mergeT(ts)
	}
	as := make([]*Term, len(ss))
	sameA := true
	for i, s := range ss {
		as[i] = s.alloc
		if as[i] != as[0] {
			sameA = false
		}
	}
	if !sameA {
		// a fresh upper bound of all allocation counters keeps terms small
		na := Fresh("alloc", "Int")
		for _, a := range as {
			out.assume(Le(a, na))
		}
		out.alloc = na
	}
	var v Val
	if extra != nil {
		var ok bool
		v, ok = mergeV(extra)
		if !ok {
			return mergeFail(8)
		}
	}
	return out, v, true
}

func mergeFail(n int) (*State, Val, bool) {
	if os.Getenv("GVC_MERGE") != "" {
		fmt.Fprintln(os.Stderr, "states not merged: case", n)
	}
	return nil, nil, false
}

func pcSince(p, base *pcNode) []*Term {
	var out []*Term
	for n := p; n != base; n = n.up {
		out = append(out, n.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}
