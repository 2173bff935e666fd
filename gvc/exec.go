package main

// Symbolic execution of SSA.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	st   *State
	vals []Val
}

type edgeState struct {
	st   *State
	to   *ssa.BasicBlock
	from *ssa.BasicBlock
}

type WriteSet struct {
	refs   map[string][]*Term
	seen   map[string]map[int]bool
	full   map[string]bool
	locals map[int]bool
	ghosts map[string]bool
	alloc  bool
	all    bool
	parent *WriteSet
}

func newWriteSet(p *WriteSet) *WriteSet {
	return &WriteSet{refs: map[string][]*Term{}, seen: map[string]map[int]bool{}, full: map[string]bool{}, locals: map[int]bool{}, ghosts: map[string]bool{}, parent: p}
}

func (e *Engine) noteWrite(h string, ref *Term) {
	for w := e.writes; w != nil; w = w.parent {
		if w.seen[h] == nil {
			w.seen[h] = map[int]bool{}
		}
		if !w.seen[h][ref.id] {
			w.seen[h][ref.id] = true
			w.refs[h] = append(w.refs[h], ref)
		}
	}
}
func (e *Engine) noteFull(h string) {
	for w := e.writes; w != nil; w = w.parent {
		w.full[h] = true
	}
}
func (e *Engine) noteLocal(c int) {
	for w := e.writes; w != nil; w = w.parent {
		w.locals[c] = true
	}
}
func (e *Engine) noteGhost(g string) {
	for w := e.writes; w != nil; w = w.parent {
		w.ghosts[g] = true
	}
}
func (e *Engine) noteAlloc() {
	for w := e.writes; w != nil; w = w.parent {
		w.alloc = true
	}
}

type execErr struct{ msg string }

func unsupported(f string, a ...interface{}) { panic(execErr{fmt.Sprintf(f, a...)}) }

// ---- values ---------------------------------------------------------------------------------

func constTerm(c *ssa.Const) *Term {
	t := types.Unalias(c.Type())
	if c.Value == nil {
		return zeroOf(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			return nil
		}
		return IntBig(n)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return RealF(f)
	case b.Info()&types.IsString != 0:
		return StrLit(constant.StringVal(c.Value))
	}
	return nil
}

func (e *Engine) val(s *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if t := constTerm(x); t != nil {
			return t
		}
		unsupported("constant %s", x)
	case *ssa.Function:
		return x
	case *ssa.Global:
		ty := x.Type().Underlying().(*types.Pointer).Elem()
		return Addr{kind: aGlobal, glob: x, root: ty, ty: ty}
	case *ssa.Builtin:
		return x
	}
	r, ok := s.frame.env[v]
	if !ok {
		unsupported("value %s of %s not available", v.Name(), s.frame.fn)
	}
	return r
}

func (e *Engine) term(s *State, v ssa.Value) *Term {
	x := e.val(s, v)
	t, ok := e.asTerm(x)
	if !ok {
		unsupported("value %s (%T %s) is not a term", v.Name(), x, v)
	}
	return t
}

func (e *Engine) pos(in ssa.Instruction) string {
	p := e.fset.Position(in.Pos())
	if !p.IsValid() {
		return ""
	}
	f := strings.TrimPrefix(p.Filename, e.repo+"/")
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// ---- nil / bounds ---------------------------------------------------------------------------

func nonNegLin(t *Term) bool { return false }

// knownNonNil: syntactically non-nil (allocated objects are alloc + c).
func (e *Engine) nonNil(s *State, ref *Term) bool {
	if ref.op == "int" {
		return ref.num.Sign() > 0
	}
	if ref.op == "ite" {
		return e.nonNil(s, ref.args[1]) && e.nonNil(s, ref.args[2])
	}
	if isAllocBased(ref) {
		return true
	}
	return s.knows(Not(Eq(ref, Int(0)))) || s.knows(Lt(Int(0), ref))
}

// isAllocBased: linear term allocsym + c with c >= 0.
func isAllocBased(t *Term) bool {
	l := linOf(t)
	if l.c.Sign() < 0 || len(l.ts) != 1 {
		return false
	}
	for id, c := range l.ts {
		if c.Cmp(big.NewRat(1, 1)) != 0 {
			return false
		}
		x := l.tm[id]
		return x.op == "const" && (strings.HasPrefix(x.name, "alloc!") || x.name == "A@0")
	}
	return false
}

func (e *Engine) needNonNil(s *State, ref *Term, in ssa.Instruction, what string) {
	if e.nonNil(s, ref) {
		return
	}
	e.check(s, "nil", what, Not(Eq(ref, Int(0))), in)
}

func (e *Engine) ptr(s *State, v ssa.Value, in ssa.Instruction, what string) Addr {
	x := e.val(s, v)
	a, ok := e.ptrAddr(x, v.Type())
	if !ok {
		unsupported("pointer value %s (%T)", v, x)
	}
	if a.kind == aObj || a.kind == aBox || a.kind == aArr {
		if _, isT := x.(*Term); isT {
			e.needNonNil(s, a.ref, in, what)
		}
	}
	return a
}

func descr(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return descr(x.X)
		}
	case *ssa.FieldAddr:
		st, _ := structOf(x.X.Type().Underlying().(*types.Pointer).Elem())
		if st != nil {
			return descr(x.X) + "." + st.Field(x.Field).Name()
		}
	case *ssa.Parameter:
		return "param"
	case *ssa.IndexAddr:
		return descr(x.X) + "[]"
	case *ssa.Call:
		if f := x.Common().StaticCallee(); f != nil {
			return f.Name() + "()"
		}
		return "call()"
	}
	return "v"
}

// ---- blocks ---------------------------------------------------------------------------------

const mergeLimit = 6
const loopMergeLimit = 1

type region struct {
	fn     *ssa.Function
	blocks map[*ssa.BasicBlock]bool // nil: whole function
	header *ssa.BasicBlock
	lp     *loop
}

// execRegion runs all states from start; returns edges leaving the region (or back to header) and returns.
func (e *Engine) execRegion(r region, start *ssa.BasicBlock, in []*State) (exits []edgeState, rets []Outcome) {
	fl := e.loopsOf(r.fn)
	pending := map[*ssa.BasicBlock][]*State{}
	pending[start] = in
	first := true
	route := func(es edgeState) {
		if es.st.dead {
			return
		}
		if es.to == r.header && r.header != nil {
			exits = append(exits, es)
			return
		}
		if r.blocks != nil && !r.blocks[es.to] {
			exits = append(exits, es)
			return
		}
		pending[es.to] = append(pending[es.to], es.st)
	}
	for i := fl.idx[start]; i < len(fl.rpo); i++ {
		b := fl.rpo[i]
		ss := pending[b]
		if len(ss) == 0 {
			continue
		}
		delete(pending, b)
		lim := mergeLimit
		if fl.loops[b] != nil {
			lim = loopMergeLimit
		}
		ss = e.reduce(ss, lim, b)
		if l := fl.loops[b]; l != nil && !(b == r.header && first) {
			ex, rt := e.execLoop(r.fn, l, ss)
			rets = append(rets, rt...)
			for _, x := range ex {
				route(x)
			}
			continue
		}
		first = false
		for _, st := range ss {
			es, rt := e.execBlock(r.fn, b, st)
			rets = append(rets, rt...)
			for _, x := range es {
				route(x)
			}
		}
	}
	return
}

// reduce merges states when there are too many.
func (e *Engine) reduce(ss []*State, limit int, at *ssa.BasicBlock) []*State {
	var live []*State
	for _, s := range ss {
		if !s.dead {
			live = append(live, s)
		}
	}
	if len(live) <= limit {
		return live
	}
	m, _, ok := e.mergeStates(live, nil, at)
	if !ok {
		return live
	}
	return []*State{m}
}

// edge transfers a state along from->to, assigning phis.
func (e *Engine) edge(s *State, from, to *ssa.BasicBlock) edgeState {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var ks []*ssa.Phi
	var vs []Val
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ks = append(ks, ph)
		vs = append(vs, e.val(s, ph.Edges[pi]))
	}
	for i, k := range ks {
		s.frame.env[k] = vs[i]
	}
	return edgeState{st: s, to: to, from: from}
}

// execBlock executes the non-phi instructions of b.
func (e *Engine) execBlock(fn *ssa.Function, b *ssa.BasicBlock, s *State) (edges []edgeState, rets []Outcome) {
	if !e.hard.IsZero() && time.Now().After(e.hard) {
		unsupported("the time for this run is used up")
	}
	type item struct {
		st *State
		pc int
	}
	work := []item{{s, 0}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		st := it.st
	instrs:
		for i := it.pc; i < len(b.Instrs); i++ {
			if st.dead {
				break
			}
			switch in := b.Instrs[i].(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If:
				c := e.term(st, in.Cond)
				for k, cond := range []*Term{c, Not(c)} {
					if cond.op == "false" {
						continue
					}
					n := st
					if k == 0 {
						n = st.clone()
					}
					n.assume(cond)
					if !n.dead {
						edges = append(edges, e.edge(n, b, b.Succs[k]))
					}
				}
				break instrs
			case *ssa.Jump:
				edges = append(edges, e.edge(st, b, b.Succs[0]))
				break instrs
			case *ssa.Return:
				var vs []Val
				for _, r := range in.Results {
					vs = append(vs, e.val(st, r))
				}
				rets = append(rets, Outcome{st, vs})
				break instrs
			case *ssa.Panic:
				e.check(st, "panic", "explicit", False, in)
				st.dead = true
				break instrs
			case *ssa.RunDefers:
				outs := e.runDefers(st)
				for j, o := range outs {
					if j > 0 {
						work = append(work, item{o, i + 1})
					}
				}
				if len(outs) == 0 {
					break instrs
				}
				st = outs[0]
			case *ssa.Defer:
				fv, args := e.callArgs(st, in.Common())
				st.frame.defers = append(st.frame.defers, deferRec{call: in.Common(), fn: fv, args: args})
			case *ssa.Call:
				outs := e.call(st, in.Common(), in)
				outs = e.reduceOutcomes(outs)
				for j, o := range outs {
					var v Val
					if len(o.vals) == 1 {
						v = o.vals[0]
					} else if len(o.vals) > 1 {
						v = Tuple(o.vals)
					}
					o.st.frame.env[in] = v
					if j > 0 {
						work = append(work, item{o.st, i + 1})
					}
				}
				if len(outs) == 0 {
					break instrs
				}
				st = outs[0].st
			case *ssa.Select:
				outs := e.execSelect(st, in)
				for j, o := range outs {
					if j > 0 {
						work = append(work, item{o, i + 1})
					}
				}
				if len(outs) == 0 {
					break instrs
				}
				st = outs[0]
			default:
				e.instr(st, in)
			}
		}
	}
	return
}

func (e *Engine) reduceOutcomes(outs []Outcome) []Outcome {
	var live []Outcome
	for _, o := range outs {
		if !o.st.dead {
			live = append(live, o)
		}
	}
	if len(live) <= 4 {
		return live
	}
	var ss []*State
	var vs []Val
	for _, o := range live {
		ss = append(ss, o.st)
		vs = append(vs, Tuple(o.vals))
	}
	m, v, ok := e.mergeStates(ss, vs, nil)
	if !ok {
		return live
	}
	return []Outcome{{m, []Val(v.(Tuple))}}
}

func (e *Engine) runDefers(s *State) []*State {
	out := []*State{s}
	n := len(s.frame.defers)
	for k := n - 1; k >= 0; k-- {
		var next []*State
		for _, st := range out {
			d := st.frame.defers[k]
			st.frame.defers = st.frame.defers[:k]
			for _, o := range e.invoke(st, d.call, d.fn, d.args, nil) {
				if !o.st.dead {
					next = append(next, o.st)
				}
			}
		}
		out = next
	}
	return out
}

func (e *Engine) execSelect(s *State, in *ssa.Select) []*State {
	var outs []*State
	mk := func(idx int) *State {
		n := s.clone()
		tup := Tuple{Int(int64(idx)), Fresh("selok", "Bool")}
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				et := st.Chan.Type().Underlying().(*types.Chan).Elem()
				if i == idx {
					tup = append(tup, e.recvValue(n, et))
				} else {
					tup = append(tup, zeroOf(et))
				}
			}
		}
		n.frame.env[in] = tup
		return n
	}
	for i, st := range in.States {
		n := mk(i)
		if st.Dir == types.SendOnly {
			e.recordSend(n, e.term(s, st.Chan), e.term(s, st.Send), st.Send.Type())
		} else {
			v := n.frame.env[in].(Tuple)[2+recvs(in, i)]
			e.recordRecv(n, e.term(s, st.Chan), v.(*Term), st.Chan.Type().Underlying().(*types.Chan).Elem())
		}
		outs = append(outs, n)
	}
	if !in.Blocking {
		outs = append(outs, mk(-1))
	}
	return outs
}

// recvs is the number of receive cases before case i.
func recvs(in *ssa.Select, i int) (n int) {
	for _, st := range in.States[:i] {
		if st.Dir == types.RecvOnly {
			n++
		}
	}
	return
}

func (e *Engine) recvValue(s *State, t types.Type) *Term {
	v := Fresh("recv", sortOf(t))
	s.assume(wfValue(v, t, s.alloc))
	return v
}

// ---- ghost traces ---------------------------------------------------------------------------

var ghostSorts = map[string]string{}

func (s *State) ghostGet(name, srt string) *Term {
	ghostSorts[name] = srt
	if t, ok := s.ghost[name]; ok {
		return t
	}
	if srt == "Int" {
		return Int(0)
	}
	return Sym("ghost."+name+"@0", srt)
}

func (s *State) ghostSet(name string, t *Term) {
	ghostSorts[name] = t.sort
	s.ghost[name] = t
	s.eng.noteGhost(name)
}

func (e *Engine) recordSend(s *State, ch, v *Term, vt types.Type) {
	for _, r := range e.chanRules(vt) {
		if r.count == "" {
			e.check(s, "chan", "sent value: "+r.src, e.chanExpr(r, s, v, vt), nil)
		}
	}
	n := s.ghostGet("send.n", "Int")
	a := s.ghostGet("send.ch", arrSort("Int", "Int"))
	k := "send.v." + sanitize(v.sort)
	b := s.ghostGet(k, arrSort("Int", v.sort))
	s.ghostSet("send.ch", Store(a, n, ch))
	s.ghostSet(k, Store(b, n, v))
	s.ghostSet("send.n", Add(n, Int(1)))
}

// recordGo counts the functions of the program a go statement starts, directly
// or through a function literal.
func (e *Engine) recordGo(s *State, fv Val, c *ssa.CallCommon) {
	fn := c.StaticCallee()
	if fn == nil {
		return
	}
	count := func(f *ssa.Function) {
		if f == nil || f.Pkg == nil || f.Parent() != nil {
			return
		}
		g := "ev.started_" + f.Name()
		a := s.ghostGet(g, arrSort("Int", "Int"))
		s.ghostSet(g, Store(a, Int(0), Add(Select(a, Int(0)), Int(1))))
	}
	count(fn)
	if fn.Parent() != nil {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(*ssa.Call); ok {
					count(k.Call.StaticCallee())
				}
			}
		}
	}
}

func recvGhost(t types.Type) string {
	return "recv_" + sanitize(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
}

// The rules of the specification about values of this type.
func (e *Engine) chanRules(t types.Type) (out []chanRule) {
	name := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	for _, r := range e.spec.chans {
		if r.typ == name {
			out = append(out, r)
		}
	}
	return
}

func (e *Engine) chanExpr(r chanRule, s *State, v *Term, t types.Type) *Term {
	c := &evalCtx{e: e, st: s, old: s, binds: map[string]SVal{r.v: {t: v, ty: t}}, pkg: r.pkg, pos: "chaninv " + r.typ}
	return c.bool(r.e)
}

func (e *Engine) recordRecv(s *State, ch, v *Term, t types.Type) {
	n := s.ghostGet("recv.n", "Int")
	a := s.ghostGet("recv.ch", arrSort("Int", "Int"))
	s.ghostSet("recv.ch", Store(a, n, ch))
	s.ghostSet("recv.n", Add(n, Int(1)))
	if !e.spec.opts["channels"] {
		return
	}
	c := s.ghostGet("ev.received", arrSort("Int", "Int"))
	s.ghostSet("ev.received", Store(c, ch, Add(Select(c, ch), Int(1))))
	g := recvGhost(t)
	k := s.ghostGet(g+".n", "Int")
	s.ghostSet(g+".v", Store(s.ghostGet(g+".v", arrSort("Int", v.sort)), k, v))
	s.ghostSet(g+".n", Add(k, Int(1)))
	for _, r := range e.chanRules(t) {
		x := e.chanExpr(r, s, v, t)
		if r.count == "" {
			s.assume(x)
			continue
		}
		c := s.ghostGet("ev."+r.count, arrSort("Int", "Int"))
		s.ghostSet("ev."+r.count, Store(c, Int(0), Add(Select(c, Int(0)), Ite(x, Int(1), Int(0)))))
	}
}

func (e *Engine) recordCall(s *State, f *Term, args []*Term, res []*Term) {
	n := s.ghostGet("call.n", "Int")
	a := s.ghostGet("call.fn", arrSort("Int", "Fn"))
	s.ghostSet("call.fn", Store(a, n, f))
	for i, x := range args {
		k := fmt.Sprintf("call.a%d.%s", i, sanitize(x.sort))
		s.ghostSet(k, Store(s.ghostGet(k, arrSort("Int", x.sort)), n, x))
	}
	for i, x := range res {
		k := fmt.Sprintf("call.r%d.%s", i, sanitize(x.sort))
		s.ghostSet(k, Store(s.ghostGet(k, arrSort("Int", x.sort)), n, x))
	}
	s.ghostSet("call.n", Add(n, Int(1)))
}

// ---- instructions ---------------------------------------------------------------------------

func (e *Engine) set(s *State, v ssa.Value, x Val) { s.frame.env[v] = x }

var cellSeq, frameSeq = 0, 0

type cellKey struct {
	frame int
	in    ssa.Instruction
}

var cellMemo = map[cellKey]int{}

// cellFor numbers the local cells of an instruction; the number is the same on every path of one activation.
func cellFor(s *State, in ssa.Instruction, n int) int {
	k := cellKey{s.frame.id, in}
	if c, ok := cellMemo[k]; ok {
		return c
	}
	c := cellSeq + 1
	cellSeq += n
	cellMemo[k] = c
	return c
}

func localOnly(a *ssa.Alloc) bool {
	if a.Heap {
		return false
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == a {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
		default:
			return false
		}
	}
	return true
}

func (e *Engine) newObject(s *State, t types.Type, zero bool) *Term {
	e.noteAlloc()
	r := s.newRef("obj")
	t = types.Unalias(t)
	if !zero {
		return r
	}
	if st, _ := structOf(t); st != nil {
		s.storeStruct(r, t, zeroOf(t))
		return r
	}
	if arr, ok := t.Underlying().(*types.Array); ok {
		h, hs := elemHeap(arr.Elem())
		heapTypes[h] = arr.Elem()
		s.write(h, hs, r, zeroOf(t))
		return r
	}
	h, hs := boxHeap(t)
	heapTypes[h] = t
	s.write(h, hs, r, zeroOf(t))
	return r
}

func (e *Engine) loaded(s *State, v *Term, t types.Type) *Term {
	if hasRefs(t) && v.op != "int" && v.op != "ctor" && !isAllocBased(v) {
		s.assume(wfValue(v, t, s.alloc))
	}
	return v
}

func (e *Engine) instr(s *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := types.Unalias(x.Type().Underlying().(*types.Pointer).Elem())
		if localOnly(x) {
			c := cellFor(s, x, 1)
			s.locals[c] = zeroOf(t)
			e.cellTypes[c] = t
			e.set(s, x, Addr{kind: aLocal, cell: c, root: t, ty: t})
			return
		}
		e.set(s, x, e.newObject(s, t, true))
	case *ssa.BinOp:
		e.set(s, x, e.binop(s, x))
	case *ssa.UnOp:
		e.unop(s, x)
	case *ssa.ChangeType:
		e.set(s, x, e.val(s, x.X))
	case *ssa.ChangeInterface:
		e.set(s, x, e.val(s, x.X))
	case *ssa.Convert:
		e.set(s, x, e.convert(s, e.term(s, x.X), x.X.Type(), x.Type(), x))
	case *ssa.MultiConvert:
		e.set(s, x, e.convert(s, e.term(s, x.X), x.X.Type(), x.Type(), x))
	case *ssa.Extract:
		t, ok := e.val(s, x.Tuple).(Tuple)
		if !ok {
			unsupported("extract of non-tuple %s", x)
		}
		e.set(s, x, t[x.Index])
	case *ssa.Field:
		v := e.term(s, x.X)
		e.set(s, x, e.loaded(s, Sel(v, x.Field), x.Type()))
	case *ssa.FieldAddr:
		a := e.ptr(s, x.X, x, descr(x.X))
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		fa := e.fieldAddr(a, types.Unalias(pt), x.Field)
		e.set(s, x, fa)
	case *ssa.Index:
		v := e.term(s, x.X)
		i := e.term(s, x.Index)
		switch t := x.X.Type().Underlying().(type) {
		case *types.Array:
			e.check(s, "bounds", "array index", And(Le(Int(0), i), Lt(i, Int(t.Len()))), x)
			e.set(s, x, Select(v, i))
		case *types.Basic:
			e.check(s, "bounds", "string index", And(Le(Int(0), i), Lt(i, strLen(v))), x)
			r := strByte(v, i)
			s.assume(And(Le(Int(0), r), Le(r, Int(255))))
			e.set(s, x, r)
		default:
			unsupported("index %s", x)
		}
	case *ssa.IndexAddr:
		i := e.term(s, x.Index)
		switch t := x.X.Type().Underlying().(type) {
		case *types.Slice:
			v := e.term(s, x.X)
			e.check(s, "bounds", descr(x.X)+"[]", And(Le(Int(0), i), Lt(i, sLen(v))), x)
			h, hs := elemHeap(t.Elem())
			heapTypes[h] = t.Elem()
			e.set(s, x, Addr{kind: aElem, heap: h, hsort: hs, ref: sArr(v), idx: sidx(sOff(v), i), root: t.Elem(), ty: t.Elem()})
		case *types.Pointer:
			arr := t.Elem().Underlying().(*types.Array)
			a := e.ptr(s, x.X, x, descr(x.X))
			e.check(s, "bounds", "array index", And(Le(Int(0), i), Lt(i, Int(arr.Len()))), x)
			if a.kind == aArr && len(a.path) == 0 {
				e.set(s, x, Addr{kind: aElem, heap: a.heap, hsort: a.hsort, ref: a.ref, idx: i, root: arr.Elem(), ty: arr.Elem()})
				return
			}
			b := a
			b.path = append(append([]pathEl{}, a.path...), pathEl{idx: i})
			b.ty = arr.Elem()
			e.set(s, x, b)
		default:
			unsupported("indexaddr %s", x)
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			v := e.term(s, x.X)
			i := e.term(s, x.Index)
			e.check(s, "bounds", "string index", And(Le(Int(0), i), Lt(i, strLen(v))), x)
			r := strByte(v, i)
			s.assume(And(Le(Int(0), r), Le(r, Int(255))))
			e.set(s, x, r)
			return
		}
		mt := x.X.Type().Underlying().(*types.Map)
		m := e.term(s, x.X)
		k := e.term(s, x.Index)
		v, dom := e.mapGet(s, m, mt, k)
		if x.CommaOk {
			e.set(s, x, Tuple{v, dom})
		} else {
			e.set(s, x, v)
		}
	case *ssa.MakeChan:
		e.noteAlloc()
		e.set(s, x, s.newRef("chan"))
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range x.Bindings {
			b = append(b, e.val(s, v))
		}
		e.set(s, x, &Closure{fn: x.Fn.(*ssa.Function), bind: b})
	case *ssa.MakeInterface:
		e.set(s, x, e.box(s, e.val(s, x.X), x.X.Type()))
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		e.set(s, x, e.newMap(s, mt))
	case *ssa.MakeSlice:
		t := x.Type().Underlying().(*types.Slice)
		n := e.term(s, x.Len)
		c := e.term(s, x.Cap)
		e.check(s, "makeslice", "length", And(Le(Int(0), n), Le(n, c)), x)
		e.noteAlloc()
		r := s.newRef("arr")
		h, hs := elemHeap(t.Elem())
		heapTypes[h] = t.Elem()
		s.write(h, hs, r, ConstArr(elemSortOf(hs), zeroOf(t.Elem())))
		e.set(s, x, mkSlice(r, Int(0), n, c))
	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		m := e.term(s, x.Map)
		e.check(s, "nilmap", descr(x.Map), Not(Eq(m, Int(0))), x)
		e.mapPut(s, m, mt, e.term(s, x.Key), e.term(s, x.Value))
	case *ssa.Next:
		e.next(s, x)
	case *ssa.Range:
		e.rangeOver(s, x)
	case *ssa.Send:
		e.recordSend(s, e.term(s, x.Chan), e.term(s, x.X), x.X.Type())
	case *ssa.Slice:
		e.slice(s, x)
	case *ssa.Store:
		a := e.ptr(s, x.Addr, x, descr(x.Addr))
		e.lockCheck(s, a, true, x)
		v := e.val(s, x.Val)
		t, ok := e.asTerm(v)
		if !ok {
			unsupported("store of %T in %s", v, s.frame.fn)
		}
		s.store(a, t)
	case *ssa.TypeAssert:
		e.typeAssert(s, x)
	case *ssa.Go:
		fv, args := e.callArgs(s, x.Common())
		var ts []*Term
		for _, a := range args {
			if t, ok := e.asTerm(a); ok {
				ts = append(ts, t)
			}
		}
		n := s.ghostGet("go.n", "Int")
		s.ghostSet("go.n", Add(n, Int(1)))
		_ = ts
		if e.spec.opts["channels"] {
			e.recordGo(s, fv, x.Common())
		}
	default:
		unsupported("instruction %T %s", in, in)
	}
}

func strLen(v *Term) *Term {
	if v.op == "strlit" {
		return Int(int64(len(v.name)))
	}
	return App("strlen", "Int", v)
}

func (e *Engine) unop(s *State, x *ssa.UnOp) {
	switch x.Op {
	case token.MUL:
		a := e.ptr(s, x.X, x, descr(x.X))
		e.lockCheck(s, a, false, x)
		if a.kind == aGlobal && a.glob.Name() == "init$guard" {
			// initialisers run once
			e.set(s, x, False)
			return
		}
		if a.kind == aGlobal && len(a.path) == 0 {
			if gi := e.globals[a.glob]; gi != nil && gi.stored {
				unsupported("global %s is assigned outside its initialiser", a.glob.Name())
			}
		}
		e.set(s, x, e.loaded(s, s.load(a), x.Type()))
	case token.NOT:
		e.set(s, x, Not(e.term(s, x.X)))
	case token.SUB:
		e.set(s, x, Neg(e.term(s, x.X)))
	case token.XOR:
		e.set(s, x, App("bnot", "Int", e.term(s, x.X)))
	case token.ARROW:
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		v := e.recvValue(s, et)
		e.recordRecv(s, e.term(s, x.X), v, et)
		if x.CommaOk {
			e.set(s, x, Tuple{v, Fresh("recvok", "Bool")})
		} else {
			e.set(s, x, v)
		}
	default:
		unsupported("unop %s", x)
	}
}

// ---- arithmetic -----------------------------------------------------------------------------

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func idiv(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.num.Sign() > 0 && a.num.Sign() >= 0 {
		return IntBig(new(big.Int).Div(a.num.Num(), b.num.Num()))
	}
	return mk("div", "", "Int", a, b)
}
func imod(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.num.Sign() > 0 {
		return IntBig(new(big.Int).Mod(a.num.Num(), b.num.Num()))
	}
	return mk("mod", "", "Int", a, b)
}

func quo(a, b *Term) *Term {
	if b.op == "int" && b.num.Sign() > 0 {
		if a.op == "int" {
			return IntBig(new(big.Int).Quo(a.num.Num(), b.num.Num()))
		}
		return Ite(Le(Int(0), a), idiv(a, b), Neg(idiv(Neg(a), b)))
	}
	pos := Ite(Le(Int(0), a), idiv(a, b), Neg(idiv(Neg(a), b)))
	neg := Ite(Le(Int(0), a), Neg(idiv(a, Neg(b))), idiv(Neg(a), Neg(b)))
	return Ite(Le(Int(0), b), pos, neg)
}

// wrap reduces a mathematical integer into the range of basic type b.
func wrap(t *Term, b *types.Basic) *Term {
	bits := uint(0)
	signed := false
	switch b.Kind() {
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32:
		bits, signed = 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		m := IntBig(pow2(64))
		if t.op == "int" {
			return imod(t, m)
		}
		return Ite(Le(Int(0), t), t, Add(t, m))
	default:
		return t
	}
	m := IntBig(pow2(bits))
	if !signed {
		if t.op == "int" {
			return imod(t, m)
		}
		return Ite(And(Le(Int(0), t), Lt(t, m)), t, imod(t, m))
	}
	h := IntBig(pow2(bits - 1))
	if t.op == "int" {
		return Sub(imod(Add(t, h), m), h)
	}
	return Ite(And(Le(Neg(h), t), Lt(t, h)), t, Sub(imod(Add(t, h), m), h))
}

func fop(name string, a, b *Term, realMode bool) *Term {
	if isLit(a) && isLit(b) {
		x, _ := a.num.Float64()
		y, _ := b.num.Float64()
		var r float64
		switch name {
		case "fadd":
			r = x + y
		case "fsub":
			r = x - y
		case "fmul":
			r = x * y
		case "fdiv":
			if y == 0 {
				return App(name, "Real", a, b)
			}
			r = x / y
		}
		if !realMode {
			return RealF(r)
		}
	}
	if realMode {
		switch name {
		case "fadd":
			return Add(a, b)
		case "fsub":
			return Sub(a, b)
		case "fmul":
			return Mul(a, b)
		case "fdiv":
			if isLit(b) && b.num.Sign() != 0 {
				return Mul(RealRat(new(big.Rat).Inv(b.num)), a)
			}
			return mk("/", "", "Real", a, b)
		}
	}
	zero := RealF(0)
	one := RealF(1)
	switch name {
	case "fadd":
		if a == zero {
			return b
		}
		if b == zero {
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
	case "fsub":
		if b == zero {
			return a
		}
		if a == b {
			return zero
		}
		if a == zero {
			return Neg(b)
		}
	case "fmul":
		if a == zero || b == zero {
			return zero
		}
		if a == one {
			return b
		}
		if b == one {
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
	case "fdiv":
		if b == one {
			return a
		}
	}
	return App(name, "Real", a, b)
}

func (e *Engine) binop(s *State, x *ssa.BinOp) *Term {
	a, b := e.term(s, x.X), e.term(s, x.Y)
	t := types.Unalias(x.X.Type())
	bt, _ := t.Underlying().(*types.Basic)
	switch x.Op {
	case token.EQL:
		return e.eq(s, a, b)
	case token.NEQ:
		return Not(e.eq(s, a, b))
	}
	if bt == nil {
		unsupported("binop %s on %s", x.Op, t)
	}
	return e.arith(s, x.Op, a, b, bt, x)
}

func (e *Engine) eq(s *State, a, b *Term) *Term {
	if a.sort == sliceDT {
		// comparison with nil
		if b.op == "ctor" && sArr(b).op == "int" {
			return Eq(sArr(a), Int(0))
		}
		if a.op == "ctor" && sArr(a).op == "int" {
			return Eq(sArr(b), Int(0))
		}
	}
	if a.sort == "Fn" {
		if _, ok := closureSyms[a.name]; ok && b == nilFn() {
			return False
		}
		if _, ok := closureSyms[b.name]; ok && a == nilFn() {
			return False
		}
	}
	if a.sort == "Iface" {
		if a.op == "app" && strings.HasPrefix(a.name, "box.") && b == nilIface() {
			return False
		}
		if b.op == "app" && strings.HasPrefix(b.name, "box.") && a == nilIface() {
			return False
		}
	}
	return Eq(a, b)
}

func (e *Engine) arith(s *State, op token.Token, a, b *Term, bt *types.Basic, in ssa.Instruction) *Term {
	isInt := bt.Info()&types.IsInteger != 0
	isFl := bt.Info()&types.IsFloat != 0
	isStr := bt.Info()&types.IsString != 0
	rm := e.floatReal
	switch op {
	case token.ADD:
		if isInt {
			return wrap(Add(a, b), bt)
		}
		if isFl {
			return fop("fadd", a, b, rm)
		}
		if isStr {
			return strcat(a, b)
		}
	case token.SUB:
		if isInt {
			return wrap(Sub(a, b), bt)
		}
		if isFl {
			return fop("fsub", a, b, rm)
		}
	case token.MUL:
		if isInt {
			return wrap(Mul(a, b), bt)
		}
		if isFl {
			return fop("fmul", a, b, rm)
		}
	case token.QUO:
		if isInt {
			if s != nil {
				e.check(s, "div0", "division", Not(Eq(b, Int(0))), in)
			}
			return wrap(quo(a, b), bt)
		}
		if isFl {
			return fop("fdiv", a, b, rm)
		}
	case token.REM:
		if isInt {
			if s != nil {
				e.check(s, "div0", "remainder", Not(Eq(b, Int(0))), in)
			}
			if b.op == "int" && bt.Info()&types.IsUnsigned != 0 {
				return imod(a, b)
			}
			return Sub(a, Mul(b, quo(a, b)))
		}
	case token.AND:
		if isInt {
			if a.op == "int" {
				a, b = b, a
			}
			if b.op == "int" {
				n := b.num.Num()
				if n.Sign() == 0 {
					return Int(0)
				}
				if n.Sign() > 0 && new(big.Int).And(n, new(big.Int).Sub(n, big.NewInt(1))).Sign() == 0 {
					// single bit
					if a.op == "int" {
						return IntBig(new(big.Int).And(a.num.Num(), n))
					}
					return Mul(b, imod(mk("div", "", "Int", a, b), Int(2)))
				}
				m := new(big.Int).Add(n, big.NewInt(1))
				if n.Sign() > 0 && new(big.Int).And(n, m).Sign() == 0 {
					return imod(a, IntBig(m))
				}
			}
			return App("band", "Int", a, b)
		}
	case token.OR:
		if a.op == "int" && b.op == "int" {
			return IntBig(new(big.Int).Or(a.num.Num(), b.num.Num()))
		}
		return App("bor", "Int", a, b)
	case token.XOR:
		return App("bxor", "Int", a, b)
	case token.AND_NOT:
		return App("bandnot", "Int", a, b)
	case token.SHL:
		if b.op == "int" {
			return wrap(Mul(a, IntBig(pow2(uint(b.num.Num().Int64())))), bt)
		}
		return App("bshl", "Int", a, b)
	case token.SHR:
		if b.op == "int" {
			return mk("div", "", "Int", a, IntBig(pow2(uint(b.num.Num().Int64()))))
		}
		return App("bshr", "Int", a, b)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr {
			lt := func(x, y *Term) *Term { return App("strlt", "Bool", x, y) }
			switch op {
			case token.LSS:
				return lt(a, b)
			case token.GTR:
				return lt(b, a)
			case token.LEQ:
				return Not(lt(b, a))
			default:
				return Not(lt(a, b))
			}
		}
		switch op {
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		default:
			return Le(b, a)
		}
	}
	unsupported("arith %s on %s", op, bt)
	return nil
}

func strcat(a, b *Term) *Term {
	if a.op == "strlit" && b.op == "strlit" {
		return StrLit(a.name + b.name)
	}
	if a.op == "strlit" && a.name == "" {
		return b
	}
	if b.op == "strlit" && b.name == "" {
		return a
	}
	return App("strcat", "Str", a, b)
}

func toReal(t *Term) *Term {
	if t.op == "int" {
		f, _ := new(big.Float).SetInt(t.num.Num()).Float64()
		return RealF(f)
	}
	return mk("to_real", "", "Real", t)
}

func truncInt(t *Term) *Term {
	if t.op == "to_real" {
		return t.args[0]
	}
	if t.op == "real" {
		q := new(big.Int).Quo(t.num.Num(), t.num.Denom())
		return IntBig(q)
	}
	return Ite(Le(RealF(0), t), mk("to_int", "", "Int", t), Neg(mk("to_int", "", "Int", Neg(t))))
}

func (e *Engine) convert(s *State, v *Term, from, to types.Type, in ssa.Instruction) *Term {
	fb, _ := types.Unalias(from).Underlying().(*types.Basic)
	tb, _ := types.Unalias(to).Underlying().(*types.Basic)
	if fb != nil && tb != nil {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			if tb.Kind() == types.Int || tb.Kind() == types.Int64 {
				if fb.Kind() == types.Uint64 || fb.Kind() == types.Uint || fb.Kind() == types.Uintptr {
					h := IntBig(pow2(63))
					return Ite(Lt(v, h), v, Sub(v, IntBig(pow2(64))))
				}
				return v
			}
			return wrap(v, tb)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return toReal(v)
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return wrap(truncInt(v), tb)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if tb.Kind() == types.Float32 {
				return App("f32round", "Real", v)
			}
			return v
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return App("runestr", "Str", v)
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		// string -> []byte / []rune: fresh slice
		if sl, ok := to.Underlying().(*types.Slice); ok {
			e.noteAlloc()
			r := s.newRef("bytes")
			h, hs := elemHeap(sl.Elem())
			heapTypes[h] = sl.Elem()
			s.write(h, hs, r, App("strbytes."+typeName(sl.Elem()), elemSortOf(hs), v))
			n := strLen(v)
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				n = App("runecount", "Int", v)
			}
			s.assume(Le(Int(0), n))
			return mkSlice(r, Int(0), n, n)
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if sl, ok := from.Underlying().(*types.Slice); ok {
			h, hs := elemHeap(sl.Elem())
			heapTypes[h] = sl.Elem()
			inner := Select(s.heap(h, hs), sArr(v))
			r := App("bytesstr."+typeName(sl.Elem()), "Str", inner, sOff(v), sLen(v))
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				s.assume(Eq(strLen(r), sLen(v)))
				i := BVar("i", "Int")
				s.assume(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, sLen(v))), Eq(App("strat", "Int", r, i), Select(inner, sidx(sOff(v), i)))), []*Term{App("strat", "Int", r, i)}))
			}
			return r
		}
	}
	if sortOf(from) == sortOf(to) {
		return v
	}
	unsupported("convert %s -> %s", from, to)
	return nil
}

// strByte is a byte of a string; those of a literal are known.
func strByte(v, i *Term) *Term {
	if v.op != "strlit" || len(v.name) == 0 || len(v.name) > 256 {
		return App("strat", "Int", v, i)
	}
	r := Int(int64(v.name[len(v.name)-1]))
	for k := len(v.name) - 2; k >= 0; k-- {
		r = Ite(Eq(i, Int(int64(k))), Int(int64(v.name[k])), r)
	}
	return r
}

// ---- interfaces -----------------------------------------------------------------------------

var typeTags = map[string]int{}
var typeTagOf = map[string]types.Type{}

func typeTag(t types.Type) *Term {
	n := typeName(types.Unalias(t))
	if _, ok := typeTags[n]; !ok {
		typeTags[n] = len(typeTags) + 1
		typeTagOf[n] = t
	}
	return Int(int64(typeTags[n]))
}

var boxSorts = map[string]string{} // box fn name -> payload sort

func boxName(t types.Type) string { return "box." + typeName(types.Unalias(t)) }

func (e *Engine) box(s *State, v Val, t types.Type) *Term {
	x, ok := e.asTerm(v)
	if !ok {
		unsupported("boxing %T", v)
	}
	typeTag(t)
	n := boxName(t)
	boxSorts[n] = x.sort
	return App(n, "Iface", x)
}

func unboxT(v *Term, t types.Type) *Term {
	n := boxName(t)
	srt := sortOf(t)
	boxSorts[n] = srt
	typeTag(t)
	DeclFun(n, []string{srt}, "Iface")
	if v.op == "app" && v.name == n {
		return v.args[0]
	}
	return App("un"+n, srt, v)
}

func tagIs(v *Term, t types.Type) *Term {
	if v.op == "app" && strings.HasPrefix(v.name, "box.") {
		return Bool(v.name == boxName(t))
	}
	if v == nilIface() {
		return False
	}
	unboxT(v, t)
	return Eq(App("tagof", "Int", v), typeTag(t))
}

func (e *Engine) typeAssert(s *State, x *ssa.TypeAssert) {
	v := e.term(s, x.X)
	if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		okT := And(Not(Eq(v, nilIface())), App("implements."+typeName(x.AssertedType), "Bool", v))
		if x.CommaOk {
			e.set(s, x, Tuple{Ite(okT, v, nilIface()), okT})
			return
		}
		e.check(s, "typeassert", "to "+typeName(x.AssertedType), okT, x)
		e.set(s, x, v)
		return
	}
	okT := tagIs(v, x.AssertedType)
	p := unboxT(v, x.AssertedType)
	if x.CommaOk {
		r := Ite(okT, p, zeroOf(x.AssertedType))
		if hasRefs(x.AssertedType) {
			s.assume(wfValue(r, x.AssertedType, s.alloc))
		}
		e.set(s, x, Tuple{r, okT})
		return
	}
	e.check(s, "typeassert", "to "+typeName(x.AssertedType), okT, x)
	e.set(s, x, e.loaded(s, p, x.AssertedType))
}

// ---- maps -----------------------------------------------------------------------------------

func (e *Engine) mapHeap(s *State, mt *types.Map) (d, v, l *Term, dn, vn, ln [2]string) {
	dn, vn, ln = mapHeaps(mt)
	heapTypes[vn[0]] = mt.Elem()
	return s.heap(dn[0], dn[1]), s.heap(vn[0], vn[1]), s.heap(ln[0], ln[1]), dn, vn, ln
}

func (e *Engine) mapGet(s *State, m *Term, mt *types.Map, k *Term) (*Term, *Term) {
	d, v, _, _, _, _ := e.mapHeap(s, mt)
	dom := And(Not(Eq(m, Int(0))), Select(Select(d, m), k))
	val := Ite(dom, Select(Select(v, m), k), zeroOf(mt.Elem()))
	if hasRefs(mt.Elem()) {
		s.assume(wfValue(val, mt.Elem(), s.alloc))
	}
	return val, dom
}

func (e *Engine) mapLen(s *State, m *Term, mt *types.Map) *Term {
	_, _, l, _, _, _ := e.mapHeap(s, mt)
	n := Ite(Eq(m, Int(0)), Int(0), Select(l, m))
	s.assume(Le(Int(0), n))
	// an empty map has no keys; a key makes the length positive
	d, _, _, dn, _, _ := e.mapHeap(s, mt)
	k := BVar("k", indexSortOf(elemSortOf(dn[1])))
	sel := Select(Select(d, m), k)
	if !s.dead {
		s.assume(Forall([]*Term{k}, Implies(And(Not(Eq(m, Int(0))), sel), Lt(Int(0), n)), []*Term{sel}))
	}
	return n
}

func (e *Engine) mapPut(s *State, m *Term, mt *types.Map, k, x *Term) {
	d, v, l, dn, vn, ln := e.mapHeap(s, mt)
	had := Select(Select(d, m), k)
	s.write(ln[0], ln[1], m, Ite(had, Select(l, m), Add(Select(l, m), Int(1))))
	s.write(dn[0], dn[1], m, Store(Select(d, m), k, True))
	s.write(vn[0], vn[1], m, Store(Select(v, m), k, x))
}

func (e *Engine) mapDelete(s *State, m *Term, mt *types.Map, k *Term) {
	// no-op on nil maps: writes to ref 0 are unobservable because lookups guard m != 0
	d, _, l, dn, _, ln := e.mapHeap(s, mt)
	had := Select(Select(d, m), k)
	s.write(ln[0], ln[1], m, Ite(had, Sub(Select(l, m), Int(1)), Select(l, m)))
	s.write(dn[0], dn[1], m, Store(Select(d, m), k, False))
}

func (e *Engine) newMap(s *State, mt *types.Map) *Term {
	e.noteAlloc()
	_, _, _, dn, vn, ln := e.mapHeap(s, mt)
	r := s.newRef("map")
	s.write(dn[0], dn[1], r, ConstArr(elemSortOf(dn[1]), False))
	s.write(vn[0], vn[1], r, ConstArr(elemSortOf(vn[1]), zeroOf(mt.Elem())))
	s.write(ln[0], ln[1], r, Int(0))
	return r
}

func (e *Engine) rangeOver(s *State, x *ssa.Range) {
	switch t := x.X.Type().Underlying().(type) {
	case *types.Map:
		m := e.term(s, x.X)
		d, _, _, dn, _, _ := e.mapHeap(s, t)
		vis := cellFor(s, x, 2)
		s.locals[vis] = ConstArr(elemSortOf(dn[1]), False)
		s.locals[vis+1] = Int(0)
		e.set(s, x, &MapIter{m: m, mt: t, cell: vis, dom0: Select(d, m)})
	default:
		unsupported("range over %s", x.X.Type())
	}
}

func (e *Engine) next(s *State, x *ssa.Next) {
	it, ok := e.val(s, x.Iter).(*MapIter)
	if !ok || x.IsString {
		unsupported("next over %T", e.val(s, x.Iter))
	}
	d, v, l, dn, _, _ := e.mapHeap(s, it.mt)
	ks := indexSortOf(elemSortOf(dn[1]))
	visited := s.locals[it.cell]
	cnt := s.locals[it.cell+1]
	okT := Fresh("next", "Bool")
	k := Fresh("key", ks)
	dom := And(Not(Eq(it.m, Int(0))), Select(Select(d, it.m), k))
	s.assume(Implies(okT, And(dom, Not(Select(visited, k)))))
	s.assume(Implies(okT, Lt(cnt, Select(l, it.m))))
	kk := BVar("k", ks)
	sel := Select(Select(d, it.m), kk)
	vsel := Select(visited, kk)
	pats := [][]*Term{{sel}}
	if vsel.op == "select" {
		pats = append(pats, []*Term{vsel})
	}
	s.assume(Implies(Not(okT), Or(Eq(it.m, Int(0)), And(Forall([]*Term{kk}, Implies(sel, vsel), pats...), Implies(Eq(Select(d, it.m), it.dom0), Eq(cnt, Select(l, it.m)))))))
	s.assume(Implies(Eq(it.m, Int(0)), Not(okT)))
	val := Select(Select(v, it.m), k)
	if hasRefs(it.mt.Elem()) {
		s.assume(Implies(okT, wfValue(val, it.mt.Elem(), s.alloc)))
	}
	s.locals[it.cell] = Ite(okT, Store(visited, k, True), visited)
	s.locals[it.cell+1] = Ite(okT, Add(cnt, Int(1)), cnt)
	e.noteLocal(it.cell)
	e.noteLocal(it.cell + 1)
	e.set(s, x, Tuple{okT, k, val})
}

// ---- slices ---------------------------------------------------------------------------------

func (e *Engine) slice(s *State, x *ssa.Slice) {
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return e.term(s, v)
	}
	switch t := x.X.Type().Underlying().(type) {
	case *types.Slice:
		v := e.term(s, x.X)
		lo := opt(x.Low, Int(0))
		hi := opt(x.High, sLen(v))
		max := opt(x.Max, sCap(v))
		e.check(s, "bounds", descr(x.X)+"[:]", And(Le(Int(0), lo), Le(lo, hi), Le(hi, max), Le(max, sCap(v))), x)
		off := sOff(v)
		if !(lo.op == "int" && lo.num.Sign() == 0) {
			off = sidx(off, lo)
		}
		e.set(s, x, mkSlice(sArr(v), off, Sub(hi, lo), Sub(max, lo)))
	case *types.Basic:
		v := e.term(s, x.X)
		lo := opt(x.Low, Int(0))
		hi := opt(x.High, strLen(v))
		e.check(s, "bounds", "string[:]", And(Le(Int(0), lo), Le(lo, hi), Le(hi, strLen(v))), x)
		r := App("substr", "Str", v, lo, hi)
		s.assume(Eq(strLen(r), Sub(hi, lo)))
		e.set(s, x, r)
	case *types.Pointer:
		arr := t.Elem().Underlying().(*types.Array)
		a := e.ptr(s, x.X, x, descr(x.X))
		if a.kind != aArr || len(a.path) > 0 {
			unsupported("slice of non-heap array")
		}
		n := Int(arr.Len())
		lo := opt(x.Low, Int(0))
		hi := opt(x.High, n)
		max := opt(x.Max, n)
		e.check(s, "bounds", "array[:]", And(Le(Int(0), lo), Le(lo, hi), Le(hi, max), Le(max, n)), x)
		e.set(s, x, mkSlice(a.ref, lo, Sub(hi, lo), Sub(max, lo)))
	default:
		unsupported("slice %s", x)
	}
}

func (e *Engine) appendSlice(s *State, a, b *Term, et types.Type) *Term {
	h, hs := elemHeap(et)
	heapTypes[h] = et
	n := sLen(b)
	if n.op == "int" && n.num.Sign() == 0 {
		return a
	}
	fits := Le(Add(sLen(a), n), sCap(a))
	if sArr(a).op == "int" && sArr(a).num.Sign() == 0 {
		fits = False
	}
	if s.knows(fits) {
		fits = True
	} else if s.knows(Not(fits)) {
		fits = False
	}
	E := s.heap(h, hs)
	var tgt, newCap *Term
	if fits.op != "true" {
		e.noteAlloc()
		r := s.newRef("arr")
		nc := Fresh("cap", "Int")
		s.assume(Le(Add(sLen(a), n), nc))
		tgt = Ite(fits, sArr(a), r)
		newCap = Ite(fits, sCap(a), nc)
	} else {
		tgt = sArr(a)
		newCap = sCap(a)
	}
	innerA := Select(E, sArr(a))
	innerB := Select(E, sArr(b))
	off := sOff(a)
	if sArr(a).op == "int" && sArr(a).num.Sign() == 0 {
		off = Int(0)
		innerA = ConstArr(elemSortOf(hs), zeroOf(et))
	}
	if n.op == "int" && n.num.Num().Int64() <= 8 {
		inner := innerA
		for i := int64(0); i < n.num.Num().Int64(); i++ {
			inner = Store(inner, sidx(off, Add(sLen(a), Int(i))), Select(innerB, sidx(sOff(b), Int(i))))
		}
		s.write(h, hs, tgt, inner)
	} else {
		N := Fresh("appended", elemSortOf(hs))
		j := BVar("j", "Int")
		selN := Select(N, j)
		lo := sidx(off, sLen(a))
		sb0, sl0 := splitOff(sOff(b))
		s.assume(Forall([]*Term{j}, Eq(selN, Ite(Or(Lt(j, lo), Ge(j, Add(lo, n))), Select(innerA, j), Select(innerB, sidx(sb0, Add(sl0, Sub(j, lo)))))), []*Term{selN}))
		// element jj of the result, counted from the result's base
		base, blo := splitOff(off)
		sbase, slo := splitOff(sOff(b))
		first := Add(blo, sLen(a))
		jj := BVar("j", "Int")
		sJ := Select(N, sidx(base, jj))
		s.assume(Forall([]*Term{jj}, Implies(And(Le(first, jj), Lt(jj, Add(first, n))), Eq(sJ, Select(innerB, sidx(sbase, Add(slo, Sub(jj, first)))))), []*Term{sJ}))
		// element i of the source, counted from the source's base
		i := BVar("i", "Int")
		sB := Select(innerB, sidx(sbase, i))
		s.assume(Forall([]*Term{i}, Implies(And(Le(slo, i), Lt(i, Add(slo, n))), Eq(Select(N, sidx(base, Add(first, Sub(i, slo)))), sB)), []*Term{sB}))
		s.write(h, hs, tgt, N)
	}
	rl := Add(sLen(a), n)
	return mkSlice(tgt, off, rl, newCap)
}

func (e *Engine) copySlice(s *State, a, b *Term, et types.Type) *Term {
	h, hs := elemHeap(et)
	heapTypes[h] = et
	n := Ite(Le(sLen(a), sLen(b)), sLen(a), sLen(b))
	E := s.heap(h, hs)
	innerA := Select(E, sArr(a))
	innerB := Select(E, sArr(b))
	N := Fresh("copied", elemSortOf(hs))
	j := BVar("j", "Int")
	selN := Select(N, j)
	lo := sOff(a)
	sb0, sl0 := splitOff(sOff(b))
	s.assume(Forall([]*Term{j}, Eq(selN, Ite(Or(Lt(j, lo), Ge(j, Add(lo, n))), Select(innerA, j), Select(innerB, sidx(sb0, Add(sl0, Sub(j, lo)))))), []*Term{selN}))
	base, first := splitOff(lo)
	sbase, slo := splitOff(sOff(b))
	jj := BVar("j", "Int")
	sJ := Select(N, sidx(base, jj))
	s.assume(Forall([]*Term{jj}, Implies(And(Le(first, jj), Lt(jj, Add(first, n))), Eq(sJ, Select(innerB, sidx(sbase, Add(slo, Sub(jj, first)))))), []*Term{sJ}))
	i := BVar("i", "Int")
	sB := Select(innerB, sidx(sbase, i))
	s.assume(Forall([]*Term{i}, Implies(And(Le(slo, i), Lt(i, Add(slo, n))), Eq(Select(N, sidx(base, Add(first, Sub(i, slo)))), sB)), []*Term{sB}))
	s.write(h, hs, sArr(a), N)
	return n
}

// ---- helpers --------------------------------------------------------------------------------

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
