package main

// Loops: havoc of what the body writes, automatic inference of an inductive invariant
// (candidate conjuncts filtered by the solver to the greatest inductive subset), and
// full unrolling of loops whose trip count is a literal.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type cand struct {
	desc string
	user bool
	f    func(st *State, k *Term) *Term
}

type accessor struct {
	name string
	srt  string
	ty   types.Type
	get  func(st *State) *Term
	phi  *ssa.Phi
}

var maxSymMemo = map[int]int{}

// maxSym: the largest creation number of a symbol in t.
func maxSym(t *Term) int {
	if v, ok := maxSymMemo[t.id]; ok {
		return v
	}
	m := 0
	if t.op == "const" {
		m = symNum(t.name)
	}
	for _, a := range t.args {
		if v := maxSym(a); v > m {
			m = v
		}
	}
	maxSymMemo[t.id] = m
	return m
}

func symNum(n string) int {
	i := strings.LastIndexByte(n, '!')
	if i >= 0 {
		if v, err := strconv.Atoi(n[i+1:]); err == nil {
			return v
		}
	}
	i = strings.LastIndexByte(n, '@')
	if i >= 0 && i+2 < len(n) {
		if v, err := strconv.Atoi(n[i+2:]); err == nil {
			return v
		}
	}
	return 0
}

// heapWrite classifies the writes of a loop to one heap.
type heapWrite struct {
	inv     []*Term // loop-invariant references
	inLoop  bool    // references allocated inside the loop
	unknown bool
}

func classify(ref *Term, mark int, hw *heapWrite) {
	if ref.op == "ite" {
		classify(ref.args[1], mark, hw)
		classify(ref.args[2], mark, hw)
		return
	}
	if maxSym(ref) <= mark {
		for _, r := range hw.inv {
			if r == ref {
				return
			}
		}
		hw.inv = append(hw.inv, ref)
		return
	}
	if isAllocBased(ref) {
		hw.inLoop = true
		return
	}
	hw.unknown = true
}

func (e *Engine) execLoop(fn *ssa.Function, l *loop, states []*State) (exits []edgeState, rets []Outcome) {
	var live []*State
	for _, s := range states {
		if !s.dead {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return
	}
	if len(live) > 1 {
		if m, _, ok := e.mergeStates(live, nil, l.header); ok {
			live = []*State{m}
		}
	}
	for _, s := range live {
		if ex, rt, ok := e.tryUnroll(fn, l, s); ok {
			exits = append(exits, ex...)
			rets = append(rets, rt...)
			continue
		}
		ex, rt := e.loopInv(fn, l, s)
		exits = append(exits, ex...)
		rets = append(rets, rt...)
	}
	return
}

func (e *Engine) runOnce(fn *ssa.Function, l *loop, s *State) (back []*State, exits []edgeState, rets []Outcome) {
	ex, rt := e.execRegion(region{fn: fn, blocks: l.blocks, header: l.header, lp: l}, l.header, []*State{s})
	for _, x := range ex {
		if x.st.dead {
			continue
		}
		if x.to == l.header {
			back = append(back, x.st)
		} else {
			exits = append(exits, x)
		}
	}
	for _, r := range rt {
		if !r.st.dead {
			rets = append(rets, r)
		}
	}
	return
}

const unrollMax = 16

func (e *Engine) headerDecided(fn *ssa.Function, l *loop, s *State) (ok bool) {
	h := l.header
	if _, is := h.Instrs[len(h.Instrs)-1].(*ssa.If); !is {
		return false
	}
	sv, sw := e.emit, e.writes
	e.emit, e.writes = false, newWriteSet(nil)
	defer func() {
		e.emit, e.writes = sv, sw
		if r := recover(); r != nil {
			if _, is := r.(execErr); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	for _, in := range h.Instrs {
		switch in.(type) {
		case *ssa.Call, *ssa.Next:
			if c, is := in.(*ssa.Call); is {
				if b, is := c.Common().Value.(*ssa.Builtin); is && b.Name() == "len" {
					continue
				}
			}
			return false
		}
	}
	es, _ := e.execBlock(fn, h, s.clone())
	n := 0
	for _, x := range es {
		if !x.st.dead {
			n++
		}
	}
	return n <= 1
}

func (e *Engine) tryUnroll(fn *ssa.Function, l *loop, s *State) (exits []edgeState, rets []Outcome, ok bool) {
	if !e.headerDecided(fn, l, s) {
		return nil, nil, false
	}
	run := func(s0 *State) ([]edgeState, []Outcome, bool) {
		var ex []edgeState
		var rt []Outcome
		cur := []*State{s0}
		for i := 0; ; i++ {
			if i > unrollMax {
				return nil, nil, false
			}
			var next []*State
			for _, c := range cur {
				if !e.headerDecided(fn, l, c) {
					return nil, nil, false
				}
				b, x, r := e.runOnce(fn, l, c)
				next = append(next, b...)
				ex = append(ex, x...)
				rt = append(rt, r...)
			}
			if len(next) == 0 {
				return ex, rt, true
			}
			cur = e.reduce(next, 4, nil)
		}
	}
	sv, sw, sq, ss := e.emit, e.writes, symSeq, e.scouting
	e.emit, e.writes, e.scouting = false, newWriteSet(nil), true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(execErr); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		_, _, ok = run(s.clone())
	}()
	e.emit, e.writes, e.scouting = sv, sw, ss
	_ = sq
	if !ok {
		return nil, nil, false
	}
	ex, rt, ok := run(s)
	return ex, rt, ok
}

func headerPhis(l *loop) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, ph)
	}
	return out
}

func sortedInts(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func (e *Engine) loopInv(fn *ssa.Function, l *loop, entry *State) (exits []edgeState, rets []Outcome) {
	mark := symSeq
	phis := headerPhis(l)
	fixed := map[*ssa.Phi]bool{}
	for _, p := range phis {
		if _, ok := entry.frame.env[p].(*Term); !ok {
			if t, ok := e.asTerm(entry.frame.env[p]); ok {
				entry.frame.env[p] = t
			} else {
				fixed[p] = true
			}
		}
	}
	ws := newWriteSet(nil)
	hws := map[string]*heapWrite{}
	mkHead := func() *State {
		h := entry.clone()
		if ws.alloc {
			a := Fresh("alloc", "Int")
			h.assume(Le(entry.alloc, a))
			h.alloc = a
		}
		for _, p := range phis {
			if fixed[p] {
				continue
			}
			v := Fresh(phiName(p), sortOf(p.Type()))
			h.assume(wfValue(v, p.Type(), h.alloc))
			h.frame.env[p] = v
		}
		for _, name := range sortedKeys(hws) {
			hw := hws[name]
			srt := heapSorts[name]
			base := entry.heap(name, srt)
			ty := heapTypes[name]
			cur := base
			if hw.unknown || hw.inLoop || ws.full[name] {
				cur = Fresh(name, srt)
				e.heapAxiom(cur, name, h.alloc)
				if !hw.unknown && !ws.full[name] {
					r := BVar("r", "Int")
					hyp := []*Term{Lt(r, entry.alloc)}
					for _, x := range hw.inv {
						hyp = append(hyp, Not(Eq(r, x)))
					}
					sel := Select(cur, r)
					h.assume(Forall([]*Term{r}, Implies(And(hyp...), Eq(sel, Select(base, r))), []*Term{sel}))
				}
			} else {
				for _, x := range hw.inv {
					v := Fresh("lp."+lastDot(name), elemSortOf(srt))
					if ty != nil {
						if strings.HasPrefix(name, "E.") || strings.HasPrefix(name, "MV.") {
							e.innerAxiom(v, ty, h.alloc)
						} else if !strings.HasPrefix(name, "M") && hasRefs(ty) {
							h.assume(wfValue(v, ty, h.alloc))
						}
					}
					cur = Store(cur, x, v)
				}
			}
			h.setHeap(name, cur)
		}
		for _, c := range sortedInts(ws.locals) {
			t, ok := entry.locals[c]
			if !ok {
				continue
			}
			v := Fresh("cell", t.sort)
			if ty := e.cellTypes[c]; ty != nil {
				h.assume(wfValue(v, ty, h.alloc))
			}
			h.locals[c] = v
		}
		for _, g := range sortedKeys(ws.ghosts) {
			h.ghost[g] = Fresh("ghost."+g, ghostSorts[g])
		}
		return h
	}
	// ---- scouting: what does the body write?
	sEmit, sWrites, sScout := e.emit, e.writes, e.scouting
	e.emit = false
	restore := func() { e.emit, e.writes, e.scouting = sEmit, sWrites, sScout }
	defer restore()
	sig := func() string {
		var sb strings.Builder
		for _, n := range sortedKeys(hws) {
			hw := hws[n]
			fmt.Fprint(&sb, n, hw.inLoop, hw.unknown, len(hw.inv), ws.full[n], ";")
		}
		fmt.Fprint(&sb, sortedInts(ws.locals), sortedKeys(ws.ghosts), ws.alloc, len(fixed))
		return sb.String()
	}
	e.scouting = true
	for round := 0; ; round++ {
		if round > 12 {
			unsupported("loop in %s: write analysis does not converge", fn)
		}
		before := sig()
		w := newWriteSet(nil)
		e.writes = w
		back, _, _ := e.runOnce(fn, l, mkHead())
		for n, rs := range w.refs {
			if hws[n] == nil {
				hws[n] = &heapWrite{}
			}
			for _, r := range rs {
				classify(r, mark, hws[n])
			}
		}
		for n := range w.full {
			ws.full[n] = true
			if hws[n] == nil {
				hws[n] = &heapWrite{}
			}
			hws[n].unknown = true
		}
		for c := range w.locals {
			if _, ok := entry.locals[c]; ok {
				ws.locals[c] = true
			}
		}
		for g := range w.ghosts {
			ws.ghosts[g] = true
		}
		ws.alloc = ws.alloc || w.alloc
		if w.all {
			unsupported("loop in %s calls a function with unrestricted effects", fn)
		}
		for p := range fixed {
			for _, b := range back {
				if !valEq(b.frame.env[p], entry.frame.env[p]) {
					unsupported("loop variable %s in %s holds an interior pointer that changes", p.Comment, fn)
				}
			}
		}
		if sig() == before {
			break
		}
	}
	// the writes of the loop count for enclosing scouting runs
	e.writes = sWrites
	if sWrites != nil {
		for n, hw := range hws {
			for _, r := range hw.inv {
				e.noteWrite(n, r)
			}
			if hw.inLoop || hw.unknown || ws.full[n] {
				if hw.unknown || ws.full[n] {
					e.noteFull(n)
				}
			}
		}
		for c := range ws.locals {
			e.noteLocal(c)
		}
		for g := range ws.ghosts {
			e.noteGhost(g)
		}
		if ws.alloc {
			e.noteAlloc()
		}
	}
	if sScout {
		// an enclosing loop is only collecting writes
		e.scouting = true
		_, ex, rt := e.runOnce(fn, l, mkHead())
		return ex, rt
	}
	e.scouting = false
	e.stats.loops++

	// ---- candidates
	k := Fresh("k", "Int")
	var back []*State
	head := mkHead()
	head.assume(Le(Int(0), k))
	probeHead := head.clone()
	savedW := e.writes
	e.writes = nil
	e.scouting = true
	back, _, _ = e.runOnce(fn, l, head.clone())
	e.scouting = false
	cands := e.candidates(fn, l, entry, probeHead, back, phis, fixed, ws, hws, k, mark)
	// entry filter
	evalC := func(c *cand, st *State, kk *Term) (t *Term) {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case specErr, execErr:
					t = nil
					return
				}
				panic(r)
			}
		}()
		return c.f(st, kk)
	}
	{
		ec := entry.clone()
		var ts []*Term
		var keep []*cand
		for _, c := range cands {
			t := evalC(c, ec, Int(0))
			if t == nil || t.op == "false" {
				continue
			}
			keep = append(keep, c)
			ts = append(ts, t)
		}
		ok := e.checkAll(ec, ts, userFlags(keep))
		cands = cands[:0]
		for i, c := range keep {
			if ok[i] {
				cands = append(cands, c)
			} else if os.Getenv("GVC_LOOP") != "" {
				fmt.Fprintf(os.Stderr, "loop %s: not initially: %s\n", fn.Name(), c.desc)
			}
		}
	}
	candSeq++
	tag := candSeq
	build := func() (*State, map[int]bool) {
		h := mkHead()
		h.assume(Le(Int(0), k))
		defer func(o int) { candTag = o }(candTag)
		candTag = tag
		used := map[int]bool{}
		for _, c := range cands {
			if t := evalC(c, h, k); t != nil {
				h.assume(t)
				used[t.id] = true
			}
		}
		return h, used
	}
	// filter to the greatest inductive subset
	for round := 0; round < 12; round++ {
		h, _ := build()
		b, _, _ := e.runOnce(fn, l, h)
		type item struct {
			c    *cand
			head *Term
		}
		dropped := false
		for {
			// terms of the current candidates at the head
			cur := map[*cand]*Term{}
			live := map[int]bool{}
			for _, c := range cands {
				t := evalC(c, h, k)
				cur[c] = t
				if t != nil {
					for _, p := range conj(t) {
						live[p.id] = true
					}
				}
			}
			bad := map[*cand]bool{}
			for _, bs := range b {
				if bs.dead {
					continue
				}
				var ts []*Term
				var cs []*cand
				for _, c := range cands {
					if bad[c] {
						continue
					}
					t := evalC(c, bs, Add(k, Int(1)))
					if t == nil || cur[c] == nil {
						bad[c] = true
						continue
					}
					ts = append(ts, t)
					cs = append(cs, c)
				}
				ok := e.checkAll(bs, ts, userFlags(cs))
				for i := range ok {
					if !ok[i] {
						bad[cs[i]] = true
						if os.Getenv("GVC_LOOP") != "" {
							fmt.Fprintf(os.Stderr, "loop %s: not preserved: %s\n", fn.Name(), cs[i].desc)
						}
					}
				}
			}
			if len(bad) == 0 {
				break
			}
			dropped = true
			var keep []*cand
			dead := map[int]bool{}
			for _, c := range cands {
				if bad[c] {
					if cur[c] != nil {
						for _, p := range conj(cur[c]) {
							dead[p.id] = true
						}
					}
				} else {
					keep = append(keep, c)
				}
			}
			for _, c := range keep {
				for _, p := range conj(cur[c]) {
					delete(dead, p.id)
				}
			}
			cands = keep
			for _, bs := range b {
				bs.pc = filterPC(bs.pc, dead, tag)
			}
		}
		if !dropped {
			break
		}
		if round == 11 {
			cands = nil
		}
	}
	for _, c := range cands {
		e.stats.houdini++
		if c.user {
			e.stats.userInv++
		}
		if os.Getenv("GVC_LOOP") != "" {
			fmt.Fprintf(os.Stderr, "loop %s: invariant %s\n", fn.Name(), c.desc)
		}
	}
	// ---- final pass
	e.writes = savedW
	e.emit, e.scouting = sEmit, sScout
	h, _ := build()
	var ms []measure
	hc := h.clone()
	if e.emit && e.spec.opts["terminates"] && !e.cur.ct.diverges {
		ms = e.measures(fn, l, entry, hc, phis)
	}
	back, exits, rets = e.runOnce(fn, l, h)
	if e.emit && e.spec.opts["terminates"] && !e.cur.ct.diverges {
		e.checkMeasures(fn, l, hc, back, ms)
	}
	return
}

// measure is a candidate termination measure of a loop.
type measure struct {
	desc string
	f    func(st *State) *Term
}

func (e *Engine) measures(fn *ssa.Function, l *loop, entry, head *State, phis []*ssa.Phi) []measure {
	var out []measure
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if _, ok := entry.frame.env[nx.Iter].(*MapIter); ok && b == l.header {
					// a map has finitely many keys and each is visited at most once
					return []measure{{desc: "keys left"}}
				}
			}
		}
	}
	var ifs []*ssa.If
	for b := range l.blocks {
		if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			ifs = append(ifs, x)
		}
	}
	sort.Slice(ifs, func(i, j int) bool { return ifs[i].Block().Index < ifs[j].Block().Index })
	for _, x := range ifs {
		bo, ok := x.Cond.(*ssa.BinOp)
		if !ok || sortOf(bo.X.Type()) != "Int" || isRefType(bo.X.Type()) {
			continue
		}
		if _, ok := e.evalAt(head, l, bo.X); !ok {
			continue
		}
		if _, ok := e.evalAt(head, l, bo.Y); !ok {
			continue
		}
		f := func(x, y ssa.Value) func(st *State) *Term {
			return func(st *State) *Term {
				a, ok1 := e.evalAt(st, l, x)
				b, ok2 := e.evalAt(st, l, y)
				if !ok1 || !ok2 {
					return nil
				}
				return Sub(a, b)
			}
		}
		out = append(out, measure{bo.Y.Name() + " - " + bo.X.Name(), f(bo.Y, bo.X)}, measure{bo.X.Name() + " - " + bo.Y.Name(), f(bo.X, bo.Y)})
	}
	for _, p := range phis {
		p := p
		if sortOf(p.Type()) == sliceDT {
			out = append(out, measure{"len " + p.Name(), func(st *State) *Term {
				t, ok := e.asTerm(st.frame.env[p])
				if !ok {
					return nil
				}
				return sLen(t)
			}})
		}
	}
	return append(out, e.userMeasures(fn, l, entry, head, phis)...)
}

func (e *Engine) checkMeasures(fn *ssa.Function, l *loop, head *State, back []*State, ms []measure) {
	lbl := "loop in " + fn.Name()
	var live []*State
	for _, b := range back {
		if !b.dead {
			live = append(live, b)
		}
	}
	if len(live) == 0 {
		return
	}
	for _, m := range ms {
		if m.f == nil {
			return
		}
		v0 := m.f(head)
		if v0 == nil {
			continue
		}
		ok := true
		var goals []*Term
		for _, b := range live {
			v1 := m.f(b)
			if v1 == nil {
				ok = false
				break
			}
			g := And(Le(Int(0), v0), Lt(v1, v0))
			if !e.checkAll(b, []*Term{g}, nil)[0] {
				ok = false
				break
			}
			goals = append(goals, g)
		}
		if ok {
			for i, b := range live {
				e.obls = append(e.obls, e.newOblig("terminates", lbl, "", b.assumptions(), goals[i]))
			}
			return
		}
	}
	o := e.newOblig("terminates", lbl, "", nil, False)
	o.msg = "no decreasing measure found for this loop"
	e.obls = append(e.obls, o)
}

func conj(t *Term) []*Term {
	if t.op == "and" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, conj(a)...)
		}
		return out
	}
	return []*Term{t}
}

func filterPC(p *pcNode, dead map[int]bool, tag int) *pcNode {
	var ts []*pcNode
	hit := false
	for n := p; n != nil; n = n.up {
		if n.cand == tag && dead[n.t.id] {
			hit = true
			continue
		}
		ts = append(ts, n)
	}
	if !hit {
		return p
	}
	var q *pcNode
	for i := len(ts) - 1; i >= 0; i-- {
		d := 1
		if q != nil {
			d = q.n + 1
		}
		q = &pcNode{up: q, t: ts[i].t, n: d, cand: ts[i].cand}
	}
	return q
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return sanitize(p.Comment)
	}
	return "phi"
}

const candTimeout0 = 1500 * time.Millisecond

var candTimeout = candTimeout0

// userFlags marks the candidates that come from the specification: they get a second attempt.
func userFlags(cs []*cand) []bool {
	out := make([]bool, len(cs))
	for i, c := range cs {
		out[i] = c.user || strings.HasPrefix(c.desc, "frame0")
	}
	return out
}

// checkAll decides which of the goals hold in st.
func (e *Engine) checkAll(st *State, goals []*Term, strong []bool) []bool {
	ok := make([]bool, len(goals))
	var idx []int
	for i, g := range goals {
		if g.op == "true" || st.knows(g) {
			ok[i] = true
			continue
		}
		if g.op == "false" {
			continue
		}
		idx = append(idx, i)
	}
	if len(idx) == 0 {
		return ok
	}
	as := st.assumptions()
	if len(idx) > 1 {
		var all []*Term
		for _, i := range idx {
			all = append(all, goals[i])
		}
		if quick(buildQuery(as, And(all...), e.floatMode()), candTimeout) {
			for _, i := range idx {
				ok[i] = true
			}
			return ok
		}
	}
	qs := make([]string, len(idx))
	for j, i := range idx {
		qs[j] = buildQuery(as, goals[i], e.floatMode())
	}
	var wg sync.WaitGroup
	for j, i := range idx {
		wg.Add(1)
		go func(j, i int) {
			defer wg.Done()
			ok[i] = quick(qs[j], candTimeout)
			if !ok[i] && strong != nil && strong[i] {
				ok[i] = quickDefault(qs[j], candTimeout)
			}
			if d := os.Getenv("GVC_LOOPDUMP"); d != "" && !ok[i] {
				os.WriteFile(fmt.Sprintf("%s/cand_%d_%d.smt2", d, goals[i].id, time.Now().UnixNano()%1000000000), []byte(qs[j]), 0o644)
			}
		}(j, i)
	}
	wg.Wait()
	return ok
}

// evalAt evaluates an SSA value at the loop head by executing its (pure) defining instructions.
func (e *Engine) evalAt(st *State, l *loop, v ssa.Value) (t *Term, ok bool) {
	s := st.clone()
	sv, sw := e.emit, e.writes
	e.emit, e.writes = false, newWriteSet(nil)
	defer func() {
		e.emit, e.writes = sv, sw
		if r := recover(); r != nil {
			switch r.(type) {
			case execErr, specErr:
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	depth := 0
	var ev func(v ssa.Value) bool
	ev = func(v ssa.Value) bool {
		depth++
		if depth > 30 {
			return false
		}
		in, isIn := v.(ssa.Instruction)
		if !isIn {
			return true
		}
		if !l.blocks[in.Block()] {
			_, has := s.frame.env[v]
			return has
		}
		switch x := v.(type) {
		case *ssa.Phi:
			return x.Block() == l.header
		case *ssa.BinOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType, *ssa.Extract:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok {
				if b.Name() != "len" && b.Name() != "cap" {
					return false
				}
			} else if x.Common().StaticCallee() == nil {
				return false
			}
		default:
			return false
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && !ev(*op) {
				return false
			}
		}
		if c, ok := v.(*ssa.Call); ok {
			outs := e.call(s, c.Common(), c)
			if len(outs) != 1 || len(outs[0].vals) != 1 {
				return false
			}
			*s = *outs[0].st
			s.frame.env[c] = outs[0].vals[0]
			return true
		}
		e.instr(s, in)
		return true
	}
	if !ev(v) {
		return nil, false
	}
	x, isT := e.asTerm(e.val(s, v))
	return x, isT
}

func (e *Engine) candidates(fn *ssa.Function, l *loop, entry, head *State, back []*State, phis []*ssa.Phi, fixed map[*ssa.Phi]bool, ws *WriteSet, hws map[string]*heapWrite, k *Term, mark int) []*cand {
	var out []*cand
	add := func(desc string, f func(st *State, k *Term) *Term) {
		out = append(out, &cand{desc: desc, f: f})
	}
	var accs []accessor
	var intPhis []*ssa.Phi
	for _, p := range phis {
		if fixed[p] {
			continue
		}
		p := p
		accs = append(accs, accessor{name: "phi " + phiName(p), srt: sortOf(p.Type()), ty: p.Type(), phi: p, get: func(st *State) *Term {
			t, ok := e.asTerm(st.frame.env[p])
			if !ok {
				panic(execErr{"phi is not a term"})
			}
			return t
		}})
		if sortOf(p.Type()) == "Int" && !isRefType(p.Type()) {
			intPhis = append(intPhis, p)
		}
	}
	for _, c := range sortedInts(ws.locals) {
		if t, ok := entry.locals[c]; ok {
			c := c
			accs = append(accs, accessor{name: fmt.Sprintf("local%d", c), srt: t.sort, ty: e.cellTypes[c], get: func(st *State) *Term { return st.locals[c] }})
		}
	}
	for _, n := range sortedKeys(hws) {
		hw := hws[n]
		n := n
		srt := heapSorts[n]
		for _, r := range hw.inv {
			r := r
			accs = append(accs, accessor{name: "cell " + n, srt: elemSortOf(srt), ty: heapTypes[n], get: func(st *State) *Term { return Select(st.heap(n, srt), r) }})
		}
	}
	for _, g := range sortedKeys(ws.ghosts) {
		g := g
		srt := ghostSorts[g]
		if strings.HasPrefix(g, "G:") {
			continue
		}
		accs = append(accs, accessor{name: "ghost " + g, srt: srt, get: func(st *State) *Term { return st.ghostGet(g, srt) }})
	}
	A := entry.alloc
	var initArrs []*Term
	for _, a := range accs {
		if a.srt == sliceDT {
			initArrs = append(initArrs, sArr(a.get(entry)))
		}
	}
	for _, a := range accs {
		a := a
		i0 := a.get(entry)
		switch a.srt {
		case "Int":
			if a.ty != nil && isRefType(a.ty) {
				add(a.name+" == init", func(st *State, k *Term) *Term { return Eq(a.get(st), i0) })
				add(a.name+" != nil", func(st *State, k *Term) *Term { return Not(Eq(a.get(st), Int(0))) })
				add(a.name+" fresh", func(st *State, k *Term) *Term { return Le(A, a.get(st)) })
				add(a.name+" nil or fresh", func(st *State, k *Term) *Term { return Or(Eq(a.get(st), Int(0)), Le(A, a.get(st))) })
				continue
			}
			add(a.name+" >= init", func(st *State, k *Term) *Term { return Le(i0, a.get(st)) })
			add(a.name+" <= init", func(st *State, k *Term) *Term { return Le(a.get(st), i0) })
			add(a.name+" >= 0", func(st *State, k *Term) *Term { return Le(Int(0), a.get(st)) })
			steps := map[int64]bool{1: true}
			for _, b := range back {
				if d := linDiffConst(a.get(b), a.get(head)); d != nil && d.IsInt() && d.Num().IsInt64() {
					steps[d.Num().Int64()] = true
				}
			}
			for _, c := range func() (o []int64) {
				for c := range steps {
					o = append(o, c)
				}
				sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
				return
			}() {
				c := c
				add(fmt.Sprintf("%s == init+%d*k", a.name, c), func(st *State, k *Term) *Term { return Eq(a.get(st), Add(i0, Mul(Int(c), k))) })
			}
			add(a.name+" <= init+k", func(st *State, k *Term) *Term { return Le(a.get(st), Add(i0, k)) })
		case "Real":
			add(a.name+" >= init", func(st *State, k *Term) *Term { return Le(i0, a.get(st)) })
			add(a.name+" <= init", func(st *State, k *Term) *Term { return Le(a.get(st), i0) })
			add(a.name+" >= 0", func(st *State, k *Term) *Term { return Le(RealF(0), a.get(st)) })
		case sliceDT:
			add(a.name+" len==init+k", func(st *State, k *Term) *Term { return Eq(sLen(a.get(st)), Add(sLen(i0), k)) })
			add(a.name+" len==init", func(st *State, k *Term) *Term { return Eq(sLen(a.get(st)), sLen(i0)) })
			add(a.name+" len>=init", func(st *State, k *Term) *Term { return Le(sLen(i0), sLen(a.get(st))) })
			add(a.name+" len<=init+k", func(st *State, k *Term) *Term { return Le(sLen(a.get(st)), Add(sLen(i0), k)) })
			add(a.name+" arr==init", func(st *State, k *Term) *Term { return Eq(sArr(a.get(st)), sArr(i0)) })
			add(a.name+" off==init", func(st *State, k *Term) *Term { return Eq(sOff(a.get(st)), sOff(i0)) })
			add(a.name+" off==0", func(st *State, k *Term) *Term { return Eq(sOff(a.get(st)), Int(0)) })
			add(a.name+" nil or fresh", func(st *State, k *Term) *Term { return Or(Eq(sArr(a.get(st)), Int(0)), Le(A, sArr(a.get(st)))) })
			add(a.name+" init or fresh", func(st *State, k *Term) *Term { return Or(Eq(sArr(a.get(st)), sArr(i0)), Le(A, sArr(a.get(st)))) })
			add(a.name+" empty when nil", func(st *State, k *Term) *Term {
				return Implies(Eq(sArr(a.get(st)), Int(0)), Eq(sLen(a.get(st)), Int(0)))
			})
			if a.ty != nil {
				if sl, ok := a.ty.Underlying().(*types.Slice); ok {
					h, hs := elemHeap(sl.Elem())
					if hws[h] != nil && !(sArr(i0).op == "int" && sArr(i0).num.Sign() == 0) {
						add(a.name+" initial elements kept", func(st *State, k *Term) *Term {
							j := BVar("j", "Int")
							s := a.get(st)
							x := Select(Select(st.heap(h, hs), sArr(s)), sidx(sOff(s), j))
							y := Select(Select(entry.heap(h, hs), sArr(i0)), sidx(sOff(i0), j))
							return Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, sLen(i0))), Eq(x, y)), []*Term{x})
						})
					}
				}
			}
		default:
			if strings.HasPrefix(a.srt, "(Array Int ") && (strings.HasPrefix(a.name, "cell E.") || strings.HasPrefix(a.name, "ghost ")) {
				if strings.HasPrefix(a.name, "ghost ev.") && a.srt != "(Array Int Int)" {
					continue
				}
				if strings.HasPrefix(a.name, "ghost ev.") {
					add(a.name+" only grows", func(st *State, k *Term) *Term {
						j := BVar("j", "Int")
						x := Select(a.get(st), j)
						return Forall([]*Term{j}, Le(Select(i0, j), x), []*Term{x})
					})
					continue
				}
				if strings.HasPrefix(a.name, "ghost ") {
					// trace entries recorded before the loop stay
					cnt := strings.SplitN(strings.TrimPrefix(a.name, "ghost "), ".", 2)[0] + ".n"
					n0 := entry.ghostGet(cnt, "Int")
					add(a.name+" prefix kept", func(st *State, k *Term) *Term {
						j := BVar("j", "Int")
						x := Select(a.get(st), j)
						return Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, n0)), Eq(x, Select(i0, j))), []*Term{x})
					})
					continue
				}
				add(a.name+" unchanged", func(st *State, k *Term) *Term { return Eq(a.get(st), i0) })
				for _, p := range intPhis {
					p := p
					add(a.name+" unchanged from "+phiName(p), func(st *State, k *Term) *Term {
						j := BVar("j", "Int")
						x := Select(a.get(st), j)
						pv := e.mustTerm(st.frame.env[p])
						return Forall([]*Term{j}, Implies(Lt(pv, j), Eq(x, Select(i0, j))), []*Term{x})
					})
				}
				continue
			}
			add(a.name+" == init", func(st *State, k *Term) *Term { return Eq(a.get(st), i0) })
			if a.srt == "Iface" {
				add(a.name+" nil", func(st *State, k *Term) *Term { return Eq(a.get(st), nilIface()) })
			}
		}
	}
	// guards of conditionals in the loop
	var ifs []*ssa.If
	for b := range l.blocks {
		if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			ifs = append(ifs, x)
		}
	}
	sort.Slice(ifs, func(i, j int) bool { return ifs[i].Block().Index < ifs[j].Block().Index })
	for _, x := range ifs {
		bo, ok := x.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.LSS && bo.Op != token.GTR && bo.Op != token.LEQ && bo.Op != token.GEQ && bo.Op != token.NEQ && bo.Op != token.EQL {
			continue
		}
		if sortOf(bo.X.Type()) != "Int" || isRefType(bo.X.Type()) {
			continue
		}
		if _, ok := e.evalAt(head, l, bo.X); !ok {
			continue
		}
		if _, ok := e.evalAt(head, l, bo.Y); !ok {
			continue
		}
		bo2 := bo
		both := func(st *State) (*Term, *Term) {
			a, ok1 := e.evalAt(st, l, bo2.X)
			b, ok2 := e.evalAt(st, l, bo2.Y)
			if !ok1 || !ok2 {
				panic(execErr{"guard"})
			}
			return a, b
		}
		add("guard x<=y "+bo.String(), func(st *State, k *Term) *Term { a, b := both(st); return Le(a, b) })
		add("guard x<y "+bo.String(), func(st *State, k *Term) *Term { a, b := both(st); return Lt(a, b) })
		add("guard y<=x "+bo.String(), func(st *State, k *Term) *Term { a, b := both(st); return Le(b, a) })
		add("guard y<x "+bo.String(), func(st *State, k *Term) *Term { a, b := both(st); return Lt(b, a) })
	}
	// map iteration
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || !l.blocks[b] || nx.IsString {
				continue
			}
			it, ok := entry.frame.env[nx.Iter].(*MapIter)
			if !ok {
				continue
			}
			add("map count == k", func(st *State, k *Term) *Term { return Eq(st.locals[it.cell+1], k) })
			add("map visited in domain", func(st *State, k *Term) *Term {
				dn, _, _ := mapHeaps(it.mt)
				d := st.heap(dn[0], dn[1])
				kk := BVar("k", indexSortOf(elemSortOf(dn[1])))
				v := Select(st.locals[it.cell], kk)
				if v.op == "false" {
					return True
				}
				pat := []*Term{v}
				return Forall([]*Term{kk}, Implies(v, Select(Select(d, it.m), kk)), pat)
			})
		}
	}
	// frames
	for _, n := range sortedKeys(hws) {
		hw := hws[n]
		n := n
		srt := heapSorts[n]
		if strings.HasPrefix(n, "LK.") {
			b := entry.heap(n, srt)
			add("same locks "+n, func(st *State, k *Term) *Term { return Eq(st.heap(n, srt), b) })
			continue
		}
		if !(hw.unknown || ws.full[n]) || e.cur != nil && e.cur.ct.looseframes {
			continue
		}
		base := entry.heap(n, srt)
		frame := func(bound *Term, except []*Term, base *Term) func(st *State, k *Term) *Term {
			return func(st *State, k *Term) *Term {
				r := BVar("r", "Int")
				hyp := []*Term{Le(Int(0), r), Lt(r, bound)}
				for _, x := range except {
					hyp = append(hyp, Not(Eq(r, x)))
				}
				sel := Select(st.heap(n, srt), r)
				return Forall([]*Term{r}, Implies(And(hyp...), Eq(sel, Select(base, r))), []*Term{sel})
			}
		}
		add("frame "+n, frame(A, hw.inv, base))
		ex := append([]*Term{}, hw.inv...)
		if strings.HasPrefix(n, "E.") {
			ex = append(ex, initArrs...)
		}
		if len(ex) > len(hw.inv) {
			add("frame- "+n, frame(A, ex, base))
		}
		if e.cur != nil && e.cur.entry != nil && e.cur.A0 != A {
			eb := e.cur.entry.heap(n, srt)
			add("frame0 "+n, frame(e.cur.A0, nil, eb))
			// also relative to the targets of the contract
			var tr []*Term
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(specErr); !ok {
							panic(r)
						}
					}
				}()
				for _, tg := range e.cur.ct.modifies {
					c := e.ctxFor(e.cur.ct, e.cur.entry, e.cur.entry, e.cur.binds)
					e.eachTarget(c, tg, func(h, hs string, ref *Term, ty types.Type) {
						if h == n && ref != nil {
							tr = append(tr, ref)
						}
					})
				}
			}()
			if len(tr) > 0 {
				add("frame0- "+n, frame(e.cur.A0, tr, eb))
			}
		}
	}
	out = append(out, e.userCands(fn, l, entry, head, phis)...)
	return out
}

func (e *Engine) mustTerm(v Val) *Term {
	t, ok := e.asTerm(v)
	if !ok {
		panic(execErr{"not a term"})
	}
	return t
}

const maxCombos = 48

// userCands instantiates the invariants of the contract under verification.
func (e *Engine) userCands(fn *ssa.Function, l *loop, entry, head *State, phis []*ssa.Phi) []*cand {
	if e.cur == nil || e.cur.ct == nil {
		return nil
	}
	var out []*cand
	e.userInst(fn, l, entry, head, phis, e.cur.ct.invs, func(cl *Clause, desc string, ctx func(st *State, k *Term) *evalCtx) {
		out = append(out, &cand{desc: desc, user: true, f: func(st *State, k *Term) *Term {
			c := ctx(st, k)
			if c == nil {
				return nil
			}
			return c.bool(cl.e)
		}})
	})
	return out
}

func (e *Engine) userMeasures(fn *ssa.Function, l *loop, entry, head *State, phis []*ssa.Phi) []measure {
	var out []measure
	e.userInst(fn, l, entry, head, phis, e.cur.ct.decs, func(cl *Clause, desc string, ctx func(st *State, k *Term) *evalCtx) {
		out = append(out, measure{desc, func(st *State) (t *Term) {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case specErr, execErr:
						t = nil
						return
					}
					panic(r)
				}
			}()
			c := ctx(st, Int(0))
			if c == nil {
				return nil
			}
			return c.eval(cl.e).t
		}})
	})
	return out
}

// userInst instantiates clause templates with the values of a loop.
func (e *Engine) userInst(fn *ssa.Function, l *loop, entry, head *State, phis []*ssa.Phi, cls []Clause, emit func(cl *Clause, desc string, ctx func(st *State, k *Term) *evalCtx)) {
	var iter *MapIter
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if it, ok := entry.frame.env[nx.Iter].(*MapIter); ok {
					iter = it
				}
			}
		}
	}
	// values usable for wildcards: header phis first, then live values defined before the loop
	type wv struct {
		name string
		v    ssa.Value
		ty   types.Type
		prio int
		ord  int
		next bool // the value plus one: the number of elements a range loop has visited
	}
	// value of a wildcard in a state; a local struct variable stands for its contents
	valOf := func(st *State, w wv) (*Term, types.Type, bool) {
		v, has := st.frame.env[w.v]
		if !has {
			return nil, nil, false
		}
		if a, ok := v.(Addr); ok && a.kind == aLocal && len(a.path) == 0 {
			t, ok := st.locals[a.cell]
			return t, a.ty, ok
		}
		t, ok := e.asTerm(v)
		if ok && w.next {
			t = Add(t, Int(1))
		}
		return t, w.ty, ok
	}
	var vals []wv
	for i, p := range phis {
		if p.Comment == "rangeindex" {
			vals = append(vals, wv{"$k", p, p.Type(), 0, i, true})
		}
		vals = append(vals, wv{p.Comment, p, p.Type(), 0, i, false})
	}
	ord := 0
	for _, p := range fn.Params {
		vals = append(vals, wv{p.Name(), p, p.Type(), 1, ord, false})
		ord++
	}
	for _, b := range fn.Blocks {
		if l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, has := entry.frame.env[v]; has {
					if _, isPhi := v.(*ssa.Phi); isPhi || true {
						nm := ""
						if ph, ok := v.(*ssa.Phi); ok {
							nm = ph.Comment
						}
						if al, ok := v.(*ssa.Alloc); ok {
							nm = al.Comment
						}
						vals = append(vals, wv{nm, v, v.Type(), 2, ord, false})
						ord++
					}
				}
			}
		}
	}
	for ci := range cls {
		cl := &cls[ci]
		var choices [][]wv
		bad := false
		for _, vx := range cl.vars {
			var ty types.Type
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(specErr); !ok {
							panic(r)
						}
						bad = true
					}
				}()
				ty = e.resolveType(vx.ty, e.cur.ct.pkg)
			}()
			if bad {
				break
			}
			var cs []wv
			for _, w := range vals {
				_, wt, ok := valOf(head, w)
				if !ok {
					continue
				}
				if !types.Identical(types.Unalias(wt), types.Unalias(ty)) {
					// local array/struct variables are addressed through allocs
					continue
				}
				w.ty = wt
				cs = append(cs, w)
			}
			sort.SliceStable(cs, func(i, j int) bool {
				a, b := cs[i], cs[j]
				an, bn := a.name == vx.name, b.name == vx.name
				if an != bn {
					return an
				}
				return a.prio < b.prio
			})
			// identical terms only once
			var ded []wv
			seen := map[int]bool{}
			for _, w := range cs {
				t, _, _ := valOf(head, w)
				if !seen[t.id] {
					seen[t.id] = true
					ded = append(ded, w)
				}
			}
			exact := 0
			for _, w := range ded {
				if w.name == vx.name {
					exact++
				}
			}
			if exact > 0 {
				ded = ded[:exact]
				// a variable of this name that the loop itself changes is the one meant;
				// otherwise the latest definitions before the loop
				if ded[0].prio == 0 {
					k := 1
					for k < len(ded) && ded[k].prio == 0 {
						k++
					}
					ded = ded[:k]
				} else {
					sort.SliceStable(ded, func(i, j int) bool { return ded[i].ord > ded[j].ord })
					if len(ded) > 4 {
						ded = ded[:4]
					}
					// the variable may be the index of a range loop by now
					for _, w := range cs {
						if w.next {
							ded = append([]wv{w}, ded...)
						}
					}
				}
			}
			choices = append(choices, ded)
		}
		if bad {
			continue
		}
		combos := [][]wv{{}}
		for _, cs := range choices {
			var next [][]wv
			for _, c := range combos {
				for _, w := range cs {
					next = append(next, append(append([]wv{}, c...), w))
				}
			}
			combos = next
			if len(combos) > maxCombos {
				combos = combos[:maxCombos]
			}
		}
		for _, combo := range combos {
			combo := combo
			desc := fmt.Sprintf("inv %s %v", cl.src, func() (o []string) {
				for _, w := range combo {
					o = append(o, w.v.Name())
				}
				return
			}())
			emit(cl, desc, func(st *State, k *Term) *evalCtx {
				c := e.ctxFor(e.cur.ct, st, e.cur.entry, e.cur.binds)
				c.pre = entry
				c.k = k
				if iter != nil {
					c.seen = st.locals[iter.cell]
				}
				for i, vx := range cl.vars {
					t, _, ok := valOf(st, combo[i])
					if !ok {
						return nil
					}
					c = c.with(vx.name, SVal{t: t, ty: combo[i].ty})
				}
				return c
			})
		}
	}
}

var _ = big.NewInt
