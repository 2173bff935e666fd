package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnCtx struct {
	fn    *ssa.Function
	ct    *Contract
	A0    *Term
	recv  *Term
	entry *State
	binds map[string]SVal
	names map[string]int
}

type Oblig struct {
	name   string // stable name: function/kind/label#ordinal
	fn     string
	kind   string
	label  string
	pos    string
	assume []*Term
	goal   *Term
	expect string // "" proved expected; "sat": vacuity check (must not be provable)
	res    Result
	ok     bool
	msg    string
	info   bool
	ct     *Contract
}

func (e *Engine) newOblig(kind, label, pos string, assume []*Term, goal *Term) *Oblig {
	base := fmt.Sprintf("%s/%s/%s", e.cur.ct.name, kind, label)
	e.cur.names[base]++
	name := base
	if n := e.cur.names[base]; n > 1 {
		name = fmt.Sprintf("%s#%d", base, n)
	}
	return &Oblig{name: name, fn: e.cur.ct.name, kind: kind, label: label, pos: pos, assume: assume, goal: goal}
}

func (e *Engine) check(s *State, kind, label string, goal *Term, in ssa.Instruction) {
	if s == nil || s.dead || goal.op == "true" || s.knows(goal) {
		return
	}
	if e.spec != nil && (e.spec.opts["nosafety"] || e.cur != nil && e.cur.ct.nosafety) {
		switch kind {
		case "nil", "bounds", "div0", "typeassert", "makeslice", "nilmap", "panic":
			e.externUsed["executions that panic are excluded here (panic-freedom is decided by C05, C09 and C13)"] = true
			s.assume(goal)
			return
		}
	}
	if e.emit {
		pos := ""
		if in != nil {
			pos = e.pos(in)
		}
		if s.frame != nil && s.frame.fn != nil && e.cur.fn != s.frame.fn {
			label = label + " in " + s.frame.fn.Name()
		}
		e.obls = append(e.obls, e.newOblig(kind, label, pos, s.assumptions(), goal))
	}
	s.assume(goal)
}

func (e *Engine) emitGoal(s *State, kind, label string, goal *Term) {
	if goal.op == "true" || s.dead {
		return
	}
	e.obls = append(e.obls, e.newOblig(kind, label, "", s.assumptions(), goal))
}

// verifyFunc generates the obligations of a contract.
func (e *Engine) verifyFunc(ct *Contract) (obls []*Oblig) {
	fn := e.fnByName[ct.name]
	e.obls = nil
	e.cur = &FnCtx{fn: fn, ct: ct, names: map[string]int{}}
	e.writes = nil
	e.stack = nil
	defer func() {
		obls = e.obls
		if r := recover(); r != nil {
			msg := ""
			switch x := r.(type) {
			case execErr:
				msg = "outside the supported subset: " + x.msg
			case specErr:
				msg = "contract cannot be evaluated: " + x.msg
			default:
				msg = fmt.Sprintf("internal: %v", r)
				if os.Getenv("GVC_DEBUG") != "" {
					debug.PrintStack()
				}
			}
			o := e.newOblig("translate", "function body", "", nil, False)
			o.msg = msg
			obls = append(obls, o)
		}
	}()
	if fn == nil || len(fn.Blocks) == 0 {
		panic(specErr{"function " + ct.name + " not found in the current tree"})
	}
	symSeq = 0
	for n := range symAxioms {
		if strings.ContainsAny(n, "!@") {
			delete(symAxioms, n)
		}
	}
	heapMeta = map[string]heapInfo{}
	maxSymMemo = map[int]int{}
	A0 := Sym("A@0", "Int")
	s := &State{eng: e, heaps: map[string]*Term{}, epoch: "0", alloc: A0, locals: map[int]*Term{}, ghost: map[string]*Term{}}
	e.epochAlloc["0"] = A0
	e.cur.A0 = A0
	s.assume(Le(Int(1), A0))
	var args []Val
	for i, p := range fn.Params {
		nm := p.Name()
		if i < len(ct.params) {
			nm = ct.params[i]
		}
		t := Sym("p."+sanitize(nm), sortOf(p.Type()))
		s.assume(wfValue(t, p.Type(), A0))
		args = append(args, t)
	}
	binds := e.bindParams(ct, fn, fn.Signature, args)
	if fn.Signature.Recv() != nil {
		e.cur.recv, _ = args[0].(*Term)
		if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			s.assume(Not(Eq(args[0].(*Term), Int(0))))
		}
	}
	s.frame = &FrameState{env: map[ssa.Value]Val{}}
	for _, r := range ct.requires {
		s.assume(e.ctxFor(ct, s, s, binds).bool(r.e))
	}
	e.cur.entry = s.clone()
	e.cur.binds = binds
	// vacuity: the precondition is satisfiable
	v := e.newOblig("vacuity", "precondition satisfiable", "", s.assumptions(), False)
	v.expect = "sat"
	e.obls = append(e.obls, v)
	e.emit = true
	outs := e.runBody(s, fn, nil, args)
	e.emit = false
	if len(outs) == 0 {
		e.obls = append(e.obls, func() *Oblig {
			o := e.newOblig("vacuity", "some path returns", "", nil, False)
			o.msg = "no path of the function returns"
			return o
		}())
		return
	}
	old := e.cur.entry
	var exitAssume [][]*Term
	for _, o := range outs {
		b := map[string]SVal{}
		for k, x := range binds {
			b[k] = x
		}
		for i, rv := range o.vals {
			rt := fn.Signature.Results().At(i).Type()
			t, ok := e.asTerm(rv)
			if !ok {
				unsupported("result %d of %s is not a term", i, ct.name)
			}
			if i < len(ct.results) {
				b[ct.results[i]] = SVal{t: t, ty: rt}
			}
			if len(o.vals) == 1 {
				b["result"] = SVal{t: t, ty: rt}
			}
		}
		exitAssume = append(exitAssume, o.st.assumptions())
		for _, en := range ct.ensures {
			e.emitGoal(o.st, "post", en.label, e.ctxFor(ct, o.st, old, b).bool(en.e))
		}
		if !ct.noframe && !ct.anyMod {
			e.emitFrame(ct, o.st, old, binds)
		}
		if !ct.ghosts || ct.ghostOnly != nil {
			for _, g := range sortedKeys(o.st.ghost) {
				if ct.mayChange(g) {
					continue
				}
				if strings.HasPrefix(g, "ev.") {
					e.emitGoal(o.st, "frame", "no event recorded: "+g, Eq(o.st.ghost[g], old.ghostGet(g, ghostSorts[g])))
				}
				if !strings.HasSuffix(g, ".n") {
					continue
				}
				e.emitGoal(o.st, "frame", "no event recorded: "+g, Eq(o.st.ghost[g], old.ghostGet(g, "Int")))
			}
		}
		if e.spec.opts["locks"] {
			for _, h := range sortedKeys(o.st.heaps) {
				if !strings.HasPrefix(h, "LK.") {
					continue
				}
				a, b := o.st.heaps[h], old.heap(h, lockSort)
				if a == b {
					continue
				}
				r := Fresh("lr", "Int")
				e.emitGoal(o.st, "lock", "every lock taken is released: "+strings.TrimPrefix(h, "LK."), Eq(Select(a, r), Select(b, r)))
			}
		}
	}
	// vacuity: some exit is reachable
	var disj []*Term
	if len(exitAssume) <= 12 {
		common := exitAssume[0]
		_ = common
		for _, a := range exitAssume {
			disj = append(disj, And(a...))
		}
		v := e.newOblig("vacuity", "some exit reachable", "", []*Term{Or(disj...)}, False)
		v.expect = "sat"
		e.obls = append(e.obls, v)
	}
	return
}

func (e *Engine) emitFrame(ct *Contract, st, old *State, binds map[string]SVal) {
	full := map[string]bool{}
	refs := map[string][]*Term{}
	for _, tg := range ct.modifies {
		c := e.ctxFor(ct, old, old, binds)
		e.eachTarget(c, tg, func(h, hs string, ref *Term, ty types.Type) {
			if ref == nil {
				full[h] = true
			} else {
				refs[h] = append(refs[h], ref)
			}
		})
	}
	for _, h := range sortedKeys(st.heaps) {
		if strings.HasPrefix(h, "LK.") || full[h] {
			continue
		}
		a := st.heaps[h]
		b := old.heap(h, a.sort)
		if a == b {
			continue
		}
		r := Fresh("fr", "Int")
		hyp := []*Term{Le(Int(1), r), Lt(r, e.cur.A0)}
		for _, t := range refs[h] {
			hyp = append(hyp, Not(Eq(r, t)))
		}
		goal := Implies(And(hyp...), Eq(Select(a, r), Select(b, r)))
		// syntactic fast path: stores only at fresh or targeted references
		if onlyStores(a, b, refs[h], e.cur.A0) {
			continue
		}
		e.emitGoal(st, "frame", strings.TrimPrefix(h, "H."), goal)
	}
	for g, t := range st.ghost {
		if strings.HasPrefix(g, "G:") {
			o := e.newOblig("frame", "package variable "+g[2:], "", st.assumptions(), False)
			o.msg = "package-level variable written: " + g[2:]
			_ = t
			e.obls = append(e.obls, o)
		}
	}
}

func onlyStores(a, b *Term, refs []*Term, A0 *Term) bool {
	for a.op == "store" {
		i := a.args[1]
		ok := false
		for _, r := range refs {
			if r == i {
				ok = true
			}
		}
		if !ok && i.op != "const" {
			ok = isAllocBased(i)
		} else if !ok {
			ok = isAllocBased(i)
		}
		if !ok {
			return false
		}
		a = a.args[0]
	}
	return a == b
}

// ---- discharging --------------------------------------------------------------------------------

type Budget struct {
	per time.Duration
	end time.Time
}

func (e *Engine) floatMode() string {
	if e.floatReal {
		return "real"
	}
	return "fp"
}

func relevant(assume []*Term, goal *Term) []*Term { return assume }

// discharge proves obligations in parallel.
func (e *Engine) discharge(obls []*Oblig, per time.Duration) {
	type job struct {
		o *Oblig
		q string
	}
	var jobs []job
	for _, o := range obls {
		if o.msg != "" {
			o.ok = false
			o.res = Result{status: "untranslated"}
			continue
		}
		jobs = append(jobs, job{o, buildQuery(o.assume, o.goal, e.floatMode())})
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	full := per
	var nfail int32
	for _, j := range jobs {
		per := full
		if !e.deadline.IsZero() && time.Now().After(e.deadline) {
			per = 1500 * time.Millisecond
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(j job) {
			defer wg.Done()
			defer func() { <-sem }()
			defer func() {
				if d := os.Getenv("GVC_DUMP"); d != "" && !j.o.ok {
					os.MkdirAll(d, 0755)
					os.WriteFile(d+"/"+sanitize(j.o.name)+".smt2", []byte(cfgMain.pre+j.q+"(check-sat)\n"), 0644)
				}
			}()
			if j.o.expect == "sat" {
				r := runVac(j.q)
				j.o.res = r
				j.o.ok = r.status != "unsat"
				return
			}
			if atomic.LoadInt32(&nfail) >= 8 && per > 4*time.Second {
				per = 4 * time.Second
			}
			j.o.res = prove(j.q, per)
			j.o.ok = j.o.res.status == "unsat"
			if !j.o.ok {
				atomic.AddInt32(&nfail, 1)
			}
		}(j)
	}
	wg.Wait()
	// failing conjunctions: try part by part
	split := 0
	for _, o := range obls {
		if !o.ok && o.expect == "" && (o.msg != "" || o.goal.op != "and") {
			split = 2 // fails whatever the parts say
		}
	}
	for _, o := range obls {
		if o.ok || o.msg != "" || o.expect != "" || o.goal.op != "and" {
			continue
		}
		if split >= 2 {
			break
		}
		all := true
		acc := append([]*Term{}, o.assume...)
		var rs Result
		type part struct {
			q string
			g *Term
		}
		var ps []part
		for _, g := range o.goal.args {
			ps = append(ps, part{buildQuery(acc, g, e.floatMode()), g})
			acc = append(acc, g)
		}
		res := make([]Result, len(ps))
		var wg2 sync.WaitGroup
		sem2 := make(chan struct{}, 8)
		for i := range ps {
			wg2.Add(1)
			sem2 <- struct{}{}
			go func(i int) {
				defer wg2.Done()
				defer func() { <-sem2 }()
				if quick(ps[i].q, 3*time.Second) {
					res[i] = Result{status: "unsat", solver: cfgMain.name}
				}
			}(i)
		}
		wg2.Wait()
		for i := range ps {
			if res[i].status == "unsat" {
				continue
			}
			if res[i] = prove(ps[i].q, per); res[i].status != "unsat" {
				break
			}
		}
		for i, r := range res {
			rs.dur += r.dur
			rs.solver = r.solver
			if r.status != "unsat" {
				all = false
				split++
				o.label += fmt.Sprintf(" [conjunct %d]", i+1)
				break
			}
		}
		if all {
			o.ok = true
			rs.status = "unsat"
			o.res = rs
		}
	}
}

func runVac(q string) Result {
	if v, ok := qcache.Load(q); ok {
		return v.(Result)
	}
	r := runSolver(bg, cfgMain, q, 2*time.Second, false)
	qcache.Store(q, r)
	return r
}

func sortObls(obls []*Oblig) {
	sort.SliceStable(obls, func(i, j int) bool { return obls[i].name < obls[j].name })
}
