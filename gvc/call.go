package main

// Calls: builtins, inlining, contracts, externs, locks.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) callArgs(s *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	var fv Val
	if c.IsInvoke() {
		fv = e.val(s, c.Value)
		args = append(args, fv)
	} else {
		fv = e.val(s, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, e.val(s, a))
	}
	return fv, args
}

func (e *Engine) call(s *State, c *ssa.CallCommon, in ssa.Instruction) []Outcome {
	fv, args := e.callArgs(s, c)
	return e.invoke(s, c, fv, args, in)
}

func (e *Engine) invoke(s *State, c *ssa.CallCommon, fv Val, args []Val, in ssa.Instruction) []Outcome {
	if c.IsInvoke() {
		return e.invokeMethod(s, c, args, in)
	}
	switch f := fv.(type) {
	case *ssa.Builtin:
		return e.builtin(s, c, f, args, in)
	case *ssa.Function:
		if f.Synthetic == "package initializer" && in != nil && in.Parent().Synthetic == "package initializer" {
			// the initialisers of imported packages do not reach this package's memory
			return []Outcome{{s, nil}}
		}
		return e.callFn(s, f, nil, args, in, c)
	case *Closure:
		return e.callFn(s, f.fn, f.bind, args, in, c)
	case *Term:
		if cl, ok := closureSyms[f.name]; ok && f.op == "const" {
			return e.callFn(s, cl.fn, cl.bind, args, in, c)
		}
		if f.op == "ite" && f.sort == "Fn" {
			a := s.clone()
			a.assume(f.args[0])
			b := s
			b.assume(Not(f.args[0]))
			var out []Outcome
			if !a.dead {
				out = append(out, e.invoke(a, c, f.args[1], args, in)...)
			}
			if !b.dead {
				out = append(out, e.invoke(b, c, f.args[2], args, in)...)
			}
			return out
		}
		// unknown function value: recorded in the ghost call trace
		if in != nil {
			e.check(s, "nil", "call of nil function", Not(Eq(f, nilFn())), in)
		}
		sig := c.Value.Type().Underlying().(*types.Signature)
		var ts []*Term
		for _, a := range args {
			t, ok := e.asTerm(a)
			if !ok {
				unsupported("callback argument %T", a)
			}
			ts = append(ts, t)
		}
		if e.cur.ct.mutators {
			for i, a := range ts {
				pt, ok := types.Unalias(sig.Params().At(i).Type()).Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				st, el := structOf(pt.Elem())
				if st == nil {
					continue
				}
				for j := 0; j < st.NumFields(); j++ {
					h, hs := fieldHeap(el, j)
					ft := st.Field(j).Type()
					heapTypes[h] = ft
					v := Fresh("cb."+st.Field(j).Name(), sortOf(ft))
					s.assume(wfValue(v, ft, s.alloc))
					s.write(h, hs, a, v)
				}
			}
		}
		res := e.freshResults(s, sig)
		e.lockEvent(s, "callback", f, in)
		e.recordCall(s, f, ts, termsOf(res))
		return []Outcome{{s, res}}
	}
	unsupported("call of %T", fv)
	return nil
}

func termsOf(vs []Val) []*Term {
	var out []*Term
	for _, v := range vs {
		if t, ok := v.(*Term); ok {
			out = append(out, t)
		}
	}
	return out
}

func (e *Engine) freshResults(s *State, sig *types.Signature) []Val {
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := Fresh("res", sortOf(t))
		s.assume(wfValue(v, t, s.alloc))
		res = append(res, v)
	}
	return res
}

func (e *Engine) invokeMethod(s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []Outcome {
	recv, _ := e.asTerm(args[0])
	if recv != nil && recv.op == "app" && strings.HasPrefix(recv.name, "box.") {
		if t, ok := typeTagOf[strings.TrimPrefix(recv.name, "box.")]; ok {
			if m := e.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil {
				a2 := append([]Val{recv.args[0]}, args[1:]...)
				return e.callFn(s, m, nil, a2, in, c)
			}
		}
	}
	name := "invoke:" + c.Method.Name()
	if in != nil {
		e.check(s, "nil", "method call on nil interface: "+c.Method.Name(), Not(Eq(recv, nilIface())), in)
	}
	full := c.Method.FullName()
	full = strings.ReplaceAll(full, modPath+"/", "")
	if ct := e.externFor(full); ct != nil {
		return e.applyContract(s, ct, nil, c.Method.Type().(*types.Signature), args, in, true)
	}
	_ = name
	sig := c.Method.Type().(*types.Signature)
	// pure observers of interface values: error text, geometry type names ...
	if sig.Params().Len() == 0 && sig.Results().Len() == 1 {
		e.externUsed["interface method "+full+": pure function of the receiver"] = true
		rt := sig.Results().At(0).Type()
		if !hasRefs(rt) {
			return []Outcome{{s, []Val{App("im."+c.Method.Name()+"."+sanitize(sortOf(rt)), sortOf(rt), recv)}}}
		}
		r := Fresh("res", sortOf(rt))
		s.assume(wfValue(r, rt, s.alloc))
		return []Outcome{{s, []Val{r}}}
	}
	if sig.Results().Len() == 0 {
		e.externUsed["interface method "+full+": no effect on framework state"] = true
		return []Outcome{{s, nil}}
	}
	unsupported("interface method %s", full)
	return nil
}

func (e *Engine) builtin(s *State, c *ssa.CallCommon, f *ssa.Builtin, args []Val, in ssa.Instruction) []Outcome {
	tm := func(i int) *Term {
		t, ok := e.asTerm(args[i])
		if !ok {
			unsupported("builtin arg")
		}
		return t
	}
	ret := func(v ...Val) []Outcome { return []Outcome{{s, v}} }
	switch f.Name() {
	case "len":
		t := tm(0)
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return ret(sLen(t))
		case *types.Basic:
			n := strLen(t)
			s.assume(Le(Int(0), n))
			return ret(n)
		case *types.Map:
			return ret(e.mapLen(s, t, u))
		case *types.Array:
			return ret(Int(u.Len()))
		case *types.Pointer:
			return ret(Int(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Chan:
			n := Fresh("chanlen", "Int")
			s.assume(Le(Int(0), n))
			return ret(n)
		}
	case "cap":
		switch c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return ret(sCap(tm(0)))
		}
	case "append":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if b, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			unsupported("append of string")
		}
		return ret(e.appendSlice(s, tm(0), tm(1), et))
	case "copy":
		if sl, ok := c.Args[1].Type().Underlying().(*types.Slice); ok {
			return ret(e.copySlice(s, tm(0), tm(1), sl.Elem()))
		}
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		e.mapDelete(s, tm(0), mt, tm(1))
		return ret()
	case "clear":
		if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			_, _, _, dn, _, ln := e.mapHeap(s, mt)
			s.write(dn[0], dn[1], tm(0), ConstArr(elemSortOf(dn[1]), False))
			s.write(ln[0], ln[1], tm(0), Int(0))
			return ret()
		}
	case "panic":
		e.check(s, "panic", "explicit", False, in)
		s.dead = true
		return nil
	case "min", "max":
		r := tm(0)
		for i := 1; i < len(args); i++ {
			b := tm(i)
			if f.Name() == "min" {
				r = Ite(Le(r, b), r, b)
			} else {
				r = Ite(Le(b, r), r, b)
			}
		}
		return ret(r)
	case "print", "println":
		return ret()
	case "close":
		n := s.ghostGet("close.n", "Int")
		s.ghostSet("close.n", Add(n, Int(1)))
		return ret()
	case "ssa:wrapnilchk":
		t := tm(0)
		e.check(s, "nil", "method value", Not(Eq(t, Int(0))), in)
		return ret(t)
	case "recover":
		return ret(nilIface())
	}
	unsupported("builtin %s", f.Name())
	return nil
}

const maxDepth = 40

func (e *Engine) callFn(s *State, fn *ssa.Function, bind []Val, args []Val, in ssa.Instruction, c *ssa.CallCommon) []Outcome {
	name := fnName(fn)
	if ct := e.contractFor(name); ct != nil && bind == nil {
		ts := make([]Val, len(args))
		ok := true
		for i, a := range args {
			if t, is := e.asTerm(a); is {
				ts[i] = t
			} else {
				ok = false
			}
		}
		if ok {
			return e.applyContract(s, ct, fn, fn.Signature, ts, in, false)
		}
		if ct.strict {
			unsupported("call of contracted %s with interior pointer", name)
		}
	}
	if out, ok := e.special(s, fn, name, args, in, c); ok {
		return out
	}
	if len(fn.Blocks) > 0 {
		n := 0
		for _, f := range e.stack {
			if f == fn {
				n++
			}
		}
		if n > 1 || len(e.stack) > maxDepth {
			unsupported("recursive call of %s without contract", name)
		}
		if fn.Pkg != nil {
			e.inlined[name] = true
		}
		return e.inline(s, fn, bind, args)
	}
	full := fn.RelString(nil)
	if ct := e.externFor(full); ct != nil {
		ts := make([]Val, len(args))
		for i, a := range args {
			t, is := e.asTerm(a)
			if !is {
				ts[i] = a
				continue
			}
			ts[i] = t
		}
		return e.applyContract(s, ct, fn, fn.Signature, ts, in, true)
	}
	if out, ok := e.externDefault(s, fn, full, args, in); ok {
		return out
	}
	unsupported("call of %s (no body, no contract)", full)
	return nil
}

func (e *Engine) inline(s *State, fn *ssa.Function, bind []Val, args []Val) []Outcome {
	outs := e.runBody(s, fn, bind, args)
	for i := range outs {
		outs[i].st.frame = outs[i].st.frame.parent.clone()
	}
	return e.reduceOutcomes(outs)
}

// runBody executes fn in a new frame on top of s.frame and returns outcomes still positioned in the callee frame.
func (e *Engine) runBody(s *State, fn *ssa.Function, bind []Val, args []Val) []Outcome {
	frameSeq++
	f := &FrameState{env: map[ssa.Value]Val{}, parent: s.frame, fn: fn, id: frameSeq}
	if len(args) != len(fn.Params) {
		unsupported("arity of %s", fn)
	}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		f.env[v] = bind[i]
	}
	s.frame = f
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	ex, rets := e.execRegion(region{fn: fn}, fn.Blocks[0], []*State{s})
	if len(ex) > 0 {
		unsupported("unexpected exits")
	}
	var live []Outcome
	for _, r := range rets {
		if !r.st.dead {
			live = append(live, r)
		}
	}
	return live
}

// ---- locks and special functions --------------------------------------------------------------

func (e *Engine) special(s *State, fn *ssa.Function, name string, args []Val, in ssa.Instruction, c *ssa.CallCommon) ([]Outcome, bool) {
	full := fn.RelString(nil)
	ret := func(v ...Val) ([]Outcome, bool) { return []Outcome{{s, v}}, true }
	switch full {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		e.lockOp(s, args[0], "lock", in)
		return ret()
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		e.lockOp(s, args[0], "unlock", in)
		return ret()
	case "(*sync.RWMutex).RLock":
		e.lockOp(s, args[0], "rlock", in)
		return ret()
	case "(*sync.RWMutex).RUnlock":
		e.lockOp(s, args[0], "runlock", in)
		return ret()
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		t := s.clone()
		e.lockOp(t, args[0], "trylock", in)
		s.ghostSet("busy.n", Add(s.ghostGet("busy.n", "Int"), Int(1)))
		return []Outcome{{t, []Val{True}}, {s, []Val{False}}}, true
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*time.Ticker).Stop":
		e.lockEvent(s, full, nil, in)
		return ret()
	case "sync/atomic.LoadUint32", "sync/atomic.LoadInt32", "sync/atomic.LoadUint64", "sync/atomic.LoadInt64":
		a, ok := args[0].(Addr)
		if !ok {
			a, ok = e.ptrAddr(args[0], fn.Signature.Params().At(0).Type())
		}
		if !ok {
			unsupported("atomic on %T", args[0])
		}
		v := s.load(a)
		s.assume(wfValue(v, a.ty, s.alloc))
		return ret(v)
	case "sync/atomic.StoreUint32", "sync/atomic.StoreInt32", "sync/atomic.StoreUint64", "sync/atomic.StoreInt64":
		a, ok := args[0].(Addr)
		if !ok {
			unsupported("atomic on %T", args[0])
		}
		v, _ := e.asTerm(args[1])
		s.store(a, v)
		return ret()
	case "sync/atomic.AddUint32", "sync/atomic.AddInt32", "sync/atomic.AddUint64", "sync/atomic.AddInt64":
		a, ok := args[0].(Addr)
		if !ok {
			unsupported("atomic on %T", args[0])
		}
		d, _ := e.asTerm(args[1])
		v := wrap(Add(s.load(a), d), a.ty.Underlying().(*types.Basic))
		s.store(a, v)
		return ret(v)
	}
	return nil, false
}

// lockKey identifies a mutex by heap name and owner.
func (e *Engine) lockAddr(v Val) (string, *Term, bool) {
	switch a := v.(type) {
	case Addr:
		if a.kind == aField && len(a.path) == 0 {
			return "LK" + strings.TrimPrefix(a.heap, "H"), a.ref, true
		}
		if a.kind == aGlobal {
			return "LK.global." + a.glob.Name(), Int(0), true
		}
	case *Term:
		return "LK.mutex", a, true
	}
	return "", nil, false
}

func (e *Engine) tracked(h string) bool {
	for _, g := range e.spec.guards {
		if g == h {
			return true
		}
	}
	for _, ns := range e.spec.nested {
		for _, n := range ns {
			if n.lock == h {
				return true
			}
		}
	}
	return false
}

const lockSort = "(Array Int Int)"

func (e *Engine) lockOp(s *State, m Val, op string, in ssa.Instruction) {
	if e.spec == nil || !e.spec.opts["locks"] {
		return
	}
	h, ref, ok := e.lockAddr(m)
	if !ok {
		unsupported("mutex value %T", m)
	}
	if !e.tracked(h) {
		return // a lock that protects nothing this property speaks about
	}
	cur := Select(s.heap(h, lockSort), ref)
	short := strings.TrimPrefix(h, "LK.")
	switch op {
	case "lock":
		e.check(s, "lock", "no re-lock of "+short, Eq(cur, Int(0)), in)
		s.write(h, lockSort, ref, Int(2))
	case "trylock":
		s.assume(Eq(cur, Int(0)))
		s.write(h, lockSort, ref, Int(2))
	case "rlock":
		e.check(s, "lock", "no re-lock of "+short, Eq(cur, Int(0)), in)
		s.write(h, lockSort, ref, Int(1))
	case "unlock":
		e.check(s, "lock", "unlock of held "+short, Eq(cur, Int(2)), in)
		s.write(h, lockSort, ref, Int(0))
	case "runlock":
		e.check(s, "lock", "runlock of held "+short, Eq(cur, Int(1)), in)
		s.write(h, lockSort, ref, Int(0))
	}
}

func (e *Engine) lockEvent(s *State, what string, f *Term, in ssa.Instruction) {}

// nestedGuard: objects of a type belong to the receiver of the method under verification and need its lock.
type nestedGuard struct {
	lock, base string
	write      bool // only writes need the lock
}

// lockCheck: accesses to guarded fields need the guarding lock.
func (e *Engine) lockCheck(s *State, a Addr, write bool, in ssa.Instruction) {
	if e.spec == nil || !e.spec.opts["locks"] {
		return
	}
	switch a.kind {
	case aField:
		if e.spec.atomics[a.heap] {
			e.check(s, "guard", "atomic access of "+strings.TrimPrefix(a.heap, "H."), Le(e.cur.A0, a.ref), in)
		}
		e.lockedHeap(s, a.heap, a.ref, write, in)
	case aElem:
		if write {
			e.lockedHeap(s, a.heap, a.ref, write, in)
		}
	}
}

// lockedHeap: an access to row ref of heap h (nil: any row).
func (e *Engine) lockedHeap(s *State, h string, ref *Term, write bool, in ssa.Instruction) {
	what := "read of "
	if write {
		what = "write of "
	}
	short := strings.TrimPrefix(h, "H.")
	fresh := False
	if ref != nil {
		fresh = Le(e.cur.A0, ref)
	}
	held := func(cur *Term) *Term {
		if write {
			return Eq(cur, Int(2))
		}
		return Le(Int(1), cur)
	}
	if g, ok := e.spec.guards[h]; ok {
		if ref == nil {
			e.check(s, "guard", what+short, False, in)
		} else {
			e.check(s, "guard", what+short, Or(fresh, held(Select(s.heap(g, lockSort), ref))), in)
		}
		return
	}
	base := strings.TrimPrefix(h, "E.")
	if strings.HasPrefix(h, "H.") {
		base = short[:strings.LastIndex(short, ".")]
	}
	for _, n := range e.spec.nested[strings.TrimPrefix(base, "_")] {
		if owner := e.ownerOf(n); owner != nil && (write || !n.write) {
			e.check(s, "guard", what+short, Or(fresh, held(Select(s.heap(n.lock, lockSort), owner))), in)
		}
	}
}

// ownerOf: the receiver of the function under verification, where it has the lock.
func (e *Engine) ownerOf(n nestedGuard) *Term {
	fn := e.cur.fn
	if fn == nil || fn.Signature.Recv() == nil || e.cur.recv == nil {
		return nil
	}
	if p, ok := types.Unalias(fn.Signature.Recv().Type()).Underlying().(*types.Pointer); ok && typeName(p.Elem()) == n.base {
		return e.cur.recv
	}
	return nil
}

// lockedCall: a call decided by its contract accesses what the contract says; methods that take the lock themselves are checked on their own.
func (e *Engine) lockedCall(s *State, ct *Contract, fn *ssa.Function, binds map[string]SVal, args []Val, in ssa.Instruction) {
	if e.spec == nil || !e.spec.opts["locks"] || fn == nil {
		return
	}
	own := func(ty types.Type) bool {
		p, ok := types.Unalias(ty).Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		n := typeName(p.Elem())
		for h := range e.spec.guards {
			if strings.HasPrefix(h, "H."+n+".") {
				return true
			}
		}
		return false
	}
	if r := fn.Signature.Recv(); r != nil && own(r.Type()) {
		return
	}
	for i, a := range args {
		t, ok := a.(*Term)
		if !ok || i >= len(fn.Params) {
			continue
		}
		p, ok := types.Unalias(fn.Params[i].Type()).Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		e.lockedHeap(s, "H."+typeName(p.Elem())+".*", t, false, in)
	}
	for _, tg := range ct.modifies {
		e.eachTarget(e.ctxFor(ct, s, s, binds), tg, func(h, hs string, ref *Term, ty types.Type) {
			e.lockedHeap(s, h, ref, true, in)
		})
	}
}

// ---- extern defaults ----------------------------------------------------------------------------

// packages whose functions are taken as pure, total functions of their (scalar) arguments
var purePkgs = map[string]bool{
	"math": true, "strings": true, "strconv": true, "unicode": true, "unicode/utf8": true,
	"github.com/icholy/utm": true, "github.com/lucasb-eyer/go-colorful": true, "time": true,
}

// functions whose results are unconstrained
var nondet = map[string]bool{
	"github.com/google/uuid.NewString": true, "time.Now": true, "github.com/lucasb-eyer/go-colorful.FastHappyColor": true,
	"math/rand.New": true, "math/rand.NewSource": true, "runtime.NumCPU": true, "context.WithCancel": true, "context.Background": true,
	"time.NewTicker": true, "(github.com/google/uuid.UUID).String": true, "(*math/rand.Rand).Intn": true, "(*math/rand.Rand).Float64": true,
	"(*math/rand.Rand).ExpFloat64": true, "github.com/google/uuid.New": true,
	"math/rand.Intn": true, "math/rand.Float64": true, "math/rand.Int": true, "fmt.Println": true, "fmt.Printf": true,
	"(*github.com/valyala/fastrand.RNG).Uint32n": true,
}

func (e *Engine) externDefault(s *State, fn *ssa.Function, full string, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	ret := func(v ...Val) ([]Outcome, bool) { return []Outcome{{s, v}}, true }
	var ts []*Term
	allT := true
	for _, a := range args {
		t, ok := e.asTerm(a)
		if !ok {
			allT = false
			continue
		}
		ts = append(ts, t)
	}
	switch full {
	case "math.Abs":
		return ret(Ite(Le(RealF(0), ts[0]), ts[0], Neg(ts[0])))
	case "math.Min":
		return ret(Ite(Le(ts[0], ts[1]), ts[0], ts[1]))
	case "math.Max":
		return ret(Ite(Le(ts[0], ts[1]), ts[1], ts[0]))
	case "math.Floor":
		return ret(mk("to_real", "", "Real", mk("to_int", "", "Int", ts[0])))
	case "math.Ceil":
		return ret(Neg(mk("to_real", "", "Real", mk("to_int", "", "Int", Neg(ts[0])))))
	case "math.Trunc":
		return ret(toReal(truncInt(ts[0])))
	case "errors.New", "fmt.Errorf":
		r := Fresh("err", "Iface")
		s.assume(Not(Eq(r, nilIface())))
		return ret(r)
	case "errors.Is", "errors.As", "errors.Unwrap":
		v := e.freshResults(s, fn.Signature)
		return ret(v...)
	case "(time.Duration).Seconds":
		if e.floatReal {
			return ret(fop("fdiv", toReal(ts[0]), RealF(1e9), true))
		}
		return ret(App("dur.Seconds", "Real", ts[0]))
	}
	if full == "math.IsNaN" || full == "math.IsInf" {
		e.externUsed[full+" is false (finite floats)"] = true
		return ret(False)
	}
	if full == "fmt.Sprintf" || full == "fmt.Sprint" {
		// one vararg: function of format and argument
		if allT && len(ts) == 2 && sLen(ts[1]).op == "int" {
			n := sLen(ts[1]).num.Num().Int64()
			as := []*Term{ts[0]}
			h, hs := elemHeap(types.NewInterfaceType(nil, nil))
			E := s.heap(h, hs)
			_ = E
			var eh string
			et := fn.Signature.Params().At(1).Type().Underlying().(*types.Slice).Elem()
			eh, hs = elemHeap(et)
			for i := int64(0); i < n; i++ {
				as = append(as, Select(Select(s.heap(eh, hs), sArr(ts[1])), sidx(sOff(ts[1]), Int(i))))
			}
			e.externUsed[full+": function of format and arguments"] = true
			return ret(App(fmt.Sprintf("fmt.Sprintf%d", n), "Str", as...))
		}
		return ret(Fresh("sprintf", "Str"))
	}
	if nondet[full] {
		e.externUsed[full+": unconstrained result, no effects"] = true
		v := e.freshResults(s, fn.Signature)
		e.nondetFacts(s, full, v, ts, in)
		return ret(v...)
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	if purePkgs[pk] && allT {
		sig := fn.Signature
		ok := true
		for i := 0; i < sig.Params().Len(); i++ {
			if hasRefs2(sig.Params().At(i).Type()) {
				ok = false
			}
		}
		if ok {
			e.externUsed[full+": pure, total, deterministic"] = true
			var res []Val
			for i := 0; i < sig.Results().Len(); i++ {
				rt := sig.Results().At(i).Type()
				if hasRefs2(rt) {
					r := Fresh("res", sortOf(rt))
					s.assume(wfValue(r, rt, s.alloc))
					res = append(res, r)
					continue
				}
				r := App(pureExternName(full, i, sig.Results().Len()), sortOf(rt), ts...)
				s.assume(wfValue(r, rt, s.alloc))
				res = append(res, r)
			}
			return ret(res...)
		}
	}
	return nil, false
}

func pureExternName(full string, i, n int) string {
	nm := strings.ReplaceAll(full, "github.com/", "")
	if n > 1 {
		nm += fmt.Sprintf("#%d", i)
	}
	return sanitize(nm)
}

// isPureExtern: a function without receiver of a package taken as pure.
func isPureExtern(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Signature.Recv() != nil || !purePkgs[fn.Pkg.Pkg.Path()] {
		return false
	}
	for _, tup := range []*types.Tuple{fn.Signature.Params(), fn.Signature.Results()} {
		for i := 0; i < tup.Len(); i++ {
			if hasRefs2(tup.At(i).Type()) {
				return false
			}
		}
	}
	return true
}

// hasRefs2: contains pointers/slices/maps (bounded ints do not count).
func hasRefs2(t types.Type) bool {
	t = types.Unalias(t)
	if isOpaque(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs2(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) nondetFacts(s *State, full string, v []Val, args []*Term, in ssa.Instruction) {
	t := func(i int) *Term { return v[i].(*Term) }
	switch full {
	case "(*math/rand.Rand).Intn", "math/rand.Intn":
		n := args[len(args)-1]
		e.check(s, "panic", "Intn argument positive", Lt(Int(0), n), in)
		s.assume(And(Le(Int(0), t(0)), Lt(t(0), n)))
	case "(*math/rand.Rand).Float64", "math/rand.Float64":
		s.assume(And(Le(RealF(0), t(0)), Lt(t(0), RealF(1))))
	case "(*math/rand.Rand).ExpFloat64":
		s.assume(Le(RealF(0), t(0)))
	case "(*github.com/valyala/fastrand.RNG).Uint32n":
		n := args[len(args)-1]
		s.assume(And(Le(Int(0), t(0)), Or(Lt(t(0), n), And(Eq(n, Int(0)), Eq(t(0), Int(0))))))
	case "runtime.NumCPU":
		s.assume(Le(Int(1), t(0)))
	case "github.com/google/uuid.NewString":
		s.assume(Eq(strLen(t(0)), Int(36)))
	case "math/rand.New", "math/rand.NewSource", "time.NewTicker":
		if t(0).sort == "Int" {
			s.assume(Lt(Int(0), t(0)))
		}
	}
}
