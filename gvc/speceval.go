package main

// Evaluation of specification expressions to SMT terms.

import (
	"fmt"
	"go/constant"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"math/big"
	"strconv"
	"strings"
)

type SVal struct {
	t  *Term
	ty types.Type
	// address-like values (mutex fields)
	heap string
	ref  *Term
}

type evalCtx struct {
	e     *Engine
	st    *State // current state
	old   *State
	pre   *State // loop entry state ($pre)
	k     *Term  // $k
	seen  *Term  // visited set of the enclosing map range
	binds map[string]SVal
	pkg   string
	pos   string
	depth int
}

func (c *evalCtx) fail(f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf("spec %s: %s", c.pos, fmt.Sprintf(f, a...))})
}

func (c *evalCtx) with(name string, v SVal) *evalCtx {
	n := *c
	n.binds = make(map[string]SVal, len(c.binds)+1)
	for k, x := range c.binds {
		n.binds[k] = x
	}
	n.binds[name] = v
	return &n
}

var tAny = types.NewInterfaceType(nil, nil)
var tInt = types.Typ[types.Int]
var tReal = types.Typ[types.Float64]
var tBool = types.Typ[types.Bool]
var tStr = types.Typ[types.String]
var tUntyped = types.Typ[types.UntypedInt]

func (e *Engine) resolveType(t *TypeX, pkg string) types.Type {
	switch t.op {
	case "ptr":
		return types.NewPointer(e.resolveType(t.a, pkg))
	case "slice":
		return types.NewSlice(e.resolveType(t.a, pkg))
	case "array":
		return types.NewArray(e.resolveType(t.a, pkg), t.n)
	case "map":
		return types.NewMap(e.resolveType(t.a, pkg), e.resolveType(t.b, pkg))
	case "func":
		return types.NewSignatureType(nil, nil, nil, nil, nil, false)
	}
	n := t.s
	if n == "any" {
		return tAny
	}
	if n == "ref" {
		return types.Typ[types.UnsafePointer]
	}
	if o := types.Universe.Lookup(n); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	p := pkg
	if i := strings.LastIndex(n, "."); i >= 0 {
		p, n = n[:i], n[i+1:]
	}
	tp := e.pkgByKey[p]
	if tp == nil {
		panic(specErr{fmt.Sprintf("unknown package %q in type %s", p, t.s)})
	}
	o := tp.Scope().Lookup(n)
	if o == nil {
		// a dependency with the same package name
		for _, q := range tp.Imports() {
			if q.Name() == tp.Name() && o == nil {
				o = q.Scope().Lookup(n)
			}
		}
	}
	if o == nil {
		panic(specErr{fmt.Sprintf("unknown type %s.%s", p, n)})
	}
	return o.Type()
}

func (c *evalCtx) bool(x *Expr) *Term {
	v := c.eval(x)
	if v.t == nil || v.t.sort != "Bool" {
		c.fail("boolean expected in %s", exprStr(x))
	}
	return v.t
}

func exprStr(x *Expr) string {
	if x == nil {
		return "?"
	}
	s := x.op + ":" + x.s
	for _, a := range x.args {
		s += "(" + exprStr(a) + ")"
	}
	return s
}

// coerce numerals to a sort
func (c *evalCtx) coerce(v SVal, srt string) SVal {
	if v.t.sort == srt {
		return v
	}
	if isUntyped(v) && v.t.sort == "Int" && srt == "Real" {
		f, _ := new(big.Float).SetInt(v.t.num.Num()).Float64()
		return SVal{t: RealF(f), ty: tReal}
	}
	return v
}

func isUntyped(v SVal) bool {
	b, ok := v.ty.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0 && v.t != nil && isLit(v.t)
}

func (c *evalCtx) unify(a, b SVal) (SVal, SVal) {
	// nil handling
	if a.ty == types.Typ[types.UntypedNil] && b.ty != types.Typ[types.UntypedNil] {
		b2, a2 := c.unify(b, a)
		return a2, b2
	}
	if b.ty == types.Typ[types.UntypedNil] {
		return a, SVal{t: zeroOf(a.ty), ty: a.ty}
	}
	if a.t.sort != b.t.sort {
		if isUntyped(a) {
			a = c.coerce(a, b.t.sort)
		} else if isUntyped(b) {
			b = c.coerce(b, a.t.sort)
		}
	}
	if a.t.sort != b.t.sort {
		c.fail("sort mismatch %s vs %s", a.t.sort, b.t.sort)
	}
	return a, b
}

func (c *evalCtx) fieldOf(v SVal, name string) SVal {
	ty := types.Unalias(v.ty)
	obj, path, _ := types.LookupFieldOrMethod(ty, true, c.pkgOf(ty), name)
	if obj == nil {
		c.fail("no field %s in %s", name, ty)
	}
	if _, ok := obj.(*types.Var); !ok {
		c.fail("%s is not a field of %s", name, ty)
	}
	for _, i := range path {
		v = c.fieldIdx(v, i)
	}
	return v
}

func (c *evalCtx) pkgOf(t types.Type) *types.Package {
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return c.e.pkgByKey[c.pkg]
}

func (c *evalCtx) fieldIdx(v SVal, i int) SVal {
	ty := types.Unalias(v.ty)
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		el := types.Unalias(p.Elem())
		st, _ := structOf(el)
		if st == nil {
			c.fail("field of %s", ty)
		}
		h, hs := fieldHeap(el, i)
		fty := st.Field(i).Type()
		heapTypes[h] = fty
		if isOpaque(fty) {
			return SVal{t: Select(c.st.heap(h, hs), v.t), ty: fty, heap: h, ref: v.t}
		}
		return SVal{t: Select(c.st.heap(h, hs), v.t), ty: fty, heap: h, ref: v.t}
	}
	st, _ := structOf(ty)
	if st == nil {
		c.fail("field of %s", ty)
	}
	return SVal{t: Sel(v.t, i), ty: st.Field(i).Type()}
}

func (c *evalCtx) index(v, i SVal) SVal {
	switch u := types.Unalias(v.ty).Underlying().(type) {
	case *types.Slice:
		h, hs := elemHeap(u.Elem())
		heapTypes[h] = u.Elem()
		return SVal{t: Select(Select(c.st.heap(h, hs), sArr(v.t)), sidx(sOff(v.t), i.t)), ty: u.Elem()}
	case *types.Array:
		return SVal{t: Select(v.t, i.t), ty: u.Elem()}
	case *types.Map:
		_, vn, _ := mapHeaps(u)
		heapTypes[vn[0]] = u.Elem()
		return SVal{t: Select(Select(c.st.heap(vn[0], vn[1]), v.t), i.t), ty: u.Elem()}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return SVal{t: App("strat", "Int", v.t, i.t), ty: tInt}
		}
	}
	c.fail("index of %s", v.ty)
	return SVal{}
}

func (c *evalCtx) id(name string) (SVal, bool) {
	if v, ok := c.binds[name]; ok {
		return v, true
	}
	switch name {
	case "true":
		return SVal{t: True, ty: tBool}, true
	case "false":
		return SVal{t: False, ty: tBool}, true
	case "nil":
		return SVal{t: Int(0), ty: types.Typ[types.UntypedNil]}, true
	case "$k":
		if c.k == nil {
			c.fail("$k outside loop invariant")
		}
		return SVal{t: c.k, ty: tInt}, true
	}
	return c.global(c.pkg, name)
}

func (c *evalCtx) global(pkg, name string) (SVal, bool) {
	p := c.e.pkgByKey[pkg]
	if p == nil {
		return SVal{}, false
	}
	switch o := p.Scope().Lookup(name).(type) {
	case *types.Const:
		b := o.Type().Underlying().(*types.Basic)
		switch {
		case b.Info()&types.IsString != 0:
			return SVal{t: StrLit(constant.StringVal(o.Val())), ty: tStr}, true
		case b.Info()&types.IsBoolean != 0:
			return SVal{t: Bool(constant.BoolVal(o.Val())), ty: tBool}, true
		case b.Info()&types.IsInteger != 0:
			n, _ := new(big.Int).SetString(constant.ToInt(o.Val()).ExactString(), 10)
			ty := o.Type()
			if b.Info()&types.IsUntyped != 0 {
				ty = tUntyped
			}
			return SVal{t: IntBig(n), ty: ty}, true
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(o.Val())
			return SVal{t: RealF(f), ty: tReal}, true
		}
	case *types.Var:
		for _, sp := range c.e.prog.AllPackages() {
			if sp.Pkg == p {
				if g := sp.Var(name); g != nil {
					return SVal{t: c.st.globalLoad(g), ty: o.Type()}, true
				}
			}
		}
	}
	return SVal{}, false
}

func (c *evalCtx) eval(x *Expr) SVal {
	c.depth++
	if c.depth > 400 {
		c.fail("expression too deep")
	}
	defer func() { c.depth-- }()
	switch x.op {
	case "paren":
		return c.eval(x.args[0])
	case "num":
		if strings.ContainsAny(x.s, ".e") {
			r, ok := new(big.Rat).SetString(x.s)
			if !ok {
				c.fail("number %s", x.s)
			}
			f, _ := r.Float64()
			return SVal{t: RealF(f), ty: types.Typ[types.UntypedFloat]}
		}
		n, _ := new(big.Int).SetString(x.s, 10)
		return SVal{t: IntBig(n), ty: tUntyped}
	case "str":
		return SVal{t: StrLit(x.s), ty: tStr}
	case "id":
		v, ok := c.id(x.s)
		if !ok {
			c.fail("unknown name %s", x.s)
		}
		return v
	case "sel":
		if x.args[0].op == "id" {
			if _, ok := c.binds[x.args[0].s]; !ok {
				if _, isPkg := c.e.pkgByKey[x.args[0].s]; isPkg {
					v, ok := c.global(x.args[0].s, x.s)
					if !ok {
						c.fail("unknown %s.%s", x.args[0].s, x.s)
					}
					return v
				}
			}
		}
		return c.fieldOf(c.eval(x.args[0]), x.s)
	case "index":
		return c.index(c.eval(x.args[0]), c.eval(x.args[1]))
	case "update":
		a := c.eval(x.args[0])
		i := c.eval(x.args[1])
		v := c.coerce(c.eval(x.args[2]), elemSortOf(a.t.sort))
		return SVal{t: Store(a.t, i.t, v.t), ty: a.ty}
	case "un":
		if x.s == "!" {
			return SVal{t: Not(c.bool(x.args[0])), ty: tBool}
		}
		v := c.eval(x.args[0])
		if x.s == "*" {
			p, ok := types.Unalias(v.ty).Underlying().(*types.Pointer)
			if !ok {
				c.fail("dereference of %s", v.ty)
			}
			if st, _ := structOf(p.Elem()); st != nil {
				return SVal{t: c.st.loadStruct(v.t, types.Unalias(p.Elem())), ty: p.Elem()}
			}
			h, hs := boxHeap(p.Elem())
			heapTypes[h] = p.Elem()
			return SVal{t: Select(c.st.heap(h, hs), v.t), ty: p.Elem()}
		}
		return SVal{t: Neg(v.t), ty: v.ty}
	case "cond":
		a, b := c.unify(c.eval(x.args[1]), c.eval(x.args[2]))
		return SVal{t: Ite(c.bool(x.args[0]), a.t, b.t), ty: a.ty}
	case "let":
		v := c.eval(x.args[0])
		return c.with(x.s, v).eval(x.args[1])
	case "forall", "exists":
		n := c
		var bs []*Term
		for _, v := range x.vars {
			ty := c.e.resolveType(v.ty, c.pkg)
			b := BVar(v.name, sortOf(ty))
			bs = append(bs, b)
			n = n.with(v.name, SVal{t: b, ty: ty})
		}
		body := n.bool(x.args[0])
		var pats [][]*Term
		for _, g := range x.trig {
			var p []*Term
			ok := true
			for _, q := range g {
				t := n.eval(q).t
				if t.op != "select" && t.op != "app" && t.op != "sel" {
					ok = false
				}
				p = append(p, t)
			}
			if ok && len(p) > 0 {
				pats = append(pats, p)
			}
		}
		return SVal{t: Quant(x.op, bs, body, pats...), ty: tBool}
	case "bin":
		return c.bin(x)
	case "call":
		return c.call(x)
	}
	c.fail("cannot evaluate %s", exprStr(x))
	return SVal{}
}

func (c *evalCtx) bin(x *Expr) SVal {
	switch x.s {
	case "&&":
		return SVal{t: And(c.bool(x.args[0]), c.bool(x.args[1])), ty: tBool}
	case "||":
		return SVal{t: Or(c.bool(x.args[0]), c.bool(x.args[1])), ty: tBool}
	case "==>":
		return SVal{t: Implies(c.bool(x.args[0]), c.bool(x.args[1])), ty: tBool}
	case "<==>":
		return SVal{t: Eq(c.bool(x.args[0]), c.bool(x.args[1])), ty: tBool}
	case "in":
		k := c.eval(x.args[0])
		m := c.eval(x.args[1])
		mt, ok := types.Unalias(m.ty).Underlying().(*types.Map)
		if !ok {
			c.fail("in on %s", m.ty)
		}
		dn, _, _ := mapHeaps(mt)
		return SVal{t: And(Not(Eq(m.t, Int(0))), Select(Select(c.st.heap(dn[0], dn[1]), m.t), k.t)), ty: tBool}
	}
	a, b := c.eval(x.args[0]), c.eval(x.args[1])
	isNil := func(v SVal) bool { return v.ty == types.Typ[types.UntypedNil] }
	if x.s == "==" || x.s == "!=" {
		var r *Term
		switch {
		case isNil(a) && isNil(b):
			r = True
		case isNil(b) && a.t.sort == sliceDT:
			r = Eq(sArr(a.t), Int(0))
		case isNil(a) && b.t.sort == sliceDT:
			r = Eq(sArr(b.t), Int(0))
		default:
			a, b = c.unify(a, b)
			r = c.e.eq(c.st, a.t, b.t)
		}
		if x.s == "!=" {
			r = Not(r)
		}
		return SVal{t: r, ty: tBool}
	}
	a, b = c.unify(a, b)
	switch x.s {
	case "<":
		return SVal{t: c.cmp(a, b, true), ty: tBool}
	case "<=":
		return SVal{t: c.cmp(a, b, false), ty: tBool}
	case ">":
		return SVal{t: c.cmp(b, a, true), ty: tBool}
	case ">=":
		return SVal{t: c.cmp(b, a, false), ty: tBool}
	}
	ty := a.ty
	if isUntyped(a) {
		ty = b.ty
	}
	if a.t.sort == "Real" {
		n := map[string]string{"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv"}[x.s]
		if n == "" {
			c.fail("real op %s", x.s)
		}
		return SVal{t: fop(n, a.t, b.t, c.e.floatReal), ty: tReal}
	}
	if a.t.sort == "Str" && x.s == "+" {
		return SVal{t: strcat(a.t, b.t), ty: tStr}
	}
	switch x.s {
	case "+":
		return SVal{t: Add(a.t, b.t), ty: ty}
	case "-":
		return SVal{t: Sub(a.t, b.t), ty: ty}
	case "*":
		return SVal{t: Mul(a.t, b.t), ty: ty}
	case "/":
		return SVal{t: quo(a.t, b.t), ty: ty}
	case "%":
		if b.t.op == "int" {
			return SVal{t: imod(a.t, b.t), ty: ty}
		}
		return SVal{t: Sub(a.t, Mul(b.t, quo(a.t, b.t))), ty: ty}
	}
	c.fail("operator %s", x.s)
	return SVal{}
}

func (c *evalCtx) cmp(a, b SVal, strict bool) *Term {
	if a.t.sort == "Str" {
		if strict {
			return App("strlt", "Bool", a.t, b.t)
		}
		return Not(App("strlt", "Bool", b.t, a.t))
	}
	if strict {
		return Lt(a.t, b.t)
	}
	return Le(a.t, b.t)
}

func (c *evalCtx) inState(s *State) *evalCtx {
	n := *c
	n.st = s
	return &n
}

func (c *evalCtx) call(x *Expr) SVal {
	f := x.args[0]
	as := x.args[1:]
	if f.op == "id" {
		switch f.s {
		case "old":
			if c.old == nil {
				c.fail("old not available")
			}
			return c.inState(c.old).eval(as[0])
		case "$pre":
			if c.pre == nil {
				c.fail("$pre outside loop invariant")
			}
			return c.inState(c.pre).eval(as[0])
		case "$seen":
			if c.seen == nil {
				c.fail("$seen outside a map range")
			}
			k := c.eval(as[0])
			if indexSortOf(c.seen.sort) != k.t.sort {
				c.fail("$seen key sort")
			}
			return SVal{t: Select(c.seen, k.t), ty: tBool}
		case "len":
			v := c.eval(as[0])
			switch u := types.Unalias(v.ty).Underlying().(type) {
			case *types.Slice:
				return SVal{t: sLen(v.t), ty: tInt}
			case *types.Basic:
				return SVal{t: strLen(v.t), ty: tInt}
			case *types.Array:
				return SVal{t: Int(u.Len()), ty: tInt}
			case *types.Map:
				_, _, ln := mapHeaps(u)
				return SVal{t: Ite(Eq(v.t, Int(0)), Int(0), Select(c.st.heap(ln[0], ln[1]), v.t)), ty: tInt}
			}
			c.fail("len of %s", v.ty)
		case "cap":
			return SVal{t: sCap(c.eval(as[0]).t), ty: tInt}
		case "arr":
			return SVal{t: sArr(c.eval(as[0]).t), ty: types.Typ[types.UnsafePointer]}
		case "off":
			return SVal{t: sOff(c.eval(as[0]).t), ty: tInt}
		case "ref":
			return SVal{t: c.eval(as[0]).t, ty: tInt}
		case "fresh":
			v := c.eval(as[0])
			r := v.t
			if r.sort == sliceDT {
				r = sArr(r)
			}
			return SVal{t: And(Le(c.old.alloc, r), Lt(r, c.st.alloc)), ty: tBool}
		case "alloc":
			// the value refers to memory allocated in the current state
			v := c.eval(as[0])
			r := v.t
			if r.sort == sliceDT {
				r = sArr(r)
			}
			return SVal{t: And(Le(Int(0), r), Lt(r, c.st.alloc)), ty: tBool}
		case "wf":
			v := c.eval(as[0])
			return SVal{t: wfValue(v.t, v.ty, c.st.alloc), ty: tBool}
		case "typeis":
			v := c.eval(as[0])
			return SVal{t: tagIs(v.t, c.e.resolveType(as[1].ty, c.pkg)), ty: tBool}
		case "unbox":
			v := c.eval(as[0])
			ty := c.e.resolveType(as[1].ty, c.pkg)
			return SVal{t: unboxT(v.t, ty), ty: ty}
		case "box":
			v := c.eval(as[0])
			ty := c.e.resolveType(as[1].ty, c.pkg)
			v = c.coerce(v, sortOf(ty))
			return SVal{t: c.e.box(c.st, v.t, ty), ty: tAny}
		case "zero":
			ty := c.e.resolveType(as[0].ty, c.pkg)
			return SVal{t: zeroOf(ty), ty: ty}
		case "ncalls":
			return SVal{t: c.st.ghostGet("call.n", "Int"), ty: tInt}
		case "nsent":
			return SVal{t: c.st.ghostGet("send.n", "Int"), ty: tInt}
		case "nrecv":
			return SVal{t: c.st.ghostGet("recv.n", "Int"), ty: tInt}
		case "count":
			// count(event, x)
			return SVal{t: Select(c.st.ghostGet("ev."+as[0].s, arrSort("Int", "Int")), c.eval(as[1]).t), ty: tInt}
		case "latest":
			// latest(event, x, i, T): the i-th value of the latest occurrence of the event for x
			ty := c.e.resolveType(as[3].ty, c.pkg)
			return SVal{t: Select(c.st.ghostGet("ev."+as[0].s+"#"+as[2].s, arrSort("Int", sortOf(ty))), c.eval(as[1]).t), ty: ty}
		case "nlog":
			// nlog(name): the length of a log
			return SVal{t: c.st.ghostGet("log_"+as[0].s+".n", "Int"), ty: tInt}
		case "logged":
			// logged(name, i, j, T): the j-th value of entry i
			ty := c.e.resolveType(as[3].ty, c.pkg)
			return SVal{t: Select(c.st.ghostGet("log_"+as[0].s+"."+as[2].s, arrSort("Int", sortOf(ty))), c.eval(as[1]).t), ty: ty}
		case "nrecvd":
			// nrecvd(T): how many values of type T were received
			ty := c.e.resolveType(as[0].ty, c.pkg)
			return SVal{t: c.st.ghostGet(recvGhost(ty)+".n", "Int"), ty: tInt}
		case "recvd":
			// recvd(i, T): the i-th received value of type T
			ty := c.e.resolveType(as[1].ty, c.pkg)
			return SVal{t: Select(c.st.ghostGet(recvGhost(ty)+".v", arrSort("Int", sortOf(ty))), c.eval(as[0]).t), ty: ty}
		case "row":
			// row(s): the contents of the array behind a slice, as a value; element i of s is row(s)[off(s) + i]
			v := c.eval(as[0])
			sl, ok := types.Unalias(v.ty).Underlying().(*types.Slice)
			if !ok {
				c.fail("row of %s", v.ty)
			}
			h, hs := elemHeap(sl.Elem())
			heapTypes[h] = sl.Elem()
			return SVal{t: Select(c.st.heap(h, hs), sArr(v.t)), ty: types.NewArray(sl.Elem(), 0)}
		case "at":
			// at(row(s), off(s), i)
			r := c.eval(as[0])
			return SVal{t: Select(r.t, sidx(c.eval(as[1]).t, c.eval(as[2]).t)), ty: types.Unalias(r.ty).Underlying().(*types.Array).Elem()}
		case "seconds":
			// seconds(d): d.Seconds() of a time.Duration
			d := c.eval(as[0]).t
			if c.e.floatReal {
				return SVal{t: fop("fdiv", toReal(d), RealF(1e9), true), ty: tReal}
			}
			return SVal{t: App("dur.Seconds", "Real", d), ty: tReal}
		case "nbusy":
			return SVal{t: c.st.ghostGet("busy.n", "Int"), ty: tInt}
		case "nclosed":
			return SVal{t: c.st.ghostGet("close.n", "Int"), ty: tInt}
		case "callfn":
			i := c.eval(as[0])
			return SVal{t: Select(c.st.ghostGet("call.fn", arrSort("Int", "Fn")), i.t), ty: types.NewSignatureType(nil, nil, nil, nil, nil, false)}
		case "callarg", "callres":
			// callarg(i, j, T)
			i := c.eval(as[0])
			ty := c.e.resolveType(as[2].ty, c.pkg)
			k := "a"
			if f.s == "callres" {
				k = "r"
			}
			srt := sortOf(ty)
			key := fmt.Sprintf("call.%s%s.%s", k, as[1].s, sanitize(srt))
			return SVal{t: Select(c.st.ghostGet(key, arrSort("Int", srt)), i.t), ty: ty}
		case "sentch":
			i := c.eval(as[0])
			return SVal{t: Select(c.st.ghostGet("send.ch", arrSort("Int", "Int")), i.t), ty: tInt}
		case "sent":
			i := c.eval(as[0])
			ty := c.e.resolveType(as[1].ty, c.pkg)
			srt := sortOf(ty)
			return SVal{t: Select(c.st.ghostGet("send.v."+sanitize(srt), arrSort("Int", srt)), i.t), ty: ty}
		case "lock":
			v := c.eval(as[0])
			if v.heap == "" {
				c.fail("lock() needs a field")
			}
			return SVal{t: Select(c.st.heap("LK"+strings.TrimPrefix(v.heap, "H"), lockSort), v.ref), ty: tInt}
		case "float64":
			v := c.eval(as[0])
			if v.t.sort == "Real" {
				return SVal{t: v.t, ty: tReal}
			}
			return SVal{t: toReal(v.t), ty: tReal}
		case "int", "int64":
			v := c.eval(as[0])
			if v.t.sort == "Int" {
				return SVal{t: v.t, ty: tInt}
			}
			return SVal{t: truncInt(v.t), ty: tInt}
		case "abs":
			v := c.eval(as[0])
			z := c.coerce(SVal{t: Int(0), ty: tUntyped}, v.t.sort)
			return SVal{t: Ite(Le(z.t, v.t), v.t, Neg(v.t)), ty: v.ty}
		case "min", "max":
			a, b := c.unify(c.eval(as[0]), c.eval(as[1]))
			r := Ite(Le(a.t, b.t), a.t, b.t)
			if f.s == "max" {
				r = Ite(Le(a.t, b.t), b.t, a.t)
			}
			return SVal{t: r, ty: a.ty}
		case "radd", "rsub", "rmul", "rdiv":
			// exact real arithmetic (mathematical), used to state envelopes
			a := c.coerce(c.eval(as[0]), "Real")
			b := c.coerce(c.eval(as[1]), "Real")
			return SVal{t: fop("f"+f.s[1:], a.t, b.t, true), ty: tReal}
		case "uf":
			// uf("name", T-of-first...) : internal function by name returning the sort of its declaration
			name := as[0].s
			var ts []*Term
			for _, a := range as[1:] {
				ts = append(ts, c.eval(a).t)
			}
			d := funDecls[name]
			if d == nil {
				c.fail("uf %s not declared", name)
			}
			return SVal{t: App(name, d.ret, ts...), ty: tAny}
		case "mark":
			return SVal{t: App("mark", "Bool", c.coerce(c.eval(as[0]), "Int").t), ty: tBool}
		case "res":
			// res(i, pkg.Fn(args)): result i of a pure function with several results
			call := as[1]
			fnm := ""
			if call.op == "call" {
				g := call.args[0]
				if g.op == "sel" && g.args[0].op == "id" {
					fnm = g.args[0].s + "." + g.s
				} else if g.op == "id" {
					fnm = c.pkg + "." + g.s
				}
			}
			fn, ct := c.e.fnByName[fnm], c.e.spec.contracts[fnm]
			if fn != nil && ct == nil && isPureExtern(fn) {
				i, _ := strconv.Atoi(as[0].s)
				return c.pureExternCall(fn, i, call.args[1:])
			}
			if fn == nil || ct == nil || !ct.pure {
				c.fail("res: %s is not a pure function (%v %v)", fnm, fn == nil, ct == nil)
			}
			i, _ := strconv.Atoi(as[0].s)
			n := fn.Signature.Results().Len()
			if i >= n {
				c.fail("res: %s has %d results", fnm, n)
			}
			var ts []*Term
			for k, a := range call.args[1:] {
				ts = append(ts, c.coerce(c.eval(a), sortOf(fn.Signature.Params().At(k).Type())).t)
			}
			rt := fn.Signature.Results().At(i).Type()
			return SVal{t: App(pureRes(fnm, i, n), sortOf(rt), ts...), ty: rt}
		case "heapeq", "allsame":
			// every field of every object of type T allocated at entry is unchanged
			ty := c.e.resolveType(as[0].ty, c.pkg)
			st, el := structOf(ty)
			if st == nil {
				c.fail("heapeq of %s", ty)
			}
			var cs []*Term
			r := BVar("r", "Int")
			for i := 0; i < st.NumFields(); i++ {
				h, hs := fieldHeap(el, i)
				heapTypes[h] = st.Field(i).Type()
				a, b := Select(c.st.heap(h, hs), r), Select(c.old.heap(h, hs), r)
				cs = append(cs, Eq(a, b))
			}
			return SVal{t: Forall([]*Term{r}, Implies(Lt(r, c.old.alloc), And(cs...))), ty: tBool}
		}
		if d, ok := c.e.spec.defs[f.s]; ok {
			return c.defCall(d, as)
		}
	}
	name := ""
	if f.op == "sel" && f.args[0].op == "id" {
		name = f.args[0].s + "." + f.s
	} else if f.op == "id" {
		name = c.pkg + "." + f.s
	}
	// real functions: math.*, and Go functions under a pure contract
	if strings.HasPrefix(name, "math.") {
		var ts []*Term
		for _, a := range as {
			ts = append(ts, c.coerce(c.eval(a), "Real").t)
		}
		if v, ok := mathFn(name, ts); ok {
			return SVal{t: v, ty: tReal}
		}
		return SVal{t: App(sanitize(name), "Real", ts...), ty: tReal}
	}
	if fn := c.e.fnByName[name]; fn != nil {
		if ct := c.e.spec.contracts[name]; ct != nil && ct.pure {
			var ts []*Term
			for i, a := range as {
				ts = append(ts, c.coerce(c.eval(a), sortOf(fn.Signature.Params().At(i).Type())).t)
			}
			if fn.Signature.Results().Len() == 1 {
				rt := fn.Signature.Results().At(0).Type()
				return SVal{t: App("pure."+sanitize(name), sortOf(rt), ts...), ty: rt}
			}
			c.fail("pure function %s has several results; use %s#i", name, name)
		}
	}
	if fn := c.e.fnByName[name]; fn != nil && isPureExtern(fn) && fn.Signature.Results().Len() == 1 {
		return c.pureExternCall(fn, 0, as)
	}
	c.fail("unknown function %s", exprStr(f))
	return SVal{}
}

// pureExternCall: result i of a function of a package taken as pure (see externDefault).
func (c *evalCtx) pureExternCall(fn *ssa.Function, i int, as []*Expr) SVal {
	ps, rs := fn.Signature.Params(), fn.Signature.Results()
	if i >= rs.Len() || len(as) != ps.Len() {
		c.fail("%s: wrong number of arguments or results", fn)
	}
	var ts []*Term
	for k, a := range as {
		ts = append(ts, c.coerce(c.eval(a), sortOf(ps.At(k).Type())).t)
	}
	rt := rs.At(i).Type()
	return SVal{t: App(pureExternName(fn.RelString(nil), i, rs.Len()), sortOf(rt), ts...), ty: rt}
}

// pureRes gives the UF name of result i of a pure function.
func pureRes(name string, i, n int) string {
	s := "pure." + sanitize(name)
	if n > 1 {
		s += fmt.Sprintf(".%d", i)
	}
	return s
}

func mathFn(name string, ts []*Term) (*Term, bool) {
	switch name {
	case "math.Abs":
		return Ite(Le(RealF(0), ts[0]), ts[0], Neg(ts[0])), true
	case "math.Min":
		return Ite(Le(ts[0], ts[1]), ts[0], ts[1]), true
	case "math.Max":
		return Ite(Le(ts[0], ts[1]), ts[1], ts[0]), true
	case "math.Floor":
		return mk("to_real", "", "Real", mk("to_int", "", "Int", ts[0])), true
	case "math.Ceil":
		return Neg(mk("to_real", "", "Real", mk("to_int", "", "Int", Neg(ts[0])))), true
	case "math.Trunc":
		return toReal(truncInt(ts[0])), true
	}
	return nil, false
}

func (c *evalCtx) defCall(d *Def, as []*Expr) SVal {
	if len(as) != len(d.params) {
		c.fail("%s expects %d arguments", d.name, len(d.params))
	}
	pkg := d.pkg
	if pkg == "" {
		pkg = c.pkg
	}
	ret := c.e.resolveType(d.ret, pkg)
	var vs []SVal
	for i, a := range as {
		ty := c.e.resolveType(d.params[i].ty, pkg)
		v := c.eval(a)
		if v.ty == types.Typ[types.UntypedNil] {
			v = SVal{t: zeroOf(ty), ty: ty}
		}
		v = c.coerce(v, sortOf(ty))
		if v.t.sort != sortOf(ty) {
			c.fail("%s argument %d: sort %s, want %s", d.name, i+1, v.t.sort, sortOf(ty))
		}
		v.ty = ty
		vs = append(vs, v)
	}
	switch d.kind {
	case "def":
		n := *c
		n.pkg = pkg
		n.binds = map[string]SVal{}
		for i, p := range d.params {
			n.binds[p.name] = vs[i]
		}
		v := n.eval(d.body)
		v = n.coerce(v, sortOf(ret))
		return SVal{t: v.t, ty: ret}
	case "uf":
		var ts []*Term
		for _, v := range vs {
			ts = append(ts, v.t)
		}
		return SVal{t: App("uf."+d.name, sortOf(ret), ts...), ty: ret}
	case "sum", "rec":
		r := c.e.recOf(d, pkg)
		var ts []*Term
		for _, h := range r.heaps {
			ts = append(ts, c.st.heap(h, heapSorts[h]))
		}
		for _, v := range vs {
			ts = append(ts, v.t)
		}
		return SVal{t: App(r.name, r.ret, ts...), ty: ret}
	}
	c.fail("def kind %s", d.kind)
	return SVal{}
}

func (e *Engine) recOf(d *Def, pkg string) *Rec {
	name := d.kind + "." + d.name
	if r, ok := recs[name]; ok {
		return r
	}
	if e.recBusy[name] {
		panic(specErr{"mutually recursive definition " + d.name})
	}
	if e.recBusy == nil {
		e.recBusy = map[string]bool{}
	}
	e.recBusy[name] = true
	outer := e.spec.defs["self"]
	defer func() {
		delete(e.recBusy, name)
		if outer != nil {
			e.spec.defs["self"] = outer
		}
	}()
	ret := e.resolveType(d.ret, pkg)
	r := &Rec{name: name, ret: sortOf(ret), isSum: d.kind == "sum"}
	binds := map[string]SVal{}
	for _, p := range d.params {
		ty := e.resolveType(p.ty, pkg)
		b := BVar(p.name, sortOf(ty))
		r.params = append(r.params, b)
		binds[p.name] = SVal{t: b, ty: ty}
	}
	sh, ss, sa := e.recHeaps, e.recSubst, e.recAbstract
	e.recHeaps, e.recSubst, e.recAbstract = map[string]string{}, map[string]*Term{}, true
	st := &State{eng: e, heaps: map[string]*Term{}, epoch: "rec", ghost: map[string]*Term{}, locals: map[int]*Term{}, alloc: Int(1)}
	c := &evalCtx{e: e, st: st, old: st, binds: binds, pkg: pkg, pos: "rec " + d.name}
	var body *Term
	if d.kind == "sum" {
		idx := BVar(d.idx, "Int")
		r.idx = idx
		c = c.with(d.idx, SVal{t: idx, ty: tInt})
		v := c.coerce(c.eval(d.body), r.ret)
		r.sumOf = v.t
	} else {
		// the recursive call is written self(args...) and handled below
		c.binds = binds
		e.spec.defs["self"] = &Def{name: "self." + d.name, kind: "uf", params: d.params, ret: d.ret, pkg: pkg}
		body = c.coerce(c.eval(d.body), r.ret).t
		delete(e.spec.defs, "self")
	}
	var hn []string
	for h := range e.recHeaps {
		hn = append(hn, h)
	}
	hn = sortedKeys(e.recHeaps)
	for _, h := range hn {
		heapSorts[h] = e.recHeaps[h]
		r.heaps = append(r.heaps, h)
		r.hvars = append(r.hvars, e.recSubst[h])
	}
	e.recHeaps, e.recSubst, e.recAbstract = sh, ss, sa
	k := r.params[len(r.params)-1]
	if d.kind == "sum" {
		var args []*Term
		args = append(args, r.hvars...)
		args = append(args, r.params[:len(r.params)-1]...)
		args = append(args, Sub(k, Int(1)))
		prev := App(name, r.ret, args...)
		last := Subst(r.sumOf, map[int]*Term{r.idx.id: Sub(k, Int(1))})
		var step, zero *Term
		if r.ret == "Real" {
			step, zero = fop("fadd", prev, last, e.floatReal), RealF(0)
		} else {
			step, zero = Add(prev, last), Int(0)
		}
		r.def = Ite(Le(k, Int(0)), zero, step)
	} else {
		// replace uf.self(args) by rec(heaps, args)
		m := map[int]*Term{}
		var find func(t *Term)
		seen := map[int]bool{}
		find = func(t *Term) {
			if seen[t.id] {
				return
			}
			seen[t.id] = true
			for _, a := range t.args {
				find(a)
			}
			if t.op == "app" && t.name == "uf.self."+d.name {
				args := append([]*Term{}, r.hvars...)
				args = append(args, t.args...)
				m[t.id] = App(name, r.ret, args...)
			}
		}
		find(body)
		r.def = Subst(body, m)
	}
	recs[name] = r
	return r
}
