package main

// SMT terms: hash-consed DAG with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Term struct {
	id    int
	op    string // "int","real","const","app:<f>","and",...,"forall","exists"
	name  string // for const/app/lit
	args  []*Term
	sort  string
	bound []*Term // quantifier variables (op=="const" with bvar flag)
	pats  [][]*Term
	num   *big.Rat // literals
	hasBV bool     // contains a bound variable (not closed)
}

var (
	termTab  = map[string]*Term{}
	termSeq  = 0
	symSeq   = 0
	symSort  = map[string]string{}   // declared constants
	funDecls = map[string]*FunDecl{} // declared functions
)

type FunDecl struct {
	name string
	args []string
	ret  string
}

func resetTerms() {}

func mk(op, name, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	if op == "constarr" || op == "const" || op == "int" || op == "real" {
		sb.WriteString(srt)
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	key := sb.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: op, name: name, args: args, sort: srt}
	for _, a := range args {
		if a.hasBV {
			t.hasBV = true
		}
	}
	termTab[key] = t
	return t
}

func Int(n int64) *Term { return IntBig(big.NewInt(n)) }
func IntBig(n *big.Int) *Term {
	t := mk("int", n.String(), "Int")
	t.num = new(big.Rat).SetInt(n)
	return t
}
func RealRat(r *big.Rat) *Term {
	t := mk("real", r.RatString(), "Real")
	t.num = r
	return t
}
func RealF(f float64) *Term {
	r := new(big.Rat)
	r.SetFloat64(f)
	return RealRat(r)
}

var True = mk("true", "", "Bool")
var False = mk("false", "", "Bool")

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

// Sym declares (or fetches) a named constant.
func Sym(name, srt string) *Term {
	if s, ok := symSort[name]; ok && s != srt {
		name = name + "_" + sanitize(srt)
	}
	symSort[name] = srt
	return mk("const", name, srt)
}

// Fresh creates a fresh constant.
func Fresh(hint, srt string) *Term {
	symSeq++
	return Sym(fmt.Sprintf("%s!%d", sanitize(hint), symSeq), srt)
}

func BVar(hint, srt string) *Term {
	symSeq++
	name := fmt.Sprintf("%s?%d", sanitize(hint), symSeq)
	t := mk("const", name, srt)
	t.hasBV = true
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$', r == '!', r == '?', r == '@':
			sb.WriteRune(r)
		default:
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func DeclFun(name string, args []string, ret string) *FunDecl {
	if d, ok := funDecls[name]; ok {
		return d
	}
	d := &FunDecl{name, args, ret}
	funDecls[name] = d
	return d
}

// App applies a declared uninterpreted function.
func App(name, ret string, args ...*Term) *Term {
	srts := make([]string, len(args))
	for i, a := range args {
		srts[i] = a.sort
	}
	if len(args) == 0 {
		return Sym(name, ret)
	}
	if d, ok := funDecls[name]; ok {
		same := d.ret == ret && len(d.args) == len(args)
		if same {
			for i := range args {
				if d.args[i] != srts[i] {
					same = false
				}
			}
		}
		if !same {
			name = name + "_" + sanitize(strings.Join(srts, "_")+"_"+ret)
		}
	}
	DeclFun(name, srts, ret)
	return mk("app", name, ret, args...)
}

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	}
	return mk("not", "", "Bool", a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", "Bool", out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		ys := []*Term{x}
		if x.op == "or" {
			ys = x.args
		}
		for _, t := range ys {
			if t.op == "true" {
				return True
			}
			if t.op == "false" || seen[t.id] {
				continue
			}
			if seen[Not(t).id] {
				return True
			}
			seen[t.id] = true
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "", "Bool", out...)
}

func Implies(a, b *Term) *Term {
	if a.op == "true" {
		return b
	}
	if a.op == "false" || b.op == "true" {
		return True
	}
	if a == b {
		return True
	}
	if b.op == "false" {
		return Not(a)
	}
	return mk("=>", "", "Bool", a, b)
}

func Ite(c, a, b *Term) *Term {
	if c.op == "true" {
		return a
	}
	if c.op == "false" {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == "Bool" {
		if a.op == "true" && b.op == "false" {
			return c
		}
		if a.op == "false" && b.op == "true" {
			return Not(c)
		}
	}
	return mk("ite", "", a.sort, c, a, b)
}

func isLit(t *Term) bool { return t.op == "int" || t.op == "real" }

// ctorEq decides equality of two terms syntactically if possible.
func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if isLit(a) && isLit(b) {
		return Bool(a.num.Cmp(b.num) == 0)
	}
	if a.sort == "Bool" {
		if a.op == "true" {
			return b
		}
		if b.op == "true" {
			return a
		}
		if a.op == "false" {
			return Not(b)
		}
		if b.op == "false" {
			return Not(a)
		}
	}
	if a.op == "ctor" && b.op == "ctor" && a.name == b.name {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.sort == "Int" {
		if d := linDiffConst(a, b); d != nil {
			return Bool(d.Sign() == 0)
		}
	}
	if a.op == "strlit" && b.op == "strlit" {
		return Bool(a.name == b.name)
	}
	if a.op == "ite" && isLit(b) && isLit(a.args[1]) && isLit(a.args[2]) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" && isLit(a) && isLit(b.args[1]) && isLit(b.args[2]) {
		return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", "Bool", a, b)
}

// ---- linear normal form for Int -------------------------------------------------

type lin struct {
	c  *big.Rat
	ts map[int]*big.Rat
	tm map[int]*Term
}

func linOf(t *Term) *lin {
	l := &lin{c: new(big.Rat), ts: map[int]*big.Rat{}, tm: map[int]*Term{}}
	l.add(t, big.NewRat(1, 1))
	return l
}

func (l *lin) add(t *Term, k *big.Rat) {
	switch t.op {
	case "int", "real":
		l.c.Add(l.c, new(big.Rat).Mul(t.num, k))
		return
	case "+":
		for _, a := range t.args {
			l.add(a, k)
		}
		return
	case "*":
		if len(t.args) == 2 && isLit(t.args[0]) {
			l.add(t.args[1], new(big.Rat).Mul(k, t.args[0].num))
			return
		}
	}
	if c, ok := l.ts[t.id]; ok {
		c.Add(c, k)
	} else {
		l.ts[t.id] = new(big.Rat).Set(k)
		l.tm[t.id] = t
	}
}

func (l *lin) term(srt string) *Term {
	lit := func(r *big.Rat) *Term {
		if srt == "Int" {
			return IntBig(new(big.Int).Set(r.Num()))
		}
		return RealRat(new(big.Rat).Set(r))
	}
	ids := make([]int, 0, len(l.ts))
	for id, c := range l.ts {
		if c.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var args []*Term
	one := big.NewRat(1, 1)
	for _, id := range ids {
		c := l.ts[id]
		if c.Cmp(one) == 0 {
			args = append(args, l.tm[id])
		} else {
			args = append(args, mk("*", "", srt, lit(c), l.tm[id]))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, lit(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", "", srt, args...)
}

func linDiffConst(a, b *Term) *big.Rat {
	l := linOf(a)
	l.add(b, big.NewRat(-1, 1))
	for _, c := range l.ts {
		if c.Sign() != 0 {
			return nil
		}
	}
	return l.c
}

func Add(xs ...*Term) *Term {
	l := &lin{c: new(big.Rat), ts: map[int]*big.Rat{}, tm: map[int]*Term{}}
	for _, x := range xs {
		l.add(x, big.NewRat(1, 1))
	}
	return l.term(xs[0].sort)
}
func Sub(a, b *Term) *Term {
	l := linOf(a)
	l.add(b, big.NewRat(-1, 1))
	return l.term(a.sort)
}
func Neg(a *Term) *Term {
	l := &lin{c: new(big.Rat), ts: map[int]*big.Rat{}, tm: map[int]*Term{}}
	l.add(a, big.NewRat(-1, 1))
	return l.term(a.sort)
}
func Mul(a, b *Term) *Term {
	if isLit(a) {
		l := &lin{c: new(big.Rat), ts: map[int]*big.Rat{}, tm: map[int]*Term{}}
		l.add(b, a.num)
		return l.term(a.sort)
	}
	if isLit(b) {
		return Mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", "", a.sort, a, b)
}

func Le(a, b *Term) *Term {
	if isLit(a) && isLit(b) {
		return Bool(a.num.Cmp(b.num) <= 0)
	}
	if a.sort == "Int" {
		if d := linDiffConst(a, b); d != nil {
			return Bool(d.Sign() <= 0)
		}
	}
	return mk("<=", "", "Bool", a, b)
}
func Lt(a, b *Term) *Term {
	if isLit(a) && isLit(b) {
		return Bool(a.num.Cmp(b.num) < 0)
	}
	if a.sort == "Int" {
		if d := linDiffConst(a, b); d != nil {
			return Bool(d.Sign() < 0)
		}
	}
	return Not(Le(b, a))
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---- arrays -----------------------------------------------------------------------

func arrSort(i, e string) string { return "(Array " + i + " " + e + ")" }

func elemSortOf(arr string) string {
	// "(Array I E)"; I is a simple sort or parenthesised
	s := strings.TrimPrefix(arr, "(Array ")
	s = s[:len(s)-1]
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return s[i+1:]
			}
		}
	}
	panic("elemSortOf " + arr)
}

func provablyDistinct(a, b *Term) bool {
	if a.sort == "Int" {
		if d := linDiffConst(a, b); d != nil {
			return d.Sign() != 0
		}
	}
	if a.op == "strlit" && b.op == "strlit" {
		return a.name != b.name
	}
	return false
}

func Select(a, i *Term) *Term {
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if provablyDistinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	return mk("select", "", elemSortOf(a.sort), a, i)
}

func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if elemSortOf(a.sort) != v.sort {
		panic(fmt.Sprintf("Store sort mismatch %s <- %s", a.sort, v.sort))
	}
	return mk("store", "", a.sort, a, i, v)
}

func ConstArr(srt string, v *Term) *Term { return mk("constarr", "", srt, v) }

// ---- datatypes --------------------------------------------------------------------

type DT struct {
	name   string
	fields []string
	sorts  []string
}

var dts = map[string]*DT{}
var dtOrder []string

func declDT(name string, fields, sorts []string) *DT {
	if d, ok := dts[name]; ok {
		return d
	}
	d := &DT{name, fields, sorts}
	dts[name] = d
	dtOrder = append(dtOrder, name)
	return d
}

func Ctor(dt string, args ...*Term) *Term {
	d := dts[dt]
	if len(args) != len(d.fields) {
		panic("ctor arity " + dt)
	}
	for i := range args {
		if args[i].sort != d.sorts[i] {
			panic(fmt.Sprintf("ctor %s field %s: %s vs %s", dt, d.fields[i], args[i].sort, d.sorts[i]))
		}
	}
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && args[0].op == "sel" {
		x := args[0].args[0]
		ok := x.sort == dt
		for i, a := range args {
			if a.op != "sel" || a.args[0] != x || a.name != dt+"."+d.fields[i] {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return mk("ctor", dt, dt, args...)
}

func Sel(x *Term, i int) *Term {
	d := dts[x.sort]
	if d == nil {
		panic("Sel on non-datatype " + x.sort)
	}
	if x.op == "ctor" {
		return x.args[i]
	}
	if x.op == "ite" && (x.args[1].op == "ctor" || x.args[2].op == "ctor") {
		return Ite(x.args[0], Sel(x.args[1], i), Sel(x.args[2], i))
	}
	return mk("sel", x.sort+"."+d.fields[i], d.sorts[i], x)
}

func Upd(x *Term, i int, v *Term) *Term {
	d := dts[x.sort]
	args := make([]*Term, len(d.fields))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = Sel(x, j)
		}
	}
	return Ctor(x.sort, args...)
}

// ---- strings ------------------------------------------------------------------------

var strLits = map[string]*Term{}

func StrLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	t := mk("strlit", s, "Str")
	strLits[s] = t
	return t
}

// ---- quantifiers ---------------------------------------------------------------------

func Quant(op string, bound []*Term, body *Term, pats ...[]*Term) *Term {
	if body.op == "true" || body.op == "false" {
		return body
	}
	used := map[int]bool{}
	collectBV(body, used, map[int]bool{})
	var bs []*Term
	for _, b := range bound {
		if used[b.id] {
			bs = append(bs, b)
		}
	}
	if len(bs) == 0 {
		return body
	}
	var sb strings.Builder
	for _, b := range bs {
		sb.WriteString(b.name)
		sb.WriteByte(' ')
	}
	for _, p := range pats {
		sb.WriteByte(';')
		for _, q := range p {
			fmt.Fprintf(&sb, "%d,", q.id)
		}
	}
	t := mk(op, sb.String(), "Bool", body)
	t.bound = bs
	t.pats = pats
	// closedness: check for other free bound vars
	inner := map[int]bool{}
	for _, b := range bs {
		inner[b.id] = true
	}
	t.hasBV = false
	for id := range used {
		if !inner[id] {
			t.hasBV = true
		}
	}
	return t
}

func Forall(bound []*Term, body *Term, pats ...[]*Term) *Term {
	return Quant("forall", bound, body, pats...)
}
func Exists(bound []*Term, body *Term, pats ...[]*Term) *Term {
	return Quant("exists", bound, body, pats...)
}

func collectBV(t *Term, out map[int]bool, seen map[int]bool) {
	if !t.hasBV || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == "const" {
		out[t.id] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		in := map[int]bool{}
		collectBV(t.args[0], in, map[int]bool{})
		for _, b := range t.bound {
			delete(in, b.id)
		}
		for id := range in {
			out[id] = true
		}
		return
	}
	for _, a := range t.args {
		collectBV(a, out, seen)
	}
}

// Subst replaces terms by id.
func Subst(t *Term, m map[int]*Term) *Term {
	return subst(t, m, map[int]*Term{})
}

func subst(t *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t.id]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args, m, memo)
	}
	memo[t.id] = r
	return r
}

func rebuild(t *Term, args []*Term, m, memo map[int]*Term) *Term {
	switch t.op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "+":
		return Add(args...)
	case "*":
		return Mul(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "ctor":
		return Ctor(t.name, args...)
	case "sel":
		d := dts[args[0].sort]
		for i, f := range d.fields {
			if t.name == args[0].sort+"."+f {
				return Sel(args[0], i)
			}
		}
		panic("rebuild sel")
	case "forall", "exists":
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, subst(x, m, memo))
			}
			pats = append(pats, q)
		}
		return Quant(t.op, t.bound, args[0], pats...)
	case "app":
		return App(t.name, t.sort, args...)
	}
	return mk(t.op, t.name, t.sort, args...)
}

// mentions reports whether t contains a constant symbol satisfying p.
func mentions(t *Term, p func(*Term) bool) bool {
	seen := map[int]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if seen[x.id] {
			return false
		}
		seen[x.id] = true
		if x.op == "const" && p(x) {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ---- printing ------------------------------------------------------------------------

func smtName(s string) string {
	ok := true
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.$!?@", r)) {
			ok = false
		}
	}
	if ok && len(s) > 0 && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.ReplaceAll(s, "|", "_") + "|"
}

func numStr(t *Term) string {
	neg := t.num.Sign() < 0
	r := new(big.Rat).Abs(t.num)
	var s string
	if t.sort == "Int" {
		s = r.Num().String()
	} else if r.IsInt() {
		s = r.Num().String() + ".0"
	} else {
		s = "(/ " + r.Num().String() + ".0 " + r.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

func (t *Term) String() string {
	var sb strings.Builder
	printTerm(&sb, t, nil, 0)
	s := sb.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func strLitName(s string) string {
	return fmt.Sprintf("|str:%s|", strings.ReplaceAll(strings.ReplaceAll(s, "|", "!"), "\\", "/")+fmt.Sprintf("#%d", strLits[s].id))
}

func printTerm(sb *strings.Builder, t *Term, named map[int]string, depth int) {
	if named != nil {
		if n, ok := named[t.id]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.op {
	case "int", "real":
		sb.WriteString(numStr(t))
		return
	case "true", "false":
		sb.WriteString(t.op)
		return
	case "const":
		sb.WriteString(smtName(t.name))
		return
	case "strlit":
		sb.WriteString(strLitName(t.name))
		return
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bound {
			fmt.Fprintf(sb, "(%s %s)", smtName(b.name), b.sort)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		printTerm(sb, t.args[0], named, depth+1)
		for _, p := range t.pats {
			sb.WriteString(" :pattern (")
			for i, q := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				printTerm(sb, q, named, depth+1)
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	case "constarr":
		fmt.Fprintf(sb, "((as const %s) ", t.sort)
		printTerm(sb, t.args[0], named, depth+1)
		sb.WriteString(")")
		return
	case "ctor":
		if len(t.args) == 0 {
			sb.WriteString(smtName("mk." + t.name))
			return
		}
		sb.WriteString("(" + smtName("mk."+t.name))
	case "sel":
		sb.WriteString("(" + smtName(t.name))
	case "app":
		sb.WriteString("(" + smtName(t.name))
	default:
		sb.WriteString("(" + t.op)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		printTerm(sb, a, named, depth+1)
	}
	sb.WriteByte(')')
}
