package main

// Specification language: lexer, parser, AST.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode"
)

type tok struct {
	kind  string // id, num, str, op, eof
	s     string
	line  int
	first bool // first token of its line
}

type Expr struct {
	op   string // lit ops: num,str,id,call,sel,index,un,bin,cond,let,forall,exists,old,typeis,unbox
	s    string
	args []*Expr
	ty   *TypeX
	vars []VarX
	trig [][]*Expr
	line int
}

type TypeX struct {
	op   string // name, ptr, slice, array, map, chan, func
	s    string
	a, b *TypeX
	n    int64
}

type VarX struct {
	name string
	ty   *TypeX
}

type Clause struct {
	label string
	e     *Expr
	vars  []VarX
	src   string
	file  string
	line  int
	pkg   string
}

type Target struct {
	kind string // field, star, elems, map, all, allelems, deref, any
	e    *Expr
	s    string
	ty   *TypeX
}

// Event: a call of the contract's function counts one occurrence for an object.
type Event struct {
	name string
	e    *Expr
	vals []*Expr
	idx  string // with idx: one occurrence for each value of e with 0 <= idx < lim
	lim  *Expr
	log  bool // log name = v1, v2: append the values to the log name
}

// A channel rule speaks about the values of one type sent over channels.
type chanRule struct {
	count string // chancount: the event counted for received values that satisfy e
	typ   string
	v     string
	e     *Expr
	pkg   string
	src   string
}

type Contract struct {
	name                   string
	params                 []string
	results                []string
	requires               []Clause
	ensures                []Clause
	invs                   []Clause
	modifies               []Target
	anyMod                 bool
	pure                   bool
	helper                 bool
	extern                 bool
	strict                 bool
	noframe                bool
	trusted                bool
	nopanic                bool
	inlineOf               []string
	pkg                    string
	file                   string
	line                   int
	replay                 string
	dropped                bool
	looseframes, slowloops bool
	uses                   map[*Contract]bool // helper contracts relied on
	ghostOnly              []string
	nosafety               bool // executions that panic are excluded from this contract
	local                  bool // checked but not used at call sites (bodies are inlined)
	ghosts                 bool // call trace may grow
	events                 []Event
	diverges               bool
	mutators               bool // callbacks may change every field of the structs they are given // loops need not terminate
	decs                   []Clause
	bounded                bool
}

type Def struct {
	name   string
	params []VarX
	ret    *TypeX
	body   *Expr
	kind   string // def, sum, uf, rec
	idx    string
	pkg    string
}

type Spec struct {
	chans     []chanRule
	contracts map[string]*Contract
	order     []*Contract
	externs   map[string]*Contract
	defs      map[string]*Def
	axioms    []Clause
	opts      map[string]bool
	guards    map[string]string
	nested    map[string][]nestedGuard // type name -> the lock of the object that owns it
	atomics   map[string]bool          // fields only ever accessed atomically
	files     []string
	lemmas    []Clause
	notes     []string
	proofs    []string // Lean files with the proofs of the axioms
}

type parser struct {
	toks []tok
	p    int
	file string
	spec *Spec
	pkg  string
}

type specErr struct{ msg string }

func lex(src string) []tok {
	var out []tok
	line := 1
	first := true
	i := 0
	rs := []rune(src)
	emit := func(k, s string) {
		out = append(out, tok{k, s, line, first})
		first = false
	}
	ops := []string{"<==>", "==>", "::", ":=", "&&", "||", "==", "!=", "<=", ">=", "..."}
	for i < len(rs) {
		c := rs[i]
		switch {
		case c == '\n':
			line++
			first = true
			i++
		case unicode.IsSpace(c):
			i++
		case c == '#' || c == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			emit("id", string(rs[i:j]))
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && (unicode.IsDigit(rs[j]) || rs[j] == '.' && j+1 < len(rs) && unicode.IsDigit(rs[j+1]) || rs[j] == 'e' && j+1 < len(rs) && (unicode.IsDigit(rs[j+1]) || rs[j+1] == '-')) {
				if rs[j] == 'e' {
					j++
				}
				j++
			}
			emit("num", string(rs[i:j]))
			i = j
		case c == '"':
			j := i + 1
			var sb strings.Builder
			for j < len(rs) && rs[j] != '"' {
				if rs[j] == '\\' {
					j++
				}
				sb.WriteRune(rs[j])
				j++
			}
			emit("str", sb.String())
			i = j + 1
		default:
			matched := false
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:min(i+4, len(rs))]), o) {
					emit("op", o)
					i += len(o)
					matched = true
					break
				}
			}
			if !matched {
				emit("op", string(c))
				i++
			}
		}
	}
	out = append(out, tok{"eof", "", line, true})
	return out
}

var clauseKw = map[string]bool{"package": true, "include": true, "contract": true, "helper": true, "def": true, "sum": true, "uf": true, "rec": true, "extern": true,
	"axiom": true, "option": true, "requires": true, "ensures": true, "modifies": true, "inv": true, "pure": true, "noframe": true, "guard": true, "nested": true, "atomic": true, "lemma": true, "proof": true,
	"trusted": true, "replay": true, "note": true, "local": true, "ghosts": true, "dec": true, "diverges": true, "mutators": true, "event": true, "log": true, "nosafety": true, "slowloops": true, "looseframes": true, "events": true, "chaninv": true, "chancount": true}

func loadSpec(file string) (sp *Spec, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", se.msg)
				return
			}
			panic(r)
		}
	}()
	sp = &Spec{contracts: map[string]*Contract{}, externs: map[string]*Contract{}, defs: map[string]*Def{}, opts: map[string]bool{}, guards: map[string]string{}, nested: map[string][]nestedGuard{}, atomics: map[string]bool{}}
	parseFile(file, sp, map[string]bool{})
	return sp, nil
}

func parseFile(file string, sp *Spec, seen map[string]bool) {
	if seen[file] {
		return
	}
	seen[file] = true
	b, err := os.ReadFile(file)
	if err != nil {
		panic(specErr{err.Error()})
	}
	sp.files = append(sp.files, file)
	p := &parser{toks: lex(string(b)), file: file, spec: sp}
	p.parse(seen)
}

func (p *parser) fail(f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf("%s:%d: %s", filepath.Base(p.file), p.cur().line, fmt.Sprintf(f, a...))})
}
func (p *parser) cur() tok { return p.toks[p.p] }
func (p *parser) next() tok {
	t := p.toks[p.p]
	p.p++
	return t
}
func (p *parser) is(s string) bool {
	t := p.cur()
	return (t.kind == "op" || t.kind == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, got %q", s, p.cur().s)
	}
}
func (p *parser) id() string {
	t := p.next()
	if t.kind != "id" {
		p.p--
		p.fail("expected identifier, got %q", t.s)
	}
	return t.s
}
func (p *parser) atClause() bool {
	t := p.cur()
	return t.kind == "eof" || t.first && t.kind == "id" && clauseKw[t.s]
}

func (p *parser) qualName() string {
	// (*pkg.T).M | pkg.F | pkg.T.M   possibly written as string literal
	if p.cur().kind == "str" {
		return p.next().s
	}
	var sb strings.Builder
	if p.accept("(") {
		sb.WriteString("(")
		if p.accept("*") {
			sb.WriteString("*")
		}
		sb.WriteString(p.id())
		for p.accept(".") {
			sb.WriteString("." + p.id())
		}
		p.expect(")")
		sb.WriteString(")")
	} else {
		sb.WriteString(p.id())
	}
	for p.accept(".") {
		sb.WriteString("." + p.id())
	}
	// closures: name$1
	return sb.String()
}

func (p *parser) names() []string {
	var out []string
	p.expect("(")
	for !p.accept(")") {
		out = append(out, p.id())
		p.accept(",")
	}
	return out
}

func (p *parser) vars() []VarX {
	var out []VarX
	for p.cur().kind == "id" {
		var ns []string
		ns = append(ns, p.id())
		for p.accept(",") {
			ns = append(ns, p.id())
		}
		t := p.typ()
		for _, n := range ns {
			out = append(out, VarX{n, t})
		}
		if !p.accept(",") {
			break
		}
	}
	return out
}

func (p *parser) typ() *TypeX {
	switch {
	case p.accept("*"):
		return &TypeX{op: "ptr", a: p.typ()}
	case p.accept("["):
		if p.accept("]") {
			return &TypeX{op: "slice", a: p.typ()}
		}
		n := p.next()
		p.expect("]")
		var v int64
		fmt.Sscan(n.s, &v)
		return &TypeX{op: "array", n: v, a: p.typ()}
	case p.is("map") && p.toks[p.p+1].s == "[":
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &TypeX{op: "map", a: k, b: p.typ()}
	case p.accept("func"):
		return &TypeX{op: "func"}
	}
	n := p.id()
	if n == "interface" {
		p.expect("{")
		p.expect("}")
		return &TypeX{op: "name", s: "any"}
	}
	if p.accept(".") {
		n += "." + p.id()
	}
	return &TypeX{op: "name", s: n}
}

func (p *parser) parse(seen map[string]bool) {
	sp := p.spec
	var c *Contract
	for p.cur().kind != "eof" {
		kw := p.next()
		start := p.p
		src := func() string {
			var sb strings.Builder
			for i := start; i < p.p; i++ {
				if i > start {
					sb.WriteByte(' ')
				}
				sb.WriteString(p.toks[i].s)
			}
			return sb.String()
		}
		switch kw.s {
		case "package":
			p.pkg = p.id()
		case "note":
			sp.notes = append(sp.notes, p.next().s)
		case "proof":
			sp.proofs = append(sp.proofs, filepath.Join(filepath.Dir(p.file), p.next().s))
		case "include":
			f := p.next().s
			parseFile(filepath.Join(filepath.Dir(p.file), f), sp, seen)
		case "option":
			n := p.id()
			v := true
			if p.accept("=") {
				v = p.next().s == "true"
			} else if p.cur().kind == "id" && !p.cur().first {
				n += " " + p.id()
			}
			sp.opts[n] = v
		case "guard":
			// guard gpsgen.Device.mu : sensors, state
			n := p.qualName()
			p.expect(":")
			base := n[:strings.LastIndex(n, ".")]
			for {
				f := p.id()
				sp.guards["H."+base+"."+f] = "LK." + n
				if !p.accept(",") {
					break
				}
			}
		case "nested":
			// nested gpsgen.Device.mu [write] : navigator.Navigator, types.Speed
			n := p.qualName()
			wr := false
			if p.cur().s == "write" {
				p.next()
				wr = true
			}
			p.expect(":")
			base := n[:strings.LastIndex(n, ".")]
			for {
				t := p.qualName()
				sp.nested[t] = append(sp.nested[t], nestedGuard{lock: "LK." + n, base: base, write: wr})
				if !p.accept(",") {
					break
				}
			}
		case "chaninv", "chancount":
			// chaninv T (v) = expr: every value of type T sent satisfies expr
			// chancount name T (v) = expr: counts (event name, object 0) the received values that satisfy expr
			r := chanRule{pkg: p.pkg}
			if kw.s == "chancount" {
				r.count = p.id()
			}
			r.typ = p.qualName()
			p.expect("(")
			r.v = p.id()
			p.expect(")")
			p.expect("=")
			r.e = p.expr()
			r.src = src()
			sp.chans = append(sp.chans, r)
		case "atomic":
			for {
				sp.atomics["H."+p.qualName()] = true
				if !p.accept(",") {
					break
				}
			}
		case "def", "uf", "rec":
			d := &Def{kind: kw.s, pkg: p.pkg}
			d.name = p.id()
			p.expect("(")
			d.params = p.vars()
			p.expect(")")
			d.ret = p.typ()
			if kw.s != "uf" {
				p.expect("=")
				d.body = p.expr()
			}
			sp.defs[d.name] = d
		case "sum":
			d := &Def{kind: "sum", pkg: p.pkg}
			d.name = p.id()
			p.expect("(")
			d.params = p.vars()
			p.expect(";")
			d.idx = p.id()
			p.expect(")")
			d.ret = p.typ()
			p.expect("=")
			d.body = p.expr()
			sp.defs[d.name] = d
		case "axiom", "lemma":
			l := ""
			if p.accept("[") {
				l = p.label()
			}
			cl := Clause{label: l, e: p.expr(), file: p.file, line: kw.line, pkg: p.pkg}
			cl.src = src()
			if kw.s == "axiom" {
				sp.axioms = append(sp.axioms, cl)
			} else {
				sp.lemmas = append(sp.lemmas, cl)
			}
		case "contract", "helper", "extern":
			c = &Contract{pkg: p.pkg, file: p.file, line: kw.line, helper: kw.s == "helper", extern: kw.s == "extern"}
			if p.cur().kind == "str" {
				c.name = p.next().s
			} else {
				c.name = p.qualName()
			}
			c.params = p.names()
			if p.is("(") {
				c.results = p.names()
			}
			if c.extern {
				sp.externs[c.name] = c
			} else {
				if _, dup := sp.contracts[c.name]; dup {
					p.fail("duplicate contract %s", c.name)
				}
				sp.contracts[c.name] = c
				sp.order = append(sp.order, c)
			}
		case "pure":
			c.pure = true
		case "noframe":
			c.noframe = true
		case "trusted":
			c.trusted = true
		case "looseframes":
			// no frame candidates for the loops of this function
			c.looseframes = true
		case "slowloops":
			// more time for the invariants of the loops of this function
			c.slowloops = true
		case "nosafety":
			c.nosafety = true
		case "local":
			c.local = true
		case "ghosts":
			c.ghosts = true
			// ghosts (a, b): only the ghosts with these prefixes change
			if p.cur().s == "(" {
				c.ghostOnly = p.names()
			}
		case "mutators":
			c.mutators = true
		case "event":
			// event name(x): every call counts one occurrence of name for the object x
			ev := Event{name: p.id()}
			p.expect("(")
			ev.e = p.expr()
			p.expect(")")
			if p.accept("=") {
				// the values of the latest occurrence: latest(name, x, i, T)
				ev.vals = append(ev.vals, p.expr())
				for p.accept(",") {
					ev.vals = append(ev.vals, p.expr())
				}
			}
			c.events = append(c.events, ev)
		case "events":
			// events name(i: n) = expr: one occurrence of name for every value of expr with 0 <= i < n
			ev := Event{name: p.id()}
			p.expect("(")
			ev.idx = p.id()
			p.expect(":")
			ev.lim = p.expr()
			p.expect(")")
			p.expect("=")
			ev.e = p.expr()
			c.events = append(c.events, ev)
		case "log":
			// log name = v1, v2: every call appends the values to the log
			ev := Event{name: p.id(), log: true}
			p.expect("=")
			ev.vals = append(ev.vals, p.expr())
			for p.accept(",") {
				ev.vals = append(ev.vals, p.expr())
			}
			c.events = append(c.events, ev)
		case "diverges":
			c.diverges = true
		case "replay":
			c.replay = p.next().s
		case "requires", "ensures", "inv", "dec":
			if c == nil {
				p.fail("%s outside contract", kw.s)
			}
			cl := Clause{file: p.file, line: kw.line}
			if p.accept("[") {
				cl.label = p.label()
			}
			if (kw.s == "inv" || kw.s == "dec") && p.accept("(") {
				// typed wildcards or parenthesised expression
				save := p.p
				if p.cur().kind == "id" && p.looksLikeVars() {
					cl.vars = p.vars()
					p.expect(")")
				} else {
					p.p = save - 1
				}
			}
			cl.e = p.expr()
			cl.src = src()
			switch kw.s {
			case "requires":
				c.requires = append(c.requires, cl)
			case "ensures":
				if cl.label == "" {
					cl.label = fmt.Sprintf("post%d", len(c.ensures)+1)
				}
				c.ensures = append(c.ensures, cl)
			case "inv":
				c.invs = append(c.invs, cl)
			case "dec":
				c.decs = append(c.decs, cl)
			}
		case "modifies":
			for {
				p.target(c)
				if !p.accept(",") {
					break
				}
			}
		default:
			p.p--
			p.fail("unexpected %q", kw.s)
		}
		if !p.atClause() {
			p.fail("unexpected %q", p.cur().s)
		}
	}
}

func (p *parser) looksLikeVars() bool {
	// id ("," id)* type ... ")" : second token after id list must start a type
	i := p.p
	for p.toks[i].kind == "id" {
		i++
		if p.toks[i].s == "," && p.toks[i].kind == "op" {
			i++
			continue
		}
		break
	}
	t := p.toks[i]
	return t.kind == "id" && !clauseKw[t.s] && t.s != "in" || t.s == "*" && p.toks[i+1].kind == "id" && !p.exprAfterStar(i) || t.s == "["
}

func (p *parser) exprAfterStar(i int) bool { return false }

func (p *parser) label() string {
	var parts []string
	for !p.accept("]") {
		parts = append(parts, p.next().s)
	}
	return strings.Join(parts, " ")
}

func (p *parser) target(c *Contract) {
	if p.cur().kind == "id" {
		switch p.cur().s {
		case "nothing":
			p.next()
			return
		case "any":
			p.next()
			c.anyMod = true
			return
		case "elems", "map", "deref":
			if p.toks[p.p+1].s == "(" {
				k := p.next().s
				p.expect("(")
				c.modifies = append(c.modifies, Target{kind: k, e: p.expr()})
				p.expect(")")
				return
			}
		case "all", "allmaps":
			k := p.next().s
			p.expect("(")
			t := p.typ()
			tg := Target{kind: k, ty: t}
			if p.accept(".") {
				tg.s = p.id()
			} else if k == "all" && t.op == "name" {
				if j := strings.LastIndex(t.s, "."); j >= 0 {
					tg.s = t.s[j+1:]
					tg.ty = &TypeX{op: "name", s: t.s[:j]}
				}
			}
			p.expect(")")
			c.modifies = append(c.modifies, tg)
			return
		case "allelems":
			p.next()
			p.expect("(")
			c.modifies = append(c.modifies, Target{kind: "allelems", ty: p.typ()})
			p.expect(")")
			return
		}
	}
	e := p.postfix()
	if p.accept(".") {
		p.expect("*")
		c.modifies = append(c.modifies, Target{kind: "star", e: e})
		return
	}
	if e.op != "sel" {
		p.fail("bad modifies target")
	}
	c.modifies = append(c.modifies, Target{kind: "field", e: e.args[0], s: e.s})
}

// ---- expressions ------------------------------------------------------------------------------

func (p *parser) expr() *Expr { return p.iff() }

func (p *parser) mk(op string, s string, args ...*Expr) *Expr {
	return &Expr{op: op, s: s, args: args, line: p.cur().line}
}

func (p *parser) iff() *Expr {
	l := p.imp()
	for p.accept("<==>") {
		r := p.imp()
		l = p.mk("bin", "<==>", l, r)
	}
	return l
}

func (p *parser) imp() *Expr {
	l := p.ternary()
	if p.accept("==>") {
		r := p.imp()
		return p.mk("bin", "==>", l, r)
	}
	return l
}

func (p *parser) ternary() *Expr {
	c := p.or()
	if p.accept("?") {
		a := p.ternary()
		p.expect(":")
		b := p.ternary()
		return p.mk("cond", "", c, a, b)
	}
	return c
}

func (p *parser) or() *Expr {
	l := p.and()
	for p.accept("||") {
		l = p.mk("bin", "||", l, p.and())
	}
	return l
}
func (p *parser) and() *Expr {
	l := p.cmp()
	for p.accept("&&") {
		l = p.mk("bin", "&&", l, p.cmp())
	}
	return l
}
func (p *parser) cmp() *Expr {
	l := p.add()
	var out *Expr
	for {
		t := p.cur()
		if t.kind == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") || t.kind == "id" && t.s == "in" && !t.first {
			p.next()
			r := p.add()
			c := p.mk("bin", t.s, l, r)
			if out == nil {
				out = c
			} else {
				out = p.mk("bin", "&&", out, c)
			}
			l = r
			continue
		}
		break
	}
	if out == nil {
		return l
	}
	return out
}
func (p *parser) add() *Expr {
	l := p.mul()
	for {
		t := p.cur()
		if t.kind == "op" && (t.s == "+" || t.s == "-") {
			p.next()
			l = p.mk("bin", t.s, l, p.mul())
			continue
		}
		return l
	}
}
func (p *parser) mul() *Expr {
	l := p.unary()
	for {
		t := p.cur()
		if t.kind == "op" && (t.s == "*" || t.s == "/" || t.s == "%") {
			p.next()
			l = p.mk("bin", t.s, l, p.unary())
			continue
		}
		return l
	}
}
func (p *parser) unary() *Expr {
	if p.accept("!") {
		return p.mk("un", "!", p.unary())
	}
	if p.accept("-") {
		return p.mk("un", "-", p.unary())
	}
	if p.is("*") && p.cur().kind == "op" {
		p.next()
		return p.mk("un", "*", p.unary())
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.is(".") && p.toks[p.p+1].kind == "id":
			p.next()
			e = p.mk("sel", p.id(), e)
		case p.is("[") && !p.cur().first:
			p.next()
			i := p.expr()
			if p.accept(":=") {
				v := p.expr()
				p.expect("]")
				e = p.mk("update", "", e, i, v)
				continue
			}
			p.expect("]")
			e = p.mk("index", "", e, i)
		case p.is("(") && !p.cur().first && (e.op == "id" || e.op == "sel"):
			p.next()
			var as []*Expr
			as = append(as, e)
			for !p.accept(")") {
				if t := p.cur(); (e.op == "id") && typeArg[e.s] && len(as) == typeArgPos[e.s] {
					_ = t
					x := p.mk("type", "")
					x.ty = p.typ()
					as = append(as, x)
				} else {
					as = append(as, p.expr())
				}
				p.accept(",")
			}
			e = p.mk("call", "", as...)
		default:
			return e
		}
	}
}

// builtins taking a type at a given argument position
var typeArg = map[string]bool{"typeis": true, "unbox": true, "callarg": true, "callres": true, "sent": true, "box": true, "zero": true, "heapeq": true, "allsame": true, "latest": true, "nrecvd": true, "recvd": true, "logged": true}
var typeArgPos = map[string]int{"typeis": 2, "unbox": 2, "callarg": 3, "callres": 3, "sent": 2, "box": 2, "zero": 1, "heapeq": 1, "allsame": 1, "latest": 4, "nrecvd": 1, "recvd": 2, "logged": 4}

func (p *parser) primary() *Expr {
	t := p.cur()
	switch t.kind {
	case "num":
		p.next()
		return p.mk("num", t.s)
	case "str":
		p.next()
		return p.mk("str", t.s)
	case "op":
		if p.accept("(") {
			e := p.expr()
			p.expect(")")
			return p.mk("paren", "", e)
		}
	case "id":
		switch t.s {
		case "forall", "exists":
			p.next()
			vs := p.vars()
			p.expect("::")
			var trig [][]*Expr
			for p.accept("{") {
				var g []*Expr
				for !p.accept("}") {
					g = append(g, p.expr())
					p.accept(",")
				}
				trig = append(trig, g)
			}
			b := p.expr()
			e := p.mk(t.s, "", b)
			e.vars = vs
			e.trig = trig
			return e
		case "let":
			p.next()
			n := p.id()
			p.expect("=")
			v := p.expr()
			if !p.accept("in") {
				p.fail("expected in")
			}
			b := p.expr()
			return p.mk("let", n, v, b)
		}
		p.next()
		return p.mk("id", t.s)
	}
	p.fail("unexpected %q in expression", t.s)
	return nil
}
