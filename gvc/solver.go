package main

// SMT query emission and solver pool.

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type Query struct {
	text string
}

var noClosure = os.Getenv("GVC_NOCLOSURE") != ""

type collected struct {
	consts map[string]string
	funs   map[string]bool
	dts    map[string]bool
	strs   map[string]*Term
	sorts  map[string]bool
	refs   map[int]int
	order  []*Term
	recs   []*Term // ground rec applications
	seen   map[int]bool
}

func noteSort(c *collected, s string) {
	if c.sorts[s] {
		return
	}
	c.sorts[s] = true
	if strings.HasPrefix(s, "(Array ") {
		in := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
		d := 0
		for i := 0; i < len(in); i++ {
			switch in[i] {
			case '(':
				d++
			case ')':
				d--
			case ' ':
				if d == 0 {
					noteSort(c, in[:i])
					noteSort(c, in[i+1:])
					i = len(in)
				}
			}
		}
		return
	}
	if d, ok := dts[s]; ok {
		c.dts[s] = true
		for _, x := range d.sorts {
			noteSort(c, x)
		}
	}
}

func (c *collected) walk(t *Term) {
	c.refs[t.id]++
	if c.seen[t.id] {
		return
	}
	c.seen[t.id] = true
	noteSort(c, t.sort)
	switch t.op {
	case "const":
		if !t.hasBV {
			c.consts[t.name] = t.sort
		}
	case "strlit":
		c.strs[t.name] = t
	case "app":
		c.funs[t.name] = true
		if _, ok := recs[t.name]; ok {
			if !t.hasBV {
				c.recs = append(c.recs, t)
			} else {
				recOpen[t.id] = t
			}
		}
	case "forall", "exists":
		for _, b := range t.bound {
			noteSort(c, b.sort)
		}
		for _, p := range t.pats {
			for _, q := range p {
				c.walk(q)
			}
		}
	}
	for _, a := range t.args {
		c.walk(a)
	}
	c.order = append(c.order, t)
}

var recOpen = map[int]*Term{}

// Rec is a recursive (or summation) spec function.
type Rec struct {
	name   string
	heaps  []string
	hvars  []*Term // BVars for heaps
	params []*Term // BVars for params (last is k)
	ret    string
	def    *Term // definition template
	sumOf  *Term // term template at index k-1 (sum form) or nil
	isSum  bool
	idx    *Term // index var in sumOf
}

var recs = map[string]*Rec{}

func (r *Rec) bind(app *Term) map[int]*Term {
	m := map[int]*Term{}
	n := len(r.hvars)
	for i, h := range r.hvars {
		m[h.id] = app.args[i]
	}
	for i, p := range r.params {
		m[p.id] = app.args[n+i]
	}
	return m
}

// skolem replaces the universally quantified variables of a goal by constants, so
// that recursive definitions applied to them are unfolded like any other ground term.
func skolem(g *Term, n *int) *Term {
	switch {
	case g.hasBV:
		return g
	case g.op == "forall":
		m := map[int]*Term{}
		for _, b := range g.bound {
			*n++
			m[b.id] = Sym(fmt.Sprintf("sk!%d!%s", *n, sanitize(b.sort)), b.sort)
		}
		return skolem(Subst(g.args[0], m), n)
	case g.op == "and":
		var as []*Term
		for _, a := range g.args {
			as = append(as, skolem(a, n))
		}
		return And(as...)
	case g.op == "=>":
		return Implies(g.args[0], skolem(g.args[1], n))
	}
	return g
}

// recRounds is how often recursive definitions are unfolded in a query.
var recRounds = 3

// buildQuery renders assumptions ∧ ¬goal.
func buildQuery(assume []*Term, goal *Term, floatMode string) string {
	asserts := append([]*Term{}, assume...)
	if goal != nil {
		n := 0
		asserts = append(asserts, Not(skolem(goal, &n)))
	}
	// unfold recursive functions
	done := map[int]bool{}
	var extra, first []*Term
	recOpen = map[int]*Term{}
	for round := 0; round < recRounds; round++ {
		c := &collected{consts: map[string]string{}, funs: map[string]bool{}, dts: map[string]bool{}, strs: map[string]*Term{}, sorts: map[string]bool{}, refs: map[int]int{}, seen: map[int]bool{}}
		for _, a := range asserts {
			c.walk(a)
		}
		for _, a := range extra {
			c.walk(a)
		}
		added := false
		for _, app := range c.recs {
			if done[app.id] {
				continue
			}
			done[app.id] = true
			r := recs[app.name]
			inst := Eq(app, Subst(r.def, r.bind(app)))
			extra = append(extra, inst)
			added = true
		}
		if round == 0 {
			first = append(first, extra...)
		}
		if !added {
			break
		}
	}
	// extensionality of sums
	{
		c := &collected{consts: map[string]string{}, funs: map[string]bool{}, dts: map[string]bool{}, strs: map[string]*Term{}, sorts: map[string]bool{}, refs: map[int]int{}, seen: map[int]bool{}}
		for _, a := range asserts {
			c.walk(a)
		}
		for _, a := range first {
			c.walk(a)
		}
		byName := map[string][]*Term{}
		for _, app := range c.recs {
			if recs[app.name].isSum {
				byName[app.name] = append(byName[app.name], app)
			}
		}
		var names []string
		for n := range byName {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			l := byName[n]
			sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
			cnt := 0
			for i := 0; i < len(l); i++ {
				for j := i + 1; j < len(l); j++ {
					a, b := l[i], l[j]
					r := recs[n]
					same := true
					nn := len(a.args) - 1
					for q := 0; q < nn; q++ {
						if a.args[q] != b.args[q] {
							same = false
						}
					}
					if same {
						continue
					}
					cnt++
					if cnt > 60 {
						break
					}
					ka, kb := a.args[nn], b.args[nn]
					v := BVar("xi", "Int")
					ma, mb := r.bind(a), r.bind(b)
					ma[r.idx.id], mb[r.idx.id] = v, v
					body := Implies(And(Le(Int(0), v), Lt(v, ka)), Eq(Subst(r.sumOf, ma), Subst(r.sumOf, mb)))
					extra = append(extra, Implies(And(Eq(ka, kb), Forall([]*Term{v}, body)), Eq(a, b)))
				}
			}
			// quantified version between heap versions for open applications
			var heapsets [][]*Term
			seenHS := map[string]bool{}
			add := func(t *Term) {
				r := recs[t.name]
				hs := t.args[:len(r.hvars)]
				for _, h := range hs {
					if h.hasBV {
						return
					}
				}
				key := ""
				for _, h := range hs {
					key += fmt.Sprint(h.id, ",")
				}
				if !seenHS[key] {
					seenHS[key] = true
					heapsets = append(heapsets, hs)
				}
			}
			for _, t := range l {
				add(t)
			}
			var opens []*Term
			for _, t := range recOpen {
				opens = append(opens, t)
			}
			sort.Slice(opens, func(i, j int) bool { return opens[i].id < opens[j].id })
			hasOpen := false
			for _, t := range opens {
				if t.name == n {
					hasOpen = true
					add(t)
				}
			}
			if hasOpen && len(heapsets) > 1 && len(heapsets) <= 6 {
				r := recs[n]
				for i := 0; i < len(heapsets); i++ {
					for j := i + 1; j < len(heapsets); j++ {
						var ps []*Term
						m1, m2 := map[int]*Term{}, map[int]*Term{}
						for q, h := range r.hvars {
							m1[h.id], m2[h.id] = heapsets[i][q], heapsets[j][q]
						}
						for _, p := range r.params {
							np := BVar("xp", p.sort)
							ps = append(ps, np)
							m1[p.id], m2[p.id] = np, np
						}
						v := BVar("xi", "Int")
						m1[r.idx.id], m2[r.idx.id] = v, v
						k := ps[len(ps)-1]
						a1 := App(n, r.ret, append(append([]*Term{}, heapsets[i]...), ps...)...)
						a2 := App(n, r.ret, append(append([]*Term{}, heapsets[j]...), ps...)...)
						pre := Forall([]*Term{v}, Implies(And(Le(Int(0), v), Lt(v, k)), Eq(Subst(r.sumOf, m1), Subst(r.sumOf, m2))))
						extra = append(extra, Forall(ps, Implies(pre, Eq(a1, a2)), []*Term{a1}, []*Term{a2}))
					}
				}
			}
		}
	}
	asserts = append(asserts, extra...)
	c := &collected{consts: map[string]string{}, funs: map[string]bool{}, dts: map[string]bool{}, strs: map[string]*Term{}, sorts: map[string]bool{}, refs: map[int]int{}, seen: map[int]bool{}}
	for _, a := range asserts {
		c.walk(a)
	}
	// axioms, to a fixpoint on functions they introduce
	var axs []*Term
	doneSym := map[string]bool{}
	for round := 0; round < 6; round++ {
		added := false
		for _, n := range sortedKeys(c.consts) {
			if doneSym[n] {
				continue
			}
			doneSym[n] = true
			if a, ok := symAxioms[n]; ok && a.op != "true" {
				axs = append(axs, a)
				c.walk(a)
				added = true
			}
		}
		if !added {
			break
		}
	}
	if !noClosure {
		for _, a := range closureAxioms(c.consts) {
			axs = append(axs, a)
			c.walk(a)
		}
	}
	ax2 := axiomsFor(c, floatMode)
	for _, a := range ax2 {
		c.walk(a)
	}
	axs = append(axs, ax2...)
	var sb strings.Builder
	// sorts
	base := map[string]bool{"Int": true, "Real": true, "Bool": true}
	var ss []string
	for s := range c.sorts {
		ss = append(ss, s)
	}
	for f := range c.funs {
		d := funDecls[f]
		for _, a := range d.args {
			noteSort(c, a)
		}
		noteSort(c, d.ret)
	}
	ss = ss[:0]
	for s := range c.sorts {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		if base[s] || strings.HasPrefix(s, "(") {
			continue
		}
		if _, ok := dts[s]; ok {
			continue
		}
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", smtName(s))
	}
	for _, n := range dtOrder {
		if !c.dts[n] {
			continue
		}
		d := dts[n]
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", smtName(n), smtName("mk."+n))
		for i, f := range d.fields {
			fmt.Fprintf(&sb, " (%s %s)", smtName(n+"."+f), smtSort(d.sorts[i]))
		}
		sb.WriteString("))))\n")
	}
	var cs []string
	for n := range c.consts {
		cs = append(cs, n)
	}
	sort.Strings(cs)
	for _, n := range cs {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", smtName(n), smtSort(c.consts[n]))
	}
	var strs []string
	for s := range c.strs {
		strs = append(strs, s)
	}
	sort.Strings(strs)
	for _, s := range strs {
		fmt.Fprintf(&sb, "(declare-fun %s () Str)\n", strLitName(s))
	}
	var fs []string
	for f := range c.funs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		d := funDecls[f]
		var as []string
		for _, a := range d.args {
			as = append(as, smtSort(a))
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", smtName(f), strings.Join(as, " "), smtSort(d.ret))
	}
	if len(strs) > 1 {
		sb.WriteString("(assert (distinct")
		for _, s := range strs {
			sb.WriteString(" " + strLitName(s))
		}
		sb.WriteString("))\n")
	}
	if c.funs["strlen"] {
		for _, s := range strs {
			fmt.Fprintf(&sb, "(assert (= (strlen %s) %d))\n", strLitName(s), len(s))
		}
	}
	if c.funs["strat"] {
		for _, s := range strs {
			if len(s) <= 80 {
				for i := 0; i < len(s); i++ {
					fmt.Fprintf(&sb, "(assert (= (strat %s %d) %d))\n", strLitName(s), i, s[i])
				}
			}
		}
	}
	// shared subterm definitions
	named := map[int]string{}
	for _, t := range c.order {
		if t.hasBV || len(t.args) == 0 || c.refs[t.id] < 2 {
			continue
		}
		if t.op == "forall" || t.op == "exists" {
			continue
		}
		var tb strings.Builder
		printTerm(&tb, t, named, 0)
		nm := fmt.Sprintf("t$%d", t.id)
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", nm, smtSort(t.sort), tb.String())
		named[t.id] = nm
	}
	for _, a := range axs {
		sb.WriteString("(assert ")
		printTerm(&sb, a, named, 0)
		sb.WriteString(")\n")
	}
	for i, a := range asserts {
		if goal != nil && i == len(assume) {
			sb.WriteString("; negated goal\n")
		}
		sb.WriteString("(assert ")
		printTerm(&sb, a, named, 0)
		sb.WriteString(")\n")
	}
	return sb.String()
}

func smtSort(s string) string {
	if strings.HasPrefix(s, "(Array ") {
		in := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
		d := 0
		for i := 0; i < len(in); i++ {
			switch in[i] {
			case '(':
				d++
			case ')':
				d--
			case ' ':
				if d == 0 {
					return "(Array " + smtSort(in[:i]) + " " + smtSort(in[i+1:]) + ")"
				}
			}
		}
	}
	switch s {
	case "Int", "Real", "Bool":
		return s
	}
	return smtName(s)
}

// ---- running ---------------------------------------------------------------------------

type Result struct {
	status string // unsat, sat, unknown
	solver string
	dur    time.Duration
	model  string
}

type solverCfg struct {
	name string
	cmd  []string
	pre  string
}

func z3cfg(bin string, extra string) solverCfg {
	return solverCfg{name: bin, cmd: []string{bin, "-in", "-smt2"}, pre: "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n" + extra}
}

var (
	cfgMain = z3cfg("z3-new", "")
	cfgAlt  = z3cfg("z3", "")
	cfgCvc5 = solverCfg{name: "cvc5", cmd: []string{"cvc5", "--lang=smt2", "--arrays-exp"}, pre: "(set-logic ALL)\n"}
	cfgNL   = solverCfg{name: "z3-new(nl)", cmd: []string{"z3-new", "-in", "-smt2"}, pre: "(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 6)\n"}
	cfgZ3d  = solverCfg{name: "z3-new(default)", cmd: []string{"z3-new", "-in", "-smt2"}, pre: ""}
)

var bg = context.Background()

var solverSeed = ""

var solverSem = make(chan struct{}, 8)

func runSolver(ctx context.Context, cfg solverCfg, q string, timeout time.Duration, wantModel bool) Result {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return Result{status: "unknown", solver: cfg.name}
	}
	cctx, cancel := context.WithTimeout(ctx, timeout+2*time.Second)
	defer cancel()
	args := append([]string{}, cfg.cmd[1:]...)
	if strings.HasPrefix(cfg.cmd[0], "z3") {
		args = append(args, fmt.Sprintf("-t:%d", timeout.Milliseconds()), "-memory:3000")
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
	}
	cmd := exec.CommandContext(cctx, cfg.cmd[0], args...)
	tail := "(check-sat)\n"
	if wantModel {
		tail += "(get-model)\n"
	}
	pre := cfg.pre
	if wantModel {
		pre = "(set-option :produce-models true)\n" + pre
	}
	if strings.HasPrefix(cfg.cmd[0], "z3") {
		pre += solverSeed
	}
	cmd.Stdin = strings.NewReader(pre + q + tail)
	t0 := time.Now()
	out, _ := cmd.Output()
	d := time.Since(t0)
	s := string(out)
	st := "unknown"
	first := strings.TrimSpace(s)
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = strings.TrimSpace(first[:i])
	}
	switch first {
	case "unsat", "sat":
		st = first
	}
	if strings.Contains(first, "error") && os.Getenv("GVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "solver error:", first)
		os.WriteFile("/tmp/gvc_err.smt2", []byte(pre+q+tail), 0644)
	}
	return Result{status: st, solver: cfg.name, dur: d, model: s}
}

type cacheEnt struct {
	r  Result
	ok bool
}

var qcache sync.Map

// prove tries to discharge: unsat means proved.
func prove(q string, budget time.Duration) Result {
	if v, ok := qcache.Load(q); ok {
		return v.(Result)
	}
	ctx := context.Background()
	short := budget / 4
	if short > 3*time.Second {
		short = 3 * time.Second
	}
	r := runSolver(ctx, cfgMain, q, short, false)
	total := r.dur
	if r.status != "unsat" && budget > 500*time.Millisecond {
		// portfolio
		ch := make(chan Result, 4)
		cctx, cancel := context.WithCancel(ctx)
		cfgs := []solverCfg{cfgCvc5, cfgAlt, z3cfg("z3-new", "(set-option :smt.random_seed 7)\n(set-option :smt.qi.eager_threshold 100)\n"), cfgZ3d}
		for _, c := range cfgs {
			go func(c solverCfg) { ch <- runSolver(cctx, c, q, budget, false) }(c)
		}
		for range cfgs {
			x := <-ch
			if x.status == "unsat" {
				r = x
				break
			}
		}
		cancel()
		total += r.dur
	}
	r.dur = total
	qcache.Store(q, r)
	return r
}

// quick: single fast attempt (for Houdini candidate checks).
func quick(q string, timeout time.Duration) bool {
	if v, ok := qcache.Load(q); ok {
		return v.(Result).status == "unsat"
	}
	r := runSolver(context.Background(), cfgMain, q, timeout, false)
	if r.status == "unsat" {
		qcache.Store(q, r)
		return true
	}
	return false
}

var dumpSeq int

// quickDefault: a second attempt, with other strategies in parallel.
func quickDefault(q string, timeout time.Duration) bool {
	cctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cfgs := []solverCfg{cfgZ3d, cfgAlt, cfgCvc5, cfgMain}
	ch := make(chan Result, len(cfgs))
	for _, c := range cfgs {
		t := timeout
		if c.name == cfgMain.name {
			t = 4 * timeout
		}
		go func(c solverCfg) { ch <- runSolver(cctx, c, q, t, false) }(c)
	}
	for range cfgs {
		if r := <-ch; r.status == "unsat" {
			qcache.Store(q, r)
			return true
		}
	}
	if d := os.Getenv("GVC_DUMPQ"); d != "" {
		dumpSeq++
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, dumpSeq), []byte(q), 0644)
	}
	return false
}
