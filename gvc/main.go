package main

// gvc: contract checker for go-gpsgen. See /verif/DESIGN.md.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type known struct {
	prop, obl, what string
}

func readKnown(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []known
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if !strings.HasPrefix(ln, "known: ") {
			continue
		}
		// known: property=C08 obligation="..." what
		var k known
		rest := strings.TrimPrefix(ln, "known: ")
		if i := strings.IndexByte(rest, ' '); i > 0 {
			k.prop = strings.TrimPrefix(rest[:i], "property=")
			rest = strings.TrimSpace(rest[i:])
		}
		if strings.HasPrefix(rest, `obligation="`) {
			rest = rest[len(`obligation="`):]
			if i := strings.IndexByte(rest, '"'); i >= 0 {
				k.obl = rest[:i]
				k.what = strings.TrimSpace(rest[i+1:])
			}
		}
		out = append(out, k)
	}
	return out
}

type report struct {
	prop, tier  string
	seed        int
	obls        []*Oblig
	eng         *Engine
	fatal       string
	dropped     []string
	t0          time.Time
	perContract []map[string]interface{}
}

func main() {
	prop := flag.String("prop", "", "property id")
	specFile := flag.String("spec", "", "specification file")
	repo := flag.String("repo", "/repo", "repository")
	overlay := flag.String("overlay", "", "directory with lemma client sources")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int("seed", 1, "seed")
	evidence := flag.String("evidence", "", "evidence file to write")
	knownFile := flag.String("known", "", "known findings file")
	replayDir := flag.String("replaydir", "", "directory with the replay module")
	outDir := flag.String("out", "", "directory for replay files")
	only := flag.String("fn", "", "verify only contracts whose name contains this")
	verbose := flag.Bool("v", false, "list all obligations")
	per := flag.Duration("per", 0, "budget per obligation")
	total := flag.Duration("total", 0, "soft budget for the whole run")
	lvl := flag.String("level", "proof", "evidence level")
	dumpSSA := flag.String("ssa", "", "print SSA of a function and exit")
	flag.Parse()
	if *per == 0 {
		*per = 20 * time.Second
		if *tier == "thorough" {
			*per = 60 * time.Second
		}
	}
	if *total == 0 {
		*total = 420 * time.Second
		if *tier == "thorough" {
			*total = 600 * time.Second
		}
	}
	if *dumpSSA != "" {
		e, err := load(*repo, *overlay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for n, f := range e.fnByName {
			if strings.Contains(n, *dumpSSA) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	r := &report{prop: *prop, tier: *tier, seed: *seed, t0: time.Now()}
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.fatal = fmt.Sprintf("internal: %v", x)
				if os.Getenv("GVC_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}()
		r.run(*repo, *overlay, *specFile, *only, *per, *total)
	}()
	os.Exit(r.finish(*knownFile, *evidence, *replayDir, *outDir, *repo, *lvl, *verbose))
}

func (r *report) run(repo, overlay, specFile, only string, per, total time.Duration) {
	sp, err := loadSpec(specFile)
	if err != nil {
		r.fatal = "spec: " + err.Error()
		return
	}
	e, err := load(repo, overlay)
	if err != nil {
		r.fatal = "the tree does not load: " + err.Error()
		return
	}
	r.eng = e
	e.spec = sp
	e.floatReal = sp.opts["floatReal"]
	if sp.opts["shallow"] {
		recRounds = 1
	}
	e.deadline = r.t0.Add(total)
	e.hard = r.t0.Add(total + total/4)
	fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(r.t0).Seconds())
	userAxioms = nil
	for _, a := range sp.axioms {
		st := &State{eng: e, heaps: map[string]*Term{}, epoch: "0", ghost: map[string]*Term{}, locals: map[int]*Term{}, alloc: Sym("A@0", "Int")}
		c := &evalCtx{e: e, st: st, old: st, binds: map[string]SVal{}, pkg: a.pkg, pos: "axiom " + a.label}
		userAxioms = append(userAxioms, c.bool(a.e))
	}
	// helper contracts bind to functions that may have been renamed or reshaped
	for _, ct := range sp.order {
		fn := e.fnByName[ct.name]
		if !ct.helper {
			continue
		}
		if fn == nil || len(fn.Blocks) == 0 || len(fn.Params) != len(ct.params) || len(ct.results) > fn.Signature.Results().Len() {
			ct.dropped = true
			r.dropped = append(r.dropped, ct.name+" (no such function with this shape)")
		}
	}
	byFn := map[string][]*Oblig{}
	retries := 5
	verifySet := func(cts []*Contract) {
		failed := ""
		for _, ct := range cts {
			if ct.dropped || ct.trusted {
				continue
			}
			if failed != "" && !ct.helper {
				// the verdict stands; the time left is for finding a failing input
				fmt.Fprintf(os.Stderr, "%-60s not examined after the failure of %s\n", ct.name, failed)
				delete(byFn, ct.name)
				continue
			}
			if only != "" && !strings.Contains(ct.name, only) {
				continue
			}
			if ct.uses != nil && byFn[ct.name] != nil {
				// proved before, and not with the help of what has been dropped since
				again := false
				for _, o := range byFn[ct.name] {
					again = again || !o.ok
				}
				for h := range ct.uses {
					again = again || h.dropped
				}
				if !again {
					continue
				}
			}
			e.uses = map[*Contract]bool{}
			ct.uses = e.uses
			t0 := time.Now()
			st0 := e.stats
			if ct.slowloops {
				candTimeout, solverSeed = 6*time.Second, "(set-option :smt.random_seed 11)\n"
			}
			ob := e.verifyFunc(ct)
			candTimeout, solverSeed = candTimeout0, ""
			t1 := time.Now()
			for _, o := range ob {
				o.ct = ct
			}
			e.discharge(ob, per)
			count := func(ob []*Oblig) (nd int) {
				for _, o := range ob {
					if o.ok {
						nd++
					}
				}
				return
			}
			n, nd := len(ob), count(ob)
			if nd < n && retries > 0 && time.Since(r.t0) < total/3 {
				// again, with more time for the loop invariants and other seeds
				retries--
				fmt.Fprintf(os.Stderr, "%-60s %3d/%3d  again\n", ct.name, nd, n)
				ct0, seed := candTimeout, solverSeed
				candTimeout, solverSeed = 6*time.Second, "(set-option :smt.random_seed 11)\n"
				ob2 := e.verifyFunc(ct)
				for _, o := range ob2 {
					o.ct = ct
				}
				e.discharge(ob2, per)
				candTimeout, solverSeed = ct0, seed
				if m := len(ob2) - count(ob2); m == 0 || m < n-nd {
					ob = ob2
					n, nd = len(ob), count(ob)
				}
			}
			byFn[ct.name] = ob
			if nd < n && !ct.helper {
				failed = ct.name
			}
			fmt.Fprintf(os.Stderr, "%-60s %3d/%3d  gen %.1fs solve %.1fs  loops %d inv %d\n", ct.name, nd, n, t1.Sub(t0).Seconds(), time.Since(t1).Seconds(), e.stats.loops-st0.loops, e.stats.houdini-st0.houdini)
		}
	}
	// lemmas: facts about the specification's own definitions
	var lems []*Oblig
	for i, a := range sp.lemmas {
		if only != "" && !strings.Contains("lemma", only) {
			continue
		}
		st := &State{eng: e, heaps: map[string]*Term{}, epoch: "0", ghost: map[string]*Term{}, locals: map[int]*Term{}, alloc: Sym("A@0", "Int")}
		c := &evalCtx{e: e, st: st, old: st, binds: map[string]SVal{}, pkg: a.pkg, pos: "lemma " + a.label}
		n := a.label
		if n == "" {
			n = fmt.Sprint(i + 1)
		}
		lems = append(lems, &Oblig{name: "lemma/" + n, fn: "lemma", kind: "lemma", label: n, goal: c.bool(a.e)})
	}
	e.discharge(lems, per)
	r.obls = append(r.obls, lems...)
	var proofs []chan *Oblig
	if only == "" || only == "proof" {
		for _, f := range sp.proofs {
			ch := make(chan *Oblig, 1)
			proofs = append(proofs, ch)
			go func(f string) { ch <- checkProof(f) }(f)
		}
	}
	defer func() {
		for _, ch := range proofs {
			r.obls = append(r.obls, <-ch)
		}
	}()
	verifySet(sp.order)
	// helpers that fail are replaced by their bodies, and everything is checked again
	for round := 0; round < 4; round++ {
		drop := false
		for _, ct := range sp.order {
			if !ct.helper || ct.dropped {
				continue
			}
			for _, o := range byFn[ct.name] {
				if !o.ok {
					ct.dropped = true
					drop = true
					r.dropped = append(r.dropped, ct.name+" (fails: "+o.name+")")
					delete(byFn, ct.name)
					break
				}
			}
		}
		if !drop || time.Now().After(e.deadline) && round > 0 {
			break
		}
		fmt.Fprintf(os.Stderr, "helper contracts dropped: %v\n", r.dropped)
		if h := time.Now().Add(total / 2); h.Before(e.hard) {
			e.hard = h
		}
		verifySet(sp.order)
	}
	for _, ct := range sp.order {
		r.obls = append(r.obls, byFn[ct.name]...)
	}
}

// checkProof has Lean check the file that proves the axioms of a specification.
func checkProof(f string) *Oblig {
	o := &Oblig{name: "proof/" + filepath.Base(f), fn: "lemma", kind: "proof", label: filepath.Base(f)}
	t0 := time.Now()
	if a, err := filepath.Abs(f); err == nil {
		f = a
	}
	src, err := os.ReadFile(f)
	if err != nil {
		o.msg = err.Error()
		return o
	}
	for _, w := range []string{"sorry", "axiom ", "admit", "native_decide"} {
		if strings.Contains(strings.ReplaceAll(string(src), "axiom [", ""), "\n"+w) || w == "sorry" && strings.Contains(string(src), w) {
			o.msg = "the proof uses " + w
			return o
		}
	}
	tmp, err := os.MkdirTemp("", "gvclean")
	if err != nil {
		o.msg = err.Error()
		return o
	}
	defer os.RemoveAll(tmp)
	c := exec.Command("timeout", "400", "lean", f)
	c.Dir = tmp
	out, err := c.CombinedOutput()
	o.res = Result{solver: "lean", dur: time.Since(t0)}
	if err == nil && len(strings.TrimSpace(string(out))) == 0 {
		o.ok = true
		o.res.status = "unsat"
	} else {
		o.msg = "Lean rejects the proof: " + string(out)
	}
	return o
}

func (r *report) finish(knownFile, evidence, replayDir, outDir, repo, lvl string, verbose bool) int {
	type fail struct{ name, msg, pos string }
	var fails []fail
	if r.fatal != "" {
		fails = append(fails, fail{name: "load", msg: r.fatal})
	}
	total, done := 0, 0
	back := map[string]int{}
	var dur time.Duration
	bounded := 0
	for _, o := range r.obls {
		total++
		dur += o.res.dur
		if o.ok {
			done++
			if o.ct != nil && o.ct.bounded {
				bounded++
			}
			if o.expect == "" {
				s := o.res.solver
				if s == "" {
					s = "simplifier"
				}
				back[s]++
			}
		} else {
			m := o.msg
			if m == "" {
				m = "not discharged (" + o.res.status + ")"
				if o.expect == "sat" {
					m = "the assumptions of this contract are contradictory (vacuous)"
				}
			}
			fails = append(fails, fail{o.name, m, o.pos})
		}
		if verbose || !o.ok {
			st := "ok  "
			if !o.ok {
				st = "FAIL"
			}
			fmt.Fprintf(os.Stderr, "  %s %-7s %6.2fs %s  [%s] %s %s\n", st, o.res.status, o.res.dur.Seconds(), o.name, o.res.solver, o.pos, o.msg)
		}
	}
	if total == 0 && r.fatal == "" {
		fails = append(fails, fail{name: "none", msg: "no obligation was generated"})
	}
	var kn []known
	for _, k := range readKnown(knownFile) {
		if k.prop == r.prop {
			kn = append(kn, k)
		}
	}
	var viol []fail
	used := map[int]bool{}
	for _, f := range fails {
		isK := false
		for i, k := range kn {
			if k.obl != "" && k.obl == f.name {
				isK = true
				used[i] = true
			}
		}
		if !isK {
			viol = append(viol, f)
		}
	}
	for i, k := range kn {
		if used[i] || k.obl == "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k.what)
		}
	}
	var fns []map[string]interface{}
	var trusted, externs, inl, drp []string
	loops, invs, uinv := 0, 0, 0
	var assum []string
	if r.eng != nil {
		cnt := map[string][2]int{}
		for _, o := range r.obls {
			c := cnt[o.fn]
			c[0]++
			if o.ok {
				c[1]++
			}
			cnt[o.fn] = c
		}
		for _, ct := range r.eng.spec.order {
			if ct.dropped {
				continue
			}
			c := cnt[ct.name]
			fns = append(fns, map[string]interface{}{"function": ct.name, "obligations": c[0], "discharged": c[1]})
		}
		trusted = sortedKeys(r.eng.trustedUsed)
		externs = sortedKeys(r.eng.externUsed)
		inl = sortedKeys(r.eng.inlined)
		loops, invs, uinv = r.eng.stats.loops, r.eng.stats.houdini, r.eng.stats.userInv
		assum = append(assum, r.eng.spec.notes...)
		for _, a := range r.eng.spec.axioms {
			assum = append(assum, "axiom: "+a.label+" "+a.src)
		}
	}
	drp = append(drp, r.dropped...)
	sort.Strings(drp)
	base := []string{
		"gvc (this checker): SSA to SMT translation, heap model, loop-invariant filtering",
		"golang.org/x/tools/go/ssa v0.52.0 and the Go type checker",
		"z3 5.x / z3 4.8.12 / cvc5 1.1.2 answering unsat",
		"int and int64 treated as mathematical integers (narrower and unsigned types wrap)",
		"float64 values finite; IEEE rounding abstracted by monotone bounded-error rounding functions or exact reals (per specification)",
		"calls through function values and interfaces do not modify this package's memory",
	}
	for _, t := range trusted {
		base = append(base, "trusted contract: "+t)
	}
	base = append(base, externs...)
	cov := map[string]interface{}{
		"obligations": total, "discharged": done,
		"checker_cmd":  fmt.Sprintf("/verif/check.sh %s %s", r.prop, r.tier),
		"trusted_base": base,
		"functions":    fns, "inlined_functions": inl, "dropped_helper_contracts": drp,
		"loops": loops, "loop_invariant_conjuncts_discharged": invs, "of_which_user_written": uinv,
		"solver_seconds": float64(int(dur.Seconds()*100)) / 100, "discharged_by": back,
	}
	if bounded > 0 {
		cov["bounded_obligations"] = bounded
	}
	code := 0
	var boundedFail, boundedOut string
	if len(viol) == 0 && replayDir != "" && r.eng != nil && r.eng.spec.opts["bounded"] {
		// parts the verifier does not reach: bounded check against the real code
		var sb strings.Builder
		secs := 6
		if r.tier == "thorough" {
			secs = 120
		}
		f, n := runReplay(replayDir, repo, r.prop, r.seed, secs, &sb, r.t0)
		boundedOut = sb.String()
		cov["bounded_check"] = map[string]interface{}{"seconds": secs, "cases": n, "note": "bounded, not part of the proof: random cases against the real code"}
		if f != "" {
			boundedFail = f
			viol = append(viol, fail{"bounded", "bounded check of the real code: " + f, ""})
		}
	}
	if len(viol) > 0 {
		code = 1
		os.MkdirAll(outDir, 0755)
		rf := filepath.Join(outDir, r.prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s, tier %s, seed %d\n\nfailed obligations:\n", r.prop, r.tier, r.seed)
		for _, f := range viol {
			fmt.Fprintf(&sb, "  %s\n      at %s: %s\n", f.name, f.pos, f.msg)
		}
		found := boundedFail
		sb.WriteString(boundedOut)
		if replayDir != "" && found == "" {
			secs := 60
			if r.tier == "thorough" {
				secs = 150
			}
			found, _ = runReplay(replayDir, repo, r.prop, r.seed, secs, &sb, r.t0)
		}
		for i, o := range r.obls {
			if !o.ok && o.msg == "" && i < 100000 {
				fmt.Fprintf(&sb, "\nverifier output for %s: %s by %s after %.1fs\n", o.name, o.res.status, o.res.solver, o.res.dur.Seconds())
			}
		}
		os.WriteFile(rf, []byte(sb.String()), 0644)
		for i, f := range viol {
			if i < 20 {
				fmt.Printf("failed obligation: %s (%s) %s\n", f.name, f.pos, f.msg)
			}
		}
		if found != "" {
			fmt.Printf("failing input: %s\n", found)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, rf)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", r.prop, rf)
		}
	} else {
		fmt.Printf("%s: %d/%d obligations discharged, %d functions under contract, %d loops (%d invariant conjuncts), %.1fs\n", r.prop, done, total, len(fns), loops, invs, time.Since(r.t0).Seconds())
	}
	if evidence != "" {
		ev := map[string]interface{}{
			"property": r.prop, "tier": r.tier, "seed": r.seed, "level": lvl, "coverage": cov,
			"wall_s": float64(int(time.Since(r.t0).Seconds()*100)) / 100, "assumptions": append([]string{}, assum...), "violations": len(viol),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(evidence), 0755)
		os.WriteFile(evidence, b, 0644)
	}
	return code
}

// runReplay looks for a concrete failing input against the real code.
func runReplay(dir, repo, prop string, seed int, secs int, sb *strings.Builder, t0 time.Time) (string, int) {
	left := 780*time.Second - time.Since(t0)
	if left < 30*time.Second {
		fmt.Fprintf(sb, "\nreplay: no time left\n")
		return "", 0
	}
	tmp, err := os.MkdirTemp("", "gvcreplay")
	if err != nil {
		return "", 0
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "replay")
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOSUMDB=off", "GOWORK=off")
	b := exec.Command("timeout", "200", "go", "build", "-o", bin, ".")
	b.Dir = dir
	b.Env = env
	if out, err := b.CombinedOutput(); err != nil {
		fmt.Fprintf(sb, "\nreplay harness does not build against this tree:\n%s\n", out)
		return "", 0
	}
	c := exec.Command("timeout", fmt.Sprint(secs+20), bin, "-prop", prop, "-seed", fmt.Sprint(seed), "-secs", fmt.Sprint(secs))
	c.Env = env
	c.Dir = tmp
	out, _ := c.CombinedOutput()
	fmt.Fprintf(sb, "\nreplay against the real code:\n%s\n", out)
	cases := 0
	for _, ln := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(ln, "CASES ") {
			fmt.Sscanf(ln, "CASES %d", &cases)
		}
	}
	for _, ln := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(ln, "FAIL ") {
			return strings.TrimPrefix(ln, "FAIL "), cases
		}
	}
	return "", cases
}
