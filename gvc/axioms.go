package main

// Background theory: facts about interpreted helper functions.  Everything here is part of the trusted base.

import (
	"sort"
	"strings"
)

var userAxioms []*Term

type axgen struct {
	fn   string // triggering function symbol
	make func() []*Term
}

func v1(n, s string) *Term { return BVar(n, s) }

func all1(srt string, f func(x *Term) (*Term, []*Term)) *Term {
	x := v1("x", srt)
	b, p := f(x)
	return Forall([]*Term{x}, b, p)
}

func all2(s1, s2 string, f func(x, y *Term) (*Term, []*Term)) *Term {
	x, y := v1("x", s1), v1("y", s2)
	b, p := f(x, y)
	return Forall([]*Term{x, y}, b, p)
}

func rapp(n string, a ...*Term) *Term { return App(n, "Real", a...) }

var axTab = map[string]func() []*Term{}

var r0, r1, rm1 = RealF(0), RealF(1), RealF(-1)

func init() {
	axTab["sidx"] = func() []*Term {
		return []*Term{all2("Int", "Int", func(x, y *Term) (*Term, []*Term) {
			t := App("sidx", "Int", x, y)
			return Eq(t, Add(x, y)), []*Term{t}
		})}
	}
	// mark(i) is always true; it names index i for the instantiation of quantifiers
	axTab["mark"] = func() []*Term {
		return []*Term{all1("Int", func(x *Term) (*Term, []*Term) {
			t := App("mark", "Bool", x)
			return t, []*Term{t}
		})}
	}
	axTab["strlen"] = func() []*Term {
		return []*Term{all1("Str", func(x *Term) (*Term, []*Term) {
			t := App("strlen", "Int", x)
			return And(Le(Int(0), t), Eq(Eq(t, Int(0)), Eq(x, StrLit("")))), []*Term{t}
		})}
	}
	axTab["strat"] = func() []*Term {
		return []*Term{all2("Str", "Int", func(x, y *Term) (*Term, []*Term) {
			t := App("strat", "Int", x, y)
			return And(Le(Int(0), t), Le(t, Int(255))), []*Term{t}
		})}
	}
	axTab["strcat"] = func() []*Term {
		return []*Term{all2("Str", "Str", func(x, y *Term) (*Term, []*Term) {
			t := App("strcat", "Str", x, y)
			return Eq(App("strlen", "Int", t), Add(App("strlen", "Int", x), App("strlen", "Int", y))), []*Term{t}
		})}
	}
	axTab["runecount"] = func() []*Term {
		return []*Term{all1("Str", func(x *Term) (*Term, []*Term) {
			t := App("runecount", "Int", x)
			return And(Le(Int(0), t), Le(t, App("strlen", "Int", x))), []*Term{t}
		})}
	}
	// ---- IEEE-754 double arithmetic on finite values, round to nearest, no overflow
	axTab["fadd"] = func() []*Term {
		f := func(a, b *Term) *Term { return mk("app", "fadd", "Real", a, b) }
		DeclFun("fadd", []string{"Real", "Real"}, "Real")
		var out []*Term
		out = append(out, all2("Real", "Real", func(a, b *Term) (*Term, []*Term) {
			t := f(a, b)
			return And(
				Implies(Le(r0, b), Le(a, t)), Implies(Le(b, r0), Le(t, a)),
				Implies(Le(r0, a), Le(b, t)), Implies(Le(a, r0), Le(t, b)),
				Eq(Eq(t, r0), Eq(a, Neg(b)))), []*Term{t}
		}))
		a, b, c := v1("a", "Real"), v1("b", "Real"), v1("c", "Real")
		out = append(out, Forall([]*Term{a, b, c}, Implies(Le(a, b), Le(f(a, c), f(b, c))), []*Term{f(a, c), f(b, c)}))
		out = append(out, Forall([]*Term{a, b, c}, Implies(Le(a, b), Le(f(a, c), f(c, b))), []*Term{f(a, c), f(c, b)}))
		out = append(out, Forall([]*Term{a, b, c}, Implies(Le(a, b), Le(f(c, a), f(b, c))), []*Term{f(c, a), f(b, c)}))
		out = append(out, Forall([]*Term{a, b, c}, Implies(Le(a, b), Le(f(c, a), f(c, b))), []*Term{f(c, a), f(c, b)}))
		return out
	}
	axTab["fsub"] = func() []*Term {
		f := func(a, b *Term) *Term { return mk("app", "fsub", "Real", a, b) }
		DeclFun("fsub", []string{"Real", "Real"}, "Real")
		var out []*Term
		out = append(out, all2("Real", "Real", func(a, b *Term) (*Term, []*Term) {
			t := f(a, b)
			return And(
				Eq(Le(r0, t), Le(b, a)), Eq(Eq(t, r0), Eq(a, b)),
				Implies(Le(r0, b), Le(t, a)), Implies(Le(b, r0), Le(a, t)),
				Implies(Le(r0, a), Le(Neg(b), t)), Implies(Le(a, r0), Le(t, Neg(b)))), []*Term{t}
		}))
		a, b, c := v1("a", "Real"), v1("b", "Real"), v1("c", "Real")
		out = append(out, Forall([]*Term{a, b, c}, Implies(Le(a, b), Le(f(a, c), f(b, c))), []*Term{f(a, c), f(b, c)}))
		out = append(out, Forall([]*Term{a, b, c}, Implies(Le(a, b), Le(f(c, b), f(c, a))), []*Term{f(c, a), f(c, b)}))
		// x - y = -(y - x)
		out = append(out, Forall([]*Term{a, b}, Eq(f(a, b), Neg(f(b, a))), []*Term{f(a, b), f(b, a)}))
		return out
	}
	axTab["fmul"] = func() []*Term {
		f := func(a, b *Term) *Term { return mk("app", "fmul", "Real", a, b) }
		DeclFun("fmul", []string{"Real", "Real"}, "Real")
		var out []*Term
		out = append(out, all2("Real", "Real", func(a, b *Term) (*Term, []*Term) {
			t := f(a, b)
			return And(
				Implies(And(Le(r0, a), Le(r0, b)), Le(r0, t)),
				Implies(And(Le(a, r0), Le(r0, b)), Le(t, r0)),
				Implies(And(Le(r0, a), Le(b, r0)), Le(t, r0)),
				Implies(And(Le(a, r0), Le(b, r0)), Le(r0, t)),
				Implies(And(Le(r0, a), Le(r0, b), Le(b, r1)), Le(t, a)),
				Implies(And(Le(r0, b), Le(r0, a), Le(a, r1)), Le(t, b)),
				Implies(And(Le(a, r0), Le(r0, b), Le(b, r1)), Le(a, t)),
				Implies(And(Le(b, r0), Le(r0, a), Le(a, r1)), Le(b, t)),
				Implies(And(Le(r0, a), Le(r1, b)), Le(a, t)),
				Implies(And(Le(r0, b), Le(r1, a)), Le(b, t)),
				Implies(Or(Eq(a, r0), Eq(b, r0)), Eq(t, r0))), []*Term{t}
		}))
		a, b, c := v1("a", "Real"), v1("b", "Real"), v1("c", "Real")
		mono := func(x, y *Term) {
			out = append(out, Forall([]*Term{a, b, c}, And(Implies(And(Le(r0, c), Le(a, b)), Le(x, y)), Implies(And(Le(c, r0), Le(a, b)), Le(y, x))), []*Term{x, y}))
		}
		mono(f(a, c), f(b, c))
		mono(f(a, c), f(c, b))
		mono(f(c, a), f(b, c))
		mono(f(c, a), f(c, b))
		return out
	}
	axTab["fdiv"] = func() []*Term {
		f := func(a, b *Term) *Term { return mk("app", "fdiv", "Real", a, b) }
		DeclFun("fdiv", []string{"Real", "Real"}, "Real")
		var out []*Term
		out = append(out, all2("Real", "Real", func(a, b *Term) (*Term, []*Term) {
			t := f(a, b)
			return And(
				Implies(And(Le(r0, a), Lt(r0, b)), Le(r0, t)),
				Implies(And(Le(a, r0), Lt(r0, b)), Le(t, r0)),
				Implies(And(Le(r0, a), Lt(b, r0)), Le(t, r0)),
				Implies(And(Le(a, r0), Lt(b, r0)), Le(r0, t)),
				Implies(And(Le(r0, a), Le(a, b), Lt(r0, b)), Le(t, r1)),
				Implies(And(Lt(r0, b), Le(b, a)), Le(r1, t)),
				Implies(And(Eq(a, b), Not(Eq(b, r0))), Eq(t, r1)),
				Implies(And(Eq(a, r0), Not(Eq(b, r0))), Eq(t, r0)),
				Implies(And(Le(r0, a), Le(r1, b)), Le(t, a))), []*Term{t}
		}))
		a, b, c := v1("a", "Real"), v1("b", "Real"), v1("c", "Real")
		out = append(out, Forall([]*Term{a, b, c}, Implies(And(Lt(r0, c), Le(a, b)), Le(f(a, c), f(b, c))), []*Term{f(a, c), f(b, c)}))
		return out
	}
	unary := func(n string, f func(x, t *Term) *Term) {
		axTab[n] = func() []*Term {
			return []*Term{all1("Real", func(x *Term) (*Term, []*Term) {
				t := rapp(n, x)
				return f(x, t), []*Term{t}
			})}
		}
	}
	unary("math.Sin", func(x, t *Term) *Term {
		return And(Le(rm1, t), Le(t, r1), Implies(Eq(x, r0), Eq(t, r0)))
	})
	unary("math.Cos", func(x, t *Term) *Term {
		return And(Le(rm1, t), Le(t, r1), Implies(Eq(x, r0), Eq(t, r1)),
			// up to rounding: 90 degrees in radians exceeds pi/2 by less than 1e-16
			Implies(And(Le(RealF(-1.5707963267948968), x), Le(x, RealF(1.5707963267948968))), Le(r0, t)))
	})
	axTab["math.Cos"] = wrapAx(axTab["math.Cos"], func() []*Term {
		a, b := v1("a", "Real"), v1("b", "Real")
		x, y := rapp("math.Cos", a), rapp("math.Cos", b)
		return []*Term{Forall([]*Term{a, b}, Implies(Eq(a, Neg(b)), Eq(x, y)), []*Term{x, y})}
	})
	axTab["math.Sin"] = wrapAx(axTab["math.Sin"], func() []*Term {
		a, b := v1("a", "Real"), v1("b", "Real")
		x, y := rapp("math.Sin", a), rapp("math.Sin", b)
		return []*Term{Forall([]*Term{a, b}, Implies(Eq(a, Neg(b)), Eq(x, Neg(y))), []*Term{x, y})}
	})
	unary("math.Sqrt", func(x, t *Term) *Term {
		return And(Implies(Le(r0, x), Le(r0, t)), Implies(Eq(x, r0), Eq(t, r0)), Implies(And(Le(r0, x), Le(x, r1)), Le(t, r1)))
	})
	halfPi := 1.5707963267948966
	pi := 3.141592653589793
	unary("math.Asin", func(x, t *Term) *Term {
		return And(Le(RealF(-halfPi), t), Le(t, RealF(halfPi)), Implies(Le(r0, x), Le(r0, t)), Implies(Eq(x, r0), Eq(t, r0)))
	})
	axTab["math.Atan2"] = func() []*Term {
		return []*Term{all2("Real", "Real", func(y, x *Term) (*Term, []*Term) {
			t := rapp("math.Atan2", y, x)
			return And(Le(RealF(-pi), t), Le(t, RealF(pi)), Implies(Le(r0, y), Le(r0, t)), Implies(And(Eq(y, r0), Le(r0, x)), Eq(t, r0))), []*Term{t}
		})}
	}
	axTab["math.Mod"] = func() []*Term {
		return []*Term{all2("Real", "Real", func(x, y *Term) (*Term, []*Term) {
			t := rapp("math.Mod", x, y)
			return And(
				Implies(And(Lt(r0, y), Le(r0, x)), And(Le(r0, t), Lt(t, y))),
				Implies(And(Lt(r0, y), Le(x, r0)), And(Lt(Neg(y), t), Le(t, r0))),
				Implies(And(Lt(Neg(y), x), Lt(x, y)), Eq(t, x))), []*Term{t}
		})}
	}
	axTab["math.Pow"] = func() []*Term {
		two := RealF(2)
		x := v1("x", "Real")
		t := rapp("math.Pow", x, two)
		a, b := v1("a", "Real"), v1("b", "Real")
		ta, tb := rapp("math.Pow", a, two), rapp("math.Pow", b, two)
		return []*Term{
			Forall([]*Term{x}, And(Le(r0, t), Implies(Eq(x, r0), Eq(t, r0)), Implies(And(Le(rm1, x), Le(x, r1)), Le(t, r1))), []*Term{t}),
			Forall([]*Term{a, b}, Implies(Eq(a, Neg(b)), Eq(ta, tb)), []*Term{ta, tb}),
		}
	}
	axTab["f32round"] = func() []*Term {
		return []*Term{all1("Real", func(x *Term) (*Term, []*Term) {
			t := rapp("f32round", x)
			return And(Implies(Le(r0, x), Le(r0, t)), Implies(Le(x, r0), Le(t, r0))), []*Term{t}
		})}
	}
	for _, n := range []string{"band", "bandnot"} {
		n := n
		axTab[n] = func() []*Term {
			return []*Term{all2("Int", "Int", func(x, y *Term) (*Term, []*Term) {
				t := App(n, "Int", x, y)
				return Implies(Le(Int(0), x), And(Le(Int(0), t), Le(t, x))), []*Term{t}
			})}
		}
	}
}

func wrapAx(a func() []*Term, b func() []*Term) func() []*Term {
	return func() []*Term { return append(a(), b()...) }
}

var axMemo = map[string][]*Term{}

func axiomsFor(c *collected, floatMode string) []*Term {
	var out []*Term
	done := map[string]bool{}
	usedUser := map[int]bool{}
	add := func(ts []*Term) {
		for _, t := range ts {
			out = append(out, t)
			c.walk(t)
		}
	}
	for round := 0; round < 8; round++ {
		var fs []string
		for f := range c.funs {
			if !done[f] {
				fs = append(fs, f)
			}
		}
		sort.Strings(fs)
		for _, f := range fs {
			done[f] = true
			if g, ok := axTab[f]; ok {
				if axMemo[f] == nil {
					axMemo[f] = g()
				}
				add(axMemo[f])
			}
			if strings.HasPrefix(f, "box.") || strings.HasPrefix(f, "unbox.") {
				n := strings.TrimPrefix(f, "un")
				if done["$"+n] {
					continue
				}
				done["$"+n] = true
				if axMemo[n] == nil {
					axMemo[n] = boxAxioms(n)
				}
				add(axMemo[n])
			}
			if f == "tagof" {
				add([]*Term{Eq(App("tagof", "Int", nilIface()), Int(0))})
			}
		}
		for i, t := range userAxioms {
			if usedUser[i] {
				continue
			}
			if userRel(t, c) {
				usedUser[i] = true
				add([]*Term{t})
			}
		}
		if len(fs) == 0 {
			break
		}
	}
	// function values are not nil
	var fns []string
	for n := range c.consts {
		if strings.HasPrefix(n, "fn:") {
			fns = append(fns, n)
		}
	}
	sort.Strings(fns)
	for _, n := range fns {
		add([]*Term{Not(Eq(Sym(n, "Fn"), nilFn()))})
	}
	return out
}

func boxAxioms(n string) []*Term {
	srt, ok := boxSorts[n]
	if !ok {
		return nil
	}
	tag := Int(int64(typeTags[strings.TrimPrefix(n, "box.")]))
	x := v1("x", srt)
	bx := App(n, "Iface", x)
	v := v1("v", "Iface")
	un := App("un"+n, srt, v)
	return []*Term{
		Forall([]*Term{x}, And(Eq(App("un"+n, srt, bx), x), Eq(App("tagof", "Int", bx), tag), Not(Eq(bx, nilIface()))), []*Term{bx}),
		Forall([]*Term{v}, Implies(Eq(App("tagof", "Int", v), tag), Eq(App(n, "Iface", un), v)), []*Term{un}),
	}
}

func userRel(t *Term, c *collected) bool {
	found := false
	seen := map[int]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if found || seen[x.id] {
			return
		}
		seen[x.id] = true
		if x.op == "app" && c.funs[x.name] {
			if _, builtin := axTab[x.name]; !builtin && x.name != "tagof" && !strings.HasPrefix(x.name, "box.") && !strings.HasPrefix(x.name, "unbox.") {
				found = true
				return
			}
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(t)
	return found
}
