package main

// Liveness of SSA values, used to forget dead values when states are merged.

import "golang.org/x/tools/go/ssa"

var liveMemo = map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}

// liveIn returns the values that may still be read after control enters b (its phis included).
func liveIn(b *ssa.BasicBlock) map[ssa.Value]bool {
	fn := b.Parent()
	if m, ok := liveMemo[fn]; ok {
		return m[b]
	}
	m := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, x := range fn.Blocks {
		m[x] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			x := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range x.Succs {
				for v := range m[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					live[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for pi, p := range s.Preds {
						if p == x {
							live[ph.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(x.Instrs) - 1; j >= 0; j-- {
				in := x.Instrs[j]
				if ph, ok := in.(*ssa.Phi); ok {
					live[ph] = true
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			if len(live) != len(m[x]) {
				m[x] = live
				changed = true
			}
		}
	}
	liveMemo[fn] = m
	return m[b]
}
