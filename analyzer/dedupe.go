package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// droppedRepeats: a loop over the parts of a transaction must not pass over one because it resembles an earlier one
// (a lookup, in a map the same loop fills, decides that the element leaves no trace).
func droppedRepeats(c *Ctx, r *Report) {
	loops := 0
	for _, f := range c.Funcs {
		for _, h := range f.Blocks {
			body := loopBody(h)
			if body == nil {
				continue
			}
			loops++
			filled := map[ssa.Value]bool{}
			for b := range body {
				for _, ins := range b.Instrs {
					if u, ok := ins.(*ssa.MapUpdate); ok {
						filled[u.Map] = true
					}
				}
			}
			if len(filled) == 0 {
				continue
			}
			for b := range body {
				br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok || !fromLookup(br.Cond, filled, 0) {
					continue
				}
				s0, s1 := skips(b, b.Succs[0], h, body, filled), skips(b, b.Succs[1], h, body, filled)
				if s0 != s1 {
					r.fail("repeat-dropped", FName(f)+" passes over elements that resemble earlier ones", c.Pos(br.Cond.Pos()), "an element of the list leaves no trace when the map filled by the same loop already holds its key")
				}
			}
		}
	}
	r.Counts["loops examined for dropped repeats"] = loops
}

// loopBody: the blocks of the natural loop with header h.
func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	var body map[*ssa.BasicBlock]bool
	for _, p := range h.Preds {
		if !h.Dominates(p) {
			continue
		}
		if body == nil {
			body = map[*ssa.BasicBlock]bool{h: true}
		}
		w := []*ssa.BasicBlock{p}
		for len(w) > 0 {
			x := w[len(w)-1]
			w = w[:len(w)-1]
			if body[x] {
				continue
			}
			body[x] = true
			w = append(w, x.Preds...)
		}
	}
	return body
}

func fromLookup(v ssa.Value, maps map[ssa.Value]bool, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Lookup:
		return maps[x.X]
	case *ssa.Extract:
		return fromLookup(x.Tuple, maps, d+1)
	case *ssa.UnOp:
		return x.Op == token.NOT && fromLookup(x.X, maps, d+1)
	case *ssa.BinOp:
		return fromLookup(x.X, maps, d+1) || fromLookup(x.Y, maps, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fromLookup(e, maps, d+1) {
				return true
			}
		}
	}
	return false
}

// skips: from s the loop starts its next round with nothing done but filling the map.
func skips(from, s, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, filled map[ssa.Value]bool) bool {
	if !body[s] {
		return false
	}
	for i := 0; i < 20; i++ {
		if s == h {
			for _, ins := range h.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				for k, p := range h.Preds {
					if p != from {
						continue
					}
					if e := ph.Edges[k]; e != ph && !step(e, ph) {
						return false
					}
				}
			}
			return true
		}
		if !body[s] {
			return false
		}
		for _, ins := range s.Instrs {
			switch x := ins.(type) {
			case *ssa.MapUpdate:
				if !filled[x.Map] {
					return false
				}
			case *ssa.Store, *ssa.Call, *ssa.Send, *ssa.Return, *ssa.Panic, *ssa.Go, *ssa.Defer:
				return false
			}
		}
		if len(s.Succs) != 1 {
			return false
		}
		from, s = s, s.Succs[0]
	}
	return false
}

func step(e ssa.Value, ph *ssa.Phi) bool {
	b, ok := e.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	_, k := b.Y.(*ssa.Const)
	return k && b.X == ph
}
