package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop of a function.
type Loop struct {
	ID     int
	Head   *ssa.BasicBlock
	Body   map[*ssa.BasicBlock]bool
	Latch  []*ssa.BasicBlock
	Parent *Loop
	// induction facts
	Full   bool      // the loop visits every index of its range: start, step and bound are those of a complete sweep
	Why    string    // why it is not full
	IV     ssa.Value // the induction phi
	Elem   ssa.Value // the value used as index inside the body (phi, or phi+1 for range loops)
	Bound  ssa.Value
	Coll   ssa.Value // the collection the bound is the length of, if any
	NConst int64     // constant trip count, or -1
}

func findLoops(f *ssa.Function) []*Loop {
	byHead := map[*ssa.BasicBlock]*Loop{}
	var out []*Loop
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHead[s]
				if l == nil {
					l = &Loop{Head: s, Body: map[*ssa.BasicBlock]bool{s: true}, NConst: -1}
					byHead[s] = l
					out = append(out, l)
				}
				l.Latch = append(l.Latch, b)
				// collect body
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.Body[x] {
						continue
					}
					l.Body[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	for i, l := range out {
		l.ID = i + 1
		for _, m := range out {
			if m != l && m.Body[l.Head] {
				if l.Parent == nil || len(m.Body) < len(l.Parent.Body) {
					l.Parent = m
				}
			}
		}
		classify(l)
	}
	return out
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			if isIntType(x.X.Type()) && isIntType(x.Type()) {
				v = x.X
				continue
			}
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return v
	}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isLenCall(v ssa.Value) (ssa.Value, bool) {
	c, ok := stripConv(v).(*ssa.Call)
	if !ok {
		return nil, false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return nil, false
	}
	return c.Call.Args[0], true
}

func addConst(v ssa.Value) (ssa.Value, int64, bool) {
	b, ok := stripConv(v).(*ssa.BinOp)
	if !ok {
		return nil, 0, false
	}
	switch b.Op {
	case token.ADD:
		if k, ok := constInt(b.Y); ok {
			return b.X, k, true
		}
		if k, ok := constInt(b.X); ok {
			return b.Y, k, true
		}
	case token.SUB:
		if k, ok := constInt(b.Y); ok {
			return b.X, -k, true
		}
	}
	return nil, 0, false
}

func classify(l *Loop) {
	h := l.Head
	if len(h.Instrs) == 0 {
		return
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		l.Why = "the loop has no condition at its head"
		return
	}
	inBody0, inBody1 := l.Body[h.Succs[0]], l.Body[h.Succs[1]]
	if inBody0 == inBody1 {
		l.Why = "the loop head does not decide the exit"
		return
	}
	cond := iff.Cond
	pol := inBody0 // condition value on which the body is entered
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, pol = u.X, !pol
			continue
		}
		break
	}
	// range over map / string / iterator
	if ex, ok := cond.(*ssa.Extract); ok {
		if nx, ok := ex.Tuple.(*ssa.Next); ok {
			l.Full = pol
			l.IV = nx
			l.Elem = nx
			if r, ok := nx.Iter.(*ssa.Range); ok {
				l.Coll = r.X
			}
			return
		}
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		l.Why = "unrecognised loop condition"
		return
	}
	op := bo.Op
	if !pol {
		op = negate(op)
	}
	x, y := stripConv(bo.X), stripConv(bo.Y)
	// orient: induction expression on the left
	iv, off := ivOf(x, l)
	if iv == nil {
		iv, off = ivOf(y, l)
		if iv == nil {
			l.Why = "no induction variable in the loop condition"
			return
		}
		x, y = y, x
		op = mirror(op)
	}
	l.IV = iv
	l.Elem = x
	l.Bound = y
	// start and step
	var start ssa.Value
	step := int64(0)
	okStep := true
	for i, e := range iv.Edges {
		p := iv.Block().Preds[i]
		if l.Body[p] {
			b, k, ok := addConst(e)
			if !ok || stripConv(b) != ssa.Value(iv) {
				okStep = false
				continue
			}
			if step != 0 && step != k {
				okStep = false
			}
			step = k
		} else {
			if start != nil && start != e {
				if a, ok := constInt(start); ok {
					if b, ok2 := constInt(e); ok2 && a == b {
						continue
					}
				}
				okStep = false
			}
			start = e
		}
	}
	if !okStep || start == nil {
		l.Why = "the index does not advance by a fixed step on every path"
		return
	}
	if step == 1 {
		k, ok := constInt(start)
		if !ok {
			l.Why = "the loop does not start at the first element"
			return
		}
		if k+off != 0 {
			l.Why = "the loop does not start at the first element"
			return
		}
		switch op {
		case token.LSS, token.NEQ:
		default:
			l.Why = "the loop bound is not the end of the range"
			return
		}
		if n, ok := constInt(y); ok {
			l.NConst = n
			l.Full = true
			return
		}
		if yi, ok := y.(ssa.Instruction); ok && l.Body[yi.Block()] {
			// recomputed in the loop: only len of something defined outside
			if c, ok := isLenCall(y); ok {
				if ci, ok := c.(*ssa.Phi); ok && l.Body[ci.Block()] {
					l.Why = "the bound changes while the loop runs"
					return
				}
			}
		}
		if c, ok := isLenCall(y); ok {
			l.Coll = c
			if why := truncated(c, 0); why != "" {
				l.Why = why
				return
			}
			l.Full = true
			return
		}
		switch yy := y.(type) {
		case *ssa.BinOp:
			l.Why = "the loop bound is arithmetic on a length"
			return
		case *ssa.Call:
			if b, ok := yy.Call.Value.(*ssa.Builtin); ok && b.Name() != "len" {
				l.Why = "the loop bound is " + b.Name() + "(...)"
				return
			}
		}
		l.Full = true
		return
	}
	if step == -1 {
		// descending from len-1 to 0
		b, k, ok := addConst(start)
		if !ok || k != -1 {
			l.Why = "descending loop does not start at the last element"
			return
		}
		c, isLen := isLenCall(b)
		if !isLen {
			l.Why = "descending loop does not start at the last element"
			return
		}
		if z, ok := constInt(y); !(ok && ((op == token.GEQ && z == 0) || (op == token.GTR && z == -1))) {
			l.Why = "descending loop does not reach the first element"
			return
		}
		l.Coll = c
		if why := truncated(c, 0); why != "" {
			l.Why = why
			return
		}
		l.Full = true
		return
	}
	l.Why = "the loop skips elements"
}

func ivOf(v ssa.Value, l *Loop) (*ssa.Phi, int64) {
	v = stripConv(v)
	if p, ok := v.(*ssa.Phi); ok && p.Block() == l.Head {
		return p, 0
	}
	if b, k, ok := addConst(v); ok {
		if p, ok := stripConv(b).(*ssa.Phi); ok && p.Block() == l.Head {
			return p, k
		}
	}
	return nil, 0
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

func mirror(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// truncated says why a collection value is a proper part of another collection, or "".
func truncated(v ssa.Value, d int) string {
	if d > 12 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Slice:
		if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr && x.High == nil {
			return "" // whole array
		}
		if x.High != nil {
			if c, ok := isLenCall(x.High); !ok || c != x.X {
				return "the loop covers only part of the collection (it is cut short)"
			}
		}
		if x.Low != nil {
			if k, ok := constInt(x.Low); !ok || k != 0 {
				if ok && fromSplit(x.X) {
					return ""
				}
				return "the loop covers only part of the collection (it starts late)"
			}
		}
		return truncated(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			if w := truncated(e, d+3); w != "" {
				return w
			}
		}
	case *ssa.ChangeType:
		return truncated(x.X, d+1)
	}
	return ""
}

func fromSplit(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	p, n := calleeID(c)
	return p == "strings" && (n == "Split" || n == "SplitN" || n == "Fields")
}
