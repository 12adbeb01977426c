package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// countWidths: the number of records of a transaction is written as one byte only where it is known to fit.
func countWidths(c *Ctx, r *Report) {
	n := 0
	done := map[string]bool{}
	for _, f := range c.Funcs {
		if f.Pkg == nil || !isTxPkg(strings.TrimPrefix(pkgOf(FName(f)), "/")) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				cv, ok := ins.(*ssa.Convert)
				if !ok {
					continue
				}
				bt, ok := cv.Type().Underlying().(*types.Basic)
				if !ok || bt.Kind() != types.Uint8 {
					continue
				}
				el := lenOfRecords(cv.X)
				if el == "" {
					continue
				}
				n++
				key := pkgOf(FName(f)) + " count of " + el
				if boundedAbove(f, b, cv.X, el) || lengthChecked(cv) {
					r.ok("count-width", key+" in "+FName(f), c.Pos(cv.Pos()), "the number of records is bounded before it is written as one byte, or only compared")
					continue
				}
				if !done[key] {
					done[key] = true
					r.fail("count-width", key, c.Pos(cv.Pos()), "the number of records is cut to one byte with nothing refusing more than 252 of them")
				}
			}
		}
	}
	r.Counts["one-byte counts of records"] = n
}

func lenOfRecords(v ssa.Value) string {
	call, ok := v.(*ssa.Call)
	if !ok {
		return ""
	}
	bi, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" {
		return ""
	}
	sl, ok := call.Call.Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		return ""
	}
	t := sl.Elem()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() != types.String {
		return ""
	}
	return types.TypeString(t, func(*types.Package) string { return "" })
}

func boundedAbove(f *ssa.Function, at *ssa.BasicBlock, v ssa.Value, el string) bool {
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 || !b.Dominates(at) || b == at {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch cmp.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		default:
			continue
		}
		for _, pr := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
			if lenOfRecords(pr[0]) != el {
				continue
			}
			k, ok := pr[1].(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
				continue
			}
			x, _ := constant.Int64Val(k.Value)
			if x > 1 && x <= 256 {
				return true
			}
		}
	}
	return false
}

// lengthChecked: the converted number only takes part in comparisons.
func lengthChecked(cv *ssa.Convert) bool {
	for _, u := range *cv.Referrers() {
		if b, ok := u.(*ssa.BinOp); ok {
			switch b.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				continue
			}
		}
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		return false
	}
	return true
}
