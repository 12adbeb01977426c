package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (it *Interp) loopsOf(f *ssa.Function) []*Loop {
	l, ok := it.loops[f]
	if !ok {
		l = findLoops(f)
		it.loops[f] = l
	}
	return l
}

// failing: returns of f that certainly report failure (non-nil error, or false).
func failingReturns(f *ssa.Function) map[*ssa.Return]bool {
	out := map[*ssa.Return]bool{}
	rs := f.Signature.Results()
	ei, bi := -1, -1
	for i := 0; i < rs.Len(); i++ {
		if isErr(rs.At(i).Type()) {
			ei = i
		} else if isBool(rs.At(i).Type()) && rs.Len() > 1 {
			bi = i
		}
	}
	for _, b := range f.Blocks {
		ret, ok := lastInstr(b).(*ssa.Return)
		if !ok {
			continue
		}
		if ei >= 0 && ei < len(ret.Results) && errNonNilAt(ret.Results[ei], b) {
			out[ret] = true
		}
		if bi >= 0 && bi < len(ret.Results) {
			if k, ok := constBool(ret.Results[bi]); ok && !k {
				out[ret] = true
			}
		}
	}
	return out
}

// errNonNilAt: the error value is certainly non-nil in block b.
func errNonNilAt(v ssa.Value, b *ssa.BasicBlock) bool {
	if n, known := nilness(v); known {
		return !n
	}
	if p, ok := v.(*ssa.Phi); ok && p.Block() == b {
		for i, e := range p.Edges {
			if !errNonNilEdge(e, p.Block().Preds[i], b) {
				return false
			}
		}
		return true
	}
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		iff, ok := lastIf(id)
		if !ok {
			continue
		}
		for i, s := range id.Succs {
			if len(s.Preds) != 1 || !(s == b || s.Dominates(b)) {
				continue
			}
			c, pol := stripNot(iff.Cond, i == 0)
			bo, ok := c.(*ssa.BinOp)
			if !ok {
				continue
			}
			x := bo.X
			if isNilConst(x) {
				x = bo.Y
			} else if !isNilConst(bo.Y) {
				continue
			}
			if x == v && (bo.Op == token.NEQ) == pol && (bo.Op == token.NEQ || bo.Op == token.EQL) {
				return true
			}
		}
	}
	return false
}

func errNonNilEdge(v ssa.Value, from, to *ssa.BasicBlock) bool {
	if errNonNilAt(v, from) {
		return true
	}
	if iff, ok := lastIf(from); ok {
		for i, s := range from.Succs {
			if s != to {
				continue
			}
			c, pol := stripNot(iff.Cond, i == 0)
			if bo, ok := c.(*ssa.BinOp); ok {
				x := bo.X
				if isNilConst(x) {
					x = bo.Y
				} else if !isNilConst(bo.Y) {
					continue
				}
				if x == v && (bo.Op == token.NEQ) == pol && (bo.Op == token.NEQ || bo.Op == token.EQL) {
					return true
				}
			}
		}
	}
	return false
}

type act struct {
	it   *Interp
	fn   *ssa.Function
	env  map[ssa.Value]Val
	args []Val
	head map[*ssa.BasicBlock]*Loop

	lastPhi map[*ssa.Phi]Val
}

func orEmpty(m Mem) Mem {
	if m == nil {
		return Mem{}
	}
	return m
}

// Run analyses fn as an entry point with input objects for its parameters.
func (it *Interp) Entry(fn *ssa.Function) (res []Val, mem Mem, rets int) {
	mem = Mem{}
	var args []Val
	for i, p := range fn.Params {
		args = append(args, it.input(fmt.Sprintf("#%d", i), i, p.Type(), mem))
	}
	v, m, n := it.call(fn, args, mem, nil)
	if fn.Signature.Results().Len() == 1 {
		return []Val{v}, m, n
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		res = append(res, v.agg[fmt.Sprintf("#%d", i)])
	}
	return res, m, n
}

func (it *Interp) input(label string, i int, t types.Type, m Mem) Val {
	o := it.obj("param"+label, label, "param", t)
	o.input = true
	o.label = label
	o.pidx = i
	if isAggType(it, t) {
		v := Val{agg: map[string]Val{}}
		it.leaves(t, "", 0, func(p string, lt types.Type) {
			x, _ := it.readCell(m, o, p, lt)
			v.agg[p] = x
		})
		return v
	}
	v, _ := it.readCell(m, o, "", t)
	return v
}

func (it *Interp) call(fn *ssa.Function, args []Val, mem Mem, site ssa.Instruction) (Val, Mem, int) {
	it.stack = append(it.stack, fn)
	it.sites = append(it.sites, site)
	saved := it.curCtx
	it.setCtx()
	it.fnsSeen[fn] = true
	defer func() {
		it.stack = it.stack[:len(it.stack)-1]
		it.sites = it.sites[:len(it.sites)-1]
		it.curCtx = saved
	}()
	a := &act{it: it, fn: fn, env: map[ssa.Value]Val{}, args: args, head: map[*ssa.BasicBlock]*Loop{}, lastPhi: map[*ssa.Phi]Val{}}
	for _, l := range it.loopsOf(fn) {
		a.head[l.Head] = l
	}
	for i, p := range fn.Params {
		if i < len(args) {
			a.env[p] = args[i]
		}
	}
	out := map[*ssa.BasicBlock]Mem{}
	dead := map[*ssa.BasicBlock]map[int]bool{}
	// reverse postorder
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var po func(b *ssa.BasicBlock)
	po = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				po(s)
			}
		}
		order = append(order, b)
	}
	po(fn.Blocks[0])
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	type rv struct {
		v Val
		m Mem
	}
	rets := map[*ssa.Return]rv{}
	doBlock := func(b *ssa.BasicBlock, skipBack bool) {
		it.steps++
		if it.steps > it.limit {
			it.over = true
			return
		}
		var in Mem
		if b == fn.Blocks[0] {
			in = mem.clone()
		}
		// live predecessors
		var live []int
		for i, p := range b.Preds {
			if out[p] == nil || (skipBack && a.head[b] != nil && a.head[b].Body[p]) {
				continue
			}
			// is the edge p->b dead?
			isDead := true
			for si, s := range p.Succs {
				if s == b && !dead[p][si] {
					isDead = false
				}
			}
			if !isDead {
				live = append(live, i)
			}
		}
		if b != fn.Blocks[0] && len(live) == 0 {
			out[b] = nil
			return
		}
		l := a.head[b]
		hasBack := false
		if l != nil && l.Full {
			for _, i := range live {
				if l.Body[b.Preds[i]] {
					hasBack = true
				}
			}
		}
		for _, i := range live {
			pm := out[b.Preds[i]]
			back := l != nil && l.Body[b.Preds[i]]
			in = it.mergeMem(in, pm, hasBack, back)
		}
		// phis
		newPhi := map[ssa.Value]Val{}
		for _, ins := range b.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			var v Val
			var backMust LSet
			firstBack := true
			first := true
			for _, i := range live {
				e := a.val(p.Edges[i], in)
				if l != nil && hasBack && l.Body[b.Preds[i]] {
					if firstBack {
						backMust, firstBack = e.must, false
					} else {
						backMust = backMust.inter(e.must)
					}
				}
				if first {
					v, first = e, false
				} else {
					v = joinBack(v, e, hasBack && l.Body[b.Preds[i]])
				}
			}
			if hasBack && !firstBack {
				v.must = backMust
			}
			if l != nil && p == l.IV {
				v.k = nil
				if it.ivLab {
					i := it.label(fmt.Sprintf("iv:%s:%d", FName(fn), l.ID))
					v.may, v.must = v.may.with(i), v.must.with(i)
				}
			}
			if l != nil && !hasBack {
				// values change in later rounds; constants at loop heads are not trusted
				v.k = nil
			}
			if l != nil {
				v.k = nil
			}
			newPhi[p] = v
		}
		for p, v := range newPhi {
			a.env[p] = v
		}
		dead[b] = map[int]bool{}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
			case *ssa.If:
				if k := a.val(x.Cond, in).k; k != nil && k.Kind() == constant.Bool {
					if constant.BoolVal(k) {
						dead[b][1] = true
					} else {
						dead[b][0] = true
					}
				}
			case *ssa.Return:
				var v Val
				if len(x.Results) == 1 {
					v = a.val(x.Results[0], in)
				} else {
					v.agg = map[string]Val{}
					for i, r := range x.Results {
						v.agg[fmt.Sprintf("#%d", i)] = a.val(r, in)
					}
				}
				fr, ok := it.frets[fn]
				if !ok {
					fr = failingReturns(fn)
					it.frets[fn] = fr
				}
				if !fr[x] {
					rets[x] = rv{v, in}
				}
			default:
				a.instr(ins, in)
			}
		}
		out[b] = in
	}
	done := map[*ssa.BasicBlock]bool{}
	inLoop := func(b *ssa.BasicBlock) *Loop {
		var best *Loop
		for _, l := range it.loopsOf(fn) {
			if l.Body[b] && (best == nil || len(l.Body) < len(best.Body)) {
				best = l
			}
		}
		return best
	}
	var level func(l *Loop)
	var doLoop func(l *Loop)
	level = func(l *Loop) {
		for _, b := range order {
			if l != nil && !l.Body[b] {
				continue
			}
			if l != nil && b == l.Head {
				continue
			}
			if done[b] {
				continue
			}
			// the outermost loop below l that holds b
			var m *Loop
			for q := inLoop(b); q != nil && q != l; q = q.Parent {
				m = q
			}
			if m != nil {
				if b == m.Head {
					doLoop(m)
				}
				continue
			}
			doBlock(b, false)
		}
	}
	doLoop = func(l *Loop) {
		for _, b := range l.Latch {
			out[b] = nil
		}
		var prev Mem
		for k := 0; k < 6; k++ {
			doBlock(l.Head, k == 0)
			if it.over {
				return
			}
			level(l)
			// stable?
			cur := Mem{}
			for _, b := range l.Latch {
				cur = it.mergeMem(cur, orEmpty(out[b]), false, false)
			}
			envSame := true
			for _, ins := range l.Head.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				v := a.env[p]
				w, ok := a.lastPhi[p]
				if !ok || !eqVal(v, w) {
					envSame = false
				}
				a.lastPhi[p] = v
			}
			if k > 1 && envSame && it.eqMem(prev, cur) {
				break
			}
			prev = cur
		}
	}
	level(nil)
	if it.over {
		return Val{}, mem, 0
	}
	if len(rets) == 0 {
		return Val{}, mem, 0
	}
	var res Val
	var m Mem
	for _, b := range order {
		ret, ok := lastInstr(b).(*ssa.Return)
		if !ok {
			continue
		}
		r, ok := rets[ret]
		if !ok || out[b] == nil {
			continue
		}
		if m == nil {
			res, m = r.v, r.m.clone()
			continue
		}
		res = join(res, r.v)
		m = it.mergeMem(m, r.m, false, false)
	}
	if m == nil {
		return Val{}, mem, 0
	}
	return res, m, len(rets)
}

func joinBack(a, b Val, back bool) Val { return join(a, b) }

// mergeMem merges memory states; in a complete loop the state of the back edge decides the must sets.
func (it *Interp) mergeMem(a, b Mem, full, back bool) Mem {
	if a == nil {
		return b.clone()
	}
	for k, v := range b {
		w, ok := a[k]
		if !ok {
			a[k] = v
			continue
		}
		if eqVal(v, w) {
			continue
		}
		j := join(w, v)
		if full {
			if back {
				j.must = v.must
				j = backAgg(j, v)
			} else {
				j.must = w.must
				j = backAgg(j, w)
			}
		}
		a[k] = j
	}
	return a
}

func backAgg(j, v Val) Val {
	if j.agg == nil {
		return j
	}
	n := map[string]Val{}
	for k, x := range j.agg {
		if y, ok := v.agg[k]; ok {
			x.must = y.must
		}
		n[k] = x
	}
	j.agg = n
	return j
}

func (a *act) val(v ssa.Value, m Mem) Val {
	switch x := v.(type) {
	case *ssa.Const:
		r := Val{k: x.Value}
		if isAggType(a.it, x.Type()) {
			r = zeroVal(a.it, x.Type())
		}
		return r
	case *ssa.Global:
		return Val{pts: []Ref{{a.it.global(x), ""}}}
	case *ssa.Function:
		return Val{fn: x}
	case *ssa.Builtin:
		return Val{}
	}
	return a.env[v]
}

func (it *Interp) global(g *ssa.Global) *Obj {
	if o, ok := it.globs[g]; ok {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	o := it.obj("global:"+g.String(), g.Name(), "global", t)
	o.glob = g
	o.label = g.String()
	it.globs[g] = o
	return o
}

func (a *act) globalCell(o *Obj, p string, t types.Type, m Mem) {
	if _, ok := m[cellKey{o, p}]; ok {
		return
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		c := a.it.child(o, p, t)
		c.glob = o.glob
		m[cellKey{o, p}] = Val{pts: []Ref{{c, ""}}}
	default:
		m[cellKey{o, p}] = Val{}
	}
}

func (a *act) instr(ins ssa.Instruction, m Mem) {
	it := a.it
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := it.obj(it.ctx()+fmt.Sprintf("alloc:%p", x), x.Comment, "local", t)
		if arr, ok := t.Underlying().(*types.Array); ok && arr.Len() == 0 {
			// empty literal
		} else {
			for k := range m {
				if k.o == o {
					delete(m, k)
				}
			}
			it.leaves(t, "", 0, func(p string, lt types.Type) { m[cellKey{o, p}] = Val{} })
		}
		a.env[x] = Val{pts: []Ref{{o, ""}}}
	case *ssa.MakeSlice:
		o := it.obj(it.ctx()+fmt.Sprintf("make:%p", x), "make", "local", x.Type().Underlying().(*types.Slice).Elem())
		o.elems = true
		if k, ok := constInt(x.Len); ok && k == 0 {
		} else {
			it.leaves(o.typ, "[*]", 0, func(p string, lt types.Type) {
				if _, ok := m[cellKey{o, p}]; !ok {
					m[cellKey{o, p}] = Val{}
				}
			})
		}
		a.env[x] = Val{pts: []Ref{{o, ""}}}
	case *ssa.MakeMap:
		o := it.obj(it.ctx()+fmt.Sprintf("make:%p", x), "map", "local", x.Type().Underlying().(*types.Map).Elem())
		o.elems = true
		a.env[x] = Val{pts: []Ref{{o, ""}}}
	case *ssa.MakeInterface:
		v := a.val(x.X, m)
		v.dyn = x.X.Type()
		a.env[x] = v
		if it.OnError != nil && types.Identical(x.Type(), types.Universe.Lookup("error").Type()) {
			it.OnError(x, v, m, a.fn)
		}
	case *ssa.ChangeInterface:
		a.env[x] = a.val(x.X, m)
	case *ssa.ChangeType:
		a.env[x] = a.val(x.X, m)
	case *ssa.Convert:
		v := a.val(x.X, m)
		switch x.Type().Underlying().(type) {
		case *types.Slice:
			may, must := it.content(m, v)
			a.env[x] = it.fresh(x, "", x.Type(), m, may, must)
		case *types.Basic:
			if _, isS := x.X.Type().Underlying().(*types.Slice); isS {
				may, must := it.content(m, v)
				a.env[x] = Val{may: may, must: must}
			} else {
				nv := Val{may: v.may, must: v.must, k: v.k}
				if it.full {
					ws, wd := bitWidth(x.X.Type()), bitWidth(x.Type())
					if ws > 0 && wd > 0 && wd < ws {
						nv = a.narrow(x.X, wd, m)
						nv.k = v.k
					} else if (ws > 0) != (wd > 0) {
						nv = it.lossy(nv)
					}
				}
				if v.k != nil {
					nv.k = convConst(v.k, x.Type())
				}
				a.env[x] = nv
			}
		default:
			a.env[x] = v
		}
	case *ssa.SliceToArrayPointer:
		a.env[x] = a.val(x.X, m)
	case *ssa.MultiConvert:
		a.env[x] = a.val(x.X, m)
	case *ssa.FieldAddr:
		b := a.val(x.X, m)
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		fld := fieldName(st.Underlying().(*types.Struct), x.Field)
		r := Val{may: b.may, must: b.must, alias: nil, part: b.part}
		for _, ref := range b.pts {
			p := ref.p
			if !it.opaque(st) {
				p += "." + fld
			}
			r.pts = mergeRefs(r.pts, []Ref{{ref.o, p}})
		}
		a.env[x] = r
	case *ssa.Field:
		b := a.val(x.X, m)
		fld := fieldName(x.X.Type().Underlying().(*types.Struct), x.Field)
		a.env[x] = sub(b, "."+fld, x.Type(), it)
	case *ssa.IndexAddr:
		b := a.val(x.X, m)
		i := a.val(x.Index, m)
		r := Val{may: i.may, must: i.must, alias: b.alias, part: b.part}
		if _, k := constInt(x.Index); k {
			r.part = true
		}
		var et types.Type
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Pointer:
			et = u.Elem().Underlying().(*types.Array).Elem()
		}
		if _, basic := et.Underlying().(*types.Basic); basic {
			if _, isSl := x.X.Type().Underlying().(*types.Slice); isSl {
				r.may = r.may.union(b.may)
				r.must = r.must.union(b.must)
			}
		} else {
			r.may, r.must = ivOnly(it, i.may), ivOnly(it, i.must)
			r.may = r.may.union(ivOnly(it, b.may))
			r.must = r.must.union(ivOnly(it, b.must))
		}
		for _, ref := range b.pts {
			r.pts = mergeRefs(r.pts, []Ref{{ref.o, ref.p + "[*]"}})
		}
		a.env[x] = r
	case *ssa.Index:
		b := a.val(x.X, m)
		i := a.val(x.Index, m)
		if b.agg != nil {
			v := sub(b, "[*]", x.Type(), it)
			a.env[x] = it.addDeps(v, i.may, i.must)
		} else {
			a.env[x] = Val{may: b.may.union(i.may), must: b.must.union(i.must)}
			if _, k := constInt(x.Index); k {
				a.env[x] = it.lossy(a.env[x])
			}
		}
	case *ssa.UnOp:
		v := a.val(x.X, m)
		switch x.Op {
		case token.MUL:
			for _, r := range v.pts {
				if r.o.root == "global" {
					t := x.Type()
					if isAggType(it, t) {
						it.leaves(t, "", 0, func(p string, lt types.Type) { a.globalCell(r.o, r.p+p, lt, m) })
					} else {
						a.globalCell(r.o, r.p, t, m)
					}
				}
			}
			a.env[x] = it.load(m, v, x.Type())
		case token.NOT:
			nv := Val{may: v.may, must: v.must}
			if v.k != nil && v.k.Kind() == constant.Bool {
				nv.k = constant.MakeBool(!constant.BoolVal(v.k))
			}
			a.env[x] = nv
		default:
			a.env[x] = Val{may: v.may, must: v.must}
		}
	case *ssa.BinOp:
		l, r := a.val(x.X, m), a.val(x.Y, m)
		v := Val{may: l.may.union(r.may), must: l.must.union(r.must)}
		if x.Op == token.AND && (isZero(l.k) || isZero(r.k)) {
			v.must = LSet{}
			v.may = LSet{}
		}
		switch x.Op {
		case token.SHR, token.QUO, token.REM, token.AND, token.AND_NOT, token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			v = it.lossy(v)
		}
		if l.k != nil && r.k != nil {
			v.k = foldBin(x.Op, l.k, r.k, x.X.Type())
		}
		if isBool(x.Type()) && v.k == nil {
			if lk, ok := x.Y.(*ssa.Const); ok && lk.IsNil() {
				v = Val{}
			}
		}
		a.env[x] = v
	case *ssa.Slice:
		b := a.val(x.X, m)
		v := Val{may: b.may, must: b.must, pts: b.pts, alias: b.alias}
		if _, isP := x.X.Type().Underlying().(*types.Pointer); isP {
			v.may, v.must = LSet{}, LSet{}
			// a whole literal array: capacity equals length
			if x.High == nil && x.Max == nil {
				v.capped = true
			}
		}
		if x.Max != nil {
			v.capped = true
		}
		if x.Low != nil && !isZeroConst(x.Low) || x.High != nil {
			v = it.lossy(v)
			v.part = true
		}
		if b.part {
			v.part = true
		}
		for _, s := range []ssa.Value{x.Low, x.High} {
			if s != nil {
				q := it.lossy(a.val(s, m))
				if _, str := x.X.Type().Underlying().(*types.Basic); str {
					// alphabet[i:i+1]: the bounds are the data
					v.may, v.must = v.may.union(q.may), v.must.union(q.must)
				}
				v.may = v.may.union(ivOnly(it, q.may))
				v.must = v.must.union(ivOnly(it, q.must))
			}
		}
		a.env[x] = v
	case *ssa.Store:
		t := x.Val.Type()
		it.store(m, a.val(x.Addr, m), a.val(x.Val, m), t, x)
	case *ssa.MapUpdate:
		mp := a.val(x.Map, m)
		addr := Val{alias: mp.alias}
		for _, r := range mp.pts {
			addr.pts = append(addr.pts, Ref{r.o, r.p + "[*]"})
		}
		v := a.val(x.Value, m)
		k := a.val(x.Key, m)
		km, ku := it.content(m, k)
		it.store(m, addr, it.addDeps(v, km, ku), x.Value.Type(), x)
	case *ssa.Lookup:
		b := a.val(x.X, m)
		i := a.val(x.Index, m)
		var v Val
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			addr := Val{may: i.may, must: i.must}
			for _, r := range b.pts {
				addr.pts = append(addr.pts, Ref{r.o, r.p + "[*]"})
				if r.o.root == "global" {
					it.leaves(mt.Elem(), "[*]", 0, func(p string, lt types.Type) { a.globalCell(r.o, r.p+p, lt, m) })
				}
			}
			v = it.load(m, addr, mt.Elem())
		} else {
			v = Val{may: b.may.union(i.may), must: b.must.union(i.must)}
		}
		if x.CommaOk {
			a.env[x] = Val{agg: map[string]Val{"#0": v, "#1": {may: i.may, must: i.must}}}
		} else {
			a.env[x] = v
		}
	case *ssa.Range:
		a.env[x] = a.val(x.X, m)
	case *ssa.Next:
		b := a.val(x.Iter, m)
		var iv LSet
		if it.ivLab {
			for _, l := range it.loopsOf(a.fn) {
				if l.IV == ssa.Value(x) {
					iv = iv.with(it.label(fmt.Sprintf("iv:%s:%d", FName(a.fn), l.ID)))
				}
			}
		}
		if x.IsString {
			a.env[x] = Val{agg: map[string]Val{"#0": {}, "#1": {may: iv, must: iv}, "#2": {may: b.may.union(iv), must: b.must.union(iv)}}}
		} else {
			mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
			addr := Val{may: iv, must: iv}
			for _, r := range b.pts {
				addr.pts = append(addr.pts, Ref{r.o, r.p + "[*]"})
			}
			may, must := it.content(m, b)
			a.env[x] = Val{agg: map[string]Val{"#0": {}, "#1": {may: may.union(iv), must: must.union(iv)}, "#2": it.load(m, addr, mt.Elem())}}
		}
	case *ssa.Extract:
		t := a.val(x.Tuple, m)
		if t.agg != nil {
			a.env[x] = t.agg[fmt.Sprintf("#%d", x.Index)]
		} else {
			a.env[x] = t
		}
	case *ssa.TypeAssert:
		v := a.val(x.X, m)
		if x.CommaOk {
			a.env[x] = Val{agg: map[string]Val{"#0": v, "#1": {}}}
		} else {
			a.env[x] = v
		}
	case *ssa.MakeClosure:
		v := Val{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			v.binds = append(v.binds, a.val(b, m))
		}
		a.env[x] = v
	case *ssa.Call:
		a.env[x] = a.doCall(x, m)
	case *ssa.Defer:
		a.doCall(x, m)
	case *ssa.Go:
		a.doCall(x, m)
	case *ssa.Select, *ssa.Send, *ssa.MakeChan, *ssa.RunDefers, *ssa.Jump, *ssa.Panic, *ssa.DebugRef:
	default:
		panic(fmt.Sprintf("instruction %T is not modelled", ins))
	}
}

func isZeroConst(v ssa.Value) bool {
	k, ok := constInt(v)
	return ok && k == 0
}

// narrow is the conversion of an integer to a type of n bits.
func (a *act) narrow(v ssa.Value, n int, m Mem) Val {
	it := a.it
	off := 0
	for {
		b, ok := v.(*ssa.BinOp)
		if !ok {
			break
		}
		if b.Op == token.AND {
			if k, ok := constInt(b.Y); ok && n < 64 && k&(1<<uint(n)-1) == 1<<uint(n)-1 {
				v = b.X
				continue
			}
			break
		}
		if b.Op != token.SHR {
			break
		}
		k, ok := constInt(b.Y)
		if !ok {
			// a varying shift: taken to walk over the whole value
			x := a.val(b.X, m)
			return Val{may: x.may, must: x.must}
		}
		off += int(k)
		v = b.X
		for {
			c, ok := v.(*ssa.Convert)
			if !ok || bitWidth(c.X.Type()) == 0 || bitWidth(c.Type()) < bitWidth(c.X.Type()) {
				break
			}
			v = c.X
		}
	}
	return it.lanes(a.val(v, m), off, n)
}

func ivOnly(it *Interp, s LSet) LSet {
	if !it.ivLab {
		return LSet{}
	}
	var r LSet
	s.each(func(i int) {
		if strings.HasPrefix(it.labels[i], "iv:") {
			r = r.with(i)
		}
	})
	return r
}

func isZero(k constant.Value) bool {
	return k != nil && k.Kind() == constant.Int && constant.Sign(k) == 0
}

func convConst(k constant.Value, t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || k.Kind() != constant.Int {
		return nil
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.Uint64, types.Uint:
		return k
	case types.Uint8, types.Uint16, types.Uint32, types.Int8, types.Int16, types.Int32:
		n := map[types.BasicKind]int64{types.Uint8: 255, types.Uint16: 65535, types.Uint32: 1<<32 - 1, types.Int8: 127, types.Int16: 32767, types.Int32: 1<<31 - 1}[b.Kind()]
		if constant.Sign(k) >= 0 && constant.Compare(k, token.LEQ, constant.MakeInt64(n)) {
			return k
		}
	}
	return nil
}

func foldBin(op token.Token, a, b constant.Value, t types.Type) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.Kind() != b.Kind() {
			return nil
		}
		return constant.MakeBool(constant.Compare(a, op, b))
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
		if a.Kind() == constant.String {
			return nil
		}
		v := constant.BinaryOp(a, op, b)
		if v.Kind() == constant.Int && constant.Sign(v) >= 0 && constant.BitLen(v) < 31 {
			return convConst(v, t)
		}
	}
	return nil
}

// sub selects a component of an aggregate value.
func sub(b Val, pre string, t types.Type, it *Interp) Val {
	if b.agg == nil {
		v := Val{may: b.may, must: b.must}
		return v
	}
	if v, ok := b.agg[pre]; ok && !isAggType(it, t) {
		return v
	}
	v := Val{agg: map[string]Val{}}
	for k, x := range b.agg {
		if strings.HasPrefix(k, pre) {
			v.agg[k[len(pre):]] = x
		}
	}
	return v
}

func (a *act) doCall(ci ssa.CallInstruction, m Mem) Val {
	it := a.it
	cc := ci.Common()
	var args []Val
	if cc.IsInvoke() {
		args = append(args, a.val(cc.Value, m))
	}
	for _, x := range cc.Args {
		args = append(args, a.val(x, m))
	}
	if it.OnCall != nil {
		it.OnCall(ci, args, m, a.fn)
	}
	if it.Model != nil {
		if v, ok := it.Model(it, ci, args, m); ok {
			return v
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return a.builtin(b.Name(), ci, args, m)
	}
	f := cc.StaticCallee()
	if f == nil && cc.IsInvoke() && args[0].dyn != nil {
		// resolved through the known dynamic type
		sel := it.c.Prog.MethodSets.MethodSet(args[0].dyn).Lookup(cc.Method.Pkg(), cc.Method.Name())
		if sel != nil {
			f = it.c.Prog.MethodValue(sel)
		}
	}
	if f == nil && !cc.IsInvoke() {
		if v := a.val(cc.Value, m); v.fn != nil {
			f = v.fn
		}
	}
	if f != nil && it.c.inRepo(f) && isCodec(f) {
		// base-N codecs: the output is the input in another notation
		var may, must LSet
		for i, v := range args {
			if isAlphabet(f.Params[i].Type()) {
				continue
			}
			x, y := it.content(m, v)
			may, must = may.union(x), must.union(y)
		}
		it.call(f, args, m.clone(), ci) // for the effects
		return a.mkResult(ci, m, may, must)
	}
	if f != nil && it.c.inRepo(f) {
		depth := 0
		for _, g := range it.stack {
			if g == f {
				depth++
			}
		}
		if depth < 2 && len(it.stack) < 30 {
			v, nm, n := it.call(f, args, m, ci)
			if n == 0 {
				if f.Signature.Results().Len() > 1 {
					v = Val{agg: map[string]Val{}}
				}
			}
			for k := range m {
				if _, ok := nm[k]; !ok {
					delete(m, k)
				}
			}
			for k, x := range nm {
				m[k] = x
			}
			return v
		}
	}
	return a.external(ci, f, args, m)
}

func resultTypes(ci ssa.CallInstruction) []types.Type {
	var out []types.Type
	rs := ci.Common().Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		out = append(out, rs.At(i).Type())
	}
	return out
}

func (a *act) mkResult(ci ssa.CallInstruction, m Mem, may, must LSet) Val {
	ts := resultTypes(ci)
	if len(ts) == 1 {
		return a.it.fresh(ci, "", ts[0], m, may, must)
	}
	v := Val{agg: map[string]Val{}}
	for i, t := range ts {
		if isErr(t) {
			v.agg[fmt.Sprintf("#%d", i)] = Val{may: may}
			continue
		}
		v.agg[fmt.Sprintf("#%d", i)] = a.it.fresh(ci, fmt.Sprintf("#%d", i), t, m, may, must)
	}
	return v
}

// writesInto: argument index an external function writes through.
func writesInto(pkg, name string) (int, bool) {
	switch pkg {
	case "encoding/binary":
		if strings.Contains(name, "Put") {
			return -2, true // the []byte argument
		}
		if name == "Read" {
			return 2, true
		}
	case "encoding/hex":
		if name == "Encode" || name == "Decode" {
			return 0, true
		}
	case "encoding/json":
		if name == "Unmarshal" {
			return 1, true
		}
	case "io":
		if name == "ReadFull" {
			return 1, true
		}
	case "crypto/rand", "math/rand":
		if name == "Read" {
			return 0, true
		}
	case "sort":
		return 0, true
	}
	return 0, false
}

func (a *act) external(ci ssa.CallInstruction, f *ssa.Function, args []Val, m Mem) Val {
	it := a.it
	var may, must LSet
	for _, v := range args {
		x, y := it.content(m, v)
		may, must = may.union(x), must.union(y)
	}
	pkg, name := calleeID(ci)
	if it.full && isHash(pkg, name) {
		may, must = it.committed(may), it.committed(must)
	}
	if lossyExternal(pkg, name) && it.full {
		may, must = it.lossySet(may), it.lossySet(must)
	}
	fill := func(v Val, how string) {
		for _, o := range v.alias {
			it.event(o, "[*]", ci, how)
		}
		for _, r := range v.pts {
			it.event(r.o, r.p, ci, how)
			if r.o.elems || strings.Contains(r.p, "[*]") || it.opaqueObj(r.o) {
				p := r.p
				if r.o.elems && p == "" {
					p = "[*]"
				}
				old := m[cellKey{r.o, p}]
				if d, ok := m[cellKey{r.o, "**"}]; ok {
					old = both(old, d)
				}
				old.may = old.may.union(may)
				old.must = old.must.union(must)
				m[cellKey{r.o, p}] = old
				continue
			}
			for k := range m {
				if k.o == r.o && strings.HasPrefix(k.p, r.p) {
					delete(m, k)
				}
			}
			if r.p == "" {
				m[cellKey{r.o, "**"}] = Val{may: may, must: must}
			} else {
				m[cellKey{r.o, r.p}] = Val{may: may, must: must}
			}
		}
	}
	wi, w := writesInto(pkg, name)
	isRecv := ci.Common().IsInvoke() || (f != nil && f.Signature.Recv() != nil)
	cargs := ci.Common().Args
	for i, v := range args {
		var t types.Type
		if ci.Common().IsInvoke() {
			if i == 0 {
				t = ci.Common().Value.Type()
			} else {
				t = cargs[i-1].Type()
			}
		} else {
			t = cargs[i].Type()
		}
		switch t.Underlying().(type) {
		case *types.Pointer:
			if pkg == owcryptPath {
				continue
			}
			if i == 0 && isRecv && it.readOnlyMethod(pkg, name) {
				continue
			}
			if !isRecv && !w && (pkg == "fmt" || pkg == "encoding/json" || pkg == "errors") {
				continue
			}
			if isRecv && i > 0 {
				// operands of methods such as big.Int.Add
				continue
			}
			fill(v, "write")
		case *types.Slice:
			if w && (wi == i || (wi == -2 && isByteSlice(t))) {
				fill(v, "write")
			}
		case *types.Interface:
			if w && wi == i {
				fill(v, "write")
			}
			if i == 0 && ci.Common().IsInvoke() && !it.readOnlyMethod(pkg, name) {
				fill(v, "write")
			}
			if pkg == "github.com/tendermint/go-amino" || strings.HasPrefix(name, "Unmarshal") || strings.HasSuffix(name, ".UnmarshalJSON") {
				if strings.Contains(name, "Unmarshal") {
					fill(v, "write")
				}
			}
		}
	}
	res := a.mkResult(ci, m, may, must)
	// methods that return their receiver
	ts := resultTypes(ci)
	if len(args) > 0 && len(ts) == 1 && isRecv && !ci.Common().IsInvoke() && types.Identical(ts[0], cargs[0].Type()) {
		return args[0]
	}
	return res
}

// isHash: a digest of the operands; any part of it still commits to all of them.
func isHash(pkg, name string) bool {
	n := name[strings.LastIndex(name, ".")+1:]
	switch {
	case pkg == owcryptPath:
		return n == "Hash" || n == "Hmac"
	case pkg == "hash", strings.HasPrefix(pkg, "crypto/sha"), strings.HasPrefix(pkg, "golang.org/x/crypto/"):
		return strings.HasPrefix(n, "Sum")
	}
	return false
}

func (it *Interp) committed(s LSet) LSet {
	s.inter(it.fullMask).each(func(i int) {
		s = s.with(it.label(strings.TrimSuffix(it.labels[i], "!") + "$"))
	})
	return s
}

// lossyExternal: library calls whose result may hold only a part of their operand.
func lossyExternal(pkg, name string) bool {
	switch pkg {
	case "strings", "bytes":
		return strings.HasPrefix(name, "Trim") || strings.HasPrefix(name, "Split") || strings.HasPrefix(name, "Replace") || name == "Fields" || name == "Cut"
	case "math/big":
		switch name[strings.LastIndex(name, ".")+1:] {
		case "Mod", "Rem", "Div", "Quo", "Rsh", "And", "QuoRem", "DivMod", "Cmp", "Sign", "BitLen":
			return true
		}
	}
	return false
}

func (it *Interp) readOnlyMethod(pkg, name string) bool {
	i := strings.LastIndex(name, ".")
	n := name[i+1:]
	switch pkg {
	case "math/big":
		switch n {
		case "Bytes", "Cmp", "Sign", "BitLen", "Bit", "Int64", "Uint64", "String", "Text", "CmpAbs", "IsInt64", "IsUint64", "ProbablyPrime":
			return true
		}
	case "bytes":
		switch n {
		case "Bytes", "Len", "String", "Cap":
			return true
		}
	case "hash":
		return n == "Sum" || n == "Size" || n == "BlockSize"
	case "":
		return n == "Error"
	}
	return n == "Error" || n == "String" || n == "Sum"
}

func (a *act) builtin(name string, ci ssa.CallInstruction, args []Val, m Mem) Val {
	it := a.it
	switch name {
	case "append":
		dst := args[0]
		cargs := ci.Common().Args
		st, ok := cargs[0].Type().Underlying().(*types.Slice)
		if !ok {
			return dst
		}
		if len(args) < 2 {
			return dst
		}
		src := args[1]
		// spare capacity of caller memory may be written
		if !dst.capped {
			for _, r := range dst.pts {
				if !emptySrc(cargs[1]) {
					it.event(r.o, r.p+"[*]", ci, "append")
				}
			}
			for _, o := range dst.alias {
				it.event(o, "[*]", ci, "append")
			}
		}
		dm, du := it.content(m, dst)
		sm, su := it.content(m, src)
		o := it.obj(it.ctx()+fmt.Sprintf("append:%p", ci), "append", "local", st.Elem())
		o.elems = true
		v := Val{may: dm.union(sm), must: du.union(su), pts: []Ref{{o, ""}}}
		v.alias = dst.alias
		if !dst.capped {
			for _, r := range dst.pts {
				if r.o.root != "local" {
					v.alias = mergeObjs(v.alias, []*Obj{r.o})
				}
			}
		}
		// element-wise content
		if _, basic := st.Elem().Underlying().(*types.Basic); basic {
			m[cellKey{o, "[*]"}] = Val{may: v.may, must: v.must}
			return v
		}
		cells := map[string]Val{}
		for _, part := range []Val{dst, src} {
			pc := map[string]Val{}
			n := 0
			for _, r := range part.pts {
				if r.o == o && len(part.pts) > 0 && part.pts[0].o == o && len(part.pts) == 1 {
				}
				if r.o.input || r.o.root == "global" {
					it.leaves(st.Elem(), "[*]", 0, func(p string, lt types.Type) { it.readCell(m, r.o, r.p+p, lt) })
				}
				if d, ok := m[cellKey{r.o, "**"}]; ok {
					_ = d
					it.leaves(st.Elem(), "[*]", 0, func(p string, lt types.Type) { it.readCell(m, r.o, r.p+p, lt) })
				}
				rc := map[string]Val{}
				for k, x := range m {
					if k.o == r.o && strings.HasPrefix(k.p, r.p+"[*]") {
						rc[k.p[len(r.p):]] = x
					}
				}
				if len(rc) == 0 {
					continue
				}
				if n == 0 {
					pc = rc
				} else {
					for k, x := range rc {
						if y, ok := pc[k]; ok {
							pc[k] = join(y, x)
						} else {
							pc[k] = x
						}
					}
				}
				n++
			}
			for k, x := range pc {
				if y, ok := cells[k]; ok {
					cells[k] = both(y, x)
				} else {
					cells[k] = x
				}
			}
		}
		for k := range m {
			if k.o == o {
				delete(m, k)
			}
		}
		for k, x := range cells {
			m[cellKey{o, k}] = x
		}
		return v
	case "copy":
		sm, su := it.content(m, args[1])
		for _, o := range args[0].alias {
			it.event(o, "[*]", ci, "copy")
		}
		for _, r := range args[0].pts {
			it.event(r.o, r.p+"[*]", ci, "copy")
			k := cellKey{r.o, r.p + "[*]"}
			old, ok := m[k]
			if !ok {
				old = m[cellKey{r.o, "**"}]
			}
			old.may, old.must = old.may.union(sm), old.must.union(su)
			m[k] = old
		}
		// element-wise for slices of structs or slices
		upd := Mem{}
		for _, s := range args[1].pts {
			for k, x := range m {
				if k.o == s.o && strings.HasPrefix(k.p, s.p+"[*]") {
					for _, r := range args[0].pts {
						upd[cellKey{r.o, r.p + k.p[len(s.p):]}] = x
					}
				}
			}
		}
		for k, x := range upd {
			if old, ok := m[k]; ok {
				x = both(old, x)
			}
			m[k] = x
		}
		return Val{}
	case "len", "cap":
		return Val{}
	case "panic", "print", "println", "delete", "close", "recover", "clear":
		return Val{}
	case "min", "max":
		var v Val
		for _, x := range args {
			v.may, v.must = v.may.union(x.may), v.must.union(x.must)
		}
		return v
	case "ssa:wrapnilchk":
		return args[0]
	}
	return Val{}
}

func emptySrc(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && (k.IsNil() || (k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == ""))
}

func isAlphabet(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Alphabet"
}

// isCodec: converts data to or from a base-N notation given by an alphabet.
func isCodec(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isAlphabet(p.Type()) {
			return true
		}
	}
	return false
}
