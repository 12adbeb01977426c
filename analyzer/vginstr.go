package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func intInfo(t types.Type) (w int, signed, ok bool) {
	k := kindOf(t)
	if k == "" || (k[0] != 'u' && k[0] != 'i') {
		return 0, false, false
	}
	fmt.Sscanf(k[1:], "%d", &w)
	return w, k[0] == 'i', true
}

func (e *VG) wrap(x *T, t types.Type) *T {
	w, s, ok := intInfo(t)
	if !ok {
		return x
	}
	if s {
		return e.b.Signed(w, x)
	}
	return e.b.Trunc(w, x)
}

func (e *VG) instr(fr *vframe, ins ssa.Instruction, m vmem, c *T) {
	b := e.b
	set := func(v ssa.Value, t *T) { fr.env[v] = t }
	val := func(v ssa.Value) *T { return e.val(fr, v, m) }
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		set(x, e.adr(e.newObj(t, e.zero(t))))
	case *ssa.BinOp:
		set(x, e.binop(x, val(x.X), val(x.Y), m))
	case *ssa.UnOp:
		v := val(x.X)
		switch x.Op {
		case token.MUL:
			set(x, e.load(m, v, x.Type()))
		case token.NOT:
			if v.op == "?" {
				set(x, v)
			} else {
				set(x, b.Not(b.atom(v)))
			}
		case token.SUB:
			set(x, e.wrap(b.MulK(v, big.NewInt(-1)), x.Type()))
		case token.XOR:
			set(x, e.wrap(b.SubI(b.K(-1), v), x.Type()))
		default:
			set(x, e.unknown("unop"))
		}
	case *ssa.ChangeType:
		set(x, val(x.X))
	case *ssa.ChangeInterface:
		set(x, val(x.X))
	case *ssa.Convert:
		set(x, e.convert(x, val(x.X), m))
	case *ssa.MakeInterface:
		v := val(x.X)
		if isErr(x.Type()) {
			set(x, e.errT)
			return
		}
		if v.op == "?" {
			set(x, v)
			return
		}
		set(x, b.raw(&T{op: "ifc", s: x.X.Type().String(), a: []*T{v}}))
	case *ssa.TypeAssert:
		v := val(x.X)
		r := b.mk("x", "assert:"+x.AssertedType.String()+"|"+kindOf(x.AssertedType), nil, nil, []*T{v})
		if v.op == "ifc" && v.s == x.AssertedType.String() {
			r = v.a[0]
		}
		if x.CommaOk {
			ok := b.tru
			if r.op == "x" {
				ok = b.atom(b.mk("x", "isa:"+x.AssertedType.String()+"|b", nil, nil, []*T{v}))
			}
			r = b.raw(&T{op: "tup", a: []*T{r, ok}})
		}
		set(x, r)
	case *ssa.Extract:
		set(x, e.tupAt(val(x.Tuple), x.Index))
	case *ssa.FieldAddr:
		p := val(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		set(x, e.sub(p, st, b.raw(&T{op: "pf", n: big.NewInt(int64(x.Field))})))
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		set(x, b.Fld(val(x.X), fieldName(st, x.Field), kindOf(st.Field(x.Field).Type())))
	case *ssa.IndexAddr:
		set(x, e.indexAddr(x, val(x.X), val(x.Index)))
	case *ssa.Index:
		v := val(x.X)
		set(x, b.atKind(e.content(m, v), val(x.Index), kindOf(x.Type())))
	case *ssa.Lookup:
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			set(x, b.At(val(x.X), val(x.Index)))
			return
		}
		mp := val(x.X)
		ct := mp
		if mp.op == "adr" {
			ct = e.pure(m, e.load(m, mp, nil), 0)
		}
		k := e.pureVal(m, val(x.Index))
		et := x.X.Type().Underlying().(*types.Map).Elem()
		r, has := e.mapGet(ct, k, x.X.Type().Underlying().(*types.Map).Key(), et, 0)
		if x.CommaOk {
			r = b.raw(&T{op: "tup", a: []*T{r, has}})
		}
		set(x, r)
	case *ssa.Slice:
		set(x, e.slice(fr, x, m))
	case *ssa.MakeSlice:
		n := val(x.Len)
		if n.op == "?" {
			set(x, n)
			return
		}
		if kindOf(x.Type()) == "s" {
			set(x, e.newSlice(x.Type(), b.Zeros(n)))
			return
		}
		z := b.op1("elt", 's', e.zero(elemOf(x.Type())))
		if k, ok := kOf(n); ok && k <= 600 {
			var xs []*T
			for i := int64(0); i < k; i++ {
				xs = append(xs, z)
			}
			set(x, e.newSlice(x.Type(), b.Cat(xs...)))
			return
		}
		set(x, e.newSlice(x.Type(), b.Map(n, b.Var(), z)))
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		e.fns[f.String()] = f
		var bs []*T
		for _, y := range x.Bindings {
			bs = append(bs, val(y))
		}
		set(x, b.raw(&T{op: "clo", s: f.String(), a: bs}))
	case *ssa.Store:
		e.store(m, val(x.Addr), val(x.Val), x.Val.Type())
	case *ssa.Call:
		set(x, e.callInstr(fr, x, m))
	case *ssa.DebugRef:
	case *ssa.MakeMap:
		set(x, e.adr(e.newObj(x.Type(), b.raw(&T{op: "nomap"}))))
	case *ssa.MapUpdate:
		mp := val(x.Map)
		k, v := e.pureVal(m, val(x.Key)), e.pureVal(m, val(x.Value))
		if mp.op == "adr" && len(mp.a) == 0 {
			id := int(mp.n.Int64())
			m[id] = b.mk("x", "mapset|", nil, nil, []*T{e.get(m, id), k, v})
		} else if mp.op != "?" && mp.op != "nil" {
			id := e.symObj(mp, x.Map.Type(), true)
			m[id] = b.mk("x", "mapset|", nil, nil, []*T{e.get(m, id), k, v})
		}
	case *ssa.Range:
		v := val(x.X)
		if v.op == "adr" {
			v = e.load(m, v, nil)
		}
		set(x, b.mk("x", "range|", nil, nil, []*T{e.pureVal(m, v)}))
	case *ssa.Defer, *ssa.RunDefers, *ssa.Go, *ssa.Send:
	case *ssa.Next:
		r := val(x.Iter)
		if len(e.iter) == 0 || r.op == "?" {
			set(x, e.unknown("range"))
			return
		}
		i := e.iter[len(e.iter)-1]
		tp := x.Type().(*types.Tuple)
		n := b.mk("x", "rangelen|u64", nil, nil, []*T{r})
		set(x, b.raw(&T{op: "tup", a: []*T{b.Lt(i, n), b.mk("x", "rangekey|"+kindOf(tp.At(1).Type()), nil, nil, []*T{r, i}), b.mk("x", "rangeval|"+kindOf(tp.At(2).Type()), nil, nil, []*T{r, i})}}))
	case ssa.Value:
		set(x, e.unknown(fmt.Sprintf("%T", x)))
	}
}

func (e *VG) tupAt(t *T, i int) *T {
	switch t.op {
	case "tup":
		return t.a[i]
	case "ite":
		return e.b.Ite(e.b.atom(t.a[0]), e.tupAt(t.a[1], i), e.tupAt(t.a[2], i))
	}
	return e.b.unk
}

// sub extends an address.
func (e *VG) sub(p *T, elem types.Type, step *T) *T {
	switch p.op {
	case "?", "mu":
		return e.b.unk
	case "nil":
		return p
	case "adr":
		return e.adr(int(p.n.Int64()), append(append([]*T{}, p.a...), step)...)
	case "ite":
		return e.b.Ite(e.b.atom(p.a[0]), e.sub(p.a[1], elem, step), e.sub(p.a[2], elem, step))
	}
	return e.adr(e.symObj(p, elem, false), step)
}

func (e *VG) indexAddr(x *ssa.IndexAddr, s, i *T) *T {
	b := e.b
	pi := func(i *T) *T { return b.raw(&T{op: "pi", a: []*T{i}}) }
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		return e.sub(s, p.Elem(), pi(i))
	}
	switch s.op {
	case "?", "nil":
		return b.unk
	case "slc":
		if i.op == "?" || s.a[0].op == "?" {
			return e.adr(int(s.n.Int64()), pi(b.unk))
		}
		return e.adr(int(s.n.Int64()), pi(b.Add(s.a[0], i)))
	case "ite":
		if s.sort == 0 {
			return b.Ite(b.atom(s.a[0]), e.indexAddr(x, s.a[1], i), e.indexAddr(x, s.a[2], i))
		}
	}
	return e.adr(e.symObj(s, x.X.Type(), true), pi(i))
}

func (e *VG) slice(fr *vframe, x *ssa.Slice, m vmem) *T {
	b := e.b
	s := e.val(fr, x.X, m)
	lo := b.K(0)
	if x.Low != nil {
		lo = e.val(fr, x.Low, m)
	}
	var hi *T
	if x.High != nil {
		hi = e.val(fr, x.High, m)
	}
	if lo.op == "?" || (hi != nil && hi.op == "?") {
		if s.op == "slc" {
			return e.slc(int(s.n.Int64()), b.unk, b.unk)
		}
		if s.op == "adr" && len(s.a) == 0 {
			return e.slc(int(s.n.Int64()), b.unk, b.unk)
		}
		return b.unk
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		// an array
		n := b.K(p.Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		if s.op == "adr" && len(s.a) == 0 {
			return e.slc(int(s.n.Int64()), lo, b.SubI(hi, lo))
		}
		// part of a larger object: a copy (writes through it are not seen)
		return e.newSlice(types.NewSlice(elemOf(p.Elem())), b.Sub(e.load(m, s, p.Elem()), lo, b.SubI(hi, lo)))
	}
	if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		if hi == nil {
			hi = b.Len(s)
		}
		return b.Sub(s, lo, b.SubI(hi, lo))
	}
	var f func(s *T) *T
	f = func(s *T) *T {
		switch s.op {
		case "?":
			return s
		case "nil":
			return s
		case "slc":
			h := hi
			if h == nil {
				h = s.a[1]
			}
			if h.op == "?" {
				return b.unk
			}
			return e.slc(int(s.n.Int64()), b.Add(s.a[0], lo), b.SubI(h, lo))
		case "ite":
			if s.sort == 0 {
				return b.Ite(b.atom(s.a[0]), f(s.a[1]), f(s.a[2]))
			}
		}
		h := hi
		if h == nil {
			h = b.Len(s)
		}
		if k, ok := kOf(lo); ok && k == 0 && h == b.Len(s) {
			return s
		}
		id := e.symObj(s, x.X.Type(), true)
		return e.slc(id, lo, b.SubI(h, lo))
	}
	return f(s)
}

func (e *VG) convert(x *ssa.Convert, v *T, m vmem) *T {
	b := e.b
	if v.op == "?" {
		return v
	}
	ft, tt := x.X.Type().Underlying(), x.Type().Underlying()
	fb, _ := ft.(*types.Basic)
	tb, _ := tt.(*types.Basic)
	isStr := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsString != 0 }
	switch {
	case isStr(fb) && isStr(tb):
		return v
	case isStr(tb) && kindOf(x.X.Type()) == "s":
		return e.content(m, v)
	case isStr(fb) && v.op == "b" && len(v.s) <= 128 && x.Type().String() == "[]rune":
		var rs []*T
		for _, r := range v.s {
			rs = append(rs, b.op1("elt", 's', b.K(int64(r))))
		}
		return e.newSlice(x.Type(), b.Cat(rs...))
	case isStr(fb) && kindOf(x.Type()) == "s":
		return e.newSlice(x.Type(), v)
	case isStr(tb):
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			if v.lo != nil && v.hi != nil && v.lo.Sign() >= 0 && v.hi.Cmp(big.NewInt(127)) <= 0 {
				return b.Byte(v)
			}
			return b.mk("x", "utf8|s", nil, nil, []*T{v})
		}
		return b.mk("x", "tostring|s", nil, nil, []*T{e.pureVal(m, v)})
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return e.wrap(v, x.Type())
	}
	if fb != nil && tb != nil {
		return b.mk("x", "conv:"+fb.Name()+":"+tb.Name()+"|"+kindOf(x.Type()), nil, nil, []*T{v})
	}
	return b.mk("x", "conv:"+x.Type().String()+"|"+kindOf(x.Type()), nil, nil, []*T{e.pureVal(m, v)})
}

func (e *VG) binop(x *ssa.BinOp, p, q *T, m vmem) *T {
	b := e.b
	switch x.Op {
	case token.EQL, token.NEQ:
		r := e.equal(p, q, x.X.Type(), m)
		if x.Op == token.NEQ {
			r = b.Not(b.atom(r))
		}
		return r
	case token.LSS:
		return b.Lt(p, q)
	case token.GTR:
		return b.Lt(q, p)
	case token.LEQ:
		return b.Not(b.Lt(q, p))
	case token.GEQ:
		return b.Not(b.Lt(p, q))
	}
	if p.op == "?" || q.op == "?" {
		return b.unk
	}
	if kindOf(x.Type()) == "s" {
		if x.Op == token.ADD {
			return b.Cat(p, q)
		}
		return e.unknown("string op")
	}
	if _, _, ok := intInfo(x.Type()); !ok {
		if p.op == "const" || q.op == "const" || p.op == "x" || q.op == "x" {
			return b.mk("x", "float"+x.Op.String()+"|", nil, nil, []*T{p, q})
		}
		return b.mk("x", "arith"+x.Op.String()+"|", nil, nil, []*T{p, q})
	}
	w := func(t *T) *T { return e.wrap(t, x.Type()) }
	switch x.Op {
	case token.ADD:
		return w(b.Add(p, q))
	case token.SUB:
		return w(b.SubI(p, q))
	case token.MUL:
		return w(b.Mul(p, q))
	case token.QUO:
		return b.Div(p, q)
	case token.REM:
		return b.Rem(p, q)
	case token.AND:
		return b.And(p, q)
	case token.OR:
		return b.Or(p, q)
	case token.XOR:
		return b.Xor(p, q)
	case token.AND_NOT:
		return b.SubI(p, b.And(p, q))
	case token.SHL:
		if k, ok := kOf(q); ok && k >= 0 && k < 64 {
			return w(b.MulK(p, new(big.Int).Lsh(one, uint(k))))
		}
		return w(b.op("shl", 'i', p, q))
	case token.SHR:
		if k, ok := kOf(q); ok && k >= 0 {
			return b.Shr(p, k)
		}
		return b.op("shrv", 'i', p, q)
	}
	return e.unknown("binop " + x.Op.String())
}

func (e *VG) equal(p, q *T, t types.Type, m vmem) *T {
	b := e.b
	if p.op == "nil" || q.op == "nil" {
		if q.op != "nil" {
			p, q = q, p
		}
		return e.isNil(p, m)
	}
	switch t.Underlying().(type) {
	case *types.Struct:
		return b.Eq(e.pure(m, p, 0), e.pure(m, q, 0))
	}
	return b.Eq(p, q)
}

func (e *VG) isNil(p *T, m vmem) *T {
	b := e.b
	switch p.op {
	case "?":
		return b.unkAtom()
	case "slc":
		if p.s == "n" {
			return b.Eq(p.a[1], b.K(0))
		}
		return b.fal
	case "ite":
		return b.Ite(b.atom(p.a[0]), e.isNil(p.a[1], m), e.isNil(p.a[2], m))
	case "nil":
		return b.tru
	case "adr", "err", "ifc", "func", "clo", "rec":
		return b.fal
	}
	return b.atom(b.raw(&T{op: "isnil", a: []*T{p}, sort: 'b'}))
}

// ---- further integer operations

func (b *Tab) Div(x, y *T) *T {
	if x.op == "?" || y.op == "?" {
		return b.unk
	}
	if k, ok := kOf(y); ok && k > 0 {
		if x.op == "k" {
			return b.Kb(new(big.Int).Quo(x.n, y.n))
		}
		if k == 1 {
			return x
		}
		if x.lo != nil && x.lo.Sign() >= 0 {
			if k&(k-1) == 0 {
				n := int64(0)
				for j := k; j > 1; j >>= 1 {
					n++
				}
				return b.Shr(x, n)
			}
			// exact multiples
			if x.op == "lin" {
				ok := new(big.Int).Rem(x.n, y.n).Sign() == 0
				var cs []*big.Int
				for _, c := range x.c {
					ok = ok && new(big.Int).Rem(c, y.n).Sign() == 0
					cs = append(cs, new(big.Int).Quo(c, y.n))
				}
				if ok {
					return b.Lin(new(big.Int).Quo(x.n, y.n), x.a, cs)
				}
			}
			t := &T{op: "div", a: []*T{x, y}, sort: 'i', lo: zero}
			if x.hi != nil {
				t.hi = new(big.Int).Quo(x.hi, y.n)
			}
			return b.raw(t)
		}
	}
	return b.op("div", 'i', x, y)
}

func (b *Tab) Rem(x, y *T) *T {
	if x.op == "?" || y.op == "?" {
		return b.unk
	}
	if k, ok := kOf(y); ok && k > 0 {
		if x.op == "k" {
			return b.Kb(new(big.Int).Rem(x.n, y.n))
		}
		if x.lo != nil && x.lo.Sign() >= 0 {
			if k&(k-1) == 0 {
				n := 0
				for j := k; j > 1; j >>= 1 {
					n++
				}
				return b.Trunc(n, x)
			}
			return b.raw(&T{op: "rem", a: []*T{x, y}, sort: 'i', lo: zero, hi: new(big.Int).Sub(y.n, one)})
		}
	}
	return b.op("rem", 'i', x, y)
}

func (b *Tab) Xor(x, y *T) *T {
	if x.op == "k" && y.op == "k" {
		return b.Kb(new(big.Int).Xor(x.n, y.n))
	}
	if x == y && x.op != "?" {
		return b.K(0)
	}
	for i := 0; i < 2; i++ {
		if x.op == "k" && x.n.Sign() == 0 {
			return y
		}
		x, y = y, x
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.bitop("xor", x, y)
}

// bitop: or, xor of numbers that are not negative stay below the next power of two.
func (b *Tab) bitop(name string, x, y *T) *T {
	if x.op == "?" || y.op == "?" {
		return b.unk
	}
	t := &T{op: name, a: []*T{x, y}, sort: 'i'}
	if x.lo != nil && x.hi != nil && y.lo != nil && y.hi != nil && x.lo.Sign() >= 0 && y.lo.Sign() >= 0 {
		k := x.hi.BitLen()
		if y.hi.BitLen() > k {
			k = y.hi.BitLen()
		}
		t.lo, t.hi = zero, new(big.Int).Sub(new(big.Int).Lsh(one, uint(k)), one)
	}
	return b.raw(t)
}

// mapGet looks a key up in a map that was filled in a known order: the latest
// entry with an equal key counts.
func (e *VG) mapGet(ct, k *T, kt, et types.Type, depth int) (*T, *T) {
	b := e.b
	if _, basic := kt.Underlying().(*types.Basic); basic && k.op != "?" && depth < 48 {
		if ct.op == "nomap" {
			return e.zero(et), b.fal
		}
		if ct.op == "x" && ct.s == "mapset|" {
			switch eq := b.Eq(k, ct.a[1]); {
			case eq == b.tru:
				return ct.a[2], b.tru
			case eq == b.fal:
				return e.mapGet(ct.a[0], k, kt, et, depth+1)
			case eq.op != "?" && tableOfConsts(ct):
				v, has := e.mapGet(ct.a[0], k, kt, et, depth+1)
				return b.Ite(eq, ct.a[2], v), b.Ite(eq, b.tru, has)
			}
		}
	}
	r := b.mk("x", "mapget|"+kindOf(et), nil, nil, []*T{ct, k})
	if r.sort == 'b' {
		r = b.atom(r)
	}
	return r, b.atom(b.mk("x", "maphas|b", nil, nil, []*T{ct, k}))
}

// tableOfConsts says whether a map was filled from empty by a short row of entries.
func tableOfConsts(ct *T) bool {
	n := 0
	for ; ct.op == "x" && ct.s == "mapset|"; ct = ct.a[0] {
		if n++; n > 40 {
			return false
		}
	}
	return ct.op == "nomap"
}
