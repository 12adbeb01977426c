package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *VG) tup(a ...*T) *T {
	if len(a) == 1 {
		return a[0]
	}
	return e.b.raw(&T{op: "tup", a: a})
}

func resTypes(call *ssa.CallCommon) []types.Type {
	rs := call.Signature().Results()
	var out []types.Type
	for i := 0; i < rs.Len(); i++ {
		out = append(out, rs.At(i).Type())
	}
	return out
}

func (e *VG) callInstr(fr *vframe, call *ssa.Call, m vmem) *T {
	cc := call.Common()
	var args []*T
	if cc.IsInvoke() {
		args = append(args, e.val(fr, cc.Value, m))
	}
	for _, a := range cc.Args {
		args = append(args, e.val(fr, a, m))
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(bi.Name(), call, args, m)
	}
	var fn *ssa.Function
	var binds []*T
	if cc.IsInvoke() {
		r := args[0]
		if r.op == "ifc" {
			// dispatch on the known dynamic type
			for _, g := range e.c.Funcs {
				if g.Name() == cc.Method.Name() && g.Signature.Recv() != nil && g.Signature.Recv().Type().String() == r.s {
					fn = g
					args[0] = r.a[0]
				}
			}
		}
		if fn == nil && e.changedImpl != nil && e.changedImpl(cc) {
			e.why["changed method"]++
			for _, a := range args {
				e.havoc(m, a)
			}
			return e.b.unk
		}
	} else {
		fn = cc.StaticCallee()
		if fn == nil {
			v := e.val(fr, cc.Value, m)
			if v.op == "func" || v.op == "clo" {
				fn = e.fns[v.s]
				binds = v.a
			}
		} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			v := e.val(fr, mc, m)
			binds = v.a
		}
	}
	if fn != nil && e.c.inRepo(fn) {
		return e.repoCall(fn, args, binds, cc, m)
	}
	if fn != nil && fn.Name() == "init" && fn.Pkg != nil {
		if e.initing && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			e.initPkg(fn.Pkg)
		}
		return e.b.unk
	}
	return e.external(call, cc, args, m)
}

// opaqueCall stands for a call that is not looked into: its results, and what it leaves in the memory
// it may write, are uninterpreted functions of the operands.
func (e *VG) opaqueCall(op, name string, args []*T, ats, ts []types.Type, mut func(int) int, m vmem) *T {
	var as []*T
	for i, a := range args {
		if i < len(ats) {
			if _, ok := ats[i].Underlying().(*types.Pointer); ok && a.op != "nil" && a.op != "?" {
				if el := elemOf(ats[i]); el != nil && a.sort == 0 {
					as = append(as, e.pure(m, e.load(m, a, el), 0))
					continue
				}
			}
		}
		as = append(as, e.pureVal(m, a))
	}
	r := e.opaque(op, name, as, ts)
	for i, a := range args {
		if mut == nil || mut(i) == 0 {
			continue
		}
		lev := mut(i)
		k := 0
		set := func(id int) {
			n := fmt.Sprintf("%s!%d.%d|%s", name, i, k, kindOf(e.objs[id].typ))
			k++
			m[id] = e.b.mk("x", n, nil, nil, as)
		}
		seen := map[*T]bool{}
		var f func(x *T, t types.Type, d int)
		f = func(x *T, t types.Type, d int) {
			if t == nil || noRef(t) || seen[x] || d > 12 {
				return
			}
			seen[x] = true
			if x.op == "ifc" && len(x.a) == 1 && (x.a[0].op == "adr" || x.a[0].op == "slc") {
				x = x.a[0]
			}
			if x.op == "slc" || x.op == "adr" {
				id := int(x.n.Int64())
				old := e.get(m, id)
				if d == 0 && lev&1 != 0 || d > 0 && lev&2 != 0 {
					set(id)
				}
				if lev&2 != 0 {
					ot := e.objs[id].typ
					if x.op == "adr" && len(x.a) > 0 {
						old, ot = e.getPath(old, ot, x.a)
					}
					if x.op == "slc" {
						// a sequence of elements
						if el := elemOf(ot); !noRef(el) {
							es := elems(old)
							for _, y := range es {
								if y.op == "elt" {
									f(y.a[0], el, d+1)
								}
							}
						}
						return
					}
					f(old, ot, d+1)
				}
				return
			}
			if t != nil {
				switch x.op {
				case "in", "fld", "x", "fn", "at":
					switch u := t.Underlying().(type) {
					case *types.Slice:
						e.symObj(x, t, true)
					case *types.Pointer:
						if x.sort == 0 {
							e.symObj(x, u.Elem(), false)
						}
					}
				}
			}
			if id, ok := e.sym[x]; ok {
				if d == 0 && lev&1 != 0 || lev&2 != 0 {
					set(id)
				}
				return
			}
			for i, y := range x.a {
				var ft types.Type
				switch x.op {
				case "rec":
					if st, ok := under(t).(*types.Struct); ok && i < st.NumFields() {
						ft = st.Field(i).Type()
					}
				case "ite":
					if i > 0 {
						ft = t
					}
				case "elt", "cat":
					if x.op == "cat" {
						ft = t
					} else if t != nil {
						ft = elemOf(t)
					}
				}
				f(y, ft, d)
			}
		}
		var t types.Type
		if i < len(ats) {
			t = ats[i]
		}
		f(a, t, 0)
	}
	return r
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func argTypes(cc *ssa.CallCommon, n int) []types.Type {
	var out []types.Type
	for i := 0; i < n; i++ {
		out = append(out, argType(cc, i))
	}
	return out
}

// mayWrite tells which memory fn or a callee may write: that its parameter points to (bit 0), and
// what is reached from there (bit 1).
func (e *VG) mayWrite(fn *ssa.Function) map[int]int { return e.fx(fn).writes }

type vfx struct {
	writes map[int]int // parameters written through
	alias  lset        // what the results may point into
	deep   lset
}

type lset map[int]int // parameter -> levels

func (s lset) add(t lset) {
	for k, v := range t {
		s[k] |= v
	}
}

type lpt struct{ l0, l1 lset }

func (e *VG) fx(fn *ssa.Function) *vfx {
	if r, ok := e.mut[fn]; ok {
		return r
	}
	r := &vfx{map[int]int{}, lset{}, lset{}}
	e.mut[fn] = r
	idx := map[ssa.Value]int{}
	for i, p := range fn.Params {
		idx[p] = i
	}
	for i, p := range fn.FreeVars {
		idx[p] = len(fn.Params) + i
	}
	none := &lpt{lset{}, lset{}}
	memo := map[ssa.Value]*lpt{}
	var roots func(v ssa.Value) *lpt
	// through a call: what its summary says about an operand
	through := func(m *lpt, s lset, args []ssa.Value, deep bool) {
		for i, lv := range s {
			if i >= len(args) {
				continue
			}
			a := roots(args[i])
			if lv&1 != 0 && !deep {
				m.l0.add(a.l0)
			}
			if lv&1 != 0 {
				m.l1.add(a.l1)
			}
			if deep {
				m.l1.add(a.l0)
			}
			if lv&2 != 0 {
				if !deep {
					m.l0.add(a.l1)
				}
				m.l1.add(a.l1)
			}
		}
	}
	roots = func(v ssa.Value) *lpt {
		if v == nil || noRef(v.Type()) {
			return none
		}
		if m, ok := memo[v]; ok {
			return m
		}
		m := &lpt{lset{}, lset{}}
		memo[v] = m
		add := func(o *lpt) {
			m.l0.add(o.l0)
			m.l1.add(o.l1)
		}
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			m.l0[idx[x]] = 1
			m.l1[idx[x]] = 2
		case *ssa.FieldAddr:
			add(roots(x.X))
		case *ssa.IndexAddr:
			add(roots(x.X))
		case *ssa.Slice:
			add(roots(x.X))
		case *ssa.UnOp:
			o := roots(x.X)
			m.l0.add(o.l1)
			m.l1.add(o.l1)
		case *ssa.Phi:
			for _, y := range x.Edges {
				add(roots(y))
			}
		case *ssa.Field:
			add(roots(x.X))
		case *ssa.Index:
			add(roots(x.X))
		case *ssa.Lookup:
			o := roots(x.X)
			m.l0.add(o.l1)
			m.l1.add(o.l1)
		case *ssa.Extract:
			add(roots(x.Tuple))
		case *ssa.ChangeType:
			add(roots(x.X))
		case *ssa.MakeInterface:
			add(roots(x.X))
		case *ssa.TypeAssert:
			add(roots(x.X))
		case *ssa.Alloc:
			var from func(a ssa.Value)
			from = func(a ssa.Value) {
				for _, ref := range *a.Referrers() {
					switch y := ref.(type) {
					case *ssa.Store:
						if y.Addr == a {
							o := roots(y.Val)
							m.l1.add(o.l0)
							m.l1.add(o.l1)
						}
					case *ssa.FieldAddr:
						from(y)
					case *ssa.IndexAddr:
						if y.X == a {
							from(y)
						}
					}
				}
			}
			from(x)
		case *ssa.Call:
			cc := x.Common()
			if bi, ok := cc.Value.(*ssa.Builtin); ok {
				if bi.Name() == "append" && !noRef(elemOf(x.Type())) {
					for _, a := range cc.Args {
						m.l1.add(roots(a).l1)
					}
				}
				return m
			}
			if g := cc.StaticCallee(); g != nil && e.c.inRepo(g) {
				through(m, e.fx(g).alias, cc.Args, false)
				through(m, e.fx(g).deep, cc.Args, true)
				return m
			}
			pkg, name := calleeID(x)
			switch pkg {
			case "math/big":
				if len(cc.Args) > 0 && strings.HasPrefix(name, "Int.") {
					add(roots(cc.Args[0]))
				}
			case "fmt", "errors", "strconv", "encoding/hex", "time", owcryptPath, "regexp", "math", "unicode", "unicode/utf8", "crypto/sha256", "crypto/sha512", "crypto/hmac", "crypto/sha1", "golang.org/x/crypto/ripemd160", "encoding/binary", "strings", "hash", "encoding/json":
			default:
				for _, a := range cc.Args {
					add(roots(a))
				}
				if cc.IsInvoke() {
					add(roots(cc.Value))
				}
			}
		}
		return m
	}
	write := func(s lset) {
		for k, v := range s {
			r.writes[k] |= v
		}
	}
	for round := 0; round < 3; round++ {
		memo = map[ssa.Value]*lpt{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					write(roots(x.Addr).l0)
				case *ssa.MapUpdate:
					write(roots(x.Map).l0)
				case *ssa.Return:
					for _, v := range x.Results {
						o := roots(v)
						r.alias.add(o.l0)
						r.deep.add(o.l1)
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						if bi.Name() == "copy" || bi.Name() == "delete" {
							write(roots(cc.Args[0]).l0)
						}
						continue
					}
					g := cc.StaticCallee()
					if g != nil && e.c.inRepo(g) {
						for i, lv := range e.fx(g).writes {
							if i < len(cc.Args) {
								if lv&1 != 0 {
									write(roots(cc.Args[i]).l0)
								}
								if lv&2 != 0 {
									write(roots(cc.Args[i]).l1)
								}
							}
						}
						continue
					}
					pkg, name := calleeID(x)
					for i, a := range cc.Args {
						if e.extWrites(pkg, name, i, a.Type()) {
							write(roots(a).l0)
							if pkg != "math/big" && pkg != "bytes" && pkg != "strings" {
								write(roots(a).l1)
							}
						}
					}
					if cc.IsInvoke() {
						write(roots(cc.Value).l0)
						write(roots(cc.Value).l1)
					}
				}
			}
		}
	}
	return r
}

// noRef: values of this type lead to no memory that can be written.
func noRef(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Array:
		return noRef(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !noRef(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if !noRef(u.At(i).Type()) {
				return false
			}
		}
		return true
	}
	return isErr(t)
}

// extWrites: may a library call write through this operand?
func (e *VG) extWrites(pkg, name string, i int, t types.Type) bool {
	switch pkg {
	case "math/big":
		if i > 0 {
			return false
		}
		n := strings.TrimPrefix(name, "Int.")
		switch n {
		case "Cmp", "Bytes", "Sign", "BitLen", "Int64", "Uint64", "String", "Text", "IsInt64", "IsUint64", "ProbablyPrime", "Bit", "CmpAbs":
			return false
		}
		return true
	case "bytes", "strings":
		return i == 0 && (strings.HasPrefix(name, "Buffer.") || strings.HasPrefix(name, "Builder.") || strings.HasPrefix(name, "Reader."))
	case "encoding/binary":
		return strings.Contains(name, "Put") || name == "Read" && i == 2 || name == "Write" && i == 0
	case "io", "hash":
		return !strings.HasSuffix(name, "Write") && !strings.HasSuffix(name, "Sum")
	case "crypto/rand":
		return true
	case "encoding/json":
		return name == "Unmarshal" && i == 1
	case "sort":
		return true
	case "github.com/tendermint/go-amino":
		return strings.Contains(name, "Unmarshal") && i == 2
	case "github.com/binance-chain/go-sdk/types/tx":
		return name != "StdSignBytes" && name != "NewStdTx" && !simpleType(t)
	case "fmt", "errors", "strconv", "encoding/hex", "time", owcryptPath, "regexp", "math", "unicode", "unicode/utf8", "crypto/sha256", "crypto/sha512", "crypto/hmac", "crypto/sha1", "golang.org/x/crypto/ripemd160":
		return pkg == "encoding/hex" && (name == "Decode" || name == "Encode") && i == 0
	}
	return !simpleType(t)
}

// simple: values of this type hold no references.
func simpleType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		return kindOf(t) == "s" || simpleType(u.Elem())
	case *types.Array:
		return simpleType(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !simpleType(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return isErr(t)
}

func (e *VG) repoCall(fn *ssa.Function, args, binds []*T, cc *ssa.CallCommon, m vmem) *T {
	opq := len(e.stack) > 40 || (e.opq != nil && !e.initing && e.opq(fn))
	for _, g := range e.stack {
		if g == fn {
			opq = true
		}
	}
	if opq {
		mw := e.mayWrite(fn)
		var ats []types.Type
		for _, p := range fn.Params {
			ats = append(ats, p.Type())
		}
		as := append(append([]*T{}, args...), binds...)
		return e.opaqueCall("fn", FName(fn), as, ats, resTypes(cc), func(i int) int { return mw[i] }, m)
	}
	res, out, _ := e.run(fn, args, binds, m)
	for k := range m {
		delete(m, k)
	}
	for k, v := range out {
		m[k] = v
	}
	if len(res) == 0 {
		return e.b.unk
	}
	return e.tup(res...)
}

func (e *VG) errIndex(fn *ssa.Function) int {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isErr(rs.At(i).Type()) {
			return i
		}
	}
	return -1
}

// pureVal is the content of a value, without references.
func (e *VG) pureVal(m vmem, v *T) *T {
	if v.op == "slc" || v.op == "nil" || (v.op == "ite" && v.sort == 0) {
		if !(v.op == "nil") {
			v2 := e.content(m, v)
			return e.pure(m, v2, 0)
		}
	}
	if id, ok := e.sym[v]; ok && v.op != "nil" {
		return e.pure(m, e.get(m, id), 0)
	}
	return e.pure(m, v, 0)
}

func (e *VG) opaque(op, name string, as []*T, ts []types.Type) *T {
	b := e.b
	unk := false
	for _, a := range as {
		if a.op == "?" {
			unk = true
		}
	}
	var out []*T
	for i, t := range ts {
		switch {
		case isErr(t):
			out = append(out, b.Ite(b.Fails(op+":"+name, as...), e.errT, b.null))
		case unk:
			out = append(out, b.unk)
		default:
			o := "x"
			if op == "fn" {
				o = "fn"
			}
			v := b.mk(o, fmt.Sprintf("%s#%d|%s", name, i, kindOf(t)), nil, nil, as)
			if v.sort == 'b' {
				v = b.atom(v)
			}
			if _, ok := t.Underlying().(*types.Slice); ok {
				v = e.newSlice(t, v)
			}
			out = append(out, v)
		}
	}
	if len(out) == 0 {
		return b.unk
	}
	return e.tup(out...)
}

func (e *VG) builtin(name string, call *ssa.Call, args []*T, m vmem) *T {
	b := e.b
	switch name {
	case "len", "cap":
		if p, ok := call.Common().Args[0].Type().Underlying().(*types.Pointer); ok {
			return b.K(p.Elem().Underlying().(*types.Array).Len())
		}
		if _, ok := call.Common().Args[0].Type().Underlying().(*types.Map); ok {
			return e.unknown("len of map")
		}
		if args[0].op == "?" {
			return args[0]
		}
		return e.length(m, args[0])
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		x, y := e.content(m, args[0]), e.content(m, args[1])
		if bt, ok := call.Common().Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			y = args[1]
		}
		if x.op == "?" && y.op == "?" {
			return b.unk
		}
		if x.sort != 's' && x.op != "?" || y.sort != 's' && y.op != "?" {
			x, y = e.asSeq(x), e.asSeq(y)
		}
		r := b.Cat(x, y)
		e.spare(m, args[0], y)
		id := e.newObj(call.Type(), r)
		s := &T{op: "slc", n: big.NewInt(int64(id)), a: []*T{b.K(0), b.Len(r)}}
		if args[0].op == "nil" || args[0].s == "n" {
			s.s = "n"
		}
		if s.a[1].op == "?" {
			// of unknown length: keep the known parts
			s.a[1] = b.raw(&T{op: "len", a: []*T{r}, sort: 'i', lo: zero})
		}
		return b.raw(s)
	case "copy":
		dst, src := args[0], e.content(m, args[1])
		if bt, ok := call.Common().Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			src = args[1]
		}
		ld, ls := e.length(m, dst), b.Len(src)
		n := ls
		if ge, ok := b.geq(ld, ls); ok && !ge {
			n = ld
		} else if !ok {
			if ld.op == "?" || ls.op == "?" {
				n = b.unk
			} else {
				n = b.Ite(b.Lt(ls, ld), ls, ld)
			}
		}
		e.write(m, dst, b.K(0), b.Sub(src, b.K(0), n), n, call.Common().Args[0].Type())
		return n
	case "min", "max":
		if len(args) == 2 {
			c := b.Lt(args[0], args[1])
			if name == "max" {
				c = b.Not(c)
			}
			return b.Ite(c, args[0], args[1])
		}
	case "ssa:wrapnilchk":
		return args[0]
	}
	return e.unknown("builtin " + name)
}

// spare: appending to a slice that ends before what it is part of overwrites what follows, where that is long enough.
func (e *VG) spare(m vmem, dst, y *T) {
	b := e.b
	if dst.op != "slc" || y.op == "?" {
		return
	}
	id := int(dst.n.Int64())
	c := e.get(m, id)
	if c.op == "?" || dst.a[0].op == "?" || dst.a[1].op == "?" {
		return
	}
	st := b.Add(dst.a[0], dst.a[1])
	L, n := b.Len(c), b.Len(y)
	if L.op == "?" || n.op == "?" {
		return
	}
	if ge, ok := b.geq(st, L); ok && ge {
		return
	}
	end := b.Add(st, n)
	w := b.Cat(b.Sub(c, b.K(0), st), y, b.Sub(c, end, b.SubI(L, end)))
	if ge, ok := b.geq(L, end); ok {
		if ge {
			m[id] = w
		}
		return
	}
	m[id] = b.Ite(b.Lt(L, end), c, w)
}

func (e *VG) asSeq(x *T) *T {
	if x.sort == 's' || x.op == "?" || x.op == "nil" {
		return x
	}
	return x
}

// write replaces n elements of a slice from off.
func (e *VG) write(m vmem, dst, off, data, n *T, t types.Type) {
	b := e.b
	switch dst.op {
	case "?":
		e.why["write to unknown slice"]++
		return
	case "nil":
		return
	case "ite":
		if dst.sort == 0 {
			n1, n2 := m.clone(), m.clone()
			e.write(n1, dst.a[1], off, data, n, t)
			e.write(n2, dst.a[2], off, data, n, t)
			c := b.atom(dst.a[0])
			ids := map[int]bool{}
			for id := range n1 {
				ids[id] = true
			}
			for id := range n2 {
				ids[id] = true
			}
			for id := range ids {
				if p, q := e.get(n1, id), e.get(n2, id); p != q {
					m[id] = b.Ite(c, p, q)
				} else {
					m[id] = p
				}
			}
			return
		}
	}
	var id int
	lo := b.K(0)
	if dst.op == "slc" {
		id, lo = int(dst.n.Int64()), dst.a[0]
	} else {
		id = e.symObj(dst, t, true)
	}
	if n.op == "?" || off.op == "?" || lo.op == "?" {
		m[id] = b.unk
		return
	}
	c := e.get(m, id)
	if c.op == "?" {
		return
	}
	st := b.Add(lo, off)
	end := b.Add(st, n)
	L := b.Len(c)
	if data.op == "?" {
		data = b.raw(&T{op: "?", s: "", unk: true})
		if _, ok := kOf(n); !ok {
			m[id] = b.unk
			return
		}
		var xs []*T
		k, _ := kOf(n)
		for i := int64(0); i < k && k < 200; i++ {
			xs = append(xs, b.raw(&T{op: "le", n: one, a: []*T{b.unk}, sort: 's'}))
		}
		data = b.Cat(xs...)
	}
	m[id] = b.Cat(b.Sub(c, b.K(0), st), data, b.Sub(c, end, b.SubI(L, end)))
}
