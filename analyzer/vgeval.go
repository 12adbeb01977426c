package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// VG turns functions into value graphs: global value numbering over SSA with all callees inlined,
// branches joined by alternatives and counted loops summarised. Nothing is executed; what cannot be
// summarised becomes the unknown term.
type VG struct {
	c        *Ctx
	b        *Tab
	objs     []*vobj
	sym      map[*T]int
	glob     map[*ssa.Global]int
	gmem     vmem
	inited   map[*ssa.Package]bool
	fns      map[string]*ssa.Function
	stack    []*ssa.Function
	refs     map[*T]bool
	steps    int
	limit    int
	entry    *ssa.Function
	errT     *T
	initing  bool
	dead     map[*ssa.Function]map[*ssa.BasicBlock]bool
	loops    map[*ssa.Function][]*Loop
	rpo      map[*ssa.Function][]*ssa.BasicBlock
	why      map[string]int
	opq      func(*ssa.Function) bool // calls left uninterpreted
	gopq     func(*ssa.Global) bool   // package variables left uninterpreted
	iter     []*T                     // iteration numbers of the loops being evaluated
	mut      map[*ssa.Function]*vfx
	deadline time.Time

	changedImpl func(*ssa.CallCommon) bool
}

type vobj struct {
	id   int
	typ  types.Type // type of the content; a slice type for backing stores
	init *T
}

type vmem map[int]*T

func (m vmem) clone() vmem {
	n := make(vmem, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

type vguard struct {
	cond *T
	pos  token.Pos
}

type vedge struct {
	from, to *ssa.BasicBlock
	cond     *T
	mem      vmem
	phi      map[*ssa.Phi]*T
}

type vret struct {
	cond *T
	mem  vmem
	vals []*T
	at   *ssa.Return
}

type vframe struct {
	fn     *ssa.Function
	env    map[ssa.Value]*T
	rets   []vret
	guards []vguard
	dead   map[*ssa.BasicBlock]bool
	loops  []*Loop
	ei     int // index of the error result, or -1
	conds  map[*ssa.BasicBlock]*T
}

type vgOver struct{}

func newVG(c *Ctx) *VG {
	e := &VG{c: c, b: newTab(), sym: map[*T]int{}, glob: map[*ssa.Global]int{}, gmem: vmem{}, inited: map[*ssa.Package]bool{}, fns: map[string]*ssa.Function{},
		dead: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, loops: map[*ssa.Function][]*Loop{}, rpo: map[*ssa.Function][]*ssa.BasicBlock{}, why: map[string]int{}, limit: 400000, mut: map[*ssa.Function]*vfx{}}
	e.errT = e.b.raw(&T{op: "err"})
	e.objs = []*vobj{nil}
	return e
}

func (e *VG) unknown(why string) *T {
	e.why[why]++
	return e.b.unk
}

func (e *VG) newObj(t types.Type, init *T) int {
	id := len(e.objs)
	e.objs = append(e.objs, &vobj{id, t, init})
	return id
}

func (e *VG) get(m vmem, id int) *T {
	if v, ok := m[id]; ok {
		return v
	}
	if v, ok := e.gmem[id]; ok {
		return v
	}
	return e.objs[id].init
}

func (e *VG) slc(id int, lo, n *T) *T {
	return e.b.raw(&T{op: "slc", n: big.NewInt(int64(id)), a: []*T{lo, n}})
}

// newSlice is a fresh slice with the given content.
func (e *VG) newSlice(t types.Type, content *T) *T {
	if content.op == "?" {
		return content
	}
	id := e.newObj(t, content)
	return e.slc(id, e.b.K(0), e.b.Len(content))
}

func (e *VG) adr(id int, path ...*T) *T {
	return e.b.raw(&T{op: "adr", n: big.NewInt(int64(id)), a: path})
}

// ---- types

func isBig(t types.Type) bool { return named(t) == "math/big.Int" }

func named(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func isBuf(t types.Type) bool {
	n := named(t)
	return n == "bytes.Buffer" || n == "strings.Builder"
}

func kindOf(t types.Type) string {
	if t == nil {
		return ""
	}
	if isBig(t) {
		return "z"
	}
	if isBuf(t) {
		return "s"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return "b"
		case types.Uint8:
			return "u8"
		case types.Uint16:
			return "u16"
		case types.Uint32:
			return "u32"
		case types.Uint64, types.Uint, types.Uintptr:
			return "u64"
		case types.Int8:
			return "i8"
		case types.Int16:
			return "i16"
		case types.Int32, types.UntypedRune:
			return "i32"
		case types.Int64, types.Int, types.UntypedInt:
			return "i64"
		case types.String, types.UntypedString:
			return "s"
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return "s"
		}
		return "l"
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return "s"
		}
		return "l"
	}
	return ""
}

func (e *VG) zero(t types.Type) *T {
	b := e.b
	switch kindOf(t) {
	case "b":
		return b.fal
	case "z":
		return b.K(0)
	}
	if isBuf(t) {
		return b.eps
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return b.K(0)
		}
		if u.Info()&types.IsString != 0 {
			return b.eps
		}
		return e.unknown("zero " + t.String())
	case *types.Struct:
		var ns []string
		var fs []*T
		for i := 0; i < u.NumFields(); i++ {
			ns = append(ns, fieldName(u, i))
			fs = append(fs, e.zero(u.Field(i).Type()))
		}
		return b.Rec(ns, fs)
	case *types.Array:
		if kindOf(t) == "s" {
			return b.Zeros(b.K(u.Len()))
		}
		if u.Len() > 600 {
			return e.unknown("big array")
		}
		z := e.zero(u.Elem())
		var xs []*T
		for i := int64(0); i < u.Len(); i++ {
			xs = append(xs, b.op1("elt", 's', z))
		}
		return b.Cat(xs...)
	}
	return b.null
}

func (e *VG) constant(k *ssa.Const) *T {
	b := e.b
	if k.Value == nil {
		return e.zero(k.Type())
	}
	switch k.Value.Kind() {
	case constant.Bool:
		return b.Bool(constant.BoolVal(k.Value))
	case constant.String:
		return b.Bytes(constant.StringVal(k.Value))
	case constant.Int:
		if bt, ok := k.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			n, _ := new(big.Int).SetString(k.Value.ExactString(), 10)
			return b.Kb(n)
		}
	}
	return b.raw(&T{op: "const", s: k.Value.ExactString()})
}

// ---- memory

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return nil
}

// symObj is the object behind a symbolic pointer or slice.
func (e *VG) symObj(x *T, elem types.Type, slice bool) int {
	if id, ok := e.sym[x]; ok {
		return id
	}
	init := x
	if !slice {
		if _, ok := elem.Underlying().(*types.Struct); !ok || isBig(elem) || isBuf(elem) {
			init = e.b.Fld(x, "*", kindOf(elem))
		}
	}
	id := e.newObj(elem, init)
	e.sym[x] = id
	return id
}

// content is the sequence a slice or string denotes.
func (e *VG) content(m vmem, v *T) *T {
	b := e.b
	switch v.op {
	case "nil":
		return b.eps
	case "slc":
		return b.Sub(e.get(m, int(v.n.Int64())), v.a[0], v.a[1])
	case "ite":
		if v.sort == 0 {
			return b.Ite(b.atom(v.a[0]), e.content(m, v.a[1]), e.content(m, v.a[2]))
		}
	}
	if id, ok := e.sym[v]; ok {
		return e.get(m, id)
	}
	return v
}

func (e *VG) length(m vmem, v *T) *T {
	switch v.op {
	case "slc":
		return v.a[1]
	case "nil":
		return e.b.K(0)
	case "ite":
		if v.sort == 0 {
			return e.b.Ite(e.b.atom(v.a[0]), e.length(m, v.a[1]), e.length(m, v.a[2]))
		}
	}
	return e.b.Len(v)
}

func (e *VG) getPath(x *T, t types.Type, path []*T) (*T, types.Type) {
	for _, p := range path {
		if t == nil {
			return e.b.unk, nil
		}
		if p.op == "pf" {
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return e.unknown("path"), nil
			}
			i := int(p.n.Int64())
			t = st.Field(i).Type()
			x = e.b.Fld(x, fieldName(st, i), kindOf(t))
		} else {
			t = elemOf(t)
			if x.op == "nil" {
				return e.unknown("nil index"), nil
			}
			x = e.b.atKind(x, p.a[0], kindOf(t))
		}
	}
	return x, t
}

func (e *VG) expand(x *T, t types.Type) *T {
	if x.op == "rec" || x.op == "?" {
		return x
	}
	if x.op == "ite" {
		return e.b.Ite(e.b.atom(x.a[0]), e.expand(x.a[1], t), e.expand(x.a[2], t))
	}
	st := t.Underlying().(*types.Struct)
	var ns []string
	var fs []*T
	for i := 0; i < st.NumFields(); i++ {
		ns = append(ns, fieldName(st, i))
		fs = append(fs, e.b.Fld(x, fieldName(st, i), kindOf(st.Field(i).Type())))
	}
	return e.b.raw(&T{op: "rec", s: strings.Join(ns, ","), a: fs})
}

func (e *VG) setPath(x *T, t types.Type, path []*T, v *T) *T {
	if len(path) == 0 {
		return v
	}
	if t == nil || x.op == "?" {
		return e.b.unk
	}
	p := path[0]
	if p.op == "pf" {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return e.unknown("path")
		}
		i := int(p.n.Int64())
		x = e.expand(x, t)
		if x.op == "ite" {
			return e.b.Ite(e.b.atom(x.a[0]), e.setPath(x.a[1], t, path, v), e.setPath(x.a[2], t, path, v))
		}
		if x.op != "rec" {
			return e.unknown("store into " + x.op)
		}
		a := append([]*T{}, x.a...)
		a[i] = e.setPath(a[i], st.Field(i).Type(), path[1:], v)
		return e.b.raw(&T{op: "rec", s: x.s, a: a})
	}
	et := elemOf(t)
	byt := kindOf(et) == "u8"
	if len(path) > 1 {
		v = e.setPath(e.b.atKind(x, p.a[0], kindOf(et)), et, path[1:], v)
	}
	if byt && v.op == "?" {
		// an unknown byte at a known place
		if k, ok := kOf(p.a[0]); ok {
			L := e.b.Len(x)
			return e.b.Cat(e.b.Sub(x, e.b.K(0), p.a[0]), e.b.raw(&T{op: "le", n: one, a: []*T{e.b.unk}, sort: 's'}), e.b.Sub(x, e.b.K(k+1), e.b.SubI(L, e.b.K(k+1))))
		}
		return e.b.unk
	}
	return e.b.Set(x, p.a[0], v, byt)
}

func (e *VG) load(m vmem, a *T, t types.Type) *T {
	b := e.b
	switch a.op {
	case "?":
		return a
	case "nil":
		return e.unknown("nil load")
	case "adr":
		o := e.objs[a.n.Int64()]
		x, _ := e.getPath(e.get(m, o.id), o.typ, a.a)
		return x
	case "ite":
		return b.Ite(b.atom(a.a[0]), e.load(m, a.a[1], t), e.load(m, a.a[2], t))
	case "mu":
		return b.unk
	}
	return e.get(m, e.symObj(a, t, false))
}

func (e *VG) store(m vmem, a, v *T, t types.Type) {
	b := e.b
	switch a.op {
	case "?", "mu":
		e.why["store through unknown"]++
		return
	case "nil":
		return
	case "adr":
		o := e.objs[a.n.Int64()]
		m[o.id] = e.setPath(e.get(m, o.id), o.typ, a.a, v)
		return
	case "ite":
		n1, n2 := m.clone(), m.clone()
		e.store(n1, a.a[1], v, t)
		e.store(n2, a.a[2], v, t)
		c := b.atom(a.a[0])
		for id := range n1 {
			m[id] = b.Ite(c, e.get(n1, id), e.get(n2, id))
		}
		for id := range n2 {
			m[id] = b.Ite(c, e.get(n1, id), e.get(n2, id))
		}
		return
	}
	m[e.symObj(a, t, false)] = v
}

// pure replaces references to memory by its content; only those to objects numbered from on.
func (e *VG) pure(m vmem, t *T, from int) *T {
	memo := map[*T]*T{}
	depth := 0
	blocked := map[*T]bool{}
	var f func(*T) *T
	f = func(x *T) *T {
		if r, ok := memo[x]; ok {
			return r
		}
		depth++
		defer func() { depth-- }()
		if depth > 200 {
			return e.b.unk
		}
		r := x
		switch x.op {
		case "slc":
			if int(x.n.Int64()) >= from {
				r = e.b.Sub(f(e.get(m, int(x.n.Int64()))), f(x.a[0]), f(x.a[1]))
			}
		case "adr":
			if int(x.n.Int64()) >= from {
				o := e.objs[x.n.Int64()]
				y, _ := e.getPath(e.get(m, o.id), o.typ, x.a)
				r = f(y)
				if r.op == "nil" {
					r = e.b.unk
				}
			}
		default:
			if id, ok := e.sym[x]; ok && id >= 0 {
				if y, ok := m[id]; ok && y != x && e.objs[id].init == x && !blocked[x] {
					// inside its own new content the name stands for the old one
					keep := memo
					memo = map[*T]*T{}
					blocked[x] = true
					r = f(y)
					delete(blocked, x)
					memo = keep
					memo[x] = r
					return r
				}
			}
			if len(x.a) > 0 && (holds[x.op] || e.hasRef(x)) {
				ch := false
				as := make([]*T, len(x.a))
				for i, y := range x.a {
					if x.op == "ite" && i == 0 && !e.hasRef(y) {
						as[i] = y
						continue
					}
					as[i] = f(y)
					ch = ch || as[i] != y
				}
				if ch {
					r = e.b.mk(x.op, x.s, x.n, x.c, as)
				}
			}
		}
		memo[x] = r
		return r
	}
	return f(t)
}

// holds: the operations whose operands are values that are held, references among them; the operands of
// the others were taken when the value was computed.
var holds = map[string]bool{"rec": true, "elt": true, "cat": true, "ite": true, "tup": true, "ifc": true, "set": true, "map": true, "sub": true, "clo": true, "loop": true}

// hasRef: the term names memory.
func (e *VG) hasRef(t *T) bool {
	if r, ok := e.refs[t]; ok {
		return r
	}
	r := t.op == "slc" || t.op == "adr"
	for _, y := range t.a {
		r = r || e.hasRef(y)
	}
	if e.refs == nil {
		e.refs = map[*T]bool{}
	}
	e.refs[t] = r
	return r
}

// havoc makes everything reachable from v unknown.
func (e *VG) havoc(m vmem, v *T) {
	seen := map[*T]bool{}
	var f func(*T)
	f = func(x *T) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.op == "slc" || x.op == "adr" {
			id := int(x.n.Int64())
			old := e.get(m, id)
			if old.op == "?" {
				return
			}
			m[id] = e.b.unk
			f(old)
		}
		if id, ok := e.sym[x]; ok {
			m[id] = e.b.unk
		}
		for _, y := range x.a {
			f(y)
		}
	}
	f(v)
}

// ---- control

func (e *VG) deadBlocks(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	if d, ok := e.dead[fn]; ok {
		return d
	}
	d := map[*ssa.BasicBlock]bool{}
	// with an error result a return of a non-nil error is a failure; otherwise every return counts
	fr := map[*ssa.Return]bool{}
	if i := e.errIndex(fn); i >= 0 {
		for r := range failingReturns(fn) {
			if errNonNilAt(r.Results[i], r.Block()) {
				fr[r] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			if d[b] {
				continue
			}
			is := false
			switch x := lastInstr(b).(type) {
			case *ssa.Return:
				is = fr[x]
			case *ssa.Panic:
				is = true
			default:
				is = len(b.Succs) > 0
				for _, s := range b.Succs {
					is = is && d[s]
				}
			}
			if is {
				d[b] = true
				ch = true
			}
		}
	}
	e.dead[fn] = d
	return d
}

func (e *VG) order(fn *ssa.Function) []*ssa.BasicBlock {
	if o, ok := e.rpo[fn]; ok {
		return o
	}
	var out []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	// successors that leave a loop are visited first, so they come last
	ls := e.loopsOf(fn)
	depth := func(b *ssa.BasicBlock) int {
		n := 0
		for _, l := range ls {
			if l.Body[b] {
				n++
			}
		}
		return n
	}
	var dfs func(*ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		ss := append([]*ssa.BasicBlock{}, b.Succs...)
		sort.SliceStable(ss, func(i, j int) bool { return depth(ss[i]) < depth(ss[j]) })
		for _, s := range ss {
			if !seen[s] {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	e.rpo[fn] = out
	return out
}

func (e *VG) loopsOf(fn *ssa.Function) []*Loop {
	if l, ok := e.loops[fn]; ok {
		return l
	}
	l := findLoops(fn)
	e.loops[fn] = l
	return l
}

// call evaluates fn on the given arguments; the results are those of its successful returns, an error
// result says when there is none.
func (e *VG) run(fn *ssa.Function, args, binds []*T, mem vmem) (res []*T, out vmem, fr *vframe) {
	fr = &vframe{fn: fn, env: map[ssa.Value]*T{}, dead: e.deadBlocks(fn), loops: e.loopsOf(fn), ei: -1}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isErr(rs.At(i).Type()) {
			fr.ei = i
		}
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = e.b.unk
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.env[p] = binds[i]
		}
	}
	e.stack = append(e.stack, fn)
	e.region(fr, fn.Blocks[0], nil, e.b.tru, mem, nil)
	e.stack = e.stack[:len(e.stack)-1]
	b := e.b
	// merge the returns
	var es []vedge
	var vals [][]*T
	for _, r := range fr.rets {
		es = append(es, vedge{cond: r.cond, mem: r.mem})
		vals = append(vals, r.vals)
	}
	fail := b.fal
	for _, g := range fr.guards {
		fail = e.or(fail, g.cond)
	}
	res = make([]*T, rs.Len())
	if len(es) == 0 {
		for i := range res {
			res[i] = e.b.unk
		}
		if fr.ei >= 0 {
			res[fr.ei] = e.errT
		}
		return res, mem, fr
	}
	_, out, rel := e.merge(es)
	for i := range res {
		v := vals[len(vals)-1][i]
		for j := len(vals) - 2; j >= 0; j-- {
			v = b.Ite(rel[j], vals[j][i], v)
		}
		res[i] = v
	}
	if fr.ei >= 0 {
		res[fr.ei] = b.Ite(fail, e.errT, res[fr.ei])
	}
	return res, out, fr
}

func (e *VG) or(x, y *T) *T {
	if x.sz+y.sz > 1000000 {
		e.why["condition size"]++
		return e.b.unkAtom()
	}
	r := e.b.OrB(x, y)
	if r.op == "?" {
		return e.b.unkAtom()
	}
	return r
}

func (e *VG) and(x, y *T) *T {
	if x.sz+y.sz > 1000000 {
		e.why["condition size"]++
		return e.b.unkAtom()
	}
	r := e.b.AndB(x, y)
	if r.op == "?" {
		return e.b.unkAtom()
	}
	return r
}

// merge joins states; rel are the conditions of the edges relative to being at the join.
func (e *VG) merge(es []vedge) (cond *T, mem vmem, rel []*T) {
	b := e.b
	cond = b.fal
	for _, x := range es {
		cond = e.or(cond, x.cond)
	}
	rel = make([]*T, len(es))
	for i, x := range es {
		rel[i] = b.Restrict(x.cond, cond)
	}
	if len(es) == 1 {
		return cond, es[0].mem.clone(), rel
	}
	mem = es[len(es)-1].mem.clone()
	for i := len(es) - 2; i >= 0; i-- {
		ids := map[int]bool{}
		for id := range mem {
			ids[id] = true
		}
		for id := range es[i].mem {
			ids[id] = true
		}
		for id := range ids {
			p, q := e.get(es[i].mem, id), e.get(mem, id)
			if p != q {
				mem[id] = b.Ite(rel[i], p, q)
			}
		}
	}
	return cond, mem, rel
}

func (e *VG) region(fr *vframe, start *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, cond *T, mem vmem, phi map[*ssa.Phi]*T) (exits []vedge) {
	b := e.b
	in := map[*ssa.BasicBlock][]vedge{}
	done := map[*ssa.BasicBlock]bool{}
	push := func(x vedge) {
		if x.cond == b.fal {
			return
		}
		if x.to == start || (body != nil && !body[x.to]) {
			exits = append(exits, x)
			return
		}
		in[x.to] = append(in[x.to], x)
	}
	for _, blk := range e.order(fr.fn) {
		if body != nil && !body[blk] || done[blk] {
			continue
		}
		var m vmem
		c := cond
		if blk == start {
			m = mem.clone()
			for p, v := range phi {
				fr.env[p] = v
			}
		} else {
			es := in[blk]
			if len(es) == 0 {
				continue
			}
			var rel []*T
			c, m, rel = e.merge(es)
			phis := map[*ssa.Phi]*T{}
			for _, ins := range blk.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				v := es[len(es)-1].phi[p]
				for i := len(es) - 2; i >= 0; i-- {
					v = b.Ite(rel[i], es[i].phi[p], v)
				}
				phis[p] = v
			}
			var lp *Loop
			for _, l := range fr.loops {
				if l.Head == blk {
					lp = l
				}
			}
			if lp != nil {
				for x := range lp.Body {
					done[x] = true
				}
				for _, x := range e.loop(fr, lp, c, m, phis) {
					push(x)
				}
				continue
			}
			for p, v := range phis {
				fr.env[p] = v
			}
		}
		if blk == start && body == nil {
			for _, l := range fr.loops {
				if l.Head == blk {
					panic(vgOver{})
				}
			}
		}
		for _, x := range e.block(fr, blk, c, m) {
			push(x)
		}
	}
	return exits
}

func (e *VG) block(fr *vframe, blk *ssa.BasicBlock, c *T, m vmem) (out []vedge) {
	b := e.b
	edge := func(to *ssa.BasicBlock, c *T, m vmem) {
		x := vedge{from: blk, to: to, cond: c, mem: m, phi: map[*ssa.Phi]*T{}}
		k := -1
		for i, p := range to.Preds {
			if p == blk {
				k = i
				break
			}
		}
		for _, ins := range to.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			x.phi[p] = e.val(fr, p.Edges[k], m)
		}
		out = append(out, x)
	}
	for _, ins := range blk.Instrs {
		e.steps++
		if e.steps > e.limit || (!e.deadline.IsZero() && e.steps%64 == 0 && time.Now().After(e.deadline)) || e.b.next > 3000000 {
			e.why["steps"]++
			panic(vgOver{})
		}
		switch x := ins.(type) {
		case *ssa.Phi:
		case *ssa.If:
			cv := e.val(fr, x.Cond, m)
			if cv.op == "?" {
				cv = b.unkAtom()
			} else {
				cv = b.atom(cv)
			}
			t, f := blk.Succs[0], blk.Succs[1]
			if t == f {
				edge(t, c, m)
				return
			}
			cr := b.Restrict(cv, c)
			if fr.conds == nil {
				fr.conds = map[*ssa.BasicBlock]*T{}
			}
			fr.conds[blk] = cr
			if cr == b.tru || cr == b.fal {
				to := t
				if cr == b.fal {
					to = f
				}
				if fr.dead[to] {
					fr.guards = append(fr.guards, vguard{c, x.Cond.Pos()})
					return
				}
				edge(to, c, m)
				return
			}
			switch {
			case fr.dead[t] && fr.dead[f]:
				fr.guards = append(fr.guards, vguard{c, x.Cond.Pos()})
			case fr.dead[t]:
				fr.guards = append(fr.guards, vguard{e.and(c, cv), x.Cond.Pos()})
				e.assume(fr, b.Not(cv), m)
				edge(f, c, m)
			case fr.dead[f]:
				fr.guards = append(fr.guards, vguard{e.and(c, b.Not(cv)), x.Cond.Pos()})
				e.assume(fr, cv, m)
				edge(t, c, m)
			default:
				edge(t, e.and(c, cv), m)
				edge(f, e.and(c, b.Not(cv)), m.clone())
			}
			return
		case *ssa.Jump:
			if fr.dead[blk.Succs[0]] {
				fr.guards = append(fr.guards, vguard{c, blk.Instrs[0].Pos()})
				return
			}
			edge(blk.Succs[0], c, m)
			return
		case *ssa.Return:
			if fr.dead[blk] {
				fr.guards = append(fr.guards, vguard{c, x.Pos()})
				return
			}
			r := vret{cond: c, mem: m, at: x}
			for _, v := range x.Results {
				r.vals = append(r.vals, e.val(fr, v, m))
			}
			if fr.ei >= 0 {
				ok := b.Eq(r.vals[fr.ei], b.null)
				if ok != b.tru {
					fr.guards = append(fr.guards, vguard{e.and(c, b.Not(ok)), x.Pos()})
					r.vals[fr.ei] = b.null
					if ok == b.fal {
						return
					}
					for i := range r.vals {
						r.vals[i] = b.Restrict(r.vals[i], ok)
					}
				}
			}
			fr.rets = append(fr.rets, r)
			return
		case *ssa.Panic:
			fr.guards = append(fr.guards, vguard{c, x.Pos()})
			return
		default:
			e.instr(fr, ins, m, c)
		}
	}
	return
}

// assume simplifies the values at hand under a condition known to hold from here on.
func (e *VG) assume(fr *vframe, c *T, m vmem) {
	if c.op != "ite" || c.sz > 4000 {
		return
	}
	sup := map[*T]bool{}
	var f func(*T)
	seen := map[*T]bool{}
	f = func(x *T) {
		if x.op != "ite" || seen[x] {
			return
		}
		seen[x] = true
		sup[x.a[0]] = true
		f(x.a[1])
		f(x.a[2])
	}
	f(c)
	has := func(v *T) bool {
		for x := v; x.op == "ite"; x = x.a[2] {
			if sup[x.a[0]] {
				return true
			}
			if x.a[1].op == "ite" && sup[x.a[1].a[0]] {
				return true
			}
		}
		return false
	}
	for k, v := range fr.env {
		if v != nil && v.op == "ite" && has(v) {
			fr.env[k] = e.b.Restrict(v, c)
		} else if v != nil && v.op == "tup" {
			var as []*T
			ch := false
			for _, y := range v.a {
				z := y
				if y.op == "ite" && has(y) {
					z = e.b.Restrict(y, c)
				}
				ch = ch || z != y
				as = append(as, z)
			}
			if ch {
				fr.env[k] = e.b.raw(&T{op: "tup", a: as})
			}
		}
	}
	for k, v := range m {
		if v.op == "ite" && has(v) {
			m[k] = e.b.Restrict(v, c)
		}
	}
}

func (e *VG) val(fr *vframe, v ssa.Value, m vmem) *T {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		return e.adr(e.global(x))
	case *ssa.Function:
		return e.fnVal(x)
	case *ssa.Builtin:
		return e.b.unk
	}
	if t, ok := fr.env[v]; ok && t != nil {
		return t
	}
	return e.unknown("undefined value")
}

func (e *VG) fnVal(f *ssa.Function) *T {
	n := f.String()
	e.fns[n] = f
	return e.b.raw(&T{op: "func", s: n})
}

func (e *VG) global(g *ssa.Global) int {
	if id, ok := e.glob[g]; ok {
		return id
	}
	t := g.Type().(*types.Pointer).Elem()
	var init *T
	if e.gopq != nil && !e.initing && e.gopq(g) {
		init = e.b.In("@"+relPkg(g.Pkg.Pkg)+"."+g.Name(), kindOf(t))
		if isErr(t) {
			init = e.errT
		}
		id := e.newObj(t, init)
		e.glob[g] = id
		return id
	}
	if strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		init = e.zero(t)
	} else {
		// a variable of another module
		n := g.Pkg.Pkg.Path() + "." + g.Name()
		if isErr(t) {
			init = e.errT
		} else {
			init = e.b.In("@"+n, kindOf(t))
		}
	}
	id := e.newObj(t, init)
	e.glob[g] = id
	if strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && !e.initing {
		e.initPkg(g.Pkg)
	}
	return id
}

// initPkg evaluates the initialisers of a package.
func (e *VG) initPkg(p *ssa.Package) {
	if e.inited[p] {
		return
	}
	e.inited[p] = true
	f := p.Func("init")
	if f == nil {
		return
	}
	was, st, steps, lim := e.initing, e.stack, e.steps, e.limit
	e.initing = true
	e.stack = nil
	e.steps, e.limit = 0, 3000000
	func() {
		defer func() {
			e.initing, e.stack, e.steps, e.limit = was, st, steps, lim
			if r := recover(); r != nil {
				if _, ok := r.(vgOver); !ok {
					panic(r)
				}
				for g, id := range e.glob {
					if g.Pkg == p {
						e.gmem[id] = e.b.unk
					}
				}
			}
		}()
		// the guard variable makes the body conditional; start behind it
		fr := &vframe{fn: f, env: map[ssa.Value]*T{}, dead: map[*ssa.BasicBlock]bool{}, loops: e.loopsOf(f), ei: -1}
		m := vmem{}
		for _, g := range p.Members {
			if g, ok := g.(*ssa.Global); ok && strings.HasPrefix(g.Name(), "init$guard") {
				e.gmem[e.global(g)] = e.b.fal
			}
		}
		e.region(fr, f.Blocks[0], nil, e.b.tru, m, nil)
		if len(fr.rets) > 0 {
			var es []vedge
			for _, r := range fr.rets {
				es = append(es, vedge{cond: r.cond, mem: r.mem})
			}
			_, out, _ := e.merge(es)
			for id, v := range out {
				e.gmem[id] = v
			}
		}
	}()
}
