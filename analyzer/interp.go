package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interp is an abstract interpreter over SSA: an interprocedural, context-sensitive (inlining),
// field- and flow-sensitive dependence and points-to analysis. Every value carries the inputs of
// the entry point it may depend on and those it must depend on (on every path, collections taken
// to be non-empty), and the memory it may point to. Nothing is executed.

const labWords = 16

type LSet [labWords]uint64

func (s LSet) has(i int) bool { return s[i/64]&(1<<(uint(i)%64)) != 0 }
func (s LSet) with(i int) LSet {
	s[i/64] |= 1 << (uint(i) % 64)
	return s
}
func (s LSet) union(t LSet) LSet {
	for i := range s {
		s[i] |= t[i]
	}
	return s
}
func (s LSet) inter(t LSet) LSet {
	for i := range s {
		s[i] &= t[i]
	}
	return s
}
func (s LSet) minus(t LSet) LSet {
	for i := range s {
		s[i] &^= t[i]
	}
	return s
}
func (s LSet) empty() bool { return s == LSet{} }
func (s LSet) each(f func(int)) {
	for w, x := range s {
		for x != 0 {
			b := bits.TrailingZeros64(x)
			f(w*64 + b)
			x &= x - 1
		}
	}
}

type Obj struct {
	id    int
	desc  string
	root  string // "param", "global", "local"
	label string // input objects: access path
	input bool
	glob  *ssa.Global
	pidx  int // parameter index of an input object
	typ   types.Type
	multi bool // summarises many instances
	elems bool // elements of a slice or map: cells start with "[*]"
}

type Ref struct {
	o *Obj
	p string
}

type Val struct {
	may, must LSet
	pts       []Ref
	alias     []*Obj // memory possibly shared through append
	agg       map[string]Val
	k         constant.Value
	fn        *ssa.Function
	binds     []Val
	dyn       types.Type
	capped    bool // a slice whose capacity equals its length
	part      bool // a view of a part of the memory pointed to
}

type cellKey struct {
	o *Obj
	p string
}

type Mem map[cellKey]Val

func (m Mem) clone() Mem {
	n := make(Mem, len(m)+8)
	for k, v := range m {
		n[k] = v
	}
	return n
}

type Interp struct {
	c      *Ctx
	labels []string
	labIdx map[string]int
	objs   map[string]*Obj
	nobj   int
	steps  int
	limit  int
	stack  []*ssa.Function
	sites  []ssa.Instruction
	curCtx string
	loops  map[*ssa.Function][]*Loop
	frets  map[*ssa.Function]map[*ssa.Return]bool
	// events
	OnStore func(o *Obj, path string, at ssa.Instruction, how string)
	OnCall  func(call ssa.CallInstruction, args []Val, mem Mem, fn *ssa.Function)
	OnError func(mi *ssa.MakeInterface, v Val, mem Mem, fn *ssa.Function) // a value turned into an error
	// Model overrides the effect of a call
	Model func(it *Interp, call ssa.CallInstruction, args []Val, mem Mem) (Val, bool)
	// ConstInput fixes the value of an input
	ConstInput func(label string, t types.Type) constant.Value
	ivLab      bool
	globs      map[*ssa.Global]*Obj
	over       bool
	fnsSeen    map[*ssa.Function]bool
	dropLen    bool
	// full: besides its label every input has a label with a final '!', lost when a part of its value is dropped
	full     bool
	fullMask LSet
	labW     map[string]int
}

func newInterp(c *Ctx) *Interp {
	return &Interp{c: c, labIdx: map[string]int{}, objs: map[string]*Obj{}, limit: 3000000, loops: map[*ssa.Function][]*Loop{},
		frets: map[*ssa.Function]map[*ssa.Return]bool{}, globs: map[*ssa.Global]*Obj{}, fnsSeen: map[*ssa.Function]bool{}}
}

func (it *Interp) label(s string) int {
	if i, ok := it.labIdx[s]; ok {
		return i
	}
	i := len(it.labels)
	if i >= labWords*64 {
		panic("too many labels")
	}
	it.labels = append(it.labels, s)
	it.labIdx[s] = i
	return i
}

// inLabel marks a value as the input with the given label.
func (it *Interp) inLabel(v Val, lab string, t types.Type) Val {
	i := it.label(lab)
	v.may, v.must = v.may.with(i), v.must.with(i)
	if it.ConstInput != nil {
		v.k = it.ConstInput(lab, t)
	}
	if it.full {
		j := it.label(lab + "!")
		it.fullMask = it.fullMask.with(j)
		v.may, v.must = v.may.with(j), v.must.with(j)
		if it.labW == nil {
			it.labW = map[string]int{}
		}
		it.labW[lab] = bitWidth(t)
	}
	return v
}

// bitWidth of an integer type, 0 for others.
func bitWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (it *Interp) lossySet(s LSet) LSet { return s.minus(it.fullMask) }

// lossy: a part of the value is dropped.
func (it *Interp) lossy(v Val) Val {
	if !it.full {
		return v
	}
	v.may, v.must = it.lossySet(v.may), it.lossySet(v.must)
	if v.agg != nil {
		n := map[string]Val{}
		for k, x := range v.agg {
			n[k] = it.lossy(x)
		}
		v.agg = n
	}
	if len(v.pts) > 0 {
		v.part = true
	}
	return v
}

// lanes is the value of bits [off, off+n) of src.
func (it *Interp) lanes(src Val, off, n int) Val {
	f := func(s LSet) LSet {
		r := it.lossySet(s)
		s.inter(it.fullMask).each(func(i int) {
			lab := strings.TrimSuffix(it.labels[i], "!")
			w := it.labW[lab]
			switch {
			case w == 0:
			case off == 0 && w <= n:
				r = r.with(i)
			case off < w:
				for o := off; o < off+n && o < w; o += 8 {
					r = r.with(it.label(fmt.Sprintf("%s@%d", lab, o)))
				}
			}
		})
		return r
	}
	return Val{may: f(src.may), must: f(src.must)}
}

// wholes adds the full label of an integer all of whose bytes are present and removes the byte labels.
func (it *Interp) wholes(s LSet) LSet {
	if !it.full {
		return s
	}
	r := s
	for lab := range it.labW {
		if i, ok := it.labIdx[lab+"$"]; ok && s.has(i) {
			r = r.minus(LSet{}.with(i)).with(it.label(lab + "!"))
		}
	}
	for lab, w := range it.labW {
		n := 0
		for o := 0; o < w; o += 8 {
			if i, ok := it.labIdx[fmt.Sprintf("%s@%d", lab, o)]; ok && s.has(i) {
				n++
				r = r.minus(LSet{}.with(i))
			}
		}
		if n > 0 && n*8 >= w {
			r = r.with(it.label(lab + "!"))
		}
	}
	return r
}

func (it *Interp) names(s LSet) []string {
	var out []string
	s.each(func(i int) { out = append(out, it.labels[i]) })
	sort.Strings(out)
	return out
}

func (it *Interp) obj(key, desc, root string, t types.Type) *Obj {
	if o, ok := it.objs[key]; ok {
		return o
	}
	it.nobj++
	o := &Obj{id: it.nobj, desc: desc, root: root, typ: t}
	it.objs[key] = o
	return o
}

func mergeRefs(a, b []Ref) []Ref {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	same := len(a) == len(b)
	if same {
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	m := map[Ref]bool{}
	var out []Ref
	for _, r := range a {
		if !m[r] {
			m[r] = true
			out = append(out, r)
		}
	}
	for _, r := range b {
		if !m[r] {
			m[r] = true
			out = append(out, r)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].o.id != out[j].o.id {
			return out[i].o.id < out[j].o.id
		}
		return out[i].p < out[j].p
	})
	return out
}

func mergeObjs(a, b []*Obj) []*Obj {
	if len(b) == 0 {
		return a
	}
	m := map[*Obj]bool{}
	var out []*Obj
	for _, x := range [][]*Obj{a, b} {
		for _, o := range x {
			if !m[o] {
				m[o] = true
				out = append(out, o)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// join merges two values at a control-flow merge.
func join(a, b Val) Val { return combine(a, b, false) }

// both builds a value that contains both operands (must sets add up).
func both(a, b Val) Val { return combine(a, b, true) }

func combine(a, b Val, sum bool) Val {
	r := Val{may: a.may.union(b.may), pts: mergeRefs(a.pts, b.pts), alias: mergeObjs(a.alias, b.alias)}
	if sum {
		r.must = a.must.union(b.must)
	} else {
		r.must = a.must.inter(b.must)
	}
	if a.k != nil && b.k != nil && a.k.Kind() == b.k.Kind() && constant.Compare(a.k, token.EQL, b.k) {
		r.k = a.k
	}
	if a.dyn != nil && b.dyn != nil && types.Identical(a.dyn, b.dyn) {
		r.dyn = a.dyn
	}
	if a.dyn != nil && b.dyn == nil && len(b.pts) == 0 && b.agg == nil {
		r.dyn = a.dyn
	}
	if b.dyn != nil && a.dyn == nil && len(a.pts) == 0 && a.agg == nil {
		r.dyn = b.dyn
	}
	if a.fn != nil && a.fn == b.fn {
		r.fn, r.binds = a.fn, a.binds
	}
	r.capped = a.capped && b.capped
	r.part = a.part || b.part
	if a.agg != nil || b.agg != nil {
		r.agg = map[string]Val{}
		for k, v := range a.agg {
			if w, ok := b.agg[k]; ok {
				r.agg[k] = combine(v, w, sum)
			} else if b.agg == nil && !sum {
				x := v
				x.must = LSet{}
				r.agg[k] = x
			} else {
				r.agg[k] = v
			}
		}
		for k, v := range b.agg {
			if _, ok := r.agg[k]; ok {
				continue
			}
			if a.agg == nil && !sum {
				v.must = LSet{}
			}
			r.agg[k] = v
		}
	}
	return r
}

func eqVal(a, b Val) bool {
	if a.may != b.may || a.must != b.must || len(a.pts) != len(b.pts) || len(a.alias) != len(b.alias) || len(a.agg) != len(b.agg) || a.fn != b.fn || a.part != b.part {
		return false
	}
	if (a.k == nil) != (b.k == nil) {
		return false
	}
	for i := range a.pts {
		if a.pts[i] != b.pts[i] {
			return false
		}
	}
	for k, v := range a.agg {
		w, ok := b.agg[k]
		if !ok || !eqVal(v, w) {
			return false
		}
	}
	return true
}

func (it *Interp) eqMem(a, b Mem) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !eqVal(v, w) {
			return false
		}
	}
	return true
}

// ---- types

func (it *Interp) opaque(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return true
		}
		if !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			// types of other modules are records if all their fields can be set from here
			st, ok := n.Underlying().(*types.Struct)
			if !ok {
				return true
			}
			for i := 0; i < st.NumFields(); i++ {
				if !st.Field(i).Exported() {
					return true
				}
			}
		}
	}
	return false
}

// leaves enumerates the scalar/pointer paths of a value of type t.
func (it *Interp) leaves(t types.Type, pre string, d int, f func(path string, t types.Type)) {
	if it.opaque(t) || d > 8 {
		if _, isS := t.Underlying().(*types.Struct); isS || d > 8 {
			f(pre, t)
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if u.NumFields() == 0 {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			it.leaves(u.Field(i).Type(), pre+"."+fieldName(u, i), d+1, f)
		}
	case *types.Array:
		it.leaves(u.Elem(), pre+"[*]", d+1, f)
	default:
		f(pre, t)
	}
}

func isAggType(it *Interp, t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct:
		return !it.opaque(t)
	case *types.Array:
		return true
	}
	return false
}

func zeroVal(it *Interp, t types.Type) Val {
	if isAggType(it, t) {
		v := Val{agg: map[string]Val{}}
		it.leaves(t, "", 0, func(p string, t types.Type) { v.agg[p] = Val{} })
		return v
	}
	return Val{}
}

// ---- memory

func (it *Interp) child(o *Obj, path string, t types.Type) *Obj {
	k := fmt.Sprintf("child:%d%s", o.id, path)
	c := it.obj(k, o.desc+path, o.root, pointee(t))
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		c.elems = true
	case *types.Interface:
		c.typ = t
	}
	c.input = o.input
	c.label = o.label + path
	c.pidx = o.pidx
	c.multi = true
	return c
}

func pointee(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func cleanLabel(s string) string { return strings.ReplaceAll(s, "[*]", "") }

// readCell reads one leaf.
func (it *Interp) readCell(m Mem, o *Obj, p string, t types.Type) (Val, bool) {
	if v, ok := m[cellKey{o, p}]; ok {
		return v, true
	}
	mk := func(deps Val, lab string) Val {
		v := Val{may: deps.may, must: deps.must}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			if _, isI := t.Underlying().(*types.Interface); isI && isErr(t) {
				break
			}
			c := it.child(o, p, t)
			v.pts = []Ref{{c, ""}}
			if !deps.may.empty() || !deps.must.empty() {
				if _, ok := m[cellKey{c, "**"}]; !ok {
					m[cellKey{c, "**"}] = Val{may: deps.may, must: deps.must}
				}
			}
		}
		return v
	}
	if d, ok := m[cellKey{o, "**"}]; ok {
		v := mk(d, "")
		m[cellKey{o, p}] = v
		return v, true
	}
	// a cell inside an aggregate held as one opaque leaf
	for q := p; ; {
		i := strings.LastIndexAny(q, ".[")
		if i < 0 {
			break
		}
		q = q[:i]
		if v, ok := m[cellKey{o, q}]; ok && (q != "" || it.opaqueObj(o)) {
			return Val{may: v.may, must: v.must}, true
		}
		if q == "" {
			break
		}
	}
	if o.input {
		v := Val{}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map:
			c := it.child(o, p, t)
			v.pts = []Ref{{c, ""}}
		case *types.Slice:
			c := it.child(o, p, t)
			v.pts = []Ref{{c, ""}}
		case *types.Interface:
			c := it.child(o, p, t)
			v.pts = []Ref{{c, ""}}
			v = it.inLabel(v, cleanLabel(o.label+p), t)
		case *types.Signature, *types.Chan:
		default:
			v = it.inLabel(v, cleanLabel(o.label+p), t)
		}
		m[cellKey{o, p}] = v
		return v, true
	}
	return Val{}, false
}

func (it *Interp) opaqueObj(o *Obj) bool { return o.typ != nil && it.opaque(o.typ) }

// load reads a value of type t through an address value.
func (it *Interp) load(m Mem, addr Val, t types.Type) Val {
	var res Val
	first := true
	readRef := func(r Ref) (Val, bool) {
		if !isAggType(it, t) {
			return it.readCell(m, r.o, r.p, t)
		}
		v := Val{agg: map[string]Val{}}
		any := false
		it.leaves(t, "", 0, func(p string, lt types.Type) {
			x, ok := it.readCell(m, r.o, r.p+p, lt)
			if ok {
				any = true
			}
			v.agg[p] = x
		})
		return v, any
	}
	for _, r := range addr.pts {
		v, ok := readRef(r)
		if !ok {
			continue
		}
		if first {
			res, first = v, false
		} else {
			res = join(res, v)
		}
	}
	if first && isAggType(it, t) {
		res = zeroVal(it, t)
	}
	if addr.part {
		res = it.lossy(res)
	}
	return it.addDeps(res, addr.may, addr.must)
}

func (it *Interp) addDeps(v Val, may, must LSet) Val {
	if may.empty() && must.empty() {
		return v
	}
	v.may = v.may.union(may)
	v.must = v.must.union(must)
	if v.agg != nil {
		n := map[string]Val{}
		for k, x := range v.agg {
			n[k] = it.addDeps(x, may, must)
		}
		v.agg = n
	}
	return v
}

func (it *Interp) event(o *Obj, p string, at ssa.Instruction, how string) {
	if it.OnStore != nil && o.root != "local" {
		it.OnStore(o, p, at, how)
	}
}

func (it *Interp) store(m Mem, addr Val, v Val, t types.Type, at ssa.Instruction) {
	for _, o := range addr.alias {
		it.event(o, "[*]", at, "store")
	}
	for _, r := range addr.pts {
		it.event(r.o, r.p, at, "store")
		acc := strings.Contains(r.p, "[*]") || r.o.multi || len(addr.pts) > 1
		put := func(p string, x Val) {
			k := cellKey{r.o, p}
			old, ok := m[k]
			if !ok {
				if d, ok2 := m[cellKey{r.o, "**"}]; ok2 {
					old, ok = Val{may: d.may, must: d.must}, true
				} else if r.o.input && acc {
					old, ok = it.readCell(m, r.o, p, t)
				}
			}
			if ok && acc {
				if strings.Contains(p, "[*]") || r.o.multi {
					x = both(old, x)
				} else {
					x = join(old, x)
				}
			}
			m[k] = x
		}
		if v.agg != nil {
			for p, x := range v.agg {
				put(r.p+p, x)
			}
		} else if isAggType(it, t) {
			it.leaves(t, "", 0, func(p string, lt types.Type) { put(r.p+p, Val{may: v.may, must: v.must}) })
		} else {
			put(r.p, v)
		}
	}
}

// content is everything a value holds, following memory.
func (it *Interp) content(m Mem, v Val) (may, must LSet) {
	return it.contentD(m, v, 0, map[Ref]bool{})
}

func (it *Interp) contentD(m Mem, v Val, d int, seen map[Ref]bool) (may, must LSet) {
	may, must = v.may, v.must
	if d > 12 {
		return
	}
	for _, x := range v.agg {
		a, b := it.contentD(m, x, d+1, seen)
		may, must = may.union(a), must.union(b)
	}
	var pm LSet
	first := true
	for _, r := range v.pts {
		if seen[r] {
			continue
		}
		seen[r] = true
		var am, bm LSet
		any := false
		if r.o.input {
			it.materialise(m, r.o, r.p)
		}
		for k, x := range m {
			if k.o != r.o || !(strings.HasPrefix(k.p, r.p) || k.p == "**") {
				continue
			}
			a, b := it.contentD(m, x, d+1, seen)
			am, bm = am.union(a), bm.union(b)
			any = true
		}
		delete(seen, r)
		may = may.union(am)
		if !any {
			continue
		}
		if first {
			pm, first = bm, false
		} else {
			pm = pm.inter(bm)
		}
	}
	must = must.union(pm)
	if v.part && it.full {
		may, must = it.lossySet(may), it.lossySet(must)
	}
	return
}

// materialise creates the leaf cells of an input object so that its whole content can be read.
func (it *Interp) materialise(m Mem, o *Obj, p string) {
	if o.typ == nil || strings.Count(o.label, ".")+strings.Count(o.label, "[*]") > 8 {
		return
	}
	if o.root == "global" {
		return
	}
	it.leaves(o.typ, elemPath(o), 0, func(q string, t types.Type) {
		it.readCell(m, o, q, t)
	})
}

func elemPath(o *Obj) string {
	if o.elems {
		return "[*]"
	}
	return ""
}

func (it *Interp) fresh(call ssa.Instruction, suffix string, t types.Type, m Mem, may, must LSet) Val {
	v := Val{may: may, must: must}
	if t == nil {
		return v
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		if isErr(t) {
			return v
		}
		o := it.obj(it.ctx()+fmt.Sprintf("ext:%p%s", call, suffix), "result", "local", pointee(t))
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map:
			o.elems = true
		case *types.Interface:
			o.typ = t
		}
		m[cellKey{o, "**"}] = Val{may: may, must: must}
		v.pts = []Ref{{o, ""}}
		if _, isSl := t.Underlying().(*types.Slice); !isSl {
			// the pointer itself carries nothing
			if _, isI := t.Underlying().(*types.Interface); !isI {
				v.may, v.must = LSet{}, LSet{}
			}
		}
	case *types.Struct, *types.Array:
		if isAggType(it, t) {
			v.agg = map[string]Val{}
			it.leaves(t, "", 0, func(p string, lt types.Type) {
				v.agg[p] = it.fresh(call, suffix+p, lt, m, may, must)
			})
		}
	}
	return v
}

func (it *Interp) ctx() string { return it.curCtx }

func (it *Interp) setCtx() {
	var b strings.Builder
	for i, f := range it.stack {
		fmt.Fprintf(&b, "%p@%p/", f, it.sites[i])
	}
	it.curCtx = b.String()
}
