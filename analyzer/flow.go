package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Flow is a forward must-analysis over the control flow graph: which facts ("tokens") hold on every
// path that ends in a success return. It is path sensitive in boolean, error and nil-valued
// variables (a small property simulation), follows calls through success summaries, and treats a
// fact established in every iteration of a complete loop as an ALL: fact after the loop.
type Flow struct {
	c *Ctx
	// Atom yields the property's tokens of an atomic condition.
	Atom func(fn *ssa.Function, cond ssa.Value, pol bool, loops []*Loop) []string
	// CallTok yields tokens that hold after executing a call, whatever it returned (may be nil).
	CallTok func(fn *ssa.Function, call ssa.CallInstruction) []string
	memo    map[string]*FlowSum
	active  map[string]bool
	success int64
}

// Mode says what success means for a function: result idx is true / nil / SUCCESS / non-nil.
type Mode struct {
	Idx  int
	Kind byte // 'b','e','s','p','*' (any return)
}

type FlowSum struct {
	Toks    map[string]bool
	Returns []RetFact // per success return
	Any     bool      // some success return is reachable
	Over    bool      // state budget exceeded
	States  int
}

type RetFact struct {
	Pos  token.Pos
	Toks map[string]bool
}

func newFlow(c *Ctx) *Flow {
	s, _ := c.owcryptConst("SUCCESS")
	return &Flow{c: c, memo: map[string]*FlowSum{}, active: map[string]bool{}, success: s}
}

// modeOf picks the success mode of a function from its signature.
func modeOf(f *ssa.Function) (Mode, bool) {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isBool(rs.At(i).Type()) {
			return Mode{i, 'b'}, true
		}
	}
	for i := 0; i < rs.Len(); i++ {
		if isErr(rs.At(i).Type()) {
			return Mode{i, 'e'}, true
		}
	}
	return Mode{}, false
}

type fstate struct {
	val   map[ssa.Value]ssa.Value // phi -> what it currently equals
	facts map[ssa.Value]bool      // repeated conditions
	toks  []map[string]bool       // by loop id; 0 = outside loops
}

type fkey struct {
	b *ssa.BasicBlock
	k string
}

type flowRun struct {
	fl     *Flow
	fn     *ssa.Function
	loops  []*Loop
	inner  map[*ssa.BasicBlock]*Loop
	univ   map[string]bool
	track  map[*ssa.Phi]bool
	multi  map[ssa.Value]bool
	reach  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	uses   map[ssa.Value][]*ssa.BasicBlock
	nilcmp map[ssa.Value]ssa.Value // condition -> the error it compares with nil
}

const flowBudget = 60000

// Sum computes the tokens that hold on every success return of fn.
func (fl *Flow) Sum(fn *ssa.Function, m Mode) *FlowSum {
	key := fmt.Sprintf("%p/%d%c", fn, m.Idx, m.Kind)
	if s, ok := fl.memo[key]; ok {
		return s
	}
	if fl.active[key] || len(fn.Blocks) == 0 {
		return &FlowSum{Toks: map[string]bool{}, Any: true}
	}
	fl.active[key] = true
	s := fl.run(fn, m)
	delete(fl.active, key)
	fl.memo[key] = s
	return s
}

func (fl *Flow) run(fn *ssa.Function, m Mode) *FlowSum {
	r := &flowRun{fl: fl, fn: fn, loops: findLoops(fn), inner: map[*ssa.BasicBlock]*Loop{}, univ: map[string]bool{},
		track: map[*ssa.Phi]bool{}, multi: map[ssa.Value]bool{}, reach: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, uses: map[ssa.Value][]*ssa.BasicBlock{}}
	for _, b := range fn.Blocks {
		for _, l := range r.loops {
			if l.Body[b] && (r.inner[b] == nil || len(l.Body) < len(r.inner[b].Body)) {
				r.inner[b] = l
			}
		}
	}
	// tracked phis
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				continue
			}
			t := p.Type()
			if isBool(t) || isErr(t) {
				r.track[p] = true
				continue
			}
			allc, anynil := true, false
			for _, e := range p.Edges {
				if k, ok := e.(*ssa.Const); ok {
					if k.IsNil() {
						anynil = true
					}
				} else if e != ssa.Value(p) {
					allc = false
				}
			}
			if anynil || (allc && isIntType(t)) {
				r.track[p] = true
			}
			if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Uint16 {
				r.track[p] = true
			}
		}
	}
	condCount := map[ssa.Value]int{}
	for _, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				v, _ := stripNot(i.Cond, true)
				condCount[v]++
			}
		}
	}
	r.nilcmp = map[ssa.Value]ssa.Value{}
	for v, n := range condCount {
		if n > 1 {
			r.multi[v] = true
		}
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			if isNilConst(b.Y) && isErr(b.X.Type()) {
				r.nilcmp[v] = b.X
			} else if isNilConst(b.X) && isErr(b.Y.Type()) {
				r.nilcmp[v] = b.Y
			}
		}
	}
	// transitive uses of tracked values: where is a phi still relevant
	for p := range r.track {
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			if v.Referrers() == nil {
				return
			}
			for _, u := range *v.Referrers() {
				r.uses[p] = append(r.uses[p], u.Block())
				if q, ok := u.(*ssa.Phi); ok {
					for i, e := range q.Edges {
						if e == v {
							r.uses[p] = append(r.uses[p], q.Block().Preds[i])
						}
					}
				}
				switch x := u.(type) {
				case *ssa.UnOp, *ssa.BinOp:
					walk(x.(ssa.Value))
				}
			}
		}
		walk(p)
	}
	for v := range r.multi {
		for _, b := range fn.Blocks {
			if len(b.Instrs) > 0 {
				if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					if w, _ := stripNot(i.Cond, true); w == v {
						r.uses[v] = append(r.uses[v], b)
					}
				}
			}
		}
	}
	for cond, e := range r.nilcmp {
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if seen[v] || v.Referrers() == nil {
				return
			}
			seen[v] = true
			for _, u := range *v.Referrers() {
				switch x := u.(type) {
				case *ssa.Return:
					r.uses[cond] = append(r.uses[cond], x.Block())
				case *ssa.Phi:
					walk(x)
				}
			}
		}
		walk(e)
	}
	for _, b := range fn.Blocks {
		m := map[*ssa.BasicBlock]bool{b: true}
		st := []*ssa.BasicBlock{b}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			for _, s := range x.Succs {
				if !m[s] {
					m[s] = true
					st = append(st, s)
				}
			}
		}
		r.reach[b] = m
	}
	// universe of tokens
	for _, b := range fn.Blocks {
		if iff, ok := lastIf(b); ok {
			for _, pol := range []bool{true, false} {
				for _, t := range r.condToks(iff.Cond, pol, nil, map[ssa.Value]bool{}) {
					r.univ[t] = true
				}
			}
		}
		if fl.CallTok != nil {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range fl.CallTok(fn, ci) {
						r.univ[t] = true
					}
				}
			}
		}
	}
	depth := 0
	for _, l := range r.loops {
		d := 1
		for p := l.Parent; p != nil; p = p.Parent {
			d++
		}
		if d > depth {
			depth = d
		}
	}
	for i := 0; i < depth; i++ {
		var add []string
		for t := range r.univ {
			add = append(add, "ALL:"+t, "SOME:"+t)
		}
		for _, t := range add {
			r.univ[t] = true
		}
	}

	res := &FlowSum{}
	states := map[fkey]*fstate{}
	var work []fkey
	push := func(b *ssa.BasicBlock, s *fstate) {
		k := fkey{b, r.stateKey(s)}
		old, ok := states[k]
		if !ok {
			states[k] = s
			work = append(work, k)
			return
		}
		changed := false
		for i := range old.toks {
			for t := range old.toks[i] {
				if !s.toks[i][t] {
					delete(old.toks[i], t)
					changed = true
				}
			}
		}
		if changed {
			work = append(work, k)
		}
	}
	init := &fstate{val: map[ssa.Value]ssa.Value{}, facts: map[ssa.Value]bool{}, toks: make([]map[string]bool, len(r.loops)+1)}
	for i := range init.toks {
		init.toks[i] = map[string]bool{}
	}
	push(fn.Blocks[0], init)
	iter := 0
	for len(work) > 0 {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		iter++
		if len(states) > flowBudget || iter > 20*flowBudget {
			res.Over = true
			break
		}
		s := states[k]
		b := k.b
		// tokens of calls executed in the block
		ns := s.clone()
		if fl.CallTok != nil {
			sc := r.scope(b)
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range fl.CallTok(fn, ci) {
						ns.toks[sc][t] = true
					}
				}
			}
		}
		if iff, ok := lastIf(b); ok {
			for i, succ := range b.Succs {
				pol := i == 0
				if ev, known := r.evalCond(iff.Cond, ns, 0); known && ev != pol {
					continue
				}
				if b.Succs[0] == b.Succs[1] && i == 1 {
					continue
				}
				es := ns.clone()
				sc := r.scope(b)
				for _, t := range r.condToks(iff.Cond, pol, ns, map[ssa.Value]bool{}) {
					es.toks[sc][t] = true
				}
				v, p2 := stripNot(iff.Cond, pol)
				if r.multi[v] {
					es.facts[v] = p2
				} else if bo, ok := r.nilcmp[v]; ok && len(r.uses[v]) > 0 {
					_ = bo
					if p2 == (v.(*ssa.BinOp).Op == token.NEQ) {
						es.facts[v] = p2
					}
				}
				if ph, ok := v.(*ssa.Phi); ok && r.track[ph] {
					// remember what we learned about the phi
					if cur, ok := es.val[ph]; !ok || !isConst(cur) {
						es.facts[ph] = p2
					}
				}
				r.edge(b, succ, i, es)
				push(succ, es)
			}
			continue
		}
		if len(b.Succs) == 1 {
			es := ns
			r.edge(b, b.Succs[0], 0, es)
			push(b.Succs[0], es)
			continue
		}
	}
	res.States = len(states)
	// returns
	for k, s := range states {
		ret, ok := lastInstr(k.b).(*ssa.Return)
		if !ok {
			continue
		}
		toks := map[string]bool{}
		ns := s
		if fl.CallTok != nil {
			ns = s.clone()
			sc := r.scope(k.b)
			for _, in := range k.b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range fl.CallTok(fn, ci) {
						ns.toks[sc][t] = true
					}
				}
			}
		}
		for i, ts := range ns.toks {
			inLoop := false
			if i > 0 {
				inLoop = r.loops[i-1].Body[k.b]
			}
			for t := range ts {
				if i == 0 {
					toks[t] = true
				} else if inLoop {
					toks["SOME:"+t] = true
				}
			}
		}
		if m.Kind != '*' {
			v := ret.Results[m.Idx]
			st, extra := r.succeeds(v, m.Kind, s)
			if st == no {
				continue
			}
			for _, t := range extra {
				toks[t] = true
			}
		}
		res.Any = true
		res.Returns = append(res.Returns, RetFact{ret.Pos(), toks})
		if res.Toks == nil {
			res.Toks = map[string]bool{}
			for t := range toks {
				res.Toks[t] = true
			}
		} else {
			for t := range res.Toks {
				if !toks[t] {
					delete(res.Toks, t)
				}
			}
		}
	}
	if res.Toks == nil {
		res.Toks = map[string]bool{}
	}
	sort.Slice(res.Returns, func(i, j int) bool { return res.Returns[i].Pos < res.Returns[j].Pos })
	return res
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

func lastInstr(b *ssa.BasicBlock) ssa.Instruction {
	if len(b.Instrs) == 0 {
		return nil
	}
	return b.Instrs[len(b.Instrs)-1]
}

func lastIf(b *ssa.BasicBlock) (*ssa.If, bool) {
	i, ok := lastInstr(b).(*ssa.If)
	return i, ok
}

func stripNot(v ssa.Value, pol bool) (ssa.Value, bool) {
	for {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			v, pol = u.X, !pol
			continue
		}
		if b, ok := v.(*ssa.BinOp); ok && isBool(b.X.Type()) {
			if k, ok := constBool(b.Y); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				if (b.Op == token.EQL) != k {
					pol = !pol
				}
				v = b.X
				continue
			}
			if k, ok := constBool(b.X); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				if (b.Op == token.EQL) != k {
					pol = !pol
				}
				v = b.Y
				continue
			}
		}
		return v, pol
	}
}

func (s *fstate) clone() *fstate {
	n := &fstate{val: make(map[ssa.Value]ssa.Value, len(s.val)), facts: make(map[ssa.Value]bool, len(s.facts)), toks: make([]map[string]bool, len(s.toks))}
	for k, v := range s.val {
		n.val[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for i, m := range s.toks {
		c := make(map[string]bool, len(m))
		for t := range m {
			c[t] = true
		}
		n.toks[i] = c
	}
	return n
}

func (r *flowRun) stateKey(s *fstate) string {
	var parts []string
	for p, v := range s.val {
		parts = append(parts, p.Name()+"="+valName(v))
	}
	for v, b := range s.facts {
		parts = append(parts, fmt.Sprintf("%s?%v", v.Name(), b))
	}
	sort.Strings(parts)
	return strings.Join(parts, ";")
}

func valName(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok {
		return k.String()
	}
	return v.Name()
}

func (r *flowRun) scope(b *ssa.BasicBlock) int {
	if l := r.inner[b]; l != nil {
		return l.ID
	}
	return 0
}

// edge applies loop transitions and phi assignments for the edge b->s.
func (r *flowRun) edge(b, s *ssa.BasicBlock, _ int, st *fstate) {
	// leaving loops, innermost first
	for l := r.inner[b]; l != nil; l = l.Parent {
		if l.Body[s] {
			break
		}
		p := 0
		for q := l.Parent; q != nil; q = q.Parent {
			p = q.ID
			break
		}
		pre := "SOME:"
		if b == l.Head && l.Full {
			pre = "ALL:"
		}
		for t := range st.toks[l.ID] {
			st.toks[p][pre+t] = true
		}
		st.toks[l.ID] = map[string]bool{}
	}
	for _, l := range r.loops {
		if s == l.Head && !l.Body[b] {
			// entering: zero iterations so far, everything holds of all of them
			for t := range r.univ {
				st.toks[l.ID][t] = true
			}
		}
		if b == l.Head && s != l.Head && l.Body[s] {
			// a new iteration starts
			st.toks[l.ID] = map[string]bool{}
		}
	}
	// phis
	pi := -1
	for i, p := range s.Preds {
		if p == b {
			pi = i
			break
		}
	}
	newv := map[ssa.Value]ssa.Value{}
	for _, in := range s.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !r.track[p] {
			continue
		}
		v := p.Edges[pi]
		if q, ok := v.(*ssa.Phi); ok {
			if w, ok := st.val[q]; ok {
				v = w
			}
		}
		newv[p] = v
	}
	// facts about values defined in s are stale
	for v := range st.facts {
		if in, ok := v.(ssa.Instruction); ok && in.Block() == s {
			delete(st.facts, v)
		}
	}
	for p, v := range newv {
		st.val[p] = v
	}
	// prune the dead
	for p := range st.val {
		live := false
		for _, u := range r.uses[p] {
			if r.reach[s][u] {
				live = true
				break
			}
		}
		if !live {
			delete(st.val, p)
		}
	}
	for p := range st.facts {
		live := false
		for _, u := range r.uses[p] {
			if r.reach[s][u] {
				live = true
				break
			}
		}
		if !live {
			delete(st.facts, p)
		}
	}
}

func (r *flowRun) resolve(v ssa.Value, st *fstate) ssa.Value {
	if p, ok := v.(*ssa.Phi); ok && st != nil {
		if w, ok := st.val[p]; ok {
			return w
		}
	}
	return v
}

func nilness(v ssa.Value) (isNil, known bool) {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil(), true
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.FieldAddr, *ssa.IndexAddr:
		return false, true
	case *ssa.Call:
		p, n := calleeID(x)
		if (p == "errors" && n == "New") || (p == "fmt" && n == "Errorf") || (p == "github.com/pkg/errors" && (n == "New" || n == "Errorf")) {
			return false, true
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok && isErr(x.Type()) {
				_ = g
				return false, true // package error sentinels are initialised to non-nil values
			}
		}
	}
	return false, false
}

func (r *flowRun) evalCond(v ssa.Value, st *fstate, d int) (val, known bool) {
	if d > 8 {
		return false, false
	}
	w, pol := stripNot(v, true)
	fix := func(b bool) (bool, bool) { return b == pol, true }
	if k, ok := constBool(w); ok {
		return fix(k)
	}
	if f, ok := st.facts[w]; ok {
		return fix(f)
	}
	if p, ok := w.(*ssa.Phi); ok {
		if a, ok := st.val[p]; ok && a != ssa.Value(p) {
			if b, kn := r.evalCond(a, st, d+1); kn {
				return fix(b)
			}
		}
		return false, false
	}
	if b, ok := w.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		x, y := r.resolve(b.X, st), r.resolve(b.Y, st)
		if n, kn := nilness(y); kn && n {
			if xn, kx := nilness(x); kx {
				return fix(xn == (b.Op == token.EQL))
			}
		}
		if n, kn := nilness(x); kn && n {
			if yn, ky := nilness(y); ky {
				return fix(yn == (b.Op == token.EQL))
			}
		}
		if a, ok := constInt(x); ok {
			if c, ok := constInt(y); ok && isIntType(x.Type()) {
				return fix((a == c) == (b.Op == token.EQL))
			}
		}
	}
	return false, false
}

// condToks gives the tokens implied by cond having the value pol.
func (r *flowRun) condToks(cond ssa.Value, pol bool, st *fstate, seen map[ssa.Value]bool) []string {
	v, pol := stripNot(cond, pol)
	if seen[v] {
		return nil
	}
	seen[v] = true
	var out []string
	if p, ok := v.(*ssa.Phi); ok {
		if st == nil {
			for _, e := range p.Edges {
				out = append(out, r.condToks(e, pol, st, seen)...)
			}
			return out
		}
		if w, ok := st.val[p]; ok && w != v {
			if k, ok := constBool(w); ok && k == pol {
				return nil
			}
			return r.condToks(w, pol, st, seen)
		}
		return nil
	}
	out = append(out, r.fl.Atom(r.fn, v, pol, r.loops)...)
	// success of a call
	if pol {
		if c, idx, ok := callResult(v); ok {
			out = append(out, r.callToks(c, Mode{idx, 'b'})...)
		}
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		eq := (b.Op == token.EQL) == pol
		x, y := b.X, b.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if isNilConst(y) {
			out = append(out, r.nilToks(x, eq, st, map[ssa.Value]bool{})...)
		}
		if k, ok := constInt(x); ok && k == r.fl.success {
			x, y = y, x
			_ = x
		}
		if k, ok := constInt(y); ok && k == r.fl.success && eq {
			out = append(out, r.statusToks(x, st, map[ssa.Value]bool{})...)
		}
	}
	return out
}

func isNilConst(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.IsNil() }

func (r *flowRun) nilToks(x ssa.Value, isNil bool, st *fstate, seen map[ssa.Value]bool) []string {
	if seen[x] {
		return nil
	}
	seen[x] = true
	if p, ok := x.(*ssa.Phi); ok {
		if st == nil {
			var out []string
			for _, e := range p.Edges {
				out = append(out, r.nilToks(e, isNil, st, seen)...)
			}
			return out
		}
		if w, ok := st.val[p]; ok && w != x {
			return r.nilToks(w, isNil, st, seen)
		}
		return nil
	}
	c, idx, ok := callResult(x)
	if !ok {
		return nil
	}
	if isErr(x.Type()) {
		if isNil {
			return r.callToks(c, Mode{idx, 'e'})
		}
		return nil
	}
	if !isNil {
		return r.callToks(c, Mode{idx, 'p'})
	}
	return nil
}

func (r *flowRun) statusToks(x ssa.Value, st *fstate, seen map[ssa.Value]bool) []string {
	if seen[x] {
		return nil
	}
	seen[x] = true
	if p, ok := x.(*ssa.Phi); ok && st != nil {
		if w, ok := st.val[p]; ok && w != x {
			return r.statusToks(w, st, seen)
		}
		return nil
	}
	if c, idx, ok := callResult(x); ok {
		return append(r.callToks(c, Mode{idx, 's'}), r.fl.statusAtom(r.fn, x, r.loops)...)
	}
	return nil
}

// callResult: v is result idx of a call.
func callResult(v ssa.Value) (*ssa.Call, int, bool) {
	switch x := v.(type) {
	case *ssa.Call:
		return x, 0, true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c, x.Index, true
		}
	}
	return nil, 0, false
}

func (r *flowRun) callToks(c *ssa.Call, m Mode) []string {
	f := c.Call.StaticCallee()
	if f == nil || !r.fl.c.inRepo(f) {
		return nil
	}
	s := r.fl.Sum(f, m)
	var out []string
	for t := range s.Toks {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

type tri int

const (
	no tri = iota
	maybe
	yes
)

// succeeds: can result value v be a success in state st, and what tokens does that imply.
func (r *flowRun) succeeds(v ssa.Value, kind byte, st *fstate) (tri, []string) {
	v = r.resolve(v, st)
	switch kind {
	case 'b':
		if b, known := r.evalCond(v, st, 0); known {
			if b {
				return yes, r.condToks(v, true, st, map[ssa.Value]bool{})
			}
			return no, nil
		}
		return maybe, r.condToks(v, true, st, map[ssa.Value]bool{})
	case 'e':
		if n, known := nilness(v); known {
			if n {
				return yes, nil
			}
			return no, nil
		}
		// an error known to be non-nil on this path
		if r.knownNonNil(v, st) {
			return no, nil
		}
		return maybe, r.nilToks(v, true, st, map[ssa.Value]bool{})
	case 'p':
		if n, known := nilness(v); known {
			if n {
				return no, nil
			}
			return yes, nil
		}
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == `""` {
			return no, nil
		}
		return maybe, r.nilToks(v, false, st, map[ssa.Value]bool{})
	case 's':
		if k, ok := constInt(v); ok {
			if k == r.fl.success {
				return yes, nil
			}
			return no, nil
		}
		// value returned raw from a call: success means it was SUCCESS
		toks := r.statusToks(v, st, map[ssa.Value]bool{})
		toks = append(toks, r.fl.statusAtom(r.fn, v, r.loops)...)
		return maybe, toks
	}
	return maybe, nil
}

// statusAtom asks the property for the tokens of "v == SUCCESS" when v is returned as such.
func (fl *Flow) statusAtom(fn *ssa.Function, v ssa.Value, loops []*Loop) []string {
	b := &ssa.BinOp{Op: token.EQL, X: v, Y: ssa.NewConst(constMake(fl.success), v.Type())}
	return fl.Atom(fn, b, true, loops)
}

// knownNonNil: on every path to the return in this block the value was tested to be non-nil (dominance).
func (r *flowRun) knownNonNil(v ssa.Value, st *fstate) bool {
	if v.Referrers() == nil {
		return false
	}
	for w, f := range st.facts {
		if e, ok := r.nilcmp[w]; ok && f == (w.(*ssa.BinOp).Op == token.NEQ) && r.resolve(e, st) == v {
			return true
		}
	}
	for _, u := range *v.Referrers() {
		b, ok := u.(*ssa.BinOp)
		if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || !(isNilConst(b.X) || isNilConst(b.Y)) {
			continue
		}
		for w, f := range st.facts {
			if w == ssa.Value(b) && f == (b.Op == token.NEQ) {
				return true
			}
		}
	}
	return false
}
