package main

import (
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type iterRes struct {
	exits, back []vedge
	rets        []vret
	guards      []vguard
}

// iterate evaluates one pass through the body of l.
func (e *VG) iterate(fr *vframe, l *Loop, phi map[*ssa.Phi]*T, mem vmem, it *T) iterRes {
	sr, sg := fr.rets, fr.guards
	fr.rets, fr.guards = nil, nil
	e.iter = append(e.iter, it)
	defer func() { e.iter = e.iter[:len(e.iter)-1] }()
	es := e.region(fr, l.Head, l.Body, e.b.tru, mem, phi)
	r := iterRes{rets: fr.rets, guards: fr.guards}
	fr.rets, fr.guards = sr, sg
	for _, x := range es {
		if x.to == l.Head {
			r.back = append(r.back, x)
		} else {
			r.exits = append(r.exits, x)
		}
	}
	return r
}

func (e *VG) joinBack(l *Loop, es []vedge) (map[*ssa.Phi]*T, vmem, *T) {
	cond, mem, rel := e.merge(es)
	out := map[*ssa.Phi]*T{}
	for _, ins := range l.Head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v := es[len(es)-1].phi[p]
		for i := len(es) - 2; i >= 0; i-- {
			v = e.b.Ite(rel[i], es[i].phi[p], v)
		}
		out[p] = v
	}
	return out, mem, cond
}

// unroll evaluates a loop whose trip count is constant.
func (e *VG) unroll(fr *vframe, l *Loop, cond *T, mem vmem, init map[*ssa.Phi]*T) (out []vedge, ok bool) {
	b := e.b
	phi := init
	run := b.tru
	var rets []vret
	var guards []vguard
	soft := 0
	// what is used behind the loop has the value of the pass that left it
	type left struct {
		cond *T
		vals map[ssa.Value]*T
	}
	var lefts []left
	outs := outliving(l)
	for it := 0; it < 300; it++ {
		r := e.iterate(fr, l, phi, mem, b.K(int64(it)))
		if len(outs) > 0 && len(r.exits) > 0 {
			c := b.fal
			for _, x := range r.exits {
				c = b.OrB(c, x.cond)
			}
			if c = e.and(run, c); c != b.fal {
				vals := map[ssa.Value]*T{}
				for _, v := range outs {
					vals[v] = fr.env[v]
				}
				lefts = append(lefts, left{c, vals})
			}
		}
		if e.headExits(l) {
			if h := fr.conds[l.Head]; h != nil && h != b.tru && h != b.fal {
				return nil, false
			}
		}
		for _, x := range r.exits {
			x.cond = e.and(e.and(cond, run), x.cond)
			if x.cond != b.fal {
				out = append(out, x)
			}
		}
		for _, x := range r.rets {
			x.cond = e.and(e.and(cond, run), x.cond)
			rets = append(rets, x)
		}
		for _, g := range r.guards {
			guards = append(guards, vguard{e.and(e.and(cond, run), g.cond), g.pos})
		}
		if len(r.back) == 0 {
			if len(lefts) > 1 {
				for _, v := range outs {
					t := lefts[len(lefts)-1].vals[v]
					for i := len(lefts) - 2; i >= 0; i-- {
						if w := lefts[i].vals[v]; w != nil && t != nil {
							t = b.Ite(lefts[i].cond, w, t)
						} else if t == nil {
							t = w
						}
					}
					if t != nil {
						fr.env[v] = t
					}
				}
			}
			fr.rets = append(fr.rets, rets...)
			fr.guards = append(fr.guards, guards...)
			return out, true
		}
		if len(r.exits)+len(r.rets) > 0 {
			soft++
			if soft > 70 {
				return nil, false
			}
			if soft > 3 && !e.headExits(l) {
				return nil, false
			}
		}
		var bc *T
		phi, mem, bc = e.joinBack(l, r.back)
		run = e.and(run, bc)
		for _, v := range phi {
			if v.op == "?" {
				continue
			}
			if v.sz > 60000 {
				return nil, false
			}
		}
	}
	return nil, false
}

func (e *VG) headExits(l *Loop) bool {
	for _, s := range l.Head.Succs {
		if !l.Body[s] {
			return true
		}
	}
	return false
}

func (e *VG) loop(fr *vframe, l *Loop, cond *T, mem vmem, init map[*ssa.Phi]*T) []vedge {
	b := e.b
	if out, ok := e.unroll(fr, l, cond, mem, init); ok {
		return out
	}
	type acc struct {
		phi   *ssa.Phi
		obj   int // object changed in place, or the content behind a slice variable
		fld   int // the field of a record that changes, or -1
		seq   int // the content behind a slice held in memory
		mu    *T
		init  *T
		next  *T
		final *T // after the loop
		at    *T // at the start of iteration v
	}
	v := b.Var()
	assign := map[*ssa.Phi]*T{}
	accs := map[*ssa.Phi]*acc{}
	objs := map[int][]*acc{}
	var order []*acc
	isSeqPhi := func(p *ssa.Phi) bool {
		_, ok := p.Type().Underlying().(*types.Slice)
		return ok
	}
	ptrElem := func(p *ssa.Phi) types.Type {
		if u, ok := p.Type().Underlying().(*types.Pointer); ok && init[p] != nil {
			el := u.Elem()
			if _, ok := el.Underlying().(*types.Struct); ok && !isBig(el) && !isBuf(el) {
				switch init[p].op {
				case "adr", "fn", "x", "in", "fld":
					return el
				}
			}
		}
		return nil
	}
	isPtrPhi := func(p *ssa.Phi) bool { return ptrElem(p) != nil }
	for _, ins := range l.Head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		a := &acc{phi: p, init: init[p], fld: -1}
		k := sortOfKind(kindOf(p.Type()))
		if kindOf(p.Type()) == "l" {
			k = 's'
		}
		a.mu = b.Mu(k)
		if isSeqPhi(p) {
			a.init = e.content(mem, init[p])
			a.obj = e.newObj(p.Type(), a.mu)
			sl := e.slc(a.obj, b.K(0), b.Len(a.mu))
			assign[p] = sl
		} else if el := ptrElem(p); el != nil {
			a.mu = b.Mu(0)
			a.init = e.pure(mem, e.load(mem, init[p], el), 0)
			a.obj = e.newObj(el, a.mu)
			assign[p] = e.adr(a.obj)
		} else {
			assign[p] = a.mu
		}
		accs[p] = a
		order = append(order, a)
	}
	var r iterRes
	var next map[*ssa.Phi]*T
	var nmem vmem
	var memIn vmem
	stable := false
	linear := map[*acc]bool{}
	mark, top := 0, 0
	for round := 0; round < 14; round++ {
		memIn = mem.clone()
		for id, as := range objs {
			for _, a := range as {
				val := a.mu
				if a.seq > 0 {
					val = e.slc(a.seq, b.K(0), b.Len(a.mu))
				}
				if a.fld < 0 {
					memIn[id] = val
					continue
				}
				rec := e.expand(e.get(memIn, id), e.objs[id].typ)
				fs := append([]*T{}, rec.a...)
				fs[a.fld] = val
				memIn[id] = b.raw(&T{op: "rec", s: rec.s, a: fs})
			}
		}
		mark = len(e.objs)
		r = e.iterate(fr, l, assign, memIn, v)
		top = len(e.objs)
		if len(r.back) == 0 {
			// the body is never repeated
			for _, x := range r.rets {
				x.cond = e.and(cond, x.cond)
				fr.rets = append(fr.rets, x)
			}
			for _, g := range r.guards {
				fr.guards = append(fr.guards, vguard{e.and(cond, g.cond), g.pos})
			}
			if round == 0 && !stable {
				// evaluated with symbolic start values: redo with the real ones
				r = e.iterate(fr, l, init, mem, b.K(0))
				var out []vedge
				for _, x := range r.exits {
					x.cond = e.and(cond, x.cond)
					out = append(out, x)
				}
				return out
			}
			var out []vedge
			for _, x := range r.exits {
				x.cond = e.and(cond, x.cond)
				out = append(out, x)
			}
			return out
		}
		var again *T
		next, nmem, again = e.joinBack(l, r.back)
		refused := b.fal
		for _, g := range r.guards {
			refused = e.or(refused, g.cond)
		}
		on := b.units(e.and(again, b.Not(refused)))
		changed := false
		var ids []int
		for id := range nmem {
			if id < mark {
				ids = append(ids, id)
			}
		}
		sort.Ints(ids)
		for _, id := range ids {
			t := nmem[id]
			was := e.get(memIn, id)
			if t == was {
				continue
			}
			own := false
			for _, a := range order {
				own = own || a.phi != nil && a.obj == id || a.seq == id
			}
			if own {
				continue
			}
			cur := e.get(mem, id)
			newAcc := func(fld int, init *T, typ types.Type) {
				a := &acc{obj: id, fld: fld, init: init, mu: b.Mu(init.sort)}
				_, isSl := under(typ).(*types.Slice)
				switch {
				case isSl && (init.op == "slc" || init.op == "nil"):
					a.init = e.content(mem, init)
					a.mu = b.Mu('s')
					a.seq = e.newObj(typ, a.mu)
				case init.op == "nil" || init.op == "slc" || init.op == "rec":
					a.mu = b.Mu(0)
				case init.sort == 's' && !isSl:
					// an array keeps its length
					a.mu = b.MuLen(b.Len(init))
				case init.sort == 's':
					a.mu = b.MuLen(b.Len(init))
				}
				objs[id] = append(objs[id], a)
				order = append(order, a)
				changed = true
			}
			if st, ok := under(e.objs[id].typ).(*types.Struct); ok && !isBuf(e.objs[id].typ) && !isBig(e.objs[id].typ) && t.op == "rec" && was.op == "rec" && e.expand(cur, e.objs[id].typ).op == "rec" {
				rc := e.expand(cur, e.objs[id].typ)
				for i := range t.a {
					if t.a[i] == was.a[i] {
						continue
					}
					known := false
					for _, a := range objs[id] {
						known = known || a.fld == i || a.fld < 0
					}
					if !known {
						newAcc(i, rc.a[i], st.Field(i).Type())
					}
				}
				continue
			}
			if st, ok := under(e.objs[id].typ).(*types.Struct); ok && st.NumFields() > 0 && len(objs[id]) == 0 && was.op != "rec" && cur.op != "?" && cur.op != "ite" && t.op != "?" && !isBuf(e.objs[id].typ) && !isBig(e.objs[id].typ) {
				// taken apart first
				rc := e.expand(cur, e.objs[id].typ)
				if rc.op == "rec" {
					mem = mem.clone()
					mem[id] = rc
					changed = true
					continue
				}
			}
			if len(objs[id]) == 0 {
				newAcc(-1, cur, e.objs[id].typ)
			} else if objs[id][0].fld >= 0 {
				// no longer a record: give up on its parts
				for _, a := range objs[id] {
					a.next = b.unk
				}
			}
		}
		if changed {
			continue
		}
		for _, a := range order {
			if a.phi != nil {
				if assign[a.phi] != a.mu && !isSeqPhi(a.phi) && !isPtrPhi(a.phi) {
					continue // settled
				}
				if el := ptrElem(a.phi); el != nil {
					if assign[a.phi] == init[a.phi] {
						continue
					}
					if next[a.phi] == assign[a.phi] {
						assign[a.phi] = init[a.phi]
						changed = true
						continue
					}
					if nmem[a.obj] != nil {
						a.next = b.unk
						continue
					}
					a.next = b.knowing(e.pure(nmem, e.load(nmem, next[a.phi], el), 0), on)
					continue
				}
				if isSeqPhi(a.phi) {
					if assign[a.phi] == init[a.phi] {
						continue
					}
					if next[a.phi] == assign[a.phi] && nmem[a.obj] == nil {
						assign[a.phi] = init[a.phi]
						changed = true
						continue
					}
					a.next = b.knowing(e.pure(nmem, e.content(nmem, next[a.phi]), mark), on)
					continue
				}
				a.next = b.knowing(e.pure(nmem, next[a.phi], mark), on)
				if a.next == a.mu {
					assign[a.phi] = init[a.phi]
					changed = true
					continue
				}
				if a.mu.sort == 'i' && a.next.op != "?" {
					d := b.SubI(a.next, a.mu)
					if d.op == "k" || (d.op != "?" && !d.mu && !b.contains(d, v) && e.outside(d, mark)) {
						assign[a.phi] = b.Add(a.init, b.Mul(d, v))
						linear[a] = true
						changed = true
					}
				}
				continue
			}
			nx := e.get(nmem, a.obj)
			if a.fld >= 0 {
				if nx.op != "rec" {
					a.next = b.unk
					continue
				}
				nx = nx.a[a.fld]
			}
			if a.seq > 0 {
				nx = e.content(nmem, nx)
			}
			a.next = b.knowing(e.pure(nmem, nx, mark), on)
		}
		if !changed {
			stable = true
			break
		}
	}
	// the number of iterations
	n := b.unk
	if stable {
		n = e.tripCount(fr, l, v)
	}
	if n.op == "?" {
		e.why["trip count"]++
	}
	var open []*acc
	for _, a := range order {
		if a.phi != nil {
			if isSeqPhi(a.phi) || isPtrPhi(a.phi) {
				if assign[a.phi] == init[a.phi] {
					continue
				}
			} else if assign[a.phi] != a.mu {
				continue
			}
		}
		open = append(open, a)
	}
	// padding to a fixed width
	if n.op == "?" && stable && len(open) == 1 && len(r.exits) == 1 && r.exits[0].from == l.Head && open[0].next != nil {
		if w := e.padLoop(r.exits[0].cond, open[0].mu, open[0].next); w > 0 {
			a := open[0]
			a.final = b.Padl(w, a.init)
			a.at = b.unk
		}
	}
	isOpen := func(t *T) bool {
		for _, a := range open {
			if a.final == nil && b.contains(t, a.mu) {
				return true
			}
		}
		return false
	}
	sub := map[*T]*T{}
	for progress := true; progress && stable && n.op != "?"; {
		progress = false
		for _, a := range open {
			if a.final != nil || a.next == nil {
				continue
			}
			nx := b.subst(a.next, sub)
			rest := false
			for _, o := range open {
				if o != a && o.final == nil && b.contains(nx, o.mu) {
					rest = true
				}
			}
			if rest {
				continue
			}
			fin, at := e.solve(a.mu, a.init, nx, n, v)
			if fin == nil {
				continue
			}
			a.final, a.at = fin, at
			sub[a.mu] = at
			progress = true
		}
	}
	_ = isOpen
	// what has no closed form stays a loop over the remaining variables
	ls := &loopSys{v: v}
	cont := b.tru
	if n.op != "?" {
		cont = b.Lt(v, n)
	} else if h := fr.conds[l.Head]; h != nil && e.headExits(l) {
		cont = b.subst(h, sub)
		if !l.Body[l.Head.Succs[0]] {
			cont = b.Not(cont)
		}
	}
	ls.cont = cont
	for _, a := range open {
		if a.final == nil || a.at.op == "?" {
			if a.final == nil {
				e.why["accumulator"]++
			}
			if !stable || a.next == nil || a.next.op == "?" || a.init.op == "?" {
				sub[a.mu] = b.unk
				if a.final == nil {
					a.final, a.at = b.unk, b.unk
				}
				continue
			}
			ls.mus = append(ls.mus, a.mu)
			ls.init = append(ls.init, a.init)
			ls.next = append(ls.next, a.next)
		}
	}
	for i := range ls.next {
		ls.next[i] = b.subst(ls.next[i], sub)
	}
	ls.cont = b.subst(ls.cont, sub)
	if !stable {
		ls.bad = true
	}
	has := func(t *T) bool {
		for _, mu := range ls.mus {
			if b.contains(t, mu) {
				return true
			}
		}
		return false
	}
	finS := map[*T]*T{v: n}
	if n.op == "?" {
		finS[v] = b.Loop("fin", v, b.fal, ls)
	}
	for _, a := range open {
		if a.final == nil {
			a.final = b.loopVal("fin", a.mu, b.fal, ls)
		}
		finS[a.mu] = a.final
	}
	at := func(t *T) *T { return b.subst(t, sub) }
	quant := func(c *T) *T {
		c = at(c)
		if c == b.fal {
			return c
		}
		if n.op != "?" && c.op != "?" && !has(c) {
			return b.Exists(n, v, c)
		}
		if c == b.tru {
			return c
		}
		r := b.Loop("ex", b.tru, c, ls)
		if r.op == "?" {
			return b.unkAtom()
		}
		return b.atom(r)
	}
	if len(r.guards) > 0 {
		all := b.fal
		for _, g := range r.guards {
			all = e.or(all, g.cond)
		}
		fr.guards = append(fr.guards, vguard{e.and(cond, quant(all)), r.guards[0].pos})
	}
	early := b.fal
	var out []vedge
	leave := func(t, xc *T) *T {
		t = at(t)
		if !b.contains(t, v) && !has(t) {
			return t
		}
		xc = at(xc)
		if n.op != "?" && !has(t) && !has(xc) {
			return b.subst(t, map[*T]*T{v: b.First(n, v, xc)})
		}
		// replace the parts that vary
		sb := map[*T]*T{v: b.Loop("at", v, xc, ls)}
		for _, mu := range ls.mus {
			sb[mu] = b.loopVal("at", mu, xc, ls)
		}
		return b.subst(t, sb)
	}
	syms := map[int]bool{}
	for _, id := range e.sym {
		syms[id] = true
	}
	leaveMem := func(m vmem, xc *T) vmem {
		o := vmem{}
		for id, t := range m {
			o[id] = leave(t, xc)
		}
		for id := mark; id < top; id++ {
			if syms[id] {
				continue
			}
			if x := e.objs[id].init; o[id] == nil && x != nil && (x.mu || b.contains(x, v)) {
				o[id] = leave(x, xc)
			}
		}
		for _, a := range open {
			if a.phi != nil && (isSeqPhi(a.phi) || isPtrPhi(a.phi)) && o[a.obj] == nil {
				o[a.obj] = leave(a.mu, xc)
			}
			if a.seq > 0 && o[a.seq] == nil {
				o[a.seq] = leave(a.mu, xc)
			}
		}
		return o
	}
	for _, x := range r.rets {
		c := quant(x.cond)
		early = e.or(early, c)
		nr := vret{cond: e.and(cond, c), at: x.at, mem: leaveMem(x.mem, x.cond)}
		for _, t := range x.vals {
			nr.vals = append(nr.vals, leave(t, x.cond))
		}
		fr.rets = append(fr.rets, nr)
	}
	var headX []vedge
	anyX := b.fal
	for _, x := range r.exits {
		if x.from == l.Head && e.headExits(l) {
			headX = append(headX, x)
			continue
		}
		c := quant(x.cond)
		anyX = e.or(anyX, x.cond)
		early = e.or(early, c)
		nx := vedge{from: x.from, to: x.to, cond: e.and(cond, c), mem: leaveMem(x.mem, x.cond), phi: map[*ssa.Phi]*T{}}
		for p, t := range x.phi {
			nx.phi[p] = leave(e.pureRef(x.mem, t), x.cond)
		}
		out = append(out, nx)
	}
	// leaving through the head: the final values
	fin := func(t *T) *T { return b.subst(t, finS) }
	for _, x := range headX {
		nx := vedge{from: x.from, to: x.to, cond: e.and(cond, b.Not(early)), mem: vmem{}, phi: map[*ssa.Phi]*T{}}
		for id, t := range x.mem {
			nx.mem[id] = fin(t)
		}
		for id := mark; id < top; id++ {
			if syms[id] {
				continue
			}
			if x := e.objs[id].init; nx.mem[id] == nil && x != nil && (x.mu || b.contains(x, v)) {
				nx.mem[id] = fin(x)
			}
		}
		ref := map[*T]*T{}
		for _, a := range open {
			if a.seq > 0 && nx.mem[a.seq] == nil {
				nx.mem[a.seq] = a.final
			}
			if a.phi != nil && isPtrPhi(a.phi) {
				if a.final.op == "?" {
					ref[assign[a.phi]] = b.unk
				} else {
					ref[assign[a.phi]] = e.adr(e.newObj(ptrElem(a.phi), a.final))
				}
				nx.mem[a.obj] = a.final
			}
			if a.phi != nil && isSeqPhi(a.phi) {
				id := e.newObj(a.phi.Type(), a.final)
				if a.final.op == "?" {
					ref[assign[a.phi]] = b.unk
				} else {
					s := &T{op: "slc", n: big.NewInt(int64(id)), a: []*T{b.K(0), b.Len(a.final)}}
					if init[a.phi].op == "nil" {
						s.s = "n"
					}
					ref[assign[a.phi]] = b.raw(s)
				}
				// references to the loop's own object
				nx.mem[a.obj] = a.final
			}
		}
		f2 := func(t *T) *T {
			if len(ref) > 0 {
				t = b.subst(t, ref)
			}
			return fin(t)
		}
		for p, t := range x.phi {
			nx.phi[p] = f2(t)
		}
		e.outlive(fr, l, func(t *T) *T {
			t2 := f2(t)
			if anyX == b.fal || t2 == t {
				return t2
			}
			return b.Ite(early, leave(t, anyX), t2)
		})
		out = append(out, nx)
	}
	if len(headX) == 0 {
		e.outlive(fr, l, func(t *T) *T { return leave(t, anyX) })
	}
	return out
}

// outliving: the values of a loop that are used behind it.
func outliving(l *Loop) []ssa.Value {
	var out []ssa.Value
	for _, blk := range l.Head.Parent().Blocks {
		if !l.Body[blk] {
			continue
		}
		for _, ins := range blk.Instrs {
			vv, ok := ins.(ssa.Value)
			if !ok || vv.Referrers() == nil {
				continue
			}
			for _, rf := range *vv.Referrers() {
				if !l.Body[rf.Block()] {
					out = append(out, vv)
					break
				}
			}
		}
	}
	return out
}

// outlive adjusts the values of a loop that are used behind it.
func (e *VG) outlive(fr *vframe, l *Loop, f func(*T) *T) {
	for blk := range l.Body {
		for _, ins := range blk.Instrs {
			vv, ok := ins.(ssa.Value)
			if !ok || fr.env[vv] == nil || vv.Referrers() == nil {
				continue
			}
			used := false
			for _, rf := range *vv.Referrers() {
				if !l.Body[rf.Block()] {
					used = true
				}
			}
			if used {
				fr.env[vv] = f(fr.env[vv])
			}
		}
	}
}

// pureRef: the value without references that would not outlive an iteration.
func (e *VG) pureRef(m vmem, t *T) *T {
	if t.op == "slc" || t.op == "adr" {
		return t
	}
	return t
}

// outside: no reference to an object of the iteration.
func (e *VG) outside(t *T, mark int) bool {
	seen := map[*T]bool{}
	var f func(*T) bool
	f = func(x *T) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		if (x.op == "slc" || x.op == "adr") && int(x.n.Int64()) >= mark {
			return false
		}
		for _, y := range x.a {
			if !f(y) {
				return false
			}
		}
		return true
	}
	return f(t)
}

// linV splits t into c*v + rest.
func (b *Tab) linV(t, v *T) (c *big.Int, rest *T, ok bool) {
	if t == v {
		return one, b.K(0), true
	}
	if t.op == "lin" {
		c = zero
		var xs []*T
		var cs []*big.Int
		for i, y := range t.a {
			if y == v {
				c = t.c[i]
				continue
			}
			if b.contains(y, v) {
				return nil, nil, false
			}
			xs, cs = append(xs, y), append(cs, t.c[i])
		}
		return c, b.Lin(t.n, xs, cs), true
	}
	if b.contains(t, v) {
		return nil, nil, false
	}
	return zero, t, true
}

// tripCount solves the exit condition of the head for the iteration number.
func (e *VG) tripCount(fr *vframe, l *Loop, v *T) *T {
	b := e.b
	if !e.headExits(l) || fr.conds[l.Head] == nil {
		return b.unk
	}
	ex := fr.conds[l.Head]
	if l.Body[l.Head.Succs[0]] {
		ex = b.Not(ex)
	}
	if ex.op != "ite" || ex.mu {
		return b.unk
	}
	cont := b.Not(ex)
	neg := false
	if cont.a[1] == b.fal && cont.a[2] == b.tru {
		neg = true
	} else if !(cont.a[1] == b.tru && cont.a[2] == b.fal) {
		return b.unk
	}
	at := cont.a[0]
	if at.op != "lt" && at.op != "eq" {
		return b.unk
	}
	w, k := at.a[0], at.a[1]
	if at.op == "eq" {
		w, k = b.SubI(w, k), b.K(0)
	}
	c, rest, ok := b.linV(w, v)
	if !ok || c.Sign() == 0 || rest.mu || b.contains(k, v) {
		return b.unk
	}
	if at.op == "eq" {
		if !neg {
			return b.unk
		}
		// c*v + rest != 0
		if c.Cmp(one) == 0 {
			return b.SubI(k, rest)
		}
		if c.Cmp(big.NewInt(-1)) == 0 {
			return b.SubI(rest, k)
		}
		return b.unk
	}
	cdiv := func(x *T, d *big.Int) *T {
		if d.Cmp(one) == 0 {
			return x
		}
		y := b.Lin(new(big.Int).Sub(d, one), []*T{x}, []*big.Int{one})
		return b.Div(y, b.Kb(d))
	}
	if !neg && c.Sign() > 0 { // rest + c*v < k
		return cdiv(b.SubI(k, rest), c)
	}
	if neg && c.Sign() < 0 { // rest + c*v >= k
		return cdiv(b.Add(b.SubI(rest, k), b.K(1)), new(big.Int).Neg(c))
	}
	return b.unk
}

// padLoop: while len(mu) < w, put a zero byte in front.
func (e *VG) padLoop(exit, mu, next *T) int64 {
	b := e.b
	if next != b.Cat(b.Bytes("\x00"), mu) {
		return 0
	}
	cont := b.Not(exit)
	if cont.op != "ite" || cont.a[1] != b.tru || cont.a[2] != b.fal || cont.a[0].op != "lt" {
		return 0
	}
	if cont.a[0].a[0] != b.Len(mu) {
		return 0
	}
	k, ok := kOf(cont.a[0].a[1])
	if !ok {
		return 0
	}
	return k
}

// solve finds the closed form of x -> next with x = init at the start, after n steps and at step v.
func (e *VG) solve(mu, init, next, n, v *T) (final, at *T) {
	b := e.b
	if next.op == "?" || init.op == "?" {
		return nil, nil
	}
	w := b.Var()
	tov := func(t, by *T) *T { return b.subst(t, map[*T]*T{v: by}) }
	if !b.contains(next, mu) {
		// the value of the previous iteration
		prev := func(i *T) *T {
			return b.Ite(b.Lt(b.K(0), i), tov(next, b.SubI(i, b.K(1))), init)
		}
		if !b.contains(next, v) {
			return b.Ite(b.Lt(b.K(0), n), next, init), b.Ite(b.Lt(b.K(0), v), next, init)
		}
		return prev(n), prev(v)
	}
	if mu.sort == 's' {
		es := elems(next)
		if es[0] == mu && len(es) > 1 {
			body := b.Cat(es[1:]...)
			if b.contains(body, mu) {
				// a body that depends on the length so far only through constant parts is not solved
				return nil, nil
			}
			return b.Cat(init, b.Map(n, v, body)), b.Cat(init, b.Map(v, w, tov(body, w)))
		}
		if es[len(es)-1] == mu && len(es) > 1 {
			body := b.Cat(es[:len(es)-1]...)
			if b.contains(body, mu) {
				return nil, nil
			}
			rv := func(k *T) *T {
				return b.Cat(b.Map(k, w, tov(body, b.SubI(b.SubI(k, b.K(1)), w))), init)
			}
			return rv(n), rv(v)
		}
		if next.op == "set" {
			return e.solveSet(mu, init, next, n, v)
		}
	}
	if mu.sort == 'i' {
		d := b.SubI(next, mu)
		if d.op != "?" && !b.contains(d, mu) {
			return b.Add(init, b.Sum(n, v, d)), b.Add(init, b.Sum(v, w, tov(d, w)))
		}
		// a sum that wraps around
		if k, d := b.wraps(next, mu); d != nil && k > 0 && !b.contains(d, mu) {
			return b.Trunc(k, b.Add(init, b.Sum(n, v, d))), b.Trunc(k, b.Add(init, b.Sum(v, w, tov(d, w))))
		}
	}
	if mu.sort == 'b' {
		// found || c, ok && c
		f1 := b.cof(next, mu, true)
		f0 := b.cof(next, mu, false)
		if !b.contains(f1, mu) && !b.contains(f0, mu) {
			if f1 == b.tru {
				return b.OrB(b.atom(init), b.Exists(n, v, f0)), b.OrB(b.atom(init), b.Exists(v, w, tov(f0, w)))
			}
			if f0 == b.fal {
				nf := b.Not(f1)
				return b.AndB(b.atom(init), b.Not(b.Exists(n, v, nf))), b.AndB(b.atom(init), b.Not(b.Exists(v, w, tov(nf, w))))
			}
		}
		return nil, nil
	}
	// x = k when c
	if next.op == "ite" {
		var k *T
		okk := true
		c := b.fal
		var walk func(t, path *T)
		walk = func(t, path *T) {
			if t.op == "ite" && t.sort == next.sort {
				walk(t.a[1], b.AndB(path, b.atom(t.a[0])))
				walk(t.a[2], b.AndB(path, b.Not(b.atom(t.a[0]))))
				return
			}
			if t == mu {
				return
			}
			if k != nil && k != t {
				okk = false
				return
			}
			k = t
			c = b.OrB(c, path)
		}
		walk(next, b.tru)
		if okk && k != nil && !b.contains(k, mu) && !b.contains(k, v) && !b.contains(c, mu) {
			return b.Ite(b.Exists(n, v, c), k, init), b.Ite(b.Exists(v, w, tov(c, w)), k, init)
		}
	}
	return nil, nil
}

func (b *Tab) cof(t, atom *T, pos bool) *T {
	v := b.fal
	if pos {
		v = b.tru
	}
	return b.subst(t, map[*T]*T{atom: v})
}

// solveSet: elements replaced at consecutive places.
func (e *VG) solveSet(mu, init, next, n, v *T) (final, at *T) {
	b := e.b
	w := b.Var()
	tov := func(t, by *T) *T { return b.subst(t, map[*T]*T{v: by}) }
	L := b.Len(init)
	elt := func(x *T) *T {
		if next.s == "y" {
			return b.Byte(x)
		}
		return b.op1("elt", 's', x)
	}
	if next.a[0] == mu {
		i, x := next.a[1], next.a[2]
		c, lo, ok := b.linV(i, v)
		if !ok {
			return nil, nil
		}
		if b.contains(i, mu) {
			return nil, nil
		}
		if b.contains(x, mu) {
			// the place written is the only one read: it still holds what it held at first
			m := map[*T]*T{}
			seen := map[*T]bool{}
			var find func(t *T)
			find = func(t *T) {
				if seen[t] {
					return
				}
				seen[t] = true
				if t.op == "at" && t.a[0] == mu && t.a[1] == i {
					m[t] = b.subst(t, map[*T]*T{mu: init})
					return
				}
				for _, y := range t.a {
					find(y)
				}
			}
			find(x)
			if x = b.subst(x, m); x.op == "?" || b.contains(x, mu) {
				return nil, nil
			}
		}
		if c.Cmp(one) == 0 {
			f := func(k *T) *T {
				return b.Cat(b.Sub(init, b.K(0), lo), b.Map(k, w, tov(elt(x), w)), b.Sub(init, b.Add(lo, k), b.SubI(b.SubI(L, lo), k)))
			}
			return f(n), f(v)
		}
		if c.Cmp(big.NewInt(-1)) == 0 {
			// positions lo, lo-1, ...: element at position lo-k+1+w is written in step k-1-w
			f := func(k *T) *T {
				st := b.Add(b.SubI(lo, k), b.K(1))
				return b.Cat(b.Sub(init, b.K(0), st), b.Map(k, w, tov(elt(x), b.SubI(b.SubI(k, b.K(1)), w))), b.Sub(init, b.Add(lo, b.K(1)), b.SubI(b.SubI(L, lo), b.K(1))))
			}
			return f(n), f(v)
		}
		return nil, nil
	}
	// exchange of v and L-1-v for half of the places: reversal
	if next.a[0].op == "set" && next.a[0].a[0] == mu {
		in := next.a[0]
		i, j := in.a[1], next.a[1]
		if b.atKind(mu, j, "u8") == in.a[2] && b.atKind(mu, i, "u8") == next.a[2] {
			if i != v {
				i, j = j, i
			}
			if i == v && j == b.SubI(b.SubI(L, b.K(1)), v) {
				half := b.Shr(L, 1)
				half2 := b.Shr(b.Add(L, b.K(1)), 1)
				if n == half || n == half2 || n == b.Div(L, b.K(2)) {
					return b.Rev(init), nil2(b)
				}
			}
		}
	}
	return nil, nil
}

func nil2(b *Tab) *T { return b.unk }

// wraps: next is mu plus something, modulo 2^k, on every alternative.
func (b *Tab) wraps(next, mu *T) (int, *T) {
	if next == mu {
		return 0, b.K(0)
	}
	switch next.op {
	case "lane":
		if next.n.Sign() != 0 {
			return 0, nil
		}
		if d := b.SubI(next.a[0], mu); d.op != "?" && !b.contains(d, mu) {
			return 8, d
		}
	case "tr":
		if d := b.SubI(next.a[0], mu); d.op != "?" && !b.contains(d, mu) {
			return int(next.n.Int64()), d
		}
	case "ite":
		if b.contains(next.a[0], mu) {
			return 0, nil
		}
		k1, x := b.wraps(next.a[1], mu)
		k2, y := b.wraps(next.a[2], mu)
		if x == nil || y == nil || k1 != 0 && k2 != 0 && k1 != k2 {
			return 0, nil
		}
		return max(k1, k2), b.Ite(b.atom(next.a[0]), x, y)
	}
	return 0, nil
}
