package main

import (
	"hash/fnv"
	"math/big"
	"sort"
	"strconv"
)

// loopSys is a loop without closed form: variables with start values and next values, and the
// condition to go on; v counts the iterations.
type loopSys struct {
	v          *T
	cont       *T
	mus        []*T
	init, next []*T
	bad        bool
}

// First is the least v below n with cond.
func (b *Tab) First(n, v, cond *T) *T {
	if n.op == "?" || cond.op == "?" {
		return b.unk
	}
	cond = b.below(cond, v, n)
	if !b.contains(cond, v) {
		return b.K(0)
	}
	h := cond.bv + 1
	body := b.subst(cond, map[*T]*T{v: b.bvar(big.NewInt(int64(h)))})
	return b.raw(&T{op: "first", n: big.NewInt(int64(h)), a: []*T{n, body}, bv: h, sort: 'i', lo: zero})
}

// shape is a hash of a term that does not depend on the numbering of loop variables.
func (b *Tab) shape(t *T) uint64 {
	if b.shapes == nil {
		b.shapes = map[*T]uint64{}
	}
	if h, ok := b.shapes[t]; ok {
		return h
	}
	f := fnv.New64a()
	f.Write([]byte(t.op))
	if t.op != "mu" && t.op != "var" {
		f.Write([]byte(t.s))
		if t.n != nil {
			f.Write(t.n.Bytes())
		}
	}
	var cs []uint64
	for i, x := range t.a {
		h := b.shape(x)
		if i < len(t.c) {
			h = h*31 + uint64(t.c[i].Int64())
		}
		cs = append(cs, h)
	}
	if t.op == "lin" || t.op == "ite" {
		sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	}
	for _, c := range cs {
		f.Write([]byte(strconv.FormatUint(c, 36)))
	}
	h := f.Sum64()
	b.shapes[t] = h
	return h
}

// Loop closes a term over a loop: kind "fin" is the value of t when the loop ends, "at" its value at
// the first iteration with xc, "ex" whether there is one.
func (b *Tab) Loop(kind string, t, xc *T, ls *loopSys) *T {
	if ls.bad || t.op == "?" || xc.op == "?" || ls.cont.op == "?" {
		return b.unk
	}
	if kind != "fin" {
		xc = b.given(xc, ls.cont)
	}
	for i := range ls.next {
		ls.next[i] = b.given(ls.next[i], ls.cont)
	}
	idx := map[*T]int{}
	for i, m := range ls.mus {
		idx[m] = i
	}
	var ord []int
	got := map[int]bool{}
	usesV := false
	seen := map[*T]bool{}
	var queue []*T
	var visit func(x *T)
	visit = func(x *T) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x == ls.v {
			usesV = true
		}
		if i, ok := idx[x]; ok && !got[i] {
			got[i] = true
			ord = append(ord, i)
			queue = append(queue, ls.next[i])
		}
		as := x.a
		if (x.op == "lin" || x.op == "ite") && x.mu {
			as = append([]*T{}, x.a...)
			sort.SliceStable(as, func(i, j int) bool { return b.shape(as[i]) < b.shape(as[j]) })
		}
		for _, y := range as {
			visit(y)
		}
	}
	visit(t)
	visit(xc)
	visit(ls.cont)
	for len(queue) > 0 {
		q := queue[0]
		queue = queue[1:]
		visit(q)
	}
	_ = usesV
	h := t.bv
	up := func(x *T) {
		if x.bv > h {
			h = x.bv
		}
	}
	up(xc)
	up(ls.cont)
	for _, i := range ord {
		up(ls.next[i])
		if n := b.muLen[ls.mus[i]]; n != nil {
			up(n)
		}
	}
	h++
	m := map[*T]*T{ls.v: b.lv(h, 0, 'i', nil)}
	for k, i := range ord {
		var as []*T
		if n := b.muLen[ls.mus[i]]; n != nil {
			as = []*T{n}
		}
		m[ls.mus[i]] = b.lv(h, k+1, ls.mus[i].sort, as)
	}
	sb := func(x *T) *T { return b.subst(x, m) }
	as := []*T{sb(t), sb(xc), sb(ls.cont)}
	for _, i := range ord {
		as = append(as, ls.init[i], sb(ls.next[i]))
	}
	for _, a := range as {
		if a.op == "?" {
			return a
		}
	}
	s := t.sort
	if kind == "ex" {
		s = 'b'
	}
	r := &T{op: "loop", s: kind, n: big.NewInt(int64(h)), a: as, bv: h, sort: s}
	if t == ls.v {
		r.lo = zero
	}
	return b.raw(r)
}

func (b *Tab) lv(h, j int, sort byte, as []*T) *T {
	t := &T{op: "lv", s: string(rune('a'+j)) + string(sort|0x20), n: big.NewInt(int64(h)), sort: sort, a: as}
	if j == 0 {
		t.lo = zero
	}
	return b.raw(t)
}

// reLoop reopens a loop, substitutes and closes it again.
func (b *Tab) reLoop(x *T, m map[*T]*T) *T {
	// the bound variables are the lv leaves of this height
	bound := map[string]*T{}
	var find func(t *T)
	seen := map[*T]bool{}
	find = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "lv" && t.n.Cmp(x.n) == 0 {
			bound[t.s[:1]] = t
		}
		for _, y := range t.a {
			find(y)
		}
	}
	find(x.a[0])
	find(x.a[1])
	find(x.a[2])
	for i := 4; i < len(x.a); i += 2 {
		find(x.a[i])
	}
	open := map[*T]*T{}
	ls := &loopSys{v: b.Var()}
	if y := bound["a"]; y != nil {
		open[y] = ls.v
	}
	n := (len(x.a) - 3) / 2
	for j := 1; j <= n; j++ {
		y := bound[string(rune('a'+j))]
		var mu *T
		if y == nil {
			mu = b.Mu(0)
		} else {
			mu = b.Mu(y.sort)
			if len(y.a) > 0 {
				n := y.a[0]
				if m != nil {
					n = b.subst(n, m)
				}
				mu = b.MuLen(n)
			}
			open[y] = mu
		}
		ls.mus = append(ls.mus, mu)
	}
	f := func(t *T) *T {
		t = b.subst(t, open)
		if m != nil {
			t = b.subst(t, m)
		}
		return t
	}
	g := func(t *T) *T {
		if m != nil {
			t = b.subst(t, m)
		}
		return t
	}
	ls.cont = f(x.a[2])
	for j := 0; j < n; j++ {
		ls.init = append(ls.init, g(x.a[3+2*j]))
		ls.next = append(ls.next, f(x.a[4+2*j]))
	}
	return b.Loop(x.s, f(x.a[0]), f(x.a[1]), ls)
}

func (b *Tab) loopVal(kind string, t, xc *T, ls *loopSys) *T {
	r := b.Loop(kind, t, xc, ls)
	if r.sort == 'b' && r.op == "loop" {
		return b.atom(r)
	}
	return r
}
