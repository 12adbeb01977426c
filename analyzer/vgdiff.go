package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
)

// differ decides whether two value graphs over the same inputs are certainly different: there is an
// assignment of the branch conditions, consistent under the theory below, under which they are built
// differently from the same inputs. Parts that are not understood never count as a difference.
type differ struct {
	onFailure bool // the difference found needs a failing step
	loses     bool // the new value misses a part of the arguments
	e         *VG
	b         *Tab
	opaque    int // operations around the compared parts that may hide a difference
	steps     int
	msg       string
	safeM     map[*T]bool
	sub       [2]map[*T]bool     // the terms of each side
	fns       [2]map[string]bool // the uninterpreted functions of each side
	cur       []lit              // the conditions the current comparison is under
	depth     int
	opened    map[*T]*T // a variable for each range
}

// open is the body of a quantified term at the variable of its range.
func (d *differ) open(x *T) *T {
	if d.opened == nil {
		d.opened = map[*T]*T{}
	}
	v := d.opened[x.a[0]]
	if v == nil {
		v = d.b.Var()
		d.opened[x.a[0]] = v
	}
	r := d.b.subst(x.a[1], map[*T]*T{d.b.bvar(x.n): v})
	s := d.side(x)
	if s != 1 {
		d.note(0, r)
	}
	if s != 0 {
		d.note(1, r)
	}
	return r
}

// note records the subterms of a term as belonging to a side.
func (d *differ) note(side int, t *T) {
	if d.sub[side][t] {
		return
	}
	d.sub[side][t] = true
	for _, y := range t.a {
		d.note(side, y)
	}
}

// terms collects the subterms of a side.
func (d *differ) terms(side int, r *vgResult) {
	seen := map[*T]bool{}
	fns := map[string]bool{}
	var f func(*T)
	f = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "fn" || t.op == "x" || t.op == "fails" {
			fns[fnName(t)] = true
		}
		for _, y := range t.a {
			f(y)
		}
	}
	f(r.fail)
	for _, t := range r.slots {
		f(t)
	}
	d.sub[side], d.fns[side] = seen, fns
}

// fnName is the repository function an uninterpreted term stands for, or "".
func fnName(t *T) string {
	s := t.s
	switch t.op {
	case "fails":
		if !strings.HasPrefix(s, "fn:") {
			return ""
		}
		s = s[3:]
	case "fn":
	case "x":
		i := strings.Index(s, "!")
		if i < 0 {
			return ""
		}
		s = s[:i]
	default:
		return ""
	}
	if i := strings.IndexAny(s, "#!|"); i >= 0 {
		s = s[:i]
	}
	return s
}

// side: 0 the reference only, 1 the new code only, 2 both.
func (d *differ) side(t *T) int {
	o, n := d.sub[0][t], d.sub[1][t]
	switch {
	case o && n:
		return 2
	case n:
		return 1
	case o:
		return 0
	}
	return 2
}

// certain: the conditions of a path are understood, and those that only one side uses are not other
// forms of those only the other side uses.
func (d *differ) certain(path []lit) (ok bool) {
	if os.Getenv("VGC") != "" {
		defer func() {
			if !ok {
				fmt.Println("  NOT CERTAIN", d.clean(path), d.feasible(path))
				for _, l := range path {
					fmt.Println("     ", d.side(l.at), l.pos, d.clip(l.at))
				}
			}
		}()
	}
	if !d.clean(path) {
		return false
	}
	if !d.feasible(path) {
		return false
	}
	var o, n []lit
	for _, l := range path {
		switch d.side(l.at) {
		case 0:
			o = append(o, l)
		case 1:
			n = append(n, l)
		}
	}
	keep := d.cur
	defer func() { d.cur = keep }()
	d.cur = nil
	for _, l := range path {
		if d.side(l.at) == 2 || !d.composite(l.at) {
			d.cur = append(d.cur, l)
		}
	}
	for _, x := range o {
		for _, y := range n {
			if x.at.op == "ex" && y.at.op == "ex" && x.at.a[0] == y.at.a[0] {
				continue
			}
			if d.someAndMany(x.at, y.at) || d.someAndMany(y.at, x.at) {
				continue
			}
			if !d.independent(x.at, y.at) || d.bits(x.at, y.at) {
				return false
			}
		}
	}
	return d.witnesses(path)
}

// bits: two conditions on bits of the same values, which may be two forms of one.
func (d *differ) bits(x, y *T) bool {
	bit := func(t *T) bool {
		return d.has(t, func(z *T) bool { return bitOps[z.op] && z.op != "tr" && d.side(z) != 2 })
	}
	if !bit(x) && !bit(y) {
		return false
	}
	leaves := map[*T]bool{}
	d.has(x, func(z *T) bool {
		if len(z.a) == 0 && z.op != "k" && z.op != "b" {
			leaves[z] = true
		}
		return false
	})
	return d.has(y, func(z *T) bool { return leaves[z] })
}

// feasible: the linear conditions of a path, with what division implies, have a common solution
// (over the rationals; equal and unequal constants are consistent's matter).
func (d *differ) feasible(path []lit) bool {
	type row struct {
		c map[*T]*big.Rat // sum + k >= 0
		k *big.Rat
	}
	var rows []row
	seen := map[*T]bool{}
	var note func(t *T)
	add := func(t *T, sign int64, k *big.Int) { // sign*t + k >= 0
		r := row{map[*T]*big.Rat{}, new(big.Rat).SetInt(k)}
		if t.op == "lin" {
			for i, y := range t.a {
				r.c[y] = new(big.Rat).SetInt(new(big.Int).Mul(t.c[i], big.NewInt(sign)))
			}
			r.k.Add(r.k, new(big.Rat).SetInt(new(big.Int).Mul(t.n, big.NewInt(sign))))
		} else if t.op == "k" {
			r.k.Add(r.k, new(big.Rat).SetInt(new(big.Int).Mul(t.n, big.NewInt(sign))))
		} else {
			r.c[t] = new(big.Rat).SetInt64(sign)
		}
		rows = append(rows, r)
		note(t)
	}
	note = func(t *T) {
		if seen[t] || t.sort != 'i' {
			return
		}
		seen[t] = true
		if t.op == "lin" {
			for _, y := range t.a {
				note(y)
			}
			return
		}
		if t.lo != nil {
			add(t, 1, new(big.Int).Neg(t.lo))
		} else if t.op == "len" {
			add(t, 1, zero)
		}
		if t.hi != nil {
			add(t, -1, t.hi)
		}
		if t.op == "div" && len(t.a) == 2 && t.a[1].op == "k" && t.a[1].n.Sign() > 0 {
			x, q := t.a[0], t.a[1].n
			if x.lo != nil && x.lo.Sign() >= 0 {
				// 0 <= x - q*t <= q-1
				y := d.b.SubI(x, d.b.MulK(t, q))
				if y.op == "lin" || y.op == "div" {
					add(y, 1, zero)
					add(y, -1, new(big.Int).Sub(q, one))
				}
			}
		}
	}
	for _, l := range path {
		a := l.at
		switch a.op {
		case "lt":
			x := a.a[0]
			if a.a[1].op != "k" || x.sort != 'i' {
				continue
			}
			k := a.a[1].n
			if l.pos {
				add(x, -1, new(big.Int).Sub(k, one))
			} else {
				add(x, 1, new(big.Int).Neg(k))
			}
		case "eq":
			x, y := a.a[0], a.a[1]
			if l.pos && x.sort == 's' && y.sort == 's' {
				x, y = d.b.SubI(d.b.Len(x), d.b.Len(y)), d.b.K(0)
			} else if x.sort == 'i' && y.op != "k" {
				x, y = d.b.SubI(x, y), d.b.K(0)
			}
			if !l.pos || x.sort != 'i' || y.op != "k" || x.op == "?" {
				continue
			}
			add(x, 1, new(big.Int).Neg(y.n))
			add(x, -1, y.n)
		}
	}
	for len(rows) > 0 && len(rows) < 400 {
		var v *T
		best := 0
		cnt := map[*T][2]int{}
		for _, r := range rows {
			for t, c := range r.c {
				if c.Sign() == 0 {
					continue
				}
				x := cnt[t]
				if c.Sign() > 0 {
					x[0]++
				} else {
					x[1]++
				}
				cnt[t] = x
			}
		}
		for t, x := range cnt {
			if w := x[0] * x[1]; v == nil || w < best || w == best && t.id < v.id {
				v, best = t, w
			}
		}
		var next []row
		if v == nil {
			for _, r := range rows {
				if r.k.Sign() < 0 {
					return false
				}
			}
			return true
		}
		var ps, ns []row
		for _, r := range rows {
			c := r.c[v]
			if c == nil || c.Sign() == 0 {
				next = append(next, r)
			} else if c.Sign() > 0 {
				ps = append(ps, r)
			} else {
				ns = append(ns, r)
			}
		}
		for _, p := range ps {
			for _, q := range ns {
				a, b := new(big.Rat).Neg(q.c[v]), p.c[v]
				r := row{map[*T]*big.Rat{}, new(big.Rat)}
				r.k.Add(new(big.Rat).Mul(a, p.k), new(big.Rat).Mul(b, q.k))
				for t, c := range p.c {
					r.c[t] = new(big.Rat).Mul(a, c)
				}
				for t, c := range q.c {
					z := new(big.Rat).Mul(b, c)
					if o := r.c[t]; o != nil {
						z.Add(z, o)
					}
					r.c[t] = z
				}
				delete(r.c, v)
				for t, c := range r.c {
					if c.Sign() == 0 {
						delete(r.c, t)
					}
				}
				if len(r.c) == 0 {
					if r.k.Sign() < 0 {
						return false
					}
					continue
				}
				next = append(next, r)
			}
		}
		rows = next
	}
	return true
}

// witnesses: each "some element" of the path has an element that the "no element" ones over the same
// range allow.
func (d *differ) witnesses(path []lit) bool {
	if d.depth > 2 {
		return false
	}
	none := map[*T]*T{}
	for _, l := range path {
		if l.at.op == "ex" && !l.pos {
			n := none[l.at.a[0]]
			if n == nil {
				n = d.b.fal
			}
			none[l.at.a[0]] = d.b.OrB(n, d.open(l.at))
		}
	}
	d.depth++
	defer func() { d.depth-- }()
	for _, l := range path {
		if l.at.op == "ex" && l.pos {
			if n := none[l.at.a[0]]; n != nil {
				if w, _ := d.cond(d.open(l.at), n); w == "" {
					return false
				}
			}
		}
	}
	return true
}

func (d *differ) has(t *T, f func(*T) bool) bool {
	seen := map[*T]bool{}
	var g func(*T) bool
	g = func(x *T) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, y := range x.a {
			if g(y) {
				return true
			}
		}
		return false
	}
	return g(t)
}

// composite: rests on loops or on functions that only one side calls.
func (d *differ) composite(t *T) bool {
	if t.op == "lt" || t.op == "eq" {
		// alternatives left inside a sum
		for _, x := range t.a {
			if x.op == "lin" {
				for _, y := range x.a {
					if y.op == "ite" && d.side(t) != 2 {
						return true
					}
				}
			}
		}
	}
	return d.has(t, func(x *T) bool {
		switch x.op {
		case "loop", "first", "ex", "sum", "map", "set":
			return d.side(x) != 2
		case "fn", "fails", "x":
			if n := fnName(x); n != "" && !(d.fns[0][n] && d.fns[1][n]) {
				return true
			}
			return x.op != "fails" && d.side(x) != 2
		}
		return false
	})
}

// form is the linear form a comparison of numbers is about, as lt has it, and the constant.
func (d *differ) form(a *T) (*T, *big.Int) {
	if a.op != "eq" && a.op != "lt" || a.a[0].sort != 'i' || a.a[1].sort != 'i' {
		return nil, nil
	}
	z := d.b.SubI(a.a[0], a.a[1])
	if z.op == "lin" && z.c[0].Sign() < 0 {
		z = d.b.MulK(z, big.NewInt(-1))
	}
	k := zero
	if z.op == "lin" {
		k = new(big.Int).Neg(z.n)
		z = d.b.Lin(zero, z.a, z.c)
	}
	if z.op == "k" || z.op == "?" {
		return nil, nil
	}
	return z, k
}

// boundary: an equality against an inequality of what a loop computed; which of the two sides of the
// boundary can occur is a matter of the loop.
func (d *differ) boundary(x, y *T) bool {
	if x.op == y.op {
		return false
	}
	v, _ := d.form(x)
	w, _ := d.form(y)
	return v != nil && v == w && d.has(v, func(t *T) bool { return t.op == "loop" })
}

// mixed: one condition compares byte strings, the other numbers or single bytes taken from the same
// values, so that they may say the same in two ways.
func (d *differ) mixed(x, y *T) bool {
	seq := func(t *T) bool { return t.op == "eq" && t.a[0].sort == 's' }
	num := func(t *T) bool { return (t.op == "eq" || t.op == "lt") && t.a[0].sort == 'i' }
	if seq(y) && num(x) {
		x, y = y, x
	}
	if !seq(x) || !num(y) {
		return false
	}
	got := map[*T]bool{}
	var walk func(t *T, first bool) bool
	seen := [2]map[*T]bool{{}, {}}
	walk = func(t *T, first bool) bool {
		k := 0
		if first {
			k = 1
		}
		if seen[k][t] || t.op == "len" || t.op == "k" || t.op == "b" {
			return false
		}
		seen[k][t] = true
		if first {
			got[t] = true
		} else if got[t] {
			return true
		}
		for _, z := range t.a {
			if walk(z, first) {
				return true
			}
		}
		return false
	}
	walk(x, true)
	return walk(y, false)
}

// independent: the two conditions say certainly different things.
func (d *differ) independent(x, y *T) bool {
	if d.depth > 3 || d.mixed(x, y) || d.boundary(x, y) {
		return false
	}
	d.depth++
	keep, km, kl := d.cur, d.msg, d.loses
	defer func() { d.depth--; d.cur, d.msg, d.loses = keep, km, kl }()
	if x.op == y.op && len(x.a) == len(y.a) {
		switch x.op {
		case "ex", "sum", "first":
			if x.a[0] != y.a[0] {
				return x.a[1] == y.a[1] && d.leaf(x.a[0], y.a[0], 0) == vDiff
			}
			p, q := d.open(x), d.open(y)
			if x.op != "sum" {
				w, _ := d.cond(p, q)
				if w == "" {
					w, _ = d.cond(q, p)
				}
				return w != ""
			}
			return d.joint([]*T{d.b.fal, d.b.fal, p, q}, d.cur) == vDiff
		}
	}
	if x.op == y.op && x.s == y.s && eqBig(x.n, y.n) && len(x.a) == len(y.a) {
		switch x.op {
		case "loop":
			k := 0
			for i := range x.a {
				if x.a[i] != y.a[i] {
					k++
					if d.leaf(x.a[i], y.a[i], 0) != vDiff {
						return false
					}
				}
			}
			return k == 1
		case "lt", "eq", "isnil":
			if !d.composite(x) && !d.composite(y) {
				return true
			}
		}
		for i := range x.a {
			if x.a[i] != y.a[i] && d.leaf(x.a[i], y.a[i], 0) == vDiff {
				return true
			}
		}
		return false
	}
	return !d.composite(x) && !d.composite(y)
}

// someAndMany: that some element of a list has a property, and that at least as many others as the caller asks for are
// counted, may both be.
func (d *differ) someAndMany(x, y *T) bool {
	if x.op != "ex" || y.op != "lt" || len(y.a) != 2 || y.a[0].op != "lin" {
		return false
	}
	var cnt, free *T
	for i, a := range y.a[0].a {
		c := y.a[0].c[i]
		if a.op == "lane" || a.op == "tr" {
			a = a.a[0]
		}
		if a.op == "sum" && c.Sign() < 0 && cnt == nil {
			cnt = a
		} else if !d.composite(a) && c.Sign() > 0 && free == nil {
			free = a
		} else {
			return false
		}
	}
	if cnt == nil || free == nil || cnt.a[0] != x.a[0] || cnt.a[0].op != "len" {
		return false
	}
	if d.has(x, func(z *T) bool { return z == free }) || d.has(cnt, func(z *T) bool { return z == free }) {
		return false
	}
	p, q := d.open(x), d.open(cnt)
	one := d.b.Eq(q, d.b.K(1))
	return p != d.b.fal && one != d.b.fal
}

type lit struct {
	at  *T
	pos bool
}

func diffResults(e *VG, ro, rn *vgResult) *verdict {
	b := e.b
	d := &differ{e: e, b: b, safeM: map[*T]bool{}}
	d.terms(0, ro)
	d.terms(1, rn)
	if x, y := d.elementwise(0, ro), d.elementwise(1, rn); x != ro || y != rn {
		ro, rn = x, y
		d.terms(0, ro)
		d.terms(1, rn)
	}
	v := &verdict{v: vSame}
	var open []vdiff // differences of terms that are not shown to be differences of values
	if ro.lost || rn.lost {
		v.v, v.why = vUndec, "partly unknown"
	} else if ro.fail.unk || rn.fail.unk {
		v.v, v.why = vUndec, "refusals partly unknown"
	}
	if ro.fail != rn.fail {
		s, un2 := d.cond(rn.fail, ro.fail)
		w, un := d.cond(ro.fail, rn.fail)
		if w != "" {
			v.slots = append(v.slots, vdiff{"refuses", "weaker", "no longer refuses when " + w, d.onFailure, false})
		}
		if s != "" {
			v.slots = append(v.slots, vdiff{"refuses", "stronger", "now refuses when " + s, false, false})
		}
		if w == "" && s == "" && (un || un2) {
			v.v = vUndec
			v.why = "refusals"
			open = append(open, vdiff{"refuses", "weaker", "the condition of refusal differs too, in a direction that is not decided", false, false})
		}
	}
	names := map[string]bool{}
	for k := range ro.slots {
		names[k] = true
	}
	for k := range rn.slots {
		names[k] = true
	}
	var ns []string
	for k := range names {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	for _, k := range ns {
		o, n := ro.slots[k], rn.slots[k]
		if o == n && !o.unk {
			continue
		}
		if o == n || o == nil || n == nil {
			if v.v == vSame {
				v.v, v.why = vUndec, k
			}
			continue
		}
		d.steps, d.msg, d.loses = 0, "", false
		if o.sort == 'b' && n.sort == 'b' {
			// a yes-or-no answer: which way it changed matters
			ao, an := b.AndB(b.Not(ro.fail), o), b.AndB(b.Not(rn.fail), n)
			more, u1 := d.cond(an, ao)
			onF := d.onFailure
			less, u2 := d.cond(ao, an)
			if more != "" {
				v.slots = append(v.slots, vdiff{k, "accepts", "now answers yes when " + more, onF, false})
			}
			if less != "" {
				v.slots = append(v.slots, vdiff{k, "rejects", "no longer answers yes when " + less, false, false})
			}
			if more == "" && less == "" && (u1 || u2) && v.v == vSame {
				v.v, v.why = vUndec, k
			}
			if more != "" || less != "" || u1 || u2 {
				continue
			}
		}
		switch d.joint([]*T{ro.fail, rn.fail, o, n}, nil) {
		case vDiff:
			v.slots = append(v.slots, vdiff{k, "value", d.msg, false, d.loses})
		case vUndec:
			open = append(open, vdiff{k, "value", "the value is computed in another way too", false, false})
			if v.v == vSame {
				v.v, v.why = vUndec, k
			}
		}
	}
	if len(v.slots) > 0 {
		v.slots = append(v.slots, open...)
		v.v = vDiff
		v.why = v.slots[0].slot + " " + v.slots[0].msg
	}
	return v
}

// cond looks for a consistent assignment with o true and n false.
func (d *differ) cond(o, n *T) (string, bool) {
	b := d.b
	steps := 0
	undec := false
	var found []lit
	var walk func(o, n *T, path []lit) bool
	walk = func(o, n *T, path []lit) bool {
		steps++
		if steps > 30000 {
			undec = true
			return false
		}
		if o == b.fal || n == b.tru || o == n {
			undec = undec || o == n && o.unk
			return false
		}
		if o.op == "?" || n.op == "?" {
			undec = true
			return false
		}
		if o.op != "ite" && n.op != "ite" {
			// true against false
			if !d.certain(path) {
				undec = true
				return false
			}
			found = append([]lit{}, path...)
			d.explainPath(path)
			return true
		}
		top := topAtom(o, n)
		for _, pos := range []bool{true, false} {
			if known(path, lit{top, !pos}) {
				continue
			}
			p := append(append([]lit{}, path...), lit{top, pos})
			if !d.consistent(p) {
				continue
			}
			if walk(cofactor(o, top, pos), cofactor(n, top, pos), p) {
				return true
			}
		}
		return false
	}
	d.onFailure = false
	if walk(o, n, append([]lit{}, d.cur...)) {
		for _, l := range found {
			d.onFailure = d.onFailure || l.pos && l.at.op == "fails"
		}
		return d.showPath(found), false
	}
	return "", undec
}

func known(path []lit, l lit) bool {
	for _, x := range path {
		if x == l {
			return true
		}
	}
	return false
}

func topAtom(ts ...*T) *T {
	var top *T
	for _, t := range ts {
		if t.op == "ite" && (top == nil || t.a[0].id < top.id) {
			top = t.a[0]
		}
	}
	return top
}

func cofactor(z, top *T, pos bool) *T {
	if z.op == "ite" && z.a[0] == top {
		if pos {
			return z.a[1]
		}
		return z.a[2]
	}
	return z
}

func (d *differ) showPath(p []lit) string {
	var out []string
	for _, l := range p {
		s := d.clip(l.at)
		if !l.pos {
			s = "not " + s
		}
		out = append(out, s)
		if len(out) == 6 {
			out = append(out, "...")
			break
		}
	}
	if len(out) == 0 {
		return "always"
	}
	return strings.Join(out, " and ")
}

func (d *differ) clip(t *T) string {
	s := t.String()
	if len(s) > 160 && os.Getenv("VGC") == "" {
		s = s[:160] + "..."
	}
	return s
}

// clean: the path rests on conditions that are understood.
func (d *differ) clean(path []lit) bool {
	for _, l := range path {
		if l.at.unk {
			return false
		}
	}
	return true
}

// joint walks the alternatives of [fail old, fail new, old, new] together.
func (d *differ) joint(ts []*T, path []lit) int {
	b := d.b
	d.steps++
	if d.steps > 30000 {
		return vUndec
	}
	if ts[2] == ts[3] && ts[2].unk && ts[0] != b.tru && ts[1] != b.tru {
		return vUndec
	}
	if ts[0] == b.tru || ts[1] == b.tru || ts[2] == ts[3] {
		return vSame
	}
	if top := topAtom(ts...); top != nil {
		r := vSame
		for _, pos := range []bool{true, false} {
			if known(path, lit{top, !pos}) {
				continue
			}
			p := append(append([]lit{}, path...), lit{top, pos})
			if !d.consistent(p) {
				continue
			}
			q := make([]*T, 4)
			for i := range ts {
				q[i] = cofactor(ts[i], top, pos)
			}
			switch d.joint(q, p) {
			case vDiff:
				return vDiff
			case vUndec:
				r = vUndec
			}
		}
		return r
	}
	o, n := ts[2], ts[3]
	if m := d.facts(path); len(m) > 0 {
		o2, n2 := b.subst(o, m), b.subst(n, m)
		if o2.unk && !o.unk || n2.unk && !n.unk {
			o2, n2 = o, n // too deep to be rewritten
		}
		d.note(0, o2)
		d.note(1, n2)
		if o2 == n2 {
			if o2.unk {
				return vUndec
			}
			return vSame
		}
		if (o2.op == "ite" || n2.op == "ite") && d.steps < 20000 {
			d.steps += 50
			return d.joint([]*T{b.fal, b.fal, o2, n2}, path)
		}
		o, n = o2, n2
	}
	keep := d.cur
	d.cur = path
	r := d.leaf(o, n, 0)
	if os.Getenv("VGL") != "" {
		fmt.Println("  LEAF", r, d.clip(o), "|", d.clip(n))
	}
	d.cur = keep
	if r == vDiff && !d.certain(path) {
		return vUndec
	}
	if r == vDiff {
		d.explainPath(path)
	}
	if r == vDiff && len(path) > 0 {
		d.msg += " when " + d.showPath(path)
	}
	return r
}

// facts turns equalities of a path into replacements.
func (d *differ) facts(path []lit) map[*T]*T {
	b := d.b
	m := map[*T]*T{}
	for _, l := range path {
		m[l.at] = b.Bool(l.pos)
	}
	for _, l := range path {
		if !l.pos {
			continue
		}
		switch l.at.op {
		case "lt":
			// below the least it can be, but for that
			if x, y := l.at.a[0], l.at.a[1]; y.op == "k" && x.op != "lin" && x.lo != nil && y.n.Cmp(new(big.Int).Add(x.lo, one)) == 0 {
				m[x] = b.Kb(x.lo)
			}
		case "eq":
			x, y := l.at.a[0], l.at.a[1]
			if x.op == "len" && y.op == "k" && x.a[0].op != "fixlen" && y.n.IsInt64() {
				if y.n.Sign() == 0 {
					m[x.a[0]] = b.eps
				} else {
					m[x.a[0]] = b.raw(&T{op: "fixlen", n: y.n, a: []*T{x.a[0]}, sort: 's'})
				}
			} else if (y.op == "k" || y.op == "b") && x.op != "lin" {
				m[x] = y
			} else if (x.op == "k" || x.op == "b") && y.op != "lin" {
				m[y] = x
			}
		case "isnil":
			if l.at.a[0].sort == 's' {
				m[l.at.a[0]] = b.eps
			}
		}
	}
	return m
}

// consistent: linear bounds per form, equalities with constants.
func (d *differ) consistent(path []lit) bool {
	type bd struct {
		lo, hi *big.Int
		ne     []*big.Int
	}
	bs := map[*T]*bd{}
	get := func(t *T) *bd {
		if x, ok := bs[t]; ok {
			return x
		}
		x := &bd{lo: t.lo, hi: t.hi}
		if t.op == "len" && x.lo == nil {
			x.lo = zero
		}
		bs[t] = x
		return x
	}
	eqs := map[*T]*T{}
	up := func(x *bd, lo, hi *big.Int) {
		if lo != nil && (x.lo == nil || lo.Cmp(x.lo) > 0) {
			x.lo = lo
		}
		if hi != nil && (x.hi == nil || hi.Cmp(x.hi) < 0) {
			x.hi = hi
		}
	}
	for _, l := range path {
		a := l.at
		switch a.op {
		case "lt":
			if a.a[1].op != "k" {
				continue
			}
			k := a.a[1].n
			if l.pos {
				up(get(a.a[0]), nil, new(big.Int).Sub(k, one))
			} else {
				up(get(a.a[0]), k, nil)
			}
		case "eq":
			x, y := a.a[0], a.a[1]
			if x.sort == 'i' && y.op != "k" {
				if v, k := d.form(a); v != nil {
					x, y = v, d.b.Kb(k)
				}
			}
			if y.op == "k" {
				if l.pos {
					up(get(x), y.n, y.n)
				} else {
					g := get(x)
					g.ne = append(g.ne, y.n)
				}
				continue
			}
			if x.op == "b" {
				x, y = y, x
			}
			if y.op == "b" && l.pos {
				if o, ok := eqs[x]; ok && o != y {
					return false
				}
				eqs[x] = y
				n := big.NewInt(int64(len(y.s)))
				if L := d.b.Len(x); L.op == "k" {
					if L.n.Cmp(n) != 0 {
						return false
					}
				} else {
					up(get(L), n, n)
				}
			}
			if y.op == "b" && !l.pos {
				if o, ok := eqs[x]; ok && o == y {
					return false
				}
			}
		case "isnil":
			if L := d.b.Len(a.a[0]); l.pos && L.sort == 'i' && L.op != "k" {
				up(get(L), zero, zero)
			}
		case "ex":
			if l.pos && a.a[0].sort == 'i' {
				up(get(a.a[0]), one, nil)
			}
		}
	}
	for t, x := range bs {
		if x.lo != nil && x.hi != nil {
			if x.lo.Cmp(x.hi) > 0 {
				return false
			}
			// every value excluded
			if w := new(big.Int).Sub(x.hi, x.lo); w.IsInt64() && w.Int64() < int64(len(x.ne)) {
				all := true
				for v := new(big.Int).Set(x.lo); v.Cmp(x.hi) <= 0; v.Add(v, one) {
					hit := false
					for _, n := range x.ne {
						if n.Cmp(v) == 0 {
							hit = true
						}
					}
					if !hit {
						all = false
						break
					}
				}
				if all {
					return false
				}
			}
		}
		// sums against the bounds of their parts
		if t.op == "lin" {
			lo, hi := new(big.Int).Set(t.n), new(big.Int).Set(t.n)
			okl, okh := true, true
			for i, y := range t.a {
				l, h := y.lo, y.hi
				if z, ok := bs[y]; ok {
					l, h = z.lo, z.hi
				}
				if t.c[i].Sign() < 0 {
					l, h = h, l
				}
				if l == nil {
					okl = false
				} else if okl {
					lo.Add(lo, new(big.Int).Mul(t.c[i], l))
				}
				if h == nil {
					okh = false
				} else if okh {
					hi.Add(hi, new(big.Int).Mul(t.c[i], h))
				}
			}
			if okl && x.hi != nil && lo.Cmp(x.hi) > 0 || okh && x.lo != nil && hi.Cmp(x.lo) < 0 {
				return false
			}
		}
	}
	return true
}

var bitOps = map[string]bool{"tr": true, "sx": true, "lane": true, "shr": true, "and": true, "or": true, "xor": true, "mod": true, "rem": true, "div": true, "mul": true, "shl": true, "shrv": true, "bdiv": true}

// safe: built from operations whose normal forms decide equality well enough to call unequal forms different.
func (d *differ) safe(t *T) bool {
	if v, ok := d.safeM[t]; ok {
		return v
	}
	r := true
	switch t.op {
	case "?", "u", "loop", "first", "lv", "mu", "var", "const", "clo", "func", "nomap", "slc", "adr":
		r = false
	}
	if bitOps[t.op] || t.unk {
		r = false
	}
	for _, x := range t.a {
		r = r && d.safe(x)
	}
	d.safeM[t] = r
	return r
}

func (d *differ) differs(o, n *T) int {
	d.msg = d.clip(o) + " became " + d.clip(n)
	d.loses = losesInput(o, n)
	return vDiff
}

// inputsOf: the parts of the arguments whose value (not only whose length) a term uses.
func inputsOf(t *T, out map[*T]bool, seen map[*T]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.op {
	case "len", "isnil", "fails":
		return
	case "in":
		out[t] = true
		return
	case "fld", "at":
		for x := t; ; x = x.a[0] {
			if x.op == "in" {
				out[t] = true
				return
			}
			if x.op != "fld" && x.op != "at" {
				break
			}
		}
	}
	for _, x := range t.a {
		inputsOf(x, out, seen)
	}
}

// losesInput: the new value leaves out a part of the arguments the old one has, or takes it less than whole.
func losesInput(o, n *T) bool {
	a, c := map[*T]bool{}, map[*T]bool{}
	inputsOf(o, a, map[*T]bool{})
	inputsOf(n, c, map[*T]bool{})
	for x := range a {
		if !c[x] {
			return true
		}
	}
	if len(a) == 0 {
		return false
	}
	switch n.op {
	case "tr", "lane", "shr", "and":
		return o == n.a[0] || o.op == "tr" && n.op == "tr" && o.a[0] == n.a[0] && n.n.Cmp(o.n) < 0
	case "sub":
		return o == n.a[0]
	}
	return false
}

// leaf compares two values without alternatives at the top.
func (d *differ) leaf(o, n *T, depth int) int {
	b := d.b
	d.steps++
	if o == n && !o.unk {
		return vSame
	}
	if o.op == "?" || o == n || n.op == "?" || depth > 60 || d.steps > 60000 {
		return vUndec
	}
	if o.op == "ite" || n.op == "ite" {
		return d.joint([]*T{b.fal, b.fal, o, n}, d.cur)
	}
	isSeq := func(t *T) bool { return t.sort == 's' || t.op == "nil" }
	if o.sort == 's' && isSeq(n) || n.sort == 's' && isSeq(o) {
		return d.seq(o, n, depth)
	}
	if o.op == "k" && n.op == "k" || o.op == "b" && n.op == "b" || o.op == "t" && n.op == "f" || o.op == "f" && n.op == "t" {
		return d.differs(o, n)
	}
	if o.sort == 'i' && n.sort == 'i' {
		r := vUndec
		if o.op == "lin" || n.op == "lin" || o.op == "k" || n.op == "k" {
			r = d.lin(o, n, depth)
		} else {
			r = d.node(o, n, depth)
		}
		if r == vUndec && d.opaque == 0 && d.sample(b.SubI(o, n)) {
			return d.differs(o, n)
		}
		return r
	}
	return d.node(o, n, depth)
}

// sample: the difference of two numbers is a constant other than zero for some value of one input, which
// the conditions of the path allow.
func (d *differ) sample(x *T) bool {
	b := d.b
	if x.op == "?" || x.unk || d.safe(x) {
		return false
	}
	var us []*T
	d.has(x, func(z *T) bool {
		if z.sort == 'i' && z.lo != nil && z.hi != nil && z.lo.Cmp(z.hi) < 0 && (z.op == "in" || z.op == "fld" || z.op == "at" || z.op == "x" && strings.HasPrefix(z.s, "time.Time.UnixNano")) {
			us = append(us, z)
		}
		return false
	})
	if len(us) == 0 || len(us) > 3 {
		return false
	}
	m256 := big.NewInt(256)
	for _, u := range us {
		ks := []*big.Int{u.hi}
		for _, k := range []int64{1001, 200, 129, 100, 17, 3, 1} {
			ks = append(ks, big.NewInt(k))
		}
	next:
		for _, k := range ks {
			if k.Cmp(u.lo) < 0 || k.Cmp(u.hi) > 0 {
				continue
			}
			m := map[*T]*T{u: b.Kb(k)}
			y := b.subst(x, m)
			if y.op != "k" || y.unk || new(big.Int).Mod(y.n, m256).Sign() == 0 {
				continue
			}
			var p []lit
			for _, l := range d.cur {
				t := b.subst(l.at, m)
				switch {
				case t.unk:
					continue next
				case t == b.tru || t == b.fal:
					if (t == b.tru) != l.pos {
						continue next
					}
				case t.op == "not":
					p = append(p, lit{t.a[0], !l.pos})
				default:
					p = append(p, lit{t, l.pos})
				}
			}
			if d.consistent(p) && d.feasible(p) {
				return true
			}
		}
	}
	return false
}

func (d *differ) node(o, n *T, depth int) int {
	if o.op == n.op && o.s == n.s && len(o.a) == len(n.a) && eqBig(o.n, n.n) && len(o.c) == len(n.c) {
		for i := range o.c {
			if o.c[i].Cmp(n.c[i]) != 0 {
				return vUndec
			}
		}
		r, parts := vSame, 0
		switch o.op {
		case "le", "be", "hexe", "hash", "minbe", "padl", "sub", "rev":
		default:
			// values that differ need not make a difference below other operations
			d.opaque++
			defer func() { d.opaque-- }()
		}
		for i := range o.a {
			switch d.leaf(o.a[i], n.a[i], depth+1) {
			case vDiff:
				if o.op != "loop" {
					return vDiff
				}
				parts++
			case vUndec:
				r = vUndec
			}
		}
		if r == vSame && parts > 0 {
			return vDiff // every part of the loop that differs does so certainly
		}
		return vUndec
	}
	if o.op == n.op {
		switch o.op {
		case "in", "fld", "hash", "const":
			if o.op == "fld" && d.leaf(o.a[0], n.a[0], depth+1) == vUndec {
				return vUndec
			}
			return d.differs(o, n)
		case "le", "be", "shr", "lane", "tr", "sx", "padl":
			// another width or place of the same value
			if len(o.a) == 1 && o.a[0] == n.a[0] && o.s == n.s {
				return d.differs(o, n)
			}
		case "lt", "eq":
		case "fn":
			return vUndec
		case "loop":
			return vUndec
		case "x":
			if strings.HasPrefix(o.s, "go-owcrypt.") && strings.HasPrefix(n.s, "go-owcrypt.") {
				return d.differs(o, n)
			}
			return vUndec
		}
	}
	gen := func(t *T) bool {
		switch t.op {
		case "k", "b", "in", "fld", "hash", "le", "be", "at", "len", "hexe", "hexd", "rev", "nil", "err", "t", "f", "minbe", "padl", "uint", "lt", "eq", "isnil", "fails":
			return true
		}
		return false
	}
	if gen(o) && gen(n) && d.safe(o) && d.safe(n) {
		return d.differs(o, n)
	}
	return vUndec
}

// lin compares integer values by their difference.
func (d *differ) lin(o, n *T, depth int) int {
	b := d.b
	x := b.SubI(o, n)
	if x.op == "k" {
		if x.n.Sign() != 0 {
			return d.differs(o, n)
		}
		return vSame
	}
	if x.op == "?" {
		return vUndec
	}
	// one term against another with the same coefficient
	if x.op == "lin" && len(x.a) == 2 && new(big.Int).Add(x.c[0], x.c[1]).Sign() == 0 && x.n.Sign() == 0 {
		p, q := x.a[0], x.a[1]
		if x.c[0].Sign() < 0 {
			p, q = q, p
		}
		if p.op != "lin" && q.op != "lin" {
			r := d.node(p, q, depth+1)
			return r
		}
	}
	if d.safe(x) {
		return d.differs(o, n)
	}
	return vUndec
}

func (d *differ) seq(o, n *T, depth int) int {
	b := d.b
	if o.op == "nil" {
		o = b.eps
	}
	if n.op == "nil" {
		n = b.eps
	}
	if o == n {
		return vSame
	}
	o, n = d.unpad(o), d.unpad(n)
	if o == n {
		return vSame
	}
	for _, xy := range [][2]*T{{o, n}, {n, o}} {
		if x := xy[0]; x.op == "padl" && x.a[0] == xy[1] {
			at := b.Lt(b.Len(xy[1]), b.raw(&T{op: "k", n: x.n, sort: 'i'}))
			if at == b.fal {
				return vSame
			}
			if at.op == "ite" && !d.consistent(append(append([]lit{}, d.cur...), lit{at.a[0], at.a[1] == b.tru})) {
				return vSame
			}
			if xy[1].op == "minbe" && !x.unk {
				return d.differs(o, n)
			}
		}
	}
	eo, en := splitSeq(b, o), splitSeq(b, n)
	// a whole against its beginning and something else
	for _, xy := range [][2]*[]*T{{&eo, &en}, {&en, &eo}} {
		x, y := *xy[0], *xy[1]
		if len(x) == 1 && len(y) > 1 && y[0].op == "sub" && y[0].a[0] == x[0] && y[0].a[1].op == "k" && y[0].a[1].n.Sign() == 0 && y[0].a[2].op == "k" {
			*xy[0] = []*T{y[0], b.Sub(x[0], y[0].a[2], b.SubI(b.Len(x[0]), y[0].a[2]))}
		}
	}
	p := 0
	for p < len(eo) && p < len(en) && eo[p] == en[p] {
		p++
	}
	eo, en = eo[p:], en[p:]
	q := 0
	for q < len(eo) && q < len(en) && eo[len(eo)-1-q] == en[len(en)-1-q] {
		q++
	}
	eo, en = eo[:len(eo)-q], en[:len(en)-q]
	if len(eo) == 0 && len(en) == 0 {
		return vSame
	}
	if lo, ln := b.Len(b.Cat(eo...)), b.Len(b.Cat(en...)); lo.op != "?" && ln.op != "?" && !lo.unk && !ln.unk {
		// of different lengths on this path
		eq := b.Eq(lo, ln)
		if eq == b.fal || eq.op == "ite" && eq.a[1] == b.tru && eq.a[2] == b.fal && !d.consistent(append(append([]lit{}, d.cur...), lit{eq.a[0], true})) {
			return d.differs(b.Cat(eo...), b.Cat(en...))
		}
	}
	if len(eo) == 1 && len(en) == 1 && (eo[0].op == "padl" || eo[0].op == "minbe" || en[0].op == "padl" || en[0].op == "minbe") {
		// the numbers written differ
		if x, y := b.Uint("be", eo[0]), b.Uint("be", en[0]); x.op != "?" && y.op != "?" && !x.unk && !y.unk {
			eq := b.Eq(x, y)
			if eq == b.fal || eq.op == "ite" && eq.a[1] == b.tru && eq.a[2] == b.fal && !d.consistent(append(append([]lit{}, d.cur...), lit{eq.a[0], true})) {
				return d.differs(eo[0], en[0])
			}
		}
	}
	if len(eo) == 0 || len(en) == 0 {
		rest := append(append([]*T{}, eo...), en...)
		L := b.Len(b.Cat(rest...))
		if L.op == "k" && L.n.Sign() > 0 || L.lo != nil && L.lo.Sign() > 0 {
			return d.differs(b.Cat(eo...), b.Cat(en...))
		}
		for _, x := range rest {
			if x.unk || (!d.safe(x) && x.op != "map") {
				return vUndec
			}
		}
		return d.differs(b.Cat(eo...), b.Cat(en...))
	}
	if len(eo) == len(en) {
		r := vSame
		// pieces must line up
		for i := range eo {
			if eo[i] == en[i] {
				continue
			}
			var x int
			if eo[i].op == "b" && en[i].op == "b" {
				x = d.differs(eo[i], en[i])
			} else if eo[i].op == "ite" || en[i].op == "ite" {
				x = d.joint([]*T{b.fal, b.fal, eo[i], en[i]}, d.cur)
			} else {
				x = d.node(eo[i], en[i], depth+1)
			}
			if x == vDiff && (i == 0 || b.Len(b.Cat(eo[:i]...)) == b.Len(b.Cat(en[:i]...))) {
				return vDiff
			}
			if x != vSame {
				r = vUndec
			}
		}
		if r == vSame {
			return vSame
		}
	}
	if len(eo) > 0 && len(en) > 0 {
		// the first pieces
		f, g := eo[0], en[0]
		lf, lg := b.Len(f), b.Len(g)
		if lf == lg && lf.op == "k" && f.op != "ite" && g.op != "ite" {
			if d.node(f, g, depth+1) == vDiff {
				return vDiff
			}
		}
		lo, ln := b.Len(b.Cat(eo...)), b.Len(b.Cat(en...))
		if x := b.SubI(lo, ln); x.op == "k" && x.n.Sign() != 0 {
			return d.differs(b.Cat(eo...), b.Cat(en...))
		}
	}
	for _, x := range append(append([]*T{}, eo...), en...) {
		if x.op != "ite" || d.steps > 20000 {
			continue
		}
		// a piece with alternatives
		at := x.a[0]
		r := vSame
		for _, pos := range []bool{true, false} {
			if known(d.cur, lit{at, !pos}) {
				continue
			}
			p := append(append([]lit{}, d.cur...), lit{at, pos})
			if !d.consistent(p) {
				continue
			}
			part := func(ps []*T) *T {
				var out []*T
				for _, y := range ps {
					out = append(out, cofactor(y, at, pos))
				}
				return b.Cat(out...)
			}
			d.steps += 20
			switch d.joint([]*T{b.fal, b.fal, part(eo), part(en)}, p) {
			case vDiff:
				return vDiff
			case vUndec:
				r = vUndec
			}
		}
		return r
	}
	for _, x := range append(append([]*T{}, eo...), en...) {
		if !d.safe(x) || x.op == "ite" || x.op == "map" || x.op == "fn" || x.op == "x" || x.op == "sub" || x.op == "set" {
			return vUndec
		}
	}
	return d.differs(b.Cat(eo...), b.Cat(en...))
}

// unpad writes a padded string out where the path gives its length.
func (d *differ) unpad(t *T) *T {
	if t.op != "padl" {
		return t
	}
	L := d.b.Len(t.a[0])
	for _, l := range d.cur {
		if l.pos && l.at.op == "eq" && l.at.a[0] == L && l.at.a[1].op == "k" {
			k := l.at.a[1].n.Int64()
			if k >= t.n.Int64() {
				return t.a[0]
			}
			return d.b.Cat(d.b.Bytes(strings.Repeat("\x00", int(t.n.Int64()-k))), t.a[0])
		}
	}
	return t
}

func ppSlots(s []vdiff) string {
	var out []string
	for _, x := range s {
		out = append(out, fmt.Sprintf("%s: %s", x.slot, x.msg))
	}
	return strings.Join(out, "; ")
}

// elementwise writes an equality of sequences that only this side has as "no element differs" where the
// other side has a search over the same range and the same elements.
func (d *differ) elementwise(side int, r *vgResult) *vgResult {
	b := d.b
	var exs []*T
	for t := range d.sub[1-side] {
		if t.op == "ex" && !d.sub[side][t] {
			exs = append(exs, t)
		}
	}
	if len(exs) == 0 || len(exs) > 40 {
		return r
	}
	sort.Slice(exs, func(i, j int) bool { return exs[i].id < exs[j].id })
	m := map[*T]*T{}
	for t := range d.sub[side] {
		if t.op != "eq" || t.a[0].sort != 's' || t.a[1].sort != 's' || d.sub[1-side][t] || t.unk || t.bv > 0 {
			continue
		}
		L := b.Len(t.a[0])
		for _, x := range exs {
			if x.a[0] != L && x.a[0] != b.Len(t.a[1]) || b.Len(t.a[1]) != L {
				continue
			}
			v := b.bvar(x.n)
			p, q := b.At(t.a[0], v), b.At(t.a[1], v)
			if !b.contains(x.a[1], p) && !b.contains(x.a[1], q) {
				continue
			}
			body := b.Not(b.Eq(p, q))
			if body.op != "ite" {
				continue
			}
			m[t] = b.Not(b.atom(b.raw(&T{op: "ex", n: x.n, a: []*T{L, body}, bv: x.bv, sort: 'b'})))
			break
		}
	}
	if len(m) == 0 {
		return r
	}
	n := *r
	n.fail = b.subst(r.fail, m)
	n.slots = map[string]*T{}
	for k, t := range r.slots {
		n.slots[k] = b.subst(t, m)
	}
	return &n
}
