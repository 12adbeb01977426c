package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

// T is a node of a value graph: the canonical form of a value computed by the code, in terms of the
// inputs of an entry point. Nodes are interned, so equal values (by the rewriting rules of the
// constructors below) are equal pointers. Integers denote exact mathematical values; byte slices and
// strings are sequences.
type T struct {
	id   int
	op   string
	s    string
	n    *big.Int
	c    []*big.Int // coefficients of a linear form
	a    []*T
	sort byte // 'i' integer, 's' sequence, 'b' boolean, 0 other
	unk  bool // contains an unknown part
	mu   bool // contains a loop variable
	bv   int  // height of binders inside
	sz   int
	lo   *big.Int
	hi   *big.Int
}

type Tab struct {
	ticks                    int
	lifted, depth            int
	deadline                 time.Time
	m                        map[string]*T
	next                     int
	memo                     map[[3]int]*T
	specM                    map[[3]int][2]*T
	muN                      int64
	muLen                    map[*T]*T
	unkN                     int64
	shapes                   map[*T]uint64
	tru, fal, null, unk, eps *T
}

var zero, one = big.NewInt(0), big.NewInt(1)

func newTab() *Tab {
	b := &Tab{muLen: map[*T]*T{}, m: map[string]*T{}, memo: map[[3]int]*T{}}
	b.tru = b.raw(&T{op: "t", sort: 'b'})
	b.fal = b.raw(&T{op: "f", sort: 'b'})
	b.null = b.raw(&T{op: "nil"})
	b.unk = b.raw(&T{op: "?", unk: true})
	b.eps = b.raw(&T{op: "b", sort: 's'})
	return b
}

// tick ends an evaluation that takes too long.
func (b *Tab) tick() {
	b.ticks++
	if b.ticks&0xfff == 0 && !b.deadline.IsZero() && time.Now().After(b.deadline) {
		b.deadline = time.Time{}
		panic(vgOver{})
	}
}

func (b *Tab) raw(t *T) *T {
	b.tick()
	var k strings.Builder
	k.WriteString(t.op)
	k.WriteByte(0)
	k.WriteString(t.s)
	k.WriteByte(0)
	if t.n != nil {
		k.WriteString(t.n.Text(36))
	}
	for _, c := range t.c {
		k.WriteByte(',')
		k.WriteString(c.Text(36))
	}
	k.WriteByte(0)
	for _, x := range t.a {
		fmt.Fprintf(&k, "%d.", x.id)
	}
	if o, ok := b.m[k.String()]; ok {
		return o
	}
	t.sz = 1
	for _, x := range t.a {
		t.unk = t.unk || x.unk
		t.mu = t.mu || x.mu
		if x.bv > t.bv {
			t.bv = x.bv
		}
		t.sz += x.sz
	}
	if t.op != "ite" && t.sz > 60 {
		t.sz = 60 // sizes measure alternatives; operands are shared
	}
	if t.sz > 2000000 {
		return b.unk
	}
	b.next++
	t.id = b.next
	b.m[k.String()] = t
	return t
}

func (b *Tab) K(n int64) *T      { return b.Kb(big.NewInt(n)) }
func (b *Tab) Kb(n *big.Int) *T  { return b.raw(&T{op: "k", n: n, sort: 'i', lo: n, hi: n}) }
func (b *Tab) Bytes(s string) *T { return b.raw(&T{op: "b", s: s, sort: 's'}) }
func (b *Tab) Bool(v bool) *T    { return map[bool]*T{true: b.tru, false: b.fal}[v] }
func (t *T) isK() bool           { return t.op == "k" }
func (t *T) k64() (int64, bool)  { return kOf(t) }
func kOf(t *T) (int64, bool) {
	if t.op == "k" && t.n.IsInt64() {
		return t.n.Int64(), true
	}
	return 0, false
}

// In is an input; kind is "s" sequence, "b" bool, "u8".."i64" integer, "" other.
func (b *Tab) In(label, kind string) *T {
	t := &T{op: "in", s: label + "|" + kind}
	b.kindInfo(t, kind)
	return b.raw(t)
}

func (b *Tab) kindInfo(t *T, kind string) {
	switch {
	case kind == "s":
		t.sort = 's'
	case kind == "b":
		t.sort = 'b'
	case kind != "" && (kind[0] == 'u' || kind[0] == 'i'):
		t.sort = 'i'
		var w uint
		fmt.Sscanf(kind[1:], "%d", &w)
		if kind[0] == 'u' {
			t.lo, t.hi = zero, new(big.Int).Sub(new(big.Int).Lsh(one, w), one)
		} else {
			t.hi = new(big.Int).Sub(new(big.Int).Lsh(one, w-1), one)
			t.lo = new(big.Int).Neg(new(big.Int).Lsh(one, w-1))
		}
	}
}

func (b *Tab) Mu(kind byte) *T {
	b.muN++
	return b.raw(&T{op: "mu", n: big.NewInt(b.muN), mu: true, sort: kind})
}

// MuLen is a sequence variable of known length.
func (b *Tab) MuLen(n *T) *T {
	m := b.Mu('s')
	b.muLen[m] = n
	return m
}

// Var is a bound variable while its binder is open; it denotes a non-negative integer.
func (b *Tab) Var() *T {
	b.muN++
	return b.raw(&T{op: "var", n: big.NewInt(b.muN), sort: 'i', lo: zero})
}

// ---- integers

func rangeOf(t *T) (lo, hi *big.Int) { return t.lo, t.hi }

func (b *Tab) Lin(k *big.Int, xs []*T, cs []*big.Int) *T {
	acc := map[*T]*big.Int{}
	k = new(big.Int).Set(k)
	var add func(x *T, c *big.Int)
	add = func(x *T, c *big.Int) {
		switch x.op {
		case "k":
			k.Add(k, new(big.Int).Mul(x.n, c))
		case "lin":
			k.Add(k, new(big.Int).Mul(x.n, c))
			for i, y := range x.a {
				add(y, new(big.Int).Mul(x.c[i], c))
			}
		default:
			if o, ok := acc[x]; ok {
				acc[x] = new(big.Int).Add(o, c)
			} else {
				acc[x] = c
			}
		}
	}
	for i, x := range xs {
		if x.op == "?" {
			return b.unk
		}
		add(x, cs[i])
	}
	var ks []*T
	for x, c := range acc {
		if c.Sign() != 0 {
			ks = append(ks, x)
		}
	}
	if len(ks) == 0 {
		return b.Kb(k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if len(ks) == 1 && k.Sign() == 0 && acc[ks[0]].Cmp(one) == 0 {
		return ks[0]
	}
	// an alternative inside a sum
	for i, x := range ks {
		if x.op == "ite" && len(ks) <= 3 {
			mk := func(y *T) *T {
				var ys []*T
				var cs []*big.Int
				for j, z := range ks {
					ys, cs = append(ys, z), append(cs, acc[z])
					if j == i {
						ys[j] = y
					}
				}
				return b.Lin(k, ys, cs)
			}
			return b.Ite(b.atom(x.a[0]), mk(x.a[1]), mk(x.a[2]))
		}
	}
	if r := b.recompose(k, ks, acc); r != nil {
		return r
	}
	t := &T{op: "lin", n: k, a: ks, sort: 'i'}
	lo, hi := new(big.Int).Set(k), new(big.Int).Set(k)
	for _, x := range ks {
		c := acc[x]
		t.c = append(t.c, c)
		l, h := x.lo, x.hi
		if c.Sign() < 0 {
			l, h = h, l
		}
		if lo != nil && l != nil {
			lo.Add(lo, new(big.Int).Mul(l, c))
		} else {
			lo = nil
		}
		if hi != nil && h != nil {
			hi.Add(hi, new(big.Int).Mul(h, c))
		} else {
			hi = nil
		}
	}
	t.lo, t.hi = lo, hi
	return b.raw(t)
}

// recompose recognises an integer put together from its bytes.
func (b *Tab) recompose(k *big.Int, ks []*T, acc map[*T]*big.Int) *T {
	if k.Sign() != 0 || len(ks) < 2 || len(ks) > 8 {
		return nil
	}
	by := make([]*T, len(ks))
	for _, x := range ks {
		c := acc[x]
		if c.Sign() <= 0 {
			return nil
		}
		n := c.BitLen() - 1
		if n%8 != 0 || n/8 >= len(ks) || new(big.Int).Lsh(one, uint(n)).Cmp(c) != 0 || by[n/8] != nil {
			return nil
		}
		by[n/8] = x
	}
	if by[0].op == "lane" {
		for i, x := range by {
			if x.op != "lane" || x.a[0] != by[0].a[0] || x.n.Int64() != int64(i) {
				return nil
			}
		}
		return b.Trunc(8*len(by), by[0].a[0])
	}
	if by[0].op != "at" {
		return nil
	}
	up, down := true, true
	for i, x := range by {
		if x.op != "at" || x.a[0] != by[0].a[0] {
			return nil
		}
		if b.Add(by[0].a[1], b.K(int64(i))) != x.a[1] {
			up = false
		}
		if b.Add(by[0].a[1], b.K(int64(-i))) != x.a[1] {
			down = false
		}
	}
	n := b.K(int64(len(by)))
	if up {
		return b.Uint("le", b.Sub(by[0].a[0], by[0].a[1], n))
	}
	if down {
		return b.Uint("be", b.Sub(by[0].a[0], by[len(by)-1].a[1], n))
	}
	return nil
}

// Uint is the unsigned value of a sequence of bytes.
func (b *Tab) Uint(end string, s *T) *T {
	if s.op == "?" {
		return b.unk
	}
	if s.op == end || (s.op == "le" && s.n.Int64() == 1) {
		return b.Trunc(int(s.n.Int64())*8, s.a[0])
	}
	if s.op == "b" {
		x := []byte(s.s)
		if end == "le" {
			for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
				x[i], x[j] = x[j], x[i]
			}
		}
		return b.Kb(new(big.Int).SetBytes(x))
	}
	if s.op == "rev" {
		return b.Uint(map[string]string{"le": "be", "be": "le"}[end], s.a[0])
	}
	if s.op == "padl" && end == "be" {
		return b.Uint(end, s.a[0])
	}
	if s.op == "minbe" && end == "be" {
		return s.a[0]
	}
	t := &T{op: "uint", s: end, a: []*T{s}, sort: 'i', lo: zero}
	if n, ok := kOf(b.Len(s)); ok {
		if n == 0 {
			return b.K(0)
		}
		t.hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(8*n)), one)
		if n == 1 {
			return b.At(s, b.K(0))
		}
	}
	return b.raw(t)
}

func (b *Tab) Add(x, y *T) *T { return b.Lin(zero, []*T{x, y}, []*big.Int{one, one}) }
func (b *Tab) SubI(x, y *T) *T {
	return b.Lin(zero, []*T{x, y}, []*big.Int{one, big.NewInt(-1)})
}
func (b *Tab) MulK(x *T, k *big.Int) *T { return b.Lin(zero, []*T{x}, []*big.Int{k}) }
func (b *Tab) Mul(x, y *T) *T {
	if x.op == "k" {
		return b.MulK(y, x.n)
	}
	if y.op == "k" {
		return b.MulK(x, y.n)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.op("mul", 'i', x, y)
}

// op is an uninterpreted operation.
func (b *Tab) op(name string, sort byte, a ...*T) *T {
	for _, x := range a {
		if x.op == "?" {
			return b.unk
		}
	}
	t := &T{op: name, a: a, sort: sort}
	return b.raw(t)
}

// Trunc is x modulo 2^w.
func (b *Tab) Trunc(w int, x *T) *T {
	if x.op == "?" {
		return x
	}
	max := new(big.Int).Lsh(one, uint(w))
	if x.op == "k" {
		return b.Kb(new(big.Int).Mod(x.n, max))
	}
	if x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(max) < 0 {
		return x
	}
	switch x.op {
	case "tr", "sx":
		if x.n.Int64() >= int64(w) {
			return b.Trunc(w, x.a[0])
		}
	case "shr":
		if w == 8 && x.n.Int64()%8 == 0 {
			return b.Lane(x.a[0], x.n.Int64()/8)
		}
	case "ite":
		return b.Ite(b.atom(x.a[0]), b.Trunc(w, x.a[1]), b.Trunc(w, x.a[2]))
	case "lin":
		// drop multiples of 2^w
		var xs []*T
		var cs []*big.Int
		ch := false
		for i, y := range x.a {
			c := new(big.Int).Mod(x.c[i], max)
			if c.Sign() == 0 {
				ch = true
				continue
			}
			xs, cs = append(xs, y), append(cs, x.c[i])
		}
		if ch {
			return b.Trunc(w, b.Lin(x.n, xs, cs))
		}
	}
	if w == 8 {
		return b.Lane(x, 0)
	}
	return b.raw(&T{op: "tr", n: big.NewInt(int64(w)), a: []*T{x}, sort: 'i', lo: zero, hi: new(big.Int).Sub(max, one)})
}

// Signed is x reduced to a signed integer of w bits.
func (b *Tab) Signed(w int, x *T) *T {
	if x.op == "?" {
		return x
	}
	half := new(big.Int).Lsh(one, uint(w-1))
	if x.lo != nil && x.hi != nil && x.lo.Cmp(new(big.Int).Neg(half)) >= 0 && x.hi.Cmp(half) < 0 {
		return x
	}
	if x.op == "k" {
		m := new(big.Int).Mod(x.n, new(big.Int).Lsh(one, uint(w)))
		if m.Cmp(half) >= 0 {
			m.Sub(m, new(big.Int).Lsh(one, uint(w)))
		}
		return b.Kb(m)
	}
	if (x.op == "tr" || x.op == "sx") && x.n.Int64() >= int64(w) {
		return b.Signed(w, x.a[0])
	}
	if w == 64 {
		return x // 64-bit sums and lengths are taken not to overflow
	}
	return b.raw(&T{op: "sx", n: big.NewInt(int64(w)), a: []*T{x}, sort: 'i', lo: new(big.Int).Neg(half), hi: new(big.Int).Sub(half, one)})
}

// Lane is byte k of x.
func (b *Tab) Lane(x *T, k int64) *T {
	if x.op == "?" {
		return x
	}
	switch x.op {
	case "k":
		y := new(big.Int).Rsh(x.n, uint(8*k))
		return b.Kb(y.And(y, big.NewInt(255)))
	case "tr", "sx":
		if 8*k < x.n.Int64() {
			return b.Lane(x.a[0], k)
		}
		if x.op == "tr" {
			return b.K(0)
		}
	case "shr":
		if x.n.Int64()%8 == 0 {
			return b.Lane(x.a[0], k+x.n.Int64()/8)
		}
	case "uint":
		if n, ok := kOf(b.Len(x.a[0])); ok && k < n {
			if x.s == "le" {
				return b.At(x.a[0], b.K(k))
			}
			return b.At(x.a[0], b.K(n-1-k))
		}
	case "ite":
		return b.Ite(b.atom(x.a[0]), b.Lane(x.a[1], k), b.Lane(x.a[2], k))
	}
	if x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 {
		if int64(x.hi.BitLen()) <= 8*k {
			return b.K(0)
		}
		if k == 0 && x.hi.BitLen() <= 8 {
			return x
		}
	}
	return b.raw(&T{op: "lane", n: big.NewInt(k), a: []*T{x}, sort: 'i', lo: zero, hi: big.NewInt(255)})
}

func (b *Tab) Shr(x *T, k int64) *T {
	if x.op == "?" || k == 0 {
		return x
	}
	if x.op == "k" {
		return b.Kb(new(big.Int).Rsh(x.n, uint(k)))
	}
	if x.op == "shr" {
		return b.Shr(x.a[0], k+x.n.Int64())
	}
	t := &T{op: "shr", n: big.NewInt(k), a: []*T{x}, sort: 'i'}
	if x.lo != nil && x.hi != nil {
		t.lo, t.hi = new(big.Int).Rsh(x.lo, uint(k)), new(big.Int).Rsh(x.hi, uint(k))
		if t.lo.Cmp(t.hi) == 0 {
			return b.Kb(t.lo)
		}
	}
	return b.raw(t)
}

func (b *Tab) And(x, y *T) *T {
	if x.op == "k" {
		x, y = y, x
	}
	if y.op == "k" && x.op == "k" {
		return b.Kb(new(big.Int).And(x.n, y.n))
	}
	if y.op == "k" {
		p := new(big.Int).Add(y.n, one)
		if y.n.Sign() > 0 && new(big.Int).And(p, y.n).Sign() == 0 {
			return b.Trunc(y.n.BitLen(), x)
		}
		if y.n.Sign() == 0 {
			return y
		}
		t := &T{op: "and", a: []*T{x, y}, sort: 'i', lo: zero, hi: y.n}
		if x.op == "?" {
			return x
		}
		return b.raw(t)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.op("and", 'i', x, y)
}

// bitsOf: trailing zero bits and bit length of a non-negative term.
func bitsOf(t *T) (lo, hi int, ok bool) {
	if t.lo == nil || t.hi == nil || t.lo.Sign() < 0 {
		return 0, 0, false
	}
	hi = t.hi.BitLen()
	if t.op == "lin" {
		lo = 1 << 30
		if t.n.Sign() != 0 {
			lo = int(t.n.TrailingZeroBits())
		}
		for _, c := range t.c {
			if z := int(c.TrailingZeroBits()); z < lo {
				lo = z
			}
		}
	}
	if t.op == "k" {
		if t.n.Sign() == 0 {
			return 1 << 30, 0, true
		}
		lo = int(t.n.TrailingZeroBits())
	}
	return lo, hi, true
}

func (b *Tab) Or(x, y *T) *T {
	xl, xh, ok1 := bitsOf(x)
	yl, yh, ok2 := bitsOf(y)
	if ok1 && ok2 && (xh <= yl || yh <= xl) {
		return b.Add(x, y)
	}
	if x.op == "k" && y.op == "k" {
		return b.Kb(new(big.Int).Or(x.n, y.n))
	}
	if x == y {
		return x
	}
	if x.id > y.id {
		x, y = y, x
	}
	for i := 0; i < 2; i++ {
		if x.op == "k" && x.n.Sign() == 0 {
			return y
		}
		x, y = y, x
	}
	return b.bitop("or", x, y)
}

// ---- sequences

func elems(t *T) []*T {
	if t.op == "cat" {
		return t.a
	}
	if t.op == "b" && t.s == "" {
		return nil
	}
	return []*T{t}
}

// Enc is the n-byte encoding of x.
func (b *Tab) Enc(end string, n int64, x *T) *T {
	if x.op == "?" {
		return b.unk
	}
	if x.op == "k" {
		v := new(big.Int).Mod(x.n, new(big.Int).Lsh(one, uint(8*n)))
		by := v.FillBytes(make([]byte, n))
		if end == "le" {
			for i, j := 0, len(by)-1; i < j; i, j = i+1, j-1 {
				by[i], by[j] = by[j], by[i]
			}
		}
		return b.Bytes(string(by))
	}
	if n == 0 {
		return b.eps
	}
	if x.op == "ite" {
		return b.Ite(b.atom(x.a[0]), b.Enc(end, n, x.a[1]), b.Enc(end, n, x.a[2]))
	}
	if n == 1 {
		return b.Byte(b.Lane(x, 0))
	}
	if x.op == "tr" || x.op == "sx" {
		if x.n.Int64() >= 8*n {
			return b.Enc(end, n, x.a[0])
		}
	}
	if x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 {
		w := int64(x.hi.BitLen()+7) / 8
		if w < n {
			pad := b.Bytes(strings.Repeat("\x00", int(n-w)))
			if end == "le" {
				return b.Cat(b.Enc(end, w, x), pad)
			}
			return b.Cat(pad, b.Enc(end, w, x))
		}
	}
	if x.op == "uint" {
		if k, ok := kOf(b.Len(x.a[0])); ok && k == n {
			if x.s == end {
				return x.a[0]
			}
			return b.Rev(x.a[0])
		}
	}
	return b.raw(&T{op: end, n: big.NewInt(n), a: []*T{x}, sort: 's'})
}

// Byte is the sequence of the one byte v.
func (b *Tab) Byte(v *T) *T {
	switch v.op {
	case "?":
		return v
	case "k":
		return b.Bytes(string([]byte{byte(new(big.Int).And(v.n, big.NewInt(255)).Int64())}))
	case "at":
		return b.Sub(v.a[0], v.a[1], b.K(1))
	case "ite":
		return b.Ite(b.atom(v.a[0]), b.Byte(v.a[1]), b.Byte(v.a[2]))
	}
	return b.raw(&T{op: "le", n: one, a: []*T{v}, sort: 's'})
}

func laneOf(t *T) (x *T, k int64, ok bool) {
	if t.op != "le" || t.n.Int64() != 1 {
		return nil, 0, false
	}
	if t.a[0].op == "lane" {
		return t.a[0].a[0], t.a[0].n.Int64(), true
	}
	return t.a[0], 0, true
}

func (b *Tab) Cat(xs ...*T) *T {
	var out []*T
	push := func(x *T) {
		for len(out) > 0 {
			p := out[len(out)-1]
			if p.op == "b" && x.op == "b" {
				out = out[:len(out)-1]
				x = b.Bytes(p.s + x.s)
				continue
			}
			if p.op == "?" && x.op == "?" {
				return
			}
			if p.op == "sub" && x.op == "sub" && p.a[0] == x.a[0] && b.Add(p.a[1], p.a[2]) == x.a[1] {
				out = out[:len(out)-1]
				x = b.Sub(p.a[0], p.a[1], b.Add(p.a[2], x.a[2]))
				continue
			}
			// zeros up to a fixed width
			if w := b.padTo(p, x); w > 0 {
				out = out[:len(out)-1]
				x = b.Padl(w, x)
				continue
			}
			// little endian: le(n,x) then lane n
			if y, k, ok := laneOf(x); ok && k > 0 {
				if p.op == "le" {
					py, pn := p.a[0], p.n.Int64()
					if pn == 1 && py.op == "lane" && py.n.Sign() == 0 {
						py = py.a[0]
					}
					if py == y && pn == k {
						out = out[:len(out)-1]
						x = b.raw(&T{op: "le", n: big.NewInt(k + 1), a: []*T{y}, sort: 's'})
						continue
					}
				}
			}
			// big endian: complete when lane 0 arrives
			if y, k, ok := laneOf(x); ok && k == 0 {
				n := 1
				for n <= len(out) {
					z, kk, ok := laneOf(out[len(out)-n])
					if !ok || z != y || kk != int64(n) {
						break
					}
					n++
				}
				if n > 1 {
					out = out[:len(out)-n+1]
					x = b.raw(&T{op: "be", n: big.NewInt(int64(n)), a: []*T{y}, sort: 's'})
					continue
				}
			}
			break
		}
		out = append(out, x)
	}
	for _, x := range xs {
		if x.op == "nil" {
			continue
		}
		for _, e := range elems(x) {
			push(e)
		}
	}
	switch len(out) {
	case 0:
		return b.eps
	case 1:
		return out[0]
	}
	return b.raw(&T{op: "cat", a: out, sort: 's'})
}

func hashLen(alg string) int64 {
	switch alg {
	case "sha256", "dsha256", "blake256", "keccak256", "sha3_256", "sm3":
		return 32
	case "h160", "ripemd160":
		return 20
	case "sha512":
		return 64
	}
	return -1
}

func (b *Tab) Len(t *T) *T {
	switch t.op {
	case "?":
		return t
	case "nil":
		return b.K(0)
	case "b":
		return b.K(int64(len(t.s)))
	case "le", "be":
		return b.Kb(t.n)
	case "elt":
		return b.K(1)
	case "cat":
		r := b.K(0)
		for _, x := range t.a {
			r = b.Add(r, b.Len(x))
		}
		return r
	case "sub":
		return t.a[2]
	case "rev", "set":
		return b.Len(t.a[0])
	case "x":
		if strings.HasPrefix(t.s, "sort.S") && len(t.a) == 1 && t.a[0].op == "ifc" {
			return b.Len(t.a[0].a[0])
		}
	case "ite":
		return b.Ite(b.atom(t.a[0]), b.Len(t.a[1]), b.Len(t.a[2]))
	case "hexe":
		return b.MulK(b.Len(t.a[0]), big.NewInt(2))
	case "zeros":
		return t.a[0]
	case "map":
		if l := b.Len(t.a[1]); !hasBV(l, int(t.n.Int64())) {
			return b.Mul(t.a[0], l)
		}
	case "hash":
		if n := hashLen(t.s); n > 0 {
			return b.K(n)
		}
	case "mu":
		if n := b.muLen[t]; n != nil {
			return n
		}
	case "lv":
		if len(t.a) == 1 {
			return t.a[0]
		}
	case "fixlen":
		return b.Kb(t.n)
	}
	return b.raw(&T{op: "len", a: []*T{t}, sort: 'i', lo: zero})
}

func hasBinder(t *T) bool { return t.bv > 0 }

func hasBV(t *T, h int) bool {
	if t.op == "bv" && t.n.Int64() == int64(h) {
		return true
	}
	for _, x := range t.a {
		if hasBV(x, h) {
			return true
		}
	}
	return false
}

// geq decides x >= y.
func (b *Tab) geq(x, y *T) (bool, bool) {
	d := b.SubI(x, y)
	if d.lo != nil && d.lo.Sign() >= 0 {
		return true, true
	}
	if d.hi != nil && d.hi.Sign() < 0 {
		return false, true
	}
	return false, false
}

// Sub is n elements of t from lo.
func (b *Tab) Sub(t, lo, n *T) *T {
	if t.op == "?" || lo.op == "?" || n.op == "?" {
		return b.unk
	}
	if k, ok := kOf(n); ok && k == 0 {
		return b.eps
	}
	if k, ok := kOf(lo); ok && k == 0 && b.Len(t) == n {
		return t
	}
	if t.op == "padl" && t.a[0].op == "minbe" && lo.op == "k" && lo.n.Sign() == 0 && n.op == "k" && n.n.Cmp(t.n) == 0 {
		return t // the number is taken to fit in the width it is padded to
	}
	switch t.op {
	case "sub":
		return b.Sub(t.a[0], b.Add(t.a[1], lo), n)
	case "b":
		l, ok1 := kOf(lo)
		k, ok2 := kOf(n)
		if ok1 && ok2 && l >= 0 && k >= 0 && l+k <= int64(len(t.s)) {
			return b.Bytes(t.s[l : l+k])
		}
	case "cat":
		// skip elements before lo
		i := 0
		for i < len(t.a) {
			l := b.Len(t.a[i])
			if l.op == "?" {
				return b.unk
			}
			if ge, ok := b.geq(lo, l); ok && ge {
				lo = b.SubI(lo, l)
				i++
				continue
			}
			break
		}
		if i == len(t.a) {
			break
		}
		var out []*T
		j := i
		first := true
		for j < len(t.a) {
			l := b.Len(t.a[j])
			if l.op == "?" {
				return b.unk
			}
			avail := b.SubI(l, lo)
			if !first {
				avail = l
			}
			if ge, ok := b.geq(n, avail); ok && ge {
				e := t.a[j]
				if first {
					e = b.Sub(e, lo, avail)
				}
				out = append(out, e)
				n = b.SubI(n, avail)
				first = false
				j++
				if k, ok := kOf(n); ok && k == 0 {
					return b.Cat(out...)
				}
				continue
			}
			if ge, ok := b.geq(avail, n); ok && ge {
				st := lo
				if !first {
					st = b.K(0)
				}
				out = append(out, b.Sub(t.a[j], st, n))
				return b.Cat(out...)
			}
			break
		}
		// undecided: keep the rest symbolic
		if !first || i > 0 {
			rest := b.Cat(t.a[j:]...)
			st := lo
			if !first {
				st = b.K(0)
			}
			if rest != t {
				return b.Cat(append(out, b.Sub(rest, st, n))...)
			}
		}
	case "ite":
		return b.Ite(b.atom(t.a[0]), b.Sub(t.a[1], lo, n), b.Sub(t.a[2], lo, n))
	case "zeros":
		return b.Zeros(n)
	case "map":
		if k, ok := kOf(n); ok && k == 1 && b.Len(t.a[1]) == b.K(1) {
			return b.inst(t, lo)
		}
	case "le", "be":
		l, ok1 := kOf(lo)
		k, ok2 := kOf(n)
		if ok1 && ok2 && l >= 0 && l+k <= t.n.Int64() && k <= 16 {
			var out []*T
			for i := l; i < l+k; i++ {
				out = append(out, b.Byte(b.At(t, b.K(i))))
			}
			return b.Cat(out...)
		}
	}
	return b.raw(&T{op: "sub", a: []*T{t, lo, n}, sort: 's'})
}

func (b *Tab) Zeros(n *T) *T {
	if k, ok := kOf(n); ok && k >= 0 && k <= 4096 {
		return b.Bytes(strings.Repeat("\x00", int(k)))
	}
	return b.op("zeros", 's', n)
}

// inst is the body of a map at index i.
func (b *Tab) inst(m *T, i *T) *T {
	return b.subst(m.a[1], map[*T]*T{b.raw(&T{op: "bv", n: m.n, sort: 'i', lo: zero}): i})
}

// At is byte i of t.
func (b *Tab) At(t, i *T) *T { return b.atKind(t, i, "u8") }

// atKind is element i of t; kind describes the element (u8 for bytes).
func (b *Tab) atKind(t, i *T, kind string) *T {
	if t.op == "?" || i.op == "?" {
		return b.unk
	}
	switch t.op {
	case "b":
		if k, ok := kOf(i); ok && k >= 0 && k < int64(len(t.s)) {
			return b.K(int64(t.s[k]))
		}
	case "sub":
		return b.atKind(t.a[0], b.Add(t.a[1], i), kind)
	case "le", "be":
		if k, ok := kOf(i); ok && k >= 0 && k < t.n.Int64() {
			if t.op == "be" {
				k = t.n.Int64() - 1 - k
			}
			if t.n.Int64() == 1 {
				return t.a[0]
			}
			return b.Lane(t.a[0], k)
		}
	case "elt":
		if k, ok := kOf(i); ok && k == 0 {
			return t.a[0]
		}
	case "cat":
		j := i
		for _, e := range t.a {
			l := b.Len(e)
			if l.op == "?" {
				return b.unk
			}
			if ge, ok := b.geq(j, l); ok {
				if ge {
					j = b.SubI(j, l)
					continue
				}
				return b.atKind(e, j, kind)
			}
			break
		}
	case "ite":
		return b.Ite(b.atom(t.a[0]), b.atKind(t.a[1], i, kind), b.atKind(t.a[2], i, kind))
	case "map":
		if l, ok := kOf(b.Len(t.a[1])); ok && l == 1 {
			return b.atKind(b.inst(t, i), b.K(0), kind)
		}
	case "set":
		if t.a[1] == i {
			return t.a[2]
		}
		d := b.SubI(t.a[1], i)
		if (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
			return b.atKind(t.a[0], i, kind)
		}
	case "zeros":
		return b.K(0)
	case "rev":
		return b.atKind(t.a[0], b.SubI(b.SubI(b.Len(t.a[0]), b.K(1)), i), kind)
	}
	x := &T{op: "at", s: kind, a: []*T{t, i}}
	b.kindInfo(x, kind)
	return b.raw(x)
}

// Set is t with element i replaced. byt: a byte sequence.
func (b *Tab) Set(t, i, v *T, byt bool) *T {
	if t.op == "?" || i.op == "?" {
		return b.unk
	}
	var e *T
	if byt {
		e = b.Byte(v)
	} else {
		e = b.op1("elt", 's', v)
	}
	if _, ok := kOf(i); ok {
		L := b.Len(t)
		if _, ok := kOf(L); ok {
			return b.Cat(b.Sub(t, b.K(0), i), e, b.Sub(t, b.Add(i, b.K(1)), b.SubI(b.SubI(L, i), b.K(1))))
		}
		// the position may fall into an element of known length
		if t.op == "cat" {
			return b.Cat(b.Sub(t, b.K(0), i), e, b.Sub(t, b.Add(i, b.K(1)), b.SubI(b.SubI(L, i), b.K(1))))
		}
	}
	if t.op == "set" && t.a[1] == i {
		return b.raw(&T{op: "set", a: []*T{t.a[0], i, v}, sort: 's', s: t.s})
	}
	s := ""
	if byt {
		s = "y"
	}
	return b.raw(&T{op: "set", s: s, a: []*T{t, i, v}, sort: 's'})
}

func (b *Tab) op1(name string, sort byte, a ...*T) *T {
	return b.raw(&T{op: name, a: a, sort: sort})
}

func (b *Tab) Rev(t *T) *T {
	switch t.op {
	case "?":
		return t
	case "b":
		x := []byte(t.s)
		for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
			x[i], x[j] = x[j], x[i]
		}
		return b.Bytes(string(x))
	case "rev":
		return t.a[0]
	case "le", "be":
		if t.n.Int64() == 1 {
			return t
		}
		return b.raw(&T{op: map[string]string{"le": "be", "be": "le"}[t.op], n: t.n, a: t.a, sort: 's'})
	case "cat":
		var out []*T
		for i := len(t.a) - 1; i >= 0; i-- {
			out = append(out, b.Rev(t.a[i]))
		}
		return b.Cat(out...)
	case "elt":
		return t
	case "ite":
		return b.Ite(b.atom(t.a[0]), b.Rev(t.a[1]), b.Rev(t.a[2]))
	case "zeros":
		return t
	case "sub":
		if k, ok := kOf(t.a[2]); ok && k == 1 {
			return t
		}
	}
	return b.raw(&T{op: "rev", a: []*T{t}, sort: 's'})
}

// Map is the concatenation of body for v = 0 .. n-1.
func (b *Tab) Map(n, v, body *T) *T {
	if n.op == "?" || body.op == "?" {
		return b.unk
	}
	if body == b.eps {
		return body
	}
	body = b.below(body, v, n)
	if k, ok := kOf(n); ok {
		if k <= 0 {
			return b.eps
		}
		if k <= 72 {
			var out []*T
			for i := int64(0); i < k; i++ {
				out = append(out, b.subst(body, map[*T]*T{v: b.K(i)}))
			}
			return b.Cat(out...)
		}
	}
	if !b.contains(body, v) {
		if body.op == "b" && strings.Trim(body.s, "\x00") == "" {
			return b.Zeros(b.MulK(n, big.NewInt(int64(len(body.s)))))
		}
	}
	// consecutive parts of one sequence
	if body.op == "sub" && !b.contains(body.a[0], v) && !b.contains(body.a[2], v) {
		l0 := b.subst(body.a[1], map[*T]*T{v: b.K(0)})
		if b.Add(l0, b.Mul(v, body.a[2])) == body.a[1] {
			return b.Sub(body.a[0], l0, b.Mul(n, body.a[2]))
		}
		if b.SubI(l0, v) == body.a[1] && body.a[2] == b.K(1) {
			return b.Rev(b.Sub(body.a[0], b.Add(b.SubI(l0, n), b.K(1)), n))
		}
	}
	// a copy of a list
	if body.op == "elt" && body.a[0].op == "at" && body.a[0].a[1] == v && !b.contains(body.a[0].a[0], v) && b.Len(body.a[0].a[0]) == n {
		return body.a[0].a[0]
	}
	h := body.bv + 1
	bv := b.raw(&T{op: "bv", n: big.NewInt(int64(h)), sort: 'i', lo: zero})
	body = b.subst(body, map[*T]*T{v: bv})
	if body.op == "?" {
		return body
	}
	return b.raw(&T{op: "map", n: big.NewInt(int64(h)), a: []*T{n, body}, bv: h, sort: 's'})
}

// Exists: some v in 0..n-1 satisfies cond.
func (b *Tab) Exists(n, v, cond *T) *T {
	cond = b.unsorted(b.below(cond, v, n), v, n)
	if cond == b.fal {
		return b.fal
	}
	if !b.contains(cond, v) {
		if k, ok := kOf(n); ok && k > 0 {
			return cond
		}
		return b.AndB(b.Lt(b.K(0), n), cond)
	}
	if k, ok := kOf(n); ok && k <= 72 {
		// element-wise comparison of constant length
		if t := b.cmpAll(n, v, cond); t != nil {
			return t
		}
		r := b.fal
		for i := int64(0); i < k; i++ {
			r = b.OrB(r, b.subst(cond, map[*T]*T{v: b.K(i)}))
		}
		return r
	}
	if t := b.cmpAll(n, v, cond); t != nil {
		return t
	}
	// a disjunction of parts that do not depend on v and parts that do is left as it is
	h := cond.bv + 1
	bv := b.raw(&T{op: "bv", n: big.NewInt(int64(h)), sort: 'i', lo: zero})
	body := b.subst(cond, map[*T]*T{v: bv})
	if n.op == "?" {
		return b.unkAtom()
	}
	return b.atom(b.raw(&T{op: "ex", n: big.NewInt(int64(h)), a: []*T{n, body}, bv: h, sort: 'b'}))
}

// below simplifies a body under v < n.
func (b *Tab) below(body, v, n *T) *T {
	if n.op == "?" || body.op == "?" {
		return body
	}
	return b.given(body, b.Lt(v, n))
}

// given simplifies t under a condition on one atom.
func (b *Tab) given(t, c *T) *T {
	if c.op != "ite" {
		return t
	}
	switch {
	case c.a[1] == b.tru && c.a[2] == b.fal:
		if b.contains(t, c.a[0]) {
			return b.subst(t, map[*T]*T{c.a[0]: b.tru})
		}
	case c.a[1] == b.fal && c.a[2] == b.tru:
		if b.contains(t, c.a[0]) {
			return b.subst(t, map[*T]*T{c.a[0]: b.fal})
		}
	}
	return t
}

func (b *Tab) unkAtom() *T {
	b.unkN++
	return b.atom(b.raw(&T{op: "u", n: big.NewInt(b.unkN), sort: 'b', unk: true}))
}

// cmpAll: exists v: a[v] != b[v]  ->  the sequences differ
func (b *Tab) cmpAll(n, v, cond *T) *T {
	// cond = ite(eq(x,y), f, t)
	if cond.op != "ite" || cond.a[1] != b.fal || cond.a[2] != b.tru || cond.a[0].op != "eq" {
		return nil
	}
	x, y := cond.a[0].a[0], cond.a[0].a[1]
	sx, sy := b.Map(n, v, b.Byte(x)), b.Map(n, v, b.Byte(y))
	if sx.op == "map" || sy.op == "map" || sx.op == "?" || sy.op == "?" {
		return nil
	}
	return b.Not(b.Eq(sx, sy))
}

// ---- booleans: ordered decision diagrams over atoms

func (b *Tab) atom(a *T) *T {
	if a.op == "t" || a.op == "f" || a.op == "ite" {
		return a
	}
	return b.raw(&T{op: "ite", a: []*T{a, b.tru, b.fal}, sort: 'b'})
}
func (b *Tab) Not(c *T) *T     { return b.Ite(c, b.fal, b.tru) }
func (b *Tab) AndB(x, y *T) *T { return b.Ite(x, y, b.fal) }
func (b *Tab) OrB(x, y *T) *T  { return b.Ite(x, b.tru, y) }

// Ite builds the canonical alternative; c is a boolean term.
func (b *Tab) Ite(c, x, y *T) *T {
	b.tick()
	if c == b.tru || x == y {
		return x
	}
	if c == b.fal {
		return y
	}
	if c.op == "?" || c.sort != 'b' {
		if x.sort == 'b' || y.sort == 'b' {
			return b.unkAtom()
		}
		if (x.op == "rec" || x.op == "tup") && (y.op == x.op) && len(x.a) == len(y.a) {
			return b.mkIteNode(b.unkAtom().a[0], x, y)
		}
		return b.unk
	}
	if c.op != "ite" {
		c = b.atom(c)
	}
	if x == b.tru && y == b.fal {
		return c
	}
	key := [3]int{c.id, x.id, y.id}
	if r, ok := b.memo[key]; ok {
		return r
	}
	top := c.a[0]
	for _, z := range []*T{x, y} {
		if z.op == "ite" && z.a[0].id < top.id {
			top = z.a[0]
		}
	}
	cof := func(z *T, pos bool) *T {
		if z.op == "ite" && z.a[0] == top {
			if pos {
				return z.a[1]
			}
			return z.a[2]
		}
		return z
	}
	h := b.Ite(cof(c, true), cof(x, true), cof(y, true))
	l := b.Ite(cof(c, false), cof(x, false), cof(y, false))
	r := b.mkIteNode(top, h, l)
	b.memo[key] = r
	return r
}

// special: an alternative for one value of a variable that says what the general one says there.
func (b *Tab) special(a, h, l *T) (*T, *T) {
	key := [3]int{a.id, h.id, l.id}
	if r, ok := b.specM[key]; ok {
		return r[0], r[1]
	}
	if b.specM == nil {
		b.specM = map[[3]int][2]*T{}
	}
	h0, l0 := h, l
	var m map[*T]*T
	switch a.op {
	case "isnil":
		if x := a.a[0]; x.sort == 's' && x.op != "b" {
			m = map[*T]*T{x: b.eps}
		} else if L := b.Len(x); L.op == "len" {
			m = map[*T]*T{L: b.K(0)}
		}
	case "eq":
		x, k := a.a[0], a.a[1]
		if x.op == "k" || x.op == "b" {
			x, k = k, x
		}
		if k.op != "k" || x.op == "lin" || len(x.a) > 0 && x.op != "len" && x.op != "fld" {
			break
		}
		m = map[*T]*T{x: k}
		if x.op == "len" && k.op == "k" {
			if k.n.Sign() == 0 {
				if x.a[0].sort == 's' {
					m[x.a[0]] = b.eps
				}
				if z := b.raw(&T{op: "isnil", a: []*T{x.a[0]}, sort: 'b'}); b.contains(l, z) {
					l = b.subst(l, map[*T]*T{z: b.fal})
				}
			}
		}
	case "lt":
		if x, k := a.a[0], a.a[1]; x.op == "len" && k.op == "k" && k.n.Sign() > 0 {
			if z := b.raw(&T{op: "isnil", a: []*T{x.a[0]}, sort: 'b'}); b.contains(l, z) {
				l = b.subst(l, map[*T]*T{z: b.fal})
			}
		}
	}
	if m != nil && h != l {
		hit := false
		for x := range m {
			hit = hit || b.contains(l, x)
		}
		if hit && b.subst(l, m) == h {
			h = l
		}
	}
	b.specM[key] = [2]*T{h, l}
	if h != h0 || l != l0 {
		b.specM[[3]int{a.id, h.id, l.id}] = [2]*T{h, l}
	}
	return h, l
}

func (b *Tab) mkIteNode(a, h, l *T) *T {
	if h == l {
		return h
	}
	if h, l = b.special(a, h, l); h == l {
		return h
	}
	if h.sort == 'b' && l.sort == 'b' {
		return b.raw(&T{op: "ite", a: []*T{a, h, l}, sort: 'b'})
	}
	at := b.atom(a)
	if h.op == l.op && (h.op == "rec" || h.op == "tup") && len(h.a) == len(l.a) && h.s == l.s {
		out := make([]*T, len(h.a))
		for i := range h.a {
			out[i] = b.Ite(at, h.a[i], l.a[i])
		}
		return b.raw(&T{op: h.op, s: h.s, a: out})
	}
	if a.op == "isnil" && l == a.a[0] && (h.op == "nil" || h == b.eps) {
		return l
	}
	isSeq := func(t *T) bool { return t.sort == 's' || t.op == "nil" }
	if isSeq(h) && isSeq(l) && (h.sort == 's' || l.sort == 's') {
		he, le := splitSeq(b, h), splitSeq(b, l)
		p := 0
		for p < len(he) && p < len(le) && he[p] == le[p] {
			p++
		}
		q := 0
		for q < len(he)-p && q < len(le)-p && he[len(he)-1-q] == le[len(le)-1-q] {
			q++
		}
		if p+q > 0 {
			mid := b.Ite(at, b.Cat(he[p:len(he)-q]...), b.Cat(le[p:len(le)-q]...))
			return b.Cat(append(append(append([]*T{}, he[:p]...), mid), le[len(le)-q:]...)...)
		}
		if h.op == "nil" {
			h = b.eps
		}
		if l.op == "nil" {
			l = b.eps
		}
		if h == l {
			return h
		}
		// padding to a fixed width
		if h.op == "padl" && h.a[0] == l && a.op == "lt" && a.a[0] == b.Len(l) && a.a[1].op == "k" && a.a[1].n.Cmp(h.n) <= 0 {
			return h
		}
	}
	// same operation on alternatives
	if h.op == l.op && h.s == l.s && len(h.a) == len(l.a) && len(h.a) > 0 && eqBig(h.n, l.n) {
		switch h.op {
		case "hash", "elt", "ifc":
			d := -1
			for i := range h.a {
				if h.a[i] != l.a[i] {
					if d >= 0 {
						d = -2
						break
					}
					d = i
				}
			}
			if d >= 0 && h.op != "adr" {
				args := append([]*T{}, h.a...)
				args[d] = b.Ite(at, h.a[d], l.a[d])
				return b.mk(h.op, h.s, h.n, nil, args)
			}
		}
	}
	s := h.sort
	if s == 0 {
		s = l.sort
	}
	t := &T{op: "ite", a: []*T{a, h, l}, sort: s}
	if h.lo != nil && l.lo != nil {
		t.lo = minB(h.lo, l.lo)
	}
	if h.hi != nil && l.hi != nil {
		t.hi = maxB(h.hi, l.hi)
	}
	return b.raw(t)
}

func eqBig(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Cmp(b) == 0
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// splitSeq lists the elements of a sequence with constants cut into bytes.
func splitSeq(b *Tab, t *T) []*T {
	var out []*T
	if t.op == "nil" {
		return nil
	}
	for _, e := range elems(t) {
		if e.op == "b" && len(e.s) <= 64 {
			for i := 0; i < len(e.s); i++ {
				out = append(out, b.Bytes(e.s[i:i+1]))
			}
			continue
		}
		out = append(out, e)
	}
	return out
}

// deep ends the evaluation of terms that do not get smaller.
func (b *Tab) deep() {
	b.depth++
	if b.depth > 20000 {
		panic(vgOver{})
	}
}

func (b *Tab) Eq(x, y *T) *T {
	b.deep()
	defer func() { b.depth-- }()
	if x == y && x.op != "?" {
		return b.tru
	}
	if x.op == "?" || y.op == "?" {
		return b.unkAtom()
	}
	if x.sort == 'b' && y.sort == 'b' {
		return b.Ite(x, y, b.Not(y))
	}
	if x.op == "ite" {
		return b.Ite(b.atom(x.a[0]), b.Eq(x.a[1], y), b.Eq(x.a[2], y))
	}
	if y.op == "ite" {
		return b.Ite(b.atom(y.a[0]), b.Eq(x, y.a[1]), b.Eq(x, y.a[2]))
	}
	if x.op == "nil" || y.op == "nil" {
		if x.op == "nil" {
			x, y = y, x
		}
		switch x.op {
		case "b", "err", "adr", "rec", "le", "be", "slc", "hash", "clo", "func":
			if x.op == "b" && x.s == "" {
				return b.unkAtom()
			}
			return b.fal
		case "ifc":
			return b.fal
		}
		return b.atom(b.raw(&T{op: "isnil", a: []*T{x}, sort: 'b'}))
	}
	if x.op == "cmp" || y.op == "cmp" {
		if y.op == "cmp" {
			x, y = y, x
		}
		if k, ok := kOf(y); ok {
			switch k {
			case 0:
				return b.Eq(x.a[0], x.a[1])
			case 1:
				return b.Lt(x.a[1], x.a[0])
			case -1:
				return b.Lt(x.a[0], x.a[1])
			}
			return b.fal
		}
	}
	for i := 0; i < 2; i++ {
		if y.op == "k" && y.n.Sign() == 0 && len(x.a) == 2 {
			if x.op == "xor" {
				return b.Eq(x.a[0], x.a[1])
			}
			if x.op == "or" && x.a[0].lo != nil && x.a[0].lo.Sign() >= 0 && x.a[1].lo != nil && x.a[1].lo.Sign() >= 0 {
				return b.Ite(b.Eq(x.a[0], y), b.Eq(x.a[1], y), b.fal)
			}
		}
		x, y = y, x
	}
	if x.sort == 's' || y.sort == 's' {
		if x.op == "b" && y.op == "b" {
			return b.fal
		}
		lx, ok1 := kOf(b.Len(x))
		ly, ok2 := kOf(b.Len(y))
		if ok1 && ok2 && lx != ly {
			return b.fal
		}
		if x == b.eps || y == b.eps {
			if x == b.eps {
				x = y
			}
			return b.Eq(b.Len(x), b.K(0))
		}
		if ok1 && lx == 1 || ok2 && ly == 1 {
			if ok1 && ok2 {
				return b.Eq(b.At(x, b.K(0)), b.At(y, b.K(0)))
			}
		}
		if ok1 && ok2 && lx <= 8 {
			// short: byte by byte
			all := b.tru
			for i := lx - 1; i >= 0; i-- {
				all = b.AndB(b.Eq(b.At(x, b.K(i)), b.At(y, b.K(i))), all)
			}
			return all
		}
		// strip common ends
		ex, ey := splitSeq(b, x), splitSeq(b, y)
		p := 0
		for p < len(ex) && p < len(ey) && ex[p] == ey[p] && !ex[p].unk {
			p++
		}
		if p > 0 {
			return b.Eq(b.Cat(ex[p:]...), b.Cat(ey[p:]...))
		}
		q := 0
		for q < len(ex) && q < len(ey) && ex[len(ex)-1-q] == ey[len(ey)-1-q] && !ex[len(ex)-1-q].unk {
			q++
		}
		if q > 0 {
			return b.Eq(b.Cat(ex[:len(ex)-q]...), b.Cat(ey[:len(ey)-q]...))
		}
	}
	if x.op == "x" && x.s == indexFn && y.op == "k" && y.n.Sign() == 0 {
		return b.hasPrefix(x.a[0], x.a[1])
	}
	if y.op == "x" && y.s == indexFn && x.op == "k" && x.n.Sign() == 0 {
		return b.hasPrefix(y.a[0], y.a[1])
	}
	if x.sort == 'i' || y.sort == 'i' {
		d := b.SubI(x, y)
		if c, p, q := b.lift(d); c != nil {
			b.lifted++
			defer func() { b.lifted-- }()
			return b.Ite(c, b.Eq(p, b.K(0)), b.Eq(q, b.K(0)))
		}
		if d.op == "k" {
			return b.Bool(d.n.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return b.fal
		}
		if d.op == "lin" && len(d.a) == 1 && d.a[0].op == "and" || d.op == "and" {
			// one bit of a number: set or not set
			m, k, c := d, zero, one
			if d.op == "lin" {
				m, k, c = d.a[0], new(big.Int).Neg(d.n), d.c[0]
			}
			if new(big.Int).Abs(c).Cmp(one) == 0 && len(m.a) == 2 && m.a[1].op == "k" {
				if c.Sign() < 0 {
					k = new(big.Int).Neg(k)
				}
				bit := m.a[1].n
				if w := bit.BitLen(); bit.Sign() > 0 && bit.TrailingZeroBits() == uint(w-1) {
					z := m.a[0]
					unset := b.eqAtom(m, b.K(0))
					if z.lo != nil && z.lo.Sign() >= 0 && z.hi != nil && z.hi.BitLen() <= w {
						unset = b.Lt(z, b.Kb(bit))
					}
					switch {
					case k.Sign() == 0:
						return unset
					case k.Cmp(bit) == 0:
						return b.Not(unset)
					}
					return b.fal
				}
			}
		}
		if d.op == "lin" {
			// normalise: variables = constant
			if d.c[0].Sign() < 0 {
				d = b.MulK(d, big.NewInt(-1))
			}
			if d.op == "lin" {
				k := new(big.Int).Neg(d.n)
				v := b.Lin(zero, d.a, d.c)
				if v.op == "lin" && v.n.Sign() == 0 && len(v.a) == 2 && v.c[0].Cmp(one) == 0 && v.c[1].Cmp(big.NewInt(-1)) == 0 && k.Sign() == 0 {
					return b.eqAtom(v.a[0], v.a[1])
				}
				return b.eqAtom(v, b.Kb(k))
			}
		}
	}
	return b.eqAtom(x, y)
}

func (b *Tab) eqAtom(x, y *T) *T {
	if x.op == "k" || (y.op != "k" && x.id > y.id) {
		x, y = y, x
	}
	return b.atom(b.raw(&T{op: "eq", a: []*T{x, y}, sort: 'b'}))
}

// lift takes the alternatives of the one summand that has any out of a sum.
func (b *Tab) lift(d *T) (c, p, q *T) {
	if d.op == "ite" && d.sort == 'i' && b.lifted <= 8 {
		return b.atom(d.a[0]), d.a[1], d.a[2]
	}
	if d.op != "lin" || b.lifted > 8 {
		return nil, nil, nil
	}
	at := -1
	for i, x := range d.a {
		if x.op == "ite" {
			if at >= 0 {
				return nil, nil, nil
			}
			at = i
		}
	}
	if at < 0 {
		return nil, nil, nil
	}
	rest := b.SubI(d, b.MulK(d.a[at], d.c[at]))
	if rest.op == "?" {
		return nil, nil, nil
	}
	return b.atom(d.a[at].a[0]), b.Add(rest, b.MulK(d.a[at].a[1], d.c[at])), b.Add(rest, b.MulK(d.a[at].a[2], d.c[at]))
}

// Lt is x < y.
func (b *Tab) Lt(x, y *T) *T {
	b.deep()
	defer func() { b.depth-- }()
	if x.op == "?" || y.op == "?" {
		return b.unkAtom()
	}
	if x.op == "ite" {
		return b.Ite(b.atom(x.a[0]), b.Lt(x.a[1], y), b.Lt(x.a[2], y))
	}
	if y.op == "ite" {
		return b.Ite(b.atom(y.a[0]), b.Lt(x, y.a[1]), b.Lt(x, y.a[2]))
	}
	if x.op == "cmp" {
		if k, ok := kOf(y); ok {
			switch {
			case k == 0:
				return b.Lt(x.a[0], x.a[1])
			case k == 1:
				return b.Not(b.Lt(x.a[1], x.a[0]))
			case k > 1:
				return b.tru
			default:
				return b.fal
			}
		}
	}
	if y.op == "cmp" {
		if k, ok := kOf(x); ok {
			switch {
			case k == 0:
				return b.Lt(y.a[1], y.a[0])
			case k == -1:
				return b.Not(b.Lt(y.a[0], y.a[1]))
			case k < -1:
				return b.tru
			default:
				return b.fal
			}
		}
	}
	if x.sort == 's' || y.sort == 's' {
		return b.atom(b.raw(&T{op: "slt", a: []*T{x, y}, sort: 'b'}))
	}
	if x.op == "x" && x.s == indexFn && y.op == "k" && y.n.Sign() == 0 {
		return b.Eq(x, b.K(-1))
	}
	if y.op == "x" && y.s == indexFn && x.op == "k" && x.n.Cmp(big.NewInt(-1)) == 0 {
		return b.Not(b.Eq(y, b.K(-1)))
	}
	d := b.SubI(x, y) // d < 0
	if c, p, q := b.lift(d); c != nil {
		b.lifted++
		defer func() { b.lifted-- }()
		return b.Ite(c, b.Lt(p, b.K(0)), b.Lt(q, b.K(0)))
	}
	if d.hi != nil && d.hi.Sign() < 0 {
		return b.tru
	}
	if d.lo != nil && d.lo.Sign() >= 0 {
		return b.fal
	}
	if d.op == "k" {
		return b.Bool(d.n.Sign() < 0)
	}
	// v + k < 0 with the first coefficient positive: v < -k, otherwise not (-v < k+1)
	v, k := d, zero
	if d.op == "lin" {
		k = d.n
		v = b.Lin(zero, d.a, d.c)
	}
	neg := false
	if v.op == "lin" && v.c[0].Sign() < 0 {
		neg = true
	}
	if !neg {
		return b.atom(b.raw(&T{op: "lt", a: []*T{v, b.Kb(new(big.Int).Neg(k))}, sort: 'b'}))
	}
	w := b.MulK(v, big.NewInt(-1))
	// v < -k  <=>  w > k  <=>  !(w < k+1)
	return b.Not(b.atom(b.raw(&T{op: "lt", a: []*T{w, b.Kb(new(big.Int).Add(k, one))}, sort: 'b'})))
}

// ---- records

func (b *Tab) Rec(names []string, a []*T) *T {
	// a copy of all fields of one record is that record
	if len(a) > 0 {
		ok := true
		var base *T
		for i, x := range a {
			var src *T
			var nm string
			switch {
			case x.op == "fld":
				src, nm = x.a[0], strings.SplitN(x.s, "|", 2)[0]
			}
			if src == nil || nm != names[i] || (base != nil && src != base) {
				ok = false
				break
			}
			base = src
		}
		if ok && base != nil && base.op != "in" {
			return base
		}
	}
	return b.raw(&T{op: "rec", s: strings.Join(names, ","), a: a})
}

// Fld is a field of a record; kind as for In.
func (b *Tab) Fld(x *T, name, kind string) *T {
	switch x.op {
	case "?":
		return x
	case "nil":
		return b.unk
	case "rec":
		for i, n := range strings.Split(x.s, ",") {
			if n == name {
				return x.a[i]
			}
		}
		return b.unk
	case "in":
		return b.In(strings.SplitN(x.s, "|", 2)[0]+"."+name, kind)
	case "ite":
		return b.Ite(b.atom(x.a[0]), b.Fld(x.a[1], name, kind), b.Fld(x.a[2], name, kind))
	}
	t := &T{op: "fld", s: name + "|" + kind, a: []*T{x}}
	b.kindInfo(t, kind)
	return b.raw(t)
}

// ---- rebuilding

func (b *Tab) contains(t, v *T) bool {
	seen := map[*T]bool{}
	var f func(*T) bool
	f = func(x *T) bool {
		if x == v {
			return true
		}
		if len(x.a) == 0 || seen[x] {
			return false
		}
		seen[x] = true
		for _, y := range x.a {
			if f(y) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// units are the conditions that hold or fail whenever c holds.
func (b *Tab) units(c *T) []lit {
	var atoms []*T
	seen := map[*T]bool{}
	var walk func(x *T)
	walk = func(x *T) {
		if x.op != "ite" || seen[x] {
			return
		}
		seen[x] = true
		if !seen[x.a[0]] {
			seen[x.a[0]] = true
			atoms = append(atoms, x.a[0])
		}
		walk(x.a[1])
		walk(x.a[2])
	}
	walk(c)
	if len(atoms) > 200 || len(seen) > 4000 {
		return nil
	}
	// can c hold when the atom has the value?
	can := func(at *T, pos bool) bool {
		memo := map[*T]bool{}
		var f func(x *T) bool
		f = func(x *T) bool {
			if x.op != "ite" {
				return x != b.fal
			}
			if r, ok := memo[x]; ok {
				return r
			}
			r := false
			if x.a[0] == at {
				if pos {
					r = f(x.a[1])
				} else {
					r = f(x.a[2])
				}
			} else {
				r = f(x.a[1]) || f(x.a[2])
			}
			memo[x] = r
			return r
		}
		return f(c)
	}
	var out []lit
	for _, a := range atoms {
		if !can(a, true) {
			out = append(out, lit{a, false})
		} else if !can(a, false) {
			out = append(out, lit{a, true})
		}
	}
	return out
}

// knowing is t where the conditions have the values stated.
func (b *Tab) knowing(t *T, ls []lit) *T {
	if len(ls) == 0 || t.op == "?" {
		return t
	}
	m := map[*T]*T{}
	under, over := map[*T]*big.Int{}, map[*T]*big.Int{} // v < k, not v < k
	for _, l := range ls {
		if l.at.op == "?" || l.at.unk {
			continue
		}
		m[l.at] = b.Bool(l.pos)
		if l.at.op == "lt" && l.at.a[1].op == "k" {
			v, k := l.at.a[0], l.at.a[1].n
			if l.pos {
				if u := under[v]; u == nil || u.Cmp(k) > 0 {
					under[v] = k
				}
			} else if o := over[v]; o == nil || o.Cmp(k) < 0 {
				over[v] = k
			}
		}
	}
	hit := false
	seen := map[*T]bool{}
	var walk func(x *T)
	walk = func(x *T) {
		if seen[x] {
			return
		}
		seen[x] = true
		if _, ok := m[x]; ok {
			hit = true
		} else if x.op == "lt" && x.a[1].op == "k" {
			if u := under[x.a[0]]; u != nil && u.Cmp(x.a[1].n) <= 0 {
				m[x], hit = b.tru, true
			}
			if o := over[x.a[0]]; o != nil && o.Cmp(x.a[1].n) >= 0 {
				m[x], hit = b.fal, true
			}
		}
		for _, y := range x.a {
			walk(y)
		}
	}
	walk(t)
	if !hit {
		return t
	}
	return b.subst(t, m)
}

func (b *Tab) subst(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	var f func(*T) *T
	f = func(x *T) *T {
		if r, ok := m[x]; ok {
			return r
		}
		if len(x.a) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		if x.op == "loop" {
			r := x
			for k := range m {
				if b.contains(x, k) {
					r = b.reLoop(x, m)
					break
				}
			}
			memo[x] = r
			return r
		}
		if x.op == "map" || x.op == "ex" || x.op == "sum" || x.op == "first" {
			n := f(x.a[0])
			touched := false
			for k := range m {
				if b.contains(x.a[1], k) {
					touched = true
					break
				}
			}
			var r *T
			if !touched && n == x.a[0] {
				r = x
			} else {
				v := b.Var()
				body := b.subst(x.a[1], map[*T]*T{b.bvar(x.n): v})
				if touched {
					body = b.subst(body, m)
				}
				switch x.op {
				case "map":
					r = b.Map(n, v, body)
				case "ex":
					r = b.Exists(n, v, body)
				case "first":
					r = b.First(n, v, body)
				default:
					r = b.Sum(n, v, body)
				}
				if x.op == "ex" && r.op == "ite" && r.a[1] == b.tru && r.a[2] == b.fal {
					r = r.a[0]
				}
			}
			memo[x] = r
			return r
		}
		args := make([]*T, len(x.a))
		ch := false
		for i, y := range x.a {
			args[i] = f(y)
			if args[i] != y {
				ch = true
			}
		}
		r := x
		if ch {
			r = b.mk(x.op, x.s, x.n, x.c, args)
		}
		memo[x] = r
		return r
	}
	return f(t)
}

// mk rebuilds a node from its parts through the constructors.
func (b *Tab) mk(op, s string, n *big.Int, c []*big.Int, a []*T) *T {
	switch op {
	case "t":
		return b.tru
	case "f":
		return b.fal
	case "nil":
		return b.null
	case "?":
		return b.unk
	case "k":
		return b.Kb(n)
	case "b":
		return b.Bytes(s)
	case "in":
		i := strings.LastIndex(s, "|")
		return b.In(s[:i], s[i+1:])
	case "lin":
		return b.Lin(n, a, c)
	case "uint":
		return b.Uint(s, a[0])
	case "mul":
		return b.Mul(a[0], a[1])
	case "tr":
		return b.Trunc(int(n.Int64()), a[0])
	case "sx":
		return b.Signed(int(n.Int64()), a[0])
	case "lane":
		return b.Lane(a[0], n.Int64())
	case "shr":
		return b.Shr(a[0], n.Int64())
	case "and":
		return b.And(a[0], a[1])
	case "or":
		return b.Or(a[0], a[1])
	case "le", "be":
		if n.Int64() == 1 {
			return b.Byte(a[0])
		}
		return b.Enc(op, n.Int64(), a[0])
	case "cat":
		return b.Cat(a...)
	case "len":
		return b.Len(a[0])
	case "sub":
		return b.Sub(a[0], a[1], a[2])
	case "zeros":
		return b.Zeros(a[0])
	case "at":
		return b.atKind(a[0], a[1], s)
	case "set":
		return b.Set(a[0], a[1], a[2], s == "y")
	case "rev":
		return b.Rev(a[0])
	case "ite":
		return b.Ite(b.atom(a[0]), a[1], a[2])
	case "eq":
		return b.Eq(a[0], a[1])
	case "lt":
		return b.Lt(a[0], a[1])
	case "isnil":
		return b.Eq(a[0], b.null)
	case "fld":
		i := strings.LastIndex(s, "|")
		return b.Fld(a[0], s[:i], s[i+1:])
	case "rec":
		return b.Rec(strings.Split(s, ","), a)
	case "loop":
		t := &T{op: op, s: s, n: n, a: a}
		return b.reLoop(t, nil)
	case "map", "ex", "sum", "first":
		v := b.Var()
		body := b.subst(a[1], map[*T]*T{b.bvar(n): v})
		switch op {
		case "map":
			return b.Map(a[0], v, body)
		case "ex":
			return b.Exists(a[0], v, body)
		case "first":
			return b.First(a[0], v, body)
		}
		return b.Sum(a[0], v, body)
	case "mu":
		return b.raw(&T{op: op, s: s, n: n, a: a, mu: true, sort: 's'})
	case "div":
		return b.Div(a[0], a[1])
	case "rem":
		return b.Rem(a[0], a[1])
	case "xor":
		return b.Xor(a[0], a[1])
	case "shl", "shrv":
		return b.op(op, 'i', a...)
	case "lower":
		return b.Lower(a[0])
	case "fails":
		return b.Fails(s, a...)
	case "bv":
		return b.raw(&T{op: "bv", n: n, sort: 'i', lo: zero})
	case "padl":
		return b.Padl(n.Int64(), a[0])
	case "elt":
		return b.op1("elt", 's', a...)
	case "tup":
		return b.raw(&T{op: "tup", a: a})
	case "hash":
		return b.Hash(s, a...)
	case "cmp":
		return b.Cmp(a[0], a[1])
	case "fixlen":
		return b.raw(&T{op: op, n: n, a: a, sort: 's'})
	case "lv":
		t := &T{op: op, s: s, n: n, a: a, sort: 's'}
		return b.raw(t)
	case "u":
		return b.raw(&T{op: "u", n: n, sort: 'b', unk: true})
	case "minbe":
		return b.MinBE(a[0])
	case "hexe":
		return b.Hexe(a[0])
	case "hexd":
		return b.Hexd(a[0])
	}
	for _, x := range a {
		if x.op == "?" && op != "fn" && op != "elt" && op != "adr" && op != "ifc" {
			return b.unk
		}
	}
	t := &T{op: op, s: s, n: n, a: a, sort: opSort(op, s)}
	if t.sort == 'i' {
		opRange(t)
	}
	return b.raw(t)
}

// ops whose node carries a binder height in n
func init() {}

func opSort(op, s string) byte {
	switch op {
	case "x":
		i := strings.LastIndex(s, "|")
		if i >= 0 && i+1 < len(s) {
			return sortOfKind(s[i+1:])
		}
	case "fn":
		i := strings.LastIndex(s, "|")
		if i >= 0 && i+1 < len(s) {
			return sortOfKind(s[i+1:])
		}
	case "sig":
		return 's'
	case "slt":
		return 'b'
	}
	return 0
}

func sortOfKind(k string) byte {
	switch {
	case k == "":
		return 0
	case k == "s", k == "l":
		return 's'
	case k == "b":
		return 'b'
	}
	return 'i'
}

func opRange(t *T) {
	i := strings.LastIndex(t.s, "|")
	if i >= 0 {
		(&Tab{}).kindInfo(t, t.s[i+1:])
	}
}

// padTo: p is so many zero bytes that p and x together have a fixed width.
func (b *Tab) padTo(p, x *T) int64 {
	if p.sort != 's' || x.op == "?" || x.op == "elt" || x.op == "b" {
		return 0
	}
	switch p.op {
	case "sub":
		if p.a[0].op != "b" || strings.Trim(p.a[0].s, "\x00") != "" {
			return 0
		}
	case "map":
		if p.a[1].op != "b" || p.a[1].s != "\x00" {
			return 0
		}
	default:
		return 0
	}
	if w, ok := kOf(b.Add(b.Len(p), b.Len(x))); ok && w > 0 && w <= 256 {
		return w
	}
	return 0
}

func (b *Tab) Padl(k int64, x *T) *T {
	if x.op == "?" {
		return x
	}
	if n, ok := kOf(b.Len(x)); ok {
		if n >= k {
			return x
		}
		return b.Cat(b.Bytes(strings.Repeat("\x00", int(k-n))), x)
	}
	if x.op == "padl" && x.n.Int64() <= k {
		return b.Padl(k, x.a[0])
	}
	if x.op == "ite" {
		return b.Ite(b.atom(x.a[0]), b.Padl(k, x.a[1]), b.Padl(k, x.a[2]))
	}
	return b.raw(&T{op: "padl", n: big.NewInt(k), a: []*T{x}, sort: 's'})
}

func (b *Tab) MinBE(x *T) *T {
	if x.op == "?" {
		return x
	}
	if x.op == "k" && x.n.Sign() >= 0 {
		return b.Bytes(string(x.n.Bytes()))
	}
	return b.raw(&T{op: "minbe", a: []*T{x}, sort: 's'})
}

func (b *Tab) Hash(alg string, a ...*T) *T {
	for _, x := range a {
		if x.op == "?" {
			return b.unk
		}
	}
	// compositions
	if len(a) == 1 && a[0].op == "hash" && len(a[0].a) == 1 {
		switch alg + "/" + a[0].s {
		case "sha256/sha256":
			return b.Hash("dsha256", a[0].a[0])
		case "ripemd160/sha256":
			return b.Hash("h160", a[0].a[0])
		}
	}
	return b.raw(&T{op: "hash", s: alg, a: a, sort: 's'})
}

func (b *Tab) Cmp(x, y *T) *T {
	if x.op == "?" || y.op == "?" {
		return b.unk
	}
	if x.op == "k" && y.op == "k" {
		return b.K(int64(x.n.Cmp(y.n)))
	}
	return b.raw(&T{op: "cmp", a: []*T{x, y}, sort: 'i', lo: big.NewInt(-1), hi: one})
}

func (b *Tab) Hexe(x *T) *T {
	switch x.op {
	case "?":
		return x
	case "b":
		return b.Bytes(fmt.Sprintf("%x", x.s))
	case "hexd":
		// the canonical spelling of the same digits
		return b.Lower(x.a[0])
	case "cat":
		var out []*T
		for _, e := range x.a {
			out = append(out, b.Hexe(e))
		}
		return b.Cat(out...)
	case "ite":
		return b.Ite(b.atom(x.a[0]), b.Hexe(x.a[1]), b.Hexe(x.a[2]))
	}
	return b.op("hexe", 's', x)
}

func (b *Tab) Hexd(x *T) *T {
	switch x.op {
	case "?":
		return x
	case "hexe":
		return x.a[0]
	case "cat":
		ok := true
		var out []*T
		for _, e := range x.a {
			if e.op == "hexe" || (e.op == "b" && isHex(e.s) && len(e.s)%2 == 0) {
				out = append(out, b.Hexd(e))
			} else {
				ok = false
			}
		}
		if ok {
			return b.Cat(out...)
		}
	case "b":
		if isHex(x.s) && len(x.s)%2 == 0 {
			by := make([]byte, len(x.s)/2)
			fmt.Sscanf(x.s, "%x", &by)
			return b.Bytes(string(by))
		}
	case "ite":
		return b.Ite(b.atom(x.a[0]), b.Hexd(x.a[1]), b.Hexd(x.a[2]))
	}
	return b.op("hexd", 's', x)
}

func isHex(s string) bool {
	for i := 0; i < len(s); i++ {
		if !strings.ContainsRune("0123456789abcdefABCDEF", rune(s[i])) {
			return false
		}
	}
	return true
}

// String prints a term (for messages).
func (t *T) String() string {
	var sb strings.Builder
	t.print(&sb, 0)
	s := sb.String()
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

func (t *T) print(w *strings.Builder, d int) {
	if w.Len() > 6000 {
		return
	}
	args := func(sep string, a []*T) {
		for i, x := range a {
			if i > 0 {
				w.WriteString(sep)
			}
			x.print(w, d+1)
		}
	}
	switch t.op {
	case "k":
		if t.n.BitLen() > 64 {
			fmt.Fprintf(w, "0x%x", t.n)
		} else {
			fmt.Fprintf(w, "%s", t.n)
		}
	case "b":
		pr := true
		for i := 0; i < len(t.s); i++ {
			if t.s[i] < 32 || t.s[i] > 126 {
				pr = false
			}
		}
		if pr {
			fmt.Fprintf(w, "%q", t.s)
		} else {
			fmt.Fprintf(w, "x%x", t.s)
		}
	case "in":
		w.WriteString(t.s[:strings.LastIndex(t.s, "|")])
	case "lin":
		w.WriteString("(")
		for i, x := range t.a {
			if i > 0 {
				w.WriteString(" + ")
			}
			if t.c[i].Cmp(one) != 0 {
				fmt.Fprintf(w, "%s*", t.c[i])
			}
			x.print(w, d+1)
		}
		if t.n.Sign() != 0 {
			fmt.Fprintf(w, " + %s", t.n)
		}
		w.WriteString(")")
	case "le", "be", "tr", "sx", "lane", "shr", "padl":
		fmt.Fprintf(w, "%s%s(", t.op, t.n)
		args(", ", t.a)
		w.WriteString(")")
	case "cat":
		w.WriteString("[")
		args(" · ", t.a)
		w.WriteString("]")
	case "ite":
		if t.a[1].op == "t" && t.a[2].op == "f" {
			t.a[0].print(w, d+1)
			return
		}
		if t.a[1].op == "f" && t.a[2].op == "t" {
			w.WriteString("!")
			t.a[0].print(w, d+1)
			return
		}
		w.WriteString("{")
		t.a[0].print(w, d+1)
		w.WriteString(" ? ")
		t.a[1].print(w, d+1)
		w.WriteString(" : ")
		t.a[2].print(w, d+1)
		w.WriteString("}")
	case "eq":
		t.a[0].print(w, d+1)
		w.WriteString("==")
		t.a[1].print(w, d+1)
	case "lt":
		t.a[0].print(w, d+1)
		w.WriteString("<")
		t.a[1].print(w, d+1)
	case "at":
		t.a[0].print(w, d+1)
		w.WriteString("[")
		t.a[1].print(w, d+1)
		w.WriteString("]")
	case "sub":
		t.a[0].print(w, d+1)
		w.WriteString("[")
		t.a[1].print(w, d+1)
		w.WriteString(";")
		t.a[2].print(w, d+1)
		w.WriteString("]")
	case "fld":
		t.a[0].print(w, d+1)
		w.WriteString("." + t.s[:strings.LastIndex(t.s, "|")])
	case "bv":
		fmt.Fprintf(w, "i%s", t.n)
	case "mu", "var", "u":
		fmt.Fprintf(w, "%s%s", t.op, t.n)
	case "rec":
		w.WriteString("<")
		for i, n := range strings.Split(t.s, ",") {
			if i > 0 {
				w.WriteString(" ")
			}
			w.WriteString(n + ":")
			t.a[i].print(w, d+1)
		}
		w.WriteString(">")
	case "t", "f", "nil", "?":
		w.WriteString(t.op)
	default:
		w.WriteString(t.op)
		if t.s != "" {
			w.WriteString(":" + t.s)
		}
		w.WriteString("(")
		args(", ", t.a)
		w.WriteString(")")
	}
}

func (b *Tab) bvar(h *big.Int) *T { return b.raw(&T{op: "bv", n: h, sort: 'i', lo: zero}) }

// unsorted: what holds of all elements of a sorted sequence, or is added up over them, does not depend on their order.
func (b *Tab) unsorted(body, v, n *T) *T {
	var src *T
	ok := true
	m := map[*T]*T{}
	seen := map[*T]bool{}
	var f func(t *T)
	f = func(t *T) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		if t == v {
			ok = false
			return
		}
		if t.op == "at" && t.a[1] == v {
			s := t.a[0]
			if s.op != "x" || !strings.HasPrefix(s.s, "sort.S") || len(s.a) != 1 || s.a[0].op != "ifc" || src != nil && src != s {
				ok = false
				return
			}
			src = s
			m[t] = b.atKind(s.a[0].a[0], v, t.s)
			f(s)
			return
		}
		for _, x := range t.a {
			f(x)
		}
	}
	f(body)
	if !ok || src == nil || b.Len(src) != n {
		return body
	}
	return b.subst(body, m)
}

// Sum is the sum of body for v = 0 .. n-1.
func (b *Tab) Sum(n, v, body *T) *T {
	if n.op == "?" || body.op == "?" {
		return b.unk
	}
	body = b.unsorted(b.below(body, v, n), v, n)
	if !b.contains(body, v) {
		return b.Mul(n, body)
	}
	if k, ok := kOf(n); ok && k <= 72 {
		r := b.K(0)
		for i := int64(0); i < k; i++ {
			r = b.Add(r, b.subst(body, map[*T]*T{v: b.K(i)}))
		}
		return r
	}
	h := body.bv + 1
	body = b.subst(body, map[*T]*T{v: b.bvar(big.NewInt(int64(h)))})
	if body.op == "?" {
		return body
	}
	return b.raw(&T{op: "sum", n: big.NewInt(int64(h)), a: []*T{n, body}, bv: h, sort: 'i'})
}

// Restrict simplifies f where care holds.
func (b *Tab) Restrict(f, care *T) *T {
	if care == b.tru || care == b.fal || f.op != "ite" || care.op != "ite" {
		return f
	}
	type key struct{ f, c *T }
	memo := map[key]*T{}
	var rec func(f, c *T) *T
	rec = func(f, c *T) *T {
		b.tick()
		if c == b.tru || c == b.fal || f.op != "ite" || c.op != "ite" {
			return f
		}
		if r, ok := memo[key{f, c}]; ok {
			return r
		}
		var r *T
		at := c.a[0]
		switch {
		case f.a[0].id < at.id:
			r = b.Ite(b.atom(f.a[0]), rec(f.a[1], c), rec(f.a[2], c))
		case f.a[0] == at:
			if c.a[1] == b.fal {
				r = rec(f.a[2], c.a[2])
			} else if c.a[2] == b.fal {
				r = rec(f.a[1], c.a[1])
			} else {
				r = b.Ite(b.atom(at), rec(f.a[1], c.a[1]), rec(f.a[2], c.a[2]))
			}
		default:
			if c.a[1] == b.fal {
				r = rec(f, c.a[2])
			} else if c.a[2] == b.fal {
				r = rec(f, c.a[1])
			} else {
				r = rec(f, b.OrB(c.a[1], c.a[2]))
			}
		}
		memo[key{f, c}] = r
		return r
	}
	return rec(f, care)
}

func (b *Tab) Lower(x *T) *T {
	switch x.op {
	case "lower", "hexe":
		return x
	case "b":
		return b.Bytes(strings.ToLower(x.s))
	case "cat":
		var out []*T
		for _, e := range x.a {
			out = append(out, b.Lower(e))
		}
		return b.Cat(out...)
	}
	return b.op("lower", 's', x)
}

// Fails: the named operation reports an error on the operands.
func (b *Tab) Fails(name string, a ...*T) *T {
	for _, x := range a {
		if x.op == "?" {
			return b.unkAtom()
		}
	}
	if name == "hexd" && (a[0].op == "hexe" || a[0].op == "b" && isHex(a[0].s) && len(a[0].s)%2 == 0) {
		return b.fal
	}
	return b.atom(b.raw(&T{op: "fails", s: name, a: a, sort: 'b'}))
}
