package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var hashAlg = map[string]string{
	"HASH_ALG_SHA1": "sha1", "HASH_ALG_SHA3_256": "sha3_256", "HASH_ALG_SHA256": "sha256", "HASH_ALG_SHA512": "sha512", "HASH_ALG_MD4": "md4", "HASH_ALG_MD5": "md5",
	"HASH_ALG_RIPEMD160": "ripemd160", "HASH_ALG_BLAKE2B": "blake2b", "HASH_ALG_BLAKE2S": "blake2s", "HASH_ALG_SM3": "sm3", "HASh_ALG_DOUBLE_SHA256": "dsha256", "HASH_ALG_DOUBLE_SHA256": "dsha256",
	"HASH_ALG_HASH160": "h160", "HASH_ALG_BLAKE256": "blake256", "HASH_ALG_BLAKE512": "blake512", "HASH_ALG_KECCAK256": "keccak256", "HASH_ALG_KECCAK512": "keccak512",
	"HASH_ALG_KECCAK256_RIPEMD160": "keccak256_ripemd160", "HASH_ALG_SHA3_256_RIPEMD160": "sha3_256_ripemd160", "HASH_ALG_SHA3_512": "sha3_512",
}

func (c *Ctx) hashName(k int64) string {
	c.algOnce.Do(func() {
		c.algs = map[int64]string{}
		for _, p := range c.Pkgs {
			for _, imp := range p.Types.Imports() {
				if imp.Path() == owcryptPath {
					for _, n := range imp.Scope().Names() {
						if strings.HasPrefix(strings.ToUpper(n), "HASH_ALG") {
							if v, ok := c.owcryptConst(n); ok {
								nm := hashAlg[n]
								if nm == "" {
									nm = strings.ToLower(strings.TrimPrefix(strings.ToUpper(n), "HASH_ALG_"))
								}
								c.algs[v] = nm
							}
						}
					}
				}
			}
		}
	})
	if s, ok := c.algs[k]; ok {
		return s
	}
	return "alg" + big.NewInt(k).String()
}

var pureExt = map[string]bool{
	"strings": true, "strconv": true, "encoding/hex": true, "encoding/base64": true, "encoding/base32": true, "fmt": true, "unicode/utf8": true, "unicode": true, "math": true,
	owcryptPath: true, "regexp": true, "math/bits": true, "bytes": true, "encoding/json": true, "github.com/tidwall/gjson": true, "time": true,
}

func (e *VG) external(call *ssa.Call, cc *ssa.CallCommon, args []*T, m vmem) *T {
	b := e.b
	pkg, name := calleeID(call)
	ts := resTypes(cc)
	for i, a := range args {
		// a nil interface or slice reads as empty
		_ = i
		_ = a
	}
	seq := func(i int) *T {
		t := argType(cc, i)
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return args[i]
		}
		return e.pure(m, e.content(m, args[i]), 0)
	}
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	// integers behind pointers
	big1 := func(i int) *T {
		bi := types.Type(nil)
		if p, ok := argType(cc, i).Underlying().(*types.Pointer); ok {
			bi = p.Elem()
		}
		return e.load(m, args[i], bi)
	}
	setBig := func(v *T) *T {
		p := argType(cc, 0).Underlying().(*types.Pointer)
		e.store(m, args[0], v, p.Elem())
		return args[0]
	}
	switch pkg {
	case "errors", "github.com/pkg/errors", "golang.org/x/xerrors":
		return e.errT
	case "fmt":
		switch name {
		case "Errorf":
			return e.errT
		case "Println", "Printf", "Print":
			return e.tup(b.unk, b.null)
		}
	case "encoding/hex":
		switch name {
		case "DecodeString":
			x := seq(0)
			return e.tup(e.newSlice(bytesT, b.Hexd(x)), b.Ite(b.Fails("hexd", x), e.errT, b.null))
		case "EncodeToString":
			return b.Hexe(seq(0))
		}
	case owcryptPath:
		if name == "Hash" {
			if k, ok := kOf(args[2]); ok {
				alg := e.c.hashName(k)
				n, kk := kOf(args[1])
				_ = n
				_ = kk
				d := seq(0)
				a := []*T{d}
				if args[1].op != "nil" {
					if t := argType(cc, 1); kindOf(t) == "s" {
						if c := e.content(m, args[1]); c != b.eps {
							a = append(a, c)
						}
					} else if z, ok := kOf(args[1]); !ok || z != 0 {
						a = append(a, args[1])
					}
				}
				return e.newSlice(bytesT, b.Hash(alg, a...))
			}
		}
	case "bytes":
		switch name {
		case "Equal":
			return b.Eq(seq(0), seq(1))
		case "Compare":
			return b.Cmp(seq(0), seq(1))
		case "HasPrefix":
			return e.hasPrefix(seq(0), seq(1))
		case "HasSuffix":
			return e.hasSuffix(seq(0), seq(1))
		case "Index":
			return e.index(seq(0), seq(1))
		case "Contains":
			return b.Not(b.Eq(e.index(seq(0), seq(1)), b.K(-1)))
		case "NewBuffer", "NewBufferString":
			p := ts[0].(*types.Pointer).Elem()
			return e.adr(e.newObj(p, seq(0)))
		case "Join":
			if l := seq(0); l.op == "cat" || l.op == "elt" {
				sep := seq(1)
				var out []*T
				for i, x := range elems(l) {
					if x.op != "elt" {
						return e.unknown("bytes.Join")
					}
					if i > 0 {
						out = append(out, sep)
					}
					out = append(out, x.a[0])
				}
				return e.newSlice(bytesT, b.Cat(out...))
			}
		}
		if strings.HasPrefix(name, "Buffer.") {
			return e.buffer(strings.TrimPrefix(name, "Buffer."), args, m, cc)
		}
	case "strings":
		if strings.HasPrefix(name, "Builder.") {
			return e.buffer(strings.TrimPrefix(name, "Builder."), args, m, cc)
		}
		switch name {
		case "HasPrefix":
			return e.hasPrefix(args[0], args[1])
		case "HasSuffix":
			return e.hasSuffix(args[0], args[1])
		case "Index":
			return e.index(args[0], args[1])
		case "Contains":
			return b.Not(b.Eq(e.index(args[0], args[1]), b.K(-1)))
		case "TrimSuffix":
			return b.Ite(e.hasSuffix(args[0], args[1]), b.Sub(args[0], b.K(0), b.SubI(b.Len(args[0]), b.Len(args[1]))), args[0])
		case "ToLower":
			return b.Lower(args[0])
		case "EqualFold":
			return b.Eq(b.Lower(args[0]), b.Lower(args[1]))
		case "TrimPrefix":
			return b.Ite(e.hasPrefix(args[0], args[1]), b.Sub(args[0], b.Len(args[1]), b.SubI(b.Len(args[0]), b.Len(args[1]))), args[0])
		case "Repeat":
			return b.Map(args[1], b.Var(), args[0])
		}
	case "encoding/binary":
		return e.binary(name, args, m, cc, seq)
	case "math/big":
		switch name {
		case "NewInt":
			p := ts[0].(*types.Pointer).Elem()
			return e.adr(e.newObj(p, args[0]))
		case "Int.SetBytes":
			return setBig(b.Uint("be", seq(1)))
		case "Int.SetUint64", "Int.SetInt64":
			return setBig(args[1])
		case "Int.Set":
			return setBig(big1(1))
		case "Int.Cmp":
			x, y := big1(0), big1(1)
			return b.Cmp(x, y)
		case "Int.Sign":
			return b.Cmp(big1(0), b.K(0))
		case "Int.Bytes":
			return e.newSlice(bytesT, b.MinBE(big1(0)))
		case "Int.FillBytes":
			n := b.Len(seq(1))
			if k, ok := kOf(n); ok {
				e.write(m, args[1], b.K(0), b.Padl(k, b.MinBE(big1(0))), n, bytesT)
			} else {
				e.write(m, args[1], b.K(0), b.unk, n, bytesT)
			}
			return args[1]
		case "Int.Add":
			return setBig(b.Add(big1(1), big1(2)))
		case "Int.Sub":
			return setBig(b.SubI(big1(1), big1(2)))
		case "Int.Mul":
			return setBig(b.Mul(big1(1), big1(2)))
		case "Int.Mod":
			return setBig(b.op("mod", 'i', big1(1), big1(2)))
		case "Int.Div", "Int.Quo":
			return setBig(b.op("bdiv", 'i', big1(1), big1(2)))
		case "Int.Neg":
			return setBig(b.MulK(big1(1), big.NewInt(-1)))
		case "Int.BitLen":
			return b.op("bitlen", 'i', big1(0))
		case "Int.Int64", "Int.Uint64":
			return e.wrap(big1(0), ts[0])
		case "Int.Lsh":
			if k, ok := kOf(args[2]); ok {
				return setBig(b.MulK(big1(1), new(big.Int).Lsh(one, uint(k))))
			}
		case "Int.Rsh":
			if k, ok := kOf(args[2]); ok {
				return setBig(b.Shr(big1(1), k))
			}
		case "Int.SetString":
			if k, ok := kOf(args[2]); ok && args[1].op == "b" {
				if v, ok := new(big.Int).SetString(args[1].s, int(k)); ok {
					return e.tup(setBig(b.Kb(v)), b.tru)
				}
			}
			r := setBig(b.mk("x", "big.SetString|z", nil, nil, args[1:]))
			return e.tup(r, b.Not(b.Fails("big.SetString", args[1:]...)))
		case "Int.String", "Int.Text":
			return b.mk("x", "big.Text|s", nil, nil, append([]*T{big1(0)}, args[1:]...))
		}
		if len(args) > 0 && len(ts) == 1 && strings.HasPrefix(name, "Int.") {
			if _, ok := ts[0].(*types.Pointer); ok {
				var as []*T
				for i := 1; i < len(args); i++ {
					if _, ok := argType(cc, i).Underlying().(*types.Pointer); ok && args[i].op != "nil" {
						as = append(as, big1(i))
					} else {
						as = append(as, e.pureVal(m, args[i]))
					}
				}
				return setBig(b.mk("x", "big."+name+"|z", nil, nil, as))
			}
		}
		return e.extOpaque(pkg, name, cc, args, m)
	case "crypto/sha256", "crypto/sha512", "crypto/sha1", "golang.org/x/crypto/ripemd160", "golang.org/x/crypto/sha3":
		alg := pkg[strings.LastIndex(pkg, "/")+1:]
		switch name {
		case "New":
			return e.adr(e.newObj(types.Typ[types.Invalid], b.raw(&T{op: "hst", s: alg, a: []*T{b.eps}})))
		case "Sum256", "Sum512":
			return b.Hash(alg, seq(0))
		}
	case "crypto/hmac":
		switch name {
		case "New":
			alg := "?"
			if args[0].op == "func" {
				alg = args[0].s[strings.LastIndex(strings.TrimSuffix(args[0].s, ".New"), "/")+1:]
				alg = strings.TrimSuffix(alg, ".New")
			}
			return e.adr(e.newObj(types.Typ[types.Invalid], b.raw(&T{op: "hst", s: "hmac-" + alg, a: []*T{b.eps, seq(1)}})))
		case "Equal":
			return b.Eq(seq(0), seq(1))
		}
	case "io", "hash":
		if cc.IsInvoke() && args[0].op == "adr" {
			id := int(args[0].n.Int64())
			h := e.get(m, id)
			if h.op == "hst" {
				switch name {
				case "Write":
					d := e.pure(m, e.content(m, args[1]), 0)
					as := append([]*T{b.Cat(h.a[0], d)}, h.a[1:]...)
					m[id] = b.raw(&T{op: "hst", s: h.s, a: as})
					return e.tup(b.Len(d), b.null)
				case "Sum":
					r := b.Hash(h.s, h.a...)
					p := e.content(m, args[1])
					return e.newSlice(bytesT, b.Cat(p, r))
				case "Reset":
					as := append([]*T{b.eps}, h.a[1:]...)
					m[id] = b.raw(&T{op: "hst", s: h.s, a: as})
					return b.unk
				case "Size", "BlockSize":
					return b.unk
				}
			}
		}
	case "crypto/rand":
		if name == "Read" {
			n := e.length(m, args[0])
			e.write(m, args[0], b.K(0), b.Sub(b.mk("x", "rand|s", nil, nil, []*T{n}), b.K(0), n), n, bytesT)
			return e.tup(n, b.Ite(b.Fails("rand.Read"), e.errT, b.null))
		}
	case "encoding/json":
		if name == "Unmarshal" && args[1].op == "ifc" && args[1].a[0].op == "adr" {
			d := seq(0)
			p := args[1].a[0]
			o := e.objs[p.n.Int64()]
			_, t := e.getPath(e.get(m, o.id), o.typ, p.a)
			e.store(m, p, b.mk("x", "json.Unmarshal|"+kindOf(t), nil, nil, []*T{d}), t)
			return b.Ite(b.Fails("json.Unmarshal", d), e.errT, b.null)
		}
	case "github.com/tendermint/go-amino":
		// a codec is not changed by using it
		n := strings.TrimPrefix(name, "Codec.")
		if strings.HasPrefix(n, "Unmarshal") && len(args) == 3 && args[2].op == "ifc" && args[2].a[0].op == "adr" {
			d := seq(1)
			p := args[2].a[0]
			o := e.objs[p.n.Int64()]
			_, t := e.getPath(e.get(m, o.id), o.typ, p.a)
			e.store(m, p, b.mk("x", "amino."+n+"|"+kindOf(t), nil, nil, []*T{d}), t)
			return b.Ite(b.Fails("amino."+n, d), e.errT, b.null)
		}
	}
	return e.extOpaque(pkg, name, cc, args, m)
}

// extOpaque: an uninterpreted function of the operands.
func (e *VG) extOpaque(pkg, name string, cc *ssa.CallCommon, args []*T, m vmem) *T {
	e.why["ext "+pkg+"."+name]++
	short := pkg[strings.LastIndex(pkg, "/")+1:]
	return e.opaqueCall("x", short+"."+name, args, argTypes(cc, len(args)), resTypes(cc), func(i int) int {
		w := false
		if cc.IsInvoke() {
			w = i == 0 || e.extWrites(pkg, name, i-1, argType(cc, i))
		} else {
			w = e.extWrites(pkg, name, i, argType(cc, i))
		}
		if w {
			return 3
		}
		return 0
	}, m)
}

func argType(cc *ssa.CallCommon, i int) types.Type {
	if cc.IsInvoke() {
		if i == 0 {
			return cc.Value.Type()
		}
		return cc.Args[i-1].Type()
	}
	return cc.Args[i].Type()
}

func (e *VG) hasPrefix(x, y *T) *T { return e.b.hasPrefix(x, y) }

func (e *VG) hasSuffix(x, y *T) *T {
	b := e.b
	if x.op == "?" || y.op == "?" {
		return b.unkAtom()
	}
	n := b.Len(y)
	return b.AndB(b.Not(b.Lt(b.Len(x), n)), b.Eq(b.Sub(x, b.SubI(b.Len(x), n), n), y))
}

const indexFn = "strings.Index#0|i64"

func (e *VG) index(x, y *T) *T {
	if x.op == "?" || y.op == "?" {
		return e.b.unk
	}
	return e.b.mk("x", indexFn, nil, nil, []*T{x, y})
}

func (b *Tab) hasPrefix(x, y *T) *T {
	if x.op == "?" || y.op == "?" {
		return b.unkAtom()
	}
	n := b.Len(y)
	return b.AndB(b.Not(b.Lt(b.Len(x), n)), b.Eq(b.Sub(x, b.K(0), n), y))
}

func (e *VG) buffer(name string, args []*T, m vmem, cc *ssa.CallCommon) *T {
	b := e.b
	p := argType(cc, 0).Underlying().(*types.Pointer)
	cur := e.load(m, args[0], p.Elem())
	put := func(x *T) *T {
		e.store(m, args[0], b.Cat(cur, x), p.Elem())
		return b.Len(x)
	}
	switch name {
	case "Write":
		return e.tup(put(e.pure(m, e.content(m, args[1]), 0)), b.null)
	case "WriteString":
		return e.tup(put(args[1]), b.null)
	case "WriteByte":
		put(b.Byte(args[1]))
		return b.null
	case "WriteRune":
		if k, ok := kOf(args[1]); ok && k < 128 {
			put(b.Byte(args[1]))
		} else {
			put(b.unk)
		}
		return e.tup(b.unk, b.null)
	case "String":
		return cur
	case "Bytes":
		return e.newSlice(types.NewSlice(types.Typ[types.Uint8]), cur)
	case "Len":
		return b.Len(cur)
	case "Grow":
		return b.unk
	case "Reset":
		e.store(m, args[0], b.eps, p.Elem())
		return b.unk
	}
	return e.extOpaque("bytes", "Buffer."+name, cc, args, m)
}

func (e *VG) binary(name string, args []*T, m vmem, cc *ssa.CallCommon, seq func(int) *T) *T {
	b := e.b
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	end := "be"
	if strings.HasPrefix(name, "littleEndian") {
		end = "le"
	}
	op := name[strings.LastIndex(name, ".")+1:]
	var w int64
	switch {
	case strings.HasSuffix(op, "16"):
		w = 2
	case strings.HasSuffix(op, "32"):
		w = 4
	case strings.HasSuffix(op, "64"):
		w = 8
	}
	switch {
	case strings.HasPrefix(op, "PutUint") && w > 0:
		x := args[2]
		d := b.unk
		if x.op != "?" {
			d = b.Enc(end, w, x)
		}
		e.write(m, args[1], b.K(0), d, b.K(w), bytesT)
		return b.unk
	case strings.HasPrefix(op, "AppendUint") && w > 0:
		return e.newSlice(bytesT, b.Cat(seq(1), b.Enc(end, w, args[2])))
	case strings.HasPrefix(op, "Uint") && w > 0:
		return b.Uint(end, b.Sub(seq(1), b.K(0), b.K(w)))
	case op == "PutUvarint":
		x := b.mk("x", "uvarint|s", nil, nil, []*T{args[1]})
		n := b.Len(x)
		e.write(m, args[0], b.K(0), x, n, bytesT)
		return n
	case op == "Uvarint":
		return e.opaque("x", "uvarintd", []*T{seq(0)}, resTypes(cc))
	}
	return e.extOpaque("binary", name, cc, args, m)
}
