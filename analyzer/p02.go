package main

import (
	"encoding/hex"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P02"] = p02 }

// signal is a value by which a call reports failure.
type signal struct {
	call *ssa.Call
	kind string    // "error", "status"
	val  ssa.Value // nil: the result is discarded
	what string
}

func errResultIdx(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErr(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func (c *Ctx) signals(f *ssa.Function) []signal { return c.allSignals(f, false) }

// allSignals: with harmless set, also the calls that provably cannot fail where they are.
func (c *Ctx) allSignals(f *ssa.Function, harmless bool) []signal {
	var out []signal
	calls(f, func(ci ssa.CallInstruction) {
		call, ok := ci.(*ssa.Call)
		if !ok {
			return
		}
		sig := call.Call.Signature()
		pkg, name := calleeID(call)
		idx, kind := errResultIdx(sig), "error"
		if idx < 0 {
			if pkg != owcryptPath || name == "Verify" { // Verify: P01
				return
			}
			for i := 0; i < sig.Results().Len(); i++ {
				if b, ok := sig.Results().At(i).Type().(*types.Basic); ok && b.Kind() == types.Uint16 {
					idx, kind = i, "status"
				}
			}
			if idx < 0 {
				return
			}
		}
		if neverFails(pkg, name) || !harmless && c.cannotFail(call, idx, kind) {
			return
		}
		s := signal{call: call, kind: kind, what: calleeLabel(call)}
		if sig.Results().Len() == 1 {
			if len(*call.Referrers()) > 0 {
				s.val = call
			}
		} else {
			for _, r := range *call.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == idx && len(*e.Referrers()) > 0 {
					s.val = e
				}
			}
		}
		out = append(out, s)
	})
	return out
}

func calleeLabel(call ssa.CallInstruction) string {
	if f := call.Common().StaticCallee(); f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
		return FName(f)
	}
	p, n := calleeID(call)
	return p[strings.LastIndex(p, "/")+1:] + "." + n
}

// neverFails: library calls whose error is nil by contract or has no bearing on the result, and constructors of errors.
func neverFails(pkg, name string) bool {
	switch pkg {
	case "fmt":
		return true
	case "errors":
		return true
	case "bytes", "strings", "hash", "crypto/sha256", "crypto/sha512":
		return strings.Contains(name, "Write")
	case "io":
		return name == "Write" || name == "WriteString"
	}
	if strings.HasSuffix(name, ".Write") || name == "Write" { // hash.Hash.Write never returns an error
		return true
	}
	return false
}

// constOK: the value a status has on success.
func (c *Ctx) statusSuccess(k ssa.Value) bool {
	v, ok := constInt(k)
	if !ok {
		return false
	}
	s, ok2 := c.owcryptConst("SUCCESS")
	return ok2 && s == v
}

type sigState struct {
	b      *ssa.BasicBlock
	from   *ssa.BasicBlock
	failed int // 0 unknown, 1 known failed
	alias  ssa.Value
}

// unreported finds a path on which the failure of the signal is not reported: a return that may
// mean success reached while the signal is untested or known to be a failure.
func (c *Ctx) unreported(f *ssa.Function, s signal) (ret *ssa.Return, how string) {
	fail := failingReturns(f)
	start := s.call.Block()
	type key struct {
		b      *ssa.BasicBlock
		failed int
		alias  ssa.Value
		facts  string
	}
	seen := map[key]bool{}
	type item struct {
		b      *ssa.BasicBlock
		idx    int
		failed int
		alias  ssa.Value // the value that carries the signal now
		conds  map[ssa.Value]bool
		phis   map[ssa.Value]ssa.Value
	}
	work := []item{{start, indexOf(start, s.call) + 1, 0, s.val, map[ssa.Value]bool{}, nil}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		last := lastInstr(w.b)
		switch x := last.(type) {
		case *ssa.Return:
			if fail[x] || c.deadReturn(f, x) {
				continue
			}
			if s.val != nil && consumed(s.val, w.b) {
				continue
			}
			// is the signal itself what is returned?
			if w.alias != nil && returnsSignal(x, w.alias) {
				continue
			}
			if zeroReturn(x) && errResultIdx(f.Signature) < 0 {
				continue // an empty result is how this function reports failure
			}
			if w.failed == 1 {
				return x, "reports success although " + s.what + " is known to have failed"
			}
			return x, "reports success without looking at the outcome of " + s.what
		case *ssa.Panic:
			continue
		}
		for i, succ := range w.b.Succs {
			failed, alias := w.failed, w.alias
			conds := w.conds
			if iff, ok := last.(*ssa.If); ok {
				if v, known := conds[iff.Cond]; known && v != (i == 0) {
					continue
				}
				nc := map[ssa.Value]bool{}
				for k, v := range conds {
					nc[k] = v
				}
				nc[iff.Cond] = i == 0
				conds = nc
				if failed == 1 && c.fallbackOK(iff.Cond, i == 0, s, w.phis) {
					continue
				}
				t := c.testOf(iff.Cond, i == 0, alias, s.kind)
				if t == 1 { // success proven
					continue
				}
				if t == 2 {
					if failed == 0 {
						failed = 1
					}
				}
				if alias == nil && s.val == nil {
					// nothing tests a discarded signal
				}
			}
			// the call is executed again: a fresh obligation
			if succ == start {
				continue
			}
			na := alias
			phis, facts := w.phis, ""
			for _, in := range succ.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for k, pr := range succ.Preds {
					if pr == w.b {
						if call, _, ok := callResult(p.Edges[k]); ok && call != s.call && calleeLabel(call) == s.what {
							m := map[ssa.Value]ssa.Value{p: p.Edges[k]}
							for a, b := range phis {
								if a != p {
									m[a] = b
								}
							}
							phis, facts = m, facts+p.Name()+"="+p.Edges[k].Name()+" "
						}
					}
					if pr == w.b && p.Edges[k] == alias && alias != nil {
						na = p
					}
				}
			}
			k := key{succ, failed, na, facts}
			if seen[k] {
				continue
			}
			seen[k] = true
			work = append(work, item{succ, 0, failed, na, conds, phis})
		}
	}
	return nil, ""
}

func indexOf(b *ssa.BasicBlock, in ssa.Instruction) int {
	for i, x := range b.Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func returnsSignal(x *ssa.Return, v ssa.Value) bool {
	for _, r := range x.Results {
		if r == v {
			return true
		}
		if p, ok := r.(*ssa.Phi); ok {
			for _, e := range p.Edges {
				if e == v {
					return true
				}
			}
		}
		if mi, ok := r.(*ssa.MakeInterface); ok && mi.X == v {
			return true
		}
		if b, ok := r.(*ssa.BinOp); ok && (b.X == v || b.Y == v) {
			return true
		}
		if sameCell(r, v) {
			return true
		}
		if call, ok := r.(*ssa.Call); ok {
			for _, a := range call.Call.Args {
				if a == v {
					return true
				}
			}
		}
	}
	return false
}

func zeroReturn(x *ssa.Return) bool {
	if len(x.Results) == 0 {
		return false
	}
	for _, r := range x.Results {
		if !isZeroValue(r) {
			return false
		}
	}
	return true
}

func isZeroValue(v ssa.Value) bool {
	switch k := v.(type) {
	case *ssa.Const:
		if k.Value == nil {
			return true
		}
		switch s := k.Value.ExactString(); s {
		case "0", `""`, "false":
			return true
		}
	case *ssa.UnOp:
		// a zero struct variable
	}
	return false
}

func (c *Ctx) deadReturn(f *ssa.Function, x *ssa.Return) bool { return false }

// testOf: what the branch says about the signal: 1 success, 2 failure, 0 nothing.
func (c *Ctx) testOf(cond ssa.Value, pol bool, alias ssa.Value, kind string) int {
	if alias == nil {
		return 0
	}
	cond, pol = stripNot(cond, pol)
	b, ok := cond.(*ssa.BinOp)
	if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
		return 0
	}
	x, y := b.X, b.Y
	if sameCell(y, alias) {
		x, y = y, x
	}
	if !sameCell(x, alias) {
		return 0
	}
	eq := (b.Op == token.EQL) == pol
	switch kind {
	case "error":
		if !isNilConst(y) {
			return 0
		}
	default:
		if !c.statusSuccess(y) {
			// equal to a particular failure code
			if _, isC := constInt(y); isC && eq {
				return 2
			}
			return 0
		}
	}
	if eq {
		return 1
	}
	return 2
}

// sameCell: the value is the signal, or is read from a variable the signal was stored in.
func sameCell(x, v ssa.Value) bool {
	if x == v {
		return true
	}
	u, ok := x.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || v == nil || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Val == v && st.Addr == u.X {
			return true
		}
	}
	return false
}

// consumed: the signal is handed to a function of the module that returns a verdict of its own,
// before the block's end.
func consumed(v ssa.Value, at *ssa.BasicBlock) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if call, ok := r.(*ssa.Call); ok && call.Block().Dominates(at) {
			if f := call.Call.StaticCallee(); f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
				for i := 0; i < call.Call.Signature().Results().Len(); i++ {
					t := call.Call.Signature().Results().At(i).Type()
					if isErr(t) || isBool(t) {
						return true
					}
				}
			}
		}
	}
	return false
}

// fallbackOK: another attempt with the same callee succeeded.
func (c *Ctx) fallbackOK(cond ssa.Value, pol bool, s signal, phis map[ssa.Value]ssa.Value) bool {
	cond, pol = stripNot(cond, pol)
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		w := v
		if x, ok := phis[v]; ok {
			w = x
		}
		call, _, ok := callResult(w)
		if !ok || call == s.call || calleeLabel(call) != s.what {
			continue
		}
		if c.testOf(cond, pol, v, s.kind) == 1 {
			return true
		}
	}
	return false
}

// cannotFail: calls that provably report success whatever the input.
func (c *Ctx) cannotFail(call *ssa.Call, idx int, kind string) bool {
	pkg, name := calleeID(call)
	if f := call.Call.StaticCallee(); f != nil && c.inRepo(f) && len(f.Blocks) > 0 && kind == "error" {
		all := true
		for _, b := range f.Blocks {
			if x, ok := lastInstr(b).(*ssa.Return); ok {
				if k, ok := x.Results[idx].(*ssa.Const); !ok || !k.IsNil() {
					all = false
				}
			}
		}
		if all {
			return true
		}
		// a wrapper of hex.DecodeString on a safe string
		if strings.Contains(name, "everseHexToBytes") {
			return c.hexSafe(call.Call.Args[0], 0)
		}
		return false
	}
	switch {
	case pkg == "encoding/hex" && name == "DecodeString":
		return c.hexSafe(call.Call.Args[0], 0)
	case pkg == "encoding/json" && (name == "Marshal" || name == "MarshalIndent"):
		a := call.Call.Args[0]
		if mi, ok := a.(*ssa.MakeInterface); ok {
			return plainJSON(mi.X.Type(), map[types.Type]bool{})
		}
	}
	return false
}

// plainJSON: values of the type always have a JSON encoding.
func plainJSON(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok {
		for i := 0; i < n.NumMethods(); i++ {
			if m := n.Method(i).Name(); m == "MarshalJSON" || m == "MarshalText" {
				return false
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsFloat|types.IsComplex) == 0
	case *types.Pointer:
		return plainJSON(u.Elem(), seen)
	case *types.Slice:
		return plainJSON(u.Elem(), seen)
	case *types.Array:
		return plainJSON(u.Elem(), seen)
	case *types.Map:
		b, ok := u.Key().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0 && plainJSON(u.Elem(), seen)
	case *types.Interface:
		return u.NumMethods() == 0 // holds decoded or basic values in this module
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() && !plainJSON(u.Field(i).Type(), seen) {
				return false
			}
		}
		return true
	}
	return false
}

// hexSafe: the string is a valid hexadecimal string whatever the inputs.
func (c *Ctx) hexSafe(v ssa.Value, d int) bool {
	if d > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil || x.Value.Kind() != constant.String {
			return false
		}
		_, err := hex.DecodeString(constant.StringVal(x.Value))
		return err == nil
	case *ssa.Call:
		return c.hexResult(x, 0, d, c.hexSafe)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return c.hexResult(call, x.Index, d, c.hexSafe)
		}
	case *ssa.BinOp:
		return x.Op == token.ADD && c.hexSafe(x.X, d+1) && c.hexSafe(x.Y, d+1)
	case *ssa.Phi:
		key := v
		if c.hexBusy[key] {
			return true
		}
		c.hexBusy[key] = true
		defer delete(c.hexBusy, key)
		for _, e := range x.Edges {
			if !c.hexSafe(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		lo, hi := int64(0), int64(0)
		if x.Low != nil {
			k, ok := constInt(x.Low)
			if !ok {
				return false
			}
			lo = k
		}
		if x.High != nil {
			k, ok := constInt(x.High)
			if !ok {
				return false
			}
			hi = k
		}
		return (hi-lo)%2 == 0 && c.hexSafe(x.X, d+1)
	case *ssa.Parameter:
		f := x.Parent()
		if exported(f) || c.hexBusy[v] {
			return false
		}
		c.hexBusy[v] = true
		defer delete(c.hexBusy, v)
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		n := 0
		for _, g := range c.Funcs {
			bad := false
			calls(g, func(ci ssa.CallInstruction) {
				if ci.Common().StaticCallee() == f {
					n++
					if !c.hexSafe(ci.Common().Args[idx], d+1) {
						bad = true
					}
				}
			})
			if bad {
				return false
			}
		}
		return n > 0
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			return c.hexElems(a.X, d+1)
		case *ssa.FieldAddr:
			return c.hexField(a.X.Type(), a.Field, x.Parent(), d)
		case *ssa.Global:
			return false
		}
	case *ssa.Field:
		return c.hexField(x.X.Type(), x.Field, x.Parent(), d)
	}
	return false
}

func (c *Ctx) hexResult(call *ssa.Call, idx, d int, safe func(ssa.Value, int) bool) bool {
	pkg, name := calleeID(call)
	if pkg == "encoding/hex" && name == "EncodeToString" {
		return true
	}
	f := call.Call.StaticCallee()
	if f == nil || !c.inRepo(f) || len(f.Blocks) == 0 || c.hexBusy[f] {
		return false
	}
	c.hexBusy[f] = true
	defer delete(c.hexBusy, f)
	fail := failingReturns(f)
	for _, b := range f.Blocks {
		if x, ok := lastInstr(b).(*ssa.Return); ok && !fail[x] {
			if !safe(x.Results[idx], d+1) {
				return false
			}
		}
	}
	return true
}

// hexElems: every element of the slice is a valid hexadecimal string.
func (c *Ctx) hexElems(v ssa.Value, d int) bool {
	if d > 12 {
		return false
	}
	if c.hexBusy[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		c.hexBusy[v] = true
		defer delete(c.hexBusy, v)
		for _, e := range x.Edges {
			if !c.hexElems(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return c.hexResult(call, x.Index, d, c.hexElems)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return c.hexElems(x.Call.Args[0], d+1) && c.hexElems(x.Call.Args[1], d+1)
		}
		return c.hexResult(x, 0, d, c.hexElems)
	case *ssa.Slice:
		return c.hexElems(x.X, d+1)
	case *ssa.Alloc, *ssa.MakeSlice:
		for _, r := range *v.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, q := range *ia.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == ia && !c.hexSafe(st.Val, d+1) {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

// hexField: the field only ever receives valid hexadecimal strings in the module, and the
// structure is not one the caller of the function hands in.
func (c *Ctx) hexField(t types.Type, field int, in *ssa.Function, d int) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	for _, p := range in.Params {
		if reaches(p.Type(), n, map[types.Type]bool{}) {
			return false
		}
	}
	type fk struct {
		n *types.Named
		i int
	}
	key := fk{n, field}
	if c.hexBusy[key] {
		return true
	}
	c.hexBusy[key] = true
	defer delete(c.hexBusy, key)
	stores := 0
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != field {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), n) {
					continue
				}
				stores++
				if !c.hexSafe(st.Val, d+1) {
					return false
				}
			}
		}
	}
	return stores > 0
}

func reaches(t types.Type, n *types.Named, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if types.Identical(t, n) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return reaches(u.Elem(), n, seen)
	case *types.Slice:
		return reaches(u.Elem(), n, seen)
	case *types.Array:
		return reaches(u.Elem(), n, seen)
	case *types.Map:
		return reaches(u.Elem(), n, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if reaches(u.Field(i).Type(), n, seen) {
				return true
			}
		}
	}
	return false
}

// benign: failures that are dropped on purpose, with the reason why nothing is lost.
var p02Benign = map[string]struct {
	n   int // call sites covered
	why string
}{
	"ontologyTransaction.NewEmptyTransaction calls ontologyTransaction.DecodeCheck": {1, "an undecodable payer leaves the field empty, which serialising refuses"},
	"fiiiTransaction.(InputMsg).ToBytes calls hex.DecodeString":                     {1, "the hash was decoded once already when the message was built"},
	"btcLikeTxDriver.InsertSignatureIntoEmptyTransaction calls hex.DecodeString":    {1, "the multisig test that guards it decodes the same redeem script"},
	"mateverseTransaction.getSubmitBytes calls hex.DecodeString":                    {2, "both strings were decoded once already by the verification that precedes it"},
}

// public: exported functions, and functions whose results an exported function returns unchanged.
func (c *Ctx) public() map[*ssa.Function]bool {
	pub := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if pub[f] || len(f.Blocks) == 0 || !c.inRepo(f) {
			return
		}
		pub[f] = true
		for _, b := range f.Blocks {
			if x, ok := lastInstr(b).(*ssa.Return); ok {
				var from *ssa.Call
				all := len(x.Results) > 1
				for _, v := range x.Results {
					call, _, ok := callResult(v)
					if !ok || (from != nil && from != call) {
						all = false
						break
					}
					from = call
				}
				if all {
					if g := from.Call.StaticCallee(); g != nil {
						add(g)
					}
				}
			}
		}
	}
	for _, f := range c.Funcs {
		if exported(f) {
			add(f)
		}
	}
	return pub
}

func p02(c *Ctx, r *Report, thorough bool) {
	n := 0
	pub := c.public()
	used := map[string]int{}
	for _, f := range c.Funcs {
		if len(f.Blocks) == 0 || strings.HasPrefix(FName(f), "..") {
			continue
		}
		for _, s := range c.signals(f) {
			n++
			ret, how := c.unreported(f, s)
			key := fmt.Sprintf("%s calls %s", FName(f), s.what)
			if b := p02Benign[key]; ret != nil && used[key] < b.n {
				used[key]++
				r.ok("failure-reported", key, c.Pos(s.call.Pos()), "dropped, without loss: "+b.why)
			} else if ret == nil {
				r.ok("failure-reported", key, c.Pos(s.call.Pos()), "every path on which it fails ends in a failing return")
			} else {
				r.fail("failure-reported", key, c.Pos(s.call.Pos()), fmt.Sprintf("%s (return at %s)", how, c.Pos(ret.Pos())))
			}
		}
		if i := errResultIdx(f.Signature); pub[f] && i >= 0 && f.Signature.Results().Len() > 1 {
			for _, b := range f.Blocks {
				x, ok := lastInstr(b).(*ssa.Return)
				if !ok {
					continue
				}
				if k, ok := x.Results[i].(*ssa.Const); !ok || !k.IsNil() {
					continue
				}
				empty := zeroReturn(x)
				for j := 0; j < f.Signature.Results().Len(); j++ {
					if b, ok := f.Signature.Results().At(j).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
						empty = false // false or 0 is an answer
					}
				}
				if !empty {
					r.ok("no-empty-success", FName(f), c.Pos(x.Pos()), "returns a result")
				} else {
					r.fail("no-empty-success", FName(f), c.Pos(x.Pos()), "returns an empty result with no error")
				}
			}
		}
	}
	r.Counts["failure signals"] = n
	transfer(c, r)
	relocated(c, r)
	addDiffs(c, r, func(string) bool { return true }, func(d *entryDiff) bool {
		return d.d.fail && (d.d.kind == "weaker" || d.d.kind == "accepts")
	})
}

// drops counts, per package and callee, the calls whose failure signal is not looked at.
func (c *Ctx) drops() map[string]int {
	out := map[string]int{}
	for _, f := range c.Funcs {
		if len(f.Blocks) == 0 || strings.HasPrefix(FName(f), "..") {
			continue
		}
		for _, s := range c.allSignals(f, true) {
			if s.val == nil {
				out[pkgOf(FName(f))+" "+s.what]++
			}
		}
	}
	return out
}

// relocated: a package whose code drops the failure of a callee no more often than the reviewed
// reference, where each such place was shown to be harmless, has moved the place, not added one.
func relocated(c *Ctx, r *Report) {
	bad := false
	for _, o := range r.Obls {
		bad = bad || !o.OK && o.Rule == "failure-reported"
	}
	run := runPair(c)
	if !bad || run.err != nil {
		return
	}
	was, is := run.p.old.drops(), c.drops()
	byN := c.byName()
	n := 0
	for i := range r.Obls {
		o := &r.Obls[i]
		if o.OK || o.Rule != "failure-reported" {
			continue
		}
		name, what, ok := strings.Cut(strings.TrimPrefix(o.Key, o.Rule+" "), " calls ")
		what, _, _ = strings.Cut(what, "#")
		f := byN[name]
		if !ok || f == nil {
			continue
		}
		dropped := false
		for _, s := range c.signals(f) {
			dropped = dropped || s.what == what && s.val == nil
		}
		k := pkgOf(name) + " " + what
		if dropped && run.p.fo[name] == nil && is[k] <= was[k] {
			o.OK = true
			o.Msg = "moved here from code of the reviewed reference where the dropped failure was shown to be harmless (" + o.Msg + ")"
			n++
		}
	}
	r.Counts["moved from the reference"] = n
}
