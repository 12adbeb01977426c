package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P01"] = p01 }

type verifyEntry struct {
	fn    string
	kind  string // single: one signature; each: one per input/signer
	leneq bool   // (with each) the number of signatures is compared with the number of inputs
}

// the exported verification entry points of every driver
var verifyEntries = []verifyEntry{
	{"aliencoinTransaction.VerifyAndCombineTransaction", "each", true},
	{"bigbangTransaction.VerifyAndCombineTransaction", "single", false},
	{"binancechainTransaction.VerifyAndCombineRawTransaction", "single", false},
	{"bitcoincashTransaction.VerifyRawTransaction", "each", true},
	{"bitcoinsvTransaction.VerifyRawTransaction", "each", true},
	{"btcLikeTxDriver.VerifyRawTransaction", "each", true},
	{"btcTransaction.VerifyRawTransaction", "each", true},
	{"bytomTransaction.VerifyRawTransaction", "each", false},
	{"cosmosTransaction.VerifyTransactionSig", "single", false},
	{"cxcTransaction.VerifyRawTransaction", "each", true},
	{"elastosTransaction.VerifyAndCombineRawTransaction", "each", false},
	{"evaioTransaction.VerifyTransactionSig", "single", false},
	{"fiiiTransaction.VerifyAndCombineTransaction", "each", true},
	{"filenetTransaction.VerifyAndCombineTransaction", "single", false},
	{"hcTransaction.VerifyRawTransaction", "each", true},
	{"hypercashTransaction.VerifyAndCombineTransaction", "each", true},
	{"mateverseTransaction.VerifyAndCombineTransaction", "each", false},
	{"moacchainTransaction.VerifyAndCombineRawTransaction", "single", false},
	{"omniTransaction.VerifyRawTransaction", "each", true},
	{"ontologyTransaction.VerifyAndCombineRawTransaction", "each", false},
	{"polkadotTransaction.VerifyAndCombineTransaction", "single", false},
	{"rippleTransaction.VerifyAndCombinRawTransaction", "single", false},
	{"vergeTransaction.VerifyAndCombineTransaction", "each", true},
	{"virtualeconomyTransaction.VerifyTransaction", "single", false},
	{"vollarTransaction.VerifyAndCombineRawTransaction", "each", true},
	{"waykichainTransaction.VerifyAndCombineRawTransaction", "single", false},
	{"zencashTransaction.VerifyRawTransaction", "each", true},
}

func isVerifyCall(v ssa.Value) *ssa.Call {
	c, ok := stripConv(v).(*ssa.Call)
	if ok && isOwcrypt(c, "Verify") {
		return c
	}
	return nil
}

// paramRoot: v is (a field chain, load or slice of) a parameter.
func paramRoot(v ssa.Value) *ssa.Parameter {
	for d := 0; d < 12; d++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			return x
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Alloc:
			// a parameter spilled to the stack
			for _, u := range *x.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					if p, ok := st.Val.(*ssa.Parameter); ok {
						return p
					}
				}
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

func lenOf(v ssa.Value) (ssa.Value, bool) {
	if c, ok := isLenCall(v); ok {
		return c, true
	}
	if b, _, ok := addConst(v); ok {
		return isLenCall(b)
	}
	return nil, false
}

type p01Run struct {
	c  *Ctx
	fl *Flow
	// verified counters accepted, by function
	distinctFail map[*ssa.Function]string
	counterSeen  map[*ssa.Function]bool
}

func (p *p01Run) atom(fn *ssa.Function, cond ssa.Value, pol bool, loops []*Loop) []string {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	op := b.Op
	if !pol {
		op = negate(op)
	}
	var out []string
	x, y := b.X, b.Y
	if k, ok := constInt(x); ok && isVerifyCall(y) != nil && op == token.EQL && k == p.fl.success {
		return []string{"V"}
	}
	if k, ok := constInt(y); ok && isVerifyCall(x) != nil && op == token.EQL && k == p.fl.success {
		return []string{"V"}
	}
	if op == token.EQL {
		lx, ok1 := lenOf(x)
		ly, ok2 := lenOf(y)
		if ok1 && ok2 && lx != ly && (paramRoot(lx) != nil || paramRoot(ly) != nil) {
			out = append(out, "LENEQ")
		}
	}
	// the collection is not empty
	for i := 0; i < 2; i++ {
		l, k, o := x, y, op
		if i == 1 {
			l, k, o = y, x, mirror(op)
		}
		if n, ok := constInt(k); ok {
			if _, isL := isLenCall(l); isL {
				if (o == token.NEQ && n == 0) || (o == token.GTR && n >= 0) || (o == token.GEQ && n >= 1) || (o == token.EQL && n > 0) {
					out = append(out, "NZ")
				}
			}
		}
	}
	// verified counter reaching its target
	for i := 0; i < 2; i++ {
		cnt, n, o := x, y, op
		if i == 1 {
			cnt, n, o = y, x, mirror(op)
		}
		if o != token.EQL && o != token.GEQ {
			continue
		}
		n = stripConv(n)
		if _, isC := constInt(n); isC {
			continue
		}
		if _, isB := n.(*ssa.BinOp); isB {
			continue
		}
		if why, ok := p.counter(fn, stripConv(cnt), loops); ok {
			p.counterSeen[fn] = true
			if why != "" {
				p.distinctFail[fn] = why
			}
			out = append(out, "V", "VM")
		}
	}
	return out
}

// webOf collects the phi web of a variable and its non-phi sources.
func webOf(v ssa.Value) (phis map[*ssa.Phi]bool, srcs map[ssa.Value]bool) {
	phis, srcs = map[*ssa.Phi]bool{}, map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if ph, ok := v.(*ssa.Phi); ok {
			if phis[ph] {
				return
			}
			phis[ph] = true
			for _, e := range ph.Edges {
				walk(e)
			}
			return
		}
		if srcs[v] {
			return
		}
		srcs[v] = true
		if b, _, ok := addConst(v); ok {
			if ph, ok := stripConv(b).(*ssa.Phi); ok {
				walk(ph)
			}
		}
	}
	walk(v)
	return
}

// verifyGuard: block b is only reached over an edge on which a signature verified; returns the call.
func (p *p01Run) verifyGuard(b *ssa.BasicBlock) *ssa.Call {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			return nil
		}
		iff, ok := lastIf(id)
		if !ok {
			continue
		}
		for i, s := range id.Succs {
			if s != d && !s.Dominates(b) {
				continue
			}
			if len(s.Preds) != 1 || !(s == b || s.Dominates(b)) {
				continue
			}
			v, pol := stripNot(iff.Cond, i == 0)
			bo, ok := v.(*ssa.BinOp)
			if !ok {
				// verified through a helper returning a bool
				if c, _, ok := callResult(v); ok && pol {
					if f := c.Call.StaticCallee(); f != nil && p.c.inRepo(f) {
						if m, ok := modeOf(f); ok && p.fl.Sum(f, m).Toks["V"] {
							return c
						}
					}
				}
				continue
			}
			op := bo.Op
			if !pol {
				op = negate(op)
			}
			if op != token.EQL {
				continue
			}
			if c := isVerifyCall(bo.X); c != nil {
				if k, ok := constInt(bo.Y); ok && k == p.fl.success {
					return c
				}
			}
			if c := isVerifyCall(bo.Y); c != nil {
				if k, ok := constInt(bo.X); ok && k == p.fl.success {
					return c
				}
			}
		}
	}
	return nil
}

// counter: v counts successful verifications (starts at 0, only incremented by one right after a
// successful verification). The string says why the counted keys may repeat, if they may.
func (p *p01Run) counter(fn *ssa.Function, v ssa.Value, loops []*Loop) (string, bool) {
	if _, ok := v.(*ssa.Phi); !ok {
		return "", false
	}
	phis, srcs := webOf(v)
	why := ""
	found := false
	for s := range srcs {
		if k, ok := constInt(s); ok {
			if k != 0 {
				return "", false
			}
			continue
		}
		base, k, ok := addConst(s)
		if !ok || k != 1 {
			return "", false
		}
		ph, ok := stripConv(base).(*ssa.Phi)
		if !ok || !phis[ph] {
			return "", false
		}
		in, ok := s.(ssa.Instruction)
		if !ok {
			return "", false
		}
		call := p.verifyGuard(in.Block())
		if call == nil {
			return "", false
		}
		found = true
		if w := p.distinct(fn, call, in.Block(), phis, loops); w != "" {
			why = w
		}
	}
	return why, found
}

func sliceDeps(v ssa.Value, depth int, seen map[ssa.Value]bool) map[ssa.Value]bool {
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	if v == nil || seen[v] || depth > 60 {
		return seen
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return seen
	}
	if _, isPhi := v.(*ssa.Phi); isPhi && depth > 40 {
		return seen
	}
	for _, op := range in.Operands(nil) {
		if *op != nil {
			sliceDeps(*op, depth+1, seen)
		}
	}
	return seen
}

// distinct: successive counted verifications use distinct keys.
func (p *p01Run) distinct(fn *ssa.Function, call *ssa.Call, at *ssa.BasicBlock, cnt map[*ssa.Phi]bool, loops []*Loop) string {
	// loops around the increment, innermost first
	var around []*Loop
	for _, l := range loops {
		if l.Body[call.Block()] {
			around = append(around, l)
		}
	}
	sort.Slice(around, func(i, j int) bool { return len(around[i].Body) < len(around[j].Body) })
	keyArg := call.Call.Args[0]
	if !isOwcrypt(call, "Verify") {
		keyArg = nil
	}
	var keyLoop *Loop
	for _, l := range around {
		if l.IV == nil {
			continue
		}
		if keyArg == nil {
			for _, a := range call.Call.Args {
				if sliceDeps(a, 0, nil)[l.IV] {
					keyLoop = l
				}
			}
		} else if sliceDeps(keyArg, 0, nil)[l.IV] {
			keyLoop = l
		}
		if keyLoop != nil {
			break
		}
	}
	if keyLoop == nil {
		return "the public key does not depend on a loop over the keys"
	}
	// the counter must not survive re-entry of the key loop, unless keys already used are skipped
	outer := false
	for ph := range cnt {
		for _, l := range around {
			if l != keyLoop && l.Body[keyLoop.Head] && ph.Block() == l.Head {
				outer = true
			}
		}
	}
	if !outer {
		return ""
	}
	iv, ok := keyLoop.IV.(*ssa.Phi)
	if !ok {
		return "keys already matched are not skipped"
	}
	// (a) the key loop resumes after the key matched last
	var start ssa.Value
	for i, e := range iv.Edges {
		if !keyLoop.Body[iv.Block().Preds[i]] {
			start = e
		}
	}
	if start != nil {
		_, srcs := webOf(start)
		hit := false
		for s := range srcs {
			if b, k, ok := addConst(s); ok && k == 1 {
				bv := stripConv(b)
				// the element index: the phi itself, or phi+1 in range form
				if bv == ssa.Value(iv) || bv == keyLoop.Elem {
					if in, ok := s.(ssa.Instruction); ok && p.verifyGuard(in.Block()) == call {
						hit = true
					} else if in != nil && in.Block() == keyLoop.Head {
						hit = true
					}
				}
			}
		}
		// every path that counts must also advance the start: the increment's latch value of the start web
		if hit {
			return ""
		}
		// the start may be the induction variable itself kept across iterations (two-pointer scan)
		if s, ok := start.(*ssa.Phi); ok {
			ph, _ := webOf(s)
			if ph[iv] {
				// iv survives: it must have been advanced past the match
				for i, e := range s.Edges {
					_ = i
					if b, k, ok := addConst(e); ok && k == 1 && stripConv(b) == ssa.Value(iv) {
						return ""
					}
				}
			}
		}
	}
	// (b) used flags: a boolean indexed by the key is tested before and set after the match
	tested, set := false, false
	for b := range keyLoop.Body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if x.Index == keyLoop.Elem || x.Index == ssa.Value(iv) {
					for _, u := range *x.Referrers() {
						switch y := u.(type) {
						case *ssa.Store:
							if k, ok := constBool(y.Val); ok && k && p.verifyGuard(y.Block()) == call {
								set = true
							}
						case *ssa.UnOp:
							if isBool(y.Type()) {
								tested = true
							}
						}
					}
				}
			case *ssa.MapUpdate:
				if x.Key == keyLoop.Elem && p.verifyGuard(x.Block()) == call {
					set = true
				}
			case *ssa.Lookup:
				if x.Index == keyLoop.Elem {
					tested = true
				}
			}
		}
	}
	if tested && set {
		return ""
	}
	return "one key can be counted several times: keys already matched are not skipped when the next signature is tried"
}

func hasV(toks map[string]bool, each bool) bool {
	if toks["V"] && !each {
		return true
	}
	for t := range toks {
		s := t
		n := 0
		for strings.HasPrefix(s, "ALL:") {
			s = s[4:]
			n++
		}
		if s == "V" && (n > 0 || !each) {
			return true
		}
	}
	return false
}

func hasTok(toks map[string]bool, t string) bool {
	for k := range toks {
		s := strings.TrimPrefix(k, "ALL:")
		if s == t {
			return true
		}
	}
	return false
}

func fmtToks(m map[string]bool) string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return strings.Join(o, ",")
}

func (c *Ctx) byName() map[string]*ssa.Function {
	m := map[string]*ssa.Function{}
	for _, f := range c.Funcs {
		m[FName(f)] = f
	}
	return m
}

func p01(c *Ctx, r *Report, thorough bool) {
	r.Rule = "Path-sensitive must-analysis of every exported verification entry point: on every control-flow path that can report success there is, for every element of the input/signer collection (a complete loop) or once (single-signature chains), an edge on which owcrypt.Verify returned SUCCESS, directly, through a helper, through a status flag, or through a counter of verifications that is compared with the required number and counts each key once; the number of signatures is compared with the number of inputs; collections of hashes and signatures that reach the verification are appended to on every iteration of the loop that builds them."
	r.Trust = append(r.Trust, "owcrypt.Verify decides signatures correctly")
	p := &p01Run{c: c, distinctFail: map[*ssa.Function]string{}, counterSeen: map[*ssa.Function]bool{}}
	p.fl = newFlow(c)
	p.fl.Atom = p.atom
	byN := c.byName()
	states := 0
	known := map[string]bool{}
	for _, e := range verifyEntries {
		known[e.fn] = true
		f := byN[e.fn]
		if f == nil {
			r.fail("entry", e.fn, "", "the verification entry point no longer exists")
			continue
		}
		p.checkEntry(r, f, e)
		states += p.fl.Sum(f, must1(modeOf(f))).States
	}
	// any further exported function that calls Verify and reports a verdict is held to the same rule
	for _, f := range c.Funcs {
		if !exported(f) || known[FName(f)] || f.Signature.Recv() != nil {
			continue
		}
		direct := false
		calls(f, func(ci ssa.CallInstruction) {
			if isOwcrypt(ci, "Verify") {
				direct = true
			}
		})
		if !direct {
			continue
		}
		if m, ok := modeOf(f); ok {
			s := p.fl.Sum(f, m)
			okAll := !s.Over
			for _, rt := range s.Returns {
				if !hasV(rt.Toks, false) {
					okAll = false
				}
			}
			r.add("verdict", FName(f), c.Pos(f.Pos()), okAll, "exported function that verifies signatures reports success only after a verification succeeded")
		}
	}
	for f, why := range p.distinctFail {
		r.fail("distinct-keys", FName(f), c.Pos(f.Pos()), why)
	}
	for f := range p.counterSeen {
		if p.distinctFail[f] == "" {
			r.ok("distinct-keys", FName(f), c.Pos(f.Pos()), "each counted verification uses another key")
		}
	}
	// every call site of Verify takes part in a verdict: its status is compared with SUCCESS
	n := 0
	for _, f := range c.Funcs {
		calls(f, func(ci ssa.CallInstruction) {
			if !isOwcrypt(ci, "Verify") {
				return
			}
			n++
			ok := ci.Value() != nil && len(*ci.Value().Referrers()) > 0
			r.add("verify-site", fmt.Sprintf("%s#%d", FName(f), siteIndex(f, ci)), c.Pos(ci.Pos()), ok, "the status of the verification is used")
			p.appendRule(r, f, ci)
		})
	}
	r.Counts["verify_call_sites"] = n
	r.Counts["flow_states"] = states
	r.floor("verdict", len(verifyEntries))
	r.floor("verify-site", 18)
	r.floor("distinct-keys", 4)
	r.floor("collection", 6)
	r.floor("count", 8)
	r.floor("nonempty", 2)
	transfer(c, r)
	addDiffs(c, r, func(n string) bool {
		return known[n] || reVerify.MatchString(funcOf(n)) && isTxPkg(pkgOf(n))
	}, func(d *entryDiff) bool { return d.d.kind == "weaker" || d.d.kind == "accepts" || d.d.kind == "edit" })
}

func must1(m Mode, ok bool) Mode { return m }

func siteIndex(f *ssa.Function, ci ssa.CallInstruction) int {
	i, n := 0, 0
	p, nm := calleeID(ci)
	calls(f, func(x ssa.CallInstruction) {
		q, nn := calleeID(x)
		if p == q && nm == nn {
			i++
			if x == ci {
				n = i
			}
		}
	})
	return n
}

func (p *p01Run) checkEntry(r *Report, f *ssa.Function, e verifyEntry) {
	c := p.c
	m, ok := modeOf(f)
	if !ok {
		r.fail("verdict", e.fn, c.Pos(f.Pos()), "the entry point no longer reports a verdict")
		return
	}
	s := p.fl.Sum(f, m)
	if s.Over {
		r.fail("verdict", e.fn, c.Pos(f.Pos()), "state budget exceeded, the verdict is not decided")
		return
	}
	if !s.Any {
		r.fail("verdict", e.fn, c.Pos(f.Pos()), "no path reports success")
		return
	}
	for _, rt := range s.Returns {
		if !hasV(rt.Toks, e.kind == "each") {
			r.fail("verdict", e.fn, c.Pos(rt.Pos), "a path reports success although the signatures were not all verified on it (facts on the path: "+fmtToks(rt.Toks)+")")
			return
		}
	}
	r.ok("verdict", e.fn, c.Pos(f.Pos()), fmt.Sprintf("%d success returns, %d states", len(s.Returns), s.States))
	if e.kind == "each" && !e.leneq {
		ok := true
		for _, rt := range s.Returns {
			if !hasTok(rt.Toks, "NZ") {
				ok = false
			}
		}
		r.add("nonempty", e.fn, c.Pos(f.Pos()), ok, "success implies that at least one signature was presented")
	}
	if e.leneq {
		ok := true
		for _, rt := range s.Returns {
			if !hasTok(rt.Toks, "LENEQ") {
				ok = false
			}
		}
		r.add("count", e.fn, c.Pos(f.Pos()), ok, "success implies that the number of signatures equals the number of inputs")
	}
}

// appendRule: collections indexed by the arguments of a verification are built completely.
func (p *p01Run) appendRule(r *Report, f *ssa.Function, ci ssa.CallInstruction) {
	seen := map[ssa.Value]bool{}
	depth := 0
	var coll func(v ssa.Value, fn *ssa.Function)
	var back func(v ssa.Value, fn *ssa.Function, d int, sv map[ssa.Value]bool)
	coll = func(v ssa.Value, fn *ssa.Function) {
		if v == nil || seen[v] || depth > 8 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				coll(e, fn)
			}
			p.phiRule(r, x)
		case *ssa.ChangeType:
			coll(x.X, fn)
		case *ssa.Slice:
			coll(x.X, fn)
		case *ssa.UnOp:
			// loads from a local variable
			if a, ok := x.X.(*ssa.Alloc); ok {
				for _, u := range *a.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
						coll(st.Val, fn)
					}
				}
			}
		case *ssa.Extract, *ssa.Call:
			call, idx, ok := callResult(v)
			if !ok {
				return
			}
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				coll(call.Call.Args[0], fn)
				return
			}
			if g := call.Call.StaticCallee(); g != nil && p.c.inRepo(g) {
				depth++
				for _, b := range g.Blocks {
					if ret, ok := lastInstr(b).(*ssa.Return); ok && idx < len(ret.Results) {
						coll(ret.Results[idx], g)
					}
				}
				depth--
			}
		case *ssa.Parameter:
			k := -1
			for i, pp := range fn.Params {
				if pp == x {
					k = i
				}
			}
			for _, g := range p.c.Funcs {
				calls(g, func(cc ssa.CallInstruction) {
					if cc.Common().StaticCallee() == fn && k < len(cc.Common().Args) {
						depth++
						coll(cc.Common().Args[k], g)
						depth--
					}
				})
			}
		}
	}
	back = func(v ssa.Value, fn *ssa.Function, d int, sv map[ssa.Value]bool) {
		if v == nil || sv[v] || d > 25 {
			return
		}
		sv[v] = true
		if ia, ok := v.(*ssa.IndexAddr); ok {
			coll(ia.X, fn)
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, o := range in.Operands(nil) {
				if *o != nil {
					back(*o, fn, d+1, sv)
				}
			}
			// fields of a local copy
			if a, ok := v.(*ssa.Alloc); ok {
				for _, u := range *a.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == v {
						back(st.Val, fn, d+1, sv)
					}
				}
			}
		}
	}
	sv := map[ssa.Value]bool{}
	for _, i := range []int{0, 2, 3} {
		back(ci.Common().Args[i], f, 0, sv)
	}
}

// phiRule: a slice carried by a complete loop and appended to in it is appended to on every iteration.
func (p *p01Run) phiRule(r *Report, x *ssa.Phi) {
	fn := x.Parent()
	for _, l := range findLoops(fn) {
		if x.Block() != l.Head {
			continue
		}
		app := 0
		skip := false
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if v == ssa.Value(x) {
				skip = true
				return
			}
			if seen[v] {
				return
			}
			seen[v] = true
			switch y := v.(type) {
			case *ssa.Phi:
				if l.Body[y.Block()] {
					for _, e := range y.Edges {
						walk(e)
					}
				}
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					app++
				}
			}
		}
		for i, e := range x.Edges {
			if l.Body[l.Head.Preds[i]] {
				walk(e)
			}
		}
		if app == 0 {
			continue
		}
		key := fmt.Sprintf("%s/%s", FName(fn), x.Type().String())
		for _, o := range r.Obls {
			if o.Key == "collection "+key && o.OK == !skip {
				return
			}
		}
		r.add("collection", key, p.c.Pos(x.Pos()), !skip, "the collection used by the verification gets an element on every iteration of the loop that builds it")
	}
}
