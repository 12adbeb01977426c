package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Properties decided by comparison with the reviewed reference: the value graph of each exported
// operation (what it returns, what it writes through its arguments, when it refuses, as terms over its
// inputs) is the statement of the format it implements. An operation whose graph certainly differs is
// reported; one whose difference cannot be decided is listed in the evidence and not reported.

// entryDiff is a definite difference of one exported operation.
type entryDiff struct {
	name    string
	pos     string
	d       vdiff
	via     string
	changed []string // functions below it whose own code differs
}

type pairRun struct {
	diffs  []entryDiff
	names  []string // entries compared
	pos    map[string]string
	same   map[string]string // how equality was established
	undec  map[string]string
	gone   []string
	panics []string
	graphs int
	err    error
	p      *Pair
}

var pairCache = map[*Ctx]*pairRun{}

func runPair(c *Ctx) *pairRun {
	if r := pairCache[c]; r != nil {
		return r
	}
	r := &pairRun{same: map[string]string{}, undec: map[string]string{}, pos: map[string]string{}}
	pairCache[c] = r
	o, err := loadRef(c.Verif)
	if err != nil {
		r.err = err
		return r
	}
	p := newPair(o, c)
	p.stop = time.Now().Add(pairTime)
	r.p = p
	for _, f := range depEntries(o) {
		name := FName(f)
		if !exportedName(name) {
			continue
		}
		g := p.fn[name]
		if g == nil {
			r.gone = append(r.gone, name)
			continue
		}
		r.names = append(r.names, name)
		r.pos[name] = c.Pos(g.Pos())
		v := p.compare(name)
		switch v.v {
		case vSame:
			r.same[name] = v.how
		case vUndec:
			r.undec[name] = v.why
		default:
			ch := p.changedBelow(name)
			for _, s := range v.slots {
				r.diffs = append(r.diffs, entryDiff{name, r.pos[name], s, v.via, ch})
			}
		}
	}
	r.graphs = p.evals
	r.panics = p.panics
	return r
}

// changedBelow lists the functions reached from the named one whose own code differs.
func (p *Pair) changedBelow(name string) []string {
	seen := map[string]bool{}
	var out []string
	var visit func(n string)
	visit = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		fo, fn := p.fo[n], p.fn[n]
		if fo == nil || fn == nil || p.code(fo) != p.code(fn) {
			out = append(out, n)
		}
		if fo != nil {
			us, gs := p.uses(p.old, fo)
			for _, u := range us {
				visit(u)
			}
			for _, g := range gs {
				if !p.sameGlobal(gname(g)) {
					out = append(out, gname(g))
				}
			}
		}
		if fn != nil {
			us, _ := p.uses(p.new, fn)
			for _, u := range us {
				visit(u)
			}
		}
	}
	visit(name)
	sort.Strings(out)
	return out
}

func pkgOf(name string) string { p, _, _ := strings.Cut(name, "."); return p }

func funcOf(name string) string { _, f, _ := strings.Cut(name, "."); return f }

func isTxPkg(p string) bool {
	return strings.HasSuffix(p, "Transaction") || p == "btcLikeTxDriver"
}

var (
	reDecode  = regexp.MustCompile(`^(Decode|DecodeCheck|Bech32Decode|Bech32mDecode|AddressDecode|AddressCheck|Base58Decode|Base58checkDecode|DecodeData|VerifyChecksum|Eip55_decode|OWDecode|ChainDecode|GetMultiSigShareData|GetProgramHashFromAddress|Convertbits|ConvertBits|\(Encoding\)\.(Decode|Base64Decode))$`)
	reEncode  = regexp.MustCompile(`^(Encode|EncodeCheck|Bech32Encode|Bech32mEncode|AddressEncode|Base58Encode|Base58checkEncode|EncodeData|CalcChecksum|CatData|CRC32|Eip55_encode|\(ExtendedKey\)\.OWEncode|\(MultiSigShare\)\.ChianEncode|NewAlphabet|NewBase58Alphabet|NewEncoding|\(Alphabet\)\.String|Convertbits|ConvertBits|\(Encoding\)\.(Encode|Base64Encode|EncodedLen|DecodedLen)|DoubleBlake256)$`)
	reAddrUse = regexp.MustCompile(`(?i)^(decodecheck|encodecheck|bech32decode|bech32encode|base58decode|.*(de|en)code.*addr.*|.*addr.*(de|en)code.*)$`)
	reAddr    = regexp.MustCompile(`(?i)base58|bech32|addr|checksum|alphabet|polymod|convertbits|eip55|prefix|hrp|programhash|pubkeyhash|decodecheck|encodecheck|\.decode$|profile`)
	reSign    = regexp.MustCompile(`(?i)^sign|\(SigPub\)|^VerifyAndCombin|^InsertSignature|GenUnlockScript|Complete$|GetSignedTransaction|SignEmptyRaw|^NewSig`)
	reVerify  = regexp.MustCompile(`(?i)^verify`)
	reMulti   = regexp.MustCompile(`(?i)multi|redeem|nrequired`)
	reMultiIn = regexp.MustCompile(`(?i)multi|redeem|encodetoscript|decodefromscript|signaturepubkey|nrequired|getredeem|scripthash`)
)

// callsOne: one of the named functions itself calls a function so named (one that reads an address interprets its
// prefix, version and payload).
func callsOne(c *Ctx, names []string, re *regexp.Regexp) bool {
	fns := c.byName()
	for _, n := range names {
		f := fns[n]
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && re.MatchString(g.Name()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func anyMatch(re *regexp.Regexp, ss []string) bool {
	for _, s := range ss {
		if re.MatchString(funcOf(s)) {
			return true
		}
	}
	return false
}

type pairRule struct {
	part  bool                    // operations that are gone are reported elsewhere
	scope func(name string) bool  // operations under the property
	want  func(d *entryDiff) bool // differences that break it
	floor int
}

func checkPair(c *Ctx, r *Report, pr pairRule) {
	run := runPair(c)
	if run.err != nil {
		r.fail("reference", "load", "", run.err.Error())
		return
	}
	n, und := 0, 0
	bad := map[string][]entryDiff{}
	for i := range run.diffs {
		d := &run.diffs[i]
		if pr.scope(d.name) && pr.want(d) {
			bad[d.name] = append(bad[d.name], *d)
		}
	}
	hows := map[string]int{}
	for _, name := range run.names {
		if !pr.scope(name) {
			continue
		}
		n++
		if ds := bad[name]; len(ds) > 0 {
			for _, d := range ds {
				r.fail("format", name+" "+d.d.slot, d.pos, d.text())
			}
			continue
		}
		if w, ok := run.undec[name]; ok {
			und++
			r.Notes = append(r.Notes, name+" differs from the reviewed reference in a way that is not decided ("+w+")")
			continue
		}
		how := run.same[name]
		hows[how]++
		switch {
		case how == "code":
			r.ok("format", name, run.pos[name], "same code as the reviewed reference, down to every function and table it uses")
		case how != "":
			r.ok("format", name, run.pos[name], "other code, same value graph as the reviewed reference")
		default:
			r.ok("format", name, run.pos[name], "differs from the reviewed reference, but not in what this property is about")
		}
	}
	for _, g := range run.gone {
		if pr.scope(g) && !pr.part {
			r.fail("entry", g, "", "the exported operation is gone")
		}
	}
	for _, x := range run.panics {
		r.Notes = append(r.Notes, "analysis failed: "+x)
	}
	r.Counts["operations compared"] = n
	r.Counts["undecided"] = und
	r.Counts["value graphs built"] = run.graphs
	for h, k := range hows {
		if h != "" {
			r.Counts["same by "+h] = k
		}
	}
	r.floorN("operations under the property", n, pr.floor)
}

const pairRuleText = "Every exported operation of the program is compared with the reviewed reference (/verif/reference) by value graphs: its SSA is evaluated over symbolic inputs into terms for each returned value, each part written through an argument and the condition under which it refuses; loops become maps, sums, quantifiers or recurrences, codecs, hashes and signature primitives are uninterpreted functions, helpers are looked into as needed, and terms are kept in a normal form (ordered decision diagrams over atoms, linear arithmetic, byte sequences). Equal terms show equal behaviour for all inputs. Unequal terms are reported only when a consistent path condition leads to certainly different values. "

func init() {
	accept := func(d *entryDiff) bool { return d.d.kind == "weaker" || d.d.kind == "accepts" || d.d.kind == "edit" }
	value := func(d *entryDiff) bool { return d.d.kind == "value" || d.d.kind == "edit" }
	strict := func(d *entryDiff) bool { return d.d.kind == "stronger" || d.d.kind == "rejects" || d.d.kind == "edit" }

	codecPkg := func(p string) bool { return strings.HasPrefix(p, "addressEncoder") }

	props["P03"] = func(c *Ctx, r *Report, th bool) {
		r.Rule = pairRuleText + "Reported here: a decoder, or an operation that decodes an address, that no longer refuses an input the reference refuses, or that hands out another payload for one it accepts."
		checkPair(c, r, pairRule{
			scope: func(n string) bool { return reDecode.MatchString(funcOf(n)) || isTxPkg(pkgOf(n)) },
			want: func(d *entryDiff) bool {
				if reDecode.MatchString(funcOf(d.name)) {
					return accept(d) || value(d)
				}
				return (accept(d) || value(d)) && anyMatch(reAddr, d.changed)
			},
			floor: 300,
		})
	}
	props["P04"] = func(c *Ctx, r *Report, th bool) {
		r.Rule = pairRuleText + "Reported here: an address operation that accepts, rejects, yields or interprets an address of a network, prefix, version or length differently; and an address profile whose published value differs."
		checkPair(c, r, pairRule{
			scope: func(n string) bool {
				return codecPkg(pkgOf(n)) || pkgOf(n) == "owkeychain" && reDecode.MatchString(funcOf(n)) || isTxPkg(pkgOf(n))
			},
			want: func(d *entryDiff) bool {
				if isTxPkg(pkgOf(d.name)) {
					return anyMatch(reAddr, d.changed) || callsOne(c, d.changed, reAddrUse)
				}
				return true
			},
			floor: 300,
		})
		checkGlobals(c, r, func(pkg, name string) bool { return pkg == "addressEncoder" }, 60)
	}
	props["P09"] = func(c *Ctx, r *Report, th bool) {
		r.Rule = pairRuleText + "Reported here: a transaction operation that emits, hashes or writes other bytes or fields, or refuses what it should build; a record whose JSON form (keys, their order, options, kinds of value) differs; and a count of records cut to one byte."
		checkPair(c, r, pairRule{
			scope: func(n string) bool { return isTxPkg(pkgOf(n)) },
			want:  func(d *entryDiff) bool { return value(d) || strict(d) },
			floor: 300,
		})
		countWidths(c, r)
		jsonForms(c, r, "Marshal")
	}
	props["P10"] = func(c *Ctx, r *Report, th bool) {
		r.Rule = pairRuleText + "Reported here: an encoder of addresses or keys that yields another string or refuses a payload."
		checkPair(c, r, pairRule{
			scope: func(n string) bool {
				return codecPkg(pkgOf(n)) || reEncode.MatchString(funcOf(n)) || strings.HasPrefix(funcOf(n), "CreateMultiSig")
			},
			want: func(d *entryDiff) bool {
				return value(d) || strict(d) || accept(d) && reEncode.MatchString(funcOf(d.name))
			},
			floor: 100,
		})
	}
	props["P11"] = func(c *Ctx, r *Report, th bool) {
		r.Rule = pairRuleText + "Reported here: a transaction operation that no longer refuses an input the reference refuses."
		checkPair(c, r, pairRule{
			scope: func(n string) bool { return isTxPkg(pkgOf(n)) },
			want:  accept,
			floor: 300,
		})
	}
	props["P12"] = func(c *Ctx, r *Report, th bool) {
		r.Rule = pairRuleText + "Reported here: any difference of a key derivation operation: child keys, chain codes, fingerprints, depth, index, curve handling, refusals."
		checkPair(c, r, pairRule{
			scope: func(n string) bool { return pkgOf(n) == "owkeychain" },
			want:  func(d *entryDiff) bool { return true },
			floor: 20,
		})
		checkGlobals(c, r, func(pkg, name string) bool { return pkg == "owkeychain" }, 10)
	}
	props["P13"] = func(c *Ctx, r *Report, th bool) {
		r.Rule = pairRuleText + "Reported here: an encoder or decoder of text forms (base58, bech32, bech32m, base32, base64, EIP-55, extended keys, multi-signature shares) that yields another value or refuses what the other side produces."
		checkPair(c, r, pairRule{
			scope: func(n string) bool {
				return reDecode.MatchString(funcOf(n)) || reEncode.MatchString(funcOf(n)) || codecPkg(pkgOf(n))
			},
			want:  func(d *entryDiff) bool { return true },
			floor: 100,
		})
	}
	props["P14"] = func(c *Ctx, r *Report, th bool) {
		r.Rule = "The initial value of every exported package variable (address profiles, coin types, alphabets, curve and operation codes) is computed from the package initialisers as a term and compared with the reviewed reference by name; every exported constant is compared by its exact value. A value that certainly differs, and a name that is gone, is reported."
		checkGlobals(c, r, func(pkg, name string) bool { return true }, 100)
		checkConsts(c, r)
	}
	props["P16"] = func(c *Ctx, r *Report, th bool) {
		r.Rule = pairRuleText + "Reported here: a signing or combining operation whose signature, its encoding or placement, or its acceptance differs."
		checkPair(c, r, pairRule{
			scope: func(n string) bool {
				return isTxPkg(pkgOf(n)) && (reSign.MatchString(funcOf(n)) || reVerify.MatchString(funcOf(n)))
			},
			want:  func(d *entryDiff) bool { return true },
			floor: 60,
		})
	}
	props["P18"] = func(c *Ctx, r *Report, th bool) {
		r.Rule = pairRuleText + "Reported here: any difference of a multi-signature operation (address and redeem script creation, share encoding, counting, completion)."
		checkPair(c, r, pairRule{
			scope: func(n string) bool {
				return reMulti.MatchString(funcOf(n)) || isTxPkg(pkgOf(n)) && (reSign.MatchString(funcOf(n)) || reVerify.MatchString(funcOf(n)) || strings.HasPrefix(funcOf(n), "CreateRawTransactionHashForSig")) || pkgOf(n) == "owkeychain" && funcOf(n) == "ChainDecode"
			},
			want: func(d *entryDiff) bool {
				return reMulti.MatchString(funcOf(d.name)) || funcOf(d.name) == "ChainDecode" || anyMatch(reMultiIn, d.changed) || reMulti.MatchString(d.d.msg) || accept(d) && callsOne(c, d.changed, reMulti)
			},
			floor: 60,
		})
	}
}

// checkGlobals compares the initial values of exported package variables.
func checkGlobals(c *Ctx, r *Report, want func(pkg, name string) bool, floor int) {
	run := runPair(c)
	if run.err != nil {
		r.fail("reference", "load", "", run.err.Error())
		return
	}
	p := run.p
	n, und := 0, 0
	for _, sp := range p.old.SSA {
		pk := relPkg(sp.Pkg)
		np := c.byPkg[sp.Pkg.Path()]
		var ms []string
		for m := range sp.Members {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			g, ok := sp.Members[m].(*ssa.Global)
			if !ok || g.Object() == nil || !g.Object().Exported() || !want(pk, m) {
				continue
			}
			name := pk + "." + m
			n++
			if np == nil {
				r.fail("published value", name, "", "the package is gone")
				continue
			}
			ng, ok := c.Prog.Package(np.Types).Members[m].(*ssa.Global)
			if !ok {
				r.fail("published value", name, "", "the exported variable is gone")
				continue
			}
			pos := c.Pos(ng.Pos())
			if p.sameGlobal(name) {
				r.ok("published value", name, pos, "same initialiser as the reviewed reference, down to every constant and function it uses")
				continue
			}
			v := p.compareGlobal(g, ng)
			switch v.v {
			case vSame:
				r.ok("published value", name, pos, "same initial value as the reviewed reference")
			case vDiff:
				r.fail("published value", name, pos, v.why)
			default:
				und++
				r.Notes = append(r.Notes, "initial value of "+name+" not decided: "+v.why)
			}
		}
	}
	r.Counts["exported variables compared"] = n
	r.Counts["exported variables undecided"] = und
	r.floorN("exported variables", n, floor)
}

func (p *Pair) compareGlobal(o, n *ssa.Global) (v *verdict) {
	defer func() {
		if x := recover(); x != nil {
			v = &verdict{v: vUndec, why: fmt.Sprint("analysis failed: ", x)}
		}
	}()
	e := newVG(p.old)
	one := func(g *ssa.Global) *vgResult {
		e.deadline = time.Now().Add(evalTime)
		e.b.deadline = e.deadline
		r := &vgResult{slots: map[string]*T{}, fail: e.b.fal}
		t := g.Type().(*types.Pointer).Elem()
		x := e.get(vmem{}, e.global(g))
		e.put(r, g.Name(), x, t, vmem{}, 0)
		return r
	}
	ro := one(o)
	e.side(p.new)
	rn := one(n)
	return e.decideDiff(ro, rn)
}

func checkConsts(c *Ctx, r *Report) {
	run := runPair(c)
	if run.err != nil {
		return
	}
	n := 0
	for _, sp := range run.p.old.SSA {
		pk := relPkg(sp.Pkg)
		np := c.byPkg[sp.Pkg.Path()]
		sc := sp.Pkg.Scope()
		for _, m := range sc.Names() {
			k, ok := sc.Lookup(m).(*types.Const)
			if !ok || !k.Exported() {
				continue
			}
			n++
			name := pk + "." + m
			var nk *types.Const
			if np != nil {
				nk, _ = np.Types.Scope().Lookup(m).(*types.Const)
			}
			if nk == nil {
				r.fail("published constant", name, "", "the exported constant is gone")
				continue
			}
			same := k.Val().Kind() == nk.Val().Kind() && constant.Compare(k.Val(), token.EQL, nk.Val())
			r.add("published constant", name, c.Pos(nk.Pos()), same, fmt.Sprintf("%v, reviewed value %v", nk.Val(), k.Val()))
		}
	}
	r.floorN("exported constants", n, 100)
}
