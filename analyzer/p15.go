package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ambient: what a library call brings in from outside the arguments ("" for nothing).
func ambient(pkg, name string) string {
	switch pkg {
	case "time":
		switch name {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker", "Sleep", "AfterFunc":
			return "the clock (time." + name + ")"
		case "LoadLocation", "Time.Local", "Time.Zone":
			return "the local time zone"
		}
		if strings.HasPrefix(name, "Time.Format") || name == "Unix" {
			return ""
		}
	case "math/rand", "math/rand/v2", "crypto/rand":
		return "random numbers (" + pkg + ")"
	case "os", "os/exec", "os/user", "io/ioutil", "syscall", "os/signal", "plugin":
		return "the operating system (" + pkg + "." + name + ")"
	case "net", "net/http", "net/rpc":
		return "the network (" + pkg + "." + name + ")"
	case "runtime", "runtime/debug":
		return "the run-time system (" + pkg + "." + name + ")"
	case "path/filepath":
		switch name {
		case "Abs", "Glob", "Walk", "WalkDir", "EvalSymlinks":
			return "the file system (" + pkg + "." + name + ")"
		}
	case "fmt":
		switch name {
		case "Scan", "Scanln", "Scanf":
			return "standard input"
		}
	case "unsafe":
		return ""
	}
	if strings.HasPrefix(pkg, "net/") && pkg != "net/url" && pkg != "net/netip" && pkg != "net/mail" && pkg != "net/textproto" {
		return "the network (" + pkg + ")"
	}
	return ""
}

// ambients gives, per kind of ambient input, a call site reached from f.
func ambients(c *Ctx, f *ssa.Function) (map[string]string, int) {
	out := map[string]string{}
	seen := map[*ssa.Function]bool{}
	sites := 0
	var visit func(g *ssa.Function)
	note := func(k string, in ssa.Instruction, g *ssa.Function) {
		if k != "" && out[k] == "" {
			out[k] = fmt.Sprintf("%s in %s", c.Pos(in.Pos()), FName(g))
		}
	}
	visit = func(g *ssa.Function) {
		if seen[g] {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					note("scheduling (go statement)", in, g)
				case *ssa.Select:
					note("scheduling (select)", in, g)
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok && !orderFree(x) {
						note("the iteration order of a map", in, g)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					sites++
					cc := ci.Common()
					if cc.IsInvoke() {
						for _, h := range c.impls(cc) {
							visit(h)
						}
					}
					if h := cc.StaticCallee(); h == nil || !c.inRepo(h) {
						pkg, name := calleeID(ci)
						note(ambient(pkg, name), in, g)
					}
				}
				for _, o := range in.Operands(nil) {
					if *o == nil {
						continue
					}
					switch h := (*o).(type) {
					case *ssa.Function:
						if c.inRepo(h) || h.Synthetic != "" && len(h.Blocks) > 0 && h.Pkg == nil {
							visit(h)
						} else if h.Pkg != nil {
							note(ambient(h.Pkg.Pkg.Path(), h.Name()), in, g)
						}
					case *ssa.Global:
						if h.Pkg != nil && (h.Pkg.Pkg.Path() == "crypto/rand" || h.Pkg.Pkg.Path() == "os" && h.Name() != "Stdout" && h.Name() != "Stderr") {
							note(ambient(h.Pkg.Pkg.Path(), h.Name()), in, g)
						}
					}
				}
			}
		}
		for _, a := range g.AnonFuncs {
			visit(a)
		}
	}
	visit(f)
	return out, sites
}

// orderFree: the loop over a map only fills maps, counts, and tests, so the order does not show.
func orderFree(r *ssa.Range) bool {
	if r.Referrers() == nil {
		return false
	}
	// keys collected and then sorted
	for _, b := range r.Parent().Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if pkg, name := calleeID(ci); pkg == "sort" || pkg == "slices" && strings.HasPrefix(name, "Sort") {
					return true
				}
			}
		}
	}
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return true
	}
	var body map[*ssa.BasicBlock]bool
	var head *ssa.BasicBlock
	for _, l := range findLoops(r.Parent()) {
		if l.Body[next.Block()] && (body == nil || len(l.Body) < len(body)) {
			body, head = l.Body, l.Head
		}
	}
	if body == nil {
		return false
	}
	for b := range body {
		// leaving early picks an element
		if b != head {
			for _, s := range b.Succs {
				if !body[s] {
					return false
				}
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Next, *ssa.Extract, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Lookup, *ssa.MapUpdate, *ssa.Convert, *ssa.ChangeType, *ssa.UnOp, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index:
			case *ssa.Phi:
				if bt, ok := x.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
					return false
				}
			case *ssa.BinOp:
			case *ssa.Call:
				bi, ok := x.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "len" && bi.Name() != "delete" {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func init() {
	props["P15"] = func(c *Ctx, r *Report, th bool) {
		r.Rule = "From every exported operation the call graph (static calls, methods behind interfaces, functions used as values) is followed to every call of the standard library and other modules. Reaching the clock, random numbers, the environment, files, processes, the network, the run-time system, goroutines or the iteration order of a map is reported, except for the operations that stamp a new transaction with the time or a random nonce, which are fixed by the reviewed reference."
		run := runPair(c)
		if run.err != nil {
			r.fail("reference", "load", "", run.err.Error())
			return
		}
		n, sites := 0, 0
		var may []string
		for _, f := range depEntries(c) {
			name := FName(f)
			n++
			got, k := ambients(c, f)
			sites += k
			ok := map[string]string{}
			if o := run.p.fo[name]; o != nil {
				ok, _ = ambients(run.p.old, o)
			} else if len(got) > 0 {
				// a new operation: judged through the ones that use it
				continue
			}
			kinds := map[string]bool{}
			for a := range ok {
				kinds[kindOfAmbient(a)] = true
			}
			var ks []string
			for a := range got {
				ks = append(ks, a)
			}
			sort.Strings(ks)
			bad := false
			for _, a := range ks {
				if kinds[kindOfAmbient(a)] {
					may = append(may, name+": "+a)
					continue
				}
				bad = true
				r.fail("ambient input", name+" "+kindOfAmbient(a), c.Pos(f.Pos()), "reaches "+a+" at "+got[a])
			}
			if !bad {
				r.ok("ambient input", name, c.Pos(f.Pos()), "reaches no source of ambient input beyond its purpose")
			}
		}
		r.Counts["operations"] = n
		r.Counts["call sites followed"] = sites
		for _, m := range may {
			r.Notes = append(r.Notes, "by purpose: "+m)
		}
		r.floorN("operations", n, 500)
		r.floorN("operations that use the clock or random numbers by purpose", len(may), 5)
	}
	props["P17"] = func(c *Ctx, r *Report, th bool) {
		r.Rule = pairRuleText + "Reported here: a package whose signing and verifying calls name different curves, and any difference of a signing or verifying operation in digest, key form, signature form or acceptance."
		curves(c, r)
		checkPair(c, r, pairRule{
			scope: func(n string) bool {
				return isTxPkg(pkgOf(n)) && (reSign.MatchString(funcOf(n)) || reVerify.MatchString(funcOf(n)) || strings.HasPrefix(funcOf(n), "CreateRawTransactionHashForSig"))
			},
			want:  func(d *entryDiff) bool { return true },
			floor: 60,
		})
	}
	props["P19"] = func(c *Ctx, r *Report, th bool) {
		r.Rule = pairRuleText + "Reported here: a transaction decoder that yields other fields, or accepts or refuses differently; a record read from JSON whose keys or kinds of value differ."
		checkPair(c, r, pairRule{
			scope: func(n string) bool {
				f := funcOf(n)
				return isTxPkg(pkgOf(n)) && (strings.HasPrefix(f, "DecodeRaw") || strings.HasPrefix(f, "DecodeTx") || f == "TxStructDecode" || f == "NewTxStructFromJSON" || strings.HasPrefix(f, "GetInputsFrom") || strings.HasPrefix(f, "InsertSignature") || reVerify.MatchString(f) || strings.HasPrefix(f, "CreateRawTransactionHashForSig") || strings.HasPrefix(f, "(TxIn).Get") || strings.HasPrefix(f, "(TxOut).Get") || strings.HasPrefix(f, "(TxHash).Get") || strings.HasPrefix(f, "(Transaction).Get"))
			},
			want: func(d *entryDiff) bool {
				f := funcOf(d.name)
				if strings.HasPrefix(f, "InsertSignature") || reVerify.MatchString(f) || strings.HasPrefix(f, "CreateRawTransactionHashForSig") {
					for _, x := range d.changed {
						if strings.Contains(strings.ToLower(x), "decode") {
							return true
						}
					}
					return false
				}
				return true
			},
			floor: 60,
		})
		jsonForms(c, r, "Unmarshal")
	}
}

func kindOfAmbient(a string) string {
	k, _, _ := strings.Cut(a, " (")
	return k
}

// curves: within a package, the curves named in signing and in verifying calls agree.
func curves(c *Ctx, r *Report) {
	fam := func(n string) string {
		// one curve, two key formats
		return strings.TrimSuffix(n, "_NORMAL")
	}
	names := map[string]string{}
	for _, pk := range c.Prog.AllPackages() {
		if pk.Pkg.Path() == owcryptPath {
			for _, m := range pk.Pkg.Scope().Names() {
				if k, ok := pk.Pkg.Scope().Lookup(m).(*types.Const); ok && strings.HasPrefix(m, "ECC_CURVE_") {
					names[k.Val().ExactString()] = m
				}
			}
		}
	}
	type use struct{ sign, ver map[string]string }
	by := map[string]*use{}
	sites := 0
	for _, f := range c.Funcs {
		if f.Pkg == nil || !isTxPkg(relPkg(f.Pkg.Pkg)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != owcryptPath || g.Name() != "Signature" && g.Name() != "Verify" {
					continue
				}
				as := ci.Common().Args
				k, ok := as[len(as)-1].(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
					continue
				}
				sites++
				p := relPkg(f.Pkg.Pkg)
				u := by[p]
				if u == nil {
					u = &use{map[string]string{}, map[string]string{}}
					by[p] = u
				}
				n := names[k.Value.ExactString()]
				if n == "" {
					n = k.Value.ExactString()
				}
				at := c.Pos(in.Pos()) + " in " + FName(f)
				if g.Name() == "Signature" {
					u.sign[fam(n)] = at
				} else {
					u.ver[fam(n)] = at
				}
			}
		}
	}
	var ps []string
	for p := range by {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		u := by[p]
		if len(u.sign) == 0 || len(u.ver) == 0 {
			continue
		}
		msg := ""
		for n, at := range u.sign {
			if u.ver[n] == "" {
				msg = fmt.Sprintf("signs on %s (%s) but never verifies on it", n, at)
			}
		}
		for n, at := range u.ver {
			if u.sign[n] == "" {
				msg = fmt.Sprintf("verifies on %s (%s) but never signs on it", n, at)
			}
		}
		if msg == "" {
			r.ok("curve", p, "", "signs and verifies on the same curve")
		} else {
			r.fail("curve", p, "", msg)
		}
	}
	r.Counts["signature and verification calls"] = sites
}
