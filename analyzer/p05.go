package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P05"] = p05 }

var secretName = regexp.MustCompile(`(?i)^(pri(v(ate)?)?_?key(bytes)?|seed|secret(key)?|sk)$`)

// keyOperand: the operand of a library call that is a private key.
func keyOperand(call ssa.CallInstruction) (int, bool) {
	switch {
	case isOwcrypt(call, "Signature"), isOwcrypt(call, "GenPubkey"), isOwcrypt(call, "Point_mulBaseG"), isOwcrypt(call, "Decryption"):
		return 0, true
	case isOwcrypt(call, "Point_mul"), isOwcrypt(call, "Point_mulBaseG_add"):
		return 1, true
	}
	return 0, false
}

type leak struct{ sink, in, at string }

type p05res struct {
	name, pos string
	secrets   []string
	leaks     []leak
	results   map[string][]string // part of the result -> secret labels in it
	sinks     int
	over      bool
}

// sinkOf: calls that show their operands to the outside.
func sinkOf(call ssa.CallInstruction) string {
	cc := call.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "panic", "print", "println":
			return b.Name()
		}
		return ""
	}
	pkg, name := calleeID(call)
	switch pkg {
	case "fmt":
		if strings.HasPrefix(name, "Print") || strings.HasPrefix(name, "Fprint") || name == "Errorf" {
			return "fmt." + name
		}
	case "errors", "github.com/pkg/errors", "golang.org/x/xerrors":
		return pkg + "." + name
	case "log", "log/slog", "os", "io/ioutil", "net", "net/http", "syscall", "testing", "runtime":
		return pkg + "." + name
	}
	for _, a := range cc.Args {
		if mi, ok := a.(*ssa.MakeInterface); ok && mi.X.Type().String() == "*os.File" {
			return pkg + "." + name + " on a file"
		}
	}
	if strings.Contains(pkg, "/log") || strings.Contains(pkg, "logger") || strings.Contains(pkg, "beego") || strings.Contains(pkg, "logrus") {
		return pkg + "." + name
	}
	return ""
}

func secretRun(c *Ctx, f *ssa.Function, private bool, seedLabels func(it *Interp) map[string]bool) p05res {
	it := newInterp(c)
	res := p05res{name: FName(f), pos: c.Pos(f.Pos()), results: map[string][]string{}}
	type pend struct {
		leak
		may LSet
	}
	var pending []pend
	var secret LSet
	it.OnCall = func(call ssa.CallInstruction, args []Val, mem Mem, fn *ssa.Function) {
		if k, ok := keyOperand(call); ok && k < len(args) {
			may, _ := it.content(mem, args[k])
			secret = secret.union(may)
		}
		if s := sinkOf(call); s != "" {
			res.sinks++
			var m LSet
			for _, a := range args {
				may, _ := it.content(mem, a)
				m = m.union(may)
			}
			pending = append(pending, pend{leak{s, FName(fn), c.Pos(call.Pos())}, m})
		}
	}
	it.OnError = func(mi *ssa.MakeInterface, v Val, mem Mem, fn *ssa.Function) {
		res.sinks++
		m, _ := it.content(mem, v)
		pending = append(pending, pend{leak{"an error value", FName(fn), c.Pos(mi.Pos())}, m})
	}
	it.Model = func(it *Interp, call ssa.CallInstruction, args []Val, mem Mem) (Val, bool) {
		k, ok := keyOperand(call)
		if !ok {
			return Val{}, false
		}
		// one-way: the result does not show the key
		var may, must LSet
		for i, a := range args {
			if i == k {
				continue
			}
			x, y := it.content(mem, a)
			may, must = may.union(x), must.union(y)
		}
		ts := resultTypes(call)
		if len(ts) == 1 {
			return it.fresh(call, "", ts[0], mem, may, must), true
		}
		v := Val{agg: map[string]Val{}}
		for i, t := range ts {
			v.agg[fmt.Sprintf("#%d", i)] = it.fresh(call, fmt.Sprintf("#%d", i), t, mem, may, must)
		}
		return v, true
	}
	keyChain := private
	if private {
		it.ConstInput = func(label string, t types.Type) constant.Value {
			if isBool(t) && strings.HasPrefix(label, "#0.") {
				return constant.MakeBool(true)
			}
			return nil
		}
	}
	type ev struct {
		o *Obj
		p string
	}
	wr := map[ev]string{}
	it.OnStore = func(o *Obj, p string, at ssa.Instruction, how string) {
		if how != "append" {
			wr[ev{o, p}] = c.Pos(at.Pos())
		}
	}
	rs, mem, _ := it.Entry(f)
	res.over = it.over
	// secrets: what flows into key operands, and what is declared as such (child keys of the key
	// chain mix the key with public indices and chain codes, so there only the declared ones)
	if keyChain {
		secret = LSet{}
	}
	for l := range seedLabels(it) {
		secret = secret.with(it.label(l))
	}
	for i, p := range f.Params {
		if secretName.MatchString(p.Name()) {
			secret = secret.with(it.label(fmt.Sprintf("#%d", i)))
		}
	}
	for _, l := range append([]string{}, it.labels...) {
		if i := strings.LastIndex(l, "."); i > 0 && secretName.MatchString(l[i+1:]) {
			secret = secret.with(it.label(l))
		}
	}
	res.secrets = it.names(secret)
	for _, p := range pending {
		if x := p.may.inter(secret); !x.empty() {
			p.leak.sink += " shows " + strings.Join(it.names(x), ",")
			res.leaks = append(res.leaks, p.leak)
		}
	}
	d := &depRun{it: it, mem: mem, slots: map[string]Slot{}}
	for i, v := range rs {
		d.record(fmt.Sprintf("r%d", i), v, f.Signature.Results().At(i).Type(), 0)
	}
	sec := toSet(res.secrets)
	for s, v := range d.slots {
		for _, l := range append(append([]string{}, v.Must...), v.May...) {
			if sec[l] {
				res.results[s] = append(res.results[s], l)
			}
		}
	}
	for e, at := range wr {
		v, ok := mem[cellKey{e.o, e.p}]
		if !ok {
			continue
		}
		may, _ := it.content(mem, v)
		lab := cleanLabel(e.o.label + e.p)
		x := may.inter(secret)
		if sec[lab] {
			continue // the key's own memory
		}
		if !x.empty() {
			res.leaks = append(res.leaks, leak{e.o.root + " memory " + lab + " holds " + strings.Join(it.names(x), ","), FName(f), at})
		}
	}
	sort.Slice(res.leaks, func(i, j int) bool { return fmt.Sprint(res.leaks[i]) < fmt.Sprint(res.leaks[j]) })
	return res
}

// keyFields finds the field of the extended key that holds the private key, by what GetPrivateKeyBytes returns.
func keyFields(c *Ctx) []string {
	f := c.byName()["owkeychain.(ExtendedKey).GetPrivateKeyBytes"]
	if f == nil {
		return nil
	}
	it := newInterp(c)
	rs, mem, _ := it.Entry(f)
	if len(rs) == 0 {
		return nil
	}
	may, _ := it.content(mem, rs[0])
	var out []string
	for _, l := range it.names(may) {
		out = append(out, strings.TrimPrefix(l, "#0"))
	}
	return out
}

// privateResults: operations whose purpose is to hand out private key material, with the part of the result that may hold it.
var privateResults = map[string]string{
	"owkeychain.(ExtendedKey).GetPrivateKeyBytes":       "returns the private key",
	"owkeychain.(ExtendedKey).GenPrivateChild":          "returns the private child",
	"owkeychain.(ExtendedKey).OWEncode":                 "serialises the extended key it is called on",
	"owkeychain.DerivedPrivateKeyWithPath":              "returns the derived private key",
	"owkeychain.DerivedPrivateKeyBytes":                 "returns the derived private key",
	"owkeychain.InitRootKeyFromSeed":                    "returns the master private key",
	"owkeychain.NewExtendedKey":                         "builds the key from its parts",
	"owkeychain.OWDecode":                               "parses an extended key",
	"owkeychain.(ExtendedKey).DerivedPublicKeyFromPath": "every round of its loop is GenPublicChild, and the path has at least one element",
}

func p05(c *Ctx, r *Report, thorough bool) {
	r.Rule = "Taint analysis of every exported operation with all its callees. Sources: every input that may reach the private-key operand of a library signing or key-generation call, inputs declared as private key or seed, and the key field of an extended key. Signing, public-key generation and point multiplication are one-way and clear the taint; nothing else does (hashes, encodings, slices keep it). A tainted value in a returned value, in caller or package memory, in an error text, in printed, logged or otherwise emitted data or in a panic is a violation; operations whose purpose is to return private material are listed. Public-key operations of the key chain are analysed for a receiver that is a private key: the key part of what they return must be free of taint."
	kf := keyFields(c)
	if len(kf) == 0 {
		r.fail("anchor", "owkeychain private key field", "", "GetPrivateKeyBytes no longer returns a field of its receiver")
	}
	es := depEntries(c)
	rs := make([]p05res, len(es))
	parallel(len(es), func(i int) {
		f := es[i]
		pk := relPkg(f.Pkg.Pkg)
		private := pk == "owkeychain"
		rs[i] = secretRun(c, f, private, func(it *Interp) map[string]bool {
			m := map[string]bool{}
			if private && f.Signature.Recv() != nil && recordOf(f.Signature.Recv().Type()) != nil && recordOf(f.Signature.Recv().Type()).Obj().Name() == "ExtendedKey" {
				for _, k := range kf {
					m["#0"+k] = true
				}
			}
			return m
		})
	})
	src, sinks := 0, 0
	for i, x := range rs {
		sinks += x.sinks
		if x.over {
			r.fail("analysis", x.name, x.pos, "the analysis ran out of its step budget")
		}
		for _, l := range x.leaks {
			r.fail("no-emission", x.name+" in "+l.in, l.at, fmt.Sprintf("%s, reached from exported %s: %s", l.in, x.name, l.sink))
		}
		if len(x.secrets) == 0 {
			continue
		}
		src++
		if len(x.leaks) == 0 {
			r.ok("no-emission", x.name, x.pos, "secrets "+strings.Join(x.secrets, ",")+" reach no printed, logged, error, panic, caller or package memory")
		}
		if _, ok := privateResults[x.name]; ok {
			continue
		}
		pk := relPkg(es[i].Pkg.Pkg)
		var bad []string
		for s, ls := range x.results {
			if pk == "owkeychain" && strings.HasPrefix(s, "r0.") {
				// in a public extended key the chain code and fingerprint derive from the parent; the key part must not
				isKey := false
				for _, k := range kf {
					if strings.HasSuffix(s, k) {
						isKey = true
					}
				}
				if !isKey {
					continue
				}
			}
			bad = append(bad, fmt.Sprintf("%s holds %s", s, strings.Join(ls, ",")))
		}
		sort.Strings(bad)
		r.add("no-return", x.name, x.pos, len(bad) == 0, "secrets "+strings.Join(x.secrets, ",")+"; "+strings.Join(bad, "; "))
	}
	r.Counts["entry points"] = len(es)
	r.Counts["entry points handling secrets"] = src
	r.Counts["emission sites reached"] = sinks
	r.floorN("entry points handling secrets", src, 35)
	r.floor("no-return", 30)
	r.Trust = append(r.Trust, "go-owcrypt signing and key generation do not reveal the key")
}
