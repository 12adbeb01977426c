package main

import (
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Comparison of the code under analysis with the reviewed reference. Functions are matched by name.
// A function is the same when its code is and the functions and package variables it uses are; where
// the code differs, the value graphs of both versions are built over the same inputs and compared.

// time for one value graph and for all of them
var evalTime, pairTime = 15 * time.Second, 330 * time.Second

const (
	vSame  = iota // proved equal
	vDiff         // a definite difference
	vUndec        // neither
)

type verdict struct {
	v     int
	why   string  // for vDiff: the place and kind of difference
	slots []vdiff // definite differences
	how   string  // how it was decided
	via   string  // the function the difference comes from
}

type vdiff struct {
	slot  string // r0, out #1, refuses
	kind  string // value, weaker, stronger, accepts, rejects
	msg   string
	fail  bool // it shows when a step fails
	loses bool // a part of the arguments no longer goes in, or not whole
}

type Pair struct {
	old, new *Ctx
	fo, fn   map[string]*ssa.Function
	mu       sync.Mutex
	res      map[string]*verdict
	busy     map[string]bool
	gl       map[string]bool
	own      map[*ssa.Function]string
	evals    int
	trace    bool
	panics   []string
	stop     time.Time // no more graphs after this
}

func loadRef(verif string) (*Ctx, error) {
	return load(filepath.Join(verif, "reference"))
}

func newPair(old, new *Ctx) *Pair {
	return &Pair{old: old, new: new, fo: old.byName(), fn: new.byName(), res: map[string]*verdict{}, busy: map[string]bool{}, gl: map[string]bool{}, own: map[*ssa.Function]string{}, trace: os.Getenv("VGT") != ""}
}

func gname(g *ssa.Global) string { return relPkg(g.Pkg.Pkg) + "." + g.Name() }

// uses lists the functions and package variables of the repository that f refers to.
func (p *Pair) uses(c *Ctx, f *ssa.Function) (fs []string, gs []*ssa.Global) {
	sf, sg := map[string]bool{}, map[*ssa.Global]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o == nil {
						continue
					}
					switch y := (*o).(type) {
					case *ssa.Function:
						if c.inRepo(y) && y.Parent() == nil && y.Synthetic == "" {
							sf[FName(y)] = true
						} else if y.Synthetic != "" {
							visit(y)
						}
					case *ssa.Global:
						if repoGlobal(y) {
							sg[y] = true
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, h := range c.impls(ci.Common()) {
						sf[FName(h)] = true
					}
				}
			}
		}
		for _, a := range g.AnonFuncs {
			visit(a)
		}
	}
	visit(f)
	for k := range sf {
		fs = append(fs, k)
	}
	sort.Strings(fs)
	for g := range sg {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gname(gs[i]) < gname(gs[j]) })
	return
}

// impls: the methods of the repository that a call through an interface can reach.
func (c *Ctx) impls(cc *ssa.CallCommon) (out []*ssa.Function) {
	for _, h := range c.Funcs {
		if h.Signature.Recv() != nil && h.Name() == cc.Method.Name() && types.Implements(h.Signature.Recv().Type(), cc.Value.Type().Underlying().(*types.Interface)) {
			out = append(out, h)
		}
	}
	return
}

// code is the text of a function's SSA, without positions and local names.
func (p *Pair) code(f *ssa.Function) string {
	if s, ok := p.own[f]; ok {
		return s
	}
	var sb strings.Builder
	ids := map[ssa.Value]int{}
	for _, q := range f.Params {
		ids[q] = len(ids)
	}
	for _, q := range f.FreeVars {
		ids[q] = len(ids)
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				ids[v] = len(ids)
			}
		}
	}
	sb.WriteString(sigText(f.Signature))
	for _, b := range f.Blocks {
		fmt.Fprintf(&sb, "\nB%d", b.Index)
		for _, s := range b.Succs {
			fmt.Fprintf(&sb, ">%d", s.Index)
		}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			fmt.Fprintf(&sb, "\n%T", i)
			switch x := i.(type) {
			case *ssa.BinOp:
				sb.WriteString(x.Op.String())
			case *ssa.UnOp:
				sb.WriteString(x.Op.String())
			case *ssa.FieldAddr:
				sb.WriteString(fieldName(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct), x.Field))
			case *ssa.Field:
				sb.WriteString(fieldName(x.X.Type().Underlying().(*types.Struct), x.Field))
			case *ssa.Extract:
				fmt.Fprint(&sb, x.Index)
			case *ssa.TypeAssert:
				fmt.Fprint(&sb, x.AssertedType, x.CommaOk)
			case ssa.CallInstruction:
				if x.Common().IsInvoke() {
					sb.WriteString(x.Common().Method.FullName())
				}
			}
			if v, ok := i.(ssa.Value); ok {
				sb.WriteString(" " + v.Type().String())
			}
			for _, o := range i.Operands(nil) {
				if *o == nil {
					sb.WriteString(" -")
					continue
				}
				switch y := (*o).(type) {
				case *ssa.Const:
					fmt.Fprintf(&sb, " %v:%v", y.Value, y.Type())
				case *ssa.Function:
					if y.Parent() != nil {
						sb.WriteString(" {" + p.code(y) + "}")
					} else {
						sb.WriteString(" " + y.String())
					}
				case *ssa.Global:
					sb.WriteString(" " + y.String())
				case *ssa.Builtin:
					sb.WriteString(" " + y.Name())
				default:
					fmt.Fprintf(&sb, " v%d", ids[*o])
				}
			}
		}
	}
	s := sb.String()
	p.own[f] = s
	return s
}

func sigText(s *types.Signature) string {
	var t []string
	for i := 0; i < s.Params().Len(); i++ {
		t = append(t, s.Params().At(i).Type().String())
	}
	t = append(t, "->")
	for i := 0; i < s.Results().Len(); i++ {
		t = append(t, s.Results().At(i).Type().String())
	}
	return strings.Join(t, " ")
}

// sameGlobal: the package variable has the same initial value on both sides.
func (p *Pair) sameGlobal(name string) bool {
	if v, ok := p.gl[name]; ok {
		return v
	}
	p.gl[name] = true // initialisers that use each other
	v := p.globalText(p.old, name)
	w := p.globalText(p.new, name)
	r := v != "" && v == w
	p.gl[name] = r
	return r
}

// globalText is the source of a variable's declaration, with the text of what it uses.
func (p *Pair) globalText(c *Ctx, name string) string {
	i := strings.LastIndex(name, ".")
	pk := c.byPkg[modPath+"/"+name[:i]]
	if name[:i] == "." || name[:i] == "" {
		pk = c.byPkg[modPath]
	}
	if pk == nil {
		return ""
	}
	obj := pk.Types.Scope().Lookup(name[i+1:])
	if obj == nil {
		return ""
	}
	var sb strings.Builder
	seen := map[types.Object]bool{}
	var show func(o types.Object)
	node := func(n ast.Node) []types.Object {
		fs := token.NewFileSet()
		printer.Fprint(&sb, fs, n)
		sb.WriteByte('\n')
		var out []types.Object
		ast.Inspect(n, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok {
				u := pk.TypesInfo.Uses[id]
				if u == nil || u.Pkg() == nil || !strings.HasPrefix(u.Pkg().Path(), modPath) {
					return true
				}
				switch u := u.(type) {
				case *types.Const:
					fmt.Fprintf(&sb, "%s=%v\n", u.Name(), u.Val())
				case *types.Var:
					if u.Parent() == pk.Types.Scope() {
						out = append(out, u)
					}
				case *types.Func:
					out = append(out, u)
				}
			}
			return true
		})
		return out
	}
	show = func(o types.Object) {
		if seen[o] {
			return
		}
		seen[o] = true
		if f, ok := o.(*types.Func); ok {
			if g := c.Prog.FuncValue(f); g != nil {
				sb.WriteString(p.codeAll(c, g))
			}
			return
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					for k, id := range vs.Names {
						if pk.TypesInfo.Defs[id] != o {
							continue
						}
						fmt.Fprintf(&sb, "var %v ", o.Type())
						var us []types.Object
						if len(vs.Values) == len(vs.Names) {
							us = node(vs.Values[k])
						} else if len(vs.Values) == 1 {
							us = node(vs.Values[0])
						}
						for _, u := range us {
							show(u)
						}
					}
				}
			}
		}
	}
	show(obj)
	// assignments in init functions
	sp := c.Prog.Package(pk.Types)
	if g, ok := sp.Members[name[i+1:]].(*ssa.Global); ok {
		for _, f := range c.Funcs {
			if f.Pkg == sp && strings.HasPrefix(f.Name(), "init#") {
				fs, gs := p.uses(c, f)
				_ = fs
				for _, h := range gs {
					if h == g {
						sb.WriteString(p.codeAll(c, f))
					}
				}
			}
		}
	}
	return sb.String()
}

// codeAll is the code of a function and everything it calls.
func (p *Pair) codeAll(c *Ctx, f *ssa.Function) string {
	var sb strings.Builder
	seen := map[string]bool{}
	by := p.fo
	if c == p.new {
		by = p.fn
	}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if g == nil || seen[FName(g)] {
			return
		}
		seen[FName(g)] = true
		sb.WriteString(p.code(g))
		fs, _ := p.uses(c, g)
		for _, h := range fs {
			visit(by[h])
		}
	}
	visit(f)
	return sb.String()
}

// compare decides whether the named function behaves the same on both sides.
func (p *Pair) compare(name string) *verdict {
	if v, ok := p.res[name]; ok {
		return v
	}
	if p.busy[name] {
		return &verdict{v: vSame}
	}
	p.busy[name] = true
	defer delete(p.busy, name)
	v := p.decide(name)
	p.res[name] = v
	if p.trace && v.how != "code" {
		fmt.Fprintf(os.Stderr, "  %s: %d %s %s %v\n", name, v.v, v.how, v.why, v.slots)
	}
	return v
}

func (p *Pair) decide(name string) *verdict {
	fo, fn := p.fo[name], p.fn[name]
	if fo == nil || fn == nil {
		return &verdict{v: vUndec, how: "one-sided"}
	}
	same := p.code(fo) == p.code(fn)
	us, gs := p.uses(p.new, fn)
	var bad []string
	for _, u := range us {
		if u != name && p.compare(u).v != vSame {
			bad = append(bad, u)
		}
	}
	gbad := false
	for _, g := range gs {
		if !p.sameGlobal(gname(g)) {
			gbad = true
		}
	}
	if same && len(bad) == 0 && !gbad {
		return &verdict{v: vSame, how: "code"}
	}
	if !same {
		uo, _ := p.uses(p.old, fo)
		for _, u := range uo {
			p.compare(u)
		}
	}
	if sigText(fo.Signature) != sigText(fn.Signature) {
		return &verdict{v: vUndec, how: "signature"}
	}
	v := p.graphs(name, fo, fn)
	if v.v == vDiff && same && !gbad && os.Getenv("VGX") == "" {
		// the code around is the same: what is not decided about the callees is not decided here
		und := len(bad) > 0
		for _, u := range bad {
			und = und && p.res[u] != nil && p.res[u].v == vUndec
		}
		if und {
			return &verdict{v: vUndec, how: "callee", why: "undecided: " + strings.Join(bad, " ")}
		}
	}
	if v.v == vUndec && !same && len(bad) == 0 && !gbad && !noGraph {
		if w := p.singleEdit(fo, fn); w != nil {
			return w
		}
	}
	if v.v == vUndec && same && len(bad) == 0 && gbad {
		// the code is the same and a table it uses has certainly another value
		if w := p.otherTable(gs); w != nil {
			return w
		}
	}
	if v.v == vUndec && same && len(bad) > 0 {
		// the code around is the same: a definite difference of a callee shows through
		for _, u := range bad {
			if w := p.res[u]; w != nil && w.v == vDiff && (w.how != "edit" || len(bad) == 1 && !gbad) {
				via, how := w.via, "callee"
				if w.how == "edit" {
					how = "edit"
				}
				if via == "" {
					via = u
				}
				return &verdict{v: vDiff, why: w.why, slots: w.slots, how: how, via: via}
			}
		}
	}
	return v
}

func (p *Pair) isSame(f *ssa.Function) bool {
	for f.Parent() != nil {
		return false
	}
	v := p.res[FName(f)]
	return v != nil && v.v == vSame
}

func (p *Pair) graphs(name string, fo, fn *ssa.Function) *verdict {
	if noGraph || !p.stop.IsZero() && time.Now().After(p.stop) {
		return &verdict{v: vUndec, how: "graph0", why: "out of time"}
	}
	p.evals++
	var best *verdict
	for mode := 0; mode < 3; mode++ {
		if mode > 0 && !p.stop.IsZero() && time.Now().After(p.stop) {
			break
		}
		var opq func(*ssa.Function) bool
		var gopq func(*ssa.Global) bool
		sameG := func(g *ssa.Global) bool { return repoGlobal(g) && p.sameGlobal(gname(g)) }
		switch mode {
		case 0:
			opq, gopq = p.isSame, sameG
		case 1:
			both := p.calledByBoth(fo, fn)
			opq = func(f *ssa.Function) bool { return p.isSame(f) && both[FName(f)] }
			gopq = sameG
		case 2:
			opq = nil
		}
		v := p.evalBoth(fo, fn, opq, gopq)
		v.how = fmt.Sprint("graph", mode)
		if p.trace {
			fmt.Fprintf(os.Stderr, "    %s mode %d: %d %s %v\n", name, mode, v.v, v.why, v.slots)
		}
		if v.v == vSame {
			return v
		}
		if v.why == "too large" {
			if best == nil {
				best = v
			}
			break
		}
		if best == nil || best.v == vUndec && v.v == vDiff {
			best = v
		}
	}
	return best
}

// calledByBoth: the functions both versions reach when helpers without counterpart are looked into.
func (p *Pair) calledByBoth(fo, fn *ssa.Function) map[string]bool {
	reach := func(c *Ctx, by map[string]*ssa.Function, f *ssa.Function) map[string]bool {
		out := map[string]bool{}
		var visit func(g *ssa.Function, d int)
		visit = func(g *ssa.Function, d int) {
			if g == nil || d > 20 {
				return
			}
			fs, _ := p.uses(c, g)
			for _, h := range fs {
				if out[h] {
					continue
				}
				out[h] = true
				if v := p.res[h]; v == nil || v.v != vSame {
					visit(by[h], d+1)
				}
			}
		}
		visit(f, 0)
		return out
	}
	a, b := reach(p.old, p.fo, fo), reach(p.new, p.fn, fn)
	out := map[string]bool{}
	for k := range a {
		if b[k] {
			out[k] = true
		}
	}
	return out
}

func (p *Pair) evalBoth(fo, fn *ssa.Function, opq func(*ssa.Function) bool, gopq func(*ssa.Global) bool) (v *verdict) {
	defer func() {
		if x := recover(); x != nil {
			p.panics = append(p.panics, fmt.Sprint(FName(fn), ": ", x))
			if p.trace {
				debug.PrintStack()
			}
			v = &verdict{v: vUndec, why: "analysis failed"}
		}
	}()
	e := newVG(p.old)
	e.opq, e.gopq = opq, gopq
	e.changedImpl = func(cc *ssa.CallCommon) bool {
		for _, h := range e.c.impls(cc) {
			if !p.isSame(h) {
				return true
			}
		}
		return false
	}
	e.deadline = time.Now().Add(evalTime)
	e.b.deadline = e.deadline
	ro := e.evalEntry(fo)
	e.side(p.new)
	e.deadline = time.Now().Add(evalTime)
	e.b.deadline = e.deadline
	rn := e.evalEntry(fn)
	if ro.over || rn.over {
		return &verdict{v: vUndec, why: "too large"}
	}
	if os.Getenv("VGS") != "" {
		for _, r := range []*vgResult{ro, rn} {
			var ks []string
			for k := range r.slots {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Fprintf(os.Stderr, "      %s = %v\n", k, r.slots[k])
			}
			fmt.Fprintf(os.Stderr, "      FAIL %v\n      why %v\n", r.fail, e.why)
		}
	}
	return e.decideDiff(ro, rn)
}

func (e *VG) decideDiff(ro, rn *vgResult) (v *verdict) {
	e.b.deadline = time.Now().Add(evalTime)
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(vgOver); !ok {
				panic(x)
			}
			v = &verdict{v: vUndec, why: "comparison too large"}
		}
	}()
	return diffResults(e, ro, rn)
}

// side switches to the other program; inputs keep their names.
func (e *VG) side(c *Ctx) {
	e.c = c
	e.sym = map[*T]int{}
	e.glob = map[*ssa.Global]int{}
	e.gmem = vmem{}
	e.inited = map[*ssa.Package]bool{}
	e.fns = map[string]*ssa.Function{}
	e.b.unkN = 0
}

// dumpCmp prints what differs from the reference (debugging).
func dumpCmp(repo, verif, pat string) {
	re := regexp.MustCompile(pat)
	o, err := loadRef(verif)
	if err != nil {
		panic(err)
	}
	n, err := load(repo)
	if err != nil {
		panic(err)
	}
	p := newPair(o, n)
	cnt := map[string]int{}
	t0 := time.Now()
	if os.Getenv("VGF") != "" {
		// every function against itself
		for nme := range p.fo {
			p.compare(nme)
		}
		for _, f := range n.Funcs {
			p.isSame(f)
			p.sameGlobalsOf(f)
		}
		var fs []*ssa.Function
		for _, f := range o.Funcs {
			if f.Parent() == nil && re.MatchString(FName(f)) && f.Name() != "init" {
				fs = append(fs, f)
			}
		}
		out := make([]string, len(fs))
		whys := map[string]int{}
		var mu sync.Mutex
		parallel(len(fs), func(i int) {
			f := fs[i]
			t1 := time.Now()
			e := newVG(p.old)
			e.opq, e.gopq = func(g *ssa.Function) bool { return g != f && p.isSame(g) }, func(g *ssa.Global) bool { return repoGlobal(g) }
			if os.Getenv("VGF") == "2" {
				e.opq, e.gopq = nil, nil
			}
			e.deadline = time.Now().Add(evalTime)
			e.b.deadline = e.deadline
			ro := e.evalEntry(f)
			e.side(p.new)
			e.deadline = time.Now().Add(evalTime)
			e.b.deadline = e.deadline
			rn := e.evalEntry(p.fn[FName(f)])
			if os.Getenv("VGS") != "" {
				for k, t := range ro.slots {
					fmt.Fprintf(os.Stderr, "      %s = %v\n", k, t)
				}
				fmt.Fprintf(os.Stderr, "      FAIL %v\n", ro.fail)
			}
			st := "ok"
			if ro.over || rn.over {
				st = "OVER"
			} else {
				v := e.decideDiff(ro, rn)
				unk := ro.fail.unk
				for _, t := range ro.slots {
					unk = unk || t.unk
				}
				if unk {
					st = "unk"
				}
				if v.v != vSame {
					st = fmt.Sprint("DIFFERS ", v.v, " ", v.why, v.slots)
				}
			}
			mu.Lock()
			cnt[strings.Fields(st)[0]]++
			if st != "ok" {
				for w := range e.why {
					if !strings.HasPrefix(w, "ext ") {
						whys[w]++
					}
				}
			}
			mu.Unlock()
			out[i] = fmt.Sprintf("%s %s %v %d", FName(f), st, time.Since(t1).Round(time.Millisecond), e.b.next)
			if st != "ok" {
				out[i] += fmt.Sprint(" ", e.why)
			}
		})
		for _, l := range out {
			fmt.Println(l)
		}
		fmt.Println(cnt, whys, time.Since(t0))
		return
	}
	for _, f := range depEntries(o) {
		if !re.MatchString(FName(f)) {
			continue
		}
		v := p.compare(FName(f))
		cnt[fmt.Sprint(v.v, v.how)]++
		if v.v != vSame {
			fmt.Printf("%s %d %s via=%s %s\n", FName(f), v.v, v.how, v.via, v.why)
			for _, s := range v.slots {
				fmt.Printf("    %s %s %s\n", s.slot, s.kind, s.msg)
			}
		}
	}
	fmt.Println(cnt, p.evals, time.Since(t0))
}

func (p *Pair) sameGlobalsOf(f *ssa.Function) {
	_, gs := p.uses(p.new, f)
	for _, g := range gs {
		p.sameGlobal(gname(g))
	}
}

// otherTable: one of the package variables has certainly another initial value, and the others do not differ.
func (p *Pair) otherTable(gs []*ssa.Global) *verdict {
	var out *verdict
	for _, g := range gs {
		if p.sameGlobal(gname(g)) {
			continue
		}
		o, ok := p.old.Prog.ImportedPackage(g.Pkg.Pkg.Path()).Members[g.Name()].(*ssa.Global)
		if !ok {
			return nil
		}
		switch v := p.compareGlobal(o, g); v.v {
		case vDiff:
			msg := "the table " + gname(g) + " has another value: " + v.why
			if out == nil {
				out = &verdict{v: vDiff, why: msg, how: "edit", slots: []vdiff{{"table", "edit", msg, false, false}}}
			}
		case vUndec:
			return nil
		}
	}
	return out
}
