package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/blocktree/go-owcdrivers"
const owcryptPath = "github.com/blocktree/go-owcrypt"

// unbuildable: the two packages that do not compile in this environment (missing
// dependencies); they are not part of the build and are outside every check.
var unbuildable = map[string]bool{
	modPath + "/signatureSet": true,
	modPath + "/eosSignature": true,
}

// Ctx is the resolved program: every package of the build, type checked, in SSA form.
type Ctx struct {
	hexBusy map[any]bool
	Repo    string
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	Prog    *ssa.Program
	SSA     []*ssa.Package
	Funcs   []*ssa.Function // every source function of the repo (incl. methods, closures)
	byPkg   map[string]*packages.Package
	algOnce sync.Once
	algs    map[int64]string
	Verif   string
}

func load(repo string) (*Ctx, error) { return loadOver(repo, nil) }

func loadOver(repo string, over map[string][]byte) (*Ctx, error) {
	os.Setenv("GOFLAGS", envOr("OWC_GOFLAGS", "-mod=readonly -modfile=/opt/vp/owcdrivers.mod"))
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOWORK", "off")
	os.Setenv("CGO_ENABLED", "1")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir:     repo,
		Tests:   false,
		Overlay: over,
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var keep []*packages.Package
	for _, p := range ps {
		if unbuildable[p.PkgPath] {
			continue
		}
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s does not type-check: %v", p.PkgPath, p.Errors[0])
		}
		keep = append(keep, p)
	}
	if len(keep) < 35 {
		return nil, fmt.Errorf("only %d packages were loaded, expected at least 35", len(keep))
	}
	sort.Slice(keep, func(i, j int) bool { return keep[i].PkgPath < keep[j].PkgPath })
	prog, sp := ssautil.Packages(keep, ssa.InstantiateGenerics)
	prog.Build()
	c := &Ctx{hexBusy: map[any]bool{}, Repo: repo, Fset: keep[0].Fset, Pkgs: keep, Prog: prog, SSA: sp, byPkg: map[string]*packages.Package{}}
	inRepo := map[*ssa.Package]bool{}
	for i, p := range keep {
		c.byPkg[p.PkgPath] = p
		if sp[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		inRepo[sp[i]] = true
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && inRepo[f.Pkg] && len(f.Blocks) > 0 && f.Synthetic == "" {
			c.Funcs = append(c.Funcs, f)
		}
	}
	sort.Slice(c.Funcs, func(i, j int) bool {
		a, b := c.Fset.Position(c.Funcs[i].Pos()), c.Fset.Position(c.Funcs[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		return a.Offset < b.Offset
	})
	return c, nil
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Pos renders a position relative to the repository.
func (c *Ctx) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := c.Fset.Position(p)
	rel, err := filepath.Rel(c.Repo, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (c *Ctx) File(p token.Pos) string {
	q := c.Fset.Position(p)
	rel, err := filepath.Rel(c.Repo, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return rel
}

// short package name relative to the module
func relPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	s := strings.TrimPrefix(p.Path(), modPath)
	s = strings.TrimPrefix(s, "/")
	if s == "" {
		return "."
	}
	return s
}

// FName is the stable name of a function: pkg.Func or pkg.(T).Method.
func FName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		return FName(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	pk := ""
	if f.Pkg != nil {
		pk = relPkg(f.Pkg.Pkg)
	} else if f.Object() != nil {
		pk = relPkg(f.Object().Pkg())
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return fmt.Sprintf("%s.(%s).%s", pk, n.Obj().Name(), f.Name())
		}
	}
	return pk + "." + f.Name()
}

func (c *Ctx) inRepo(f *ssa.Function) bool {
	return f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && len(f.Blocks) > 0
}

// callee resolves the static callee of a call, looking through function values where possible.
func callee(call ssa.CallInstruction) *ssa.Function {
	return call.Common().StaticCallee()
}

// calleeObj gives package path and name of a statically resolved callee or interface method.
func calleeID(call ssa.CallInstruction) (pkg, name string) {
	cc := call.Common()
	if cc.IsInvoke() {
		m := cc.Method
		if m.Pkg() != nil {
			return m.Pkg().Path(), m.Name()
		}
		return "", m.Name()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin", b.Name()
	}
	f := cc.StaticCallee()
	if f == nil {
		return "", ""
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		n := f.Name()
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if nm, ok := t.(*types.Named); ok {
				n = nm.Obj().Name() + "." + n
			}
		}
		return f.Object().Pkg().Path(), n
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path(), f.Name()
	}
	return "", f.Name()
}

func isOwcrypt(call ssa.CallInstruction, names ...string) bool {
	p, n := calleeID(call)
	if p != owcryptPath {
		return false
	}
	for _, x := range names {
		if n == x {
			return true
		}
	}
	return len(names) == 0
}

var errType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errType) }
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func constInt(v ssa.Value) (int64, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return 0, false
		}
		k := constant.ToInt(x.Value)
		if k.Kind() != constant.Int {
			return 0, false
		}
		if i, ok := constant.Int64Val(k); ok {
			return i, true
		}
		if u, ok := constant.Uint64Val(k); ok {
			return int64(u), true
		}
	case *ssa.Convert:
		return constInt(x.X)
	case *ssa.ChangeType:
		return constInt(x.X)
	}
	return 0, false
}

func constBool(v ssa.Value) (bool, bool) {
	if x, ok := v.(*ssa.Const); ok && x.Value != nil && x.Value.Kind() == constant.Bool {
		return constant.BoolVal(x.Value), true
	}
	return false, false
}

// owcryptConst gives the value of an exported owcrypt constant.
func (c *Ctx) owcryptConst(name string) (int64, bool) {
	for _, p := range c.Pkgs {
		for _, imp := range p.Types.Imports() {
			if imp.Path() == owcryptPath {
				if k, ok := imp.Scope().Lookup(name).(*types.Const); ok {
					if i, ok := constant.Int64Val(constant.ToInt(k.Val())); ok {
						return i, true
					}
				}
				if _, ok := imp.Scope().Lookup(name).(*types.Var); ok {
					return 0, false
				}
			}
		}
	}
	return 0, false
}

// calls iterates over the call instructions of f.
func calls(f *ssa.Function, fn func(ssa.CallInstruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				fn(ci)
			}
		}
	}
}

func exported(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
		return false
	}
	return true
}

// fileOf gives the AST file that holds pos.
func (c *Ctx) fileOf(p token.Pos) *ast.File {
	for _, pk := range c.Pkgs {
		for _, f := range pk.Syntax {
			if f.FileStart <= p && p <= f.FileEnd {
				return f
			}
		}
	}
	return nil
}
