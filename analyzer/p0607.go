package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Effects of the exported operations on memory that is not theirs.

type effect struct {
	entry, what, how, at, in string
	param                    int
	glob                     *ssa.Global
}

type effRun struct {
	effs []effect
	n    int
	fns  map[*ssa.Function]bool
	over []string
}

func effects(c *Ctx) *effRun {
	es := depEntries(c)
	r := &effRun{fns: map[*ssa.Function]bool{}, n: len(es)}
	var mu sync.Mutex
	parallel(len(es), func(i int) {
		f := es[i]
		it := newInterp(c)
		seen := map[effect]bool{}
		it.OnStore = func(o *Obj, p string, at ssa.Instruction, how string) {
			e := effect{entry: FName(f), how: how, at: c.Pos(at.Pos()), in: FName(at.Parent()), what: cleanLabel(o.label + p), param: o.pidx, glob: o.glob}
			if o.root != "param" {
				e.param = -1
			}
			seen[e] = true
		}
		it.Entry(f)
		mu.Lock()
		defer mu.Unlock()
		for e := range seen {
			r.effs = append(r.effs, e)
		}
		for g := range it.fnsSeen {
			r.fns[g] = true
		}
		if it.over {
			r.over = append(r.over, FName(f))
		}
	})
	sort.Slice(r.effs, func(i, j int) bool { return fmt.Sprint(r.effs[i]) < fmt.Sprint(r.effs[j]) })
	return r
}

func repoGlobal(g *ssa.Global) bool {
	return g != nil && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
}

func init() {
	props["P06"] = p06
	props["P07"] = p07
}

func p06(c *Ctx, r *Report, thorough bool) {
	r.Rule = "Every exported operation is analysed with all its callees (points-to with call-site contexts); every store, append into spare capacity, copy or in-place library write whose target may be memory of a package-level variable of this repository is a violation. In addition no function outside package initialisation assigns a package-level variable or takes the address of one for writing, whether or not it is reachable."
	e := effects(c)
	for _, x := range e.over {
		r.fail("analysis", x, "", "the analysis ran out of its step budget")
	}
	bad := map[string]bool{}
	for _, x := range e.effs {
		if x.param >= 0 || !repoGlobal(x.glob) {
			continue
		}
		g := relPkg(x.glob.Pkg.Pkg) + "." + x.glob.Name()
		bad[x.entry] = true
		r.fail("shared-write", fmt.Sprintf("%s in %s", g, x.in), x.at, fmt.Sprintf("%s may write (%s) package-level variable %s, reached from exported %s", x.in, x.how, g, x.entry))
	}
	for _, f := range depEntries(c) {
		if !bad[FName(f)] {
			r.ok("no-shared-effect", FName(f), c.Pos(f.Pos()), "writes no package-level memory")
		}
	}
	// direct assignments anywhere outside init
	n := 0
	for _, f := range c.Funcs {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				n++
				a := st.Addr
				for {
					switch y := a.(type) {
					case *ssa.FieldAddr:
						a = y.X
						continue
					case *ssa.IndexAddr:
						if _, isP := y.X.Type().Underlying().(*types.Pointer); isP {
							a = y.X
							continue
						}
						if ld, ok := y.X.(*ssa.UnOp); ok {
							a = ld.X
							continue
						}
					}
					break
				}
				if g, ok := a.(*ssa.Global); ok && repoGlobal(g) {
					r.fail("assignment", fmt.Sprintf("%s in %s", g.Name(), FName(f)), c.Pos(in.Pos()), "assigns package-level variable "+g.Name()+" outside initialisation")
				}
			}
		}
	}
	r.Counts["entry points"] = e.n
	r.Counts["functions reached"] = len(e.fns)
	r.Counts["stores inspected"] = n
	r.floorN("entry points", e.n, 450)
}

// inPlace: operations documented to change an argument.
var inPlace = map[string]string{
	"addressEncoder.(Encoding).Encode #1":     "writes the encoding into the destination buffer it is given",
	"addressEncoder.(Encoding).Decode #1":     "writes the decoded data into the destination buffer it is given",
	"addressEncoder/blake256.(digest).Sum #1": "hash.Hash: appends to the slice it is given",
	"mateverseTransaction.GetSigHash #1":      "fills in the hash of each input it is given",
	"filenetTransaction.(Vouts).Swap #0":      "sort.Interface",
}

func p07(c *Ctx, r *Report, thorough bool) {
	r.Rule = "Every exported operation is analysed with all its callees (points-to with call-site contexts); a store, an append into spare capacity, a copy or an in-place library write whose target may be memory reachable from an argument is a violation. Pointer receivers are the state of the object itself and may change; the few operations whose contract is to fill an argument are listed."
	e := effects(c)
	for _, x := range e.over {
		r.fail("analysis", x, "", "the analysis ran out of its step budget")
	}
	by := c.byName()
	bad := map[string]bool{}
	for _, x := range e.effs {
		if x.param < 0 {
			continue
		}
		f := by[x.entry]
		if x.param == 0 && f.Signature.Recv() != nil {
			if _, p := f.Signature.Recv().Type().Underlying().(*types.Pointer); p {
				continue
			}
		}
		if _, ok := inPlace[fmt.Sprintf("%s #%d", x.entry, x.param)]; ok {
			continue
		}
		bad[x.entry] = true
		r.fail("argument", fmt.Sprintf("%s %s in %s", x.entry, x.what, x.in), x.at, fmt.Sprintf("%s (%s) may change the caller's argument: %s of %s", x.in, x.how, x.what, x.entry))
	}
	for _, f := range depEntries(c) {
		if !bad[FName(f)] {
			r.ok("no-argument-effect", FName(f), c.Pos(f.Pos()), "leaves every argument as it was")
		}
	}
	r.Counts["entry points"] = e.n
	r.Counts["functions reached"] = len(e.fns)
	r.floorN("entry points", e.n, 450)
}
