package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// vgResult is the value graph of one exported operation.
type vgResult struct {
	slots map[string]*T
	fail  *T // when it refuses
	over  bool
	lost  bool // some part could not be expressed
	why   string
}

func (e *VG) evalEntry(f *ssa.Function) (r *vgResult) {
	r = &vgResult{slots: map[string]*T{}}
	e.entry = f
	e.steps = 0
	e.stack = nil

	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(vgOver); !ok {
				panic(x)
			}
			r = &vgResult{slots: map[string]*T{}, over: true}
		}
	}()
	var args []*T
	for i, p := range f.Params {
		args = append(args, e.b.In(fmt.Sprintf("#%d", i), kindOf(p.Type())))
	}
	res, mem, fr := e.run(f, args, nil, vmem{})
	rs := f.Signature.Results()
	r.fail = e.b.fal
	for _, g := range fr.guards {
		r.fail = e.or(r.fail, e.b.subst(e.pure(mem, g.cond, 0), nil))
	}
	for i, v := range res {
		if isErr(rs.At(i).Type()) {
			continue
		}
		e.put(r, fmt.Sprintf("r%d", i), v, rs.At(i).Type(), mem, 0)
	}
	// what is written through the arguments
	var xs []*T
	for x := range e.sym {
		xs = append(xs, x)
	}
	sort.Slice(xs, func(i, j int) bool { return e.sym[xs[i]] < e.sym[xs[j]] })
	for _, x := range xs {
		id := e.sym[x]
		v, ok := mem[id]
		if !ok || v == e.objs[id].init {
			continue
		}
		if foreignState(x) {
			continue
		}
		if x.sz >= 40 || x.unk || x.mu {
			r.lost = true
			continue
		}
		{
			e.put(r, "out "+x.String(), v, e.objs[id].typ, mem, 0)
		}
	}
	for k, t := range r.slots {
		if t.mu {
			if os.Getenv("VGM") != "" {
				fmt.Fprintf(os.Stderr, "LEAK %s %s = %v\n", FName(f), k, t)
			}
			e.why["loop variable"]++
			delete(r.slots, k)
			r.lost = true
		}
	}
	if r.fail.mu {
		e.why["loop variable"]++
		r.fail = e.b.unkAtom()
	}
	return r
}

func (e *VG) put(r *vgResult, name string, v *T, t types.Type, mem vmem, d int) {
	if v.op == "?" {
		r.lost = true
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if st, ok := u.Elem().Underlying().(*types.Struct); ok && d < 4 && !isBig(u.Elem()) {
			_ = st
			if v.op == "nil" {
				return
			}
			if v.op == "ite" {
				break
			}
			e.put(r, name, e.load(mem, v, u.Elem()), u.Elem(), mem, d+1)
			return
		}
		if isBig(u.Elem()) && v.op != "nil" {
			r.slots[name] = e.pure(mem, e.load(mem, v, u.Elem()), 0)
			return
		}
	case *types.Struct:
		if d < 4 {
			v = e.expand(v, t)
		}
		if d < 4 && (v.op == "rec") {
			for i := 0; i < u.NumFields(); i++ {
				n := fieldName(u, i)
				e.put(r, name+"."+n, e.b.Fld(v, n, kindOf(u.Field(i).Type())), u.Field(i).Type(), mem, d+1)
			}
			return
		}
	}
	p := e.pureVal(mem, v)
	if p.op != "?" {
		r.slots[name] = p
	} else {
		r.lost = true
	}
}

func dumpVG(repo, pat string) {
	c, err := load(repo)
	if err != nil {
		panic(err)
	}
	re := regexp.MustCompile(pat)
	verbose := os.Getenv("VGV") != ""
	es := depEntries(c)
	var sel []*ssa.Function
	for _, f := range es {
		if re.MatchString(FName(f)) {
			sel = append(sel, f)
		}
	}
	type res struct {
		r   *vgResult
		why map[string]int
		st  int
		nt  int
	}
	rr := make([]res, len(sel))
	parallel(len(sel), func(i int) {
		e := newVG(c)
		r := e.evalEntry(sel[i])
		rr[i] = res{r, e.why, e.steps, e.b.next}
	})
	tot, full, part, none, over := 0, 0, 0, 0, 0
	why := map[string]int{}
	for i, f := range sel {
		r := rr[i].r
		k, u := 0, 0
		for _, t := range r.slots {
			if t.unk {
				u++
			} else {
				k++
			}
		}
		st := "none"
		switch {
		case r.over:
			over++
			st = "over"
		case k > 0 && u == 0:
			full++
			st = "full"
		case k > 0 || u > 0:
			part++
			st = "part"
		default:
			none++
		}
		tot++
		for w := range rr[i].why {
			why[w]++
		}
		fail := "?"
		if r.fail != nil {
			fail = fmt.Sprint(r.fail.unk)
		}
		fmt.Printf("%s %s known=%d partly=%d failunk=%s steps=%d terms=%d %v\n", FName(f), st, k, u, fail, rr[i].st, rr[i].nt, rr[i].why)
		if verbose {
			var ks []string
			for s := range r.slots {
				ks = append(ks, s)
			}
			sort.Strings(ks)
			for _, s := range ks {
				fmt.Printf("   %s = %s\n", s, r.slots[s])
			}
			fmt.Printf("   FAIL %v\n", r.fail)
		}
	}
	fmt.Println("total", tot, "full", full, "part", part, "none", none, "over", over)
	var ws []string
	for w := range why {
		ws = append(ws, w)
	}
	sort.Slice(ws, func(i, j int) bool { return why[ws[i]] > why[ws[j]] })
	for _, w := range ws[:min(40, len(ws))] {
		fmt.Println("  ", why[w], w)
	}
}

// foreignState: memory of a package variable of another module; what its own code writes there is its business.
func foreignState(x *T) bool {
	for x != nil {
		if x.op == "in" || len(x.a) == 0 {
			return strings.HasPrefix(x.s, "@") && !strings.Contains(x.s, "go-owcdrivers") && strings.Contains(x.s, "/")
		}
		x = x.a[0]
	}
	return false
}
