package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Dependence tables: for every exported operation, which inputs each part of its outcome depends on.

type Slot struct {
	Must []string `json:"must,omitempty"`
	May  []string `json:"may,omitempty"`
}

type DepTable map[string]map[string]Slot

var decoderName = regexp.MustCompile(`(?i)(decode|parse|unmarshal|frombytes|fromhex|deserialize)`)

// isDecoder: turns bytes or text into a record of this repository.
func isDecoder(c *Ctx, f *ssa.Function) bool {
	if f == nil || !c.inRepo(f) || !decoderName.MatchString(f.Name()) || isCodec(f) || f.Signature.Recv() != nil {
		return false
	}
	data := false
	for _, p := range f.Params {
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				data = true
			}
		case *types.Slice:
			if !isByteSlice(p.Type()) {
				return false
			}
			data = true
		default:
			return false
		}
	}
	if !data {
		return false
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if recordOf(rs.At(i).Type()) != nil {
			return true
		}
	}
	return false
}

func recordOf(t types.Type) *types.Named {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		case *types.Named:
			if _, ok := u.Underlying().(*types.Struct); ok && u.Obj().Pkg() != nil && strings.HasPrefix(u.Obj().Pkg().Path(), modPath) {
				return u
			}
			if _, ok := u.Underlying().(*types.Slice); ok {
				t = u.Underlying()
				continue
			}
		}
		return nil
	}
}

func fieldName(st *types.Struct, i int) string {
	if st.Field(i).Exported() {
		return st.Field(i).Name()
	}
	return fmt.Sprintf("f%d", i)
}

// cutModel replaces decoders by records whose fields are inputs of their own.
func cutModel(c *Ctx, entry *ssa.Function, cuts map[string]bool) func(it *Interp, call ssa.CallInstruction, args []Val, mem Mem) (Val, bool) {
	names := map[*types.Named]string{}
	return func(it *Interp, call ssa.CallInstruction, args []Val, mem Mem) (Val, bool) {
		f := call.Common().StaticCallee()
		if f == entry || !isDecoder(c, f) {
			return Val{}, false
		}
		var may, must LSet
		for _, v := range args {
			x, y := it.content(mem, v)
			may, must = may.union(x), must.union(y)
		}
		ts := resultTypes(call)
		mk := func(i int) Val {
			t := ts[i]
			if isErr(t) {
				return Val{}
			}
			n := recordOf(t)
			if n == nil {
				return it.fresh(call, fmt.Sprintf("#%d", i), t, mem, may, must)
			}
			lab, ok := names[n]
			if !ok {
				lab = n.Obj().Name()
				if !n.Obj().Exported() {
					lab = fmt.Sprintf("D%d", len(names))
				}
				names[n] = lab
			}
			cuts[lab] = true
			o := it.obj(it.ctx()+fmt.Sprintf("cut:%p#%d", call, i), lab, "local", t)
			o.input = true
			o.label = "<" + lab + ">"
			o.pidx = -1
			if isAggType(it, t) {
				v := Val{agg: map[string]Val{}}
				it.leaves(t, "", 0, func(p string, lt types.Type) {
					x, _ := it.readCell(mem, o, p, lt)
					v.agg[p] = x
				})
				return v
			}
			v, _ := it.readCell(mem, o, "", t)
			return v
		}
		if len(ts) == 1 {
			return mk(0), true
		}
		v := Val{agg: map[string]Val{}}
		for i := range ts {
			v.agg[fmt.Sprintf("#%d", i)] = mk(i)
		}
		return v, true
	}
}

type depRun struct {
	it    *Interp
	mem   Mem
	slots map[string]Slot
}

func (d *depRun) put(name string, may, must LSet) {
	may, must = d.it.wholes(may), d.it.wholes(must)
	clean := func(ss []string) []string {
		var out []string
		for _, s := range ss {
			if strings.HasPrefix(s, "iv:") || strings.Contains(s, "@") {
				continue
			}
			out = append(out, s)
		}
		return out
	}
	s := Slot{Must: clean(d.it.names(must)), May: clean(d.it.names(may.minus(must)))}
	if old, ok := d.slots[name]; ok {
		s = joinSlot(old, s)
	}
	d.slots[name] = s
}

func joinSlot(a, b Slot) Slot {
	am := toSet(a.Must)
	bm := toSet(b.Must)
	var s Slot
	all := toSet(append(append(append(append([]string{}, a.Must...), a.May...), b.Must...), b.May...))
	for k := range all {
		if am[k] && bm[k] {
			s.Must = append(s.Must, k)
		} else {
			s.May = append(s.May, k)
		}
	}
	sort.Strings(s.Must)
	sort.Strings(s.May)
	return s
}

func toSet(ss []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	return m
}

// record lists the parts of a value.
func (d *depRun) record(name string, v Val, t types.Type, depth int) {
	it := d.it
	whole := func() {
		may, must := it.content(d.mem, v)
		d.put(name, may, must)
	}
	if depth > 5 || it.opaque(t) {
		whole()
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v.agg == nil {
			whole()
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			d.record(name+"."+fieldName(u, i), sub(v, "."+fieldName(u, i), ft, it), ft, depth+1)
		}
	case *types.Pointer:
		if recordOf(t) == nil || len(v.pts) == 0 {
			whole()
			return
		}
		x := it.load(d.mem, v, u.Elem())
		d.record(name, x, u.Elem(), depth+1)
	case *types.Slice:
		if recordOf(t) == nil || len(v.pts) == 0 {
			whole()
			return
		}
		addr := Val{part: v.part}
		for _, r := range v.pts {
			addr.pts = append(addr.pts, Ref{r.o, r.p + "[*]"})
		}
		x := it.load(d.mem, addr, u.Elem())
		d.record(name+"[]", x, u.Elem(), depth+1)
	default:
		whole()
	}
}

// depsOf computes the table of one entry.
func depsOf(c *Ctx, f *ssa.Function, cut bool) (slots map[string]Slot, cuts map[string]bool, over bool) {
	it := newInterp(c)
	it.full = true
	cuts = map[string]bool{}
	d := &depRun{it: it, slots: map[string]Slot{}}
	if cut {
		it.Model = cutModel(c, f, cuts)
	}
	type ev struct {
		o *Obj
		p string
	}
	wr := map[ev]bool{}
	it.OnStore = func(o *Obj, p string, at ssa.Instruction, how string) {
		if o.root == "param" && how != "append" {
			wr[ev{o, p}] = true
		}
	}
	it.OnCall = func(call ssa.CallInstruction, args []Val, mem Mem, fn *ssa.Function) {
		for _, n := range []string{"Signature", "Verify"} {
			if isOwcrypt(call, n) {
				for i, a := range args {
					if !isByteSlice(call.Common().Args[i].Type()) {
						continue
					}
					may, must := it.content(mem, a)
					d.put(fmt.Sprintf("%s.%d", n, i), may, must)
				}
			}
		}
	}
	res, mem, _ := it.Entry(f)
	d.mem = mem
	rs := f.Signature.Results()
	for i, v := range res {
		t := rs.At(i).Type()
		if isErr(t) {
			continue
		}
		d.record(fmt.Sprintf("r%d", i), v, t, 0)
	}
	for e := range wr {
		v, ok := mem[cellKey{e.o, e.p}]
		if !ok {
			continue
		}
		may, must := it.content(mem, v)
		d.put("out "+cleanLabel(e.o.label+e.p), may, must)
	}
	return d.slots, cuts, it.over
}

// depEntries: the exported operations whose tables are kept.
func depEntries(c *Ctx) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.Funcs {
		if !exported(f) || len(f.Blocks) == 0 || strings.HasPrefix(FName(f), "main.") || f.Name() == "init" {
			continue
		}
		out = append(out, f)
	}
	return out
}

func depTables(c *Ctx) (DepTable, int) {
	es := depEntries(c)
	type res struct {
		a, b map[string]Slot
		cuts map[string]bool
	}
	rs := make([]res, len(es))
	parallel(len(es), func(i int) {
		a, _, _ := depsOf(c, es[i], false)
		b, cuts, _ := depsOf(c, es[i], true)
		rs[i] = res{a, b, cuts}
	})
	t := DepTable{}
	for i, f := range es {
		m := map[string]Slot{}
		for k, s := range rs[i].a {
			m[k] = s
		}
		if len(rs[i].cuts) > 0 {
			for k, s := range rs[i].b {
				m["cut "+k] = s
			}
		}
		t[FName(f)] = m
	}
	return t, len(es)
}
