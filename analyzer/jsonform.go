package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// jsonForms: the JSON text of a record follows from its type: the keys, their order, options and kinds of value. The
// types written (or read) by a package must give the same form as in the reference.
func jsonForms(c *Ctx, r *Report, fn string) {
	pr := runPair(c)
	if pr.p == nil {
		return
	}
	o, n := formsOf(pr.p.old, fn), formsOf(pr.p.new, fn)
	total := 0
	var pkgs []string
	for p := range o {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	for _, p := range pkgs {
		total += len(o[p])
		if len(o[p]) != len(n[p]) {
			continue // more or fewer places: not comparable
		}
		var so, sn []string
		for _, f := range o[p] {
			so = append(so, f.text)
		}
		for _, f := range n[p] {
			sn = append(sn, f.text)
		}
		sort.Strings(so)
		sort.Strings(sn)
		if strings.Join(so, "\n") == strings.Join(sn, "\n") {
			r.ok("json-form", p+" "+fn, n[p][0].pos, "the JSON forms of "+fmt.Sprint(len(so))+" places are those of the reference")
			continue
		}
		for i := range sn {
			if so[i] != sn[i] {
				pos := ""
				for _, f := range n[p] {
					if f.text == sn[i] {
						pos = f.pos
					}
				}
				r.fail("json-form", p+" "+fn, pos, "the JSON form of a record differs from the reference: "+diffText(so[i], sn[i]))
				break
			}
		}
	}
	r.Counts["places that "+fn+" JSON"] = total
}

func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo := max(0, i-30)
		return s[lo:min(len(s), i+50)]
	}
	return cut(a) + " became " + cut(b)
}

type jform struct{ text, pos string }

func formsOf(c *Ctx, fn string) map[string][]jform {
	out := map[string][]jform{}
	for _, f := range c.Funcs {
		pkg := pkgOf(FName(f))
		if !isTxPkg(strings.TrimPrefix(pkg, "/")) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				g := call.Call.StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "encoding/json" || g.Name() != fn {
					continue
				}
				a := call.Call.Args[len(call.Call.Args)-1]
				mi, ok := a.(*ssa.MakeInterface)
				if !ok {
					out[pkg] = append(out[pkg], jform{"?", c.Pos(call.Pos())})
					continue
				}
				out[pkg] = append(out[pkg], jform{jsonType(mi.X.Type(), fn == "Unmarshal", 0), c.Pos(call.Pos())})
			}
		}
	}
	return out
}

// jsonType describes the JSON form of a type.
func jsonType(t types.Type, anyOrder bool, depth int) string {
	if depth > 12 {
		return "..."
	}
	if nt, ok := t.(*types.Named); ok {
		for _, x := range []types.Type{nt, types.NewPointer(nt)} {
			ms := types.NewMethodSet(x)
			for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
				if ms.Lookup(nil, m) != nil || nt.Obj().Pkg() != nil && ms.Lookup(nt.Obj().Pkg(), m) != nil {
					return "custom"
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return "*" + jsonType(u.Elem(), anyOrder, depth+1)
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return "base64"
		}
		return "[" + jsonType(u.Elem(), anyOrder, depth+1) + "]"
	case *types.Array:
		return fmt.Sprintf("[%d %s]", u.Len(), jsonType(u.Elem(), anyOrder, depth+1))
	case *types.Map:
		return "{" + jsonType(u.Key(), anyOrder, depth+1) + ":" + jsonType(u.Elem(), anyOrder, depth+1) + "}"
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "string"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsFloat != 0:
			return "float"
		case u.Info()&types.IsInteger != 0:
			return u.Name()
		}
	case *types.Struct:
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			tag, has := reflect.StructTag(u.Tag(i)).Lookup("json")
			if tag == "-" || !f.Exported() && !f.Embedded() {
				continue
			}
			name, opt, _ := strings.Cut(tag, ",")
			if f.Embedded() && (!has || name == "") {
				in := jsonType(f.Type(), anyOrder, depth+1)
				fs = append(fs, strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(in, "*"), "<"), ">"))
				continue
			}
			if name == "" {
				name = f.Name()
			}
			s := name + " " + jsonType(f.Type(), anyOrder, depth+1)
			if opt != "" {
				s += " " + opt
			}
			fs = append(fs, s)
		}
		if anyOrder {
			sort.Strings(fs)
		}
		return "<" + strings.Join(fs, ", ") + ">"
	}
	return t.Underlying().String()
}
