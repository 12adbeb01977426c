package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

func init() {
	props["P08"] = func(c *Ctx, r *Report, th bool) {
		r.Rule = "For every exported operation of the transaction packages an abstract interpretation of its SSA (all callees inlined, all paths, loops to a fixpoint, codecs and hash functions as transformers) computes the inputs each part of the outcome must depend on: every returned value, every field of a returned record, every field written through a pointer parameter and the key, message and signature operands of each signing and verification call. '!' means the whole value goes in, not a narrowed or sliced part. In a second run the results of raw-transaction decoders are replaced by records whose fields are inputs of their own, so dependences are known per field of the decoded transaction. Each dependence confirmed on the reviewed tree is an obligation; one that no longer holds on every successful path is reported. Besides, no loop may pass over an element because a map the same loop fills already holds its key. Finally the value graphs of the operations are compared with those of the reviewed reference (see P09), and a value that certainly lost a part of the arguments, or takes it less than whole, on some path is reported."
		checkDeps(c, r, func(pkg string) bool {
			return strings.HasSuffix(pkg, "Transaction") || strings.HasPrefix(pkg, "btcLike")
		}, 400)
		droppedRepeats(c, r)
		checkPair(c, r, pairRule{
			scope: func(n string) bool { return isTxPkg(pkgOf(n)) },
			want:  func(d *entryDiff) bool { return d.d.loses },
			floor: 300,
			part:  true,
		})
	}
}

//go:embed frozen_deps.json
var frozenDeps []byte

func loadFrozen() DepTable {
	t := DepTable{}
	if err := json.Unmarshal(frozenDeps, &t); err != nil {
		panic(err)
	}
	return t
}

func checkDeps(c *Ctx, r *Report, pkg func(string) bool, floor int) {
	frozen := loadFrozen()
	by := c.byName()
	var names []string
	for k := range frozen {
		p, _, _ := strings.Cut(k, ".")
		if pkg(p) {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	type out struct {
		obls []Obl
		n    int
	}
	outs := make([]out, len(names))
	parallel(len(names), func(i int) {
		name := names[i]
		fz := frozen[name]
		f := by[name]
		add := func(rule, key, pos string, ok bool, msg string) {
			outs[i].obls = append(outs[i].obls, Obl{rule, rule + " " + key, pos, ok, msg})
		}
		if f == nil {
			// operations of unexported types may be renamed freely
			if exportedName(name) {
				add("entry", name, "", false, "the exported operation is gone")
			}
			return
		}
		pos := c.Pos(f.Pos())
		needCut, any := false, false
		for s, v := range fz {
			if len(v.Must)+len(v.May) == 0 {
				continue
			}
			any = true
			if strings.HasPrefix(s, "cut ") {
				needCut = true
			}
		}
		if !any {
			return
		}
		check := func(now map[string]Slot, pre string) {
			var ss []string
			for s := range fz {
				if strings.HasPrefix(s, "cut ") == (pre != "") {
					ss = append(ss, s)
				}
			}
			sort.Strings(ss)
			for _, s := range ss {
				want := fz[s]
				if len(want.Must)+len(want.May) == 0 {
					continue
				}
				outs[i].n++
				got, ok := now[strings.TrimPrefix(s, pre)]
				if !ok {
					if callSlot(s) {
						add("depends", name+" "+s, pos, false, "the operation no longer reaches a "+s+" operand")
					} else if strings.HasPrefix(strings.TrimPrefix(s, pre), "out ") {
						add("depends", name+" "+s, pos, false, "the field is no longer written")
					} else if !strings.Contains(s, ".f") {
						add("depends", name+" "+s, pos, false, "this part of the result is no longer produced")
					}
					continue
				}
				gm := toSet(got.Must)
				ga := toSet(append(append([]string{}, got.Must...), got.May...))
				var lost []string
				for _, l := range want.Must {
					if !gm[l] {
						lost = append(lost, l)
					}
				}
				var gone []string
				for _, l := range want.May {
					if !ga[l] {
						gone = append(gone, l)
					}
				}
				msg := fmt.Sprintf("%d dependences on every successful path, %d on some", len(want.Must), len(want.May))
				if len(lost)+len(gone) > 0 {
					msg = explain(f, s, lost, gone)
				}
				add("depends", name+" "+s, pos, len(lost)+len(gone) == 0, msg)
			}
		}
		a, _, over := depsOf(c, f, false)
		if over {
			add("analysis", name, pos, false, "the analysis ran out of its step budget")
		}
		check(a, "")
		if needCut {
			b, cuts, over := depsOf(c, f, true)
			if over {
				add("analysis", name, pos, false, "the analysis ran out of its step budget")
			}
			if len(cuts) > 0 {
				check(b, "cut ")
			}
		}
	})
	n := 0
	for _, o := range outs {
		n += o.n
		r.Obls = append(r.Obls, o.obls...)
	}
	r.Counts["entry points"] = len(names)
	r.floorN("result parts with known dependences", n, floor)
	transfer(c, r)
	r.Trust = append(r.Trust, "models of library calls in eval.go (their results depend on their operands)", "collections handed in are taken to be non-empty")
}

func callSlot(s string) bool {
	s = strings.TrimPrefix(s, "cut ")
	return strings.HasPrefix(s, "Signature.") || strings.HasPrefix(s, "Verify.")
}

func exportedName(name string) bool {
	_, rest, _ := strings.Cut(name, ".")
	if strings.HasPrefix(rest, "(") {
		return rest[1] >= 'A' && rest[1] <= 'Z'
	}
	return true
}

func explain(f interface {
	Name() string
}, slot string, lost, gone []string) string {
	var parts []string
	say := func(ls []string, how string) {
		for _, l := range ls {
			if strings.HasSuffix(l, "!") {
				parts = append(parts, fmt.Sprintf("%s no longer takes in the whole of input %s%s", slot, strings.TrimSuffix(l, "!"), how))
			} else {
				parts = append(parts, fmt.Sprintf("%s no longer depends on input %s%s", slot, l, how))
			}
		}
	}
	say(lost, " on every successful path")
	say(gone, " on any path")
	return strings.Join(parts, "; ") + " (#k is parameter k, receiver first; <T> a decoded record)"
}
