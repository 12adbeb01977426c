package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// transfer: a property of what an operation computes carries over from the reviewed reference to every
// operation that is shown to compute the same (equal value graphs). A local rule that fails in a function
// all of whose exported callers are shown to behave as in the reference, where the rule holds, is discharged.
func transfer(c *Ctx, r *Report) {
	bad := false
	for _, o := range r.Obls {
		bad = bad || !o.OK
	}
	if !bad {
		return
	}
	run := runPair(c)
	if run.err != nil {
		return
	}
	byN := c.byName()
	n := 0
	for i := range r.Obls {
		o := &r.Obls[i]
		if o.OK {
			continue
		}
		same := false
		if o.Rule == "instances" {
			same = len(run.diffs) == 0 && len(run.undec) == 0 && len(run.gone) == 0
		} else {
			w := strings.Fields(o.Key)
			if len(w) > 1 {
				name, _, _ := strings.Cut(w[1], "#")
				name, _, _ = strings.Cut(name, "$")
				same = run.sameBehaviour(c, byN[name])
			}
		}
		if same {
			o.OK = true
			o.Msg = "other code than the reviewed reference, where the rule holds, but the same value graph (local finding: " + o.Msg + ")"
			n++
		}
	}
	r.Counts["carried over by equal value graphs"] = n
}

func (run *pairRun) sameBehaviour(c *Ctx, f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if _, ok := run.same[FName(f)]; ok {
		return true
	}
	if g := run.p.fo[FName(f)]; g != nil && run.p.fn[FName(f)] != nil && run.p.compare(FName(f)).v == vSame {
		return true
	}
	return run.callersSame(f)
}

// callersSame: every exported operation that reaches f is shown to behave as in the reference.
func (run *pairRun) callersSame(f *ssa.Function) bool {
	name := FName(f)
	for _, e := range run.names {
		reached := false
		seen := map[string]bool{}
		var visit func(n string)
		visit = func(n string) {
			if seen[n] || reached {
				return
			}
			seen[n] = true
			if n == name {
				reached = true
				return
			}
			if g := run.p.fn[n]; g != nil {
				us, _ := run.p.uses(run.p.new, g)
				for _, u := range us {
					visit(u)
				}
			}
		}
		visit(e)
		if reached {
			if _, ok := run.same[e]; !ok {
				return false
			}
		}
	}
	return true
}

// addDiffs reports definite differences from the reference at the operations in scope.
func addDiffs(c *Ctx, r *Report, scope func(string) bool, want func(*entryDiff) bool) {
	run := runPair(c)
	if run.err != nil {
		r.fail("reference", "load", "", run.err.Error())
		return
	}
	n := 0
	bad := map[string]bool{}
	for i := range run.diffs {
		d := &run.diffs[i]
		if scope(d.name) && want(d) {
			bad[d.name] = true
			r.fail("compared", d.name+" "+d.d.slot, d.pos, d.text())
		}
	}
	for _, name := range run.names {
		if scope(name) && !bad[name] {
			n++
			r.ok("compared", name, run.pos[name], "no difference from the reviewed reference breaks the property")
		}
	}
	r.Counts["operations compared with the reference"] = n
	r.Notes = append(r.Notes, run.notes(scope)...)
}

func (run *pairRun) notes(scope func(string) bool) (out []string) {
	for _, name := range run.names {
		if w, ok := run.undec[name]; ok && scope(name) {
			out = append(out, name+" differs from the reviewed reference in a way that is not decided ("+w+")")
		}
	}
	for _, x := range run.panics {
		out = append(out, "analysis failed: "+x)
	}
	return
}

func (d *entryDiff) text() string {
	msg := fmt.Sprintf("%s: %s", d.d.slot, d.d.msg)
	if d.via != "" {
		msg += " (through " + d.via + ")"
	}
	if k := d.changed; len(k) > 0 {
		if len(k) > 8 {
			k = k[:8]
		}
		msg += "; code that differs from the reviewed reference: " + strings.Join(k, ", ")
	}
	return msg
}
