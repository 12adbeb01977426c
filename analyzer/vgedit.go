package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/printer"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The single-edit rule. Where the value graphs of a function cannot be told apart (mostly recurrences), and
// the function is the only one below an operation whose code differs from the reviewed reference, its
// syntax tree is compared with the reference's. If everything is the same except one place, and there one
// constant has another value, one operator another meaning, one bound or index another linear form, one
// condition more or fewer operands, two arguments or operands changed places, a field is another field of
// the same record, or a statement is gone, the function is different. Rewritings that keep the meaning
// do not have this form: they touch several places, or put an equivalent form in one (which is not reported).

type edit struct {
	what  string // what was done; "" when it is not one of the known forms
	pos   token.Pos
	loses bool // a value goes in less than whole, or another one in its place
}

type treeDiff struct {
	io, in *types.Info
	edits  []edit
	vo, vn map[string]bool // variables
}

func (p *Pair) singleEdit(fo, fn *ssa.Function) *verdict {
	do, ok1 := fo.Syntax().(*ast.FuncDecl)
	dn, ok2 := fn.Syntax().(*ast.FuncDecl)
	if !ok1 || !ok2 || do.Body == nil || dn.Body == nil || fo.Pkg == nil || fn.Pkg == nil {
		return nil
	}
	po, pn := p.old.byPkg[fo.Pkg.Pkg.Path()], p.new.byPkg[fn.Pkg.Pkg.Path()]
	if po == nil || pn == nil {
		return nil
	}
	d := &treeDiff{io: po.TypesInfo, in: pn.TypesInfo}
	if d.text(do.Type) != d.text(dn.Type) {
		return nil
	}
	d.vo, d.vn = locals(po.TypesInfo, do), locals(pn.TypesInfo, dn)
	d.stmts(do.Body.List, dn.Body.List)
	if len(d.edits) != 1 || d.edits[0].what == "" {
		return nil
	}
	e := d.edits[0]
	at := p.new.Pos(e.pos)
	msg := fmt.Sprintf("%s at %s: %s", FName(fn), at, e.what)
	return &verdict{v: vDiff, why: msg, how: "edit", slots: []vdiff{{"code", "edit", msg, false, e.loses}}}
}

func (d *treeDiff) add(what string, pos token.Pos) { d.edits = append(d.edits, edit{what, pos, false}) }

func (d *treeDiff) text(n ast.Node) string {
	var sb bytes.Buffer
	if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&sb, token.NewFileSet(), n); err != nil {
		return fmt.Sprint("?", n)
	}
	return strings.Join(strings.Fields(sb.String()), " ")
}

func (d *treeDiff) same(o, n ast.Node) bool { return d.text(o) == d.text(n) }

func (d *treeDiff) stmts(o, n []ast.Stmt) {
	o, n = live(o), live(n)
	k, m := len(o), len(n)
	to, tn := make([]string, k), make([]string, m)
	for i := range o {
		to[i] = d.text(o[i])
	}
	for i := range n {
		tn[i] = d.text(n[i])
	}
	L := make([][]int, k+1)
	for i := range L {
		L[i] = make([]int, m+1)
	}
	for i := k - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			if to[i] == tn[j] {
				L[i][j] = L[i+1][j+1] + 1
			} else {
				L[i][j] = max(L[i+1][j], L[i][j+1])
			}
		}
	}
	i, j := 0, 0
	var go_, gn []ast.Stmt
	flush := func(pos token.Pos) {
		switch {
		case len(go_) == len(gn):
			for x := range go_ {
				d.stmt(go_[x], gn[x])
			}
		case len(gn) == 0 && len(go_) == 1:
			d.dropped(go_[0], pos)
		default:
			d.add("", pos)
		}
		go_, gn = nil, nil
	}
	for i < k || j < m {
		pos := token.NoPos
		if j < m {
			pos = n[j].Pos()
		} else if m > 0 {
			pos = n[m-1].End()
		}
		switch {
		case i < k && j < m && to[i] == tn[j]:
			flush(pos)
			i++
			j++
		case j >= m || i < k && L[i+1][j] >= L[i][j+1]:
			go_ = append(go_, o[i])
			i++
		default:
			gn = append(gn, n[j])
			j++
		}
	}
	if m > 0 {
		flush(n[m-1].End())
	} else {
		flush(token.NoPos)
	}
}

// live leaves out statements without effect on results.
func live(ss []ast.Stmt) (out []ast.Stmt) {
	for _, s := range ss {
		switch x := s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.ExprStmt:
			if c, ok := x.X.(*ast.CallExpr); ok && isReport(c) {
				continue
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 1 && x.Tok == token.ASSIGN {
				if id, ok := x.Lhs[0].(*ast.Ident); ok && id.Name == "_" {
					continue
				}
			}
		}
		out = append(out, s)
	}
	return
}

// isReport: output and error texts.
func isReport(c *ast.CallExpr) bool {
	switch f := c.Fun.(type) {
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			switch id.Name {
			case "fmt", "errors", "log":
				return true
			}
		}
	case *ast.Ident:
		return f.Name == "panic" || f.Name == "print" || f.Name == "println"
	}
	return false
}

func (d *treeDiff) dropped(s ast.Stmt, pos token.Pos) {
	switch x := s.(type) {
	case *ast.IfStmt:
		if b, ok := x.Cond.(*ast.BinaryExpr); ok && nilTest(b) {
			break
		}
		if len(x.Body.List) > 0 && x.Else == nil {
			d.add("the reference has here: if "+clipText(d.text(x.Cond))+" {...}", pos)
			return
		}
	case *ast.AssignStmt, *ast.IncDecStmt:
		if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
			break
		}
		d.add("the reference has here: "+clipText(d.text(s)), pos)
		return
	}
	d.add("", pos)
}

func onlyBreak(s ast.Stmt) bool {
	b, ok := s.(*ast.BlockStmt)
	if !ok || len(b.List) != 1 {
		return false
	}
	br, ok := b.List[0].(*ast.BranchStmt)
	return ok && br.Tok == token.BREAK && br.Label == nil
}

// accumulates: some variable gets a value made from its own.
func (d *treeDiff) accumulates(b *ast.BlockStmt) bool {
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.IncDecStmt:
			found = true
		case *ast.AssignStmt:
			if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
				found = true
			}
			for _, l := range x.Lhs {
				id, ok := l.(*ast.Ident)
				for _, r := range x.Rhs {
					ast.Inspect(r, func(m ast.Node) bool {
						if y, ok2 := m.(*ast.Ident); ok && ok2 && y.Name == id.Name && x.Tok == token.ASSIGN {
							found = true
						}
						return true
					})
				}
			}
		}
		return true
	})
	return found
}

func clipText(s string) string {
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

func nilTest(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == "nil" {
			found = true
		}
		return !found
	})
	return found
}

func (d *treeDiff) stmt(o, n ast.Stmt) {
	if o == nil && n == nil {
		return
	}
	if o == nil || n == nil {
		if o != nil {
			d.add("", o.Pos())
		} else {
			d.add("", n.Pos())
		}
		return
	}
	if d.same(o, n) {
		return
	}
	switch x := o.(type) {
	case *ast.BlockStmt:
		if y, ok := n.(*ast.BlockStmt); ok {
			d.stmts(x.List, y.List)
			return
		}
	case *ast.IfStmt:
		if y, ok := n.(*ast.IfStmt); ok {
			d.stmt(x.Init, y.Init)
			d.expr(x.Cond, y.Cond)
			d.stmts(x.Body.List, y.Body.List)
			if onlyBreak(x.Else) && y.Else == nil && d.accumulates(x.Body) {
				d.add("the reference leaves the loop here: else { break }", y.End())
				return
			}
			d.stmt(x.Else, y.Else)
			return
		}
	case *ast.ForStmt:
		if y, ok := n.(*ast.ForStmt); ok {
			d.stmt(x.Init, y.Init)
			if x.Cond == nil || y.Cond == nil {
				if x.Cond != nil || y.Cond != nil {
					d.add("", y.Pos())
				}
			} else {
				d.expr(x.Cond, y.Cond)
			}
			d.stmt(x.Post, y.Post)
			d.stmts(x.Body.List, y.Body.List)
			return
		}
	case *ast.RangeStmt:
		if y, ok := n.(*ast.RangeStmt); ok && d.exprs2(x.Key, y.Key) && d.exprs2(x.Value, y.Value) && x.Tok == y.Tok {
			d.expr(x.X, y.X)
			d.stmts(x.Body.List, y.Body.List)
			return
		}
	case *ast.AssignStmt:
		if y, ok := n.(*ast.AssignStmt); ok && len(x.Lhs) == len(y.Lhs) && len(x.Rhs) == len(y.Rhs) {
			if x.Tok != y.Tok {
				if d.list(x.Lhs, y.Lhs) && d.list(x.Rhs, y.Rhs) && len(x.Lhs) == 1 {
					d.op(x.Tok.String(), y.Tok.String(), y.Pos())
					return
				}
				break
			}
			for i := range x.Lhs {
				d.expr(x.Lhs[i], y.Lhs[i])
			}
			for i := range x.Rhs {
				d.expr(x.Rhs[i], y.Rhs[i])
			}
			return
		}
	case *ast.IncDecStmt:
		if y, ok := n.(*ast.IncDecStmt); ok && d.same(x.X, y.X) {
			d.add(x.Tok.String()+" became "+y.Tok.String(), y.Pos())
			return
		}
	case *ast.ReturnStmt:
		if y, ok := n.(*ast.ReturnStmt); ok && len(x.Results) == len(y.Results) {
			for i := range x.Results {
				d.expr(x.Results[i], y.Results[i])
			}
			return
		}
	case *ast.ExprStmt:
		if y, ok := n.(*ast.ExprStmt); ok {
			d.expr(x.X, y.X)
			return
		}
	case *ast.SwitchStmt:
		if y, ok := n.(*ast.SwitchStmt); ok && (x.Tag == nil) == (y.Tag == nil) {
			d.stmt(x.Init, y.Init)
			if x.Tag != nil {
				d.expr(x.Tag, y.Tag)
			}
			d.stmts(x.Body.List, y.Body.List)
			return
		}
	case *ast.CaseClause:
		if y, ok := n.(*ast.CaseClause); ok && len(x.List) == len(y.List) {
			for i := range x.List {
				d.expr(x.List[i], y.List[i])
			}
			d.stmts(x.Body, y.Body)
			return
		}
	case *ast.BranchStmt:
		if y, ok := n.(*ast.BranchStmt); ok && x.Tok != y.Tok && x.Label == nil && y.Label == nil {
			d.add(x.Tok.String()+" became "+y.Tok.String(), y.Pos())
			return
		}
	}
	d.add("", n.Pos())
}

func (d *treeDiff) exprs2(o, n ast.Expr) bool {
	if o == nil || n == nil {
		return o == nil && n == nil
	}
	return d.same(o, n)
}

func (d *treeDiff) list(o, n []ast.Expr) bool {
	if len(o) != len(n) {
		return false
	}
	for i := range o {
		if !d.same(o[i], n[i]) {
			return false
		}
	}
	return true
}

// op: another operator between the same operands.
func (d *treeDiff) op(o, n string, pos token.Pos) {
	alike := map[string]bool{"< !=": true, "> !=": true, "== <=": true, "== >=": true, "| +": true, "| ^": true, "+ ^": true, "= :=": true, "|= +=": true, "|= ^=": true, "+= ^=": true}
	if alike[o+" "+n] || alike[n+" "+o] {
		d.add("", pos)
		return
	}
	d.add(o+" became "+n, pos)
}

func strip(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func kval(info *types.Info, e ast.Expr) constant.Value {
	if tv, ok := info.Types[e]; ok {
		return tv.Value
	}
	return nil
}

func (d *treeDiff) expr(o, n ast.Expr) {
	o, n = strip(o), strip(n)
	if d.same(o, n) {
		// the same text may stand for another constant
		a, b := kval(d.io, o), kval(d.in, n)
		if a == nil || b == nil || a.Kind() != b.Kind() || constant.Compare(a, token.EQL, b) {
			return
		}
	}
	a, b := kval(d.io, o), kval(d.in, n)
	if a != nil && b != nil {
		if a.Kind() == b.Kind() && constant.Compare(a, token.EQL, b) {
			return
		}
		d.add(fmt.Sprintf("%s became %s", clipText(a.String()), clipText(b.String())), n.Pos())
		return
	}
	pos := n.Pos()
	lose := func() {
		d.add(clipText(d.text(o))+" became "+clipText(d.text(n)), pos)
		d.edits[len(d.edits)-1].loses = true
	}
	show := func() { d.add(clipText(d.text(o))+" became "+clipText(d.text(n)), pos) }
	// negation
	if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.NOT && d.same(strip(u.X), o) {
		show()
		return
	}
	if u, ok := o.(*ast.UnaryExpr); ok && u.Op == token.NOT && d.same(strip(u.X), n) {
		show()
		return
	}
	// numbers: linear forms
	if isInt(d.io, o) && isInt(d.in, n) {
		fo, ko, ok1 := linear(d, d.io, o)
		fn, kn, ok2 := linear(d, d.in, n)
		if ok1 && ok2 && fo == fn {
			if constant.Compare(ko, token.EQL, kn) {
				return
			}
			show()
			return
		}
	}
	// a narrowing conversion or a mask put around
	if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 1 {
		if tv, ok := d.in.Types[c.Fun]; ok && tv.IsType() {
			if d.same(strip(c.Args[0]), o) && narrower(tv.Type, d.in.TypeOf(c.Args[0])) {
				lose()
				return
			}
			if oc, ok := o.(*ast.CallExpr); ok && len(oc.Args) == 1 && d.same(oc.Fun, c.Fun) {
				d.expr(oc.Args[0], c.Args[0])
				return
			}
		}
	}
	if m, ok := n.(*ast.BinaryExpr); ok && m.Op == token.AND {
		if k := kval(d.in, m.Y); k != nil && d.same(strip(m.X), o) {
			lose()
			return
		}
	}
	switch x := o.(type) {
	case *ast.BinaryExpr:
		y, ok := n.(*ast.BinaryExpr)
		if ok {
			if x.Op != y.Op && d.same(strip(x.X), strip(y.X)) {
				// comparisons of the same number with constants: they differ where one of the constants is met
				if a, b := kval(d.io, x.Y), kval(d.in, y.Y); a != nil && b != nil && a.Kind() == constant.Int && b.Kind() == constant.Int && compares(x.Op) && compares(y.Op) {
					for _, v := range []constant.Value{a, b} {
						if constant.Sign(v) >= 0 && constant.Compare(v, x.Op, a) != constant.Compare(v, y.Op, b) {
							show()
							return
						}
					}
					break
				}
			}
			if x.Op != y.Op && d.same(strip(x.X), strip(y.X)) && d.same(strip(x.Y), strip(y.Y)) {
				d.op(x.Op.String(), y.Op.String(), pos)
				return
			}
			if x.Op == y.Op {
				xl, yl := d.same(strip(x.X), strip(y.X)), d.same(strip(x.Y), strip(y.Y))
				switch {
				case xl:
					d.expr(x.Y, y.Y)
					return
				case yl:
					d.expr(x.X, y.X)
					return
				}
				if d.same(strip(x.X), strip(y.Y)) && d.same(strip(x.Y), strip(y.X)) {
					if commutes(d.io, x) {
						return
					}
					show()
					return
				}
				if x.Op != token.LAND && x.Op != token.LOR {
					d.expr(x.X, y.X)
					d.expr(x.Y, y.Y)
					return
				}
			}
		}
		if x.Op == token.LAND || x.Op == token.LOR {
			if d.operands(x.Op, o, n, pos) {
				return
			}
		}
	case *ast.Ident:
		if y, ok := n.(*ast.Ident); ok && d.vo[y.Name] && d.vn[x.Name] {
			tx, ty := d.io.TypeOf(x), d.in.TypeOf(y)
			if tx != nil && ty != nil && tx.String() == ty.String() {
				lose()
				return
			}
		}
	case *ast.UnaryExpr:
		if y, ok := n.(*ast.UnaryExpr); ok && x.Op == y.Op {
			d.expr(x.X, y.X)
			return
		}
	case *ast.CallExpr:
		y, ok := n.(*ast.CallExpr)
		if !ok || len(x.Args) != len(y.Args) || x.Ellipsis.IsValid() != y.Ellipsis.IsValid() {
			break
		}
		if isReport(x) && isReport(y) {
			return
		}
		if !d.same(x.Fun, y.Fun) {
			// the receiver of a method
			sx, ok1 := x.Fun.(*ast.SelectorExpr)
			sy, ok2 := y.Fun.(*ast.SelectorExpr)
			if ok1 && ok2 && sx.Sel.Name == sy.Sel.Name && d.list(x.Args, y.Args) {
				d.expr(sx.X, sy.X)
				return
			}
			break
		}
		var df []int
		for i := range x.Args {
			if !d.same(x.Args[i], y.Args[i]) {
				df = append(df, i)
			}
		}
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(df) == 1 && df[0] == 2 {
			return // capacity
		}
		if len(df) == 2 && d.same(x.Args[df[0]], y.Args[df[1]]) && d.same(x.Args[df[1]], y.Args[df[0]]) {
			lose()
			return
		}
		for _, i := range df {
			d.expr(x.Args[i], y.Args[i])
		}
		return
	case *ast.IndexExpr:
		if y, ok := n.(*ast.IndexExpr); ok {
			if d.same(x.X, y.X) {
				_, v1 := x.Index.(*ast.Ident)
				_, v2 := y.Index.(*ast.Ident)
				if k1, k2 := kval(d.io, x.Index), kval(d.in, y.Index); v1 && k1 == nil && k2 != nil || v2 && k2 == nil && k1 != nil {
					lose() // the running element against a fixed one
					return
				}
				d.expr(x.Index, y.Index)
				return
			}
			if d.same(x.Index, y.Index) {
				d.expr(x.X, y.X)
				return
			}
		}
	case *ast.SliceExpr:
		if y, ok := n.(*ast.SliceExpr); ok && x.Slice3 == y.Slice3 && !x.Slice3 {
			if !d.same(x.X, y.X) {
				if d.exprs2(x.Low, y.Low) && d.exprs2(x.High, y.High) {
					d.expr(x.X, y.X)
					return
				}
				break
			}
			type bound struct {
				form string
				k    constant.Value
				ok   bool
			}
			end := func(info *types.Info, s *ast.SliceExpr, e ast.Expr, low bool) bound {
				if e == nil {
					if low {
						return bound{"", constant.MakeInt64(0), true}
					}
					return bound{"+1*len(" + d.text(s.X) + ")", constant.MakeInt64(0), true}
				}
				f, k, ok := linear(d, info, e)
				return bound{f, k, ok}
			}
			lo, ln := end(d.io, x, x.Low, true), end(d.in, y, y.Low, true)
			ho, hn := end(d.io, x, x.High, false), end(d.in, y, y.High, false)
			if !lo.ok || !ln.ok || !ho.ok || !hn.ok {
				break
			}
			eq := func(a, b bound) bool { return a.form == b.form && constant.Compare(a.k, token.EQL, b.k) }
			switch {
			case eq(lo, ln) && eq(ho, hn):
				return
			case lo.form == ln.form && ho.form == hn.form:
				show()
				return
			case lo.form == ho.form && ln.form == "" && hn.form == "" && lo.form != "":
				// the last bytes became the first
				show()
				return
			}
			break
		}
	case *ast.SelectorExpr:
		if y, ok := n.(*ast.SelectorExpr); ok {
			if d.same(x.X, y.X) && d.io.Selections[x] != nil && d.in.Selections[y] != nil {
				if hasField(d.io.TypeOf(x.X), y.Sel.Name) && hasField(d.in.TypeOf(y.X), x.Sel.Name) {
					show()
					return
				}
				break // renamed
			}
			if x.Sel.Name == y.Sel.Name {
				d.expr(x.X, y.X)
				return
			}
		}
	case *ast.CompositeLit:
		if y, ok := n.(*ast.CompositeLit); ok && len(x.Elts) == len(y.Elts) && (x.Type == nil) == (y.Type == nil) && (x.Type == nil || d.same(x.Type, y.Type)) {
			for i := range x.Elts {
				kx, ok1 := x.Elts[i].(*ast.KeyValueExpr)
				ky, ok2 := y.Elts[i].(*ast.KeyValueExpr)
				switch {
				case ok1 && ok2 && d.same(kx.Key, ky.Key):
					d.expr(kx.Value, ky.Value)
				case !ok1 && !ok2:
					d.expr(x.Elts[i], y.Elts[i])
				default:
					d.add("", pos)
				}
			}
			return
		}
	}
	// one condition became several
	if y, ok := n.(*ast.BinaryExpr); ok && (y.Op == token.LAND || y.Op == token.LOR) {
		if d.operands(y.Op, o, n, pos) {
			return
		}
	}
	d.add("", pos)
}

// operands compares chains of && or ||.
func (d *treeDiff) operands(op token.Token, o, n ast.Expr, pos token.Pos) bool {
	var flat func(e ast.Expr) []ast.Expr
	flat = func(e ast.Expr) []ast.Expr {
		e = strip(e)
		if b, ok := e.(*ast.BinaryExpr); ok && b.Op == op {
			return append(flat(b.X), flat(b.Y)...)
		}
		return []ast.Expr{e}
	}
	a, b := flat(o), flat(n)
	less, more := map[string]ast.Expr{}, map[string]ast.Expr{}
	cnt := map[string]int{}
	for _, e := range a {
		cnt[d.text(e)]++
		less[d.text(e)] = e
	}
	for _, e := range b {
		cnt[d.text(e)]--
		more[d.text(e)] = e
	}
	var gone, come []ast.Expr
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		switch c := cnt[k]; {
		case c > 0:
			gone = append(gone, less[k])
		case c < 0:
			come = append(come, more[k])
		}
	}
	switch {
	case len(gone) == 0 && len(come) == 0:
		return true // another order
	case len(gone) == 1 && len(come) == 0 && len(a) > 1 && !nilTest(gone[0]):
		d.add("the condition lost "+clipText(d.text(gone[0])), pos)
		return true
	case len(gone) == 0 && len(come) == 1 && !nilTest(come[0]):
		d.add("the condition got "+op.String()+" "+clipText(d.text(come[0])), pos)
		return true
	case len(gone) == 1 && len(come) == 1 && len(a) == len(b) && len(a) > 1:
		d.expr(gone[0], come[0])
		return true
	}
	return false
}

func commutes(info *types.Info, x *ast.BinaryExpr) bool {
	switch x.Op {
	case token.ADD:
		b, ok := info.TypeOf(x.X).Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString == 0
	case token.MUL, token.AND, token.OR, token.XOR, token.EQL, token.NEQ, token.LAND, token.LOR:
		return true
	}
	return false
}

func compares(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func hasField(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// locals are the names of the variables a function declares.
func locals(info *types.Info, f *ast.FuncDecl) map[string]bool {
	out := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := info.Defs[id].(*types.Var); ok && v.Name() != "_" {
				out[v.Name()] = true
			}
		}
		return true
	})
	return out
}

func isInt(info *types.Info, e ast.Expr) bool {
	t := info.TypeOf(e)
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func narrower(t, of types.Type) bool {
	w := func(t types.Type) int64 {
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return 0
		}
		return types.SizesFor("gc", "amd64").Sizeof(t)
	}
	return of != nil && w(t) > 0 && w(t) < w(of)
}

// linear is the form of a number: the terms, by text, and the constant.
func linear(d *treeDiff, info *types.Info, e ast.Expr) (string, constant.Value, bool) {
	co := map[string]constant.Value{}
	k := constant.MakeInt64(0)
	okAll := true
	var walk func(e ast.Expr, c constant.Value)
	walk = func(e ast.Expr, c constant.Value) {
		e = strip(e)
		if v := kval(info, e); v != nil {
			if v = constant.ToInt(v); v.Kind() != constant.Int {
				okAll = false
				return
			}
			k = constant.BinaryOp(k, token.ADD, constant.BinaryOp(c, token.MUL, v))
			return
		}
		if b, ok := e.(*ast.BinaryExpr); ok {
			switch b.Op {
			case token.ADD:
				walk(b.X, c)
				walk(b.Y, c)
				return
			case token.SUB:
				walk(b.X, c)
				walk(b.Y, constant.UnaryOp(token.SUB, c, 0))
				return
			case token.MUL:
				for _, xy := range [][2]ast.Expr{{b.X, b.Y}, {b.Y, b.X}} {
					if v := kval(info, xy[0]); v != nil {
						if v = constant.ToInt(v); v.Kind() == constant.Int {
							walk(xy[1], constant.BinaryOp(c, token.MUL, v))
							return
						}
					}
				}
			}
		}
		s := d.text(e)
		if co[s] == nil {
			co[s] = constant.MakeInt64(0)
		}
		co[s] = constant.BinaryOp(co[s], token.ADD, c)
	}
	walk(e, constant.MakeInt64(1))
	var ks []string
	for s, c := range co {
		if constant.Sign(c) != 0 {
			ks = append(ks, s)
		}
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, s := range ks {
		fmt.Fprintf(&sb, "%+s*%s", "+"+co[s].String(), s)
	}
	return sb.String(), k, okAll
}
