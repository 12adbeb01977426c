package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Development aid: how the comparison with the reference fares on generated changes. Kind "bug" makes
// small changes of behaviour, "ref" rewrites that keep it. Not used by any check.

type mutant struct {
	file, what string
	src        []byte
}

type mutSite struct {
	what  string
	apply func()
}

func cloneStmts(s []ast.Stmt) []ast.Stmt { return append([]ast.Stmt{}, s...) }

func mutSites(f *ast.File, fset *token.FileSet, kind string) []mutSite {
	var out []mutSite
	add := func(n ast.Node, what string, fn func()) {
		out = append(out, mutSite{fmt.Sprintf("%s @%d", what, fset.Position(n.Pos()).Line), fn})
	}
	stmtLists := func(visit func(get func() []ast.Stmt, set func([]ast.Stmt))) {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				visit(func() []ast.Stmt { return x.List }, func(s []ast.Stmt) { x.List = s })
			case *ast.CaseClause:
				visit(func() []ast.Stmt { return x.Body }, func(s []ast.Stmt) { x.Body = s })
			}
			return true
		})
	}
	if kind == "bug" {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				sw := map[token.Token]token.Token{token.LSS: token.LEQ, token.LEQ: token.LSS, token.GTR: token.GEQ, token.GEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL, token.ADD: token.SUB, token.SUB: token.ADD, token.LAND: token.LOR, token.LOR: token.LAND, token.SHL: token.SHR, token.SHR: token.SHL, token.AND: token.OR, token.OR: token.AND}
				if id, ok := x.Y.(*ast.Ident); ok && id.Name == "nil" {
					return true
				}
				if t, ok := sw[x.Op]; ok {
					o := x.Op
					add(x, fmt.Sprintf("op %s to %s", o, t), func() { x.Op = t })
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						add(x, "const "+x.Value+"+1", func() { x.Value = fmt.Sprint(v + 1) })
						if v > 0 {
							add(x, "const "+x.Value+"-1", func() { x.Value = fmt.Sprint(v - 1) })
						}
					}
				}
			case *ast.SelectorExpr:
				m := map[string]string{"LittleEndian": "BigEndian", "BigEndian": "LittleEndian", "HASH_ALG_SHA256": "HASH_ALG_DOUBLE_SHA256", "HASH_ALG_DOUBLE_SHA256": "HASH_ALG_SHA256", "HASH_ALG_HASH160": "HASH_ALG_SHA256"}
				if t, ok := m[x.Sel.Name]; ok {
					o := x.Sel.Name
					add(x, "sel "+o+" to "+t, func() { x.Sel = ast.NewIdent(t) })
				}
			case *ast.Ident:
				m := map[string]string{"uint32ToLittleEndianBytes": "uint64ToLittleEndianBytes"}
				if t, ok := m[x.Name]; ok {
					add(x, "call "+t, func() { x.Name = t })
				}
			case *ast.CallExpr:
				if len(x.Args) == 2 {
					add(x, "swap args", func() { x.Args[0], x.Args[1] = x.Args[1], x.Args[0] })
				}
			}
			return true
		})
		stmtLists(func(get func() []ast.Stmt, set func([]ast.Stmt)) {
			for i, s := range get() {
				i := i
				del := false
				switch y := s.(type) {
				case *ast.ExprStmt:
					del = true
				case *ast.IfStmt:
					del = y.Else == nil
				case *ast.AssignStmt:
					del = y.Tok != token.DEFINE
				}
				if del {
					add(s, fmt.Sprintf("drop %T", s), func() {
						l := cloneStmts(get())
						set(append(l[:i], l[i+1:]...))
					})
				}
				if i+1 < len(get()) {
					a, ok := s.(*ast.AssignStmt)
					b, ok2 := get()[i+1].(*ast.AssignStmt)
					if ok && ok2 && a.Tok == token.ASSIGN && b.Tok == token.ASSIGN {
						add(s, "swap statements", func() {
							l := cloneStmts(get())
							l[i], l[i+1] = l[i+1], l[i]
							set(l)
						})
					}
				}
			}
		})
		return out
	}
	not := func(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}} }
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.IfStmt:
			if b, ok := x.Else.(*ast.BlockStmt); ok {
				add(x, "invert if", func() { x.Cond = not(x.Cond); x.Body, x.Else = b, x.Body })
			}
		case *ast.BinaryExpr:
			fl := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
			if t, ok := fl[x.Op]; ok {
				add(x, "flip "+x.Op.String(), func() { x.X, x.Y, x.Op = x.Y, x.X, t })
			}
			ng := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}
			_ = ng
			switch x.Op {
			case token.LOR, token.LAND:
				o := token.LAND
				if x.Op == token.LAND {
					o = token.LOR
				}
				add(x, "de morgan", func() {
					in := &ast.BinaryExpr{X: not(x.X), Op: o, Y: not(x.Y)}
					x.X, x.Y, x.Op = not(in), ast.NewIdent("true"), token.LAND
				})
			case token.MUL:
				add(x, "commute *", func() { x.X, x.Y = x.Y, x.X })
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 1 && x.Tok == token.ADD_ASSIGN {
				add(x, "expand +=", func() {
					x.Tok = token.ASSIGN
					x.Rhs[0] = &ast.BinaryExpr{X: x.Lhs[0], Op: token.ADD, Y: &ast.ParenExpr{X: x.Rhs[0]}}
				})
			}
		case *ast.FuncDecl:
			if x.Body == nil || x.Recv != nil || x.Type.Params == nil || x.Name.Name == "init" || x.Name.Name == "main" {
				return true
			}
			okN := true
			var args []ast.Expr
			ell := token.NoPos
			for _, p := range x.Type.Params.List {
				if len(p.Names) == 0 {
					okN = false
				}
				for _, nm := range p.Names {
					if nm.Name == "_" {
						okN = false
					}
					args = append(args, ast.NewIdent(nm.Name))
				}
				if _, ok := p.Type.(*ast.Ellipsis); ok {
					ell = 1
				}
			}
			if okN {
				add(x, "wrap function", func() {
					inner := &ast.FuncDecl{Name: ast.NewIdent(x.Name.Name + "Impl"), Type: x.Type, Body: x.Body}
					var st ast.Stmt
					call := &ast.CallExpr{Fun: ast.NewIdent(x.Name.Name + "Impl"), Args: args, Ellipsis: ell}
					if x.Type.Results == nil || len(x.Type.Results.List) == 0 {
						st = &ast.ExprStmt{X: call}
					} else {
						st = &ast.ReturnStmt{Results: []ast.Expr{call}}
					}
					x.Body = &ast.BlockStmt{List: []ast.Stmt{st}}
					f.Decls = append(f.Decls, inner)
				})
			}
		}
		return true
	})
	stmtLists(func(get func() []ast.Stmt, set func([]ast.Stmt)) {
		l := get()
		for i, s := range l {
			i := i
			switch y := s.(type) {
			case *ast.IfStmt:
				if y.Else == nil && y.Init == nil && len(y.Body.List) > 0 {
					if _, ok := y.Body.List[len(y.Body.List)-1].(*ast.ReturnStmt); ok && i+1 < len(l) {
						if _, ok := l[len(l)-1].(*ast.ReturnStmt); ok {
							add(s, "nest rest", func() {
								l := cloneStmts(get())
								rest := l[i+1:]
								n := &ast.IfStmt{Cond: not(y.Cond), Body: &ast.BlockStmt{List: cloneStmts(rest)}}
								l = append(l[:i:i], n)
								l = append(l, y.Body.List...)
								set(l)
							})
						}
						if b, ok := y.Cond.(*ast.BinaryExpr); ok && b.Op == token.LOR {
							add(s, "split or", func() {
								l := cloneStmts(get())
								var nl []ast.Stmt
								nl = append(nl, l[:i]...)
								nl = append(nl, &ast.IfStmt{Cond: b.X, Body: y.Body}, &ast.IfStmt{Cond: b.Y, Body: y.Body})
								nl = append(nl, l[i+1:]...)
								set(nl)
							})
						}
					}
				}
			case *ast.ReturnStmt:
				if len(y.Results) == 1 {
					if _, ok := y.Results[0].(*ast.CallExpr); !ok {
						add(s, "temp for return", func() {
							l := cloneStmts(get())
							t := &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("tmpV")}, Tok: token.DEFINE, Rhs: []ast.Expr{y.Results[0]}}
							r := &ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent("tmpV")}}
							set(append(append(l[:i:i], t, r), l[i+1:]...))
						})
					}
				}
			case *ast.RangeStmt:
				k, ok := y.Key.(*ast.Ident)
				if ok && y.Tok == token.DEFINE {
					v, hasV := y.Value.(*ast.Ident)
					if hasV && v.Name == "_" {
						hasV = false
					}
					if y.Value == nil || hasV {
						add(s, "range to index", func() {
							l := cloneStmts(get())
							kn := k.Name
							if kn == "_" {
								kn = "idxV"
							}
							body := cloneStmts(y.Body.List)
							if hasV {
								body = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: y.X, Index: ast.NewIdent(kn)}}}}, body...)
							}
							n := &ast.ForStmt{
								Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(kn)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
								Cond: &ast.BinaryExpr{X: ast.NewIdent(kn), Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{y.X}}},
								Post: &ast.IncDecStmt{X: ast.NewIdent(kn), Tok: token.INC},
								Body: &ast.BlockStmt{List: body}}
							l[i] = n
							set(l)
						})
					}
				}
			case *ast.ForStmt:
				// count up to count with a while-style loop
				if in, ok := y.Init.(*ast.AssignStmt); ok && in.Tok == token.DEFINE && y.Post != nil && y.Cond != nil {
					hasCont := false
					ast.Inspect(y.Body, func(n ast.Node) bool {
						if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.CONTINUE {
							hasCont = true
						}
						return true
					})
					if !hasCont {
						add(s, "while loop", func() {
							l := cloneStmts(get())
							post := y.Post
							y.Body.List = append(y.Body.List, post)
							n := &ast.BlockStmt{List: []ast.Stmt{y.Init, &ast.ForStmt{Cond: y.Cond, Body: y.Body}}}
							l[i] = n
							set(l)
						})
						add(s, "break loop", func() {
							l := cloneStmts(get())
							brk := &ast.IfStmt{Cond: not(y.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
							y.Body.List = append([]ast.Stmt{brk}, y.Body.List...)
							l[i] = &ast.ForStmt{Init: y.Init, Post: y.Post, Body: y.Body}
							set(l)
						})
					}
				}
			case *ast.AssignStmt:
				// x = append(x, y...) through a temporary
				if y.Tok == token.ASSIGN && len(y.Rhs) == 1 && len(y.Lhs) == 1 {
					if c, ok := y.Rhs[0].(*ast.CallExpr); ok && len(c.Args) == 2 {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" {
							add(s, "append via closure", func() {
								l := cloneStmts(get())
								t := &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("partV")}, Tok: token.DEFINE, Rhs: []ast.Expr{c.Args[1]}}
								u := &ast.AssignStmt{Lhs: y.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.CallExpr{Fun: ast.NewIdent("append"), Args: []ast.Expr{c.Args[0], ast.NewIdent("partV")}, Ellipsis: c.Ellipsis}}}
								l[i] = &ast.BlockStmt{List: []ast.Stmt{t, u}}
								set(l)
							})
						}
					}
				}
			}
		}
	})
	return out
}

func makeMutants(repo, kind, pat string, seed int64, n int) []mutant {
	re := regexp.MustCompile(pat)
	type ref struct {
		file string
		i    int
	}
	var all []ref
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && (fi.Name() == ".git" || fi.Name() == "signatureSet" || fi.Name() == "eosSignature") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || !re.MatchString(p) {
			return nil
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, nil, 0)
		if err != nil || f.Name.Name == "main" {
			return nil
		}
		for i := range mutSites(f, fs, kind) {
			all = append(all, ref{p, i})
		}
		return nil
	})
	r := rand.New(rand.NewSource(seed))
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	var out []mutant
	for _, a := range all {
		if len(out) >= n {
			break
		}
		fs := token.NewFileSet()
		f, _ := parser.ParseFile(fs, a.file, nil, 0)
		s := mutSites(f, fs, kind)[a.i]
		s.apply()
		var bb bytes.Buffer
		if printer.Fprint(&bb, token.NewFileSet(), f) != nil {
			continue
		}
		rel, _ := filepath.Rel(repo, a.file)
		out = append(out, mutant{a.file, rel + " " + s.what, bb.Bytes()})
	}
	return out
}

// dumpMut: kind:pattern:seed:n
func dumpMut(repo, verif, arg string) {
	p := strings.Split(arg, ":")
	seed, _ := strconv.ParseInt(p[2], 10, 64)
	n, _ := strconv.Atoi(p[3])
	ms := makeMutants(repo, p[0], p[1], seed, n)
	o, err := loadRef(verif)
	if err != nil {
		panic(err)
	}
	es := depEntries(o)
	cnt := map[string]int{}
	var mu sync.Mutex
	lines := make([]string, len(ms))
	sem := make(chan bool, 5)
	var wg sync.WaitGroup
	for i := range ms {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			m := ms[i]
			c, err := loadOver(repo, map[string][]byte{m.file: m.src})
			if err != nil {
				mu.Lock()
				cnt["nobuild"]++
				mu.Unlock()
				return
			}
			pr := newPair(o, c)
			st := "same code"
			detail := ""
			func() {
				defer func() {
					if x := recover(); x != nil {
						st = "PANIC"
						detail = fmt.Sprint(x)
					}
				}()
				for _, f := range es {
					v := pr.compare(FName(f))
					if v.v == vDiff {
						st = "DIFF"
						detail = FName(f) + " " + v.why
						if v.via != "" {
							detail += " via " + v.via
						}
						break
					}
					if v.v == vUndec && st != "UNDEC" {
						st = "UNDEC"
						detail = FName(f) + " " + v.how + " " + v.why
					}
				}
			}()
			if st == "same code" {
				ch := false
				for k, v := range pr.res {
					if v.how != "code" {
						ch = true
						if st == "same code" {
							st = "SAME"
						}
						if v.v != vSame {
							st = "INNER"
							detail = k + " " + v.how + " " + v.why
						}
					}
				}
				_ = ch
			}
			if len(detail) > 300 {
				detail = detail[:300]
			}
			mu.Lock()
			cnt[st]++
			mu.Unlock()
			lines[i] = fmt.Sprintf("%-6s %s | %s", st, m.what, detail)
		}(i)
	}
	wg.Wait()
	sort.Strings(lines)
	for _, l := range lines {
		if l != "" {
			fmt.Println(l)
		}
	}
	fmt.Println(cnt)
}
