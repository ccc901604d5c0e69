// schedrewrite rewrites the non-test sources of package lens for the cooperative scheduler: sync and errgroup imports,
// go statements, plain channel sends and receives, and (for the files named by -points) a scheduling point before every
// statement. It prints "destination<TAB>source" overlay lines.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const shim = "github.com/PatchLens/go-update-lens/lens/verifsched"

func main() {
	src := flag.String("src", "", "package directory")
	out := flag.String("out", "", "scratch output directory")
	shimDir := flag.String("shim", "", "directory of the scheduler sources")
	points := flag.String("points", "", "comma separated files that get statement-level scheduling points ('*' = all)")
	skip := flag.String("skip", "", "comma separated functions without statement-level points (they only touch their own data)")
	flag.Parse()
	skipped := map[string]bool{}
	for _, n := range strings.Split(*skip, ",") {
		skipped[n] = true
	}
	die := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	emit := func(dst, name string, b []byte) {
		p := filepath.Join(*out, name)
		die(os.WriteFile(p, b, 0o644))
		fmt.Printf("%s\t%s\n", dst, p)
	}
	for _, f := range []string{"sched.go", "errgroup/errgroup.go"} {
		b, err := os.ReadFile(filepath.Join(*shimDir, f+".txt"))
		die(err)
		emit(filepath.Join(*src, "verifsched", f), "shim_"+strings.ReplaceAll(f, "/", "_"), b)
	}
	want := map[string]bool{}
	for _, p := range strings.Split(*points, ",") {
		want[p] = true
	}
	files, err := filepath.Glob(filepath.Join(*src, "*.go"))
	die(err)
	for _, path := range files {
		base := filepath.Base(path)
		if strings.HasSuffix(base, "_test.go") || base == "astclient.go" || base == "astapi.go" { // embedded templates stay as they are
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
		die(err)
		r := &rewriter{points: want["*"] || want[base], skip: skipped}
		r.file(f)
		if !r.changed {
			continue
		}
		f.Comments = keepDirectives(f)
		var b bytes.Buffer
		die((&printer.Config{Mode: printer.RawFormat}).Fprint(&b, fset, f))
		emit(path, base, b.Bytes())
	}
}

func keepDirectives(f *ast.File) []*ast.CommentGroup {
	var out []*ast.CommentGroup
	for _, g := range f.Comments {
		var keep []*ast.Comment
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:") {
				keep = append(keep, c)
			}
		}
		if len(keep) > 0 {
			out = append(out, &ast.CommentGroup{List: keep})
		}
	}
	// doc comments that are not kept must not be printed out of place
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.GenDecl:
			if x.Doc != nil {
				has := false
				for _, c := range x.Doc.List {
					if strings.HasPrefix(c.Text, "//go:") {
						has = true
					}
				}
				if !has {
					x.Doc = nil
				}
			}
		case *ast.ValueSpec:
			x.Comment = nil
			if x.Doc != nil {
				has := false
				for _, c := range x.Doc.List {
					if strings.HasPrefix(c.Text, "//go:") {
						has = true
					}
				}
				if !has {
					x.Doc = nil
				}
			}
		}
		return true
	})
	return out
}

type rewriter struct {
	skip    map[string]bool
	points  bool
	changed bool
	used    bool
}

func sel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("verifsched"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) file(f *ast.File) {
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		switch p {
		case "sync":
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
			im.Path.Value = strconv.Quote(shim)
			r.changed = true
		case "golang.org/x/sync/errgroup":
			if im.Name == nil {
				im.Name = ast.NewIdent("errgroup")
			}
			im.Path.Value = strconv.Quote(shim + "/errgroup")
			r.changed = true
		}
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			p := r.points
			if r.skip[fd.Name.Name] {
				r.points = false
			}
			r.block(&fd.Body.List, true)
			r.points = p
		} else if gd, ok := d.(*ast.GenDecl); ok {
			r.exprs(gd)
		}
	}
	if r.used {
		r.changed = true
		imp := &ast.ImportSpec{Name: ast.NewIdent("verifsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(shim)}}
		gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{imp}}
		f.Decls = append([]ast.Decl{gd}, f.Decls...)
		f.Imports = append(f.Imports, imp)
	}
}

// block rewrites a statement list.
func (r *rewriter) block(list *[]ast.Stmt, top bool) {
	var out []ast.Stmt
	for _, s := range *list {
		ns := r.stmt(s)
		if r.points {
			switch ns.(type) {
			case *ast.LabeledStmt, *ast.EmptyStmt, *ast.BranchStmt:
			default:
				out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Point")}})
				r.used = true
			}
		}
		out = append(out, ns)
	}
	*list = out
}

// stmt rewrites one statement and everything below it.
func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(&x.List, false)
	case *ast.IfStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init)
		}
		x.Cond = r.expr(x.Cond)
		r.block(&x.Body.List, false)
		if x.Else != nil {
			x.Else = r.stmt(x.Else)
		}
	case *ast.ForStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init)
		}
		if x.Cond != nil {
			x.Cond = r.expr(x.Cond)
		}
		if x.Post != nil {
			x.Post = r.stmt(x.Post)
		}
		r.block(&x.Body.List, false)
	case *ast.RangeStmt:
		x.X = r.expr(x.X)
		r.block(&x.Body.List, false)
	case *ast.SwitchStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init)
		}
		if x.Tag != nil {
			x.Tag = r.expr(x.Tag)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			r.block(&cc.Body, false)
		}
	case *ast.TypeSwitchStmt:
		for _, c := range x.Body.List {
			r.block(&c.(*ast.CaseClause).Body, false)
		}
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			r.block(&c.(*ast.CommClause).Body, false)
		}
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
	case *ast.GoStmt:
		r.used = true
		if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
			r.block(&fl.Body.List, true)
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Go"), Args: []ast.Expr{fl}}}
		}
		// evaluate function and arguments now, run later
		var pre []ast.Stmt
		call := r.expr(x.Call).(*ast.CallExpr)
		for i, a := range call.Args {
			id := ast.NewIdent(fmt.Sprintf("verifArg%d", i))
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
			call.Args[i] = id
		}
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
		pre = append(pre, &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Go"), Args: []ast.Expr{lit}}})
		return &ast.BlockStmt{List: pre}
	case *ast.SendStmt:
		r.used = true
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Send"), Args: []ast.Expr{r.expr(x.Chan), r.expr(x.Value)}}}
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.used = true
				x.Rhs[0] = &ast.CallExpr{Fun: sel("Recv2"), Args: []ast.Expr{r.expr(u.X)}}
				return x
			}
		}
		for i := range x.Rhs {
			x.Rhs[i] = r.expr(x.Rhs[i])
		}
		for i := range x.Lhs {
			x.Lhs[i] = r.expr(x.Lhs[i])
		}
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = r.expr(x.Results[i])
		}
	case *ast.DeferStmt:
		x.Call = r.expr(x.Call).(*ast.CallExpr)
	case *ast.DeclStmt:
		r.exprs(x.Decl)
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	}
	return s
}

func (r *rewriter) exprs(n ast.Node) {
	if gd, ok := n.(*ast.GenDecl); ok {
		for _, s := range gd.Specs {
			if vs, ok := s.(*ast.ValueSpec); ok {
				for i := range vs.Values {
					vs.Values[i] = r.expr(vs.Values[i])
				}
			}
		}
	}
}

// expr rewrites receives and function literals below an expression.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		x.X = r.expr(x.X)
		if x.Op == token.ARROW {
			r.used = true
			return &ast.CallExpr{Fun: sel("Recv"), Args: []ast.Expr{x.X}}
		}
	case *ast.FuncLit:
		r.block(&x.Body.List, true)
	case *ast.CallExpr:
		x.Fun = r.expr(x.Fun)
		for i := range x.Args {
			x.Args[i] = r.expr(x.Args[i])
		}
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
	case *ast.SliceExpr:
		x.X = r.expr(x.X)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
	case *ast.CompositeLit:
		for i := range x.Elts {
			x.Elts[i] = r.expr(x.Elts[i])
		}
	}
	return e
}
