// instr REPO DIR: writes copies of the library's source files in which every
// statement is preceded by a scheduling point, and DIR/overlay.json, which
// makes the go command use them.
//
// Classes of points: 1 start of a function, 2 statement of a function that
// mentions a variable of the package which is more than a named error, regular
// expression or number set once, 4 start of a loop body, 8 any other statement,
// 16 statement that itself mentions such a variable, or the one after it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
)

func main() {
	repo, dir := os.Args[1], os.Args[2]
	rep := map[string]string{}
	for _, sub := range []string{".", "minigopdf", "minigopdf/fontmaker/core"} {
		if err := pack(repo, sub, dir, rep); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

// fixed: the value is a number, a string, an error or a regular expression.
func fixed(e ast.Expr) bool {
	switch v := e.(type) {
	case *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return fixed(v.X)
	case *ast.BinaryExpr:
		return fixed(v.X) && fixed(v.Y)
	case *ast.CallExpr:
		if s, ok := v.Fun.(*ast.SelectorExpr); ok {
			if p, ok := s.X.(*ast.Ident); ok {
				switch p.Name + "." + s.Sel.Name {
				case "errors.New", "fmt.Errorf", "regexp.MustCompile":
					return true
				}
			}
		}
	}
	return false
}

type ins struct {
	off   int
	class int
}

func pack(repo, sub, dir string, rep map[string]string) error {
	p, err := build.ImportDir(filepath.Join(repo, sub), 0)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	src := map[string][]byte{}
	files := map[string]*ast.File{}
	globals := map[string]bool{}
	for _, n := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(repo, sub, n))
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, n, b, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		src[n], files[n] = b, f
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					v := s.(*ast.ValueSpec)
					for i, id := range v.Names {
						globals[id.Name] = i >= len(v.Values) || !fixed(v.Values[i])
					}
				}
			}
		}
	}
	// a variable that is assigned or whose address is taken is not fixed
	for _, f := range files {
		ast.Inspect(f, func(x ast.Node) bool {
			mark := func(e ast.Expr) {
				if id, ok := e.(*ast.Ident); ok {
					if _, g := globals[id.Name]; g {
						globals[id.Name] = true
					}
				}
			}
			switch v := x.(type) {
			case *ast.AssignStmt:
				for _, e := range v.Lhs {
					mark(e)
				}
			case *ast.IncDecStmt:
				mark(v.X)
			case *ast.UnaryExpr:
				if v.Op == token.AND {
					mark(v.X)
				}
			}
			return true
		})
	}
	for _, n := range p.GoFiles {
		var at []ins
		for _, d := range files[n].Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" {
				continue
			}
			shared := false
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				if id, ok := x.(*ast.Ident); ok && globals[id.Name] {
					shared = true
				}
				return true
			})
			class := 8
			if shared {
				class = 2
			}
			put := func(l []ast.Stmt, first int) {
				prev := false
				for i, s := range l {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
						continue
					}
					c := class
					own := false
					ast.Inspect(s, func(x ast.Node) bool {
						if id, ok := x.(*ast.Ident); ok && globals[id.Name] {
							own = true
						}
						return true
					})
					if own || prev {
						c |= 16
					}
					prev = own
					if i == 0 {
						c |= first
					}
					at = append(at, ins{fset.Position(s.Pos()).Offset, c})
				}
			}
			loops := map[*ast.BlockStmt]int{fd.Body: 1}
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch v := x.(type) {
				case *ast.ForStmt:
					loops[v.Body] = 4
				case *ast.RangeStmt:
					loops[v.Body] = 4
				case *ast.FuncLit:
					loops[v.Body] = 1
				case *ast.BlockStmt:
					put(v.List, loops[v])
				case *ast.CaseClause:
					put(v.Body, 0)
				case *ast.CommClause:
					put(v.Body, 0)
				}
				return true
			})
		}
		if len(at) == 0 {
			continue
		}
		sort.Slice(at, func(i, j int) bool { return at[i].off < at[j].off })
		var out []byte
		last := 0
		for _, i := range at {
			out = append(out, src[n][last:i.off]...)
			out = append(out, fmt.Sprintf("verifPoint(%d);", i.class)...)
			last = i.off
		}
		out = append(out, src[n][last:]...)
		if err := add(repo, sub, n, dir, out, rep); err != nil {
			return err
		}
	}
	hook := fmt.Sprintf("package %s\n\nvar VerifHook func(class int)\n\nfunc verifPoint(class int) {\n\tif VerifHook != nil {\n\t\tVerifHook(class)\n\t}\n}\n", p.Name)
	return add(repo, sub, "zz_verif_hook.go", dir, []byte(hook), rep)
}

func add(repo, sub, n, dir string, b []byte, rep map[string]string) error {
	to := filepath.Join(dir, "src", sub, n)
	if err := os.MkdirAll(filepath.Dir(to), 0755); err != nil {
		return err
	}
	rep[filepath.Join(repo, sub, n)] = to
	return os.WriteFile(to, b, 0644)
}
