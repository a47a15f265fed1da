// Command instr writes an overlay that inserts vsched_verif.Point() before
// every statement of the given library packages. Text insertion only: the
// code keeps its lines and meaning.
//
//	instr REPO OUTDIR VSCHED_SOURCE[,VSCHED_SOURCE...] PKGDIR...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func instrument(path string) ([]byte, int) {
	src, err := os.ReadFile(path)
	fatal(err)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	fatal(err)
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	points := map[int]string{}
	// fset.Position honours //line directives for the line, not the offset.
	const call = "vsched_verif.Point(); "
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			points[off(s.Pos())] = call
		}
	}
	if gcOnly {
		list = func(l []ast.Stmt) {
			for _, s := range l {
				// Only at calls can a collection see the frame precisely. A statement
				// that converts unsafely may still do so before its call; the callee's
				// entry is a point then.
				text := string(src[off(s.Pos()):off(s.End())])
				switch s.(type) {
				case *ast.ExprStmt, *ast.AssignStmt, *ast.ReturnStmt, *ast.DeclStmt, *ast.DeferStmt, *ast.GoStmt:
					if hasCall(s) && !strings.Contains(text, "unsafe.") && !strings.Contains(text, "uintptr") {
						points[off(s.Pos())] = call
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if gcOnly {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Body != nil {
					points[off(x.Body.Lbrace)+1] = " vsched_verif.Point(); "
				}
			case *ast.FuncLit:
				points[off(x.Body.Lbrace)+1] = " vsched_verif.Point(); "
			case *ast.ForStmt:
				return true // the body's own statements
			case *ast.RangeStmt:
				return true
			}
		}
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			points[off(x.Body.Lbrace)+1] = " vsched_verif.Point(); "
		case *ast.RangeStmt:
			points[off(x.Body.Lbrace)+1] = " vsched_verif.Point(); "
		}
		return true
	})
	n := len(points)
	if n == 0 {
		return src, 0
	}
	points[off(f.Name.End())] = `; import vsched_verif "github.com/danhhz/zeropb/vsched_verif"`
	// Replace sync by a cooperative shim so that blocking is visible to the
	// scheduler.
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` && hasSync {
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			points[off(im.Path.Pos())] = name + `"github.com/danhhz/zeropb/vsched_verif/vsync" //`
		}
	}
	var offs []int
	for o := range points {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	var out strings.Builder
	prev := 0
	for _, o := range offs {
		out.Write(src[prev:o])
		out.WriteString(points[o])
		prev = o
	}
	out.Write(src[prev:])
	return []byte(out.String()), n
}

// hasCall says whether there is a call that is not obviously a conversion or
// a builtin, outside of nested functions.
func hasCall(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			switch f := x.Fun.(type) {
			case *ast.Ident:
				switch f.Name {
				case "append", "make", "new", "panic":
					found = true
				case "len", "cap", "copy", "delete", "min", "max", "clear", "close", "string", "bool", "byte", "rune",
					"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64":
				default:
					found = true
				}
			case *ast.SelectorExpr:
				found = true
			}
		}
		return true
	})
	return found
}

var hasSync, gcOnly bool

func main() {
	repo, outdir := os.Args[1], os.Args[2]
	replace := map[string]string{}
	for _, v := range strings.Split(os.Args[3], ",") {
		base := strings.TrimSuffix(filepath.Base(v), ".txt")
		if base == "gc.go" {
			gcOnly = true
		}
		if strings.Contains(base, "vsync") {
			hasSync = true
			replace[filepath.Join(repo, "vsched_verif", "vsync", base)] = v
		} else {
			replace[filepath.Join(repo, "vsched_verif", base)] = v
		}
	}
	total := 0
	for _, pkg := range os.Args[4:] {
		files, err := filepath.Glob(filepath.Join(repo, pkg, "*.go"))
		fatal(err)
		for _, path := range files {
			if strings.HasSuffix(path, "_test.go") {
				continue
			}
			src, n := instrument(path)
			if n == 0 {
				continue
			}
			total += n
			dst := filepath.Join(outdir, strings.ReplaceAll(strings.TrimPrefix(path, repo+"/"), "/", "__"))
			fatal(os.WriteFile(dst, src, 0o644))
			replace[path] = dst
		}
	}
	js, err := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	fatal(err)
	fatal(os.WriteFile(filepath.Join(outdir, "overlay.json"), js, 0o644))
	fmt.Printf("instrumented %d points\n", total)
}
