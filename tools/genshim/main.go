// genshim writes, for each shimmed standard package, a file re-exporting everything the shim does not define itself.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	root := "/verif/harness/shim"
	for dir, std := range map[string]string{"time": "time", "sync": "sync", "rpc": "net/rpc", "rand": "math/rand", "http": "net/http", "net": "net", "atomic": "sync/atomic"} {
		own := map[string]bool{}
		fset := token.NewFileSet()
		fs, _ := filepath.Glob(filepath.Join(root, dir, "*.go"))
		name := ""
		for _, f := range fs {
			if strings.HasSuffix(f, "zz_std.go") {
				continue
			}
			a, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				panic(err)
			}
			name = a.Name.Name
			for _, d := range a.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					if x.Recv == nil {
						own[x.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range x.Specs {
						switch y := s.(type) {
						case *ast.TypeSpec:
							own[y.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range y.Names {
								own[n.Name] = true
							}
						}
					}
				}
			}
		}
		p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(std)
		if err != nil {
			panic(err)
		}
		var buf bytes.Buffer
		fmt.Fprintf(&buf, "// Code generated by tools/genshim; DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", name, std)
		var names []string
		for _, n := range p.Scope().Names() {
			if ast.IsExported(n) && !own[n] {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		used := false
		for _, n := range names {
			switch o := p.Scope().Lookup(n).(type) {
			case *types.Const:
				fmt.Fprintf(&buf, "const %s = std.%s\n", n, n)
				used = true
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&buf, "type %s = std.%s\n", n, n)
				used = true
			case *types.Var:
				fmt.Fprintf(&buf, "var %s = std.%s\n", n, n)
				used = true
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&buf, "var %s = std.%s\n", n, n)
				used = true
			}
		}
		out := filepath.Join(root, dir, "zz_std.go")
		if !used {
			os.Remove(out)
			continue
		}
		b, err := format.Source(buf.Bytes())
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(out, b, 0644); err != nil {
			panic(err)
		}
	}
}
