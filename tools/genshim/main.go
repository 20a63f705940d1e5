package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

var _ = ast.IsExported

func main() {
	pkg := os.Args[1]
	skip := map[string]bool{}
	for _, s := range os.Args[3:] {
		skip[s] = true
	}
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(pkg)
	if err != nil {
		panic(err)
	}
	names := p.Scope().Names()
	sort.Strings(names)
	base := p.Name()
	var c, t, v, f []string
	for _, n := range names {
		o := p.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			c = append(c, fmt.Sprintf("\t%s = %s.%s", n, base, n))
		case *types.TypeName:
			t = append(t, fmt.Sprintf("\t%s = %s.%s", n, base, n))
		case *types.Var:
			v = append(v, fmt.Sprintf("\t%s = %s.%s", n, base, n))
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			f = append(f, fmt.Sprintf("\t%s = %s.%s", n, base, n))
		}
	}
	fmt.Printf("// Code generated from the API of package %s: everything that is passed through unchanged.\n\npackage %s\n\nimport %q\n", pkg, os.Args[2], pkg)
	if len(c) > 0 {
		fmt.Printf("\nconst (\n%s\n)\n", strings.Join(c, "\n"))
	}
	if len(t) > 0 {
		fmt.Printf("\ntype (\n%s\n)\n", strings.Join(t, "\n"))
	}
	if len(v)+len(f) > 0 {
		fmt.Printf("\nvar (\n%s\n)\n", strings.Join(append(v, f...), "\n"))
	}
}
