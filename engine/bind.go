package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bindFiles adds, per package with specifications, a file that connects specification names to
// unexported functions of the code: "//@ bind NAME = TARGET func(...) ..." gives NAME, which calls
// TARGET if the package has a function of that name and type, and vHave_NAME, which says so.
func bindFiles(overlay map[string][]byte) {
	byDir := map[string][]string{}
	for f := range overlay {
		byDir[filepath.Dir(f)] = append(byDir[filepath.Dir(f)], f)
	}
	for dir, files := range byDir {
		sort.Strings(files)
		var lines []string
		pkg := ""
		for _, f := range files {
			for _, l := range strings.Split(string(overlay[f]), "\n") {
				if strings.HasPrefix(l, "//@ bind ") {
					lines = append(lines, strings.TrimPrefix(l, "//@ bind "))
				}
				if pkg == "" && strings.HasPrefix(l, "package ") {
					pkg = strings.TrimSpace(l[8:])
				}
			}
		}
		if len(lines) == 0 {
			continue
		}
		fns := map[string]string{}
		imports := map[string]string{}
		ents, _ := os.ReadDir(dir)
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
			if err != nil {
				continue
			}
			for _, im := range af.Imports {
				p := strings.Trim(im.Path.Value, "\"")
				n := p[strings.LastIndex(p, "/")+1:]
				if im.Name != nil {
					n = im.Name.Name
				}
				imports[n] = p
			}
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				if fd.Recv == nil {
					fns[fd.Name.Name] = sigText(fset, fd.Type)
				} else if len(fd.Recv.List) == 1 {
					var b bytes.Buffer
					printer.Fprint(&b, fset, fd.Recv.List[0].Type)
					r := b.String()
					fns["("+r+")."+fd.Name.Name] = strings.Replace("("+r+","+sigText(fset, fd.Type)[1:], ",)", ")", 1)
				}
			}
		}
		var out bytes.Buffer
		var body bytes.Buffer
		need := map[string]bool{}
		for _, l := range lines {
			i := strings.Index(l, " = ")
			name, rest := l[:i], l[i+3:]
			j := strings.Index(rest, " ")
			target, sig := rest[:j], rest[j+1:]
			e, err := parser.ParseExpr(sig)
			ft, ok := e.(*ast.FuncType)
			if err != nil || !ok {
				panic("bad bind line: " + l)
			}
			ast.Inspect(ft, func(n ast.Node) bool {
				if s, ok := n.(*ast.SelectorExpr); ok {
					if id, ok := s.X.(*ast.Ident); ok {
						need[id.Name] = true
					}
				}
				return true
			})
			want := sigText(token.NewFileSet(), ft)
			if fns[target] != want {
				// the function may have been renamed: the only one of that receiver and type
				var alt []string
				k := strings.LastIndex(target, ".") + 1
				for f, t := range fns {
					if t == want && k > 0 && strings.HasPrefix(f, target[:k]) {
						alt = append(alt, f)
					}
				}
				if len(alt) == 1 {
					target = alt[0]
				}
			}
			have := fns[target] == want
			fmt.Fprintf(&body, "const vHave_%s = %v\n\nfunc %s%s {\n", name, have, name, strings.TrimPrefix(sig, "func"))
			if have {
				var as []string
				for _, f := range ft.Params.List {
					for _, n := range f.Names {
						as = append(as, n.Name)
					}
				}
				ret := "return "
				if ft.Results == nil {
					ret = ""
				}
				if k := strings.LastIndex(target, "."); k > 0 {
					target, as = as[0]+target[k:], as[1:]
				}
				fmt.Fprintf(&body, "\t%s%s(%s)\n}\n\n", ret, target, strings.Join(as, ", "))
			} else {
				body.WriteString("\tpanic(\"no such function\")\n}\n\n")
			}
		}
		fmt.Fprintf(&out, "package %s\n\n", pkg)
		var ns []string
		for n := range need {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			p := imports[n]
			if p == "" {
				p = n
			}
			fmt.Fprintf(&out, "import %s %q\n", n, p)
		}
		out.Write(body.Bytes())
		overlay[filepath.Join(dir, "zz_verif_bind.go")] = out.Bytes()
		if *fBind != "" {
			rel, _ := filepath.Rel(repoRoot, dir)
			os.MkdirAll(filepath.Join(*fBind, rel), 0755)
			os.WriteFile(filepath.Join(*fBind, rel, "zz_verif_bind.go"), out.Bytes(), 0644)
		}
	}
}

func sigText(fset *token.FileSet, ft *ast.FuncType) string {
	list := func(fl *ast.FieldList) string {
		if fl == nil {
			return ""
		}
		var r []string
		for _, f := range fl.List {
			var b bytes.Buffer
			printer.Fprint(&b, fset, f.Type)
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for ; n > 0; n-- {
				r = append(r, b.String())
			}
		}
		return strings.Join(r, ",")
	}
	return "(" + list(ft.Params) + ")(" + list(ft.Results) + ")"
}

func sameParams(t, fn *ssa.Function) bool {
	if len(t.Params) != len(fn.Params) {
		return false
	}
	for i := range t.Params {
		if !types.Identical(t.Params[i].Type(), fn.Params[i].Type()) {
			return false
		}
	}
	a, b := t.Signature.Results(), fn.Signature.Results()
	if a.Len() != b.Len() {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		if !types.Identical(a.At(i).Type(), b.At(i).Type()) {
			return false
		}
	}
	return true
}
