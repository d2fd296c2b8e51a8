package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Some harnesses call functions of the code under test that aren't exported, by
// go:linkname, for values that the public API reaches only with huge inputs. Their
// files have a build tag that is set if these functions are there, with the types
// they are called with.
var internals = map[string][]string{
	"has_varint": {
		"newVarInt func(int) []byte",
		"newBytesBinParser func([]byte) *binParser",
		"(*binParser).varInt func() int",
	},
}

const repoDir = "/repo"

func buildTags() string {
	have := map[string]bool{}
	fs := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(repoDir, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Type.TypeParams != nil {
				continue
			}
			s := fd.Name.Name + " "
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				s = "(" + types.ExprString(fd.Recv.List[0].Type) + ")." + s
			}
			s += "func("
			s += fieldTypes(fd.Type.Params) + ")"
			if r := fieldTypes(fd.Type.Results); r != "" {
				s += " " + r
			}
			have[s] = true
		}
	}
	tags := ""
	for t, l := range internals {
		ok := true
		for _, s := range l {
			ok = ok && have[s]
		}
		if ok {
			tags += "," + t
		}
	}
	return strings.TrimPrefix(tags, ",")
}

func fieldTypes(l *ast.FieldList) string {
	if l == nil {
		return ""
	}
	var s []string
	for _, f := range l.List {
		for range max(1, len(f.Names)) {
			s = append(s, types.ExprString(f.Type))
		}
	}
	return strings.Join(s, ", ")
}

// goEnv is the environment for building and loading the harnesses.
func goEnv() []string {
	fl := "GOFLAGS=-mod=mod"
	if t := buildTags(); t != "" {
		fl += " -tags=" + t
	}
	return append(os.Environ(), "CGO_ENABLED=0", fl, "GOPROXY=off", "GOSUMDB=off")
}

// linknames resolves the go:linkname comments of the harnesses.
func (e *Engine) linknames(pkgs []*packages.Package, prog *ssa.Program) {
	byName := map[string]*ssa.Function{}
	for _, p := range prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), "github.com/rveen") {
			continue
		}
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				byName[p.Pkg.Path()+"."+x.Name()] = x
			case *ssa.Type:
				ms := prog.MethodSets.MethodSet(types.NewPointer(x.Type()))
				for i := 0; i < ms.Len(); i++ {
					f := prog.MethodValue(ms.At(i))
					if f != nil {
						byName[p.Pkg.Path()+".(*"+x.Name()+")."+f.Name()] = f
					}
				}
			}
		}
	}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			for _, c := range f.Comments {
				for _, l := range c.List {
					w := strings.Fields(l.Text)
					if len(w) == 3 && w[0] == "//go:linkname" {
						if t := byName[w[2]]; t != nil {
							e.models[p.PkgPath+"."+w[1]] = t
						}
					}
				}
			}
		}
	}
}
