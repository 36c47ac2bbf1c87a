package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bab-sh/bab"
const zzPath = modPath + "/internal/zzverif"

var debugEngine = os.Getenv("ZZDEBUG") != ""

type Program struct {
	prog         *ssa.Program
	modPath      string
	runtimeError types.Type
	fnvals       sync.Map
	tmu          sync.Mutex
	repl         map[string]*ssa.Function
	pkgs         map[string]*ssa.Package
}

type Harness struct {
	name    string
	fn      *ssa.Function
	params  map[string]int
	preempt int
}

func (p *Program) replaced(name string) *ssa.Function { return p.repl[name] }

func (p *Program) fn(name string) *ssa.Function {
	i := strings.LastIndex(name, ".")
	pk := p.pkgs[name[:i]]
	if pk == nil {
		return nil
	}
	return pk.Func(name[i+1:])
}

// overlay maps the harness sources into the module of the code under test.
func overlay(harnessDir, repo string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.Walk(harnessDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harnessDir, p)
		m[filepath.Join(repo, "internal/zzverif", rel)] = p
		return nil
	})
	return m, err
}

// fileCopy adds files of the repository that are no Go source, as texts of a package.
func fileCopy(m map[string]string, repo, dir string) error {
	text := "// Package repofiles holds files of the repository.\npackage repofiles\n"
	for name, p := range map[string]string{"Schema": "schema/babfile.schema.json"} {
		b, err := os.ReadFile(filepath.Join(repo, p))
		if err != nil {
			b = nil
		}
		text += fmt.Sprintf("\n// %s is %s.\nvar %s = %q\n", name, p, name, b)
	}
	src := filepath.Join(dir, "repofiles.go")
	m[filepath.Join(repo, "internal/zzverif/repofiles/repofiles.go")] = src
	return os.WriteFile(src, []byte(text), 0o644)
}

// mainCopy adds the main package of the repository as an importable one, in which os.Exit ends
// zzMain instead of the process. The files are written to dir.
func mainCopy(m map[string]string, repo, dir string) error {
	fs, err := filepath.Glob(filepath.Join(repo, "*.go"))
	if err != nil {
		return err
	}
	if err := fileCopy(m, repo, dir); err != nil {
		return err
	}
	put := func(name, text string) error {
		src := filepath.Join(dir, name)
		m[filepath.Join(repo, "internal/zzverif/mainpkg", name)] = src
		return os.WriteFile(src, []byte(text), 0o644)
	}
	for _, p := range fs {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		f.Name.Name = "mainpkg"
		osName := ""
		for _, i := range f.Imports {
			if i.Path.Value == "\"os\"" {
				osName = "os"
				if i.Name != nil {
					osName = i.Name.Name
				}
			}
		}
		if osName != "" {
			ast.Inspect(f, func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok {
					return true
				}
				s, ok := c.Fun.(*ast.SelectorExpr)
				if !ok {
					return true
				}
				if x, ok := s.X.(*ast.Ident); ok && x.Name == osName && s.Sel.Name == "Exit" {
					c.Fun = &ast.Ident{Name: "zzExit", NamePos: s.Pos()}
				}
				return true
			})
		}
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			return err
		}
		if osName != "" && osName != "_" && osName != "." {
			fmt.Fprintf(&b, "\nvar _ = %s.Exit\n", osName)
		}
		if err := put(filepath.Base(p), b.String()); err != nil {
			return err
		}
	}
	return put("zzexport.go", "package mainpkg\n\ntype zzCode int\n\nfunc zzExit(code int) { panic(zzCode(code)) }\n\n"+
		"// Main runs the program and returns its exit status.\nfunc Main() (code int) {\n\tdefer func() {\n\t\tr := recover()\n"+
		"\t\tif c, ok := r.(zzCode); ok {\n\t\t\tcode = int(c)\n\t\t} else if r != nil {\n\t\t\tpanic(r)\n\t\t}\n\t}()\n\tmain()\n\treturn 0\n}\n")
}

func loadProgram(harnessDir, repo string, patterns []string) (*Program, error) {
	ov, err := overlay(harnessDir, repo)
	if err != nil {
		return nil, err
	}
	if dir, err := os.MkdirTemp("", "zzmaincopy"); err == nil {
		defer func() { _ = os.RemoveAll(dir) }()
		if err := mainCopy(ov, repo, dir); err != nil {
			return nil, err
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: map[string][]byte{}, Env: repoEnv()}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		cfg.Overlay[dst] = b
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{prog: prog, modPath: modPath, repl: map[string]*ssa.Function{}, pkgs: map[string]*ssa.Package{}}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
		if strings.HasPrefix(sp.Pkg.Path(), modPath) {
			sp.Build()
		}
	}
	if rt := p.pkgs["runtime"]; rt != nil {
		if tn, ok := rt.Members["errorString"].(*ssa.Type); ok {
			p.runtimeError = tn.Type()
		}
	}
	packages.Visit(ps, nil, func(pk *packages.Package) {
		if !strings.HasPrefix(pk.PkgPath, zzPath+"/model") {
			return
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if s, ok := strings.CutPrefix(c.Text, "//zz:replace "); ok {
						fn := p.pkgs[pk.PkgPath].Func(fd.Name.Name)
						for _, n := range strings.Fields(s) {
							p.repl[n] = fn
						}
					}
				}
			}
		}
	})
	return p, nil
}

func repoEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOPROXY", "GOWORK", "GOTOOLCHAIN", "GOCACHE", "GOSUMDB", "PATH", "GOROOT", "CGO_ENABLED":
			continue
		}
		env = append(env, e)
	}
	path := os.Getenv("PATH")
	if b, err := os.ReadFile("/opt/vp/env.sh"); err == nil {
		_ = b
	}
	for k, v := range vpEnv() {
		if k == "PATH" {
			path = v
			continue
		}
		env = append(env, k+"="+v)
	}
	env = append(env, "PATH="+path)
	return env
}
