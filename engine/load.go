package main

import (
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

var repoDir = func() string {
	if d := os.Getenv("GOSYM_REPO"); d != "" { // development only: another working tree
		return d
	}
	return "/repo"
}()

type overlayFile struct {
	target string // path inside /repo
	source string // path inside /verif
	data   []byte
}

// writeWorkspace makes a go.work with absolute paths in dir.
func writeWorkspace(dir, verif string, replaces []string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repoDir, "go.work"))
	if err != nil {
		return "", err
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(l)
		t = strings.TrimPrefix(t, "./")
		if strings.HasPrefix(t, "src/") {
			l = "\t" + filepath.Join(repoDir, t)
		} else if strings.HasPrefix(t, "use src/") || strings.HasPrefix(t, "use ./src/") {
			l = "use " + filepath.Join(repoDir, strings.TrimPrefix(strings.TrimPrefix(t, "use "), "./"))
		}
		out = append(out, l)
	}
	for _, r := range replaces {
		out = append(out, "replace "+r)
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	w := filepath.Join(dir, "go.work")
	if err := os.WriteFile(w, []byte(strings.Join(out, "\n")+"\n"), 0o644); err != nil {
		return "", err
	}
	sums := map[string]bool{}
	for _, f := range []string{filepath.Join(verif, "engine/base.sum"), filepath.Join(repoDir, "go.work.sum")} {
		sb, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(sb), "\n") {
			if l != "" {
				sums[l] = true
			}
		}
	}
	var ls []string
	for l := range sums {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	return w, os.WriteFile(filepath.Join(dir, "go.work.sum"), []byte(strings.Join(ls, "\n")+"\n"), 0o644)
}

func goEnv(work string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOWORK", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOWORK="+work, "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=1")
}

// loadProgram builds SSA for the given patterns with overlays.
func loadProgram(work string, patterns []string, ov map[string][]byte) (*Program, []string, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: goEnv(work), Overlay: ov, BuildFlags: []string{"-tags=noasm,purego"}}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
	})
	pr := &Program{infos: map[*ssa.Function]*fnInfo{}, models: map[string]*ssa.Function{}, repoPkg: map[string]bool{}}
	prog := ssa.NewProgram(ps[0].Fset, ssa.InstantiateGenerics)
	pr.prog = prog
	type dir struct{ pkg, name, fn string }
	var dirs []dir
	packages.Visit(ps, nil, func(p *packages.Package) {
		if p.Types == nil || p.IllTyped {
			return
		}
		prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		if len(p.GoFiles) > 0 && strings.HasPrefix(p.GoFiles[0], repoDir+"/") {
			pr.repoPkg[p.PkgPath] = true
		}
		for _, f := range p.Syntax {
			fn := prog.Fset.Position(f.Pos()).Filename
			if !isHarnessFile(fn) {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//gosym:model ") {
						dirs = append(dirs, dir{p.PkgPath, strings.TrimSpace(strings.TrimPrefix(c.Text, "//gosym:model ")), fd.Name.Name})
					}
				}
			}
		}
	})
	prog.Build()
	for _, d := range dirs {
		for _, p := range prog.AllPackages() {
			if p.Pkg.Path() == d.pkg {
				if f := p.Func(d.fn); f != nil {
					pr.models[d.name] = f
				}
			}
		}
	}
	pr.errStrT = pr.findType("runtime", "errorString")
	return pr, errs, nil
}

func (pr *Program) harness(pkg, name string) (*ssa.Function, error) {
	for _, p := range pr.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if f := p.Func(name); f != nil {
				return f, nil
			}
			return nil, fmt.Errorf("no function %s in %s", name, pkg)
		}
	}
	return nil, fmt.Errorf("package %s not loaded", pkg)
}
