package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const modulePath = "github.com/NubeDev/bacnet"

// Program is the type-checked module under analysis in SSA form.
type Program struct {
	Fset  *token.FileSet
	SSA   *ssa.Program
	Pkgs  map[string]*ssa.Package // module packages by import path
	Types map[string]*types.Package
	Info  map[string]*types.Info
	Files map[string][]*ast.File
	Root  string
	Funcs []*ssa.Function // every source function of the module (incl. closures)
	inv   *invariants
}

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	ImportMap  map[string]string
	Imports    []string
	Standard   bool
	Error      *struct{ Err string }
	Module     *struct{ Path, GoVersion string }
}

// loadError says that the tree does not type check; the checks then fail.
type loadError struct{ msg string }

func (e *loadError) Error() string { return e.msg }

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=1", "GOWORK=off",
		"GOOS=linux", "GOARCH=amd64")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

// loadProgram parses and type checks the module in root and everything that it
// imports. The bodies of functions outside the module are not looked at.
// extra maps an import path to Go files with abstract specifications that are
// checked together with the module.
func loadProgram(root string, extra map[string][]string) (*Program, error) {
	cmd := exec.Command("go", "list", "-e", "-f", "{{.ImportPath}}", "./...")
	cmd.Dir = root
	cmd.Env = goEnv()
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, &loadError{fmt.Sprintf("go list: %v %s", err, stderr.String())}
	}
	var targets []string
	for _, p := range strings.Fields(string(out)) {
		if p == modulePath+"/cmd" || strings.HasPrefix(p, modulePath+"/cmd/") {
			continue // the command line tool does not compile at this commit
		}
		targets = append(targets, p)
	}
	sort.Strings(targets)
	args := []string{"list", "-e", "-deps", "-json=ImportPath,Dir,GoFiles,CgoFiles,ImportMap,Imports,Standard,Error,Module"}
	cmd = exec.Command("go", append(args, targets...)...)
	cmd.Dir = root
	cmd.Env = goEnv()
	stderr.Reset()
	cmd.Stderr = &stderr
	out, err = cmd.Output()
	if err != nil {
		return nil, &loadError{fmt.Sprintf("go list -deps: %v %s", err, stderr.String())}
	}
	pkgs := map[string]*listPkg{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for dec.More() {
		p := new(listPkg)
		if err := dec.Decode(p); err != nil {
			return nil, &loadError{err.Error()}
		}
		pkgs[p.ImportPath] = p
	}
	for path, files := range extra {
		pkgs[path] = &listPkg{ImportPath: path, GoFiles: files, Module: &struct{ Path, GoVersion string }{modulePath, "1.26"}}
	}

	prog := &Program{Fset: token.NewFileSet(), Pkgs: map[string]*ssa.Package{}, Types: map[string]*types.Package{},
		Info: map[string]*types.Info{}, Files: map[string][]*ast.File{}, Root: root}

	inModule := func(path string) bool {
		if _, ok := extra[path]; ok {
			return true
		}
		return path == modulePath || strings.HasPrefix(path, modulePath+"/")
	}

	// parse everything in parallel
	type parsed struct {
		files []*ast.File
		err   error
	}
	res := map[string]*parsed{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 16)
	for path, p := range pkgs {
		if path == "unsafe" || path == "C" {
			continue
		}
		wg.Add(1)
		go func(path string, p *listPkg) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			r := &parsed{}
			for _, f := range append(append([]string{}, p.GoFiles...), p.CgoFiles...) {
				mode := parser.SkipObjectResolution
				if inModule(path) {
					mode |= parser.ParseComments
				}
				name := f
				if !filepath.IsAbs(name) {
					name = filepath.Join(p.Dir, f)
				}
				a, err := parser.ParseFile(prog.Fset, name, nil, mode)
				if err != nil && r.err == nil {
					r.err = err
				}
				if a != nil {
					r.files = append(r.files, a)
				}
			}
			mu.Lock()
			res[path] = r
			mu.Unlock()
		}(path, p)
	}
	wg.Wait()

	done := map[string]*types.Package{"unsafe": types.Unsafe}
	var order []string
	var firstErr error
	var check func(path string) *types.Package
	visiting := map[string]bool{}
	check = func(path string) *types.Package {
		if t, ok := done[path]; ok {
			return t
		}
		p := pkgs[path]
		if p == nil || visiting[path] {
			return nil
		}
		visiting[path] = true
		r := res[path]
		info := &types.Info{
			Types:        map[ast.Expr]types.TypeAndValue{},
			Defs:         map[*ast.Ident]types.Object{},
			Uses:         map[*ast.Ident]types.Object{},
			Implicits:    map[ast.Node]types.Object{},
			Selections:   map[*ast.SelectorExpr]*types.Selection{},
			Scopes:       map[ast.Node]*types.Scope{},
			Instances:    map[*ast.Ident]types.Instance{},
			FileVersions: map[*ast.File]string{},
		}
		mod := inModule(path)
		conf := types.Config{
			FakeImportC:      true,
			IgnoreFuncBodies: !mod,
			Sizes:            types.SizesFor("gc", "amd64"),
			Importer: importerFunc(func(ip string) (*types.Package, error) {
				if m, ok := p.ImportMap[ip]; ok {
					ip = m
				}
				if t := check(ip); t != nil {
					return t, nil
				}
				return nil, fmt.Errorf("package %s not found", ip)
			}),
			Error: func(err error) {
				if mod && firstErr == nil {
					firstErr = err
				}
			},
		}
		if p.Module != nil && p.Module.GoVersion != "" {
			conf.GoVersion = "go" + p.Module.GoVersion
		}
		if mod && r.err != nil && firstErr == nil {
			firstErr = r.err
		}
		if mod && len(r.files) == 0 && p.Error != nil && firstErr == nil {
			firstErr = fmt.Errorf("%s: %s", path, p.Error.Err)
		}
		t, _ := conf.Check(path, prog.Fset, r.files, info)
		done[path] = t
		prog.Types[path] = t
		if mod {
			prog.Info[path] = info
			prog.Files[path] = r.files
			order = append(order, path)
		}
		return t
	}
	var paths []string
	for p := range pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		check(p)
	}
	if firstErr != nil {
		return nil, &loadError{"the module does not type check: " + firstErr.Error()}
	}

	prog.SSA = ssa.NewProgram(prog.Fset, ssa.InstantiateGenerics|ssa.BareInits)

	for _, path := range paths {
		t := done[path]
		if t == nil || path == "unsafe" {
			continue
		}
		if inModule(path) {
			continue
		}
		prog.SSA.CreatePackage(t, nil, nil, true)
	}
	for _, path := range order {
		prog.Pkgs[path] = prog.SSA.CreatePackage(done[path], prog.Files[path], prog.Info[path], true)
	}
	for _, path := range order {
		prog.Pkgs[path].Build()
	}
	prog.collectFuncs()
	return prog, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func (p *Program) collectFuncs() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		if f.Synthetic == "" || f.Parent() != nil {
			p.Funcs = append(p.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pkg := range p.Pkgs {
		for _, m := range pkg.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(p.SSA.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
}

// Func finds a function or method of the module: Func("encoding", "(*Decoder).NPDU")
func (p *Program) Func(pkg, name string) *ssa.Function {
	path := modulePath
	if pkg != "" {
		path += "/" + pkg
	}
	sp := p.Pkgs[path]
	if sp == nil {
		return nil
	}
	if strings.HasPrefix(name, "(") {
		end := strings.Index(name, ")")
		tn := strings.TrimPrefix(name[1:end], "*")
		m := name[end+2:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		n, ok := t.Type().(*types.Named)
		if !ok {
			return nil
		}
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == m {
				return p.SSA.FuncValue(n.Method(i))
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (p *Program) inModule(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return fn.Parent() != nil && p.inModule(fn.Parent())
	}
	return p.Pkgs[fn.Pkg.Pkg.Path()] != nil
}
