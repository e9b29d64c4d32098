package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Loader holds the type-checked program and its SSA form.
type Loader struct {
	dir     string
	modPath string
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	paths   []string // repository packages, sorted
	roots   []*packages.Package
	nfuncs  int
}

func load(dir string) (*Loader, error) {
	cfg := &packages.Config{
		Dir:   dir,
		Mode:  packages.LoadAllSyntax | packages.NeedModule,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
	}
	roots, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(roots) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	ld := &Loader{dir: dir, pkgs: map[string]*ssa.Package{}, roots: roots}
	var errs []string
	for _, p := range roots {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if p.Module != nil {
			ld.modPath = p.Module.Path
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	if ld.modPath == "" {
		return nil, fmt.Errorf("no module in %s", dir)
	}
	prog, _ := ssautil.AllPackages(roots, ssa.InstantiateGenerics)
	ld.prog = prog
	ld.fset = prog.Fset
	build := map[string]bool{"encoding/binary": true, "slices": true, "maps": true, "cmp": true, "sync/atomic": true}
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		mine := path == ld.modPath || strings.HasPrefix(path, ld.modPath+"/")
		if mine {
			ld.pkgs[path] = p
			ld.paths = append(ld.paths, path)
		}
		if mine || build[path] {
			p.Build()
		}
	}
	sort.Strings(ld.paths)
	for _, path := range ld.paths {
		ld.nfuncs += len(ld.pkgs[path].Members)
	}
	return ld, nil
}

func (ld *Loader) pkg(rel string) *ssa.Package {
	p := ld.pkgs[ld.modPath+"/"+rel]
	if p == nil {
		panic(undecidedErr{fmt.Sprintf("package %s is missing", rel)})
	}
	return p
}

func (ld *Loader) global(rel, name string) *ssa.Global {
	g, ok := ld.pkg(rel).Members[name].(*ssa.Global)
	if !ok {
		panic(undecidedErr{fmt.Sprintf("variable %s.%s is missing", rel, name)})
	}
	return g
}

func (ld *Loader) fn(rel, name string) *ssa.Function {
	f := ld.pkg(rel).Func(name)
	if f == nil {
		panic(undecidedErr{fmt.Sprintf("function %s.%s is missing", rel, name)})
	}
	return f
}

func (ld *Loader) typ(rel, name string) types.Type {
	t := ld.pkg(rel).Type(name)
	if t == nil {
		panic(undecidedErr{fmt.Sprintf("type %s.%s is missing", rel, name)})
	}
	return t.Type()
}

func (ld *Loader) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := ld.fset.Position(p)
	f := ps.Filename
	if r, err := filepath.Rel(ld.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// baseState is the state after package initialisation.
func (in *Interp) baseState(rels ...string) *State {
	st := newState()
	want := map[string]bool{}
	for _, r := range rels {
		want[in.ld.modPath+"/"+r] = true
		in.ld.pkg(r)
	}
	in.initing = true
	defer func() { in.initing = false }()
	for _, path := range in.ld.paths {
		if len(want) > 0 && !want[path] {
			continue
		}
		f := in.ld.pkgs[path].Func("init")
		if f == nil {
			continue
		}
		outs := in.callFn(st, f, nil, nil, token.NoPos, nil)
		var ok []Out
		for _, o := range outs {
			if o.kind == outRet {
				ok = append(ok, o)
			}
		}
		if len(ok) != 1 {
			in.fail("initialisation of %s has %d outcomes", path, len(ok))
		}
		st = ok[0].st
	}
	st.log, st.trail = nil, nil
	return st
}

// method finds the method of a concrete value's dynamic type.
func (in *Interp) methodOf(v *Term, name string) *ssa.Function {
	if v.op != OpIface {
		in.fail("value %s has no known dynamic type", v)
	}
	obj, _, _ := types.LookupFieldOrMethod(v.typ, true, nil, name)
	if obj == nil {
		// unexported or promoted
		ms := in.prog.MethodSets.MethodSet(v.typ)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return in.prog.MethodValue(ms.At(i))
			}
		}
		in.fail("no method %s on %s", name, v.typ)
	}
	return in.prog.LookupMethod(v.typ, obj.Pkg(), name)
}

// method finds a method of a type or of the types embedded in it.
func (ld *Loader) method(t *types.Named, name string) *ssa.Function {
	ms := ld.prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return ld.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}
