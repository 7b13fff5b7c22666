package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	Dir        string
	Pkgs       []*packages.Package
	Prog       *ssa.Program
	SSA        map[string]*ssa.Package // short path -> package
	counters   map[string]bool
	reassigned map[string]bool // global variables stored to outside package initialisation
	Errors     []string
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile,
		Dir:  dir,
		Env:  os.Environ(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Dir: dir, Pkgs: pkgs, SSA: map[string]*ssa.Package{}, reassigned: map[string]bool{}, counters: map[string]bool{}}
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		for _, er := range q.Errors {
			p.Errors = append(p.Errors, er.Error())
		}
	})
	if len(p.Errors) > 0 {
		return p, nil
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	for i, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.SSA[strings.TrimPrefix(s.Pkg.Path(), modulePath+"/")] = s
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g := rootGlobal(s.Addr); g != nil {
						p.reassigned[g.Pkg.Pkg.Path()+"."+g.Name()] = true
					}
				}
			}
		}
	}
	return p, nil
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func (p *Program) repoPkg(path string) bool {
	return path == modulePath || strings.HasPrefix(path, modulePath+"/")
}

func (p *Program) globalPkg(name string) *ssa.Package {
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return nil
	}
	return p.SSA[strings.TrimPrefix(name[:i], modulePath+"/")]
}

// Func resolves "pkg/operations.(*Operations).Archive" style names.
func (p *Program) Func(pkg, recv, name string) *ssa.Function {
	sp := p.SSA[pkg]
	if sp == nil {
		return nil
	}
	if recv == "" {
		return sp.Func(name)
	}
	obj := sp.Pkg.Scope().Lookup(recv)
	if obj == nil {
		return nil
	}
	tn, ok := obj.(*types.TypeName)
	if !ok {
		return nil
	}
	if fn := p.Prog.LookupMethod(types.NewPointer(tn.Type()), sp.Pkg, name); fn != nil {
		return fn
	}
	return nil
}

// Methods lists the exported methods declared on *T.
func (p *Program) Methods(pkg, recv string) []*ssa.Function {
	sp := p.SSA[pkg]
	if sp == nil {
		return nil
	}
	obj := sp.Pkg.Scope().Lookup(recv)
	if obj == nil {
		return nil
	}
	named, ok := obj.Type().(*types.Named)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for i := 0; i < named.NumMethods(); i++ {
		m := named.Method(i)
		if fn := p.Prog.FuncValue(m); fn != nil {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// SrcFuncs lists all functions (with closures) of the module's packages.
func (p *Program) SrcFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.Prog) {
		f := fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg == nil || !p.repoPkg(f.Pkg.Pkg.Path()) || fn.Synthetic != "" || len(fn.Blocks) == 0 {
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := p.Prog.Fset.Position(out[i].Pos()), p.Prog.Fset.Position(out[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		return a.Offset < b.Offset
	})
	return out
}

func (p *Program) At(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Prog.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, p.Dir+"/"), q.Line)
}

func gitHead(dir string) string {
	out, err := exec.Command("git", "-C", dir, "rev-parse", "HEAD").Output()
	if err != nil {
		return "unknown"
	}
	return strings.TrimSpace(string(out))
}
