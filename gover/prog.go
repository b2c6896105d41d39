package main

// Loading of /repo with the contract files laid over it.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/flukeish/pmml"

type Program struct {
	writtenMu sync.Mutex
	written   map[ssa.Value]bool // slices whose elements are written (grown.go)
	once      sync.Once
	desc      *descent
	Root      string
	Fset      *token.FileSet
	Pkgs      map[string]*packages.Package // by name
	SSA       map[string]*ssa.Package
	Prog      *ssa.Program
	Contracts map[*ssa.Function]*Contract
	ByName    map[string]*ssa.Function // "evaluation.TreeModel.Evaluate"
	Dropped   []string                 // contract declarations that no longer type-check
	Unbound   []string                 // contracts whose function is gone
	UFDir     map[string]bool          // spec functions with the uf directive (pkg.name)
	InlineDir map[string]bool          // spec functions always unfolded, cut out of the recursion analysis
	Recursive map[*ssa.Function]bool
	Invokes   map[string]*ssa.Function // contracts of interface methods, by "pkg.Iface.Method"
	Lemmas    []*ssa.Function
	FnTypes   map[string]*ssa.Function // facts about results of calls of function values of a named type
}

// Contract of one function: the ghost function that lists its clauses.
type Contract struct {
	Name  string // evaluation.TreeModel.Evaluate
	Ghost *ssa.Function
	Fn    *ssa.Function // nil for interface methods
	NArgs int
}

const zz = "zz_gover_"

func LoadProgram(root, contracts string) (*Program, error) {
	p := &Program{Root: root, Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}, Contracts: map[*ssa.Function]*Contract{}, ByName: map[string]*ssa.Function{}, UFDir: map[string]bool{}, InlineDir: map[string]bool{}, Recursive: map[*ssa.Function]bool{}, Invokes: map[string]*ssa.Function{}, FnTypes: map[string]*ssa.Function{}}
	overlay := map[string][]byte{}
	prelude, err := os.ReadFile(filepath.Join(contracts, "prelude.go.txt"))
	if err != nil {
		return nil, err
	}
	for _, pk := range []string{"models", "evaluation"} {
		overlay[filepath.Join(root, pk, zz+"prelude.go")] = []byte("//go:build go1.21\n\npackage " + pk + "\n" + string(prelude))
		fs, _ := filepath.Glob(filepath.Join(contracts, pk, "*.go"))
		sort.Strings(fs)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			overlay[filepath.Join(root, pk, zz+filepath.Base(f))] = append([]byte("//go:build go1.21\n\n"), b...)
		}
	}
	var ps []*packages.Package
	for round := 0; ; round++ {
		p.Fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: root, Fset: p.Fset, Overlay: overlay,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")}
		ps, err = packages.Load(cfg, "./models", "./evaluation")
		if err != nil {
			return nil, err
		}
		bad := false
		for _, pk := range ps {
			for _, e := range pk.Errors {
				file, line := splitPos(e.Pos)
				if !strings.HasPrefix(filepath.Base(file), zz) || round > 40 {
					return nil, fmt.Errorf("cannot load %s: %s: %s", pk.PkgPath, e.Pos, e.Msg)
				}
				src, ok := overlay[file]
				if !ok {
					return nil, fmt.Errorf("cannot load %s: %s: %s", pk.PkgPath, e.Pos, e.Msg)
				}
				ns, name := blankDecl(src, line)
				if ns == nil {
					if strings.Contains(e.Msg, "imported and not used") {
						overlay[file] = blankLine(src, line)
						bad = true
						continue
					}
					return nil, fmt.Errorf("contract file: %s: %s", e.Pos, e.Msg)
				}
				overlay[file] = ns
				p.Dropped = append(p.Dropped, fmt.Sprintf("%s.%s (%s)", pk.Name, name, e.Msg))
				bad = true
				break
			}
		}
		if !bad {
			break
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	for i, pk := range ps {
		p.Pkgs[pk.Name] = pk
		p.SSA[pk.Name] = spkgs[i]
	}
	for _, pk := range ps {
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//gover:uf") {
						p.UFDir[pk.Name+"."+fd.Name.Name] = true
					}
					if strings.HasPrefix(c.Text, "//gover:inline") {
						p.InlineDir[pk.Name+"."+fd.Name.Name] = true
					}
				}
			}
		}
	}
	p.index()
	return p, nil
}

func splitPos(s string) (string, int) {
	parts := strings.Split(s, ":")
	line := 0
	if len(parts) >= 2 {
		fmt.Sscanf(parts[1], "%d", &line)
	}
	return parts[0], line
}

func blankLine(src []byte, line int) []byte {
	ls := strings.Split(string(src), "\n")
	ls[line-1] = ""
	return []byte(strings.Join(ls, "\n"))
}

func blankDecl(src []byte, line int) ([]byte, string) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, ""
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		a, b := fs.Position(d.Pos()).Line, fs.Position(d.End()).Line
		if line >= a && line <= b {
			name := "decl"
			if fd, ok := d.(*ast.FuncDecl); ok {
				name = fd.Name.Name
			}
			ls := strings.Split(string(src), "\n")
			for i := a; i <= b; i++ {
				ls[i-1] = ""
			}
			return []byte(strings.Join(ls, "\n")), name
		}
	}
	return nil, ""
}

// ghostFile reports whether the position lies in a contract file.
func (p *Program) ghost(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	pos := f.Pos()
	if !pos.IsValid() {
		return false
	}
	return strings.HasPrefix(filepath.Base(p.Fset.Position(pos).Filename), zz)
}

func (p *Program) prelude(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	if !f.Pos().IsValid() {
		return false
	}
	return filepath.Base(p.Fset.Position(f.Pos()).Filename) == zz+"prelude.go"
}

// fnName: evaluation.TreeModel.Evaluate, evaluation.pickBest
func fnName(f *ssa.Function) string {
	if f.Pkg == nil {
		if f.Origin() != nil {
			return fnName(f.Origin())
		}
		return f.String()
	}
	n := f.Name()
	if r := f.Signature.Recv(); r != nil {
		t := deref(r.Type())
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name() + "." + n
		}
	}
	return f.Pkg.Pkg.Name() + "." + n
}

func (p *Program) index() {
	all := ssautil.AllFunctions(p.Prog)
	var ghosts []*ssa.Function
	for f := range all {
		if f.Pkg == nil || f.Parent() != nil || f.Synthetic != "" && f.Origin() == nil {
			continue
		}
		if sp := p.SSA[f.Pkg.Pkg.Name()]; sp != f.Pkg {
			continue
		}
		if p.ghost(f) {
			if strings.HasPrefix(f.Name(), "contract_") {
				ghosts = append(ghosts, f)
			}
			continue
		}
		p.ByName[fnName(f)] = f
	}
	// methods of types that AllFunctions may miss
	for _, sp := range p.SSA {
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				if p.ghost(f) {
					if strings.HasPrefix(f.Name(), "contract_") {
						found := false
						for _, g := range ghosts {
							if g == f {
								found = true
							}
						}
						if !found {
							ghosts = append(ghosts, f)
						}
					}
				} else {
					p.ByName[fnName(f)] = f
				}
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := p.Prog.MethodSets.MethodSet(ty)
					for i := 0; i < ms.Len(); i++ {
						if f := p.Prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							p.ByName[fnName(f)] = f
						}
					}
				}
			}
		}
	}
	sort.Slice(ghosts, func(i, j int) bool { return ghosts[i].String() < ghosts[j].String() })
	for _, g := range ghosts {
		parts := strings.Split(strings.TrimPrefix(g.Name(), "contract_"), "_")
		name := g.Pkg.Pkg.Name() + "." + strings.Join(parts, ".")
		if parts[0] == "I" { // interface method: contract_I_Model_Evaluate
			p.Invokes[g.Pkg.Pkg.Name()+"."+strings.Join(parts[1:], ".")] = g
			continue
		}
		if parts[0] == "T" {
			p.FnTypes[g.Pkg.Pkg.Name()+"."+strings.Join(parts[1:], ".")] = g
			continue
		}
		f := p.ByName[name]
		if f == nil || !p.compatible(g, f) {
			f = p.bySignature(g)
		}
		if f == nil {
			p.Unbound = append(p.Unbound, name)
			continue
		}
		p.Contracts[f] = &Contract{Name: name, Ghost: g, Fn: f, NArgs: len(f.Params)}
	}
	sort.Strings(p.Unbound)
}

// compatible: parameters of the ghost are receiver, parameters, results.
func (p *Program) compatible(g, f *ssa.Function) bool {
	var ts []types.Type
	for _, a := range f.Params {
		ts = append(ts, a.Type())
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		ts = append(ts, rs.At(i).Type())
	}
	gp := g.Signature.Params()
	if gp.Len() != len(ts) {
		return false
	}
	for i, t := range ts {
		if !types.Identical(gp.At(i).Type(), t) {
			return false
		}
	}
	return true
}

// bySignature finds a function that was renamed: the only function of the
// package without a contract that has exactly this signature.
func (p *Program) bySignature(g *ssa.Function) *ssa.Function {
	var c []*ssa.Function
	for n, f := range p.ByName {
		if f.Pkg != g.Pkg || !p.compatible(g, f) || len(f.Blocks) == 0 {
			continue
		}
		// its own contract?
		own := "contract_" + strings.ReplaceAll(strings.TrimPrefix(n, f.Pkg.Pkg.Name()+"."), ".", "_")
		if f.Pkg.Func(own) != nil {
			continue
		}
		c = append(c, f)
	}
	if len(c) == 1 {
		return c[0]
	}
	return nil
}
