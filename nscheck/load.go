package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

const modPath = "github.com/milosgajdos/netscrape"

// Program is the loaded, type checked repository in SSA form.
type Program struct {
	fset  *token.FileSet
	pkgs  []*packages.Package
	ssa   *ssa.Program
	byPth map[string]*ssa.Package
	all   map[string]*types.Package
	// accessors maps struct fields to the exported method which just returns it
	accessors map[*types.Var]string
	// mutable are the fields of the module's types stored to outside of the
	// function which allocated the object
	mutable map[*types.Var]bool
	// monitored maps named struct types which own a mutex to the mutex field index
	monitored map[*types.Named]int
	funcs     []*ssa.Function
	// embeds maps embedded fields to the struct type they are embedded in
	embeds map[*types.Var]embed
	// tables are the package-level maps of constants
	tables map[string]table
}

type embed struct {
	named *types.Named
	index int
}

func load(dir string) (*Program, error) {
	env := os.Environ()
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Program{
		pkgs:      pkgs,
		ssa:       prog,
		fset:      prog.Fset,
		byPth:     map[string]*ssa.Package{},
		all:       map[string]*types.Package{},
		accessors: map[*types.Var]string{},
		mutable:   map[*types.Var]bool{},
		monitored: map[*types.Named]int{},
		embeds:    map[*types.Var]embed{},
	}
	for _, pk := range pkgs {
		sp := prog.Package(pk.Types)
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pk.PkgPath)
		}
		sp.Build()
		p.byPth[pk.PkgPath] = sp
	}
	packages.Visit(pkgs, nil, func(q *packages.Package) { p.all[q.PkgPath] = q.Types })
	p.collect()
	p.tables = tablesOf(p)
	return p, nil
}

// pkg returns the SSA package with the path relative to the module.
func (p *Program) pkg(rel string) *ssa.Package {
	path := modPath
	if rel != "" {
		path += "/" + rel
	}
	return p.byPth[path]
}

// named returns the named type pkg.name of the module.
func (p *Program) named(rel, name string) *types.Named {
	sp := p.pkg(rel)
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// fn returns the package level function.
func (p *Program) fn(rel, name string) *ssa.Function {
	sp := p.pkg(rel)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// method returns the function of the method name in the method set of *T.
func (p *Program) method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	ms := p.ssa.MethodSets.MethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return p.ssa.MethodValue(s)
		}
	}
	return nil
}

// declared returns the declared method of T or *T, not a wrapper.
func (p *Program) declared(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.ssa.FuncValue(n.Method(i))
		}
	}
	return nil
}

func inModulePkg(pk *types.Package) bool {
	return pk != nil && (pk.Path() == modPath || strings.HasPrefix(pk.Path(), modPath+"/"))
}

// inModule tells whether fn's body belongs to the repository (or is a wrapper of one that does).
func inModule(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return inModulePkg(f.Pkg.Pkg)
		}
		if o := f.Object(); o != nil && inModulePkg(o.Pkg()) {
			return true
		}
		if f.Signature.Recv() != nil {
			if n := namedOf(f.Signature.Recv().Type()); n != nil && inModulePkg(n.Obj().Pkg()) {
				return true
			}
		}
	}
	return false
}

func isMutexType(t types.Type) bool {
	t = derefType(t)
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return false
	}
	return n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex"
}

func (p *Program) collect() {
	for _, pk := range p.pkgs {
		sc := pk.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if st, ok := n.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Embedded() {
						p.embeds[st.Field(i)] = embed{n, i}
					}
				}
				for i := 0; i < st.NumFields(); i++ {
					if isMutexType(st.Field(i).Type()) {
						p.monitored[n] = i
						break
					}
				}
			}
			for i := 0; i < n.NumMethods(); i++ {
				m := n.Method(i)
				f := p.ssa.FuncValue(m)
				if f == nil || f.Blocks == nil {
					continue
				}
				if v := accessorField(f); v != nil {
					if old, ok := p.accessors[v]; !ok || len(m.Name()) < len(old) || len(m.Name()) == len(old) && m.Name() < old {
						if m.Exported() {
							p.accessors[v] = m.Name()
						}
					}
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(p.ssa) {
		if inModule(fn) && fn.Blocks != nil {
			p.funcs = append(p.funcs, fn)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].String() < p.funcs[j].String() })
	p.mutableFields()
}

// accessorField returns the field f returns when f is `return recv.field`.
func accessorField(f *ssa.Function) *types.Var {
	if len(f.Params) != 1 || f.Signature.Recv() == nil || f.Signature.Results().Len() != 1 {
		return nil
	}
	if len(f.Blocks) != 1 {
		return nil
	}
	var ret *ssa.Return
	for _, in := range f.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.Return:
			ret = x
		case *ssa.Store:
			// spilling the receiver of a value method
			if x.Val != f.Params[0] {
				return nil
			}
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.Field, *ssa.UnOp, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.DebugRef:
		default:
			return nil
		}
	}
	if ret == nil || len(ret.Results) != 1 {
		return nil
	}
	v := ret.Results[0]
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.Field:
			if x.X == f.Params[0] {
				return structOf(x.X.Type()).Field(x.Field)
			}
			return nil
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			fa, ok := x.X.(*ssa.FieldAddr)
			if !ok {
				return nil
			}
			if fa.X == f.Params[0] {
				return structOf(fa.X.Type()).Field(fa.Field)
			}
			if a, ok := fa.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a && s.Val == f.Params[0] {
						return structOf(fa.X.Type()).Field(fa.Field)
					}
				}
			}
			return nil
		}
		return nil
	}
}

// accessorField returns the key of the field the accessor name of n returns.
func (p *Program) accessorField(n *types.Named, name string) string {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if p.accessors[st.Field(i)] == name {
			return fieldKey(n, i)
		}
	}
	return ""
}
