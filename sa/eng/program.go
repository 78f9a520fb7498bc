package eng

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Module is the analysed module's path.
const Module = "github.com/ahKevinXy/go-web-tools"

// Program is the loaded, type-checked target in SSA form.
type Program struct {
	Dir   string
	SSA   *ssa.Program
	Fset  *token.FileSet
	Files []*ast.File             // syntax of the module's packages
	Pkgs  map[string]*ssa.Package // by path relative to the module
	Funcs []*ssa.Function         // every source function of the module (generic bodies included, instances not)

	globals map[*ssa.Global]*T
	inits   map[*ssa.Package]*State
	ginit   map[*ssa.Package]map[string]*T
	stores  map[string][]*ssa.Function // field key -> functions storing it
}

// Load type-checks dir and builds SSA for the module's packages.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: dir,
		Env: append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("package %s does not type-check: %v", p.PkgPath, e)
		}
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	prog, spkgs := ssautil.Packages(ps, ssa.BuilderMode(0))
	P := &Program{Dir: dir, SSA: prog, Fset: prog.Fset, Pkgs: map[string]*ssa.Package{}, globals: map[*ssa.Global]*T{}, ginit: map[*ssa.Package]map[string]*T{}}
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		path := sp.Pkg.Path()
		if path != Module && !strings.HasPrefix(path, Module+"/") {
			continue
		}
		sp.Build()
		P.Files = append(P.Files, ps[i].Syntax...)
		P.Pkgs[strings.TrimPrefix(strings.TrimPrefix(path, Module), "/")] = sp
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		P.Funcs = append(P.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range P.Pkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						add(prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		if P.Funcs[i].String() != P.Funcs[j].String() {
			return P.Funcs[i].String() < P.Funcs[j].String()
		}
		return P.Funcs[i].Pos() < P.Funcs[j].Pos()
	})
	return P, nil
}

// InModule reports whether fn's source is in the analysed module.
func InModule(fn *ssa.Function) bool {
	p := PkgOf(fn)
	return p != nil && (p.Path() == Module || strings.HasPrefix(p.Path(), Module+"/"))
}

// PkgOf is the package of fn's source (through instantiation and wrapping).
func PkgOf(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if o := f.Origin(); o != nil && o != f {
			f = o
		}
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
	}
	return nil
}

// Body is the function whose blocks describe fn (its generic origin for an instance).
func Body(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

// FuncName is the canonical name used in the model tables.
func FuncName(fn *ssa.Function) string { return Body(fn).String() }

// ShortName is the name relative to the module.
func ShortName(fn *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(Body(fn).String(), Module+"/", ""), Module, "")
}

// Func finds a package-level function.
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Type finds a package-level named type.
func (p *Program) Type(pkg, name string) *types.Named {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

// Method finds a declared method (generic body for generic types).
func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	n := p.Type(pkg, typ)
	if n == nil {
		return nil
	}
	return p.MethodOf(n, name)
}

// MethodOf finds a declared method of n.
func (p *Program) MethodOf(n *types.Named, name string) *ssa.Function {
	n = n.Origin()
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

// Methods lists declared methods of n with bodies.
func (p *Program) Methods(n *types.Named) []*ssa.Function {
	n = n.Origin()
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if f := p.SSA.FuncValue(n.Method(i)); f != nil && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// PkgFuncs lists the module functions whose source is in pkg.
func (p *Program) PkgFuncs(pkg string) []*ssa.Function {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if PkgOf(f) == sp.Pkg {
			out = append(out, f)
		}
	}
	return out
}

// Pos renders a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	f := strings.TrimPrefix(ps.Filename, p.Dir)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(f, "/"), ps.Line)
}

// TypeKey names a named type independent of instantiation.
func TypeKey(t types.Type) string {
	if pt, ok := types.Unalias(t).(*types.Pointer); ok {
		return "*" + TypeKey(pt.Elem())
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		n = n.Origin()
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return types.TypeString(t, nil)
}

// FieldKey names a struct field independent of instantiation.
func FieldKey(structT types.Type, i int) string {
	if pt, ok := structT.Underlying().(*types.Pointer); ok {
		structT = pt.Elem()
	}
	st := structT.Underlying().(*types.Struct)
	k := TypeKey(structT)
	if j := strings.LastIndex(k, "/"); j >= 0 {
		k = k[j+1:]
	}
	return k + "." + st.Field(i).Name()
}

// StoresTo lists the functions (of the module) that store to a struct field, through any
// address expression, including whole-struct stores.
func (p *Program) StoresTo(field string) []*ssa.Function {
	if p.stores == nil {
		p.stores = map[string][]*ssa.Function{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					k := FieldKey(fa.X.Type(), fa.Field)
					w := false
					for _, r := range *fa.Referrers() {
						switch r := r.(type) {
						case *ssa.Store:
							if r.Addr == fa {
								w = true
							} else {
								w = true // address stored away
							}
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.FieldAddr, *ssa.IndexAddr:
							// sub-objects are tracked under their own key
						case ssa.CallInstruction:
							c := r.Common()
							if sc := c.StaticCallee(); sc != nil && strings.HasPrefix(sc.String(), "sync/atomic.Load") {
								continue
							}
							w = true
						default:
							w = true
						}
					}
					if w {
						p.stores[k] = append(p.stores[k], f)
					}
				}
			}
		}
	}
	return p.stores[field]
}

type tokenPos = token.Pos
