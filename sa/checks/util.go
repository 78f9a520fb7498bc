package checks

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

// backEvents lists the events of one iteration of rec ending at a back edge.
func backEvents(rec *LoopRec, b *State) []*Event {
	all := b.Ev.List()
	for i, e := range all {
		if e.Kind == "loop" && e.Loop == rec {
			return all[i+1:]
		}
	}
	return all
}

// visit calls f for every event of a path and, at a loop, for the events of the iterations that
// come back to its head (in path order, recursively). back is nil on the path itself.
func visit(evs []*Event, f func(e *Event, back *State)) { visitIn(evs, nil, f) }

func visitIn(evs []*Event, back *State, f func(e *Event, back *State)) {
	for _, e := range evs {
		f(e, back)
		if e.Kind == "loop" && e.Loop != nil {
			for _, b := range e.Loop.Back {
				visitIn(backEvents(e.Loop, b), b, f)
			}
		}
	}
}

// allEvents collects the events of all exits, loops included.
func allEvents(exits []*Exit) []*Event {
	var out []*Event
	seen := map[*Event]bool{}
	for _, x := range exits {
		visit(x.Ev.List(), func(e *Event, _ *State) {
			if !seen[e] {
				seen[e] = true
				out = append(out, e)
			}
		})
	}
	return out
}

// loops lists the loop records met on the exits (nested ones included), once each.
func loopsOf(exits []*Exit) []*LoopRec {
	var out []*LoopRec
	seen := map[*LoopRec]bool{}
	for _, e := range allEvents(exits) {
		if e.Kind == "loop" && e.Loop != nil && !seen[e.Loop] {
			seen[e.Loop] = true
			out = append(out, e.Loop)
		}
	}
	return out
}

// origin follows an address or value to the parameter (or other root) it was reached from.
func origin(t *T) *T {
	for {
		switch t.Op {
		case "field", "elem", "cell", "has", "mlen", "init", "hv", "base", "getf", "slice", "len", "cap":
			if len(t.Args) == 0 {
				return t
			}
			t = t.Args[0]
		default:
			return t
		}
	}
}

// locClass is an address with indices erased and the receiver named recv.
func locClass(t *T) string {
	switch t.Op {
	case "field":
		f := t.Aux
		if i := strings.LastIndex(f, "."); i >= 0 {
			f = f[i+1:]
		}
		return locClass(t.Args[0]) + "." + f
	case "elem":
		return locClass(t.Args[0]) + "[]"
	case "cell", "has", "mlen":
		return locClass(t.Args[0]) + "{}"
	case "init", "hv", "base", "slice":
		if len(t.Args) > 0 {
			return locClass(t.Args[0])
		}
	case "param":
		return "param:" + strings.SplitN(t.Aux, "#", 2)[0]
	case "global":
		return "global:" + t.Aux
	case "alloc":
		return "local"
	}
	return t.Op
}

// constructors are the exported package functions returning a pointer to (or value of) n.
func constructors(p *Program, n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Signature.Recv() != nil || f.Parent() != nil || f.Pkg == nil || f.Pkg.Pkg != n.Obj().Pkg() || !token.IsExported(f.Name()) {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 0 {
			continue
		}
		if nt := namedOf(rs.At(0).Type()); nt != nil && nt.Origin() == n.Origin() {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func namedOf(t types.Type) *types.Named {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// reach is the set of module functions statically reachable from fns (closures included).
func reach(fns ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		f = Body(f)
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if sc := c.Common().StaticCallee(); sc != nil {
						walk(sc)
					}
				}
				for _, op := range ins.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok {
						walk(fn)
					}
				}
			}
		}
	}
	for _, f := range fns {
		walk(f)
	}
	return seen
}

// leaf is one field of a (possibly nested) struct.
type leaf struct {
	Key  string // FieldKey of the innermost field
	Name string
	Addr *T
	Typ  types.Type
}

// leaves lists the scalar fields of the object p of struct type t.
func leaves(p *T, t types.Type) []leaf {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []leaf
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		a := FieldAddr(p, t, i)
		if _, ok := f.Type().Underlying().(*types.Struct); ok && !IsTime(f.Type()) && isModuleType(f.Type()) {
			out = append(out, leaves(a, f.Type())...)
			continue
		}
		out = append(out, leaf{FieldKey(t, i), f.Name(), a, f.Type()})
	}
	return out
}

func isModuleType(t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		_, ok := t.Underlying().(*types.Struct)
		return ok
	}
	return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), ModulePath)
}

// isMutexType recognises sync mutexes.
func isMutexType(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "sync.Mutex" || s == "sync.RWMutex" || s == "*sync.Mutex" || s == "*sync.RWMutex"
}

// instance is a type as built by its constructor.
type instance struct {
	Ctor   *ssa.Function
	Params []*T
	Exit   *Exit
	Obj    *T
	Vals   map[string]*T // field key -> value at construction
	Imm    map[string]bool
	Leaves []leaf
	Type   *types.Named
}

// hasAlloc: the term refers to memory allocated on the constructor's path.
func hasAlloc(t *T) bool {
	return Contains(t, func(x *T) bool { return x.Op == "alloc" || x.Op == "now" || x.Op == "res" || x.Op == "hv" })
}

// instances runs a constructor and describes its results.
func instances(c *Ctx, n *types.Named, ctor *ssa.Function, cfg *Config) ([]*instance, []*Exit) {
	p := c.P
	in := NewInterp(p, cfg)
	exits := in.Run(ctor)
	c.Complete(in, ctor)
	m := methodReach(p, n)
	var out []*instance
	for _, x := range exits {
		if x.Kind != "return" {
			continue
		}
		if len(x.Res) > 1 && isErrType(ctor.Signature.Results().At(len(x.Res)-1).Type()) {
			if e := x.Res[len(x.Res)-1]; !(e == Nil || x.Facts.Proves(Eq(e, Nil))) {
				continue
			}
		}
		obj := x.Res[0]
		if obj == Nil {
			continue
		}
		ins := &instance{Ctor: ctor, Params: Params(ctor), Exit: x, Obj: obj, Vals: map[string]*T{}, Imm: map[string]bool{}, Type: n}
		if _, ok := ctor.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok {
			ins.Leaves = leaves(obj, n)
			for _, l := range ins.Leaves {
				v := in.LoadOne(x.State, l.Addr, l.Typ)
				if v != nil {
					ins.Vals[l.Key] = v
				}
				imm := true
				for _, f := range p.StoresTo(l.Key) {
					if m[Body(f)] {
						imm = false
					}
				}
				ins.Imm[l.Key] = imm
			}
		}
		out = append(out, ins)
	}
	return out, exits
}

// methodReach is everything reachable from the methods of n.
func methodReach(p *Program, n *types.Named) map[*ssa.Function]bool {
	return reach(p.Methods(n)...)
}

// entryHook maps the immutable fields of recv to their construction values, and returns facts
// about them.
func (ins *instance) hook(recv *T) (func(addr *T, typ types.Type) *T, []*T) {
	m := map[*T]*T{}
	var facts []*T
	for _, l := range leaves(recv, ins.Type) {
		v := ins.Vals[l.Key]
		if v == nil || !ins.Imm[l.Key] || isMutexType(l.Typ) {
			continue
		}
		local := Contains(v, func(x *T) bool {
			switch x.Op {
			case "phibase", "phi", "iota", "hv", "res":
				return true
			}
			return false
		})
		if local || hasAlloc(v) {
			if v.Op == "alloc" || v.Op == "slice" {
				facts = append(facts, Not(Eq(Mk("init", "", l.Typ, l.Addr), Nil)))
			}
			continue
		}
		m[l.Addr] = v
	}
	// facts of the constructor about its own parameters
	for _, f := range ins.Exit.Facts.List() {
		if !Contains(f, func(x *T) bool {
			switch x.Op {
			case "alloc", "now", "res", "hv", "init", "phi", "iota", "err":
				return true
			}
			return false
		}) {
			facts = append(facts, f)
		}
	}
	return func(addr *T, typ types.Type) *T { return m[addr] }, facts
}

func isErrType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// exportedMethods of a named type.
func exportedMethods(p *Program, n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Methods(n) {
		if token.IsExported(f.Name()) {
			out = append(out, f)
		}
	}
	return out
}

// lastArg of a constructor of the given kind of type.
func paramsOfType(fn *ssa.Function, pred func(t types.Type) bool) []*T {
	var out []*T
	ps := Params(fn)
	for i, p := range Body(fn).Params {
		if pred(p.Type()) {
			out = append(out, ps[i])
		}
	}
	return out
}

func isDuration(t types.Type) bool { return types.TypeString(t, nil) == "time.Duration" }
func isPlainInt(t types.Type) bool {
	b, ok := types.Unalias(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func proves(f *FactNode, t *T) bool { return f.Proves(t) }

// namedTypes are the named (non-alias, non-interface) types of the packages under dir.
func namedTypes(p *Program, dirs ...string) []*types.Named {
	var out []*types.Named
	for _, path := range SortedKeys(p.Pkgs) {
		in := false
		for _, d := range dirs {
			in = in || path == d || strings.HasPrefix(path, d+"/")
		}
		if !in {
			continue
		}
		sc := p.Pkgs[path].Pkg.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, isI := n.Underlying().(*types.Interface); !isI {
				out = append(out, n)
			}
		}
	}
	return out
}
