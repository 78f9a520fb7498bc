package checks

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C34", Title: "Helpers use the arguments they are given and the results they compute", Level: "other",
		Rule: "every parameter of an exported helper flows (data or control, through memory and module callees) into a result, an outside effect or memory of the caller; no text, checksum or collection computed from a parameter is dropped; capitalisation returns upper case first letter plus the rest, byte formatting scales number and unit in step, setting a switch stores it in the given map and getting it reads that map",
		Run:  usesRun,
		Tech: "interprocedural forward dependence over SSA with control dependence; value terms of the named helpers from the abstract interpreter",
		Note: "dependence is may-dependence: an argument that influences a result in some but not all intended cases is accepted; exactness of text is decided only for the helpers named in the property",
	})
}

// pureExternal: calling fn only computes results (and updates its own receiver or pointer arguments).
func pureExternal(fn *ssa.Function, c *ssa.CallCommon) bool {
	var pkg, name string
	if fn != nil {
		name = fn.Name()
		if fn.Pkg != nil {
			pkg = fn.Pkg.Pkg.Path()
		} else if fn.Object() != nil && fn.Object().Pkg() != nil {
			pkg = fn.Object().Pkg().Path()
		}
	} else if c.IsInvoke() {
		if c.Method.Pkg() != nil {
			pkg = c.Method.Pkg().Path()
		}
		name = c.Method.Name()
		t := types.TypeString(c.Value.Type(), nil)
		if strings.HasPrefix(t, "hash.") || strings.HasPrefix(t, "crypto/cipher.") {
			return true
		}
		if name == "Error" || name == "String" {
			return true
		}
	}
	switch pkg {
	case "strings", "strconv", "unicode", "unicode/utf8", "math", "math/bits", "bytes", "regexp", "hash", "hash/fnv", "crypto/md5", "crypto/sha1", "crypto/sha256",
		"crypto/aes", "crypto/cipher", "encoding/hex", "encoding/base64", "encoding/json", "encoding/binary", "errors", "sort", "net/http", "reflect", "slices", "maps", "cmp":
		return pkg != "net/http" || name == "DetectContentType"
	case "fmt":
		return strings.HasPrefix(name, "Sprint") || name == "Errorf" || strings.HasPrefix(name, "Append")
	case "path", "path/filepath":
		return name != "Walk" && name != "WalkDir" && name != "Glob" && name != "Abs" && name != "EvalSymlinks"
	case "time":
		return name != "Sleep" && name != "AfterFunc" && name != "NewTimer" && name != "NewTicker" && name != "After" && name != "Tick"
	}
	return false
}

// flows: where a value goes.
type flows struct {
	sink   bool         // a result, an effect, or control over one
	params map[int]bool // memory of these parameters
}

type depend struct {
	p    *Program
	memo map[[2]interface{}]*flows
}

// memRoot strips address and wrapping steps.
func memRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
}

// from follows the value v of fn forward.
func (d *depend) from(fn *ssa.Function, v ssa.Value) *flows {
	k := [2]interface{}{fn, v}
	if f, ok := d.memo[k]; ok {
		return f
	}
	out := &flows{params: map[int]bool{}}
	d.memo[k] = out
	seen := map[ssa.Value]bool{}
	var work []ssa.Value
	add := func(x ssa.Value) {
		if x != nil && !seen[x] {
			seen[x] = true
			work = append(work, x)
		}
	}
	mem := func(addr ssa.Value) { // the memory addr points into becomes dependent
		r := memRoot(addr)
		switch x := r.(type) {
		case *ssa.Parameter:
			for i, p := range fn.Params {
				if p == x {
					out.params[i] = true
				}
			}
			out.sink = true
		case *ssa.Global, *ssa.FreeVar:
			out.sink = true
		case *ssa.Phi:
			out.sink = true
		case *ssa.Const:
		default:
			add(r)
		}
	}
	add(v)
	for len(work) > 0 && !out.sink {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x.Referrers() == nil {
			continue
		}
		for _, ins := range *x.Referrers() {
			switch y := ins.(type) {
			case *ssa.DebugRef:
			case *ssa.Return, *ssa.Panic, *ssa.Send, *ssa.Go, *ssa.Select:
				out.sink = true
			case *ssa.If:
				if branchMatters(y) {
					out.sink = true
				}
			case *ssa.Store:
				if y.Val == x {
					mem(y.Addr)
				} else if _, isParam := memRoot(y.Addr).(*ssa.Parameter); isParam {
					out.sink = true // where the argument points is written
				} else if seen[memRoot(y.Addr)] && y.Addr != x {
					mem(y.Addr)
				}
			case *ssa.MapUpdate:
				mem(y.Map)
			case ssa.CallInstruction:
				d.call(fn, y, x, out, add, mem)
			case *ssa.MakeClosure:
				add(y)
				if g, ok := y.Fn.(*ssa.Function); ok {
					for i, b := range y.Bindings {
						if b == x && i < len(g.FreeVars) && d.from(g, g.FreeVars[i]).sink {
							out.sink = true
						}
					}
				}
			case ssa.Value:
				add(y)
			}
		}
	}
	return out
}

// call: a dependent value is an operand of a call.
func (d *depend) call(fn *ssa.Function, ci ssa.CallInstruction, x ssa.Value, out *flows, add func(ssa.Value), mem func(ssa.Value)) {
	c := ci.Common()
	res := ci.Value()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "len", "cap", "min", "max", "real", "imag", "complex":
			if res != nil {
				add(res)
			}
		case "copy", "delete", "clear":
			mem(c.Args[0])
			if res != nil {
				add(res)
			}
		default:
			out.sink = true
		}
		return
	}
	sc := c.StaticCallee()
	if sc != nil && len(sc.Blocks) > 0 && sc.Pkg != nil && strings.HasPrefix(sc.Pkg.Pkg.Path(), ModulePath) {
		for i, a := range c.Args {
			if a != x || i >= len(sc.Params) {
				continue
			}
			f := d.from(sc, sc.Params[i])
			if f.sink {
				if res != nil && res.Type() != nil && hasResults(sc) {
					add(res)
				}
				if !hasResults(sc) {
					out.sink = true
				}
				if d.effect(sc) {
					out.sink = true
				}
			}
			for j := range f.params {
				if j < len(c.Args) && j != i {
					mem(c.Args[j])
				}
			}
		}
		return
	}
	if !pureExternal(sc, c) {
		out.sink = true
		return
	}
	if _, ok := ci.(*ssa.Call); !ok {
		out.sink = true
		return
	}
	add(res)
	if c.IsInvoke() && c.Value != x {
		mem(c.Value)
	}
	for _, a := range c.Args {
		if a == x {
			continue
		}
		switch a.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			if _, isC := a.(*ssa.Const); !isC {
				mem(a)
			}
		}
	}
}

func hasResults(fn *ssa.Function) bool { return fn.Signature.Results().Len() > 0 }

// effect: running fn does more than compute its results.
func (d *depend) effect(fn *ssa.Function) bool {
	for g := range reach(fn) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				switch y := ins.(type) {
				case *ssa.Store:
					switch memRoot(y.Addr).(type) {
					case *ssa.Alloc, *ssa.MakeSlice, *ssa.Const:
					default:
						return true
					}
				case *ssa.MapUpdate:
					if _, ok := memRoot(y.Map).(*ssa.MakeMap); !ok {
						return true
					}
				case *ssa.Send, *ssa.Go, *ssa.Select, *ssa.Panic:
					return true
				case ssa.CallInstruction:
					c := y.Common()
					if _, ok := c.Value.(*ssa.Builtin); ok {
						continue
					}
					sc := c.StaticCallee()
					if sc != nil && len(sc.Blocks) > 0 && sc.Pkg != nil && strings.HasPrefix(sc.Pkg.Pkg.Path(), ModulePath) {
						continue
					}
					if !pureExternal(sc, c) {
						return true
					}
				}
			}
		}
	}
	return false
}

// branchMatters: taking one side or the other of the branch makes a difference.
func branchMatters(x *ssa.If) bool {
	b := x.Block()
	skip := func(t *ssa.BasicBlock) (*ssa.BasicBlock, *ssa.BasicBlock) { // over blocks that only jump
		from := b
		for n := 0; n < 50; n++ {
			if len(t.Succs) != 1 || len(t.Preds) != 1 {
				break
			}
			for _, ins := range t.Instrs {
				switch ins.(type) {
				case *ssa.Jump, *ssa.DebugRef:
				default:
					return t, from
				}
			}
			from, t = t, t.Succs[0]
		}
		return t, from
	}
	t, tf := skip(b.Succs[0])
	e, ef := skip(b.Succs[1])
	if t != e {
		return true
	}
	ti, ei := -1, -1
	for i, p := range t.Preds {
		if p == tf && (tf != b || ti < 0) {
			ti = i
		}
		if p == ef {
			ei = i
		}
	}
	for _, ins := range t.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if ti < 0 || ei < 0 || ph.Edges[ti] != ph.Edges[ei] {
			return true
		}
	}
	return false
}

// blanked collects the positions of calls whose result is explicitly given to the blank identifier.
func blanked(p *Program) map[token.Pos]bool {
	out := map[token.Pos]bool{}
	{
		for _, f := range p.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				a, ok := n.(*ast.AssignStmt)
				if !ok {
					return true
				}
				for _, l := range a.Lhs {
					if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
						return true
					}
				}
				for _, r := range a.Rhs {
					ast.Inspect(r, func(m ast.Node) bool {
						if c, ok := m.(*ast.CallExpr); ok {
							out[c.Lparen] = true
						}
						return true
					})
				}
				return true
			})
		}
	}
	return out
}

func usesRun(c *Ctx) {
	p := c.P
	d := &depend{p: p, memo: map[[2]interface{}]*flows{}}
	fns := exportedFuncs(p, "help/utils", "gorm_tools")
	for _, n := range namedTypes(p, "help/utils", "gorm_tools") {
		fns = append(fns, exportedMethods(p, n)...)
	}
	np := 0
	for _, fn := range fns {
		for i, pr := range fn.Params {
			if fn.Name() == "BreakPointContinue" && i == 3 {
				c.Add("exempt parameters", 1)
				continue
			}
			np++
			f := d.from(fn, pr)
			c.Ob(f.sink, "argument-used", ShortName(fn)+" "+pr.Name(), pr.Pos(), "argument %s has no influence on any result or effect of %s", pr.Name(), fn.Name())
		}
	}
	c.Need("exported functions and methods", len(fns), 40)
	c.Need("parameters", np, 60)
	c.discarded(d, fns)
	c.capitalised()
	c.byteText()
	c.switches()
}

// discarded: a text, number, checksum or collection computed from a parameter by a call that does nothing else
// is used.
func (c *Ctx) discarded(d *depend, fns []*ssa.Function) {
	blank := blanked(c.P)
	n := 0
	for g := range reach(fns...) {
		if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), ModulePath) {
			continue
		}
		if !strings.HasSuffix(g.Pkg.Pkg.Path(), "help/utils") && !strings.HasSuffix(g.Pkg.Pkg.Path(), "gorm_tools") {
			continue
		}
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || !computes(call) || blank[call.Pos()] || !fromInput(call) {
					continue
				}
				n++
				c.Ob(d.from(g, call).sink, "result-used", ShortName(g)+" "+calleeName(call), call.Pos(), "the result of %s is computed and dropped", calleeName(call))
			}
		}
	}
	c.Need("computed texts and collections", n, 5)
}

func calleeName(call *ssa.Call) string {
	if b, ok := call.Call.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	if sc := call.Call.StaticCallee(); sc != nil {
		return ShortName(sc)
	}
	if call.Call.IsInvoke() {
		return call.Call.Method.Name()
	}
	return "call"
}

// computes: the call's only purpose is its result.
func computes(call *ssa.Call) bool {
	if b, ok := call.Call.Value.(*ssa.Builtin); ok {
		return b.Name() == "append"
	}
	if sc := call.Call.StaticCallee(); sc != nil {
		if sc.Signature.Recv() != nil {
			return false
		}
		pkg := ""
		if sc.Pkg != nil {
			pkg = sc.Pkg.Pkg.Path()
		}
		switch pkg {
		case "strings", "strconv", "unicode", "math":
			return true
		case "fmt":
			return strings.HasPrefix(sc.Name(), "Sprint")
		case "encoding/hex", "crypto/md5":
			return !strings.HasPrefix(sc.Name(), "Decode") && sc.Name() != "Encode"
		case "bytes":
			return !strings.HasPrefix(sc.Name(), "New")
		}
		return false
	}
	if call.Call.IsInvoke() {
		return strings.HasPrefix(types.TypeString(call.Call.Value.Type(), nil), "hash.") && strings.HasPrefix(call.Call.Method.Name(), "Sum")
	}
	return false
}

// fromInput: some operand is not a constant.
func fromInput(call *ssa.Call) bool {
	for _, a := range call.Call.Args {
		if _, ok := a.(*ssa.Const); !ok {
			return true
		}
	}
	return call.Call.IsInvoke()
}

// capitalised: the first-letter helper gives back the capitalised text.
func (c *Ctx) capitalised() {
	fn := c.P.Func("help/utils", "UpperFirst")
	if fn == nil {
		c.Need("capitalisation helper", 0, 1)
		return
	}
	in := NewInterp(c.P, &Config{})
	exits := in.Run(fn)
	c.Complete(in, fn)
	name := ShortName(fn)
	upper := func(t *T) bool {
		return termHas(t, func(x *T) bool {
			return x.Op == "call" && (x.Aux == "unicode.ToUpper" || x.Aux == "unicode.ToTitle" || x.Aux == "unicode.To" || x.Aux == "strings.ToUpper" || x.Aux == "strings.ToTitle" || x.Aux == "bytes.ToUpper" || strings.HasSuffix(x.Aux, ".Title"))
		})
	}
	n := 0
	for _, x := range exits {
		if x.Kind != "return" {
			continue
		}
		n++
		r := x.Res[0]
		p := paramTerm(fn, 0)
		if r == p {
			fixed := x.Facts.Proves(EqInt(LenOf(p), Int(0))) || x.Facts.Proves(EqInt(LenOf(RunesOf(p)), Int(0)))
			for f := x.Facts; f != nil && !fixed; f = f.Next {
				fixed = noCapital(x.Facts, f.F, p)
			}
			c.Ob(fixed, "capitalised", name, x.Pos, "the text is returned unchanged though it may start with a small letter")
			continue
		}
		ok := upper(r)
		if r.Op == "sconv" {
			for _, e := range x.Ev.List() {
				if e.Kind == "tostring" && len(e.Res) == 1 && e.Res[0] == r {
					et := types.Typ[types.Rune]
					if strings.HasPrefix(e.Name, "bytes") {
						et = types.Typ[types.Uint8]
					}
					if v := in.LoadAt(e, Mk("elem", "", et, BaseOf(r.Args[0]), OffOf(r.Args[0])), et); v != nil {
						ok = upper(v)
					}
				}
			}
		}
		c.Ob(ok, "capitalised", name, x.Pos, "the result does not contain the letter in upper case")
		rest := r.Op == "sconv"
		if r.Op == "concat" {
			for _, y := range r.Args {
				rest = rest || y.Op == "substr" && y.Args[0] == p && y.Args[2] == LenOf(p) || y.Op == "sconv"
			}
		}
		c.Ob(rest, "capitalised", name, x.Pos, "the result does not contain the rest of the text")
	}
	c.Need("capitalisation outcomes", n, 1)
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// noCapital: the fact says that the first character has no upper case of its own (or is not a character).
func noCapital(fs *FactNode, f, p *T) bool {
	first := func(t *T) bool {
		t = unconv(t)
		if t.Op == "call" && (t.Aux == "unicode/utf8.DecodeRuneInString.0" || t.Aux == "unicode/utf8.DecodeRune.0") {
			return termHas(t, func(y *T) bool { return y == p })
		}
		if i := runeIndex(t, p); i != nil {
			return i == Int(0)
		}
		return false
	}
	neg := false
	if f.Op == "not" {
		neg, f = true, f.Args[0]
	}
	if f.Op == "call" && len(f.Args) == 1 && first(f.Args[0]) {
		switch f.Aux {
		case "unicode.IsUpper":
			return !neg
		case "unicode.IsLower", "unicode.IsLetter":
			return neg
		}
	}
	ok := false
	Contains(f, func(t *T) bool {
		if first(t) && fs.Proves(EqInt(t, Int(0xfffd))) {
			ok = true
		}
		if t.Op == "call" && (t.Aux == "unicode.ToUpper" || t.Aux == "unicode.ToTitle") && first(t.Args[0]) && fs.Proves(EqInt(t, t.Args[0])) {
			ok = true
		}
		if t.Op == "call" && strings.HasPrefix(t.Aux, "unicode/utf8.DecodeRune") && strings.HasSuffix(t.Aux, ".1") && fs.Proves(EqInt(t, Int(0))) {
			ok = true
		}
		return false
	})
	return ok
}

func termHas(t *T, f func(*T) bool) bool { return Contains(t, f) }

// paramTerm is the term of a function's parameter.
func paramTerm(fn *ssa.Function, i int) *T {
	return Param(Body(fn), i)
}

// byteText: number and unit both come from the given size; in a scaling loop they move in step.
func (c *Ctx) byteText() {
	for _, nm := range []string{"FormatByte", "FileSize"} {
		fn := c.P.Func("help/utils", nm)
		if fn == nil {
			c.Need(nm, 0, 1)
			continue
		}
		in := NewInterp(c.P, &Config{})
		exits := in.Run(fn)
		c.Complete(in, fn)
		p := paramTerm(fn, 0)
		name := ShortName(fn)
		for _, x := range exits {
			if x.Kind != "return" {
				continue
			}
			r := x.Res[0]
			loops := map[*T]*LoopRec{}
			phis := map[*T]*ssa.Phi{}
			for _, e := range x.Ev.List() {
				if e.Kind == "loop" && e.Loop != nil {
					loops[e.Loop.Iota] = e.Loop
					for _, ph := range e.Loop.Phis {
						loops[e.Loop.Cur[ph]] = e.Loop
						phis[e.Loop.Cur[ph]] = ph
					}
				}
			}
			var number []*T
			scaled := map[*LoopRec]bool{}
			Contains(r, func(t *T) bool {
				if t.Op == "iface" && (isFloatT(t.Args[0].Typ) || IsIntType(t.Args[0].Typ)) {
					number = append(number, t.Args[0])
				}
				if t.Op == "call" && strings.HasPrefix(t.Aux, "strconv.") && len(t.Args) > 0 {
					number = append(number, t.Args[0])
				}
				return false
			})
			ok := false
			for _, v := range number {
				if termHas(v, func(y *T) bool { return y == p }) {
					ok = true
				}
				Contains(v, func(y *T) bool {
					ph := phis[y]
					if ph == nil {
						return false
					}
					rec := loops[y]
					scaled[rec] = true
					if termHas(rec.Init[ph], func(z *T) bool { return z == p }) {
						ok = true
					}
					c.inStep(in, name, x, r, rec, ph, y)
					return false
				})
			}
			Contains(r, func(t *T) bool {
				if rec := loops[t]; rec != nil && t == rec.Iota {
					c.Ob(scaled[rec], "unit-in-step", name, x.Pos, "the unit moves on in a loop that does not scale the number")
				}
				return false
			})
			c.Ob(ok, "size-formatted", name, x.Pos, "the number in the text does not come from the given size")
		}
	}
}

// inStep: each turn of a scaling loop divides the number and moves the unit on by one.
func (c *Ctx) inStep(in *Interp, name string, x *Exit, r *T, rec *LoopRec, ph *ssa.Phi, cur *T) {
	for _, b := range rec.Back {
		v := in.BackVal(rec, b, ph)
		ok := v != nil && v.Op == "f/" && v.Args[0] == cur && !termHas(v.Args[1], func(y *T) bool { return y == cur })
		if v != nil && v.Op == "f*" {
			ok = v.Args[0] == cur || v.Args[1] == cur
		}
		c.Ob(ok, "unit-in-step", name, x.Pos, "an iteration does not divide the number by the unit step")
	}
	Contains(r, func(t *T) bool {
		if t.Op == "index" || t.Op == "init" && t.Args[0].Op == "elem" {
			i := t.Args[len(t.Args)-1]
			if t.Op == "init" {
				i = t.Args[0].Args[1]
			}
			c.Ob(Sub(i, rec.Iota) == Int(0), "unit-in-step", name, x.Pos, "the unit is number %s of the list after %s divisions", i, rec.Iota)
		}
		return false
	})
}

// switches: setting is visible in the given map, getting reads it.
func (c *Ctx) switches() {
	set, get := c.P.Func("help/utils", "SetSwitchFromOptions"), c.P.Func("help/utils", "GetSwitchFromOptions")
	if set == nil || get == nil {
		c.Need("switch helpers", 0, 1)
		return
	}
	in := NewInterp(c.P, &Config{})
	exits := in.Run(set)
	c.Complete(in, set)
	m, k, v := paramTerm(set, 0), paramTerm(set, 1), paramTerm(set, 2)
	n := 0
	for _, x := range exits {
		if x.Kind != "return" || x.Facts.Proves(Eq(m, Nil)) {
			continue
		}
		n++
		got := in.LoadOne(x.State, Mk("cell", "", types.Typ[types.Bool], m, k), types.Typ[types.Bool])
		has := in.LoadOne(x.State, Mk("has", "", types.Typ[types.Bool], m, k), types.Typ[types.Bool])
		c.Ob(sameBool(x.Facts, got, v) && has == True, "switch-set", ShortName(set), x.Pos, "afterwards the given map holds %v under the key, not the given value", got)
	}
	c.Need("switch set outcomes", n, 1)
	in = NewInterp(c.P, &Config{})
	exits = in.Run(get)
	c.Complete(in, get)
	m, k = paramTerm(get, 0), paramTerm(get, 1)
	cell := Mk("init", "", types.Typ[types.Bool], Mk("cell", "", types.Typ[types.Bool], m, k))
	has := Mk("init", "", types.Typ[types.Bool], Mk("has", "", types.Typ[types.Bool], m, k))
	for _, x := range splitBool(in, exits) {
		if x.Kind != "return" {
			continue
		}
		f := x.Facts
		switch x.Res[0] {
		case True:
			ok := f.Proves(Eq(m, Nil)) || f.Proves(Not(has)) || f.Proves(cell) || f.With(has).With(Not(cell)).Infeasible()
			c.Ob(ok, "switch-get", ShortName(get), x.Pos, "a switch that may be stored as off reads as on")
		case False:
			c.Ob(f.Proves(has) && f.Proves(Not(cell)), "switch-get", ShortName(get), x.Pos, "a switch that is absent or on reads as off")
		default:
			c.Fail("switch-get", ShortName(get), x.Pos, "the result is %s", x.Res[0])
		}
	}
}

func sameBool(f *FactNode, a, b *T) bool {
	if a == nil {
		return false
	}
	return a == b || f.Proves(Eq(a, b)) || f.With(a).With(Not(b)).Infeasible() && f.With(Not(a)).With(b).Infeasible()
}
