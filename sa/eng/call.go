package eng

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Call is one call being interpreted.
type Call struct {
	Instr    ssa.Instruction
	Common   *ssa.CallCommon
	Fn       *T // function value (nil for invoke)
	Name     string
	Args     []*T
	Static   *ssa.Function
	Bindings []*T
	Dest     ssa.Value
	Deferred bool
	Invoke   bool
}

// Outcome is one result of a modelled call.
type Outcome struct {
	St    *State
	Res   []*T
	Panic bool
}

// Results lists the result types.
func (c *Call) Results() []types.Type {
	var out []types.Type
	sig := c.Common.Signature()
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

func (in *Interp) makeCall(st *State, ins ssa.Instruction, cc *ssa.CallCommon) *Call {
	c := &Call{Instr: ins, Common: cc}
	if cc.IsInvoke() {
		recv := in.val(st, cc.Value)
		c.Args = append(c.Args, recv)
		c.Invoke = true
		for _, a := range cc.Args {
			c.Args = append(c.Args, in.val(st, a))
		}
		c.Fn = mk("method", cc.Method.FullName(), nil)
		in.resolve(c)
		return c
	}
	c.Fn = in.val(st, cc.Value)
	for _, a := range cc.Args {
		c.Args = append(c.Args, in.val(st, a))
	}
	in.resolve(c)
	return c
}

func (in *Interp) resolve(c *Call) {
	cc := c.Common
	if cc.IsInvoke() {
		c.Invoke = true
		recv := c.Args[0]
		if recv.Op == "iface" && recv.Typ != nil {
			if m := in.P.SSA.LookupMethod(recv.Typ, cc.Method.Pkg(), cc.Method.Name()); m != nil && InModule(m) && len(Body(m).Blocks) > 0 {
				c.Static = m
				c.Args = append([]*T{recv.Args[0]}, c.Args[1:]...)
				c.Name = FuncName(m)
				return
			}
		}
		c.Name = "invoke:" + ifaceName(cc.Value.Type()) + "." + cc.Method.Name()
		return
	}
	switch c.Fn.Op {
	case "func", "closure":
		c.Static = c.Fn.Fn
		c.Name = FuncName(c.Fn.Fn)
		if c.Fn.Op == "closure" {
			c.Bindings = c.Fn.Args
		}
	case "builtin":
		c.Name = "builtin:" + c.Fn.Aux
	default:
		c.Name = "dynamic"
	}
}

func ifaceName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return types.TypeString(t, nil)
}

// finish continues a state after a modelled call.
func (in *Interp) finish(st *State, c *Call, res []*T) ([]*State, []*Exit) {
	if c.Deferred {
		st.own()
		return in.afterDefer(st)
	}
	f := st.top()
	if c.Dest != nil {
		if len(res) == 1 {
			f.Env[c.Dest] = res[0]
		} else {
			f.Env[c.Dest] = Mk("tuple", "", nil, res...)
		}
	}
	f.Idx++
	return []*State{st}, nil
}

func (in *Interp) finishAll(outs []Outcome, c *Call) ([]*State, []*Exit) {
	var ss []*State
	var es []*Exit
	for _, o := range outs {
		if o.St == nil {
			continue
		}
		if o.Panic {
			in.event(o.St, &Event{Kind: "panic", Instr: c.Instr, Name: c.Name})
			a, b := in.unwind(o.St, Mk("err", "panic in "+c.Name, nil))
			ss = append(ss, a...)
			es = append(es, b...)
			continue
		}
		a, b := in.finish(o.St, c, o.Res)
		ss = append(ss, a...)
		es = append(es, b...)
	}
	return ss, es
}

func (in *Interp) doCall(st *State, c *Call) ([]*State, []*Exit) {
	if c.Fn != nil && c.Fn == Nil {
		in.event(st, &Event{Kind: "ob", Name: "nil", Instr: c.Instr, Val: False, Args: []*T{Nil}})
		return nil, nil
	}
	if m := in.Cfg.Model[c.Name]; m != nil {
		if outs := m(in, st, c); outs != nil {
			return in.finishAll(outs, c)
		}
	}
	if c.Fn != nil && c.Fn.Op == "builtin" {
		return in.builtin(st, c)
	}
	if c.Static != nil {
		body := Body(c.Static)
		if InModule(body) && len(body.Blocks) > 0 || len(body.Blocks) > 0 && body.Synthetic != "" && in.wrapsModule(body) {
			if in.Cfg.NoInline == nil || !in.Cfg.NoInline(body) {
				rec := 0
				for _, f := range st.Frames {
					if f.Fn == body {
						rec++
					}
				}
				if rec > 0 && !in.distinctClosure(st, body) {
					return in.opaque(st, c, "reccall")
				}
				if len(st.Frames) >= in.Cfg.MaxDepth {
					in.fail("call depth exceeded at %s", body)
					return in.opaque(st, c, "call")
				}
				in.event(st, &Event{Kind: "enter", Instr: c.Instr, Name: c.Name, Args: c.Args})
				nf := len(st.Frames)
				in.pushFrame(st, body, c.Args, c.Bindings, c.Instr)
				st.Frames[nf].Dest = c.Dest
				st.Frames[nf].InDefer = c.Deferred
				return []*State{st}, nil
			}
		}
	}
	if m := models[c.Name]; m != nil {
		if outs := m(in, st, c); outs != nil {
			return in.finishAll(outs, c)
		}
	}
	if outs := in.pureModel(st, c); outs != nil {
		return in.finishAll(outs, c)
	}
	return in.opaque(st, c, "call")
}

func (in *Interp) distinctClosure(st *State, b *ssa.Function) bool { return false }

// wrapsModule: bound-method and thunk wrappers of module methods.
func (in *Interp) wrapsModule(b *ssa.Function) bool {
	for _, bl := range b.Blocks {
		for _, i := range bl.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if sc := c.Common().StaticCallee(); sc != nil && InModule(sc) {
					return true
				}
				if c.Common().IsInvoke() {
					return true
				}
				// e.g. promoted sync.RWMutex methods of a module type
				if sc := c.Common().StaticCallee(); sc != nil {
					return true
				}
			}
		}
	}
	return false
}

// opaque is a call with unknown results.
func (in *Interp) opaque(st *State, c *Call, kind string) ([]*State, []*Exit) {
	if c.Name == "dynamic" {
		kind = "dyncall"
		if in.Cfg.PureDyn != nil && in.Cfg.PureDyn(c.Fn) {
			rt := c.Results()
			r := Mk("app", "", rt[0], append([]*T{c.Fn}, c.Args...)...)
			in.event(st, &Event{Kind: "dyncall", Instr: c.Instr, Val: c.Fn, Args: c.Args, Res: []*T{r}})
			return in.finish(st, c, []*T{r})
		}
		in.nilOb(st, c.Instr, c.Fn)
	}
	if c.Invoke {
		in.nilOb(st, c.Instr, c.Args[0])
	}
	var out []*State
	var exits []*Exit
	if in.Cfg.CallbackPanics && (c.Name == "dynamic") {
		p := st.fork()
		in.event(p, &Event{Kind: kind, Instr: c.Instr, Name: c.Name, Args: c.Args, Val: c.Fn})
		in.event(p, &Event{Kind: "panic", Instr: c.Instr, Name: "callback"})
		a, b := in.unwind(p, Mk("err", "callback panic", nil))
		out = append(out, a...)
		exits = append(exits, b...)
	}
	res := in.freshResults(st, c)
	in.event(st, &Event{Kind: kind, Instr: c.Instr, Name: c.Name, Args: c.Args, Res: res, Val: c.Fn})
	if !readonlyCalls[c.Name] && !writerCall(c) && kind != "reccall" {
		for i, a := range c.Args {
			in.clobber(st, c, i, a)
		}
	}
	a, b := in.finish(st, c, res)
	return append(out, a...), append(exits, b...)
}

// writerCall recognises Write methods: the io.Writer contract forbids them to modify their data.
func writerCall(c *Call) bool {
	return strings.HasSuffix(c.Name, ".Write") && (c.Invoke || strings.HasPrefix(c.Name, "("))
}

func (in *Interp) freshResults(st *State, c *Call) []*T {
	var res []*T
	for i, t := range c.Results() {
		r := in.Fresh(st, "res", fmt.Sprintf("%s.%d", c.Name, i), t)
		res = append(res, r)
	}
	return res
}

// clobber forgets memory an unknown callee can reach through a pointer to a local object.
func (in *Interp) clobber(st *State, c *Call, i int, a *T) {
	if a.Op == "iface" {
		a = a.Args[0]
	}
	if a.Op == "slice" {
		if c.Common != nil && a.Args[0] != Nil {
			st.Clock++
			st.Havoc(Pattern{Kind: "elems", A: a.Args[0]}, fmt.Sprintf("call:%s#%d", c.Name, st.Clock))
		}
		return
	}
	if a.Typ != nil {
		if _, ok := a.Typ.Underlying().(*types.Slice); ok {
			st.Clock++
			st.Havoc(Pattern{Kind: "elems", A: BaseOf(a)}, fmt.Sprintf("call:%s#%d", c.Name, st.Clock))
			return
		}
	}
	if r := allocRoot(a); r != nil && (a.Op == "alloc" || isAddrOp(a.Op)) {
		if strings.HasPrefix(r.Aux, "map") || strings.HasPrefix(r.Aux, "chan") {
			if strings.HasPrefix(r.Aux, "map") {
				st.Clock++
				st.Havoc(Pattern{Kind: "cells", A: r}, fmt.Sprintf("call:%s#%d", c.Name, st.Clock))
			}
			return
		}
		st.Clock++
		st.Havoc(Pattern{Kind: "obj", A: a}, fmt.Sprintf("call:%s#%d", c.Name, st.Clock))
	}
}

func (in *Interp) builtin(st *State, c *Call) ([]*State, []*Exit) {
	a := c.Args
	switch c.Fn.Aux {
	case "len":
		t := c.Common.Args[0].Type().Underlying()
		if _, ok := t.(*types.Map); ok {
			in.event(st, &Event{Kind: "load", Name: "maplen", Instr: c.Instr, Args: []*T{mk("mlen", "", types.Typ[types.Int], a[0])}})
			return in.finish(st, c, []*T{in.mapLen(st, a[0])})
		}
		if p, ok := t.(*types.Pointer); ok {
			if ar, ok := p.Elem().Underlying().(*types.Array); ok {
				return in.finish(st, c, []*T{Int(ar.Len())})
			}
		}
		return in.finish(st, c, []*T{LenOf(a[0])})
	case "cap":
		return in.finish(st, c, []*T{CapOf(a[0])})
	case "append":
		return in.appendBuiltin(st, c)
	case "copy":
		return in.copyBuiltin(st, c)
	case "delete":
		m, k := a[0], a[1]
		in.event(st, &Event{Kind: "store", Name: "delete", Instr: c.Instr, Args: []*T{mk("cell", "", nil, m, k)}})
		if m == Nil {
			return in.finish(st, c, nil)
		}
		var outs []Outcome
		for _, r := range in.Load(st, mk("has", "", types.Typ[types.Bool], m, k), types.Typ[types.Bool]) {
			s := r.st
			ln := in.mapLen(s, m)
			s.Store(mk("has", "", types.Typ[types.Bool], m, k), False, types.Typ[types.Bool])
			if r.val == True || s.Facts.Proves(r.val) {
				ln = Sub(ln, Int(1))
			} else if r.val != False && !s.Facts.Proves(Not(r.val)) {
				ln = Sub(ln, mk("b2i", "", types.Typ[types.Uint8], r.val))
			}
			s.Store(mk("mlen", "", types.Typ[types.Int], m), ln, types.Typ[types.Int])
			outs = append(outs, Outcome{St: s})
		}
		return in.finishAll(outs, c)
	case "close":
		in.event(st, &Event{Kind: "close", Instr: c.Instr, Args: a})
		return in.finish(st, c, nil)
	case "panic":
		in.event(st, &Event{Kind: "panic", Instr: c.Instr, Args: a, Name: "explicit"})
		return in.unwind(st, a[0])
	case "recover":
		v := Nil
		if st.Panic != nil {
			v = in.Fresh(st, "err", "recovered", nil)
			st.Panic = nil
		}
		in.event(st, &Event{Kind: "recover", Instr: c.Instr})
		return in.finish(st, c, []*T{v})
	case "print", "println":
		return in.finish(st, c, nil)
	case "min", "max":
		r := a[0]
		outs := []Outcome{{St: st, Res: []*T{r}}}
		for _, x := range a[1:] {
			var n []Outcome
			for _, o := range outs {
				cond := Le(o.Res[0], x)
				if c.Fn.Aux == "max" {
					cond = Le(x, o.Res[0])
				}
				if s := o.St.fork().assume(in, cond); s != nil {
					n = append(n, Outcome{St: s, Res: o.Res})
				}
				if s := o.St.fork().assume(in, Not(cond)); s != nil {
					n = append(n, Outcome{St: s, Res: []*T{x}})
				}
			}
			outs = n
		}
		return in.finishAll(outs, c)
	case "ssa:wrapnilchk":
		in.nilOb(st, c.Instr, a[0])
		return in.finish(st, c, []*T{a[0]})
	case "clear":
		v := a[0]
		if _, ok := c.Common.Args[0].Type().Underlying().(*types.Map); ok {
			in.event(st, &Event{Kind: "store", Name: "clear", Instr: c.Instr, Args: []*T{mk("cell", "", nil, v, Nil)}})
			st.Havoc(Pattern{Kind: "cells", A: v}, fmt.Sprintf("clear#%d", st.Clock))
			st.Store(mk("mlen", "", types.Typ[types.Int], v), Int(0), types.Typ[types.Int])
			return in.finish(st, c, nil)
		}
		st.Clock++
		it := mk("iota", fmt.Sprintf("clear#%d", st.Clock), types.Typ[types.Int])
		var et types.Type
		if sl, ok := c.Common.Args[0].Type().Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
		st.Mem = st.Mem.push(&Mem{Kind: MCompr, Addr: BaseOf(v), Lo: OffOf(v), N: LenOf(v), Iota: it, Cases: []ComprCase{{Val: Zero(et)}}, Clock: st.Clock})
		in.event(st, &Event{Kind: "store", Name: "clear", Instr: c.Instr, Args: []*T{mk("elem", "", nil, BaseOf(v), it)}, Val: Zero(et)})
		return in.finish(st, c, nil)
	case "String", "StringData", "SliceData", "Slice":
		return in.opaque(st, c, "call")
	}
	in.fail("builtin %s", c.Fn.Aux)
	return in.opaque(st, c, "call")
}

func (in *Interp) appendBuiltin(st *State, c *Call) ([]*State, []*Exit) {
	s, x := c.Args[0], Nil
	if len(c.Args) > 1 {
		x = c.Args[1]
	}
	typ := c.Common.Args[0].Type()
	n := LenOf(x)
	ln := LenOf(s)
	ev := &Event{Kind: "append", Instr: c.Instr, Args: []*T{s, x}}
	in.event(st, ev)
	if IsConst(n, 0) {
		ev.Res = []*T{s}
		return in.finish(st, c, []*T{s})
	}
	src := st.Mem
	var res *T
	st.Clock++
	cp := mk("cap", fmt.Sprintf("append#%d", st.Clock), types.Typ[types.Uint], append([]*T{s}, st.Iotas...)...)
	cp.Seq = st.Clock
	res = in.newSlice(st, "append", Add(ln, n), cp, typ)
	ev.Res = []*T{res}
	st.Facts = st.Facts.With(Ge0(Sub(cp, Add(ln, n))))
	base := res.Args[0]
	if !IsConst(ln, 0) {
		st.Clock++
		st.Mem = st.Mem.push(&Mem{Kind: MCopy, Addr: base, Lo: Int(0), N: ln, SrcBase: BaseOf(s), SrcLo: OffOf(s), Src: src, Clock: st.Clock})
	}
	in.copyElems(st, src, base, ln, n, x, typ)
	// the element may also be written in place when the capacity suffices
	return in.finish(st, c, []*T{res})
}

// copyElems writes n elements of x (slice or string) to base at off.
func (in *Interp) copyElems(st *State, src *Mem, base, off, n, x *T, typ types.Type) {
	st.Clock++
	if x.Typ != nil && isStr(x.Typ) || x.Op == "concat" || x.Op == "substr" {
		it := mk("iota", fmt.Sprintf("copy#%d", st.Clock), types.Typ[types.Int])
		st.Mem = st.Mem.push(&Mem{Kind: MCompr, Addr: base, Lo: off, N: n, Iota: it, Cases: []ComprCase{{Val: StrAt(x, it)}}, Clock: st.Clock})
		return
	}
	// a literal list of elements is stored one by one
	if k, ok := ConstOf(n); ok && k.IsInt64() && k.Int64() <= 16 {
		var et types.Type
		if sl, ok := typ.Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
		tmp := &State{Frames: st.Frames, Mem: src, Facts: st.Facts, Clock: st.Clock}
		var vals []*T
		for i := int64(0); i < k.Int64(); i++ {
			rs := in.Load(tmp, mk("elem", "", ptrTo(et), BaseOf(x), Add(OffOf(x), Int(i))), et)
			if len(rs) != 1 {
				vals = nil
				break
			}
			vals = append(vals, rs[0].val)
		}
		if vals != nil {
			for i, v := range vals {
				st.Store(mk("elem", "", ptrTo(et), base, Add(off, Int(int64(i)))), v, et)
			}
			return
		}
	}
	st.Mem = st.Mem.push(&Mem{Kind: MCopy, Addr: base, Lo: off, N: n, SrcBase: BaseOf(x), SrcLo: OffOf(x), Src: src, Clock: st.Clock})
}

func ptrTo(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return types.NewPointer(t)
}

func (in *Interp) copyBuiltin(st *State, c *Call) ([]*State, []*Exit) {
	d, s := c.Args[0], c.Args[1]
	var outs []Outcome
	le := Le(LenOf(d), LenOf(s))
	for i, cond := range []*T{le, Not(le)} {
		x := st.fork().assume(in, cond)
		if x == nil {
			continue
		}
		n := LenOf(d)
		if i == 1 {
			n = LenOf(s)
		}
		in.event(x, &Event{Kind: "copy", Instr: c.Instr, Args: []*T{d, s, n}})
		in.copyElems(x, x.Mem, BaseOf(d), OffOf(d), n, s, c.Common.Args[0].Type())
		outs = append(outs, Outcome{St: x, Res: []*T{n}})
	}
	return in.finishAll(outs, c)
}
