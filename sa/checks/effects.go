package checks

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

// exportedFuncs lists the exported functions and methods of the packages under dir.
func exportedFuncs(p *Program, dirs ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || f.Pkg == nil || !token.IsExported(f.Name()) || Body(f) == nil {
			continue
		}
		for _, d := range dirs {
			if pp := strings.TrimPrefix(f.Pkg.Pkg.Path(), ModulePath+"/"); pp == d || strings.HasPrefix(pp, d+"/") {
				out = append(out, f)
				break
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return ShortName(out[i]) < ShortName(out[j]) })
	return out
}

func stripIface(t *T) *T {
	for t != nil && t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// errRes is the error result term of a call event.
func errRes(e *Event) *T {
	if len(e.Res) == 0 {
		return nil
	}
	l := e.Res[len(e.Res)-1]
	if l.Typ != nil && isErrType(l.Typ) {
		return l
	}
	return nil
}

// callPkg is the import path of the package a call event's callee belongs to.
func callPkg(e *Event) string {
	n := strings.TrimPrefix(e.Name, "invoke:")
	n = strings.TrimLeft(n, "(*")
	if i := strings.LastIndex(n, "/"); i >= 0 {
		if j := strings.Index(n[i:], "."); j >= 0 {
			return n[:i+j]
		}
		return n
	}
	if j := strings.Index(n, "."); j >= 0 {
		return n[:j]
	}
	return n
}

// callMethod is the last component of the callee name.
func callMethod(e *Event) string {
	if i := strings.LastIndex(e.Name, "."); i >= 0 {
		return e.Name[i+1:]
	}
	return e.Name
}

// hasCloser: the type has a Close() error method.
func hasCloser(t types.Type) bool {
	if t == nil {
		return false
	}
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "Close")
	f, ok := o.(*types.Func)
	if !ok {
		return false
	}
	s := f.Type().(*types.Signature)
	return s.Params().Len() == 0 && s.Results().Len() <= 1
}

// failed / succeeded: what the facts say about an error term.
func failedErr(f *FactNode, t *T) bool { return f.Proves(Not(Eq(t, Nil))) }
func noErr(f *FactNode, t *T) bool     { return t == Nil || f.Proves(Eq(t, Nil)) }

func init() {
	register(&Check{ID: "C25", Title: "every handle opened is closed on every path", Level: "other",
		Rule: "For every exported helper (called code inlined, loops summarised), every call that yields a closable handle (a result with a Close method: os.Open/Create/OpenFile, zip.OpenReader, (*zip.File).Open, zip.NewWriter, ...) is an obligation on each path through it: unless the path's facts say the call failed, the path closes that handle (directly, by a defer registered on the path, or by a closure deferred on it) before it returns, comes back to the head of a loop with it closed or deferred, or hands it to the caller as a result.",
		Run:  closeHandles, Tech: "typestate analysis (open/closed) over a path-partitioned abstract interpretation of Go SSA",
		Note:   "Decides for every input and every failing call, as error results are unconstrained. Assumes a Close call releases the handle and that library calls do not close handles given to them; runtime panics between open and close are not modelled.",
		Assume: []string{"Close releases the handle", "library functions neither close nor keep the handles they are given"}})
	register(&Check{ID: "C26", Title: "no helper reports success after a failed operation", Level: "other",
		Rule: "For every exported helper that performs fallible file, archive, csv, command or cipher operations, on every path that reports success (nil error; for helpers without error result: a non-empty result) the facts of that path, together with the returned error being nil, entail that the error of every such operation on the path is nil; iterations of loops are obligations at the loop's back edge (or through an error variable proved to stay non-nil). csv output must be flushed and its Error consulted, zip archives closed with the error consulted.",
		Run:  reportFailures, Tech: "error-propagation dataflow over a path-partitioned abstract interpretation of Go SSA",
		Note:   "All error outcomes of all calls are covered. Out of scope: errors of Close on the file handles themselves, existence probes (Stat/Lstat) and writes to hashes and in-memory buffers, which cannot fail.",
		Assume: []string{"library calls report their failures through their error result"}})
}

// closes: the event closes (or schedules the closing of) handle h.
func closes(e *Event, h *T) bool {
	if e.Kind != "call" && e.Kind != "defer" {
		return false
	}
	if e.Kind == "defer" && e.Val != nil && e.Val.Op == "closure" {
		// a deferred closure: its body calls Close on a captured variable holding the handle
		for i, a := range e.Val.Args {
			if e.Val.Fn == nil || i >= len(e.Val.Fn.FreeVars) {
				continue
			}
			if !closesFree(e.Val.Fn, e.Val.Fn.FreeVars[i]) {
				continue
			}
			if stripIface(a) == h {
				return true
			}
			for m := e.Mem; m != nil; m = m.Next { // captured by reference
				if m.Kind == MStore && m.Addr == a {
					return stripIface(m.Val) == h
				}
			}
		}
		return false
	}
	return callMethod(e) == "Close" && len(e.Args) > 0 && stripIface(e.Args[0]) == h
}

func closesFree(fn *ssa.Function, fv *ssa.FreeVar) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := c.Common()
			var r ssa.Value
			if com.IsInvoke() && com.Method.Name() == "Close" {
				r = com.Value
			} else if sc := com.StaticCallee(); sc != nil && sc.Name() == "Close" && len(com.Args) > 0 {
				r = com.Args[0]
			}
			if u, ok := r.(*ssa.UnOp); ok {
				r = u.X
			}
			if r == fv {
				return true
			}
		}
	}
	return false
}

func closeHandles(c *Ctx) {
	nacq := map[*ssa.CallCommon]bool{}
	funcs := map[string]bool{}
	for _, fn := range exportedFuncs(c.P, "help", "gorm_tools") {
		in := NewInterp(c.P, nil)
		exits := in.Run(fn)
		name := ShortName(fn)
		opened := false
		handle := func(e *Event) *T {
			if e.Kind != "call" || len(e.Res) == 0 {
				return nil
			}
			sc := types.Type(nil)
			if e.Res[0] != nil {
				sc = e.Res[0].Typ
			}
			if !hasCloser(sc) {
				return nil
			}
			return e.Res[0]
		}
		// left: the function has returned, so what it deferred has run and is on the path itself
		check := func(evs []*Event, f *FactNode, res []*T, left bool, where string, pos token.Pos) {
			for i, e := range evs {
				h := handle(e)
				if h == nil {
					continue
				}
				opened = true
				if ci, ok := e.Instr.(ssa.CallInstruction); ok {
					nacq[ci.Common()] = true
				}
				if er := errRes(e); er != nil && failedErr(f, er) {
					continue
				}
				if h == Nil || f.Proves(Eq(h, Nil)) {
					continue
				}
				ok := false
				for _, l := range evs[i+1:] {
					if (l.Kind == "call" || !left) && closes(l, h) {
						ok = true
						break
					}
				}
				for _, r := range res {
					if Contains(r, func(x *T) bool { return x == h }) {
						ok = true
					}
				}
				c.Ob(ok, "closed-on-every-path", name+" "+e.Name, e.Pos, "the handle of %s opened here is not closed on a path that %s at %s", e.Name, where, c.P.Pos(pos))
			}
		}
		for _, x := range exits {
			if x.Kind != "return" {
				continue
			}
			check(x.Ev.List(), x.Facts, x.Res, true, "returns", x.Pos)
		}
		for _, rec := range loopsOf(exits) {
			for _, b := range rec.Back {
				check(backEvents(rec, b), b.Facts, nil, false, "goes on to the next iteration of the loop", rec.Pos)
			}
		}
		if opened {
			funcs[name] = true
			c.Complete(in, fn)
		}
	}
	c.Need("opening call sites", len(nacq), 2)
	c.Need("helpers opening handles", len(funcs), 7)
}

// fallible decides whether a call event is an operation whose failure must be reported.
func fallible(e *Event) bool {
	if e.Kind != "call" && e.Kind != "reccall" || errRes(e) == nil {
		return false
	}
	if e.Kind == "reccall" {
		return true
	}
	switch callPkg(e) {
	case "os", "io", "io/ioutil", "bufio", "archive/zip", "archive/tar", "compress/gzip", "compress/flate", "encoding/csv", "os/exec", "path/filepath", "crypto/aes", "crypto/cipher", "io/fs":
	default:
		return false
	}
	switch callMethod(e) {
	case "Stat", "Lstat":
		return false
	case "Close":
		// closing a reader or the file itself; archive writers must be finalised
		return strings.Contains(e.Name, "Writer).Close")
	}
	return true
}

// fallibleErr is the error term of a fallible operation, nil for other events.
func fallibleErr(in *Interp, s *State, e *Event) *T {
	if fallible(e) {
		return errRes(e)
	}
	return nil
}

func reportFailures(c *Ctx) {
	n, funcs := map[ssa.Instruction]bool{}, map[string]bool{}
	for _, fn := range exportedFuncs(c.P, "help") {
		in := NewInterp(c.P, nil)
		exits := in.Run(fn)
		any := false
		for _, e := range allEvents(exits) {
			if fallible(e) {
				any = true
				n[e.Instr] = true
			}
		}
		if !any {
			continue
		}
		name := ShortName(fn)
		funcs[name] = true
		c.Complete(in, fn)
		for _, x := range exits {
			if x.Kind == "return" {
				c.failuresOnPath(in, fn, name, x, fallibleErr)
			}
		}
	}
	c.Need("fallible operations", len(n), 8)
	c.Need("helpers with fallible operations", len(funcs), 14)
}

// failuresOnPath: if the path reports success, every operation on it succeeded.
func (c *Ctx) failuresOnPath(in *Interp, fn *ssa.Function, name string, x *Exit, errOf func(in *Interp, s *State, e *Event) *T) {
	res := fn.Signature.Results()
	f := x.Facts
	var ret *T
	if res.Len() > 0 && isErrType(res.At(res.Len()-1).Type()) {
		ret = x.Res[len(x.Res)-1]
		if failedErr(f, ret) || ret.Op == "err" {
			return
		}
		if ret != Nil {
			f = f.With(Eq(ret, Nil))
		}
	} else if res.Len() > 0 && emptyResult(f, x.Res[0], res.At(0).Type()) {
		return
	}
	if f.Infeasible() {
		return
	}
	flushed := map[*T]*Event{}
	for _, e := range x.Ev.List() {
		if e.Kind == "call" && e.Name == "(*encoding/csv.Writer).Flush" {
			flushed[e.Args[0]] = e
		}
		if e.Kind == "call" && e.Name == "(*encoding/csv.Writer).Error" {
			delete(flushed, e.Args[0])
		}
		if e.Kind == "call" && e.Name == "(*encoding/csv.Writer).Write" {
			flushed[e.Args[0]] = e
		}
		if t := errOf(in, x.State, e); t != nil {
			c.Ob(t == ret || noErr(f, t), "failure-reported", name+" "+e.Name, e.Pos, "a failure of %s is not reported: the helper can still report success (return at %s)", e.Name, c.P.Pos(x.Pos))
		}
		if e.Kind == "loop" {
			c.failuresInLoop(in, name, e.Loop, f, ret, errOf)
		}
	}
	for _, e := range flushed {
		c.Ob(false, "failure-reported", name+" csv flush", e.Pos, "csv output is buffered here, but its write error is never consulted (Flush, then Error)")
	}
}

func (c *Ctx) failuresInLoop(in *Interp, name string, rec *LoopRec, f *FactNode, ret *T, errOf func(in *Interp, s *State, e *Event) *T) {
	for _, b := range rec.Back {
		for _, e := range backEvents(rec, b) {
			if e.Kind == "loop" {
				c.failuresInLoop(in, name, e.Loop, b.Facts, nil, errOf)
				continue
			}
			t := errOf(in, b, e)
			if t == nil {
				continue
			}
			ok := noErr(b.Facts, t)
			if !ok {
				ok = accumulated(in, rec, b, f, ret, t)
			}
			c.Ob(ok, "failure-reported", name+" "+e.Name, e.Pos, "a failure of %s in a loop is not reported: the loop goes on without remembering it", e.Name)
		}
	}
}

// accumulated: the loop remembers the failure in an error variable which is nil at the success exit.
func accumulated(in *Interp, rec *LoopRec, b *State, f *FactNode, ret *T, t *T) bool {
	for _, p := range rec.Phis {
		if !isErrType(p.Type()) || rec.Cur[p] == nil {
			continue
		}
		cur := rec.Cur[p]
		if !noErr(f, cur) && cur != ret {
			continue
		}
		keep := true
		for _, bb := range rec.Back {
			nx := in.BackVal(rec, bb, p)
			g := bb.Facts.With(Eq(nx, Nil))
			if !(nx == cur || failedErr(bb.Facts, nx) || nx.Op == "err" || g.Infeasible() || g.Proves(Eq(cur, Nil))) {
				keep = false
			}
		}
		if !keep {
			continue
		}
		nx := in.BackVal(rec, b, p)
		g := b.Facts.With(Eq(nx, Nil))
		if nx == t || failedErr(b.Facts, nx) || nx.Op == "err" || g.Infeasible() || g.Proves(Eq(t, Nil)) {
			return true
		}
	}
	return false
}

// emptyResult: the result is the zero value of its type (or the empty text).
func emptyResult(f *FactNode, r *T, t types.Type) bool {
	if r == Nil || r == Zero(t) || f.Proves(Eq(r, Zero(t))) {
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return f.Proves(EqInt(LenOf(r), Int(0)))
	}
	return false
}
