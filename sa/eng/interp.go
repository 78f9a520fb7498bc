package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is something observable on a path.
type Event struct {
	Kind    string // call, lock, unlock, rlock, runlock, load, store, aload, astore, acas, go, selcase, send, recv, close, defer, ob, loop, loopend, append, panic, reccall, now
	Instr   ssa.Instruction
	Fn      *ssa.Function
	Pos     token.Pos
	Name    string // callee or sub-kind
	Args    []*T
	Res     []*T
	Val     *T
	Typ     types.Type
	Facts   *FactNode
	Mem     *Mem
	Loop    *LoopRec
	Depth   int // call depth
	InDefer bool
}

// EvNode is a persistent event list, newest first.
type EvNode struct {
	E    *Event
	Next *EvNode
	N    int
}

// List returns the events oldest first.
func (n *EvNode) List() []*Event {
	if n == nil {
		return nil
	}
	out := make([]*Event, n.N)
	for x := n; x != nil; x = x.Next {
		out[x.N-1] = x.E
	}
	return out
}

type deferRec struct {
	call *ssa.CallCommon
	fn   *T
	args []*T
	in   ssa.Instruction
}

// Frame is one activation.
type Frame struct {
	Fn     *ssa.Function // body
	Env    map[ssa.Value]*T
	Block  *ssa.BasicBlock
	Prev   *ssa.BasicBlock
	Idx    int
	Defers []deferRec
	Call   ssa.Instruction // instruction in the caller awaiting the result (nil for the entry)
	Dest   ssa.Value
	// running deferred calls
	Running bool
	InDefer bool // this frame is a deferred call
	RetVals []*T
	Unwind  bool
}

// State is one path of the analysis.
type State struct {
	Frames []*Frame
	Mem    *Mem
	Facts  *FactNode
	Ev     *EvNode
	Clock  int
	Iotas  []*T
	Panic  *T // value of the panic in flight
	Loops  []*LoopRec
	Trail  []string
}

func (s *State) fork() *State {
	n := *s
	n.Frames = make([]*Frame, len(s.Frames))
	for i, f := range s.Frames {
		g := *f
		if i == len(s.Frames)-1 {
			g.Env = make(map[ssa.Value]*T, len(f.Env)+4)
			for k, v := range f.Env {
				g.Env[k] = v
			}
		} else {
			// older frames are copied lazily when they become the top again
			g.Env = f.Env
		}
		g.Defers = f.Defers[:len(f.Defers):len(f.Defers)]
		n.Frames[i] = &g
	}
	n.Iotas = s.Iotas[:len(s.Iotas):len(s.Iotas)]
	n.Loops = s.Loops[:len(s.Loops):len(s.Loops)]
	return &n
}

// Fork copies a state.
func (s *State) Fork() *State { return s.fork() }

func (s *State) top() *Frame { return s.Frames[len(s.Frames)-1] }

// own makes the top frame's environment private.
func (s *State) own() {
	f := s.top()
	e := make(map[ssa.Value]*T, len(f.Env)+4)
	for k, v := range f.Env {
		e[k] = v
	}
	f.Env = e
}

func (s *State) assume(in *Interp, c *T) *State {
	if c == True {
		return s
	}
	if c == False {
		return nil
	}
	switch c.Op {
	case "andb":
		if s = s.assume(in, c.Args[0]); s == nil {
			return nil
		}
		return s.assume(in, c.Args[1])
	case "not":
		if c.Args[0].Op == "orb" {
			if s = s.assume(in, Not(c.Args[0].Args[0])); s == nil {
				return nil
			}
			return s.assume(in, Not(c.Args[0].Args[1]))
		}
		if c.Args[0].Op == "andb" {
			a, b := c.Args[0].Args[0], c.Args[0].Args[1]
			if s.Facts.Proves(a) {
				return s.assume(in, Not(b))
			}
			if s.Facts.Proves(b) {
				return s.assume(in, Not(a))
			}
		}
	}
	s.Facts = s.Facts.With(c)
	for _, x := range in.derived(c) {
		s.Facts = s.Facts.With(x)
	}
	if s.Facts.Infeasible() {
		return nil
	}
	return s
}

// Assume adds a condition; nil if contradictory.
func (s *State) Assume(in *Interp, c *T) *State { return s.assume(in, c) }

func (s *State) assumeAll(in *Interp, cs []*T) *State {
	for _, c := range cs {
		if s == nil {
			return nil
		}
		s = s.assume(in, c)
	}
	return s
}

// Exit is the end of one path.
type Exit struct {
	Kind string // return, panic
	Res  []*T
	Val  *T // panic value
	*State
	Pos token.Pos
}

// LoopRec describes one analysed loop.
type LoopRec struct {
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Pos    token.Pos
	Entry  *State
	Head   *State
	Iota   *T
	Back   []*State
	Exits  []*State
	Phis   []*ssa.Phi
	Init   map[ssa.Value]*T
	Cur    map[ssa.Value]*T
	Tag    string
	Depth  int
	Havocs []Pattern
}

// Config adapts the interpreter to a check.
type Config struct {
	NoInline       func(fn *ssa.Function) bool
	Model          map[string]func(in *Interp, st *State, c *Call) []Outcome
	PureDyn        func(fn *T) bool
	InitHook       func(addr *T, typ types.Type) *T
	AliasHook      func(a, b *T) int
	AndHook        func(a, b *T) *T
	OnLock         func(in *Interp, st *State, mu *T)
	OnAtomic       func(in *Interp, st *State, addr *T, typ types.Type)
	CallbackPanics bool
	Derive         func(c *T) []*T
	MaxPaths       int
	MaxDepth       int
	NoEvents       bool
}

// Interp runs the analysis.
type Interp struct {
	P          *Program
	Cfg        *Config
	Incomplete []string
	Loops      []*LoopRec
	obs        []obRec // unproved obligations met in the current run
	steps      int
	paths      int
	ninstr     int
	dom        map[*ssa.Function]map[*ssa.BasicBlock]*natLoop
	FnsSeen    map[*ssa.Function]bool
}

// NewInterp builds an interpreter.
func NewInterp(p *Program, cfg *Config) *Interp {
	if cfg == nil {
		cfg = &Config{}
	}
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 6000
	}
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 24
	}
	return &Interp{P: p, Cfg: cfg, dom: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}, FnsSeen: map[*ssa.Function]bool{}}
}

func (in *Interp) fail(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, x := range in.Incomplete {
		if x == s {
			return
		}
	}
	in.Incomplete = append(in.Incomplete, s)
}

func (in *Interp) derived(c *T) []*T {
	var out []*T
	// strings equal to a constant have its length
	if c.Op == "eq" {
		for i := 0; i < 2; i++ {
			a, b := c.Args[i], c.Args[1-i]
			if s, ok := StrOf(a); ok {
				out = append(out, EqInt(LenOf(b), Int(int64(len(s)))))
			}
			if a == Nil && b.Typ != nil {
				switch b.Typ.Underlying().(type) {
				case *types.Slice, *types.Map:
					out = append(out, EqInt(LenOf(b), Int(0)))
				}
			}
		}
	}
	if c.Op == "rxmatch" {
		out = append(out, rxFacts(c)...)
	}
	if c.Op == "strings.Contains" || c.Op == "strings.HasPrefix" || c.Op == "strings.HasSuffix" {
		out = append(out, Ge0(Sub(LenOf(c.Args[0]), LenOf(c.Args[1]))))
	}
	if in.Cfg.Derive != nil {
		out = append(out, in.Cfg.Derive(c)...)
	}
	return out
}

// Param is the term for parameter i of fn.
func Param(fn *ssa.Function, i int) *T {
	p := fn.Params[i]
	return mk("param", fmt.Sprintf("%s#%d#%s#%s", p.Name(), i, ShortName(fn), types.TypeString(p.Type(), nil)), p.Type())
}

// Params are all parameter terms.
func Params(fn *ssa.Function) []*T {
	fn = Body(fn)
	var out []*T
	for i := range fn.Params {
		out = append(out, Param(fn, i))
	}
	return out
}

// Fresh is a new atom tied to the current path position.
func (in *Interp) Fresh(st *State, op, name string, typ types.Type) *T {
	st.Clock++
	t := mk(op, fmt.Sprintf("%s#%d", name, st.Clock), typ, st.Iotas...)
	t.Seq = st.Clock
	return t
}

// Event records an event.
func (in *Interp) event(st *State, e *Event) {
	e.Facts = st.Facts
	e.Mem = st.Mem
	e.Depth = len(st.Frames)
	if len(st.Frames) > 0 {
		f := st.top()
		if e.Fn == nil {
			e.Fn = f.Fn
		}
		for _, x := range st.Frames {
			if x.InDefer {
				e.InDefer = true
			}
		}
	}
	if e.Instr != nil && !e.Pos.IsValid() {
		e.Pos = e.Instr.Pos()
	}
	n := 1
	if st.Ev != nil {
		n = st.Ev.N + 1
	}
	st.Ev = &EvNode{E: e, Next: st.Ev, N: n}
	if e.Kind == "ob" && e.Val != True {
		in.obs = append(in.obs, obRec{e, st.fork()})
	}
}

// obRec: an obligation met on some path, whether or not the path goes on after it.
type obRec struct {
	e  *Event
	st *State
}

// lostObligations adds a panicking exit for each unproved obligation that no path survives (assuming it
// contradicted the rest of the path, so the path ended there).
func (in *Interp) lostObligations(exits []*Exit) []*Exit {
	if len(in.obs) == 0 {
		return exits
	}
	seen := map[*Event]bool{}
	nodes := map[*EvNode]bool{}
	var walk func(n *EvNode)
	walk = func(n *EvNode) {
		for ; n != nil && !nodes[n]; n = n.Next {
			nodes[n] = true
			seen[n.E] = true
			if n.E.Loop != nil {
				for _, b := range n.E.Loop.Back {
					walk(b.Ev)
				}
				for _, b := range n.E.Loop.Exits {
					walk(b.Ev)
				}
			}
		}
	}
	for _, x := range exits {
		walk(x.Ev)
	}
	done := map[string]bool{}
	for _, o := range in.obs {
		k := o.e.Name + fmt.Sprint(o.e.Pos)
		if seen[o.e] || done[k] || o.e.Facts.Infeasible() || o.e.Facts.Proves(o.e.Val) {
			continue
		}
		done[k] = true
		exits = append(exits, &Exit{Kind: "panic", Val: o.e.Val, State: o.st, Pos: o.e.Pos})
	}
	in.obs = nil
	return exits
}

// Start builds an initial state for fn.
func (in *Interp) Start(fn *ssa.Function, args []*T, bindings []*T, mem *Mem, facts *FactNode, clock int) *State {
	b := Body(fn)
	st := &State{Mem: mem, Facts: facts, Clock: clock}
	in.pushFrame(st, b, args, bindings, nil)
	return st
}

func (in *Interp) pushFrame(st *State, b *ssa.Function, args, bindings []*T, call ssa.Instruction) {
	in.FnsSeen[b] = true
	f := &Frame{Fn: b, Env: map[ssa.Value]*T{}, Block: b.Blocks[0], Call: call}
	for i, p := range b.Params {
		if i < len(args) {
			f.Env[p] = args[i]
		} else {
			f.Env[p] = mk("param", fmt.Sprintf("%s#%d#%s", p.Name(), i, ShortName(b)), p.Type())
		}
	}
	for i, fv := range b.FreeVars {
		if i < len(bindings) {
			f.Env[fv] = bindings[i]
		} else {
			f.Env[fv] = mk("freevar", fmt.Sprintf("%s#%s", fv.Name(), ShortName(b)), fv.Type())
		}
	}
	st.Frames = append(st.Frames, f)
}

// Run analyses fn from its entry with symbolic parameters.
func (in *Interp) Run(fn *ssa.Function, facts ...*T) []*Exit {
	return in.RunArgs(fn, Params(fn), nil, nil, facts...)
}

// RunArgs analyses fn with given arguments, closure bindings and memory.
func (in *Interp) RunArgs(fn *ssa.Function, args, bindings []*T, mem *Mem, facts ...*T) []*Exit {
	if fn == nil || len(Body(fn).Blocks) == 0 {
		in.fail("no body to analyse")
		return nil
	}
	st := in.Start(fn, args, bindings, mem, nil, 0)
	if mem != nil {
		st.Clock = mem.Clock + 1000
	}
	if st = st.assumeAll(in, facts); st == nil {
		in.fail("contradictory preconditions for %s", fn)
		return nil
	}
	return in.RunState(st)
}

// RunState runs a prepared state to its exits.
func (in *Interp) RunState(st *State) []*Exit {
	in.obs = nil
	in.paths, in.ninstr = 0, 0 // budgets are per run
	ex, _ := in.explore([]*State{st}, nil)
	return in.lostObligations(ex)
}

// explore runs states until they exit; stop may intercept a jump (returns true when it consumed the state).
func (in *Interp) explore(work []*State, stop func(st *State, to *ssa.BasicBlock) bool) ([]*Exit, bool) {
	var exits []*Exit
	n := 0
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		n++
		in.paths++
		if in.paths > in.Cfg.MaxPaths*4 || len(exits) > in.Cfg.MaxPaths || in.ninstr > 6000000 {
			in.fail("path budget exceeded in %s", st.Frames[0].Fn)
			return exits, false
		}
		succ, ex := in.runOne(st, stop)
		exits = append(exits, ex...)
		// keep source order
		for i := len(succ) - 1; i >= 0; i-- {
			work = append(work, succ[i])
		}
	}
	return exits, true
}

// runOne runs one state until it forks, exits or is consumed.
func (in *Interp) runOne(st *State, stop func(*State, *ssa.BasicBlock) bool) ([]*State, []*Exit) {
	for {
		in.ninstr++
		if in.ninstr > 6000000 {
			return nil, nil
		}
		f := st.top()
		if f.Idx >= len(f.Block.Instrs) {
			in.fail("fell off block in %s", f.Fn)
			return nil, nil
		}
		ins := f.Block.Instrs[f.Idx]
		switch x := ins.(type) {
		case *ssa.Jump:
			return in.jump(st, f.Block.Succs[0], stop)
		case *ssa.If:
			c := in.val(st, x.Cond)
			t, e := f.Block.Succs[0], f.Block.Succs[1]
			if c == True {
				return in.jump(st, t, stop)
			}
			if c == False {
				return in.jump(st, e, stop)
			}
			var succ []*State
			var exits []*Exit
			s1 := st.fork().assume(in, c)
			s2 := st.fork().assume(in, Not(c))
			if s1 != nil {
				a, b := in.jump(s1, t, stop)
				succ = append(succ, a...)
				exits = append(exits, b...)
			}
			if s2 != nil {
				a, b := in.jump(s2, e, stop)
				succ = append(succ, a...)
				exits = append(exits, b...)
			}
			return succ, exits
		case *ssa.Return:
			var rs []*T
			for _, r := range x.Results {
				rs = append(rs, in.val(st, r))
			}
			return in.doReturn(st, rs, x.Pos())
		case *ssa.Panic:
			v := in.val(st, x.X)
			in.event(st, &Event{Kind: "panic", Instr: ins, Args: []*T{v}, Name: "explicit"})
			return in.unwind(st, v)
		case *ssa.RunDefers:
			if len(f.Defers) > 0 {
				d := f.Defers[len(f.Defers)-1]
				f.Defers = f.Defers[:len(f.Defers)-1]
				return in.invokeDefer(st, d)
			}
			f.Idx++
			continue
		}
		next, exits := in.exec(st, ins)
		if len(next) == 1 && len(exits) == 0 && next[0] == st {
			continue
		}
		return next, exits
	}
}

// invokeDefer runs one deferred call; the RunDefers instruction is executed again afterwards.
func (in *Interp) invokeDefer(st *State, d deferRec) ([]*State, []*Exit) {
	st.top().Running = true
	c := &Call{Instr: d.in, Fn: d.fn, Args: d.args, Common: d.call, Deferred: true}
	in.resolve(c)
	return in.doCall(st, c)
}

// unwind propagates a panic: run deferred calls of the top frame, then pop it.
func (in *Interp) unwind(st *State, v *T) ([]*State, []*Exit) {
	st.Panic = v
	f := st.top()
	f.Unwind = true
	if len(f.Defers) > 0 {
		d := f.Defers[len(f.Defers)-1]
		f.Defers = f.Defers[:len(f.Defers)-1]
		return in.invokeDefer(st, d)
	}
	if len(st.Frames) == 1 {
		return nil, []*Exit{{Kind: "panic", Val: v, State: st}}
	}
	wasDefer := f.InDefer
	_ = wasDefer
	st.Frames = st.Frames[:len(st.Frames)-1]
	st.own()
	in.trimLoops(st)
	return in.unwind(st, v)
}

// afterDefer continues a frame whose deferred call returned.
func (in *Interp) afterDefer(st *State) ([]*State, []*Exit) {
	f := st.top()
	f.Running = false
	if !f.Unwind {
		return []*State{st}, nil // RunDefers runs again
	}
	if st.Panic == nil { // recovered
		f.Unwind = false
		if len(f.Defers) > 0 {
			d := f.Defers[len(f.Defers)-1]
			f.Defers = f.Defers[:len(f.Defers)-1]
			f.Unwind = true
			return in.invokeDefer(st, d)
		}
		if f.Fn.Recover != nil {
			f.Prev = nil
			f.Block = f.Fn.Recover
			f.Idx = 0
			return []*State{st}, nil
		}
		var rs []*T
		res := f.Fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			rs = append(rs, Zero(res.At(i).Type()))
		}
		return in.doReturn(st, rs, f.Fn.Pos())
	}
	return in.unwind(st, st.Panic)
}

func (in *Interp) trimLoops(st *State) {
	for len(st.Loops) > 0 && st.Loops[len(st.Loops)-1].Depth > len(st.Frames) {
		in.leaveLoop(st)
	}
}

func (in *Interp) leaveLoop(st *State) {
	l := st.Loops[len(st.Loops)-1]
	st.Loops = st.Loops[:len(st.Loops)-1]
	if len(st.Iotas) > 0 {
		st.Iotas = st.Iotas[:len(st.Iotas)-1]
	}
	in.event(st, &Event{Kind: "loopend", Loop: l, Pos: l.Pos})
}

func (in *Interp) doReturn(st *State, rs []*T, pos token.Pos) ([]*State, []*Exit) {
	f := st.top()
	if len(st.Frames) == 1 {
		return nil, []*Exit{{Kind: "return", Res: rs, State: st, Pos: pos}}
	}
	st.Frames = st.Frames[:len(st.Frames)-1]
	in.trimLoops(st)
	st.own()
	if f.InDefer {
		return in.afterDefer(st)
	}
	caller := st.top()
	if f.Dest != nil {
		if len(rs) == 1 {
			caller.Env[f.Dest] = rs[0]
		} else {
			caller.Env[f.Dest] = Mk("tuple", "", nil, rs...)
		}
	}
	caller.Idx++
	return []*State{st}, nil
}

// val evaluates an operand.
func (in *Interp) val(st *State, v ssa.Value) *T {
	switch x := v.(type) {
	case *ssa.Const:
		return ConstTerm(x)
	case *ssa.Global:
		return mk("global", x.String(), x.Type())
	case *ssa.Function:
		t := mk("func", FuncName(x), x.Type())
		t.Fn = x
		return t
	case *ssa.Builtin:
		return mk("builtin", x.Name(), nil)
	}
	if t, ok := st.top().Env[v]; ok {
		return t
	}
	in.fail("value %s of %s has no abstract value", v.Name(), st.top().Fn)
	return mk("fresh", "undef:"+v.Name(), v.Type())
}

// ConstTerm is the term of an SSA constant.
func ConstTerm(c *ssa.Const) *T {
	if c.Value == nil {
		return Zero(c.Type())
	}
	if IsIntType(c.Type()) {
		if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
			b, _ := new(big.Int).SetString(i.ExactString(), 10)
			if b != nil {
				return IntBig(b)
			}
		}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if _, ok := types.Unalias(c.Type()).(*types.TypeParam); ok {
			return mk("const", "n:"+c.Value.ExactString(), c.Type())
		}
	}
	return mk("const", "f:"+c.Value.ExactString(), c.Type())
}

// jump moves to a block, evaluating phis and handling loops.
func (in *Interp) jump(st *State, to *ssa.BasicBlock, stop func(*State, *ssa.BasicBlock) bool) ([]*State, []*Exit) {
	f := st.top()
	from := f.Block
	if stop != nil && stop(st, to) {
		return nil, nil
	}
	// leaving loops of this frame
	for len(st.Loops) > 0 {
		l := st.Loops[len(st.Loops)-1]
		if l.Depth == len(st.Frames) && l.Fn == f.Fn {
			nl := in.loopsOf(f.Fn)[l.Header]
			if nl != nil && !nl.body[to] {
				in.leaveLoop(st)
				continue
			}
		}
		break
	}
	if nl := in.loopsOf(f.Fn)[to]; nl != nil && !(nl.body[from] && to.Dominates(from)) {
		if !in.shortList(st, from, to, nl) {
			return in.enterLoop(st, from, to, nl, stop)
		}
	}
	in.moveTo(st, from, to)
	return []*State{st}, nil
}

// shortList: the loop walks by index over a list of a few elements that the function made itself (a
// literal, or the arguments of a variadic call). Such a loop is no more than its iterations written
// one after the other.
func (in *Interp) shortList(st *State, from, to *ssa.BasicBlock, nl *natLoop) bool {
	br, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || cmp.Block() != to {
		return false
	}
	var list ssa.Value
	switch n := cmp.Y.(type) {
	case *ssa.Call:
		if b, ok := n.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" || nl.body[n.Block()] && n.Block() != to {
			return false
		}
		list = n.Call.Args[0]
	default:
		return false
	}
	if d, ok := list.(ssa.Instruction); ok && nl.body[d.Block()] {
		return false
	}
	// the index: a variable of the loop that grows by one from a constant
	ph, ok := cmp.X.(*ssa.Phi)
	if b, isAdd := cmp.X.(*ssa.BinOp); isAdd && b.Op == token.ADD {
		ph, ok = b.X.(*ssa.Phi)
	}
	if !ok || ph.Block() != to {
		return false
	}
	for i, p := range to.Preds {
		e := ph.Edges[i]
		if p == from {
			if c, ok := e.(*ssa.Const); !ok || c.Value == nil {
				return false
			}
		} else if b, ok := e.(*ssa.BinOp); !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
			return false
		} else if c, ok := b.Y.(*ssa.Const); !ok || !constant.Compare(c.Value, token.EQL, constant.MakeInt64(1)) {
			return false
		}
	}
	l := in.val(st, list)
	if BaseOf(l).Op != "alloc" {
		return false
	}
	for k := int64(0); k <= 4; k++ {
		if LenOf(l) == Int(k) {
			return true
		}
	}
	return false
}

func (in *Interp) phiVals(st *State, from, to *ssa.BasicBlock) map[ssa.Value]*T {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	vals := map[ssa.Value]*T{}
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = in.val(st, p.Edges[idx])
	}
	return vals
}

func (in *Interp) moveTo(st *State, from, to *ssa.BasicBlock) {
	vals := in.phiVals(st, from, to)
	f := st.top()
	for k, v := range vals {
		f.Env[k] = v
	}
	f.Prev = from
	f.Block = to
	f.Idx = len(vals)
}

type natLoop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func (in *Interp) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	if m, ok := in.dom[fn]; ok {
		return m
	}
	m := NatLoops(fn)
	in.dom[fn] = m
	return m
}

// NatLoops finds the natural loops of fn.
func NatLoops(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	m := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &natLoop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				q := []*ssa.BasicBlock{b}
				for len(q) > 0 {
					x := q[0]
					q = q[1:]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					q = append(q, x.Preds...)
				}
			}
		}
	}
	return m
}

// exec executes a non-control instruction. When it returns the state itself the index was advanced.
func (in *Interp) exec(st *State, ins ssa.Instruction) ([]*State, []*Exit) {
	f := st.top()
	set := func(v ssa.Value, t *T) ([]*State, []*Exit) {
		f.Env[v] = t
		f.Idx++
		return []*State{st}, nil
	}
	next := func() ([]*State, []*Exit) { f.Idx++; return []*State{st}, nil }
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return next()
	case *ssa.Phi:
		return next() // evaluated by moveTo
	case *ssa.Alloc:
		st.Clock++
		et := x.Type().Underlying().(*types.Pointer).Elem()
		t := mk("alloc", fmt.Sprintf("new:%s#%d", TypeKey(et), st.Clock), x.Type(), st.Iotas...)
		t.Seq = st.Clock
		return set(x, t)
	case *ssa.MakeMap:
		st.Clock++
		t := mk("alloc", fmt.Sprintf("map#%d", st.Clock), x.Type(), st.Iotas...)
		t.Seq = st.Clock
		return set(x, t)
	case *ssa.MakeChan:
		st.Clock++
		sz := in.val(st, x.Size)
		in.event(st, &Event{Kind: "ob", Name: "makechan", Instr: ins, Val: Ge0(sz)})
		t := mk("alloc", fmt.Sprintf("chan#%d", st.Clock), x.Type(), append([]*T{sz}, st.Iotas...)...)
		t.Seq = st.Clock
		return set(x, t)
	case *ssa.MakeSlice:
		ln, cp := in.val(st, x.Len), in.val(st, x.Cap)
		in.oblige(st, ins, "makeslice", And(Ge0(ln), Le(ln, cp)))
		if st.Facts.Infeasible() {
			return nil, nil
		}
		return set(x, in.newSlice(st, "make", ln, cp, x.Type()))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*T
		for _, b := range x.Bindings {
			bs = append(bs, in.val(st, b))
		}
		t := mk("closure", fn.String(), x.Type(), bs...)
		t.Fn = fn
		return set(x, t)
	case *ssa.MakeInterface:
		v := in.val(st, x.X)
		return set(x, MakeIface(v, x.X.Type()))
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var o ssa.Value
		if c, ok := x.(*ssa.ChangeType); ok {
			o = c.X
		} else {
			o = x.(*ssa.ChangeInterface).X
		}
		return set(x.(ssa.Value), in.val(st, o))
	case *ssa.Convert:
		return set(x, in.convert(st, ins, in.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		return set(x, in.convert(st, ins, in.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		v := in.val(st, x.X)
		return set(x, mk("s2ap", "", x.Type(), v))
	case *ssa.BinOp:
		a, b := in.val(st, x.X), in.val(st, x.Y)
		v := in.binop(st, ins, x.Op, a, b, x.X.Type(), x.Y.Type(), x.Type())
		if st.Facts.Infeasible() {
			return nil, nil
		}
		return set(x, v)
	case *ssa.UnOp:
		return in.unop(st, x)
	case *ssa.Extract:
		t := in.val(st, x.Tuple)
		if t.Op == "tuple" {
			return set(x, t.Args[x.Index])
		}
		return set(x, mk("extract", fmt.Sprint(x.Index), x.Type(), t))
	case *ssa.Field:
		return set(x, FieldVal(in.val(st, x.X), x.X.Type(), x.Field))
	case *ssa.FieldAddr:
		p := in.val(st, x.X)
		in.nilOb(st, ins, p)
		if st.Facts.Infeasible() {
			return nil, nil
		}
		return set(x, FieldAddr(p, x.X.Type(), x.Field))
	case *ssa.Index:
		v, i := in.val(st, x.X), in.val(st, x.Index)
		if isStr(x.X.Type()) {
			in.oblige(st, ins, "index", And(Ge0(i), Lt(i, LenOf(v))))
			return set(x, StrAt(v, i))
		}
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			in.oblige(st, ins, "index", And(Ge0(i), Lt(i, Int(at.Len()))))
		}
		return set(x, ArrayIndex(v, i, x.Type()))
	case *ssa.IndexAddr:
		v, i := in.val(st, x.X), in.val(st, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			in.oblige(st, ins, "index", And(Ge0(i), Lt(i, Int(at.Len()))))
			if st.Facts.Infeasible() {
				return nil, nil
			}
			return set(x, mk("elem", "", x.Type(), v, i))
		default:
			in.oblige(st, ins, "index", And(Ge0(i), Lt(i, LenOf(v))))
			if st.Facts.Infeasible() {
				return nil, nil
			}
			return set(x, mk("elem", "", x.Type(), BaseOf(v), Add(OffOf(v), i)))
		}
	case *ssa.Slice:
		return in.slice(st, x)
	case *ssa.Lookup:
		return in.lookup(st, x)
	case *ssa.MapUpdate:
		m, k, v := in.val(st, x.Map), in.val(st, x.Key), in.val(st, x.Value)
		in.nilOb(st, ins, m)
		in.oblige(st, ins, "nilmap", Not(Eq(m, Nil)))
		var out []*State
		for _, r := range in.Load(st, mk("has", "", types.Typ[types.Bool], m, k), types.Typ[types.Bool]) {
			s := r.st
			ln := in.mapLen(s, m)
			in.event(s, &Event{Kind: "store", Name: "mapupdate", Instr: ins, Args: []*T{mk("cell", "", x.Value.Type(), m, k)}, Val: v})
			s.Store(mk("cell", "", x.Value.Type(), m, k), v, x.Value.Type())
			s.Store(mk("has", "", types.Typ[types.Bool], m, k), True, types.Typ[types.Bool])
			if r.val == False {
				ln = Add(ln, Int(1))
			} else if r.val != True && !s.Facts.Proves(r.val) {
				if s.Facts.Proves(Not(r.val)) {
					ln = Add(ln, Int(1))
				} else {
					ln = Add(ln, mk("b2i", "", types.Typ[types.Uint8], Not(r.val)))
				}
			}
			s.Store(mk("mlen", "", types.Typ[types.Int], m), ln, types.Typ[types.Int])
			s.top().Idx++
			out = append(out, s)
		}
		return out, nil
	case *ssa.Range:
		v := in.val(st, x.X)
		return set(x, mk("iter", fmt.Sprintf("%s#%d", x.Name(), len(st.Frames)), x.X.Type(), v))
	case *ssa.Next:
		return in.nextIter(st, x)
	case *ssa.TypeAssert:
		return in.typeAssert(st, x)
	case *ssa.Store:
		a, v := in.val(st, x.Addr), in.val(st, x.Val)
		in.nilOb(st, ins, a)
		if st.Facts.Infeasible() {
			return nil, nil
		}
		if allocRoot(a) == nil || isAddrOp(a.Op) {
			in.event(st, &Event{Kind: "store", Instr: ins, Args: []*T{a}, Val: v, Typ: x.Val.Type()})
		}
		st.Store(a, v, x.Val.Type())
		return next()
	case *ssa.Send:
		c, v := in.val(st, x.Chan), in.val(st, x.X)
		in.event(st, &Event{Kind: "send", Instr: ins, Args: []*T{c}, Val: v})
		return next()
	case *ssa.Select:
		return in.selectStmt(st, x)
	case *ssa.Go:
		c := in.makeCall(st, ins, &x.Call)
		in.event(st, &Event{Kind: "go", Instr: ins, Name: c.Name, Args: c.Args, Val: c.Fn})
		return next()
	case *ssa.Defer:
		c := in.makeCall(st, ins, &x.Call)
		in.event(st, &Event{Kind: "defer", Instr: ins, Name: c.Name, Args: c.Args, Val: c.Fn})
		f.Defers = append(f.Defers[:len(f.Defers):len(f.Defers)], deferRec{call: &x.Call, fn: c.Fn, args: c.Args, in: ins})
		return next()
	case *ssa.Call:
		c := in.makeCall(st, ins, &x.Call)
		c.Dest = x
		return in.doCall(st, c)
	}
	in.fail("unsupported instruction %T in %s", ins, f.Fn)
	if v, ok := ins.(ssa.Value); ok {
		return set(v, in.Fresh(st, "fresh", "unknown", v.Type()))
	}
	return next()
}

// MakeIface wraps a value in an interface.
func MakeIface(v *T, typ types.Type) *T {
	if v.Op == "iface" {
		return v
	}
	if _, ok := typ.Underlying().(*types.Interface); ok {
		if _, tp := types.Unalias(typ).(*types.TypeParam); !tp {
			return v
		}
	}
	return mk("iface", types.TypeString(typ, nil), typ, v)
}

func (in *Interp) newSlice(st *State, why string, ln, cp *T, typ types.Type) *T {
	st.Clock++
	t := mk("alloc", fmt.Sprintf("arr:%s#%d", why, st.Clock), nil, st.Iotas...)
	t.Seq = st.Clock
	return SliceT(t, Int(0), ln, cp, typ)
}

// oblige records a safety obligation and then assumes it.
func (in *Interp) oblige(st *State, ins ssa.Instruction, kind string, c *T) {
	if c == True {
		in.event(st, &Event{Kind: "ob", Name: kind, Instr: ins, Val: c})
		return
	}
	in.event(st, &Event{Kind: "ob", Name: kind, Instr: ins, Val: c})
	if s := st.assume(in, c); s == nil {
		st.Facts = st.Facts.With(False)
	}
}

func (in *Interp) nilOb(st *State, ins ssa.Instruction, p *T) {
	if nonNil(p) || isAddrOp(p.Op) {
		return
	}
	in.event(st, &Event{Kind: "ob", Name: "nil", Instr: ins, Val: Not(Eq(p, Nil)), Args: []*T{p}})
	if p == Nil {
		st.Facts = st.Facts.With(False)
		return
	}
	st.Facts = st.Facts.With(Not(Eq(p, Nil)))
	if st.Facts.Infeasible() {
		st.Facts = st.Facts.With(False)
	}
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// StrAt is a byte of a string.
func StrAt(s, i *T) *T {
	if v, ok := StrOf(s); ok {
		if c, ok := ConstOf(i); ok && c.IsInt64() && c.Int64() >= 0 && c.Int64() < int64(len(v)) {
			return Int(int64(v[c.Int64()]))
		}
	}
	if s.Op == "substr" {
		return StrAt(s.Args[0], Add(s.Args[1], i))
	}
	return mk("at", "", types.Typ[types.Uint8], s, i)
}

// SubStr is s[lo:hi].
func SubStr(s, lo, hi *T) *T {
	if IsConst(lo, 0) && hi == LenOf(s) {
		return s
	}
	if v, ok := StrOf(s); ok {
		a, o1 := ConstOf(lo)
		b, o2 := ConstOf(hi)
		if o1 && o2 && a.IsInt64() && b.IsInt64() && a.Int64() >= 0 && a.Int64() <= b.Int64() && b.Int64() <= int64(len(v)) {
			return Str(v[a.Int64():b.Int64()])
		}
	}
	if s.Op == "substr" {
		return SubStr(s.Args[0], Add(s.Args[1], lo), Add(s.Args[1], hi))
	}
	return mk("substr", "", types.Typ[types.String], s, lo, hi)
}

func (in *Interp) slice(st *State, x *ssa.Slice) ([]*State, []*Exit) {
	f := st.top()
	v := in.val(st, x.X)
	lo := Int(0)
	if x.Low != nil {
		lo = in.val(st, x.Low)
	}
	var base, off, ln, cp *T
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		hi := LenOf(v)
		if x.High != nil {
			hi = in.val(st, x.High)
		}
		in.oblige(st, x, "slice", And(And(Ge0(lo), Le(lo, hi)), Le(hi, LenOf(v))))
		if st.Facts.Infeasible() {
			return nil, nil
		}
		f.Env[x] = SubStr(v, lo, hi)
		f.Idx++
		return []*State{st}, nil
	case *types.Pointer:
		n := Int(u.Elem().Underlying().(*types.Array).Len())
		base, off, ln, cp = v, Int(0), n, n
	default:
		base, off, ln, cp = BaseOf(v), OffOf(v), LenOf(v), CapOf(v)
	}
	hi := ln
	if x.High != nil {
		hi = in.val(st, x.High)
	}
	lim := cp
	c := And(Ge0(lo), Le(lo, hi))
	if x.Max != nil {
		mx := in.val(st, x.Max)
		c = And(c, And(Le(hi, mx), Le(mx, cp)))
		lim = mx
	} else if x.High != nil {
		c = And(c, Le(hi, cp))
	}
	in.oblige(st, x, "slice", c)
	if st.Facts.Infeasible() {
		return nil, nil
	}
	in.event(st, &Event{Kind: "reslice", Instr: x, Args: []*T{v, lo, hi, ln, cp}})
	f.Env[x] = SliceT(base, Add(off, lo), Sub(hi, lo), Sub(lim, lo), x.Type())
	f.Idx++
	return []*State{st}, nil
}

func (in *Interp) mapLen(st *State, m *T) *T {
	if m == Nil {
		return Int(0)
	}
	rs := in.Load(st.fork(), mk("mlen", "", types.Typ[types.Int], m), types.Typ[types.Int])
	if len(rs) == 1 {
		v := rs[0].val
		if v.Op == "init" {
			return LenOf(m)
		}
		return v
	}
	return in.Fresh(st, "fresh", "maplen", types.Typ[types.Uint])
}

func (in *Interp) lookup(st *State, x *ssa.Lookup) ([]*State, []*Exit) {
	f := st.top()
	m, k := in.val(st, x.X), in.val(st, x.Index)
	if isStr(x.X.Type()) {
		in.oblige(st, x, "index", And(Ge0(k), Lt(k, LenOf(m))))
		if st.Facts.Infeasible() {
			return nil, nil
		}
		f.Env[x] = StrAt(m, k)
		f.Idx++
		return []*State{st}, nil
	}
	mt := x.X.Type().Underlying().(*types.Map)
	in.event(st, &Event{Kind: "load", Name: "maplookup", Instr: x, Args: []*T{mk("cell", "", mt.Elem(), m, k)}})
	var out []*State
	if m == Nil {
		if x.CommaOk {
			f.Env[x] = Mk("tuple", "", nil, Zero(mt.Elem()), False)
		} else {
			f.Env[x] = Zero(mt.Elem())
		}
		f.Idx++
		return []*State{st}, nil
	}
	// absent entries read as zero
	for _, h := range in.Load(st, mk("has", "", types.Typ[types.Bool], m, k), types.Typ[types.Bool]) {
		for _, ok := range []bool{true, false} {
			s := h.st.fork()
			if ok {
				s = s.assume(in, h.val)
			} else {
				s = s.assume(in, Not(h.val))
			}
			if s == nil {
				continue
			}
			if !ok {
				if x.CommaOk {
					s.top().Env[x] = Mk("tuple", "", nil, Zero(mt.Elem()), False)
				} else {
					s.top().Env[x] = Zero(mt.Elem())
				}
				s.top().Idx++
				out = append(out, s)
				continue
			}
			for _, r := range in.Load(s, mk("cell", "", mt.Elem(), m, k), mt.Elem()) {
				if x.CommaOk {
					r.st.top().Env[x] = Mk("tuple", "", nil, r.val, True)
				} else {
					r.st.top().Env[x] = r.val
				}
				r.st.top().Idx++
				out = append(out, r.st)
			}
		}
	}
	return out, nil
}

func (in *Interp) nextIter(st *State, x *ssa.Next) ([]*State, []*Exit) {
	it := in.val(st, x.Iter)
	coll := it
	if it.Op == "iter" {
		coll = it.Args[0]
	}
	tt := x.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	var out []*State
	// exhausted
	s0 := st.fork()
	s0.top().Env[x] = Mk("tuple", "", nil, False, Zero2(kt), Zero2(vt))
	iota := Int(0)
	if len(st.Iotas) > 0 {
		iota = st.Iotas[len(st.Iotas)-1]
	}
	if x.IsString {
		s1 := st.fork()
		pos := mk("strpos", "", types.Typ[types.Uint], coll, iota)
		r := mk("strrune", "", types.Typ[types.Int32], coll, iota)
		runes := RunesOf(coll)
		s0 = s0.assume(in, Ge0(Sub(iota, LenOf(runes))))
		if s0 != nil {
			s0 = s0.assume(in, EqInt(iota, LenOf(runes)))
		}
		s1 = s1.assumeAll(in, []*T{Lt(pos, LenOf(coll)), Ge0(Sub(pos, iota)), Lt(iota, LenOf(runes))})
		if s1 != nil {
			s1.top().Env[x] = Mk("tuple", "", nil, True, pos, r)
			s1.top().Idx++
			out = append(out, s1)
		}
		if s0 != nil {
			s0.top().Idx++
			out = append(out, s0)
		}
		return out, nil
	}
	// map iteration: the key is some present key; distinct iterations have distinct keys
	if r, ok := x.Iter.(*ssa.Range); ok && kt == types.Typ[types.Invalid] { // the key is not used, the value may be
		if m, ok := r.X.Type().Underlying().(*types.Map); ok {
			kt = m.Key()
		}
	}
	key := mk("rkey", it.Aux, kt, append([]*T{coll}, st.Iotas...)...)
	in.event(st, &Event{Kind: "load", Name: "maprange", Instr: x, Args: []*T{mk("cell", "", vt, coll, key)}})
	ko := key
	if kt == types.Typ[types.Invalid] {
		ko = Nil
	}
	s1 := st.fork()
	s1 = s1.assume(in, Not(Eq(coll, Nil)))
	if s1 != nil {
		if ln := in.mapLen(s1, coll); ln == LenOf(coll) {
			s1 = s1.assume(in, Lt(iota, ln))
		}
	}
	if s1 != nil && kt != types.Typ[types.Invalid] {
		if rs := in.Load(s1, mk("has", "", types.Typ[types.Bool], coll, key), types.Typ[types.Bool]); len(rs) > 0 {
			for _, r := range rs {
				s := r.st.assume(in, r.val)
				if s == nil {
					continue
				}
				mt := coll.Typ
				var et types.Type = vt
				if mt != nil {
					if m, ok := mt.Underlying().(*types.Map); ok {
						et = m.Elem()
					}
				}
				if vt == types.Typ[types.Invalid] && et == vt {
					s.top().Env[x] = Mk("tuple", "", nil, True, ko, Nil)
					s.top().Idx++
					out = append(out, s)
					continue
				}
				for _, v := range in.Load(s, mk("cell", "", et, coll, key), et) {
					v.st.top().Env[x] = Mk("tuple", "", nil, True, ko, v.val)
					v.st.top().Idx++
					out = append(out, v.st)
				}
			}
		}
	} else if s1 != nil {
		s1.top().Env[x] = Mk("tuple", "", nil, True, key, Nil)
		s1.top().Idx++
		out = append(out, s1)
	}
	s0.top().Idx++
	in.event(s0, &Event{Kind: "rangeend", Instr: x, Args: []*T{coll}})
	// exhausted: the number of iterations is the map's length when it is not modified
	if ln := in.mapLen(s0, coll); ln == LenOf(coll) {
		if s := s0.assume(in, EqInt(iota, ln)); s != nil {
			out = append(out, s)
		}
	} else {
		out = append(out, s0)
	}
	if len(out) > 0 && coll != Nil {
		for _, s := range out[:len(out)-1] {
			if in.mapLen(s, coll) == LenOf(coll) {
				s.Facts = s.Facts.With(Lt(iota, LenOf(coll)))
			}
		}
	}
	return out, nil
}

// Zero2 is Zero tolerant of invalid types.
func Zero2(t types.Type) *T {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Nil
	}
	return Zero(t)
}

// RunesOf is []rune(s).
func RunesOf(s *T) *T {
	return mk("runes", "", types.NewSlice(types.Typ[types.Int32]), s)
}

func (in *Interp) typeAssert(st *State, x *ssa.TypeAssert) ([]*State, []*Exit) {
	v := in.val(st, x.X)
	f := st.top()
	want := types.TypeString(x.AssertedType, nil)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	put := func(s *State, val *T, ok *T) *State {
		if x.CommaOk {
			s.top().Env[x] = Mk("tuple", "", nil, val, ok)
		} else {
			s.top().Env[x] = val
		}
		s.top().Idx++
		return s
	}
	if v.Op == "iface" {
		if toIface {
			if types.Implements(v.Typ, x.AssertedType.Underlying().(*types.Interface)) {
				return []*State{put(st, v, True)}, nil
			}
		} else if v.Aux == want {
			return []*State{put(st, v.Args[0], True)}, nil
		} else if x.CommaOk {
			return []*State{put(st, Zero(x.AssertedType), False)}, nil
		}
	}
	if v == Nil && x.CommaOk {
		return []*State{put(st, Zero(x.AssertedType), False)}, nil
	}
	is := mk("istype", want, types.Typ[types.Bool], v)
	var res *T
	if toIface {
		res = v
	} else {
		res = mk("assert", want, x.AssertedType, v)
	}
	if !x.CommaOk {
		in.oblige(st, x, "typeassert", is)
		f.Env[x] = res
		f.Idx++
		return []*State{st}, nil
	}
	var out []*State
	if s := st.fork().assume(in, is); s != nil {
		out = append(out, put(s, res, True))
	}
	if s := st.fork().assume(in, Not(is)); s != nil {
		out = append(out, put(s, Zero(x.AssertedType), False))
	}
	return out, nil
}

func (in *Interp) unop(st *State, x *ssa.UnOp) ([]*State, []*Exit) {
	f := st.top()
	v := in.val(st, x.X)
	switch x.Op {
	case token.MUL:
		in.nilOb(st, x, v)
		if st.Facts.Infeasible() {
			return nil, nil
		}
		if allocRoot(v) == nil || isAddrOp(v.Op) {
			in.event(st, &Event{Kind: "load", Instr: x, Args: []*T{v}, Typ: x.Type()})
		}
		var out []*State
		for _, r := range in.Load(st, v, x.Type()) {
			r.st.top().Env[x] = r.val
			r.st.top().Idx++
			if r.val.Op != "poly" && IsUnsigned(x.Type()) {
				r.st.Facts = r.st.Facts.With(Ge0(r.val))
			}
			out = append(out, r.st)
		}
		return out, nil
	case token.ARROW:
		elt := x.X.Type().Underlying().(*types.Chan).Elem()
		s1, s0 := st.fork(), st.fork()
		r := in.Fresh(s1, "res", "recv", elt)
		in.event(s1, &Event{Kind: "recv", Name: "recv", Instr: x, Args: []*T{v}, Val: r})
		in.event(s0, &Event{Kind: "recv", Name: "recvclosed", Instr: x, Args: []*T{v}, Val: Zero(elt)})
		if x.CommaOk {
			s1.top().Env[x] = Mk("tuple", "", nil, r, True)
			s0.top().Env[x] = Mk("tuple", "", nil, Zero(elt), False)
		} else {
			s1.top().Env[x] = r
			s0.top().Env[x] = Zero(elt)
		}
		s1.top().Idx++
		s0.top().Idx++
		return []*State{s1, s0}, nil
	case token.SUB:
		if IsIntType(x.Type()) {
			f.Env[x] = Neg(v)
		} else {
			f.Env[x] = mk("neg", "", x.Type(), v)
		}
	case token.NOT:
		f.Env[x] = Not(v)
	case token.XOR:
		if IsIntType(x.Type()) && !IsUnsigned(x.Type()) {
			f.Env[x] = Sub(Neg(v), Int(1))
		} else {
			f.Env[x] = mk("compl", "", x.Type(), v)
		}
	default:
		in.fail("unary %s", x.Op)
		f.Env[x] = in.Fresh(st, "fresh", "unop", x.Type())
	}
	f.Idx++
	return []*State{st}, nil
}

func (in *Interp) binop(st *State, ins ssa.Instruction, op token.Token, a, b *T, ta, tb, tr types.Type) *T {
	ints := IsIntType(ta)
	if _, ok := types.Unalias(ta).(*types.TypeParam); ok && isIntTerm(a) && isIntTerm(b) {
		ints = true // an inlined generic function applied to integers
	}
	switch op {
	case token.EQL, token.NEQ:
		var r *T
		switch {
		case ints:
			r = EqInt(a, b)
		case isBool(ta):
			switch {
			case b == True:
				r = a
			case b == False:
				r = Not(a)
			case a == True:
				r = b
			case a == False:
				r = Not(b)
			default:
				r = Eq(a, b)
			}
		case isStrLike(ta):
			if s, ok := StrOf(b); ok && s == "" {
				r = EqInt(LenOf(a), Int(0))
			} else if s, ok := StrOf(a); ok && s == "" {
				r = EqInt(LenOf(b), Int(0))
			} else {
				r = Eq(a, b)
			}
		default:
			r = Eq(a, b)
			if isSliceT(ta) && r != True && r != False {
				x := a
				if a == Nil {
					x = b
				}
				if x.Op == "slice" && x.Args[0].Op == "alloc" {
					r = False
				}
			}
		}
		if op == token.NEQ {
			return Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if ints {
			switch op {
			case token.LSS:
				return Lt(a, b)
			case token.LEQ:
				return Le(a, b)
			case token.GTR:
				return Lt(b, a)
			default:
				return Le(b, a)
			}
		}
		switch op {
		case token.LSS:
			return mk("lt", "", nil, a, b)
		case token.GTR:
			return mk("lt", "", nil, b, a)
		case token.LEQ:
			return mk("le", "", nil, a, b)
		default:
			return mk("le", "", nil, b, a)
		}
	}
	if !ints {
		if op == token.ADD && isStrLike(ta) {
			return Concat(a, b)
		}
		return mk("f"+op.String(), "", tr, a, b)
	}
	switch op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		if IsUnsigned(tr) {
			r := Sub(a, b)
			in.event(st, &Event{Kind: "ob", Name: "usub", Instr: ins, Val: Ge0(r)})
			if st.Facts.Proves(Not(Ge0(r))) { // wraps
				return mk("wrap", "", tr, r)
			}
			return r
		}
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO, token.REM:
		in.oblige(st, ins, "div", Not(EqInt(b, Int(0))))
		if op == token.QUO {
			return Quo(a, b)
		}
		return Rem(a, b)
	case token.SHL:
		if c, ok := ConstOf(b); ok && c.IsInt64() && c.Int64() >= 0 && c.Int64() < 512 {
			return Mul(a, IntBig(new(big.Int).Lsh(big.NewInt(1), uint(c.Int64()))))
		}
		if !IsUnsigned(tb) {
			in.oblige(st, ins, "shift", Ge0(b))
		}
		return mk("shl", "", tr, a, b)
	case token.SHR:
		if c, ok := ConstOf(b); ok && c.IsInt64() && c.Int64() >= 0 && c.Int64() < 512 {
			d := IntBig(new(big.Int).Lsh(big.NewInt(1), uint(c.Int64())))
			if IsUnsigned(tb) {
				return Quo(a, d)
			}
			return FDiv(a, d)
		}
		return mk("shr", "", tr, a, b)
	case token.AND:
		if in.Cfg.AndHook != nil {
			if r := in.Cfg.AndHook(a, b); r != nil {
				return r
			}
		}
		if m := lowMask(a, b); m != nil && IsUnsigned(tr) {
			x := a
			if _, ok := ConstOf(b); !ok {
				x = b
			}
			return Rem(x, m)
		}
		return AndBits(a, b, tr)
	case token.OR:
		if a == b {
			return a
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return mk("bor", "", tr, a, b)
	case token.XOR:
		if a == b {
			return Int(0)
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return mk("xor", "", tr, a, b)
	case token.AND_NOT:
		return mk("andnot", "", tr, a, b)
	}
	in.fail("binary %s", op)
	return in.Fresh(st, "fresh", "binop", tr)
}

// FDiv is floor division by a positive constant.
func FDiv(a, d *T) *T {
	if p, ok := exactDiv(toPoly(a), toPoly(d)); ok {
		return fromPoly(p)
	}
	if IsNonNeg(a) {
		return Quo(a, d)
	}
	return mk("fdiv", "", a.Typ, a, d)
}

// AndBits is bitwise and.
// lowMask is 2^k when one operand is the constant 2^k-1 (k > 0) and the other is not constant.
func lowMask(a, b *T) *T {
	for i := 0; i < 2; i++ {
		if c, ok := ConstOf(b); ok && c.Sign() > 0 {
			if _, both := ConstOf(a); both {
				return nil
			}
			p := new(big.Int).Add(c, big.NewInt(1))
			if new(big.Int).And(p, c).Sign() == 0 {
				return IntBig(p)
			}
		}
		a, b = b, a
	}
	return nil
}

// AndBits is the bitwise and.
func AndBits(a, b *T, tr types.Type) *T {
	if ca, ok := ConstOf(a); ok {
		if cb, ok := ConstOf(b); ok && ca.Sign() >= 0 && cb.Sign() >= 0 {
			return IntBig(new(big.Int).And(ca, cb))
		}
	}
	for i := 0; i < 2; i++ {
		if c, ok := ConstOf(b); ok {
			if c.Sign() == 0 {
				return Int(0)
			}
			// mask 2^k-1
			p := new(big.Int).Add(c, big.NewInt(1))
			if new(big.Int).And(p, c).Sign() == 0 && c.Sign() > 0 && IsNonNeg(a) {
				return Rem(a, IntBig(p))
			}
		}
		a, b = b, a
	}
	if a == b {
		return a
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("and", "", tr, a, b)
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isStrLike(t types.Type) bool {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		return typeParamAll(tp, types.IsString)
	}
	return isStr(t)
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// Concat is string concatenation, flattened.
func Concat(a, b *T) *T {
	var parts []*T
	add := func(t *T) {
		if t.Op == "concat" {
			parts = append(parts, t.Args...)
		} else {
			parts = append(parts, t)
		}
	}
	add(a)
	add(b)
	var out []*T
	for _, p := range parts {
		if s, ok := StrOf(p); ok {
			if s == "" {
				continue
			}
			if n := len(out); n > 0 {
				if s0, ok := StrOf(out[n-1]); ok {
					out[n-1] = Str(s0 + s)
					continue
				}
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return Str("")
	case 1:
		return out[0]
	}
	return mk("concat", "", types.Typ[types.String], out...)
}

func (in *Interp) convert(st *State, ins ssa.Instruction, v *T, from, to types.Type) *T {
	if IsIntType(from) && IsIntType(to) {
		fb, tb := intBits(from), intBits(to)
		uf, ut := IsUnsigned(from), IsUnsigned(to)
		if c, ok := ConstOf(v); ok {
			if c.Sign() >= 0 && c.BitLen() <= tb-b2i(!ut) {
				return v
			}
		}
		switch {
		case ut && !uf && !IsNonNeg(v) && !st.Facts.Proves(Ge0(v)):
			return mk("conv", types.TypeString(to, nil), to, v)
		case tb < fb, tb == fb && uf && !ut && tb < 64:
			hi := new(big.Int).Lsh(big.NewInt(1), uint(tb-b2i(!ut)))
			if st.Facts.Proves(Lt(v, IntBig(hi))) && (uf || st.Facts.Proves(Ge0(Add(v, IntBig(hi))))) {
				return v
			}
			return mk("conv", types.TypeString(to, nil), to, v)
		}
		return v
	}
	if isStr(to) {
		if sl, ok := from.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && (b.Kind() == types.Int32 || b.Kind() == types.Uint8) {
				if v.Op == "runes" && b.Kind() == types.Int32 && in.pristine(st, v) {
					return mk("validutf8", "", types.Typ[types.String], v.Args[0])
				}
				if v.Op == "bytes" && b.Kind() == types.Uint8 && in.pristine(st, v) {
					return v.Args[0]
				}
				name := "runes2str"
				if b.Kind() == types.Uint8 {
					name = "bytes2str"
				}
				st.Clock++
				t := mk("sconv", fmt.Sprintf("%s#%d", name, st.Clock), types.Typ[types.String], append([]*T{v}, st.Iotas...)...)
				t.Seq = st.Clock
				in.event(st, &Event{Kind: "tostring", Name: name, Instr: ins, Args: []*T{v}, Res: []*T{t}})
				if b.Kind() == types.Uint8 {
					st.Facts = st.Facts.With(EqInt(LenOf(t), LenOf(v)))
				}
				return t
			}
		}
		if IsIntType(from) {
			return mk("rune2str", "", to, v)
		}
		return v
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && isStr(from) {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Int32:
				return in.freshConv(st, RunesOf(v))
			case types.Uint8:
				t := mk("bytes", "", to, v)
				st.Facts = st.Facts.With(EqInt(LenOf(t), LenOf(v)))
				return t
			}
		}
	}
	if IsIntType(to) || IsIntType(from) || isFloat(to) || isFloat(from) {
		if isFloat(from) && isFloat(to) {
			return v
		}
		return mk("conv", types.TypeString(to, nil), to, v)
	}
	return v // unsafe.Pointer and named conversions
}

func (in *Interp) freshConv(st *State, t *T) *T { return t }

func (in *Interp) pristine(st *State, v *T) bool {
	for m := st.Mem; m != nil; m = m.Next {
		switch m.Kind {
		case MStore:
			if m.Addr.Op == "elem" && m.Addr.Args[0] == BaseOf(v) {
				return false
			}
		case MCopy, MCompr:
			if m.Addr == BaseOf(v) {
				return false
			}
		case MHavoc:
			if m.Pat.A == BaseOf(v) || m.Pat.Kind == "allelems" {
				return false
			}
		}
	}
	return true
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func intBits(t types.Type) int {
	if IsTime(t) {
		return 64
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (in *Interp) selectStmt(st *State, x *ssa.Select) ([]*State, []*Exit) {
	var chans []*T
	var dirs []string
	for _, s := range x.States {
		chans = append(chans, in.val(st, s.Chan))
		if s.Dir == types.SendOnly {
			dirs = append(dirs, "send")
		} else {
			dirs = append(dirs, "recv")
		}
	}
	name := "blocking"
	if !x.Blocking {
		name = "default"
	}
	in.event(st, &Event{Kind: "select", Instr: x, Args: chans, Name: name + ":" + strings.Join(dirs, ",")})
	var out []*State
	put := func(s *State, idx int, ok *T, recv map[int]*T) {
		as := []*T{Int(int64(idx)), ok}
		ri := 0
		for i, ss := range x.States {
			if ss.Dir == types.RecvOnly {
				et := ss.Chan.Type().Underlying().(*types.Chan).Elem()
				if v, k := recv[i]; k {
					as = append(as, v)
				} else {
					as = append(as, Zero(et))
				}
				ri++
			}
		}
		s.top().Env[x] = Mk("tuple", "", nil, as...)
		s.top().Idx++
		out = append(out, s)
	}
	for i, ss := range x.States {
		if chans[i] == Nil {
			continue
		}
		if ss.Dir == types.SendOnly {
			s := st.fork()
			in.event(s, &Event{Kind: "selcase", Name: "send", Instr: x, Args: []*T{chans[i]}, Val: in.val(s, ss.Send)})
			put(s, i, False, nil)
			continue
		}
		et := ss.Chan.Type().Underlying().(*types.Chan).Elem()
		s := st.fork()
		r := in.Fresh(s, "res", "recv", et)
		in.event(s, &Event{Kind: "selcase", Name: "recv", Instr: x, Args: []*T{chans[i]}, Val: r})
		put(s, i, True, map[int]*T{i: r})
		s = st.fork()
		in.event(s, &Event{Kind: "selcase", Name: "recvclosed", Instr: x, Args: []*T{chans[i]}, Val: Zero(et)})
		put(s, i, False, map[int]*T{i: Zero(et)})
	}
	if !x.Blocking {
		s := st.fork()
		in.event(s, &Event{Kind: "selcase", Name: "default", Instr: x})
		put(s, -1, False, nil)
	}
	return out, nil
}

// globalValue is the value a package variable was initialised with, when nothing else stores to it.
func (p *Program) globalValue(addr *T, typ types.Type) *T {
	for _, sp := range p.Pkgs {
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok || g.String() != addr.Aux {
				continue
			}
			if v, ok := p.globals[g]; ok {
				return v
			}
			p.globals[g] = nil
			table, ok := p.readOnly(sp, g)
			if !ok {
				return nil
			}
			st := p.initState(sp)
			if st == nil {
				return nil
			}
			ip := NewInterp(p, &Config{})
			rs := ip.Load(st.fork(), addr, typ)
			fresh := func(t *T) bool { return t.Op == "alloc" } // one shared object, not a new one per use
			if len(rs) == 1 && rs[0].val.Op != "init" && (table || !Contains(rs[0].val, fresh)) {
				p.globals[g] = rs[0].val
				return rs[0].val
			}
			return nil
		}
	}
	return nil
}

// readOnly: nothing outside the package's initialisation stores to g. table: neither does anything
// store to, or let escape, the map, slice or array it holds.
func (p *Program) readOnly(sp *ssa.Package, g *ssa.Global) (table, ok bool) {
	table = true
	for _, f := range p.Funcs {
		if f == sp.Func("init") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						if in.Op == token.MUL {
							table = table && onlyRead(in)
							continue
						}
					case *ssa.IndexAddr:
						if in.X == ssa.Value(g) && onlyRead(in) {
							continue
						}
					}
					return false, false // written or aliased outside init
				}
			}
		}
	}
	return table, true
}

// onlyRead: v is only looked into.
func onlyRead(v ssa.Value) bool {
	if plain(v.Type()) {
		return true
	}
	if _, ok := v.Type().Underlying().(*types.Interface); ok {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Lookup:
			if r.X != v || r.CommaOk && !plain(r.Type().(*types.Tuple).At(0).Type()) || !r.CommaOk && !onlyRead(r) {
				return false
			}
		case *ssa.Range:
			if m, ok := v.Type().Underlying().(*types.Map); ok && !(plain(m.Key()) && plain(m.Elem())) {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyRead(r) {
				return false
			}
		case *ssa.Field:
			if !onlyRead(r) {
				return false
			}
		case *ssa.IndexAddr:
			if r.X != v || !onlyRead(r) {
				return false
			}
		case *ssa.Index:
			if r.X != v || !onlyRead(r) {
				return false
			}
		case *ssa.UnOp:
			if r.Op != token.MUL || !onlyRead(r) {
				return false
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// plain: values of the type hold no reference to memory that could be written.
func plain(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	case *types.Array:
		return plain(t.Elem())
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if !plain(t.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// tableClock is the clock at which the objects of package initialisation start: no memory effect of
// the functions analysed comes after it.
const tableClock = 1 << 24

// initState interprets the straight-line part of a package's initialisation.
func (p *Program) initState(sp *ssa.Package) *State {
	if st, ok := p.inits[sp]; ok {
		return st
	}
	if p.inits == nil {
		p.inits = map[*ssa.Package]*State{}
	}
	p.inits[sp] = nil
	ini := sp.Func("init")
	if ini == nil {
		return nil
	}
	ip := NewInterp(p, &Config{NoInline: func(fn *ssa.Function) bool { return fn.Name() == "init" }})
	st := ip.Start(ini, nil, nil, nil, nil, 0)
	st.Clock = tableClock + len(p.inits)<<16
	st.Mem = &Mem{Kind: MTable, Clock: st.Clock}
	for _, b := range ini.Blocks {
		for i, ins := range b.Instrs {
			switch ins.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
				continue
			}
			if c, ok := ins.(*ssa.Call); ok {
				if sc := c.Call.StaticCallee(); sc != nil && sc.Name() == "init" {
					continue
				}
				if len(c.Call.Args) > 3 {
					continue
				}
			}
			st.top().Block, st.top().Idx = b, i
			n, _ := ip.exec(st, ins)
			if len(n) != 1 || len(n[0].Frames) != 1 {
				return nil
			}
			st = n[0]
		}
	}
	p.inits[sp] = st
	return st
}

// tableMem is the memory that holds the content of a read-only table, nil for other objects.
func (p *Program) tableMem(addr *T) *Mem {
	r := allocRoot(addr)
	if p == nil || r == nil || r.Seq < tableClock {
		return nil
	}
	for _, st := range p.inits {
		if st != nil && r.Seq >= tableClock && r.Seq>>16 == st.Clock>>16 {
			return st.Mem
		}
	}
	return nil
}

// SortedKeys is a helper for deterministic output.
func SortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ModulePath is the module analysed.
const ModulePath = Module

// LoadOne reads a location when its content is a single term; nil otherwise.
func (in *Interp) LoadOne(st *State, addr *T, typ types.Type) *T {
	rs := in.Load(st.fork(), addr, typ)
	if len(rs) == 1 {
		return rs[0].val
	}
	// several possibilities: keep them if they agree
	var v *T
	for _, r := range rs {
		if v == nil {
			v = r.val
		} else if v != r.val {
			return nil
		}
	}
	return v
}

// LoadAll reads a location, one result per possibility, each with its own state.
func (in *Interp) LoadAll(st *State, addr *T, typ types.Type) ([]*State, []*T) {
	var ss []*State
	var vs []*T
	for _, r := range in.Load(st.fork(), addr, typ) {
		ss = append(ss, r.st)
		vs = append(vs, r.val)
	}
	return ss, vs
}

// LoadAt reads a location as it was at an event.
func (in *Interp) LoadAt(e *Event, addr *T, typ types.Type) *T {
	return in.LoadOne(&State{Mem: e.Mem, Facts: e.Facts, Clock: 1 << 20}, addr, typ)
}

// Case is one of the values a location may have, with what is known then.
type Case struct {
	Val   *T
	Facts *FactNode
}

// LoadsAt lists the values of a location at an event under further facts.
func (in *Interp) LoadsAt(e *Event, addr *T, typ types.Type, facts ...*T) []Case {
	f := e.Facts
	for _, g := range facts {
		f = f.With(g)
	}
	var out []Case
	for _, r := range in.Load(&State{Mem: e.Mem, Facts: f, Clock: 1 << 20}, addr, typ) {
		if !r.st.Facts.Infeasible() {
			out = append(out, Case{r.val, r.st.Facts})
		}
	}
	return out
}

// Emit records an event made by a model.
func (in *Interp) Emit(st *State, e *Event) { in.event(st, e) }
