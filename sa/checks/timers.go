package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

const heapPkg, listPkg = "common/container/heap", "common/container/list"

// timerLay says where the parts of a queue type are.
type queueLay struct {
	nt             *types.Named
	heap, mu, wake int
	elem           types.Type // heap element type (pointer)
	ctor           *ssa.Function
	payload        int   // the field an element delivers (-1: the element itself)
	keyField       int   // the field of an element the comparator goes by
	unit           int64 // nanoseconds per key unit
}

type tm struct {
	c      *Ctx
	in     *Interp
	dir    string
	queues []*queueLay
	// wheel parts
	bucket   *bucketLay
	timer    *timerLay
	wheel    *wheelLay
	done     []*trun
	newFn    *ssa.Function
	newExits []*Exit
	wdone    []*trun
	sums     map[string]*recSum
	depth    int
	tasks    map[*ssa.Function]bool // called, not followed
	goHands  map[*Event][]hand
	travs    map[*LoopRec]*trav
}

type bucketLay struct {
	nt            *types.Named
	list, mu, exp int
	idle          *T // the expiration of a slot that is not queued
}

type timerLay struct {
	nt                     *types.Named
	exp, task, owner, elem int
}

type wheelLay struct {
	nt                                          *types.Named
	tick, size, span, clock, slots, queue, over int
}

func isContainer(t types.Type, pkg, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := namedOf(p.Elem())
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), pkg)
}

func methodOf(pkg, typ, m string) string {
	return "(*" + ModulePath + "/" + pkg + "." + typ + "[T])." + m
}

// ghost is where the abstract state of a heap is kept.
func ghost(h *T) *T { return Mk("field", "heap.state", types.NewPointer(types.Typ[types.Int]), h) }

func hlen(v *T) *T                  { return Mk("hlen", "", types.Typ[types.Int], v) }
func hhead(v *T, typ types.Type) *T { return Mk("hhead", "", typ, v) }

func (m *tm) version(st *State, h *T) *T { return m.in.LoadOne(st, ghost(h), types.Typ[types.Int]) }

// config models the heap and the list by their contracts (decided by C13 and C12).
func (m *tm) config() *Config {
	cfg := &Config{Model: map[string]func(in *Interp, st *State, c *Call) []Outcome{}}
	tInt := types.Typ[types.Int]
	one := func(st *State, r ...*T) []Outcome { return []Outcome{{St: st, Res: r}} }
	H := func(name string, f func(in *Interp, st *State, c *Call, h, v *T) []Outcome) {
		cfg.Model[methodOf(heapPkg, "Heap", name)] = func(in *Interp, st *State, c *Call) []Outcome {
			v := in.LoadOne(st, ghost(c.Args[0]), tInt)
			if st = st.Assume(in, Ge0(hlen(v))); st == nil {
				return []Outcome{}
			}
			return f(in, st, c, c.Args[0], v)
		}
	}
	H("Len", func(in *Interp, st *State, c *Call, h, v *T) []Outcome {
		in.Emit(st, &Event{Kind: "heaplen", Instr: c.Instr, Args: []*T{h}, Res: []*T{v}})
		return one(st, hlen(v))
	})
	H("Empty", func(in *Interp, st *State, c *Call, h, v *T) []Outcome {
		in.Emit(st, &Event{Kind: "heaplen", Instr: c.Instr, Args: []*T{h}, Res: []*T{v}})
		return one(st, EqInt(hlen(v), Int(0)))
	})
	H("Peek", func(in *Interp, st *State, c *Call, h, v *T) []Outcome {
		r := hhead(v, c.Results()[0])
		in.Emit(st, &Event{Kind: "heappeek", Instr: c.Instr, Args: []*T{h}, Val: r, Res: []*T{v}})
		return one(st.Assume(in, Not(Eq(r, Nil))), r)
	})
	H("Pop", func(in *Interp, st *State, c *Call, h, v *T) []Outcome {
		r := hhead(v, c.Results()[0])
		nv := in.Fresh(st, "fresh", "heap", tInt)
		in.Emit(st, &Event{Kind: "heappop", Instr: c.Instr, Args: []*T{h}, Val: r, Res: []*T{v, nv}})
		st.Store(ghost(h), nv, tInt)
		if st = st.Assume(in, EqInt(hlen(nv), Sub(hlen(v), Int(1)))); st == nil {
			return []Outcome{}
		}
		return one(st.Assume(in, Not(Eq(r, Nil))), r)
	})
	H("Push", func(in *Interp, st *State, c *Call, h, v *T) []Outcome {
		nv := in.Fresh(st, "fresh", "heap", tInt)
		in.Emit(st, &Event{Kind: "heappush", Instr: c.Instr, Args: []*T{h}, Val: c.Args[1], Res: []*T{v, nv}})
		st.Store(ghost(h), nv, tInt)
		return one(st.Assume(in, EqInt(hlen(nv), Add(hlen(v), Int(1)))))
	})
	for _, n := range []string{"Remove", "Fix"} {
		H(n, func(in *Interp, st *State, c *Call, h, v *T) []Outcome {
			in.Emit(st, &Event{Kind: "heapother", Name: c.Name, Instr: c.Instr, Args: []*T{h}})
			nv := in.Fresh(st, "fresh", "heap", tInt)
			st.Store(ghost(h), nv, tInt)
			var rs []*T
			for _, t := range c.Results() {
				rs = append(rs, in.Fresh(st, "res", c.Name, t))
			}
			return one(st, rs...)
		})
	}
	cfg.Model[ModulePath+"/"+heapPkg+".New"] = func(in *Interp, st *State, c *Call) []Outcome {
		h := in.Fresh(st, "res", "heap", c.Results()[0])
		v := in.Fresh(st, "fresh", "heap", tInt)
		in.Emit(st, &Event{Kind: "heapnew", Instr: c.Instr, Args: c.Args, Val: h})
		st.Store(ghost(h), v, tInt)
		if st = st.Assume(in, EqInt(hlen(v), LenOf(c.Args[0]))); st == nil {
			return []Outcome{}
		}
		return one(st.Assume(in, Not(Eq(h, Nil))), h)
	}
	// lists: every call is an event; positions are opaque
	L := func(name string, f func(in *Interp, st *State, c *Call) []Outcome) {
		cfg.Model[name] = func(in *Interp, st *State, c *Call) []Outcome { return f(in, st, c) }
	}
	short := func(n string) string { return n[strings.LastIndex(n, ".")+1:] }
	emit := func(in *Interp, st *State, c *Call, name string, args []*T, r ...*T) {
		in.Emit(st, &Event{Kind: "list", Name: name, Instr: c.Instr, Args: args, Res: r})
	}
	maybe := func(in *Interp, st *State, c *Call) []Outcome { // an element, or nil
		r := in.Fresh(st, "res", short(c.Name), c.Results()[0])
		emit(in, st, c, short(c.Name), c.Args, r)
		return one(st, r)
	}
	for _, n := range []string{"Front", "Back"} {
		L(methodOf(listPkg, "List", n), func(in *Interp, st *State, c *Call) []Outcome {
			r := m.listEnd(st, c.Args[0], short(c.Name), c.Results()[0])
			emit(in, st, c, short(c.Name), c.Args, r)
			return one(st, r)
		})
	}
	for _, n := range []string{"RemoveFront", "RemoveBack", "Remove"} {
		L(methodOf(listPkg, "List", n), func(in *Interp, st *State, c *Call) []Outcome {
			l := c.Args[0]
			var e *T
			if len(c.Args) > 1 {
				e = c.Args[1]
			} else {
				e = m.listEnd(st, l, strings.TrimPrefix(short(c.Name), "Remove"), elementOf(l))
			}
			a, t := valueField(e)
			var r *T
			if a != nil {
				r = in.LoadOne(st, a, t)
			}
			if r == nil {
				r = in.Fresh(st, "res", short(c.Name), c.Results()[0])
			}
			emit(in, st, c, "Remove", []*T{l, e}, r)
			st.Store(lghost(l), in.Fresh(st, "fresh", "list", tInt), tInt)
			return one(st, r)
		})
	}
	for _, n := range []string{"Next", "Prev"} {
		L(methodOf(listPkg, "Element", n), maybe)
	}
	for _, n := range []string{"PushBack", "PushFront"} {
		L(methodOf(listPkg, "List", n), func(in *Interp, st *State, c *Call) []Outcome {
			r := in.Fresh(st, "res", short(c.Name), c.Results()[0])
			emit(in, st, c, "insert", c.Args, r)
			st.Store(lghost(c.Args[0]), in.Fresh(st, "fresh", "list", tInt), tInt)
			if a, t := valueField(r); a != nil {
				st.Store(a, c.Args[1], t)
			}
			return one(st.Assume(in, Not(Eq(r, Nil))), r)
		})
	}
	for _, n := range []string{"Clear", "Len", "Empty", "InsertBefore", "InsertAfter", "MoveToFront", "MoveToBack", "MoveBefore", "MoveAfter", "PushBackList", "PushFrontList"} {
		L(methodOf(listPkg, "List", n), func(in *Interp, st *State, c *Call) []Outcome {
			var rs []*T
			for _, t := range c.Results() {
				rs = append(rs, in.Fresh(st, "res", short(c.Name), t))
			}
			emit(in, st, c, short(c.Name), c.Args, rs...)
			if n := short(c.Name); n != "Len" && n != "Empty" {
				st.Store(lghost(c.Args[0]), in.Fresh(st, "fresh", "list", tInt), tInt)
			}
			for _, r := range rs {
				if isPtr(r.Typ) {
					st = st.Assume(in, Not(Eq(r, Nil)))
				}
			}
			return one(st, rs...)
		})
	}
	L(ModulePath+"/"+listPkg+".New", func(in *Interp, st *State, c *Call) []Outcome {
		r := in.Fresh(st, "res", "list", c.Results()[0])
		in.Emit(st, &Event{Kind: "list", Name: "new", Instr: c.Instr, Res: []*T{r}})
		return one(st.Assume(in, Not(Eq(r, Nil))), r)
	})
	cfg.Model["time.NewTimer"] = func(in *Interp, st *State, c *Call) []Outcome {
		r := in.Fresh(st, "res", "time.NewTimer", c.Results()[0])
		in.Emit(st, &Event{Kind: "call", Name: c.Name, Instr: c.Instr, Args: c.Args, Res: []*T{r}})
		return one(st.Assume(in, Not(Eq(r, Nil))), r)
	}
	cfg.NoInline = func(fn *ssa.Function) bool {
		if m.tasks[fn] {
			return true
		}
		p := fn.Pkg
		return p != nil && (strings.HasSuffix(p.Pkg.Path(), heapPkg) || strings.HasSuffix(p.Pkg.Path(), listPkg))
	}
	cfg.OnLock = m.onLock
	cfg.OnAtomic = m.onAtomic
	return cfg
}

// lghost is where the version of a list is kept.
func lghost(l *T) *T { return Mk("field", "list.state", types.NewPointer(types.Typ[types.Int]), l) }

// listEnd is the first or last element of a list.
func (m *tm) listEnd(st *State, l *T, end string, typ types.Type) *T {
	v := m.in.LoadOne(st, lghost(l), types.Typ[types.Int])
	if v == nil {
		v = m.in.Fresh(st, "fresh", "list", types.Typ[types.Int])
		st.Store(lghost(l), v, v.Typ)
	}
	return Mk("lend", end, typ, l, v)
}

// elementOf is the type of the elements of a list.
func elementOf(l *T) types.Type {
	if n := namedOf(ptrElem(l.Typ)); n != nil {
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == "Front" {
				return n.Method(i).Type().(*types.Signature).Results().At(0).Type()
			}
		}
	}
	return nil
}

// valueField is the payload of a list element.
func valueField(e *T) (*T, types.Type) {
	if e == nil || e.Typ == nil || !isPtr(e.Typ) {
		return nil, nil
	}
	et := ptrElem(e.Typ)
	st := structOf(et)
	if st == nil {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Value" {
			return FieldAddr(e, et, i), st.Field(i).Type()
		}
	}
	return nil, nil
}

// onLock: what the lock protects may have changed since it was last seen.
func (m *tm) onLock(in *Interp, st *State, mu *T) {
	if mu.Op != "field" {
		return
	}
	q := mu.Args[0]
	if b := m.bucket; b != nil && mu.Aux == FieldKey(b.nt, b.mu) && Root(q).Op != "alloc" {
		if l := in.LoadOne(st, FieldAddr(q, b.nt, b.list), m.fieldT(b.nt, b.list)); l != nil {
			st.Store(lghost(l), in.Fresh(st, "fresh", "list", types.Typ[types.Int]), types.Typ[types.Int])
		}
	}
	for _, l := range m.queues {
		if mu.Aux != FieldKey(l.nt, l.mu) || Root(q).Op == "alloc" {
			continue
		}
		s := structOf(l.nt)
		h := in.LoadOne(st, FieldAddr(q, l.nt, l.heap), s.Field(l.heap).Type())
		st.Store(ghost(h), in.Fresh(st, "fresh", "heap", types.Typ[types.Int]), types.Typ[types.Int])
		if l.wake >= 0 {
			w := in.Fresh(st, "fresh", "wakeup", s.Field(l.wake).Type())
			st.Store(FieldAddr(q, l.nt, l.wake), w, w.Typ)
			st.Facts = st.Facts.With(Not(Eq(w, Nil)))
		}
	}
}

// fieldOf is the only field of a struct whose type satisfies the predicate, or -1.
func fieldOf(st *types.Struct, pred func(t types.Type) bool) int {
	f := -1
	for i := 0; i < st.NumFields(); i++ {
		if pred(st.Field(i).Type()) {
			if f >= 0 {
				return -1
			}
			f = i
		}
	}
	return f
}

func isChan(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }
func isInt64(t types.Type) bool {
	s := types.TypeString(t.Underlying(), nil)
	return s == "int64" || types.TypeString(t, nil) == "sync/atomic.Int64"
}

func newTimers(c *Ctx, dir string) *tm {
	m := &tm{c: c, dir: dir, goHands: map[*Event][]hand{}}
	for _, n := range namedTypes(c.P, dir) {
		st := structOf(n)
		if st == nil {
			continue
		}
		mu := fieldOf(st, isMutexType)
		if h := fieldOf(st, func(t types.Type) bool { return isContainer(t, heapPkg, "Heap") }); h >= 0 {
			m.queues = append(m.queues, &queueLay{nt: n, heap: h, mu: mu, wake: fieldOf(st, isChan), unit: 1})
		}
		if l := fieldOf(st, func(t types.Type) bool { return isContainer(t, listPkg, "List") }); l >= 0 {
			m.bucket = &bucketLay{nt: n, list: l, mu: mu, exp: fieldOf(st, isInt64)}
		}
	}
	m.in = NewInterp(c.P, m.config())
	return m
}

// roots are the functions of the package that others call or start: exported ones, and those
// nobody in the package calls directly. Goroutines and stored closures are run from where they
// are made.
func (m *tm) roots() []*ssa.Function {
	called := map[*ssa.Function]bool{}
	fns := m.c.P.PkgFuncs(m.dir)
	for _, f := range fns {
		for _, b := range Body(f).Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if s := ci.Common().StaticCallee(); s != nil {
						called[Body(s)] = true
					}
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						called[Body(g)] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range fns {
		if f.Parent() == nil && f.Name() != "init" && len(Body(f).Blocks) > 0 && (f.Object() != nil && f.Object().Exported() || !called[Body(f)]) {
			out = append(out, f)
		}
	}
	return out
}

// trun is one analysed entry point: an API function, or a goroutine started by one.
type trun struct {
	name  string
	fn    *ssa.Function
	root  *ssa.Function
	gor   bool
	exits []*Exit
	goEv  *Event // where the goroutine was started
	ctx   *T     // the context parameter of the root, if any
	rec   bool   // a function that calls itself, analysed from any call
	timer *T     // the timer whose task this is
	task  *T     // that task
	due   *T     // its expiration when the task starts
}

// runs analyses every root and every goroutine a root starts with a function of its own.
func (m *tm) runs() []*trun {
	if m.done != nil {
		return m.done
	}
	for _, f := range m.roots() {
		var facts []*T
		ps := Params(f)
		if f.Signature.Recv() != nil && len(ps) > 0 && isPtr(ps[0].Typ) {
			facts = append(facts, Not(Eq(ps[0], Nil)))
		}
		var ctx *T
		for _, p := range paramsOfType(f, func(t types.Type) bool { return types.TypeString(t, nil) == "context.Context" }) {
			ctx = p
			facts = append(facts, Not(Eq(p, Nil)))
		}
		facts = append(facts, m.wheelFacts(ps)...)
		r := &trun{name: ShortName(f), fn: f, root: f, ctx: ctx, exits: m.in.Run(f, facts...)}
		m.c.Complete(m.in, f)
		m.done = append(m.done, r)
		seen := map[ssa.Instruction]bool{}
		for _, e := range allEvents(r.exits) {
			if e.Kind != "go" || e.Val == nil || e.Val.Fn == nil || seen[e.Instr] {
				continue
			}
			seen[e.Instr] = true
			m.tasks = m.storedTasks(r.exits)
			g := &trun{name: r.name + ">" + ShortName(e.Val.Fn), fn: e.Val.Fn, root: f, gor: true, goEv: e, ctx: ctx}
			var b []*T
			if e.Val.Op == "closure" {
				b = e.Val.Args
			}
			g.exits = m.in.RunArgs(e.Val.Fn, e.Args, b, e.Mem, e.Facts.List()...)
			m.tasks = nil
			m.c.Complete(m.in, e.Val.Fn)
			m.done = append(m.done, g)
		}
	}
	return m.done
}

// storedTasks are the functions stored as tasks of timers; they are analysed on their own.
func (m *tm) storedTasks(exits []*Exit) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	if m.timer == nil {
		return out
	}
	for _, e := range allEvents(exits) {
		if e.Kind == "store" && e.Val != nil && e.Val.Fn != nil && isCell(e.Args[0], m.timer.nt, m.timer.task) != nil {
			out[e.Val.Fn] = true
		}
	}
	return out
}

// unit is a stretch of execution: a path to an exit, or one iteration of a loop.
type unit struct {
	r    *trun
	x    *Exit  // set for paths
	back *State // set for iterations
	rec  *LoopRec
	evs  []*Event
	fin  *FactNode
}

func (r *trun) units() []*unit {
	var out []*unit
	seen := map[*State]bool{}
	for _, x := range r.exits {
		evs := x.Ev.List()
		out = append(out, &unit{r: r, x: x, evs: evs, fin: x.Facts})
		visit(evs, func(e *Event, _ *State) {
			if e.Kind != "loop" || e.Loop == nil {
				return
			}
			for _, b := range e.Loop.Back {
				if !seen[b] {
					seen[b] = true
					out = append(out, &unit{r: r, back: b, rec: e.Loop, evs: backEvents(e.Loop, b), fin: b.Facts})
				}
			}
		})
	}
	return out
}

// last cuts the whole iterations before the current one off a path.
func (u *unit) last() []*Event {
	for i := len(u.evs) - 1; i >= 0; i-- {
		if u.evs[i].Kind == "loop" {
			return u.evs[i+1:]
		}
	}
	return u.evs
}

func (m *tm) queueAt(h *T) *queueLay {
	if h == nil || h.Op != "init" || len(h.Args) == 0 || h.Args[0].Op != "field" {
		return nil
	}
	for _, l := range m.queues {
		if h.Args[0].Aux == FieldKey(l.nt, l.heap) {
			return l
		}
	}
	return nil
}

// owner is the queue object a heap value belongs to.
func ownerOf(h *T) *T { return h.Args[0].Args[0] }

// held is the set of locks held at each event of a unit; a unit starts with no lock of its own
// unless the surrounding path holds some.
func heldAt(evs []*Event, start map[*T]bool) []map[*T]bool {
	h := map[*T]bool{}
	for k := range start {
		h[k] = true
	}
	out := make([]map[*T]bool, len(evs))
	for i, e := range evs {
		switch e.Kind {
		case "lock", "rlock":
			n := map[*T]bool{e.Args[0]: true}
			for k := range h {
				n[k] = true
			}
			h = n
		case "unlock", "runlock":
			n := map[*T]bool{}
			for k := range h {
				if k != e.Args[0] {
					n[k] = true
				}
			}
			h = n
		}
		out[i] = h
	}
	return out
}

// entryLocks is what is held when a loop is entered.
func entryLocks(rec *LoopRec) map[*T]bool {
	evs := rec.Entry.Ev.List()
	if len(evs) == 0 {
		return nil
	}
	return heldAt(evs, nil)[len(evs)-1]
}

func (u *unit) held() []map[*T]bool {
	if u.rec != nil {
		return heldAt(u.evs, entryLocks(u.rec))
	}
	return heldAt(u.evs, nil)
}

// keyAddr is where the ordering key of a heap element is.
func (l *queueLay) keyAddr(e *T) *T { return FieldAddr(e, l.elem, l.keyField) }
func (l *queueLay) keyType() types.Type {
	return structOf(ptrElem(l.elem)).Field(l.keyField).Type()
}

// keys are the values the key of an element had where a unit looked at it, up to event i.
func (m *tm) keys(l *queueLay, e *T, evs []*Event, i int) []*T {
	a := l.keyAddr(e)
	var out []*T
	if v := m.in.LoadAt(evs[i], a, l.keyType()); v != nil {
		out = append(out, v)
	}
	for j := 0; j <= i; j++ {
		if evs[j].Kind == "aload" && evs[j].Args[0] == a {
			out = append(out, evs[j].Res[0])
		}
	}
	return out
}

// clocks are the readings of the clock in a list of events.
func clocks(evs []*Event) []*T {
	var out []*T
	for _, e := range evs {
		if e.Kind == "now" {
			out = append(out, e.Res[0])
		}
	}
	return out
}

func inUnits(n *T, unit int64) *T {
	if unit == 1 {
		return n
	}
	return FDiv(n, Int(unit))
}

// instrsOf lists the call instructions of the package that satisfy a predicate.
func (m *tm) callsTo(pred func(name string) bool) []ssa.Instruction {
	var out []ssa.Instruction
	for _, f := range m.c.P.PkgFuncs(m.dir) {
		for _, b := range Body(f).Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if s := ci.Common().StaticCallee(); s != nil && pred(FuncName(s)) {
						out = append(out, i)
					}
				}
			}
		}
	}
	return out
}

func sprint(a interface{}) string {
	return strings.ReplaceAll(fmt.Sprint(a), ModulePath+"/", "")
}

// clockUnit is the number of nanoseconds in one unit of the wheel's times: AfterFunc records now
// plus the delay in it.
func (m *tm) clockUnit() int64 {
	for _, r := range m.runs() {
		if r.gor || r.fn.Name() != "AfterFunc" {
			continue
		}
		ps := Params(r.fn)
		for _, e := range allEvents(r.exits) {
			if e.Kind != "store" || Root(e.Args[0]).Op != "alloc" || e.Typ == nil || !isInt64(e.Typ) || len(ps) < 2 {
				continue
			}
			for _, x := range r.exits {
				for _, n := range clocks(x.Ev.List()) {
					for _, u := range []int64{1, 1000, 1000000, 1000000000} {
						if e.Val == inUnits(Add(n, ps[1]), u) {
							return u
						}
					}
				}
			}
		}
	}
	return 0
}
