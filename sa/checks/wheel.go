package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

// field helpers

func (m *tm) fieldT(nt *types.Named, i int) types.Type { return structOf(nt).Field(i).Type() }

// cellType is the type of the content of a possibly atomic field.
func cellType(t types.Type) types.Type {
	if types.TypeString(t, nil) == "sync/atomic.Int64" {
		return types.Typ[types.Int64]
	}
	return t
}

func isAtomicPtr(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "unsafe.Pointer" || strings.HasPrefix(s, "sync/atomic.Pointer[")
}

// wheelLayout finds the parts of the timing wheel.
func (m *tm) wheelLayout() bool {
	c := m.c
	var ctor *ssa.Function
	for _, f := range m.c.P.PkgFuncs(m.dir) {
		if f.Name() == "AfterFunc" && f.Signature.Recv() != nil {
			m.wheel = &wheelLay{nt: namedOf(ptrElem(f.Signature.Recv().Type())), tick: -1, size: -1, span: -1, clock: -1}
			if r := f.Signature.Results(); r.Len() == 1 && isPtr(r.At(0).Type()) {
				m.timer = &timerLay{nt: namedOf(ptrElem(r.At(0).Type()))}
			}
		}
		if f.Name() == "New" && f.Parent() == nil && f.Signature.Recv() == nil {
			ctor = f
		}
	}
	if !c.Ob(m.wheel != nil && m.timer != nil && m.bucket != nil && ctor != nil && len(m.queues) == 1, "wheel-found", m.dir, 0, "the wheel, its timers, its slots, its queue or its constructor were not found") {
		return false
	}
	w, t := m.wheel, m.timer
	ts := structOf(t.nt)
	t.exp = fieldOf(ts, isInt64)
	t.task = fieldOf(ts, func(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok })
	t.owner = fieldOf(ts, isAtomicPtr)
	t.elem = fieldOf(ts, func(t types.Type) bool { return isContainer(t, listPkg, "Element") })
	ws := structOf(w.nt)
	w.over = fieldOf(ws, isAtomicPtr)
	w.queue = fieldOf(ws, func(t types.Type) bool { return isPtr(t) && namedOf(ptrElem(t)) == m.queues[0].nt })
	w.slots = fieldOf(ws, func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isPtr(s.Elem()) && namedOf(ptrElem(s.Elem())) == m.bucket.nt
	})
	if !c.Ob(t.exp >= 0 && t.task >= 0 && t.owner >= 0 && t.elem >= 0 && w.over >= 0 && w.queue >= 0 && w.slots >= 0 && m.bucket.exp >= 0 && m.bucket.mu >= 0, "wheel-found", m.dir, 0, "the fields of timers, slots and wheels were not recognised") {
		return false
	}
	ps := Params(ctor)
	if !c.Ob(len(ps) == 2 && isPlainInt(ps[0].Typ) && isPlainInt(ps[1].Typ), "wheel-found", ShortName(ctor), ctor.Pos(), "the constructor does not take a tick and a size") {
		return false
	}
	m.newFn = ctor
	m.newExits = m.in.Run(ctor, Le(Int(1), ps[0]), Le(Int(1), ps[1]))
	c.Complete(m.in, ctor)
	for _, x := range m.newExits {
		if x.Kind != "return" || x.Res[0].Op != "alloc" {
			continue
		}
		for i := 0; i < ws.NumFields(); i++ {
			if !isInt64(ws.Field(i).Type()) {
				continue
			}
			switch v := m.in.LoadOne(x.State, FieldAddr(x.Res[0], w.nt, i), cellType(ws.Field(i).Type())); {
			case v == ps[0]:
				w.tick = i
			case v == ps[1]:
				w.size = i
			case v == Mul(ps[0], ps[1]):
				w.span = i
			default:
				w.clock = i
			}
		}
		m.bucket.idle = m.sentinel(x.State, x.Res[0], ps[1])
	}
	return c.Ob(m.bucket.idle != nil, "slots-ready", ShortName(ctor), ctor.Pos(), "the constructor does not give each index a slot of its own with a list of its own and an expiration that marks it as not queued") && c.Ob(w.tick >= 0 && w.size >= 0 && w.clock >= 0, "wheel-found", ShortName(ctor), ctor.Pos(), "the constructor does not record the tick, the size and the clock of the wheel")
}

// slotAt is slot i of a wheel.
func (m *tm) slotAt(st *State, w, i *T) *T {
	lay := m.wheel
	arr := m.in.LoadOne(st, FieldAddr(w, lay.nt, lay.slots), m.fieldT(lay.nt, lay.slots))
	if arr == nil {
		return nil
	}
	et := m.fieldT(lay.nt, lay.slots).Underlying().(*types.Slice).Elem()
	return m.in.LoadOne(st, Mk("elem", "", types.NewPointer(et), BaseOf(arr), Add(OffOf(arr), i)), et)
}

// sentinel is the expiration of the slots of a new wheel w with n slots, nil if they are not n new
// slots with lists of their own.
func (m *tm) sentinel(s *State, w, n *T) *T {
	i := Mk("param", "slot", types.Typ[types.Int])
	st := s.Fork().Assume(m.in, Ge0(i))
	if st == nil {
		return nil
	}
	size := m.in.LoadOne(st, FieldAddr(w, m.wheel.nt, m.wheel.slots), m.fieldT(m.wheel.nt, m.wheel.slots))
	if size == nil {
		return nil
	}
	if st = st.Assume(m.in, Lt(i, LenOf(size))); st == nil {
		return nil
	}
	b := m.slotAt(st, w, i)
	if b == nil {
		return nil
	}
	lt := m.fieldT(m.bucket.nt, m.bucket.list)
	l := m.in.LoadOne(st, FieldAddr(b, m.bucket.nt, m.bucket.list), lt)
	v := m.in.LoadOne(st, FieldAddr(b, m.bucket.nt, m.bucket.exp), cellType(m.fieldT(m.bucket.nt, m.bucket.exp)))
	own := func(t *T) bool { return t == i }
	if Root(b).Op != "alloc" || !Contains(b, own) || l == nil || !Contains(l, own) || v == nil {
		return nil // not a new slot and list for each index
	}
	if !st.Facts.Proves(EqInt(LenOf(size), n)) || !(v == Int(0) || st.Facts.Proves(Le(v, Int(-1)))) {
		return nil
	}
	return v
}

// rely: what other goroutines may have done to a cell since it was last seen.
func (m *tm) onAtomic(in *Interp, st *State, addr *T, typ types.Type) {
	w, t, b := m.wheel, m.timer, m.bucket
	if w == nil || t == nil || b == nil || addr.Op != "field" || addr.Args[0].Op == "alloc" {
		return
	}
	fresh := func(n string) *T {
		v := in.Fresh(st, "fresh", n, typ)
		st.Store(addr, v, typ)
		return v
	}
	switch addr.Aux {
	case FieldKey(b.nt, b.exp):
		fresh("expiration")
	case FieldKey(w.nt, w.clock):
		old := in.LoadOne(st, addr, typ)
		v := fresh("clock")
		if old != nil { // it only moves forward (C10)
			st.Facts = st.Facts.With(Le(old, v))
		}
	case FieldKey(w.nt, w.over):
		if old := in.LoadOne(st, addr, typ); old == nil || !st.Facts.Proves(Not(Eq(old, Nil))) {
			fresh("overflow")
		}
	case FieldKey(t.nt, t.owner):
		var locked *T // the slot whose lock is held, if it is one
		n := 0
		evs := st.Ev.List()
		if len(evs) > 0 {
			for mu := range heldAt(evs, nil)[len(evs)-1] {
				if mu.Op == "field" && mu.Aux == FieldKey(b.nt, b.mu) {
					locked = mu.Args[0]
					n++
				}
			}
		}
		old := in.LoadOne(st, addr, typ)
		switch {
		case n == 1 && old != nil && sinceLock(evs, addr, FieldAddr(locked, b.nt, b.mu)) && (old == locked || st.Facts.Proves(Eq(old, locked))):
		case old == Nil && cleared(evs, addr):
			// detached by this goroutine: nobody else finds it
		case n == 1 && m.isListed(addr.Args[0]) && old != nil && (old.Op == "init" || old.Op == "hv"):
			// a timer in a locked slot's list belongs to that slot
			st.Store(addr, locked, typ)
		default:
			fresh("owner")
		}
	}
}

// sinceLock: the cell was used after the lock was taken.
func sinceLock(evs []*Event, addr, mu *T) bool {
	for i := len(evs) - 1; i >= 0; i-- {
		e := evs[i]
		if len(e.Args) == 0 {
			continue
		}
		switch {
		case e.Kind == "lock" && e.Args[0] == mu:
			return false
		case (e.Kind == "aload" || e.Kind == "astore" || e.Kind == "aswap" || e.Kind == "acas") && e.Args[0] == addr:
			return true
		}
	}
	return false
}

// cleared: this goroutine set the cell last.
func cleared(evs []*Event, addr *T) bool {
	for i := len(evs) - 1; i >= 0; i-- {
		e := evs[i]
		if len(e.Args) > 0 && e.Args[0] == addr {
			switch e.Kind {
			case "store", "astore", "aswap":
				return true
			case "acas":
				return e.Name == "ok"
			}
		}
	}
	return false
}

// isListed: the term is the value of a list element.
func (m *tm) isListed(t *T) bool {
	if t.Op != "init" && t.Op != "hv" || len(t.Args) != 1 || t.Args[0].Op != "field" {
		return false
	}
	return strings.HasSuffix(t.Args[0].Aux, ".Value") && isContainer(t.Args[0].Args[0].Typ, listPkg, "Element")
}

func (m *tm) isWheel(t *T) bool {
	return t != nil && t.Typ != nil && isPtr(t.Typ) && namedOf(ptrElem(t.Typ)) == m.wheel.nt
}

// wheelFacts are the invariants of a wheel: established by its constructor and never changed.
func (m *tm) wheelFacts(ps []*T) []*T {
	var out []*T
	if m.wheel == nil {
		return nil
	}
	for _, p := range ps {
		if m.isWheel(p) {
			out = append(out, Not(Eq(p, Nil)))
			out = append(out, m.inv(p)...)
		}
	}
	return out
}

func (m *tm) inv(p *T) []*T {
	return m.invAt(p, func(i int) *T {
		return Mk("init", "", m.fieldT(m.wheel.nt, i), FieldAddr(p, m.wheel.nt, i))
	})
}

func (m *tm) invAt(p *T, f func(i int) *T) []*T {
	w := m.wheel
	for _, i := range []int{w.tick, w.size, w.slots, w.queue, w.span} {
		if i >= 0 && f(i) == nil {
			return nil
		}
	}
	out := []*T{Le(Int(1), f(w.tick)), Le(Int(1), f(w.size)), EqInt(LenOf(f(w.slots)), f(w.size)), Not(Eq(f(w.queue), Nil))}
	if w.span >= 0 {
		out = append(out, EqInt(f(w.span), Mul(f(w.tick), f(w.size))))
	}
	return out
}
