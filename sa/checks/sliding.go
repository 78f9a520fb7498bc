package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

// sliding is one sliding limiter under analysis.
type sliding struct {
	c     *Ctx
	ins   *instance
	in    *Interp
	fn    *ssa.Function
	recv  *T
	name  string
	exits []*Exit
	small *T
	field *T // value of the counters map
	unit  *T
}

// newSliding runs TryAcquire with construction-time constants known.
func (c *Ctx) newSliding(ins *instance, extra func(addr *T, typ types.Type) *T) *sliding {
	fn := c.P.MethodOf(ins.Type, "TryAcquire")
	recv := Param(Body(fn), 0)
	hook, facts := ins.hook(recv)
	s := &sliding{c: c, ins: ins, fn: fn, recv: recv, name: ShortName(fn)}
	n := 0
	for _, l := range leaves(recv, ins.Type) {
		if _, ok := l.Typ.Underlying().(*types.Map); ok {
			s.field = Mk("init", "", l.Typ, l.Addr)
			n++
			c.Ob(ins.Imm[l.Key] && ins.Vals[l.Key] != nil && ins.Vals[l.Key].Op == "alloc", "counters-map", ShortName(ins.Ctor), ins.Ctor.Pos(), "the counters are not a fresh map owned by the limiter")
		}
	}
	if !c.Ob(n == 1, "roles", s.name, fn.Pos(), "expected one counter map, found %d", n) {
		return nil
	}
	s.in = NewInterp(c.P, &Config{InitHook: func(a *T, t types.Type) *T {
		if extra != nil {
			if v := extra(a, t); v != nil {
				return v
			}
		}
		return hook(a, t)
	}})
	s.exits = s.in.Run(fn, facts...)
	c.Complete(s.in, fn)
	return s
}

// current is the small window charged on a path: unit*quo(now, small).
func (s *sliding) current(x *Exit) (*T, bool) {
	var now *T
	held := 0
	inside := true
	for _, e := range x.Ev.List() {
		switch e.Kind {
		case "now":
			now = e.Res[0]
			inside = held > 0
		case "lock":
			held++
		case "unlock":
			held--
		}
	}
	if now == nil {
		return nil, false
	}
	return now, inside
}

func (s *sliding) start(now, w *T) *T {
	// unit*(quo(now,small) - (quo(w,small)-1))
	return Mul(s.unit, Sub(Quo(now, s.small), Sub(Quo(w, s.small), Int(1))))
}

func (s *sliding) start2(now, w *T) *T {
	return Add(Mul(s.unit, Quo(now, s.small)), Sub(s.small, w))
}

func (s *sliding) before(f *FactNode, k, now, w *T) bool {
	return f.Proves(Lt(k, s.start(now, w))) || s.unit == s.small && f.Proves(Lt(k, s.start2(now, w)))
}
func (s *sliding) notBefore(f *FactNode, k, now, w *T) bool {
	return f.Proves(Le(s.start(now, w), k)) || s.unit == s.small && f.Proves(Le(s.start2(now, w), k))
}

// isCounters: the term is the counter map.
func (s *sliding) isCounters(t *T) bool { return t == s.field }

// chargeEvents: updates of the counter map on the exit path itself.
func (s *sliding) charges(x *Exit) (ups []*Event) {
	for _, e := range x.Ev.List() {
		if e.Kind == "store" && e.Name == "mapupdate" && s.isCounters(e.Args[0].Args[0]) {
			ups = append(ups, e)
		}
	}
	return
}

// cell reads the counter of key k at an event: its value, 0 if absent.
func (s *sliding) cellAt(e *Event, k *T) *T {
	has := s.in.LoadAt(e, Mk("has", "", types.Typ[types.Bool], s.field, k), types.Typ[types.Bool])
	if has == nil {
		return nil
	}
	if has == False || e.Facts.Proves(Not(has)) {
		return Int(0)
	}
	if has == True || e.Facts.Proves(has) {
		return s.in.LoadAt(e, Mk("cell", "", types.Typ[types.Int], s.field, k), types.Typ[types.Int])
	}
	return nil
}

// rangeLoops are the loops over the counter map among evs, outer ones first, with the enclosing
// loop iteration (nil at top level).
type rangeLoop struct {
	rec *LoopRec
}

func (s *sliding) rangeLoops(evs []*Event) []*LoopRec {
	var out []*LoopRec
	seen := map[*LoopRec]bool{}
	visit(evs, func(e *Event, _ *State) {
		if e.Kind == "loop" && !seen[e.Loop] && s.rangesCounters(e.Loop) {
			seen[e.Loop] = true
			out = append(out, e.Loop)
		}
	})
	return out
}

// key and value of the iteration ending at b.
func (s *sliding) kv(rec *LoopRec, b *State) (k, v *T) {
	for _, e := range backEvents(rec, b) {
		if e.Kind == "load" && e.Name == "maprange" && s.isCounters(e.Args[0].Args[0]) {
			k = e.Args[0].Args[1]
			v = s.in.LoadAt(e, Mk("cell", "", types.Typ[types.Int], s.field, k), types.Typ[types.Int])
			return
		}
	}
	return nil, nil
}

func (s *sliding) rangesCounters(rec *LoopRec) bool {
	for _, b := range rec.Back {
		if k, _ := s.kv(rec, b); k != nil {
			// the range must be this loop's own, not a nested one's
			for _, ins := range rec.Header.Instrs {
				if _, ok := ins.(*ssa.Next); ok {
					return true
				}
			}
		}
	}
	return false
}

// purges: every iteration either leaves k >= start or deletes k.
func (s *sliding) purges(rec *LoopRec, now, w *T) bool {
	if len(rec.Back) == 0 {
		return false
	}
	for _, b := range rec.Back {
		k, _ := s.kv(rec, b)
		if k == nil {
			return false
		}
		del := false
		for _, e := range backEvents(rec, b) {
			if e.Kind == "store" && e.Name == "delete" && s.isCounters(e.Args[0].Args[0]) && e.Args[0].Args[1] == k {
				del = true
			}
		}
		if !del && !s.notBefore(b.Facts, k, now, w) {
			return false
		}
	}
	return true
}

// foldPhi: the header phi p sums the counters that are not before the start of window w.
func (s *sliding) foldPhi(rec *LoopRec, p *ssa.Phi, now, w *T, purged bool) (bool, string) {
	if iv := rec.Init[p]; iv == nil || !eqI(rec.Entry.Facts, iv, Int(0)) {
		return false, "the sum does not start at 0"
	}
	if len(rec.Back) == 0 {
		return false, "the loop never iterates"
	}
	for _, b := range rec.Back {
		k, v := s.kv(rec, b)
		nv := s.in.BackVal(rec, b, p)
		if k == nil || v == nil || nv == nil {
			return false, "an iteration does not read the counter"
		}
		d := Sub(nv, rec.Cur[p])
		switch {
		case s.notBefore(b.Facts, k, now, w) || purged:
			if !eqI(b.Facts, d, v) {
				return false, "a small window inside the window adds " + d.String() + " instead of its counter"
			}
		case s.before(b.Facts, k, now, w):
			if !eqI(b.Facts, d, Int(0)) {
				return false, "a small window before the window is counted"
			}
		case eqI(b.Facts, d, v):
			return false, "a small window is counted without being known to lie inside the window that ends with the current small window"
		default:
			return false, "a small window is skipped without being known to lie before the window"
		}
	}
	return true, ""
}

// deletions: no needed counter is forgotten.
func (s *sliding) deletions(x *Exit, now, w *T) {
	n := 0
	visit(x.Ev.List(), func(e *Event, _ *State) {
		if e.Kind != "store" || len(e.Args) == 0 || e.Args[0].Op != "cell" || !s.isCounters(e.Args[0].Args[0]) {
			return
		}
		switch e.Name {
		case "delete":
			n++
			s.c.Ob(s.expired(x, e, now, w), "evict-only-expired", s.name, e.Pos, "the counter of %s is deleted although it may still lie inside the longest window", e.Args[0].Args[1])
		case "clear":
			s.c.Fail("evict-only-expired", s.name, e.Pos, "all counters are forgotten")
		}
	})
	s.c.Add("delete sites seen", n)
}

// expired: the key deleted lies before the window, or comes from a list of such keys only.
func (s *sliding) expired(x *Exit, e *Event, now, w *T) bool {
	k := e.Args[0].Args[1]
	if s.before(e.Facts, k, now, w) {
		return true
	}
	adds, ok := appendedTo(x, k)
	for _, a := range adds {
		v := s.in.LoadAt(a, Mk("elem", "", nil, BaseOf(a.Args[1]), OffOf(a.Args[1])), k.Typ)
		ok = ok && v != nil && a.Facts.Proves(EqInt(LenOf(a.Args[1]), Int(1))) && s.before(a.Facts, v, now, w)
	}
	return ok
}

// appendedTo: v is an element of a list that a loop on the path built from nothing by appending;
// the appends made by that loop.
func appendedTo(x *Exit, v *T) (adds []*Event, ok bool) {
	if v.Op != "init" || v.Args[0].Op != "elem" {
		return nil, false
	}
	for _, e := range x.Ev.List() {
		if e.Kind != "loop" {
			continue
		}
		for _, p := range e.Loop.Phis {
			cur := e.Loop.Cur[p]
			if cur == nil || BaseOf(cur) != v.Args[0].Args[0] || e.Loop.Init[p] != Nil {
				continue
			}
			for _, b := range e.Loop.Back {
				visit(backEvents(e.Loop, b), func(y *Event, _ *State) {
					if y.Kind == "append" {
						adds = append(adds, y)
					}
				})
			}
			return adds, len(adds) > 0
		}
	}
	return nil, false
}

// decided splits exits by the returned decision.
func (s *sliding) decided(x *Exit) (admit, ok bool) {
	if x.Kind != "return" || len(x.Res) != 1 {
		return false, false
	}
	r := x.Res[0]
	switch {
	case r == True || r == Nil:
		return true, true
	case r == False:
		return false, true
	case x.Facts.Proves(r) && isBoolTerm(r):
		return true, true
	case isBoolTerm(r) && x.Facts.Proves(Not(r)):
		return false, true
	case !isBoolTerm(r) && x.Facts.Proves(Eq(r, Nil)):
		return true, true
	case !isBoolTerm(r) && (r.Op == "iface" || r.Op == "err" || x.Facts.Proves(Not(Eq(r, Nil)))):
		return false, true
	}
	return false, false
}

func isBoolTerm(t *T) bool {
	switch t.Op {
	case "ge0", "eq0", "eq", "not", "andb", "orb", "true", "false", "has":
		return true
	}
	if t.Typ != nil {
		b, ok := t.Typ.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsBoolean != 0
	}
	return false
}

// splitBool turns an exit returning an undecided condition into two.
func splitBool(in *Interp, xs []*Exit) []*Exit {
	var out []*Exit
	for _, x := range xs {
		if x.Kind == "return" && len(x.Res) >= 1 && isBoolTerm(x.Res[0]) && x.Res[0] != True && x.Res[0] != False {
			for _, v := range []bool{true, false} {
				cond := x.Res[0]
				if !v {
					cond = Not(cond)
				}
				if st := x.State.Fork().Assume(in, cond); st != nil {
					y := *x
					y.State = st
					y.Facts = st.Facts
					y.Res = append([]*T{Bool(v)}, x.Res[1:]...)
					out = append(out, &y)
				}
			}
			continue
		}
		out = append(out, x)
	}
	return out
}

// prep checks what all sliding limiters share on a path; nil if the path is not decided.
func (s *sliding) prep(id string, x *Exit) (now *T, admit, ok bool) {
	admit, ok = s.decided(x)
	if !s.c.Ob(ok, "returns", s.name, x.Pos, "a path ends without a decision (%s)", x.Kind) {
		return nil, false, false
	}
	now, inside := s.current(x)
	if !s.c.Ob(now != nil, "reads-clock", s.name, x.Pos, "a path decides without reading the clock") {
		return nil, false, false
	}
	s.c.Ob(inside, "clock-in-section", s.name, x.Pos, "the clock is read before the mutex is held: a later call can evict or charge newer small windows first")
	ups := s.charges(x)
	var cur *T
	s.unit = s.small
	if len(ups) == 1 {
		k := ups[0].Args[0].Args[1]
		if !eqI(ups[0].Facts, k, Mul(s.small, Quo(now, s.small))) && eqI(ups[0].Facts, k, Quo(now, s.small)) {
			s.unit = Int(1)
		}
		cur = k
	}
	if id == "C02" {
		if admit {
			if s.c.Ob(len(ups) == 1, "charge-one", s.name, x.Pos, "an admitted call updates %d counters instead of one", len(ups)) {
				u := ups[0]
				s.c.Ob(eqI(u.Facts, cur, Mul(s.unit, Quo(now, s.small))), "charge-current-window", s.name, u.Pos, "the call is charged to small window %s, not to the one of the current instant", cur)
				old := s.cellAt(u, cur)
				s.c.Ob(old != nil && eqI(u.Facts, u.Val, Add(old, Int(1))), "charge-one", s.name, u.Pos, "the counter becomes %s, not its old value plus one", u.Val)
				// nothing may be deleted after the charge
				after := false
				for _, e := range x.Ev.List() {
					if e == u {
						after = true
					} else if after && e.Kind == "store" && (e.Name == "delete" || e.Name == "clear") {
						s.c.Fail("charge-one", s.name, e.Pos, "a counter is deleted after the charge")
					}
				}
			}
		} else {
			s.c.Ob(len(ups) == 0, "charge-none", s.name, x.Pos, "a rejected call updates a counter")
		}
		inLoop := 0
		visit(x.Ev.List(), func(e *Event, b *State) {
			if b != nil && e.Kind == "store" && e.Name == "mapupdate" && s.isCounters(e.Args[0].Args[0]) {
				inLoop++
			}
		})
		s.c.Ob(inLoop == 0, "charge-one", s.name, x.Pos, "counters are updated inside a loop")
	}
	return now, admit, true
}

func (c *Ctx) slidingWindow(id string, ins *instance) {
	ints := paramsOfType(ins.Ctor, isPlainInt)
	durs := paramsOfType(ins.Ctor, isDuration)
	if !c.Ob(len(ints) == 1 && len(durs) == 2, "roles", ShortName(ins.Ctor), ins.Ctor.Pos(), "expected limit, window and small window parameters") {
		return
	}
	s := c.newSliding(ins, nil)
	if s == nil {
		return
	}
	L, W := ints[0], durs[0]
	s.small = durs[1]
	for _, x := range splitBool(s.in, s.exits) {
		now, admit, ok := s.prep(id, x)
		if !ok {
			continue
		}
		if id == "C03" {
			s.deletions(x, now, W)
		}
		loops := s.rangeLoops(x.Ev.List())
		why := "no loop sums the counters"
		found := false
		purged := false
		for _, rec := range loops {
			for _, p := range rec.Phis {
				if !IsIntType(p.Type()) || rec.Cur[p] == nil {
					continue
				}
				S := rec.Cur[p]
				rel := admit && x.Facts.Proves(Lt(S, L)) || !admit && x.Facts.Proves(Le(L, S))
				if !rel {
					// a rejection from inside the loop: the sum so far plus this counter
					if !admit && rec.Partial(x) {
						if k, v := s.kvPath(rec, x); k != nil && x.Facts.Proves(Le(L, Add(S, v))) && s.notBefore(x.Facts, k, now, W) {
							rel = true
						}
					}
				}
				if !rel {
					continue
				}
				if ok, w := s.foldPhi(rec, p, now, W, purged); ok {
					found = true
				} else {
					why = w
				}
			}
			if s.purges(rec, now, W) {
				purged = true
			}
		}
		rule := "count-window"
		if id == "C02" {
			rule = "admit-iff-capacity"
		}
		c.Ob(found, rule, s.name, x.Pos, "a call is %s without the limit being compared with the counters of the window: %s", word(admit), why)
	}
}

func (s *sliding) kvPath(rec *LoopRec, x *Exit) (k, v *T) {
	on := false
	for _, e := range x.Ev.List() {
		if e.Kind == "loop" && e.Loop == rec {
			on = true
		}
		if on && e.Kind == "load" && e.Name == "maprange" && s.isCounters(e.Args[0].Args[0]) {
			k = e.Args[0].Args[1]
			v = s.in.LoadAt(e, Mk("cell", "", types.Typ[types.Int], s.field, k), types.Typ[types.Int])
		}
	}
	return
}

// ---- sliding log ----

// strategyInfo finds the fields of the strategy type from its constructor.
type strategyInfo struct {
	typ           *types.Named
	limit, window string // field keys
	limitI, winI  int
}

func (c *Ctx) strategies(ins *instance) (*strategyInfo, leaf, bool) {
	for _, l := range leaves(Param(Body(c.P.MethodOf(ins.Type, "TryAcquire")), 0), ins.Type) {
		sl, ok := l.Typ.Underlying().(*types.Slice)
		if !ok {
			continue
		}
		n := namedOf(sl.Elem())
		if n == nil {
			continue
		}
		for _, ctor := range constructors(c.P, n) {
			in := NewInterp(c.P, nil)
			for _, x := range in.Run(ctor) {
				if x.Kind != "return" {
					continue
				}
				ints, durs := paramsOfType(ctor, isPlainInt), paramsOfType(ctor, isDuration)
				if len(ints) != 1 || len(durs) != 1 {
					continue
				}
				si := &strategyInfo{typ: n, limitI: -1, winI: -1}
				st := n.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					v := in.LoadOne(x.State, FieldAddr(x.Res[0], n, i), st.Field(i).Type())
					if v == ints[0] {
						si.limit, si.limitI = FieldKey(n, i), i
					}
					if v == durs[0] {
						si.window, si.winI = FieldKey(n, i), i
					}
				}
				if si.limitI >= 0 && si.winI >= 0 {
					return si, l, true
				}
			}
		}
	}
	return nil, leaf{}, false
}

// elemTemplates finds per-strategy fields the limiter's constructor derives from other fields:
// every iteration of a loop over all strategies stores the same expression.
func (c *Ctx) elemTemplates(ins *instance, si *strategyInfo) map[string]func(p *T) *T {
	out := map[string]func(p *T) *T{}
	st := si.typ.Underlying().(*types.Struct)
	for _, e0 := range ins.Exit.Ev.List() {
		if e0.Kind != "loop" || len(e0.Loop.Back) == 0 {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			key := FieldKey(si.typ, i)
			var tmpl *T
			var ptr *T
			good := true
			for _, b := range e0.Loop.Back {
				var se *Event
				for _, e := range backEvents(e0.Loop, b) {
					if e.Kind == "store" && e.Args[0].Op == "field" && e.Args[0].Aux == key && e.Args[0].Args[0].Op != "alloc" {
						se = e
					}
				}
				if se == nil || ptr != nil && (se.Args[0].Args[0] != ptr || se.Val != tmpl) {
					good = false
					break
				}
				ptr, tmpl = se.Args[0].Args[0], se.Val
			}
			if !good || tmpl == nil {
				continue
			}
			// the loop covers every element
			covers := false
			if ptr.Op == "hv" || ptr.Op == "init" || ptr.Op == "elem" {
				if a := ptr.Args[0]; a.Op == "elem" && a.Args[1] == e0.Loop.Iota {
					covers = ins.Exit.Facts.Proves(Le(LenOf(ins.Vals[c.strategiesKey(ins)]), e0.Loop.Iota))
				}
			}
			if !covers {
				continue
			}
			t, p0 := tmpl, ptr
			out[key] = func(p *T) *T {
				m := map[*T]*T{}
				Contains(t, func(x *T) bool {
					if (x.Op == "init" || x.Op == "hv") && x.Args[0].Op == "field" && x.Args[0].Args[0] == p0 {
						m[x] = Mk("init", "", x.Typ, Mk("field", x.Args[0].Aux, x.Args[0].Typ, p))
					}
					return false
				})
				return Subst(t, m)
			}
		}
	}
	return out
}

func (c *Ctx) strategiesKey(ins *instance) string {
	for _, l := range ins.Leaves {
		if _, ok := l.Typ.Underlying().(*types.Slice); ok {
			return l.Key
		}
	}
	return ""
}

func (c *Ctx) slidingLog(id string, ins *instance) {
	durs := paramsOfType(ins.Ctor, isDuration)
	si, sleaf, ok := c.strategies(ins)
	if !c.Ob(ok && len(durs) == 1, "roles", ShortName(ins.Ctor), ins.Ctor.Pos(), "strategies or small window not found") {
		return
	}
	tm := c.elemTemplates(ins, si)
	s := c.newSliding(ins, func(a *T, t types.Type) *T {
		if a.Op == "field" {
			if f := tm[a.Aux]; f != nil {
				return f(a.Args[0])
			}
		}
		return nil
	})
	if s == nil {
		return
	}
	s.small = durs[0]
	strat := Mk("init", "", sleaf.Typ, sleaf.Addr)
	st := si.typ.Underlying().(*types.Struct)
	fieldOf := func(j *T, i int) *T {
		et := sleaf.Typ.Underlying().(*types.Slice).Elem()
		a := Mk("elem", "", types.NewPointer(et), BaseOf(strat), Add(OffOf(strat), j))
		if _, isPtr := et.Underlying().(*types.Pointer); isPtr {
			a = Mk("init", "", et, a)
		}
		return Mk("init", "", st.Field(i).Type(), FieldAddr(a, si.typ, i))
	}
	W := func(j *T) *T { return fieldOf(j, si.winI) }
	L := func(j *T) *T { return fieldOf(j, si.limitI) }
	n := LenOf(strat)
	for _, x := range s.exits {
		now, admit, ok := s.prep(id, x)
		if !ok {
			continue
		}
		if id == "C03" {
			s.deletions(x, now, W(Int(0)))
		}
		evs := x.Ev.List()
		// the deciding loop: on its continuing iterations strategy j has room
		decided := false
		why := "no loop compares every strategy's count with its limit"
		for _, e := range evs {
			if e.Kind != "loop" {
				continue
			}
			d := e.Loop
			idx := s.indexTerm(d)
			if idx == nil {
				continue
			}
			isDec := len(d.Back) > 0
			for _, b := range d.Back {
				if ok, w := s.strategyHasSum(id, x, d, b.Facts, b.Ev.List(), idx, now, W(idx), L(idx), true, n, W); !ok {
					isDec = false
					if w != "" {
						why = w
					}
				}
			}
			done := x.Facts.Proves(Le(n, idx))
			if admit {
				if isDec && done {
					decided = true
				}
				continue
			}
			if !done && isDec || len(d.Back) == 0 {
				if ok, w := s.strategyHasSum(id, x, d, x.Facts, evs, idx, now, W(idx), L(idx), false, n, W); ok {
					decided = true
					s.violation(id, x, L(idx), W(idx))
				} else if w != "" {
					why = w
				}
			}
		}
		rule := "admit-iff-capacity"
		if id == "C03" {
			rule = "count-window"
		}
		c.Ob(decided, rule, s.name, x.Pos, "a call is %s, but not for the reason the strategies give: %s", word(admit), why)
	}
}

// indexTerm is the strategy index the loop walks (0,1,2,... from the start).
func (s *sliding) indexTerm(d *LoopRec) *T {
	if s.rangesCounters(d) {
		return nil
	}
	return d.Iota
}

// strategyHasSum: on these facts strategy idx has (or has not) room, by a sum that is valid.
func (s *sliding) strategyHasSum(id string, x *Exit, d *LoopRec, f *FactNode, evs []*Event, idx, now, w, lim *T, room bool, n *T, W func(*T) *T) (bool, string) {
	rel := func(S *T) bool {
		if room {
			return f.Proves(Lt(S, lim))
		}
		return f.Proves(Le(lim, S))
	}
	why := ""
	purged := false
	for _, rec := range s.rangeLoops(evs) {
		// a sum kept in a loop variable, for this strategy
		for _, p := range rec.Phis {
			if !IsIntType(p.Type()) || rec.Cur[p] == nil || !rel(rec.Cur[p]) {
				continue
			}
			if ok, y := s.foldPhi(rec, p, now, w, purged); ok {
				return true, ""
			} else {
				why = y
			}
		}
		// sums kept in an array with one cell per strategy
		for _, arr := range s.arraysWritten(rec) {
			S := s.loadAny(x, rec, evs, Mk("elem", "", types.NewPointer(types.Typ[types.Int]), arr, idx))
			if S == nil || !rel(S) {
				continue
			}
			if ok, y := s.foldArray(rec, arr, now, n, W); ok {
				return true, ""
			} else {
				why = y
			}
		}
		// sums made one after the other, each by its own loop over the counters
		for _, e := range evs {
			if e.Kind != "loop" || !f.Proves(Le(n, e.Loop.Iota)) {
				continue
			}
			for _, arr := range s.arraysWritten(e.Loop) {
				S := s.loadAny(x, e.Loop, evs, Mk("elem", "", types.NewPointer(types.Typ[types.Int]), arr, idx))
				if S == nil || !rel(S) {
					continue
				}
				if ok, y := s.foldOneByOne(e.Loop, arr, now, W); ok {
					return true, ""
				} else {
					why = y
				}
			}
		}
	}
	return false, why
}

// loadAny reads an address in the newest memory after rec on the event list.
func (s *sliding) loadAny(x *Exit, rec *LoopRec, evs []*Event, a *T) *T {
	for i := len(evs) - 1; i >= 0; i-- {
		if v := s.in.LoadAt(evs[i], a, types.Typ[types.Int]); v != nil {
			return v
		}
		if evs[i].Kind == "loop" && evs[i].Loop == rec {
			break
		}
	}
	return nil
}

// arraysWritten lists local integer arrays stored to inside rec.
func (s *sliding) arraysWritten(rec *LoopRec) []*T {
	var out []*T
	seen := map[*T]bool{}
	for _, b := range rec.Back {
		visit(backEvents(rec, b), func(e *Event, _ *State) {
			if e.Kind == "store" && e.Args[0].Op == "elem" && e.Args[0].Args[0].Op == "alloc" && !seen[e.Args[0].Args[0]] {
				seen[e.Args[0].Args[0]] = true
				out = append(out, e.Args[0].Args[0])
			}
		})
	}
	return out
}

// foldArray: arr[j] sums, for every strategy j, the counters not before the start of its window.
func (s *sliding) foldArray(rec *LoopRec, arr, now, n *T, W func(*T) *T) (bool, string) {
	z := s.in.LoadOne(rec.Entry, Mk("elem", "", types.NewPointer(types.Typ[types.Int]), arr, rec.Iota), types.Typ[types.Int])
	if z == nil || !eqI(rec.Entry.Facts, z, Int(0)) {
		return false, "the sums do not start at 0"
	}
	for _, b := range rec.Back {
		k, v := s.kv(rec, b)
		if k == nil || v == nil {
			return false, "an iteration does not read the counter"
		}
		evs := backEvents(rec, b)
		direct := 0
		inner := 0
		for _, e := range evs {
			if e.Kind == "store" && e.Args[0].Op == "elem" && e.Args[0].Args[0] == arr {
				direct++
			}
			if e.Kind != "loop" {
				continue
			}
			touches := false
			for _, q := range s.arraysWritten(e.Loop) {
				touches = touches || q == arr
			}
			if !touches {
				continue
			}
			inner++
			if !b.Facts.Proves(Le(n, e.Loop.Iota)) {
				return false, "the loop over the strategies may stop before the last one"
			}
			for _, ib := range e.Loop.Back {
				j := e.Loop.Iota
				var ups []*Event
				for _, y := range backEvents(e.Loop, ib) {
					if y.Kind == "store" && y.Args[0].Op == "elem" && y.Args[0].Args[0] == arr {
						ups = append(ups, y)
					}
				}
				switch {
				case len(ups) == 1:
					u := ups[0]
					if !eqI(u.Facts, u.Args[0].Args[1], j) {
						return false, "the sum of another strategy is changed"
					}
					old := s.in.LoadAt(u, u.Args[0], types.Typ[types.Int])
					if old == nil || !eqI(u.Facts, u.Val, Add(old, v)) {
						return false, "a sum becomes " + u.Val.String() + " instead of growing by the counter"
					}
					if !s.notBefore(ib.Facts, k, now, W(j)) {
						return false, "a small window is counted for a strategy without being known to lie inside its window"
					}
				case len(ups) == 0:
					if !s.before(ib.Facts, k, now, W(j)) {
						return false, "a small window is skipped for a strategy without being known to lie before its window"
					}
				default:
					return false, "a sum changes twice in one iteration"
				}
			}
		}
		if direct > 0 || inner > 1 {
			return false, "sums change outside the loop over the strategies"
		}
		if inner == 0 && !s.before(b.Facts, k, now, W(Int(0))) {
			return false, "a small window that may lie inside the longest window is not counted"
		}
	}
	return true, ""
}

// foldOneByOne: iteration j of outer sums in arr[j], by one loop over the counters, those not
// before the start of strategy j's window.
func (s *sliding) foldOneByOne(outer *LoopRec, arr, now *T, W func(*T) *T) (bool, string) {
	j := outer.Iota
	cell := Mk("elem", "", types.NewPointer(types.Typ[types.Int]), arr, j)
	for _, b := range outer.Back {
		sums := 0
		for _, e := range backEvents(outer, b) {
			if e.Kind == "store" && e.Args[0].Op == "elem" && e.Args[0].Args[0] == arr {
				return false, "a sum changes outside the loop over the counters"
			}
			if e.Kind != "loop" {
				continue
			}
			touches := false
			for _, q := range s.arraysWritten(e.Loop) {
				touches = touches || q == arr
			}
			if !touches {
				continue
			}
			sums++
			rec := e.Loop
			// only cell j is written in iteration j, so it is as before the outer loop
			if z := s.in.LoadOne(outer.Entry, cell, types.Typ[types.Int]); z == nil || !eqI(rec.Entry.Facts, z, Int(0)) {
				return false, "the sums do not start at 0"
			}
			if !s.rangesCounters(rec) {
				return false, "a sum does not range over the counters"
			}
			for _, ib := range rec.Back {
				k, v := s.kv(rec, ib)
				var ups []*Event
				for _, y := range backEvents(rec, ib) {
					if y.Kind == "loop" {
						return false, "a sum changes in a loop inside the loop over the counters"
					}
					if y.Kind == "store" && y.Args[0].Op == "elem" && y.Args[0].Args[0] == arr {
						ups = append(ups, y)
					}
				}
				if k == nil || v == nil || len(ups) > 1 {
					return false, "an iteration does not add its counter once"
				}
				if len(ups) == 0 {
					if !s.before(ib.Facts, k, now, W(j)) {
						return false, "a small window is skipped for a strategy without being known to lie before its window"
					}
					continue
				}
				u := ups[0]
				old := s.in.LoadAt(u, u.Args[0], types.Typ[types.Int])
				if !eqI(u.Facts, u.Args[0].Args[1], j) || old == nil || !eqI(u.Facts, u.Val, Add(old, v)) {
					return false, "a sum does not grow by the counter"
				}
				if !s.notBefore(ib.Facts, k, now, W(j)) {
					return false, "a small window is counted for a strategy without being known to lie inside its window"
				}
			}
		}
		if sums != 1 {
			return false, "a strategy has no sum of its own"
		}
	}
	return len(outer.Back) > 0, ""
}

// violation checks the returned error of a rejecting path.
func (s *sliding) violation(id string, x *Exit, L, W *T) {
	if id != "C02" {
		return
	}
	r := x.Res[0]
	if r.Op == "iface" {
		r = r.Args[0]
	}
	lim, win := false, false
	if n := namedOf(r.Typ); n != nil && r.Op == "alloc" {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				v := s.in.LoadOne(x.State, FieldAddr(r, n, i), st.Field(i).Type())
				switch {
				case isPlainInt(st.Field(i).Type()) && v != nil && eqI(x.Facts, v, L):
					lim = true
				case isDuration(st.Field(i).Type()) && v != nil && eqI(x.Facts, v, W):
					win = true
				}
			}
		}
	}
	s.c.Ob(lim && win, "violation-error", s.name, x.Pos, "the error returned does not carry the limit and window of the full strategy")
}

// ---- C04 ----

func slidingConfig(c *Ctx) {
	nctor := 0
	for _, n := range limiterTypes(c) {
		tn := n.Obj().Name()
		if !strings.Contains(tn, "Sliding") {
			continue
		}
		for _, ctor := range constructors(c.P, n) {
			nctor++
			insts, exits := instances(c, n, ctor, nil)
			name := ShortName(ctor)
			c.Ob(len(insts) > 0, "constructor", name, ctor.Pos(), "no path returns a limiter")
			in := NewInterp(c.P, nil)
			c.divisions(name, exits)
			c.noCallerStores(in, name, exits, nil)
			for _, x := range exits {
				if x.Kind == "return" && len(x.Res) == 2 {
					r, e := x.Res[0], x.Res[1]
					isErr := e.Op == "err" || x.Facts.Proves(Not(Eq(e, Nil)))
					isOK := e == Nil || x.Facts.Proves(Eq(e, Nil))
					c.Ob(isErr && r == Nil || isOK && r != Nil, "error-or-limiter", name, x.Pos, "a path returns %s with error %s", r, e)
				} else {
					c.Fail("error-or-limiter", name, x.Pos, "a path ends in %s", x.Kind)
				}
			}
			for _, ins := range insts {
				durs := paramsOfType(ctor, isDuration)
				f := ins.Exit.Facts
				pos := func(t *T, what string) {
					c.Ob(f.Proves(Ge0(Sub(t, Int(1)))), "positive-durations", name+" "+what, ins.Exit.Pos, "a limiter is returned although the %s may not be positive", what)
				}
				if len(durs) == 2 {
					pos(durs[0], "window")
					pos(durs[1], "small window")
					c.Ob(eqI(f, Rem(durs[0], durs[1]), Int(0)), "window-multiple", name, ins.Exit.Pos, "a limiter is returned although the window may not be a multiple of the small window")
					c.runDivisions(ins, nil)
					continue
				}
				if !c.Ob(len(durs) == 1, "roles", name, ctor.Pos(), "small window parameter not found") {
					continue
				}
				pos(durs[0], "small window")
				si, _, ok := c.strategies(ins)
				if !c.Ob(ok, "roles", name, ctor.Pos(), "strategies not found") {
					continue
				}
				c.strategyChecks(ins, si, durs[0])
				tm := c.elemTemplates(ins, si)
				c.runDivisions(ins, tm)
			}
		}
	}
	c.Need("sliding constructors", nctor, 2)
}

// divisions: every division on these exits is by a non-zero value.
func (c *Ctx) divisions(name string, exits []*Exit) {
	for _, e := range allEvents(exits) {
		if e.Kind == "ob" && e.Name == "div" {
			c.Ob(e.Facts.Proves(e.Val), "no-division-by-zero", name, e.Pos, "the divisor may be zero: %s is not known", e.Val)
			c.Add("divisions", 1)
		}
	}
}

func (c *Ctx) runDivisions(ins *instance, tm map[string]func(*T) *T) {
	for _, fn := range exportedMethods(c.P, ins.Type) {
		recv := Param(Body(fn), 0)
		hook, facts := ins.hook(recv)
		in := NewInterp(c.P, &Config{InitHook: hook})
		ex := in.Run(fn, facts...)
		c.Complete(in, fn)
		c.divisions(ShortName(fn), ex)
		c.noCallerStores(in, ShortName(fn), ex, recv)
		// the strategies reached through the limiter are shared objects: never written
		for _, e := range allEvents(ex) {
			if e.Kind == "store" && e.Args[0].Op == "field" {
				if p := e.Args[0].Args[0]; p != recv && origin(p) == recv && namedOf(p.Typ) != nil && namedOf(p.Typ).Obj() != ins.Type.Obj() {
					c.Fail("strategies-unmodified", ShortName(fn), e.Pos, "a call writes %s of a strategy", e.Args[0])
				}
			}
		}
	}
}

// noCallerStores: no store through a pointer or slice the caller passed.
func (c *Ctx) noCallerStores(in *Interp, name string, exits []*Exit, recv *T) {
	for _, e := range allEvents(exits) {
		if e.Kind != "store" && e.Kind != "astore" {
			continue
		}
		bad := callerOwned(in, e, e.Args[0], recv, 0)
		c.Ob(!bad, "arguments-unmodified", name, e.Pos, "%s is reachable from the caller's arguments and is written", e.Args[0])
	}
	for _, e := range allEvents(exits) {
		if e.Kind == "call" && (e.Name == "sort.Slice" || e.Name == "sort.SliceStable" || e.Name == "sort.Sort") {
			a := e.Args[0]
			if a.Op == "iface" {
				a = a.Args[0]
			}
			c.Ob(!callerOwned(in, e, BaseOf(a), recv, 0), "arguments-unmodified", name, e.Pos, "the caller's slice is sorted in place")
		}
	}
}

// callerOwned: the object addressed comes from a parameter (other than recv).
func callerOwned(in *Interp, e *Event, a *T, recv *T, depth int) bool {
	if depth > 6 {
		return true
	}
	switch a.Op {
	case "field", "elem", "cell", "has", "mlen", "base", "slice", "init", "getf":
		return callerOwned(in, e, a.Args[0], recv, depth)
	case "param":
		return a != recv
	case "hv":
		// content after a permutation: an element from before it; after a loop: whatever was stored
		addr := a.Args[0]
		if addr.Op == "elem" {
			if vs, ok := in.BeforeHavoc(e, a); ok {
				for _, v := range vs {
					if callerOwned(in, e, v, recv, depth+1) {
						return true
					}
				}
				return false
			}
		}
		if addr.Op == "field" { // scalar content of an object: owned as its object
			return callerOwned(in, e, addr, recv, depth+1)
		}
		return callerOwned(in, e, addr.Args[0], recv, depth+1)
	}
	return false
}

// strategyChecks: what every accepted strategy satisfies.
func (c *Ctx) strategyChecks(ins *instance, si *strategyInfo, small *T) {
	name := ShortName(ins.Ctor)
	f := ins.Exit.Facts
	slv := ins.Vals[c.strategiesKey(ins)]
	if !c.Ob(slv != nil, "roles", name, ins.Exit.Pos, "the limiter's strategies are not a single value") {
		return
	}
	c.Ob(f.Proves(Ge0(Sub(LenOf(slv), Int(1)))), "some-strategy", name, ins.Exit.Pos, "a limiter is returned although there may be no strategy")
	in := NewInterp(c.P, nil)
	st := si.typ.Underlying().(*types.Struct)
	get := func(s *State, j *T, i int) *T {
		et := slv.Typ.Underlying().(*types.Slice).Elem()
		p := in.LoadOne(s, Mk("elem", "", types.NewPointer(et), BaseOf(slv), Add(OffOf(slv), j)), et)
		if p == nil {
			return nil
		}
		return in.LoadOne(s, FieldAddr(p, si.typ, i), st.Field(i).Type())
	}
	var multiple, positive, shrink, sorted bool
	for _, e := range ins.Exit.Ev.List() {
		if e.Kind == "call" && (e.Name == "sort.Slice" || e.Name == "sort.SliceStable") {
			sorted = c.sortsByWindow(in, e, si)
			shrink = false // a permutation keeps what holds of every element, not what holds of neighbours
		}
		if e.Kind != "loop" || len(e.Loop.Back) == 0 {
			continue
		}
		i := e.Loop.Iota
		if f.Proves(Le(LenOf(slv), Add(i, Int(1)))) { // a loop over the neighbours i and i+1
			s := true
			for _, b := range e.Loop.Back {
				l1, l0 := get(b, Add(i, Int(1)), si.limitI), get(b, i, si.limitI)
				s = s && l1 != nil && l0 != nil && b.Facts.Proves(Lt(l1, l0))
			}
			shrink = shrink || s
		}
		if !f.Proves(Le(LenOf(slv), i)) {
			continue
		}
		m, p, s := true, true, true
		for _, b := range e.Loop.Back {
			w := get(b, i, si.winI)
			if w == nil {
				m, p, s = false, false, false
				break
			}
			m = m && eqI(b.Facts, Rem(w, small), Int(0))
			p = p && b.Facts.Proves(Ge0(Sub(w, Int(1))))
			if !b.Facts.Proves(Le(i, Int(0))) {
				l1, l0 := get(b, i, si.limitI), get(b, Sub(i, Int(1)), si.limitI)
				s = s && l1 != nil && l0 != nil && b.Facts.Proves(Lt(l1, l0))
			}
		}
		multiple, positive, shrink = multiple || m, positive || p, shrink || s
	}
	c.Ob(multiple, "window-multiple", name, ins.Exit.Pos, "a limiter is returned although a strategy's window may not be a multiple of the small window")
	c.Ob(positive, "positive-durations", name+" strategy window", ins.Exit.Pos, "a limiter is returned although a strategy's window may not be positive")
	c.Ob(shrink, "limits-shrink", name, ins.Exit.Pos, "a limiter is returned although a strategy's limit may not be below that of the next longer window")
	c.Ob(sorted, "sorted-by-window", name, ins.Exit.Pos, "the strategies are not ordered from the longest to the shortest window before they are compared")
}

// sortsByWindow: the comparator puts longer windows first.
func (c *Ctx) sortsByWindow(in *Interp, e *Event, si *strategyInfo) bool {
	cl := e.Args[1]
	if cl.Fn == nil || e.Args[0].Op != "iface" {
		return false
	}
	slv := e.Args[0].Args[0]
	args := Params(cl.Fn)
	if len(args) != 2 {
		return false
	}
	ex := splitBool(in, in.RunArgs(cl.Fn, args, cl.Args, e.Mem, e.Facts.List()...))
	st := si.typ.Underlying().(*types.Struct)
	ok := len(ex) > 0
	for _, x := range ex {
		if x.Kind != "return" {
			return false
		}
		get := func(j *T) *T {
			et := slv.Typ.Underlying().(*types.Slice).Elem()
			p := in.LoadOne(x.State, Mk("elem", "", types.NewPointer(et), BaseOf(slv), Add(OffOf(slv), j)), et)
			if p == nil {
				return nil
			}
			return in.LoadOne(x.State, FieldAddr(p, si.typ, si.winI), st.Field(si.winI).Type())
		}
		wi, wj := get(args[0]), get(args[1])
		if wi == nil || wj == nil {
			return false
		}
		if x.Res[0] == True {
			ok = ok && x.Facts.Proves(Le(wj, wi))
		} else {
			ok = ok && x.Facts.Proves(Le(wi, wj))
		}
	}
	return ok
}
