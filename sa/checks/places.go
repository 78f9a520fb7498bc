package checks

import (
	. "verif/sa/eng"
)

// wterm is a field of a wheel at an event.
func (m *tm) wterm(e *Event, w *T, i int) *T { return m.at(e, w, m.wheel.nt, i) }

// proveW proves a goal with the invariants of a wheel.
func (m *tm) proveW(e *Event, f *FactNode, w, goal *T) bool {
	if f.Proves(goal) {
		return true
	}
	if w.Op != "alloc" {
		for _, g := range append(m.inv(w), m.invAt(w, func(i int) *T { return m.wterm(e, w, i) })...) {
			f = f.With(g)
		}
	}
	return f.Proves(goal)
}

// clockReads are the readings of a wheel's clock before event i.
func (m *tm) clockReads(evs []*Event, i int, w *T) []*T {
	var out []*T
	for _, e := range evs[:i] {
		if e.Kind == "aload" && isCell(e.Args[0], m.wheel.nt, m.wheel.clock) == w {
			out = append(out, e.Res[0])
		}
	}
	return out
}

// full is the whole event history of a unit: for an iteration, with what came before the loop.
func (u *unit) full() []*Event {
	if u.back != nil {
		return u.back.Ev.List()
	}
	return u.evs
}

// dues are the expirations of timers known at an event: those of timers looked at so far.
func (m *tm) dues(evs []*Event, e *Event) []*T {
	var out []*T
	seen := map[*T]bool{}
	for _, x := range evs {
		for _, a := range x.Args {
			t := isCell(a, m.timer.nt, m.timer.exp)
			if t == nil || seen[t] {
				continue
			}
			seen[t] = true
			if v := m.at(e, t, m.timer.nt, m.timer.exp); v != nil {
				out = append(out, v)
			}
		}
	}
	return out
}

// tooSoon: the expiration is within one tick of a clock reading.
func (m *tm) tooSoon(evs []*Event, i int, f *FactNode, exp *T) bool {
	for _, e := range evs[:i] {
		if e.Kind != "aload" {
			continue
		}
		if w := isCell(e.Args[0], m.wheel.nt, m.wheel.clock); w != nil {
			if m.proveW(e, f, w, Lt(exp, Add(e.Res[0], m.wterm(e, w, m.wheel.tick)))) {
				return true
			}
		}
	}
	return false
}

// beyond: the expiration is not within the span of the wheel.
func (m *tm) beyond(evs []*Event, i int, f *FactNode, w, exp *T) bool {
	for _, ct := range m.clockReads(evs, i, w) {
		e := evs[i-1]
		if m.proveW(e, f, w, Le(Add(ct, Mul(m.wterm(e, w, m.wheel.tick), m.wterm(e, w, m.wheel.size))), exp)) {
			return true
		}
	}
	return false
}

// placing decides C10.
func (m *tm) placing() {
	c := m.c
	m.wruns()
	m.findTravs()
	m.constructed()
	for _, r := range m.wruns() {
		m.immutable(r)
		for _, u := range r.units() {
			if u.x != nil && u.x.Kind != "return" {
				continue
			}
			m.placeUnit(u)
			m.clockUnitOf(u)
		}
	}
	m.delays()
	c.Add("functions", len(m.wruns()))
}

// constructed: a new wheel's clock is the current time cut to whole ticks.
func (m *tm) constructed() {
	c, w := m.c, m.wheel
	ps := Params(m.newFn)
	unit := m.clockUnit()
	for _, x := range m.newExits {
		if x.Kind != "return" || x.Res[0].Op != "alloc" {
			continue
		}
		c.Add("constructor paths", 1)
		ok := false
		v := m.in.LoadOne(x.State, FieldAddr(x.Res[0], w.nt, w.clock), cellType(m.fieldT(w.nt, w.clock)))
		for _, n := range clocks(x.Ev.List()) {
			if unit > 0 {
				k := inUnits(n, unit)
				ok = ok || v == Sub(k, Rem(k, ps[0]))
			}
		}
		c.Ob(ok, "clock-starts-now", ShortName(m.newFn), x.Pos, "a new wheel's clock is %v, not the current time cut to whole ticks", v)
		q := m.in.LoadOne(x.State, FieldAddr(x.Res[0], w.nt, w.queue), m.fieldT(w.nt, w.queue))
		c.Ob(q != nil && x.Facts.Proves(Not(Eq(q, Nil))) || q != nil && q.Op == "alloc", "queue-made", ShortName(m.newFn), x.Pos, "a new wheel has no queue")
	}
}

// immutable: tick, size, span, slots and queue of a wheel are never changed.
func (m *tm) immutable(r *trun) {
	w := m.wheel
	for _, e := range allEvents(r.exits) {
		if e.Kind != "store" && e.Kind != "astore" && e.Kind != "aswap" {
			continue
		}
		for _, i := range []int{w.tick, w.size, w.span, w.slots, w.queue} {
			if i < 0 {
				continue
			}
			if o := isCell(e.Args[0], w.nt, i); o != nil {
				m.c.Ob(o.Op == "alloc", "wheel-fixed", r.name, e.Pos, "%s of a wheel in use is changed", e.Args[0].Aux)
			}
		}
		if a := e.Args[0]; a.Op == "elem" && a.Args[0].Op == "base" {
			if s := a.Args[0].Args[0]; s.Op == "init" || s.Op == "hv" {
				m.c.Ob(isCell(s.Args[0], w.nt, w.slots) == nil, "wheel-fixed", r.name, e.Pos, "a slot of a wheel in use is replaced")
			}
		}
		if o := isCell(e.Args[0], w.nt, w.over); o != nil && o.Op != "alloc" {
			m.c.Fail("overflow-once", r.name, e.Pos, "the overflow wheel is replaced without checking that there is none: timers in it would be lost")
		}
	}
}

// delays: AfterFunc's timer is due when the delay is over.
func (m *tm) delays() {
	c, t := m.c, m.timer
	n := 0
	for _, r := range m.runs() {
		if r.gor || r.fn.Name() != "AfterFunc" {
			continue
		}
		unit := m.clockUnit()
		ps := Params(r.fn)
		for _, x := range r.exits {
			if x.Kind != "return" || len(x.Res) != 1 || x.Res[0] == Nil {
				continue
			}
			n++
			ok := false
			v := m.in.LoadOne(x.State, FieldAddr(x.Res[0], t.nt, t.exp), m.fieldT(t.nt, t.exp))
			for _, k := range clocks(x.Ev.List()) {
				ok = ok || unit > 0 && v == inUnits(Add(k, ps[1]), unit)
			}
			c.Ob(ok, "due-after-delay", r.name, x.Pos, "the timer's expiration is %v, not now plus the delay", v)
		}
	}
	c.Add("delays", n)
}

func (m *tm) placeUnit(u *unit) {
	c, r, w, t := m.c, u.r, m.wheel, m.timer
	evs := u.full()
	base := len(evs) - len(u.evs)
	hs := m.hands(u.evs, m.tasksOf(u))
	for _, h := range hs {
		i, e := base+h.i, h.e
		if h.t == nil || !m.isTimer(h.t) {
			continue
		}
		exp := m.at(e, h.t, t.nt, t.exp)
		switch h.kind {
		case "insert":
			c.Add("insertions", 1)
			m.insertAt(u, evs, i, h, exp)
		case "rec":
			s := m.sums[FuncName(e.Val.Fn)]
			if s == nil || s.wheel < 0 {
				c.Fail("overflow-known", r.name, e.Pos, "a timer is passed to a function that takes no wheel")
				continue
			}
			c.Add("overflows", 1)
			next := e.Args[s.wheel]
			from := m.overOf(evs[:i], next)
			if !c.Ob(from != nil, "overflow-known", r.name, e.Pos, "a timer is passed to a wheel that is not the overflow wheel of this one") {
				continue
			}
			c.Ob(m.beyond(evs, i, e.Facts, from, exp), "overflow-only-beyond-span", r.name, e.Pos, "a timer is passed to the overflow wheel although it may be due within this wheel's span")
		case "go":
			c.Add("immediate runs", 1)
			c.Ob(m.tooSoon(evs, i, u.fin, exp) || m.refused(hs, h, u.fin), "run-only-when-due", r.name, e.Pos, "a task is run at once although its timer may not be due within a tick of the wheel's clock")
		}
	}
	for i, e := range u.evs {
		switch {
		case e.Kind == "acas" && e.Name == "ok":
			if o := isCell(e.Args[0], w.nt, w.over); o != nil {
				c.Add("overflow wheels made", 1)
				m.newOverflow(u, evs, base+i, o)
			}
		}
	}
	// a loop over the wheels goes on to the overflow wheel only beyond the span
	if u.rec != nil {
		for _, p := range u.rec.Phis {
			cur := u.rec.Cur[p]
			if !m.isWheel(cur) || m.advances(u) {
				continue
			}
			nv := m.in.BackVal(u.rec, u.back, p)
			if nv == cur {
				continue
			}
			c.Add("overflows", 1)
			if !c.Ob(nv != nil && m.overOf(u.evs, nv) == cur, "overflow-known", r.name, u.rec.Pos, "the search goes on in a wheel that is not the overflow wheel of this one") {
				continue
			}
			ok := false
			for _, exp := range m.dues(evs, evs[len(evs)-1]) {
				ok = ok || m.beyond(evs, len(evs), u.fin, cur, exp)
			}
			c.Ob(ok, "overflow-only-beyond-span", r.name, u.rec.Pos, "a timer is passed to the overflow wheel although it may be due within this wheel's span")
		}
	}
	// a refusal means due
	if r.rec && u.x != nil {
		if s := m.sums[FuncName(r.fn)]; s.timer >= 0 && s.wheel >= 0 {
			ps := Params(r.fn)
			if m.count(hs, ps[s.timer], u.fin) == 0 {
				exp := m.in.LoadOne(u.x.State, FieldAddr(ps[s.timer], t.nt, t.exp), m.fieldT(t.nt, t.exp))
				c.Ob(m.tooSoon(evs, len(evs), u.fin, exp) || m.refused(hs, hand{t: ps[s.timer]}, u.fin), "run-only-when-due", r.name, u.x.Pos, "a timer is refused although it may not be due within a tick of the wheel's clock")
			}
		}
	}
}

// tasksOf are the function values known to be tasks of timers in a unit.
func (m *tm) tasksOf(u *unit) map[*T]*T {
	known := map[*T]*T{}
	if u.r.task != nil {
		known[u.r.task] = u.r.timer
	}
	for _, e := range u.full() {
		if e.Kind == "store" && e.Val != nil {
			if t := isCell(e.Args[0], m.timer.nt, m.timer.task); t != nil {
				known[e.Val] = t
			}
		}
	}
	return known
}

// refused: a recursive call before said the timer was not placed.
func (m *tm) refused(hs []hand, h hand, f *FactNode) bool {
	for _, x := range hs {
		if x.kind == "rec" && x.t == h.t && m.count([]hand{x}, x.t, f) == 0 {
			return true
		}
	}
	return false
}

// advances: the iteration moves the wheels' clocks.
func (m *tm) advances(u *unit) bool {
	for _, e := range u.evs {
		if m.clockStore(e) != nil {
			return true
		}
	}
	return false
}

func (m *tm) clockStore(e *Event) *T {
	if e.Kind == "astore" || e.Kind == "aswap" || e.Kind == "acas" && e.Name == "ok" || e.Kind == "aadd" || e.Kind == "store" {
		if o := isCell(e.Args[0], m.wheel.nt, m.wheel.clock); o != nil && o.Op != "alloc" {
			return o
		}
	}
	return nil
}

// overOf is the wheel whose overflow wheel the value was seen to be.
func (m *tm) overOf(evs []*Event, v *T) *T {
	for j := len(evs) - 1; j >= 0; j-- {
		e := evs[j]
		switch e.Kind {
		case "aload":
			if o := isCell(e.Args[0], m.wheel.nt, m.wheel.over); o != nil && e.Res[0] == v {
				return o
			}
		case "acas":
			if o := isCell(e.Args[0], m.wheel.nt, m.wheel.over); o != nil && (e.Name == "ok" && e.Val == v) {
				return o
			}
		}
	}
	return nil
}

// insertAt: the timer's slot is that of its expiration tick.
func (m *tm) insertAt(u *unit, evs []*Event, i int, h hand, exp *T) {
	c, r, w, e := m.c, u.r, m.wheel, h.e
	b := m.slotOf(e.Args[0])
	wh, idx := m.wheelOf(b)
	if !c.Ob(wh != nil && exp != nil, "slot-of-wheel", r.name, e.Pos, "the timer is put into something that is not a slot of a wheel") {
		return
	}
	tick, size := m.wterm(e, wh, w.tick), m.wterm(e, wh, w.size)
	f := e.Facts
	ticks := Quo(exp, tick)
	ok := false
	for _, want := range []*T{Rem(ticks, size), Quo(Rem(exp, Mul(tick, size)), tick)} {
		ok = ok || idx == want || m.proveW(e, f, wh, EqInt(idx, want))
	}
	if w.span >= 0 && !ok {
		ok = idx == Quo(Rem(exp, m.wterm(e, wh, w.span)), tick)
	}
	c.Ob(ok, "slot-matches", r.name, e.Pos, "the timer is put into slot %v, not into that of its expiration's tick", idx)
	lo, hi := false, false
	for _, ct := range m.clockReads(evs, i, wh) {
		lo = lo || m.proveW(e, f, wh, Le(Add(ct, tick), exp))
		hi = hi || m.proveW(e, f, wh, Lt(exp, Add(ct, Mul(tick, size))))
	}
	c.Ob(lo, "not-yet-due", r.name, e.Pos, "a timer due within the current tick is put into a slot instead of being run")
	c.Ob(hi, "within-span", r.name, e.Pos, "a timer due beyond the wheel's span is put into one of its slots")
	// the slot is due at the start of that tick
	set := false
	for _, x := range evs {
		if (x.Kind != "aswap" && x.Kind != "acas" && x.Kind != "astore") || isCell(x.Args[0], m.bucket.nt, m.bucket.exp) != b {
			continue
		}
		v := x.Val
		if x.Kind == "acas" {
			v = x.Args[2]
		}
		set = true
		c.Ob(v == Mul(tick, ticks) || m.proveW(x, x.Facts, wh, EqInt(v, Mul(tick, ticks))), "slot-due-at-tick", r.name, x.Pos, "the slot is made due at %v, not at the start of its tick", v)
	}
	c.Ob(set, "slot-due-at-tick", r.name, e.Pos, "the slot's due time is not set")
}

// newOverflow: an overflow wheel is made once, one level coarser, and keeps the wheel's time.
func (m *tm) newOverflow(u *unit, evs []*Event, i int, o *T) {
	c, r, w, e := m.c, u.r, m.wheel, evs[i]
	v := e.Val
	if !c.Ob(e.Args[1] == Nil, "overflow-once", r.name, e.Pos, "the overflow wheel may be replaced: timers in it would be lost") ||
		!c.Ob(v != nil && v.Op == "alloc" && m.isWheel(v), "overflow-new", r.name, e.Pos, "the overflow wheel is not a new wheel") {
		return
	}
	tick, size := m.wterm(e, v, w.tick), m.wterm(e, v, w.size)
	c.Ob(m.proveW(e, e.Facts, o, EqInt(tick, Mul(m.wterm(e, o, w.tick), m.wterm(e, o, w.size)))), "overflow-tick", r.name, e.Pos, "the overflow wheel's tick is %v, not this wheel's span", tick)
	c.Ob(size == m.wterm(e, o, w.size), "overflow-size", r.name, e.Pos, "the overflow wheel's size is %v, not this wheel's", size)
	if w.span >= 0 {
		sp := m.wterm(e, v, w.span)
		c.Ob(m.proveW(e, e.Facts, o, EqInt(sp, Mul(tick, size))), "overflow-span", r.name, e.Pos, "the overflow wheel's span is %v", sp)
	}
	c.Ob(m.wterm(e, v, w.queue) == m.wterm(e, o, w.queue), "overflow-queue", r.name, e.Pos, "the overflow wheel does not use this wheel's queue")
	ct := m.wterm(e, v, w.clock)
	ok := false
	for _, k := range m.clockReads(evs, i, o) {
		ok = ok || ct == Sub(k, Rem(k, tick)) || m.proveW(e, e.Facts, o, EqInt(ct, Sub(k, Rem(k, tick))))
	}
	c.Ob(ok, "overflow-clock", r.name, e.Pos, "the overflow wheel's clock starts at %v, not at this wheel's time cut to whole ticks", ct)
	st := m.stateAt(u, i)
	c.Ob(st != nil && m.sentinel(st, v, size) == m.bucket.idle, "overflow-slots", r.name, e.Pos, "the overflow wheel does not have a new, idle slot for each index")
}

// stateAt is the state at the end of the unit, where objects made before are as they were.
func (m *tm) stateAt(u *unit, i int) *State {
	if u.x != nil {
		return u.x.State
	}
	return u.back
}

// clockUnitOf: the clock moves forward in whole ticks and takes the overflow wheels along, before
// the slot that came due is processed.
func (m *tm) clockUnitOf(u *unit) {
	c, r, w := m.c, u.r, m.wheel
	evs := u.full()
	base := len(evs) - len(u.evs)
	var targets []*T // times the clock may be moved to
	for _, e := range evs {
		if e.Kind == "aload" && isCell(e.Args[0], m.bucket.nt, m.bucket.exp) != nil {
			targets = append(targets, e.Res[0])
		}
	}
	for _, p := range Params(r.fn) {
		if p.Typ != nil && isInt64(p.Typ) {
			targets = append(targets, p)
		}
	}
	if u.rec != nil {
		for _, p := range u.rec.Phis {
			if t := u.rec.Cur[p]; t != nil && t.Typ != nil && isInt64(t.Typ) {
				targets = append(targets, t)
			}
		}
	}
	moved := map[*T]*T{} // wheel -> the time it was moved to
	movedAt := map[*T]int{}
	for i, e := range u.evs {
		wh := m.clockStore(e)
		if wh == nil {
			continue
		}
		c.Add("clock moves", 1)
		tick := m.wterm(e, wh, w.tick)
		x := e.Val
		if !c.Ob(e.Kind != "aadd" && e.Kind != "store", "clock-atomic", r.name, e.Pos, "the clock is moved in a way this analysis does not follow") {
			continue
		}
		if e.Kind == "acas" {
			x = e.Args[2]
		}
		var to *T
		for _, t := range targets {
			whole := x == Sub(t, Rem(t, tick)) || m.proveW(e, e.Facts, wh, EqInt(x, Sub(t, Rem(t, tick))))
			fwd := false
			for _, ct := range m.clockReads(evs, base+i, wh) {
				fwd = fwd || m.proveW(e, e.Facts, wh, Le(Add(ct, tick), t))
			}
			if whole && fwd {
				to = t
			}
		}
		if !c.Ob(to != nil, "clock-whole-ticks-forward", r.name, e.Pos, "the clock is set to %v, which is not shown to be a later time cut to whole ticks", x) {
			continue
		}
		moved[wh] = to
		movedAt[wh] = i
		// the overflow wheel follows
		ok := false
		for j, y := range u.evs {
			if y.Kind != "aload" || isCell(y.Args[0], w.nt, w.over) != wh {
				continue
			}
			ov := y.Res[0]
			if u.fin.Proves(Eq(ov, Nil)) {
				ok = true
			}
			for _, z := range u.evs[j:] {
				if z.Kind == "reccall" && m.sums[FuncName(z.Val.Fn)] != nil {
					s := m.sums[FuncName(z.Val.Fn)]
					if s.timer < 0 && s.wheel >= 0 && s.when >= 0 && z.Args[s.wheel] == ov && (z.Args[s.when] == x || z.Args[s.when] == to) {
						ok = true
					}
				}
			}
			if u.rec != nil {
				for _, p := range u.rec.Phis {
					if u.rec.Cur[p] == wh && m.in.BackVal(u.rec, u.back, p) == ov {
						ok = true
						for _, q := range u.rec.Phis {
							if t := u.rec.Cur[q]; t == to {
								nv := m.in.BackVal(u.rec, u.back, q)
								ok = nv == to || nv == x
							}
						}
					}
				}
			}
		}
		if u.x != nil && !ok {
			// the last wheel of a loop over the wheels
			ok = false
		}
		c.Ob(ok, "overflow-follows", r.name, e.Pos, "the clock of the overflow wheel is not moved along")
	}
	// functions that move clocks: not moving means there was nothing to move
	if r.rec && u.x != nil && u.x.Kind == "return" {
		if s := m.sums[FuncName(r.fn)]; s.timer < 0 && s.wheel >= 0 && s.when >= 0 {
			c.Add("clock paths", 1)
			ps := Params(r.fn)
			m.moveOrStay(u, evs, len(evs), ps[s.wheel], []*T{ps[s.when]}, moved[ps[s.wheel]], "")
		}
	}
	i, b := m.received(u)
	if b == nil {
		return
	}
	_, _, ts := m.traversals(u, i, b)
	if len(ts) == 0 {
		return // C08
	}
	c.Add("expiries", 1)
	from, _ := -1, -1
	for j, rec := range loopsIn(u.evs) {
		if rec == ts[0].rec {
			from = j
		}
	}
	var due []*T
	for j, e := range u.evs {
		if j > i && j < from && e.Kind == "aload" && isCell(e.Args[0], m.bucket.nt, m.bucket.exp) == b {
			due = append(due, e.Res[0])
		}
	}
	if !c.Ob(len(due) > 0, "clock-before-slot", r.name, u.evs[i].Pos, "a slot is processed without the clock being moved to its due time first") {
		return
	}
	wh := Params(r.fn)[0]
	for k, at := range movedAt {
		if at > from {
			delete(moved, k)
			c.Fail("clock-before-slot", r.name, u.evs[at].Pos, "the clock is moved after the slot's timers were handed on")
		}
	}
	m.moveOrStay(u, evs, base+from, wh, due, moved[wh], "before the slot is processed")
}

// moveOrStay: the clock was moved to the time, or the time is within the current tick.
func (m *tm) moveOrStay(u *unit, evs []*Event, n int, wh *T, due []*T, to *T, when string) {
	ok := false
	for _, d := range due {
		ok = ok || to == d
		for _, e := range evs[:n] {
			if e.Kind == "aload" && isCell(e.Args[0], m.wheel.nt, m.wheel.clock) == wh {
				ok = ok || m.proveW(e, u.fin, wh, Lt(d, Add(e.Res[0], m.wterm(e, wh, m.wheel.tick))))
			}
		}
		// a loop over the wheels starts with this one
		for _, e := range evs[:n] {
			if e.Kind == "loop" && e.Loop != nil {
				ok = ok || m.movesAll(e.Loop, wh, d)
			}
		}
	}
	pos := u.r.fn.Pos()
	if u.rec != nil {
		pos = u.rec.Pos
	}
	m.c.Ob(ok, "clock-reaches-due-time", u.r.name, pos, "the clock is neither moved to the slot's due time nor already within a tick of it %s", when)
}

// movesAll: a loop that starts with a wheel and a time moves the clocks of it and its overflow
// wheels as far as they are behind.
func (m *tm) movesAll(rec *LoopRec, wh, due *T) bool {
	for _, p := range rec.Phis {
		cur := rec.Cur[p]
		if rec.Init[p] != wh || !m.isWheel(cur) {
			continue
		}
		ok := len(rec.Back) > 0
		for _, b := range rec.Back {
			mv := false
			for _, e := range backEvents(rec, b) {
				mv = mv || m.clockStore(e) == cur
			}
			ok = ok && mv
		}
		for _, x := range rec.Exits {
			end := x.Facts.Proves(Eq(cur, Nil))
			var ds []*T
			ds = append(ds, due)
			for _, q := range rec.Phis {
				if rec.Init[q] == due {
					ds = append(ds, rec.Cur[q])
				}
			}
			for _, e := range x.Ev.List() {
				if e.Kind == "aload" && isCell(e.Args[0], m.wheel.nt, m.wheel.clock) == cur {
					for _, d := range ds {
						end = end || m.proveW(e, x.Facts, cur, Lt(d, Add(e.Res[0], m.wterm(e, cur, m.wheel.tick))))
					}
				}
				if m.clockStore(e) == cur {
					// moved, and no overflow wheel left
					for _, y := range x.Ev.List() {
						if y.Kind == "aload" && isCell(y.Args[0], m.wheel.nt, m.wheel.over) == cur {
							end = end || x.Facts.Proves(Eq(y.Res[0], Nil))
						}
					}
				}
			}
			ok = ok && end
		}
		if ok {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{ID: "C10", Title: "Timers are placed in the slot matching their expiration", Level: "other",
		Rule:   "AfterFunc's timer is due now plus the delay; a timer is put into slot expiration/tick mod size of a wheel, only if clock+tick <= expiration < clock+tick*size for a reading of that wheel's clock, and the slot is marked due at the start of that tick; a timer is run at once or refused only if expiration < clock+tick, passed on only to the overflow wheel and only if it is beyond the span; an overflow wheel is made once (compare-and-swap from nil) with tick = span, same size and queue, clock cut to whole ticks and idle slots; clocks move only forward by at least a tick, to whole ticks, atomically, to the due time of the slot received, before its timers are handed on, and each move carries the overflow wheel along; tick, size, slots and queue of a wheel never change",
		Tech:   "disjunctive relational abstract interpretation of Go SSA: linear and quotient/remainder facts on expirations, ticks and clock readings at every placement, clock store and overflow creation; monotone rely on the clock",
		Note:   "ticks and wheel sizes are at least 1 (0 divides by zero; with one slot every timer beyond it needs one more overflow wheel); integers do not wrap; a goroutine stalled between choosing a slot and marking it can find the slot reused for a later round, which this check does not rule out",
		Assume: []string{"expirations are non-negative"},
		Run: func(c *Ctx) {
			m := newTimers(c, wheelDir)
			if !m.wheelLayout() {
				return
			}
			m.placing()
			c.Need("insertions", c.Counts["insertions"], 1)
			c.Need("overflows", c.Counts["overflows"], 1)
			c.Need("overflow wheels made", c.Counts["overflow wheels made"], 1)
			c.Need("immediate runs", c.Counts["immediate runs"], 1)
			c.Need("clock moves", c.Counts["clock moves"], 1)
			c.Need("expiries", c.Counts["expiries"], 1)
			c.Need("delays", c.Counts["delays"], 1)
		}})
}
