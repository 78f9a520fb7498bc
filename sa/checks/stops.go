package checks

import (
	"go/types"

	. "verif/sa/eng"
)

// owned lists the stores to a timer's record of its slot and list position.
func (m *tm) linkStore(e *Event) (t *T, field int) {
	if e.Kind != "store" && e.Kind != "astore" && e.Kind != "aswap" && !(e.Kind == "acas" && e.Name == "ok") {
		return nil, -1
	}
	for _, f := range []int{m.timer.owner, m.timer.elem} {
		if o := isCell(e.Args[0], m.timer.nt, f); o != nil {
			return o, f
		}
	}
	return nil, -1
}

// stopping decides C09.
func (m *tm) stopping() {
	c := m.c
	m.wruns()
	m.findTravs()
	for _, r := range m.wruns() {
		for _, u := range r.units() {
			if u.x != nil && u.x.Kind != "return" {
				continue
			}
			m.linkUnit(u)
		}
		if !r.gor && !r.rec && r.timer == nil && r.fn.Signature.Recv() != nil && m.isTimer(Params(r.fn)[0]) {
			rs := r.fn.Signature.Results()
			if rs.Len() == 1 && types.Identical(rs.At(0).Type(), types.Typ[types.Bool]) {
				c.Add("stopping functions", 1)
				m.stopFn(r)
			}
		}
	}
}

// linkUnit: links are set when a timer enters a slot and cleared when it leaves, under the lock of
// the slot, and never otherwise.
func (m *tm) linkUnit(u *unit) {
	c, r, tl, bl := m.c, u.r, m.timer, m.bucket
	ok := map[int]bool{} // explained stores
	for i, e := range u.evs {
		if e.Kind != "list" || len(e.Args) < 2 {
			continue
		}
		b := m.slotOf(e.Args[0])
		switch {
		case e.Name == "insert" && m.isTimer(e.Args[1]):
			t := e.Args[1]
			c.Add("insertions", 1)
			if !c.Ob(b != nil, "slot-known", r.name, e.Pos, "the list the timer is put into is not that of a slot") {
				continue
			}
			from, to := region(u.evs, i, FieldAddr(b, bl.nt, bl.mu))
			if !c.Ob(from >= 0 && to > i, "enter-under-lock", r.name, e.Pos, "a timer enters a slot without the slot's lock") {
				continue
			}
			end := u.evs[to]
			c.Ob(m.at(end, t, tl.nt, tl.owner) == b, "owner-set", r.name, e.Pos, "when the slot is unlocked, the timer does not name the slot it is in")
			c.Ob(m.at(end, t, tl.nt, tl.elem) == e.Res[0], "position-set", r.name, e.Pos, "when the slot is unlocked, the timer does not know its place in the slot's list")
			for j := from; j < to; j++ {
				if o, f := m.linkStore(u.evs[j]); o == t && (f == tl.owner && u.evs[j].Val == b || f == tl.elem && u.evs[j].Val == e.Res[0]) {
					ok[j] = true
				}
			}
			// a timer that comes from another slot no longer names that one
			if tv := m.travOf(u); tv != nil && tv.val == t {
				m.detached(u, from, t)
			}
		case (e.Name == "Remove") && b != nil && m.travOf(u) == nil:
			c.Add("removals", 1)
			from, to := region(u.evs, i, FieldAddr(b, bl.nt, bl.mu))
			if !c.Ob(from >= 0 && to > i, "remove-under-lock", r.name, e.Pos, "a timer is taken out of a slot without the slot's lock") {
				continue
			}
			t := m.timerOf(u, from, i, e.Args[1])
			if !c.Ob(t != nil, "remove-own-position", r.name, e.Pos, "the element removed is not the recorded position of a timer") {
				continue
			}
			read := false
			for j := from; j < i; j++ {
				x := u.evs[j]
				if x.Kind == "aload" && isCell(x.Args[0], tl.nt, tl.owner) == t && (x.Res[0] == b || e.Facts.Proves(Eq(x.Res[0], b))) {
					read = true
				}
			}
			c.Ob(read, "remove-from-owner", r.name, e.Pos, "a timer is removed from a slot without it being checked, under the slot's lock, that the slot owns it")
			end := u.evs[to]
			c.Ob(m.at(end, t, tl.nt, tl.owner) == Nil, "owner-cleared", r.name, e.Pos, "after the removal the timer still names the slot")
			c.Ob(m.at(end, t, tl.nt, tl.elem) == Nil, "position-cleared", r.name, e.Pos, "after the removal the timer still names its place in the list")
			for j := from; j < to; j++ {
				if o, _ := m.linkStore(u.evs[j]); o == t && u.evs[j].Val == Nil {
					ok[j] = true
				}
			}
		}
	}
	if tv := m.travOf(u); tv != nil && tv.val != nil {
		handed := false
		for i, e := range u.evs {
			if o, _ := m.linkStore(e); o == tv.val && e.Val == Nil && !handed {
				ok[i] = true
			}
			for _, h := range m.hands(u.evs[i:i+1], nil) {
				handed = true
				if h.kind != "insert" {
					m.detached(u, i, tv.val)
				}
			}
		}
	}
	for i, e := range u.evs {
		o, f := m.linkStore(e)
		if o == nil || o.Op == "alloc" && e.Val == Nil {
			continue
		}
		name := "slot"
		if f == tl.elem {
			name = "list position"
		}
		c.Add("link updates", 1)
		c.Ob(ok[i], "links-in-step", r.name, e.Pos, "a timer's record of its %s is changed although it neither enters nor leaves a slot there", name)
	}
}

// travOf is the traversal a unit is an iteration of.
func (m *tm) travOf(u *unit) *trav {
	if u.rec == nil {
		return nil
	}
	return m.travs[u.rec]
}

// detached: when an expired timer is handed on it names no slot any more.
func (m *tm) detached(u *unit, i int, t *T) {
	e := u.evs[i]
	// the insertion itself sets the new links afterwards
	m.c.Ob(m.at(e, t, m.timer.nt, m.timer.owner) == Nil, "left-old-slot", u.r.name, e.Pos, "an expired timer is handed on while it still names the slot it left: a Stop would claim to have stopped it")
	m.c.Ob(m.at(e, t, m.timer.nt, m.timer.elem) == Nil, "left-old-slot", u.r.name, e.Pos, "an expired timer is handed on while it still names its place in the slot it left")
}

// timerOf is the timer whose recorded position, read since the slot was locked, is the given element.
func (m *tm) timerOf(u *unit, from, i int, elem *T) *T {
	for j := i; j >= from && j >= 0; j-- {
		x := u.evs[j]
		if x.Kind == "load" {
			if t := isCell(x.Args[0], m.timer.nt, m.timer.elem); t != nil && m.at(u.evs[i], t, m.timer.nt, m.timer.elem) == elem {
				return t
			}
		}
	}
	return nil
}

// removes: the unit takes the timer out of its slot.
func (m *tm) removes(evs []*Event) int {
	n := 0
	for _, e := range evs {
		if e.Kind == "list" && e.Name == "Remove" && m.slotOf(e.Args[0]) != nil {
			n++
		}
	}
	return n
}

// stopFn: the result is true exactly if this call removed the timer.
func (m *tm) stopFn(r *trun) {
	c := m.c
	t := Params(r.fn)[0]
	loops := loopsOf(r.exits)
	inLoops := 0
	for _, rec := range loops {
		for _, b := range rec.Back {
			k := m.removes(backEvents(rec, b))
			inLoops += k
			c.Ob(k <= 1, "removed-once", r.name, rec.Pos, "an iteration removes the timer more than once")
		}
	}
	trues, falses := 0, 0
	var exits []*Exit
	for _, x := range r.exits {
		phi := false
		for _, rec := range loops {
			for _, p := range rec.Phis {
				phi = phi || x.Kind == "return" && rec.Cur[p] == x.Res[0]
			}
		}
		if phi {
			exits = append(exits, x)
		} else {
			exits = append(exits, splitBool(m.in, []*Exit{x})...)
		}
	}
	for _, x := range exits {
		if x.Kind != "return" {
			c.Fail("no-panic", r.name, x.Pos, "stopping a timer may panic: %v", x.Val)
			continue
		}
		evs := x.Ev.List()
		k := m.removes(evs)
		v := x.Res[0]
		switch v {
		case True:
			trues++
			c.Ob(k == 1, "true-only-if-removed", r.name, x.Pos, "true is returned although this call did not remove the timer from its slot")
		case False:
			falses++
			c.Ob(k == 0 && m.noneBefore(evs), "false-only-if-not-removed", r.name, x.Pos, "false is returned although this call removed the timer")
			c.Ob(m.sawNone(r, evs, t, x.Facts), "false-only-if-in-no-slot", r.name, x.Pos, "false is returned although the timer was not seen to be in no slot")
		default:
			trues++
			falses++
			s := m.carried(evs, v, k)
			c.Ob(s == "", "result-truthful", r.name, x.Pos, "%s", s)
			c.Ob(k > 0 || x.Facts.Proves(v) || m.sawNone(r, evs, t, x.Facts), "false-only-if-in-no-slot", r.name, x.Pos, "the function returns although the timer was not seen to be in no slot")
		}
	}
	c.Ob(trues > 0 && falses > 0, "both-results", r.name, r.fn.Pos(), "the function never reports one of the two outcomes")
}

// noneBefore: no earlier iteration on the path removed the timer, unless the loop cannot go on
// after one that did.
func (m *tm) noneBefore(evs []*Event) bool {
	for _, rec := range loopsIn(evs) {
		for _, b := range rec.Back {
			if m.removes(backEvents(rec, b)) > 0 {
				return false
			}
		}
	}
	return true
}

// sawNone: the last time the timer's slot was read there was none.
func (m *tm) sawNone(r *trun, evs []*Event, t *T, f *FactNode) bool {
	ok := false
	for _, e := range evs {
		if e.Kind == "aload" && isCell(e.Args[0], m.timer.nt, m.timer.owner) == t {
			ok = f.Proves(Eq(e.Res[0], Nil))
		}
		if e.Kind == "loop" && e.Loop != nil {
			for _, p := range e.Loop.Phis {
				if !m.isBucket(e.Loop.Cur[p]) {
					continue
				}
				read := m.wasRead(evs, e.Loop.Init[p], t)
				for _, b := range e.Loop.Back {
					read = read && m.wasRead(backEvents(e.Loop, b), m.in.BackVal(e.Loop, b, p), t)
				}
				ok = read && f.Proves(Eq(e.Loop.Cur[p], Nil))
			}
		}
	}
	return ok
}

// wasRead: the value is what a read of the timer's slot in these events returned.
func (m *tm) wasRead(evs []*Event, v, t *T) bool {
	for _, e := range evs {
		if e.Kind == "aload" && isCell(e.Args[0], m.timer.nt, m.timer.owner) == t && e.Res[0] == v {
			return true
		}
	}
	return false
}

// carried: a result variable that is true exactly if the timer was removed; empty if so.
func (m *tm) carried(evs []*Event, v *T, k int) string {
	if k > 0 {
		return "the timer is removed but the result is not true"
	}
	for _, rec := range loopsIn(evs) {
		for _, p := range rec.Phis {
			if rec.Cur[p] != v {
				continue
			}
			if rec.Init[p] != False {
				return "the result may be true before anything was removed"
			}
			for _, b := range rec.Back {
				nv := m.in.BackVal(rec, b, p)
				if b.Facts.Proves(nv) {
					nv = True
				} else if b.Facts.Proves(Not(nv)) {
					nv = False
				}
				rm := m.removes(backEvents(rec, b)) > 0
				switch {
				case rm && nv != True:
					return "an iteration that removes the timer does not make the result true"
				case !rm && nv == True:
					return "an iteration that removes nothing makes the result true"
				case !rm && nv == v:
				case !rm && nv == False:
					if !m.lastRemoval(rec) {
						return "an iteration after the removal may make the result false again"
					}
				case !rm:
					return "the result is neither kept nor false after an iteration that removes nothing"
				}
			}
			return ""
		}
	}
	return "the result does not say whether the timer was removed"
}

// lastRemoval: the loop ends after an iteration that removes: something it requires to be non-nil
// is nil then.
func (m *tm) lastRemoval(rec *LoopRec) bool {
	for _, b := range rec.Back {
		if m.removes(backEvents(rec, b)) == 0 {
			continue
		}
		ends := false
		for _, p := range rec.Phis {
			cur := rec.Cur[p]
			if cur == nil || cur.Typ == nil || !isPtr(cur.Typ) || m.in.BackVal(rec, b, p) != Nil {
				continue
			}
			ends = true
			for _, o := range rec.Back {
				ends = ends && o.Facts.Proves(Not(Eq(cur, Nil)))
			}
			if ends {
				break
			}
		}
		if !ends {
			return false
		}
	}
	return true
}

func init() {
	register(&Check{ID: "C09", Title: "Stopping a timer is truthful and keeps slot bookkeeping consistent", Level: "other",
		Rule:   "A timer's record of its slot and position is set to the slot and element it entered before that slot is unlocked, cleared when it is removed or detached, and written nowhere else; a removal outside a slot's expiry removes the recorded position of a timer from a slot that was seen to own it under that slot's lock; an expired timer names no slot when it is handed on; a stopping function returns true exactly on the paths on which it removed the timer, and false only after it saw the timer in no slot, never after a removal",
		Tech:   "disjunctive abstract interpretation of Go SSA with rely conditions at atomic reads (other goroutines may have moved the timer unless its slot is locked), effect counting per path and iteration, inductive reading of loop-carried results",
		Note:   "a Stop that runs while an expiring slot has the timer in hand reports false: the timer is in no slot at that instant",
		Assume: []string{"a timer is placed by one goroutine at a time (its creator, its task or its expiring slot)"},
		Run: func(c *Ctx) {
			m := newTimers(c, wheelDir)
			if !m.wheelLayout() {
				return
			}
			m.stopping()
			c.Need("insertions", c.Counts["insertions"], 1)
			c.Need("removals", c.Counts["removals"], 1)
			c.Need("stopping functions", c.Counts["stopping functions"], 1)
			c.Need("link updates", c.Counts["link updates"], 2)
		}})
}
