package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

// hand is a point where a timer is handed on: put into a slot, given to a coarser wheel, or run.
type hand struct {
	i    int
	kind string // insert, rec, go, call
	e    *Event
	t    *T
}

// recSum says what a recursive function's result tells about the timer it was given.
type recSum struct {
	timer, wheel, when int // parameter indexes (-1: none)
	mode               string
}

// wruns are the runs of the wheel's package, the functions that call themselves analysed from
// any call, and the tasks ScheduleFunc stores in timers.
func (m *tm) wruns() []*trun {
	if m.wdone != nil {
		return m.wdone
	}
	rs := append([]*trun{}, m.runs()...)
	seen := map[string]bool{}
	for k := 0; k < len(rs); k++ {
		for _, e := range allEvents(rs[k].exits) {
			if e.Kind != "reccall" || e.Val == nil || e.Val.Fn == nil || seen[FuncName(e.Val.Fn)] {
				continue
			}
			fn := e.Val.Fn
			seen[FuncName(fn)] = true
			ps := Params(fn)
			facts := m.wheelFacts(ps)
			for _, p := range ps {
				if m.isTimer(p) {
					facts = append(facts, Not(Eq(p, Nil)))
				}
			}
			rs = append(rs, &trun{name: ShortName(fn), fn: fn, root: fn, rec: true, exits: m.in.Run(fn, facts...)})
			m.c.Complete(m.in, fn)
		}
	}
	for _, r := range m.runs() {
		seen := map[*T]bool{}
		for _, x := range r.exits {
			if x.Kind != "return" || len(x.Res) != 1 || x.Res[0].Op != "alloc" || !m.isTimer(x.Res[0]) {
				continue
			}
			t := x.Res[0]
			task := m.in.LoadOne(x.State, FieldAddr(t, m.timer.nt, m.timer.task), m.fieldT(m.timer.nt, m.timer.task))
			if task == nil || task.Op != "closure" || task.Fn == nil || seen[task] {
				continue
			}
			seen[task] = true
			st := x.State.Fork()
			exp := m.in.Fresh(st, "fresh", "due", types.Typ[types.Int64])
			st.Store(FieldAddr(t, m.timer.nt, m.timer.exp), exp, exp.Typ)
			g := &trun{name: r.name + ">" + ShortName(task.Fn), fn: task.Fn, root: r.fn, timer: t, due: exp, task: task}
			var facts []*T
			for _, f := range append(m.wheelFacts(Params(r.fn)), x.Facts.List()...) {
				if f.Op == "not" && f.Args[0].Op == "eq" && (f.Args[0].Args[0] == Nil || f.Args[0].Args[1] == Nil) {
					facts = append(facts, f)
				}
			}
			facts = append(facts, m.wheelFacts(Params(r.fn))...)
			g.exits = m.in.RunArgs(task.Fn, nil, task.Args, st.Mem, facts...)
			m.c.Complete(m.in, task.Fn)
			rs = append(rs, g)
		}
	}
	// tasks run from where they were scheduled are covered by the tasks run at any later time
	tasks := map[string]bool{}
	for _, r := range rs {
		if r.timer != nil {
			tasks[FuncName(r.fn)] = true
		}
	}
	var out []*trun
	for _, r := range rs {
		if !(r.gor && tasks[FuncName(r.fn)]) {
			out = append(out, r)
		}
	}
	rs = out
	m.wdone = rs
	m.summaries()
	return rs
}

func (m *tm) isTimer(t *T) bool {
	return t != nil && t.Typ != nil && isPtr(t.Typ) && namedOf(ptrElem(t.Typ)) == m.timer.nt
}

func (m *tm) isBucket(t *T) bool {
	return t != nil && t.Typ != nil && isPtr(t.Typ) && namedOf(ptrElem(t.Typ)) == m.bucket.nt
}

// at is a field of an object as it was at an event.
func (m *tm) at(e *Event, o *T, nt *types.Named, i int) *T {
	return m.in.LoadAt(e, FieldAddr(o, nt, i), cellType(m.fieldT(nt, i)))
}

// slotOf is the slot a list belongs to.
func (m *tm) slotOf(l *T) *T {
	if l == nil || l.Op != "init" && l.Op != "hv" || len(l.Args) == 0 || l.Args[0].Op != "field" || l.Args[0].Aux != FieldKey(m.bucket.nt, m.bucket.list) {
		return nil
	}
	return l.Args[0].Args[0]
}

// wheelOf is the wheel a slot is taken from and the index of the slot.
func (m *tm) wheelOf(b *T) (w, idx *T) {
	if b == nil || b.Op != "init" && b.Op != "hv" || len(b.Args) == 0 || b.Args[0].Op != "elem" {
		return
	}
	arr := b.Args[0].Args[0]
	if arr.Op != "base" || len(arr.Args) != 1 {
		return
	}
	s := arr.Args[0]
	if s.Op != "init" && s.Op != "hv" || s.Args[0].Op != "field" || s.Args[0].Aux != FieldKey(m.wheel.nt, m.wheel.slots) {
		return
	}
	return s.Args[0].Args[0], b.Args[0].Args[1]
}

// isCell: the address is the given field of an object, which is returned.
func isCell(a *T, nt *types.Named, i int) *T {
	if a != nil && a.Op == "field" && a.Aux == FieldKey(nt, i) {
		return a.Args[0]
	}
	return nil
}

// taskOf: the function value is the task of a timer (or one of the extra values).
func (m *tm) taskOf(e *Event, v *T, extra map[*T]*T) *T {
	if v == nil {
		return nil
	}
	if t := extra[v]; t != nil {
		return t
	}
	if v.Op == "init" || v.Op == "hv" {
		if t := isCell(v.Args[0], m.timer.nt, m.timer.task); t != nil {
			return t
		}
	}
	return nil
}

// hands lists where timers are handed on. known maps function values to the timers they are the
// task of.
func (m *tm) hands(evs []*Event, known map[*T]*T) []hand {
	var out []hand
	for i, e := range evs {
		switch e.Kind {
		case "store":
			if t := isCell(e.Args[0], m.timer.nt, m.timer.task); t != nil && e.Val != nil {
				n := map[*T]*T{e.Val: t}
				for k, v := range known {
					n[k] = v
				}
				known = n
			}
		case "list":
			if e.Name == "insert" && len(e.Args) > 1 && m.isTimer(e.Args[1]) {
				out = append(out, hand{i, "insert", e, e.Args[1]})
			}
			switch e.Name {
			case "InsertBefore", "InsertAfter", "PushBackList", "PushFrontList":
				out = append(out, hand{i, "list", e, e.Args[1]})
			}
		case "reccall":
			for _, a := range e.Args {
				if m.isTimer(a) {
					out = append(out, hand{i, "rec", e, a})
				}
			}
		case "call", "dyncall":
			if t := m.taskOf(e, e.Val, known); t != nil {
				out = append(out, hand{i, "call", e, t})
			}
		case "go":
			if t := m.taskOf(e, e.Val, known); t != nil {
				out = append(out, hand{i, "go", e, t})
				continue
			}
			if e.Val == nil || e.Val.Fn == nil || !InModule(e.Val.Fn) {
				continue
			}
			// a goroutine of its own that runs tasks: each path of it must run the same ones
			var b []*T
			if e.Val.Op == "closure" {
				b = e.Val.Args
			}
			if m.depth > 2 {
				out = append(out, hand{i, "list", e, nil})
				continue
			}
			if hs, ok := m.goHands[e]; ok {
				for _, h := range hs {
					out = append(out, hand{i, h.kind, e, h.t})
				}
				continue
			}
			m.depth++
			m.tasks = map[*ssa.Function]bool{}
			for v := range known {
				if v.Fn != nil {
					m.tasks[v.Fn] = true
				}
			}
			var first []hand
			for k, x := range m.in.RunArgs(e.Val.Fn, e.Args, b, e.Mem, e.Facts.List()...) {
				var hs []hand
				for _, h := range m.hands(x.Ev.List(), known) {
					if h.kind == "call" {
						h.kind = "go"
					} else if h.kind != "go" {
						h.kind = "list"
					}
					hs = append(hs, hand{i, h.kind, e, h.t})
				}
				if k == 0 {
					first = hs
				} else if len(hs) != len(first) {
					for _, h := range hs {
						first = append(first, hand{i, "list", e, h.t})
					}
				}
			}
			m.depth--
			m.tasks = nil
			m.goHands[e] = first
			out = append(out, first...)
		}
	}
	return out
}

// summaries finds what the results of recursive functions mean.
func (m *tm) summaries() {
	m.sums = map[string]*recSum{}
	var rec []*trun
	for _, r := range m.wdone {
		if !r.rec {
			continue
		}
		rec = append(rec, r)
		s := &recSum{timer: -1, wheel: -1, when: -1, mode: "none"}
		for i, p := range Params(r.fn) {
			switch {
			case m.isTimer(p):
				s.timer = i
			case m.isWheel(p):
				s.wheel = i
			case isInt64(p.Typ):
				s.when = i
			}
		}
		m.sums[FuncName(r.fn)] = s
	}
	for _, r := range rec {
		s := m.sums[FuncName(r.fn)]
		if s.timer < 0 {
			continue
		}
		res := r.fn.Signature.Results()
		switch {
		case res.Len() == 0:
			s.mode = "always"
		case res.Len() == 1 && types.Identical(res.At(0).Type().Underlying(), types.Typ[types.Bool]):
			s.mode = "true"
			if !m.sumHolds(r, "true") {
				if s.mode = "false"; !m.sumHolds(r, "false") {
					s.mode = "true"
				}
			}
		}
	}
}

// placedBy: how often the hand-ons of a timer place or run it, judged at the end of a stretch;
// -1 if that is not known there.
func (m *tm) count(hs []hand, t *T, fin *FactNode) int {
	n := 0
	for _, h := range hs {
		if h.t != t {
			continue
		}
		switch h.kind {
		case "insert", "go":
			n++
		case "rec":
			s := m.sums[FuncName(h.e.Val.Fn)]
			if s == nil {
				return -1
			}
			switch s.mode {
			case "always":
				n++
			case "true", "false":
				r := h.e.Res[0]
				if s.mode == "false" {
					r = Not(r)
				}
				switch {
				case fin.Proves(r):
					n++
				case fin.Proves(Not(r)):
				default:
					return -1
				}
			default:
				return -1
			}
		default:
			return -1
		}
	}
	return n
}

func (m *tm) sumHolds(r *trun, mode string) bool {
	s := m.sums[FuncName(r.fn)]
	t := Params(r.fn)[s.timer]
	old := s.mode
	s.mode = mode
	defer func() { s.mode = old }()
	for _, x := range splitBool(m.in, r.exits) {
		if x.Kind != "return" {
			continue
		}
		want := -1
		switch {
		case mode == "always":
			want = 1
		case x.Res[0] == True:
			want = 1
		case x.Res[0] == False:
			want = 0
		}
		if mode == "false" && want >= 0 {
			want = 1 - want
		}
		if m.count(m.hands(x.Ev.List(), nil), t, x.Facts) != want {
			return false
		}
	}
	return true
}

// trav is the loop that empties an expired slot.
type trav struct {
	b, list, val *T
	rec          *LoopRec
}

// loopsIn are the loops met in a stretch of events.
func loopsIn(evs []*Event) map[int]*LoopRec {
	out := map[int]*LoopRec{}
	for i, e := range evs {
		if e.Kind == "loop" && e.Loop != nil {
			out[i] = e.Loop
		}
	}
	return out
}

// carriesSlots: the term is a channel of slots.
func (m *tm) carriesSlots(ch *T) bool {
	if ch == nil || ch.Typ == nil {
		return false
	}
	t, ok := ch.Typ.Underlying().(*types.Chan)
	return ok && isPtr(t.Elem()) && namedOf(ptrElem(t.Elem())) == m.bucket.nt
}

// received is the slot taken from a channel in a unit, and where; nil if none.
func (m *tm) received(u *unit) (int, *T) {
	for i, e := range u.evs {
		if (e.Kind == "selcase" || e.Kind == "recv") && e.Name != "recvclosed" && e.Name != "send" && m.carriesSlots(e.Args[0]) && e.Val != nil && !u.fin.Proves(Eq(e.Val, Nil)) {
			return i, e.Val
		}
	}
	return -1, nil
}

// traversals finds, in a unit that received an expired slot, the loops over its timers.
func (m *tm) traversals(u *unit, i int, b *T) (from, to int, ts []*trav) {
	mu := FieldAddr(b, m.bucket.nt, m.bucket.mu)
	from, to = -1, -1
	for j, rec := range loopsIn(u.evs) {
		if j < i {
			continue
		}
		busy := false
		for _, bk := range rec.Back {
			busy = busy || len(m.hands(backEvents(rec, bk), nil)) > 0
		}
		if !busy {
			continue
		}
		ts = append(ts, &trav{b: b, rec: rec})
		from, to = region(u.evs, j, mu)
	}
	return
}

// shape decides that a traversal goes through every timer of the slot once; empty if it does.
func (m *tm) shape(u *unit, tv *trav, from, to int) string {
	at := -1
	for j, rec := range loopsIn(u.evs) {
		if rec == tv.rec {
			at = j
		}
	}
	if from < 0 || to < 0 || from > at {
		return "the slot is not locked throughout"
	}
	tv.list = m.at(u.evs[from], tv.b, m.bucket.nt, m.bucket.list)
	rec := tv.rec
	listEv := func(evs []*Event, name string, a0, res *T) int {
		for j, e := range evs {
			if e.Kind == "list" && e.Name == name && e.Args[0] == a0 && (res == nil || len(e.Res) > 0 && e.Res[0] == res) {
				return j
			}
		}
		return -1
	}
	empties := func(evs []*Event) int { return listEv(evs, "Clear", tv.list, nil) }
	// a walk along the list
	for _, p := range rec.Phis {
		cur, init := rec.Cur[p], rec.Init[p]
		if cur == nil || init == nil || !isContainer(cur.Typ, listPkg, "Element") {
			continue
		}
		for _, d := range [][2]string{{"Front", "Next"}, {"Back", "Prev"}} {
			if listEv(u.evs[from:at], d[0], tv.list, init) < 0 {
				continue
			}
			removed := true
			for _, b := range rec.Back {
				evs := backEvents(rec, b)
				nv := m.in.BackVal(rec, b, p)
				rm := -1
				for j, e := range evs {
					if e.Kind == "list" && e.Name == "Remove" && len(e.Args) > 1 && e.Args[0] == tv.list {
						if e.Args[1] != cur {
							return "an iteration removes another element than the one it looks at"
						}
						rm = j
					}
				}
				if rm >= 0 && (listEv(evs[rm:], "Front", tv.list, nv) >= 0 || listEv(evs[rm:], "Back", tv.list, nv) >= 0) {
					continue // one end of what is left
				}
				n := listEv(evs, d[1], cur, nv)
				if n < 0 {
					return "an iteration does not go on to the next timer of the list"
				}
				if rm >= 0 && rm < n {
					return "an element is removed before its successor is read"
				}
				removed = removed && rm >= 0
				if empties(evs) >= 0 {
					return "the list is emptied while its timers are being handed on"
				}
			}
			if !u.fin.Proves(Eq(cur, Nil)) && !u.evs[to].Facts.Proves(Eq(cur, Nil)) {
				return "the loop may end before the last timer of the list"
			}
			if j := empties(u.evs[at:to]); j < 0 && !removed {
				return "the timers handed on stay in the slot's list"
			}
			tv.val = m.elemValue(rec, cur)
			return ""
		}
	}
	// taking the first one until there is none
	for _, b := range rec.Back {
		evs := backEvents(rec, b)
		ok := false
		for _, e := range evs {
			if e.Kind == "list" && e.Name == "Remove" && e.Args[0] == tv.list && e.Args[1].Op == "lend" && e.Args[1].Args[0] == tv.list {
				ok = true
				tv.val = m.elemValue(rec, e.Args[1])
			}
		}
		if !ok {
			return "the loop neither walks along the slot's list nor takes timers off it"
		}
	}
	end := u.evs[to].Facts
	for _, e := range u.evs[at:to] {
		if e.Kind != "list" || e.Args[0] != tv.list {
			continue
		}
		switch e.Name {
		case "Front", "Back":
			if end.Proves(Eq(e.Res[0], Nil)) {
				return ""
			}
		case "Len":
			if end.Proves(Le(e.Res[0], Int(0))) {
				return ""
			}
		case "Empty":
			if end.Proves(e.Res[0]) {
				return ""
			}
		}
	}
	return "the loop may end before the slot's list is empty"
}

// elemValue is the value of a list element in a loop's iterations.
func (m *tm) elemValue(rec *LoopRec, e *T) *T {
	a, t := valueField(e)
	if a == nil {
		return nil
	}
	return m.in.LoadOne(rec.Head, a, t)
}

// subjects maps the iterations of traversals to the timers they handle.
func (m *tm) findTravs() {
	m.travs = map[*LoopRec]*trav{}
	for _, r := range m.wruns() {
		for _, u := range r.units() {
			i, b := m.received(u)
			if b == nil {
				continue
			}
			from, to, ts := m.traversals(u, i, b)
			for _, tv := range ts {
				tv2 := *tv
				m.shape(u, &tv2, from, to)
				if old := m.travs[tv.rec]; old == nil || old.val == nil {
					m.travs[tv.rec] = &tv2
				}
			}
		}
	}
}

// subject is the timer a unit is about.
func (m *tm) subject(u *unit) *T {
	r := u.r
	if u.rec != nil {
		if tv := m.travs[u.rec]; tv != nil {
			return tv.val
		}
		return nil
	}
	switch {
	case r.timer != nil:
		return r.timer
	case r.rec:
		if s := m.sums[FuncName(r.fn)]; s.timer >= 0 {
			return Params(r.fn)[s.timer]
		}
	case u.x.Kind == "return" && len(u.x.Res) == 1 && m.isTimer(u.x.Res[0]) && u.x.Res[0] != Nil:
		return u.x.Res[0]
	}
	return nil
}

// keeping decides C08.
func (m *tm) keeping() {
	c := m.c
	m.wruns()
	m.findTravs()
	for _, r := range m.wruns() {
		if r.gor {
			continue
		}
		for _, u := range r.units() {
			if u.x != nil && u.x.Kind != "return" {
				continue
			}
			m.keepUnit(u)
		}
		if r.rec {
			if s := m.sums[FuncName(r.fn)]; s.timer >= 0 {
				c.Add("recursions", 1)
				c.Ob(m.sumHolds(r, s.mode), "result-tells-placed", r.name, r.fn.Pos(), "the result does not tell, on every path, whether the timer was put into exactly one slot")
			}
		}
	}
}

// givesTimer: the function's result is a timer.
func (m *tm) givesTimer(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	return rs.Len() == 1 && isPtr(rs.At(0).Type()) && namedOf(ptrElem(rs.At(0).Type())) == m.timer.nt
}

func zeroTime(n *T) *T { return EqInt(n, TimeZero) }

func (m *tm) keepUnit(u *unit) {
	c, r := m.c, u.r
	subj := m.subject(u)
	known := map[*T]*T{}
	if r.timer == nil && !r.rec && subj != nil && u.x != nil {
		for _, p := range Params(r.fn) {
			if _, ok := p.Typ.Underlying().(*types.Signature); ok {
				known[p] = subj
			}
		}
	}
	if r.timer != nil {
		known = m.noTasks(r)
	}
	hs := m.hands(u.evs, known)
	pos := r.fn.Pos()
	if u.rec != nil {
		pos = u.rec.Pos
	} else if u.x != nil {
		pos = u.x.Pos
	}
	for _, h := range hs {
		c.Ob(h.t == subj, "known-timer", r.name, h.e.Pos, "a timer is handed on (%s) that is not the one being scheduled, expired or rescheduled here", h.kind)
		switch h.kind {
		case "call":
			c.Fail("own-goroutine", r.name, h.e.Pos, "a task is run on the wheel's own goroutine")
		case "list":
			c.Fail("known-handling", r.name, h.e.Pos, "timers are moved by %s, which this analysis does not follow", h.e.Name)
		case "insert":
			c.Add("insertions", 1)
			m.queued(u, h)
		}
	}
	n := 0
	if subj != nil {
		n = m.count(hs, subj, u.fin)
	}
	switch {
	case u.rec != nil:
		if tv := m.travs[u.rec]; tv != nil {
			c.Add("expiring iterations", 1)
			c.Ob(subj != nil && n == 1, "each-expired-once", r.name, pos, "an expired timer is handed on %s", times(n))
		} else {
			c.Ob(len(hs) == 0, "scheduled-once", r.name, pos, "a timer is handed on in a loop that is not the expiry of a slot")
		}
		m.expired(u)
		return
	case r.timer != nil:
		m.rescheduled(u, hs, n)
	case r.rec:
	case subj != nil:
		c.Add("scheduling paths", 1)
		c.Ob(n == 1, "scheduled-once", r.name, pos, "the timer is put into a slot or run %s", times(n))
		m.firstDue(u, subj)
	case len(u.x.Res) == 1 && m.givesTimer(r.fn) && r.fn.Signature.Recv() != nil && m.isWheel(Params(r.fn)[0]):
		c.Add("scheduling paths", 1)
		ns := m.nexts(u.evs)
		c.Ob(len(ns) == 1 && u.fin.Proves(zeroTime(ns[0].Res[0])), "nil-only-when-done", r.name, pos, "no timer is returned although the scheduler named a time")
	}
	if r.timer == nil {
		m.expired(u)
	}
}

func times(n int) string {
	switch n {
	case -1:
		return "in a way that is not decided on this path"
	case 0:
		return "never"
	case 1:
		return "once"
	}
	return "more than once"
}

// noTasks: while a task runs, calling the user's function is not a hand-on.
func (m *tm) noTasks(r *trun) map[*T]*T { return map[*T]*T{r.task: r.timer} }

// nexts are the questions to the scheduler.
func (m *tm) nexts(evs []*Event) []*Event {
	var out []*Event
	for _, e := range evs {
		if e.Kind == "call" && strings.HasPrefix(e.Name, "invoke:") && strings.HasSuffix(e.Name, ".Next") && len(e.Res) == 1 {
			out = append(out, e)
		}
	}
	return out
}

// firstDue: a scheduled timer is due when the scheduler said, a delayed one when its delay is over.
func (m *tm) firstDue(u *unit, t *T) {
	c, r := m.c, u.r
	ns := m.nexts(u.evs)
	sched := false
	for _, p := range Params(r.fn) {
		_, ok := p.Typ.Underlying().(*types.Interface)
		sched = sched || ok
	}
	if !sched {
		return
	}
	unit := m.clockUnit()
	exp := m.in.LoadOne(u.x.State, FieldAddr(t, m.timer.nt, m.timer.exp), m.fieldT(m.timer.nt, m.timer.exp))
	c.Ob(len(ns) == 1 && unit > 0 && exp == inUnits(ns[0].Res[0], unit), "due-as-scheduled", r.name, u.x.Pos, "the timer's expiration is not the time the scheduler named, asked once")
	ok := false
	if len(ns) == 1 {
		for _, k := range clocks(u.evs) {
			ok = ok || ns[0].Args[len(ns[0].Args)-1] == k
		}
	}
	c.Ob(ok, "asked-with-now", r.name, u.x.Pos, "the scheduler is not asked for the first time with the current time")
	task := m.in.LoadOne(u.x.State, FieldAddr(t, m.timer.nt, m.timer.task), m.fieldT(m.timer.nt, m.timer.task))
	c.Ob(task != nil && task.Op == "closure", "task-reschedules", r.name, u.x.Pos, "the timer's task is not one that reschedules it")
}

// rescheduled: a path of a ScheduleFunc task.
func (m *tm) rescheduled(u *unit, hs []hand, n int) {
	c, r, t := m.c, u.r, m.timer
	c.Add("task paths", 1)
	if u.x == nil || u.x.Kind != "return" {
		return
	}
	pos := u.x.Pos
	ns := m.nexts(u.evs)
	unit := m.clockUnit()
	if !c.Ob(len(ns) == 1 && unit > 0, "asked-once", r.name, pos, "the scheduler is asked %d times per occurrence", len(ns)) {
		return
	}
	due := r.due
	if unit > 1 {
		due = Mul(r.due, Int(unit))
	}
	c.Ob(ns[0].Args[len(ns[0].Args)-1] == due, "asked-with-last", r.name, ns[0].Pos, "the scheduler is asked with %v, not with the time of the last occurrence", ns[0].Args[len(ns[0].Args)-1])
	next := ns[0].Res[0]
	switch {
	case u.fin.Proves(zeroTime(next)):
		c.Ob(n == 0, "zero-ends", r.name, pos, "the timer is scheduled again although the scheduler returned the zero time")
	case u.fin.Proves(Not(zeroTime(next))):
		c.Ob(n == 1, "rescheduled-once", r.name, pos, "the next occurrence is put into a slot or run %s", times(n))
		for _, h := range hs {
			c.Ob(m.at(h.e, r.timer, t.nt, t.exp) == inUnits(next, unit), "due-as-scheduled", r.name, h.e.Pos, "the timer is handed on with an expiration that is not the time the scheduler named")
		}
	default:
		c.Fail("zero-ends", r.name, pos, "a path does not look at whether the scheduler returned the zero time")
	}
	// the user's function runs once
	runs := 0
	for _, e := range u.evs {
		if (e.Kind == "dyncall" || e.Kind == "go") && e.Val != nil && m.isTask(r, e.Val) {
			runs++
		} else if e.Kind == "go" && e.Val != nil && e.Val != r.task && e.Val.Op == "closure" && e.Val.Fn != nil {
			k := -1
			m.tasks = map[*ssa.Function]bool{r.task.Fn: true}
			xs := m.in.RunArgs(e.Val.Fn, e.Args, e.Val.Args, e.Mem, e.Facts.List()...)
			m.tasks = nil
			for _, x := range xs {
				q := 0
				for _, y := range x.Ev.List() {
					if y.Kind == "dyncall" && m.isTask(r, y.Val) {
						q++
					}
				}
				if k >= 0 && k != q {
					q = 9
				}
				k = q
			}
			if k > 0 {
				runs += k
			}
		}
	}
	c.Ob(runs == 1, "runs-once", r.name, pos, "the scheduled function runs %d times per occurrence", runs)
}

// isTask: the value is the function the user gave to the scheduling call.
func (m *tm) isTask(r *trun, v *T) bool {
	for _, p := range Params(r.root) {
		if _, ok := p.Typ.Underlying().(*types.Signature); ok && p == v {
			return true
		}
	}
	return false
}

// queued: a slot that received a timer is queued under the timer's due time.
func (m *tm) queued(u *unit, h hand) {
	c, r, bl := m.c, u.r, m.bucket
	e := h.e
	b := m.slotOf(e.Args[0])
	if !c.Ob(b != nil, "slot-known", r.name, e.Pos, "the list the timer is put into is not that of a slot") {
		return
	}
	mu, ea := FieldAddr(b, bl.nt, bl.mu), FieldAddr(b, bl.nt, bl.exp)
	from, to := region(u.evs, h.i, mu)
	if !c.Ob(from >= 0 && to > h.i, "insert-under-lock", r.name, e.Pos, "the timer is put into the slot without holding the slot's lock") {
		return
	}
	w, _ := m.wheelOf(b)
	for j, x := range u.evs {
		if (x.Kind != "aswap" && x.Kind != "acas") || x.Args[0] != ea {
			continue
		}
		f2, t2 := region(u.evs, j, mu)
		same := f2 == from && t2 == to
		if j < h.i && !same {
			continue
		}
		pushes := 0
		for _, p := range u.evs[j:] {
			if p.Kind == "heappush" && p.Val == b {
				pushes++
				q := m.queueAt(p.Args[0])
				ok := q != nil
				if ok && w != nil {
					ok = ownerOf(p.Args[0]) == m.at(p, w, m.wheel.nt, m.wheel.queue)
				}
				c.Ob(ok, "own-queue", r.name, p.Pos, "the slot is queued in a queue that is not the wheel's")
			}
		}
		old, x0 := x.Res[0], x.Val
		set := true
		if x.Kind == "acas" {
			x0 = x.Args[2]
			c.Ob(x.Args[1] == bl.idle, "queue-decision", r.name, x.Pos, "the slot's expiration is only set if it was %v, not if the slot is not queued", x.Args[1])
			set = x.Name == "ok"
		} else {
			switch {
			case u.fin.Proves(EqInt(old, x0)):
				set = false
			case u.fin.Proves(Not(EqInt(old, x0))):
			default:
				c.Fail("queue-decision", r.name, x.Pos, "whether the slot is queued does not depend on whether its expiration changed")
				return
			}
		}
		if set {
			c.Ob(pushes == 1, "slot-queued", r.name, x.Pos, "a slot whose expiration was just set is queued %s", times(pushes))
		} else {
			c.Ob(pushes == 0, "slot-queued", r.name, x.Pos, "a slot that already is queued under this expiration is queued again")
		}
		c.Add("queue decisions", 1)
		return
	}
	c.Fail("slot-queued", r.name, e.Pos, "after the timer was put into the slot, the slot's expiration is not set (atomically, telling whether it changed): an idle slot would never expire")
}

// expired: a slot that was received is emptied once and made reusable.
func (m *tm) expired(u *unit) {
	c, r := m.c, u.r
	i, b := m.received(u)
	if b == nil {
		return
	}
	c.Add("expiries", 1)
	from, to, ts := m.traversals(u, i, b)
	e := u.evs[i]
	if !c.Ob(len(ts) == 1, "slot-processed", r.name, e.Pos, "the timers of an expired slot are gone through %s", times(len(ts))) {
		return
	}
	if s := m.shape(u, ts[0], from, to); s != "" {
		c.Fail("every-timer-handed-on", r.name, ts[0].rec.Pos, "%s", s)
		return
	}
	reset := false
	for j, x := range u.evs {
		if (x.Kind == "aswap" || x.Kind == "astore") && x.Args[0] == FieldAddr(b, m.bucket.nt, m.bucket.exp) {
			reset = j > from && j < to && x.Val == m.bucket.idle
			if !reset {
				break
			}
		}
	}
	c.Ob(reset, "slot-reusable", r.name, ts[0].rec.Pos, "the expiration of the emptied slot is not reset to %v before the slot is unlocked: its next timer would not queue it", m.bucket.idle)
	for _, bk := range ts[0].rec.Back {
		for _, x := range backEvents(ts[0].rec, bk) {
			if (x.Kind == "aswap" || x.Kind == "astore" || x.Kind == "acas") && x.Args[0] == FieldAddr(b, m.bucket.nt, m.bucket.exp) {
				c.Fail("slot-reusable", r.name, x.Pos, "the slot is marked while its timers are still being handed on")
			}
			if (x.Kind == "unlock" || x.Kind == "lock") && x.Args[0] == FieldAddr(b, m.bucket.nt, m.bucket.mu) {
				c.Fail("every-timer-handed-on", r.name, x.Pos, "the slot is unlocked while its timers are handed on")
			}
		}
	}
}

func init() {
	register(&Check{ID: "C08", Title: "The timing wheel never loses or duplicates a scheduled task", Level: "other",
		Rule:   "Every timer handed to the wheel (AfterFunc, ScheduleFunc, the reschedule inside a scheduled task) is, on every path, put into one slot or run in a goroutine of its own, exactly once; a recursive placing function's result tells, on every path, which of the two is left to do; no task runs on the caller's goroutine; a slot that received a timer is marked with its due time atomically and queued in the wheel's queue exactly when its mark changed; a slot received from the queue has its timers walked exactly once under its lock, each handed on exactly once, the list ends empty and the slot unmarked before it is unlocked; a scheduled task asks the scheduler once with its last due time, stops only on the zero time, is rescheduled for the time named and runs the user's function once; nil is returned only when the scheduler named no time",
		Tech:   "disjunctive abstract interpretation of Go SSA with function summaries for recursion, counting of hand-on effects per path and per loop iteration, loop-shape analysis of the slot traversal",
		Note:   "the list's and heap's own contracts are decided by C12 and C13, delivery by the queue by C05, the clock by C10; ticks and wheel sizes are at least 1; the user's functions do not re-enter the timer they belong to",
		Assume: []string{"a goroutine that is started runs", "a scheduler's Next does not touch the wheel"},
		Run: func(c *Ctx) {
			m := newTimers(c, wheelDir)
			if !m.wheelLayout() {
				return
			}
			m.keeping()
			c.Need("insertions", c.Counts["insertions"], 1)
			c.Need("queue decisions", c.Counts["queue decisions"], 1)
			c.Need("expiries", c.Counts["expiries"], 1)
			c.Need("expiring iterations", c.Counts["expiring iterations"], 1)
			c.Need("scheduling paths", c.Counts["scheduling paths"], 2)
			c.Need("task paths", c.Counts["task paths"], 1)
		}})
}
