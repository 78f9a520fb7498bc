package checks

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	. "verif/sa/eng"
)

// access is one use of a field of a shared object.
type access struct {
	name      string
	pos       token.Pos
	key       string
	obj       *T
	write     bool
	atomic    bool
	fresh     bool // not shared yet
	own       bool // under the lock of the object itself
	slot      bool // under the lock of a slot
	possessed bool // a timer only this goroutine has
}

// lockKind names the kind of object a mutex belongs to.
func lockKind(mu *T) string {
	if mu.Op == "field" {
		return mu.Aux
	}
	return mu.String()
}

// mutexOf is the index of the mutex of a struct type, -1 if there is none.
func mutexOf(t types.Type) int {
	st := structOf(t)
	if st == nil {
		return -1
	}
	return fieldOf(st, isMutexType)
}

// published is the first event at which an object made in the unit becomes visible to others.
func published(evs []*Event, o *T) int {
	has := func(t *T) bool {
		return t != nil && Contains(t, func(x *T) bool { return x == o })
	}
	for i, e := range evs {
		switch e.Kind {
		case "heappush", "send":
			if has(e.Val) {
				return i
			}
		case "list", "reccall", "go":
			if e.Kind == "list" && e.Name != "insert" {
				continue
			}
			if e.Kind == "go" && has(e.Val) {
				return i
			}
			for _, a := range e.Args {
				if has(a) {
					return i
				}
			}
		case "acas":
			if e.Name == "ok" && has(e.Val) {
				return i
			}
		case "astore", "aswap", "store":
			if has(e.Val) && Root(e.Args[0]).Op != "alloc" {
				return i
			}
		case "select", "selcase":
			if e.Kind == "selcase" && e.Name == "send" && has(e.Val) {
				return i
			}
		}
	}
	return len(evs)
}

// sharing decides C07 for a package.
func (m *tm) sharing() {
	c := m.c
	runs := m.runs()
	if m.wheel != nil {
		runs = m.wruns()
		m.findTravs()
	}
	structs := map[string]types.Type{}
	for _, n := range namedTypes(c.P, m.dir) {
		if st := structOf(n); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				structs[FieldKey(n, i)] = n
			}
		}
	}
	var accs []*access
	order := map[string]map[string]token.Pos{}
	cmps := map[*T]bool{}
	for _, r := range runs {
		if r.name == "" {
			continue
		}
		c.Add("functions", 1)
		for _, u := range r.units() {
			accs = append(accs, m.unitAccesses(u, structs)...)
			m.lockUnit(u, order)
			for _, e := range u.evs {
				if e.Kind == "heapnew" {
					for _, a := range e.Args {
						if a != nil && a.Fn != nil {
							cmps[a] = true
						}
					}
				}
			}
		}
		if r.gor {
			m.captured(r)
		}
	}
	for f := range cmps {
		var b []*T
		if f.Op == "closure" {
			b = f.Args
		}
		x := &trun{name: ShortName(f.Fn), fn: f.Fn, root: f.Fn, exits: m.in.RunArgs(f.Fn, Params(f.Fn), b, nil)}
		c.Complete(m.in, f.Fn)
		c.Add("comparators", 1)
		for _, u := range x.units() {
			accs = append(accs, m.unitAccesses(u, structs)...)
		}
	}
	m.judge(accs)
	m.lockOrder(order)
}

// unitAccesses lists the uses of fields of the package's objects in a unit.
func (m *tm) unitAccesses(u *unit, structs map[string]types.Type) []*access {
	c, r := m.c, u.r
	var out []*access
	held := u.held()
	full := u.full()
	base := len(full) - len(u.evs)
	pub := map[*T]int{}
	for i, e := range u.evs {
		slot, queue := false, false
		for mu := range held[i] {
			if m.bucket != nil && isCell(mu, m.bucket.nt, m.bucket.mu) != nil {
				slot = true
			}
			_ = queue
		}
		switch e.Kind {
		case "heaplen", "heappeek", "heappush", "heappop", "heapother":
			if l := m.queueAt(e.Args[0]); l != nil {
				c.Add("container uses", 1)
				c.Ob(held[i][FieldAddr(ownerOf(e.Args[0]), l.nt, l.mu)], "heap-locked", r.name, e.Pos, "the pending elements are used without the queue's lock")
			}
			continue
		case "list":
			if m.bucket == nil || e.Name == "new" {
				continue
			}
			c.Add("container uses", 1)
			if b := m.slotOf(e.Args[0]); b != nil {
				c.Ob(held[i][FieldAddr(b, m.bucket.nt, m.bucket.mu)], "list-locked", r.name, e.Pos, "the timers of a slot are used without the slot's lock (%s)", e.Name)
			} else {
				c.Ob(slot, "list-locked", r.name, e.Pos, "the list of a slot is walked without the slot's lock (%s)", e.Name)
			}
			continue
		case "load", "store", "aload", "astore", "aswap", "acas", "aadd":
		default:
			continue
		}
		a := e.Args[0]
		if a.Op != "field" || structs[a.Aux] == nil {
			continue
		}
		o := a.Args[0]
		st := structs[a.Aux]
		x := &access{name: r.name, pos: e.Pos, key: a.Aux, obj: o, slot: slot}
		x.atomic = e.Kind[0] == 'a'
		x.write = e.Kind != "load" && e.Kind != "aload"
		if o.Op == "alloc" && o != r.timer {
			p, ok := pub[o]
			if !ok {
				p = published(full, o)
				pub[o] = p
			}
			x.fresh = base+i <= p
		}
		if mu := mutexOf(st); mu >= 0 {
			x.own = held[i][FieldAddr(o, st, mu)]
		}
		if m.timer != nil && m.isTimer(o) {
			mine := o == r.timer || slot && m.isListed(o)
			if r.rec {
				for _, p := range Params(r.fn) {
					mine = mine || p == o
				}
			}
			if mine {
				for _, h := range m.hands(full[:base+i], m.tasksOf(u)) {
					if h.t == o && !(h.kind == "rec" && m.count([]hand{h}, o, e.Facts) == 0) {
						mine = false
					}
				}
			}
			x.possessed = mine
		}
		out = append(out, x)
	}
	return out
}

// judge checks that all uses of a field agree on how it is protected.
func (m *tm) judge(accs []*access) {
	c := m.c
	by := map[string][]*access{}
	for _, a := range accs {
		by[a.key] = append(by[a.key], a)
	}
	var keys []string
	for k := range by {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		written, atomics := false, 0
		for _, a := range by[k] {
			if a.fresh {
				continue
			}
			written = written || a.write
			if a.atomic {
				atomics++
			}
		}
		c.Add("fields", 1)
		if !written {
			c.Ob(true, "never-changed", k, 0, "")
			continue
		}
		for _, a := range by[k] {
			if a.fresh {
				continue
			}
			what := "read"
			if a.write {
				what = "written"
			}
			c.Add("shared accesses", 1)
			switch {
			case atomics > 0:
				c.Ob(a.atomic, "always-atomic", a.name, a.pos, "%s is %s plainly here and used atomically elsewhere", k, what)
			case m.timer != nil && k == FieldKey(m.timer.nt, m.timer.elem):
				c.Ob(a.slot, "locked", a.name, a.pos, "%s is %s without the lock of the timer's slot", k, what)
			case m.timer != nil && (k == FieldKey(m.timer.nt, m.timer.exp) || k == FieldKey(m.timer.nt, m.timer.task)):
				c.Ob(a.possessed, "possessed", a.name, a.pos, "%s is %s although other goroutines may be using the timer", k, what)
			default:
				c.Ob(a.own, "locked", a.name, a.pos, "%s is %s without the lock of its object", k, what)
			}
		}
	}
}

// lockUnit: locks are released on every return, not taken twice, and not held across iterations.
func (m *tm) lockUnit(u *unit, order map[string]map[string]token.Pos) {
	c, r := m.c, u.r
	h := map[*T]bool{}
	if u.rec != nil {
		for k := range entryLocks(u.rec) {
			h[k] = true
		}
	}
	start := len(h)
	for _, e := range u.evs {
		switch e.Kind {
		case "lock", "rlock":
			mu := e.Args[0]
			c.Add("lock operations", 1)
			c.Ob(!h[mu], "not-taken-twice", r.name, e.Pos, "%v is locked while this goroutine holds it", lockKind(mu))
			for k := range h {
				if k == mu {
					continue
				}
				from, to := lockKind(k), lockKind(mu)
				if from == to {
					ok := false
					if m.bucket != nil {
						for rec, tv := range m.travs {
							if (u.rec == rec || nestedIn(u, rec)) && tv.b == isCell(k, m.bucket.nt, m.bucket.mu) {
								ok = true
							}
						}
					}
					c.Ob(ok, "one-of-a-kind", r.name, e.Pos, "two objects of the same kind (%s) are locked at once", from)
					continue
				}
				if order[from] == nil {
					order[from] = map[string]token.Pos{}
				}
				if _, ok := order[from][to]; !ok {
					order[from][to] = e.Pos
				}
			}
			h[mu] = true
		case "unlock", "runlock":
			c.Ob(h[e.Args[0]], "unlock-held", r.name, e.Pos, "%v is unlocked although it is not locked here", lockKind(e.Args[0]))
			delete(h, e.Args[0])
		}
	}
	switch {
	case u.rec != nil:
		c.Ob(len(h) == start, "released", r.name, u.rec.Pos, "an iteration ends holding other locks than it started with")
	case u.x != nil && u.x.Kind == "return":
		for k := range h {
			c.Fail("released", r.name, u.x.Pos, "%v is still locked on a return", lockKind(k))
		}
	}
}

// nestedIn: the unit is an iteration of a loop within an iteration of another.
func nestedIn(u *unit, rec *LoopRec) bool {
	if u.rec == nil || u.rec.Entry == nil {
		return false
	}
	for _, e := range u.rec.Entry.Ev.List() {
		if e.Kind == "loop" && e.Loop == rec {
			return true
		}
	}
	return false
}

// lockOrder: kinds of locks are nested in one direction only.
func (m *tm) lockOrder(order map[string]map[string]token.Pos) {
	var kinds []string
	for k := range order {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, k := range kinds {
		// is k reachable from one of those taken under it?
		for to, pos := range order[k] {
			seen := map[string]bool{}
			var walk func(x string) bool
			walk = func(x string) bool {
				if x == k {
					return true
				}
				if seen[x] {
					return false
				}
				seen[x] = true
				for y := range order[x] {
					if walk(y) {
						return true
					}
				}
				return false
			}
			m.c.Add("lock nestings", 1)
			m.c.Ob(!walk(to), "lock-order", strings.TrimPrefix(k, ModulePath+"/"), pos, "%s is taken while holding %s, and elsewhere the other way round", to, k)
		}
	}
}

// captured: a goroutine and the function that started it do not both use a variable one of them
// changes.
func (m *tm) captured(r *trun) {
	if r.goEv == nil || r.goEv.Val == nil || r.goEv.Val.Op != "closure" {
		return
	}
	cells := map[*T]bool{}
	for _, a := range r.goEv.Val.Args {
		if a != nil && a.Op == "alloc" && !strings.HasPrefix(a.Aux, "chan") {
			cells[a] = true
		}
	}
	for _, u := range r.units() {
		for _, e := range u.evs {
			if e.Kind == "store" && cells[e.Args[0]] {
				m.c.Fail("captured-unchanged", r.name, e.Pos, "the goroutine changes a variable of the function that started it")
			}
		}
	}
	for _, o := range m.runs() {
		if o.gor || o.fn != r.root {
			continue
		}
		for _, x := range o.exits {
			after := false
			for _, e := range x.Ev.List() {
				if e.Instr == r.goEv.Instr && e.Kind == "go" {
					after = true
				}
				if after && e.Kind == "store" && cells[e.Args[0]] {
					m.c.Fail("captured-unchanged", o.name, e.Pos, "a variable used by a goroutine is changed after the goroutine was started")
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C07", Title: "Timer state is only touched under its lock or atomically, locks are released", Level: "other",
		Rule:   "All uses of a field of a shared object (queue, slot, wheel, timer) that is ever changed after publication agree: either every use is atomic, or every use is under the lock of the object it belongs to (a timer's list position: under a slot's lock), or, for a timer's due time and task, every use is by the goroutine that has the timer in hand; heaps and lists are used only under their owner's lock; locks are released on every return and at the end of every iteration, never taken twice, never released when not held, kinds of locks nest in one direction, and two slots are locked at once only by the expiry of one of them; goroutines and the functions that start them do not share variables one of them changes",
		Tech:   "lockset and publication analysis over disjunctive abstract interpretation of Go SSA, lock-order graph, release typestate on all paths",
		Note:   "an expiring slot locks the slots its timers move to: those belong to finer wheels or later rounds, so the nesting cannot be circular (C10)",
		Assume: []string{"schedulers, tasks and now functions supplied by users do not touch the wheel's own state"},
		Run: func(c *Ctx) {
			for _, d := range []string{delayDir, wheelDir} {
				m := newTimers(c, d)
				if d == wheelDir && !m.wheelLayout() {
					return
				}
				m.sharing()
			}
			c.Need("functions", c.Counts["functions"], 4)
			c.Need("fields", c.Counts["fields"], 6)
			c.Need("shared accesses", c.Counts["shared accesses"], 8)
			c.Need("container uses", c.Counts["container uses"], 6)
			c.Need("lock operations", c.Counts["lock operations"], 4)
			c.Need("comparators", c.Counts["comparators"], 1)
		}})
}
