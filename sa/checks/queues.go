package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

const delayDir, wheelDir = "common/timer/delayqueue", "common/timer/timingwheel"

func init() {
	register(&Check{ID: "C05", Title: "Delay queues deliver only due elements, earliest first, each exactly once", Level: "other",
		Rule:   "every function of the packages (entry points and started goroutines) is interpreted with the heap as a ghost version that every operation on it renews and the queue lock as the point where other goroutines may change it. Each removal from a queue's heap must take the element that a look at the head found due (key <= clock reading, clock taken from the same time source as the key, under the same lock region and heap version); what was removed must be what is delivered (returned, or sent once on the channel) and a removal whose result is dropped, or a delivery without a removal, is a violation; a failing exit leaves the heap as it found it. Each insertion records the argument and clock reading + delay; the comparator orders by that key; no other operation touches the heap",
		Tech:   "disjunctive abstract interpretation of Go SSA with ghost heap versions, lock-region rely/havoc, linear arithmetic facts on clock readings",
		Note:   "the heap's own contract (head is the least element) is decided by C13; an element that was already due and is in the hand of a channel goroutine when its context is cancelled is not delivered; keys of queued slots of the wheel are not changed by the queue (C10)",
		Assume: []string{"clock readings are what time.Now or the supplied now function returned; arithmetic on them does not wrap"},
		Run: func(c *Ctx) {
			for _, d := range []string{delayDir, wheelDir} {
				newTimers(c, d).delivery()
			}
			c.Need("delay queue types", c.Counts["queues"], 2)
			c.Need("removals", c.Counts["removals"], 1)
			c.Need("insertions", c.Counts["insertions"], 1)
		}})
}

// ordering finds what the comparator given to the heap compares.
func (m *tm) ordering(l *queueLay, e *Event) bool {
	c := m.c
	name := FieldKey(l.nt, l.heap)
	if !c.Ob(len(e.Args) == 2 && e.Args[1].Fn != nil, "comparator-known", name, e.Pos, "the heap's comparator is not a known function") {
		return false
	}
	c.Ob(e.Args[0] == Nil || e.Facts.Proves(EqInt(LenOf(e.Args[0]), Int(0))), "starts-empty", name, e.Pos, "the heap of a new queue starts with elements nobody pushed")
	fn := Body(e.Args[1].Fn)
	in := NewInterp(c.P, nil)
	var b []*T
	if e.Args[1].Op == "closure" {
		b = e.Args[1].Args
	}
	ps := Params(fn)
	if len(ps) != 2 {
		c.Fail("comparator-known", name, e.Pos, "the comparator does not take two elements")
		return false
	}
	l.elem = ps[0].Typ
	exits := in.RunArgs(fn, ps, b, e.Mem, Not(Eq(ps[0], Nil)), Not(Eq(ps[1], Nil)))
	c.Complete(in, fn)
	l.keyField = -1
	st := structOf(ptrElem(l.elem))
	if st == nil {
		c.Fail("comparator-known", name, e.Pos, "elements are not pointers to structs")
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		k1, k2 := m.entryVal(ps[0], l.elem, i), m.entryVal(ps[1], l.elem, i)
		used := 0
		for _, v := range allEvents(exits) {
			if (v.Kind == "load" || v.Kind == "aload") && (v.Args[0] == k1.Args[0] || v.Args[0] == k2.Args[0]) {
				used++
			}
		}
		if used == 0 {
			continue
		}
		ok := len(exits) > 0
		for _, x := range splitBool(in, exits) {
			if x.Kind != "return" {
				ok = false
				break
			}
			switch {
			case x.Res[0] == True:
				ok = ok && x.Facts.Proves(Le(k1, k2))
			case x.Res[0] == False:
				ok = ok && x.Facts.Proves(Le(k2, k1))
			default:
				ok = false
			}
		}
		if ok {
			l.keyField = i
		}
	}
	return c.Ob(l.keyField >= 0, "earliest-first", name, e.Pos, "the heap is not ordered by ascending expiration: the comparator of %s does not put the smaller value of one field first", ShortName(fn))
}

func (m *tm) entryVal(p *T, pt types.Type, i int) *T {
	return Mk("init", "", structOf(ptrElem(pt)).Field(i).Type(), FieldAddr(p, pt, i))
}

// layout finds the orderings, payloads and units of the queues; false if a queue is not understood.
func (m *tm) layout() bool {
	c := m.c
	for _, l := range m.queues {
		l.keyField, l.payload = -1, -1
		made := map[ssa.Instruction]bool{}
		for _, r := range m.runs() {
			var news []*Event
			for _, e := range allEvents(r.exits) {
				if e.Kind == "heapnew" {
					news = append(news, e)
				}
				if e.Kind == "store" && e.Args[0].Op == "field" && e.Args[0].Aux == FieldKey(l.nt, l.heap) && !made[e.Instr] {
					made[e.Instr] = true
					var src *Event
					for _, n := range news {
						if n.Val == e.Val {
							src = n
						}
					}
					if c.Ob(src != nil && Root(e.Args[0]).Op == "alloc", "own-heap", FieldKey(l.nt, l.heap), e.Pos, "the heap of a queue is not one freshly made for a new queue") {
						if !m.ordering(l, src) {
							return false
						}
					}
				}
			}
		}
		if !c.Ob(len(made) > 0 && l.keyField >= 0, "queue-understood", FieldKey(l.nt, l.heap), l.nt.Obj().Pos(), "no constructor of the queue was found") {
			return false
		}
		// what an element carries: the field its inserter fills with the value it was given
		if l.nt.Obj().Exported() {
			for _, r := range m.runs() {
				for _, u := range r.units() {
					for _, e := range u.evs {
						if e.Kind != "heappush" || m.queueAt(e.Args[0]) != l {
							continue
						}
						st := structOf(ptrElem(l.elem))
						for i := 0; i < st.NumFields() && u.x != nil; i++ {
							v := m.in.LoadOne(u.x.State, FieldAddr(e.Val, l.elem, i), st.Field(i).Type())
							for _, p := range Params(r.fn) {
								if v == p {
									l.payload = i
								}
							}
						}
					}
				}
			}
			if !c.Ob(l.payload >= 0, "value-recorded", FieldKey(l.nt, l.heap), l.nt.Obj().Pos(), "no element keeps the value it was pushed with") {
				return false
			}
		}
	}
	if m.dir == wheelDir {
		for _, l := range m.queues {
			l.unit = m.clockUnit()
			if !c.Ob(l.unit > 0, "queue-understood", FieldKey(l.nt, l.heap), l.nt.Obj().Pos(), "the unit of the wheel's times is not known: AfterFunc does not record now plus the delay") {
				return false
			}
		}
	}
	return true
}

// load is what a queue element delivers.
func (m *tm) payloadOf(l *queueLay, e *T, st *State) *T {
	if l.payload < 0 {
		return e
	}
	return m.in.LoadOne(st, FieldAddr(e, l.elem, l.payload), structOf(ptrElem(l.elem)).Field(l.payload).Type())
}

func isDone(t *T) bool {
	return t.Op == "call" && strings.HasSuffix(t.Aux, ".Done") || t.Op == "res" && strings.Contains(t.Aux, "Context.Done")
}

// cancelled: the events end with the context's cancellation.
func cancelled(evs []*Event) int {
	for i := len(evs) - 1; i >= 0; i-- {
		if e := evs[i]; (e.Kind == "selcase" || e.Kind == "recv") && len(e.Args) > 0 && isDone(e.Args[0]) {
			return i
		}
	}
	return -1
}

// due: when the element is removed, a reading of the clock had reached its expiration.
func (m *tm) due(l *queueLay, u *unit, i int) bool {
	e := u.evs[i]
	var all []*Event
	if u.x != nil {
		all = u.x.Ev.List()
	} else {
		all = u.back.Ev.List()
	}
	for _, k := range m.keys(l, e.Val, u.evs, i) {
		for _, n := range clocks(all) {
			if e.Facts.Proves(Le(k, inUnits(n, l.unit))) {
				return true
			}
		}
	}
	return false
}

// delivery decides C05 for the queues of a package.
func (m *tm) delivery() {
	c := m.c
	if !m.layout() {
		return
	}
	c.Add("queues", len(m.queues))
	seen := map[ssa.Instruction]bool{}
	for _, r := range m.runs() {
		for _, u := range r.units() {
			m.deliverUnit(u, seen)
		}
	}
	for _, l := range m.queues {
		for _, r := range m.runs() {
			for _, e := range allEvents(r.exits) {
				a := e.Args
				if e.Kind != "store" || a[0].Op != "field" || Root(a[0]).Op == "alloc" {
					continue
				}
				if k := structOf(ptrElem(l.elem)); k != nil {
					c.Ob(a[0].Aux != FieldKey(ptrElem(l.elem), l.keyField) && (l.payload < 0 || a[0].Aux != FieldKey(ptrElem(l.elem), l.payload)), "elements-unchanged", r.name, e.Pos, "%s of an element that may be queued is overwritten", a[0].Aux)
				}
			}
		}
	}
	for _, i := range m.callsTo(func(n string) bool {
		return strings.HasPrefix(n, "(*"+ModulePath+"/"+heapPkg+".Heap[") && !strings.HasSuffix(n, ".Len") && !strings.HasSuffix(n, ".Empty")
	}) {
		c.Ob(seen[i], "covered", ShortName(i.Parent()), i.Pos(), "a heap operation that no entry point was seen to reach")
	}
	if m.dir != delayDir {
		return
	}
	for _, l := range m.queues {
		m.queueAPI(l)
	}
}

func (m *tm) deliverUnit(u *unit, seen map[ssa.Instruction]bool) {
	c, r := m.c, u.r
	held := u.held()
	pops := 0
	for i, e := range u.evs {
		switch e.Kind {
		case "heappop", "heappush", "heappeek", "heaplen", "heapother":
		default:
			continue
		}
		seen[e.Instr] = true
		l := m.queueAt(e.Args[0])
		if !c.Ob(l != nil, "heap-known", r.name, e.Pos, "operation on a heap that belongs to no queue: %v", e.Args[0]) {
			continue
		}
		c.Ob(held[i][FieldAddr(ownerOf(e.Args[0]), l.nt, l.mu)], "heap-under-lock", r.name, e.Pos, "the pending elements are used without holding the queue's lock")
		switch e.Kind {
		case "heapother":
			c.Fail("known-operation", r.name, e.Pos, "%s changes the pending elements in a way that is not delivery of the earliest or insertion", e.Name)
		case "heappeek":
			c.Ob(e.Facts.Proves(Le(Int(1), hlen(e.Res[0]))), "not-empty", r.name, e.Pos, "the head is inspected although the queue may be empty")
		case "heappush":
			c.Add("insertions", 1)
			c.Ob(e.Facts.Proves(Not(Eq(e.Val, Nil))), "element-exists", r.name, e.Pos, "a nil element may be pushed")
		case "heappop":
			c.Add("removals", 1)
			pops++
			c.Ob(e.Facts.Proves(Le(Int(1), hlen(e.Res[0]))), "not-empty", r.name, e.Pos, "the head is removed although the queue may be empty")
			c.Ob(m.due(l, u, i), "only-when-due", r.name, e.Pos, "an element is removed on a path where no clock reading is shown to have reached its expiration")
			m.delivered(l, u, i)
		}
	}
	c.Ob(pops <= 1, "one-at-a-time", r.name, r.fn.Pos(), "%d elements are removed on one path", pops)
}

// delivered: the removed element goes to the caller or into the channel, exactly once.
func (m *tm) delivered(l *queueLay, u *unit, i int) {
	c, r, e := m.c, u.r, u.evs[i]
	st := &State{Mem: e.Mem, Facts: e.Facts, Clock: 1 << 20}
	v := m.payloadOf(l, e.Val, st)
	sent, gave := 0, 0
	for _, s := range u.evs[i+1:] {
		if s.Kind == "send" || s.Kind == "selcase" && s.Name == "send" {
			if s.Val == v {
				sent++
			} else {
				sent += 2
			}
		}
	}
	if u.x != nil && u.x.Kind == "return" && !r.gor {
		for k, x := range u.x.Res {
			if x == v && v != nil {
				gave++
				ok := true
				for j, y := range u.x.Res {
					if j != k && y != True {
						ok = false
					}
				}
				c.Ob(ok, "delivered-as-success", r.name, u.x.Pos, "an element was removed but the call reports failure")
			}
		}
	}
	if sent+gave == 0 && cancelled(u.evs[i+1:]) >= 0 && r.gor {
		return // the reader has cancelled while the element was being handed over
	}
	c.Ob(sent+gave == 1, "delivered-once", r.name, e.Pos, "a removed element is handed on %d times (its own value, once, is required)", sent+gave)
}

// queueAPI checks the exported methods of the queue type against the specification.
func (m *tm) queueAPI(l *queueLay) {
	c := m.c
	have := map[string]bool{}
	for _, r := range m.runs() {
		if r.gor || r.fn.Signature.Recv() == nil || namedOf(ptrElem(r.fn.Signature.Recv().Type())).Origin() != l.nt.Origin() {
			continue
		}
		have[r.fn.Name()] = true
		for _, x := range splitLast(m.in, r.exits) {
			if !c.Ob(x.Kind == "return", "no-panic", r.name, x.Pos, "the call may panic: %v", x.Val) {
				continue
			}
			evs := x.Ev.List()
			var push, pop, now []*Event
			ver := (*T)(nil)
			for _, e := range evs {
				switch e.Kind {
				case "heappush":
					push = append(push, e)
				case "heappop":
					pop = append(pop, e)
				case "now":
					now = append(now, e)
				case "heaplen", "heappeek":
					ver = e.Res[0]
				}
			}
			c.Ob(len(push) == 0 || r.fn.Name() == "Push", "inserts", r.name, x.Pos, "%s inserts an element", r.fn.Name())
			fail := len(x.Res) == 2 && x.Res[1] == False
			won := len(x.Res) == 2 && x.Res[1] == True
			if len(x.Res) == 2 && !c.Ob(fail || won, "decided", r.name, x.Pos, "the success result %v is not decided by the path", x.Res[1]) {
				continue
			}
			if fail {
				c.Ob(len(pop) == 0, "failure-removes-nothing", r.name, x.Pos, "an element was removed but the call reports failure")
				c.Ob(x.Res[0].Op == "zero", "failure-zero-value", r.name, x.Pos, "a failed call returns %v, not the zero value", x.Res[0])
			}
			empty := ver != nil && x.Facts.Proves(EqInt(hlen(ver), Int(0)))
			switch r.fn.Name() {
			case "Push":
				ps := Params(r.fn)
				if !c.Ob(len(push) == 1, "pushes-once", r.name, x.Pos, "the element is inserted %d times", len(push)) {
					continue
				}
				e := push[0].Val
				c.Ob(m.payloadOf(l, e, x.State) == ps[1], "pushes-value", r.name, x.Pos, "the element does not carry the pushed value")
				k := m.in.LoadAt(push[0], l.keyAddr(e), l.keyType())
				ok := false
				for _, n := range now {
					if k != nil && x.Facts.Proves(EqInt(k, Add(n.Res[0], ps[2]))) {
						ok = true
					}
				}
				c.Ob(ok, "expires-after-delay", r.name, x.Pos, "the expiration recorded is %v, not now plus the delay", k)
				c.Ob(e.Op == "alloc", "own-element", r.name, x.Pos, "the element inserted is not a new one")
			case "Take":
				if won {
					c.Ob(len(pop) == 1, "success-removes-one", r.name, x.Pos, "Take succeeds having removed %d elements", len(pop))
				}
				if fail {
					c.Ob(cancelled(evs) >= 0, "fails-only-cancelled", r.name, x.Pos, "Take gives up although its context was not cancelled")
				}
			case "Pop":
				if won {
					c.Ob(len(pop) == 1, "success-removes-one", r.name, x.Pos, "Pop succeeds having removed %d elements", len(pop))
				}
				if fail {
					ok := empty
					if ver != nil && !ok {
						h := hhead(ver, l.elem)
						for _, k := range m.keys(l, h, evs, len(evs)-1) {
							for _, n := range now {
								if x.Facts.Proves(Le(inUnits(n.Res[0], l.unit), k)) {
									ok = true
								}
							}
						}
					}
					c.Ob(ok, "fails-only-if-none-due", r.name, x.Pos, "Pop fails although the head may be due")
				}
			case "Peek":
				c.Ob(len(pop) == 0, "peek-removes-nothing", r.name, x.Pos, "Peek removes an element")
				if won {
					c.Ob(ver != nil && x.Res[0] == m.payloadOf(l, hhead(ver, l.elem), x.State), "peek-head", r.name, x.Pos, "Peek returns %v, not the value of the earliest element", x.Res[0])
				}
				if fail {
					c.Ob(empty, "fails-only-if-empty", r.name, x.Pos, "Peek fails although the queue may hold elements")
				}
			case "Empty":
				c.Ob(ver != nil && len(x.Res) == 1 && (x.Res[0] == EqInt(hlen(ver), Int(0)) || x.Res[0] == True && empty || x.Res[0] == False && x.Facts.Proves(Le(Int(1), hlen(ver)))), "empty-exact", r.name, x.Pos, "Empty returns %v", x.Res)
				c.Ob(len(pop) == 0, "empty-removes-nothing", r.name, x.Pos, "Empty removes an element")
			case "Channel":
				m.channel(r, x)
			}
		}
	}
	for _, n := range []string{"Push", "Take", "Pop", "Peek", "Empty", "Channel"} {
		c.Ob(have[n], "method-present", n, l.nt.Obj().Pos(), "the queue has no method %s", n)
	}
}

// splitLast decides boolean last results by splitting paths.
func splitLast(in *Interp, xs []*Exit) []*Exit {
	var out []*Exit
	for _, x := range xs {
		k := len(x.Res) - 1
		if x.Kind == "return" && k == 1 && isBoolTerm(x.Res[k]) && x.Res[k] != True && x.Res[k] != False {
			for _, v := range []bool{true, false} {
				cond := x.Res[k]
				if !v {
					cond = Not(cond)
				}
				if st := x.State.Fork().Assume(in, cond); st != nil {
					y := *x
					y.State = st
					y.Facts = st.Facts
					y.Res = []*T{x.Res[0], Bool(v)}
					out = append(out, &y)
				}
			}
			continue
		}
		out = append(out, x)
	}
	return out
}

// channel: what the method returns is the channel its goroutine feeds from the queue.
func (m *tm) channel(r *trun, x *Exit) {
	c := m.c
	gos := 0
	for _, e := range x.Ev.List() {
		if e.Kind == "go" {
			gos++
		}
	}
	c.Ob(gos == 1, "one-feeder", r.name, x.Pos, "%d goroutines are started", gos)
	for _, g := range m.runs() {
		if g.root != r.fn || !g.gor {
			continue
		}
		n := 0
		for _, u := range g.units() {
			for i, e := range u.evs {
				if e.Kind == "send" || e.Kind == "selcase" && e.Name == "send" {
					n++
					c.Ob(e.Args[0] == x.Res[0], "feeds-returned-channel", g.name, e.Pos, "elements are sent to %v, not to the channel that was returned", e.Args[0])
					ok := false
					for _, p := range u.evs[:i] {
						if p.Kind == "heappop" {
							ok = true
						}
					}
					c.Ob(ok, "sends-only-removed", g.name, e.Pos, "a value is sent that was not taken from the queue")
				}
			}
		}
		c.Ob(n > 0, "feeds-returned-channel", g.name, g.fn.Pos(), "nothing is ever sent to the channel")
	}
}

func init() {
	register(&Check{ID: "C06", Title: "A waiting delay-queue consumer is always woken and producers never block", Level: "other",
		Rule:   "every wait (select or receive) reached from a queue operation must be outside every lock; its wake-up channel must be the one the queue held, read in the same lock region and heap version as the look at the head that decided to wait; its timer, when the queue was not empty, must be armed with the remaining time head key - clock reading (exactly, or within one unit where keys are coarser than the clock); with an empty queue no timer may be required. Every insertion after which the new element is the head (or that is not proven behind the head) must, before the lock is released, close that wake-up channel and replace it with a fresh one, which wakes every waiter; no send, receive, blocking select, sleep or further lock happens while the queue lock is held, and an inserting function blocks on nothing else. Each loop iteration that does not wait must make progress (deliver, or look again because the clock moved past the head)",
		Tech:   "disjunctive abstract interpretation of Go SSA: lock-region and heap-version matching between the decision to wait and the wait, must-signal analysis on insertions, may-block analysis under locks",
		Note:   "goroutines are scheduled eventually; timers of the runtime fire",
		Assume: []string{"the wake-up channel field is unexported and touched only in this package"},
		Run: func(c *Ctx) {
			for _, d := range []string{delayDir, wheelDir} {
				m := newTimers(c, d)
				if m.layout() {
					c.Add("queues", len(m.queues))
					m.waking()
				}
			}
			c.Need("delay queue types", c.Counts["queues"], 2)
			c.Need("waits", c.Counts["waits"], 2)
			c.Need("insertions", c.Counts["insertions"], 1)
		}})
}

// blocking describes an operation that may wait for another goroutine; empty if it cannot.
func blocking(e *Event) string {
	switch e.Kind {
	case "send":
		return "a send"
	case "recv":
		return "a receive"
	case "select":
		if strings.HasPrefix(e.Name, "blocking") {
			return "a select without default"
		}
	case "call":
		switch e.Name {
		case "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
			return e.Name
		}
	}
	return ""
}

func (l *queueLay) wakeType() types.Type { return structOf(l.nt).Field(l.wake).Type() }

// waking decides C06.
func (m *tm) waking() {
	c := m.c
	for _, l := range m.queues {
		if !c.Ob(l.wake >= 0, "wake-channel", FieldKey(l.nt, l.heap), l.nt.Obj().Pos(), "the queue has no channel that wakes its consumers") {
			return
		}
		for _, r := range m.runs() {
			for _, e := range allEvents(r.exits) {
				if e.Kind == "store" && e.Args[0].Op == "field" && e.Args[0].Aux == FieldKey(l.nt, l.wake) {
					c.Ob(isMade(e.Val), "fresh-wake-channel", r.name, e.Pos, "the wake-up channel is set to %v, not to a new channel", e.Val)
				}
			}
		}
	}
	for _, r := range m.runs() {
		loops := map[*LoopRec]bool{}
		for _, u := range r.units() {
			m.wakeUnit(u)
			if u.rec != nil {
				loops[u.rec] = true
			}
		}
	}
}

func isMade(t *T) bool { return t != nil && t.Op == "alloc" && strings.HasPrefix(t.Aux, "chan") }

func (m *tm) wakeUnit(u *unit) {
	c, r := m.c, u.r
	held := u.held()
	consults, waits, pops := false, false, false
	for i, e := range u.evs {
		if b := blocking(e); b != "" {
			for mu := range held[i] {
				for _, l := range m.queues {
					c.Ob(!(mu.Op == "field" && mu.Aux == FieldKey(l.nt, l.mu)), "no-wait-under-lock", r.name, e.Pos, "%s happens while the queue is locked", b)
				}
			}
			c.Ob(r.gor || r.ctx != nil, "producers-never-block", r.name, e.Pos, "%s in a function that is not a consumer", b)
		}
		if (e.Kind == "load" || e.Kind == "store") && e.Args[0].Op == "field" && Root(e.Args[0]).Op != "alloc" {
			for _, l := range m.queues {
				if e.Args[0].Aux == FieldKey(l.nt, l.wake) {
					c.Ob(held[i][FieldAddr(e.Args[0].Args[0], l.nt, l.mu)], "wake-channel-under-lock", r.name, e.Pos, "the wake-up channel is used without holding the lock: a wake-up between the check and the wait is lost")
				}
			}
		}
		switch e.Kind {
		case "heaplen", "heappeek":
			consults = true
		case "heappop":
			pops = true
		case "heappush":
			c.Add("insertions", 1)
			if l := m.queueAt(e.Args[0]); l != nil {
				m.announces(l, u, i)
			}
		case "close":
			m.closes(u, i)
		case "select", "recv":
			if e.Kind == "recv" || !strings.Contains(e.Name, "send") {
				if consults && !pops {
					waits = true
					m.wait(u, i)
				}
			}
		}
	}
	if u.rec != nil && consults && !pops {
		pushes := false
		for _, e := range u.evs {
			pushes = pushes || e.Kind == "heappush"
		}
		c.Ob(waits || pushes, "no-spinning", r.name, u.rec.Pos, "the queue is checked again and again without waiting in between")
	}
}

// region is where the lock held at event i was taken and where it is released.
func region(evs []*Event, i int, mu *T) (from, to int) {
	from, to = -1, -1
	for j := i; j >= 0; j-- {
		if evs[j].Kind == "lock" && evs[j].Args[0] == mu {
			from = j
			break
		}
	}
	for j := i; j < len(evs); j++ {
		if evs[j].Kind == "unlock" && evs[j].Args[0] == mu {
			to = j
			break
		}
	}
	return
}

// announces: an element pushed to the front makes everyone who waits look again.
func (m *tm) announces(l *queueLay, u *unit, i int) {
	c, r, e := m.c, u.r, u.evs[i]
	q := ownerOf(e.Args[0])
	mu, wa := FieldAddr(q, l.nt, l.mu), FieldAddr(q, l.nt, l.wake)
	from, to := region(u.evs, i, mu)
	if !c.Ob(from >= 0 && to > i, "push-under-lock", r.name, e.Pos, "the element is inserted outside a locked region") {
		return
	}
	end := u.evs[to]
	if end.Facts.Proves(Not(Eq(hhead(e.Res[1], l.elem), e.Val))) {
		return
	}
	old := hhead(e.Res[0], l.elem)
	if end.Facts.Proves(Le(Int(1), hlen(e.Res[0]))) {
		for _, k := range m.keys(l, e.Val, u.evs, i) {
			for _, h := range m.keys(l, old, u.evs, i) {
				if end.Facts.Proves(Le(h, k)) {
					return
				}
			}
		}
	}
	w := m.in.LoadAt(u.evs[from+1], wa, l.wakeType())
	n := 0
	for _, x := range u.evs[from:to] {
		if x.Kind == "close" && len(x.Args) > 0 && x.Args[0] == w {
			n++
		}
	}
	c.Ob(n == 1, "wakes-everyone", r.name, e.Pos, "the new element may be the earliest, but the channel the consumers wait on is not closed (%d times) before the lock is released", n)
}

// closes: a closed wake-up channel is replaced before anyone can see it.
func (m *tm) closes(u *unit, i int) {
	c, r, e := m.c, u.r, u.evs[i]
	for _, l := range m.queues {
		for j := i; j >= 0; j-- {
			x := u.evs[j]
			if x.Kind != "lock" || x.Args[0].Op != "field" || x.Args[0].Aux != FieldKey(l.nt, l.mu) {
				continue
			}
			q := x.Args[0].Args[0]
			wa := FieldAddr(q, l.nt, l.wake)
			_, to := region(u.evs, i, x.Args[0])
			w := m.in.LoadAt(u.evs[j+1], wa, l.wakeType())
			if w != e.Args[0] {
				continue
			}
			n := (*T)(nil)
			if to >= 0 {
				n = m.in.LoadAt(u.evs[to], wa, l.wakeType())
			}
			c.Ob(to >= 0 && isMade(n), "closed-channel-replaced", r.name, e.Pos, "the closed wake-up channel stays in place: consumers would spin and the next push would close it twice")
			return
		}
	}
}

// wait: what a consumer waits for lets nothing slip by.
func (m *tm) wait(u *unit, i int) {
	c, r, e := m.c, u.r, u.evs[i]
	c.Add("waits", 1)
	// the check that led here: the last locked region
	var l *queueLay
	var end, ver *Event
	for j := i; j >= 0 && l == nil; j-- {
		x := u.evs[j]
		if x.Kind != "unlock" || x.Args[0].Op != "field" {
			continue
		}
		for _, k := range m.queues {
			if x.Args[0].Aux == FieldKey(k.nt, k.mu) {
				l, end = k, x
				from, _ := region(u.evs, j-1, x.Args[0])
				for h := from; h >= 0 && h < j; h++ {
					if y := u.evs[h]; y.Kind == "heaplen" || y.Kind == "heappeek" {
						ver = y
					}
				}
			}
		}
	}
	if !c.Ob(l != nil && ver != nil, "wait-after-check", r.name, e.Pos, "a consumer waits without having looked at the queue under its lock") {
		return
	}
	q := end.Args[0].Args[0]
	w := m.in.LoadAt(end, FieldAddr(q, l.nt, l.wake), l.wakeType())
	wakes := false
	for _, a := range e.Args {
		wakes = wakes || a == w && w != nil
	}
	c.Ob(wakes, "wait-hears-push", r.name, e.Pos, "the wait does not include the wake-up channel that was current when the queue was checked")
	if e.Facts.Proves(EqInt(hlen(ver.Res[0]), Int(0))) {
		return
	}
	head := hhead(ver.Res[0], l.elem)
	timed := false
	var d *T
	for _, a := range e.Args {
		for j := 0; j < i; j++ {
			x := u.evs[j]
			if x.Kind != "call" {
				continue
			}
			switch {
			case x.Name == "time.After" && len(x.Res) == 1 && x.Res[0] == a:
				d = x.Args[0]
			case x.Name == "time.NewTimer" && a.Op == "init" && a.Args[0].Op == "field" && a.Args[0].Args[0] == x.Res[0]:
				d = x.Args[0]
			case x.Name == "(*time.Timer).Reset" && a.Op == "init" && a.Args[0].Op == "field" && a.Args[0].Args[0] == x.Args[0]:
				d = x.Args[1]
			default:
				continue
			}
			timed = timed || m.remaining(l, head, d, u, i)
		}
	}
	if d == nil {
		c.Fail("wait-until-due", r.name, e.Pos, "the queue may hold an element, but the wait has no time limit")
		return
	}
	c.Ob(timed, "wait-until-due", r.name, e.Pos, "the wait lasts %v, which is not the time left until the head's expiration", d)
}

// remaining: d is the head's expiration minus a reading of the clock made in this iteration,
// within one unit of the clock.
func (m *tm) remaining(l *queueLay, head, d *T, u *unit, i int) bool {
	f := u.evs[i].Facts
	for _, k := range m.keys(l, head, u.evs, i) {
		for _, n := range clocks(u.last()) {
			want := Sub(Mul(k, Int(l.unit)), n)
			if l.unit == 1 {
				if f.Proves(EqInt(d, want)) {
					return true
				}
				continue
			}
			if f.Proves(Le(d, Add(want, Int(l.unit)))) && f.Proves(Le(Sub(want, Int(l.unit)), d)) {
				return true
			}
		}
	}
	return false
}

func init() {
	register(&Check{ID: "C11", Title: "Cancelling the context stops queues and wheel cleanly", Level: "other",
		Rule:   "in every function that receives a context, and every goroutine it starts, each blocking operation must be a select with a receive from that context's Done channel (or be on a channel this function made with enough buffer, or one closed by an ending goroutine); the Done case must lead to an exit without another unguarded blocking operation, returning false and the zero value (Take), closing the channel exactly once and on every exit of the goroutine that feeds it (Channel), and without removing anything from the heap. A value received together with a 'closed' flag, or from a channel that may be closed, must be checked before it is dereferenced",
		Tech:   "disjunctive abstract interpretation of Go SSA: may-block analysis on select shapes, close typestate of channels, removal effects on cancelled paths",
		Note:   "an element that was already due may be taken and dropped by a channel goroutine cancelled between removal and send; contexts are not nil",
		Assume: []string{"select chooses a ready case eventually"},
		Run: func(c *Ctx) {
			for _, d := range []string{delayDir, wheelDir} {
				m := newTimers(c, d)
				if m.layout() {
					m.cancelling()
				}
			}
			c.Need("functions taking a context", c.Counts["functions"], 3)
			c.Need("waits", c.Counts["waits"], 2)
			c.Need("feeding goroutines", c.Counts["feeders"], 1)
		}})
}

// feeds is the channel a goroutine sends to.
func (r *trun) feeds() *T {
	for _, u := range r.units() {
		for _, e := range u.evs {
			if e.Kind == "send" || e.Kind == "selcase" && e.Name == "send" {
				return e.Args[0]
			}
		}
	}
	return nil
}

// cancelling decides C11.
func (m *tm) cancelling() {
	c := m.c
	fed := map[*T]bool{}
	for _, r := range m.runs() {
		if r.gor && r.ctx != nil {
			if ch := r.feeds(); ch != nil {
				fed[ch] = true
			}
		}
	}
	for _, r := range m.runs() {
		if r.ctx == nil {
			continue
		}
		if !r.gor {
			c.Add("functions", 1)
		}
		ch := (*T)(nil)
		if r.gor {
			if ch = r.feeds(); ch != nil {
				c.Add("feeders", 1)
			}
		}
		stops := 0
		for _, u := range r.units() {
			if u.x != nil {
				stops++
				c.Ob(u.x.Kind == "return" || m.impossible(u, fed), "no-panic", r.name, u.x.Pos, "the call may panic: %v", u.x.Val)
			}
			for _, e := range u.evs {
				b := blocking(e)
				if b == "" {
					continue
				}
				c.Add("waits", 1)
				ok := false
				for _, a := range e.Args {
					if e.Kind != "send" && (isDone(a) && Contains(a, func(t *T) bool { return t == r.ctx }) || e.Kind == "recv" && fed[a] && !r.gor) {
						ok = true
					}
				}
				c.Ob(ok, "wait-ends-on-cancel", r.name, e.Pos, "%s that cancelling the context does not end", b)
			}
			if k := cancelled(u.evs); k >= 0 {
				c.Ob(u.back == nil, "cancel-ends-loop", r.name, u.evs[k].Pos, "the loop goes on after its context was cancelled")
				for _, e := range u.evs[k:] {
					switch e.Kind {
					case "heappop", "heappush", "heapother", "list", "go", "send", "loop":
						c.Fail("cancel-changes-nothing", r.name, e.Pos, "%s after the context was cancelled", e.Kind)
					}
				}
			}
			if ch != nil {
				n := 0
				for i, e := range u.evs {
					if e.Kind == "close" && len(e.Args) > 0 && e.Args[0] == ch {
						n++
						for _, s := range u.evs[i+1:] {
							c.Ob(!(s.Kind == "send" || s.Kind == "selcase" && s.Name == "send"), "no-send-after-close", r.name, s.Pos, "a value is sent after the channel was closed")
						}
					}
				}
				if u.x != nil {
					c.Ob(n == 1, "channel-closed", r.name, u.x.Pos, "the goroutine ends having closed its channel %d times", n)
				} else {
					c.Ob(n == 0, "channel-closed", r.name, u.rec.Pos, "the goroutine goes on after closing its channel")
				}
			}
		}
		if ch != nil && !r.gor {
			continue
		}
		c.Ob(stops > 0, "can-stop", r.name, r.fn.Pos(), "no path ends")
	}
}

// impossible: the panic needs a nil element in a channel whose feeder sends none.
func (m *tm) impossible(u *unit, fed map[*T]bool) bool {
	v := u.x.Val
	for _, e := range u.evs {
		if (e.Kind == "selcase" && e.Name == "recv" || e.Kind == "recv") && fed[e.Args[0]] && e.Val != nil && v == Not(Eq(e.Val, Nil)) {
			return true
		}
	}
	return false
}
