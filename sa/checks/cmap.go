package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C29", Title: "the concurrent map is linearizable under its own lock", Level: "other",
		Rule: "For the lock-embedding map type: every access of its storage by a locking method happens with the embedded lock held, exclusively for writes (including the lazy creation), in one critical section per call, locks are released on every exit including the exit by a panicking callback; and on every path of every method the result and the final storage equal those of an ordinary map (lookup, insertion, removal, size, complete iteration) started in the same state, with nil storage as the empty map. Linearizability follows: each call's effect is one atomic step inside its critical section.",
		Run:  concurrentMap, Tech: "lock-set analysis and symbolic method summaries compared with a map specification, over a path-partitioned abstract interpretation of Go SSA",
		Note:   "Holds for every schedule because mutual exclusion is established on every path; callers of the Unsafe methods bring their own locking.",
		Assume: []string{"callbacks do not re-enter the map", "sync.RWMutex provides mutual exclusion"}})
}

// lockMaps are the exported struct types that embed a mutex and have a map field.
func lockMaps(p *Program) (out []*types.Named, fields []int) {
	for _, n := range namedTypes(p, "help/utils") {
		st, ok := n.Underlying().(*types.Struct)
		if !ok || !n.Obj().Exported() {
			continue
		}
		mu, fi := false, -1
		for i := 0; i < st.NumFields(); i++ {
			if isMutexType(st.Field(i).Type()) {
				mu = true
			} else if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
				fi = i
			}
		}
		if mu && fi >= 0 {
			out, fields = append(out, n), append(fields, fi)
		}
	}
	return
}

// heldLocks walks a path with the set of locks held at each event.
func (c *Ctx) heldLocks(name string, x *Exit, visit func(e *Event, held map[*T]string, section int)) {
	held := map[*T]string{}
	section := 0
	var rec func(evs []*Event)
	rec = func(evs []*Event) {
		for _, e := range evs {
			switch e.Kind {
			case "lock", "rlock":
				if held[e.Args[0]] != "" {
					c.Fail("self-deadlock", name, e.Pos, "%s is locked again while this call already holds it", e.Args[0])
				}
				held[e.Args[0]] = e.Kind
				section++
			case "unlock", "runlock":
				want := strings.TrimPrefix(e.Kind, "un")
				if e.Kind == "runlock" {
					want = "rlock"
				}
				c.Ob(held[e.Args[0]] == want, "unlock-matches-lock", name, e.Pos, "%s of %s which is not held that way on this path", e.Kind, e.Args[0])
				delete(held, e.Args[0])
			case "loop":
				before := fmt.Sprint(len(held), section)
				for _, b := range e.Loop.Back {
					s0 := section
					rec(backEvents(e.Loop, b))
					c.Ob(fmt.Sprint(len(held), section) == before, "loop-lock-balance", name, e.Pos, "the lock state differs between loop iterations")
					section = s0
				}
			}
			visit(e, held, section)
		}
	}
	rec(x.Ev.List())
	bad := ""
	for mu, k := range held {
		bad = fmt.Sprintf("%s of %s is still held when the call ends (%s exit)", k, mu, x.Kind)
	}
	c.Ob(bad == "", "released-on-exit", name, x.Pos, "%s", bad)
}

func concurrentMap(c *Ctx) {
	ns, fields := lockMaps(c.P)
	c.Need("lock-embedding map types", len(ns), 1)
	for i, n := range ns {
		st := n.Underlying().(*types.Struct)
		mt := st.Field(fields[i]).Type().Underlying().(*types.Map)
		for _, fn := range exportedMethods(c.P, n) {
			name := ShortName(fn)
			if !c.Ob(isPtr(fn.Signature.Recv().Type()), "pointer-receiver", name, fn.Pos(), "a value receiver copies the map and its lock") {
				continue
			}
			recv := Param(Body(fn), 0)
			again := map[*Event]*T{} // the storage as found when the lock is taken once more
			in := NewInterp(c.P, &Config{CallbackPanics: true, OnLock: func(in *Interp, st *State, mu *T) {
				evs := st.Ev.List()
				if origin(mu) != recv || len(evs) == 0 {
					return
				}
				for _, e := range evs[:len(evs)-1] {
					if (e.Kind == "lock" || e.Kind == "rlock") && origin(e.Args[0]) == recv {
						v := in.Fresh(st, "fresh", "storage", mt)
						st.Store(FieldAddr(recv, n, fields[i]), v, mt)
						again[evs[len(evs)-1]] = v
						return
					}
				}
			}})
			exits := in.Run(fn)
			c.Complete(in, fn)
			m := &mapCheck{c: c, in: in, again: again, fn: fn, name: name, recv: recv, addr: FieldAddr(recv, n, fields[i]), mt: mt, ft: st.Field(fields[i]).Type()}
			locking := !strings.HasPrefix(fn.Name(), "Unsafe")
			c.Add("methods", 1)
			if locking {
				c.Add("locking methods", 1)
			}
			for _, x := range exits {
				m.locks(x, locking)
				m.spec(x)
			}
		}
	}
	c.Need("methods analysed", c.Counts["methods"], 10)
	c.Need("locking methods", c.Counts["locking methods"], 6)
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

type mapCheck struct {
	again map[*Event]*T
	c     *Ctx
	in    *Interp
	fn    *ssa.Function
	name  string
	recv  *T
	addr  *T // the storage field
	mt    *types.Map
	ft    types.Type
}

// storage: the accessed location is the storage field or an entry of a map reached from it.
func (m *mapCheck) storage(e *Event) bool {
	if len(e.Args) == 0 || e.Args[0] == nil {
		return false
	}
	return origin(e.Args[0]) == m.recv
}

func (m *mapCheck) locks(x *Exit, locking bool) {
	wrote := 0
	acq := false
	m.c.heldLocks(m.name, x, func(e *Event, held map[*T]string, section int) {
		mode := ""
		for mu, k := range held {
			if origin(mu) == m.recv && (mode != "lock") {
				mode = k
			}
		}
		switch e.Kind {
		case "lock", "rlock":
			acq = true
		case "go":
			m.c.Fail("no-async-access", m.name, e.Pos, "a goroutine is started inside the method")
		case "load", "store":
			if !locking || !m.storage(e) {
				return
			}
			if e.Kind == "store" {
				m.c.Ob(mode == "lock", "write-exclusive", m.name, e.Pos, "%s is written %s", locClass(e.Args[0]), heldWord(mode))
			} else {
				m.c.Ob(mode != "", "read-locked", m.name, e.Pos, "%s is read %s", locClass(e.Args[0]), heldWord(mode))
			}
			// what an earlier section only read has no effect; the call happens in its last section
			m.c.Ob(wrote == 0 || wrote == section, "one-critical-section", m.name, e.Pos, "%s is accessed in a second critical section of the same call", locClass(e.Args[0]))
			if e.Kind == "store" {
				wrote = section
			}
		}
	})
	if !locking {
		m.c.Ob(!acq, "unsafe-does-not-lock", m.name, x.Pos, "an Unsafe method takes a lock: callers that already hold it deadlock")
	}
}

func heldWord(mode string) string {
	if mode == "" {
		return "without the map's lock"
	}
	return "under the shared lock only"
}

func (m *mapCheck) load(s *State, a *T, t types.Type) *T { return m.in.LoadOne(s, a, t) }

func cellT(mp, k *T, mt *types.Map) *T { return Mk("cell", "", mt.Elem(), mp, k) }
func hasT(mp, k *T) *T                 { return Mk("has", "", types.Typ[types.Bool], mp, k) }

// spec compares one path with the ordinary map it implements.
func (m *mapCheck) spec(x *Exit) {
	c, in := m.c, m.in
	if x.Kind != "return" {
		// the only way out other than returning is a panicking callback
		cb := false
		for _, e := range allEvents([]*Exit{x}) {
			if e.Kind == "dyncall" {
				cb = true
			}
		}
		c.Ob(cb, "no-panic", m.name, x.Pos, "the method can panic")
		return
	}
	entry := &State{Facts: x.Facts, Clock: 1 << 20}
	old := in.LoadOne(entry, m.addr, m.ft)
	for _, e := range x.Ev.List() {
		if v := m.again[e]; v != nil {
			old = v
		}
	}
	now := m.load(x.State, m.addr, m.ft)
	if old == nil || now == nil {
		c.Fail("decided", m.name, x.Pos, "the storage before or after the call cannot be determined")
		return
	}
	op := strings.TrimPrefix(m.fn.Name(), "Unsafe")
	if op == "RLockRange" || op == "LockRange" {
		op = "Range"
	}
	var key, val *T
	if ps := Params(m.fn); len(ps) > 1 {
		key = ps[1]
		if len(ps) > 2 {
			val = ps[2]
		}
	}
	// who is in the map at entry
	isNil := x.Facts.Proves(Eq(old, Nil)) || eqI(x.Facts, LenOf(old), Int(0)) // empty
	f := x.Facts
	present, absent := false, isNil
	var was *T
	if key != nil && op != "Range" {
		h := in.LoadOne(entry, hasT(old, key), types.Typ[types.Bool])
		was = in.LoadOne(entry, cellT(old, key, m.mt), m.mt.Elem())
		if !isNil && h != nil {
			present, absent = f.Proves(h), f.Proves(Not(h))
		}
	}
	hasNow := func(k *T) *T { return m.load(x.State, hasT(now, k), types.Typ[types.Bool]) }
	cellNow := func(k *T) *T { return m.load(x.State, cellT(now, k, m.mt), m.mt.Elem()) }
	ob := func(ok bool, rule, format string, a ...interface{}) {
		c.Ob(ok, rule, m.name, x.Pos, format, a...)
	}
	eq := func(a, b *T) bool { return a == b || a != nil && b != nil && f.Proves(Eq(a, b)) }
	// entries other than key: storage is kept unless it was nil, and only key's entry is written
	kept := now == old || isNil
	ob(kept, "storage-kept", "the storage is replaced by %s while it may hold entries", now)
	writes := 0
	for _, e := range allEvents([]*Exit{x}) {
		if e.Kind != "store" || len(e.Args) == 0 {
			continue
		}
		a := e.Args[0]
		switch {
		case a == m.addr:
		case a.Op == "cell" || a.Op == "has" || a.Op == "elem":
			writes++
			if a.Args[0] == now || a.Args[0] == old {
				ob(key != nil && op != "Range" && a.Args[1] == key && e.Name != "clear", "own-key-only", "the entry of %s is written", a.Args[1])
			}
		}
	}
	switch op {
	case "Get":
		ob(writes == 0 && kept, "read-only", "a lookup changes the map")
		ob(present && eq(x.Res[0], was) || absent && eq(x.Res[0], Nil) || m.zeroRead(x, old, key, was, absent, present), "lookup", "a lookup returns %s (present=%v absent=%v)", x.Res[0], present, absent)
	case "Set":
		ob(!eq(now, Nil) && f.Proves(hasNow(key)) && eq(cellNow(key), val), "insert", "after storing, the key's entry is %s", cellNow(key))
	case "TestAndSet":
		if present {
			ob(writes == 0 && eq(x.Res[0], was), "test-and-set", "the key is present but %s is returned or its entry changed", x.Res[0])
		} else {
			ob(absent && eq(x.Res[0], Nil) && hasNow(key) != nil && f.Proves(hasNow(key)) && eq(cellNow(key), val), "test-and-set", "the key is absent but %s is returned or the new value is not stored", x.Res[0])
		}
	case "Del":
		h := hasNow(key)
		ob(eq(now, Nil) || h != nil && f.Proves(Not(h)), "delete", "after deleting, the key may still be present")
	case "Len":
		n := LenOf(old)
		ob(writes == 0 && kept, "read-only", "asking for the size changes the map")
		ob(isNil && eqI(f, x.Res[0], Int(0)) || eqI(f, x.Res[0], n), "size", "the size is reported as %s", x.Res[0])
	case "Range":
		ob(writes == 0 && kept, "read-only", "iteration changes the map")
		m.iterates(x, old, isNil)
	default:
		c.Add("methods without specification", 1)
	}
}

// zeroRead: m[k] without a presence test reads the zero value (nil) for an absent key.
func (m *mapCheck) zeroRead(x *Exit, old, key, was *T, absent, present bool) bool {
	if absent || present {
		return false
	}
	return x.Res[0] != nil && x.Res[0] == was
}

// iterates: the callback runs exactly once for every entry, with its key and value.
func (m *mapCheck) iterates(x *Exit, old *T, isNil bool) {
	f := Param(Body(m.fn), 1)
	calls := func(evs []*Event) (out []*Event) {
		for _, e := range evs {
			if e.Kind == "dyncall" && e.Val == f {
				out = append(out, e)
			}
		}
		return
	}
	if len(calls(x.Ev.List())) > 0 {
		m.c.Fail("iteration", m.name, x.Pos, "the callback is called outside the loop over the entries")
	}
	loops := 0
	for _, e := range x.Ev.List() {
		if e.Kind != "loop" {
			continue
		}
		rec := e.Loop
		ranged := false
		for _, b := range rec.Back {
			var k *T
			for _, ev := range backEvents(rec, b) {
				if ev.Kind == "load" && ev.Name == "maprange" && ev.Args[0].Args[0] == old {
					k = ev.Args[0].Args[1]
				}
			}
			if k == nil {
				continue
			}
			ranged = true
			cs := calls(backEvents(rec, b))
			ok := len(cs) == 1
			if ok {
				a := cs[0].Args
				v := m.in.LoadAt(cs[0], cellT(old, k, m.mt), m.mt.Elem())
				ok = len(a) == 2 && a[0] == k && a[1] == v
			}
			m.c.Ob(ok, "iteration", m.name, e.Pos, "the callback does not get each entry's key and value exactly once")
		}
		if ranged {
			loops++
			n := LenOf(old)
			m.c.Ob(rec.Iota != nil && eqI(x.Facts, rec.Iota, n), "iteration-complete", m.name, e.Pos, "the iteration can end before the last entry")
		}
	}
	n := LenOf(old)
	m.c.Ob(loops == 1 || loops == 0 && (isNil || eqI(x.Facts, n, Int(0))), "iteration-complete", m.name, x.Pos, "a path does not visit the entries (or visits them more than once)")
}
