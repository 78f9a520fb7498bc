package checks

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

// limiterTypes are the exported types of the limiter packages with a TryAcquire method.
func limiterTypes(c *Ctx) []*types.Named {
	var out []*types.Named
	for _, path := range SortedKeys(c.P.Pkgs) {
		sp := c.P.Pkgs[path]
		if !strings.HasPrefix(path, "common/limiter") {
			continue
		}
		for _, name := range sp.Pkg.Scope().Names() {
			tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, isI := n.Underlying().(*types.Interface); isI {
				continue
			}
			if c.P.MethodOf(n, "TryAcquire") != nil {
				out = append(out, n)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	c.Need("limiter types", len(out), 5)
	return out
}

func init() {
	register(&Check{ID: "C01", Title: "rate limiter calls are atomic and never wedge the limiter", Run: limiterLocking,
		Tech:   "lockset / critical-section dataflow over SSA paths",
		Rule:   "For every method of every limiter type, every path (loops summarised by invariants, deferred and panicking exits included) is walked with the set of held locks: each access to state that some method writes must happen with the limiter's own mutex held exclusively, all accesses of one call must lie in one unbroken critical section, and the mutex must be free again on every exit.",
		Note:   "Decides the locking discipline that makes calls atomic on all paths; assumes sync.Mutex semantics and that callers do not copy limiters.",
		Assume: []string{"sync.Mutex/RWMutex behave as documented", "a limiter value is not copied by callers"}})
}

func lockOf(addr *T) *T { return addr }

// ownLock: the mutex is part of the receiver object (or reached through its immutable fields).
func ownLock(mu, recv *T) bool { return origin(mu) == recv || mu.Op == "global" }

func limiterLocking(c *Ctx) {
	for _, n := range limiterTypes(c) {
		type run struct {
			fn    *ssa.Function
			exits []*Exit
			recv  *T
		}
		var runs []run
		written := map[string]bool{}
		for _, fn := range exportedMethods(c.P, n) {
			if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); !ok {
				c.Fail("pointer-receiver", ShortName(fn), fn.Pos(), "%s has a value receiver: it works on a copy of the limiter and of its mutex", ShortName(fn))
				continue
			}
			in := NewInterp(c.P, nil)
			ex := in.Run(fn)
			c.Complete(in, fn)
			c.Ob(len(ex) > 0, "has-exit", ShortName(fn), fn.Pos(), "no path of the method returns")
			runs = append(runs, run{fn, ex, Param(Body(fn), 0)})
			for _, e := range allEvents(ex) {
				switch e.Kind {
				case "store", "astore", "aswap", "acas", "aadd":
					if origin(e.Args[0]) == Param(Body(fn), 0) {
						written[locClass(e.Args[0])] = true
					}
				}
			}
		}
		c.Add("methods", len(runs))
		c.Ob(len(written) > 0, "has-state", n.String(), n.Obj().Pos(), "no written state found for the limiter")
		for _, r := range runs {
			for i, x := range r.exits {
				c.lockPath(r.fn, r.recv, x, i, written)
			}
		}
	}
	c.Need("limiter methods analysed", c.Counts["methods"], 5)
}

// lockPath checks one path: accesses under the own lock, one section, balanced.
func (c *Ctx) lockPath(fn *ssa.Function, recv *T, x *Exit, i int, written map[string]bool) {
	name := ShortName(fn)
	held := map[*T]string{}
	section := 0
	first := 0
	var rec func(evs []*Event)
	rec = func(evs []*Event) {
		for _, e := range evs {
			switch e.Kind {
			case "lock", "rlock":
				if held[e.Args[0]] != "" {
					c.Fail("self-deadlock", name, e.Pos, "%s is locked again while this call already holds it", e.Args[0])
				}
				held[e.Args[0]] = e.Kind
				if ownLock(e.Args[0], recv) {
					section++
				}
			case "unlock", "runlock":
				want := "lock"
				if e.Kind == "runlock" {
					want = "rlock"
				}
				c.Ob(held[e.Args[0]] == want, "unlock-matches-lock", name, e.Pos, "%s of %s which is not held that way on this path", e.Kind, e.Args[0])
				delete(held, e.Args[0])
			case "go":
				c.Fail("no-async-access", name, e.Pos, "a goroutine is started inside the decision")
			case "load", "store", "aload", "astore", "aswap", "acas", "aadd":
				a := e.Args[0]
				if origin(a) != recv || !written[locClass(a)] {
					continue
				}
				ok := false
				for mu, k := range held {
					if ownLock(mu, recv) && k == "lock" {
						ok = true
					}
				}
				if !c.Ob(ok, "state-under-lock", name+" "+locClass(a), e.Pos, "%s of %s without holding the limiter's mutex exclusively", e.Kind, locClass(a)) {
					continue
				}
				if first == 0 {
					first = section
				}
				c.Ob(first == section, "one-critical-section", name, e.Pos, "%s of %s happens in a second critical section of the same call: another call can run in between", e.Kind, locClass(a))
			case "loop":
				before := fmt.Sprint(len(held), section)
				for _, b := range e.Loop.Back {
					s0 := section
					rec(backEvents(e.Loop, b))
					c.Ob(fmt.Sprint(len(held), section) == before, "loop-lock-balance", name, e.Pos, "the lock state differs between loop iterations")
					section = s0
				}
			}
		}
	}
	rec(x.Ev.List())
	for mu, k := range held {
		c.Fail("released-on-exit", name, x.Pos, "%s of %s is still held when the call ends (%s exit)", k, mu, x.Kind)
	}
	if len(held) == 0 {
		c.Ob(true, "released-on-exit", name, x.Pos, "")
	}
}

// ---- C02, C03: admission and accounting ----

func init() {
	register(&Check{ID: "C02", Title: "rate limiters admit exactly while there is capacity, one unit per call", Run: func(c *Ctx) { limiterRelation(c, "C02") },
		Tech:   "disjunctive relational abstract interpretation (pre/post relation of every path)",
		Rule:   "The abstract pre/post relation of every path of every TryAcquire is compared with the transition relation the property states. Roles of the fields are found from the constructor (which argument flows in). Counting limiters: admit implies count* < limit and count' = count*+1; reject implies count* >= limit and count' = count*, where count* is the count after a possible reset or refill. Sliding limiters: the decision compares the sum folded over the range loop with the limit and the charge goes to the cell of the current small window with the old value plus one.",
		Assume: limiterAssume})
	register(&Check{ID: "C03", Title: "limiter capacity comes back only through elapsed time, in the right amount", Run: func(c *Ctx) { limiterRelation(c, "C03") },
		Tech:   "disjunctive relational abstract interpretation (pre/post relation of every path)",
		Rule:   "On every path of TryAcquire: fixed window resets iff the window elapsed and stamps the clock reading; token/leaky buckets change by quo(elapsed, 1s)*rate clamped to [0, capacity], only on paths where at least one second elapsed and on all of those, with the stamp advanced past the credited time and not past the clock; sliding limiters: the start of the window equals current - (window - smallWindow), a small window contributes to the sum iff it is not before the start, and cells are deleted only if they are before the start of the longest window.",
		Assume: limiterAssume})
	register(&Check{ID: "C04", Title: "sliding limiter configuration is validated and owned by the limiter", Run: slidingConfig,
		Tech:   "path-sensitive must-check analysis of constructors plus effect analysis",
		Rule:   "On every constructor path that returns a limiter the facts must imply: small window > 0, window > 0, window divisible by small window (each strategy), at least one strategy, and strictly decreasing limits for shrinking windows; every division on any path is by a provably non-zero value; no path of the constructors or methods stores to an object reachable from the caller's arguments.",
		Assume: limiterAssume})
}

var limiterAssume = []string{
	"integers are mathematical (no overflow of counters, rates or nanosecond products)",
	"instants and durations are integers in nanoseconds; time.Now never goes backwards within one call",
	"limiters are built by their constructor",
}

var second = Int(1000000000)

func limiterRelation(c *Ctx, id string) {
	for _, n := range limiterTypes(c) {
		ctors := constructors(c.P, n)
		if !c.Ob(len(ctors) > 0, "constructor", n.String(), n.Obj().Pos(), "no constructor found") {
			continue
		}
		tn := n.Obj().Name()
		for _, ctor := range ctors {
			insts, _ := instances(c, n, ctor, nil)
			c.Ob(len(insts) > 0, "constructor", ShortName(ctor), ctor.Pos(), "no path returns a limiter")
			for _, ins := range insts {
				switch {
				case strings.Contains(tn, "FixedWindow"):
					c.fixedWindow(id, ins)
					c.Add("fixed window", 1)
				case strings.Contains(tn, "TokenBucket"):
					c.bucket(id, ins, true)
					c.Add("token bucket", 1)
				case strings.Contains(tn, "LeakyBucket"):
					c.bucket(id, ins, false)
					c.Add("leaky bucket", 1)
				case strings.Contains(tn, "SlidingWindow"):
					c.slidingWindow(id, ins)
					c.Add("sliding window", 1)
				case strings.Contains(tn, "SlidingLog"):
					c.slidingLog(id, ins)
					c.Add("sliding log", 1)
				default:
					c.Fail("unknown-limiter", tn, n.Obj().Pos(), "no rule for this limiter")
				}
			}
		}
	}
	for _, k := range []string{"fixed window", "token bucket", "leaky bucket", "sliding window", "sliding log"} {
		c.Need(k, c.Counts[k], 1)
	}
}

// counting describes a limiter with one integer count and one time stamp.
type counting struct {
	ins    *instance
	fn     *ssa.Function
	recv   *T
	in     *Interp
	exits  []*Exit
	count  leaf
	stamp  leaf
	count0 *T // at entry
	stamp0 *T
	names  string
}

func (c *Ctx) counting(ins *instance) *counting {
	fn := c.P.MethodOf(ins.Type, "TryAcquire")
	recv := Param(Body(fn), 0)
	hook, facts := ins.hook(recv)
	k := &counting{ins: ins, fn: fn, recv: recv, names: ShortName(fn)}
	k.in = NewInterp(c.P, &Config{InitHook: hook})
	k.exits = k.in.Run(fn, facts...)
	c.Complete(k.in, fn)
	nc, nt := 0, 0
	for _, l := range leaves(recv, ins.Type) {
		if ins.Imm[l.Key] || isMutexType(l.Typ) {
			continue
		}
		v := ins.Vals[l.Key]
		isStamp := IsTime(l.Typ)
		if !isStamp && v != nil && Contains(v, func(x *T) bool { return x.Op == "now" }) {
			isStamp = true
		}
		if isStamp {
			k.stamp = l
			nt++
		} else if IsIntType(l.Typ) {
			k.count = l
			nc++
		}
	}
	if !c.Ob(nc == 1 && nt == 1, "roles", k.names, fn.Pos(), "expected one mutable count and one mutable time stamp, found %d and %d", nc, nt) {
		return nil
	}
	k.count0 = Mk("init", "", k.count.Typ, k.count.Addr)
	k.stamp0 = Mk("init", "", k.stamp.Typ, k.stamp.Addr)
	return k
}

// path is one exit of a counting limiter.
type cpath struct {
	nows         []*T
	x            *Exit
	admit        bool
	count, stamp *T
	now          *T
}

func (c *Ctx) cpaths(k *counting) []cpath {
	var out []cpath
	for _, x := range k.exits {
		if !c.Ob(x.Kind == "return" && len(x.Res) == 1, "returns", k.names, x.Pos, "a path does not return a decision (%s)", x.Kind) {
			continue
		}
		p := cpath{x: x}
		switch {
		case x.Res[0] == True || x.Facts.Proves(x.Res[0]):
			p.admit = true
		case x.Res[0] == False || x.Facts.Proves(Not(x.Res[0])):
		default:
			// split on the returned condition
			for _, v := range []bool{true, false} {
				cond := x.Res[0]
				if !v {
					cond = Not(cond)
				}
				if s := x.State.Fork().Assume(k.in, cond); s != nil {
					y := *x
					y.State = s
					y.Res = []*T{Bool(v)}
					q := c.onePath(k, &y)
					q.admit = v
					if q.count != nil {
						out = append(out, q)
					}
				}
			}
			continue
		}
		q := c.onePath(k, x)
		q.admit = p.admit
		if q.count != nil {
			out = append(out, q)
		}
	}
	c.Ob(len(out) >= 2, "paths", k.names, k.fn.Pos(), "fewer than two decided paths")
	return out
}

func (c *Ctx) onePath(k *counting, x *Exit) cpath {
	p := cpath{x: x}
	p.count = k.in.LoadOne(x.State, k.count.Addr, k.count.Typ)
	p.stamp = k.in.LoadOne(x.State, k.stamp.Addr, k.stamp.Typ)
	for _, e := range x.Ev.List() {
		if e.Kind == "now" {
			p.now = e.Res[0]
			p.nows = append(p.nows, p.now)
		}
	}
	if p.count == nil || p.stamp == nil {
		c.Fail("undecided", k.names, x.Pos, "the final count or stamp is not a single value on this path")
		p.count = nil
	}
	return p
}

func eqI(f *FactNode, a, b *T) bool {
	return a == b || f.Proves(EqInt(a, b)) || f.Proves(Le(a, b)) && f.Proves(Le(b, a))
}

func word(admit bool) string {
	if admit {
		return "admitted"
	}
	return "rejected"
}

func (c *Ctx) fixedWindow(id string, ins *instance) {
	k := c.counting(ins)
	if k == nil {
		return
	}
	ints := paramsOfType(ins.Ctor, isPlainInt)
	durs := paramsOfType(ins.Ctor, isDuration)
	if !c.Ob(len(ints) == 1 && len(durs) == 1, "roles", ShortName(ins.Ctor), ins.Ctor.Pos(), "expected one limit and one window parameter") {
		return
	}
	L, W := ints[0], durs[0]
	c.Ob(eqI(ins.Exit.Facts, ins.Vals[k.count.Key], Int(0)), "initial-count", ShortName(ins.Ctor), ins.Ctor.Pos(), "a new limiter does not start with an empty count")
	if s := ins.Vals[k.stamp.Key]; id == "C03" {
		c.Ob(s != nil && (s.Op == "now" || s == TimeZero), "initial-stamp", ShortName(ins.Ctor), ins.Ctor.Pos(), "a new limiter's window does not open at a past or current instant")
	}
	for _, p := range c.cpaths(k) {
		f := p.x.Facts
		same := eqI(f, p.stamp, k.stamp0)
		base := k.count0
		if !same {
			base = Int(0)
		}
		if id == "C02" {
			c.charge(k, p, base, L, false)
			continue
		}
		if p.now == nil {
			c.Fail("reads-clock", k.names, p.x.Pos, "a path decides without reading the clock")
			continue
		}
		some := func(h func(now *T) bool) bool {
			for _, n := range p.nows {
				if h(n) {
					return true
				}
			}
			return false
		}
		if same {
			c.Ob(some(func(n *T) bool { return f.Proves(Le(Sub(n, k.stamp0), W)) }), "reset-when-elapsed", k.names, p.x.Pos, "a path keeps the old window although more than the window may have elapsed (facts do not bound now-lastTime by the window)")
			c.Ob(eqI(f, p.count, k.count0) || eqI(f, p.count, Add(k.count0, Int(1))), "no-reset-before-window", k.names, p.x.Pos, "the count changes to %s while the window is kept", p.count)
		} else {
			c.Ob(some(func(n *T) bool { return f.Proves(Le(W, Sub(n, k.stamp0))) }), "no-reset-before-window", k.names, p.x.Pos, "a path reopens the window although the window may not have elapsed")
			c.Ob(some(func(n *T) bool { return eqI(f, p.stamp, n) }), "stamp-is-now", k.names, p.x.Pos, "the reopened window is stamped %s instead of the current instant", p.stamp)
			c.Ob(eqI(f, p.count, Int(0)) || eqI(f, p.count, Int(1)), "reset-clears", k.names, p.x.Pos, "reopening the window leaves count %s", p.count)
		}
	}
}

// charge checks decision against capacity and the unit charged.
func (c *Ctx) charge(k *counting, p cpath, base, L *T, tokens bool) {
	f := p.x.Facts
	if tokens {
		if p.admit {
			c.Ob(f.Proves(Ge0(Sub(base, Int(1)))), "admit-iff-capacity", k.names, p.x.Pos, "a call is admitted although no token may be left (tokens %s)", base)
			c.Ob(eqI(f, p.count, Sub(base, Int(1))), "charge-one", k.names, p.x.Pos, "an admitted call leaves %s instead of one token less than %s", p.count, base)
		} else {
			c.Ob(f.Proves(Le(base, Int(0))), "admit-iff-capacity", k.names, p.x.Pos, "a call is rejected although a token may be left (tokens %s)", base)
			c.Ob(eqI(f, p.count, base), "charge-none", k.names, p.x.Pos, "a rejected call changes the tokens from %s to %s", base, p.count)
		}
		return
	}
	if p.admit {
		c.Ob(f.Proves(Lt(base, L)), "admit-iff-capacity", k.names, p.x.Pos, "a call is admitted although the count %s may have reached the limit %s", base, L)
		c.Ob(eqI(f, p.count, Add(base, Int(1))), "charge-one", k.names, p.x.Pos, "an admitted call leaves count %s instead of %s plus one", p.count, base)
	} else {
		c.Ob(f.Proves(Le(L, base)), "admit-iff-capacity", k.names, p.x.Pos, "a call is rejected although the count %s may be below the limit %s", base, L)
		c.Ob(eqI(f, p.count, base), "charge-none", k.names, p.x.Pos, "a rejected call changes the count from %s to %s", base, p.count)
	}
}

// bucket: token (gain) or leaky (drain).
func (c *Ctx) bucket(id string, ins *instance, token bool) {
	k := c.counting(ins)
	if k == nil {
		return
	}
	ints := paramsOfType(ins.Ctor, isPlainInt)
	if !c.Ob(len(ints) == 2, "roles", ShortName(ins.Ctor), ins.Ctor.Pos(), "expected a capacity and a rate parameter") {
		return
	}
	L, R := ints[0], ints[1] // capacity, rate: documented order of the exported constructor
	v0 := ins.Vals[k.count.Key]
	c.Ob(v0 != nil && (eqI(ins.Exit.Facts, v0, Int(0)) || token && v0 == L), "initial-count", ShortName(ins.Ctor), ins.Ctor.Pos(), "a new bucket does not start empty")
	if s := ins.Vals[k.stamp.Key]; id == "C03" {
		c.Ob(s != nil && (s.Op == "now" || !token && s == TimeZero), "initial-stamp", ShortName(ins.Ctor), ins.Ctor.Pos(), "elapsed time is not counted from the creation of the bucket")
	}
	for _, p := range c.cpaths(k) {
		f := p.x.Facts
		same := eqI(f, p.stamp, k.stamp0)
		unit := Int(1)
		if token {
			unit = Int(-1)
		}
		if !p.admit {
			unit = Int(0)
		}
		base := k.count0
		if !same {
			base = Sub(p.count, unit) // what the refill left; its value is checked by C03
		}
		if id == "C02" {
			if same {
				c.charge(k, p, base, L, token)
				continue
			}
			// The level after the refill: the value clamped or not, found from the formula
			if p.now == nil {
				continue
			}
			for _, b := range c.refilled(k, p, L, R, token) {
				q := p
				y := *p.x
				y.State = b.st
				q.x = &y
				c.charge(k, q, b.v, L, token)
			}
			continue
		}
		if p.now == nil {
			c.Fail("reads-clock", k.names, p.x.Pos, "a path decides without reading the clock")
			continue
		}
		el := Sub(p.now, k.stamp0)
		if same {
			c.Ob(f.Proves(Lt(el, second)), "refill-when-elapsed", k.names, p.x.Pos, "a path gives no credit although a whole second may have elapsed")
			c.Ob(eqI(f, p.count, Add(k.count0, unit)), "no-refill-before-second", k.names, p.x.Pos, "the level becomes %s although no elapsed time is credited", p.count)
			continue
		}
		c.Ob(f.Proves(Le(second, el)), "no-refill-before-second", k.names, p.x.Pos, "a path credits time although less than a second may have elapsed")
		q := Quo(el, second)
		c.Ob(f.Proves(Le(p.stamp, p.now)) && f.Proves(Le(Add(k.stamp0, Mul(q, second)), p.stamp)), "credited-once", k.names, p.x.Pos, "the stamp becomes %s: it must lie between the end of the credited time and the current instant", p.stamp)
		bs := c.refilled(k, p, L, R, token)
		c.Ob(len(bs) > 0, "refill-amount", k.names, p.x.Pos, "no feasible refill")
		for _, b := range bs {
			c.Ob(eqI(b.st.Facts, p.count, Add(b.v, unit)), "refill-amount", k.names, p.x.Pos, "after a refill and a call %s the level is %s; whole elapsed seconds times the rate, clamped, give %s", word(p.admit), p.count, Add(b.v, unit))
		}
	}
}

type refill struct {
	st *State
	v  *T
}

// refilled is the level right after crediting, by cases of the clamp.
func (c *Ctx) refilled(k *counting, p cpath, L, R *T, token bool) []refill {
	q := Quo(Sub(p.now, k.stamp0), second)
	var out []refill
	if token {
		full := Add(k.count0, Mul(q, R))
		if s := p.x.State.Fork().Assume(k.in, Le(full, L)); s != nil {
			out = append(out, refill{s, full})
		}
		if s := p.x.State.Fork().Assume(k.in, Lt(L, full)); s != nil {
			out = append(out, refill{s, L})
		}
		return out
	}
	low := Sub(k.count0, Mul(q, R))
	if s := p.x.State.Fork().Assume(k.in, Le(Int(0), low)); s != nil {
		out = append(out, refill{s, low})
	}
	if s := p.x.State.Fork().Assume(k.in, Lt(low, Int(0))); s != nil {
		out = append(out, refill{s, Int(0)})
	}
	return out
}

var _ = big.NewInt
