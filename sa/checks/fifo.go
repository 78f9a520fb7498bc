package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C15", Title: "Ring buffers are exact FIFO queues within their capacity", Level: "other",
		Rule:   "refinement of a sequence, per method and per path. The abstract content of a buffer is the sequence q[k] = data[(out+k) mod size], 0 <= k < in-out; the roles of the fields are found from what Cap, Len and the storage field are. The invariant (0 <= in-out <= size = len(data), mask = size-1 with size a power of two where indices are masked) is assumed on entry, must be established by every constructor and re-established on every exit. Each exported method has a sequence contract (Push appends, Pop removes the first and returns it, bulk push appends the first min(len, room), bulk pops move out the first min(wanted, stored) in order, Grow and observers keep the sequence, ...). On every exit the element at a symbolic position k of the new sequence, and of the result, is read from the abstract memory (range copies and single stores resolved by the linear facts of the path, wrapped and unwrapped cases separately) and must be the element the contract names. Panics may be reached only when the buffer is empty, full, or the size exceeds the limit, and must be reached then; no index, slice bound, division or subtraction may fail",
		Run:    func(c *Ctx) { fifos(c, false) },
		Tech:   "abstract interpretation of Go SSA with range-copy memory and linear/modular facts; refinement of an abstract sequence at a symbolic position",
		Note:   "counters do not reach 2^64; the storage slice is not shared with the caller",
		Assume: []string{"fewer than 2^64 elements pass through one buffer", "callers do not hold the private storage"}})
	register(&Check{ID: "C16", Title: "Fixed-size ring buffers are safe for one producer and one consumer", Level: "other",
		Rule:   "rely-guarantee analysis of every producer method (those that change the write counter) and consumer method (those that change the read counter) of the fixed rings: every read of the other side's counter is atomic and returns any value the other side may have reached since (monotone, bounded by the capacity); each side stores only its own counter, atomically, once per path and after its last slot access; every slot read is shown, from counter readings made before it, to be one that is filled, every slot written one that is free; the amount published is the number of slots accessed, and the elements moved are the ones the sequence contract names under all such interferences",
		Run:    func(c *Ctx) { fifos(c, true) },
		Tech:   "rely-guarantee interference in an abstract interpreter of Go SSA, event-order (publish after access) and slot-range obligations",
		Note:   "one producer and one consumer, no Reset; Go's sync/atomic operations are sequentially consistent",
		Assume: []string{"exactly one producer and one consumer goroutine", "sync/atomic orders memory as the Go memory model says"}})
}

// fifoLay is where a ring buffer type keeps its parts.
type fifoLay struct {
	nt                       *types.Named
	st                       types.Type
	in, out, size, mask, arr int // field numbers; mask is -1 if there is none
	growing                  bool
	pow2                     bool
	max                      *T
}

type fifo struct {
	c    *Ctx
	in   *Interp
	lay  *fifoLay
	r    *T
	base *T // the counter whose slot positions are measured from
}

func (q *fifo) at(i int) *T { return FieldAddr(q.r, q.lay.st, i) }
func (q *fifo) typ(i int) types.Type {
	return structOf(q.lay.st).Field(i).Type()
}
func (q *fifo) et() types.Type { return q.typ(q.lay.arr).Underlying().(*types.Slice).Elem() }

// pre is the content of a field on entry.
func (q *fifo) pre(i int) *T { return Mk("init", "", q.typ(i), q.at(i)) }

func (q *fifo) elem(base, i *T) *T {
	return Mk("elem", "", types.NewPointer(q.et()), base, i)
}

// linear splits a term into the addresses whose contents are added and subtracted in it.
func lenRoles(t *T) (plus, minus *T) {
	var as []*T
	Contains(t, func(s *T) bool {
		if s.Op == "init" {
			as = append(as, s)
		}
		return false
	})
	for _, a := range as {
		if d := Sub(t, a); !Contains(d, func(x *T) bool { return x == a }) {
			plus = a
			continue
		}
		if d := Add(t, a); !Contains(d, func(x *T) bool { return x == a }) {
			minus = a
		}
	}
	if plus == nil || minus == nil || Sub(plus, minus) != t {
		return nil, nil
	}
	return plus, minus
}

func fieldIndex(st types.Type, recv, a *T) int {
	s := structOf(st)
	for i := 0; i < s.NumFields(); i++ {
		if FieldAddr(recv, st, i) == a {
			return i
		}
	}
	return -1
}

// single runs a method without parameters and returns its result if all paths agree on it.
func single(c *Ctx, fn *ssa.Function) *T {
	in := NewInterp(c.P, &Config{})
	var v *T
	for _, x := range in.Run(fn) {
		if x.Kind != "return" || len(x.Res) != 1 || v != nil && v != x.Res[0] {
			return nil
		}
		v = x.Res[0]
	}
	return v
}

func fifoLayOf(c *Ctx, nt *types.Named) *fifoLay {
	ms := map[string]*ssa.Function{}
	for _, f := range exportedMethods(c.P, nt) {
		ms[f.Name()] = f
	}
	for _, n := range []string{"Push", "Pop", "Len", "Cap", "MPush", "MPop"} {
		if ms[n] == nil {
			return nil
		}
	}
	r := Params(ms["Len"])[0]
	st := ptrElem(r.Typ)
	if structOf(st) == nil {
		return nil
	}
	l := &fifoLay{nt: nt, st: st, mask: -1, arr: -1, growing: ms["Grow"] != nil}
	name := nt.Obj().Pkg().Path() + "." + nt.Obj().Name()
	n := single(c, ms["Len"])
	k := single(c, ms["Cap"])
	if n == nil || k == nil {
		c.Fail("fifo-layout", name, ms["Len"].Pos(), "Len and Cap are not understood")
		return nil
	}
	p, m := lenRoles(n)
	if p == nil || len(k.Args) != 1 || k.Op != "init" {
		c.Fail("fifo-layout", name, ms["Len"].Pos(), "Len is %v and Cap is %v, not the difference of two counters and a size field", n, k)
		return nil
	}
	l.in, l.out = fieldIndex(st, r, p.Args[0]), fieldIndex(st, r, m.Args[0])
	l.size = fieldIndex(st, Params(ms["Cap"])[0], k.Args[0])
	s := structOf(st)
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
			if _, ok := sl.Elem().(*types.TypeParam); ok && l.arr < 0 {
				l.arr = i
			}
		} else if i != l.in && i != l.out && i != l.size && isPlainInt(s.Field(i).Type()) {
			l.mask = i
		}
	}
	if l.in < 0 || l.out < 0 || l.size < 0 || l.arr < 0 || l.in == l.out || l.in == l.size || l.out == l.size {
		c.Fail("fifo-layout", name, ms["Len"].Pos(), "the counters, the size and the storage are not four fields of the buffer")
		return nil
	}
	if cn, ok := nt.Obj().Pkg().Scope().Lookup("MaxSize").(*types.Const); ok {
		if b, ok := new(big.Int).SetString(cn.Val().ExactString(), 10); ok {
			l.max = IntBig(b)
		}
	}
	if l.max == nil {
		c.Fail("fifo-layout", name, ms["Len"].Pos(), "the documented size limit MaxSize is not found")
		return nil
	}
	return l
}

// powOf2 says whether a size term is a power of two, given facts; why explains a refusal.
func powOf2(f *FactNode, t *T) string {
	if k, ok := ConstOf(t); ok {
		if k.Sign() > 0 && new(big.Int).And(k, new(big.Int).Sub(k, big.NewInt(1))).Sign() == 0 {
			return ""
		}
		return fmt.Sprintf("%s is not a power of two", t)
	}
	if t.Op == "shl" && t.Args[0] == Int(1) {
		b := t.Args[1]
		lim := IntBig(new(big.Int).Lsh(big.NewInt(1), 63))
		if b.Op == "bits.Len" && len(b.Args) == 1 && f.Proves(Lt(b.Args[0], lim)) || f.Proves(Lt(b, Int(64))) {
			return ""
		}
		return fmt.Sprintf("the size %s may exceed 64 bits and become 0", t)
	}
	return fmt.Sprintf("%s is not shown to be a power of two", t)
}

// covers: the rounded size is at least what was asked for.
func covers(f *FactNode, size, want *T) bool {
	if f.Proves(Le(want, size)) {
		return true
	}
	// 1 << bits.Len(w-1) >= w
	return size.Op == "shl" && size.Args[0] == Int(1) && size.Args[1].Op == "bits.Len" && f.Proves(Le(want, Add(size.Args[1].Args[0], Int(1))))
}

func fifos(c *Ctx, spsc bool) {
	n := 0
	for _, nt := range namedTypes(c.P, "common/container/ringbuffer") {
		if len(exportedMethods(c.P, nt)) == 0 {
			continue
		}
		l := fifoLayOf(c, nt)
		if l == nil {
			continue
		}
		if spsc && l.growing {
			continue
		}
		n++
		if !spsc {
			for _, fn := range constructors(c.P, nt) {
				fifoCtor(c, l, fn)
			}
		} else {
			for _, fn := range constructors(c.P, nt) {
				fifoPow2(c, l, fn)
			}
		}
		k := 0
		for _, fn := range exportedMethods(c.P, nt) {
			if spsc {
				if fifoShared(c, l, fn) {
					k++
				}
			} else if fifoMethod(c, l, fn) {
				k++
			}
		}
		c.Need("methods of "+nt.Obj().Pkg().Name()+"."+nt.Obj().Name(), k, 5)
	}
	if spsc {
		c.Need("fixed ring buffers", n, 2)
	} else {
		c.Need("ring buffers", n, 3)
	}
}

// fifoPow2 notes whether every constructor makes sizes that may be masked.
func fifoPow2(c *Ctx, l *fifoLay, fn *ssa.Function) {
	in := NewInterp(c.P, &Config{})
	l.pow2 = l.mask >= 0
	for _, x := range in.Run(fn) {
		if x.Kind == "return" && len(x.Res) == 1 && l.mask >= 0 {
			o := x.Res[0]
			st := ptrElem(o.Typ)
			sz := in.LoadOne(x.State, FieldAddr(o, st, l.size), types.Typ[types.Uint64])
			if sz == nil || powOf2(x.Facts, sz) != "" {
				l.pow2 = false
			}
		}
	}
}

// fifoCtor: a constructor returns an empty buffer of the asked size and refuses bad sizes.
func fifoCtor(c *Ctx, l *fifoLay, fn *ssa.Function) {
	name := ShortName(fn)
	in := NewInterp(c.P, &Config{})
	exits := in.Run(fn)
	c.Complete(in, fn)
	if len(Params(fn)) != 1 {
		c.Fail("ctor", name, fn.Pos(), "the constructor does not take just the size")
		return
	}
	want := Params(fn)[0]
	l.pow2 = l.mask >= 0
	rets := 0
	for _, x := range exits {
		f := x.Facts
		bad := Or(Lt(l.max, want), EqInt(want, Int(0)))
		if l.growing {
			bad = Lt(l.max, want)
		}
		if x.Kind != "return" {
			ok := f.Proves(bad)
			if !ok && l.mask >= 0 { // the rounded size exceeds the limit, a power of two, exactly when the asked one does
				ok = powOf2(nil, l.max) == "" && fifoRounded(f, l.max)
			}
			c.Ob(ok, "panic-only-when-documented", name, x.Pos, "a buffer of an allowed size is refused")
			continue
		}
		rets++
		o := x.Res[0]
		st := ptrElem(o.Typ)
		get := func(i int) *T {
			return in.LoadOne(x.State, FieldAddr(o, st, i), structOf(st).Field(i).Type())
		}
		inn, out, size, data := get(l.in), get(l.out), get(l.size), get(l.arr)
		if inn == nil || out == nil || size == nil || data == nil {
			c.Fail("ctor", name, x.Pos, "the new buffer is not understood")
			continue
		}
		if l.mask >= 0 {
			why := powOf2(f, size)
			l.pow2 = l.pow2 && why == ""
			c.Ob(why == "", "mask", name, x.Pos, "%s", why)
			m := get(l.mask)
			c.Ob(m != nil && (m == Sub(size, Int(1)) || f.Proves(EqInt(m, Sub(size, Int(1))))), "mask", name, x.Pos, "the mask of the new buffer is %v for a size of %v", m, size)
			c.Ob(covers(f, size, want), "size", name, x.Pos, "the size %v is not shown to be at least the size asked for", size)
		} else {
			c.Ob(size == want || f.Proves(EqInt(size, want)), "size", name, x.Pos, "the size of the new buffer is %v, asked was %v", size, want)
		}
		c.Ob(f.With(bad).Infeasible(), "bad-size-refused", name, x.Pos, "a size that is zero or above the limit is accepted")
		c.Ob(inn == out || f.Proves(EqInt(inn, out)), "starts-empty", name, x.Pos, "the counters of the new buffer are %v and %v", inn, out)
		c.Ob(LenOf(data) == size || f.Proves(EqInt(LenOf(data), size)), "storage", name, x.Pos, "the storage has %v slots for a size of %v", LenOf(data), size)
	}
	c.Ob(rets > 0, "returns", name, fn.Pos(), "%s never returns", fn.Name())
}

// fifoRounded: the facts say that 1<<bits.Len(w-1) exceeds the limit.
func fifoRounded(f *FactNode, max *T) bool {
	return mentioned(f, func(s *T) bool {
		return s.Op == "shl" && s.Args[0] == Int(1) && s.Args[1].Op == "bits.Len" && f.Proves(Lt(max, s))
	}) != nil
}

// quotients lists the divisions in the terms.
func quotients(ts ...*T) []*T {
	var out []*T
	seen := map[*T]bool{}
	for _, t := range ts {
		if t == nil {
			continue
		}
		Contains(t, func(s *T) bool {
			if s.Op == "quo" && !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
			return false
		})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// branches splits facts until the remainders in them and in the terms are known: a number below the
// modulus is its own remainder; base+j has remainder p+j or p+j-size, where p is that of base and
// 0 <= j <= size.
func (q *fifo) branches(f *FactNode, ts ...*T) []*FactNode {
	l := q.lay
	size := q.pre(l.size)
	all := append(append([]*T{}, ts...), f.List()...)
	all = append(all, Rem(q.pre(l.in), size))
	out := []*FactNode{f}
	for _, d := range quotients(all...) {
		x, s := d.Args[0], d.Args[1]
		r := Rem(x, s)
		var next []*FactNode
		for _, g := range out {
			if !g.Proves(Lt(Int(0), s)) || !g.Proves(Ge0(x)) {
				next = append(next, g)
				continue
			}
			g = g.With(Ge0(r)).With(Lt(r, s))
			j := Sub(x, q.base)
			switch {
			case x != q.base && s == size && g.Proves(Ge0(j)) && g.Proves(Le(j, s)):
				p := Rem(q.base, s)
				g = g.With(Ge0(p)).With(Lt(p, s))
				next = append(next, g.With(Lt(Add(p, j), s)).With(EqInt(r, Add(p, j))), g.With(Le(s, Add(p, j))).With(EqInt(r, Sub(Add(p, j), s))))
			case g.Proves(Lt(x, s)):
				next = append(next, g.With(EqInt(r, x)))
			default:
				next = append(next, g)
			}
		}
		out = nil
		for _, g := range next {
			if !g.Infeasible() {
				out = append(out, g)
			}
		}
	}
	return out
}

// entry are the facts assumed about a buffer.
func (q *fifo) entry(args ...*T) []*T {
	l := q.lay
	in, out, size, data := q.pre(l.in), q.pre(l.out), q.pre(l.size), q.pre(l.arr)
	fs := []*T{Not(Eq(q.r, Nil)), Ge0(Sub(in, out)), Le(Sub(in, out), size), EqInt(LenOf(data), size), Ge0(Sub(CapOf(data), size)), Ge0(out), Le(size, l.max), EqInt(OffOf(data), Int(0))}
	if l.growing {
		fs = append(fs, Ge0(size))
	} else {
		fs = append(fs, Lt(Int(0), size))
	}
	if l.mask >= 0 {
		fs = append(fs, EqInt(q.pre(l.mask), Sub(size, Int(1))))
	}
	for _, a := range args {
		if _, ok := a.Typ.Underlying().(*types.Slice); ok {
			fs = append(fs, Ge0(LenOf(a)), Le(LenOf(a), CapOf(a)), Ge0(OffOf(a)), Le(CapOf(a), IntBig(new(big.Int).Lsh(big.NewInt(1), 62))))
		} else if isPlainInt(a.Typ) {
			fs = append(fs, Ge0(a))
		}
	}
	return fs
}

func (q *fifo) config() *Config {
	l := q.lay
	cfg := &Config{}
	if l.mask >= 0 && l.pow2 {
		cfg.AndHook = func(a, b *T) *T {
			m, s := q.pre(l.mask), q.pre(l.size)
			for _, p := range [][2]*T{{a, b}, {b, a}} {
				if p[1] == m || p[1] == Sub(s, Int(1)) {
					return Rem(p[0], s)
				}
			}
			return nil
		}
	}
	// the private storage is not reachable from the arguments
	cfg.AliasHook = func(a, b *T) int {
		mine := func(t *T) bool { return origin(t) == q.r }
		if mine(a) != mine(b) {
			return 2 // never
		}
		return 0
	}
	return cfg
}

// noFaults: nothing can fail at run time on the path.
func (q *fifo) noFaults(name string, exits []*Exit) {
	bad := map[token.Pos]bool{}
	n := 0
	for _, e := range allEvents(exits) {
		if e.Kind != "ob" || e.Val == nil {
			continue
		}
		n++
		if e.Facts.Proves(e.Val) || e.Facts.Infeasible() {
			continue
		}
		for _, g := range q.branches(e.Facts, e.Val) {
			if !g.Proves(e.Val) && !bad[e.Pos] {
				bad[e.Pos] = true
				q.c.Fail("no-fault", name, e.Pos, "%s may fail here: %s is not shown", e.Name, e.Val)
			}
		}
	}
	q.c.Add("obligations of bounds and arithmetic", n)
}

// slot calls k with the slot of the element at counter+i, per wrap case.
func (q *fifo) slot(f *FactNode, counter, i, size *T, k func(f *FactNode, idx *T) string) string {
	p, j := Rem(counter, size), i
	if size == q.pre(q.lay.size) || f.Proves(EqInt(size, q.pre(q.lay.size))) {
		// the same positions as before: relative to the base counter
		p, j = Rem(q.base, q.pre(q.lay.size)), Sub(Add(counter, i), q.base)
	}
	at := Add(p, j)
	for _, g := range q.branches(f, at) {
		for wrap, c := range []*T{Lt(at, size), Le(size, at)} {
			h := g.With(c)
			if h.Infeasible() {
				continue
			}
			idx := at
			if wrap == 1 {
				idx = Sub(at, size)
			}
			if !h.Proves(Ge0(idx)) || !h.Proves(Lt(idx, size)) {
				return fmt.Sprintf("the position %s+%s is not shown to be a slot of the storage", counter, i)
			}
			if w := k(h, idx); w != "" {
				return w
			}
		}
	}
	return ""
}

// same: two values are equal, possibly as the same element reached by equal indices.
func sameValue(f *FactNode, v, w *T) bool {
	if v == w || f.Proves(Eq(v, w)) {
		return true
	}
	if v.Op == "init" && w.Op == "init" && v.Args[0].Op == "elem" && w.Args[0].Op == "elem" && v.Args[0].Args[0] == w.Args[0].Args[0] {
		return f.Proves(EqInt(v.Args[0].Args[1], w.Args[0].Args[1]))
	}
	return false
}

// read calls k with every possible content of an element.
func (q *fifo) read(m *Mem, f *FactNode, slice, i *T, k func(f *FactNode, v *T) string) string {
	ss, vs := q.in.LoadAll(&State{Mem: m, Facts: f, Clock: 1 << 20}, q.elem(BaseOf(slice), Add(OffOf(slice), i)), q.et())
	for n, v := range vs {
		if ss[n].Facts.Infeasible() {
			continue
		}
		if w := k(ss[n].Facts, v); w != "" {
			return w
		}
	}
	return ""
}

// fifoState is the buffer at one point.
type fifoState struct {
	mem                  *Mem
	in, out, size, store *T
}

func (q *fifo) after(m *Mem, f *FactNode) *fifoState {
	l := q.lay
	get := func(i int) *T {
		return q.in.LoadOne(&State{Mem: m, Facts: f, Clock: 1 << 20}, q.at(i), q.typ(i))
	}
	s := &fifoState{m, get(l.in), get(l.out), get(l.size), get(l.arr)}
	if s.in == nil || s.out == nil || s.size == nil || s.store == nil {
		return nil
	}
	return s
}

// fifoOp is what a method does to the sequence.
type fifoOp struct {
	drop *T // number of elements removed from the front
	add  *T // number appended
	val  func(f *FactNode, j *T, k func(f *FactNode, v *T) string) string
}

// moved checks that the sequence after is the one before without drop elements and with add more.
func (q *fifo) moved(f *FactNode, b, a *fifoState, op fifoOp) string {
	n := Sub(b.in, b.out)
	m := Sub(a.in, a.out)
	left := Sub(n, op.drop)
	if want := Add(left, op.add); m != want && !f.Proves(EqInt(m, want)) {
		return fmt.Sprintf("%s elements are stored, expected %s", m, want)
	}
	k := Mk("any", "position", types.Typ[types.Int])
	w := q.slot(f.With(Ge0(k)).With(Lt(k, left)), a.out, k, a.size, func(f *FactNode, i *T) string {
		return q.slot(f, b.out, Add(op.drop, k), b.size, func(f *FactNode, j *T) string {
			return q.read(a.mem, f, a.store, i, func(f *FactNode, v *T) string {
				return q.read(b.mem, f, b.store, j, func(f *FactNode, w *T) string {
					if sameValue(f, v, w) {
						return ""
					}
					return fmt.Sprintf("a kept element changes: slot %s holds %s, expected %s", i, v, w)
				})
			})
		})
	})
	if w != "" || op.add == Int(0) {
		return w
	}
	return q.slot(f.With(Ge0(k)).With(Lt(k, op.add)), a.out, Add(left, k), a.size, func(f *FactNode, i *T) string {
		return q.read(a.mem, f, a.store, i, func(f *FactNode, v *T) string {
			return op.val(f, k, func(f *FactNode, w *T) string {
				if sameValue(f, v, w) {
					return ""
				}
				return fmt.Sprintf("an element pushed is %s, expected %s", v, w)
			})
		})
	})
}

// valid checks the invariant of the buffer.
func (q *fifo) valid(f *FactNode, x *Exit, a *fifoState) string {
	if !f.Proves(EqInt(LenOf(a.store), a.size)) {
		return fmt.Sprintf("the storage has %s slots, the size is %s", LenOf(a.store), a.size)
	}
	if n := Sub(a.in, a.out); !f.Proves(Ge0(n)) || !f.Proves(Le(n, a.size)) {
		return fmt.Sprintf("%s elements in %s slots", n, a.size)
	}
	if !f.Proves(Ge0(a.out)) {
		return fmt.Sprintf("the read counter is %s", a.out)
	}
	if q.lay.mask >= 0 {
		m := q.in.LoadOne(x.State, q.at(q.lay.mask), q.typ(q.lay.mask))
		if m == nil || !f.Proves(EqInt(m, Sub(a.size, Int(1)))) {
			return fmt.Sprintf("the mask is %v, the size is %s", m, a.size)
		}
		if a.size != q.pre(q.lay.size) && !f.Proves(EqInt(a.size, q.pre(q.lay.size))) {
			return "the size of a masked buffer changes"
		}
	}
	return ""
}

// taken checks that the first m elements of the sequence are what dst holds from its start.
func (q *fifo) taken(f *FactNode, fin *Mem, b *fifoState, dst, m *T) string {
	k := Mk("any", "position", types.Typ[types.Int])
	return q.slot(f.With(Ge0(k)).With(Lt(k, m)), b.out, k, b.size, func(f *FactNode, j *T) string {
		return q.read(fin, f, dst, k, func(f *FactNode, v *T) string {
			return q.read(b.mem, f, b.store, j, func(f *FactNode, w *T) string {
				if sameValue(f, v, w) {
					return ""
				}
				return fmt.Sprintf("element %s handed out is %s, expected %s", k, v, w)
			})
		})
	})
}

func (q *fifo) first(f *FactNode, b *fifoState, v *T) string {
	return q.slot(f, b.out, Int(0), b.size, func(f *FactNode, j *T) string {
		return q.read(b.mem, f, b.store, j, func(f *FactNode, w *T) string {
			if sameValue(f, v, w) {
				return ""
			}
			return fmt.Sprintf("%s is returned, the first element is %s", v, w)
		})
	})
}

// param elements of a slice argument
func (q *fifo) argElem(s *T) func(f *FactNode, j *T, k func(f *FactNode, v *T) string) string {
	return func(f *FactNode, j *T, k func(f *FactNode, v *T) string) string {
		return q.read(nil, f, s, j, k)
	}
}

func (q *fifo) value(v *T) func(f *FactNode, j *T, k func(f *FactNode, v *T) string) string {
	return func(f *FactNode, j *T, k func(f *FactNode, v *T) string) string { return k(f, v) }
}

// fifoMethod decides one exported method by its sequence contract.
func fifoMethod(c *Ctx, l0 *fifoLay, fn *ssa.Function) bool {
	name := ShortName(fn)
	ps := Params(fn)
	st := ptrElem(ps[0].Typ)
	if st == nil || structOf(st) == nil {
		return false
	}
	l := *l0
	l.st = st
	q := &fifo{c: c, lay: &l, r: ps[0]}
	q.in = NewInterp(c.P, q.config())
	q.base = q.pre(l.out)
	exits := q.in.Run(fn, q.entry(ps[1:]...)...)
	c.Complete(q.in, fn)
	q.noFaults(name, exits)
	b := &fifoState{nil, q.pre(l.in), q.pre(l.out), q.pre(l.size), q.pre(l.arr)}
	n := Sub(b.in, b.out)
	room := Sub(b.size, n)
	type kase struct {
		cond *T
		op   fifoOp
		k    *T
	}
	always := func(op fifoOp) []kase { return []kase{{True, op, nil}} }
	min := func(a, b *T, op func(m *T) fifoOp) []kase {
		return []kase{{Le(a, b), op(a), a}, {Lt(b, a), op(b), b}}
	}
	none := fifoOp{drop: Int(0), add: Int(0)}
	cases := always(none)
	var mustPanic *T // panics exactly then
	mayPanic := False
	switch fn.Name() {
	case "Pop":
		mustPanic = EqInt(n, Int(0))
		cases = always(fifoOp{drop: Int(1), add: Int(0)})
	case "Peek":
		mustPanic = EqInt(n, Int(0))
	case "Push":
		cases = always(fifoOp{drop: Int(0), add: Int(1), val: q.value(ps[1])})
		if l.growing {
			mayPanic = Or(Lt(l.max, Mul(Int(2), b.size)), Lt(l.max, Add(b.size, Int(1))))
		} else {
			mustPanic = EqInt(room, Int(0))
		}
	case "MPush":
		if l.growing {
			cases = always(fifoOp{drop: Int(0), add: LenOf(ps[1]), val: q.argElem(ps[1])})
			mayPanic = Or(Lt(l.max, Mul(Int(2), b.size)), Lt(l.max, Add(b.size, LenOf(ps[1]))))
		} else {
			cases = min(LenOf(ps[1]), room, func(m *T) fifoOp { return fifoOp{drop: Int(0), add: m, val: q.argElem(ps[1])} })
		}
	case "MPop":
		cases = min(ps[1], n, func(m *T) fifoOp { return fifoOp{drop: m, add: Int(0)} })
	case "MPopCopy":
		cases = min(LenOf(ps[1]), n, func(m *T) fifoOp { return fifoOp{drop: m, add: Int(0)} })
	case "Grow":
		mayPanic = Or(Lt(l.max, Mul(Int(2), b.size)), Lt(l.max, ps[1]))
	case "Reset":
		cases = always(fifoOp{drop: n, add: Int(0)})
	}
	rets := 0
	for _, x := range exits {
		if x.Facts.Infeasible() {
			continue
		}
		if x.Kind != "return" {
			ok := mayPanic != False && x.Facts.Proves(mayPanic) || mustPanic != nil && x.Facts.Proves(mustPanic)
			c.Ob(ok, "panic-only-when-documented", name, x.Pos, "%s may panic in a state where it must not", fn.Name())
			continue
		}
		rets++
		if mustPanic != nil {
			c.Ob(x.Facts.With(mustPanic).Infeasible(), "panic-when-documented", name, x.Pos, "%s returns although the buffer is empty or full", fn.Name())
		}
		for _, ks := range cases {
			for _, f := range q.branches(x.Facts.With(ks.cond)) {
				a := q.after(x.State.Mem, f)
				if a == nil {
					c.Fail("sequence", name, x.Pos, "the buffer after %s is not understood", fn.Name())
					continue
				}
				why := q.valid(f, x, a)
				c.Ob(why == "", "invariant", name, x.Pos, "%s: %s", fn.Name(), why)
				why = q.moved(f, b, a, ks.op)
				c.Ob(why == "", "sequence", name, x.Pos, "%s: %s", fn.Name(), why)
				if fn.Name() != "Grow" && fn.Name() != "Push" && fn.Name() != "MPush" || !l.growing {
					c.Ob(a.size == b.size || f.Proves(EqInt(a.size, b.size)), "capacity", name, x.Pos, "the capacity becomes %s", a.size)
				} else {
					c.Ob(f.Proves(Le(b.size, a.size)), "capacity", name, x.Pos, "the capacity becomes %s", a.size)
				}
				why = ""
				var r *T
				if len(x.Res) == 1 {
					r = x.Res[0]
				}
				is := func(t *T) string {
					if r == t || f.Proves(EqInt(r, t)) {
						return ""
					}
					return fmt.Sprintf("%s is returned, expected %s", r, t)
				}
				isB := func(t *T) string {
					if boolRes(f, r, t) {
						return ""
					}
					return fmt.Sprintf("%s is returned, expected %s", r, t)
				}
				switch fn.Name() {
				case "Pop", "Peek":
					why = q.first(f, b, r)
				case "MPop":
					if !f.Proves(EqInt(LenOf(r), ks.k)) {
						why = fmt.Sprintf("%s elements are returned, expected %s", LenOf(r), ks.k)
					} else if r != Nil && BaseOf(r).Op != "alloc" && Root(r).Op != "alloc" {
						why = "the elements returned share memory with the buffer"
					} else {
						why = q.taken(f, x.State.Mem, b, r, ks.k)
					}
				case "MPopCopy":
					why = q.taken(f, x.State.Mem, b, ps[1], ks.k)
					if why == "" {
						k := Mk("any", "rest", types.Typ[types.Int])
						why = q.read(x.State.Mem, f.With(Le(ks.k, k)).With(Lt(k, LenOf(ps[1]))), ps[1], k, func(f *FactNode, v *T) string {
							return q.read(nil, f, ps[1], k, func(f *FactNode, w *T) string {
								if sameValue(f, v, w) {
									return ""
								}
								return fmt.Sprintf("element %s of the destination, past what was stored, becomes %s", k, v)
							})
						})
					}
				case "Grow":
					if !f.Proves(Le(ps[1], a.size)) {
						why = fmt.Sprintf("the capacity becomes %s, asked for %s", a.size, ps[1])
					}
				case "Len":
					why = is(n)
				case "Cap":
					why = is(b.size)
				case "Avail":
					why = is(room)
				case "Empty":
					why = isB(EqInt(n, Int(0)))
				case "Full":
					why = isB(EqInt(room, Int(0)))
				}
				c.Ob(why == "", "result", name, x.Pos, "%s: %s", fn.Name(), why)
			}
		}
	}
	c.Ob(rets > 0, "returns", name, fn.Pos(), "%s never returns", fn.Name())
	return true
}

// counterWrites says which counters a method changes on some path.
func (q *fifo) counterWrites(exits []*Exit) (in, out bool) {
	for _, e := range allEvents(exits) {
		switch e.Kind {
		case "store", "astore", "aswap", "acas", "aadd":
			in = in || e.Args[0] == q.at(q.lay.in)
			out = out || e.Args[0] == q.at(q.lay.out)
		}
	}
	return
}

// fifoShared decides one method of a ring shared by a producer and a consumer.
func fifoShared(c *Ctx, l0 *fifoLay, fn *ssa.Function) bool {
	name := ShortName(fn)
	if fn.Name() == "Reset" {
		return false // documented as not to be used concurrently
	}
	ps := Params(fn)
	st := ptrElem(ps[0].Typ)
	if st == nil || structOf(st) == nil {
		return false
	}
	l := *l0
	l.st = st
	q := &fifo{c: c, lay: &l, r: ps[0]}
	q.base = q.pre(l.out)
	q.in = NewInterp(c.P, q.config())
	seq := q.in.Run(fn, q.entry(ps[1:]...)...)
	wi, wo := q.counterWrites(seq)
	c.Ob(!(wi && wo), "own-counter-only", name, fn.Pos(), "%s changes both counters", fn.Name())
	if wi && wo {
		return true
	}
	roles := []bool{wi} // producer?
	if !wi && !wo {
		roles = []bool{false, true}
		for _, e := range allEvents(seq) {
			// reading slots is the consumer's business
			if e.Kind == "load" && e.Args[0].Op == "elem" && e.Args[0].Args[0] == BaseOf(q.pre(l.arr)) {
				roles = []bool{false}
			}
		}
	}
	for _, producer := range roles {
		q.sharedAs(fn, producer, wi || wo)
	}
	return true
}

// sharedAs analyses a method run by one side while the other side goes on.
func (q *fifo) sharedAs(fn *ssa.Function, producer, moves bool) {
	c, l, ps := q.c, q.lay, Params(fn)
	role := "consumer"
	own, foreign := l.out, l.in
	if producer {
		role, own, foreign = "producer", l.in, l.out
	}
	name := ShortName(fn)
	if !moves {
		name += " as " + role
	}
	size := q.pre(l.size)
	q.base = q.pre(own)
	cfg := q.config()
	u := types.Typ[types.Uint64]
	cfg.OnAtomic = func(in *Interp, st *State, addr *T, typ types.Type) {
		if addr != q.at(foreign) {
			return
		}
		cur, mine := in.LoadOne(st, q.at(foreign), u), in.LoadOne(st, q.at(own), u)
		v := in.Fresh(st, "now", "other", q.typ(foreign)) // what the other side has reached by now
		st.Facts = st.Facts.With(Ge0(v))
		if cur != nil {
			st.Facts = st.Facts.With(Le(cur, v))
		}
		if mine != nil {
			if producer {
				st.Facts = st.Facts.With(Le(v, mine))
			} else {
				st.Facts = st.Facts.With(Le(v, Add(mine, size)))
			}
		}
		st.Store(q.at(foreign), v, q.typ(foreign))
	}
	q.in = NewInterp(c.P, cfg)
	exits := q.in.Run(fn, q.entry(ps[1:]...)...)
	c.Complete(q.in, fn)
	q.noFaults(name, exits)
	data := BaseOf(q.pre(l.arr))
	k := Mk("any", "slot", types.Typ[types.Int])
	b := &fifoState{nil, q.pre(l.in), q.pre(l.out), size, q.pre(l.arr)}
	rets := 0
	for _, x := range exits {
		if x.Facts.Infeasible() {
			continue
		}
		published := token.NoPos
		isPub := false
		visit(x.Ev.List(), func(e *Event, back *State) {
			var a *T
			if len(e.Args) > 0 {
				a = e.Args[0]
			}
			touch := func(i, n *T) {
				c.Ob(!isPub, "publish-after-access", name, e.Pos, "%s still touches a slot after publishing (%s)", fn.Name(), c.P.Pos(published))
				f := e.Facts
				if n != nil {
					f = f.With(Ge0(k)).With(Lt(k, n))
					i = Add(i, k)
				}
				fo := q.in.LoadAt(e, q.at(foreign), q.typ(foreign))
				ow := q.in.LoadAt(e, q.at(own), q.typ(own))
				why := ""
				if fo == nil || ow == nil {
					why = "the counters are not understood at this access"
				} else {
					for _, g := range q.branches(f, i, Rem(q.base, size)) {
						// the slot is that of own+j with 0 <= j < limit
						limit := Sub(fo, ow)
						if producer {
							limit = Sub(size, Sub(ow, fo))
						}
						p := Rem(q.base, size)
						for _, w := range []*T{Le(p, i), Lt(i, p)} {
							h := g.With(w)
							if h.Infeasible() {
								continue
							}
							j := Sub(i, p)
							if w != Le(p, i) {
								j = Add(j, size)
							}
							if !h.Proves(Ge0(j)) || !h.Proves(Lt(j, limit)) {
								why = fmt.Sprintf("slot %s is touched, not shown by an earlier counter reading to belong to the %s", i, role)
							}
						}
					}
				}
				c.Ob(why == "", "own-slots-only", name, e.Pos, "%s: %s", fn.Name(), why)
			}
			switch e.Kind {
			case "load":
				if a == q.at(foreign) {
					c.Fail("atomic-counters", name, e.Pos, "%s, run by the %s, reads the other side's counter without an atomic operation", fn.Name(), role)
				}
				if a != nil && a.Op == "elem" && a.Args[0] == data {
					touch(a.Args[1], nil)
				}
			case "copy":
				if BaseOf(e.Args[0]) == data {
					if !producer {
						c.Fail("own-slots-only", name, e.Pos, "the consumer writes slots")
					}
					touch(OffOf(e.Args[0]), e.Args[2])
				}
				if BaseOf(e.Args[1]) == data {
					touch(OffOf(e.Args[1]), e.Args[2])
				}
			case "store", "astore", "aswap", "acas", "aadd":
				switch {
				case a == q.at(own):
					c.Ob(e.Kind != "store", "atomic-counters", name, e.Pos, "%s publishes its progress by a plain store", fn.Name())
					c.Ob(!isPub, "published-once", name, e.Pos, "%s publishes its progress in several steps", fn.Name())
					isPub, published = true, e.Pos
				case a == q.at(foreign):
					c.Fail("own-counter-only", name, e.Pos, "%s, run by the %s, changes the other side's counter", fn.Name(), role)
				case a.Op == "elem" && a.Args[0] == data:
					touch(a.Args[1], nil)
				case origin(a) == q.r:
					c.Fail("own-counter-only", name, e.Pos, "%s writes %s, which both sides use", fn.Name(), a)
				}
			}
		})
		if x.Kind != "return" || !moves {
			continue
		}
		rets++
		fo := q.in.LoadOne(x.State, q.at(foreign), u)
		if fo == nil {
			c.Fail("sequence", name, x.Pos, "the counters after %s are not understood", fn.Name())
			continue
		}
		for _, f := range q.branches(x.Facts) {
			a := q.after(x.State.Mem, f)
			if a == nil {
				c.Fail("sequence", name, x.Pos, "the buffer after %s is not understood", fn.Name())
				continue
			}
			var m *T
			now := *b
			var why string
			if producer {
				m = Sub(a.in, b.in)
				now.out = fo
				why = q.pushed(f, &now, a, fn, ps, m)
			} else {
				m = Sub(a.out, b.out)
				now.in = fo
				why = q.popped(f, x, &now, fn, ps, m, Sub(b.in, b.out))
			}
			c.Ob(why == "", "moves-what-it-publishes", name, x.Pos, "%s: %s", fn.Name(), why)
		}
	}
	if moves {
		c.Ob(rets > 0, "returns", name, fn.Pos(), "%s never returns", fn.Name())
	}
}

// pushed: the m slots published by a producer hold the elements it was given.
func (q *fifo) pushed(f *FactNode, b, a *fifoState, fn *ssa.Function, ps []*T, m *T) string {
	if !f.Proves(Ge0(m)) || !f.Proves(Le(Add(Sub(b.in, b.out), m), b.size)) {
		return fmt.Sprintf("%s elements are published, not shown to fit", m)
	}
	val := q.value(ps[len(ps)-1])
	if _, ok := ps[len(ps)-1].Typ.Underlying().(*types.Slice); ok {
		val = q.argElem(ps[len(ps)-1])
		if !f.Proves(Le(m, LenOf(ps[len(ps)-1]))) {
			return fmt.Sprintf("%s elements are published, more than were given", m)
		}
	} else if !f.Proves(EqInt(m, Int(1))) {
		return fmt.Sprintf("%s elements are published, one was given", m)
	}
	k := Mk("any", "position", types.Typ[types.Int])
	return q.slot(f.With(Ge0(k)).With(Lt(k, m)), b.in, k, b.size, func(f *FactNode, i *T) string {
		return q.read(a.mem, f, a.store, i, func(f *FactNode, v *T) string {
			return val(f, k, func(f *FactNode, w *T) string {
				if sameValue(f, v, w) {
					return ""
				}
				return fmt.Sprintf("slot %s is published with %s, expected %s", i, v, w)
			})
		})
	})
}

// popped: the m slots released by a consumer are the ones it handed out.
func (q *fifo) popped(f *FactNode, x *Exit, b *fifoState, fn *ssa.Function, ps []*T, m, atStart *T) string {
	if !f.Proves(Ge0(m)) || !f.Proves(Le(m, Sub(b.in, b.out))) {
		return fmt.Sprintf("%s elements are released, not shown to be stored", m)
	}
	if len(x.Res) == 1 {
		if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); !ok && len(ps) == 1 {
			if !f.Proves(EqInt(m, Int(1))) {
				return fmt.Sprintf("%s elements are released, one is returned", m)
			}
			return q.first(f, b, x.Res[0])
		}
		if !f.Proves(EqInt(LenOf(x.Res[0]), m)) {
			return fmt.Sprintf("%s elements are released, %s returned", m, LenOf(x.Res[0]))
		}
		if !f.Proves(Le(m, ps[1])) {
			return fmt.Sprintf("%s elements are released, more than asked for", m)
		}
		return q.taken(f, x.State.Mem, b, x.Res[0], m)
	}
	if !f.Proves(Le(m, LenOf(ps[1]))) {
		return fmt.Sprintf("%s elements are released, more than the destination holds", m)
	}
	return q.taken(f, x.State.Mem, b, ps[1], m)
}
