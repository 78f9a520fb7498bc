package checks

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C12", Title: "The linked list stays a consistent ring and honours element ownership", Level: "other",
		Rule:   "the list invariant (sentinel and elements form rings of mutually inverse next/prev pointers; an element names its list; the sentinel names none; the length is zero exactly for the lone sentinel; or the list is the untouched zero value) is assumed on entry of every exported method, case by case (zero, empty, non-empty; arguments in this list or not). On every exit the memory is compared, under every aliasing of the nodes involved, with the memory that the named splice produces: insertion after a node, removal, move, or nothing. Splices keep a ring a ring, so the invariant is inductive. Bulk pushes: every loop iteration is one such insertion of the walked element's value and the loop runs exactly the initial length of the other list. Clear disowns every element it walks over. No pointer that may be nil is dereferenced",
		Run:    ringList,
		Tech:   "abstract interpretation of Go SSA over a symbolic heap with ring axioms, compared with a reference splice under all aliasings; inductive loop bodies",
		Note:   "elements passed are not nil and lists passed are not nil; RemoveFront and RemoveBack are called on non-empty lists; Value fields written by the caller are the caller's business",
		Assume: []string{"list fields are changed only by the package (they are unexported)"}})
	register(&Check{ID: "C17", Title: "Stack, deque, set and priority queue keep their discipline", Level: "other",
		Rule:   "each operation is interpreted down to the ring, map or heap that holds the elements, from every state satisfying its invariant, and its net effect must be the one its name promises: insertion of the argument at the named end, removal of the element at the named end and return of its value, or none; observers change nothing and report the element at the end Pop takes and the exact count. Stack: Push, Pop and Peek use one end. Set: membership of the argument, and of nothing else, is set or erased. Priority queue: the heap rules of C13",
		Run:    disciplines,
		Tech:   "abstract interpretation of Go SSA over a symbolic heap with ring axioms, map membership algebra, heap typestate",
		Note:   "elements are removed only from non-empty containers; comparison functions are strict weak orders",
		Assume: []string{"containers are made by their constructors"}})
}

// ringLay says how a list and its elements are laid out.
type ringLay struct {
	lt, et               types.Type
	root, ln             int
	next, prev, own, val int
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// ringLayOf finds the layout of a list type; next is told from prev by the element's methods.
func ringLayOf(c *Ctx, lt types.Type) *ringLay {
	ls := structOf(lt)
	if ls == nil {
		return nil
	}
	r := &ringLay{lt: lt, root: -1, ln: -1, next: -1, prev: -1, own: -1, val: -1}
	var self, ends []int
	for i := 0; i < ls.NumFields(); i++ {
		ft := ls.Field(i).Type()
		if isPlainInt(ft) {
			r.ln = i
			continue
		}
		es := structOf(ft)
		if es == nil {
			continue
		}
		var own, val []int
		self = nil
		for j := 0; j < es.NumFields(); j++ {
			p := ptrElem(es.Field(j).Type())
			switch {
			case p != nil && types.Identical(p, ft):
				self = append(self, j)
			case p != nil && types.Identical(p, lt):
				own = append(own, j)
			default:
				val = append(val, j)
			}
		}
		if len(self) == 2 && len(own) == 1 && len(val) == 1 {
			r.root, r.et, r.own, r.val = i, ft, own[0], val[0]
			ends = self
		}
	}
	if r.root < 0 || r.ln < 0 {
		return nil
	}
	et, ok := r.et.(*types.Named)
	if !ok {
		return nil
	}
	for _, fn := range exportedMethods(c.P, et.Origin()) {
		if fn.Name() != "Next" && fn.Name() != "Prev" {
			continue
		}
		in := NewInterp(c.P, &Config{})
		for _, x := range in.Run(fn) {
			if x.Kind != "return" || len(x.Res) != 1 {
				continue
			}
			t := x.Res[0]
			if t.Op == "init" && t.Args[0].Op == "field" {
				for _, j := range ends {
					if t.Args[0] == FieldAddr(t.Args[0].Args[0], Params(fn)[0].Typ.Underlying().(*types.Pointer).Elem(), j) {
						if fn.Name() == "Next" {
							r.next = j
						} else {
							r.prev = j
						}
					}
				}
			}
		}
	}
	if r.next < 0 || r.prev < 0 || r.next == r.prev {
		return nil
	}
	return r
}

// ring is one list under analysis.
type ring struct {
	c   *Ctx
	in  *Interp
	lay *ringLay
	l   *T // the list
}

func (r *ring) ptrT() types.Type        { return types.NewPointer(r.lay.et) }
func (r *ring) rootOf(l *T) *T          { return FieldAddr(l, r.lay.lt, r.lay.root) }
func (r *ring) root() *T                { return r.rootOf(r.l) }
func (r *ring) nx(x *T) *T              { return FieldAddr(x, r.lay.et, r.lay.next) }
func (r *ring) pv(x *T) *T              { return FieldAddr(x, r.lay.et, r.lay.prev) }
func (r *ring) ow(x *T) *T              { return FieldAddr(x, r.lay.et, r.lay.own) }
func (r *ring) va(x *T) *T              { return FieldAddr(x, r.lay.et, r.lay.val) }
func (r *ring) ln(l *T) *T              { return FieldAddr(l, r.lay.lt, r.lay.ln) }
func (r *ring) fieldT(i int) types.Type { return structOf(r.lay.et).Field(i).Type() }

func (r *ring) one(m *Mem, f *FactNode, addr *T, typ types.Type) *T {
	return r.in.LoadOne(&State{Mem: m, Facts: f, Clock: 1 << 20}, addr, typ)
}

// each runs k for every value an address may hold.
func (r *ring) each(m *Mem, f *FactNode, addr *T, typ types.Type, k func(f *FactNode, v *T) string) string {
	ss, vs := r.in.LoadAll(&State{Mem: m, Facts: f, Clock: 1 << 20}, addr, typ)
	for i, s := range ss {
		if s.Facts.Infeasible() {
			continue
		}
		if why := k(s.Facts, vs[i]); why != "" {
			return why
		}
	}
	return ""
}

// axioms of a node x in the ring of list l, over memory m.
func (r *ring) axioms(m *Mem, f *FactNode, x, l *T) []*T {
	root := r.rootOf(l)
	n, p := r.one(m, f, r.nx(x), r.ptrT()), r.one(m, f, r.pv(x), r.ptrT())
	var out []*T
	add := func(t *T) {
		if t != nil {
			out = append(out, t)
		}
	}
	side := func(y *T, back func(*T) *T) {
		if y == nil {
			return
		}
		add(Not(Eq(y, Nil)))
		if b := r.one(m, f, back(y), r.ptrT()); b != nil {
			add(Eq(b, x))
		}
		if o := r.one(m, f, r.ow(y), r.fieldT(r.lay.own)); o != nil {
			add(Or(Eq(y, root), Eq(o, l)))
		}
	}
	side(n, r.pv)
	side(p, r.nx)
	if x == root {
		if o := r.one(m, f, r.ow(root), r.fieldT(r.lay.own)); o != nil {
			add(Eq(o, Nil))
		}
	}
	return out
}

// ringCase is one kind of state of a list.
type ringCase struct {
	name  string
	facts []*T
}

func (r *ring) cases(m *Mem, f *FactNode, l *T) []ringCase {
	root := r.rootOf(l)
	n, p := r.one(m, f, r.nx(root), r.ptrT()), r.one(m, f, r.pv(root), r.ptrT())
	k := r.one(m, f, r.ln(l), types.Typ[types.Int])
	o := r.one(m, f, r.ow(root), r.fieldT(r.lay.own))
	if n == nil || p == nil || k == nil || o == nil {
		return nil
	}
	return []ringCase{
		{"zero", []*T{Eq(n, Nil), Eq(p, Nil), EqInt(k, Int(0)), Eq(o, Nil)}},
		{"empty", []*T{Eq(n, root), Eq(p, root), EqInt(k, Int(0)), Eq(o, Nil)}},
		{"non-empty", append(append([]*T{Not(Eq(n, root)), Not(Eq(p, root)), Ge0(Sub(k, Int(1))),
			Eq(r.one(m, f, r.ow(n), r.fieldT(r.lay.own)), l), Eq(r.one(m, f, r.ow(p), r.fieldT(r.lay.own)), l)}, r.axioms(m, f, root, l)...), append(r.axioms(m, f, n, l), r.axioms(m, f, p, l)...)...)},
	}
}

func withAll(f *FactNode, ts []*T) *FactNode {
	for _, t := range ts {
		if t != nil {
			f = f.With(t)
		}
	}
	return f
}

// reference splices: each continues with the memory after it.
type ringK func(m *Mem, f *FactNode) string

func (r *ring) set(m *Mem, f *FactNode, kv ...*T) *Mem {
	st := &State{Mem: m, Facts: f, Clock: 1 << 20}
	for i := 0; i+1 < len(kv); i += 2 {
		st.Store(kv[i], kv[i+1], nil2ptr(kv[i+1], r.ptrT()))
	}
	return st.Mem
}

// nil2ptr is a type to store a value as.
func nil2ptr(v *T, p types.Type) types.Type {
	if v.Typ != nil {
		return v.Typ
	}
	return p
}

func (r *ring) grow(m *Mem, f *FactNode, d int64, k ringK) string {
	return r.each(m, f, r.ln(r.l), types.Typ[types.Int], func(f *FactNode, v *T) string {
		st := &State{Mem: m, Facts: f, Clock: 1 << 20}
		st.Store(r.ln(r.l), Add(v, Int(d)), types.Typ[types.Int])
		return k(st.Mem, f)
	})
}

func (r *ring) link(m *Mem, f *FactNode, e, at *T, k ringK) string {
	return r.each(m, f, r.nx(at), r.ptrT(), func(f *FactNode, a *T) string {
		return k(r.set(m, f, r.pv(e), at, r.nx(e), a, r.nx(at), e, r.pv(a), e), f)
	})
}

func (r *ring) unlink(m *Mem, f *FactNode, e *T, k ringK) string {
	return r.each(m, f, r.nx(e), r.ptrT(), func(f *FactNode, n *T) string {
		return r.each(m, f, r.pv(e), r.ptrT(), func(f *FactNode, p *T) string {
			return k(r.set(m, f, r.nx(p), n, r.pv(n), p), f)
		})
	})
}

func (r *ring) insert(m *Mem, f *FactNode, e, at, v *T, k ringK) string {
	return r.link(m, f, e, at, func(m *Mem, f *FactNode) string {
		st := &State{Mem: r.set(m, f, r.ow(e), r.l), Facts: f, Clock: 1 << 20}
		st.Store(r.va(e), v, r.fieldT(r.lay.val))
		return r.grow(st.Mem, f, 1, k)
	})
}

func (r *ring) remove(m *Mem, f *FactNode, e *T, k ringK) string {
	return r.unlink(m, f, e, func(m *Mem, f *FactNode) string {
		return r.grow(r.set(m, f, r.ow(e), Nil), f, -1, k)
	})
}

func (r *ring) move(m *Mem, f *FactNode, e, at *T, k ringK) string {
	same := Eq(e, at)
	for _, t := range []*T{same, Not(same)} {
		g := f.With(t)
		if g.Infeasible() {
			continue
		}
		if t == same {
			if why := k(m, g); why != "" {
				return why
			}
			continue
		}
		if why := r.unlink(m, g, e, func(m *Mem, f *FactNode) string { return r.link(m, f, e, at, k) }); why != "" {
			return why
		}
	}
	return ""
}

// typeAt is the type stored at an address of a list or an element, nil for other addresses.
func (r *ring) typeAt(a *T) types.Type {
	if a.Op != "field" {
		return nil
	}
	for i := 0; i < structOf(r.lay.et).NumFields(); i++ {
		if a == FieldAddr(a.Args[0], r.lay.et, i) {
			return r.fieldT(i)
		}
	}
	if a == FieldAddr(a.Args[0], r.lay.lt, r.lay.ln) {
		return types.Typ[types.Int]
	}
	return nil
}

// written are the addresses stored to by events and on the way between two memories.
func (r *ring) written(evs []*Event, ms ...*Mem) ([]*T, string) {
	var out []*T
	seen := map[*T]bool{}
	add := func(a *T) {
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	}
	for _, e := range evs {
		switch e.Kind {
		case "store":
			a := e.Args[0]
			if a == nil {
				continue
			}
			if t := ptrElem(a.Typ); t != nil && types.Identical(t, r.lay.et) && r.typeAt(a) == nil {
				for i := 0; i < structOf(r.lay.et).NumFields(); i++ {
					add(FieldAddr(a, r.lay.et, i))
				}
				continue
			}
			add(a)
		case "append", "copy", "mapupdate", "send", "go", "panic":
			return nil, "it does more than rearrange the list (" + e.Kind + ")"
		}
	}
	return out, ""
}

// compare the memory after an operation with the reference.
func (r *ring) compare(evs []*Event, fin, ref *Mem, f *FactNode, gone *T, lazy bool, extra ...*T) string {
	addrs, why := r.written(evs)
	if why != "" {
		return why
	}
	for _, a := range extra {
		dup := false
		for _, b := range addrs {
			dup = dup || a == b
		}
		if !dup {
			addrs = append(addrs, a)
		}
	}
	for _, a := range addrs {
		t := r.typeAt(a)
		if t == nil {
			if Root(a).Op == "alloc" {
				continue
			}
			return fmt.Sprintf("%s is written", a)
		}
		why := r.each(fin, f, a, t, func(f *FactNode, got *T) string {
			return r.each(ref, f, a, t, func(f *FactNode, want *T) string {
				if got == want || f.Infeasible() {
					return ""
				}
				eq := Eq(got, want)
				if isPlainInt(t) {
					eq = EqInt(got, want)
				}
				if f.Proves(eq) {
					return ""
				}
				if gone != nil && (a == r.nx(a.Args[0]) || a == r.pv(a.Args[0])) && (a.Args[0] == gone || f.Proves(Eq(a.Args[0], gone))) {
					return ""
				}
				if lazy && f.Proves(Eq(want, Nil)) && f.Proves(Eq(got, r.root())) && f.Proves(Eq(a.Args[0], r.root())) {
					return ""
				}
				return fmt.Sprintf("%s becomes %s, expected %s", a, got, want)
			})
		})
		if why != "" {
			return why
		}
	}
	return ""
}

// spots are the addresses of the links around nodes, to be compared whether or not they are written.
func (r *ring) spots(ref *Mem) []*T {
	var out []*T
	for m := ref; m != nil; m = m.Next {
		if m.Kind == MStore && r.typeAt(m.Addr) != nil {
			out = append(out, m.Addr)
		}
	}
	return out
}

// since are the addresses stored between a memory and an older one.
func (r *ring) since(ref, old *Mem) []*T {
	var out []*T
	for m := ref; m != nil && m != old; m = m.Next {
		if m.Kind == MStore && r.typeAt(m.Addr) != nil {
			out = append(out, m.Addr)
		}
	}
	return out
}

// nilSafe: pointers dereferenced on the path are not nil.
func nilSafe(x *Exit, facts []*T) (string, token.Pos) {
	for _, e := range x.Ev.List() {
		if e.Kind != "ob" || e.Name != "nil" || e.Val == nil {
			continue
		}
		if Contains(e.Val, func(t *T) bool { return t.Op == "phi" || t.Op == "hv" }) {
			continue
		}
		f := withAll(e.Facts, facts)
		if f.Proves(e.Val) || f.Infeasible() {
			continue
		}
		return fmt.Sprintf("%s may be nil where it is dereferenced", e.Args[0]), e.Pos
	}
	return "", token.NoPos
}

// ringOp is what a method is to do in one case.
type ringOp struct {
	kind string // none, insert, remove, move, clear
	e    *T     // element, nil for the new one
	at   *T
	v    *T
	res  *T // expected result; nil: not checked
	bres int
}

// splice checks one exit in one case; st is the initial memory (nil), extended for the zero value.
func (r *ring) splice(x *Exit, f *FactNode, zero bool, op ringOp) string {
	var base *Mem
	if zero && op.kind != "none" {
		base = r.set(nil, f, r.nx(r.root()), r.root(), r.pv(r.root()), r.root())
	}
	evs := x.Ev.List()
	fin := x.State.Mem
	switch op.kind {
	case "none":
		return r.compare(evs, fin, nil, f, nil, true)
	case "insert":
		e := op.e
		if len(x.Res) == 1 && types.Identical(x.Res[0].Typ, r.ptrT()) && x.Res[0].Op != "alloc" {
			return fmt.Sprintf("%s is returned, not the new element", x.Res[0])
		}
		if e == nil {
			if len(x.Res) == 1 && x.Res[0].Op == "alloc" {
				e = x.Res[0]
			} else {
				e = r.fresh(evs)
			}
		}
		if e == nil || e.Op != "alloc" {
			return "no new element is returned"
		}
		return r.insert(base, f, e, op.at, op.v, func(m *Mem, f *FactNode) string {
			return r.compare(evs, fin, m, f, nil, false, r.spots(m)...)
		})
	case "remove":
		return r.remove(base, f, op.e, func(m *Mem, f *FactNode) string {
			return r.compare(evs, fin, m, f, op.e, false, r.spots(m)...)
		})
	case "move":
		return r.move(base, f, op.e, op.at, func(m *Mem, f *FactNode) string {
			return r.compare(evs, fin, m, f, nil, false, r.spots(m)...)
		})
	}
	return "unknown operation"
}

// fresh is the element made on the path.
func (r *ring) fresh(evs []*Event) *T {
	for _, e := range evs {
		if e.Kind == "store" && e.Args[0] != nil {
			if rt := Root(e.Args[0]); rt.Op == "alloc" && e.Args[0] == r.ow(rt) {
				return rt
			}
		}
	}
	return nil
}

// sameRes: the result is the one expected.
func sameRes(f *FactNode, got, want *T) bool {
	if got == want {
		return true
	}
	if isPlainInt(want.Typ) {
		return f.Proves(EqInt(got, want))
	}
	return f.Proves(Eq(got, want))
}

// boolRes: the result equals a condition.
func boolRes(f *FactNode, got, cond *T) bool {
	for _, s := range []struct{ a, b *T }{{cond, got}, {Not(cond), Not(got)}} {
		g := f.With(s.a)
		if !g.Infeasible() && s.b != True && !g.Proves(s.b) {
			return false
		}
	}
	return true
}

func ringList(c *Ctx) {
	p := c.P
	var found []*types.Named
	for _, nt := range namedTypes(p, "common/container/list") {
		ms := exportedMethods(p, nt)
		if len(ms) == 0 {
			continue
		}
		lt := ptrElem(Params(ms[0])[0].Typ)
		if lt == nil {
			continue
		}
		lay := ringLayOf(c, lt)
		if lay == nil {
			continue
		}
		found = append(found, nt)
		n := 0
		for _, fn := range ms {
			if ringMethod(c, lay, fn) {
				n++
			}
		}
		c.Need("methods of "+nt.Obj().Name(), n, 15)
		for _, fn := range constructors(p, nt) {
			ringCtor(c, fn)
		}
		if et, ok := lay.et.(*types.Named); ok {
			for _, fn := range exportedMethods(p, et.Origin()) {
				elementMethod(c, fn)
			}
		}
	}
	c.Need("list types", len(found), 1)
}

// ringCtor: a constructor returns an empty list.
func ringCtor(c *Ctx, fn *ssa.Function) {
	in := NewInterp(c.P, &Config{})
	exits := in.Run(fn)
	c.Complete(in, fn)
	for _, x := range exits {
		if x.Kind != "return" || len(x.Res) != 1 {
			continue
		}
		lt := ptrElem(x.Res[0].Typ)
		lay := ringLayOf(c, lt)
		if lay == nil {
			c.Fail("ring-layout", ShortName(fn), x.Pos, "the layout of the list is not found")
			continue
		}
		r := &ring{c: c, in: in, lay: lay, l: x.Res[0]}
		n, p := r.one(x.State.Mem, x.Facts, r.nx(r.root()), r.ptrT()), r.one(x.State.Mem, x.Facts, r.pv(r.root()), r.ptrT())
		k := r.one(x.State.Mem, x.Facts, r.ln(r.l), types.Typ[types.Int])
		o := r.one(x.State.Mem, x.Facts, r.ow(r.root()), r.fieldT(lay.own))
		ok := n == p && (n == r.root() || n == Nil) && k == Int(0) && o == Nil && x.Res[0].Op == "alloc"
		c.Ob(ok, "starts-empty", ShortName(fn), x.Pos, "the new list has next %v, prev %v, length %v", n, p, k)
	}
}

// elementMethod: Next and Prev of an element.
func elementMethod(c *Ctx, fn *ssa.Function) {
	if len(Params(fn)) != 1 || fn.Name() != "Next" && fn.Name() != "Prev" {
		return
	}
	e := Params(fn)[0]
	et := ptrElem(e.Typ)
	es := structOf(et)
	var lt types.Type
	for i := 0; i < es.NumFields(); i++ {
		if p := ptrElem(es.Field(i).Type()); p != nil && !types.Identical(p, et) {
			lt = p
		}
	}
	lay := ringLayOf(c, lt)
	if lay == nil {
		c.Fail("ring-layout", ShortName(fn), fn.Pos(), "the layout of the element's list is not found")
		return
	}
	in := NewInterp(c.P, &Config{})
	r := &ring{c: c, in: in, lay: lay}
	own := r.one(nil, nil, r.ow(e), r.fieldT(lay.own))
	r.l = own
	exits := in.Run(fn, Not(Eq(e, Nil)))
	c.Complete(in, fn)
	link := r.nx(e)
	if fn.Name() == "Prev" {
		link = r.pv(e)
	}
	to := r.one(nil, nil, link, r.ptrT())
	in1 := append([]*T{Not(Eq(own, Nil)), Not(Eq(e, r.root()))}, r.axioms(nil, nil, e, own)...)
	for _, cs := range []struct {
		name  string
		facts []*T
		want  *T
	}{
		{"removed", []*T{Eq(own, Nil)}, Nil},
		{"last", append([]*T{Eq(to, r.root())}, in1...), Nil},
		{"inner", append([]*T{Not(Eq(to, r.root()))}, in1...), to},
	} {
		n := 0
		for _, x := range exits {
			f := withAll(x.Facts, cs.facts)
			if why, pos := nilSafe(x, cs.facts); why != "" {
				c.Fail("no-nil", ShortName(fn)+" "+cs.name, pos, "%s", why)
			}
			if x.Kind != "return" || f.Infeasible() {
				continue
			}
			n++
			c.Ob(sameRes(f, x.Res[0], cs.want), "neighbour", ShortName(fn)+" "+cs.name, x.Pos, "%s returns %s for a %s element, expected %s", fn.Name(), x.Res[0], cs.name, cs.want)
			why := r.compare(x.Ev.List(), x.State.Mem, nil, f, nil, false)
			c.Ob(why == "", "observers-pure", ShortName(fn)+" "+cs.name, x.Pos, "%s changes the list: %s", fn.Name(), why)
		}
		c.Ob(n > 0, "returns", ShortName(fn)+" "+cs.name, fn.Pos(), "%s never returns for a %s element", fn.Name(), cs.name)
	}
}

// ringMethod decides one exported method of a list.
func ringMethod(c *Ctx, lay *ringLay, fn *ssa.Function) bool {
	name := ShortName(fn)
	ps := Params(fn)
	body := Body(fn)
	if body == nil {
		return false
	}
	l := ps[0]
	lt := ptrElem(l.Typ)
	if lt == nil {
		return false
	}
	lay = ringLayOf(c, lt)
	if lay == nil {
		c.Fail("ring-layout", name, fn.Pos(), "the layout of the list is not found")
		return false
	}
	var elems, vals, lists []*T
	facts := []*T{Not(Eq(l, Nil))}
	for i := 1; i < len(ps); i++ {
		t := body.Params[i].Type()
		switch p := ptrElem(t); {
		case p != nil && types.Identical(p, lay.et):
			elems = append(elems, ps[i])
			facts = append(facts, Not(Eq(ps[i], Nil)))
		case p != nil && types.Identical(p, lay.lt):
			lists = append(lists, ps[i])
			facts = append(facts, Not(Eq(ps[i], Nil)))
		default:
			vals = append(vals, ps[i])
		}
	}
	switch fn.Name() {
	case "PushBackList", "PushFrontList":
		return ringBulk(c, lay, fn, l, lists)
	case "Clear":
		return ringClear(c, lay, fn, l)
	}
	in := NewInterp(c.P, &Config{})
	exits := in.Run(fn, facts...)
	c.Complete(in, fn)
	r := &ring{c: c, in: in, lay: lay, l: l}
	root := r.root()
	ptr := func(addr *T) *T { return r.one(nil, nil, addr, r.ptrT()) }
	first, last := ptr(r.nx(root)), ptr(r.pv(root))
	length := r.one(nil, nil, r.ln(l), types.Typ[types.Int])
	handled := false
	for _, cs := range r.cases(nil, nil, l) {
		// the arguments: in this list or not
		combos := []ringCase{{cs.name, cs.facts}}
		member := map[string]map[*T]bool{cs.name: {}}
		for i, e := range elems {
			var next []ringCase
			own := r.one(nil, nil, r.ow(e), r.fieldT(lay.own))
			for _, cb := range combos {
				in1 := ringCase{fmt.Sprintf("%s,arg%d in the list", cb.name, i+1), append(append([]*T{Eq(own, l), Not(Eq(e, root))}, r.axioms(nil, nil, e, l)...), cb.facts...)}
				out := ringCase{fmt.Sprintf("%s,arg%d foreign", cb.name, i+1), append([]*T{Not(Eq(own, l)), Not(Eq(e, root))}, cb.facts...)}
				if cs.name == "non-empty" {
					next = append(next, in1)
				}
				next = append(next, out)
				member[in1.name], member[out.name] = map[*T]bool{e: true}, map[*T]bool{}
				for k := range member[cb.name] {
					member[in1.name][k] = true
					member[out.name][k] = true
				}
			}
			combos = next
		}
		for _, cb := range combos {
			here := func(i int) bool { return i < len(elems) && member[cb.name][elems[i]] }
			zero := cs.name == "zero"
			var op ringOp
			endAt := func(back bool) *T {
				if !back || zero || cs.name == "empty" {
					return root
				}
				return last
			}
			var res *T
			skip := false
			switch fn.Name() {
			case "PushFront":
				op = ringOp{kind: "insert", at: root, v: vals[0]}
			case "PushBack":
				op = ringOp{kind: "insert", at: endAt(true), v: vals[0]}
			case "InsertBefore":
				op = ringOp{kind: "none"}
				res = Nil
				if here(0) {
					op, res = ringOp{kind: "insert", at: ptr(r.pv(elems[0])), v: vals[0]}, nil
				}
			case "InsertAfter":
				op = ringOp{kind: "none"}
				res = Nil
				if here(0) {
					op, res = ringOp{kind: "insert", at: elems[0], v: vals[0]}, nil
				}
			case "MoveToFront":
				op = ringOp{kind: "none"}
				if here(0) {
					op = ringOp{kind: "move", e: elems[0], at: root}
				}
			case "MoveToBack":
				op = ringOp{kind: "none"}
				if here(0) {
					op = ringOp{kind: "move", e: elems[0], at: last}
				}
			case "MoveBefore", "MoveAfter":
				op = ringOp{kind: "none"}
				if here(0) && here(1) {
					op = ringOp{kind: "move", e: elems[0], at: elems[1]}
					if fn.Name() == "MoveBefore" {
						op.at = ptr(r.pv(elems[1]))
					}
				}
			case "Remove":
				op = ringOp{kind: "none"}
				if here(0) {
					op = ringOp{kind: "remove", e: elems[0]}
				}
				res = r.one(nil, nil, r.va(elems[0]), r.fieldT(lay.val))
			case "RemoveFront", "RemoveBack":
				e := first
				if fn.Name() == "RemoveBack" {
					e = last
				}
				op = ringOp{kind: "remove", e: e}
				res = r.one(nil, nil, r.va(e), r.fieldT(lay.val))
				skip = cs.name != "non-empty"
			case "Front", "Back":
				op, res = ringOp{kind: "none"}, Nil
				if cs.name == "non-empty" {
					res = first
					if fn.Name() == "Back" {
						res = last
					}
				}
			case "Len":
				op, res = ringOp{kind: "none"}, length
			case "Empty":
				op, res = ringOp{kind: "none"}, False
				if cs.name != "non-empty" {
					res = True
				}
			default:
				// nothing is promised: it may not change the list
				op = ringOp{kind: "none"}
				if cs.name == "zero" {
					c.Add("methods without a promise: "+name, 1)
				}
			}
			if skip {
				continue
			}
			handled = true
			construct := name + " (" + cb.name + ")"
			n := 0
			for _, x := range exits {
				if why, pos := nilSafe(x, cb.facts); why != "" {
					c.Fail("no-nil", construct, pos, "%s", why)
					continue
				}
				f := withAll(x.Facts, cb.facts)
				if f.Infeasible() {
					continue
				}
				n++
				if x.Kind != "return" {
					c.Fail("no-panic", construct, x.Pos, "%s may panic", fn.Name())
					continue
				}
				if move := op.kind == "move"; move {
					// a mark that is the element itself, or just where the element is
					if fn.Name() == "MoveBefore" || fn.Name() == "MoveAfter" {
						eq := Eq(elems[0], elems[1])
						for _, t := range []*T{eq, Not(eq)} {
							g := f.With(t)
							if g.Infeasible() {
								continue
							}
							o := op
							if t == eq {
								o = ringOp{kind: "none"}
							}
							why := r.splice(x, g, zero, o)
							c.Ob(why == "", "exact-splice", construct, x.Pos, "%s: %s", fn.Name(), why)
						}
						continue
					}
				}
				why := r.splice(x, f, zero, op)
				c.Ob(why == "", "exact-splice", construct, x.Pos, "%s: %s", fn.Name(), why)
				if res != nil && len(x.Res) == 1 {
					ok := sameRes(f, x.Res[0], res)
					if res == True || res == False {
						ok = boolRes(f, x.Res[0], res)
					}
					c.Ob(ok, "result", construct, x.Pos, "%s returns %s, expected %s", fn.Name(), x.Res[0], res)
				}
			}
			c.Ob(n > 0, "returns", construct, fn.Pos(), "%s never returns in this case", fn.Name())
		}
	}
	return handled
}

// ringClear: the list becomes empty and its elements no longer name it.
func ringClear(c *Ctx, lay *ringLay, fn *ssa.Function, l *T) bool {
	name := ShortName(fn)
	in := NewInterp(c.P, &Config{})
	exits := in.Run(fn, Not(Eq(l, Nil)))
	c.Complete(in, fn)
	r := &ring{c: c, in: in, lay: lay, l: l}
	root := r.root()
	for _, cs := range r.cases(nil, nil, l) {
		n := 0
		construct := name + " (" + cs.name + ")"
		for _, x := range exits {
			if why, pos := nilSafe(x, cs.facts); why != "" {
				c.Fail("no-nil", construct, pos, "%s", why)
				continue
			}
			f := withAll(x.Facts, cs.facts)
			if f.Infeasible() || x.Kind != "return" {
				continue
			}
			n++
			fin := x.State.Mem
			why := ""
			for _, w := range []struct{ a, v *T }{{r.nx(root), root}, {r.pv(root), root}, {r.ln(l), Int(0)}} {
				if why == "" {
					why = r.each(fin, f, w.a, r.typeAt(w.a), func(f *FactNode, v *T) string {
						if v == w.v || w.v == Int(0) && f.Proves(EqInt(v, w.v)) || w.v != Int(0) && f.Proves(Eq(v, w.v)) {
							return ""
						}
						return fmt.Sprintf("%s becomes %s", w.a, v)
					})
				}
			}
			c.Ob(why == "", "cleared", construct, x.Pos, "the list is not empty after Clear: %s", why)
			if cs.name != "non-empty" {
				continue
			}
			why = "no loop walks over the elements"
			for _, e := range x.Ev.List() {
				if e.Kind != "loop" || e.Loop == nil {
					continue
				}
				if why = r.disowns(x, f, e.Loop); why == "" {
					break
				}
			}
			c.Ob(why == "", "elements-released", construct, x.Pos, "elements keep naming the cleared list: %s", why)
		}
		c.Ob(n > 0, "returns", construct, fn.Pos(), "Clear never returns in this case")
	}
	return true
}

// disowns: the loop visits every element from one end to the sentinel and makes each name no list.
func (r *ring) disowns(x *Exit, f *FactNode, rec *LoopRec) string {
	root := r.root()
	for _, p := range rec.Phis {
		cur, ini := rec.Cur[p], rec.Init[p]
		if cur == nil || ini == nil || ptrElem(p.Type()) == nil {
			continue
		}
		for _, fwd := range []bool{true, false} {
			link := r.nx
			if !fwd {
				link = r.pv
			}
			if v := r.one(rec.Entry.Mem, f, link(root), r.ptrT()); v == nil || !(v == ini || f.Proves(Eq(v, ini))) {
				continue
			}
			ok := true
			for _, b := range rec.Back {
				nx := r.one(rec.Head.Mem, b.Facts, link(cur), r.ptrT())
				bv := r.in.BackVal(rec, b, p)
				if nx == nil || bv == nil || !(bv == nx || b.Facts.Proves(Eq(bv, nx))) {
					ok = false
					break
				}
				o := r.one(b.Mem, b.Facts, r.ow(cur), r.fieldT(r.lay.own))
				if o == nil || o != Nil && !b.Facts.Proves(Eq(o, Nil)) {
					return fmt.Sprintf("the element visited keeps %v as its list", o)
				}
				for _, e := range backEvents(rec, b) {
					if e.Kind == "store" && !(e.Args[0].Op == "field" && e.Args[0].Args[0] == cur) {
						return fmt.Sprintf("%s is written during the walk", e.Args[0])
					}
				}
			}
			if !ok || len(rec.Back) == 0 {
				continue
			}
			if !f.Proves(Eq(cur, root)) {
				// the walk may also end at a nil pointer, which a ring does not contain
				if !f.With(Not(Eq(cur, root))).With(Not(Eq(cur, Nil))).Infeasible() {
					return "the walk may end before the last element"
				}
			}
			return ""
		}
	}
	return "no loop walks over the elements"
}

// ringBulk: PushBackList and PushFrontList.
func ringBulk(c *Ctx, lay *ringLay, fn *ssa.Function, l *T, lists []*T) bool {
	name := ShortName(fn)
	if len(lists) != 1 {
		c.Fail("ring-layout", name, fn.Pos(), "there is not one list to copy from")
		return false
	}
	o := lists[0]
	back := fn.Name() == "PushBackList"
	for _, self := range []bool{false, true} {
		rel := Not(Eq(o, l))
		what := "another list"
		if self {
			rel, what = Eq(o, l), "itself"
		}
		in := NewInterp(c.P, &Config{})
		r := &ring{c: c, in: in, lay: lay, l: l}
		exits := in.Run(fn, Not(Eq(l, Nil)), Not(Eq(o, Nil)), rel, Ge0(r.one(nil, nil, r.ln(l), types.Typ[types.Int])), Ge0(r.one(nil, nil, r.ln(o), types.Typ[types.Int])))
		c.Complete(in, fn)
		for _, lc := range r.cases(nil, nil, l) {
			for _, oc := range r.cases(nil, nil, o) {
				if self && oc.name != lc.name {
					continue
				}
				facts := append(append([]*T{}, lc.facts...), oc.facts...)
				construct := fmt.Sprintf("%s (%s, pushing %s, %s)", name, lc.name, what, oc.name)
				n := 0
				for _, x := range exits {
					f := withAll(x.Facts, facts)
					if why, pos := nilSafe(x, facts); why != "" {
						c.Fail("no-nil", construct, pos, "%s", why)
						continue
					}
					if f.Infeasible() || x.Kind != "return" {
						continue
					}
					n++
					why := r.bulk(x, f, o, back, self, lc.name == "zero", oc.name)
					c.Ob(why == "", "bulk-copy", construct, x.Pos, "%s: %s", fn.Name(), why)
				}
				c.Ob(n > 0, "returns", construct, fn.Pos(), "%s never returns in this case", fn.Name())
			}
		}
	}
	return true
}

func (r *ring) bulk(x *Exit, f *FactNode, o *T, back, self, zero bool, oc string) string {
	root, oroot := r.root(), r.rootOf(o)
	// before the loop: nothing but the lazy set-up; the loop: insertions; after it: nothing
	evs := x.Ev.List()
	olen := r.one(nil, f, r.ln(o), types.Typ[types.Int])
	var rec *LoopRec
	var pre, post []*Event
	for _, e := range evs {
		switch {
		case e.Kind == "loop" && e.Loop != nil:
			inserts := false
			for _, b := range e.Loop.Back {
				for _, be := range backEvents(e.Loop, b) {
					inserts = inserts || be.Kind == "store" && r.typeAt(be.Args[0]) != nil && Root(be.Args[0]).Op != "alloc"
				}
			}
			if !inserts {
				continue
			}
			if rec != nil {
				return "elements are inserted by two loops"
			}
			rec = e.Loop
		case rec == nil:
			pre = append(pre, e)
		default:
			post = append(post, e)
		}
	}
	none := func() string {
		if oc == "non-empty" {
			return "no element is copied"
		}
		return ""
	}
	if rec == nil {
		if w := none(); w != "" {
			return w
		}
		return r.compare(evs, x.State.Mem, nil, f, nil, true)
	}
	entry := rec.Entry.Mem
	var base *Mem
	if w := r.compare(pre, entry, base, f, nil, true); w != "" {
		return "before copying, " + w
	}
	for _, e := range post {
		if e.Kind == "store" && Root(e.Args[0]).Op != "alloc" {
			return "after copying, " + e.Args[0].String() + " is written"
		}
	}
	if !f.Proves(EqInt(rec.Iota, olen)) {
		return fmt.Sprintf("the number of elements copied is not shown to be the length of the other list (%s)", olen)
	}
	if oc != "non-empty" {
		return "" // no iteration
	}
	// a list that is still the zero value when copying starts must be set up by the first iteration
	variants := []bool{false}
	for _, a := range []*T{r.nx(root), r.pv(root)} {
		if zero && r.each(entry, f, a, r.ptrT(), func(f *FactNode, v *T) string {
			if v == root || f.Proves(Eq(v, root)) {
				return ""
			}
			return "zero"
		}) != "" {
			variants = []bool{false, true}
		}
	}
	// the walk
	for _, p := range rec.Phis {
		cur, ini := rec.Cur[p], rec.Init[p]
		if cur == nil || ini == nil || ptrElem(p.Type()) == nil || !types.Identical(ptrElem(p.Type()), r.lay.et) {
			continue
		}
		step, end := r.nx, r.one(entry, f, r.nx(oroot), r.ptrT())
		if !back {
			step, end = r.pv, r.one(entry, f, r.pv(oroot), r.ptrT())
		}
		if end == nil || !(end == ini || f.Proves(Eq(end, ini))) {
			return fmt.Sprintf("copying starts at %s", ini)
		}
		for _, b := range rec.Back {
			hd := rec.Head.Mem
			g := b.Facts
			var ax []*T
			own := r.one(hd, g, r.ow(cur), r.fieldT(r.lay.own))
			if own == nil {
				return "the ownership of the elements is not understood in the loop"
			}
			ax = append(ax, Eq(own, o), Not(Eq(cur, Nil)), Not(Eq(cur, oroot)))
			ax = append(ax, r.axioms(hd, g, cur, o)...)
			rootAx := r.axioms(hd, g, root, r.l)
			for _, t := range []*T{r.one(hd, g, r.nx(root), r.ptrT()), r.one(hd, g, r.pv(root), r.ptrT())} {
				if t != nil {
					rootAx = append(rootAx, r.axioms(hd, g, t, r.l)...)
				}
			}
			if self {
				ax = append(ax, Eq(o, r.l))
			} else {
				ax = append(ax, Not(Eq(o, r.l)), Not(Eq(cur, root)))
			}
			if ro := r.one(hd, g, r.ow(root), r.fieldT(r.lay.own)); ro != nil {
				ax = append(ax, Eq(ro, Nil))
			}
			bev := backEvents(rec, b)
			for _, first := range variants {
				av := append([]*T{}, ax...)
				ref := hd
				if first {
					// the list as it is before anything was inserted
					n, p := r.one(hd, g, r.nx(root), r.ptrT()), r.one(hd, g, r.pv(root), r.ptrT())
					if n == nil || p == nil {
						return "the links of the list are not understood in the loop"
					}
					av = append(av, Eq(n, Nil), Eq(p, Nil), EqInt(rec.Iota, Int(0)), EqInt(r.one(hd, g, r.ln(r.l), types.Typ[types.Int]), Int(0)))
					ref = r.set(hd, g, r.nx(root), root, r.pv(root), root)
				} else {
					av = append(av, rootAx...)
				}
				for _, e := range bev {
					if e.Kind == "ob" && e.Name == "nil" && e.Val != nil {
						if h := withAll(e.Facts, av); !h.Proves(e.Val) && !h.Infeasible() {
							return fmt.Sprintf("in an iteration, %s may be nil where it is dereferenced", e.Args[0])
						}
					}
				}
				g := withAll(g, av)
				if g.Infeasible() {
					continue
				}
				e := r.fresh(bev)
				if e == nil {
					return "an iteration adds no element"
				}
				w := r.each(ref, g, r.va(cur), r.fieldT(r.lay.val), func(g *FactNode, v *T) string {
					at := func(k func(g *FactNode, at *T) string) string {
						if !back {
							return k(g, root)
						}
						return r.each(ref, g, r.pv(root), r.ptrT(), k)
					}
					return at(func(g *FactNode, at *T) string {
						return r.insert(ref, g, e, at, v, func(m *Mem, g *FactNode) string {
							return r.compare(bev, b.Mem, m, g, nil, false, r.since(m, ref)...)
						})
					})
				})
				if w != "" {
					return "in an iteration, " + w
				}
			}
			g = withAll(g, append(ax, rootAx...))
			if g.Infeasible() {
				continue
			}
			// the next element: taken before or after the insertion
			w := ""
			bv := r.in.BackVal(rec, b, p)
			if bv == nil {
				return "the next element is not understood"
			}
			for _, m := range []*Mem{b.Mem, hd} {
				w = r.each(m, g, step(cur), r.ptrT(), func(g *FactNode, n *T) string {
					want := n
					if g.Proves(Eq(n, oroot)) {
						want = Nil
					} else if !g.Proves(Not(Eq(n, oroot))) {
						want = nil
					}
					if bv == n || want != nil && (bv == want || g.Proves(Eq(bv, want))) {
						return ""
					}
					return fmt.Sprintf("the next element copied is %s, expected %s", bv, n)
				})
				if w == "" {
					break
				}
			}
			if w != "" {
				return w
			}
		}
		return ""
	}
	return "no loop variable walks over the other list"
}

// disciplines decides the containers built on a list, a map or a heap.
func disciplines(c *Ctx) {
	p := c.P
	kinds := map[string]int{}
	for _, nt := range namedTypes(p, "common/container") {
		ms := exportedMethods(p, nt)
		api := map[string]bool{}
		for _, f := range ms {
			api[f.Name()] = true
		}
		if len(ms) == 0 {
			continue
		}
		recv := Params(ms[0])[0].Typ
		st := ptrElem(recv)
		if structOf(st) == nil {
			continue
		}
		switch {
		case api["Push"] && api["Pop"] && api["Peek"] && listField(c, st) >= 0:
			kinds["stack"]++
			listContainer(c, nt, ms)
		case api["PushFront"] && api["PopFront"] && listField(c, st) >= 0:
			kinds["deque"]++
			listContainer(c, nt, ms)
		case api["Add"] && api["Remove"] && api["Contains"]:
			kinds["set"]++
			mapSet(c, nt, ms)
		default:
			if lay := heapLayOf(recv); lay != nil && lay.outer >= 0 && api["Push"] && api["Pop"] {
				kinds["priority queue"]++
				for _, fn := range ms {
					heapMethod(c, nt, fn, true)
				}
				for _, fn := range constructors(p, nt) {
					heapCtor(c, nt, fn)
				}
			}
		}
	}
	for _, k := range []string{"stack", "deque", "set", "priority queue"} {
		c.Need(k+" types", kinds[k], 1)
	}
}

// listField is the field of a container that holds its list.
func listField(c *Ctx, st types.Type) int {
	s := structOf(st)
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if p := ptrElem(t); p != nil {
			t = p
		}
		if structOf(t) != nil && ringLayOf(c, t) != nil {
			return i
		}
	}
	return -1
}

// ringIn is the list of a container.
func ringIn(c *Ctx, in *Interp, m *Mem, f *FactNode, obj *T) *ring {
	st := ptrElem(obj.Typ)
	i := listField(c, st)
	if i < 0 {
		return nil
	}
	t := structOf(st).Field(i).Type()
	addr := FieldAddr(obj, st, i)
	if p := ptrElem(t); p != nil {
		l := in.LoadOne(&State{Mem: m, Facts: f, Clock: 1 << 20}, addr, t)
		if l == nil {
			return nil
		}
		return &ring{c: c, in: in, lay: ringLayOf(c, p), l: l}
	}
	return &ring{c: c, in: in, lay: ringLayOf(c, t), l: addr}
}

// listContainer: a stack or a deque.
func listContainer(c *Ctx, nt *types.Named, ms []*ssa.Function) {
	for _, fn := range constructors(c.P, nt) {
		in := NewInterp(c.P, &Config{})
		exits := in.Run(fn)
		c.Complete(in, fn)
		for _, x := range exits {
			if x.Kind != "return" {
				continue
			}
			r := ringIn(c, in, x.State.Mem, x.Facts, x.Res[0])
			if r == nil {
				c.Fail("ring-layout", ShortName(fn), x.Pos, "the list of the new container is not found")
				continue
			}
			n, p := r.one(x.State.Mem, x.Facts, r.nx(r.root()), r.ptrT()), r.one(x.State.Mem, x.Facts, r.pv(r.root()), r.ptrT())
			k := r.one(x.State.Mem, x.Facts, r.ln(r.l), types.Typ[types.Int])
			c.Ob(n != nil && n == p && (n == r.root() || n == Nil) && k == Int(0) && Root(r.l).Op == "alloc", "starts-empty", ShortName(fn), x.Pos, "the list of the new container has next %v, prev %v, length %v", n, p, k)
		}
	}
	// the end a stack uses
	type verdict struct {
		rule, construct, why string
		pos                  token.Pos
	}
	var best []verdict
	good := 0
	for _, back := range []bool{true, false} {
		var bad []verdict
		n := 0
		for _, fn := range ms {
			ob := func(ok bool, rule, construct string, pos token.Pos, why string) {
				n++
				if !ok {
					bad = append(bad, verdict{rule, construct, why, pos})
				}
			}
			listOp(c, fn, back, ob)
		}
		if best == nil || len(bad) < len(best) {
			best = bad
		}
		if len(bad) == 0 {
			good = n
			best = nil
			break
		}
	}
	for _, v := range best {
		c.Fail(v.rule, v.construct, v.pos, "%s", v.why)
	}
	for i := 0; i < good; i++ {
		c.Ob(true, "discipline", nt.Obj().Name(), token.NoPos, "")
	}
}

func listOp(c *Ctx, fn *ssa.Function, back bool, ob func(bool, string, string, token.Pos, string)) {
	name := ShortName(fn)
	ps := Params(fn)
	s := ps[0]
	in := NewInterp(c.P, &Config{})
	r := ringIn(c, in, nil, nil, s)
	if r == nil {
		ob(false, "ring-layout", name, fn.Pos(), "the list of the container is not found")
		return
	}
	exits := in.Run(fn, Not(Eq(s, Nil)), Not(Eq(r.l, Nil)))
	c.Complete(in, fn)
	root := r.root()
	first, last := r.one(nil, nil, r.nx(root), r.ptrT()), r.one(nil, nil, r.pv(root), r.ptrT())
	length := r.one(nil, nil, r.ln(r.l), types.Typ[types.Int])
	val := func(e *T) *T { return r.one(nil, nil, r.va(e), r.fieldT(r.lay.val)) }
	for _, cs := range r.cases(nil, nil, r.l) {
		if cs.name == "zero" {
			continue
		}
		op := ringOp{kind: "none"}
		var res *T
		end := func(b bool) (*T, *T) { // node to insert after, node at the end
			if b {
				if cs.name == "empty" {
					return root, nil
				}
				return last, last
			}
			return root, first
		}
		skip := false
		switch fn.Name() {
		case "Push", "PushBack", "PushFront":
			b := back
			if fn.Name() != "Push" {
				b = fn.Name() == "PushBack"
			}
			at, _ := end(b)
			if len(ps) != 2 {
				continue
			}
			op = ringOp{kind: "insert", at: at, v: ps[1]}
		case "Pop", "PopBack", "PopFront":
			b := back
			if fn.Name() != "Pop" {
				b = fn.Name() == "PopBack"
			}
			_, e := end(b)
			op, skip = ringOp{kind: "remove", e: e}, cs.name == "empty"
			if e != nil {
				res = val(e)
			}
		case "Peek", "PeekBack", "PeekFront", "Front", "Back":
			b := back
			if fn.Name() != "Peek" {
				b = fn.Name() == "PeekBack" || fn.Name() == "Back"
			}
			_, e := end(b)
			skip = cs.name == "empty"
			if e != nil {
				res = val(e)
			}
		case "Len":
			res = length
		case "Empty":
			res = False
			if cs.name == "empty" {
				res = True
			}
		}
		if skip {
			continue
		}
		construct := name + " (" + cs.name + ")"
		n := 0
		facts := append([]*T{Not(Eq(r.l, Nil))}, cs.facts...)
		for _, x := range exits {
			if why, pos := nilSafe(x, facts); why != "" {
				ob(false, "no-nil", construct, pos, why)
				continue
			}
			f := withAll(x.Facts, facts)
			if f.Infeasible() {
				continue
			}
			n++
			if x.Kind != "return" {
				ob(false, "no-panic", construct, x.Pos, fn.Name()+" may panic")
				continue
			}
			why := r.splice(x, f, false, op)
			ob(why == "", "discipline", construct, x.Pos, fn.Name()+": "+why)
			if res != nil && len(x.Res) == 1 {
				ok := sameRes(f, x.Res[0], res)
				if res == True || res == False {
					ok = boolRes(f, x.Res[0], res)
				}
				ob(ok, "result", construct, x.Pos, fmt.Sprintf("%s returns %s, expected %s", fn.Name(), x.Res[0], res))
			}
		}
		ob(n > 0, "returns", construct, fn.Pos(), fn.Name()+" never returns in this case")
	}
}

// mapSet: a set kept in the keys of a map.
func mapSet(c *Ctx, nt *types.Named, ms []*ssa.Function) {
	for _, fn := range constructors(c.P, nt) {
		in := NewInterp(c.P, &Config{})
		exits := in.Run(fn)
		c.Complete(in, fn)
		for _, x := range exits {
			if x.Kind != "return" {
				continue
			}
			i := mapField(ptrElem(x.Res[0].Typ))
			if i < 0 {
				c.Fail("set-layout", ShortName(fn), x.Pos, "the set is not kept in a map")
				continue
			}
			st := ptrElem(x.Res[0].Typ)
			m := in.LoadOne(x.State, FieldAddr(x.Res[0], st, i), structOf(st).Field(i).Type())
			k := (*T)(nil)
			if m != nil {
				k = in.LoadOne(x.State, Mk("mlen", "", nil, m), types.Typ[types.Int])
			}
			c.Ob(m != nil && m.Op == "alloc" && k == Int(0), "starts-empty", ShortName(fn), x.Pos, "the map of the new set is %v with %v keys", m, k)
		}
	}
	n := 0
	allTrue := true // a map to bool in which every value is true
	for _, fn := range ms {
		for _, e := range allEvents(NewInterp(c.P, &Config{}).Run(fn)) {
			if e.Kind == "store" && e.Name == "mapupdate" && e.Val != True {
				allTrue = false
			}
		}
	}
	for _, fn := range ms {
		name := ShortName(fn)
		ps := Params(fn)
		s := ps[0]
		st := ptrElem(s.Typ)
		i := mapField(st)
		if i < 0 {
			c.Fail("set-layout", name, fn.Pos(), "the set is not kept in a map")
			continue
		}
		mt := structOf(st).Field(i).Type().Underlying().(*types.Map)
		in := NewInterp(c.P, &Config{})
		m := Mk("init", "", structOf(st).Field(i).Type(), FieldAddr(s, st, i))
		ln := LenOf(m)
		has := func(k *T) *T { return Mk("has", "", nil, m, k) }
		var exits []*Exit
		if b, ok := mt.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && allTrue && len(ps) == 2 {
			v := Mk("init", "", mt.Elem(), Mk("cell", "", mt.Elem(), m, ps[1]))
			h := Mk("init", "", types.Typ[types.Bool], has(ps[1]))
			exits = append(in.Run(fn, Not(Eq(s, Nil)), Not(Eq(m, Nil)), Ge0(ln), h, v), in.Run(fn, Not(Eq(s, Nil)), Not(Eq(m, Nil)), Ge0(ln), Not(h), Not(v))...)
		} else {
			exits = in.Run(fn, Not(Eq(s, Nil)), Not(Eq(m, Nil)), Ge0(ln))
		}
		c.Complete(in, fn)
		other := Mk("any", "other", mt.Key())
		rets := 0
		for _, x := range exits {
			if x.Kind != "return" {
				c.Fail("no-panic", name, x.Pos, "%s may panic", fn.Name())
				continue
			}
			rets++
			f := x.Facts
			cur := func(k *T, f *FactNode) *T {
				return in.LoadOne(&State{Mem: x.State.Mem, Facts: f, Clock: 1 << 20}, has(k), types.Typ[types.Bool])
			}
			was := func(k *T) *T { return Mk("init", "", types.Typ[types.Bool], has(k)) }
			now := in.LoadOne(x.State, FieldAddr(s, st, i), structOf(st).Field(i).Type())
			c.Ob(now == m, "discipline", name, x.Pos, "%s replaces the map of the set", fn.Name())
			is := func(r *T, f *FactNode, b bool) bool {
				if r == nil {
					return false
				}
				if b {
					return r == True || f.Proves(r)
				}
				return r == False || f.Proves(Not(r))
			}
			same := func(k *T, f *FactNode) bool {
				v := cur(k, f)
				return v != nil && (v == was(k) || boolRes(f, v, was(k)))
			}
			g := f
			if len(ps) == 2 {
				g = f.With(Not(Eq(other, ps[1])))
			}
			n++
			switch fn.Name() {
			case "Add":
				c.Ob(is(cur(ps[1], f), f, true), "discipline", name, x.Pos, "the element added is not in the set: %v", cur(ps[1], f))
			case "Remove":
				c.Ob(is(cur(ps[1], f), f, false), "discipline", name, x.Pos, "the element removed stays in the set: %v", cur(ps[1], f))
			default:
				if len(ps) == 2 {
					c.Ob(same(ps[1], f), "observers-pure", name, x.Pos, "%s changes the set", fn.Name())
				}
			}
			c.Ob(same(other, g), "others-kept", name, x.Pos, "%s changes the membership of other elements: %v", fn.Name(), cur(other, g))
			switch fn.Name() {
			case "Contains":
				c.Ob(boolRes(f, x.Res[0], was(ps[1])), "result", name, x.Pos, "Contains returns %v", x.Res[0])
			case "Len":
				c.Ob(x.Res[0] == ln || f.Proves(EqInt(x.Res[0], ln)), "result", name, x.Pos, "Len returns %v, not the number of elements", x.Res[0])
			case "Empty":
				c.Ob(boolRes(f, x.Res[0], EqInt(ln, Int(0))), "result", name, x.Pos, "Empty returns %v", x.Res[0])
			}
		}
		c.Ob(rets > 0, "returns", name, fn.Pos(), "%s never returns", fn.Name())
	}
	c.Need("set methods", n, 5)
}

func mapField(st types.Type) int {
	s := structOf(st)
	if s == nil {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
			return i
		}
	}
	return -1
}
