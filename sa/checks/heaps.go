package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C13", Title: "Heaps always yield a minimum element and keep every element", Level: "other",
		Rule:   "typestate of the heap array. The order invariant (no child is less than its parent, for the arity the type uses) is assumed on entry of every exported method of every type with a comparator and a heap array, and carried along every path through an abstract state: ordered, or ordered except around one index (towards its parent, its children, or both). The content of the array between loops is compared symbolically with what it was: exchanges of a child with its parent move the exception according to the comparison results of the path (the child exchanged downwards must be shown to be least among all children, also through a scan loop). Loops are closed by an invariant that places the exception at a loop variable, proved inductive. On every exit the state must be ordered over the final length; each stretch must permute elements except for the element the operation names; Pop and Peek return the element that was at the root",
		Run:    heapOrder,
		Tech:   "typestate analysis with inductive loop invariants over a path-partitioned abstract interpretation of Go SSA",
		Note:   "comparison functions are strict weak orders and do not call back into the heap; index parameters are in range; integers do not overflow; the slice given to New is not shared",
		Assume: []string{"comparators are strict weak orders", "position bookkeeping is exact (C14)"}})
	register(&Check{ID: "C14", Title: "Keyed and removable heaps always find their elements", Level: "other",
		Rule:   "the same segmentation of every path: whenever elements have been moved, added or removed, the recorded position of each element touched (the map entry of its key, or the index stored in its handle) is the index it now has; positions are written for no other element; the position of a removed element is erased or set to -1; lookups answer exactly according to the recorded position, and operations on absent keys or handles that left the heap change nothing and say so",
		Run:    heapPositions,
		Tech:   "symbolic comparison of array contents and position stores per path segment and per loop iteration, over abstract interpretation of Go SSA",
		Note:   "keys equal themselves; a handle is used with the heap that produced it",
		Assume: []string{"comparators do not call back into the heap", "a handle is used with its own heap"}})
}

// heapLay says where a type keeps its heap.
type heapLay struct {
	named  *types.Named
	outer  int // field holding the heap proper, -1 when it is the type itself
	st     types.Type
	arr    int
	less   int
	ints   []int
	posMap int
	elemT  types.Type
	entry  types.Type // struct pointed to by elements, if they are pointers
	key    int        // the entry's compared field
	pos    int        // the entry's position field
}

func isLess(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 2 && s.Results().Len() == 1 && types.TypeString(s.Results().At(0).Type(), nil) == "bool"
}

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func heapLayIn(st types.Type) *heapLay {
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	l := &heapLay{outer: -1, st: st, arr: -1, less: -1, posMap: -1, key: -1, pos: -1}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if l.arr >= 0 {
				return nil
			}
			l.arr, l.elemT = i, u.Elem()
		case *types.Signature:
			if isLess(t) {
				l.less = i
			}
		case *types.Map:
			if isPlainInt(u.Elem()) {
				l.posMap = i
			}
		case *types.Basic:
			if isPlainInt(t) {
				l.ints = append(l.ints, i)
			}
		}
	}
	if l.arr < 0 || l.less < 0 {
		return nil
	}
	if e := ptrElem(l.elemT); e != nil {
		if es, ok := e.Underlying().(*types.Struct); ok {
			l.entry = e
			arg := s.Field(l.less).Type().Underlying().(*types.Signature).Params().At(0).Type()
			for i := 0; i < es.NumFields(); i++ {
				if types.Identical(es.Field(i).Type(), arg) || types.TypeString(es.Field(i).Type(), nil) == types.TypeString(arg, nil) {
					l.key = i
				} else if isPlainInt(es.Field(i).Type()) {
					l.pos = i
				}
			}
		}
	}
	return l
}

// heapLayOf describes the heap of the type a receiver points to.
func heapLayOf(recv types.Type) *heapLay {
	st := ptrElem(recv)
	if st == nil {
		return nil
	}
	if l := heapLayIn(st); l != nil {
		return l
	}
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if e := ptrElem(s.Field(i).Type()); e != nil {
			if l := heapLayIn(e); l != nil {
				l.outer = i
				return l
			}
		}
	}
	return nil
}

const (
	hOK = iota
	hUp
	hDown
	hBoth
)

var holeName = []string{"ordered", "ordered except towards the parent of", "ordered except towards the children of", "ordered except around"}

// hs is the abstract state: edges whose parent is at or above lo hold, except around hole i.
type hs struct {
	lo      *T
	kind    int
	i       *T
	dropped bool
	added   bool
	rekeyed bool
	gone    bool   // the position of the removed element is erased
	last    string // what the slot behind the final length holds, in terms of the entry state; "" unknown
}

func (s hs) String() string {
	r := holeName[s.kind]
	if s.i != nil && s.kind != hOK {
		r += " " + s.i.String()
	}
	if !IsConst(s.lo, 0) {
		r += " from " + s.lo.String()
	}
	return r
}

// halt is one alternative of a path.
type halt struct {
	st    hs
	f     *FactNode
	head  *Mem // memory at the start of the current stretch
	cmps  []*Event
	scans []*LoopRec
	pend  []*Event
	prev  *Mem   // memory at the start of the last stretch
	pLast string // st.last there
	pSet  bool
}

// heapRun analyses one path family.
type heapRun struct {
	c       *Ctx
	in      *Interp
	l       *heapLay
	r       *T // address of the heap proper
	less    *T
	k       *T // arity
	order   bool
	posOK   bool
	len0    *T
	lenf    *T
	n       *T // length that counts: the final one
	arr0    *T
	named   *T // index of the element to be removed, nil if none
	insert  bool
	rekey   *T // index of the element whose key may change
	rekeyV  *T
	vals    []*T // the arguments that make up a new element
	removed *T   // what identifies the removed element
	memo    map[string][]halt
	memoErr map[string]string
	nobl    int
}

func (h *heapRun) state(m *Mem, f *FactNode) *State {
	return &State{Mem: m, Facts: f, Clock: 1 << 20}
}

func (h *heapRun) sliceT() types.Type {
	return h.l.st.Underlying().(*types.Struct).Field(h.l.arr).Type()
}

func (h *heapRun) slice(m *Mem, f *FactNode) *T {
	return h.in.LoadOne(h.state(m, f), FieldAddr(h.r, h.l.st, h.l.arr), h.sliceT())
}

// content is the element at an index, as the tuple of its parts; nil if it depends on the case.
func (h *heapRun) content(m *Mem, f *FactNode, idx *T) []*T {
	sl := h.slice(m, f)
	if sl == nil {
		return nil
	}
	el := Mk("elem", "", types.NewPointer(h.l.elemT), BaseOf(sl), Add(OffOf(sl), idx))
	if s, ok := h.l.elemT.Underlying().(*types.Struct); ok && h.l.entry == nil {
		var out []*T
		for i := 0; i < s.NumFields(); i++ {
			v := h.in.LoadOne(h.state(m, f), FieldAddr(el, h.l.elemT, i), s.Field(i).Type())
			if v == nil {
				return nil
			}
			out = append(out, v)
		}
		return out
	}
	v := h.in.LoadOne(h.state(m, f), el, h.l.elemT)
	if v == nil {
		return nil
	}
	return []*T{v}
}

// keyOf is the compared value of the element at an index.
func (h *heapRun) keyOf(m *Mem, f *FactNode, idx *T) *T {
	ct := h.content(m, f, idx)
	if ct == nil {
		return nil
	}
	if h.l.entry == nil {
		if len(ct) == 1 && !isStructT(h.l.elemT) {
			return ct[0]
		}
		return Mk("struct", "", h.l.elemT, ct...)
	}
	return h.in.LoadOne(h.state(m, f), FieldAddr(ct[0], h.l.entry, h.l.key), h.l.entry.Underlying().(*types.Struct).Field(h.l.key).Type())
}

func isStructT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func sameTuple(a, b []*T) bool {
	if len(a) != len(b) || a == nil {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameKey(a, b *T) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	return a.Op == "struct" && b.Op == "struct" && sameTuple(a.Args, b.Args)
}

func tupleText(t []*T) string {
	var s []string
	for _, x := range t {
		s = append(s, x.String())
	}
	return strings.Join(s, "|")
}

// bases are the backing arrays the heap uses around a stretch.
func (h *heapRun) isBase(b *T, ms ...*Mem) bool {
	if b == BaseOf(h.arr0) {
		return true
	}
	for _, m := range ms {
		if sl := h.slice(m, nil); sl != nil && BaseOf(sl) == b {
			return true
		}
	}
	return false
}

// elemIdx: the address lies in element idx of the array.
func (h *heapRun) elemIdx(a *T, ms ...*Mem) (*T, bool) {
	for a != nil {
		if a.Op == "elem" {
			if h.isBase(a.Args[0], ms...) {
				off := OffOf(h.arr0)
				return Sub(a.Args[1], off), true
			}
			return nil, false
		}
		if a.Op != "field" || len(a.Args) == 0 {
			return nil, false
		}
		a = a.Args[0]
	}
	return nil, false
}

// isCmp: the event calls the comparator.
func (h *heapRun) isCmp(e *Event) bool {
	return e.Kind == "dyncall" && len(e.Args) == 2 && len(e.Res) == 1 && e.Val != nil && (e.Val == h.less || h.less == nil)
}

// moves: the event changes the array or the keys of its elements.
func (h *heapRun) moves(e *Event, m *Mem) bool {
	switch e.Kind {
	case "store":
		if len(e.Args) == 0 || e.Args[0] == nil {
			return false
		}
		a := e.Args[0]
		if _, ok := h.elemIdx(a, m, e.Mem); ok {
			return true
		}
		if a.Op == "field" && a.Args[0] == h.r && a == FieldAddr(h.r, h.l.st, h.l.arr) {
			return true
		}
		if h.l.entry != nil && a.Op == "field" && h.l.key >= 0 && a == FieldAddr(a.Args[0], h.l.entry, h.l.key) && a.Args[0].Op != "alloc" {
			return true
		}
		return h.posStore(e) != nil
	case "append", "copy":
		if len(e.Args) > 0 && h.isBase(BaseOf(e.Args[0]), m) {
			return true
		}
	}
	return false
}

// touches: some iteration of the loop moves elements.
func (h *heapRun) touches(rec *LoopRec) bool {
	hit := false
	for _, b := range rec.Back {
		visit(backEvents(rec, b), func(e *Event, _ *State) {
			if h.moves(e, rec.Head.Mem) {
				hit = true
			}
		})
	}
	return hit
}

// candidates are the indices mentioned on a path.
func (h *heapRun) candidates(a *halt, evs ...*Event) []*T {
	var out []*T
	seen := map[*T]bool{}
	add := func(t *T) {
		Contains(t, func(x *T) bool {
			if x.Op == "elem" {
				if i, ok := h.elemIdx(x, a.head); ok && !seen[i] {
					seen[i] = true
					out = append(out, i)
				}
			}
			return false
		})
	}
	for _, e := range a.cmps {
		add(e.Args[0])
		add(e.Args[1])
	}
	for _, e := range append(append([]*Event{}, a.pend...), evs...) {
		for _, t := range e.Args {
			if t != nil {
				add(t)
			}
		}
		if e.Val != nil {
			add(e.Val)
		}
	}
	if a.st.i != nil && !seen[a.st.i] {
		seen[a.st.i] = true
		out = append(out, a.st.i)
	}
	for f := a.f; f != nil; f = f.Next {
		if f.F != nil && (f.F.Op == "eq" || f.F.Op == "not") {
			add(f.F)
		}
	}
	return out
}

// le are the comparisons known on the stretch: pairs (x,y) with element x not greater than y.
type leRel struct {
	h  *heapRun
	f  *FactNode
	ps [][2]*T
}

func (h *heapRun) relation(a *halt) *leRel {
	r := &leRel{h: h, f: a.f}
	cand := h.candidates(a)
	find := func(m *Mem, v *T) []*T {
		var out []*T
		for _, i := range cand {
			if sameKey(h.keyOf(m, a.f, i), v) {
				out = append(out, i)
			}
		}
		return out
	}
	for _, e := range a.cmps {
		var yes, no bool
		if a.f.Proves(e.Res[0]) {
			yes = true
		} else if a.f.Proves(Not(e.Res[0])) {
			no = true
		}
		if !yes && !no {
			continue
		}
		for _, x := range find(e.Mem, e.Args[0]) {
			for _, y := range find(e.Mem, e.Args[1]) {
				if yes {
					r.ps = append(r.ps, [2]*T{x, y})
				} else {
					r.ps = append(r.ps, [2]*T{y, x})
				}
			}
		}
	}
	return r
}

func (r *leRel) eq(a, b *T) bool { return a == b || r.f.Proves(EqInt(a, b)) }

// below: the indices known to hold elements not less than that at x.
func (r *leRel) above(x *T) []*T {
	out := []*T{x}
	for k := 0; k < len(out); k++ {
		for _, p := range r.ps {
			if !r.eq(p[0], out[k]) {
				continue
			}
			dup := false
			for _, y := range out {
				dup = dup || y == p[1]
			}
			if !dup {
				out = append(out, p[1])
			}
		}
	}
	return out
}

func (r *leRel) le(x, y *T) bool {
	for _, z := range r.above(x) {
		if r.eq(z, y) {
			return true
		}
	}
	return false
}

// scanRange: after the loop the element at the value of a loop variable is not greater than
// those in [lo,hi).
type scanRange struct{ j, lo, hi *T }

func intPhi(p *ssa.Phi) bool { return isPlainInt(p.Type()) }

func (h *heapRun) scan(a *halt, rec *LoopRec) []scanRange {
	var out []scanRange
	for _, p := range rec.Phis {
		if !intPhi(p) || rec.Cur[p] == nil || rec.Init[p] == nil {
			continue
		}
		j := rec.Cur[p]
		// the counter: the other index compared
		var cnt *T
		ok := len(rec.Back) > 0
		for _, b := range rec.Back {
			bv := h.in.BackVal(rec, b, p)
			ba := &halt{st: a.st, f: b.Facts, head: a.head}
			for _, e := range backEvents(rec, b) {
				if h.isCmp(e) {
					ba.cmps = append(ba.cmps, e)
				}
			}
			rel := h.relation(ba)
			good := false
			for _, q := range rel.ps {
				for k := 0; k < 2 && !good; k++ {
					if !rel.eq(q[k], j) {
						continue
					}
					x := q[1-k]
					if cnt != nil && cnt != x && !rel.eq(cnt, x) {
						continue
					}
					if rel.eq(bv, j) && k == 0 || rel.eq(bv, x) && k == 1 {
						cnt, good = x, true
					}
				}
			}
			ok = ok && good
		}
		if !ok || cnt == nil {
			continue
		}
		// it goes up by one
		init := map[*T]*T{rec.Iota: Int(0)}
		for _, q := range rec.Phis {
			if rec.Cur[q] != nil && rec.Init[q] != nil {
				init[rec.Cur[q]] = rec.Init[q]
			}
		}
		for _, b := range rec.Back {
			next := map[*T]*T{rec.Iota: Add(rec.Iota, Int(1))}
			for _, q := range rec.Phis {
				if v := h.in.BackVal(rec, b, q); v != nil && rec.Cur[q] != nil {
					next[rec.Cur[q]] = v
				}
			}
			if !b.Facts.Proves(EqInt(Subst(cnt, next), Add(cnt, Int(1)))) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		c0, j0 := Subst(cnt, init), rec.Init[p]
		switch {
		case a.f.Proves(EqInt(c0, Add(j0, Int(1)))):
			out = append(out, scanRange{j, j0, cnt})
		case a.f.Proves(EqInt(c0, j0)):
			out = append(out, scanRange{j, c0, cnt})
		default:
			out = append(out, scanRange{j, c0, cnt})
		}
	}
	return out
}

// leastOver: the element at x is not greater than every child of i.
func (h *heapRun) leastOver(a *halt, rel *leRel, x, i *T) bool {
	y := Mk("any", "child#", types.Typ[types.Int])
	first := Add(Mul(h.k, i), Int(1))
	f := a.f.With(Le(first, y)).With(Lt(y, Add(first, h.k))).With(Lt(y, h.n))
	var cover [][2]*T // excluded: y == c[0], or c[0] <= y < c[1]
	up := rel.above(x)
	for _, s := range up {
		cover = append(cover, [2]*T{s, nil})
	}
	for _, rec := range a.scans {
		for _, s := range h.scan(a, rec) {
			for _, u := range up {
				if rel.eq(u, s.j) {
					cover = append(cover, [2]*T{s.lo, s.hi})
				}
			}
		}
	}
	var split func(f *FactNode, k int) bool
	split = func(f *FactNode, k int) bool {
		if f.Infeasible() {
			return true
		}
		if k == len(cover) {
			return false
		}
		lo, hi := cover[k][0], cover[k][1]
		if hi == nil {
			hi = Add(lo, Int(1))
		}
		return split(f.With(Lt(y, lo)), k+1) && split(f.With(Le(hi, y)), k+1)
	}
	return split(f, 0)
}

func (h *heapRun) child(f *FactNode, b, a *T) bool {
	if par := Quo(Sub(b, Int(1)), h.k); f.Proves(EqInt(a, par)) && (f.Proves(Lt(Int(0), b)) || f.Proves(Not(EqInt(a, b)))) {
		return true
	}
	if f.Proves(EqInt(a, Mk("fdiv", "", types.Typ[types.Int], Sub(b, Int(1)), h.k))) && f.Proves(Lt(Int(0), b)) {
		return true
	}
	first := Add(Mul(h.k, a), Int(1))
	return f.Proves(Le(first, b)) && f.Proves(Lt(b, Add(first, h.k)))
}

func (h *heapRun) root(f *FactNode, i *T) bool {
	return f.Proves(Le(i, Int(0))) || f.Proves(EqInt(Quo(Sub(i, Int(1)), h.k), i))
}

// settle uses the comparisons to discharge the exception.
func (h *heapRun) settle(a *halt) {
	if a.st.kind == hOK || !h.order {
		return
	}
	rel := h.relation(a)
	i := a.st.i
	f := a.f
	a.f = h.withMul(f, i)
	up, down := true, true
	if a.st.kind == hDown || a.st.kind == hBoth {
		down = h.leastOver(a, rel, i, i)
		if !down {
			// an element at or above it that is least
			for _, x := range rel.above(i) {
				if x != i && h.leastOver(a, rel, x, i) {
					down = true
				}
			}
		}
	}
	if a.st.kind == hUp || a.st.kind == hBoth {
		up = h.root(a.f, i)
		if !up {
			for _, c := range h.candidates(a) {
				if c != i && h.child(a.f, i, c) && rel.le(c, i) {
					up = true
				}
			}
		}
	}
	a.f = f
	switch {
	case up && down:
		a.st.kind, a.st.i = hOK, nil
	case a.st.kind == hBoth && up:
		a.st.kind = hDown
	case a.st.kind == hBoth && down:
		a.st.kind = hUp
	}
}

// touched indices of the pending events.
func (h *heapRun) touched(a *halt, end *Mem) ([]*T, string) {
	var out []*T
	add := func(t *T) {
		for _, x := range out {
			if x == t || a.f.Proves(EqInt(x, t)) {
				return
			}
		}
		out = append(out, t)
	}
	for _, e := range a.pend {
		switch e.Kind {
		case "store":
			ad := e.Args[0]
			if h.posStore(e) != nil {
				continue
			}
			if i, ok := h.elemIdx(ad, a.head, end, e.Mem); ok {
				add(i)
				continue
			}
			if ad.Op == "field" && ad.Args[0] == h.r {
				old, nw := h.slice(e.Mem, a.f), e.Val
				if old == nil || nw == nil {
					return nil, "the array is replaced in a way that is not understood"
				}
				if OffOf(nw) != OffOf(old) {
					return nil, "the array's beginning is moved"
				}
				if BaseOf(nw) != BaseOf(old) {
					grown := false
					for _, q := range a.pend {
						if q.Kind == "append" && len(q.Args) == 2 && BaseOf(q.Args[0]) == BaseOf(old) && a.f.Proves(EqInt(LenOf(q.Args[0]), LenOf(old))) && OffOf(q.Args[0]) == OffOf(old) {
							if d, ok := ConstOf(Sub(LenOf(nw), LenOf(old))); ok && d.IsInt64() && d.Int64() == 1 && a.f.Proves(EqInt(LenOf(q.Args[1]), Int(1))) {
								grown = true
								add(LenOf(old))
							}
						}
					}
					if !grown {
						return nil, "the array is replaced in a way that is not understood"
					}
				}
				continue
			}
			// a key inside an entry
			hit := false
			for _, i := range h.candidates(a) {
				if ct := h.content(e.Mem, a.f, i); ct != nil && (ct[0] == ad.Args[0] || a.f.Proves(Eq(ct[0], ad.Args[0]))) {
					add(i)
					hit = true
					break
				}
			}
			if h.rekey != nil && ad.Args[0] == h.rekeyV {
				add(h.rekey)
				hit = true
			}
			if !hit {
				return nil, "the key of an element that is not named is changed"
			}
		case "append":
		case "copy":
			return nil, "elements are copied within the array"
		}
	}
	return out, ""
}

// flush closes a stretch of events: its net effect on the array moves the abstract state.
// It may split into alternatives.
func (h *heapRun) flush(a *halt, end *Mem) ([]*halt, string) {
	if len(a.pend) == 0 {
		return []*halt{a}, ""
	}
	h.settle(a)
	if a.st.i != nil {
		a.f = h.withMul(a.f, a.st.i)
	}
	ts, why := h.touched(a, end)
	if why != "" {
		return nil, why
	}
	for _, t := range ts {
		a.f = h.withQuo(a.f, t)
	}
	// the order of the indices touched, and their place against the final length
	fork := func(t *T) ([]*halt, string) {
		var out []*halt
		for _, x := range []*T{t, Not(t)} {
			b := *a
			b.f = a.f.With(x)
			if b.f.Infeasible() {
				continue
			}
			rs, why := h.flush(&b, end)
			if why != "" {
				return nil, why
			}
			out = append(out, rs...)
		}
		return out, ""
	}
	for x := 0; x < len(ts); x++ {
		for y := 0; y < x; y++ {
			if !a.f.Proves(Not(EqInt(ts[x], ts[y]))) && !a.f.With(EqInt(ts[x], ts[y])).Infeasible() {
				return fork(EqInt(ts[x], ts[y]))
			}
		}
	}
	f := a.f
	var inside, outside []*T
	for _, t := range ts {
		switch in := Lt(t, h.n); {
		case f.Proves(in) || f.With(Not(in)).Infeasible():
			inside = append(inside, t)
		case f.Proves(Not(in)) || f.With(in).Infeasible():
			outside = append(outside, t)
		default:
			return fork(in)
		}
	}
	f = h.distinct(a, f, ts)
	if f.Infeasible() {
		return nil, ""
	}
	type cell struct {
		i        *T
		was, now []*T
		from     *T // index the content came from
	}
	var cells []cell
	for _, t := range inside {
		cells = append(cells, cell{i: t, was: h.content(a.head, f, t), now: h.content(end, f, t)})
	}
	for _, x := range cells {
		if x.now == nil || x.was == nil {
			return nil, "what is stored at index " + x.i.String() + " is not understood"
		}
	}
	// accounting
	lastWas := h.content(a.head, f, h.n)
	pool := append([]cell{}, cells...)
	fresh, changed, dropped, moved, rekeyed := -1, -1, false, 0, false
	used := map[int]bool{}
	for k := range cells {
		x := &cells[k]
		hit := false
		for q := range pool {
			if !used[q] && sameTuple(pool[q].was, x.now) {
				used[q], hit = true, true
				x.from = pool[q].i
				break
			}
		}
		if hit {
			if x.from != x.i {
				moved++
			}
			continue
		}
		switch {
		case h.insert && f.Proves(EqInt(x.i, h.len0)) && fresh < 0 && !a.st.added:
			fresh = k
			if why := h.isNew(f, end, x.i, x.now); why != "" {
				return nil, why
			}
		case h.named != nil && sameTuple(x.now, lastWas) && !a.st.dropped:
			// the last element replaces the named one
			dropped = true
			changed = k
		case h.rekey != nil && h.l.entry == nil && f.Proves(EqInt(x.i, h.rekey)) && changed < 0 && !a.st.rekeyed:
			changed = k
			rekeyed = true
			for q := range x.now {
				want := x.was[q]
				if q != h.ident() {
					want = h.vals[len(h.vals)-1]
				}
				if x.now[q] != want && !f.Proves(Eq(x.now[q], want)) {
					return nil, fmt.Sprintf("the element at index %s becomes %s", x.i, tupleText(x.now))
				}
			}
		default:
			return nil, fmt.Sprintf("index %s receives %s, which is not an element of the heap that moved", x.i, tupleText(x.now))
		}
	}
	if dropped {
		lost := 0
		for q := range pool {
			if used[q] {
				continue
			}
			lost++
			if !f.Proves(EqInt(pool[q].i, h.named)) {
				return nil, fmt.Sprintf("the element at index %s is dropped, not the one named", pool[q].i)
			}
		}
		if lost != 1 {
			return nil, "an element is lost"
		}
	} else {
		for q := range pool {
			if !used[q] && fresh != q && changed != q {
				return nil, fmt.Sprintf("the element at index %s is lost", pool[q].i)
			}
		}
	}
	nst := a.st
	nst.dropped = a.st.dropped || dropped
	nst.added = a.st.added || fresh >= 0
	keyed := h.l.entry != nil && h.rekey != nil && h.keyStored(a)
	if keyed {
		if k := h.keyOf(end, f, h.rekey); k == nil || k != h.vals[len(h.vals)-1] {
			return nil, fmt.Sprintf("the element named gets the value %v", k)
		}
	}
	nst.rekeyed = a.st.rekeyed || rekeyed || keyed
	if len(outside) > 0 {
		for _, t := range outside {
			if !f.Proves(Not(EqInt(t, h.n))) {
				nst.last = ""
			}
		}
		for _, t := range outside {
			if f.Proves(EqInt(t, h.n)) {
				if ct := h.content(end, f, t); ct != nil && a.head == nil {
					nst.last = tupleText(ct)
				}
			}
		}
		if h.named == nil {
			return nil, "elements beyond the end are changed"
		}
	}
	// order
	if h.order {
		setHole := func(i *T) string {
			switch {
			case nst.kind == hOK:
				nst.kind, nst.i = hBoth, i
			case f.Proves(EqInt(nst.i, i)):
				nst.kind = hBoth
			default:
				return "a second element is put out of order"
			}
			return ""
		}
		switch {
		case keyed && moved == 0 && len(inside) <= 1:
			if why := setHole(h.rekey); why != "" {
				return nil, why
			}
		case keyed:
			return nil, "a key is changed while elements move"
		case moved == 0 && fresh < 0 && changed < 0:
		case len(cells) == 1 && fresh == 0:
			if nst.kind != hOK {
				return nil, "an element is added while the order is not restored"
			}
			nst.kind, nst.i = hUp, cells[0].i
		case len(cells) == 1 && changed == 0:
			if why := setHole(cells[0].i); why != "" {
				return nil, why
			}
		case len(cells) == 2 && moved == 2 && fresh < 0 && changed < 0:
			if why := h.exchange(a, &nst, cells[0].i, cells[1].i); why != "" {
				return nil, why
			}
		default:
			return nil, "elements are moved in a way that is not understood"
		}
	}
	if h.posOK {
		for _, x := range cells {
			if why := h.position(f, end, x.i, x.now); why != "" {
				return nil, why
			}
		}
		if why := h.foreign(a, f, end, inside); why != "" {
			return nil, why
		}
		if h.removed != nil && !nst.gone {
			nst.gone = h.erased(f, end, a.head, a.st.last) == ""
		}
	}
	h.nobl++
	return []*halt{{st: nst, f: a.f, head: end, prev: a.head, pLast: a.st.last, pSet: true}}, ""
}

// keyStored: a key field of an entry is written on the stretch.
func (h *heapRun) keyStored(a *halt) bool {
	for _, e := range a.pend {
		if e.Kind == "store" && e.Args[0].Op == "field" && e.Args[0].Args[0] != h.r && h.posStore(e) == nil {
			if _, ok := h.elemIdx(e.Args[0], a.head, e.Mem); !ok {
				return true
			}
		}
	}
	return false
}

// distinct: elements at different indices are different handles or have different keys.
func (h *heapRun) distinct(a *halt, f *FactNode, ts []*T) *FactNode {
	id := h.ident()
	if id < 0 {
		return f
	}
	cand := h.candidates(a)
	for _, t := range ts {
		cand = append(cand, t)
	}
	cand = append(cand, h.n)
	g := f
	for x := range cand {
		for y := 0; y < x; y++ {
			if cand[x] == cand[y] || !g.Proves(Not(EqInt(cand[x], cand[y]))) {
				continue
			}
			p, q := h.content(a.head, f, cand[x]), h.content(a.head, f, cand[y])
			if p == nil || q == nil {
				continue
			}
			if p[id] == q[id] {
				if h.valid(f, cand[x]) && h.valid(f, cand[y]) {
					return f.With(False)
				}
				continue
			}
			g = g.With(Not(Eq(p[id], q[id])))
		}
	}
	return g
}

func (h *heapRun) valid(f *FactNode, i *T) bool {
	m := h.len0
	return f.Proves(Ge0(i)) && (f.Proves(Lt(i, m)) || f.Proves(Lt(i, h.lenf)))
}

// ident is the part of an element that identifies it, -1 if none does.
func (h *heapRun) ident() int {
	switch {
	case h.l.entry != nil:
		return 0
	case h.l.posMap >= 0:
		k := h.mapKey()
		return k
	}
	return -1
}

// mapKey is the element field used as the key of the position map.
func (h *heapRun) mapKey() int {
	s, ok := h.l.elemT.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	mt := h.l.st.Underlying().(*types.Struct).Field(h.l.posMap).Type().Underlying().(*types.Map)
	for i := 0; i < s.NumFields(); i++ {
		if types.TypeString(s.Field(i).Type(), nil) == types.TypeString(mt.Key(), nil) {
			return i
		}
	}
	return -1
}

// exchange of the elements at x and y.
func (h *heapRun) exchange(a *halt, st *hs, x, y *T) string {
	if st.kind == hOK {
		return "elements are exchanged in a heap that is in order"
	}
	rel := h.relation(a)
	f := a.f
	a.f = h.withMul(f, st.i)
	defer func() { a.f = f }()
	for k := 0; k < 2; k, x, y = k+1, y, x {
		// x the parent, y the child
		if !h.child(a.f, y, x) {
			continue
		}
		if !rel.le(y, x) {
			return fmt.Sprintf("the child at %s is exchanged with its parent without being known not to be greater", y)
		}
		if rel.eq(st.i, y) && (st.kind == hUp || st.kind == hBoth) {
			st.kind, st.i = hUp, x
			return ""
		}
		if rel.eq(st.i, x) && (st.kind == hDown || st.kind == hBoth) {
			if !h.leastOver(a, rel, y, x) {
				return fmt.Sprintf("the child at %s moves up without being known to be least among all children of %s", y, x)
			}
			st.kind, st.i = hDown, y
			return ""
		}
		return "an exchange away from the element that is out of order"
	}
	return fmt.Sprintf("the elements at %s and %s are exchanged though neither is known to be the other's parent (arity %s)", x, y, h.k)
}

// run follows the events of a path.
func (h *heapRun) run(start *halt, evs []*Event, end *Mem) ([]*halt, string) {
	alts := []*halt{start}
	flushAll := func(m *Mem) string {
		var out []*halt
		for _, a := range alts {
			rs, why := h.flush(a, m)
			if why != "" {
				return why
			}
			out = append(out, rs...)
		}
		alts = out
		return ""
	}
	for _, e := range evs {
		switch {
		case h.isCmp(e):
			if len(alts) > 0 && len(alts[0].pend) > 0 {
				if why := flushAll(e.Mem); why != "" {
					return nil, why
				}
			}
			for _, a := range alts {
				a.cmps = append(a.cmps, e)
			}
		case e.Kind == "loop" && e.Loop != nil:
			rec := e.Loop
			if len(rec.Back) > 0 && !h.touches(rec) {
				for _, a := range alts {
					a.scans = append(a.scans, rec)
				}
				continue
			}
			if why := flushAll(rec.Entry.Mem); why != "" {
				return nil, why
			}
			if len(rec.Back) == 0 {
				// never repeated
				for _, a := range alts {
					h.settle(a)
					*a = halt{st: a.st, f: a.f, head: rec.Head.Mem}
				}
				continue
			}
			var out []*halt
			for _, a := range alts {
				// what the path knows later may settle the exception already, but need not hold in the loop
				raw := *a
				h.settle(a)
				rs, why := h.loop(a, rec)
				if why != "" && raw.st != a.st {
					rs, why = h.loop(&raw, rec)
				}
				if why != "" {
					return nil, why
				}
				out = append(out, rs...)
			}
			alts = out
		default:
			m := (*Mem)(nil)
			if len(alts) > 0 {
				m = alts[0].head
			}
			if h.moves(e, m) {
				for _, a := range alts {
					a.pend = append(a.pend, e)
				}
			}
		}
	}
	if why := flushAll(end); why != "" {
		return nil, why
	}
	for _, a := range alts {
		h.settle(a)
	}
	return alts, ""
}

// loop finds an inductive placement of the exception at the head of a loop.
func (h *heapRun) loop(a *halt, rec *LoopRec) ([]*halt, string) {
	sig := fmt.Sprintf("%p %v %v %v %v %p", rec, a.st, a.st.dropped, a.st.gone, a.st.last, a.f)
	if e, ok := h.memoErr[sig]; ok {
		return nil, e
	}
	if rs, ok := h.memo[sig]; ok {
		var out []*halt
		for i := range rs {
			c := rs[i]
			out = append(out, &c)
		}
		return out, ""
	}
	rs, why := h.loop1(a, rec)
	if why != "" {
		h.memoErr[sig] = why
		return nil, why
	}
	for _, r := range rs {
		h.memo[sig] = append(h.memo[sig], *r)
	}
	return rs, ""
}

func (h *heapRun) loop1(a *halt, rec *LoopRec) ([]*halt, string) {
	if !h.order {
		// positions only: every iteration restores them
		for _, b := range rec.Back {
			st := a.st
			rs, why := h.run(&halt{st: st, f: b.Facts, head: rec.Head.Mem}, backEvents(rec, b), b.Mem)
			if why != "" {
				return nil, why
			}
			for _, r := range rs {
				if r.st.dropped != st.dropped {
					return nil, "an element is dropped inside a loop"
				}
				if r.st.gone != st.gone {
					return nil, "the removed element's position changes inside a loop"
				}
				if r.st.last != st.last {
					a.st.last = ""
				}
			}
		}
		return []*halt{{st: a.st, f: a.f, head: rec.Head.Mem}}, ""
	}
	type guess struct {
		p    *ssa.Phi
		cur  *T
		kind int
		low  bool
		high bool
	}
	var gs []guess
	first := func(f *FactNode) *FactNode {
		f = f.With(EqInt(rec.Iota, Int(0)))
		for _, q := range rec.Phis {
			if rec.Cur[q] == nil || rec.Init[q] == nil {
				continue
			}
			if intPhi(q) {
				f = f.With(EqInt(rec.Cur[q], rec.Init[q]))
			} else if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				switch rec.Init[q] {
				case True:
					f = f.With(rec.Cur[q])
				case False:
					f = f.With(Not(rec.Cur[q]))
				}
			}
		}
		return f
	}
	fA := first(a.f)
	for _, p := range rec.Phis {
		if !intPhi(p) || rec.Cur[p] == nil || rec.Init[p] == nil {
			continue
		}
		if a.st.kind != hOK {
			if a.f.Proves(EqInt(rec.Init[p], a.st.i)) {
				gs = append(gs, guess{p: p, cur: rec.Cur[p], kind: a.st.kind})
			}
		} else {
			gs = append(gs, guess{p: p, cur: rec.Cur[p], kind: hUp}, guess{p: p, cur: rec.Cur[p], kind: hDown})
		}
	}
	if a.st.kind == hOK && !IsConst(a.st.lo, 0) {
		gs = nil
	}
	init := map[*T]*T{rec.Iota: Int(0)}
	for _, q := range rec.Phis {
		if rec.Cur[q] != nil && rec.Init[q] != nil {
			init[rec.Cur[q]] = rec.Init[q]
		}
	}
	if a.st.kind == hOK && !IsConst(a.st.lo, 0) {
		// building: the index each iteration sifts from
		for _, b := range rec.Back {
			for _, e := range backEvents(rec, b) {
				if e.Kind != "loop" || e.Loop == nil || !h.touches(e.Loop) {
					continue
				}
				for _, q := range e.Loop.Phis {
					if x := e.Loop.Init[q]; x != nil && intPhi(q) {
						dup := false
						for _, g := range gs {
							dup = dup || g.cur == x
						}
						if !dup {
							gs = append(gs, guess{cur: x, low: true}, guess{cur: x, high: true})
						}
					}
				}
			}
		}
	}
	why := "no loop variable follows the element that is out of order"
	for _, g := range gs {
		if g.high {
			w := h.grow(a, rec, g.cur, Subst(g.cur, init))
			if w != "" {
				why = w
				continue
			}
			hd := a.st
			hd.lo = Int(0)
			return []*halt{{st: hd, f: a.f, head: rec.Head.Mem}}, ""
		}
		if g.low {
			lo0 := Add(Subst(g.cur, init), Int(1))
			if !a.f.Proves(Le(h.n, Add(Mul(h.k, lo0), Int(1)))) && !a.f.Proves(EqInt(lo0, a.st.lo)) {
				why = "building does not start at the last parent"
				continue
			}
			hd := a.st
			hd.lo = Add(g.cur, Int(1))
			ok := true
			for _, b := range rec.Back {
				next := map[*T]*T{rec.Iota: Add(rec.Iota, Int(1))}
				for _, q := range rec.Phis {
					if v := h.in.BackVal(rec, b, q); v != nil && rec.Cur[q] != nil {
						next[rec.Cur[q]] = v
					}
				}
				st := hd
				st.lo, st.kind, st.i = g.cur, hDown, g.cur
				rs, w := h.run(&halt{st: st, f: b.Facts.With(Ge0(g.cur)), head: rec.Head.Mem}, backEvents(rec, b), b.Mem)
				if w == "" && !b.Facts.Proves(Ge0(g.cur)) {
					w = "building may reach below index zero"
				}
				for _, r := range rs {
					if w == "" && (r.st.kind != hOK || r.st.dropped) {
						w = "an iteration leaves the heap " + r.st.String()
					}
				}
				if w == "" && !b.Facts.Proves(EqInt(Subst(g.cur, next), Sub(g.cur, Int(1)))) {
					w = "building skips an index"
				}
				if w != "" {
					why, ok = w, false
					break
				}
			}
			if ok {
				return []*halt{{st: hd, f: a.f, head: rec.Head.Mem}}, ""
			}
			continue
		}
		// the first iteration, then later ones
		stA := a.st
		stA.kind, stA.i = g.kind, g.cur
		kindB, ok := -1, true
		back := func(st hs, f func(b *State) *FactNode) string {
			for _, b := range rec.Back {
				bf := f(b)
				if bf.Infeasible() {
					continue
				}
				rs, w := h.run(&halt{st: st, f: bf, head: rec.Head.Mem}, backEvents(rec, b), b.Mem)
				if w != "" {
					return w
				}
				bv := h.in.BackVal(rec, b, g.p)
				for _, r := range rs {
					if r.st.kind == hOK {
						continue
					}
					if bv == nil || !r.f.Proves(EqInt(bv, r.st.i)) {
						return fmt.Sprintf("the next iteration looks at %v while the heap is %s", bv, r.st)
					}
					if kindB >= 0 && kindB != r.st.kind {
						return "iterations leave the heap out of order in different ways"
					}
					kindB = r.st.kind
					if r.st.dropped != st.dropped || r.st.last != st.last {
						return "an element is removed inside the loop"
					}
				}
			}
			return ""
		}
		if w := back(stA, func(b *State) *FactNode { return first(b.Facts) }); w != "" {
			why, ok = w, false
		}
		if !ok {
			continue
		}
		if kindB < 0 {
			kindB = g.kind
		}
		// what holds of the loop variables after the first iteration
		var inv []*T
		var nexts []func(b *State) *T
		addInv := func(t *T, nx func(b *State) *T) { inv, nexts = append(inv, t), append(nexts, nx) }
		for _, q := range rec.Phis {
			cur, ini := rec.Cur[q], rec.Init[q]
			if cur == nil || ini == nil {
				continue
			}
			q := q
			switch {
			case intPhi(q):
				for _, mk := range []func(x *T) *T{
					func(x *T) *T { return Not(EqInt(x, ini)) },
					func(x *T) *T { return Lt(ini, x) },
					func(x *T) *T { return Lt(x, ini) },
					func(x *T) *T { return Ge0(x) },
					func(x *T) *T { return Lt(x, h.n) },
				} {
					mk := mk
					addInv(mk(cur), func(b *State) *T {
						if v := h.in.BackVal(rec, b, q); v != nil {
							return mk(v)
						}
						return False
					})
				}
			default:
				if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
					for _, neg := range []bool{false, true} {
						neg := neg
						mk := func(x *T) *T {
							if neg {
								return Not(x)
							}
							return x
						}
						addInv(mk(cur), func(b *State) *T {
							if v := h.in.BackVal(rec, b, q); v != nil {
								return mk(v)
							}
							return False
						})
					}
				}
			}
		}
		keep := make([]bool, len(inv))
		for i := range keep {
			keep[i] = true
		}
		for changed := true; changed; {
			changed = false
			for _, b := range rec.Back {
				fb := b.Facts
				for i := range inv {
					if keep[i] {
						fb = fb.With(inv[i])
					}
				}
				for i := range inv {
					if !keep[i] {
						continue
					}
					nx := nexts[i](b)
					fa := first(b.Facts)
					prove := func(f *FactNode) bool { return f.Infeasible() || nx == True || f.Proves(nx) }
					if !prove(h.withMul(fa, g.cur)) || !prove(h.withMul(fb, g.cur)) {
						keep[i] = false
						changed = true
					}
				}
			}
		}
		withInv := func(f *FactNode) *FactNode {
			for i := range inv {
				if keep[i] {
					f = f.With(inv[i])
				}
			}
			return f.With(Lt(Int(0), rec.Iota))
		}
		stB := a.st
		stB.kind, stB.i = kindB, g.cur
		if w := back(stB, func(b *State) *FactNode { return withInv(b.Facts) }); w != "" {
			why = w
			continue
		}
		var out []*halt
		if f := fA; !f.Infeasible() {
			out = append(out, &halt{st: stA, f: f, head: rec.Head.Mem})
		}
		if f := withInv(a.f); !f.Infeasible() {
			out = append(out, &halt{st: stB, f: f, head: rec.Head.Mem})
		}
		return out, ""
	}
	return nil, why
}

// grow: building by adding one element after the other: before each iteration the elements
// before x are in order among themselves.
func (h *heapRun) grow(a *halt, rec *LoopRec, x, x0 *T) string {
	if !a.f.Proves(Le(x0, Int(1))) || !a.f.Proves(Le(Int(0), x0)) {
		return "building does not start with the first elements"
	}
	if !a.f.Proves(Le(h.n, x)) {
		return "building ends before the last element"
	}
	n, memo, memoErr := h.n, h.memo, h.memoErr
	defer func() { h.n, h.memo, h.memoErr = n, memo, memoErr }()
	h.n, h.memo, h.memoErr = Add(x, Int(1)), map[string][]halt{}, map[string]string{}
	for _, b := range rec.Back {
		next := map[*T]*T{rec.Iota: Add(rec.Iota, Int(1))}
		for _, q := range rec.Phis {
			if v := h.in.BackVal(rec, b, q); v != nil && rec.Cur[q] != nil {
				next[rec.Cur[q]] = v
			}
		}
		if !b.Facts.Proves(Ge0(x)) {
			return "building may reach below index zero"
		}
		if !b.Facts.Proves(EqInt(Subst(x, next), Add(x, Int(1)))) {
			return "building skips an index"
		}
		st := a.st
		st.lo, st.kind, st.i = Int(0), hUp, x
		rs, w := h.run(&halt{st: st, f: b.Facts, head: rec.Head.Mem}, backEvents(rec, b), b.Mem)
		if w != "" {
			return w
		}
		for _, r := range rs {
			if r.st.kind != hOK || r.st.dropped {
				return "an iteration leaves the heap " + r.st.String()
			}
		}
	}
	return ""
}

// withQuo adds what the parent formula implies when its divisor is the arity.
func (h *heapRun) withQuo(f *FactNode, t *T) *FactNode {
	if t.Op != "quo" && t.Op != "fdiv" || !f.Proves(Le(Int(2), t.Args[1])) {
		return f
	}
	x := t.Args[0]
	switch {
	case f.Proves(Ge0(x)):
		f = f.With(Ge0(t)).With(Le(t, x)).With(Le(Mul(Int(2), t), x))
	case t.Op == "quo" && f.Proves(Le(Int(-1), x)):
		f = f.With(Ge0(t)).With(Le(t, Add(x, Int(1))))
	}
	return f
}

// withMul adds that a non-negative index times the arity is not below it.
func (h *heapRun) withMul(f *FactNode, i *T) *FactNode {
	if f.Proves(Ge0(i)) && f.Proves(Le(Int(2), h.k)) {
		return f.With(Le(Mul(Int(2), i), Mul(h.k, i)))
	}
	return f
}

// position: the recorded position of the element at index i.
func (h *heapRun) position(f *FactNode, m *Mem, i *T, ct []*T) string {
	if h.l.entry != nil {
		v := h.in.LoadOne(h.state(m, f), FieldAddr(ct[0], h.l.entry, h.l.pos), types.Typ[types.Int])
		if v == nil || !f.Proves(EqInt(v, i)) {
			return fmt.Sprintf("the handle at index %s records position %v", i, v)
		}
		return ""
	}
	mp, has := h.lookup(f, m, ct[h.mapKey()])
	if mp == nil || !f.Proves(EqInt(mp, i)) || has == nil || has != True && !f.Proves(has) {
		return fmt.Sprintf("the position recorded for the key at index %s is %v", i, mp)
	}
	return ""
}

// lookup reads the position map.
func (h *heapRun) lookup(f *FactNode, m *Mem, key *T) (*T, *T) {
	fl := h.l.st.Underlying().(*types.Struct).Field(h.l.posMap)
	mv := h.in.LoadOne(h.state(m, f), FieldAddr(h.r, h.l.st, h.l.posMap), fl.Type())
	if mv == nil {
		return nil, nil
	}
	v := h.in.LoadOne(h.state(m, f), Mk("cell", "", nil, mv, key), types.Typ[types.Int])
	b := h.in.LoadOne(h.state(m, f), Mk("has", "", nil, mv, key), types.Typ[types.Bool])
	return v, b
}

// posStore is what identifies the element whose position the event writes, nil for other events.
func (h *heapRun) posStore(e *Event) *T {
	if e.Kind != "store" || len(e.Args) == 0 || e.Args[0] == nil {
		return nil
	}
	a := e.Args[0]
	if h.l.entry != nil && h.l.pos >= 0 && a.Op == "field" && a == FieldAddr(a.Args[0], h.l.entry, h.l.pos) {
		return a.Args[0]
	}
	if h.l.posMap >= 0 && a.Op == "cell" && len(a.Args) == 2 {
		m := a.Args[0]
		if m.Op == "alloc" || m.Op == "init" && m.Args[0] == FieldAddr(h.r, h.l.st, h.l.posMap) {
			return a.Args[1]
		}
	}
	return nil
}

// foreign: positions are written only for elements that were touched, or erased for the removed one.
func (h *heapRun) foreign(a *halt, f *FactNode, end *Mem, ts []*T) string {
	id := h.ident()
	var own []*T
	all := append([]*T{}, ts...)
	if !a.st.gone {
		all = append(all, h.n)
	}
	for _, t := range all {
		for _, m := range []*Mem{a.head, end} {
			if ct := h.content(m, f, t); ct != nil {
				own = append(own, ct[id])
			}
		}
	}
	if h.removed != nil && !a.st.gone {
		own = append(own, h.removed)
	}
	for _, e := range a.pend {
		k := h.posStore(e)
		if k == nil {
			continue
		}
		ok := k.Op == "alloc" && h.l.entry != nil
		for _, o := range own {
			ok = ok || k == o || f.Proves(Eq(k, o))
		}
		if !ok {
			return "the position of " + k.String() + " is written though that element was not moved"
		}
	}
	return ""
}

// isNew: the element added is made of the arguments.
func (h *heapRun) isNew(f *FactNode, m *Mem, i *T, ct []*T) string {
	if h.l.entry != nil {
		k := h.keyOf(m, f, i)
		if len(h.vals) != 1 || k != h.vals[0] {
			return fmt.Sprintf("the element added holds %v", k)
		}
		return ""
	}
	if len(ct) != len(h.vals) {
		return "the element added is not made of the arguments"
	}
	for _, v := range h.vals {
		hit := false
		for _, c := range ct {
			hit = hit || c == v
		}
		if !hit {
			return fmt.Sprintf("the element added is %s", tupleText(ct))
		}
	}
	return ""
}

// heapTypes are the types that keep a heap.
func heapTypes(p *Program) []*types.Named {
	var out []*types.Named
	for _, n := range namedTypes(p, "common/container") {
		if heapLayOf(types.NewPointer(n)) == nil {
			continue
		}
		api := map[string]bool{}
		for _, f := range exportedMethods(p, n) {
			api[f.Name()] = true
		}
		if api["Pop"] && api["Push"] {
			out = append(out, n)
		}
	}
	return out
}

func heapOrder(c *Ctx)     { heapsRun(c, true) }
func heapPositions(c *Ctx) { heapsRun(c, false) }

func heapsRun(c *Ctx, order bool) {
	p := c.P
	n := 0
	for _, nt := range heapTypes(p) {
		lay := heapLayOf(types.NewPointer(nt))
		if !order && (lay.posMap < 0 && lay.pos < 0 || lay.outer >= 0) {
			continue
		}
		n++
		nops := 0
		for _, fn := range exportedMethods(p, nt) {
			nops += heapMethod(c, nt, fn, order)
		}
		if order {
			for _, fn := range constructors(p, nt) {
				heapCtor(c, nt, fn)
			}
		}
		c.Need("stretches of "+nt.Obj().Name(), nops, 1)
	}
	if order {
		c.Need("heap types", n, 5)
	} else {
		c.Need("keyed heap types", n, 2)
	}
}

// arities the methods may use: constants and integer fields of the heap.
func (h *heapRun) arities(evs []*Event, f *FactNode) []*T {
	var out []*T
	add := func(t *T) {
		for _, x := range out {
			if x == t {
				return
			}
		}
		out = append(out, t)
	}
	for _, i := range h.l.ints {
		add(Mk("init", "", types.Typ[types.Int], FieldAddr(h.r, h.l.st, i)))
	}
	add(Int(2))
	for _, k := range []int64{3, 4, 8} {
		add(Int(k))
	}
	return out
}

// heapMethod decides one exported method; it returns the number of stretches examined.
func heapMethod(c *Ctx, nt *types.Named, fn *ssa.Function, order bool) int {
	body := Body(fn)
	if body == nil {
		return 0
	}
	name := ShortName(fn)
	ps := Params(fn)
	lay := heapLayOf(ps[0].Typ)
	if lay == nil {
		c.Fail("heap-layout", name, fn.Pos(), "the heap of the receiver is not found")
		return 0
	}
	in := NewInterp(c.P, &Config{})
	r := ps[0]
	var facts []*T
	if lay.outer >= 0 {
		ost := ptrElem(ps[0].Typ)
		r = Mk("init", "", ost.Underlying().(*types.Struct).Field(lay.outer).Type(), FieldAddr(ps[0], ost, lay.outer))
		facts = append(facts, Not(Eq(r, Nil)))
	}
	h := &heapRun{c: c, in: in, l: lay, r: r, order: order, posOK: !order, memo: map[string][]halt{}, memoErr: map[string]string{}}
	facts = append(facts, Not(Eq(ps[0], Nil)))
	h.arr0 = Mk("init", "", h.sliceT(), FieldAddr(r, lay.st, lay.arr))
	h.len0 = LenOf(h.arr0)
	h.less = Mk("init", "", lay.st.Underlying().(*types.Struct).Field(lay.less).Type(), FieldAddr(r, lay.st, lay.less))
	for _, i := range lay.ints {
		if heapArityField(c, nt, i) {
			facts = append(facts, Ge0(Sub(Mk("init", "", types.Typ[types.Int], FieldAddr(r, lay.st, i)), Int(2))))
		}
	}
	// what the operation names
	var idx, ent, key *T
	var vals []*T
	for i := 1; i < len(ps); i++ {
		t := body.Params[i].Type()
		switch {
		case lay.entry != nil && ptrElem(t) != nil && types.TypeString(ptrElem(t), nil) == types.TypeString(lay.entry, nil):
			ent = ps[i]
		case isPlainInt(t) && (fn.Name() == "Remove" || fn.Name() == "Fix"):
			idx = ps[i]
			facts = append(facts, Ge0(idx), Lt(idx, h.len0))
		default:
			if lay.posMap >= 0 && key == nil {
				key = ps[i]
			}
			vals = append(vals, ps[i])
		}
	}
	h.vals = vals
	// the recorded position of what is named
	var pos, there *T
	var posFacts []*T
	if ent != nil {
		pos = Mk("init", "", types.Typ[types.Int], FieldAddr(ent, lay.entry, lay.pos))
		there = Not(EqInt(pos, Int(-1)))
		facts = append(facts, Not(Eq(ent, Nil)))
	} else if key != nil {
		mp := Mk("init", "", lay.st.Underlying().(*types.Struct).Field(lay.posMap).Type(), FieldAddr(r, lay.st, lay.posMap))
		pos = Mk("init", "", types.Typ[types.Int], Mk("cell", "", nil, mp, key))
		there = Mk("init", "", types.Typ[types.Bool], Mk("has", "", nil, mp, key))
	}
	if pos != nil {
		el := Mk("elem", "", types.NewPointer(lay.elemT), BaseOf(h.arr0), Add(OffOf(h.arr0), pos))
		posFacts = []*T{there, Ge0(pos), Lt(pos, h.len0)}
		if ent != nil {
			posFacts = append(posFacts, Eq(Mk("init", "", lay.elemT, el), ent))
		} else {
			k := h.mapKey()
			posFacts = append(posFacts, Eq(Mk("init", "", lay.elemT.Underlying().(*types.Struct).Field(k).Type(), FieldAddr(el, lay.elemT, k)), key))
		}
	}
	exits := in.Run(fn, facts...)
	c.Complete(in, fn)
	var ks []*T
	if order {
		ks = h.arities(nil, nil)
	} else {
		ks = []*T{Int(2)}
	}
	var why string
	var at *Exit
	best := -1
	for _, k := range ks {
		h.k = k
		h.memo, h.memoErr = map[string][]halt{}, map[string]string{}
		done := 0
		w := ""
		for _, x := range exits {
			if x.Kind != "return" {
				continue
			}
			cases := [][]*T{nil}
			if pos != nil {
				cases = [][]*T{posFacts, {Not(there)}}
			}
			for ci, cs := range cases {
				f := x.Facts
				for _, t := range cs {
					f = f.With(t)
				}
				if f.Infeasible() {
					continue
				}
				if w = h.method(fn, x, f, ci == 0, idx, ent, key, pos); w != "" {
					if done > best {
						best, why, at = done, w, x
					}
					break
				}
			}
			if w != "" {
				break
			}
			done++
		}
		if w == "" {
			why = ""
			break
		}
	}
	pos0 := fn.Pos()
	if at != nil && why != "" {
		pos0 = at.Pos
	}
	rule := "order-restored"
	if !order {
		rule = "position-exact"
	}
	c.Ob(why == "", rule, name, pos0, "%s does not keep its promise: %s", fn.Name(), why)
	return h.nobl
}

// method decides one exit of a method; there says that the element named is in the heap.
func (h *heapRun) method(fn *ssa.Function, x *Exit, f *FactNode, there bool, idx, ent, key, pos *T) string {
	end := x.State.Mem
	sl := h.slice(end, f)
	if sl == nil {
		return "the array on return is not understood"
	}
	h.lenf = LenOf(sl)
	h.named, h.insert, h.rekey, h.rekeyV, h.removed = nil, false, nil, nil, nil
	st := hs{lo: Int(0)}
	want := Int(0) // change of length
	op := fn.Name()
	switch op {
	case "Pop":
		h.named, want = Int(0), Int(-1)
		f = f.With(Lt(Int(0), h.len0))
	case "Remove":
		if there {
			h.named, want = idx, Int(-1)
			if pos != nil {
				h.named = pos
			}
		}
	case "Push":
		if key != nil && there {
			h.rekey = pos
		} else {
			h.insert, want = true, Int(1)
		}
	case "SetValue":
		if there {
			h.rekey, h.rekeyV = pos, ent
		}
	case "Fix":
		st.kind, st.i = hBoth, idx
	}
	if f.Infeasible() {
		return ""
	}
	if !f.Proves(EqInt(h.lenf, Add(h.len0, want))) {
		return fmt.Sprintf("the length changes from %s to %s", h.len0, h.lenf)
	}
	h.n = h.lenf
	if h.named != nil {
		if ct := h.content(nil, f, h.n); ct != nil {
			st.last = tupleText(ct)
		}
		if ct := h.content(nil, f, h.named); ct != nil && h.ident() >= 0 {
			h.removed = ct[h.ident()]
		}
	}
	alts, why := h.run(&halt{st: st, f: f}, x.Ev.List(), end)
	if why != "" {
		return why
	}
	for _, a := range alts {
		g := h.distinct(a, a.f, nil)
		if g.Infeasible() {
			continue
		}
		if h.order && a.st.kind != hOK && !g.Proves(Le(h.lenf, Int(1))) {
			return "the heap is left " + a.st.String()
		}
		switch {
		case h.named != nil && !a.st.dropped && !g.Proves(EqInt(h.named, h.n)):
			return "the last element is removed instead of the one named"
		case h.insert && !a.st.added:
			return "no element is added"
		case h.rekey != nil && !a.st.rekeyed:
			return "the element named keeps its value"
		}
		if w := h.results(fn, x, a, g, there, ent, key, pos); w != "" {
			return w
		}
	}
	return ""
}

// results of a method.
func (h *heapRun) results(fn *ssa.Function, x *Exit, a *halt, f *FactNode, there bool, ent, key, pos *T) string {
	elem := func(m *Mem, i, r *T) bool {
		ct := h.content(m, f, i)
		if ct == nil {
			return false
		}
		if h.l.entry != nil {
			return r == h.keyOf(m, f, i)
		}
		if len(ct) == 1 && r == ct[0] {
			return true
		}
		return r.Op == "struct" && sameTuple(r.Args, ct)
	}
	tail := func(r *T) bool {
		m, last := a.head, a.st.last
		if a.pSet {
			m, last = a.prev, a.pLast
		}
		ct := h.content(nil, f, h.named)
		return ct != nil && last == tupleText(ct) && elem(m, h.n, r)
	}
	op := fn.Name()
	switch {
	case op == "Peek" && len(x.Res) == 1:
		if !elem(nil, Int(0), x.Res[0]) {
			return fmt.Sprintf("it returns %s, not the element at the root", x.Res[0])
		}
	case op == "Len" && len(x.Res) == 1:
		if !f.Proves(EqInt(x.Res[0], h.len0)) {
			return "it does not return the number of elements"
		}
	case op == "Empty" && len(x.Res) == 1:
		z := EqInt(h.len0, Int(0))
		if !(x.Res[0] == z || f.Proves(x.Res[0]) && f.Proves(z) || f.Proves(Not(x.Res[0])) && f.Proves(Not(z))) {
			for _, s := range []struct {
				g *FactNode
				w *T
			}{{f.With(z), x.Res[0]}, {f.With(Not(z)), Not(x.Res[0])}} {
				if !s.g.Infeasible() && !s.g.Proves(s.w) && s.w != True {
					return "it does not say whether there are elements"
				}
			}
		}
	case (op == "Pop" || op == "Remove") && h.named != nil && len(x.Res) == 1 && ent == nil && key == nil:
		r := x.Res[0]
		i := h.named
		if !elem(nil, i, r) && !tail(r) && !(f.Proves(EqInt(i, h.n)) && elem(nil, h.n, r)) {
			return fmt.Sprintf("it returns %s, not the element it removes", r)
		}
	case op == "Push" && h.l.entry != nil && len(x.Res) == 1:
		if k := h.in.LoadOne(h.state(x.State.Mem, f), FieldAddr(x.Res[0], h.l.entry, h.l.key), h.l.entry.Underlying().(*types.Struct).Field(h.l.key).Type()); x.Res[0].Op != "alloc" || len(h.vals) != 1 || k != h.vals[0] {
			return "the handle returned is not that of the element added"
		}
	}
	if h.order {
		return ""
	}
	is := func(r *T, b bool) bool {
		if b {
			return r == True || f.Proves(r)
		}
		return r == False || f.Proves(Not(r))
	}
	switch {
	case ent != nil && len(x.Res) == 1 && (op == "Remove" || op == "SetValue"):
		if !is(x.Res[0], there) {
			return fmt.Sprintf("it returns %s for a handle whose element is in the heap: %v", x.Res[0], there)
		}
	case op == "Contains" && key != nil && len(x.Res) == 1:
		if !is(x.Res[0], there) {
			return fmt.Sprintf("it returns %s for a key whose presence is %v", x.Res[0], there)
		}
	case op == "Get" && key != nil && len(x.Res) == 2:
		if !is(x.Res[1], there) {
			return fmt.Sprintf("it reports %s for a key whose presence is %v", x.Res[1], there)
		}
		if there {
			ok := false
			for q, v := range h.content(nil, f, pos) {
				ok = ok || q != h.mapKey() && v == x.Res[0]
			}
			if !ok {
				return fmt.Sprintf("it returns %s, not the value stored under the key", x.Res[0])
			}
		}
	}
	if h.removed != nil && !a.st.gone {
		m, last := a.head, a.st.last
		if a.pSet {
			m, last = a.prev, a.pLast
		}
		return h.erased(f, x.State.Mem, m, last)
	}
	return ""
}

// erased: what was recorded about the position of the removed element is gone in end; m is the memory at the start
// of the stretch and last what the slot behind the final length held there.
func (h *heapRun) erased(f *FactNode, end, m *Mem, last string) (why string) {
	// the removed element may also be known as what the slot behind the end holds
	names := []*T{h.removed}
	if ct := h.content(nil, f, h.named); ct != nil && (last == tupleText(ct) || f.Proves(EqInt(h.named, h.n)) && last == tupleText(h.content(nil, f, h.n))) {
		if now := h.content(m, f, h.n); now != nil {
			names = append(names, now[h.ident()])
		}
	}
	for _, gone := range names {
		if h.l.entry != nil {
			v := h.in.LoadOne(h.state(end, f), FieldAddr(gone, h.l.entry, h.l.pos), types.Typ[types.Int])
			if v != nil && f.Proves(EqInt(v, Int(-1))) {
				return ""
			}
			why = fmt.Sprintf("the handle of the removed element keeps position %v", v)
		} else {
			_, has := h.lookup(f, end, gone)
			if has == False || has != nil && f.Proves(Not(has)) {
				return ""
			}
			why = "the key of the removed element stays recorded"
		}
	}
	return why
}

// heapArityField: an integer field set once by the constructors to at least two.
func heapArityField(c *Ctx, nt *types.Named, i int) bool {
	ok := false
	for _, ctor := range constructors(c.P, nt) {
		in := NewInterp(c.P, &Config{})
		for _, x := range in.Run(ctor) {
			if x.Kind != "return" {
				continue
			}
			lay := heapLayOf(x.Res[0].Typ)
			if lay == nil {
				return false
			}
			v := in.LoadOne(x.State, FieldAddr(x.Res[0], lay.st, i), types.Typ[types.Int])
			if v == nil || !x.Facts.Proves(Le(Int(2), v)) {
				return false
			}
			key := FieldAddr(x.Res[0], lay.st, i).Aux
			for _, f := range c.P.StoresTo(key) {
				if f.Signature.Recv() != nil {
					return false
				}
			}
			ok = true
		}
	}
	return ok
}

// heapCtor: what a constructor builds is ordered and uses the comparator it is given.
func heapCtor(c *Ctx, nt *types.Named, fn *ssa.Function) {
	name := ShortName(fn)
	in := NewInterp(c.P, &Config{})
	exits := in.Run(fn)
	c.Complete(in, fn)
	var less *T
	for i, p := range Body(fn).Params {
		if isLess(p.Type()) {
			less = Params(fn)[i]
		}
	}
	n := 0
	for _, x := range exits {
		if x.Kind != "return" {
			continue
		}
		n++
		obj := x.Res[0]
		lay := heapLayOf(obj.Typ)
		if lay == nil {
			c.Fail("heap-layout", name, x.Pos, "the heap of the result is not found")
			continue
		}
		r := obj
		if lay.outer >= 0 {
			ost := ptrElem(obj.Typ)
			r = in.LoadOne(x.State, FieldAddr(obj, ost, lay.outer), ost.Underlying().(*types.Struct).Field(lay.outer).Type())
			if r == nil {
				c.Fail("heap-layout", name, x.Pos, "the heap of the result is not found")
				continue
			}
		}
		h := &heapRun{c: c, in: in, l: lay, r: r, order: true, memo: map[string][]halt{}, memoErr: map[string]string{}}
		lf := in.LoadOne(x.State, FieldAddr(r, lay.st, lay.less), lay.st.Underlying().(*types.Struct).Field(lay.less).Type())
		c.Ob(lf != nil && unwrapFn(lf) == less, "comparator-kept", name, x.Pos, "the comparator kept is %v, not the one given", lf)
		sl := h.slice(x.State.Mem, x.Facts)
		if sl == nil {
			c.Fail("order-restored", name, x.Pos, "the array of the new heap is not understood")
			continue
		}
		if x.Facts.Proves(EqInt(LenOf(sl), Int(0))) {
			continue
		}
		h.arr0, h.len0, h.lenf, h.n = sl, LenOf(sl), LenOf(sl), LenOf(sl)
		h.less = lf
		// elements given to the constructor
		given := false
		for i, p := range Body(fn).Params {
			if _, ok := p.Type().Underlying().(*types.Slice); ok && BaseOf(Params(fn)[i]) == BaseOf(sl) && x.Facts.Proves(EqInt(LenOf(Params(fn)[i]), LenOf(sl))) {
				given = true
			}
		}
		c.Ob(given, "elements-kept", name, x.Pos, "the new heap does not hold exactly the elements given")
		evs := x.Ev.List()
		from := -1
		for i, e := range evs {
			if s := h.slice(e.Mem, x.Facts); s == sl {
				from = i
				break
			}
		}
		why := "the array is never set up"
		if from >= 0 {
			for _, k := range h.arities(nil, nil) {
				h.k = k
				h.memo, h.memoErr = map[string][]halt{}, map[string]string{}
				alts, w := h.run(&halt{st: hs{lo: h.n}, f: x.Facts, head: evs[from].Mem}, evs[from:], x.State.Mem)
				for _, a := range alts {
					if w == "" && (a.st.kind != hOK || !a.f.Proves(Le(a.st.lo, Int(0)))) && !a.f.Infeasible() && !a.f.Proves(Le(h.n, Int(1))) {
						w = "the heap is left " + a.st.String()
					}
				}
				why = w
				if w == "" {
					break
				}
			}
		}
		c.Ob(why == "", "order-restored", name, x.Pos, "the heap built is not ordered: %s", why)
	}
	c.Need("paths of "+name, n, 1)
}

// unwrapFn strips conversions between function types.
func unwrapFn(t *T) *T {
	for (t.Op == "conv" || t.Op == "iface" || t.Op == "convert") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}
