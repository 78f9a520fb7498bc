package eng

import (
	"go/types"
	"strings"
)

// MemKind distinguishes memory log entries.
type MemKind int

// Memory log entry kinds.
const (
	MStore MemKind = iota
	MHavoc
	MCopy
	MCompr
	MTable // the bottom of the memory that holds the package-level tables
)

// Pattern is a set of addresses.
type Pattern struct {
	Kind string // "exact", "elems" (of a base), "field" (a field of any object), "cells" (of a map), "obj" (everything below an object), "allelems"
	A    *T
	F    string
	It   *T // family: the loop counter of the objects, one object per past iteration
	Val  *T // family: what the earlier iterations stored, as a function of It
}

func (p Pattern) key() string {
	if p.Kind == "family" {
		return "family|" + p.A.Aux + "|" + p.It.String() + "|" + p.F
	}
	if p.A != nil {
		return p.Kind + "|" + p.A.String() + "|" + p.F
	}
	return p.Kind + "|" + p.F
}

// Mem is a persistent log of memory writes, newest first.
type Mem struct {
	Kind  MemKind
	Addr  *T
	Val   *T
	Pat   Pattern
	Tag   string
	Clock int
	// copy: elements [Lo,Lo+N) of Addr (a base) come from SrcBase at SrcLo in Src
	Lo, N, SrcBase, SrcLo *T
	Desc                  bool // element Lo-i instead of Lo+i
	Mod                   *T   // element (Lo+i) mod Mod instead of Lo+i
	Src                   *Mem
	// comprehension: elements Addr[Lo+k], 0<=k<N, are given by Cases with Iota:=k
	Iota  *T
	Cases []ComprCase
	It    *T // the range describes Addr for every value of It below the present one
	Next  *Mem
	Depth int
}

// ComprCase is one guarded element description of a comprehension.
type ComprCase struct {
	Facts []*T
	Val   *T
}

func (m *Mem) push(e *Mem) *Mem {
	e.Next = m
	if m != nil {
		e.Depth = m.Depth + 1
	}
	return e
}

// alias relation
const (
	aMay = iota
	aMust
	aNever
)

// Root is the object an address lies in.
func Root(a *T) *T {
	for {
		switch a.Op {
		case "field", "elem", "cell", "has", "mlen":
			a = a.Args[0]
		default:
			return a
		}
	}
}

// rooted in memory that is known to be freshly allocated here
func allocRoot(a *T) *T {
	r := Root(a)
	if r.Op == "alloc" {
		return r
	}
	return nil
}

func isAddrOp(op string) bool {
	switch op {
	case "field", "elem", "cell", "has", "mlen":
		return true
	}
	return false
}

// sameObj compares object identities (base pointers, slice bases, maps).
func (in *Interp) sameObj(a, b *T, f *FactNode) int {
	if a == b {
		return aMust
	}
	if a.Op == "nil" || b.Op == "nil" {
		return aNever
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		if a.Aux != b.Aux {
			return aNever
		}
		if len(a.Args) == len(b.Args) { // same site in different iterations
			for i := range a.Args {
				if f.Proves(Not(EqInt(a.Args[i], b.Args[i]))) {
					return aNever
				}
			}
			return aMay
		}
		return aNever
	}
	if a.Op == "phibase" || b.Op == "phibase" || a.Op == "phi" && bornAt(a) > 0 || b.Op == "phi" && bornAt(b) > 0 {
		x, y := a, b
		if bornAt(a) < bornAt(b) {
			x, y = b, a
		}
		if t := bornAt(x); t > 0 {
			switch y.Op {
			case "param", "init", "global", "closure", "func", "freevar":
				return aNever
			case "base":
				if y.Args[0].Op == "param" || y.Args[0].Op == "init" || y.Args[0].Seq > 0 && y.Args[0].Seq < t {
					return aNever
				}
			case "alloc", "phi", "hv", "phibase":
				if y.Seq < t {
					return aNever
				}
			}
		}
	}
	if a.Op == "alloc" || b.Op == "alloc" {
		x, y := a, b
		if b.Op == "alloc" {
			x, y = b, a
		}
		switch y.Op {
		case "param", "init", "global", "now", "closure", "func", "freevar":
			return aNever
		case "base":
			if y.Args[0].Op != "phi" && y.Args[0].Op != "hv" || y.Args[0].Seq < x.Seq {
				return aNever
			}
		case "res", "fresh", "call", "rkey", "rval":
			return aNever
		case "phi", "hv", "phibase":
			if y.Seq < madeAt(x) {
				return aNever
			}
		case "field", "elem":
			// interior pointer of something: whole alloc'd object cannot be the interior of another object
			return aNever
		}
	}
	if isAddrOp(a.Op) && isAddrOp(b.Op) {
		return in.alias(a, b, f)
	}
	if in.Cfg.AliasHook != nil {
		if r := in.Cfg.AliasHook(a, b); r != aMay {
			return r
		}
	}
	if a.Op == "base" && b.Op == "base" {
		// backing arrays of two different slice values; distinct unless the values are known equal
		if f.has(Eq(a.Args[0], b.Args[0])) {
			return aMust
		}
	}
	if a.Op == "global" && b.Op == "global" {
		return aNever
	}
	if ta, tb := objType(a), objType(b); ta != "" && tb != "" && ta != tb {
		return aNever
	}
	e := Eq(a, b)
	if e == True || f.has(e) {
		return aMust
	}
	if e == False || f.has(Not(e)) || f.Proves(Not(e)) {
		return aNever
	}
	if f.Proves(e) {
		return aMust
	}
	return aMay
}

// objType is a rendering of the type of the object a pointer points to, "" if unknown.
func objType(a *T) string {
	if a.Op == "base" || a.Op == "phibase" { // the backing array of a slice
		t := a.Typ
		if a.Op == "base" {
			t = a.Args[0].Typ
		}
		if t != nil {
			if s, ok := t.Underlying().(*types.Slice); ok {
				return "[]" + TypeKey(s.Elem())
			}
		}
		return ""
	}
	if a.Typ == nil {
		return ""
	}
	switch t := a.Typ.Underlying().(type) {
	case *types.Pointer:
		k := TypeKey(t.Elem())
		if strings.Contains(k, ".") && !strings.Contains(k, "[") {
			return k
		}
	}
	return ""
}

func (in *Interp) alias(a, b *T, f *FactNode) int {
	if a == b {
		return aMust
	}
	if a.Op != b.Op {
		if isAddrOp(a.Op) && isAddrOp(b.Op) {
			return aNever
		}
		if isAddrOp(a.Op) != isAddrOp(b.Op) {
			// a scalar pointer against a component: related only if the pointer is that address
			x := a
			if isAddrOp(a.Op) {
				x = b
			}
			switch x.Op {
			case "alloc", "global", "init", "param", "freevar", "res":
				return aNever
			}
			return aNever
		}
		return in.sameObj(a, b, f)
	}
	switch a.Op {
	case "field":
		if a.Aux != b.Aux {
			return aNever
		}
		return in.sameObj(a.Args[0], b.Args[0], f)
	case "elem":
		s := in.sameObj(a.Args[0], b.Args[0], f)
		if s == aNever {
			return aNever
		}
		e := EqInt(a.Args[1], b.Args[1])
		if e == False || f.Proves(Not(e)) {
			return aNever
		}
		if s == aMust && f.Proves(e) {
			return aMust
		}
		return aMay
	case "cell", "has":
		s := in.sameObj(a.Args[0], b.Args[0], f)
		if s == aNever {
			return aNever
		}
		e := in.eqTerm(a.Args[1], b.Args[1])
		if e == False || f.Proves(Not(e)) {
			return aNever
		}
		if s == aMust && f.Proves(e) {
			return aMust
		}
		return aMay
	case "mlen":
		return in.sameObj(a.Args[0], b.Args[0], f)
	}
	return in.sameObj(a, b, f)
}

// eqTerm is equality by the kind of term.
func (in *Interp) eqTerm(a, b *T) *T {
	if isIntTerm(a) || isIntTerm(b) {
		return EqInt(a, b)
	}
	return Eq(a, b)
}

func isIntTerm(t *T) bool {
	if t.Op == "poly" {
		return true
	}
	return t.Typ != nil && IsIntType(t.Typ)
}

// sameCond is the condition for two addresses to be equal.
func (in *Interp) sameCond(a, b *T) []*T {
	if a == b {
		return nil
	}
	if a.Op == b.Op {
		switch a.Op {
		case "field", "mlen":
			return in.sameCond(a.Args[0], b.Args[0])
		case "elem":
			return append(in.sameCond(a.Args[0], b.Args[0]), EqInt(a.Args[1], b.Args[1]))
		case "cell", "has":
			return append(in.sameCond(a.Args[0], b.Args[0]), in.eqTerm(a.Args[1], b.Args[1]))
		case "base":
			return []*T{Eq(a.Args[0], b.Args[0])}
		case "alloc":
			var out []*T
			for i := range a.Args {
				out = append(out, EqInt(a.Args[i], b.Args[i]))
			}
			return out
		}
	}
	return []*T{Eq(a, b)}
}

// madeAt is a time before which the object did not exist: that of the allocation for an object of the
// current iterations, that of the loop for one of an arbitrary iteration.
func madeAt(a *T) int {
	n := a.Seq
	for _, x := range a.Args {
		if x.Op == "iota" {
			continue
		}
		n = 0
		break
	}
	return n
}

// matchPattern compares an address with a havoc pattern.
func (in *Interp) matchPattern(a *T, p Pattern, f *FactNode) (int, []*T) {
	switch p.Kind {
	case "exact":
		r := in.alias(a, p.A, f)
		if r == aMay {
			return r, in.sameCond(a, p.A)
		}
		return r, nil
	case "elems":
		if a.Op != "elem" {
			if isAddrOp(a.Op) && Root(a) != a { // component of an element
				return in.matchPattern(a.Args[0], p, f)
			}
			return aNever, nil
		}
		r := in.sameObj(a.Args[0], p.A, f)
		if r == aMay {
			return r, in.sameCond(a.Args[0], p.A)
		}
		return r, nil
	case "cells":
		if a.Op != "cell" && a.Op != "has" && a.Op != "mlen" {
			return aNever, nil
		}
		if p.F != "" && a.Op != "mlen" && a.Args[1].Op == "rkey" {
			k := a.Args[1]
			if it := k.Args[len(k.Args)-1]; it.Op == "iota" && "own|"+it.Aux == p.F {
				return aNever, nil // only the keys of earlier iterations were written
			}
		}
		r := in.sameObj(a.Args[0], p.A, f)
		if r == aMay {
			return r, in.sameCond(a.Args[0], p.A)
		}
		return r, nil
	case "field":
		if a.Op == "field" && a.Aux == p.F {
			return aMust, nil
		}
		return aNever, nil
	case "allelems":
		if a.Op == "elem" {
			return aMust, nil
		}
		return aNever, nil
	case "freshcells": // the maps one variable pointed to at any time so far
		if a.Op != "cell" && a.Op != "has" && a.Op != "mlen" || in.sameObj(a.Args[0], p.A, f) == aNever {
			return aNever, nil
		}
		return aMust, nil
	case "allcells":
		if a.Op == "cell" || a.Op == "has" || a.Op == "mlen" {
			return aMust, nil
		}
		return aNever, nil
	case "family":
		r := Root(a)
		if r.Op != "alloc" {
			if in.sameObj(r, p.A, f) == aNever {
				return aNever, nil
			}
			if p.F != "" && fieldPath(a) != p.F {
				return aNever, nil
			}
			return aMust, nil
		}
		if r.Aux != p.A.Aux || len(r.Args) != len(p.A.Args) {
			return aNever, nil
		}
		if p.F != "" {
			if q := fieldPath(a); q != p.F {
				return aNever, nil
			}
		}
		for i, x := range p.A.Args {
			if x == p.It {
				c := Ge0(Sub(Sub(p.It, r.Args[i]), Int(1)))
				if c == True || f.Proves(c) {
					return aMust, nil
				}
				if c == False || f.Proves(Not(c)) {
					return aNever, nil
				}
				return aMay, []*T{c}
			}
		}
		return aMust, nil
	case "obj":
		for x := a; ; x = x.Args[0] {
			if x == p.A {
				return aMust, nil
			}
			if !isAddrOp(x.Op) {
				r := in.sameObj(x, p.A, f)
				if r == aMay {
					return r, in.sameCond(x, p.A)
				}
				return r, nil
			}
		}
	}
	return aNever, nil
}

// fieldPath renders an address made of field selections below an object, "" for others.
func fieldPath(a *T) string {
	s := ""
	for a.Op == "field" {
		s = "|" + a.Aux + s
		a = a.Args[0]
	}
	if isAddrOp(a.Op) {
		return ""
	}
	if s == "" {
		return "."
	}
	return s
}

type loadRes struct {
	st  *State
	val *T
}

// Load reads an address, possibly forking on aliasing.
func (in *Interp) Load(st *State, addr *T, typ types.Type) []loadRes {
	if s, ok := flatStruct(typ); ok && !externalStruct(typ) {
		acc := []loadRes{{st, nil}}
		parts := [][]*T{nil}
		for i := 0; i < s.NumFields(); i++ {
			fa := FieldAddr(addr, typ, i)
			var nacc []loadRes
			var nparts [][]*T
			for j, a := range acc {
				for _, r := range in.Load(a.st, fa, s.Field(i).Type()) {
					nacc = append(nacc, loadRes{r.st, nil})
					nparts = append(nparts, append(append([]*T{}, parts[j]...), r.val))
				}
			}
			acc, parts = nacc, nparts
		}
		for j := range acc {
			acc[j].val = Mk("struct", TypeKey(typ), typ, parts[j]...)
		}
		return acc
	}
	if a, ok := typ.Underlying().(*types.Array); ok && a.Len() <= 32 && elemsTouched(st.Mem, addr) {
		acc := []loadRes{{st, nil}}
		parts := [][]*T{nil}
		for i := int64(0); i < a.Len(); i++ {
			ea := mk("elem", "", types.NewPointer(a.Elem()), addr, Int(i))
			var nacc []loadRes
			var nparts [][]*T
			for j, x := range acc {
				for _, r := range in.Load(x.st, ea, a.Elem()) {
					nacc = append(nacc, loadRes{r.st, nil})
					nparts = append(nparts, append(append([]*T{}, parts[j]...), r.val))
				}
			}
			acc, parts = nacc, nparts
		}
		for j := range acc {
			acc[j].val = Mk("array", TypeKey(typ), typ, parts[j]...)
		}
		return acc
	}
	return in.loadFrom(st, st.Mem, addr, typ)
}

// elemsTouched: some element of the array at addr was written on its own.
func elemsTouched(m *Mem, addr *T) bool {
	for ; m != nil; m = m.Next {
		switch m.Kind {
		case MStore:
			if m.Addr == addr {
				return false
			}
			if a := elemAncestor(m.Addr); a != nil && a.Args[0] == addr {
				return true
			}
		case MHavoc:
			return true
		default:
			if m.Addr == addr {
				return true
			}
		}
	}
	return false
}

func (in *Interp) loadFrom(st *State, m *Mem, addr *T, typ types.Type) []loadRes {
	in.steps++
	for ; m != nil; m = m.Next {
		switch m.Kind {
		case MTable:
			return []loadRes{{st, in.initial(addr, typ)}}
		case MStore:
			switch in.alias(addr, m.Addr, st.Facts) {
			case aMust:
				return []loadRes{{st, m.Val}}
			case aMay:
				conds := in.sameCond(addr, m.Addr)
				var out []loadRes
				if y := st.fork().assumeAll(in, conds); y != nil {
					out = append(out, loadRes{y, m.Val})
				}
				if n := st.fork().assume(in, Not(conj(conds))); n != nil {
					out = append(out, in.loadFrom(n, m.Next, addr, typ)...)
				}
				return out
			}
			// an element of an array stored as a whole
			if addr.Op == "elem" && m.Val.Op != "struct" {
				if r := in.alias(addr.Args[0], m.Addr, st.Facts); r == aMust {
					if isArrayT(m.Val.Typ) {
						return []loadRes{{st, ArrayIndex(m.Val, addr.Args[1], typ)}}
					}
				}
			}
		case MHavoc:
			if r := allocRoot(addr); r != nil && r.Seq > m.Clock && m.Pat.Kind != "exact" && m.Pat.Kind != "family" {
				continue
			}
			r, conds := in.matchPattern(addr, m.Pat, st.Facts)
			switch r {
			case aMust:
				return []loadRes{{st, in.havocVal(m, addr, typ)}}
			case aMay:
				var out []loadRes
				if y := st.fork().assumeAll(in, conds); y != nil {
					out = append(out, loadRes{y, in.havocVal(m, addr, typ)})
				}
				if n := st.fork().assume(in, Not(conj(conds))); n != nil {
					out = append(out, in.loadFrom(n, m.Next, addr, typ)...)
				}
				return out
			}
		case MCopy, MCompr:
			if addr.Op != "elem" {
				// components of copied struct elements
				if e := elemAncestor(addr); e != nil {
					if rs, done := in.loadRange(st, m, e, addr, typ); done {
						return rs
					}
				}
				continue
			}
			if rs, done := in.loadRange(st, m, addr, addr, typ); done {
				return rs
			}
		}
	}
	if t := in.P.tableMem(addr); t != nil {
		return in.loadFrom(st, t, addr, typ)
	}
	return []loadRes{{st, in.initial(addr, typ)}}
}

func elemAncestor(a *T) *T {
	for isAddrOp(a.Op) {
		if a.Op == "elem" {
			return a
		}
		a = a.Args[0]
	}
	return nil
}

func (in *Interp) loadRange(st *State, m *Mem, el, addr *T, typ types.Type) ([]loadRes, bool) {
	if m.It != nil {
		return in.loadFamily(st, m, el, addr, typ)
	}
	if r := allocRoot(el.Args[0]); r != nil && r.Seq > m.Clock {
		return nil, false
	}
	b := in.sameObj(el.Args[0], m.Addr, st.Facts)
	if b == aNever {
		return nil, false
	}
	if m.Mod != nil {
		// the number i of the element's write is index-p or index-p+Mod, p being the slot of the first
		i, p := el.Args[1], Rem(m.Lo, m.Mod)
		slot := And(Ge0(i), Lt(i, m.Mod))
		out, taken := []loadRes(nil), false
		if o := st.fork().assume(in, Not(slot)); o != nil && !o.Facts.Infeasible() {
			out = append(out, in.loadFrom(o, m.Next, addr, typ)...)
		}
		for w, c := range []*T{Le(p, i), Lt(i, p)} {
			z := st.fork().assumeAll(in, []*T{Ge0(i), Lt(i, m.Mod), Ge0(p), Lt(p, m.Mod), c})
			if z == nil || z.Facts.Infeasible() {
				continue
			}
			k := Sub(i, p)
			if w == 1 {
				k = Add(k, m.Mod)
			}
			n := *m
			if !z.Facts.Proves(Le(m.N, m.Mod)) {
				n.Cases = []ComprCase{{}} // some slots may be written more than once
			}
			rs, done := in.loadWritten(z, &n, el, addr, typ, k, b)
			if !done {
				rs = in.loadFrom(z, m.Next, addr, typ)
			}
			out, taken = append(out, rs...), taken || done
		}
		return out, taken
	}
	k := Sub(el.Args[1], m.Lo)
	if m.Desc {
		k = Neg(k)
	}
	return in.loadWritten(st, m, el, addr, typ, k, b)
}

// loadFamily reads an element of one of the arrays that the iterations of a loop filled.
func (in *Interp) loadFamily(st *State, m *Mem, el, addr *T, typ types.Type) ([]loadRes, bool) {
	r := el.Args[0]
	if r.Op != m.Addr.Op || r.Aux != m.Addr.Aux || len(r.Args) != len(m.Addr.Args) {
		return nil, false
	}
	var t *T
	for i, x := range m.Addr.Args {
		if x == m.It {
			t = r.Args[i]
		} else if x != r.Args[i] {
			return nil, false
		}
	}
	done := Lt(t, m.It)
	if done == False || st.Facts.Proves(Not(done)) {
		return nil, false
	}
	sub := map[*T]*T{m.It: t}
	c := *m
	c.It = nil
	c.Addr, c.Lo, c.N, c.Iota = r, Subst(m.Lo, sub), Subst(m.N, sub), Subst(m.Iota, sub)
	c.Cases = nil
	for _, cs := range m.Cases {
		n := ComprCase{}
		for _, f := range cs.Facts {
			n.Facts = append(n.Facts, Subst(f, sub))
		}
		if cs.Val != nil {
			n.Val = Subst(cs.Val, sub)
		}
		c.Cases = append(c.Cases, n)
	}
	k := Sub(el.Args[1], c.Lo)
	if c.Desc {
		k = Neg(k)
	}
	if done == True || st.Facts.Proves(done) {
		return in.loadWritten(st, &c, el, addr, typ, k, aMust)
	}
	var out []loadRes
	if y := st.fork().assume(in, done); y != nil {
		rs, ok := in.loadWritten(y, &c, el, addr, typ, k, aMust)
		if !ok {
			rs = in.loadFrom(y, m.Next, addr, typ)
		}
		out = rs
	}
	if n := st.fork().assume(in, Not(done)); n != nil {
		out = append(out, in.loadFrom(n, m.Next, addr, typ)...)
	}
	return out, true
}

// loadWritten reads an element that is the k-th one written by a range.
func (in *Interp) loadWritten(st *State, m *Mem, el, addr *T, typ types.Type, k *T, b int) ([]loadRes, bool) {
	inside := []*T{Ge0(k), Lt(k, m.N)}
	var bc []*T
	if b == aMay {
		bc = in.sameCond(el.Args[0], m.Addr)
	}
	conds := append(append([]*T{}, bc...), inside...)
	c := conj(conds)
	if c == False || st.Facts.Proves(Not(c)) {
		return nil, false
	}
	var out []loadRes
	if y := st.fork().assumeAll(in, conds); y != nil {
		if m.Kind == MCopy {
			na := replaceAncestor(addr, el, Mk("elem", "", el.Typ, m.SrcBase, Add(m.SrcLo, k)))
			out = append(out, in.loadFrom(y, m.Src, na, typ)...)
		} else {
			sub := map[*T]*T{m.Iota: k}
			for _, cs := range m.Cases {
				z := y.fork()
				for _, f := range cs.Facts {
					if z == nil {
						break
					}
					z = z.assume(in, Subst(f, sub))
				}
				if z == nil {
					continue
				}
				if cs.Val == nil {
					out = append(out, loadRes{z, in.havocVal(m, addr, typ)})
					continue
				}
				v := Subst(cs.Val, sub)
				if addr != el {
					v = in.project(v, addr, el)
				}
				out = append(out, loadRes{z, v})
			}
		}
	}
	if n := st.fork().assume(in, Not(c)); n != nil {
		out = append(out, in.loadFrom(n, m.Next, addr, typ)...)
	}
	return out, true
}

func (in *Interp) project(v, addr, el *T) *T {
	if addr == el {
		return v
	}
	p := in.project(v, addr.Args[0], el)
	if addr.Op == "field" && p.Op == "struct" {
		name := addr.Aux[strings.LastIndex(addr.Aux, ".")+1:]
		if s, ok := flatStruct(p.Typ); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					return p.Args[i]
				}
			}
		}
	}
	return Mk("proj", addr.Aux, addr.Typ, p)
}

func replaceAncestor(a, old, nw *T) *T {
	if a == old {
		return nw
	}
	args := append([]*T{}, a.Args...)
	args[0] = replaceAncestor(a.Args[0], old, nw)
	return Mk(a.Op, a.Aux, a.Typ, args...)
}

// conj is a conjunction as one term.
func conj(cs []*T) *T {
	r := True
	for _, c := range cs {
		r = And(r, c)
	}
	return r
}

// And is conjunction.
func And(a, b *T) *T {
	switch {
	case a == True:
		return b
	case b == True:
		return a
	case a == False || b == False:
		return False
	case a == b:
		return a
	}
	return Mk("andb", "", nil, a, b)
}

// Or is disjunction.
func Or(a, b *T) *T {
	switch {
	case a == False:
		return b
	case b == False:
		return a
	case a == True || b == True:
		return True
	case a == b:
		return a
	}
	return Mk("orb", "", nil, a, b)
}

func (in *Interp) havocVal(m *Mem, addr *T, typ types.Type) *T {
	if m.Pat.Kind == "family" && m.Pat.Val != nil {
		if r := Root(addr); r.Op == "alloc" {
			for i, x := range m.Pat.A.Args {
				if x == m.Pat.It {
					return Subst(m.Pat.Val, map[*T]*T{x: r.Args[i]})
				}
			}
		}
	}
	v := mk("hv", m.Tag, typ, addr)
	if v.Seq == 0 {
		v.Seq = m.Clock
	}
	return v
}

// initial is the content of an address never written on this path.
func (in *Interp) initial(addr *T, typ types.Type) *T {
	if r := allocRoot(addr); r != nil {
		if addr.Op == "has" {
			return False
		}
		if addr.Op == "mlen" {
			return Int(0)
		}
		return Zero(typ)
	}
	if r := Root(addr); r.Op == "phibase" && bornAt(r) > 0 {
		return mk("hv", "unknown", typ, addr)
	}
	if in.Cfg.InitHook != nil {
		if v := in.Cfg.InitHook(addr, typ); v != nil {
			return v
		}
	}
	if addr.Op == "global" && in.P != nil {
		if v := in.P.globalValue(addr, typ); v != nil {
			return v
		}
	}
	return mk("init", "", typ, addr)
}

// Store writes a value (flattening structs).
func (st *State) Store(addr, val *T, typ types.Type) {
	if s, ok := flatStruct(typ); ok && !externalStruct(typ) {
		if val.Op == "struct" && len(val.Args) == s.NumFields() {
			for i := 0; i < s.NumFields(); i++ {
				st.Store(FieldAddr(addr, typ, i), val.Args[i], s.Field(i).Type())
			}
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			st.Store(FieldAddr(addr, typ, i), FieldVal(val, typ, i), s.Field(i).Type())
		}
		return
	}
	st.Clock++
	st.Mem = st.Mem.push(&Mem{Kind: MStore, Addr: addr, Val: val, Clock: st.Clock})
}

// Havoc forgets the addresses in a pattern.
func (st *State) Havoc(p Pattern, tag string) {
	st.Clock++
	st.Mem = st.Mem.push(&Mem{Kind: MHavoc, Pat: p, Tag: tag, Clock: st.Clock})
}

// FieldAddr is the address of field i of the struct at addr.
func FieldAddr(addr *T, structT types.Type, i int) *T {
	if pt, ok := structT.Underlying().(*types.Pointer); ok {
		structT = pt.Elem()
	}
	s := structT.Underlying().(*types.Struct)
	return mk("field", FieldKey(structT, i), types.NewPointer(s.Field(i).Type()), addr)
}

// FieldVal is field i of a struct value.
func FieldVal(v *T, structT types.Type, i int) *T {
	s := structT.Underlying().(*types.Struct)
	if v.Op == "struct" && i < len(v.Args) {
		return v.Args[i]
	}
	return mk("getf", FieldKey(structT, i), s.Field(i).Type(), v)
}

func flatStruct(t types.Type) (*types.Struct, bool) {
	if t == nil || IsTime(t) {
		return nil, false
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func externalStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	p := n.Obj().Pkg()
	return p != nil && p.Path() != Module && !strings.HasPrefix(p.Path(), Module+"/")
}

func isArrayT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// ArrayIndex is an element of an array value.
func ArrayIndex(v, i *T, typ types.Type) *T {
	if v.Op == "array" {
		if c, ok := ConstOf(i); ok && c.IsInt64() && c.Int64() >= 0 && int(c.Int64()) < len(v.Args) {
			return v.Args[c.Int64()]
		}
	}
	if v.Op == "zeroarr" {
		return Zero(typ)
	}
	return mk("index", "", typ, v, i)
}

// TimeZero is the zero time.Time in nanoseconds since 1970.
var TimeZero = Mul(Int(-62135596800), Int(1000000000))

// Zero is the zero value of a type.
func Zero(t types.Type) *T {
	if t == nil {
		return Nil
	}
	if IsTime(t) {
		return TimeZero
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		if IsIntType(t) {
			return Int(0)
		}
		return mk("zero", types.TypeString(t, nil), t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsFloat != 0:
			return mk("const", "f:0", t)
		}
		return Nil
	case *types.Struct:
		if externalStruct(t) {
			return mk("zero", types.TypeString(t, nil), t)
		}
		var as []*T
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, Zero(u.Field(i).Type()))
		}
		return mk("struct", TypeKey(t), t, as...)
	case *types.Array:
		return mk("zeroarr", types.TypeString(t, nil), t)
	}
	return Nil
}
