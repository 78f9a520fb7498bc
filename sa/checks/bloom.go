package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C18", Title: "the Bloom filter never gives a false negative", Level: "other",
		Rule: "Every Add form sets, for every seed, the bit at word f(hash, seed), offset g(hash, seed) and changes nothing else; every Contains form answers false only on a path whose facts show the bit at exactly the same word and offset for some seed to be clear, answers true only after all seeds were looked at, and stores nothing; bytes and string forms hash the whole content by the same digest; Clear zeroes every word; nothing else writes the bits, the seeds or the bit count after construction; the constructor makes at least as many bits as the bit count says, so every word index is in range.",
		Run:  bloomFilter, Tech: "relational comparison of the abstract bit-position terms of all forms (path-partitioned abstract interpretation of Go SSA with loop summaries), effect analysis of stores",
		Note:   "Holds for every element and history: bits are only ever set between two Clears and both sides compute the same position.",
		Assume: []string{"a filter with seeds has a positive bit count", "hash/fnv digests are deterministic and Write never fails", "no concurrent use of one filter", "the filter's slices are not aliased by callers"}})
	register(&Check{ID: "C19", Title: "hash sums depend only on the hasher and the bytes", Level: "other",
		Rule: "On every path of every summing method on which no hasher write failed, the events on the underlying hasher are: a reset, then exactly one write of the whole argument (as bytes or as string), then the sum that is returned; no method changes the seed or replaces the hasher, the constructor seeds the hasher it installs, and the two forms write the same content.",
		Run:  hashSums, Tech: "typestate of the hasher protocol over path-partitioned abstract interpretation of Go SSA",
		Note:   "hash/maphash is trusted: after Reset, Sum64 depends on the seed and the bytes written; Write never returns an error.",
		Assume: []string{"hash/maphash contract", "no concurrent use of one hasher"}})
}

// contentOf: t is the whole of parameter p, as bytes or string.
func contentOf(t, p *T) bool {
	for {
		if t == p {
			return true
		}
		switch t.Op {
		case "bytes", "string", "str":
			t = t.Args[0]
			continue
		case "slice":
			b, off, ln := BaseOf(t), OffOf(t), LenOf(t)
			if IsConst(off, 0) && (ln == LenOf(p) || ln == Mk("len", "", types.Typ[types.Int], p)) && b == BaseOf(p) {
				return true
			}
			return false
		}
		return false
	}
}

// stringBytes: the text of p converted to bytes or back.
func isContent(f *FactNode, t, p *T) bool {
	if contentOf(t, p) {
		return true
	}
	if t.Op == "slice" && BaseOf(t) == BaseOf(p) && IsConst(OffOf(t), 0) {
		return f.Proves(EqInt(LenOf(t), LenOf(p)))
	}
	return false
}

// canon renders a term with commutative bit operations in a fixed order.
func canon(t *T) string {
	var args []string
	for _, a := range t.Args {
		args = append(args, canon(a))
	}
	if t.P != nil {
		return canonPoly(t)
	}
	switch t.Op {
	case "xor", "bor", "band", "and", "or":
		sort.Strings(args)
	}
	return t.Op + ":" + t.Aux + "(" + strings.Join(args, ",") + ")"
}

func canonPoly(t *T) string {
	var ms []string
	for _, m := range t.P.M {
		var as []string
		for _, a := range m.Vars {
			as = append(as, canon(a))
		}
		sort.Strings(as)
		ms = append(ms, m.C.String()+"*"+strings.Join(as, "*"))
	}
	sort.Strings(ms)
	return "poly{" + strings.Join(ms, "+") + "}"
}

// digests maps the sums taken on a path to canonical digest terms of the parameter p.
func digests(evs []*Event, p *T) map[*T]*T {
	out := map[*T]*T{}
	made := map[*T]string{}
	wrote := map[*T]int{}
	for _, e := range evs {
		if e.Kind != "call" || len(e.Args) == 0 && len(e.Res) == 0 {
			continue
		}
		if strings.HasPrefix(e.Name, "hash/") && strings.Contains(e.Name, ".New") && len(e.Res) == 1 {
			key := e.Name
			for _, a := range e.Args {
				key += "," + a.String()
			}
			made[e.Res[0]] = key
			continue
		}
		if strings.HasPrefix(e.Name, "hash/") && len(e.Res) == 1 && IsIntType(e.Res[0].Typ) {
			// a digest computed in one call: its name, its other arguments and the content
			key, contents := e.Name, 0
			for _, a := range e.Args {
				if isContent(e.Facts, a, p) {
					contents++
				} else {
					key += "," + a.String()
				}
			}
			key = strings.Replace(key, "maphash.String", "maphash.Bytes", 1)
			if contents == 1 {
				out[e.Res[0]] = Mk("digest", key, types.Typ[types.Uint64])
			}
			continue
		}
		if len(e.Args) == 0 || made[e.Args[0]] == "" {
			continue
		}
		o := e.Args[0]
		switch callMethod(e) {
		case "Write", "WriteString":
			if wrote[o] == 0 && len(e.Args) == 2 && isContent(e.Facts, e.Args[1], p) {
				wrote[o] = 1
			} else {
				wrote[o] = 99
			}
		case "Reset":
			wrote[o] = 0
		case "Sum64":
			if wrote[o] == 1 {
				out[e.Res[0]] = Mk("digest", made[o], types.Typ[types.Uint64])
			}
		case "Size", "BlockSize":
		default:
			wrote[o] = 99
		}
	}
	return out
}

type bloomForm struct {
	fn    *ssa.Function
	add   bool
	param string // hash or content
	pos   map[string]bool
}

func bloomFilter(c *Ctx) {
	dirs := []string{"common/filter"}
	var filters []*types.Named
	for _, n := range namedTypes(c.P, dirs...) {
		has := map[string]bool{}
		for _, m := range exportedMethods(c.P, n) {
			has[m.Name()] = true
		}
		if has["Add"] && has["Contains"] {
			filters = append(filters, n)
		}
	}
	c.Need("filter types", len(filters), 1)
	for _, n := range filters {
		c.bloomType(n)
	}
}

func (c *Ctx) bloomType(n *types.Named) {
	// constructor: enough words for the bit count; what the fields are
	var bits, seeds, cnt *leaf
	exact := true // every bit of the array has a number
	for _, ctor := range constructors(c.P, n) {
		ins, _ := instances(c, n, ctor, nil)
		c.Need("constructor paths of "+n.Obj().Name(), len(ins), 1)
		for _, in := range ins {
			bits, seeds, cnt = c.bloomRoles(n, in)
			if bits == nil {
				c.Fail("anchor", n.Obj().Name(), ctor.Pos(), "the bit array, the seeds and the bit count cannot be told apart")
				return
			}
			name := ShortName(ctor)
			sv := in.Vals[seeds.Key]
			c.Ob(sv != nil && in.Vals[bits.Key] != nil && hasAlloc(BaseOf(sv)) && hasAlloc(BaseOf(in.Vals[bits.Key])) && BaseOf(sv) != BaseOf(in.Vals[bits.Key]), "own-arrays", name, ctor.Pos(), "the bit array and the seeds are not two fresh arrays")
			b, k := in.Vals[bits.Key], in.Vals[cnt.Key]
			exact = exact && b != nil && k != nil && in.Exit.Facts.Proves(EqInt(k, Mul(Int(64), LenOf(b))))
			c.Ob(b != nil && k != nil && in.Exit.Facts.Proves(Le(k, Mul(Int(64), LenOf(b)))), "bits-cover-count", name, ctor.Pos(), "the bit array may be shorter than the bit count says (%v words, %v bits)", LenOf(b), k)
		}
	}
	if bits == nil {
		c.Fail("anchor", n.Obj().Name(), 0, "no constructor found")
		return
	}
	for _, f := range c.P.StoresTo(bits.Key) {
		exact = exact && !methodReach(c.P, n)[Body(f)]
	}
	for _, l := range []*leaf{seeds, cnt} {
		for _, f := range c.P.StoresTo(l.Key) {
			c.Ob(!methodReach(c.P, n)[Body(f)], "fixed-after-construction", ShortName(f)+" "+l.Name, f.Pos(), "%s is written after construction", l.Name)
		}
		c.Obl++
		c.Done++
	}
	posOf := map[string]map[string]string{} // kind -> position -> function
	forms := 0
	for _, fn := range exportedMethods(c.P, n) {
		name := ShortName(fn)
		in := NewInterp(c.P, nil)
		recv := Params(fn)[0]
		var bl, sl, cl *T
		for _, l := range leaves(recv, n) {
			switch l.Key {
			case bits.Key:
				bl = Mk("init", "", l.Typ, l.Addr)
			case seeds.Key:
				sl = Mk("init", "", l.Typ, l.Addr)
			case cnt.Key:
				cl = Mk("init", "", l.Typ, l.Addr)
			}
		}
		pre := []*T{Le(cl, Mul(Int(64), LenOf(bl))), Ge0(Sub(cl, Int(1))), Not(Eq(recv, Nil)), Not(Eq(bl, sl))}
		if exact {
			pre = append(pre, EqInt(cl, Mul(Int(64), LenOf(bl))))
		}
		exits := in.Run(fn, pre...)
		c.Complete(in, fn)
		c.Add("paths", len(exits))
		c.obligations(name, exits)
		switch {
		case strings.HasPrefix(fn.Name(), "Add"), strings.HasPrefix(fn.Name(), "Contains"):
			forms++
			add := strings.HasPrefix(fn.Name(), "Add")
			if !add {
				exits = splitBool(in, exits)
			}
			if len(Params(fn)) != 2 {
				c.Fail("anchor", name, fn.Pos(), "unexpected parameters")
				continue
			}
			b := &bloomPath{c: c, in: in, name: name, p: Params(fn)[1], bits: bl, seeds: sl, cnt: cl, recv: recv, pos: map[string]bool{}}
			for _, x := range exits {
				if x.Kind != "return" {
					continue
				}
				b.path(x, add)
			}
			kind := "content"
			if IsIntType(b.p.Typ) {
				kind = "hash"
			}
			if posOf[kind] == nil {
				posOf[kind] = map[string]string{}
			}
			for q := range b.pos {
				posOf[kind][q] = name
			}
			c.Ob(len(b.pos) > 0, "positions", name, fn.Pos(), "no bit position was found")
		case fn.Name() == "Clear":
			forms++
			c.bloomClear(in, name, exits, bl, recv)
		default:
			for _, e := range allEvents(exits) {
				if e.Kind == "store" && origin(e.Args[0]) == recv {
					c.Ob(false, "foreign-write", name, e.Pos, "%s is written", locClass(e.Args[0]))
				}
			}
		}
	}
	c.Need("add, contains and clear forms", forms, 7)
	for _, k := range SortedKeys(posOf) {
		ps := SortedKeys(posOf[k])
		var who []string
		for _, p := range ps {
			who = append(who, posOf[k][p])
		}
		c.Ob(len(ps) == 1, "same-position", "forms taking a "+k, 0, "adding and asking compute different bit positions (%s: %s)", strings.Join(who, ", "), strings.Join(ps, " vs "))
	}
}

// bloomRoles tells the fields apart: the bit count is the integer, the bits are the slice Clear
// writes (equivalently the one Add writes), the seeds the other.
func (c *Ctx) bloomRoles(n *types.Named, in *instance) (bits, seeds, cnt *leaf) {
	var slices []*leaf
	for i := range in.Leaves {
		l := &in.Leaves[i]
		if _, ok := l.Typ.Underlying().(*types.Slice); ok {
			slices = append(slices, l)
		} else if IsIntType(l.Typ) && cnt == nil {
			cnt = l
		}
	}
	for _, fn := range exportedMethods(c.P, n) {
		if fn.Name() != "Add" {
			continue
		}
		ip := NewInterp(c.P, nil)
		recv := Params(fn)[0]
		ls := leaves(recv, n)
		for _, e := range allEvents(ip.Run(fn)) {
			if e.Kind == "store" && e.Args[0].Op == "elem" {
				for i, l := range ls {
					if HasTerm(e.Args[0].Args[0], l.Addr) {
						for _, s := range slices {
							if s.Key == ls[i].Key {
								bits = s
							}
						}
					}
				}
			}
		}
	}
	for _, s := range slices {
		if s != bits && seeds == nil {
			seeds = s
		}
	}
	if bits == nil || seeds == nil || cnt == nil {
		return nil, nil, nil
	}
	return
}

type bloomPath struct {
	c                *Ctx
	in               *Interp
	name             string
	p, recv          *T
	bits, seeds, cnt *T
	pos              map[string]bool
}

// canonical rewrites a term of this path so that it can be compared with other forms.
func (b *bloomPath) canonical(t *T, iota *T, evs []*Event) string {
	m := map[*T]*T{iota: Mk("sym", "seed", types.Typ[types.Int]), b.recv: Mk("sym", "filter", b.recv.Typ)}
	for k, v := range digests(evs, b.p) {
		m[k] = v
	}
	if IsIntType(b.p.Typ) {
		m[b.p] = Mk("sym", "hash", b.p.Typ)
	}
	// a loop over the content gives the same value for the same content if it reads nothing else
	visit(evs, func(e *Event, _ *State) {
		if e.Kind == "loop" && e.Loop != nil && e.Loop.Header != nil && pureDigest(e.Loop.Header.Parent()) {
			for v, p := range e.Loop.Cur {
				m[p] = Mk("sym", fmt.Sprintf("%s of %s", v.Name(), ShortName(e.Loop.Header.Parent())), p.Typ)
			}
		}
	})
	delete(m, nil)
	m[iota] = Mk("sym", "seed", types.Typ[types.Int])
	r := Subst(t, m)
	b.c.Ob(!Contains(r, func(x *T) bool {
		return x.Op == "res" || x.Op == "hv" && x.Typ != nil && IsIntType(x.Typ) && len(x.Args) == 0
	}), "digest-of-content", b.name, token.NoPos, "the bit position depends on more than the element: %v", r)
	return canon(r)
}

func (b *bloomPath) path(x *Exit, add bool) {
	c := b.c
	evs := x.Ev.List()
	// the loop over the seeds
	var rec *LoopRec
	visit(evs, func(e *Event, back *State) {
		if e.Kind == "loop" && back == nil {
			for _, s := range append(append([]*State{}, e.Loop.Back...), e.Loop.Exits...) {
				for _, l := range backEvents(e.Loop, s) {
					if l.Kind == "load" && len(l.Args) > 0 && l.Args[0].Op == "elem" && l.Args[0].Args[0] == BaseOf(b.seeds) {
						rec = e.Loop
					}
				}
			}
		}
	})
	if rec == nil {
		// no seeds: nothing to set
		c.Ob(x.Facts.Proves(EqInt(LenOf(b.seeds), Int(0))), "every-seed", b.name, x.Pos, "a path does not go through the seeds")
		return
	}
	idx := b.seedIndex(rec)
	if idx == nil {
		c.Fail("every-seed", b.name, x.Pos, "the loop does not read one seed per iteration")
		return
	}
	full := x.Facts.Proves(Ge0(Sub(rec.Iota, LenOf(b.seeds))))
	starts := rec.Head != nil && Subst(idx, map[*T]*T{rec.Iota: Int(0)}) == Int(0)
	onto := idx == rec.Iota && starts
	if Add(idx, rec.Iota) == Sub(LenOf(b.seeds), Int(1)) { // downwards
		onto = true
	}
	c.Ob(onto, "every-seed", b.name, x.Pos, "iteration i does not use seed i")
	// stores outside the bits
	visit(evs, func(e *Event, back *State) {
		if e.Kind == "store" && origin(e.Args[0]) == b.recv || e.Kind == "copy" || e.Name == "clear" {
			isBit := e.Kind == "store" && e.Args[0].Op == "elem" && e.Args[0].Args[0] == BaseOf(b.bits)
			c.Ob(add && isBit, "foreign-write", b.name, e.Pos, "%s is written", locClass(e.Args[0]))
			if add && isBit {
				old := b.in.LoadAt(e, e.Args[0], types.Typ[types.Uint64])
				c.Ob(e.Val != nil && e.Val.Op == "bor" && (e.Val.Args[0] == old || e.Val.Args[1] == old), "only-sets", b.name, e.Pos, "a word of the bit array is replaced by %v, which is not the old word with bits added", e.Val)
			}
		}
	})
	if add {
		c.Ob(full, "every-seed", b.name, x.Pos, "a path leaves before the last seed")
		for _, s := range rec.Back {
			c.Ob(b.setAfter(rec, s, idx, evs), "sets-bit", b.name, rec.Pos, "an iteration ends without the bit of its seed being set")
		}
		return
	}
	ans := x.Res[0]
	if ans == True {
		ok := full
		for _, s := range rec.Back {
			ok = ok && b.tested(s.Facts, rec.Iota, idx, evs, true)
		}
		c.Ob(ok, "true-when-all-set", b.name, x.Pos, "true is answered before every seed's bit was seen to be set")
	} else {
		in := !full && x.Facts.Proves(Lt(idx, LenOf(b.seeds)))
		c.Ob(in && b.tested(x.Facts, rec.Iota, idx, evs, false), "false-when-clear", b.name, x.Pos, "false is answered although no bit of this element is known to be clear")
	}
}

// seedIndex is the index of the seed read in an iteration.
func (b *bloomPath) seedIndex(rec *LoopRec) *T {
	var idx *T
	for _, s := range append(append([]*State{}, rec.Back...), rec.Exits...) {
		for _, l := range backEvents(rec, s) {
			if l.Kind == "load" && len(l.Args) > 0 && l.Args[0].Op == "elem" && l.Args[0].Args[0] == BaseOf(b.seeds) {
				i := Sub(l.Args[0].Args[1], OffOf(b.seeds))
				if idx != nil && idx != i {
					return nil
				}
				idx = i
			}
		}
	}
	return idx
}

// bitOf decomposes a single-bit mask.
func bitOf(m *T) *T {
	m = unconv(m)
	if m.Op == "shl" && IsConst(unconv(m.Args[0]), 1) {
		return unconv(m.Args[1])
	}
	return nil
}

func (b *bloomPath) record(word, off, idx, iota *T, evs []*Event) {
	// position as the pair (word index, offset)
	w := Sub(word.Args[1], OffOf(b.bits))
	b.pos[b.canonical(w, iota, evs)+" / "+b.canonical(off, iota, evs)] = true
}

func (b *bloomPath) isWord(t *T) *T {
	// the value of a word of the bits: init/hv/... of elem(base(bits), i)
	for _, a := range t.Args {
		if a.Op == "elem" && a.Args[0] == BaseOf(b.bits) {
			return a
		}
	}
	return nil
}

// setAfter: at the end of an iteration the bit of its seed is set.
func (b *bloomPath) setAfter(rec *LoopRec, s *State, idx *T, evs []*Event) bool {
	ok := false
	for _, e := range backEvents(rec, s) {
		if e.Kind == "store" && e.Args[0].Op == "elem" && e.Args[0].Args[0] == BaseOf(b.bits) && e.Val.Op == "bor" {
			for _, m := range e.Val.Args {
				if off := bitOf(m); off != nil && b.usesSeed(off, idx) {
					b.record(e.Args[0], off, idx, rec.Iota, evs)
					ok = true
				}
			}
		}
	}
	return ok || b.tested(s.Facts, rec.Iota, idx, evs, true)
}

func (b *bloomPath) usesSeed(t, idx *T) bool {
	return Contains(t, func(x *T) bool {
		return x.Op == "elem" && x.Args[0] == BaseOf(b.seeds) && Sub(x.Args[1], OffOf(b.seeds)) == idx
	})
}

// tested: the facts show the bit of seed idx to be set (or clear).
func (b *bloomPath) tested(f *FactNode, iota, idx *T, evs []*Event, set bool) bool {
	found := false
	seen := map[*T]bool{}
	for _, t := range f.List() {
		Contains(t, func(x *T) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			if x.Op == "shr" {
				// (word >> offset) & 1
				if addr, off := b.isWord(x.Args[0]), unconv(x.Args[1]); addr != nil && b.usesSeed(off, idx) {
					r := Rem(x, Int(2))
					isClear := f.Proves(EqInt(r, Int(0))) || f.Proves(Not(EqInt(r, Int(1))))
					isSet := f.Proves(EqInt(r, Int(1))) || f.Proves(Not(EqInt(r, Int(0))))
					if set && isSet || !set && isClear {
						found = true
						b.record(addr, off, idx, iota, evs)
					}
				}
				return false
			}
			if x.Op != "and" && x.Op != "band" {
				return false
			}
			for i := range x.Args {
				w, m := x.Args[i], x.Args[1-i]
				addr := b.isWord(w)
				off := bitOf(m)
				isSet, isClear := false, false
				if addr != nil && off != nil {
					isClear = f.Proves(EqInt(x, Int(0))) || f.Proves(Not(EqInt(x, m)))
					isSet = f.Proves(EqInt(x, m)) || f.Proves(Not(EqInt(x, Int(0))))
				} else if w.Op == "shr" && IsConst(m, 1) && b.isWord(w.Args[0]) != nil {
					addr, off = b.isWord(w.Args[0]), unconv(w.Args[1])
					isClear = f.Proves(EqInt(x, Int(0))) || f.Proves(Not(EqInt(x, Int(1))))
					isSet = f.Proves(EqInt(x, Int(1))) || f.Proves(Not(EqInt(x, Int(0))))
				} else {
					continue
				}
				if b.usesSeed(off, idx) && (set && isSet || !set && isClear) {
					found = true
					b.record(addr, off, idx, iota, evs)
				}
			}
			return false
		})
	}
	return found
}

func (c *Ctx) bloomClear(in *Interp, name string, exits []*Exit, bits, recv *T) {
	for _, e := range allEvents(exits) {
		if (e.Kind == "store" || e.Kind == "copy") && origin(e.Args[0]) == recv && !HasTerm(e.Args[0], bits.Args[0]) {
			c.Ob(false, "foreign-write", name, e.Pos, "Clear writes %s", locClass(e.Args[0]))
		}
	}
	for _, x := range exits {
		if x.Kind != "return" {
			continue
		}
		any := Mk("iota", "any#word", types.Typ[types.Int])
		s := x.State
		// the current bits field, any word of it
		ba := bits.Args[0]
		cur := in.LoadOne(s, ba, bits.Typ)
		if cur == nil {
			c.Fail("clears-all", name, x.Pos, "the bit array is not known after Clear")
			continue
		}
		st := s.Fork()
		st.Facts = st.Facts.With(Ge0(any)).With(Lt(any, LenOf(cur)))
		v := in.LoadOne(st, Mk("elem", "", types.Typ[types.Uint64], BaseOf(cur), Add(OffOf(cur), any)), types.Typ[types.Uint64])
		c.Ob(v != nil && (IsConst(v, 0) || x.Facts.Proves(EqInt(v, Int(0)))), "clears-all", name, x.Pos, "a word of the bit array may keep its value after Clear (%v)", v)
		c.Ob(x.Facts.Proves(EqInt(LenOf(cur), LenOf(bits))), "keeps-length", name, x.Pos, "Clear changes the length of the bit array")
	}
}

func hashSums(c *Ctx) {
	n := 0
	for _, t := range namedTypes(c.P, "common/hash") {
		ms := exportedMethods(c.P, t)
		sums := 0
		for _, fn := range ms {
			if !strings.HasPrefix(fn.Name(), "Sum64") {
				continue
			}
			sums++
			c.hashSum(t, fn)
		}
		if sums == 0 {
			continue
		}
		n += sums
		// the seed and the hasher are fixed at construction
		for fn := range methodReach(c.P, t) {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok {
						if sc := ci.Common().StaticCallee(); sc != nil && sc.Name() == "SetSeed" && !isLocalAlloc(ci.Common().Args) {
							c.Fail("seed-fixed", ShortName(fn), i.Pos(), "a method changes the hasher's seed")
						}
					}
				}
			}
		}
		for _, l := range leaves(Mk("param", "h", types.NewPointer(t)), t) {
			if !isPtr(l.Typ) {
				continue // a hasher held by value is changed by its own methods
			}
			for _, f := range c.P.StoresTo(l.Key) {
				c.Ob(!methodReach(c.P, t)[Body(f)], "hasher-fixed", ShortName(f)+" "+l.Name, f.Pos(), "%s is replaced after construction", l.Name)
			}
		}
		c.Need("constructors of "+t.Obj().Name(), len(constructors(c.P, t)), 1)
		for _, ctor := range constructors(c.P, t) {
			ins, _ := instances(c, t, ctor, nil)
			for _, in := range ins {
				for _, l := range in.Leaves {
					if !strings.Contains(types.TypeString(l.Typ, nil), "maphash.Hash") {
						continue
					}
					v := in.Vals[l.Key]
					if isPtr(l.Typ) {
						c.Ob(v != nil && v.Op == "alloc" || v != nil && in.Exit.Facts.Proves(Not(Eq(v, Nil))), "hasher-installed", ShortName(ctor), ctor.Pos(), "the hasher is not installed")
						c.Ob(v != nil && v.Op != "global" && origin(v).Op != "global", "hasher-owned", ShortName(ctor), ctor.Pos(), "the hasher is shared between instances")
					}
				}
			}
		}
	}
	c.Need("summing methods", n, 2)
}

func (c *Ctx) hashSum(t *types.Named, fn *ssa.Function) {
	name := ShortName(fn)
	in := NewInterp(c.P, nil)
	exits := in.Run(fn)
	c.Complete(in, fn)
	ps := Params(fn)
	if len(ps) != 2 {
		c.Fail("anchor", name, fn.Pos(), "unexpected parameters")
		return
	}
	p := ps[1]
	good := 0
	for _, x := range exits {
		var obj *T
		state := "dirty"
		var sum *T
		failed := false
		note, summed := "", "never summed"
		loops, own := false, false
		seeds := map[*T]bool{}
		for _, e := range x.Ev.List() {
			if e.Kind == "loop" {
				if o := c.bytewise(in, e.Loop, x, p); o != nil && state == "clean" && (obj == nil || obj == o) {
					obj, state = o, "written"
				} else {
					loops = true
				}
			}
			if e.Kind != "call" || !strings.HasPrefix(e.Name, "(*hash/maphash.Hash).") {
				if e.Kind == "call" && strings.HasPrefix(e.Name, "hash/maphash.") && (callMethod(e) == "Bytes" || callMethod(e) == "String") && len(e.Args) == 2 {
					// one-shot form with the hasher's own seed
					if e.Args[0].Op == "res" && isContent(e.Facts, e.Args[1], p) {
						sum, summed = e.Res[0], "summed"
					}
				}
				continue
			}
			m := callMethod(e)
			if m == "Seed" {
				if origin(e.Args[0]) == ps[0] && len(e.Res) == 1 {
					seeds[e.Res[0]] = true
				}
				continue
			}
			if m == "SetSeed" && e.Args[0].Op == "alloc" && seeds[e.Args[1]] && (obj == nil || obj == e.Args[0]) {
				obj, state, own = e.Args[0], "clean", true // a hasher of the call with the receiver's seed
				continue
			}
			if obj == nil {
				obj = e.Args[0]
			} else if obj != e.Args[0] {
				note = "two different hashers are used"
			}
			switch m {
			case "Reset":
				state = "clean"
			case "Write", "WriteString", "WriteByte":
				for _, r := range e.Res {
					if isErrType(r.Typ) && x.Facts.Proves(Not(Eq(r, Nil))) {
						failed = true // maphash writes never fail
					}
				}
				if m != "WriteByte" && state == "clean" && isContent(e.Facts, e.Args[1], p) {
					state = "written"
				} else if state == "clean" {
					state = "other content"
				} else {
					state = state + ", then written"
				}
			case "Sum64":
				sum = e.Res[0]
				if state == "clean" && x.Facts.Proves(EqInt(LenOf(p), Int(0))) {
					state = "written"
				}
				summed = state
				if state == "written" {
					summed = "summed"
				}
			default:
				state = "unknown call " + m
			}
		}
		if failed {
			continue
		}
		good++
		c.Add("paths", 1)
		c.Ob(x.Kind == "return" && note == "" && !loops, "one-hasher", name, x.Pos, "a path panics, loops or mixes hashers %s", note)
		c.Ob(summed == "summed" && len(x.Res) == 1 && x.Res[0] == sum, "reset-write-sum", name, x.Pos, "the result is not the sum of exactly the argument after a reset (hasher state: %s)", summed)
		if obj != nil {
			c.Ob(own || origin(obj) == ps[0] || obj.Op == "global", "own-hasher", name, x.Pos, "the hasher used is not the receiver's")
		}
	}
	c.Ob(good > 0, "reset-write-sum", name, fn.Pos(), "no successful path")
}

// isLocalAlloc: the receiver is a variable of the call.
func isLocalAlloc(args []ssa.Value) bool {
	if len(args) == 0 {
		return false
	}
	_, ok := args[0].(*ssa.Alloc)
	return ok
}

// pureDigest: a function whose loops see nothing but its arguments and constants.
func pureDigest(fn *ssa.Function) bool {
	for _, b := range Body(fn).Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return false
			case ssa.CallInstruction:
				sc := x.Common().StaticCallee()
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "ssa:wrapnilchk") {
					continue
				}
				if sc == nil || sc.Pkg == nil || sc.Pkg.Pkg.Path() != "math/bits" {
					return false
				}
			}
			for _, op := range i.Operands(nil) {
				if _, ok := (*op).(*ssa.Global); ok {
					return false
				}
			}
		}
	}
	return true
}

// bytewise: a loop that writes every byte of p to one hasher, in order, and does nothing else to it.
func (c *Ctx) bytewise(in *Interp, rec *LoopRec, x *Exit, p *T) *T {
	var obj *T
	if rec == nil || rec.Iota == nil || len(rec.Back) == 0 || !x.Facts.Proves(EqInt(rec.Iota, LenOf(p))) {
		return nil
	}
	for _, b := range rec.Back {
		wrote := 0
		for _, e := range backEvents(rec, b) {
			switch {
			case e.Kind == "loop":
				return nil
			case e.Kind != "call" || !strings.HasPrefix(e.Name, "(*hash/maphash.Hash)."):
			case callMethod(e) == "WriteByte" && (obj == nil || obj == e.Args[0]):
				obj = e.Args[0]
				q := p
				if v := unconv(e.Args[1]); v.Op == "init" && v.Args[0].Op == "elem" && v.Args[0].Args[0].Op == "base" && contentOf(v.Args[0].Args[0].Args[0], p) {
					q = v.Args[0].Args[0].Args[0]
				}
				v := in.LoadAt(e, Mk("elem", "", types.NewPointer(types.Typ[types.Uint8]), BaseOf(q), Add(OffOf(q), rec.Iota)), types.Typ[types.Uint8])
				if v == nil || v != unconv(e.Args[1]) {
					return nil
				}
				wrote++
			default:
				return nil
			}
		}
		if wrote != 1 {
			return nil
		}
	}
	return obj
}
