package eng

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// enterLoop analyses a loop from one entry state and returns the states leaving it.
func (in *Interp) enterLoop(st *State, from, to *ssa.BasicBlock, nl *natLoop, stop func(*State, *ssa.BasicBlock) bool) ([]*State, []*Exit) {
	f := st.top()
	fn := f.Fn
	initV := in.phiVals(st, from, to)
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	st.Clock++
	entryClock := st.Clock
	tag := fmt.Sprintf("L%d@%s#%d", to.Index, fn.Name(), st.Clock)
	iota := mk("iota", tag, types.Typ[types.Int], st.Iotas...)
	iota.Seq = st.Clock
	depth := len(st.Frames)
	pos := loopPos(to)

	type closed struct{ step *T }
	phiClosed := map[ssa.Value]*T{} // step of the value (ints)
	lenStep := map[ssa.Value]*T{}   // step of len(phi)
	phiSince := map[ssa.Value]int{} // pointers to objects of the loop only: a time before which they did not exist
	locClosed := map[string]*T{}
	type loc struct {
		addr *T
		typ  types.Type
	}
	intLocs := map[string]loc{}
	sliceLocs := map[string]loc{} // cells that hold a slice the body appends to
	sliceStep := map[string]*T{}
	havocs := map[string]Pattern{}
	var cands []*T // candidate invariants over the head state
	candDead := map[*T]bool{}
	var comprs map[string]*Mem
	straight := false // entered once only

	build := func() (*State, *LoopRec) {
		g := st.fork()
		rec := &LoopRec{Fn: fn, Header: to, Pos: pos, Entry: st.fork(), Iota: iota, Phis: phis, Init: initV, Cur: map[ssa.Value]*T{}, Tag: tag, Depth: depth}
		g.Iotas = append(g.Iotas, iota)
		g.Facts = g.Facts.With(Ge0(iota))
		if straight {
			g.Facts = g.Facts.With(EqInt(iota, Int(0)))
		}
		// phis
		for _, p := range phis {
			iv := initV[p]
			switch {
			case straight:
				rec.Cur[p] = iv
			case phiClosed[p] != nil:
				rec.Cur[p] = Add(iv, Mul(phiClosed[p], iota))
			default:
				name := fmt.Sprintf("%s.%s", phiName(p), tag)
				if n := phiSince[p]; n > 0 {
					name += fmt.Sprintf("!%d", n)
				}
				t := mk("phi", name, p.Type(), st.Iotas...)
				t.Seq = entryClock
				rec.Cur[p] = t
				if ls := lenStep[p]; ls != nil {
					ln := Add(lenLike(iv), Mul(ls, iota))
					if isStr(p.Type()) {
						g.Facts = g.Facts.With(EqInt(LenOf(t), ln))
					} else {
						b := mk("phibase", t.Aux+sinceMark(BaseOf(iv), entryClock), p.Type(), st.Iotas...)
						b.Seq = entryClock
						cp := mk("cap", "", types.Typ[types.Int], t)
						rec.Cur[p] = SliceT(b, Int(0), ln, cp, p.Type())
						g.Facts = g.Facts.With(Ge0(Sub(cp, ln)))
					}
				}
			}
		}
		for k, v := range rec.Cur {
			g.top().Env[k] = v
		}
		for _, k := range SortedKeys(havocs) {
			p := havocs[k]
			rec.Havocs = append(rec.Havocs, p)
			if s := locClosed[k]; s != nil {
				l := intLocs[k]
				if rs := in.Load(st.fork(), l.addr, l.typ); len(rs) == 1 {
					g.Store(l.addr, Add(rs[0].val, Mul(s, iota)), l.typ)
					continue
				}
			}
			if ls := sliceStep[k]; ls != nil && !straight {
				l := sliceLocs[k]
				if rs := in.Load(st.fork(), l.addr, l.typ); len(rs) == 1 {
					iv := rs[0].val
					ln := Add(LenOf(iv), Mul(ls, iota))
					b := mk("phibase", tag+":"+k+sinceMark(BaseOf(iv), entryClock), l.typ, st.Iotas...)
					b.Seq = entryClock
					cp := mk("cap", "", types.Typ[types.Int], b)
					cp.Seq = entryClock
					g.Store(l.addr, SliceT(b, Int(0), ln, cp, l.typ), l.typ)
					g.Facts = g.Facts.With(Ge0(Sub(cp, ln)))
					if c := comprs["cell:"+k]; c != nil {
						cc := *c
						cc.Addr = b
						cc.Lo = LenOf(iv)
						cc.N = Mul(ls, iota)
						cc.Clock = g.Clock
						g.Mem = g.Mem.push(&cc)
						if !IsConst(LenOf(iv), 0) {
							g.Mem = g.Mem.push(&Mem{Kind: MCopy, Addr: b, Lo: Int(0), N: LenOf(iv), SrcBase: BaseOf(iv), SrcLo: OffOf(iv), Src: st.Mem, Clock: g.Clock})
						}
					}
					continue
				}
			}
			if c := comprs["mem:"+k]; c != nil && p.Kind == "family" {
				p.Val = c.Val
			} else if c != nil {
				cc := *c
				cc.Clock = g.Clock
				cc.Tag = tag
				g.Mem = g.Mem.push(&cc)
				continue
			}
			g.Havoc(p, tag)
			if l, ok := intLocs[k]; ok && IsUnsigned(l.typ) {
				if rs := in.Load(g.fork(), l.addr, l.typ); len(rs) == 1 {
					g.Facts = g.Facts.With(Ge0(rs[0].val))
				}
			}
		}
		for _, p := range phis { // the slices grown by the loop hold what the loop appended
			ls, iv := lenStep[p], initV[p]
			c := comprs[p.Name()]
			if straight || ls == nil || c == nil || rec.Cur[p].Op != "slice" {
				continue
			}
			b := BaseOf(rec.Cur[p])
			cc := *c
			cc.Addr = b
			cc.Lo = lenLike(iv)
			cc.N = Mul(ls, iota)
			cc.Clock = g.Clock
			g.Mem = g.Mem.push(&cc)
			// the initial prefix
			g.Mem = g.Mem.push(&Mem{Kind: MCopy, Addr: b, Lo: Int(0), N: lenLike(iv), SrcBase: BaseOf(iv), SrcLo: OffOf(iv), Src: st.Mem, Clock: g.Clock})
		}
		if !straight {
			for _, k := range sortedKeys(comprs) { // arrays made and filled by one iteration each
				if c := comprs[k]; c.It != nil {
					cc := *c
					cc.Clock = g.Clock
					g.Mem = g.Mem.push(&cc)
				}
			}
		}
		for _, c := range cands {
			if !candDead[c] {
				g.Facts = g.Facts.With(c)
			}
		}
		if g.Clock < entryClock+100 {
			g.Clock = entryClock + 100 // the names of objects made in the body do not depend on the trial
		}
		g.Loops = append(g.Loops, rec)
		in.event(g, &Event{Kind: "loop", Loop: rec, Pos: pos})
		g.top().Prev = from
		g.top().Block = to
		g.top().Idx = len(phis)
		rec.Head = g.fork()
		return g, rec
	}
	var exits []*Exit
	var rec *LoopRec
	run := func() bool {
		var g *State
		g, rec = build()
		if g.Facts.Infeasible() {
			exits = nil
			return true
		}
		nest := len(in.Loops)
		r := rec
		var ok bool
		exits, ok = in.explore([]*State{g}, func(s *State, b *ssa.BasicBlock) bool {
			if len(s.Frames) != depth || s.top().Fn != fn {
				return false
			}
			if b == to && nl.body[s.top().Block] {
				r.Back = append(r.Back, s)
				return true
			}
			if !nl.body[b] {
				s.top().Prev = b // remember the target
				r.Exits = append(r.Exits, s)
				return true
			}
			return false
		})
		_ = nest
		return ok
	}
	nextPhi := func(s *State, p *ssa.Phi) *T {
		b := s.top().Block
		return in.phiVals(s, b, to)[p]
	}
	mark := len(in.Loops)
	obMark := len(in.obs)
	trialOK := func() bool { in.Loops = in.Loops[:mark]; in.obs = in.obs[:obMark]; return run() }

	// 1. which locations does the body modify?
	stable := false
	for round := 0; round < 10; round++ {
		if !trialOK() {
			return nil, nil
		}
		changed := false
		for _, b := range rec.Back {
			for m := b.Mem; m != nil && m != rec.Head.Mem; m = m.Next {
				for _, p := range in.generalise(m, st, rec, entryClock) {
					k := p.key()
					if _, ok := havocs[k]; !ok {
						// subsumed by a wider pattern?
						if subsumed(havocs, p) {
							continue
						}
						havocs[k] = p
						changed = true
						if p.Kind == "exact" && m.Kind == MStore && isIntTerm(m.Val) {
							ty := m.Val.Typ
							if p.A.Typ != nil {
								if pt, ok := p.A.Typ.Underlying().(*types.Pointer); ok {
									ty = pt.Elem()
								}
							}
							if ty == nil {
								ty = types.Typ[types.Int]
							}
							intLocs[k] = loc{p.A, ty}
						}
						if p.Kind == "exact" && m.Kind == MStore && m.Val != nil && m.Val.Op == "slice" && p.A.Typ != nil {
							if pt, ok := p.A.Typ.Underlying().(*types.Pointer); ok {
								if _, ok := pt.Elem().Underlying().(*types.Slice); ok {
									sliceLocs[k] = loc{p.A, pt.Elem()}
								}
							}
						}
					}
				}
			}
		}
		if !changed {
			redo := false
			for _, p := range phis {
				if n := sincePhi(rec, p, initV[p], nextPhi, entryClock); n > 0 && phiSince[p] == 0 {
					phiSince[p] = n
					redo = true
				}
			}
			if redo { // writes through such a pointer reach objects of the loop only
				havocs, intLocs, sliceLocs = map[string]Pattern{}, map[string]loc{}, map[string]loc{}
				continue
			}
			stable = true
			break
		}
	}
	if !stable {
		in.fail("loop at %s: modified locations did not stabilise", in.pos(pos))
	}
	if len(rec.Back) > 0 {
		// 2. induction variables
		again := false
		for _, p := range phis {
			cur := rec.Cur[p]
			if IsIntType(p.Type()) {
				var step *T
				ok := true
				for _, b := range rec.Back {
					d := Sub(nextPhi(b, p), cur)
					if step == nil {
						step = d
					}
					if step != d || !in.invariant(d, rec, entryClock) {
						ok = false
						break
					}
				}
				if ok && step != nil {
					phiClosed[p] = step
					again = true
				}
			} else if _, isS := p.Type().Underlying().(*types.Slice); isS || isStr(p.Type()) {
				var step *T
				ok := true
				for _, b := range rec.Back {
					d := Sub(lenLike(nextPhi(b, p)), LenOf(cur))
					if step == nil {
						step = d
					}
					if step != d {
						ok = false
						break
					}
					if _, c := ConstOf(d); !c {
						ok = false
						break
					}
				}
				if ok && step != nil && !IsConst(step, 0) && (isStr(p.Type()) || growsByAppend(rec, p, nextPhi)) {
					if c, _ := ConstOf(step); c.Sign() > 0 {
						lenStep[p] = step
						again = true
					}
				}
			}
		}
		for k, l := range intLocs {
			var step *T
			ok := true
			h := in.Load(rec.Head.fork(), l.addr, l.typ)
			if len(h) != 1 {
				continue
			}
			for _, b := range rec.Back {
				n := in.Load(b.fork(), l.addr, l.typ)
				if len(n) != 1 {
					ok = false
					break
				}
				d := Sub(n[0].val, h[0].val)
				if step == nil {
					step = d
				}
				if step != d || !in.invariant(d, rec, entryClock) {
					ok = false
					break
				}
			}
			if ok && step != nil && havocs[k].Kind == "exact" {
				locClosed[k] = step
				again = true
			}
		}
		for k, l := range sliceLocs {
			h := in.Load(rec.Head.fork(), l.addr, l.typ)
			if len(h) != 1 || havocs[k].Kind != "exact" {
				continue
			}
			var step *T
			ok := true
			for _, b := range rec.Back {
				n := in.Load(b.fork(), l.addr, l.typ)
				if len(n) != 1 || n[0].val.Op != "slice" || n[0].val.Args[0].Op != "alloc" || n[0].val.Args[0].Seq < rec.Iota.Seq {
					ok = false
					break
				}
				d := Sub(LenOf(n[0].val), LenOf(h[0].val))
				if step == nil {
					step = d
				}
				if k, c := ConstOf(d); step != d || !c || k.Sign() <= 0 {
					ok = false
					break
				}
			}
			if ok && step != nil {
				sliceStep[k] = step
				again = true
			}
		}
		if again {
			if !trialOK() {
				return nil, nil
			}
		}
		// 3. candidate invariants for the rest, checked inductively
		intVals := func(rec *LoopRec, s *State, head bool) map[*T]*T {
			m := map[*T]*T{}
			for _, p := range phis {
				cur := rec.Cur[p]
				if cur.Op != "phi" {
					continue
				}
				if IsIntType(p.Type()) {
					m[cur] = nextPhi(s, p)
				} else {
					m[cur] = nextPhi(s, p)
				}
			}
			m[iota] = Add(iota, Int(1))
			for k, l := range intLocs {
				if locClosed[k] != nil {
					continue
				}
				h := in.Load(rec.Head.fork(), l.addr, l.typ)
				n := in.Load(s.fork(), l.addr, l.typ)
				if len(h) == 1 && len(n) == 1 && h[0].val.Op == "hv" {
					m[h[0].val] = n[0].val
				}
			}
			return m
		}
		initVals := func(rec *LoopRec) map[*T]*T {
			m := map[*T]*T{iota: Int(0)}
			for _, p := range phis {
				if cur := rec.Cur[p]; cur.Op == "phi" {
					m[cur] = initV[p]
				}
			}
			for k, l := range intLocs {
				if locClosed[k] != nil {
					continue
				}
				h := in.Load(rec.Head.fork(), l.addr, l.typ)
				n := in.Load(st.fork(), l.addr, l.typ)
				if len(h) == 1 && len(n) == 1 && h[0].val.Op == "hv" {
					m[h[0].val] = n[0].val
				}
			}
			return m
		}
		iv := initVals(rec)
		var vars []*T
		for v := range iv {
			if v != iota {
				vars = append(vars, v)
			}
		}
		sort.Slice(vars, func(i, j int) bool { return vars[i].ID < vars[j].ID })
		addC := func(c *T) {
			if c == True || c == False {
				return
			}
			for _, o := range cands {
				if o == c {
					return
				}
			}
			if rec.Head.Facts.has(c) {
				return
			}
			if len(cands) < 60 {
				cands = append(cands, c)
			}
		}
		// variables tied by one expression: left = 2*i+1 at every head
		for _, v := range vars {
			for _, w := range vars {
				if v == w || v.Typ == nil || w.Typ == nil || !IsIntType(v.Typ) || !IsIntType(w.Typ) {
					continue
				}
				tie := func(V, W *T) {
					if V == nil || W == nil || V == W || W.Op == "poly" || !Contains(V, func(x *T) bool { return x == W }) {
						return
					}
					e := Subst(V, map[*T]*T{W: w})
					if Contains(e, func(x *T) bool { return x == v || x == iota || x != w && isVar(x, vars) }) || !in.invariantBut(e, rec, entryClock, vars, nil) {
						return
					}
					if d, ok := ConstOf(Sub(Subst(e, map[*T]*T{w: iv[w]}), iv[v])); ok && d.Sign() == 0 {
						addC(EqInt(v, e))
					}
				}
				tie(iv[v], iv[w])
				for _, b := range rec.Back {
					nv := intVals(rec, b, false)
					tie(nv[v], nv[w])
				}
			}
		}
		for _, v := range vars {
			if v.Typ != nil && IsIntType(v.Typ) {
				addC(Ge0(Sub(v, iv[v])))
				addC(Ge0(Sub(iv[v], v)))
				addC(Ge0(v))
				addC(Ge0(Sub(v, iota)))
				addC(Ge0(Sub(iota, v)))
				addC(Ge0(Sub(Add(iv[v], iota), v)))
			} else if v.Typ != nil && isBool(v.Typ) {
				if iv[v] == True {
					addC(v)
				} else if iv[v] == False {
					addC(Not(v))
				}
			} else if v.Typ != nil {
				switch u := v.Typ.Underlying().(type) {
				case *types.Slice:
					_ = u
					addC(Ge0(Sub(LenOf(v), LenOf(iv[v]))))
					addC(Ge0(Sub(LenOf(iv[v]), LenOf(v))))
					addC(Ge0(Sub(Add(LenOf(iv[v]), iota), LenOf(v))))
				case *types.Pointer, *types.Interface:
					addC(Eq(v, Nil))
					addC(Not(Eq(v, Nil)))
					addC(Eq(v, iv[v]))
				}
			}
		}
		for i, v := range vars {
			for _, w := range vars[i+1:] {
				if v.Typ != nil && w.Typ != nil && IsIntType(v.Typ) && IsIntType(w.Typ) {
					d := Sub(Sub(v, w), Sub(iv[v], iv[w]))
					addC(Ge0(d))
					addC(Ge0(Neg(d)))
					addC(Ge0(Sub(v, w)))
					addC(Ge0(Sub(w, v)))
				}
			}
		}
		// positions that wrap around: v+1, or 0 when v+1 is s
		for _, b := range rec.Back {
			nv := intVals(rec, b, false)
			for _, v := range vars {
				if v.Typ == nil || !IsIntType(v.Typ) || nv[v] != Int(0) {
					continue
				}
				for n := b.Facts; n != nil && n != rec.Head.Facts; n = n.Next {
					if n.F.Op != "eq0" {
						continue
					}
					for _, e := range []*T{Sub(v, n.F.Args[0]), Add(v, n.F.Args[0])} {
						sz := Add(e, Int(1))
						if !in.invariantBut(sz, rec, entryClock, nil, nil) || in.mentionsAny(sz, vars, iota) {
							continue
						}
						x := iv[v]
						if y, m := remOf(x); m == sz {
							x = y
						}
						c := EqInt(v, Rem(Add(x, iota), sz))
						if !rec.Head.Facts.has(c) {
							addC(c)
						}
					}
				}
			}
		}
		// bounds from guards inside the body
		mention := func(t *T) bool {
			return Contains(t, func(x *T) bool {
				if x == iota {
					return true
				}
				for _, v := range vars {
					if x == v {
						return true
					}
				}
				return false
			})
		}
		for _, b := range rec.Back {
			nv := intVals(rec, b, false)
			for n := b.Facts; n != nil && n != rec.Head.Facts; n = n.Next {
				g := n.F
				if g.Op == "not" && g.Args[0].Op == "eq0" && mention(g) {
					// x != c with unit steps: both sides are candidates
					addC(Ge0(g.Args[0].Args[0]))
					addC(Ge0(Neg(g.Args[0].Args[0])))
					continue
				}
				if g.Op != "ge0" || !mention(g) || !in.invariantBut(g, rec, entryClock, vars, iota) {
					continue
				}
				d := Sub(Subst(g.Args[0], nv), g.Args[0])
				if c, ok := ConstOf(d); ok && c.Sign() < 0 {
					addC(Ge0(Sub(g.Args[0], d)))
				} else if ok {
					addC(g)
				} else {
					addC(g)
					addC(Ge0(Add(g.Args[0], Int(1))))
				}
			}
		}
		// a variable that takes a value bounded in the body is bounded likewise
		for _, b := range rec.Back {
			nv := intVals(rec, b, false)
			for _, v := range vars {
				w := nv[v]
				if w == nil || w == v || v.Typ == nil || !IsIntType(v.Typ) || !Contains(w, func(x *T) bool { return x == iota }) {
					continue
				}
				for n := b.Facts; n != nil && n != rec.Head.Facts; n = n.Next {
					if n.F.Op != "ge0" {
						continue
					}
					for _, c := range []*T{Add(n.F.Args[0], Sub(w, v)), Sub(n.F.Args[0], Sub(w, v))} {
						if !Contains(c, func(x *T) bool { return x == iota }) {
							addC(Ge0(c))
						}
					}
				}
			}
		}
		for _, c := range cands {
			if !st.Facts.Proves(Subst(c, iv)) {
				candDead[c] = true
			}
		}
		if len(cands) > 0 {
			for round := 0; round < 12; round++ {
				if !trialOK() {
					return nil, nil
				}
				killed := false
				for _, c := range cands {
					if candDead[c] {
						continue
					}
					for _, b := range rec.Back {
						if !b.Facts.Proves(Subst(c, intVals(rec, b, false))) {
							candDead[c] = true
							killed = true
							break
						}
					}
				}
				if !killed {
					break
				}
				if round == 11 {
					for _, c := range cands {
						candDead[c] = true
					}
					if !trialOK() {
						return nil, nil
					}
				}
			}
		}
		// 4. element-wise summaries
		cells := func() []grown {
			var out []grown
			for _, k := range SortedKeys(sliceStep) {
				l := sliceLocs[k]
				at := func(s *State) *T {
					if rs := in.Load(s.fork(), l.addr, l.typ); len(rs) == 1 {
						return rs[0].val
					}
					return nil
				}
				if cur := at(rec.Head); cur != nil {
					out = append(out, grown{"cell:" + k, sliceStep[k], cur, l.typ, at})
				}
			}
			return out
		}
		comprs = in.comprehend(st, rec, havocs, lenStep, cells(), nextPhi, entryClock)
		if len(comprs) > 0 {
			if !trialOK() {
				return nil, nil
			}
			// what is not yet overwritten is now known: values may have become functions of the index
			if c2 := in.comprehend(st, rec, havocs, lenStep, cells(), nextPhi, entryClock); betterCompr(comprs, c2) {
				comprs = c2
				if !trialOK() {
					return nil, nil
				}
			}
		}
	}
	if len(rec.Back) == 0 && (len(havocs) > 0 || len(phis) > 0) && !straight {
		// the body never returns to the head: nothing but the first entry reaches it
		straight = true
		havocs, comprs, cands = map[string]Pattern{}, nil, nil
		if !trialOK() {
			return nil, nil
		}
	}
	in.Loops = append(in.Loops, rec)
	// leave
	var out []*State
	late := entryClock + 100
	for _, b := range rec.Back {
		if b.Clock > late {
			late = b.Clock
		}
	}
	late = entryClock + (late-entryClock+99)/100*100
	for _, s := range rec.Exits {
		if s.Clock < late {
			s.Clock = late // what follows the loop is later than every iteration
		}
		tgt := s.top().Prev
		src := s.top().Block
		_ = src
		a, b := in.leaveTo(s, tgt, stop)
		out = append(out, a...)
		exits = append(exits, b...)
	}
	return out, exits
}

// leaveTo performs the jump out of a loop that the loop's own stop function intercepted.
func (in *Interp) leaveTo(s *State, tgt *ssa.BasicBlock, stop func(*State, *ssa.BasicBlock) bool) ([]*State, []*Exit) {
	return in.jump(s, tgt, stop)
}

func (in *Interp) pos(p interface{ IsValid() bool }) string { return fmt.Sprint(p) }

func loopPos(b *ssa.BasicBlock) (p tokenPos) {
	for _, x := range append([]*ssa.BasicBlock{b}, b.Succs...) {
		for _, i := range x.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func lenLike(t *T) *T { return LenOf(t) }

func growsByAppend(rec *LoopRec, p *ssa.Phi, next func(*State, *ssa.Phi) *T) bool {
	for _, b := range rec.Back {
		n := next(b, p)
		if n.Op != "slice" || n.Args[0].Op != "alloc" || n.Args[0].Seq < rec.Iota.Seq {
			return false
		}
	}
	return true
}

func sameCases(a, b *Mem) bool {
	if len(a.Cases) != len(b.Cases) {
		return false
	}
	for i := range a.Cases {
		x, y := a.Cases[i], b.Cases[i]
		if x.Val != y.Val || len(x.Facts) != len(y.Facts) {
			return false
		}
		for j := range x.Facts {
			if x.Facts[j] != y.Facts[j] {
				return false
			}
		}
	}
	return true
}

func sortedKeys(m map[string]*Mem) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// sinceMark renders the time before which the backing array of a slice grown by appending cannot have
// existed: the array is the initial one or one of those the appends of the loop allocate.
func sinceMark(init *T, clock int) string {
	if init.Op == "base" && init.Args[0] == Nil {
		return fmt.Sprintf("!%d", clock)
	}
	if s := bornAt(init); s > 0 {
		return fmt.Sprintf("!%d", s)
	}
	return ""
}

// sincePhi is a time before which no object existed that the variable points to, 0 if unknown: the variable
// starts out nil or with a new object, and every iteration leaves it alone or sets it to nil or a new object.
func sincePhi(rec *LoopRec, p *ssa.Phi, init *T, nextPhi func(*State, *ssa.Phi) *T, clock int) int {
	switch p.Type().Underlying().(type) {
	case *types.Pointer, *types.Map:
	default:
		return 0
	}
	cur := rec.Cur[p]
	if cur.Op != "phi" || len(rec.Back) == 0 {
		return 0
	}
	n := clock
	if init != Nil {
		if n = bornAt(init); n == 0 {
			return 0
		}
	}
	for _, b := range rec.Back {
		v := nextPhi(b, p)
		if v == Nil || v == cur {
			continue
		}
		k := bornAt(v)
		if k == 0 {
			return 0
		}
		if k < n {
			n = k
		}
	}
	return n
}

// bornAt is a time before which the backing array did not exist, 0 if unknown.
func bornAt(a *T) int {
	switch a.Op {
	case "alloc":
		return a.Seq
	case "phibase", "phi":
		if i := strings.LastIndexByte(a.Aux, '!'); i >= 0 {
			n := 0
			fmt.Sscan(a.Aux[i+1:], &n)
			return n
		}
	}
	return 0
}

// invariant reports that t does not depend on the loop.
func (in *Interp) invariant(t *T, rec *LoopRec, clock int) bool {
	return !Contains(t, func(x *T) bool {
		if x == rec.Iota {
			return true
		}
		return x.Seq >= clock && x.Seq != 0
	})
}

func (in *Interp) invariantBut(t *T, rec *LoopRec, clock int, vars []*T, iota *T) bool {
	return !Contains(t, func(x *T) bool {
		if x == iota {
			return false
		}
		for _, v := range vars {
			if x == v {
				return false
			}
		}
		return x.Seq >= clock && x.Seq != 0
	})
}

// generalise turns one write of the loop body into loop-invariant address patterns.
func (in *Interp) generalise(m *Mem, st *State, rec *LoopRec, clock int) []Pattern {
	switch m.Kind {
	case MStore:
		if r := allocRoot(m.Addr); r != nil && r.Seq >= clock {
			return in.family(m.Addr, r, rec) // object of this iteration
		}
		return []Pattern{in.genAddr(m.Addr, rec, clock)}
	case MHavoc:
		if m.Pat.A == nil || in.invariant(m.Pat.A, rec, clock) {
			return []Pattern{m.Pat}
		}
		if r := allocRoot(m.Pat.A); r != nil && r.Seq >= clock {
			return in.family(nil, r, rec)
		}
		switch m.Pat.Kind {
		case "exact":
			return []Pattern{in.genAddr(m.Pat.A, rec, clock)}
		case "elems":
			return []Pattern{{Kind: "allelems"}}
		case "cells", "freshcells":
			return []Pattern{{Kind: "allcells"}}
		}
		return []Pattern{{Kind: "allelems"}}
	case MCopy, MCompr:
		if r := allocRoot(m.Addr); r != nil && r.Seq >= clock {
			return in.family(nil, r, rec)
		}
		if m.Addr.Op == "phibase" && m.Addr.Seq >= clock {
			return nil
		}
		if in.invariant(m.Addr, rec, clock) {
			return []Pattern{{Kind: "elems", A: m.Addr}}
		}
		return []Pattern{{Kind: "allelems"}}
	}
	return nil
}

// family is the pattern of a write to an object that every iteration allocates anew.
func (in *Interp) family(addr, r *T, rec *LoopRec) []Pattern {
	for _, a := range r.Args {
		if a == rec.Iota {
			p := Pattern{Kind: "family", A: r, It: rec.Iota}
			if addr != nil {
				p.F = fieldPath(addr)
			}
			return []Pattern{p}
		}
	}
	return nil
}

func (in *Interp) genAddr(a *T, rec *LoopRec, clock int) Pattern {
	if in.invariant(a, rec, clock) {
		return Pattern{Kind: "exact", A: a}
	}
	switch a.Op {
	case "elem":
		if in.invariant(a.Args[0], rec, clock) {
			return Pattern{Kind: "elems", A: a.Args[0]}
		}
		return Pattern{Kind: "allelems"}
	case "cell", "has", "mlen":
		if in.invariant(a.Args[0], rec, clock) {
			p := Pattern{Kind: "cells", A: a.Args[0]}
			if a.Op != "mlen" {
				if k := a.Args[1]; k.Op == "rkey" && k.Args[0] == a.Args[0] && k.Args[len(k.Args)-1] == rec.Iota {
					p.F = "own|" + rec.Tag
				}
			}
			return p
		}
		if o := a.Args[0]; o.Op == "phi" && bornAt(o) > 0 {
			return Pattern{Kind: "freshcells", A: o}
		}
		return Pattern{Kind: "allcells"}
	case "field":
		if b := elemAncestor(a); b != nil && in.invariant(b.Args[0], rec, clock) {
			return Pattern{Kind: "elems", A: b.Args[0]}
		}
		return Pattern{Kind: "field", F: a.Aux}
	}
	return Pattern{Kind: "allelems"}
}

func subsumed(h map[string]Pattern, p Pattern) bool {
	for _, q := range h {
		switch q.Kind {
		case "allelems":
			if p.Kind == "elems" || p.Kind == "exact" && p.A.Op == "elem" {
				return true
			}
		case "elems":
			if p.Kind == "exact" && p.A.Op == "elem" && p.A.Args[0] == q.A {
				return true
			}
		case "cells":
			if q.F == "" && p.Kind == "exact" && (p.A.Op == "cell" || p.A.Op == "has" || p.A.Op == "mlen") && p.A.Args[0] == q.A {
				return true
			}
		case "allcells":
			if p.Kind == "cells" || p.Kind == "freshcells" || p.Kind == "exact" && (p.A.Op == "cell" || p.A.Op == "has" || p.A.Op == "mlen") {
				return true
			}
		case "field":
			if p.Kind == "exact" && p.A.Op == "field" && p.A.Aux == q.F {
				return true
			}
		}
	}
	return false
}

// atPath is the address a family pattern with a field path describes.
func atPath(p Pattern) *T {
	a := p.A
	if p.F == "." {
		return a
	}
	for _, f := range strings.Split(strings.TrimPrefix(p.F, "|"), "|") {
		a = mk("field", f, nil, a)
	}
	return a
}

// betterCompr: b keeps all of a and knows more.
func betterCompr(a, b map[string]*Mem) bool {
	more := len(b) > len(a)
	for k, x := range a {
		y := b[k]
		if y == nil {
			return false
		}
		fx := len(x.Cases) == 1 && x.Cases[0].Val == nil && x.Kind == MCompr
		fy := len(y.Cases) == 1 && y.Cases[0].Val == nil && y.Kind == MCompr
		if fy && !fx {
			return false
		}
		more = more || fx && !fy
	}
	return more
}

func (in *Interp) mentionsAny(t *T, vars []*T, iota *T) bool {
	return Contains(t, func(x *T) bool {
		for _, v := range vars {
			if x == v {
				return true
			}
		}
		return x == iota
	})
}

// wrapped is the remainder, of something with iota in it, that a fact says an index is.
func wrapped(f *FactNode, i, iota *T) *T {
	if x, _ := remOf(i); x != nil {
		return i
	}
	for n := f; n != nil; n = n.Next {
		if n.F.Op != "eq0" || !Contains(n.F, func(t *T) bool { return t == i }) {
			continue
		}
		for _, r := range []*T{Sub(i, n.F.Args[0]), Add(i, n.F.Args[0])} {
			if x, _ := remOf(r); x != nil && !Contains(r, func(t *T) bool { return t == i }) && Contains(x, func(t *T) bool { return t == iota }) {
				return r
			}
		}
	}
	return i
}

// unwrapped replaces the wrap-around positions in a value by the remainders facts say they are.
func (in *Interp) unwrapped(val *T, rec *LoopRec, f *FactNode) *T {
	for _, p := range rec.Phis {
		cur := rec.Cur[p]
		if cur == nil || !Contains(val, func(t *T) bool { return t == cur }) {
			continue
		}
		if r := wrapped(f, cur, rec.Iota); r != cur {
			val = Subst(val, map[*T]*T{cur: r})
		}
	}
	return val
}

// remOf recognises a remainder x mod s.
func remOf(t *T) (x, s *T) {
	Contains(t, func(q *T) bool {
		if x == nil && q.Op == "quo" && Rem(q.Args[0], q.Args[1]) == t {
			x, s = q.Args[0], q.Args[1]
		}
		return x != nil
	})
	return
}

// sliceElemOf: the element type of a slice's backing array, nil if not known.
func sliceElemOf(a *T) types.Type {
	if a.Op != "base" || a.Args[0].Typ == nil {
		return nil
	}
	if s, ok := a.Args[0].Typ.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// comprehend finds arrays filled once per iteration at consecutive positions.
// grown is a slice, in a variable or a cell, to which each iteration appends.
type grown struct {
	name      string
	step, cur *T
	typ       types.Type
	at        func(*State) *T
}

func (in *Interp) comprehend(st *State, rec *LoopRec, havocs map[string]Pattern, lenStep map[ssa.Value]*T, gs []grown, next func(*State, *ssa.Phi) *T, clock int) map[string]*Mem {
	out := map[string]*Mem{}
	pure := func(t *T) bool { // depends on the loop only through iota and per-iteration atoms indexed by it
		return !Contains(t, func(x *T) bool {
			if x == rec.Iota {
				return false
			}
			if x.Seq < clock || x.Seq == 0 {
				return false
			}
			// atoms created during the iteration carry iota
			for _, a := range x.Args {
				if a == rec.Iota || !(x.Op == "hv" && x.Aux == rec.Tag) && Contains(a, func(y *T) bool { return y == rec.Iota }) {
					return false
				}
			}
			return true
		})
	}
	newFacts := func(b *State) []*T {
		var fs []*T
		for n := b.Facts; n != nil && n != rec.Head.Facts; n = n.Next {
			if pure(n.F) {
				fs = append(fs, n.F)
			}
		}
		return fs
	}
	// (a) stores A[lo+iota] of existing arrays
	for k, p := range havocs {
		if p.Kind != "elems" {
			continue
		}
		var cases []ComprCase
		var lo, mod *T
		forget, desc := false, false
		var kept []*State
		ok := len(rec.Back) > 0
		for _, b := range rec.Back {
			var val *T
			n := 0
			for m := b.Mem; m != nil && m != rec.Head.Mem; m = m.Next {
				switch m.Kind {
				case MStore:
					if elemAncestor(m.Addr) != nil && elemAncestor(m.Addr).Args[0] == p.A {
						n++
						if m.Addr.Op != "elem" {
							ok = false
							break
						}
						if x, s := remOf(wrapped(b.Facts, m.Addr.Args[1], rec.Iota)); x != nil && Contains(x, func(t *T) bool { return t == rec.Iota }) {
							d := Sub(x, rec.Iota)
							if !in.invariant(d, rec, clock) || !in.invariant(s, rec, clock) || n > 1 || lo != nil && (lo != d || mod != s) ||
								!b.Facts.Proves(Lt(Int(0), s)) || !b.Facts.Proves(Ge0(d)) {
								ok = false
								break
							}
							lo, mod, val = d, s, m.Val
							break
						}
						if mod != nil {
							ok = false
							break
						}
						d := Sub(m.Addr.Args[1], rec.Iota)
						if u := Add(m.Addr.Args[1], rec.Iota); !in.invariant(d, rec, clock) && in.invariant(u, rec, clock) {
							d, desc = u, true
						}
						if !in.invariant(d, rec, clock) || lo != nil && lo != d {
							ok = false
						}
						lo = d
						val = m.Val
					}
				case MHavoc:
					if r, _ := in.matchPattern(mk("elem", "", nil, p.A, Int(0)), m.Pat, b.Facts); r != aNever {
						ok = false
					}
				default:
					if m.Addr == p.A {
						ok = false
					}
				}
			}
			if n == 0 && ok { // leaves its element as it was
				kept = append(kept, b)
				continue
			}
			if n > 1 || val == nil {
				ok = false
			}
			if !ok {
				break
			}
			if !pure(val) {
				val = in.unwrapped(val, rec, b.Facts)
			}
			if !pure(val) {
				forget = true
			}
			cases = append(cases, ComprCase{Facts: newFacts(b), Val: val})
		}
		if len(kept) > 0 {
			// every other iteration writes an element of its own only
			et := sliceElemOf(p.A)
			ok = ok && lo != nil && mod == nil && et != nil && rec.Entry != nil && !forget
			for _, b := range kept {
				if !ok {
					break
				}
				at := Add(lo, rec.Iota)
				if desc {
					at = Sub(lo, rec.Iota)
				}
				s := rec.Entry.fork()
				s.Facts = b.Facts
				val := in.LoadOne(s, mk("elem", "", et, p.A, at), et)
				if val == nil || !pure(val) {
					ok = false
					break
				}
				cases = append(cases, ComprCase{Facts: newFacts(b), Val: val})
			}
		}
		if forget { // written once per iteration, by a value that is not a function of the index
			cases = []ComprCase{{}}
		}
		if ok && lo != nil {
			out["mem:"+k] = &Mem{Kind: MCompr, Addr: p.A, Lo: lo, Desc: desc, Mod: mod, N: rec.Iota, Iota: rec.Iota, Cases: cases}
		}
	}
	// (a') fields of objects allocated once per iteration
	for k, p := range havocs {
		if p.Kind != "family" || p.F == "" {
			continue
		}
		var val *T
		ok := len(rec.Back) > 0
		for _, b := range rec.Back {
			var last *T
			for m := b.Mem; m != nil && m != rec.Head.Mem; m = m.Next {
				switch m.Kind {
				case MStore:
					if Root(m.Addr) == p.A && fieldPath(m.Addr) == p.F {
						if last == nil {
							last = m.Val
						}
					} else if r := Root(m.Addr); r.Op == "alloc" && r.Aux == p.A.Aux && r != p.A && (fieldPath(m.Addr) == "" || fieldPath(m.Addr) == p.F) {
						ok = false // an object of another iteration
					} else if r.Op != "alloc" && fieldPath(m.Addr) == p.F && in.sameObj(r, p.A, b.Facts) != aNever {
						ok = false
					}
				case MHavoc:
					if r, _ := in.matchPattern(atPath(p), m.Pat, b.Facts); r != aNever {
						ok = false
					}
				}
			}
			if last == nil || !pure(last) || val != nil && val != last {
				ok = false
			}
			val = last
			if !ok {
				break
			}
		}
		if ok && val != nil {
			out["mem:"+k] = &Mem{Kind: MHavoc, Val: val}
		}
	}
	// (a") arrays made and filled by one iteration
	if len(rec.Back) > 0 {
		count := map[*T]int{}
		first := map[*T]*Mem{}
		last := func(t *T) bool { // an object of this iteration
			return (t.Op == "phibase" || t.Op == "alloc") && t.Seq >= clock && len(t.Args) > 0 && t.Args[len(t.Args)-1] == rec.Iota
		}
		bad := map[*T]bool{}
		for _, b := range rec.Back {
			seen := map[*T]bool{}
			var newer []Pattern // havocs after the range was filled
			for m := b.Mem; m != nil && m != rec.Head.Mem; m = m.Next {
				switch m.Kind {
				case MCompr, MCopy:
					if !last(m.Addr) || m.It != nil {
						break
					}
					for _, p := range newer {
						if r, _ := in.matchPattern(mk("elem", "", nil, m.Addr, Int(0)), p, b.Facts); r != aNever {
							bad[m.Addr] = true
						}
					}
					if m.Kind == MCopy {
						bad[m.Addr] = bad[m.Addr] || !IsConst(m.N, 0)
						break
					}
					if f := first[m.Addr]; seen[m.Addr] || m.Mod != nil || f != nil && (f.Lo != m.Lo || f.N != m.N || f.Iota != m.Iota || len(rec.Back) > 1 && !sameCases(f, m)) {
						bad[m.Addr] = true
					}
					seen[m.Addr] = true
					first[m.Addr] = m
					count[m.Addr]++
				case MStore:
					if e := elemAncestor(m.Addr); e != nil && last(e.Args[0]) {
						bad[e.Args[0]] = true
					}
				case MHavoc:
					newer = append(newer, m.Pat)
				}
			}
		}
		for a, m := range first {
			ok := !bad[a] && count[a] == len(rec.Back) && pure(m.Lo) && pure(m.N)
			for _, cs := range m.Cases {
				ok = ok && (cs.Val == nil || pure(cs.Val))
				for _, f := range cs.Facts {
					ok = ok && pure(f)
				}
			}
			if ok {
				c := *m
				c.It, c.Next = rec.Iota, nil
				out["fam:"+a.String()] = &c
			}
		}
	}
	// (b) slices growing by one appended element
	for _, p := range rec.Phis {
		p := p
		if ls := lenStep[p]; ls != nil && !isStr(p.Type()) {
			gs = append(gs, grown{p.Name(), ls, rec.Cur[p], p.Type(), func(s *State) *T { return next(s, p) }})
		}
	}
	for _, p := range gs {
		if !IsConst(p.step, 1) {
			continue
		}
		cur := p.cur
		var cases []ComprCase
		ok := true
		for _, b := range rec.Back {
			n := p.at(b)
			if n == nil {
				ok = false
				break
			}
			s := b.fork()
			et := p.typ.Underlying().(*types.Slice).Elem()
			rs := in.Load(s, mk("elem", "", types.NewPointer(et), BaseOf(n), Add(OffOf(n), LenOf(cur))), et)
			if len(rs) != 1 || !pure(rs[0].val) {
				ok = false
				break
			}
			cases = append(cases, ComprCase{Facts: newFacts(b), Val: rs[0].val})
			// the elements appended before keep their values
			j := mk("iota", "any#earlier", types.Typ[types.Int])
			before := func(m *Mem, v *T) string {
				s := b.fork()
				s.Mem = m
				s.Facts = s.Facts.With(Ge0(j)).With(Lt(j, LenOf(cur)))
				r := ""
				for _, x := range in.Load(s, mk("elem", "", types.NewPointer(et), BaseOf(v), Add(OffOf(v), j)), et) {
					r += fmt.Sprintf("%p ", x.val)
				}
				return r
			}
			if before(rec.Head.Mem, cur) != before(b.Mem, n) {
				ok = false
				break
			}
		}
		if ok {
			out[p.name] = &Mem{Kind: MCompr, Iota: rec.Iota, Cases: cases}
		}
	}
	return out
}

var _ = big.NewInt

// BackVal is the value a header phi gets at a back edge.
func (in *Interp) BackVal(rec *LoopRec, b *State, p *ssa.Phi) *T {
	return in.phiVals(b, b.top().Block, rec.Header)[p]
}

// InEvent reports whether ins lies in the loop's body.
func (in *Interp) InLoop(rec *LoopRec, ins ssa.Instruction) bool {
	nl := in.loopsOf(rec.Fn)[rec.Header]
	return nl != nil && nl.body[ins.Block()]
}

// Partial reports that the path left the loop from inside an iteration by returning.
func (rec *LoopRec) Partial(x *Exit) bool {
	ended := true
	for _, e := range x.Ev.List() {
		if e.Kind == "loop" && e.Loop == rec {
			ended = false
		}
		if e.Kind == "loopend" && e.Loop == rec {
			ended = true
		}
	}
	return !ended
}

// BeforeHavoc lists what an element with a forgotten value can be: for a permuting library call,
// any element of the array before the call. ok is false when the havoc is not such a call.
func (in *Interp) BeforeHavoc(e *Event, hv *T) ([]*T, bool) {
	if !strings.HasPrefix(hv.Aux, "call:sort.") {
		for _, rec := range in.Loops {
			if rec.Tag != hv.Aux || len(hv.Args) == 0 || hv.Args[0].Op != "elem" {
				continue
			}
			base := hv.Args[0].Args[0]
			j := mk("fresh", "any", types.Typ[types.Uint])
			var out []*T
			for _, r := range in.loadFrom(rec.Entry.fork(), rec.Entry.Mem, mk("elem", "", hv.Args[0].Typ, base, j), hv.Typ) {
				out = append(out, r.val)
			}
			for _, b := range rec.Back {
				for m := b.Mem; m != nil && m != rec.Head.Mem; m = m.Next {
					if m.Kind == MStore && m.Addr.Op == "elem" && m.Addr.Args[0] == base {
						out = append(out, m.Val)
					} else if m.Kind != MStore {
						return nil, false
					}
				}
			}
			return out, len(out) > 0
		}
		return nil, false
	}
	for m := e.Mem; m != nil; m = m.Next {
		if m.Kind == MHavoc && m.Tag == hv.Aux {
			a := hv.Args[0]
			j := mk("fresh", "any", types.Typ[types.Uint])
			var et types.Type
			if hv.Typ != nil {
				et = hv.Typ
			}
			var out []*T
			for _, r := range in.loadFrom(&State{Mem: m.Next, Facts: e.Facts, Clock: 1 << 20}, m.Next, mk("elem", "", a.Typ, a.Args[0], j), et) {
				out = append(out, r.val)
			}
			return out, len(out) > 0
		}
	}
	return nil, false
}

func isVar(t *T, vars []*T) bool {
	for _, v := range vars {
		if v == t {
			return true
		}
	}
	return false
}
