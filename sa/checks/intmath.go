package checks

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C20", Title: "integer helpers are exact for every input", Level: "other",
		Rule: "Case tables over all paths: Max/Min return one of their arguments and the path's comparison shows it is the larger/smaller; Abs negates exactly when the argument is negative; IsPowOf2 is n != 0 together with n & (n-1) = 0 (or an equivalent bit count); RoundUpPowOf2 is 1 << bitlen(n-1), RoundDownPowOf2 is 1 << (bitlen(n)-1), FindLastBitSet is bitlen(x) (bitlen over a type at least as wide as the argument's); Split's part size is n/m, plus one exactly when n%m is not zero, the last part is n modulo the part size or the part size itself when that is zero, no division by zero is possible for m > 0 and no intermediate sum can wrap around.",
		Run:  intHelpers, Tech: "path-case verification of value terms over a path-partitioned abstract interpretation of Go SSA (integer terms, Fourier-Motzkin entailment)",
		Note:   "Holds for every argument (type parameters are analysed symbolically). Trusts math/bits.",
		Assume: []string{"math/bits.Len contract", "part count m > 0"}})
}

func intHelpers(c *Ctx) {
	const pkg = "common/math"
	n := 0
	run := func(name string, f func(in *Interp, fn *ssa.Function, name string, ps []*T, xs []*Exit)) {
		fn := c.P.Func(pkg, name)
		if fn == nil {
			c.Fail("anchor", pkg+"."+name, 0, "the helper is gone")
			return
		}
		n++
		in := NewInterp(c.P, nil)
		xs := splitBool(in, in.Run(fn))
		c.Complete(in, fn)
		for _, x := range xs {
			c.Ob(x.Kind == "return", "no-panic", ShortName(fn), x.Pos, "a path ends in a panic")
		}
		c.Add("paths", len(xs))
		f(in, fn, ShortName(fn), Params(fn), xs)
	}
	// comparisons of generic values are opaque lt terms; of integers, polynomial facts
	less := func(f *FactNode, a, b *T) (lt, ge bool) {
		l := Mk("lt", "", types.Typ[types.Bool], a, b)
		g := Mk("le", "", types.Typ[types.Bool], b, a)
		return f.Proves(l) || f.Proves(Not(g)), f.Proves(Not(l)) || f.Proves(g)
	}
	extreme := func(max bool) func(in *Interp, fn *ssa.Function, name string, ps []*T, xs []*Exit) {
		return func(in *Interp, fn *ssa.Function, name string, ps []*T, xs []*Exit) {
			a, b := ps[0], ps[1]
			got := map[*T]bool{}
			for _, x := range xs {
				if len(x.Res) != 1 {
					continue
				}
				r := x.Res[0]
				got[r] = true
				other := a
				if r == a {
					other = b
				}
				lo, hi := other, r // for max: other <= r
				if !max {
					lo, hi = r, other
				}
				lt, _ := less(x.Facts, lo, hi)
				_, ge := less(x.Facts, hi, lo)
				eq := x.Facts.Proves(Eq(a, b))
				c.Ob((r == a || r == b) && (lt || ge || eq), "extreme", name, x.Pos, "%s is returned without being known to be the right one", r)
			}
			c.Ob(got[a] && got[b], "both-results", name, fn.Pos(), "one of the arguments is never returned")
		}
	}
	run("Max", extreme(true))
	run("Min", extreme(false))
	run("Abs", func(in *Interp, fn *ssa.Function, name string, ps []*T, xs []*Exit) {
		a := ps[0]
		zero := false
		for _, x := range xs {
			var neg, nonneg, pos, nonpos bool
			isZ := func(z *T) bool { return z != a && (z.String() == "n:0" || IsConst(z, 0)) }
			for _, t := range x.Facts.List() {
				p := t
				sign := true
				if p.Op == "not" {
					p, sign = p.Args[0], false
				}
				if p.Op != "lt" && p.Op != "le" || len(p.Args) != 2 {
					continue
				}
				switch {
				case p.Op == "le" && p.Args[0] == a && isZ(p.Args[1]):
					nonpos, pos = nonpos || sign, pos || !sign
				case p.Op == "le" && p.Args[1] == a && isZ(p.Args[0]):
					nonneg, neg = nonneg || sign, neg || !sign
				case p.Op == "le":
				case p.Args[0] == a && isZ(p.Args[1]):
					neg, nonneg = neg || sign, nonneg || !sign
				case p.Args[1] == a && isZ(p.Args[0]):
					pos, nonpos = pos || sign, nonpos || !sign
				}
			}
			if len(x.Res) != 1 {
				continue
			}
			zero = true
			r := x.Res[0]
			isNeg := r.Op == "neg" && r.Args[0] == a || r == Neg(a) || (r.Op == "sub" || r.Op == "f-") && len(r.Args) == 2 && isZ(r.Args[0]) && r.Args[1] == a
			c.Ob(r == a && (nonneg || pos) || isNeg && (neg || nonpos), "absolute", name, x.Pos, "%s is returned without the sign being known", r)
		}
		c.Ob(zero, "has-result", name, fn.Pos(), "no result")
	})
	bitLen := func(v *T, x *T) bool { return v != nil && v.Op == "bits.Len" && unconv(v.Args[0]) == x }
	run("FindLastBitSet", func(in *Interp, fn *ssa.Function, name string, ps []*T, xs []*Exit) {
		for _, x := range xs {
			f, r := x.Facts, x.Res[0]
			ok := bitLen(r, ps[0]) || f.Proves(EqInt(ps[0], Int(0))) && IsConst(r, 0) || isSubLeading(r, ps[0])
			c.Ob(ok, "last-bit", name, x.Pos, "%s is not the bit length of the argument", r)
		}
		c.wideEnough(fn)
	})
	run("IsPowOf2", func(in *Interp, fn *ssa.Function, name string, ps []*T, xs []*Exit) {
		p := ps[0]
		for _, x := range xs {
			f := x.Facts
			single, known := singleBit(f, p)
			nz, z := f.Proves(Not(EqInt(p, Int(0)))) || f.Proves(Le(Int(1), p)), f.Proves(EqInt(p, Int(0))) || f.Proves(Le(p, Int(0)))
			one, oneKnown := oneBit(f, p)
			switch {
			case oneKnown:
				c.Ob(one == (x.Res[0] == True), "power", name, x.Pos, "the answer does not follow from the bit count")
			case x.Res[0] == True:
				c.Ob(nz && known && single, "power", name, x.Pos, "answers true without knowing that exactly one bit is set")
			case x.Res[0] == False:
				c.Ob(z || known && !single, "power", name, x.Pos, "answers false without knowing that none or several bits are set")
			default:
				c.Fail("decided", name, x.Pos, "the answer is not decided")
			}
		}
	})
	isShl1 := func(v *T) *T {
		v = unconv(v)
		if v != nil && v.Op == "shl" && IsConst(v.Args[0], 1) && wideShift(v.Typ) {
			return v.Args[1]
		}
		return nil
	}
	round := func(up bool) func(in *Interp, fn *ssa.Function, name string, ps []*T, xs []*Exit) {
		return func(in *Interp, fn *ssa.Function, name string, ps []*T, xs []*Exit) {
			p := ps[0]
			for _, x := range xs {
				f, r := x.Facts, x.Res[0]
				if f.With(Le(Int(1), p)).Infeasible() {
					continue // the argument must be positive
				}
				ok := false
				single, known := singleBit(f, p)
				if one, k := oneBit(f, p); k {
					single, known = one, true
				}
				if r == p && known && single {
					ok = true
				}
				if s := isShl1(r); s != nil {
					q, add := splitOffset(s)
					switch {
					case up && add == 0 && q != nil && bitLen(q, Sub(p, Int(1))):
						ok = true
					case up && add == 0 && q != nil && bitLen(q, p) && known && !single:
						ok = true
					case !up && add == -1 && q != nil && bitLen(q, p):
						ok = true
					}
				}
				c.Ob(ok, "rounding", name, x.Pos, "%s is not the power of two required", r)
			}
		}
	}
	run("RoundUpPowOf2", round(true))
	run("RoundDownPowOf2", round(false))
	run("Split", func(in *Interp, fn *ssa.Function, name string, ps []*T, xs []*Exit) {
		nn, m := ps[0], ps[1]
		pos := Le(Int(1), m)
		obs := 0
		for _, e := range allEvents(xs) {
			if e.Kind == "ob" {
				obs++
				c.Ob(e.Facts.With(pos).Proves(e.Val), "no-division-by-zero", name+" "+e.Name, e.Pos, "%s is not guaranteed", e.Val)
			}
		}
		c.Need("divisions in Split", obs, 1)
		for _, x := range xs {
			f := x.Facts.With(pos)
			if f.Infeasible() {
				continue
			}
			per, last := x.Res[0], x.Res[1]
			if f.Proves(EqInt(nn, Int(0))) {
				c.Ob(eqI(f, per, Int(0)) && eqI(f, last, Int(0)), "part-size", name, x.Pos, "nothing is split into parts of size %s", per)
				continue
			}
			q, r := Quo(nn, m), Rem(nn, m)
			down := eqI(f, per, q) && f.Proves(EqInt(r, Int(0)))
			up := eqI(f, per, Add(q, Int(1))) && (f.Proves(Not(EqInt(r, Int(0)))) || f.Proves(Le(Int(1), r)))
			alt := eqI(f, per, Add(Quo(Sub(nn, Int(1)), m), Int(1))) && f.Proves(Le(Int(1), nn))
			c.Ob(down || up || alt, "part-size", name, x.Pos, "the part size %s is not the rounded up quotient (or a sum in it can wrap around)", per)
			rp := Rem(nn, per)
			full := eqI(f, last, per) && f.Proves(EqInt(rp, Int(0)))
			rest := eqI(f, last, rp) && (f.Proves(Not(EqInt(rp, Int(0)))) || f.Proves(Le(Int(1), rp)))
			sub := eqI(f, last, Add(Rem(Sub(nn, Int(1)), per), Int(1))) && f.Proves(Le(Int(1), nn))
			c.Ob(full || rest || sub, "last-size", name, x.Pos, "the last part's size %s is not n modulo the part size (or the part size)", last)
		}
	})
	c.Need("integer helpers", n, 8)
}

// unconv removes widening conversions.
func unconv(t *T) *T {
	for t != nil && t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

// splitOffset splits v into a term and a constant offset.
func splitOffset(v *T) (*T, int64) {
	for _, k := range []int64{0, -1, 1} {
		if b := Sub(v, Int(k)); b.P == nil || len(b.P.M) == 1 && len(b.P.M[0].Vars) == 1 {
			q := b
			if b.P != nil {
				if b.P.M[0].C.Int64() != 1 {
					continue
				}
				q = b.P.M[0].Vars[0]
			}
			return q, k
		}
	}
	return nil, 0
}

// singleBit: whether the facts decide p & (p-1) == 0.
func singleBit(f *FactNode, p *T) (single, known bool) {
	if low := lowBit(f, p); low != nil && f.Proves(Not(EqInt(p, Int(0)))) {
		if f.Proves(EqInt(low, p)) {
			return true, true
		}
		if f.Proves(Not(EqInt(low, p))) {
			return false, true
		}
	}
	for _, a := range []*T{bitAnd(f, p)} {
		if a == nil {
			continue
		}
		if f.Proves(EqInt(a, Int(0))) {
			return true, true
		}
		if f.Proves(Not(EqInt(a, Int(0)))) {
			return false, true
		}
	}
	return false, false
}

func bitAnd(f *FactNode, p *T) *T {
	return mentioned(f, func(t *T) bool {
		if t.Op != "and" || len(t.Args) != 2 {
			return false
		}
		m := Sub(p, Int(1))
		a, b := unconv(t.Args[0]), unconv(t.Args[1])
		return a == p && b == m || a == m && b == p
	})
}

// lowBit: p & -p.
func lowBit(f *FactNode, p *T) *T {
	return mentioned(f, func(t *T) bool {
		if t.Op != "and" || len(t.Args) != 2 {
			return false
		}
		m := Sub(Int(0), p)
		a, b := unconv(t.Args[0]), unconv(t.Args[1])
		return a == p && b == m || a == m && b == p
	})
}

// oneBit: whether the facts decide that exactly one bit is set (population count).
func oneBit(f *FactNode, p *T) (one, known bool) {
	t := mentioned(f, func(t *T) bool {
		return (t.Op == "call" && (t.Aux == "math/bits.OnesCount64" || t.Aux == "math/bits.OnesCount")) && unconv(t.Args[0]) == p
	})
	if t == nil {
		return false, false
	}
	if f.Proves(EqInt(t, Int(1))) {
		return true, true
	}
	return false, f.Proves(Not(EqInt(t, Int(1))))
}

// isSubLeading: 64 - leading zeros.
func isSubLeading(r, x *T) bool {
	z := Sub(Int(64), r)
	return z.Op == "call" && z.Aux == "math/bits.LeadingZeros64" && unconv(z.Args[0]) == x
}

// wideEnough: no conversion on the way to the bit length narrows the argument.
func (c *Ctx) wideEnough(fn *ssa.Function) {
	for g := range reach(fn) {
		if g.Pkg != nil && !isModulePkg(g) {
			continue
		}
		for _, b := range Body(g).Blocks {
			for _, ins := range b.Instrs {
				var from ssa.Value
				switch x := ins.(type) {
				case *ssa.Convert:
					from = x.X
				case *ssa.MultiConvert:
					from = x.X
				default:
					continue
				}
				to, ok := ins.(ssa.Value).Type().Underlying().(*types.Basic)
				if !ok || to.Info()&types.IsInteger == 0 || intBits(from.Type()) == 0 || !fromParam(from) {
					continue
				}
				c.Ob(intBits(to) >= intBits(from.Type()), "wide-enough", ShortName(fn), ins.Pos(), "the argument is narrowed to %s", to)
			}
		}
	}
	for g := range reach(fn) {
		for _, b := range Body(g).Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if sc := ci.Common().StaticCallee(); sc != nil && sc.Pkg != nil && sc.Pkg.Pkg.Path() == "math/bits" {
						n := sc.Name()
						c.Ob(n == "Len64" || n == "Len" || n == "LeadingZeros64" || n == "OnesCount64", "wide-enough", ShortName(fn)+" "+n, ci.Pos(), "bits.%s looks at fewer than 64 bits", n)
					}
				}
			}
		}
	}
}

func isModulePkg(f *ssa.Function) bool {
	return f.Pkg != nil && len(f.Pkg.Pkg.Path()) >= len(ModulePath) && f.Pkg.Pkg.Path()[:len(ModulePath)] == ModulePath
}

// wideShift: a power of two of the argument's type is not cut short by the type it is shifted in.
func wideShift(t types.Type) bool {
	if t == nil {
		return true
	}
	if _, ok := t.(*types.TypeParam); ok {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return true
	}
	switch b.Kind() {
	case types.Uint64, types.Uint, types.Uintptr, types.Int64, types.Int:
		return true
	}
	return false
}

// intBits: the width of an integer type (of the widest instance of a type parameter), 0 for other types.
func intBits(t types.Type) int {
	if _, ok := t.(*types.TypeParam); ok {
		return 64
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// fromParam: a value of the type parameter's type, possibly converted.
func fromParam(v ssa.Value) bool {
	for {
		if _, ok := v.Type().(*types.TypeParam); ok {
			return true
		}
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.MultiConvert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return false
		}
	}
}
