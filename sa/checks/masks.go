package checks

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C30", Title: "masking helpers hide what they promise for every script", Level: "other",
		Rule: "The result of every path of a masking helper is decomposed into segments counted in characters (rune slices, literals, repeats, rune arrays, per-character loops). Number masks: at every symbolic position the content is an asterisk inside [prefix, prefix+count) and the input's character at the same position outside, the length is the input's, and the input is returned unchanged only when it has at most prefix+count characters. Name masks and the star mask outside the mail branch: for a text of two or more characters the revealed characters number fewer than the text has. A byte slice of the text is accepted only when it is known to be ASCII. No runtime precondition may be open.",
		Run:  maskHelpers, Tech: "content segmentation over path-partitioned abstract interpretation of Go SSA (array content summaries of loops, Fourier-Motzkin entailment)",
		Note:   "Holds for every text and mask length. For the bank-card mask the count grows by the characters beyond 16, for the phone mask the prefix is 5 beyond 11 characters (the documented country-code case).",
		Assume: []string{"characters are Unicode code points"}})
}

// seg is a piece of a text, in characters.
type seg struct {
	kind string // rep (one character, Len times), runes (array content), in (the input itself), const, fold, unknown
	n    *T     // length in characters
	ch   rune
	text string
	base *T // runes: array and offset, readable in ev
	off  *T
	ev   *Event
	rec  *LoopRec
	fold []foldPiece
	src  *T
	why  string
}

type foldPiece struct {
	st *State
	sg seg
}

// segments decomposes a text; p is the input text.
func segments(in *Interp, x *Exit, evs []*Event, t, p *T) []seg {
	bad := func(why string) []seg { return []seg{{kind: "unknown", n: Int(0), why: why, src: t}} }
	if t == p || t.Op == "validutf8" && t.Args[0] == p {
		return []seg{{kind: "in", n: LenOf(RunesOf(p)), off: Int(0)}}
	}
	if s, ok := StrOf(t); ok {
		rs := []rune(s)
		var out []seg
		for i := 0; i < len(rs); {
			j := i
			for j < len(rs) && rs[j] == rs[i] {
				j++
			}
			out = append(out, seg{kind: "rep", n: Int(int64(j - i)), ch: rs[i]})
			i = j
		}
		return out
	}
	switch t.Op {
	case "concat":
		var out []seg
		for _, a := range t.Args {
			out = append(out, segments(in, x, evs, a, p)...)
		}
		return out
	case "call":
		if t.Aux == "strings.Repeat" {
			if s, ok := StrOf(t.Args[0]); ok && len([]rune(s)) == 1 {
				return []seg{{kind: "rep", n: t.Args[1], ch: []rune(s)[0]}}
			}
		}
	case "rune2str":
		v := unconv(t.Args[0])
		if c, ok := ConstOf(v); ok && c.IsInt64() && c.Int64() < 0x10ffff {
			return []seg{{kind: "rep", n: Int(1), ch: rune(c.Int64())}}
		}
		if i := runeIndex(v, p); i != nil {
			return []seg{{kind: "in", n: Int(1), off: i}}
		}
	case "sconv":
		v := t.Args[0]
		var ev *Event
		for _, e := range evs {
			if e.Kind == "tostring" && len(e.Res) == 1 && e.Res[0] == t {
				ev = e
			}
		}
		if ev == nil || len(ev.Name) < 5 || ev.Name[:5] != "runes" {
			return bad("bytes are turned into text")
		}
		return []seg{{kind: "runes", n: LenOf(v), base: BaseOf(v), off: OffOf(v), ev: ev}}
	case "substr":
		if t.Args[0] == p {
			if x.Facts.Proves(EqInt(LenOf(RunesOf(p)), LenOf(p))) {
				return []seg{{kind: "in", n: Sub(t.Args[2], t.Args[1]), off: t.Args[1]}}
			}
			return bad("the text is cut between bytes")
		}
	case "phi", "hv":
		return foldText(in, x, evs, t, p)
	}
	return bad("a piece of the result is not understood: " + t.String())
}

// runeIndex: v is the input's character at the returned position.
func runeIndex(v, p *T) *T {
	r := RunesOf(p)
	if v.Op == "init" && v.Args[0].Op == "elem" && v.Args[0].Args[0] == BaseOf(r) {
		return Sub(v.Args[0].Args[1], OffOf(r))
	}
	return nil
}

// foldText: a text accumulated one character per iteration of a loop.
func foldText(in *Interp, x *Exit, evs []*Event, t, p *T) []seg {
	bad := func(why string) []seg { return []seg{{kind: "unknown", n: Int(0), why: why, src: t}} }
	for _, e := range evs {
		if e.Kind != "loop" || e.Loop == nil || len(e.Loop.Back) == 0 {
			continue
		}
		rec := e.Loop
		var start *T
		var step func(b *State) *T
		if t.Op == "phi" {
			for _, ph := range rec.Phis {
				if rec.Cur[ph] == t {
					ph := ph
					start = rec.Init[ph]
					step = func(b *State) *T { return in.BackVal(rec, b, ph) }
				}
			}
		} else if len(t.Args) > 0 {
			a := t.Args[0]
			if rec.Head != nil && in.LoadOne(rec.Head, a, t.Typ) == t {
				start = in.LoadOne(rec.Entry, a, t.Typ)
				step = func(b *State) *T { return in.LoadOne(b, a, t.Typ) }
			}
		}
		if start == nil {
			continue
		}
		f := seg{kind: "fold", n: rec.Iota, rec: rec}
		for _, b := range rec.Back {
			v := step(b)
			if v == nil {
				return bad("an iteration's text is not known")
			}
			if v.Op != "concat" || v.Args[0] != t {
				return bad("an iteration does not append to the text")
			}
			var sg []seg
			for _, a := range v.Args[1:] {
				bx := &Exit{State: b}
				sg = append(sg, segments(in, bx, b.Ev.List(), a, p)...)
			}
			if len(sg) != 1 || !IsConst(sg[0].n, 1) {
				return bad("an iteration does not append one character")
			}
			f.fold = append(f.fold, foldPiece{b, sg[0]})
		}
		return append(segments(in, x, evs, start, p), f)
	}
	return bad("a loop's text is not understood")
}

// charAt describes what a segment holds at position k: rune, or the input's character at index.
func (s *seg) charAt(in *Interp, f *FactNode, k, p *T) (ch rune, idx *T, ok bool) {
	switch s.kind {
	case "rep":
		return s.ch, nil, true
	case "in":
		return 0, Add(s.off, k), true
	case "runes":
		e := *s.ev
		e.Facts = f
		v := in.LoadAt(&e, Mk("elem", "", types.Typ[types.Rune], s.base, Add(s.off, k)), types.Typ[types.Rune])
		if v == nil {
			return 0, nil, false
		}
		v = unconv(v)
		if c, isC := ConstOf(v); isC && c.IsInt64() {
			return rune(c.Int64()), nil, true
		}
		if i := runeIndex(v, p); i != nil {
			return 0, i, true
		}
	}
	return 0, nil, false
}

func total(ss []seg) *T {
	n := Int(0)
	for _, s := range ss {
		n = Add(n, s.n)
	}
	return n
}

// numberMask checks one exit: asterisks exactly in [lo, hi).
func (c *Ctx) numberMask(in *Interp, name string, x *Exit, p, lo, hi *T) {
	n := LenOf(RunesOf(p))
	r := x.Res[0]
	if r == p || r.Op == "validutf8" && r.Args[0] == p {
		// unchanged: too short, or nothing to mask
		c.Ob(x.Facts.Proves(Ge0(Sub(hi, n))) || x.Facts.Proves(Ge0(Sub(lo, hi))), "short-unchanged", name, x.Pos, "a text with more than %s characters is returned unmasked", hi)
		return
	}
	ss := segments(in, x, x.Ev.List(), r, p)
	for _, s := range ss {
		if s.kind == "unknown" {
			c.Fail("mask-content", name, x.Pos, "%s", s.why)
			return
		}
	}
	c.Ob(x.Facts.Proves(EqInt(total(ss), n)), "mask-length", name, x.Pos, "the result has %s characters instead of %s", total(ss), n)
	c.Ob(x.Facts.Proves(Ge0(Sub(n, hi))), "mask-fits", name, x.Pos, "the masked region may end beyond the text")
	k := Mk("iota", "any#char", types.Typ[types.Int])
	regions := []struct {
		what string
		mask bool
		cond []*T
	}{
		{"before the masked region", false, []*T{Ge0(k), Lt(k, lo), Lt(k, n)}},
		{"inside the masked region", true, []*T{Ge0(k), Ge0(Sub(k, lo)), Lt(k, hi), Lt(k, n)}},
		{"after the masked region", false, []*T{Ge0(k), Ge0(Sub(k, lo)), Ge0(Sub(k, hi)), Lt(k, n)}},
	}
	for _, reg := range regions {
		start := Int(0)
		for i := range ss {
			s := &ss[i]
			f := x.Facts
			for _, t := range reg.cond {
				f = f.With(t)
			}
			f = f.With(Ge0(Sub(k, start))).With(Lt(k, Add(start, s.n)))
			pos := Sub(k, start)
			start = Add(start, s.n)
			if f.Infeasible() {
				continue
			}
			test := func(sg *seg, f *FactNode, at, k *T) bool {
				ch, idx, ok := sg.charAt(in, f, at, p)
				if !ok {
					return false
				}
				if idx == nil {
					return reg.mask && ch == '*'
				}
				return !reg.mask && eqI(f, idx, k)
			}
			if s.kind != "fold" {
				c.Ob(test(s, f, pos, k), "mask-content", name, x.Pos, "%s the result does not hold %s", reg.what, wants(reg.mask))
				continue
			}
			for _, fp := range s.fold {
				g := fp.st.Facts
				at := Add(Sub(start, s.n), s.rec.Iota)
				for _, t := range reg.cond {
					g = g.With(Subst(t, map[*T]*T{k: at}))
				}
				if g.Infeasible() {
					continue
				}
				sg := fp.sg
				c.Ob(test(&sg, g, Int(0), at), "mask-content", name, x.Pos, "%s the result does not hold %s", reg.what, wants(reg.mask))
			}
		}
	}
}

func wants(mask bool) string {
	if mask {
		return "an asterisk"
	}
	return "the text's own character"
}

// nameMask checks one exit: fewer characters are revealed than the text has.
func (c *Ctx) nameMask(in *Interp, name string, x *Exit, p *T) {
	n := LenOf(RunesOf(p))
	if x.Facts.Proves(Ge0(Sub(Int(1), n))) {
		// at most one character: anything but garbage
		return
	}
	ss := segments(in, x, x.Ev.List(), x.Res[0], p)
	shown := Int(0)
	for _, s := range ss {
		switch s.kind {
		case "unknown":
			c.Fail("name-hidden", name, x.Pos, "%s", s.why)
			return
		case "rep":
		case "in":
			shown = Add(shown, s.n)
		case "runes":
			// characters of the text itself, or asterisks written over them
			if s.base == BaseOf(RunesOf(p)) || s.ev != nil {
				shown = Add(shown, c.revealed(in, x, &s, p))
			}
		case "fold":
			shown = Add(shown, s.n)
		}
	}
	f := x.Facts.With(Ge0(Sub(n, Int(2))))
	c.Ob(f.Proves(Ge0(Sub(Sub(n, shown), Int(1)))), "name-hidden", name, x.Pos, "all %s characters of a text can be revealed (%s are shown)", n, shown)
}

// revealed bounds the characters of the text a rune slice shows: its length, less one when some
// position is known to be overwritten.
func (c *Ctx) revealed(in *Interp, x *Exit, s *seg, p *T) *T {
	for _, at := range []*T{Int(1), Int(2), Int(0)} {
		f := x.Facts.With(Ge0(Sub(LenOf(RunesOf(p)), Int(2))))
		if !f.Proves(Lt(at, s.n)) {
			continue
		}
		if _, idx, ok := s.charAt(in, f, at, p); ok && idx == nil {
			return Sub(s.n, Int(1))
		}
	}
	return s.n
}

func maskHelpers(c *Ctx) {
	const pkg = "help/utils"
	n := 0
	run := func(fn *ssa.Function) (*Interp, []*Exit) {
		in := NewInterp(c.P, nil)
		xs := in.Run(fn)
		c.Complete(in, fn)
		c.Add("paths", len(xs))
		c.obligations(ShortName(fn), xs)
		return in, xs
	}
	type numeric struct {
		name   string
		region func(x *Exit, n, m *T) (lo, hi *T, ok bool)
	}
	fixed := func(x *Exit, n, m *T) (*T, *T, bool) { return Int(4), Add(Int(4), m), true }
	for _, k := range []numeric{
		{"MaskMobile", func(x *Exit, n, m *T) (*T, *T, bool) {
			if x.Facts.Proves(Ge0(Sub(n, Int(12)))) {
				return Int(5), Add(Int(5), m), true
			}
			return Int(3), Add(Int(3), m), x.Facts.Proves(Ge0(Sub(Int(11), n)))
		}},
		{"MaskIDCard", fixed},
		{"MaskBackCard", func(x *Exit, n, m *T) (*T, *T, bool) {
			if x.Facts.Proves(Ge0(Sub(n, Int(16)))) {
				return Int(4), Add(Int(4), Add(m, Sub(n, Int(16)))), true
			}
			return Int(4), Add(Int(4), m), x.Facts.Proves(Ge0(Sub(Int(16), n)))
		}},
	} {
		fn := c.P.Func(pkg, k.name)
		if fn == nil {
			c.Fail("anchor", pkg+"."+k.name, 0, "the helper is gone")
			continue
		}
		n++
		in, xs := run(fn)
		ps := Params(fn)
		for _, x := range xs {
			if x.Kind != "return" {
				continue
			}
			chars := LenOf(RunesOf(ps[0]))
			for _, y := range caseSplit(x, Ge0(Sub(chars, Int(12))), Ge0(Sub(chars, Int(17)))) {
				lo, hi, ok := k.region(y, chars, ps[1])
				if !ok {
					c.Fail("mask-content", ShortName(fn), x.Pos, "a path does not tell which prefix applies")
					continue
				}
				c.numberMask(in, ShortName(fn), y, ps[0], lo, hi)
			}
		}
	}
	for _, name := range []string{"MaskCustomerName", "HideStar"} {
		fn := c.P.Func(pkg, name)
		if fn == nil {
			c.Fail("anchor", pkg+"."+name, 0, "the helper is gone")
			continue
		}
		n++
		in, xs := run(fn)
		p := Params(fn)[0]
		for _, x := range xs {
			if x.Kind != "return" {
				continue
			}
			if name == "HideStar" && x.Facts.Proves(Ge0(indexOf(p, "@"))) {
				continue // a mail address
			}
			c.nameMask(in, ShortName(fn), x, p)
		}
	}
	c.Need("masking helpers", n, 5)
}

// caseSplit partitions an exit by conditions, dropping impossible cases.
func caseSplit(x *Exit, conds ...*T) []*Exit {
	out := []*Exit{x}
	for _, t := range conds {
		var next []*Exit
		for _, y := range out {
			if y.Facts.Proves(t) || y.Facts.Proves(Not(t)) {
				next = append(next, y)
				continue
			}
			for _, s := range []*T{t, Not(t)} {
				f := y.Facts.With(s)
				if f.Infeasible() {
					continue
				}
				z, st := *y, *y.State
				st.Facts = f
				z.State = &st
				next = append(next, &z)
			}
		}
		out = next
	}
	return out
}
