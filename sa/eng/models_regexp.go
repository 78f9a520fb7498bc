package eng

import (
	"regexp/syntax"
)

// A regexp compiled from a literal is the term regexp(pattern); matching a text is the boolean
// term rxmatch(regexp, text), from which bounds on the text's length follow.
func init() {
	models["regexp.MustCompile"] = func(in *Interp, st *State, c *Call) []Outcome {
		p, ok := StrOf(c.Args[0])
		if !ok {
			return nil
		}
		if _, err := syntax.Parse(p, syntax.Perl); err != nil {
			in.event(st, &Event{Kind: "ob", Name: "regexp", Instr: c.Instr, Val: False})
			return nil
		}
		return one(st, mk("regexp", p, c.Results()[0]))
	}
	models["(*regexp.Regexp).MatchString"] = func(in *Interp, st *State, c *Call) []Outcome {
		if c.Args[0].Op != "regexp" {
			return nil
		}
		return one(st, mk("rxmatch", "", tBool, c.Args[0], c.Args[1]))
	}
	models["regexp.MatchString"] = func(in *Interp, st *State, c *Call) []Outcome {
		p, ok := StrOf(c.Args[0])
		if !ok {
			return nil
		}
		if _, err := syntax.Parse(p, syntax.Perl); err != nil {
			return nil
		}
		return one(st, mk("rxmatch", "", tBool, mk("regexp", p, nil), c.Args[1]), Nil)
	}
}

// rxFacts are the consequences of a text matching a pattern.
func rxFacts(m *T) []*T {
	re, err := syntax.Parse(m.Args[0].Aux, syntax.Perl)
	if err != nil {
		return nil
	}
	s := m.Args[1]
	lo, hi, ascii, begin, end := rxLen(re.Simplify())
	out := []*T{Ge0(Sub(LenOf(s), Int(int64(lo))))}
	if begin && end {
		if hi >= 0 {
			out = append(out, Ge0(Sub(Int(int64(hi)), LenOf(s))))
		}
		if ascii {
			out = append(out, EqInt(LenOf(RunesOf(s)), LenOf(s)))
		}
	}
	return out
}

// rxLen bounds the byte length of the matched texts (hi < 0: no bound), tells whether they are
// all ASCII and whether the pattern is anchored at the beginning and the end of the text.
func rxLen(re *syntax.Regexp) (lo, hi int, ascii, begin, end bool) {
	ascii = true
	width := func(r rune) int {
		switch {
		case r < 0x80:
			return 1
		case r < 0x800:
			return 2
		case r < 0x10000:
			return 3
		}
		return 4
	}
	switch re.Op {
	case syntax.OpEmptyMatch:
	case syntax.OpBeginText:
		begin = true
	case syntax.OpEndText:
		// $ without the m flag is \z here (WasDollar only affects printing)
		end = true
	case syntax.OpBeginLine, syntax.OpEndLine, syntax.OpWordBoundary, syntax.OpNoWordBoundary:
	case syntax.OpLiteral:
		for _, r := range re.Rune {
			w := width(r)
			lo, hi = lo+w, hi+w
			if r >= 0x80 || re.Flags&syntax.FoldCase != 0 {
				ascii = false
			}
		}
		if re.Flags&syntax.FoldCase != 0 {
			lo, hi = len(re.Rune), 4*len(re.Rune)
		}
	case syntax.OpCharClass:
		lo, hi = 4, 1
		if len(re.Rune) == 0 {
			return 0, 0, true, false, false
		}
		for i := 0; i < len(re.Rune); i += 2 {
			a, b := width(re.Rune[i]), width(re.Rune[i+1])
			if a < lo {
				lo = a
			}
			if b > hi {
				hi = b
			}
			if re.Rune[i+1] >= 0x80 {
				ascii = false
			}
		}
		if !ascii {
			lo = 1 // U+FFFD matches an invalid byte
		}
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		lo, hi, ascii = 1, 4, false
	case syntax.OpCapture:
		return rxLen(re.Sub[0])
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
		l, h, a, _, _ := rxLen(re.Sub[0])
		min, max := 0, -1
		switch re.Op {
		case syntax.OpPlus:
			min = 1
		case syntax.OpQuest:
			max = 1
		case syntax.OpRepeat:
			min, max = re.Min, re.Max
		}
		lo, ascii = l*min, a
		hi = -1
		if max >= 0 && h >= 0 {
			hi = h * max
		}
	case syntax.OpConcat:
		for i, s := range re.Sub {
			l, h, a, b, e := rxLen(s)
			lo += l
			if h < 0 || hi < 0 {
				hi = -1
			} else {
				hi += h
			}
			ascii = ascii && a
			if i == 0 {
				begin = b
			}
			if i == len(re.Sub)-1 {
				end = e
			}
		}
	case syntax.OpAlternate:
		begin, end = true, true
		for i, s := range re.Sub {
			l, h, a, b, e := rxLen(s)
			if i == 0 {
				lo, hi = l, h
			}
			if l < lo {
				lo = l
			}
			if h < 0 || hi < 0 {
				hi = -1
			} else if h > hi {
				hi = h
			}
			ascii, begin, end = ascii && a, begin && b, end && e
		}
	default:
		return 0, -1, false, false, false
	}
	return
}

func init() {
	for _, n := range []string{"Intn", "Int31n", "Int63n"} {
		for i, name := range []string{"math/rand." + n, "(*math/rand.Rand)." + n} {
			arg := i
			models[name] = func(in *Interp, st *State, c *Call) []Outcome {
				in.oblige(st, c.Instr, "bound", Ge0(Sub(c.Args[arg], Int(1))))
				r := in.freshResults(st, c)[0]
				st.Facts = st.Facts.With(Ge0(r)).With(Ge0(Sub(Sub(c.Args[arg], Int(1)), r)))
				in.event(st, &Event{Kind: "call", Name: c.Name, Instr: c.Instr, Args: c.Args, Res: []*T{r}, Val: c.Fn})
				return one(st, r)
			}
		}
	}
}
