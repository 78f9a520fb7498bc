package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C37", Title: "Generated texts, links, switches and commands are what was asked for", Level: "other",
		Rule:   "On every path: the random text is built from exactly size characters, one per iteration, each provably inside the character class its kind selects; the link is the slash-joined list that starts with the trimmed prefix and grows, in every iteration over the parameter pairs, by key and value of exactly that pair if the key's text is not empty and the value's text is not 0, and is untouched otherwise, the loop ending only past the last whole pair; the suffix is the last piece between separators, or nothing where there is none; the substring is the characters of the asked range; a switch is reported off exactly where the option map holds the key with false, and setting one stores exactly that key and value; the JSON helpers return the encoding of their argument and decode exactly their text; number helpers format and parse in base ten; the csv reader returns all records of the file at its path; the date directory is today's year/month/day; the shell helper runs the given text, returns its output only if the run succeeded, and an error exactly if not.",
		Run:    textsRun,
		Tech:   "value provenance and interval facts over a path-partitioned abstract interpretation of Go SSA with loop invariants",
		Note:   "How characters are distributed is C43; what strconv, encoding/json and encoding/csv accept is theirs.",
		Assume: []string{"fmt, strings, strconv, encoding/json, encoding/csv and os/exec do what they document", "math/rand.Intn(n) returns a value in [0, n)"}})
}

func textsRun(c *Ctx) {
	start := func(name string, pre ...*T) (*Interp, []*Exit, *ssa.Function) {
		fn := c.P.Func("help/utils", name)
		if fn == nil {
			c.Need(name, 0, 1)
			return nil, nil, nil
		}
		in := NewInterp(c.P, &Config{})
		exits := in.Run(fn, pre...)
		c.Complete(in, fn)
		var out []*Exit
		for _, x := range exits {
			if x.Kind == "return" {
				out = append(out, x)
			}
		}
		c.Need("paths of "+name, len(out), 1)
		c.Add("paths", len(out))
		return in, out, fn
	}
	// one analysis per kind of text, so that what is decided before the loop is known in it
	if fn := c.P.Func("help/utils", "RandStr"); fn != nil {
		kind := Params(fn)[1]
		for _, k := range []*T{Lt(kind, Int(0)), EqInt(kind, Int(0)), EqInt(kind, Int(1)), EqInt(kind, Int(2)), Lt(Int(2), kind)} {
			in, xs, _ := start("RandStr", Ge0(Params(fn)[0]), k)
			for _, x := range xs {
				c.randText(in, x, fn)
			}
		}
	} else {
		c.Need("RandStr", 0, 1)
	}
	if in, xs, fn := start("BuildUrl"); in != nil {
		for _, x := range xs {
			c.linkText(in, x, fn)
		}
	}
	if in, xs, fn := start("ShellExec"); in != nil {
		for _, x := range xs {
			c.shell(in, x, fn)
		}
	}
	if in, xs, fn := start("GetSwitchFromOptions"); in != nil {
		ps, name := Params(fn), ShortName(fn)
		m, k := ps[0], ps[1]
		for _, x := range xs {
			has := in.LoadOne(x.State, Mk("has", "", types.Typ[types.Bool], m, k), types.Typ[types.Bool])
			on, off := False, False
			switch r := x.Res[0]; {
			case r == True:
				on = True
			case r == False:
				off = True
			default:
				on, off = r, Not(r)
			}
			entry := mapVal(x, m, k)
			// reported off: the key is there and holds false
			f := x.Facts.With(off)
			if off == True {
				f = x.Facts
			}
			if off != False && !f.Infeasible() {
				c.Ob(has != nil && f.Proves(has) && entry != nil && f.Proves(Not(entry)), "switch", name, x.Pos, "a switch is reported off although the options do not hold it with false")
			}
			// reported on: not there, or true
			f = x.Facts
			if on != True {
				f = f.With(on)
			}
			if on != False && !f.Infeasible() {
				absent := f.Proves(Eq(m, Nil)) || has != nil && f.Proves(Not(has)) || f.Proves(EqInt(LenOf(m), Int(0)))
				if !absent && has != nil && entry != nil {
					absent = f.With(has).With(Not(entry)).Infeasible()
				}
				c.Ob(absent || entry != nil && f.Proves(entry), "switch", name, x.Pos, "a switch is reported on although the options may hold it with false")
			}
		}
	}
	if in, xs, fn := start("SetSwitchFromOptions"); in != nil {
		ps, name := Params(fn), ShortName(fn)
		for _, x := range xs {
			if x.Facts.Proves(Eq(ps[0], Nil)) {
				continue // nothing the caller could see
			}
			n := 0
			visit(x.Ev.List(), func(e *Event, _ *State) {
				if e.Name == "mapupdate" || e.Name == "delete" {
					n++
					a := e.Args[0]
					c.Ob(e.Name == "mapupdate" && len(a.Args) == 2 && a.Args[0] == ps[0] && a.Args[1] == ps[1] && e.Val == ps[2], "switch-set", name, e.Pos, "setting a switch changes %s to %v", a, e.Val)
				}
			})
			if n != 1 {
				c.Ob(n == 0 && heldAlready(x, ps[0], ps[1], ps[2]), "switch-set", name, x.Pos, "setting a switch in a given map writes it %d times", n)
			}
		}
	}
	for _, nm := range []string{"MapToJsonString", "Map2JsonString", "MapIntToJsonString"} {
		if in, xs, fn := start(nm); in != nil {
			c.jsonText(in, xs, fn)
		}
	}
	if in, xs, fn := start("JsonStringToMap"); in != nil {
		p, name := Params(fn)[0], ShortName(fn)
		for _, x := range xs {
			var un *Event
			n := 0
			visit(x.Ev.List(), func(e *Event, _ *State) {
				if e.Kind == "call" && (e.Name == "encoding/json.Unmarshal" || e.Name == "(*encoding/json.Decoder).Decode") {
					un = e
					n++
				}
			})
			if !c.Ob(n == 1, "json-decoded", name, x.Pos, "the text is decoded %d times", n) {
				continue
			}
			if !c.Ob(un.Name == "encoding/json.Unmarshal" && contentOf(un.Args[0], p), "json-decoded", name, un.Pos, "what is decoded is not the given text: %v", un.Args) {
				continue
			}
			if x.Facts.Proves(Not(Eq(un.Res[0], Nil))) {
				continue // not JSON: whatever was understood
			}
			v := in.LoadOne(x.State, stripIface(un.Args[1]), fn.Signature.Results().At(0).Type())
			c.Ob(v != nil && x.Res[0] == v, "json-decoded", name, x.Pos, "the decoded value is not what is returned: %v", x.Res[0])
		}
	}
	for _, nm := range []string{"IntToString", "Int64ToString"} {
		if in, xs, fn := start(nm); in != nil {
			for _, x := range xs {
				c.Ob(decimalOf(x.Res[0], Params(fn)[0]), "decimal", ShortName(fn), x.Pos, "the text returned is not the argument in base ten: %v", x.Res[0])
			}
		}
	}
	for _, nm := range []string{"StringToInt", "StringToInt64"} {
		if in, xs, fn := start(nm); in != nil {
			p := Params(fn)[0]
			for _, x := range xs {
				var bad *T
				r := x.Res[0]
				if x.Res[0] == Int(0) {
					for _, e := range x.Ev.List() {
						if len(e.Res) == 2 && parses(e.Res[0], p, nm) && failedErr(x.Facts, e.Res[1]) {
							r = nil
						}
					}
				}
				if r != nil && !parses(r, p, nm) {
					bad = r
				}
				c.Ob(bad == nil, "decimal", ShortName(fn), x.Pos, "the number returned is not the argument read in base ten: %v", x.Res[0])
			}
		}
	}
	if in, xs, fn := start("GetTimeDir"); in != nil {
		for _, x := range xs {
			r := x.Res[0]
			ok := isCall(r, "(time.Time).Format") && r.Args[0].Op == "now"
			if ok {
				s, k := StrOf(r.Args[1])
				ok = k && s == "2006/01/02"
			}
			c.Ob(ok, "date-path", ShortName(fn), x.Pos, "the directory is not the present year/month/day: %v", r)
		}
	}
	if in, xs, fn := start("GetSuffixName"); in != nil {
		for _, x := range xs {
			c.suffix(x, fn)
		}
	}
	if fn := c.P.Func("help/utils", "Substr2"); fn != nil {
		ps := Params(fn)
		n := LenOf(RunesOf(ps[0]))
		_, xs, _ := start("Substr2", Ge0(ps[1]), Ge0(Sub(ps[2], ps[1])), Ge0(Sub(n, ps[2])))
		for _, x := range xs {
			r, ok := x.Res[0], false
			if r.Op == "sconv" && r.Args[0].Op == "slice" {
				v := r.Args[0]
				ok = BaseOf(v) == BaseOf(RunesOf(ps[0])) && eqI(x.Facts, OffOf(v), ps[1]) && eqI(x.Facts, LenOf(v), Sub(ps[2], ps[1])) && untouched(x, BaseOf(v))
			}
			if str, k := StrOf(r); k && str == "" {
				ok = eqI(x.Facts, ps[1], ps[2])
			}
			if r == ps[0] {
				ok = eqI(x.Facts, ps[1], Int(0)) && eqI(x.Facts, ps[2], n)
			}
			c.Ob(ok, "substring", ShortName(fn), x.Pos, "the text returned is not the characters from start to end: %v", r)
		}
	} else {
		c.Need("Substr2", 0, 1)
	}
	if in, xs, fn := start("ReadCsv"); in != nil {
		c.csvRead(in, xs, fn)
	}
}

// untouched: nothing on the path writes the array.
func untouched(x *Exit, base *T) bool {
	ok := true
	visit(x.Ev.List(), func(e *Event, _ *State) {
		if e.Kind == "store" && len(e.Args) > 0 && e.Args[0].Op == "elem" && e.Args[0].Args[0] == base {
			ok = false
		}
	})
	return ok
}

// suffix: what stands behind the last separator, nothing without one.
func (c *Ctx) suffix(x *Exit, fn *ssa.Function) {
	ps, name := Params(fn), ShortName(fn)
	str, seg := ps[0], ps[1]
	r := x.Res[0]
	split := Mk("call", "strings.Split", types.NewSlice(types.Typ[types.String]), str, seg)
	last := Mk("call", "strings.LastIndex", types.Typ[types.Int], str, seg)
	for _, e := range x.Ev.List() {
		if e.Kind == "pure" && len(e.Res) == 1 && len(e.Args) == 2 && e.Args[0] == str && e.Args[1] == seg {
			switch e.Name {
			case "strings.Split":
				split = e.Res[0]
			case "strings.LastIndex":
				last = e.Res[0]
			}
		}
	}
	n := LenOf(split)
	has := x.Facts.Proves(Ge0(Sub(n, Int(2)))) || x.Facts.Proves(Ge0(last)) || x.Facts.Proves(Mk("call", "strings.Contains", types.Typ[types.Bool], str, seg))
	hasNot := x.Facts.Proves(Ge0(Sub(Int(1), n))) || x.Facts.Proves(Lt(last, Int(0))) || x.Facts.Proves(Not(Mk("call", "strings.Contains", types.Typ[types.Bool], str, seg)))
	if s, ok := StrOf(r); ok && s == "" {
		if has && r.Op == "const" {
			hasNot = x.Facts.Proves(EqInt(Add(last, LenOf(seg)), LenOf(str)))
		}
		c.Ob(hasNot, "suffix", name, x.Pos, "no suffix is returned although the text may hold the separator")
		return
	}
	ok := false
	switch {
	case r.Op == "init" && r.Args[0].Op == "elem" && r.Args[0].Args[0] == BaseOf(split):
		ok = eqI(x.Facts, Sub(r.Args[0].Args[1], OffOf(split)), Sub(n, Int(1)))
	case r.Op == "substr" && r.Args[0] == str:
		ok = eqI(x.Facts, r.Args[1], Add(last, LenOf(seg))) && eqI(x.Facts, r.Args[2], LenOf(str))
	}
	c.Ob(ok && has, "suffix", name, x.Pos, "what is returned is not the text behind the last separator: %v", r)
}

// mapVal: the value the option map held for key at entry, as the path names it.
func mapVal(x *Exit, m, k *T) (v *T) {
	look := func(f *T) {
		if f.Op == "init" && len(f.Args) == 1 && f.Args[0].Op != "has" && len(f.Args[0].Args) == 2 && f.Args[0].Args[0] == m && f.Args[0].Args[1] == k {
			v = f
		}
	}
	for _, f := range x.Facts.List() {
		visitTerm(f, look)
	}
	for _, r := range x.Res {
		visitTerm(r, look)
	}
	return v
}

func visitTerm(t *T, f func(t *T)) {
	f(t)
	for _, a := range t.Args {
		visitTerm(a, f)
	}
}

// heldAlready: the map is known to hold the value already.
func heldAlready(x *Exit, m, k, v *T) bool {
	old := mapVal(x, m, k)
	if old == nil {
		return false
	}
	return x.Facts.With(Not(old)).With(v).Infeasible() && x.Facts.With(old).With(Not(v)).Infeasible()
}

func decimalOf(t, p *T) bool {
	switch {
	case isCall(t, "strconv.Itoa"):
		return t.Args[0] == p
	case isCall(t, "strconv.FormatInt"):
		return IsConst(t.Args[1], 10) && t.Args[0] == p
	case isCall(t, "fmt.Sprint"):
		return len(t.Args) == 1 && stripIface(t.Args[0]) == p
	case isCall(t, "fmt.Sprintf"):
		s, ok := StrOf(t.Args[0])
		return ok && (s == "%d" || s == "%v") && len(t.Args) == 2 && stripIface(t.Args[1]) == p
	}
	return false
}

func parses(r, p *T, nm string) bool {
	switch {
	case isCall(r, "strconv.Atoi.0"):
		return r.Args[0] == p
	case isCall(r, "strconv.ParseInt.0"):
		bits, ok := ConstOf(r.Args[2])
		return r.Args[0] == p && IsConst(r.Args[1], 10) && ok && (bits.Int64() == 64 || bits.Int64() == 0)
	}
	return false
}

func (c *Ctx) jsonText(in *Interp, xs []*Exit, fn *ssa.Function) {
	p, name := Params(fn)[0], ShortName(fn)
	for _, x := range xs {
		var enc *Event
		n := 0
		visit(x.Ev.List(), func(e *Event, _ *State) {
			if e.Kind == "call" && strings.HasPrefix(e.Name, "encoding/json.") || strings.HasPrefix(e.Name, "(*encoding/json.") {
				enc = e
				n++
			}
		})
		if !c.Ob(n == 1 && enc.Name == "encoding/json.Marshal" && stripIface(enc.Args[0]) == p, "json-text", name, x.Pos, "the argument is not what is encoded, once") {
			continue
		}
		r := x.Res[0]
		if failedErr(x.Facts, enc.Res[1]) {
			continue
		}
		ok := r.Op == "sconv" && r.Args[0] == enc.Res[0]
		c.Ob(ok, "json-text", name, x.Pos, "the text returned is not the encoding: %v", r)
	}
}

func (c *Ctx) csvRead(in *Interp, xs []*Exit, fn *ssa.Function) {
	p, name := Params(fn)[0], ShortName(fn)
	some := 0
	for _, x := range xs {
		r := x.Res[0]
		if r == Nil {
			// nothing returned: something failed
			failed := false
			visit(x.Ev.List(), func(e *Event, _ *State) {
				if er := errRes(e); er != nil && failedErr(x.Facts, er) {
					failed = true
				}
			})
			c.Ob(failed, "csv-read", name, x.Pos, "no records are returned although nothing failed")
			continue
		}
		some++
		var all, rd, op *Event
		n := 0
		visit(x.Ev.List(), func(e *Event, _ *State) {
			switch {
			case e.Kind != "call":
			case strings.HasPrefix(e.Name, "(*encoding/csv.Reader)."):
				all = e
				n++
			case e.Name == "encoding/csv.NewReader":
				rd = e
			case e.Name == "os.Open" || e.Name == "os.OpenFile":
				op = e
			}
		})
		if !c.Ob(n == 1 && strings.HasSuffix(all.Name, ".ReadAll") && rd != nil && all.Args[0] == rd.Res[0] && noErr(x.Facts, all.Res[1]), "csv-read", name, x.Pos, "records are returned that are not all that the reader read without error") {
			continue
		}
		src := stripIface(rd.Args[0])
		c.Ob(op != nil && op.Args[0] == p && src == op.Res[0] && noErr(x.Facts, op.Res[1]), "csv-read", name, x.Pos, "what is read is not the file at the given path: %v", src)
		pt, _ := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer)
		if pt != nil {
			v := in.LoadOne(x.State, r, pt.Elem())
			c.Ob(v == all.Res[0], "csv-read", name, x.Pos, "what is returned are not the records read: %v", v)
		} else {
			c.Ob(r == all.Res[0], "csv-read", name, x.Pos, "what is returned are not the records read: %v", r)
		}
	}
	c.Need("successful paths of ReadCsv", some, 1)
}

// randText: size characters of the class.
func (c *Ctx) randText(in *Interp, x *Exit, fn *ssa.Function) {
	ps, name := Params(fn), ShortName(fn)
	size, kind := ps[0], ps[1]
	r := x.Res[0]
	if s, ok := StrOf(r); ok && s == "" || r.Op == "sconv" && x.Facts.Proves(EqInt(LenOf(r.Args[0]), Int(0))) {
		c.Ob(x.Facts.Proves(EqInt(size, Int(0))), "random-length", name, x.Pos, "an empty text is returned for a positive size")
		return
	}
	var rec *LoopRec
	var val func(b *State) (*T, string)
	switch {
	case r.Op == "sconv":
		v := r.Args[0]
		for _, e := range x.Ev.List() {
			if e.Kind != "loop" || e.Loop == nil {
				continue
			}
			l := e.Loop
			for _, ph := range l.Phis {
				cur := l.Cur[ph]
				if cur != v {
					continue
				}
				ph := ph
				if ini := l.Init[ph]; !(ini == Nil || x.Facts.Proves(EqInt(LenOf(ini), Int(0)))) {
					c.Fail("random-length", name, l.Pos, "the text does not start empty: %v", ini)
					return
				}
				rec = l
				val = func(b *State) (*T, string) {
					nx := in.BackVal(l, b, ph)
					for _, y := range backEvents(l, b) {
						if y.Kind == "append" && y.Res[0] == nx && y.Args[0] == cur && y.Args[1].Op == "slice" && IsConst(LenOf(y.Args[1]), 1) {
							return in.LoadAt(y, Mk("elem", "", elemOf(fn, v), BaseOf(y.Args[1]), OffOf(y.Args[1])), elemOf(fn, v)), ""
						}
					}
					return nil, "an iteration does not append one character"
				}
			}
			if rec != nil {
				break
			}
			if !c.Ob(BaseOf(v) != nil, "random-class", name, x.Pos, "what is turned into text is not understood: %v", v) {
				return
			}
			writes := false
			for _, b := range l.Back {
				for _, y := range backEvents(l, b) {
					if y.Kind == "store" && y.Args[0].Op == "elem" && y.Args[0].Args[0] == BaseOf(v) {
						writes = true
					}
				}
			}
			if !writes {
				continue
			}
			rec = l
			val = func(b *State) (*T, string) {
				var got *T
				for _, y := range backEvents(l, b) {
					if y.Kind == "loop" {
						return nil, "an iteration contains a loop"
					}
					if y.Kind == "store" && y.Args[0].Op == "elem" && y.Args[0].Args[0] == BaseOf(v) {
						at := Sub(y.Args[0].Args[1], OffOf(v))
						if !eqI(b.Facts, at, l.Iota) && !eqI(b.Facts, at, Sub(Sub(LenOf(v), Int(1)), l.Iota)) {
							return nil, "an iteration does not write its own place"
						}
						got = y.Val
					}
				}
				return got, "an iteration leaves its place unwritten"
			}
			c.Ob(x.Facts.Proves(EqInt(LenOf(v), size)), "random-length", name, x.Pos, "the text has %s characters, not size", LenOf(v))
			break
		}
	default:
		for _, e := range x.Ev.List() {
			if e.Kind != "loop" || e.Loop == nil {
				continue
			}
			ini, next := carried(in, e.Loop, r)
			if ini == nil {
				continue
			}
			if s, ok := StrOf(ini); !ok || s != "" {
				c.Fail("random-length", name, e.Loop.Pos, "the text does not start empty: %v", ini)
				return
			}
			rec = e.Loop
			val = func(b *State) (*T, string) {
				v := next(b)
				if v != nil && v.Op == "concat" && len(v.Args) == 2 && v.Args[0] == r && (v.Args[1].Op == "rune2str" || v.Args[1].Op == "byte") {
					return v.Args[1].Args[0], ""
				}
				return nil, "an iteration does not append one character"
			}
		}
	}
	if !c.Ob(rec != nil && len(rec.Back) > 0, "random-class", name, x.Pos, "how the text comes about is not understood: %v", r) {
		return
	}
	c.Ob(eqI(x.Facts, rec.Iota, size), "random-length", name, x.Pos, "the text is finished after another number of characters than size")
	classes := [][2]int64{{'0', '9'}, {'a', 'z'}, {'A', 'Z'}}
	for _, b := range rec.Back {
		v, why := val(b)
		if !c.Ob(v != nil, "random-class", name, rec.Pos, "%s", why) {
			continue
		}
		v = unconv(v)
		in := func(f *FactNode, i int) bool {
			if set, ok := alphabet(v); ok {
				for _, ch := range []byte(set) {
					if int64(ch) < classes[i][0] || int64(ch) > classes[i][1] {
						return false
					}
				}
				return true
			}
			return f.Proves(Ge0(Sub(v, Int(classes[i][0])))) && f.Proves(Ge0(Sub(Int(classes[i][1]), v)))
		}
		for k := int64(0); k < 3; k++ {
			f := b.Facts.With(EqInt(kind, Int(k)))
			c.Ob(f.Infeasible() || in(f, int(k)), "random-class", name, rec.Pos, "for kind %d a character may be %v", k, v)
		}
		for _, out := range []*T{Lt(kind, Int(0)), Lt(Int(2), kind)} {
			f := b.Facts.With(out)
			c.Ob(f.Infeasible() || in(f, 0) || in(f, 1) || in(f, 2), "random-class", name, rec.Pos, "for a mixed text a character may be %v", v)
		}
	}
}

// alphabet: v is some character of a constant text.
func alphabet(v *T) (string, bool) {
	if v.Op == "at" && len(v.Args) == 2 {
		return StrOf(v.Args[0])
	}
	return "", false
}

func elemOf(fn *ssa.Function, v *T) types.Type {
	if v.Typ != nil {
		if s, ok := v.Typ.Underlying().(*types.Slice); ok {
			return s.Elem()
		}
	}
	return types.Typ[types.Byte]
}

// carried: t is what a loop carries round; its value before the first iteration and after one.
func carried(in *Interp, rec *LoopRec, t *T) (*T, func(b *State) *T) {
	if len(rec.Back) == 0 {
		return nil, nil
	}
	for _, ph := range rec.Phis {
		if ph := ph; rec.Cur[ph] == t {
			return rec.Init[ph], func(b *State) *T { return in.BackVal(rec, b, ph) }
		}
	}
	if t.Op == "hv" && len(t.Args) > 0 && rec.Head != nil {
		a := t.Args[0]
		if in.LoadOne(rec.Head, a, t.Typ) == t {
			return in.LoadOne(rec.Entry, a, t.Typ), func(b *State) *T { return in.LoadOne(b, a, t.Typ) }
		}
	}
	return nil, nil
}

// formatted: t is the default text of v.
func formatted(t *T) *T {
	switch {
	case isCall(t, "fmt.Sprint") && len(t.Args) == 1:
		return t.Args[0]
	case isCall(t, "fmt.Sprintf") && len(t.Args) == 2:
		if s, ok := StrOf(t.Args[0]); ok && s == "%v" {
			return t.Args[1]
		}
	}
	return nil
}

// flatText: constants (merged) and terms of a text, simple formats taken apart.
func flatText(t *T) []piece { return flatIn(nil, nil, t) }

func flatIn(in *Interp, evs []*Event, t *T) []piece {
	var out []piece
	add := func(p piece) {
		if p.v == nil && len(out) > 0 && out[len(out)-1].v == nil {
			out[len(out)-1].c += p.c
			return
		}
		if p.v == nil && p.c == "" {
			return
		}
		out = append(out, p)
	}
	if s, ok := StrOf(t); ok {
		add(piece{c: s})
		return out
	}
	switch {
	case t.Op == "concat":
		for _, a := range t.Args {
			for _, p := range flatIn(in, evs, a) {
				add(p)
			}
		}
		return out
	case isCall(t, "fmt.Sprintf"):
		s, ok := StrOf(t.Args[0])
		if !ok || formatted(t) != nil && t.Args[1].Op != "iface" {
			break
		}
		rest := t.Args[1:]
		var got []piece
		for s != "" {
			i := strings.IndexByte(s, '%')
			if i < 0 {
				got = append(got, piece{c: s})
				break
			}
			got = append(got, piece{c: s[:i]})
			if i+1 >= len(s) || s[i+1] != 'v' && s[i+1] != 's' || len(rest) == 0 || rest[0].Op != "iface" || !isString(rest[0].Args[0].Typ) {
				return []piece{{v: t}}
			}
			for _, p := range flatIn(in, evs, rest[0].Args[0]) {
				got = append(got, p)
			}
			rest = rest[1:]
			s = s[i+2:]
		}
		if len(rest) != 0 {
			break
		}
		for _, p := range got {
			add(p)
		}
		return out
	}
	for _, e := range evs {
		if e.Name != "strings.Join" || len(e.Res) != 1 || e.Res[0] != t {
			continue
		}
		n, ok := ConstOf(LenOf(e.Args[0]))
		if !ok || n.Int64() < 1 || n.Int64() > 4 {
			break
		}
		str := types.Typ[types.String]
		for i := int64(0); i < n.Int64(); i++ {
			el := in.LoadAt(e, Mk("elem", "", str, BaseOf(e.Args[0]), Add(OffOf(e.Args[0]), Int(i))), str)
			if el == nil {
				return []piece{{v: t}}
			}
			if i > 0 {
				for _, p := range flatIn(in, evs, e.Args[1]) {
					add(p)
				}
			}
			for _, p := range flatIn(in, evs, el) {
				add(p)
			}
		}
		return out
	}
	return []piece{{v: t}}
}

// linkText: prefix, then the pairs.
func (c *Ctx) linkText(in *Interp, x *Exit, fn *ssa.Function) {
	ps, name := Params(fn), ShortName(fn)
	prefix, params := ps[0], ps[1]
	r := x.Res[0]
	if !c.Ob(isCall(r, "strings.TrimRight") && isSlash(r.Args[1]), "link", name, x.Pos, "the link may end in slashes, or is trimmed otherwise: %v", r) {
		return
	}
	t := r.Args[0]
	str := types.Typ[types.String]
	isPrefix := func(t *T) bool {
		ss := flatText(t)
		return len(ss) == 2 && ss[0].v == nil && ss[0].c == "/" && ss[1].v != nil && isCall(ss[1].v, "strings.Trim") && ss[1].v.Args[0] == prefix && isSlash(ss[1].v.Args[1])
	}
	// shrinking: the slice that starts as the parameters and loses its first two in every iteration
	shrinking := func(rec *LoopRec) *T {
		for _, ph := range rec.Phis {
			cur := rec.Cur[ph]
			if rec.Init[ph] != params || cur == nil || len(rec.Back) == 0 {
				continue
			}
			ok := true
			for _, b := range rec.Back {
				v := in.BackVal(rec, b, ph)
				ok = ok && v != nil && BaseOf(v) == BaseOf(cur) && eqI(b.Facts, OffOf(v), Add(OffOf(cur), Int(2))) && eqI(b.Facts, LenOf(v), Sub(LenOf(cur), Int(2)))
			}
			if ok {
				return cur
			}
		}
		return nil
	}
	// pair: the given text pieces are key/value of the iteration's pair
	pair := func(rec *LoopRec, b *State, ss []piece) string {
		list, i2 := params, Add(rec.Iota, rec.Iota)
		if s := shrinking(rec); s != nil {
			list, i2 = s, Int(0)
		}
		pr := func(t *T, at *T) bool {
			return t != nil && t.Op == "init" && t.Args[0].Op == "elem" && t.Args[0].Args[0] == BaseOf(list) && eqI(b.Facts, Sub(t.Args[0].Args[1], OffOf(list)), at)
		}
		var k, v *T
		for _, y := range backEvents(rec, b) {
			if y.Kind != "pure" || len(y.Res) != 1 {
				continue
			}
			a := formatted(y.Res[0])
			if a == nil {
				continue
			}
			if pr(a, i2) {
				k = y.Res[0]
			}
			if pr(a, Add(i2, Int(1))) {
				v = y.Res[0]
			}
		}
		if !b.Facts.Proves(Lt(Add(i2, Int(1)), LenOf(list))) {
			return "an iteration may go beyond the last whole pair"
		}
		zero := (*T)(nil)
		if v != nil {
			zero = Eq(v, Str("0"))
		}
		if ss == nil { // left out
			if k != nil && b.Facts.Proves(EqInt(LenOf(k), Int(0))) {
				return ""
			}
			if v != nil && b.Facts.Proves(zero) {
				return ""
			}
			return "a pair is left out although its key is not empty and its value is not 0"
		}
		switch {
		case k == nil || v == nil:
			return "a pair is added without looking at its key and value"
		case !b.Facts.Proves(Lt(Int(0), LenOf(k))):
			return "a pair with an empty key is added"
		case !b.Facts.Proves(Not(zero)):
			return "a pair with value 0 is added"
		case !(len(ss) == 3 && ss[0].v == k && ss[1].v == nil && ss[1].c == "/" && ss[2].v == v):
			return "what is added is not the pair's key and value"
		}
		return ""
	}
	covered := func(rec *LoopRec) {
		list, i2 := params, Add(rec.Iota, rec.Iota)
		if s := shrinking(rec); s != nil {
			list, i2 = s, Int(0)
		}
		c.Ob(x.Facts.Proves(Ge0(Sub(Add(i2, Int(1)), LenOf(list)))), "every-pair", name, x.Pos, "the link is finished before the last pair")
	}
	none := func() {
		c.Ob(x.Facts.Proves(Ge0(Sub(Int(1), LenOf(params)))), "every-pair", name, x.Pos, "the link is finished without its parameters")
	}
	var join *Event
	for _, e := range x.Ev.List() {
		if len(e.Res) == 1 && e.Res[0] == t && e.Name == "strings.Join" {
			join = e
		}
	}
	if join == nil { // a text carried round
		if isPrefix(t) {
			none()
			return
		}
		for _, e := range x.Ev.List() {
			if e.Kind != "loop" || e.Loop == nil {
				continue
			}
			rec := e.Loop
			ini, next := carried(in, rec, t)
			if ini == nil {
				continue
			}
			c.Ob(isPrefix(ini), "link", name, rec.Pos, "the link does not start with a slash and the trimmed prefix: %v", ini)
			covered(rec)
			for _, b := range rec.Back {
				v := next(b)
				why := "the text of an iteration is not known"
				if v == t {
					why = pair(rec, b, nil)
				} else if v != nil {
					ss := flatIn(in, backEvents(rec, b), v)
					if len(ss) > 1 && ss[0].v == t && ss[1].v == nil && ss[1].c == "/" {
						why = pair(rec, b, ss[2:])
					} else {
						why = "an iteration does not append to the link behind a slash"
					}
				}
				c.Ob(why == "", "pair", name, rec.Pos, "%s", why)
			}
			return
		}
		c.Fail("link", name, x.Pos, "how the link comes about is not understood: %v", t)
		return
	}
	if !c.Ob(isSlash(join.Args[1]), "link", name, join.Pos, "the parts are not joined by slashes") {
		return
	}
	list := join.Args[0]
	first := func(st *State, l *T) {
		ok := l.Op == "slice" && x.Facts.Proves(EqInt(LenOf(l), Int(1)))
		var v *T
		if ok {
			v = in.LoadOne(st, Mk("elem", "", str, BaseOf(l), OffOf(l)), str)
		}
		c.Ob(v != nil && isPrefix(v), "link", name, x.Pos, "the link does not start with a slash and the trimmed prefix: %v", v)
	}
	for _, e := range x.Ev.List() {
		if e.Kind != "loop" || e.Loop == nil {
			continue
		}
		rec := e.Loop
		ini, next := carried(in, rec, list)
		if ini == nil {
			continue
		}
		first(rec.Entry, ini)
		covered(rec)
		for _, b := range rec.Back {
			v := next(b)
			why := "what an iteration adds is not known"
			if v == list {
				why = pair(rec, b, nil)
			}
			for _, y := range backEvents(rec, b) {
				if y.Kind != "append" || v != y.Res[0] || v == list {
					continue
				}
				n, k := ConstOf(LenOf(y.Args[1]))
				if y.Args[0] != list || !k || n.Int64() < 1 || n.Int64() > 2 {
					continue
				}
				var ss []piece
				for i := int64(0); i < n.Int64(); i++ {
					el := in.LoadAt(y, Mk("elem", "", str, BaseOf(y.Args[1]), Add(OffOf(y.Args[1]), Int(i))), str)
					if el == nil {
						ss = append(ss, piece{})
						continue
					}
					if i > 0 {
						ss = append(ss, piece{c: "/"})
					}
					ss = append(ss, flatIn(in, backEvents(rec, b), el)...)
				}
				why = pair(rec, b, ss)
			}
			c.Ob(why == "", "pair", name, rec.Pos, "%s", why)
		}
		return
	}
	first(x.State, list)
	none()
}

func isSlash(t *T) bool { s, ok := StrOf(t); return ok && s == "/" }

// shell: the text is run, the outcome reported.
func (c *Ctx) shell(in *Interp, x *Exit, fn *ssa.Function) {
	p, name := Params(fn)[0], ShortName(fn)
	var mk, run *Event
	runs, mks := 0, 0
	visit(x.Ev.List(), func(e *Event, _ *State) {
		switch {
		case e.Name == "os/exec.Command" || e.Name == "os/exec.CommandContext":
			mk = e
			mks++
		case strings.HasPrefix(e.Name, "(*os/exec.Cmd).") && e.Kind == "call":
			run = e
			runs++
		}
	})
	if !c.Ob(mks == 1 && runs == 1 && run.Name == "(*os/exec.Cmd).Run" && run.Args[0] == mk.Res[0], "shell", name, x.Pos, "the command is not run exactly once (%d commands, %d runs)", mks, runs) {
		return
	}
	ran := run.Res[0]
	field := func(f string) *T {
		var v *T
		for _, e := range x.Ev.List() {
			if e == run {
				break
			}
			if e.Kind == "store" && e.Args[0].Op == "field" && e.Args[0].Args[0] == mk.Res[0] && strings.HasSuffix(e.Args[0].String(), "."+f) {
				v = stripIface(e.Val)
			}
		}
		return v
	}
	// what is run
	sh, _ := StrOf(mk.Args[0])
	ok := sh == "sh" || sh == "/bin/sh"
	if ok && mk.Args[1] != Nil && !IsConst(LenOf(mk.Args[1]), 0) {
		ok = false
		if IsConst(LenOf(mk.Args[1]), 2) {
			str := types.Typ[types.String]
			a := in.LoadAt(mk, Mk("elem", "", str, BaseOf(mk.Args[1]), OffOf(mk.Args[1])), str)
			b := in.LoadAt(mk, Mk("elem", "", str, BaseOf(mk.Args[1]), Add(OffOf(mk.Args[1]), Int(1))), str)
			if a != nil && b != nil {
				s, _ := StrOf(a)
				ok = s == "-c" && b == p
			}
		}
	} else if ok {
		ok = false
		if src := field("Stdin"); src != nil {
			var ss []piece
			for _, e := range x.Ev.List() {
				if e == run {
					break
				}
				switch {
				case e.Kind == "bufwrite" && e.Args[0] == src:
					v := e.Val
					if v == p || len(e.Args) == 2 && contentOf(e.Args[1], p) {
						ss = append(ss, piece{v: p})
					} else {
						ss = append(ss, flatText(v)...)
					}
				case e.Kind == "call" && len(e.Args) == 2 && stripIface(e.Args[0]) == src && (e.Name == "fmt.Fprintln" || e.Name == "fmt.Fprint") && IsConst(LenOf(e.Args[1]), 1):
					any := types.NewInterfaceType(nil, nil)
					v := in.LoadAt(e, Mk("elem", "", any, BaseOf(e.Args[1]), OffOf(e.Args[1])), any)
					if v == nil || v.Op != "iface" || !isString(v.Args[0].Typ) {
						ss = append(ss, piece{v: src})
						continue
					}
					ss = append(ss, flatText(v.Args[0])...)
					if e.Name == "fmt.Fprintln" {
						ss = append(ss, piece{c: "\n"})
					}
				case e.Kind == "call" && len(e.Args) == 2 && stripIface(e.Args[0]) == src && e.Name == "io.WriteString":
					ss = append(ss, flatText(e.Args[1])...)
				case e.Kind == "call" && len(e.Args) > 0 && stripIface(e.Args[0]) == src:
					ss = append(ss, piece{v: src}) // something else is done to it
				case len(e.Res) == 1 && e.Res[0] == src && (e.Name == "strings.NewReader" || e.Name == "bytes.NewBufferString"):
					ss = append(ss, flatText(e.Args[0])...)
				}
			}
			rest := ""
			known := len(ss) > 0 && ss[0].v == p
			for i, q := range ss {
				if i > 0 {
					known = known && q.v == nil
					rest += q.c
				}
			}
			ok = known && (rest == "" || rest == "\n" || rest == "\nexit\n" || rest == "\nexit")
		}
	}
	c.Ob(ok, "shell-text", name, mk.Pos, "what the shell is given is not exactly the command text")
	if succeeds(x) {
		c.Ob(noErr(x.Facts, ran), "shell-failure", name, x.Pos, "the run's failure is not reported")
		out := field("Stdout")
		c.Ob(out != nil && x.Res[0] == out && field("Stderr") != out, "shell-output", name, x.Pos, "what is returned is not the command's output: %v", x.Res[0])
		return
	}
	c.Ob(failedErr(x.Facts, ran), "shell-failure", name, x.Pos, "an error is reported although the run succeeded")
}
