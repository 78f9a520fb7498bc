package eng

import (
	"fmt"
	"go/types"
	"strings"
)

// Models of library functions: their results as terms and their effects as events.

type model = func(in *Interp, st *State, c *Call) []Outcome

var (
	tInt    = types.Typ[types.Int]
	tInt64  = types.Typ[types.Int64]
	tString = types.Typ[types.String]
	tBool   = types.Typ[types.Bool]
)

func one(st *State, res ...*T) []Outcome { return []Outcome{{St: st, Res: res}} }

var models = map[string]model{}

// NonNilErr is a fresh non-nil error.
func (in *Interp) NonNilErr(st *State, why string) *T {
	st.Clock++
	return mk("err", fmt.Sprintf("%s#%d", why, st.Clock), types.Universe.Lookup("error").Type(), st.Iotas...)
}

func lockModel(kind string) model {
	return func(in *Interp, st *State, c *Call) []Outcome {
		in.event(st, &Event{Kind: kind, Name: c.Name, Instr: c.Instr, Args: c.Args[:1]})
		if (kind == "lock" || kind == "rlock") && in.Cfg.OnLock != nil {
			in.Cfg.OnLock(in, st, c.Args[0])
		}
		return one(st)
	}
}

func atomicElem(c *Call) types.Type {
	if len(c.Common.Args) > 0 {
		if p, ok := c.Common.Args[0].Type().Underlying().(*types.Pointer); ok {
			if b, ok := p.Elem().Underlying().(*types.Basic); ok {
				return b
			}
		}
	}
	rs := c.Results()
	if len(rs) == 1 && rs[0] != tBool {
		return rs[0]
	}
	if len(c.Common.Args) > 1 {
		return c.Common.Args[1].Type()
	}
	return tInt64
}

func (in *Interp) atomicRead(st *State, c *Call, k func(st *State, old *T) []Outcome) []Outcome {
	et := atomicElem(c)
	if in.Cfg.OnAtomic != nil {
		in.Cfg.OnAtomic(in, st, c.Args[0], et)
	}
	in.nilOb(st, c.Instr, c.Args[0])
	var outs []Outcome
	for _, r := range in.Load(st, c.Args[0], et) {
		outs = append(outs, k(r.st, r.val)...)
	}
	return outs
}

func aload(in *Interp, st *State, c *Call) []Outcome {
	return in.atomicRead(st, c, func(s *State, old *T) []Outcome {
		in.event(s, &Event{Kind: "aload", Name: c.Name, Instr: c.Instr, Args: c.Args[:1], Res: []*T{old}})
		return one(s, old)
	})
}

func astore(in *Interp, st *State, c *Call) []Outcome {
	in.nilOb(st, c.Instr, c.Args[0])
	in.event(st, &Event{Kind: "astore", Name: c.Name, Instr: c.Instr, Args: c.Args[:1], Val: c.Args[1]})
	st.Store(c.Args[0], c.Args[1], atomicElem(c))
	return one(st)
}

func aswap(in *Interp, st *State, c *Call) []Outcome {
	return in.atomicRead(st, c, func(s *State, old *T) []Outcome {
		in.event(s, &Event{Kind: "aswap", Name: c.Name, Instr: c.Instr, Args: c.Args[:1], Val: c.Args[1], Res: []*T{old}})
		s.Store(c.Args[0], c.Args[1], atomicElem(c))
		return one(s, old)
	})
}

func aadd(in *Interp, st *State, c *Call) []Outcome {
	return in.atomicRead(st, c, func(s *State, old *T) []Outcome {
		nv := Add(old, c.Args[1])
		in.event(s, &Event{Kind: "aadd", Name: c.Name, Instr: c.Instr, Args: c.Args[:1], Val: nv, Res: []*T{old}})
		s.Store(c.Args[0], nv, atomicElem(c))
		return one(s, nv)
	})
}

func acas(in *Interp, st *State, c *Call) []Outcome {
	return in.atomicRead(st, c, func(s *State, old *T) []Outcome {
		var outs []Outcome
		e := in.eqTerm(old, c.Args[1])
		if t := s.fork().assume(in, e); t != nil {
			in.event(t, &Event{Kind: "acas", Name: "ok", Instr: c.Instr, Args: c.Args, Val: c.Args[2], Res: []*T{old}})
			t.Store(c.Args[0], c.Args[2], atomicElem(c))
			outs = append(outs, Outcome{St: t, Res: []*T{True}})
		}
		if t := s.fork().assume(in, Not(e)); t != nil {
			in.event(t, &Event{Kind: "acas", Name: "fail", Instr: c.Instr, Args: c.Args, Res: []*T{old}})
			outs = append(outs, Outcome{St: t, Res: []*T{False}})
		}
		return outs
	})
}

// lastNow finds the latest clock reading on the path.
func lastNow(st *State) *T {
	for n := st.Ev; n != nil; n = n.Next {
		if n.E.Kind == "now" {
			return n.E.Res[0]
		}
	}
	return nil
}

// NowTerm reads the clock: a fresh instant, not before the previous reading of this path.
func (in *Interp) NowTerm(st *State, c *Call) *T {
	prev := lastNow(st)
	t := in.Fresh(st, "now", "now", c.Results()[0])
	if prev != nil && len(prev.Args) == len(t.Args) {
		st.Facts = st.Facts.With(Le(prev, t))
	}
	in.event(st, &Event{Kind: "now", Name: c.Name, Instr: c.Instr, Res: []*T{t}})
	return t
}

func pure1(f func(a []*T) *T) model {
	return func(in *Interp, st *State, c *Call) []Outcome { return one(st, f(c.Args)) }
}

var billion = Int(1000000000)

func init() {
	for _, m := range []string{"Mutex", "RWMutex"} {
		models["(*sync."+m+").Lock"] = lockModel("lock")
		models["(*sync."+m+").Unlock"] = lockModel("unlock")
		models["(*sync."+m+").RLock"] = lockModel("rlock")
		models["(*sync."+m+").RUnlock"] = lockModel("runlock")
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		models["sync/atomic.Load"+t] = aload
		models["sync/atomic.Store"+t] = astore
		models["sync/atomic.Swap"+t] = aswap
		models["sync/atomic.Add"+t] = aadd
		models["sync/atomic.CompareAndSwap"+t] = acas
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer[T]", "Bool"} {
		p := "(*sync/atomic." + t + ")."
		models[p+"Load"] = aload
		models[p+"Store"] = astore
		models[p+"Swap"] = aswap
		models[p+"Add"] = aadd
		models[p+"CompareAndSwap"] = acas
	}

	// time: instants and durations are integers in nanoseconds
	models["time.Now"] = func(in *Interp, st *State, c *Call) []Outcome { return one(st, in.NowTerm(st, c)) }
	models["time.Since"] = func(in *Interp, st *State, c *Call) []Outcome {
		return one(st, Sub(in.NowTerm(st, fakeNow(c)), c.Args[0]))
	}
	models["time.Until"] = func(in *Interp, st *State, c *Call) []Outcome {
		return one(st, Sub(c.Args[0], in.NowTerm(st, fakeNow(c))))
	}
	TM := func(name string, f func(a []*T) *T) { models["(time.Time)."+name] = pure1(f) }
	TM("Sub", func(a []*T) *T { return Sub(a[0], a[1]) })
	TM("Add", func(a []*T) *T { return Add(a[0], a[1]) })
	TM("After", func(a []*T) *T { return Lt(a[1], a[0]) })
	TM("Before", func(a []*T) *T { return Lt(a[0], a[1]) })
	TM("Equal", func(a []*T) *T { return EqInt(a[0], a[1]) })
	TM("IsZero", func(a []*T) *T { return EqInt(a[0], TimeZero) })
	TM("UnixNano", func(a []*T) *T { return a[0] })
	TM("UnixMicro", func(a []*T) *T { return FDiv(a[0], Int(1000)) })
	TM("UnixMilli", func(a []*T) *T { return FDiv(a[0], Int(1000000)) })
	TM("Unix", func(a []*T) *T { return FDiv(a[0], billion) })
	for _, n := range []string{"UTC", "Local", "In", "Round0"} {
		TM(n, func(a []*T) *T { return a[0] })
	}
	models["time.UnixMilli"] = pure1(func(a []*T) *T { return Mul(a[0], Int(1000000)) })
	models["time.UnixMicro"] = pure1(func(a []*T) *T { return Mul(a[0], Int(1000)) })
	models["time.Unix"] = pure1(func(a []*T) *T { return Add(Mul(a[0], billion), a[1]) })
	D := func(name string, f func(a []*T) *T) { models["(time.Duration)."+name] = pure1(f) }
	D("Nanoseconds", func(a []*T) *T { return a[0] })
	D("Microseconds", func(a []*T) *T { return Quo(a[0], Int(1000)) })
	D("Milliseconds", func(a []*T) *T { return Quo(a[0], Int(1000000)) })

	models["errors.New"] = func(in *Interp, st *State, c *Call) []Outcome { return one(st, in.NonNilErr(st, "errors.New")) }
	models["fmt.Errorf"] = func(in *Interp, st *State, c *Call) []Outcome {
		t := in.NonNilErr(st, "fmt.Errorf")
		in.event(st, &Event{Kind: "errorf", Name: c.Name, Instr: c.Instr, Args: append([]*T{c.Args[0]}, in.variadic(st, c.Args[1])...), Res: []*T{t}})
		return one(st, t)
	}
	for _, n := range []string{"Contains", "HasPrefix", "HasSuffix"} {
		op := "strings." + n
		models[op] = func(in *Interp, st *State, c *Call) []Outcome { return one(st, strPred(op, c.Args[0], c.Args[1])) }
	}
	models["strings.Repeat"] = func(in *Interp, st *State, c *Call) []Outcome {
		in.oblige(st, c.Instr, "repeat", Ge0(c.Args[1]))
		r := mk("call", c.Name, tString, c.Args...)
		st.Facts = st.Facts.With(EqInt(LenOf(r), Mul(LenOf(c.Args[0]), c.Args[1])))
		return one(st, r)
	}
	for _, n := range []string{"Index", "LastIndex", "IndexByte", "LastIndexByte", "IndexRune", "IndexAny"} {
		models["strings."+n] = func(in *Interp, st *State, c *Call) []Outcome {
			r := mk("call", c.Name, tInt, c.Args...)
			st.Facts = st.Facts.With(Ge0(Add(r, Int(1))))
			if c.Args[1].Typ != nil && isStr(c.Args[1].Typ) || c.Args[1].Op == "const" {
				if n := LenOf(c.Args[1]); !IsIntTermConst(n) {
					st.Facts = st.Facts.With(Le(r, LenOf(c.Args[0])))
				} else {
					// r + len(sep) <= len(s) when found; never beyond the end in any case
					k, _ := ConstOf(n)
					if k.Sign() > 0 {
						// r <= len(s)-len(sep), or r = -1
						st.Facts = st.Facts.With(Or(Lt(r, Int(0)), Le(Add(r, n), LenOf(c.Args[0]))))
						st.Facts = st.Facts.With(Lt(r, Add(LenOf(c.Args[0]), Int(1))))
						st.Facts = st.Facts.With(Le(Add(r, Int(1)), LenOf(c.Args[0])))
					}
				}
			} else {
				st.Facts = st.Facts.With(Le(Add(r, Int(1)), LenOf(c.Args[0])))
			}
			return one(st, r)
		}
	}
	models["unicode/utf8.RuneCountInString"] = pure1(func(a []*T) *T { return LenOf(RunesOf(a[0])) })
	models["math/bits.Len64"] = pure1(func(a []*T) *T { return mk("bits.Len", "", tInt, a[0]) })
	models["math/bits.Len"] = models["math/bits.Len64"]
	models["math/bits.LeadingZeros64"] = pure1(func(a []*T) *T { return Sub(Int(64), mk("bits.Len", "", tInt, a[0])) })
	models["math/bits.LeadingZeros"] = models["math/bits.LeadingZeros64"]
	models["math/bits.Len32"] = models["math/bits.Len64"]

	// growing string builders: one string-valued location
	for _, b := range []string{"strings.Builder", "bytes.Buffer"} {
		b := b
		w := func(val func(in *Interp, st *State, c *Call) *T, rs func(st *State, c *Call, v *T) []*T) model {
			return func(in *Interp, st *State, c *Call) []Outcome {
				ad := bufAddr(c.Args[0], b)
				v := val(in, st, c)
				if v == nil {
					return nil
				}
				in.nilOb(st, c.Instr, c.Args[0])
				var outs []Outcome
				for _, r := range in.Load(st, ad, tString) {
					in.event(r.st, &Event{Kind: "bufwrite", Name: c.Name, Instr: c.Instr, Args: c.Args, Val: v})
					r.st.Store(ad, Concat(r.val, v), tString)
					outs = append(outs, Outcome{St: r.st, Res: rs(r.st, c, v)})
				}
				return outs
			}
		}
		two := func(st *State, c *Call, v *T) []*T { return []*T{LenOf(v), Nil} }
		models["(*"+b+").WriteString"] = w(func(in *Interp, st *State, c *Call) *T { return c.Args[1] }, two)
		models["(*"+b+").WriteByte"] = w(func(in *Interp, st *State, c *Call) *T {
			if k, ok := ConstOf(c.Args[1]); ok && k.IsInt64() && k.Int64() >= 0 && k.Int64() < 0x80 {
				return Str(string(rune(k.Int64())))
			}
			return mk("byte", "", tString, c.Args[1])
		}, func(st *State, c *Call, v *T) []*T { return []*T{Nil} })
		models["(*"+b+").WriteRune"] = w(func(in *Interp, st *State, c *Call) *T { return mk("rune2str", "", tString, c.Args[1]) }, two)
		models["(*"+b+").Write"] = w(func(in *Interp, st *State, c *Call) *T {
			x := c.Args[1]
			if x.Op == "bytes" && in.pristine(st, x) {
				return x.Args[0]
			}
			return in.Fresh(st, "res", "bytes", tString)
		}, two)
		models["(*"+b+").String"] = func(in *Interp, st *State, c *Call) []Outcome {
			var outs []Outcome
			for _, r := range in.Load(st, bufAddr(c.Args[0], b), tString) {
				outs = append(outs, Outcome{St: r.st, Res: []*T{r.val}})
			}
			return outs
		}
		models["(*"+b+").Len"] = func(in *Interp, st *State, c *Call) []Outcome {
			var outs []Outcome
			for _, r := range in.Load(st, bufAddr(c.Args[0], b), tString) {
				outs = append(outs, Outcome{St: r.st, Res: []*T{LenOf(r.val)}})
			}
			return outs
		}
		models["(*"+b+").Reset"] = func(in *Interp, st *State, c *Call) []Outcome {
			st.Store(bufAddr(c.Args[0], b), Str(""), tString)
			return one(st)
		}
		models["(*"+b+").Grow"] = func(in *Interp, st *State, c *Call) []Outcome { return one(st) }
	}

	for _, n := range []string{"(context.Context).Done", "(context.Context).Err"} {
		_ = n
	}
	models["invoke:context.Context.Done"] = func(in *Interp, st *State, c *Call) []Outcome {
		in.nilOb(st, c.Instr, c.Args[0])
		return one(st, mk("call", "ctx.Done", c.Results()[0], c.Args[0]))
	}
}

// IsIntTermConst tells whether a term is an integer constant.
func IsIntTermConst(t *T) bool { _, ok := ConstOf(t); return ok }

func strPred(op string, a, b *T) *T {
	if x, ok := StrOf(a); ok {
		if y, ok := StrOf(b); ok {
			switch op {
			case "strings.Contains":
				return Bool(strings.Contains(x, y))
			case "strings.HasPrefix":
				return Bool(strings.HasPrefix(x, y))
			case "strings.HasSuffix":
				return Bool(strings.HasSuffix(x, y))
			}
		}
	}
	if y, ok := StrOf(b); ok && y == "" {
		return True
	}
	if y, ok := StrOf(b); ok && op == "strings.HasPrefix" && len(y) <= 4 {
		// strings.HasPrefix(s, p): the bytes of p come first
		cs := []*T{Ge0(Sub(LenOf(a), Int(int64(len(y)))))}
		for i := 0; i < len(y); i++ {
			cs = append(cs, EqInt(StrAt(a, Int(int64(i))), Int(int64(y[i]))))
		}
		return conj(cs)
	}
	if op == "strings.Contains" { // found at some index
		return Ge0(mk("call", "strings.Index", tInt, a, b))
	}
	return mk(op, "", tBool, a, b)
}

func bufAddr(p *T, b string) *T {
	return mk("field", b+".buf", types.NewPointer(tString), p)
}

func fakeNow(c *Call) *Call {
	d := *c
	return &d
}

// variadic lists the elements of a variadic slice of known length.
func (in *Interp) variadic(st *State, s *T) []*T {
	if s == Nil {
		return nil
	}
	n, ok := ConstOf(LenOf(s))
	if !ok || !n.IsInt64() || n.Int64() > 32 {
		return []*T{mk("spread", "", nil, s)}
	}
	var et types.Type
	if s.Typ != nil {
		if sl, ok := s.Typ.Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
	}
	var out []*T
	for i := int64(0); i < n.Int64(); i++ {
		rs := in.Load(st, mk("elem", "", ptrTo(et), BaseOf(s), Add(OffOf(s), Int(i))), et)
		if len(rs) != 1 {
			return []*T{mk("spread", "", nil, s)}
		}
		out = append(out, rs[0].val)
	}
	return out
}

// Variadic is variadic for checks.
func (in *Interp) Variadic(st *State, s *T) []*T { return in.variadic(st, s) }

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "path/filepath": true, "path": true, "math": true, "unicode": true,
	"unicode/utf8": true, "encoding/hex": true, "net/url": true, "math/bits": true, "html": true, "fmt": true,
	"net/http": true,
}

var pureNames = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "net/http.DetectContentType": true,
	"os.IsNotExist": true, "os.IsExist": true, "errors.Is": true, "(io/fs.FileMode).IsDir": true,
	"crypto/md5.Sum": true, "(time.Duration).String": true, "(time.Duration).Seconds": true,
	"(time.Time).Format": true, "(time.Time).Truncate": true, "(time.Time).String": true, "(time.Duration).Minutes": true,
	"(time.Time).Year": true, "(time.Time).Day": true,
}

var notPure = map[string]bool{"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true, "strings.NewReader": true, "strings.NewReplacer": true, "path/filepath.EvalSymlinks": true}

// readonlyCalls do not write memory through their arguments.
var readonlyCalls = map[string]bool{
	"encoding/hex.EncodeToString": true, "crypto/md5.Sum": true, "encoding/json.Marshal": true,
	"(*encoding/base64.Encoding).EncodeToString": true, "net/http.DetectContentType": true,
	"bytes.NewBuffer": true, "bytes.NewReader": true, "bytes.Equal": true, "bytes.Repeat": true,
	"crypto/aes.NewCipher": true, "crypto/cipher.NewCBCEncrypter": true, "crypto/cipher.NewCBCDecrypter": true,
	"(*os.File).Write": true, "invoke:hash.Hash.Write": true, "invoke:io.Writer.Write": true, "io.WriteString": true,
	"fmt.Println": true, "fmt.Printf": true, "fmt.Sprintf": true, "fmt.Sprint": true, "log.Println": true, "log.Printf": true,
	"os.WriteFile": true, "strings.Join": true, "io/ioutil.WriteFile": true, "(*encoding/csv.Writer).Write": true, "(*encoding/csv.Writer).WriteAll": true,
}

// pureModel gives a deterministic library function the term call(name, args).
func (in *Interp) pureModel(st *State, c *Call) []Outcome {
	if c.Static == nil {
		return nil
	}
	p := PkgOf(c.Static)
	if p == nil || notPure[c.Name] {
		return nil
	}
	rs := c.Results()
	if len(rs) == 0 {
		return nil
	}
	if !pureNames[c.Name] {
		if !purePkgs[p.Path()] || p.Path() == "fmt" || p.Path() == "net/http" || c.Static.Signature.Recv() != nil {
			return nil
		}
	}
	var args []*T
	for i, a := range c.Args {
		if i == len(c.Args)-1 && c.Static.Signature.Variadic() {
			args = append(args, in.variadic(st, a)...)
			continue
		}
		if i < len(c.Common.Args) {
			switch c.Common.Args[i].Type().Underlying().(type) {
			case *types.Slice, *types.Pointer, *types.Map, *types.Chan, *types.Signature:
				return nil
			}
		}
		args = append(args, a)
	}
	for _, a := range args {
		if a.Op == "spread" && c.Name != "path/filepath.Join" {
			return nil
		}
	}
	// calls whose arguments are all constant strings and foldable are left symbolic
	var res []*T
	for i, t := range rs {
		name := c.Name
		if len(rs) > 1 {
			name = fmt.Sprintf("%s.%d", c.Name, i)
		}
		r := mk("call", name, t, args...)
		res = append(res, r)
	}
	in.event(st, &Event{Kind: "pure", Name: c.Name, Instr: c.Instr, Args: args, Res: res})
	if c.Name == "strings.Split" {
		if sep, ok := StrOf(args[1]); ok && sep != "" { // more than one part exactly when the separator occurs
			found := Ge0(mk("call", "strings.Index", tInt, args[0], args[1]))
			var out []Outcome
			if y := st.fork().assume(in, found); y != nil {
				if y = y.assume(in, Ge0(Sub(LenOf(res[0]), Int(2)))); y != nil {
					out = append(out, Outcome{St: y, Res: res})
				}
			}
			if n := st.fork().assume(in, Not(found)); n != nil {
				if n = n.assume(in, EqInt(LenOf(res[0]), Int(1))); n != nil {
					out = append(out, Outcome{St: n, Res: res})
				}
			}
			return out
		}
	}
	return one(st, res...)
}
