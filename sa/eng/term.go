// Package eng is a disjunctive abstract interpreter over go/ssa.
//
// Abstract values are hash-consed canonical terms; integers are polynomials
// over atoms (ideal integers), memory is a log of strong updates over access
// paths, guards are kept as facts and decided by Fourier-Motzkin elimination.
package eng

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T is a canonical term. Terms are interned: pointer equality is equality.
type T struct {
	ID   int
	Op   string
	Args []*T
	Aux  string
	Typ  types.Type
	P    *Poly
	Fn   *ssa.Function
	Seq  int // creation number for fresh atoms (phi, hv, res, alloc); 0 otherwise
}

// Poly is a polynomial over atoms with integer coefficients.
type Poly struct {
	M []Mono // sorted by key, no zero coefficients; the constant has no vars
}

// Mono is one monomial.
type Mono struct {
	Vars []*T // sorted by ID
	C    *big.Int
}

func (m Mono) key() string {
	if len(m.Vars) == 0 {
		return ""
	}
	var b strings.Builder
	for _, v := range m.Vars {
		b.WriteString(strconv.Itoa(v.ID))
		b.WriteByte(',')
	}
	return b.String()
}

var (
	intern = map[string]*T{}
	byID   []*T
)

func mk(op, aux string, typ types.Type, args ...*T) *T {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t, ok := intern[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	t := &T{ID: len(byID), Op: op, Aux: aux, Args: args, Typ: typ}
	byID = append(byID, t)
	intern[k] = t
	return t
}

// Mk builds an opaque (non-polynomial) term.
func Mk(op, aux string, typ types.Type, args ...*T) *T { return mk(op, aux, typ, args...) }

func polyKey(p *Poly) string {
	var b strings.Builder
	b.WriteString("poly|")
	for _, m := range p.M {
		b.WriteString(m.C.String())
		b.WriteByte('*')
		b.WriteString(m.key())
		b.WriteByte('+')
	}
	return b.String()
}

func fromPoly(p *Poly) *T {
	if len(p.M) == 1 && len(p.M[0].Vars) == 1 && p.M[0].C.IsInt64() && p.M[0].C.Int64() == 1 {
		return p.M[0].Vars[0]
	}
	k := polyKey(p)
	if t, ok := intern[k]; ok {
		return t
	}
	t := &T{ID: len(byID), Op: "poly", P: p}
	byID = append(byID, t)
	intern[k] = t
	return t
}

func toPoly(t *T) *Poly {
	if t.Op == "poly" {
		return t.P
	}
	return &Poly{M: []Mono{{Vars: []*T{t}, C: big.NewInt(1)}}}
}

func normPoly(ms []Mono) *Poly {
	acc := map[string]*Mono{}
	keys := []string{}
	for _, m := range ms {
		k := m.key()
		if e, ok := acc[k]; ok {
			e.C = new(big.Int).Add(e.C, m.C)
		} else {
			mm := Mono{Vars: m.Vars, C: new(big.Int).Set(m.C)}
			acc[k] = &mm
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	p := &Poly{}
	for _, k := range keys {
		if acc[k].C.Sign() != 0 {
			p.M = append(p.M, *acc[k])
		}
	}
	return p
}

func polyAdd(a, b *Poly, s int64) *Poly {
	ms := append([]Mono{}, a.M...)
	for _, m := range b.M {
		ms = append(ms, Mono{Vars: m.Vars, C: new(big.Int).Mul(m.C, big.NewInt(s))})
	}
	return normPoly(ms)
}

func polyMul(a, b *Poly) *Poly {
	var ms []Mono
	for _, x := range a.M {
		for _, y := range b.M {
			vs := append(append([]*T{}, x.Vars...), y.Vars...)
			sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
			ms = append(ms, Mono{Vars: vs, C: new(big.Int).Mul(x.C, y.C)})
		}
	}
	return normPoly(ms)
}

// Int is an integer constant.
func Int(n int64) *T { return IntBig(big.NewInt(n)) }

// IntBig is an integer constant.
func IntBig(n *big.Int) *T {
	if n.Sign() == 0 {
		return fromPoly(&Poly{})
	}
	return fromPoly(&Poly{M: []Mono{{C: new(big.Int).Set(n)}}})
}

// Add is a+b.
func Add(a, b *T) *T { return fromPoly(polyAdd(toPoly(a), toPoly(b), 1)) }

// Sub is a-b.
func Sub(a, b *T) *T { return fromPoly(polyAdd(toPoly(a), toPoly(b), -1)) }

// Mul is a*b.
func Mul(a, b *T) *T { return fromPoly(polyMul(toPoly(a), toPoly(b))) }

// Neg is -a.
func Neg(a *T) *T { return Sub(Int(0), a) }

// ConstOf returns the integer constant a term denotes.
func ConstOf(t *T) (*big.Int, bool) {
	if t.Op != "poly" {
		return nil, false
	}
	if len(t.P.M) == 0 {
		return big.NewInt(0), true
	}
	if len(t.P.M) == 1 && len(t.P.M[0].Vars) == 0 {
		return t.P.M[0].C, true
	}
	return nil, false
}

// IsConst reports whether t is the integer n.
func IsConst(t *T, n int64) bool {
	c, ok := ConstOf(t)
	return ok && c.IsInt64() && c.Int64() == n
}

// exactDiv divides polynomial a by b if the division is exact.
func exactDiv(a, b *Poly) (*Poly, bool) {
	if len(b.M) == 0 {
		return nil, false
	}
	if len(b.M) == 1 {
		bm := b.M[0]
		var out []Mono
		for _, m := range a.M {
			q, r := new(big.Int).QuoRem(m.C, bm.C, new(big.Int))
			if r.Sign() != 0 {
				return nil, false
			}
			vs := append([]*T{}, m.Vars...)
			for _, v := range bm.Vars {
				found := false
				for i, x := range vs {
					if x == v {
						vs = append(vs[:i], vs[i+1:]...)
						found = true
						break
					}
				}
				if !found {
					return nil, false
				}
			}
			out = append(out, Mono{Vars: vs, C: q})
		}
		return normPoly(out), true
	}
	// only a == k*b
	if len(a.M) == 0 {
		return &Poly{}, true
	}
	if len(a.M) != len(b.M) {
		return nil, false
	}
	q, r := new(big.Int).QuoRem(a.M[0].C, b.M[0].C, new(big.Int))
	if r.Sign() != 0 {
		return nil, false
	}
	kb := polyMul(b, &Poly{M: []Mono{{C: q}}})
	if polyKey(kb) == polyKey(a) {
		return &Poly{M: []Mono{{C: q}}}, true
	}
	return nil, false
}

// Quo is truncated division.
func Quo(a, b *T) *T {
	if ca, ok := ConstOf(a); ok {
		if cb, ok := ConstOf(b); ok && cb.Sign() != 0 {
			return IntBig(new(big.Int).Quo(ca, cb))
		}
	}
	if p, ok := exactDiv(toPoly(a), toPoly(b)); ok {
		return fromPoly(p)
	}
	// quo(quo(x,c),d) = quo(x,c*d) for positive constants
	if a.Op == "quo" {
		if c1, ok := ConstOf(a.Args[1]); ok && c1.Sign() > 0 {
			if c2, ok := ConstOf(b); ok && c2.Sign() > 0 {
				return Quo(a.Args[0], IntBig(new(big.Int).Mul(c1, c2)))
			}
		}
	}
	return mk("quo", "", a.Typ, a, b)
}

// Rem is a - b*Quo(a,b).
func Rem(a, b *T) *T { return Sub(a, Mul(b, Quo(a, b))) }

// ---- booleans

// True and False are the boolean constants.
var (
	True  = mk("const", "true", nil)
	False = mk("const", "false", nil)
	Nil   = mk("nil", "", nil)
)

// Bool is a boolean constant.
func Bool(b bool) *T {
	if b {
		return True
	}
	return False
}

// Not negates.
func Not(t *T) *T {
	switch {
	case t == True:
		return False
	case t == False:
		return True
	case t.Op == "not":
		return t.Args[0]
	case t.Op == "ge0":
		return Ge0(Sub(Neg(t.Args[0]), Int(1)))
	}
	return mk("not", "", nil, t)
}

// Ge0 is p >= 0 (with integer tightening by the content of p).
func Ge0(p *T) *T {
	if c, ok := ConstOf(p); ok {
		return Bool(c.Sign() >= 0)
	}
	pp := toPoly(p)
	g := new(big.Int)
	var c0 *big.Int = big.NewInt(0)
	for _, m := range pp.M {
		if len(m.Vars) == 0 {
			c0 = m.C
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(m.C))
	}
	if g.Cmp(big.NewInt(1)) > 0 {
		var ms []Mono
		for _, m := range pp.M {
			if len(m.Vars) > 0 {
				ms = append(ms, Mono{Vars: m.Vars, C: new(big.Int).Quo(m.C, g)})
			}
		}
		fl := new(big.Int)
		mod := new(big.Int)
		fl.DivMod(c0, g, mod) // Euclidean: floor for g>0
		ms = append(ms, Mono{C: fl})
		p = fromPoly(normPoly(ms))
	}
	return mk("ge0", "", nil, p)
}

// Lt is a<b over integers.
func Lt(a, b *T) *T { return Ge0(Sub(Sub(b, a), Int(1))) }

// Le is a<=b over integers.
func Le(a, b *T) *T { return Ge0(Sub(b, a)) }

// EqInt is a==b over integers.
func EqInt(a, b *T) *T {
	d := Sub(a, b)
	if c, ok := ConstOf(d); ok {
		return Bool(c.Sign() == 0)
	}
	// sign-normalise
	pp := toPoly(d)
	if pp.M[len(pp.M)-1].C.Sign() < 0 {
		d = Neg(d)
	}
	return mk("eq0", "", nil, d)
}

// Eq is equality of non-integer terms.
func Eq(a, b *T) *T {
	if a == b {
		return True
	}
	if distinct(a, b) {
		return False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("eq", "", nil, a, b)
}

func isConstOp(t *T) bool { return t.Op == "const" || t.Op == "nil" }

// nonNil reports that a term is certainly not nil.
func nonNil(t *T) bool {
	switch t.Op {
	case "alloc", "field", "elem", "closure", "func", "err", "struct", "global", "list", "iface", "regexp":
		return true
	case "const":
		return true
	case "poly":
		return true
	case "res": // constructors of the standard hashes never return nil
		for _, h := range hashCtors {
			if strings.HasPrefix(t.Aux, h) {
				return true
			}
		}
	}
	return false
}

var hashCtors = []string{"crypto/md5.New.", "crypto/sha1.New.", "crypto/sha256.New.", "hash/fnv.New", "hash/crc32.NewIEEE.", "crypto/hmac.New."}

func distinct(a, b *T) bool {
	if isConstOp(a) && isConstOp(b) && a != b {
		if a.Op == "const" && b.Op == "const" {
			return true
		}
		return true
	}
	if a == Nil && nonNil(b) || b == Nil && nonNil(a) {
		return true
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return a.Aux != b.Aux || len(a.Args) == 0
	}
	if a.Op == "iface" && b.Op == "iface" && a.Aux != b.Aux {
		return true
	}
	if a.Op == "poly" && b.Op == "poly" {
		_, o1 := ConstOf(a)
		_, o2 := ConstOf(b)
		return o1 && o2
	}
	return false
}

// IsIntType reports whether values of t are modelled as ideal integers.
func IsIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	if IsTime(t) {
		return true
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		return typeParamAll(tp, types.IsInteger)
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func typeParamAll(tp *types.TypeParam, info types.BasicInfo) bool {
	iface, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	terms := 0
	ok = true
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch u := types.Unalias(t).(type) {
		case *types.Union:
			for i := 0; i < u.Len(); i++ {
				walk(u.Term(i).Type())
			}
		case *types.Named:
			if it, k := u.Underlying().(*types.Interface); k {
				walk(it)
			} else {
				walk(u.Underlying())
			}
		case *types.Interface:
			for i := 0; i < u.NumEmbeddeds(); i++ {
				walk(u.EmbeddedType(i))
			}
		case *types.Basic:
			terms++
			if u.Info()&info == 0 {
				ok = false
			}
		default:
			ok = false
		}
	}
	walk(iface)
	return ok && terms > 0
}

// IsUnsigned reports unsigned integer types (or type parameters of only such).
func IsUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		return typeParamAll(tp, types.IsUnsigned)
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// IsTime reports time.Time.
func IsTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// String renders a term.
func (t *T) String() string { return render(t, 0) }

func render(t *T, d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 14 {
		return "…"
	}
	r := func(x *T) string { return render(x, d+1) }
	switch t.Op {
	case "poly":
		if len(t.P.M) == 0 {
			return "0"
		}
		var parts []string
		for _, m := range t.P.M {
			var vs []string
			for _, v := range m.Vars {
				vs = append(vs, r(v))
			}
			s := strings.Join(vs, "*")
			switch {
			case len(vs) == 0:
				s = m.C.String()
			case m.C.Cmp(big.NewInt(1)) == 0:
			case m.C.Cmp(big.NewInt(-1)) == 0:
				s = "-" + s
			default:
				s = m.C.String() + "*" + s
			}
			parts = append(parts, s)
		}
		return "(" + strings.ReplaceAll(strings.Join(parts, "+"), "+-", "-") + ")"
	case "const":
		return t.Aux
	case "nil":
		return "nil"
	case "param":
		return strings.SplitN(t.Aux, "#", 2)[0]
	case "phi", "res", "fresh", "alloc", "global", "now":
		a := t.Aux
		if i := strings.LastIndex(a, "/"); i >= 0 {
			a = a[i+1:]
		}
		return a
	case "init":
		return r(t.Args[0]) + "°"
	case "hv":
		return r(t.Args[0]) + "'" + t.Aux
	case "field":
		f := t.Aux
		if i := strings.LastIndex(f, "."); i >= 0 {
			f = f[i+1:]
		}
		return r(t.Args[0]) + "." + f
	case "elem":
		return r(t.Args[0]) + "[" + r(t.Args[1]) + "]"
	case "cell":
		return r(t.Args[0]) + "{" + r(t.Args[1]) + "}"
	case "quo":
		return r(t.Args[0]) + "/" + r(t.Args[1])
	case "ge0":
		return r(t.Args[0]) + ">=0"
	case "eq0":
		return r(t.Args[0]) + "==0"
	case "eq":
		return r(t.Args[0]) + "==" + r(t.Args[1])
	case "not":
		return "!(" + r(t.Args[0]) + ")"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, r(a))
	}
	s := t.Op
	if t.Aux != "" {
		s += ":" + t.Aux
	}
	if len(as) > 0 {
		s += "(" + strings.Join(as, ", ") + ")"
	}
	return s
}

// Subst replaces atoms.
func Subst(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	var f func(*T) *T
	f = func(t *T) *T {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *T
		switch {
		case t.Op == "poly":
			acc := Int(0)
			for _, mo := range t.P.M {
				x := IntBig(mo.C)
				for _, v := range mo.Vars {
					x = Mul(x, f(v))
				}
				acc = Add(acc, x)
			}
			r = acc
		case len(t.Args) == 0:
			r = t
		default:
			args := make([]*T, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = f(a)
				ch = ch || args[i] != a
			}
			if !ch {
				r = t
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *T, a []*T) *T {
	switch t.Op {
	case "quo":
		return Quo(a[0], a[1])
	case "ge0":
		return Ge0(a[0])
	case "eq0":
		return EqInt(a[0], Int(0))
	case "eq":
		if a[0].Op == "poly" || a[1].Op == "poly" {
			return EqInt(a[0], a[1])
		}
		return Eq(a[0], a[1])
	case "not":
		return Not(a[0])
	case "len":
		return LenOf(a[0])
	case "base":
		return BaseOf(a[0])
	}
	r := mk(t.Op, t.Aux, t.Typ, a...)
	r.Fn = t.Fn
	if r.Seq == 0 {
		r.Seq = t.Seq
	}
	return r
}

// Contains reports whether t has sub-term satisfying f.
func Contains(t *T, f func(*T) bool) bool {
	seen := map[*T]bool{}
	var w func(*T) bool
	w = func(t *T) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		if t.Op == "poly" {
			for _, m := range t.P.M {
				for _, v := range m.Vars {
					if w(v) {
						return true
					}
				}
			}
			return false
		}
		for _, a := range t.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// HasTerm reports whether sub occurs in t.
func HasTerm(t, sub *T) bool { return Contains(t, func(x *T) bool { return x == sub }) }

// Atoms lists the integer atoms of a polynomial.
func Atoms(t *T) []*T {
	if t.Op != "poly" {
		return []*T{t}
	}
	seen := map[*T]bool{}
	var out []*T
	for _, m := range t.P.M {
		for _, v := range m.Vars {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	return out
}

// Str is a string constant.
func Str(s string) *T { return mk("const", strconv.Quote(s), types.Typ[types.String]) }

// StrOf returns the value of a string constant.
func StrOf(t *T) (string, bool) {
	if t.Op != "const" || len(t.Aux) == 0 || t.Aux[0] != '"' {
		return "", false
	}
	s, err := strconv.Unquote(t.Aux)
	return s, err == nil
}

// ---- slices and strings

// SliceT builds a slice value.
func SliceT(base, off, ln, cp *T, typ types.Type) *T {
	// canonicalise the full view of an atomic slice value
	if base.Op == "base" && IsConst(off, 0) {
		s := base.Args[0]
		if ln == mk("len", "", types.Typ[types.Int], s) && cp == mk("cap", "", types.Typ[types.Int], s) {
			return s
		}
	}
	return mk("slice", "", typ, base, off, ln, cp)
}

// BaseOf is the backing array of a slice value.
func BaseOf(s *T) *T {
	if s.Op == "slice" {
		return s.Args[0]
	}
	return mk("base", "", nil, s)
}

// OffOf is the offset of a slice value in its backing array.
func OffOf(s *T) *T {
	if s.Op == "slice" {
		return s.Args[1]
	}
	return Int(0)
}

// LenOf is the length of a slice, string, map or channel value.
func LenOf(s *T) *T {
	switch s.Op {
	case "slice":
		return s.Args[2]
	case "nil":
		return Int(0)
	case "list":
		return Int(int64(len(s.Args)))
	case "const":
		if v, ok := StrOf(s); ok {
			return Int(int64(len(v)))
		}
	case "concat":
		r := Int(0)
		for _, a := range s.Args {
			r = Add(r, LenOf(a))
		}
		return r
	case "runes2str":
		// not the rune count
	}
	return mk("len", "", types.Typ[types.Int], s)
}

// CapOf is the capacity of a slice value.
func CapOf(s *T) *T {
	if s.Op == "slice" {
		return s.Args[3]
	}
	if s == Nil {
		return Int(0)
	}
	return mk("cap", "", types.Typ[types.Int], s)
}

func constString(i int) string { return fmt.Sprint(i) }

// StrConst is the value of a constant string term.
func StrConst(t *T) (string, bool) {
	if t == nil || t.Op != "const" || t.Typ == nil {
		return "", false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsString == 0 {
		return "", false
	}
	s, err := strconv.Unquote(t.Aux)
	return s, err == nil
}
