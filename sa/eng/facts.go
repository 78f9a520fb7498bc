package eng

import (
	"go/types"
	"math/big"
	"sort"
)

// FactNode is a persistent list of boolean terms known to hold.
type FactNode struct {
	F    *T // normalised: never "not(ge0)"; may be not(x) for opaque x, eq0, eq
	Next *FactNode
	memo map[*T]int8
	kids map[*T]*FactNode // fact lists are shared: the same facts in the same order are one node
	inf  int8
}

var factRoot = &FactNode{}

func (f *FactNode) has(t *T) bool {
	for n := f; n != nil; n = n.Next {
		if n.F == t {
			return true
		}
	}
	return false
}

// List returns the facts.
func (f *FactNode) List() []*T {
	var out []*T
	for n := f; n != nil; n = n.Next {
		out = append(out, n.F)
	}
	return out
}

// With adds a fact.
func (f *FactNode) With(t *T) *FactNode {
	if t == True || f.has(t) {
		return f
	}
	switch {
	case t.Op == "andb":
		return f.With(t.Args[0]).With(t.Args[1])
	case t.Op == "not" && t.Args[0].Op == "orb":
		return f.With(Not(t.Args[0].Args[0])).With(Not(t.Args[0].Args[1]))
	}
	par := f
	if par == nil {
		par = factRoot
	}
	if k := par.kids[t]; k != nil {
		return k
	}
	n := &FactNode{F: t, Next: f}
	if par.kids == nil {
		par.kids = map[*T]*FactNode{}
	}
	par.kids[t] = n
	return n
}

// Proves reports whether the facts entail t.
func (f *FactNode) Proves(t *T) bool {
	if t == True {
		return true
	}
	if t == False {
		return f.Infeasible()
	}
	if f != nil {
		if f.memo == nil {
			f.memo = map[*T]int8{}
		}
		if v, ok := f.memo[t]; ok {
			return v == 1
		}
	}
	r := f.proves(t)
	if f != nil {
		if r {
			f.memo[t] = 1
		} else {
			f.memo[t] = 2
		}
	}
	return r
}

func (f *FactNode) proves(t *T) bool {
	if f.has(t) {
		return true
	}
	switch t.Op {
	case "eq0":
		p := t.Args[0]
		return f.Proves(Ge0(p)) && f.Proves(Ge0(Neg(p)))
	case "andb":
		return f.Proves(t.Args[0]) && f.Proves(t.Args[1])
	case "orb":
		if f.Proves(t.Args[0]) || f.Proves(t.Args[1]) {
			return true
		}
	}
	return f.With(Not(t)).Infeasible()
}

// Infeasible reports that the facts are contradictory (sound: true only if so).
func (f *FactNode) Infeasible() bool {
	if f == nil {
		return false
	}
	if f.inf == 0 {
		f.inf = 2
		if f.infeasible() || f.casesInfeasible() {
			f.inf = 1
		}
	}
	return f.inf == 1
}

// casesInfeasible splits on one disjunction none of whose parts is decided yet.
func (f *FactNode) casesInfeasible() bool {
	n := 0
	var a, b *T
	for x := f; x != nil; x = x.Next {
		t := x.F
		var p, q *T
		switch {
		case t.Op == "orb":
			p, q = t.Args[0], t.Args[1]
		case t.Op == "not" && t.Args[0].Op == "andb":
			p, q = Not(t.Args[0].Args[0]), Not(t.Args[0].Args[1])
		default:
			continue
		}
		if f.hasAll(p) || f.hasAll(q) {
			continue
		}
		if n++; n == 1 {
			a, b = p, q
		}
	}
	if n == 0 || n > 4 {
		return false
	}
	return f.With(a).Infeasible() && f.With(b).Infeasible()
}

// hasAll: the fact, or all parts of a conjunction, are listed.
func (f *FactNode) hasAll(t *T) bool {
	switch {
	case t == True:
		return true
	case t.Op == "andb":
		return f.hasAll(t.Args[0]) && f.hasAll(t.Args[1])
	case t.Op == "not" && t.Args[0].Op == "orb":
		return f.hasAll(Not(t.Args[0].Args[0])) && f.hasAll(Not(t.Args[0].Args[1]))
	case t.Op == "orb":
		return f.has(t) || f.hasAll(t.Args[0]) || f.hasAll(t.Args[1])
	case t.Op == "not" && t.Args[0].Op == "andb":
		return f.has(t) || f.hasAll(Not(t.Args[0].Args[0])) || f.hasAll(Not(t.Args[0].Args[1]))
	}
	return f.has(t)
}

func (f *FactNode) infeasible() bool {
	// boolean and equality part
	uf := map[*T]*T{}
	var find func(*T) *T
	find = func(t *T) *T {
		p, ok := uf[t]
		if !ok || p == t {
			return t
		}
		r := find(p)
		uf[t] = r
		return r
	}
	var ints []*T
	var neqs []*T
	lits := map[*T]bool{}
	var order []*T
	for n := f; n != nil; n = n.Next {
		t := n.F
		if t == False {
			return true
		}
		if !lits[t] {
			order = append(order, t)
		}
		lits[t] = true
		switch {
		case t.Op == "ge0" || t.Op == "eq0":
			ints = append(ints, t)
		case t.Op == "not" && t.Args[0].Op == "eq0":
			neqs = append(neqs, t.Args[0].Args[0])
		case t.Op == "eq":
			a, b := find(t.Args[0]), find(t.Args[1])
			if a != b {
				if isConstOp(b) || nonNil(b) && !isConstOp(a) {
					a, b = b, a
				}
				if distinct(a, b) {
					return true
				}
				uf[b] = a
			}
		case t.Op == "andb":
			// expanded on assume
		}
	}
	for _, t := range order {
		if t.Op == "not" {
			if lits[t.Args[0]] {
				return true
			}
			if t.Args[0].Op == "eq" {
				if find(t.Args[0].Args[0]) == find(t.Args[0].Args[1]) {
					return true
				}
			}
		} else if lits[Not(t)] {
			return true
		}
	}
	// congruence: rewrite every fact with representatives until stable
	var rep func(t *T) *T
	if len(uf) > 0 {
		norm1 := func(t *T) *T {
			m := map[*T]*T{}
			Contains(t, func(x *T) bool {
				if r := find(x); r != x {
					m[x] = r
				}
				return false
			})
			if len(m) == 0 {
				return t
			}
			// a representative that contains its own member would not terminate
			return Subst(t, m)
		}
		rep = func(t *T) *T {
			for i := 0; i < 5; i++ {
				n := norm1(t)
				if n == t {
					return t
				}
				t = n
			}
			return t
		}
		for round := 0; round < 4; round++ {
			changed := false
			type pair struct{ x, y *T }
			var work []pair
			for _, t := range order {
				if t.Op == "eq" {
					work = append(work, pair{t.Args[0], t.Args[1]})
				}
			}
			// a term replaced as a whole equals what its parts make it as well
			var keys []*T
			for t := range uf {
				if len(t.Args) > 0 && t.Op != "poly" {
					keys = append(keys, t)
				}
			}
			sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
			for _, t := range keys {
				args := make([]*T, len(t.Args))
				ch := false
				for i, a := range t.Args {
					args[i] = rep(a)
					ch = ch || args[i] != a
				}
				if ch {
					work = append(work, pair{t, rebuild(t, args)})
				}
			}
			for _, w := range work {
				x, y := rep(w.x), rep(w.y)
				if x == y {
					continue
				}
				a, b := find(x), find(y)
				if a == b {
					continue
				}
				if isConstOp(b) || nonNil(b) && !isConstOp(a) {
					a, b = b, a
				}
				if distinct(a, b) {
					return true
				}
				if HasTerm(a, b) {
					if HasTerm(b, a) {
						continue
					}
					a, b = b, a
				}
				uf[b] = a
				changed = true
			}
			if !changed {
				break
			}
		}
		pos := map[*T]bool{}
		neg := map[*T]bool{}
		for _, t := range order {
			if t.Op == "eq" {
				continue
			}
			if t.Op == "not" {
				neg[rep(t.Args[0])] = true
			} else {
				pos[rep(t)] = true
			}
		}
		if pos[False] || neg[True] {
			return true
		}
		for t := range pos {
			if neg[t] {
				return true
			}
		}
		var is, ns []*T
		for t := range pos {
			if t.Op == "ge0" || t.Op == "eq0" {
				is = append(is, t)
			}
		}
		for t := range neg {
			if t.Op == "eq0" {
				ns = append(ns, t.Args[0])
			}
		}
		byID := func(x []*T) { sort.Slice(x, func(i, j int) bool { return x[i].ID < x[j].ID }) }
		byID(is)
		byID(ns)
		ints, neqs = is, ns
	}
	if len(ints) == 0 && len(neqs) == 0 {
		return false
	}
	var cons []*Poly
	for _, t := range ints {
		p := toPoly(t.Args[0])
		cons = append(cons, p)
		if t.Op == "eq0" {
			cons = append(cons, polyAdd(&Poly{}, p, -1))
		}
	}
	if linInfeasible(cons, 2) {
		return true
	}
	if splitNeq(cons, neqs, 3) {
		return true
	}
	// atoms known to be constant, put into the products they occur in
	m := map[*T]*T{}
	for _, t := range ints {
		if v, k := constAtom(t); v != nil {
			m[v] = k
		}
	}
	if len(m) == 0 {
		return false
	}
	changed := false
	cons = cons[:0]
	for _, t := range ints {
		p := t.Args[0]
		if v, _ := constAtom(t); v == nil && inProduct(toPoly(p), m) {
			if n := substPoly(p, m); n != p {
				p, changed = n, true
			}
		}
		cons = append(cons, toPoly(p))
		if t.Op == "eq0" {
			cons = append(cons, polyAdd(&Poly{}, toPoly(p), -1))
		}
	}
	return changed && (linInfeasible(cons, 2) || splitNeq(cons, neqs, 3))
}

// constAtom: the fact says that an atom equals a constant.
func constAtom(t *T) (*T, *T) {
	if t.Op != "eq0" {
		return nil, nil
	}
	p := toPoly(t.Args[0])
	var v *T
	k := new(big.Int)
	for _, m := range p.M {
		switch {
		case len(m.Vars) == 0:
			k = m.C
		case len(m.Vars) == 1 && v == nil && m.C.IsInt64() && (m.C.Int64() == 1 || m.C.Int64() == -1):
			v = m.Vars[0]
		default:
			return nil, nil
		}
	}
	if v == nil {
		return nil, nil
	}
	for _, m := range p.M {
		if len(m.Vars) == 1 && m.C.Sign() > 0 {
			k = new(big.Int).Neg(k)
		}
	}
	return v, IntBig(k)
}

func inProduct(p *Poly, m map[*T]*T) bool {
	for _, x := range p.M {
		if len(x.Vars) < 2 {
			continue
		}
		for _, v := range x.Vars {
			if m[v] != nil {
				return true
			}
		}
	}
	return false
}

// substPoly replaces atoms at the top level of a polynomial.
func substPoly(t *T, m map[*T]*T) *T {
	r := Int(0)
	for _, x := range toPoly(t).M {
		y := IntBig(x.C)
		for _, v := range x.Vars {
			if k := m[v]; k != nil {
				v = k
			}
			y = Mul(y, v)
		}
		r = Add(r, y)
	}
	return r
}

// entailed: the constraints imply p >= 0.
func entailed(cons []*Poly, p *Poly) bool {
	one := &Poly{M: []Mono{{C: big.NewInt(1)}}}
	if len(p.M) == 0 {
		return true
	}
	return fmInfeasible(append(append([]*Poly{}, cons...), polyAdd(polyAdd(&Poly{}, p, -1), one, -1)))
}

func quoAtoms(cons []*Poly) []*T {
	var out []*T
	seen := map[*T]bool{}
	for _, c := range cons {
		for _, m := range c.M {
			for _, v := range m.Vars {
				if v.Op == "quo" && !seen[v] {
					seen[v] = true
					out = append(out, v)
				}
			}
		}
	}
	return out
}

// linInfeasible is fmInfeasible with the division facts that need a sign or a comparison of
// dividends to be known.
func linInfeasible(cons []*Poly, depth int) bool {
	if fmInfeasible(cons) {
		return true
	}
	qs := quoAtoms(cons)
	if len(qs) == 0 || len(qs) > 6 || depth == 0 {
		return false
	}
	ext := append([]*Poly{}, cons...)
	add := func(t *T) { ext = append(ext, toPoly(t)) }
	n := len(ext)
	okq := map[*T]bool{}
	for _, q := range qs {
		a, b := q.Args[0], q.Args[1]
		c, isC := ConstOf(b)
		if isC && c.Sign() <= 0 {
			continue
		}
		if !isC && !entailed(cons, toPoly(Sub(b, Int(1)))) {
			continue
		}
		if !IsNonNeg(a) && !entailed(cons, toPoly(a)) {
			if !isC && entailed(cons, toPoly(Add(a, Int(1)))) && entailed(cons, toPoly(Sub(b, Int(2)))) {
				// -1/b is 0
				add(q)
				add(Sub(Add(a, Int(1)), q))
			}
			continue
		}
		if !isC {
			add(Sub(a, q))
		}
		okq[q] = true
		d := Sub(a, Mul(b, q))
		add(q)
		add(d)
		add(Sub(Sub(b, Int(1)), d))
	}
	if len(ext) > n && fmInfeasible(ext) {
		return true
	}
	// two quotients by one divisor
	for i, q1 := range qs {
		for j, q2 := range qs {
			if i == j || !okq[q1] || !okq[q2] || q1.Args[1] != q2.Args[1] {
				continue
			}
			diff := Sub(q2.Args[0], q1.Args[0])
			if !entailed(ext, toPoly(diff)) {
				continue
			}
			s := q1.Args[1]
			if entailed(ext, toPoly(Sub(s, diff))) {
				// q2 is q1 or q1+1
				bad := true
				for k := int64(0); k < 2; k++ {
					v := Add(q1, Int(k))
					var sub []*Poly
					for _, p := range ext {
						sub = append(sub, toPoly(Subst(fromPoly(p), map[*T]*T{q2: v})))
					}
					// keep the defining inequalities of q2
					d := Sub(q2.Args[0], Mul(s, v))
					sub = append(sub, toPoly(d), toPoly(Sub(Sub(s, Int(1)), d)))
					if !linInfeasible(sub, depth-1) {
						bad = false
						break
					}
				}
				if bad {
					return true
				}
				return false
			}
			add(Sub(q2, q1))
			add(Mul(s, Sub(q2, q1)))
		}
	}
	return len(ext) > n && fmInfeasible(ext)
}

func splitNeq(cons []*Poly, neqs []*T, depth int) bool {
	if depth == 0 || len(neqs) == 0 {
		return false
	}
	one := &Poly{M: []Mono{{C: big.NewInt(1)}}}
	for i, d := range neqs {
		p := toPoly(d)
		lo := append(append([]*Poly{}, cons...), polyAdd(p, one, -1))
		hi := append(append([]*Poly{}, cons...), polyAdd(polyAdd(&Poly{}, p, -1), one, -1))
		a := linInfeasible(lo, 1)
		b := linInfeasible(hi, 1)
		if a && b {
			return true
		}
		rest := append(append([]*T{}, neqs[:i]...), neqs[i+1:]...)
		if a {
			return splitNeq(hi, rest, depth)
		}
		if b {
			return splitNeq(lo, rest, depth)
		}
	}
	return false
}

// axioms for atoms occurring in constraints
func axioms(cons []*Poly) []*Poly {
	seen := map[*T]bool{}
	var out []*Poly
	var q []*T
	push := func(p *Poly) {
		for _, m := range p.M {
			for _, v := range m.Vars {
				if !seen[v] {
					seen[v] = true
					q = append(q, v)
				}
			}
		}
	}
	for _, c := range cons {
		push(c)
	}
	add := func(t *T) {
		p := toPoly(t)
		out = append(out, p)
		push(p)
	}
	for len(q) > 0 && len(out) < 60 {
		v := q[0]
		q = q[1:]
		switch v.Op {
		case "len", "cap":
			add(v)
			if v.Op == "cap" && (v.Args[0].Op == "runes" || v.Args[0].Op == "bytes") {
				add(Sub(v, LenOf(v.Args[0])))
			}
			if v.Op == "len" {
				x := v.Args[0]
				if w := partOf(x); w != nil {
					add(Sub(LenOf(w), v))
				} else if x.Op == "runes" {
					if w := partOf(x.Args[0]); w != nil {
						add(Sub(LenOf(RunesOf(w)), v))
					}
				}
				switch x.Op {
				case "runes": // rune count <= byte count, and zero iff empty
					add(Sub(LenOf(x.Args[0]), v))
					add(Sub(Mul(Int(4), v), LenOf(x.Args[0])))
				}
				if x.Op == "call" && x.Aux == "strings.Split" {
					if s, ok := StrOf(x.Args[1]); ok && s != "" {
						add(Sub(v, Int(1)))
					}
				}
				if (x.Op == "init" || x.Op == "param" || x.Op == "runes" || x.Op == "bytes") && x.Typ != nil {
					if _, isSl := x.Typ.Underlying().(*types.Slice); isSl {
						add(Sub(CapOf(x), v))
					}
				}
			}
		case "bits.Len":
			add(v)
			add(Sub(Int(64), v))
		case "quo":
			a, b := v.Args[0], v.Args[1]
			if c, ok := ConstOf(b); ok && c.Sign() > 0 {
				cq := Mul(b, v)
				cm1 := Sub(b, Int(1))
				d := Sub(a, cq)
				if IsNonNeg(a) {
					add(d)
					add(Sub(cm1, d))
					add(v)
				} else {
					add(Add(d, cm1))
					add(Sub(cm1, d))
				}
			} else if IsNonNeg(a) && IsNonNeg(b) {
				// b > 0 is required for the division to be defined
				d := Sub(a, Mul(b, v))
				add(v)
				add(d)
				add(Sub(Sub(b, Int(1)), d))
			}
		case "fdiv":
			d := Sub(v.Args[0], Mul(v.Args[1], v))
			add(d)
			add(Sub(Sub(v.Args[1], Int(1)), d))
		case "rem":
			if IsNonNeg(v.Args[0]) && IsNonNeg(v.Args[1]) {
				add(v)
				add(Sub(Sub(v.Args[1], Int(1)), v))
			}
		case "call":
			switch v.Aux {
			case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexAny", "strings.LastIndexAny", "strings.IndexRune":
				add(Add(v, Int(1)))
				add(Sub(LenOf(v.Args[0]), v))
			case "strings.Count", "unicode/utf8.RuneLen":
				add(Add(v, Int(1)))
			case "unicode/utf8.DecodeRuneInString.1", "unicode/utf8.DecodeLastRuneInString.1", "unicode/utf8.DecodeRune.1", "unicode/utf8.DecodeLastRune.1":
				add(v)
				add(Sub(LenOf(v.Args[0]), v))
				add(Sub(Int(4), v))
			}
		default:
			if v.Typ != nil && IsUnsigned(v.Typ) {
				add(v)
				if b, ok := v.Typ.Underlying().(*types.Basic); ok {
					switch b.Kind() {
					case types.Uint8:
						add(Sub(Int(255), v))
					case types.Uint16:
						add(Sub(Int(65535), v))
					}
				}
			}
		}
	}
	return out
}

// partOf is the text x was split out of at an ASCII separator (which cannot cut a rune in two).
func partOf(x *T) *T {
	if x.Op != "init" || x.Args[0].Op != "elem" || x.Args[0].Args[0].Op != "base" {
		return nil
	}
	sp := x.Args[0].Args[0].Args[0]
	if sp.Op != "call" || sp.Aux != "strings.Split" {
		return nil
	}
	sep, ok := StrOf(sp.Args[1])
	if !ok || sep == "" {
		return nil
	}
	for i := 0; i < len(sep); i++ {
		if sep[i] >= 0x80 {
			return nil
		}
	}
	return sp.Args[0]
}

// NonNegHook lets a check declare atoms non-negative (class invariants).
var NonNegHook func(*T) bool

// IsNonNeg is a syntactic non-negativity test.
func IsNonNeg(t *T) bool {
	switch t.Op {
	case "poly":
		for _, m := range t.P.M {
			if m.C.Sign() < 0 {
				return false
			}
			for _, v := range m.Vars {
				if !IsNonNeg(v) {
					return false
				}
			}
		}
		return true
	case "len", "cap", "bits.Len", "now":
		return true
	case "quo", "fdiv":
		return IsNonNeg(t.Args[0]) && IsNonNeg(t.Args[1])
	case "shl":
		return IsNonNeg(t.Args[0])
	}
	if NonNegHook != nil && NonNegHook(t) {
		return true
	}
	return t.Typ != nil && IsUnsigned(t.Typ)
}

type row struct {
	c map[string]*big.Int // monomial key -> coef, "" is the constant
}

func rowOf(p *Poly) row {
	r := row{c: map[string]*big.Int{}}
	for _, m := range p.M {
		r.c[m.key()] = m.C
	}
	return r
}

func (r row) norm() (row, int) { // -1 contradictory, 1 trivially true
	g := new(big.Int)
	nv := 0
	for k, c := range r.c {
		if c.Sign() == 0 {
			delete(r.c, k)
			continue
		}
		if k != "" {
			nv++
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
	}
	c0 := r.c[""]
	if c0 == nil {
		c0 = big.NewInt(0)
	}
	if nv == 0 {
		if c0.Sign() < 0 {
			return r, -1
		}
		return r, 1
	}
	if g.Cmp(big.NewInt(1)) > 0 {
		n := row{c: map[string]*big.Int{}}
		for k, c := range r.c {
			if k == "" {
				q, m := new(big.Int), new(big.Int)
				q.DivMod(c, g, m)
				if q.Sign() != 0 {
					n.c[""] = q
				}
			} else {
				n.c[k] = new(big.Int).Quo(c, g)
			}
		}
		return n, 0
	}
	return r, 0
}

func (r row) sig() string {
	ks := make([]string, 0, len(r.c))
	for k := range r.c {
		if k != "" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += k + ":" + r.c[k].String() + ";"
	}
	return s
}

func fmBig(cons []*Poly) bool {
	rows := map[string]row{}
	bad := false
	addRow := func(m map[string]row, r row) {
		r, st := r.norm()
		if st == -1 {
			bad = true
			return
		}
		if st == 1 {
			return
		}
		s := r.sig()
		if o, ok := m[s]; ok {
			// keep the tighter (smaller constant)
			oc, rc := o.c[""], r.c[""]
			if oc == nil {
				oc = big.NewInt(0)
			}
			if rc == nil {
				rc = big.NewInt(0)
			}
			if rc.Cmp(oc) < 0 {
				m[s] = r
			}
			return
		}
		m[s] = r
	}
	for _, p := range cons {
		addRow(rows, rowOf(p))
		if bad {
			return true
		}
	}
	for iter := 0; iter < 200; iter++ {
		if len(rows) == 0 {
			return false
		}
		// choose the variable with the fewest products
		pos, neg := map[string]int{}, map[string]int{}
		for _, r := range rows {
			for k, c := range r.c {
				if k == "" {
					continue
				}
				if c.Sign() > 0 {
					pos[k]++
				} else {
					neg[k]++
				}
			}
		}
		best, bestN := "", -1
		var ks []string
		for k := range pos {
			ks = append(ks, k)
		}
		for k := range neg {
			if pos[k] == 0 {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			n := pos[k]*neg[k] - pos[k] - neg[k]
			if bestN == -1 && best == "" || n < bestN {
				best, bestN = k, n
			}
		}
		if best == "" {
			return false
		}
		next := map[string]row{}
		var ps, ns []row
		var sigs []string
		for s := range rows {
			sigs = append(sigs, s)
		}
		sort.Strings(sigs)
		for _, s := range sigs {
			r := rows[s]
			c, ok := r.c[best]
			switch {
			case !ok || c.Sign() == 0:
				addRow(next, r)
			case c.Sign() > 0:
				ps = append(ps, r)
			default:
				ns = append(ns, r)
			}
		}
		if len(ps)*len(ns) > 2500 {
			return false
		}
		for _, a := range ps {
			for _, b := range ns {
				ca, cb := a.c[best], new(big.Int).Neg(b.c[best])
				n := row{c: map[string]*big.Int{}}
				for k, v := range a.c {
					n.c[k] = new(big.Int).Mul(v, cb)
				}
				for k, v := range b.c {
					x := new(big.Int).Mul(v, ca)
					if o, ok := n.c[k]; ok {
						x.Add(x, o)
					}
					n.c[k] = x
				}
				delete(n.c, best)
				addRow(next, n)
				if bad {
					return true
				}
				if len(next) > 1500 {
					return false
				}
			}
		}
		rows = next
	}
	return false
}
