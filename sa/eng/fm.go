package eng

import (
	"encoding/binary"
	"sort"
)

// Linear part of the fact engine: Fourier-Motzkin elimination over interned monomials with small
// coefficients (fmBig does the same with unbounded ones), split into connected components whose
// verdicts are remembered.

type frow struct {
	v []int32 // monomials, ascending
	c []int64
	k int64 // constant: sum + k >= 0
}

var monoIDs = map[string]int32{}

const fmLim = int64(1) << 30

func monoID(s string) int32 {
	if i, ok := monoIDs[s]; ok {
		return i
	}
	i := int32(len(monoIDs) + 1)
	monoIDs[s] = i
	return i
}

func fits(x int64) bool { return x < fmLim<<20 && x > -(fmLim<<20) }

func frowOf(p *Poly) (frow, bool) {
	type vc struct {
		v int32
		c int64
	}
	var xs []vc
	r := frow{}
	for _, m := range p.M {
		if !m.C.IsInt64() || !fits(m.C.Int64()) {
			return r, false
		}
		k := m.key()
		if k == "" {
			r.k = m.C.Int64()
			continue
		}
		xs = append(xs, vc{monoID(k), m.C.Int64()})
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].v < xs[j].v })
	for _, x := range xs {
		r.v = append(r.v, x.v)
		r.c = append(r.c, x.c)
	}
	return r, true
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// norm divides by the common factor: -1 contradictory, 1 trivial, 0 neither.
func (r *frow) norm() int {
	if len(r.v) == 0 {
		if r.k < 0 {
			return -1
		}
		return 1
	}
	g := int64(0)
	for _, c := range r.c {
		g = gcd64(g, c)
		if g == 1 {
			return 0
		}
	}
	for i := range r.c {
		r.c[i] /= g
	}
	q := r.k / g
	if r.k%g != 0 && r.k < 0 {
		q--
	}
	r.k = q
	return 0
}

func (r *frow) sig() string {
	b := make([]byte, 0, len(r.v)*6)
	for i, v := range r.v {
		b = binary.AppendUvarint(b, uint64(v))
		b = binary.AppendVarint(b, r.c[i])
	}
	return string(b)
}

func (r *frow) coef(v int32) int64 {
	for i, x := range r.v {
		if x == v {
			return r.c[i]
		}
	}
	return 0
}

type fset struct {
	idx  map[string]int
	rows []frow
	bad  bool
}

func (s *fset) add(r frow) {
	switch r.norm() {
	case -1:
		s.bad = true
		return
	case 1:
		return
	}
	g := r.sig()
	if i, ok := s.idx[g]; ok {
		if r.k < s.rows[i].k {
			s.rows[i] = r
		}
		return
	}
	s.idx[g] = len(s.rows)
	s.rows = append(s.rows, r)
}

var fmMemo = map[string]bool{}

func fmInfeasible(cons []*Poly) bool {
	cons = append(append([]*Poly{}, cons...), axioms(cons)...)
	set := &fset{idx: map[string]int{}}
	for _, p := range cons {
		r, ok := frowOf(p)
		if !ok {
			return fmBig(cons)
		}
		set.add(r)
		if set.bad {
			return true
		}
	}
	// connected components
	parent := map[int32]int32{}
	var find func(x int32) int32
	find = func(x int32) int32 {
		p, ok := parent[x]
		if !ok || p == x {
			return x
		}
		r := find(p)
		parent[x] = r
		return r
	}
	for _, r := range set.rows {
		for _, v := range r.v[1:] {
			a, b := find(r.v[0]), find(v)
			if a != b {
				parent[a] = b
			}
		}
	}
	comp := map[int32][]frow{}
	var order []int32
	for _, r := range set.rows {
		c := find(r.v[0])
		if comp[c] == nil {
			order = append(order, c)
		}
		comp[c] = append(comp[c], r)
	}
	for _, c := range order {
		rows := comp[c]
		if len(rows) < 2 {
			continue
		}
		keys := make([]string, len(rows))
		for i := range rows {
			keys[i] = rows[i].sig() + "|" + string(binary.AppendVarint(nil, rows[i].k))
		}
		ord := make([]int, len(rows))
		for i := range ord {
			ord[i] = i
		}
		sort.Slice(ord, func(i, j int) bool { return keys[ord[i]] < keys[ord[j]] })
		key := ""
		sorted := make([]frow, len(rows))
		for i, o := range ord {
			key += keys[o] + "\n"
			sorted[i] = rows[o]
		}
		v, ok := fmMemo[key]
		if !ok {
			var over bool
			v, over = eliminate(sorted)
			if over {
				return fmBig(cons)
			}
			fmMemo[key] = v
		}
		if v {
			return true
		}
	}
	return false
}

func eliminate(rows []frow) (infeasible, overflow bool) {
	for iter := 0; iter < 200; iter++ {
		if len(rows) == 0 {
			return false, false
		}
		if p, n, v := equality(rows); p >= 0 {
			// substitute: exact for integers
			next := &fset{idx: map[string]int{}}
			for i := range rows {
				if i == p || i == n {
					continue
				}
				switch c := rows[i].coef(v); {
				case c == 0:
					next.add(rows[i])
				case c > 0:
					r, ok := combine(&rows[i], &rows[n], v)
					if !ok {
						return false, true
					}
					next.add(r)
				default:
					r, ok := combine(&rows[p], &rows[i], v)
					if !ok {
						return false, true
					}
					next.add(r)
				}
				if next.bad {
					return true, false
				}
			}
			rows = next.rows
			continue
		}
		type pn struct{ p, n int }
		cnt := map[int32]*pn{}
		for i := range rows {
			for j, v := range rows[i].v {
				x := cnt[v]
				if x == nil {
					x = &pn{}
					cnt[v] = x
				}
				if rows[i].c[j] > 0 {
					x.p++
				} else {
					x.n++
				}
			}
		}
		best, bestN := int32(0), 0
		for v, x := range cnt {
			n := x.p*x.n - x.p - x.n
			if best == 0 || n < bestN || n == bestN && v < best {
				best, bestN = v, n
			}
		}
		if best == 0 {
			return false, false
		}
		next := &fset{idx: map[string]int{}}
		var ps, ns []frow
		for _, r := range rows {
			c := r.coef(best)
			switch {
			case c == 0:
				next.add(r)
			case c > 0:
				ps = append(ps, r)
			default:
				ns = append(ns, r)
			}
		}
		if len(ps)*len(ns) > 2500 {
			return false, false
		}
		for i := range ps {
			for j := range ns {
				a, b := &ps[i], &ns[j]
				n, ok := combine(a, b, best)
				if !ok {
					return false, true
				}
				next.add(n)
				if next.bad {
					return true, false
				}
				if len(next.rows) > 1500 {
					return false, false
				}
			}
		}
		rows = next.rows
	}
	return false, false
}

// combine adds multiples of a (positive in v) and b (negative in v) so that v cancels.
func combine(a, b *frow, best int32) (frow, bool) {
	ca, cb := a.coef(best), -b.coef(best)
	g := gcd64(ca, cb)
	ma, mb := cb/g, ca/g // ma*a + mb*b cancels best
	if ma > fmLim || mb > fmLim {
		return frow{}, false
	}
	n := frow{}
	x, y := 0, 0
	ok := true
	put := func(v int32, c int64) {
		if !fits(c) {
			ok = false
		}
		if c != 0 {
			n.v = append(n.v, v)
			n.c = append(n.c, c)
		}
	}
	mul := func(m, c int64) int64 {
		if c > fmLim || c < -fmLim {
			if m > 1<<10 || !fits(c) {
				ok = false
				return 0
			}
		}
		return m * c
	}
	for x < len(a.v) || y < len(b.v) {
		switch {
		case y == len(b.v) || x < len(a.v) && a.v[x] < b.v[y]:
			put(a.v[x], mul(ma, a.c[x]))
			x++
		case x == len(a.v) || b.v[y] < a.v[x]:
			put(b.v[y], mul(mb, b.c[y]))
			y++
		default:
			put(a.v[x], mul(ma, a.c[x])+mul(mb, b.c[y]))
			x++
			y++
		}
	}
	n.k = mul(ma, a.k) + mul(mb, b.k)
	return n, ok && fits(n.k)
}

// equality finds a row whose negation is there too and a variable with coefficient 1 or -1 in it.
func equality(rows []frow) (int, int, int32) {
	idx := make(map[string]int, len(rows))
	for i := range rows {
		idx[rows[i].sig()] = i
	}
	for i := range rows {
		n := frow{v: rows[i].v, c: make([]int64, len(rows[i].c))}
		unit := int32(0)
		for j, c := range rows[i].c {
			n.c[j] = -c
			if c == 1 || c == -1 {
				unit = rows[i].v[j]
			}
		}
		if unit == 0 {
			continue
		}
		if j, ok := idx[n.sig()]; ok && rows[j].k == -rows[i].k {
			if rows[i].coef(unit) > 0 {
				return i, j, unit
			}
			return j, i, unit
		}
	}
	return -1, -1, 0
}
