package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

// encoded lists the values whose JSON encoding was decoded into an object, following call results back.
func (b *batchPath) encoded(m *T) (srcs []*T) {
	var root *T
	Contains(m, func(x *T) bool {
		if x.Op == "alloc" {
			root = x
		}
		return root != nil
	})
	if root == nil {
		return nil
	}
	var sub map[*T]*T
	want := map[*T]bool{}
	for i := len(b.evs) - 1; i >= 0; i-- {
		e := b.evs[i]
		if e.Kind != "call" && e.Kind != "pure" {
			continue
		}
		hit := false
		all := append(append([]*T{}, e.Args...), e.Res...)
		for _, t := range all {
			if t != nil && Contains(t, func(x *T) bool {
				if want[x] {
					return true
				}
				if x.Op != "alloc" || sub != nil {
					return false
				}
				if sub = familyOf(x, root); sub != nil {
					want[x] = true
				}
				return sub != nil
			}) {
				hit = true
			}
		}
		if !hit {
			continue
		}
		switch e.Name {
		case "encoding/json.Marshal", "encoding/json.MarshalIndent":
			srcs = append(srcs, Subst(stripIface(e.Args[0]), sub))
			continue
		case "(*encoding/json.Encoder).Encode":
			srcs = append(srcs, Subst(stripIface(e.Args[1]), sub))
			continue
		}
		if !strings.Contains(e.Name, "encoding/json.") && !strings.Contains(e.Name, "bytes.") && !strings.Contains(e.Name, "strings.") {
			continue
		}
		for _, t := range all {
			if t != nil {
				Contains(t, func(x *T) bool {
					if b.by[x] != nil || x.Op == "alloc" {
						want[x] = true
					}
					return false
				})
			}
		}
	}
	return srcs
}

// A batchUnit is a function of the package that sends all records it is given: once that is shown for it
// by itself, its callers are judged by what they hand to it.
type batchUnit struct {
	fn      *ssa.Function
	obs     []batchOb
	batch   bool
	inserts int
	updates int
	empties int
}

type batchOb struct {
	ok        bool
	rule, msg string
	pos       token.Pos
}

func (u *batchUnit) holds() bool {
	for _, o := range u.obs {
		if !o.ok {
			return false
		}
	}
	return u.batch
}

func batches(c *Ctx) {
	units := map[*ssa.Function]*batchUnit{}
	exported := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, fn := range dbHelpers(c) {
		exported[fn] = true
	}
	for _, fn := range c.P.PkgFuncs("gorm_tools") {
		if exported[fn] || batchShaped(fn) {
			fns = append(fns, fn)
		}
	}
	// callees first
	var visitFn func(fn *ssa.Function)
	busy := map[*ssa.Function]bool{}
	var order []*ssa.Function
	visitFn = func(fn *ssa.Function) {
		if busy[fn] {
			return
		}
		busy[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					if f := call.Common().StaticCallee(); f != nil && f.Pkg == fn.Pkg {
						visitFn(f)
					}
				}
			}
		}
		order = append(order, fn)
	}
	want := map[*ssa.Function]bool{}
	for _, fn := range fns {
		want[fn] = true
		visitFn(fn)
	}
	inserts, updates, empties := 0, 0, 0
	for _, fn := range order {
		if !want[fn] {
			continue
		}
		u := batchOne(c, fn, units)
		if u.holds() && batchShaped(fn) {
			units[fn] = u
		}
		if exported[fn] || u.holds() {
			for _, o := range u.obs {
				c.Ob(o.ok, o.rule, ShortName(fn), o.pos, "%s", o.msg)
			}
		}
		if exported[fn] {
			inserts += u.inserts
			updates += u.updates
			empties += u.empties
		}
	}
	c.Need("batch insert statements", inserts, 1)
	c.Need("batch update statements", updates, 1)
	c.Add("returns without a statement", empties)
}

// batchShaped: the function takes records or updates and returns an error.
func batchShaped(fn *ssa.Function) bool {
	if r := fn.Signature.Results(); r.Len() == 0 || !isErrType(r.At(r.Len()-1).Type()) {
		return false
	}
	for _, p := range fn.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Slice:
			if types.IsInterface(t.Elem()) {
				return true
			}
		case *types.Map:
			if _, ok := t.Elem().Underlying().(*types.Map); ok {
				return true
			}
		}
	}
	return false
}

func batchOne(c *Ctx, fn *ssa.Function, units map[*ssa.Function]*batchUnit) *batchUnit {
	u := &batchUnit{fn: fn}
	in := NewInterp(c.P, &Config{NoInline: func(f *ssa.Function) bool { return units[f] != nil && f != fn }})
	exits := in.Run(fn)
	is := map[*Event]bool{}
	for _, x := range exits {
		if x.Panic != nil || len(x.Res) == 0 {
			continue
		}
		b := newBatch(c, in, fn, x)
		b.u, b.units = u, units
		for _, e := range b.evs {
			kind, given := b.sends(e)
			if kind == 0 {
				continue
			}
			u.batch = true
			if is[e] && b.fails() {
				continue
			}
			is[e] = true
			switch {
			case kind == 'u' && given != nil:
				b.chunksOfUpdates(e, given)
			case kind == 'u':
				b.update(e)
			case given != nil:
				b.pieces(e, baseSlice(given), OffOf(given), LenOf(given))
			default:
				b.insert(e)
			}
			if kind == 'u' {
				u.updates++
			} else {
				u.inserts++
			}
		}
	}
	if !u.batch {
		return u
	}
	for _, x := range exits { // nothing is sent only if there is nothing to send
		if x.Panic != nil || len(x.Res) == 0 || x.Res[len(x.Res)-1] != Nil {
			continue
		}
		b := newBatch(c, in, fn, x)
		b.u, b.units = u, units
		sent := false
		for _, e := range b.evs {
			k, _ := b.sends(e)
			sent = sent || k != 0
		}
		if sent {
			continue
		}
		u.empties++
		none := false
		for _, p := range Params(fn) {
			if isSlice(p) || isMap(p) {
				none = none || x.Facts.Proves(EqInt(LenOf(p), Int(0))) || x.Facts.Proves(Eq(p, Nil))
			}
		}
		b.ob(none, "sends", nil, "there is a way to return success without sending anything although records were given")
	}
	return u
}

// sends tells whether an event sends records ('i' insert, 'u' update), and for a call of a function that
// was shown to send what it is given, what it is given.
func (b *batchPath) sends(e *Event) (byte, *T) {
	if statement(e) == "Exec" {
		lead := ""
		for _, p := range b.text(e.Args[1], e) {
			if p.kind != 'l' {
				break
			}
			lead += p.s
		}
		lead = strings.ToLower(strings.TrimSpace(lead))
		if strings.HasPrefix(lead, "update") {
			return 'u', nil
		}
		if strings.HasPrefix(lead, "insert") || strings.HasPrefix(lead, "replace") || insertText(b.in, e) {
			return 'i', nil
		}
		return 0, nil
	}
	if e.Kind != "call" {
		return 0, nil
	}
	call, ok := e.Instr.(ssa.CallInstruction)
	if !ok {
		return 0, nil
	}
	f := call.Common().StaticCallee()
	if f == nil || b.units[f] == nil {
		return 0, nil
	}
	for i, p := range f.Params {
		switch p.Type().Underlying().(type) {
		case *types.Slice:
			return 'i', e.Args[i]
		case *types.Map:
			return 'u', e.Args[i]
		}
	}
	return 0, nil
}

// baseSlice is the slice a part was cut from.
func baseSlice(t *T) *T {
	if b := BaseOf(t); b.Op == "base" {
		return b.Args[0]
	}
	return t
}

func isMap(t *T) bool {
	if t.Typ == nil {
		return false
	}
	_, ok := t.Typ.Underlying().(*types.Map)
	return ok
}

func (b *batchPath) ob(ok bool, rule string, e *Event, f string, args ...interface{}) bool {
	p := token.NoPos
	if e != nil && e.Instr != nil {
		p = e.Instr.Pos()
	}
	if !p.IsValid() {
		p = b.fn.Pos()
	}
	b.u.obs = append(b.u.obs, batchOb{ok, rule, fmt.Sprintf(f, args...), p})
	return ok
}

// count is the number of placeholders of a text, nil if unknown.
func (b *batchPath) count(ps []textPart) *T {
	n := Int(0)
	same := func(alts [][]textPart) int {
		k := -1
		for _, a := range alts {
			h := holes(a)
			if h < 0 || k >= 0 && h != k {
				return -1
			}
			k = h
		}
		return k
	}
	for _, p := range ps {
		switch p.kind {
		case 'l':
			n = Add(n, Int(int64(strings.Count(p.s, "?"))))
		case '?':
			return nil
		case '*', 'r':
			if len(p.alts) == 0 {
				continue
			}
			k := same(p.alts)
			if k < 0 {
				return nil
			}
			by := p.t
			if p.kind == '*' {
				by = p.rec.Iota
			}
			if k > 0 {
				n = Add(n, Mul(Int(int64(k)), by))
			}
		case 'j':
			j := Mk("param", "part", types.Typ[types.Int])
			var alts [][]textPart
			for _, cs := range b.in.LoadsAt(p.ev, Mk("elem", "", types.NewPointer(types.Typ[types.String]), BaseOf(p.t), Add(OffOf(p.t), j)), types.Typ[types.String], Ge0(j), Lt(j, LenOf(p.t))) {
				alts = append(alts, b.text(cs.Val, p.ev))
			}
			if k := same(alts); k > 0 {
				n = Add(n, Mul(Int(int64(k)), LenOf(p.t)))
			} else if k < 0 && len(alts) > 0 {
				return nil
			}
		}
	}
	return n
}

// nameIn is the one unknown part of a text, nil if there are none or several.
func nameIn(ps []textPart) *T {
	var t *T
	for _, p := range ps {
		switch p.kind {
		case 'l':
		case 'h':
			if t != nil {
				return nil
			}
			t = p.t
		default:
			return nil
		}
	}
	return t
}

func (b *batchPath) insert(e *Event) {
	in := b.in
	V := stripIface(e.Args[2])
	k, j := Mk("param", "row", types.Typ[types.Int]), Mk("param", "column", types.Typ[types.Int])
	anyT := types.NewInterfaceType(nil, nil)
	str := types.Typ[types.String]

	// the text: one placeholder per row, behind the list of columns
	txt := b.text(e.Args[1], e)
	n := b.count(txt)
	b.ob(n != nil && e.Facts.Proves(EqInt(n, LenOf(V))), "placeholders", e, "the text of the insert does not have one placeholder for each row bound (%v for %v)", n, LenOf(V))
	var cols *textPart
	for i := range txt {
		if p := &txt[i]; p.kind == 'j' || p.kind == '*' {
			if h := b.count(txt[i : i+1]); h != nil && IsConst(h, 0) && cols == nil {
				cols = p
			}
		}
	}
	if !b.ob(cols != nil, "columns", e, "the insert's text has no list of columns put together here") {
		return
	}
	width := Int(0)
	if cols.kind == '*' {
		width = cols.rec.Iota
	} else {
		width = LenOf(cols.t)
	}
	column := func(f *FactNode) []*T { // the column names at place j
		var out []*T
		if cols.kind == 'j' {
			fs := append(f.List(), Ge0(j), Lt(j, width))
			for _, cs := range in.LoadsAt(cols.ev, Mk("elem", "", types.NewPointer(str), BaseOf(cols.t), Add(OffOf(cols.t), j)), str, fs...) {
				out = append(out, nameIn(b.text(cs.Val, cols.ev)))
			}
			return out
		}
		for _, a := range cols.alts {
			t := nameIn(a)
			if t != nil {
				t = Subst(t, map[*T]*T{cols.rec.Iota: j})
			}
			out = append(out, t)
		}
		return out
	}

	// the rows
	seen := map[*T]bool{}
	for _, r := range in.LoadsAt(e, Mk("elem", "", types.NewPointer(anyT), BaseOf(V), Add(OffOf(V), k)), anyT, Ge0(k), Lt(k, LenOf(V))) {
		S := stripIface(r.Val)
		if !b.ob(isSlice(S), "row", e, "what is bound for a row of the insert is not a list built here: %v", S) {
			return
		}
		b.ob(r.Facts.Proves(EqInt(LenOf(S), width)), "row", e, "a row does not have one value per column")
		for _, w := range in.LoadsAt(e, Mk("elem", "", types.NewPointer(anyT), BaseOf(S), Add(OffOf(S), j)), anyT, append(r.Facts.List(), Ge0(j), Lt(j, LenOf(S)))...) {
			if w.Val == Nil { // no such field in this record
				b.ob(absent(w.Facts), "row", e, "a row has no value for a column although the record may have the field")
				continue
			}
			cl := cellOf(w.Val)
			if !b.ob(cl != nil, "row", e, "the value bound for a column is not that field of the record: %v", w.Val) {
				return
			}
			M, key := cl.Args[0], cl.Args[1]
			for _, cn := range column(w.Facts) {
				b.ob(cn == key, "pairing", e, "the value bound at a place is field %v, the column at that place is %v", key, cn)
			}
			if seen[cl] {
				continue
			}
			seen[cl] = true
			b.records(e, M, k, LenOf(V))
			b.covered(e, V, M, key)
		}
	}
	b.ob(len(seen) > 0, "row", e, "no value of a row was recognised")
}

// absent: one of the facts says that a key is not in a map.
func absent(f *FactNode) bool {
	for _, g := range f.List() {
		if n := Not(g); n.Op != "not" && (n.Op == "init" || n.Op == "hv" || n.Op == "has") && Contains(n, func(t *T) bool { return t.Op == "has" }) {
			return true
		}
	}
	return false
}

// records: row k holds the fields of the k-th of the records this statement sends, and the statements
// of a chunked insert send consecutive, non-empty pieces up to the last record.
func (b *batchPath) records(e *Event, M, k, n *T) {
	srcs := b.encoded(M)
	if !b.ob(len(srcs) > 0, "records", e, "the fields of a row do not come from the encoding of a record") {
		return
	}
	for _, s := range srcs {
		var R, i *T
		if (s.Op == "init" || s.Op == "hv") && len(s.Args) > 0 && s.Args[0].Op == "elem" {
			if bs := s.Args[0].Args[0]; bs.Op == "base" {
				R, i = bs.Args[0], s.Args[0].Args[1]
			}
		}
		if !b.ob(R != nil, "records", e, "a row is not made from a given record: %v", s) {
			continue
		}
		P := Sub(i, k)
		if !b.ob(!Contains(P, func(t *T) bool { return t == k }), "records", e, "row k is not made from the record at place k of its piece: place %v", i) {
			continue
		}
		b.pieces(e, R, P, n)
	}
}

// enclosing lists the loops whose iterations contain an event, outermost first.
func (b *batchPath) enclosing(e *Event) []*LoopRec {
	var out []*LoopRec
	seen := map[*LoopRec]bool{}
	for _, x := range b.evs {
		if x.Kind != "loop" || x.Loop == nil || seen[x.Loop] {
			continue
		}
		seen[x.Loop] = true
		in := false
		for _, s := range x.Loop.Back {
			visit(backEvents(x.Loop, s), func(y *Event, _ *State) { in = in || y == e })
		}
		if in {
			out = append(out, x.Loop)
		}
	}
	return out
}

// around lists the loops around a loop, outermost first.
func (b *batchPath) around(rec *LoopRec) []*LoopRec {
	for _, x := range b.evs {
		if x.Kind == "loop" && x.Loop == rec {
			return b.enclosing(x)
		}
	}
	return nil
}

// step is what the values at a loop's head become in the next iteration.
func (b *batchPath) step(rec *LoopRec, s *State) map[*T]*T {
	sub := map[*T]*T{rec.Iota: Add(rec.Iota, Int(1))}
	for _, p := range rec.Phis {
		if c := rec.Cur[p]; c.Op == "phi" {
			sub[c] = b.in.BackVal(rec, s, p)
		}
	}
	return sub
}

func (b *batchPath) fails() bool { return b.x.Res[len(b.x.Res)-1] != Nil }

func (b *batchPath) pieces(e *Event, R, P, n *T) {
	var given *T
	for _, p := range Params(b.fn) {
		if isSlice(p) {
			given = p
		}
	}
	recs := b.enclosing(e)
	if len(recs) == 0 {
		b.ob(R == given && IsConst(P, 0), "records", e, "the records sent are not the ones given: %v from %v", R, P)
		b.ob(e.Facts.Proves(EqInt(n, LenOf(R))), "records", e, "not one row per given record")
		return
	}
	rec := recs[0]
	for _, s := range rec.Back {
		sends, mine := 0, false
		visit(backEvents(rec, s), func(x *Event, _ *State) {
			if k, _ := b.sends(x); k == 'i' {
				sends++
				mine = mine || x == e
			}
		})
		b.ob(sends == 1, "chunks", e, "an iteration of the chunk loop does not send exactly one insert")
		if !mine {
			continue
		}
		b.ob(s.Facts.Proves(Lt(Int(0), n)), "chunks", e, "a chunk may be empty, so the loop may not end")
		sub := b.step(rec, s)
		if R != given { // the remaining records
			nx := sub[R]
			ok := nx != nil && nx.Op == "slice" && BaseOf(nx) == BaseOf(R) && IsConst(P, 0) &&
				s.Facts.Proves(EqInt(OffOf(nx), n)) && s.Facts.Proves(EqInt(LenOf(nx), Sub(LenOf(R), n)))
			b.ob(ok, "chunks", e, "the next chunk does not start where this one ends: %v", nx)
			continue
		}
		nx := Subst(P, sub)
		ok := s.Facts.Proves(EqInt(nx, Add(P, n))) || s.Facts.Proves(EqInt(Add(P, n), LenOf(R))) && s.Facts.Proves(Le(LenOf(R), nx))
		b.ob(ok, "chunks", e, "the next chunk starts at %v, this one ends at %v", nx, Add(P, n))
	}
	first, end := R, (*T)(nil)
	if R != given {
		first = nil
		for _, p := range rec.Phis {
			if rec.Cur[p] == R {
				first = rec.Init[p]
			}
		}
		end = EqInt(LenOf(R), Int(0))
	} else {
		sub := map[*T]*T{rec.Iota: Int(0)}
		for _, p := range rec.Phis {
			if c := rec.Cur[p]; c.Op == "phi" {
				sub[c] = rec.Init[p]
			}
		}
		b.ob(IsConst(Subst(P, sub), 0), "chunks", e, "the first chunk does not start with the first record")
		end = Le(LenOf(R), P)
	}
	b.ob(first == given, "chunks", e, "the chunk loop does not go through the given records: %v", first)
	if b.fails() {
		return
	}
	b.ob(!rec.Partial(b.x), "chunks", e, "success may be returned from within the chunk loop")
	b.ob(b.x.Facts.Proves(end), "chunks", e, "success may be returned although records are left")
}

// covered: the columns contain every key of the map of every row.
func (b *batchPath) covered(e *Event, V, M, key *T) {
	if key.Op == "rkey" { // the columns are the keys of one map: a set of names, or one record's fields
		set := key.Args[0]
		b.ob(b.union(e, V, M, set), "coverage", e, "the columns are the keys of %v, which need not have the fields of every record", set)
		return
	}
	L, _ := b.listOf(key)
	if !b.ob(L != nil, "coverage", e, "where the list of columns comes from was not recognised: %v", key) {
		return
	}
	is := b.items(L)
	if len(is) == 1 && is[0].kind == '*' && b.done[is[0].rec] != nil { // filled with the keys of one map
		all := len(is[0].alts) > 0
		set := b.done[is[0].rec].Args[0]
		for _, alt := range is[0].alts {
			all = all && len(alt) == 1 && alt[0].kind == 'v' && alt[0].t.Op == "rkey" && alt[0].t.Args[0] == set
		}
		if all {
			b.ob(b.union(e, V, M, set), "coverage", e, "the columns are the keys of %v, which need not have the fields of every record", set)
			return
		}
	}
	why := b.allKeys(e, V, M, is)
	b.ob(why == "", "coverage", e, "a field that occurs in some record only may be left out: %s", why)
}

// union: every key of every record's map is put into the map set.
func (b *batchPath) union(e *Event, V, M, set *T) bool {
	for _, x := range b.evs {
		if x.Kind != "loop" || x.Loop == nil || len(x.Loop.Back) == 0 || !e.Facts.Proves(EqInt(x.Loop.Iota, LenOf(V))) {
			continue
		}
		all := true
		for _, s := range x.Loop.Back {
			got := false
			for _, y := range backEvents(x.Loop, s) {
				if y.Kind != "loop" || b.done[y.Loop] == nil || familyOf(b.done[y.Loop].Args[0], M) == nil {
					continue
				}
				m := b.done[y.Loop].Args[0]
				every := len(y.Loop.Back) > 0
				for _, z := range y.Loop.Back {
					put := false
					visit(backEvents(y.Loop, z), func(w *Event, _ *State) {
						if w.Kind == "store" && w.Name == "mapupdate" && w.Args[0].Args[0] == set {
							k := w.Args[0].Args[1]
							put = put || k.Op == "rkey" && k.Args[0] == m
						}
					})
					every = every && put
				}
				got = got || every
			}
			all = all && got
		}
		if all {
			return true
		}
	}
	return false
}

func (b *batchPath) allKeys(e *Event, V, M *T, is []item) string {
	for _, i := range is {
		if i.kind != '*' || len(i.alts) == 0 || !e.Facts.Proves(EqInt(i.rec.Iota, LenOf(V))) {
			continue
		}
		for _, alt := range i.alts {
			done := false
			for _, a := range alt {
				if a.kind != '*' || b.done[a.rec] == nil || familyOf(b.done[a.rec].Args[0], M) == nil {
					continue
				}
				done = true
				m := b.done[a.rec].Args[0]
				for n, v := range a.alts {
					took := false
					for _, y := range v {
						took = took || y.kind == 'v' && y.t.Op == "rkey" && y.t.Args[0] == m
					}
					if !took && !b.known(a, a.rec.Back[n], m) {
						return "a key may be skipped without being in the list already"
					}
				}
			}
			if !done {
				return "not every record's fields are gone through to the end"
			}
		}
		return ""
	}
	return "the list is not collected over all records"
}

// known: on this way through the loop the key is in a map that only gets keys which are also appended.
func (b *batchPath) known(a item, s *State, m *T) bool {
	for _, f := range s.Facts.List() {
		if f.Op != "init" && f.Op != "hv" && f.Op != "has" {
			continue
		}
		var set *T
		Contains(f, func(t *T) bool {
			if (t.Op == "cell" || t.Op == "has") && t.Args[1].Op == "rkey" && t.Args[1].Args[0] == m && t.Args[0] != m {
				set = t.Args[0]
			}
			return set != nil
		})
		if set == nil || !strings.HasPrefix(set.Op, "alloc") {
			continue
		}
		ok := true
		for _, e := range b.evs { // every write of the map is in an iteration that appends the key
			if e.Kind == "store" && e.Name == "mapupdate" && e.Args[0].Args[0] == set {
				in := false
				for n, z := range a.rec.Back {
					for _, y := range backEvents(a.rec, z) {
						if y == e {
							for _, v := range a.alts[n] {
								in = in || v.kind == 'v' && v.t == e.Args[0].Args[1]
							}
						}
					}
				}
				ok = ok && in
			}
		}
		if ok {
			return true
		}
	}
	return false
}

var (
	whenText = regexp.MustCompile("(?i)when\\s+(`?\\w+`?\\s*=\\s*)?$")
	thenText = regexp.MustCompile(`(?i)then\s*$`)
	inText   = regexp.MustCompile("(?i)where\\s+`?id`?\\s+in\\s*\\(?\\s*$")
	caseText = regexp.MustCompile("(?i)^`?\\s*=\\s*case\\b")
)

// place is a placeholder with the text before it and the column it is under, or a group a loop adds.
type place struct {
	before string
	column *T
	rec    *LoopRec
	alts   [][]place
	bad    bool
}

func places(ps []textPart, before *string, column **T) []place {
	var out []place
	for n, p := range ps {
		switch p.kind {
		case 'l':
			for i, part := range strings.Split(p.s, "?") {
				if i > 0 {
					out = append(out, place{before: *before, column: *column})
					*before = ""
				}
				*before += part
			}
		case 'h', 'c':
			*before += "\x00"
			if n+1 < len(ps) && ps[n+1].kind == 'l' && caseText.MatchString(ps[n+1].s) {
				*column = p.t
			}
		case '*':
			g := place{rec: p.rec}
			some := false
			at := *before
			for _, a := range p.alts {
				*before = at
				l := places(a, before, column)
				some = some || len(l) > 0
				g.alts = append(g.alts, l)
			}
			if some {
				out = append(out, g)
			}
		default:
			out = append(out, place{bad: true})
		}
	}
	return out
}

// updateText is the text of a batch update with the arguments bound.
type updateText struct {
	*batchPath
	e          *Event
	U          *T // the updates
	id         *T // the id of the pair at hand
	pairs, ids int
}

func (b *batchPath) update(e *Event) {
	var before string
	var column *T
	ps := places(b.text(e.Args[1], e), &before, &column)
	u := &updateText{batchPath: b, e: e}
	u.align(ps, b.items(e.Args[2]), nil)
	if !b.ob(u.pairs > 0 && u.ids > 0, "pairing", e, "the update's text and arguments were not recognised: %d pairs, %d id lists", u.pairs, u.ids) {
		return
	}
	b.chunksOfUpdates(e, u.U)
}

func (u *updateText) align(ps []place, is []item, rec *LoopRec) {
	if !u.ob(len(ps) == len(is), "pairing", u.e, "%d placeholders, %d arguments at the same place", len(ps), len(is)) {
		return
	}
	for n, p := range ps {
		i := is[n]
		if !u.ob(!p.bad && i.kind != '?', "pairing", u.e, "how the text or the arguments are put together was not recognised") {
			return
		}
		if p.rec != nil || i.kind == '*' {
			if !u.ob(i.kind == '*' && p.rec == i.rec, "pairing", u.e, "placeholders and arguments are not added by the same loop") {
				return
			}
			for a := range p.alts {
				u.id = nil
				u.align(p.alts[a], i.alts[a], p.rec)
				u.ob(len(p.alts[a]) > 0, "coverage", u.e, "an iteration may add nothing to the update")
			}
			continue
		}
		v := stripIface(i.t)
		switch {
		case whenText.MatchString(p.before):
			if !u.ob(v.Op == "rkey", "pairing", u.e, "the value at \"when id =\" is not the id: %v", v) {
				continue
			}
			u.id = v
			if u.U == nil {
				u.U = v.Args[0]
			}
			u.ob(u.U == v.Args[0] && rec != nil && ofIteration(v, rec) && u.full(rec, u.U), "coverage", u.e, "not every id of the update is gone through")
		case thenText.MatchString(p.before):
			cl := cellOf(v)
			if !u.ob(cl != nil && u.id != nil, "pairing", u.e, "the value at \"then\" is not a field's new value: %v", v) {
				continue
			}
			row := cellOf(cl.Args[0])
			u.ob(row != nil && row.Args[0] == u.U && row.Args[1] == u.id, "pairing", u.e, "the value belongs to %v, the id before it is %v", row, u.id)
			u.ob(p.column != nil && cl.Args[1] == p.column, "pairing", u.e, "the value is of field %v, the column is %v", cl.Args[1], p.column)
			if row != nil && rec != nil {
				u.pairs++
				u.fields(rec, cl.Args[0], cl.Args[1])
			}
		case inText.MatchString(p.before):
			u.ids++
			u.idList(v)
		default:
			u.ob(false, "pairing", u.e, "a placeholder of the update was not recognised, after %q", p.before)
		}
	}
}

// fields: a record without one of the fields, or with further ones, is an error.
func (u *updateText) fields(rec *LoopRec, row, column *T) {
	bt := types.Typ[types.Bool]
	for _, s := range rec.Back {
		h := u.in.LoadOne(s, Mk("has", "", bt, row, column), bt)
		u.ob(h != nil && (h == True || s.Facts.Proves(h)), "fields", u.e, "an update that lacks a field is not refused")
	}
	var outer *LoopRec // the loop over the fields
	if rs := u.around(rec); len(rs) > 0 {
		outer = rs[len(rs)-1]
	}
	if !u.ob(outer != nil, "fields", u.e, "no loop over the fields was found") {
		return
	}
	// the fields are distinct
	distinct := column.Op == "rkey"
	if L, _ := u.listOf(column); L != nil {
		is := u.items(L)
		distinct = len(is) == 1 && is[0].kind == '*' && u.done[is[0].rec] != nil
		for _, a := range is {
			for _, alt := range a.alts {
				distinct = distinct && len(alt) == 1 && alt[0].kind == 'v' && alt[0].t.Op == "rkey"
			}
		}
	}
	u.ob(distinct, "fields", u.e, "the fields of the update are not the keys of one record")
	// and no record has more
	found := false
	for r, end := range u.done {
		if end.Args[0] != u.U || len(r.Back) == 0 {
			continue
		}
		all := true
		one := map[*T]*T{} // one iteration, not the last one
		for _, l := range append(u.around(r), r) {
			one[l.Iota] = Mk("param", "one:"+l.Tag, types.Typ[types.Int])
			for _, p := range l.Phis {
				if c := l.Cur[p]; c.Op == "phi" {
					one[c] = Mk("param", "one:"+l.Tag+p.Name(), c.Typ)
				}
			}
		}
		for _, s := range r.Back {
			f := u.e.Facts
			for _, g := range s.Facts.List() {
				f = f.With(Subst(g, one))
			}
			eq := false
			for _, g := range s.Facts.List() {
				Contains(g, func(t *T) bool {
					if t.Op == "len" {
						if cl := cellOf(t.Args[0]); cl != nil && cl.Args[0] == u.U && ofIteration(cl.Args[1], r) && f.Proves(EqInt(Subst(t, one), outer.Iota)) {
							eq = true
						}
					}
					return false
				})
			}
			all = all && eq && !f.Infeasible()
		}
		found = found || all
	}
	u.ob(found, "fields", u.e, "an update with further fields is not refused, they would be left out")
}

func (u *updateText) idList(v *T) {
	is := u.items(v)
	ok := len(is) == 1 && is[0].kind == '*' && u.done[is[0].rec] != nil && u.done[is[0].rec].Args[0] == u.U
	for _, a := range is {
		for _, alt := range a.alts {
			ok = ok && len(alt) == 1 && alt[0].kind == 'v' && stripIface(alt[0].t).Op == "rkey" && stripIface(alt[0].t).Args[0] == u.U
		}
	}
	u.ob(ok, "coverage", u.e, "the ids the update is restricted to are not all the ids given: %v", v)
}

// chunksOfUpdates: the statement is about all given updates, or about one chunk of them.
func (b *batchPath) chunksOfUpdates(e *Event, U *T) {
	var given *T
	for _, p := range Params(b.fn) {
		if isMap(p) {
			given = p
		}
	}
	if U == given {
		b.ob(len(b.enclosing(e)) == 0, "chunks", e, "all updates are sent several times")
		return
	}
	var out *LoopRec // the loop that hands the updates out to chunks
	for _, x := range b.evs {
		if r := x.Loop; x.Kind == "loop" && r != nil && len(r.Back) > 0 && (b.full(r, given) || b.fails()) {
			puts := true
			for _, s := range r.Back {
				puts = puts && b.put(r, s, given) != nil
			}
			if puts {
				out = r
			}
		}
	}
	if !b.ob(out != nil, "chunks", e, "no loop puts every update into a chunk") {
		return
	}
	var L *T // the list of the chunks to send
	if recs := b.enclosing(e); len(recs) > 0 && recs[0] != out {
		L = b.chunkList(e, U, recs[0])
		if !b.ob(L != nil, "chunks", e, "no list of chunks that the loop goes through was recognised") {
			return
		}
		b.ob(b.fails() || !recs[0].Partial(b.x) && b.x.Facts.Proves(EqInt(recs[0].Iota, LenOf(L))), "chunks", e, "not every chunk is sent")
	}
	holds := func(is []item, m *T) bool {
		for _, i := range is {
			if i.kind == 'v' && i.t == m {
				return true
			}
		}
		return false
	}
	sent := func(n int, evs []*Event, m *T) bool { // the chunk m is sent, or put into the list of the chunks to send
		ok := false
		visit(evs, func(x *Event, _ *State) {
			ok = ok || x == e && m == U
			if k, g := b.sends(x); k == 'u' && g != nil {
				ok = ok || g == m
			}
		})
		if L == nil {
			return ok
		}
		is := b.items(L)
		if n < 0 {
			return ok || holds(is, m)
		}
		for _, i := range is {
			if i.kind == '*' && i.rec == out && holds(i.alts[n], m) {
				return true
			}
		}
		return ok
	}
	for n, s := range out.Back {
		m := b.put(out, s, given)
		handed := sent(n, backEvents(out, s), m)
		var held *ssa.Phi
		for _, p := range out.Phis {
			if b.in.BackVal(out, s, p) == m {
				held = p
			}
		}
		if held == nil {
			b.ob(handed, "chunks", e, "an update may be put into a chunk that is dropped")
			continue
		}
		sub := b.step(out, s)
		old := map[*T]bool{}
		for _, g := range out.Head.Facts.List() {
			old[g] = true
		}
		follows := func(facts *FactNode) bool {
			f := s.Facts
			for _, g := range facts.List() {
				if !old[g] {
					f = f.With(Subst(g, sub))
				}
			}
			return !f.Infeasible()
		}
		last := sent(-1, b.after(out), out.Cur[held])
		if handed { // the chunk is complete: nothing is put into it any more, and it is not sent again
			for _, z := range out.Back {
				if b.put(out, z, given) == out.Cur[held] {
					b.ob(!follows(z.Facts), "chunks", e, "a chunk may be filled further and sent again after it was sent")
				}
			}
			b.ob(!last || !follows(b.x.Facts), "chunks", e, "the last chunk may be sent twice")
			continue
		}
		// the chunk is still being filled: what follows must go on with it or send it
		for _, z := range out.Back {
			if b.put(out, z, given) != out.Cur[held] {
				b.ob(!follows(z.Facts), "chunks", e, "a new chunk may be begun while the last one has not been sent")
			}
		}
		if b.fails() {
			continue
		}
		b.ob(last || !follows(b.x.Facts), "chunks", e, "the last chunk may not be sent")
	}
}

// chunkList is the list whose elements the iterations of a loop send, each its own one.
func (b *batchPath) chunkList(e *Event, U *T, rec *LoopRec) *T {
	var cand []*T
	add := func(t *T) {
		if t != nil && U.Typ != nil && isSlice(t) && t.Typ != nil && types.Identical(elemType(t.Typ), U.Typ) {
			cand = append(cand, t)
		}
	}
	for i := len(b.evs) - 1; i >= 0; i-- {
		switch x := b.evs[i]; {
		case x.Kind == "append" && len(x.Res) == 1:
			add(x.Res[0])
		case x.Kind == "loop" && x.Loop != nil:
			for _, p := range x.Loop.Phis {
				add(x.Loop.Cur[p])
			}
		}
	}
	for _, L := range cand {
		if !b.fails() && !b.x.Facts.Proves(EqInt(rec.Iota, LenOf(L))) {
			continue
		}
		mine, all := false, true
		for _, s := range rec.Back {
			n, me := 0, false
			visit(backEvents(rec, s), func(x *Event, _ *State) {
				if k, _ := b.sends(x); k == 'u' {
					n++
					me = me || x == e
				}
			})
			all = all && n == 1
			if me {
				mine = true
				all = all && b.in.LoadOne(s, Mk("elem", "", types.NewPointer(U.Typ), BaseOf(L), Add(OffOf(L), rec.Iota)), U.Typ) == U
			}
		}
		if mine && all {
			return L
		}
	}
	return nil
}

func (b *batchPath) after(rec *LoopRec) []*Event {
	all := b.x.Ev.List()
	for i, e := range all {
		if e.Kind == "loopend" && e.Loop == rec {
			return all[i+1:]
		}
	}
	return nil
}

// put is the chunk an iteration puts its update into.
func (b *batchPath) put(rec *LoopRec, s *State, given *T) *T {
	for _, e := range backEvents(rec, s) {
		if e.Kind == "store" && e.Name == "mapupdate" {
			cl := e.Args[0]
			if ofIteration(cl.Args[1], rec) && cl.Args[1].Args[0] == given {
				if src := cellOf(e.Val); src != nil && src.Args[0] == given && src.Args[1] == cl.Args[1] {
					return cl.Args[0]
				}
			}
		}
	}
	return nil
}
