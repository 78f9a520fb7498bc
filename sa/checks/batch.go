package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

// C23: how the text and the arguments of a batch statement were put together.

// textPart is a part of a text: constant, unknown, repeated by a loop or a call.
type textPart struct {
	kind byte // l constant, h unknown term, * loop, r repeated t times, j joined elements, c the value at the loop head, ? undecided
	s    string
	t    *T
	rec  *LoopRec
	alts [][]textPart
	ev   *Event
}

// item is a part of a list of values.
type item struct {
	kind byte // v value, s elements of another slice, * loop, c the value at the loop head, ? undecided
	t    *T
	ev   *Event
	rec  *LoopRec
	alts [][]item
}

type batchPath struct {
	x     *Exit
	u     *batchUnit
	units map[*ssa.Function]*batchUnit
	c     *Ctx
	in    *Interp
	fn    *ssa.Function
	evs   []*Event            // of the path (loops' iterations included)
	by    map[*T][]*Event     // events by their result: one per path that has it
	app   map[*T][]*Event     // appends by their result
	at    []*State            // the iterations being looked at, innermost last
	done  map[*LoopRec]*Event // the map ranges that always end by exhaustion: rangeend event
	ends  map[*LoopRec][]*FactNode
	cur   map[*T]bool
}

func newBatch(c *Ctx, in *Interp, fn *ssa.Function, x *Exit) *batchPath {
	path := x.Ev.List()
	b := &batchPath{x: x, c: c, in: in, fn: fn, by: map[*T][]*Event{}, app: map[*T][]*Event{}, done: map[*LoopRec]*Event{}, ends: map[*LoopRec][]*FactNode{}, cur: map[*T]bool{}}
	visit(path, func(e *Event, _ *State) {
		b.evs = append(b.evs, e)
		for _, r := range e.Res {
			if e.Kind == "append" {
				if r != e.Args[0] && r != e.Args[1] {
					b.app[r] = append(b.app[r], e)
				}
			} else {
				b.by[r] = append(b.by[r], e)
			}
		}
	})
	b.ranges(path)
	return b
}

// made is the event whose result t is, on the path at hand if different paths name their results alike.
func (b *batchPath) made(m map[*T][]*Event, t *T) *Event {
	es := m[t]
	if len(es) < 2 {
		if len(es) == 1 {
			return es[0]
		}
		return nil
	}
	for i := len(b.at); i >= 0; i-- {
		path := b.x.Ev.List()
		if i > 0 {
			path = b.at[i-1].Ev.List()
		}
		for _, e := range path {
			for _, c := range es {
				if c == e {
					return e
				}
			}
		}
	}
	return es[0]
}

// ranges notes which loops end because a map range is exhausted, on the path and in the iterations, and
// where loops end.
func (b *batchPath) ranges(path []*Event) {
	seen := map[*LoopRec]bool{}
	part := map[*LoopRec]bool{}
	var walk func(evs []*Event, back *State)
	walk = func(evs []*Event, back *State) {
		var open []*LoopRec
		ended := map[*LoopRec]bool{}
		for _, e := range evs {
			switch e.Kind {
			case "loop":
				open = append(open, e.Loop)
				ended[e.Loop] = false
				if !seen[e.Loop] {
					seen[e.Loop] = true
					for _, s := range e.Loop.Back {
						walk(backEvents(e.Loop, s), s)
					}
				}
			case "rangeend":
				if len(open) > 0 {
					l := open[len(open)-1]
					ended[l] = true
					b.done[l] = e
				}
			case "loopend":
				b.ends[e.Loop] = append(b.ends[e.Loop], e.Facts)
				if !ended[e.Loop] {
					part[e.Loop] = true
				}
				for i := len(open) - 1; i >= 0; i-- {
					if open[i] == e.Loop {
						open = open[:i]
						break
					}
				}
			}
		}
		if back != nil { // left straight to the head of the loop around it
			for _, l := range open {
				b.ends[l] = append(b.ends[l], back.Facts)
				if !ended[l] {
					part[l] = true
				}
			}
		}
	}
	walk(path, nil)
	for l := range part {
		delete(b.done, l)
	}
}

// full: the loop goes through all elements of the map, by ranging over it or over the list of its keys.
func (b *batchPath) full(rec *LoopRec, m *T) bool {
	if e := b.done[rec]; e != nil {
		return e.Args[0] == m
	}
	for _, e := range b.ends[rec] {
		if e == nil || !e.Proves(EqInt(rec.Iota, LenOf(m))) {
			return false
		}
	}
	return len(b.ends[rec]) > 0
}

// ofIteration: the key is the one the loop is at.
func ofIteration(key *T, rec *LoopRec) bool {
	return key.Op == "rkey" && len(key.Args) > 1 && key.Args[len(key.Args)-1] == rec.Iota
}

func (b *batchPath) recOf(t *T) (*LoopRec, *ssa.Phi) {
	for _, e := range b.evs {
		if e.Kind == "loop" && e.Loop != nil {
			for _, p := range e.Loop.Phis {
				if e.Loop.Cur[p] == t && e.Loop.Init[p] != t {
					return e.Loop, p
				}
			}
		}
	}
	return nil, nil
}

// text tells how a string was put together.
func (b *batchPath) text(t *T, ev *Event) []textPart {
	t = stripIface(t)
	if b.cur[t] {
		return []textPart{{kind: 'c', t: t}}
	}
	if s, ok := StrConst(t); ok {
		return []textPart{{kind: 'l', s: s}}
	}
	switch {
	case t.Op == "concat":
		var out []textPart
		for _, x := range t.Args {
			out = append(out, b.text(x, ev)...)
		}
		return out
	case strings.HasPrefix(t.Op, "call"):
		name := t.Aux
		if name == "" {
			name = strings.TrimPrefix(t.Op, "call:")
		}
		switch name {
		case "fmt.Sprintf":
			f, ok := StrConst(t.Args[0])
			if !ok {
				break
			}
			var out []textPart
			n := 1
			for i := 0; i < len(f); {
				j := strings.IndexByte(f[i:], '%')
				if j < 0 {
					out = append(out, textPart{kind: 'l', s: f[i:]})
					break
				}
				out = append(out, textPart{kind: 'l', s: f[i : i+j]})
				i += j
				if i+1 >= len(f) {
					break
				}
				if f[i+1] == '%' {
					out = append(out, textPart{kind: 'l', s: "%"})
				} else if n < len(t.Args) {
					out = append(out, b.text(t.Args[n], ev)...)
					n++
				}
				i += 2
			}
			return out
		case "strings.TrimSuffix", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimLeft", "strings.TrimSpace", "strings.Trim", "strings.ToLower", "strings.ToUpper":
			return b.text(t.Args[0], ev)
		case "strings.Repeat":
			return []textPart{{kind: 'r', t: t.Args[1], alts: [][]textPart{b.text(t.Args[0], ev)}}}
		}
	case t.Op == "substr":
		return b.text(t.Args[0], ev)
	}
	if e := b.made(b.by, t); e != nil && e.Name == "strings.Join" {
		return []textPart{{kind: 'j', t: e.Args[0], ev: e}}
	}
	if e := b.made(b.by, t); e != nil && e.Name == "strings.Repeat" {
		return []textPart{{kind: 'r', t: e.Args[1], alts: [][]textPart{b.text(e.Args[0], e)}}}
	}
	if rec, p := b.recOf(t); rec != nil {
		out := b.text(rec.Init[p], ev)
		return append(out, b.textLoop(rec, t, func(s *State) *T { return b.in.BackVal(rec, s, p) }))
	}
	if t.Op == "hv" && len(t.Args) > 0 && t.Args[0].Op != "elem" && t.Args[0].Op != "cell" { // a string held in memory, the builders' content
		for _, e := range b.evs {
			if e.Kind == "loop" && e.Loop != nil && e.Loop.Tag == t.Aux {
				rec := e.Loop
				iv := b.in.LoadOne(rec.Entry, t.Args[0], t.Typ)
				if iv == nil || b.in.LoadOne(rec.Head, t.Args[0], t.Typ) != t {
					break
				}
				out := b.text(iv, ev)
				return append(out, b.textLoop(rec, t, func(s *State) *T { return b.in.LoadOne(s, t.Args[0], t.Typ) }))
			}
		}
	}
	return []textPart{{kind: 'h', t: t}}
}

func (b *batchPath) textLoop(rec *LoopRec, t *T, back func(*State) *T) textPart {
	b.cur[t] = true
	defer delete(b.cur, t)
	r := textPart{kind: '*', rec: rec, t: t}
	for _, s := range rec.Back {
		v := back(s)
		if v == nil {
			return textPart{kind: '?', t: t}
		}
		b.at = append(b.at, s)
		ps := b.text(v, nil)
		b.at = b.at[:len(b.at)-1]
		if len(ps) == 0 || ps[0].kind != 'c' || ps[0].t != t { // the text is not extended at its end
			return textPart{kind: '?', t: t}
		}
		r.alts = append(r.alts, ps[1:])
	}
	return r
}

// holes counts the placeholders of a text, -1 if that depends on a loop.
func holes(ps []textPart) int {
	n := 0
	for _, p := range ps {
		switch p.kind {
		case 'l':
			n += strings.Count(p.s, "?")
		case '*', 'r', '?':
			for _, a := range p.alts {
				if holes(a) != 0 {
					return -1
				}
			}
			if p.kind == '?' {
				return -1
			}
		}
	}
	return n
}

// items tells how a list of values was put together.
func (b *batchPath) items(t *T) []item {
	t = stripIface(t)
	if b.cur[t] {
		return []item{{kind: 'c', t: t}}
	}
	if IsConst(LenOf(t), 0) {
		return nil
	}
	if e := b.made(b.app, t); e != nil {
		out := b.items(e.Args[0])
		x := e.Args[1]
		if k, ok := ConstOf(LenOf(x)); ok && k.IsInt64() && k.Int64() <= 16 {
			et := elemType(x.Typ, t.Typ)
			for i := int64(0); i < k.Int64(); i++ {
				v := b.in.LoadAt(e, Mk("elem", "", types.NewPointer(et), BaseOf(x), Add(OffOf(x), Int(i))), et)
				if v == nil {
					out = append(out, item{kind: '?', t: t})
					continue
				}
				out = append(out, item{kind: 'v', t: v, ev: e})
			}
			return out
		}
		return append(out, b.items(x)...)
	}
	if rec, p := b.recOf(t); rec != nil {
		out := b.items(rec.Init[p])
		r := item{kind: '*', rec: rec, t: t}
		b.cur[t] = true
		defer delete(b.cur, t)
		for _, s := range rec.Back {
			b.at = append(b.at, s)
			is := b.items(b.in.BackVal(rec, s, p))
			b.at = b.at[:len(b.at)-1]
			if len(is) == 0 || is[0].kind != 'c' || is[0].t != t {
				return append(out, item{kind: '?', t: t})
			}
			r.alts = append(r.alts, is[1:])
		}
		return append(out, r)
	}
	return []item{{kind: 's', t: t}}
}

func elemType(ts ...types.Type) types.Type {
	for _, t := range ts {
		if t != nil {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				return u.Elem()
			case *types.Pointer:
				if a, ok := u.Elem().Underlying().(*types.Array); ok {
					return a.Elem()
				}
			}
		}
	}
	return types.NewInterfaceType(nil, nil)
}

// cellOf is the map element a value was read from.
func cellOf(v *T) *T {
	v = stripIface(v)
	if (v.Op == "hv" || v.Op == "init") && len(v.Args) > 0 && v.Args[0].Op == "cell" {
		return v.Args[0]
	}
	return nil
}

// listOf is the slice an element read belongs to, and the index.
func (b *batchPath) listOf(v *T) (*T, *T) {
	if (v.Op != "hv" && v.Op != "init") || len(v.Args) == 0 || v.Args[0].Op != "elem" {
		return nil, nil
	}
	base, idx := v.Args[0].Args[0], v.Args[0].Args[1]
	if base.Op == "base" {
		return base.Args[0], idx
	}
	for _, e := range b.evs {
		if e.Kind == "loop" && e.Loop != nil {
			for _, p := range e.Loop.Phis {
				if c := e.Loop.Cur[p]; c.Op == "slice" && c.Args[0] == base {
					return c, idx
				}
			}
		}
		if e.Kind == "append" && len(e.Res) == 1 && BaseOf(e.Res[0]) == base {
			return e.Res[0], idx
		}
	}
	return nil, nil
}

// family matches an object made by one iteration against the one made by another: the substitution of
// the loop counters, nil if they are not of one family.
func familyOf(pat, t *T) map[*T]*T {
	if pat == t {
		return map[*T]*T{}
	}
	if pat == nil || t == nil || pat.Op != t.Op || pat.Aux != t.Aux || len(pat.Args) != len(t.Args) {
		return nil
	}
	sub := map[*T]*T{}
	for i, x := range pat.Args {
		if x.Op == "iota" {
			if y := sub[x]; y != nil && y != t.Args[i] {
				return nil
			}
			sub[x] = t.Args[i]
			continue
		}
		s := familyOf(x, t.Args[i])
		if s == nil {
			return nil
		}
		for k, v := range s {
			sub[k] = v
		}
	}
	return sub
}

func isSlice(t *T) bool {
	if t.Typ == nil {
		return t.Op == "slice"
	}
	_, ok := t.Typ.Underlying().(*types.Slice)
	return ok
}

func init() {
	register(&Check{ID: "C23", Title: "Batch statements cover every record and field, values in their own places", Level: "other",
		Rule: "For every statement a batch helper issues, the text and the arguments are traced back to how they were put together (constants, joined lists, loops that extend them). Insert: one placeholder per row bound; one value per column in each row; the value at place j of row k is field column[j] of record k, or nothing because that record has no such field; the list of columns takes every key of every record unless the key is already in it. Update: placeholders and arguments are added by the same loops; at \"when id =\" stands the id the loop is at, at \"then\" the value of the clause's own column in that id's update; a record that lacks a field is refused, so is one with more fields than the list; every loop runs over all updates; the ids at \"where id in\" are all of them. Chunks: the next chunk begins where the last one ended, no chunk is empty, success is only returned after the last record; a map of updates is handed out to chunks that are each sent exactly once, also the last one. Success without a statement only when nothing was given.",
		Run:  batches, Tech: "construction tracing of texts and argument lists over a relational abstract interpretation of Go SSA with loop summaries",
		Note:   "Covers every number of records, every set of fields and every iteration order of the maps, paths of the helpers one by one; a helper shown to send all it is given is judged by its contract in its callers. Trusts gorm to expand a bound list into as many placeholders, and encoding/json to give every field of a record.",
		Assume: []string{"gorm binds arguments to placeholders in order and expands a list bound to a placeholder", "a map is not changed by others during the call"}})
}
