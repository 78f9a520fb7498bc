package checks

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C21", Title: "data values reach SQL only as bind arguments", Level: "other",
		Rule: "Backward value slice (through phis, concatenation, formatting and string functions, slices and the module's own helpers) of every SQL text position of every gorm call (first argument of Exec/Raw, textual query of Where/Not/Or/Having/Order/Group/Select/Joins, table name): its leaves may only be constants, counts, string parameters (table and column names) and keys of string-keyed maps (column names); a leaf that is an id, an interface value, a map value or anything else is reported.",
		Run:  sqlText, Tech: "taint analysis: interprocedural backward slice over Go SSA",
		Note:   "Holds for every input because no data value has a flow into statement text. Trusts gorm to pass bind arguments as such and a caller to pass real column names (as the property allows).",
		Assume: []string{"gorm binds its variadic arguments and map conditions as values"}})
	register(&Check{ID: "C22", Title: "database failures are always reported", Level: "other",
		Rule: "On every path of every exported database helper that returns a nil error, the facts of the path entail that the Error of every statement issued on it is nil and that every record conversion (json) on it succeeded; statements in loops are obligations at the loop's back edge. A chunk of a split operation is sent only where the facts entail that every chunk before it went through. Paths that issue an insert statement over a batch also know that RowsAffected is not zero.",
		Run:  dbFailures, Tech: "error-propagation dataflow over a path-partitioned abstract interpretation of Go SSA",
		Note:   "All outcomes of all statements are covered. Trusts gorm to report failures in DB.Error and DB.RowsAffected.",
		Assume: []string{"gorm reports statement failures in DB.Error"}})
	register(&Check{ID: "C24", Title: "deletes and updates carry the caller's condition", Level: "other",
		Rule: "Every Delete/Update/Updates statement the helpers issue is built on a chain that starts at the given database handle, selects the table parameter, and has a condition: a Where with an equality or membership query on id whose bind argument is the caller's id(s), or the caller's where argument itself. Update statements written as text end in a condition on id bound to exactly the ids of the update map. The soft delete issues no removing statement and updates exactly the update and deletion stamps, from the clock.",
		Run:  dbConditions, Tech: "call-chain typestate over a path-partitioned abstract interpretation of Go SSA",
		Note:   "Covers every path and input. Trusts gorm to apply the condition it is given; an empty where map is gorm's to refuse.",
		Assume: []string{"gorm applies the conditions of the chain a statement is issued on"}})
}

const gormDB = "(*gorm.io/gorm.DB)."

var finishers = map[string]bool{"Exec": true, "Create": true, "CreateInBatches": true, "Save": true, "Delete": true, "Update": true, "Updates": true, "UpdateColumn": true, "UpdateColumns": true, "First": true, "Last": true, "Take": true, "Find": true, "Scan": true, "Count": true, "Pluck": true, "FirstOrCreate": true, "FirstOrInit": true, "FindInBatches": true}

// statement: the event issues an SQL statement; its name is returned.
func statement(e *Event) string {
	if e.Kind != "call" || !strings.HasPrefix(e.Name, gormDB) {
		return ""
	}
	if n := strings.TrimPrefix(e.Name, gormDB); finishers[n] {
		return n
	}
	return ""
}

// dbField reads a field of the *gorm.DB a call returned.
func dbField(in *Interp, s *State, r *T, name string) *T {
	n := namedOf(r.Typ)
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return in.LoadOne(s, FieldAddr(r, n, i), st.Field(i).Type())
		}
	}
	return nil
}

func dbErr(in *Interp, s *State, e *Event) *T {
	if statement(e) != "" && len(e.Res) == 1 {
		return dbField(in, s, e.Res[0], "Error")
	}
	if e.Kind == "call" && strings.Contains(e.Name, "encoding/json.") {
		return errRes(e)
	}
	if e.Kind == "reccall" || batchCall(e) != nil {
		return errRes(e)
	}
	return nil
}

// batchCall: the call of a helper that sends a batch and is judged by itself.
func batchCall(e *Event) *ssa.Function {
	if e.Kind == "call" {
		if ci, ok := e.Instr.(ssa.CallInstruction); ok {
			if f := ci.Common().StaticCallee(); f != nil && batchHelper(f) {
				return f
			}
		}
	}
	return nil
}

func batchHelper(f *ssa.Function) bool {
	return f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/gorm_tools") && f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil && batchShaped(f)
}

// dbInterp analyses a helper; the batch helpers it calls are judged by themselves.
func dbInterp(c *Ctx, fn *ssa.Function) *Interp {
	return NewInterp(c.P, &Config{NoInline: func(f *ssa.Function) bool { return f != fn && batchHelper(f) }})
}

func dbHelpers(c *Ctx) []*ssa.Function { return exportedFuncs(c.P, "gorm_tools") }

func dbFailures(c *Ctx) {
	stm, conv := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	helpers, inserts := 0, 0
	for _, fn := range dbHelpers(c) {
		in := dbInterp(c, fn)
		exits := in.Run(fn)
		c.Complete(in, fn)
		name := ShortName(fn)
		any := false
		for _, e := range allEvents(exits) {
			if statement(e) != "" {
				stm[e.Instr] = true
				any = true
				if ok := len(e.Res) == 1 && e.Res[0] != nil; !ok {
					c.Fail("failure-reported", name+" "+e.Name, e.Pos, "the result of the statement is dropped")
				}
			} else if e.Kind == "call" && strings.Contains(e.Name, "encoding/json.") && errRes(e) != nil {
				conv[e.Instr] = true
			} else if batchCall(e) != nil {
				any = true
				c.Ob(errRes(e) != nil, "failure-reported", name+" "+e.Name, e.Pos, "the result of the batch is dropped")
			}
		}
		if !any {
			continue
		}
		helpers++
		rs := fn.Signature.Results()
		if !c.Ob(rs.Len() > 0 && isErrType(rs.At(rs.Len()-1).Type()), "returns-error", name, fn.Pos(), "the helper issues statements but has no error result") {
			continue
		}
		for _, x := range exits {
			if x.Kind != "return" {
				continue
			}
			c.failuresOnPath(in, fn, name, x, dbErr)
			c.firstFailureEnds(in, name, x.Ev.List(), nil, nil)
			for _, rec := range loopsOf([]*Exit{x}) {
				for _, b := range rec.Back {
					c.firstFailureEnds(in, name, backEvents(rec, b), rec, b)
				}
			}
			ret := x.Res[len(x.Res)-1]
			f := x.Facts
			if failedErr(f, ret) {
				continue
			}
			if ret != Nil {
				f = f.With(Eq(ret, Nil))
			}
			rows := func(evs []*Event, s *State, f *FactNode) {
				for _, e := range evs {
					if statement(e) == "Exec" && insertText(in, e) {
						inserts++
						n := dbField(in, s, e.Res[0], "RowsAffected")
						c.Ob(n != nil && f.Proves(Not(EqInt(n, Int(0)))), "no-row-reported", name, e.Pos, "a batch insert that affected no row can be reported as success")
					}
				}
			}
			rows(x.Ev.List(), x.State, f)
			for _, rec := range loopsOf([]*Exit{x}) {
				for _, b := range rec.Back {
					rows(backEvents(rec, b), b, b.Facts)
				}
			}
		}
	}
	c.Need("statements", len(stm), 2)
	c.Need("record conversions", len(conv), 1)
	c.Need("database helpers", helpers, 10)
	c.Need("batch insert statements on success paths", inserts, 1)
}

// firstFailureEnds: a chunk is sent only when the chunks before it went through.
func (c *Ctx) firstFailureEnds(in *Interp, name string, evs []*Event, rec *LoopRec, b *State) {
	var sent []*Event
	for _, e := range evs {
		if e.Kind != "reccall" && batchCall(e) == nil {
			continue
		}
		t := errRes(e)
		if t == nil {
			continue
		}
		for _, p := range sent {
			c.Ob(noErr(e.Facts, errRes(p)), "first-failure-ends", name+" "+e.Name, e.Pos, "a chunk is sent although one before it may have failed")
		}
		sent = append(sent, e)
	}
	if rec == nil {
		return
	}
	for _, p := range sent {
		t := errRes(p)
		if noErr(b.Facts, t) {
			continue
		}
		ok := false
		for _, ph := range rec.Phis { // for … && err == nil
			if rec.Cur[ph] != nil && isErrType(ph.Type()) && in.BackVal(rec, b, ph) == t {
				ok = true
				for _, bb := range rec.Back {
					for _, e := range backEvents(rec, bb) {
						if (e.Kind == "reccall" || batchCall(e) != nil) && !noErr(e.Facts, rec.Cur[ph]) {
							ok = false
						}
					}
				}
			}
		}
		c.Ob(ok, "first-failure-ends", name+" "+p.Name, p.Pos, "the loop goes on to further chunks although this one may have failed")
	}
}

// insertText: the statement text of an Exec call starts with "insert".
func insertText(in *Interp, e *Event) bool {
	return strings.HasPrefix(strings.ToLower(strings.TrimSpace(leadText(in, e.Args[1], 0))), "insert")
}

// leadText is the constant text a string value starts with.
func leadText(in *Interp, t *T, depth int) string {
	if t == nil || depth > 8 {
		return ""
	}
	switch {
	case t.Op == "str" || t.Op == "const":
		if s, ok := StrConst(t); ok {
			return s
		}
	case t.Op == "concat":
		return leadText(in, t.Args[0], depth+1)
	case t.Op == "iface" || t.Op == "conv":
		return leadText(in, t.Args[0], depth+1)
	case t.Op == "phi":
		for _, rec := range in.Loops {
			for p, v := range rec.Cur {
				if v == t {
					return leadText(in, rec.Init[p], depth+1)
				}
			}
		}
	case t.Op == "hv" && len(t.Args) > 0: // a text held in memory that a loop extends
		for _, rec := range in.Loops {
			if rec.Tag == t.Aux && t.Typ != nil && in.LoadOne(rec.Head, t.Args[0], t.Typ) == t {
				return leadText(in, in.LoadOne(rec.Entry, t.Args[0], t.Typ), depth+1)
			}
		}
	case strings.HasPrefix(t.Op, "call") && len(t.Args) > 0:
		return leadText(in, t.Args[0], depth+1)
	}
	return ""
}

// ---- C24 ----

var idQuery = regexp.MustCompile("(?i)^\\s*`?id`?\\s*(=\\s*\\?|in\\s*\\(?\\s*\\?\\s*\\)?)\\s*$")

func dbConditions(c *Ctx) {
	changing, helpers := 0, 0
	for _, fn := range dbHelpers(c) {
		in := dbInterp(c, fn)
		exits := in.Run(fn)
		name := ShortName(fn)
		ps := Params(fn)
		var table *T
		cond := map[*T]bool{}
		isUpd := map[*T]bool{}
		for i, p := range Body(fn).Params {
			n := strings.ToLower(p.Name())
			switch {
			case table == nil && isString(p.Type()):
				table = ps[i]
			case strings.Contains(n, "update"):
				isUpd[ps[i]] = true
			case isCondType(p.Type()):
				cond[ps[i]] = true
			}
		}
		any, removing, updating := false, false, 0
		for _, x := range exits {
			if x.Kind != "return" {
				continue
			}
			evs := x.Ev.List()
			for i, e := range evs {
				switch statement(e) {
				case "Delete", "Update", "Updates", "UpdateColumn", "UpdateColumns", "Save":
				case "Exec":
					c.rawUpdate(in, name, x, e)
					if !insertText(in, e) {
						any = true
						changing++
					}
					continue
				default:
					continue
				}
				any = true
				changing++
				if statement(e) == "Delete" {
					removing = true
				} else {
					updating++
				}
				c.condition(in, name, x, evs[:i], e, table, cond)
				if strings.HasPrefix(statement(e), "Update") && len(isUpd) > 0 {
					v := stripIface(e.Args[1])
					c.Ob(v.Op == "alloc" || Contains(v, func(y *T) bool { return isUpd[y] }), "writes-callers-values", name+" "+e.Name, e.Pos, "the update writes %s, not the caller's values", v)
				}
			}
		}
		if any {
			helpers++
			c.Complete(in, fn)
		}
		if strings.HasPrefix(fn.Name(), "SoftDel") {
			c.Ob(!removing, "soft-delete-keeps-rows", name, fn.Pos(), "the soft delete issues a removing statement")
			c.Ob(updating > 0, "soft-delete-marks", name, fn.Pos(), "the soft delete issues no update")
			c.softDelete(in, name, exits)
		}
	}
	c.Need("changing statements (per path)", changing, 6)
	c.Need("helpers with changing statements", helpers, 6)
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// isCondType: ids, id lists and condition maps.
func isCondType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsInteger != 0
	case *types.Slice:
		return isCondType(u.Elem())
	case *types.Map:
		return isString(u.Key())
	}
	return false
}

// condition walks the chain of a statement back to the database handle.
func (c *Ctx) condition(in *Interp, name string, x *Exit, before []*Event, e *Event, table *T, cond map[*T]bool) {
	okTable, okCond, why := false, false, "no condition is attached to the statement"
	mentions := func(t *T) bool { return Contains(t, func(y *T) bool { return cond[y] }) }
	whereArgs := func(at *Event, q *T, args *T) {
		q = stripIface(q)
		if cond[q] {
			okCond = true
			return
		}
		if s, ok := StrConst(q); ok {
			if !idQuery.MatchString(s) {
				why = "the condition " + s + " does not select the named rows"
				return
			}
			n := 0
			if args != nil && args != Nil {
				for k := int64(0); k < 3; k++ {
					if !x.Facts.Proves(Lt(Int(k), LenOf(args))) {
						break
					}
					v := in.LoadAt(at, Mk("elem", "", nil, BaseOf(args), Add(OffOf(args), Int(k))), types.NewInterfaceType(nil, nil))
					v = stripIface(v)
					if v != nil && cond[v] {
						n++
					}
				}
			}
			if n == 1 {
				okCond = true
			} else {
				why = "the condition " + s + " is not bound to the caller's id(s)"
			}
			return
		}
		if mentions(q) {
			okCond = true
		}
	}
	if statement(e) == "Delete" && len(e.Args) > 2 && e.Args[2] != Nil {
		// inline conditions
		a := e.Args[2]
		if x.Facts.Proves(Lt(Int(0), LenOf(a))) {
			q := in.LoadAt(e, Mk("elem", "", nil, BaseOf(a), OffOf(a)), types.NewInterfaceType(nil, nil))
			if q != nil {
				if cond[stripIface(q)] {
					okCond = true
				} else {
					rest := SliceT(BaseOf(a), Add(OffOf(a), Int(1)), Sub(LenOf(a), Int(1)), Sub(LenOf(a), Int(1)), a.Typ)
					whereArgs(e, q, rest)
				}
			}
		}
	}
	cur := e.Args[0]
	for steps := 0; steps < 20; steps++ {
		var prev *Event
		for _, p := range before {
			if len(p.Res) > 0 && p.Res[0] == cur {
				prev = p
			}
		}
		if prev == nil {
			break
		}
		switch strings.TrimPrefix(prev.Name, gormDB) {
		case "Table":
			if stripIface(prev.Args[1]) == table {
				okTable = true
			}
		case "Where":
			whereArgs(prev, prev.Args[1], prev.Args[2])
		case "Or", "Not", "Unscoped", "Session":
			if strings.HasSuffix(prev.Name, "Or") || strings.HasSuffix(prev.Name, "Not") {
				okCond = false
				why = "the condition is widened by " + callMethod(prev)
				c.Fail("condition", name+" "+e.Name, e.Pos, "%s", why)
				return
			}
		}
		if len(prev.Args) == 0 {
			break
		}
		cur = prev.Args[0]
	}
	c.Ob(cur.Op == "param", "on-given-handle", name+" "+e.Name, e.Pos, "the statement is not issued on the given database handle")
	c.Ob(okTable, "names-table", name+" "+e.Name, e.Pos, "the statement is not issued on the caller's table")
	c.Ob(okCond, "condition", name+" "+e.Name, e.Pos, "%s", why)
}

// softDelete: what an update writes.
func (c *Ctx) softDelete(in *Interp, name string, exits []*Exit) {
	for _, x := range exits {
		keys := map[string]*T{}
		for _, e := range x.Ev.List() {
			if e.Kind == "store" && e.Args[0].Op == "cell" && e.Args[0].Args[0].Op == "alloc" {
				k, ok := StrConst(stripIface(e.Args[0].Args[1]))
				c.Ob(ok, "stamps-only", name, e.Pos, "a column that is not a constant is written")
				keys[k] = stripIface(e.Val)
			}
			if statement(e) == "Updates" {
				for k, v := range keys {
					c.Ob(k == "updated_at" || k == "deleted_at", "stamps-only", name+" "+k, e.Pos, "the soft delete writes column %q", k)
					c.Ob(Contains(v, func(y *T) bool { return y.Op == "now" }), "stamps-from-clock", name+" "+k, e.Pos, "column %q gets %s, not the current time", k, v)
				}
				c.Ob(keys["updated_at"] != nil && keys["deleted_at"] != nil, "stamps-both", name, e.Pos, "the soft delete does not write both updated_at and deleted_at")
			}
		}
	}
}

// rawUpdate: an update or delete written as text ends in a condition on the ids of the update map.
func (c *Ctx) rawUpdate(in *Interp, name string, x *Exit, e *Event) {
	lead := strings.ToLower(strings.TrimSpace(leadText(in, e.Args[1], 0)))
	if strings.HasPrefix(lead, "insert") || strings.HasPrefix(lead, "select") {
		return
	}
	tail := tailText(in, e.Args[1], 0)
	i := strings.Index(strings.ToLower(tail), "where")
	ok := i >= 0 && idQuery.MatchString(tail[i+5:])
	c.Ob(ok, "condition", name+" "+e.Name, e.Pos, "a statement given as text does not end in a condition on id (its constant end is %q)", tail)
}

// tailText is the constant text a string value ends with.
func tailText(in *Interp, t *T, depth int) string {
	if t == nil || depth > 8 {
		return ""
	}
	if s, ok := StrConst(t); ok {
		return s
	}
	switch t.Op {
	case "concat":
		return tailText(in, t.Args[len(t.Args)-1], depth+1)
	case "iface", "conv":
		return tailText(in, t.Args[0], depth+1)
	}
	return ""
}

// ---- C21 ----

type slicer struct {
	p       *Program
	seen    map[ssa.Value]bool
	bad     []string
	badPos  token.Pos
	callers map[*ssa.Function][]ssa.CallInstruction
}

func sqlText(c *Ctx) {
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	var funcs []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || !strings.HasPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), ModulePath+"/"), "gorm_tools") {
			continue
		}
		for _, g := range append([]*ssa.Function{f}, anonAll(f)...) {
			funcs = append(funcs, g)
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok {
						if sc := ci.Common().StaticCallee(); sc != nil {
							callers[sc] = append(callers[sc], ci)
						}
					}
				}
			}
		}
	}
	sinks := 0
	for _, f := range funcs {
		c.Fns[ShortName(f)] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				sc := ci.Common().StaticCallee()
				if sc == nil || sc.Pkg == nil || !strings.HasPrefix(sc.Pkg.Pkg.Path(), "gorm.io/") && sc.Pkg.Pkg.Path() != "database/sql" {
					continue
				}
				args := ci.Common().Args
				if sc.Signature.Recv() != nil && len(args) > 0 {
					args = args[1:]
				}
				var texts []ssa.Value
				switch sc.Name() {
				case "Exec", "Raw", "Table", "Order", "Group", "Joins", "Select", "Omit", "Where", "Not", "Or", "Having", "Distinct", "ExecContext", "Query", "QueryContext", "Expr":
					if len(args) > 0 {
						texts = append(texts, args[0])
					}
					if sc.Name() == "ExecContext" || sc.Name() == "QueryContext" {
						texts = args[1:2]
					}
				case "Delete", "First", "Find", "Take", "Last":
					// inline conditions: the first variadic argument is text
					if len(args) > 1 {
						if v := firstVariadic(args[1]); v != nil {
							texts = append(texts, v)
						}
					}
				}
				for _, t := range texts {
					sinks++
					s := &slicer{p: c.P, seen: map[ssa.Value]bool{}, callers: callers}
					s.walk(t, sc.Name() == "Where" || sc.Name() == "Not" || sc.Name() == "Or")
					why := ""
					if len(s.bad) > 0 {
						why = s.bad[0]
					}
					c.Ob(len(s.bad) == 0, "values-only-bound", ShortName(f)+" "+sc.Name(), ci.Pos(), "statement text of %s may contain %s", sc.Name(), why)
					c.Add("values sliced", len(s.seen))
				}
			}
		}
	}
	c.Need("statement text positions", sinks, 1)
}

func anonAll(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, a := range f.AnonFuncs {
		out = append(out, a)
		out = append(out, anonAll(a)...)
	}
	return out
}

// firstVariadic finds the value stored at index 0 of a variadic argument slice.
func firstVariadic(v ssa.Value) ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	for _, r := range *sl.X.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			if k, ok := ia.Index.(*ssa.Const); ok && k.Int64() == 0 {
				for _, u := range *ia.Referrers() {
					if st, ok := u.(*ssa.Store); ok {
						return st.Val
					}
				}
			}
		}
	}
	return nil
}

func (s *slicer) fail(v ssa.Value, what string) {
	s.bad = append(s.bad, what+" ("+v.Name()+" of type "+types.TypeString(v.Type(), nil)+", "+s.p.Pos(v.Pos())+")")
}

// walk follows a text value to its sources. cond: a map condition is acceptable here.
func (s *slicer) walk(v ssa.Value, cond bool) {
	if s.seen[v] {
		return
	}
	s.seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Unknown {
			s.fail(v, "an unknown constant")
		}
	case *ssa.Parameter:
		fn := x.Parent()
		isStr := isString(x.Type())
		if sl, ok := x.Type().Underlying().(*types.Slice); ok {
			isStr = isString(sl.Elem())
		}
		if m, ok := x.Type().Underlying().(*types.Map); ok && cond && isString(m.Key()) {
			return
		}
		if !token.IsExported(fn.Name()) || fn.Parent() != nil {
			idx := -1
			for i, p := range fn.Params {
				if p == x {
					idx = i
				}
			}
			cs := s.callers[fn]
			if len(cs) > 0 && idx >= 0 {
				for _, ci := range cs {
					s.walk(ci.Common().Args[idx], cond)
				}
				return
			}
		}
		if !isStr {
			s.fail(v, "the caller's value "+x.Name())
		}
	case *ssa.FreeVar:
		s.fail(v, "a captured variable")
		fn := x.Parent()
		for i, fv := range fn.FreeVars {
			if fv != x {
				continue
			}
			s.bad = s.bad[:len(s.bad)-1]
			for _, b := range fn.Parent().Blocks {
				for _, ins := range b.Instrs {
					if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == fn {
						s.walk(mc.Bindings[i], cond)
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.walk(e, cond)
		}
	case *ssa.BinOp:
		s.walk(x.X, false)
		s.walk(x.Y, false)
	case *ssa.MakeInterface:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok && cond && isString(m.Key()) {
			return
		}
		s.walk(x.X, cond)
	case *ssa.ChangeType:
		s.walk(x.X, cond)
	case *ssa.ChangeInterface:
		s.walk(x.X, cond)
	case *ssa.Convert:
		s.walk(x.X, false)
	case *ssa.Slice:
		s.walk(x.X, false)
	case *ssa.Alloc:
		s.stores(x)
	case *ssa.MakeSlice:
		s.stores(x)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				s.walk(a.(ssa.Value), cond)
			case *ssa.IndexAddr:
				s.walk(a.X, false)
			case *ssa.Global:
				s.walk(a, false)
			case *ssa.FieldAddr:
				s.fail(v, "a field value")
			default:
				s.fail(v, "a value from memory")
			}
			return
		}
		s.walk(x.X, false)
	case *ssa.Global:
		if !isString(x.Type().(*types.Pointer).Elem()) {
			s.fail(v, "a package variable")
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				if m, ok := r.X.Type().Underlying().(*types.Map); ok && x.Index == 1 && isString(m.Key()) {
					return
				}
			}
			s.fail(v, "a value taken from a map or text")
		case *ssa.Call:
			s.call(t, x.Index)
		case *ssa.Lookup:
			s.fail(v, "a map value")
		default:
			s.fail(v, "a computed value")
		}
	case *ssa.Call:
		s.call(x, 0)
	case *ssa.Lookup:
		s.fail(v, "a map value")
	default:
		s.fail(v, "a value that cannot be followed")
	}
}

// stores walks everything stored into a local variable or slice.
func (s *slicer) stores(v ssa.Value) {
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.Store:
			if u.Addr == v {
				s.walk(u.Val, false)
			}
		case *ssa.IndexAddr:
			if u.X == v {
				for _, w := range *u.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == u {
						s.walk(st.Val, false)
					}
				}
			}
		case *ssa.Slice:
			if u.X == v {
				s.alias(u)
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == v {
					fv := u.Fn.(*ssa.Function).FreeVars[i]
					for _, w := range *fv.Referrers() {
						if st, ok := w.(*ssa.Store); ok && st.Addr == fv {
							s.walk(st.Val, false)
						}
					}
				}
			}
		}
	}
}

// alias walks the values written through another name of a slice.
func (s *slicer) alias(v ssa.Value) {
	for _, r := range *v.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok && ia.X == v {
			for _, w := range *ia.Referrers() {
				if st, ok := w.(*ssa.Store); ok && st.Addr == ia {
					s.walk(st.Val, false)
				}
			}
		}
	}
}

var textFuncs = map[string]bool{"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true}

func (s *slicer) call(x *ssa.Call, idx int) {
	com := x.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for _, a := range com.Args {
				s.walk(a, false)
			}
			s.alias(x)
		case "len", "cap":
		default:
			s.fail(x, "the result of "+b.Name())
		}
		return
	}
	sc := com.StaticCallee()
	if sc == nil || sc.Pkg == nil {
		s.fail(x, "the result of a dynamic call")
		return
	}
	if fn := Body(sc); fn != nil && strings.HasPrefix(sc.Pkg.Pkg.Path(), ModulePath) {
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				s.walk(r.Results[idx], false)
			}
		}
		return
	}
	switch sc.Pkg.Pkg.Path() {
	case "strings", "strconv", "fmt", "bytes", "sort", "slices", "maps", "unicode/utf8":
		for i, a := range com.Args {
			if sc.Name() == "Repeat" && i == 1 {
				continue // a count
			}
			if sc.Signature.Recv() != nil && i == 0 { // a builder: everything written to it
				s.builder(a)
				continue
			}
			s.walk(a, false)
		}
		return
	}
	s.fail(x, "the result of "+sc.String())
}

// builder walks everything written to a text builder or buffer.
func (s *slicer) builder(v ssa.Value) {
	if s.seen[v] {
		return
	}
	s.seen[v] = true
	rs := v.Referrers()
	if rs == nil {
		s.fail(v, "an unknown text builder")
		return
	}
	switch v.(type) {
	case *ssa.Alloc:
	default:
		s.fail(v, "a text builder that is not local")
		return
	}
	for _, r := range *rs {
		ci, ok := r.(ssa.CallInstruction)
		if !ok {
			continue
		}
		for _, a := range ci.Common().Args {
			if a == v {
				continue
			}
			if mi, ok := a.(*ssa.MakeInterface); ok && mi.X == v {
				continue
			}
			s.walk(a, false)
		}
	}
	for _, r := range *rs { // fmt.Fprintf(&b, ...)
		mi, ok := r.(*ssa.MakeInterface)
		if !ok {
			continue
		}
		for _, u := range *mi.Referrers() {
			if ci, ok := u.(ssa.CallInstruction); ok {
				for _, a := range ci.Common().Args {
					if a != ssa.Value(mi) {
						s.walk(a, false)
					}
				}
			}
		}
	}
}
