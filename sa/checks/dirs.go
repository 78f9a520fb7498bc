package checks

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C36", Title: "directory and file helpers act on exactly the paths they are given", Level: "other",
		Rule: "Scanning, on every path that succeeds: one listing of the given directory is read and a single loop goes through all its entries; in every iteration of it the result grows by exactly the entry's path (directory, slash, name) if the entry is no directory, and by exactly the result of scanning that path, without error, if it is one; that result is what is returned. " +
			"Creating directories: on success the loop ends after the last listed directory and every iteration has either created exactly its directory without error or seen it to exist as a directory. The single-directory and delete helpers perform exactly one creation or removal, of exactly their argument, and succeed only if it did. Moving: before the rename the directory of the destination was created or seen to exist. None of them creates, renames or removes anything else.",
		Run: dirsRun, Tech: "loop-relational path-partitioned abstract interpretation of Go SSA with effect obligations",
		Note:   "Decides for every directory tree and argument list, as listings and stat results are unconstrained. A recursive scan is judged by induction on the depth: the recursive call is taken to satisfy the rule being checked.",
		Assume: []string{"os.ReadDir lists every entry once", "the tree does not change during a scan"}})
}

var dirMutators = map[string]bool{"os.Mkdir": true, "os.MkdirAll": true, "os.Remove": true, "os.RemoveAll": true, "os.Rename": true, "os.Create": true, "os.OpenFile": true, "os.WriteFile": true, "io/ioutil.WriteFile": true, "os.Symlink": true, "os.Link": true, "os.Truncate": true, "os.Chmod": true, "os.MkdirTemp": true, "os.CreateTemp": true}

func dirsRun(c *Ctx) {
	p := c.P
	get := func(nm string) (*Interp, []*Exit, *ssa.Function) {
		fn := p.Func("help/utils", nm)
		if fn == nil {
			c.Need(nm, 0, 1)
			return nil, nil, nil
		}
		in := NewInterp(p, &Config{})
		exits := in.Run(fn)
		c.Complete(in, fn)
		var ok []*Exit
		for _, x := range exits {
			if x.Kind == "return" && succeeds(x) {
				ok = append(ok, x)
			}
		}
		c.Need("success paths of "+nm, len(ok), 1)
		return in, ok, fn
	}
	// scanning
	if fn := p.Func("help/utils", "ScanDir"); fn != nil {
		c.scan(fn, 0, -1, map[*ssa.Function]bool{})
	} else {
		c.Need("ScanDir", 0, 1)
	}
	// creating a list
	if in, xs, fn := get("CreateDir"); in != nil {
		name := ShortName(fn)
		dirs := Params(fn)[0]
		for _, x := range xs {
			var rec *LoopRec
			for _, e := range x.Ev.List() {
				if e.Kind == "loop" && e.Loop != nil && e.Loop.Iota != nil && x.Facts.Proves(EqInt(e.Loop.Iota, LenOf(dirs))) {
					rec = e.Loop
				}
			}
			if rec == nil {
				c.Ob(x.Facts.Proves(EqInt(LenOf(dirs), Int(0))), "every-directory", name, x.Pos, "a path succeeds without having gone through all directories")
				continue
			}
			elem := func(t *T) bool {
				return t != nil && t.Op == "init" && t.Args[0].Op == "elem" && t.Args[0].Args[0] == BaseOf(dirs) && t.Args[0].Args[1] == Add(OffOf(dirs), rec.Iota)
			}
			for _, s := range rec.Back {
				evs := backEvents(rec, s)
				c.Ob(made(evs, s.Facts, elem, true), "every-directory", name, rec.Pos, "an iteration goes on although its directory was neither created nor seen to exist")
			}
			c.onlyOn(name, x, func(e *Event) bool {
				return (e.Name == "os.MkdirAll" || e.Name == "os.Mkdir" || e.Name == "os.Chmod") && elem(e.Args[0])
			})
		}
	}
	// one directory, removal
	for _, h := range []struct{ nm, call string }{{"MkDir", "os.MkdirAll"}, {"DeLFile", "os.RemoveAll"}} {
		in, xs, fn := get(h.nm)
		if in == nil {
			continue
		}
		name, arg := ShortName(fn), Params(fn)[0]
		for _, x := range xs {
			done := false
			for _, e := range x.Ev.List() {
				if e.Kind == "call" && e.Name == h.call && e.Args[0] == arg && (errRes(e) == x.Res[0] || noErr(x.Facts, errRes(e))) {
					done = true
				}
				if e.Kind == "call" && h.call == "os.RemoveAll" && (e.Name == "os.Stat" || e.Name == "os.Lstat") && e.Args[0] == arg && isTrueOf(x.Facts, "os.IsNotExist", errRes(e)) {
					done = true // there is nothing to remove
				}
			}
			if h.call == "os.MkdirAll" {
				done = done || made(x.Ev.List(), x.Facts, func(t *T) bool { return t == arg }, true)
			}
			c.Ob(done, "own-path", name, x.Pos, "a path succeeds without a successful %s of the argument", h.call)
			c.onlyOn(name, x, func(e *Event) bool {
				return (e.Name == h.call || e.Name == "os.Remove" && h.call == "os.RemoveAll") && e.Args[0] == arg
			})
		}
	}
	// moving
	if in, xs, fn := get("FileMove"); in != nil {
		name, src, dst := ShortName(fn), Params(fn)[0], Params(fn)[1]
		abs := func(t, w *T) bool {
			for isCall(t, "path/filepath.Abs.0", "path/filepath.Clean") {
				t = t.Args[0]
			}
			return t == w
		}
		dir := func(t *T) bool { return t != nil && isCall(t, "path/filepath.Dir") && abs(t.Args[0], dst) }
		for _, x := range xs {
			var before []*Event
			for _, e := range x.Ev.List() {
				if e.Kind == "call" && e.Name == "os.Rename" {
					c.Ob(made(before, e.Facts, dir, false) || loopMade(before, dir), "directory-first", name, e.Pos, "the file is moved before the destination's directory was created or seen to exist")
				}
				before = append(before, e)
			}
			c.onlyOn(name, x, func(e *Event) bool {
				switch e.Name {
				case "os.Rename":
					return abs(e.Args[0], src) && abs(e.Args[1], dst)
				case "os.MkdirAll", "os.Mkdir":
					return dir(e.Args[0])
				}
				return false
			})
		}
	}
}

// loopMade: the last loop of the path is only left, or only gone through again, with the directory made or seen.
func loopMade(evs []*Event, is func(t *T) bool) bool {
	for _, e := range evs {
		if e.Kind != "loop" || e.Loop == nil || len(e.Loop.Back) == 0 {
			continue
		}
		ok := true
		for _, s := range e.Loop.Back {
			ok = ok && made(backEvents(e.Loop, s), s.Facts, is, false)
		}
		if ok && made(evs, e.Facts, is, false) {
			return true
		}
	}
	return false
}

func isTrueOf(f *FactNode, fn string, t *T) bool {
	if t == nil {
		return false
	}
	return f.Proves(Mk("call", fn, types.Typ[types.Bool], t))
}

// made: the directory was created without error, or seen to exist.
func made(evs []*Event, f *FactNode, is func(t *T) bool, dir bool) bool {
	for _, e := range evs {
		if e.Kind != "call" || len(e.Args) == 0 || !is(e.Args[0]) || errRes(e) == nil {
			continue
		}
		switch e.Name {
		case "os.MkdirAll", "os.Mkdir":
			if noErr(f, errRes(e)) {
				return true
			}
		case "os.Stat", "os.Lstat":
			if noErr(f, errRes(e)) && (!dir || seenDir(evs, f, e.Res[0])) {
				return true
			}
		}
	}
	return false
}

// seenDir: the stat result is known to be a directory's.
func seenDir(evs []*Event, f *FactNode, info *T) bool {
	of := map[*T]bool{info: true}
	for _, e := range evs {
		if e.Kind != "call" || len(e.Args) == 0 || !of[e.Args[0]] || len(e.Res) == 0 {
			continue
		}
		switch callMethod(e) {
		case "Mode":
			of[e.Res[0]] = true
		case "IsDir":
			if f.Proves(e.Res[0]) {
				return true
			}
		}
	}
	return false
}

// onlyOn: no other effect on the file system, and not in loops the rule does not look at.
func (c *Ctx) onlyOn(name string, x *Exit, ok func(e *Event) bool) {
	visit(x.Ev.List(), func(e *Event, _ *State) {
		if e.Kind == "call" && dirMutators[e.Name] {
			c.Ob(ok(e), "own-path", name+" "+e.Name, e.Pos, "%s acts on %v, which is not the path the helper was given", e.Name, e.Args[0])
		}
	})
}

// scan: fn(dir[, acc]) returns acc followed by the files below dir.
func (c *Ctx) scan(fn *ssa.Function, di, ai int, seen map[*ssa.Function]bool) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	name := ShortName(fn)
	in := NewInterp(c.P, &Config{})
	exits := in.Run(fn)
	c.Complete(in, fn)
	dir := Params(fn)[di]
	var acc *T
	if ai >= 0 {
		acc = Params(fn)[ai]
	}
	trimmed := func(t *T) bool {
		return isCall(t, "strings.TrimSuffix", "strings.TrimRight") && len(t.Args) == 2 && t.Args[0] == dir && t.Args[1] == Str("/") || isCall(t, "path/filepath.Clean", "path.Clean") && t.Args[0] == dir
	}
	// a helper that receives a trimmed directory trims nothing itself
	given := func(t *T) bool { return trimmed(t) || t == dir && (fn.Object() == nil || !fn.Object().Exported()) }
	n := 0
	for _, x := range exits {
		if x.Kind != "return" || !succeeds(x) {
			continue
		}
		n++
		c.onlyOn(name, x, func(*Event) bool { return false })
		var list *T
		lists := 0
		for _, e := range x.Ev.List() {
			if e.Kind == "call" && (e.Name == "os.ReadDir" || e.Name == "io/ioutil.ReadDir") {
				lists++
				list = e.Res[0]
				c.Ob((trimmed(e.Args[0]) || e.Args[0] == dir) && noErr(x.Facts, errRes(e)), "listing", name, e.Pos, "the directory read is %v, or reading it failed", e.Args[0])
			}
		}
		if !c.Ob(lists == 1, "listing", name, x.Pos, "a scan that succeeds reads %d directories itself", lists) {
			continue
		}
		var rec *LoopRec
		loops := 0
		for _, e := range x.Ev.List() {
			if e.Kind == "loop" {
				loops++
				if e.Loop != nil && e.Loop.Iota != nil && x.Facts.Proves(EqInt(e.Loop.Iota, LenOf(list))) {
					rec = e.Loop
				}
			}
		}
		if rec == nil && x.Facts.Proves(EqInt(LenOf(list), Int(0))) && loops == 0 {
			c.Ob(acc == nil && (x.Res[0] == Nil || x.Facts.Proves(EqInt(LenOf(x.Res[0]), Int(0)))) || acc != nil && x.Res[0] == acc, "result", name, x.Pos, "an empty directory yields %v", x.Res[0])
			continue
		}
		if !c.Ob(rec != nil && loops == 1, "every-entry", name, x.Pos, "a scan succeeds without having gone through all entries once") {
			continue
		}
		var phi *ssa.Phi
		for _, ph := range rec.Phis {
			if rec.Cur[ph] == x.Res[0] {
				phi = ph
			}
		}
		if !c.Ob(phi != nil, "result", name, x.Pos, "what is returned is not what the loop collected: %v", x.Res[0]) {
			continue
		}
		cur, ini := rec.Cur[phi], rec.Init[phi]
		c.Ob(acc != nil && ini == acc || acc == nil && (ini == Nil || x.Facts.Proves(EqInt(LenOf(ini), Int(0)))), "result", name, rec.Pos, "the collection starts with %v", ini)
		entry := func(t *T) bool {
			t = stripIface(t)
			return t != nil && t.Op == "init" && t.Args[0].Op == "elem" && t.Args[0].Args[0] == BaseOf(list) && t.Args[0].Args[1] == Add(OffOf(list), rec.Iota)
		}
		for _, s := range rec.Back {
			c.scanEntry(in, fn, name, rec, phi, cur, s, entry, given, di, ai, seen)
		}
		c.Add("iterations judged", len(rec.Back))
	}
	c.Need("scanning paths of "+name, n, 1)
}

func (c *Ctx) scanEntry(in *Interp, fn *ssa.Function, name string, rec *LoopRec, phi *ssa.Phi, cur *T, s *State, entry, given func(t *T) bool, di, ai int, seen map[*ssa.Function]bool) {
	evs := backEvents(rec, s)
	names, modes := map[*T]bool{}, map[*T]bool{}
	isDir, known := false, false
	var rc, app *Event
	bad := ""
	grown := in.BackVal(rec, s, phi)
	for _, e := range evs {
		switch e.Kind {
		case "call":
			m := callMethod(e)
			own := len(e.Args) > 0 && (entry(e.Args[0]) || modes[e.Args[0]])
			switch {
			case own && m == "Name":
				names[e.Res[0]] = true
			case own && (m == "Mode" || m == "Type" || m == "Info"):
				modes[e.Res[0]] = true
			case own && m == "IsDir":
				if s.Facts.Proves(e.Res[0]) {
					isDir, known = true, true
				} else if s.Facts.Proves(Not(e.Res[0])) {
					isDir, known = false, true
				}
			}
		case "reccall":
			if rc != nil {
				bad = "more than one scan is made of an entry"
			}
			rc = e
		case "append":
			if len(e.Res) == 1 && e.Res[0] == grown {
				app = e
			}
		case "loop":
			bad = "an entry is handled in a loop of its own"
		}
	}
	path := func(t *T) bool {
		if isCall(t, "path/filepath.Join", "path.Join") && len(t.Args) == 2 {
			d := t.Args[0]
			return (given(d) || d == Params(fn)[di]) && names[t.Args[1]]
		}
		if t.Op != "concat" || len(t.Args) != 3 {
			return false
		}
		sep, ok := StrOf(t.Args[1])
		return ok && sep == "/" && given(t.Args[0]) && names[t.Args[2]]
	}
	if !c.Ob(bad == "" && known, "every-entry", name, rec.Pos, "an entry is handled without knowing whether it is a directory %s", bad) {
		return
	}
	if !isDir {
		ok := rc == nil && app != nil && app.Args[0] == cur && IsConst(LenOf(app.Args[1]), 1)
		if ok {
			v := in.LoadAt(app, Mk("elem", "", types.NewPointer(types.Typ[types.String]), BaseOf(app.Args[1]), OffOf(app.Args[1])), types.Typ[types.String])
			ok = v != nil && path(v)
		}
		c.Ob(ok, "file-listed", name, rec.Pos, "an entry that is no directory is not added exactly once, by its path: %v", grown)
		return
	}
	if !c.Ob(rc != nil && len(rc.Res) == 2 && noErr(s.Facts, rc.Res[1]), "directory-scanned", name, rec.Pos, "a directory is passed over, or an error scanning it is ignored") {
		return
	}
	var g *ssa.Function
	if ci, ok := rc.Instr.(ssa.CallInstruction); ok {
		g = ci.Common().StaticCallee()
	}
	if !c.Ob(g != nil, "directory-scanned", name, rc.Pos, "the function scanning a directory cannot be determined") {
		return
	}
	gd, ga := -1, -1
	for i, pr := range g.Params {
		switch {
		case isString(pr.Type()):
			gd = i
		default:
			if sl, ok := pr.Type().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
				ga = i
			}
		}
	}
	if !c.Ob(gd >= 0 && gd < len(rc.Args) && path(rc.Args[gd]), "directory-scanned", name, rc.Pos, "the directory scanned is not the entry's path: %v", rc.Args) {
		return
	}
	if ga >= 0 && rc.Args[ga] == cur {
		c.Ob(grown == rc.Res[0], "directory-scanned", name, rc.Pos, "what scanning a directory yields is not kept")
	} else {
		c.Ob((ga < 0 || rc.Args[ga] == Nil) && app != nil && app.Args[0] == cur && app.Args[1] == rc.Res[0], "directory-scanned", name, rc.Pos, "what scanning a directory yields is not added exactly once")
	}
	c.scan(g, gd, ga, seen)
}
