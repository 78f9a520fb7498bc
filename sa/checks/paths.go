package checks

import (
	"go/types"
	"regexp/syntax"
	"strings"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C27", Title: "Uploads and archives cannot reach outside their directory", Level: "other",
		Rule: "at every file-system call reached from the extraction helper and from the chunk-upload helpers the path is decomposed into its elements; the facts that hold there must entail that it lies below the destination directory (extraction) or below ./breakpointDir or ./fileDir and is not one of these directories (uploads): every caller-supplied element contains no separator and is neither empty nor a dot name. An upload helper succeeds only for names without separators",
		Run:  pathsRun,
		Tech: "path-sensitive abstract interpretation: string-structure terms of path arguments against the guard facts at the call",
		Note: "lexical containment: symbolic links already inside the directories are not followed; Unix separators",
	})
}

// fsPaths: which arguments of a file-system call are paths it creates, reads, changes or removes.
var fsPaths = map[string][]int{
	"os.Create": {0}, "os.Open": {0}, "os.OpenFile": {0}, "os.Mkdir": {0}, "os.MkdirAll": {0}, "os.Remove": {0}, "os.RemoveAll": {0},
	"os.Rename": {0, 1}, "os.WriteFile": {0}, "os.ReadFile": {0}, "os.ReadDir": {0}, "os.Stat": {0}, "os.Lstat": {0}, "os.Chmod": {0}, "os.Chown": {0},
	"os.Truncate": {0}, "os.Symlink": {1}, "os.Link": {0, 1}, "os.Chtimes": {0}, "os.MkdirTemp": {0}, "os.CreateTemp": {0}, "os.Chdir": {0},
	"io/ioutil.ReadDir": {0}, "io/ioutil.ReadFile": {0}, "io/ioutil.WriteFile": {0}, "io/ioutil.TempDir": {0}, "io/ioutil.TempFile": {0},
	"path/filepath.Walk": {0}, "path/filepath.WalkDir": {0}, "path/filepath.Glob": {0}, "os.CopyFS": {0},
}

// reading calls do not create or change anything.
var fsReads = map[string]bool{"os.Open": true, "os.ReadFile": true, "os.ReadDir": true, "os.Stat": true, "os.Lstat": true, "io/ioutil.ReadDir": true, "io/ioutil.ReadFile": true,
	"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true}

// piece of a path text: a constant or an unknown part.
type piece struct {
	c string
	v *T
}

func isCall(t *T, names ...string) bool {
	if t.Op != "call" {
		return false
	}
	for _, n := range names {
		if t.Aux == n {
			return true
		}
	}
	return false
}

// pieces of a path text.
func pieces(t *T) []piece {
	if s, ok := StrOf(t); ok {
		return []piece{{c: s}}
	}
	switch {
	case t.Op == "concat":
		var out []piece
		for _, a := range t.Args {
			out = append(out, pieces(a)...)
		}
		return out
	case isCall(t, "path/filepath.Join", "path.Join"):
		var out []piece
		for i, a := range t.Args {
			if i > 0 {
				out = append(out, piece{c: "/"})
			}
			out = append(out, pieces(a)...)
		}
		return out
	case isCall(t, "strings.Join") && len(t.Args) > 1:
		return []piece{{v: t}}
	case isCall(t, "path/filepath.Clean", "path.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash"):
		if ps := pieces(t.Args[0]); len(ps) > 1 && (ps[0].v != nil || !strings.HasPrefix(ps[0].c, "/")) {
			return ps
		}
		return []piece{{v: t}}
	case isCall(t, "fmt.Sprintf") && len(t.Args) > 0:
		f, ok := StrOf(t.Args[0])
		if !ok {
			break
		}
		var out []piece
		n := 1
		for f != "" {
			i := strings.IndexByte(f, '%')
			if i < 0 {
				out = append(out, piece{c: f})
				break
			}
			if i > 0 {
				out = append(out, piece{c: f[:i]})
			}
			if i+1 >= len(f) {
				return []piece{{v: t}}
			}
			switch f[i+1] {
			case '%':
				out = append(out, piece{c: "%"})
			case 's', 'v', 'd':
				if n >= len(t.Args) {
					return []piece{{v: t}}
				}
				a := stripIface(t.Args[n])
				n++
				if a.Typ != nil && isString(a.Typ) {
					out = append(out, pieces(a)...)
				} else if a.Typ != nil && IsIntType(a.Typ) {
					out = append(out, piece{v: Mk("call", "strconv.Itoa", types.Typ[types.String], a)})
				} else {
					return []piece{{v: t}}
				}
			default:
				return []piece{{v: t}}
			}
			f = f[i+2:]
		}
		return out
	}
	return []piece{{v: t}}
}

// elements splits a path at its constant separators, dropping empty and "." elements as cleaning does.
func elements(ps []piece) (el [][]piece, abs bool) {
	cur := []piece{}
	first := true
	flush := func() {
		if len(cur) == 1 && cur[0].v == nil && cur[0].c == "." {
			cur = nil
		}
		if len(cur) > 0 {
			el = append(el, cur)
		}
		cur = nil
	}
	for _, p := range ps {
		if p.v != nil {
			cur = append(cur, p)
			first = false
			continue
		}
		for i, s := range strings.Split(p.c, "/") {
			if i > 0 {
				if first && len(cur) == 0 {
					abs = true
				}
				flush()
				first = false
			}
			if s != "" {
				if len(cur) > 0 && cur[len(cur)-1].v == nil {
					cur[len(cur)-1].c += s
				} else {
					cur = append(cur, piece{c: s})
				}
				first = false
			}
		}
	}
	flush()
	return el, abs
}

type pathFacts struct {
	in    *Interp
	f     *FactNode
	loops []*LoopRec
}

func (q *pathFacts) some(ok func(neg bool, t *T) bool) bool {
	for f := q.f; f != nil; f = f.Next {
		if f.F == nil {
			continue
		}
		if f.F.Op == "not" {
			if ok(true, f.F.Args[0]) {
				return true
			}
		} else if ok(false, f.F) {
			return true
		}
	}
	return false
}

// noSlash: the text contains no separator.
func (q *pathFacts) noSlash(v *T) bool {
	if s, ok := StrOf(v); ok {
		return !strings.Contains(s, "/")
	}
	if isCall(v, "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "encoding/hex.EncodeToString", "path/filepath.Base", "path.Base") {
		return v.Aux != "path/filepath.Base" && v.Aux != "path.Base" || q.f.Proves(Not(Eq(v, Str("/"))))
	}
	for _, sep := range []*T{Str("/")} {
		if q.f.Proves(Not(Ge0(Mk("call", "strings.Index", types.Typ[types.Int], v, sep)))) {
			return true
		}
	}
	if q.some(func(neg bool, t *T) bool {
		if t.Op == "call" && len(t.Args) == 2 && t.Args[0] == v && neg {
			switch t.Aux {
			case "strings.ContainsAny":
				s, ok := StrOf(t.Args[1])
				return ok && strings.Contains(s, "/")
			case "strings.Contains":
				s, ok := StrOf(t.Args[1])
				return ok && s == "/"
			case "strings.ContainsRune":
				return IsConst(unconv(t.Args[1]), '/')
			}
		}
		if !neg && t.Op == "rxmatch" && t.Args[1] == v {
			return rxExcludes(t.Args[0].Aux, '/')
		}
		// an index of a separator that is negative, a base name that is the name itself
		hit := false
		Contains(t, func(y *T) bool {
			if y.Op == "call" && len(y.Args) >= 1 && y.Args[0] == v {
				switch y.Aux {
				case "strings.IndexByte", "strings.IndexRune", "strings.LastIndexByte":
					hit = hit || IsConst(unconv(y.Args[1]), '/') && q.f.Proves(Not(Ge0(y)))
				case "strings.Index", "strings.LastIndex":
					hit = hit || y.Args[1] == Str("/") && q.f.Proves(Not(Ge0(y)))
				case "strings.IndexAny", "strings.LastIndexAny":
					s, ok := StrOf(y.Args[1])
					hit = hit || ok && strings.Contains(s, "/") && q.f.Proves(Not(Ge0(y)))
				case "path/filepath.Base", "path.Base":
					hit = hit || q.f.Proves(Eq(y, v)) && q.f.Proves(Not(Eq(v, Str("/"))))
				case "strings.Count":
					hit = hit || y.Args[1] == Str("/") && q.f.Proves(EqInt(y, Int(0)))
				}
			}
			return false
		})
		return hit
	}) {
		return true
	}
	return q.scanned(v)
}

// scanned: a loop over the whole text went on only past characters that are not separators.
func (q *pathFacts) scanned(v *T) bool {
	for _, rec := range q.loops {
		for _, ch := range []struct{ at, n *T }{
			{StrAt(v, rec.Iota), LenOf(v)},
			{Mk("init", "", types.Typ[types.Rune], Mk("elem", "", types.NewPointer(types.Typ[types.Rune]), BaseOf(RunesOf(v)), Add(OffOf(RunesOf(v)), rec.Iota))), LenOf(RunesOf(v))},
			{Mk("strrune", "", types.Typ[types.Rune], v, rec.Iota), LenOf(RunesOf(v))},
		} {
			if len(rec.Back) == 0 || !q.f.Proves(Ge0(Sub(rec.Iota, ch.n))) {
				continue
			}
			all := true
			for _, b := range rec.Back {
				all = all && b.Facts.Proves(Not(EqInt(ch.at, Int('/'))))
			}
			if all {
				return true
			}
		}
	}
	return false
}

// notDot: the text is neither empty nor "." nor "..".
func (q *pathFacts) isNot(v *T, s string) bool {
	if c, ok := StrOf(v); ok {
		return c != s
	}
	if isCall(v, "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint") {
		return true
	}
	if s == "" && isCall(v, "path/filepath.Base", "path.Base", "path/filepath.Clean", "path.Clean") {
		return true
	}
	if s == "" {
		if q.f.Proves(Ge0(Sub(LenOf(v), Int(1)))) || q.f.Proves(Not(EqInt(LenOf(v), Int(0)))) {
			return true
		}
	} else {
		if q.f.Proves(Not(Eq(v, Str(s)))) || q.f.With(Eq(v, Str(s))).Infeasible() || q.f.Proves(Not(EqInt(LenOf(v), Int(int64(len(s)))))) {
			return true
		}
	}
	return q.some(func(neg bool, t *T) bool {
		if s != "" && neg && t.Op == "call" && len(t.Args) == 2 && t.Args[0] == v {
			x, ok := StrOf(t.Args[1])
			switch t.Aux {
			case "strings.HasPrefix":
				return ok && strings.HasPrefix(s, x)
			case "strings.Contains":
				return ok && strings.Contains(s, x)
			case "strings.ContainsAny":
				return ok && strings.ContainsAny(s, x)
			}
		}
		if !neg && t.Op == "rxmatch" && t.Args[1] == v {
			if s == "" {
				return false // a length fact covers it
			}
			return rxExcludes(t.Args[0].Aux, '.')
		}
		hit := false
		Contains(t, func(y *T) bool {
			if y.Op == "call" && y.Args != nil && len(y.Args) == 2 && y.Args[0] == v && strings.HasPrefix(y.Aux, "strings.Index") {
				x, ok := StrOf(y.Args[1])
				if y.Aux == "strings.Index" && ok && s != "" && strings.Contains(s, x) && q.f.Proves(Not(Ge0(y))) {
					hit = true
				}
			}
			return false
		})
		return hit
	})
}

// rxExcludes: the pattern is anchored on both sides and no text matching it contains the character.
func rxExcludes(pat string, c rune) bool {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false
	}
	re = re.Simplify()
	if re.Op != syntax.OpConcat || len(re.Sub) < 2 || re.Sub[0].Op != syntax.OpBeginText || re.Sub[len(re.Sub)-1].Op != syntax.OpEndText {
		return false
	}
	var may func(r *syntax.Regexp) bool
	may = func(r *syntax.Regexp) bool {
		switch r.Op {
		case syntax.OpLiteral:
			for _, x := range r.Rune {
				if x == c {
					return true
				}
			}
			return false
		case syntax.OpCharClass:
			for i := 0; i < len(r.Rune); i += 2 {
				if r.Rune[i] <= c && c <= r.Rune[i+1] {
					return true
				}
			}
			return false
		case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
			return true
		}
		for _, s := range r.Sub {
			if may(s) {
				return true
			}
		}
		return false
	}
	return !may(re)
}

// element decides one path element: it stays one element, and is a real name.
func (q *pathFacts) element(e []piece) string {
	fixed := 0
	for _, p := range e {
		if p.v == nil {
			fixed += len(p.c)
			if len(e) == 1 && p.c == ".." {
				return "it goes up"
			}
			if strings.Trim(p.c, ".") != "" {
				fixed += 100 // more than dots
			}
			continue
		}
		if isCall(p.v, "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint") {
			fixed += 100
		}
		if !q.noSlash(p.v) {
			return "its part " + p.v.String() + " may contain a separator"
		}
	}
	if fixed >= 100 {
		return ""
	}
	if len(e) != 1 || e[0].v == nil {
		if fixed > 2 {
			return ""
		}
		return "it may be a dot name"
	}
	for _, s := range []string{"..", ".", ""} {
		if !q.isNot(e[0].v, s) {
			return "its part " + e[0].v.String() + " may be " + Str(s).String()
		}
	}
	return ""
}

// uploadPath: the path is in (not equal to) the chunk or result directory.
func (q *pathFacts) uploadPath(t *T, mkdir bool) string {
	el, abs := elements(pieces(t))
	if abs {
		return "it is absolute"
	}
	if len(el) == 0 || len(el[0]) != 1 || el[0][0].v != nil || el[0][0].c != "breakpointDir" && el[0][0].c != "fileDir" {
		return "it does not start with the chunk or the result directory"
	}
	if len(el) == 1 && !mkdir {
		return "it is the directory itself"
	}
	for _, e := range el[1:] {
		if why := q.element(e); why != "" {
			return why
		}
	}
	return ""
}

// archivePath: the path is the destination or below it.
func (q *pathFacts) archivePath(t, dest *T) string {
	if t == dest || isCall(t, "path/filepath.Clean") && t.Args[0] == dest {
		return ""
	}
	if isCall(t, "path/filepath.Dir", "path.Dir") {
		// the directory of something below the destination
		return q.archivePath(t.Args[0], dest)
	}
	// a relative path that does not go up
	if q.some(func(neg bool, f *T) bool {
		hit := false
		Contains(f, func(y *T) bool {
			if y.Op == "call" && y.Aux == "path/filepath.Rel.0" && len(y.Args) == 2 && y.Args[0] == dest && (y.Args[1] == t || isCall(y.Args[1], "path/filepath.Clean") && y.Args[1].Args[0] == t) {
				hit = hit || q.notUp(y)
			}
			return false
		})
		return hit
	}) {
		return ""
	}
	ps := pieces(t)
	if len(ps) < 2 || ps[0].v == nil || ps[0].v != dest && !(isCall(ps[0].v, "path/filepath.Clean", "path/filepath.Abs.0") && ps[0].v.Args[0] == dest) {
		return "it does not start with the destination"
	}
	if ps[1].v != nil || !strings.HasPrefix(ps[1].c, "/") {
		return "the destination is not followed by a separator"
	}
	el, _ := elements(ps[1:])
	for _, e := range el {
		for _, p := range e {
			if p.v == nil {
				if p.c == ".." {
					return "it goes up"
				}
				continue
			}
			if q.local(p.v) {
				continue
			}
			if q.f.Proves(Not(Ge0(Mk("call", "strings.Index", types.Typ[types.Int], p.v, Str(".."))))) || q.noDots(p.v) {
				continue
			}
			if why := q.element([]piece{p}); why == "" && len(e) == 1 {
				continue
			}
			// below the destination by prefix, when that is an absolute path
			return "its part " + p.v.String() + " may lead out of the destination"
		}
	}
	return ""
}

// noDots: some fact excludes two consecutive dots.
func (q *pathFacts) noDots(v *T) bool {
	return q.some(func(neg bool, t *T) bool {
		if neg && isCall(t, "strings.Contains") && t.Args[0] == v && t.Args[1] == Str("..") {
			return true
		}
		hit := false
		Contains(t, func(y *T) bool {
			if isCall(y, "strings.Index") && y.Args[0] == v && y.Args[1] == Str("..") && q.f.Proves(Not(Ge0(y))) {
				hit = true
			}
			return false
		})
		return hit
	})
}

// local: a fact says that the name stays below wherever it is put; a rooted clean name does.
func (q *pathFacts) local(v *T) bool {
	if isCall(v, "path/filepath.Clean", "path.Clean") {
		if ps := pieces(v.Args[0]); len(ps) > 0 && ps[0].v == nil && strings.HasPrefix(ps[0].c, "/") {
			return true
		}
		if a := v.Args[0]; a.Op == "concat" && len(a.Args) > 0 {
			if s, ok := StrOf(a.Args[0]); ok && strings.HasPrefix(s, "/") {
				return true
			}
		}
	}
	return q.some(func(neg bool, t *T) bool { return !neg && isCall(t, "path/filepath.IsLocal") && t.Args[0] == v })
}

// notUp: the relative path r is not ".." and does not begin with "../".
func (q *pathFacts) notUp(r *T) bool {
	if q.local(r) {
		return true
	}
	if !q.f.Proves(Not(Eq(r, Str("..")))) && !q.f.With(Eq(r, Str(".."))).Infeasible() {
		if !q.f.With(EqInt(LenOf(r), Int(2))).With(EqInt(StrAt(r, Int(0)), Int('.'))).With(EqInt(StrAt(r, Int(1)), Int('.'))).Infeasible() {
			return false
		}
	}
	return q.f.With(Ge0(Sub(LenOf(r), Int(3)))).With(EqInt(StrAt(r, Int(0)), Int('.'))).With(EqInt(StrAt(r, Int(1)), Int('.'))).With(EqInt(StrAt(r, Int(2)), Int('/'))).Infeasible()
}

func pathsRun(c *Ctx) {
	p := c.P
	// uploads
	calls := 0
	for _, nm := range []string{"BreakPointContinue", "MakeFile", "RemoveChunk"} {
		fn := p.Func("help/utils", nm)
		if fn == nil {
			c.Need(nm, 0, 1)
			continue
		}
		in := NewInterp(p, &Config{})
		exits := in.Run(fn)
		c.Complete(in, fn)
		name := ShortName(fn)
		own := 0
		seen := map[*Event]bool{}
		for _, x := range exits {
			loops := loopsOf([]*Exit{x})
			visit(x.Ev.List(), func(e *Event, _ *State) {
				if e.Kind != "call" || seen[e] {
					return
				}
				seen[e] = true
				c.unknownFS(name, e)
				for _, i := range fsPaths[e.Name] {
					own++
					q := &pathFacts{in, e.Facts, loops}
					why := q.uploadPath(e.Args[i], e.Name == "os.MkdirAll" || e.Name == "os.Mkdir")
					c.Ob(why == "", "path-contained", name+" "+e.Name, e.Pos, "the path %s given to %s is not confined to the upload directories: %s", e.Args[i], e.Name, why)
				}
			})
			er := x.Kind == "return" && len(x.Res) > 0
			if !er || failedErr(x.Facts, x.Res[len(x.Res)-1]) || x.Res[len(x.Res)-1].Op == "err" {
				continue
			}
			for i, pr := range fn.Params {
				if isString(pr.Type()) {
					q := &pathFacts{in, x.Facts, loops}
					c.Ob(q.noSlash(Param(Body(fn), i)), "name-refused", name+" "+pr.Name(), x.Pos, "%s can succeed for a %s with path separators", fn.Name(), pr.Name())
				}
			}
		}
		c.Need("file-system calls of "+nm, own, 1)
		calls += own
	}
	// extraction
	if fn := p.Func("help/utils", "Unzip"); fn != nil {
		in := NewInterp(p, &Config{})
		exits := in.Run(fn)
		c.Complete(in, fn)
		name := ShortName(fn)
		arch, dest := Param(Body(fn), 0), Param(Body(fn), 1)
		n := 0
		seen := map[*Event]bool{}
		for _, x := range exits {
			loops := loopsOf([]*Exit{x})
			visit(x.Ev.List(), func(e *Event, _ *State) {
				if e.Kind != "call" || seen[e] {
					return
				}
				seen[e] = true
				c.unknownFS(name, e)
				for _, i := range fsPaths[e.Name] {
					if e.Args[i] == arch && fsReads[e.Name] || fsReads[e.Name] {
						continue
					}
					n++
					q := &pathFacts{in, e.Facts, loops}
					why := q.archivePath(e.Args[i], dest)
					c.Ob(why == "", "extract-contained", name+" "+e.Name, e.Pos, "the path %s given to %s is not confined to the destination: %s", e.Args[i], e.Name, why)
				}
			})
		}
		c.Need("file-system changes of extraction", n, 1)
		calls += n
	} else {
		c.Need("extraction helper", 0, 1)
	}
	c.Add("path obligations", calls)
}

// unknownFS: a call of package os with a text argument must be a known one.
func (c *Ctx) unknownFS(name string, e *Event) {
	fn := e.Name
	if !strings.HasPrefix(fn, "os.") && !strings.HasPrefix(fn, "io/ioutil.") && !strings.HasPrefix(fn, "syscall.") && !strings.HasPrefix(fn, "os/exec.") {
		return
	}
	if _, ok := fsPaths[fn]; ok {
		return
	}
	switch fn {
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.Getenv", "os.Getpid", "os.Getwd", "os.TempDir", "io/ioutil.ReadAll", "os.Exit":
		return
	}
	for _, a := range e.Args {
		if a.Typ != nil && isString(a.Typ) {
			c.Fail("unknown-fs-call", name+" "+fn, e.Pos, "the effect of %s on the file system is not known", fn)
			return
		}
	}
}
