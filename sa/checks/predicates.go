package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C33", Title: "path and link safety predicates are exact", Level: "other",
		Rule: "Each exported predicate is reduced to the set of its paths; on a path answering true the path facts entail the specified condition, on a path answering false they contradict it: same-site = at least two characters, first '/', second neither '/' nor '\\'; malicious = absolute or containing \"..\"; content kinds = the sniffed type of exactly the given data names the kind (empty counts as text); extension kind = the extension equals one of the known image extensions; existence and directory tests = decided by the result of stat on exactly the given path, never true when the file system reported absence.",
		Run:  predicates, Tech: "path-condition equivalence with a reference predicate over a path-partitioned abstract interpretation of Go SSA",
		Note:   "Covers all inputs and all file-system answers. Trusts the standard library's sniffing, IsAbs and stat results.",
		Assume: []string{"standard library predicates mean what they document"}})
}

// predicate is one exported predicate and what it must decide.
type predicate struct {
	pkg, name string
	cond      func(p *predCtx, x *Exit) *T // exact condition, or nil if judge decides
	judge     func(p *predCtx, x *Exit, answer bool)
}

type predCtx struct {
	c    *Ctx
	in   *Interp
	fn   *ssa.Function
	name string
	arg  *T
}

func (p *predCtx) ob(ok bool, rule string, x *Exit, f string, a ...interface{}) {
	p.c.Ob(ok, rule, p.name, x.Pos, f, a...)
}

// byteSet: alternatives of a condition that is a conjunction of the given terms.
func all(ts ...*T) *T {
	r := True
	for _, t := range ts {
		r = And(r, t)
	}
	return r
}

func pureCall(name string, args ...*T) *T { return Mk("call", name, types.Typ[types.Bool], args...) }
func indexOf(s *T, sub string) *T {
	return Mk("call", "strings.Index", types.Typ[types.Int], s, Str(sub))
}

var imageExts = map[string]bool{"jpeg": true, "jpg": true, "gif": true, "png": true, "bmp": true, "tif": true, "tiff": true, "webp": true, "ico": true, "svg": true, "heic": true, "avif": true, "jfif": true}

func predicates(c *Ctx) {
	specs := []predicate{
		{"help/utils", "IsSameSiteURLPath", func(p *predCtx, x *Exit) *T {
			at := func(i int64) *T { return StrAt(p.arg, Int(i)) }
			return all(Le(Int(2), LenOf(p.arg)), EqInt(at(0), Int('/')), Not(EqInt(at(1), Int('/'))), Not(EqInt(at(1), Int('\\'))))
		}, nil},
		{"help/utils", "IsMaliciousPath", func(p *predCtx, x *Exit) *T {
			return Or(pureCall("path/filepath.IsAbs", p.arg), Ge0(indexOf(p.arg, "..")))
		}, nil},
		{"help/utils", "IsTextFile", nil, contentKind("text/", true)},
		{"help/utils", "IsImageFile", nil, contentKind("image/", false)},
		{"help/utils", "IsPDFFile", nil, contentKind("application/pdf", false)},
		{"help/utils", "IsVideoFile", nil, contentKind("video/", false)},
		{"help/utils", "IsImage", nil, imageExt},
		{"help/utils", "PathExists", nil, existence("dir")},
		{"help/utils", "FileExist", nil, existence("notdir")},
		{"help/utils", "IsDir", nil, existence("dir")},
		{"help/utils", "FileIsExisted", nil, existence("any")},
	}
	n := 0
	for _, s := range specs {
		fn := c.P.Func(s.pkg, s.name)
		if fn == nil {
			c.Fail("anchor", s.pkg+"."+s.name, 0, "the predicate is gone")
			continue
		}
		n++
		in := NewInterp(c.P, nil)
		exits := splitBool(in, in.Run(fn))
		c.Complete(in, fn)
		p := &predCtx{c: c, in: in, fn: fn, name: ShortName(fn), arg: Param(Body(fn), 0)}
		seen := map[*T]bool{}
		for _, x := range exits {
			if x.Kind != "return" || x.Res[0] != True && x.Res[0] != False {
				c.Fail("decided", p.name, x.Pos, "a path ends without a decided answer (%s)", x.Kind)
				continue
			}
			answer := x.Res[0] == True
			seen[x.Res[0]] = true
			if s.judge != nil {
				s.judge(p, x, answer)
				continue
			}
			cond := s.cond(p, x)
			if answer {
				p.ob(x.Facts.Proves(cond), "exact", x, "answers true although %s is not known", cond)
			} else {
				p.ob(x.Facts.Proves(Not(cond)) || x.State.Fork().Assume(in, cond) == nil, "exact", x, "answers false although %s is possible", cond)
			}
		}
		c.Ob(len(seen) == 2, "both-answers", p.name, fn.Pos(), "the predicate always gives the same answer")
		c.Add("paths", len(exits))
	}
	c.Need("predicates", n, 11)
}

// contentKind: true exactly if the sniffed type of the data names the kind.
func contentKind(kind string, emptyToo bool) func(p *predCtx, x *Exit, answer bool) {
	return func(p *predCtx, x *Exit, answer bool) {
		empty := x.Facts.Proves(EqInt(LenOf(p.arg), Int(0)))
		if empty && emptyToo {
			p.ob(answer, "content-kind", x, "empty content does not count")
			return
		}
		var typ *T
		for _, e := range x.Ev.List() {
			if (e.Kind == "call" || e.Kind == "pure") && e.Name == "net/http.DetectContentType" && len(e.Res) == 1 {
				d := e.Args[0]
				if BaseOf(d) == BaseOf(p.arg) && OffOf(d) == OffOf(p.arg) && (LenOf(d) == LenOf(p.arg) || e.Facts.Proves(Le(Int(512), LenOf(d)))) {
					typ = e.Res[0]
				}
			}
		}
		if typ == nil {
			p.ob(empty && !answer, "content-kind", x, "the answer does not come from the content")
			return
		}
		conds := []*T{Ge0(indexOf(typ, kind)), EqInt(indexOf(typ, kind), Int(0)), hasPrefix(typ, kind), Eq(typ, Str(kind))}
		ok := false
		for _, k := range conds {
			if answer && x.Facts.Proves(k) || !answer && x.Facts.Proves(Not(k)) {
				ok = true
			}
		}
		p.ob(ok, "content-kind", x, "answers %v without knowing whether the content is %s", answer, kind)
	}
}

func hasPrefix(s *T, pre string) *T {
	if len(pre) <= 4 {
		cs := []*T{Ge0(Sub(LenOf(s), Int(int64(len(pre)))))}
		for i := 0; i < len(pre); i++ {
			cs = append(cs, EqInt(StrAt(s, Int(int64(i))), Int(int64(pre[i]))))
		}
		return all(cs...)
	}
	return Mk("strings.HasPrefix", "", types.Typ[types.Bool], s, Str(pre))
}

// extensionOf: t is the (normalised) extension of the path.
func extensionOf(t, path *T) bool {
	for t != nil && t.Op == "call" && len(t.Args) > 0 {
		switch t.Aux {
		case "strings.ToLower", "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimLeft", "strings.Trim":
			t = t.Args[0]
			continue
		case "path/filepath.Ext", "path.Ext":
			return baseName(t.Args[0], path)
		}
		return false
	}
	if t == nil {
		return false
	}
	switch t.Op {
	case "init", "hv": // the last part of the path split at dots
		a := t.Args[0]
		if a.Op != "elem" || a.Args[0].Op != "base" {
			return false
		}
		sp := a.Args[0].Args[0]
		return sp.Op == "call" && sp.Aux == "strings.Split" && baseName(sp.Args[0], path) && sp.Args[1] == Str(".") && a.Args[1] == Sub(LenOf(sp), Int(1))
	case "substr":
		if !baseName(t.Args[0], path) {
			return false
		}
		return Contains(t.Args[1], func(y *T) bool {
			return y.Op == "call" && (y.Aux == "strings.LastIndex" || y.Aux == "strings.LastIndexByte")
		})
	case "slice":
		return extensionOf(t.Args[0], path)
	}
	return false
}

// baseName: the path itself, normalised or reduced to its last element.
func baseName(t, path *T) bool {
	for t != path && t != nil && t.Op == "call" && len(t.Args) > 0 {
		switch t.Aux {
		case "strings.ToLower", "strings.TrimSpace", "path/filepath.Base", "path.Base", "path/filepath.Clean":
			t = t.Args[0]
			continue
		}
		return false
	}
	return t == path
}

func imageExt(p *predCtx, x *Exit, answer bool) {
	if !answer {
		// no path may refuse an extension it knows to be an image's
		for _, t := range x.Facts.List() {
			if k, ok := equalsText(t, p.arg); ok {
				p.ob(!imageExts[k], "extension-kind", x, "extension %q is refused", k)
			}
		}
		return
	}
	for _, t := range x.Facts.List() {
		if k, ok := equalsText(t, p.arg); ok && imageExts[k] {
			p.ob(true, "extension-kind", x, "")
			return
		}
	}
	p.ob(false, "extension-kind", x, "answers true without knowing that the extension is an image's")
}

// equalsText: the fact says that the extension equals a constant (returned without its dot).
func equalsText(t, path *T) (string, bool) {
	switch {
	case t.Op == "eq" && len(t.Args) == 2:
		for i := 0; i < 2; i++ {
			if k, ok := StrConst(t.Args[i]); ok && extensionOf(t.Args[1-i], path) {
				return strings.TrimPrefix(strings.ToLower(k), "."), true
			}
		}
	case t.Op == "call" && t.Aux == "strings.EqualFold" && len(t.Args) == 2:
		for i := 0; i < 2; i++ {
			if k, ok := StrConst(t.Args[i]); ok && extensionOf(t.Args[1-i], path) {
				return strings.TrimPrefix(strings.ToLower(k), "."), true
			}
		}
	case t.Op == "strings.HasSuffix" && len(t.Args) == 2:
		if k, ok := StrConst(t.Args[1]); ok && strings.HasPrefix(k, ".") && baseName(t.Args[0], path) {
			return strings.TrimPrefix(strings.ToLower(k), "."), true
		}
	}
	return "", false
}

// existence: the answer is decided by stat of exactly the given path.
func existence(want string) func(p *predCtx, x *Exit, answer bool) {
	return func(p *predCtx, x *Exit, answer bool) {
		var st *Event
		for _, e := range x.Ev.List() {
			if e.Kind == "call" && (e.Name == "os.Stat" || e.Name == "os.Lstat") && len(e.Args) > 0 && e.Args[0] == p.arg {
				st = e
			}
		}
		if st == nil {
			p.ob(false, "existence", x, "the file system is not asked about the given path")
			return
		}
		fi, err := st.Res[0], st.Res[1]
		f := x.Facts
		absent := mentioned(f, func(t *T) bool {
			return t.Op == "call" && len(t.Args) > 0 && t.Args[0] == err && (t.Aux == "os.IsNotExist" || t.Aux == "errors.Is" && len(t.Args) == 2 && strings.Contains(t.Args[1].String(), "ErrNotExist"))
		})
		reported := noErr(f, err)
		notAbsent := reported || absent != nil && f.Proves(Not(absent))
		var isDir *T
		for _, e := range x.Ev.List() {
			if e.Kind == "call" && len(e.Args) > 0 && e.Args[0] == fi && strings.HasSuffix(e.Name, "FileInfo.IsDir") && len(e.Res) == 1 {
				isDir = e.Res[0]
			}
			if e.Kind == "call" && len(e.Args) > 0 && e.Args[0] == fi && strings.HasSuffix(e.Name, "FileInfo.Mode") && len(e.Res) == 1 {
				if m := mentioned(f, func(t *T) bool { return t.Op == "call" && t.Aux == "(io/fs.FileMode).IsDir" && t.Args[0] == e.Res[0] }); m != nil {
					isDir = m
				}
			}
		}
		dir := isDir != nil && f.Proves(isDir)
		notDir := isDir != nil && f.Proves(Not(isDir))
		if answer {
			p.ob(notAbsent, "existence", x, "answers true although the file system may have reported absence")
			switch want {
			case "dir":
				p.ob(reported && dir, "existence", x, "answers true for something not known to be a directory")
			case "notdir":
				p.ob(notDir || !reported, "existence", x, "answers true for something that may be a directory")
			}
			return
		}
		// false: absence (or an error), or the wrong kind
		failed := failedErr(f, err)
		isAbsent := absent != nil && f.Proves(absent)
		if len(x.Res) > 1 { // the error result tells an unknown state from absence
			p.ob(isAbsent || failedErr(f, x.Res[1]), "existence", x, "answers false without an error although absence is not known")
			return
		}
		switch want {
		case "any":
			p.ob(isAbsent, "existence", x, "answers false although the file system did not report absence")
		case "dir":
			p.ob(failed || notDir, "existence", x, "answers false for a directory")
		case "notdir":
			p.ob(isAbsent || reported && dir, "existence", x, "answers false although the file system did not report absence")
		}
	}
}

// mentioned finds a term in the facts of a path.
func mentioned(f *FactNode, ok func(t *T) bool) *T {
	var hit *T
	for _, t := range f.List() {
		Contains(t, func(y *T) bool {
			if ok(y) {
				hit = y
			}
			return false
		})
	}
	return hit
}
