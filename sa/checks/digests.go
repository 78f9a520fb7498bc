package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C35", Title: "Digest and base64 helpers are exact and agree", Level: "other",
		Rule:   "On every path of every exported MD5 helper that can report success, the text returned (for the checksum test: the text compared) is the lower-case hexadecimal form of an MD5 sum, and the hash state it was taken from was fresh and got exactly the content of the argument once: the whole text, the whole byte slice, or all of the given stream or of the file at the given path. Only bytes the caller passed for that purpose may come before the sum. The checksum test answers true exactly where the two texts are equal. Base64 helpers encode exactly their argument (or the file's content) and decode exactly their argument, all with one and the same alphabet, and return what the codec returned.",
		Run:    digestHelpers,
		Tech:   "typestate of hash objects and value provenance over a path-partitioned abstract interpretation of Go SSA",
		Note:   "Holds for every content. The digest and codec of the standard library are trusted (C44). What a decoding helper returns for a text that is not base64 is left open.",
		Assume: []string{"crypto/md5, encoding/hex and encoding/base64 do what they document", "writes to a hash never fail"}})
}

const md5Pkg, b64Pkg = "crypto/md5.", "(*encoding/base64.Encoding)."

func digestHelpers(c *Ctx) {
	md, b64 := 0, 0
	var encs []*T
	encPos := map[*T]*ssa.Function{}
	for _, fn := range exportedFuncs(c.P, "help/utils") {
		n := strings.ToLower(fn.Name())
		switch {
		case strings.Contains(n, "md5"):
			if resultKind(fn) == "" {
				continue
			}
			md++
			c.digestHelper(fn)
		case strings.Contains(n, "base64"):
			b64++
			for _, e := range c.base64Helper(fn, strings.Contains(n, "decode")) {
				encs = append(encs, e)
				if encPos[e] == nil {
					encPos[e] = fn
				}
			}
		}
	}
	for i, e := range encs {
		encs[i] = c.sameVar(e)
		if encPos[encs[i]] == nil {
			encPos[encs[i]] = encPos[e]
		}
	}
	for _, e := range encs {
		c.Ob(e == encs[0], "one-alphabet", ShortName(encPos[e]), encPos[e].Pos(), "this helper uses the codec %s, others %s: what one encodes another does not decode", e, encs[0])
	}
	c.Need("MD5 helpers", md, 5)
	c.Need("base64 helpers", b64, 5)
}

// resultKind: "text" (first result a string), "test" (a bool), "" otherwise.
func resultKind(fn *ssa.Function) string {
	rs := fn.Signature.Results()
	if rs.Len() == 0 {
		return ""
	}
	b, ok := rs.At(0).Type().Underlying().(*types.Basic)
	switch {
	case ok && b.Kind() == types.String:
		return "text"
	case ok && b.Kind() == types.Bool && rs.Len() == 1:
		return "test"
	}
	return ""
}

// sums of a path.
type sumOf struct {
	ok     bool
	why    string
	prefix *T
}

// digestPath follows the hash objects of a path: which sums were taken of what.
func (c *Ctx) digestPath(in *Interp, x *Exit, whole func(e *Event, t *T) string, src func(t *T) bool) (map[*T]*sumOf, map[*T]*T) {
	type hs struct{ content string }
	obj := map[*T]*hs{}
	sums := map[*T]*sumOf{}
	hex := map[*T]*T{} // text -> sum it is the form of
	f := x.Facts
	sumTerm := func(e *Event, t *T) *T {
		t = stripIface(t)
		if t == nil {
			return nil
		}
		if sums[t] != nil {
			return t
		}
		if t.Op == "slice" && IsConst(OffOf(t), 0) && f.Proves(EqInt(LenOf(t), Int(16))) {
			if v := in.LoadAt(e, BaseOf(t), types.NewArray(types.Typ[types.Uint8], 16)); v != nil && sums[v] != nil {
				return v
			}
		}
		return nil
	}
	var loop *LoopRec // the reading loop the events are in
	evs := x.Ev.List()
	for i, e := range evs {
		switch {
		case e.Kind == "loop":
			loop = nil
			end := i + 1
			for end < len(evs) && !(evs[end].Kind == "loopend" && evs[end].Loop == e.Loop) {
				end++
			}
			for o, h := range obj {
				used, why := streamed(e.Loop, evs[i+1:end], f, o, src)
				switch {
				case !used:
				case why != "":
					h.content = why
				case h.content != "":
					h.content = "something besides the content"
				default:
					h.content = "whole"
				}
				if used {
					loop = e.Loop
				}
			}
		case e.Kind == "loopend":
			loop = nil
		case loop != nil && len(e.Args) > 0 && obj[stripIface(e.Args[0])] != nil:
			// judged with the loop
		case e.Kind == "call" && e.Name == md5Pkg+"New" && len(e.Res) == 1:
			obj[e.Res[0]] = &hs{}
		case e.Kind == "call" && e.Name == md5Pkg+"Sum" && len(e.Res) == 1:
			sums[e.Res[0]] = &sumOf{ok: whole(e, e.Args[0]) == "", why: whole(e, e.Args[0])}
		case (e.Kind == "call" || e.Kind == "pure") && len(e.Args) > 0 && obj[stripIface(e.Args[0])] != nil:
			h := obj[stripIface(e.Args[0])]
			put := func(t *T) {
				switch w := whole(e, t); {
				case h.content != "":
					h.content = "something besides the content"
				case w == "":
					h.content = "whole"
				default:
					h.content = w
				}
			}
			switch m := callMethod(e); {
			case m == "Write" || m == "WriteString":
				put(e.Args[1])
			case m == "Copy" && e.Name == "io.Copy":
				put(e.Args[1])
			case m == "CopyBuffer" && e.Name == "io.CopyBuffer":
				put(e.Args[1])
			case m == "Reset":
				h.content = ""
			case m == "Sum":
				why := h.content
				if why == "" {
					why = "nothing"
					if w := whole(e, nil); w == "" {
						why = "whole"
					}
				}
				sums[e.Res[0]] = &sumOf{ok: why == "whole", why: why, prefix: e.Args[1]}
			case m == "Size" || m == "BlockSize":
			default:
				h.content = "what " + e.Name + " wrote"
			}
		case e.Kind == "call" && e.Name == "encoding/hex.EncodeToString" && len(e.Res) == 1:
			if s := sumTerm(e, e.Args[0]); s != nil {
				hex[e.Res[0]] = s
			}
		case e.Kind == "pure" && (e.Name == "fmt.Sprintf" || e.Name == "fmt.Sprint") && len(e.Args) == 2 && len(e.Res) == 1:
			if format, ok := StrConst(e.Args[0]); ok && (format == "%x" || format == "%02x") {
				if s := sumTerm(e, e.Args[1]); s != nil {
					hex[e.Res[0]] = s
				}
			}
		case e.Kind == "pure" && e.Name == "strings.ToLower" && len(e.Res) == 1 && hex[e.Args[0]] != nil:
			hex[e.Res[0]] = hex[e.Args[0]]
		}
	}
	return sums, hex
}

// streamed: a loop reads the source piece by piece and writes every piece to the hash; last are the events of
// its last, unfinished iteration.
func streamed(rec *LoopRec, last []*Event, f *FactNode, hash *T, src func(t *T) bool) (used bool, why string) {
	iter := func(evs []*Event, f *FactNode, back bool) {
		var rd *Event
		wrote := false
		for _, e := range evs {
			if e.Kind == "loop" {
				for _, b := range e.Loop.Back {
					for _, x := range backEvents(e.Loop, b) {
						if len(x.Args) > 0 && stripIface(x.Args[0]) == hash {
							used, why = true, "what an inner loop wrote"
						}
					}
				}
			}
			if e.Kind != "call" || len(e.Args) == 0 {
				continue
			}
			a := stripIface(e.Args[0])
			switch {
			case callMethod(e) == "Read" && src(a) && len(e.Args) == 2:
				if rd != nil {
					why = "some of the pieces read"
				}
				rd = e
			case a == hash:
				used = true
				if wrote || rd == nil || callMethod(e) != "Write" {
					why = "something besides the pieces read"
					continue
				}
				wrote = true
				b, t := rd.Args[1], e.Args[1]
				if BaseOf(t) != BaseOf(b) || OffOf(t) != OffOf(b) || !e.Facts.Proves(EqInt(LenOf(t), rd.Res[0])) {
					why = t.String() + " instead of the piece read"
				}
			}
		}
		if rd != nil && !wrote && !f.Proves(Le(rd.Res[0], Int(0))) {
			why = "only some of the pieces read (a piece can come together with the end)"
		}
		if rd == nil && back {
			return
		}
		if !back {
			eof := false
			if rd != nil && errRes(rd) != nil {
				for _, t := range f.List() {
					if t.Op == "eq" && (t.Args[0] == errRes(rd) && isEOF(t.Args[1]) || t.Args[1] == errRes(rd) && isEOF(t.Args[0])) {
						eof = true
					}
				}
			}
			if !eof && used && why == "" {
				why = "what was read before the loop gave up"
			}
		}
	}
	for _, b := range rec.Back {
		iter(backEvents(rec, b), b.Facts, true)
	}
	iter(last, f, false)
	return
}

func isEOF(t *T) bool { return strings.Contains(t.String(), "io.EOF") }

func (c *Ctx) digestHelper(fn *ssa.Function) {
	name := ShortName(fn)
	in := NewInterp(c.P, nil)
	exits := in.Run(fn)
	c.Complete(in, fn)
	ps := Params(fn)
	pt := Body(fn).Params
	kind := resultKind(fn)
	var content, extra, other *T
	var stream, path bool
	for i, p := range pt {
		switch {
		case i == 0 && kind == "text" && isString(p.Type()) && (strings.Contains(strings.ToLower(p.Name()), "path") || strings.Contains(strings.ToLower(fn.Name()), "file")):
			content, path = ps[i], true
		case content == nil && (isByteSliceT(p.Type()) || kind == "text" && isString(p.Type())):
			content = ps[i]
		case content == nil && types.IsInterface(p.Type()):
			content, stream = ps[i], true
		case kind == "test" && isString(p.Type()):
			other = ps[i]
		case isByteSliceT(p.Type()) && content != nil:
			extra = ps[i]
		}
	}
	if !c.Ob(content != nil && (kind != "test" || other != nil), "digest-anchor", name, fn.Pos(), "the argument to be summed up was not recognised") {
		return
	}
	good := 0
	for _, x := range exits {
		if x.Kind != "return" {
			continue
		}
		f := x.Facts
		if f.Infeasible() {
			continue
		}
		last := x.Res[len(x.Res)-1]
		if len(x.Res) > 1 && isErrType(last.Typ) && last != Nil && failedErr(f, last) || last.Op == "err" {
			continue
		}
		evs := x.Ev.List()
		texts := map[*T]*T{}
		read := map[*T]bool{} // handles of the file, and contents read from it
		failed := false
		for _, e := range evs {
			if e.Kind == "tostring" && len(e.Res) == 1 {
				texts[e.Res[0]] = e.Args[0]
			}
			if e.Kind != "call" {
				continue
			}
			if t := errRes(e); t != nil && !noErr(f, t) && (strings.HasPrefix(e.Name, "os.") || strings.HasPrefix(e.Name, "io.")) && f.Proves(Not(Eq(t, Nil))) {
				failed = true
			}
			if callMethod(e) == "Read" && errRes(e) != nil && f.Proves(Not(Eq(errRes(e), Nil))) {
				eof := false
				for _, t := range f.List() {
					eof = eof || t.Op == "eq" && (isEOF(t.Args[0]) || isEOF(t.Args[1]))
				}
				failed = failed || !eof
			}
			if len(e.Res) == 0 || len(e.Args) == 0 {
				continue
			}
			a := stripIface(e.Args[0])
			switch e.Name {
			case "os.Open", "os.ReadFile", "io/ioutil.ReadFile", "os.OpenFile":
				if path && a == content {
					read[e.Res[0]] = true
				}
			case "io.ReadAll", "io/ioutil.ReadAll", "bufio.NewReader", "bufio.NewReaderSize":
				if read[a] || stream && a == content {
					read[e.Res[0]] = true
				}
			}
		}
		if failed {
			if kind == "text" && len(x.Res) == 1 {
				s, ok := StrConst(x.Res[0])
				c.Ob(ok && s == "", "digest-exact", name, x.Pos, "a text is returned although the content could not be read")
			}
			continue
		}
		if len(x.Res) > 1 && isErrType(last.Typ) && last != Nil {
			f = f.With(Eq(last, Nil))
			if f.Infeasible() {
				continue
			}
		}
		whole := func(e *Event, t *T) string {
			if t == nil {
				if !stream && !path && f.Proves(EqInt(LenOf(content), Int(0))) {
					return ""
				}
				return "nothing"
			}
			t = stripIface(t)
			if t.Op == "bytes" && texts[t.Args[0]] != nil {
				t = texts[t.Args[0]]
			} else if texts[t] != nil {
				t = texts[t]
			}
			switch {
			case read[t], stream && t == content && strings.HasPrefix(e.Name, "io.Copy"):
				return ""
			case !stream && !path && (t == content || isContent(f, t, content)):
				return ""
			}
			return t.String()
		}
		src := func(t *T) bool { return t != nil && (read[t] || stream && t == content) }
		sums, hex := c.digestPath(in, x, whole, src)
		good++
		text := x.Res[0]
		if kind == "test" {
			ok := false
			for h, s := range hex {
				if sums[s].ok && plainPrefix(f, sums[s].prefix, nil) && (boolRes(f, text, Eq(h, other)) || boolRes(f, text, Eq(other, h))) {
					ok = true
				}
			}
			c.Ob(ok, "checksum-test", name, x.Pos, "the answer %s is not whether the given checksum is that of the content", text)
			continue
		}
		s := hex[text]
		if !c.Ob(s != nil, "digest-exact", name, x.Pos, "%s is returned, not the hexadecimal MD5 sum", text) {
			continue
		}
		c.Ob(sums[s].ok, "digest-exact", name, x.Pos, "the sum returned is taken of %s, not of the argument", sums[s].why)
		c.Ob(plainPrefix(f, sums[s].prefix, extra), "digest-exact", name, x.Pos, "the sum is put behind %v", sums[s].prefix)
	}
	c.Ob(good > 0, "digest-exact", name, fn.Pos(), "no path returns a sum")
	c.Add("paths", good)
}

// plainPrefix: nothing, or the bytes the caller gave for that purpose.
func plainPrefix(f *FactNode, p, extra *T) bool {
	return p == nil || p == Nil || extra != nil && p == extra || f.Proves(EqInt(LenOf(p), Int(0))) || f.Proves(Eq(p, Nil))
}

// base64Helper returns the codecs the helper uses.
func (c *Ctx) base64Helper(fn *ssa.Function, decode bool) (encs []*T) {
	name := ShortName(fn)
	in := NewInterp(c.P, nil)
	exits := in.Run(fn)
	c.Complete(in, fn)
	ps := Params(fn)
	if !c.Ob(len(ps) == 1, "base64-anchor", name, fn.Pos(), "a base64 helper with %d arguments", len(ps)) {
		return
	}
	p := ps[0]
	good := 0
	for _, x := range exits {
		if x.Kind != "return" || x.Facts.Infeasible() {
			continue
		}
		f := x.Facts
		from := map[*T]bool{} // the content of the file named by the argument
		texts := map[*T]*T{}  // text -> bytes it was made of
		codec := map[*T]*T{}  // result -> what was encoded or decoded
		failed := false
		for _, e := range x.Ev.List() {
			if e.Kind == "tostring" && len(e.Res) == 1 {
				texts[e.Res[0]] = e.Args[0]
			}
			if e.Kind != "call" {
				continue
			}
			if t := errRes(e); t != nil && f.Proves(Not(Eq(t, Nil))) {
				failed = true
			}
			switch {
			case strings.HasSuffix(e.Name, ".ReadFile") && e.Args[0] == p:
				from[e.Res[0]] = true
			case strings.HasPrefix(e.Name, b64Pkg) && (callMethod(e) == "EncodeToString" && !decode || callMethod(e) == "DecodeString" && decode):
				codec[e.Res[0]] = e.Args[1]
				encs = append(encs, e.Args[0])
			}
		}
		if failed {
			continue
		}
		r := x.Res[0]
		if texts[r] != nil {
			r = texts[r]
		}
		pre := false
		if r.Op == "concat" && len(r.Args) == 2 && !decode {
			if _, ok := StrConst(r.Args[0]); ok { // a fixed data-url head
				r, pre = r.Args[1], true
			}
		}
		src := codec[r]
		if src == nil && x.Facts.Proves(EqInt(LenOf(p), Int(0))) {
			if s, ok := StrConst(r); ok && s == "" || r == Nil {
				good++
				continue
			}
		}
		good++
		if !c.Ob(src != nil, "base64-exact", name, x.Pos, "%s is returned, not what the codec made of the argument", x.Res[0]) {
			continue
		}
		c.Ob(src == p || isContent(f, src, p) || from[src], "base64-exact", name, x.Pos, "the codec is given %s, not the argument", src)
		c.Ob(!pre || from[src], "base64-exact", name, x.Pos, "the encoded text is put behind a fixed text")
	}
	c.Ob(good > 0, "base64-exact", name, fn.Pos(), "no path returns a result")
	c.Add("paths", good)
	return
}

func isByteSliceT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// sameVar: a variable of the module that is only ever set to what another package's variable holds is that variable.
func (c *Ctx) sameVar(t *T) *T {
	if t.Op != "init" || len(t.Args) != 1 || t.Args[0].Op != "global" {
		return t
	}
	for _, pk := range c.P.SSA.AllPackages() {
		if pk.Pkg == nil || !strings.HasPrefix(pk.Pkg.Path(), ModulePath) {
			continue
		}
		for _, m := range pk.Members {
			g, ok := m.(*ssa.Global)
			if !ok || Mk("global", g.String(), g.Type()) != t.Args[0] {
				continue
			}
			var val ssa.Value
			fns := append([]*ssa.Function{}, c.P.Funcs...)
			if ini := pk.Func("init"); ini != nil {
				fns = append(fns, ini)
			}
			for _, fn := range fns {
				for _, b := range fn.Blocks {
					for _, i := range b.Instrs {
						if st, ok := i.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
							if (val != nil && val != st.Val) || fn.Synthetic == "" {
								return t
							}
							val = st.Val
						}
					}
				}
			}
			if u, ok := val.(*ssa.UnOp); ok {
				if h, ok := u.X.(*ssa.Global); ok {
					return Mk("init", "", t.Typ, Mk("global", h.String(), h.Type()))
				}
			}
		}
	}
	return t
}
