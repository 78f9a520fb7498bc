package checks

import (
	"fmt"
	"go/types"
	"strings"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C31", Title: "File outputs contain exactly the requested content", Level: "other",
		Rule: "on every path of the copy, chunk, csv, zip and unzip helpers that can report success, the sequence of file events is abstracted to the output files it leaves (initial content kept or dropped, list of sources written): copying leaves exactly the source; a stored chunk is exactly the given bytes; assembling starts empty and every iteration k of a loop over the directory's entries writes exactly the chunk stored under number k (same name template as the storing helper), the loop ending only past the last one; the csv writer appends exactly the given row and is flushed; every iteration over the listed files adds one entry, named by the replacement of the form in that file's path, with that file's content, and the archive is closed before its file; every archive entry that is not a directory replaces the file with its own content",
		Run:  outputsRun,
		Tech: "path-sensitive abstract interpretation: effect summaries of file events per path and per loop iteration",
		Note: "io.Copy, os.ReadFile, File.Write and the csv/zip writers are taken at their documented contract; failed operations are C26's subject",
	})
}

// source of bytes.
type byteSrc struct {
	kind string // "file", "entry", "mem", "row"
	t    *T     // path, archive entry, content
}

func (s byteSrc) String() string { return s.kind + " " + fmt.Sprint(s.t) }

// outFile is a file opened for writing on a path.
type outFile struct {
	path       *T
	h          *T
	ev         *Event
	keep       bool // the previous content stays
	begun      bool // written before the events looked at
	create     bool
	excl       bool
	atEnd      bool // writes go to the end of what is there
	writes     []byteSrc
	problem    string
	closed     *Event
	unflushed  bool
	lastWriter *T
}

// entry written into an archive.
type arcEntry struct {
	w      *T // archive writer
	name   *T
	h      *T
	writes []byteSrc
	dir    bool
}

// fileIO folds the events of a path into the files it writes.
type fileIO struct {
	in     *Interp
	outs   []*outFile
	byH    map[*T]*outFile
	src    map[*T]byteSrc // readable handle or byte slice to what it yields
	used   map[*T]string  // a source handle that is no longer at its beginning
	via    map[*T]*T      // writer wrapped around a handle
	csvs   map[*T]bool
	arcs   map[*T]*T // archive writer to file handle
	arcEnd map[*T]*Event
	ents   []*arcEntry
	entH   map[*T]*arcEntry
	f      *FactNode
}

func newFileIO(in *Interp) *fileIO {
	return &fileIO{in: in, byH: map[*T]*outFile{}, src: map[*T]byteSrc{}, used: map[*T]string{}, via: map[*T]*T{}, csvs: map[*T]bool{}, arcs: map[*T]*T{}, arcEnd: map[*T]*Event{}, entH: map[*T]*arcEntry{}}
}

// iteration starts a fold of one loop iteration that knows what was opened before it.
func (s *fileIO) iteration() *fileIO {
	n := newFileIO(s.in)
	for k, v := range s.byH {
		c := *v
		c.writes, c.closed, c.begun = nil, nil, true
		n.byH[k] = &c
		n.outs = append(n.outs, &c)
	}
	for k, v := range s.src {
		n.src[k] = v
	}
	for k, v := range s.used {
		n.used[k] = v
	}
	for k, v := range s.via {
		n.via[k] = v
	}
	for k, v := range s.csvs {
		n.csvs[k] = v
	}
	for k, v := range s.arcs {
		n.arcs[k] = v
	}
	return n
}

func intConst(t *T) (int64, bool) {
	if v, ok := ConstOf(unconv(t)); ok && v.IsInt64() {
		return v.Int64(), true
	}
	return 0, false
}

// file resolves a writer to the file it writes into.
func (s *fileIO) file(h *T) *outFile {
	h = stripIface(h)
	for s.via[h] != nil {
		h = s.via[h]
	}
	return s.byH[h]
}

// whence says what reading everything from r yields.
func (s *fileIO) whence(r *T) (byteSrc, bool) {
	r = stripIface(r)
	if w, ok := s.used[r]; ok {
		return byteSrc{w, r}, false
	}
	b, ok := s.src[r]
	return b, ok
}

// bytesSrc says where the bytes of a slice or string come from.
func (s *fileIO) bytesSrc(b *T) byteSrc {
	b = stripIface(b)
	if v, ok := s.src[b]; ok {
		return v
	}
	for k, v := range s.src {
		if isByteSlice(k) && contentOf(b, k) {
			return v
		}
	}
	for (b.Op == "bytes" || b.Op == "string" || b.Op == "str") && len(b.Args) > 0 {
		b = b.Args[0]
	}
	return byteSrc{"mem", b}
}

func (s *fileIO) write(h *T, b byteSrc, e *Event) {
	h = stripIface(h)
	if en := s.entH[h]; en != nil {
		en.writes = append(en.writes, b)
		return
	}
	if o := s.file(h); o != nil {
		o.writes = append(o.writes, b)
		if o.h != h {
			o.unflushed = true
		}
	}
}

func (s *fileIO) run(evs []*Event) {
	for _, e := range evs {
		s.step(e)
	}
}

func (s *fileIO) step(e *Event) {
	if e.Kind == "pure" && len(e.Res) > 0 {
		switch e.Name {
		case "bytes.NewReader", "strings.NewReader", "bytes.NewBuffer", "bytes.NewBufferString":
			s.src[e.Res[0]] = s.bytesSrc(e.Args[0])
		}
	}
	if e.Kind != "call" {
		return
	}
	arg := func(i int) *T {
		if i < len(e.Args) {
			return stripIface(e.Args[i])
		}
		return nil
	}
	switch e.Name {
	case "os.Open":
		s.src[e.Res[0]] = byteSrc{"file", e.Args[0]}
	case "os.Create":
		o := &outFile{path: e.Args[0], h: e.Res[0], ev: e, create: true}
		s.outs, s.byH[e.Res[0]] = append(s.outs, o), o
	case "os.OpenFile":
		fl, ok := intConst(e.Args[1])
		o := &outFile{path: e.Args[0], h: e.Res[0], ev: e, keep: fl&0x200 == 0, create: fl&0x40 != 0, excl: fl&0x80 != 0, atEnd: fl&0x400 != 0}
		if !ok {
			o.problem = "its open flags are not constant"
		}
		if fl&3 == 0 && ok {
			s.src[e.Res[0]] = byteSrc{"file", e.Args[0]}
			return
		}
		if !o.keep {
			o.atEnd = true
		}
		s.outs, s.byH[e.Res[0]] = append(s.outs, o), o
	case "os.ReadFile", "io/ioutil.ReadFile":
		s.src[e.Res[0]] = byteSrc{"file", e.Args[0]}
	case "os.WriteFile", "io/ioutil.WriteFile":
		o := &outFile{path: e.Args[0], ev: e, create: true, atEnd: true, writes: []byteSrc{s.bytesSrc(e.Args[1])}}
		s.outs = append(s.outs, o)
	case "os.Remove", "os.RemoveAll", "os.Truncate":
		for _, o := range s.outs {
			if o.path == e.Args[0] {
				o.problem = "it is removed or cut afterwards"
			}
		}
	case "os.Rename":
		for _, o := range s.outs {
			if o.path == e.Args[0] {
				o.path = e.Args[1]
			}
		}
	case "io.ReadAll", "io/ioutil.ReadAll":
		b, ok := s.whence(e.Args[0])
		if !ok {
			b = byteSrc{"unknown", e.Args[0]}
		}
		s.src[e.Res[0]] = b
		s.used[arg(0)] = "rest of"
	case "io.Copy", "io.CopyBuffer":
		b, ok := s.whence(e.Args[1])
		if !ok {
			b = byteSrc{"unknown", e.Args[1]}
		}
		s.used[arg(1)] = "rest of"
		s.write(e.Args[0], b, e)
	case "(*os.File).ReadFrom", "(*bufio.Writer).ReadFrom":
		b, ok := s.whence(e.Args[1])
		if !ok {
			b = byteSrc{"unknown", e.Args[1]}
		}
		s.used[arg(1)] = "rest of"
		s.write(e.Args[0], b, e)
	case "(*os.File).Write", "(*os.File).WriteString", "invoke:io.Writer.Write", "io.WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteString":
		s.write(e.Args[0], s.bytesSrc(e.Args[1]), e)
	case "bufio.NewWriter", "bufio.NewWriterSize":
		s.via[e.Res[0]] = arg(0)
	case "bufio.NewReader", "bufio.NewReaderSize":
		if b, ok := s.whence(e.Args[0]); ok {
			s.src[e.Res[0]] = b
		}
	case "encoding/csv.NewWriter":
		s.via[e.Res[0]] = arg(0)
		s.csvs[e.Res[0]] = true
	case "(*encoding/csv.Writer).Write":
		s.write(e.Args[0], byteSrc{"row", e.Args[1]}, e)
		if fl := fieldNamed(e.Args[0], "Comma"); fl != nil {
			v := s.in.LoadAt(e, fl, types.Typ[types.Int32])
			o := s.file(e.Args[0])
			if o != nil && v != nil && !IsConst(v, ',') && v.Op == "poly" {
				o.problem = "the separator is not a comma"
			}
		}
	case "(*encoding/csv.Writer).WriteAll":
		s.write(e.Args[0], byteSrc{"rows", e.Args[1]}, e)
		if o := s.file(e.Args[0]); o != nil {
			o.unflushed = false
		}
	case "(*encoding/csv.Writer).Flush", "(*bufio.Writer).Flush":
		if o := s.file(e.Args[0]); o != nil {
			o.unflushed = false
		}
	case "(*encoding/csv.Writer).Error":
	case "(*archive/zip.File).Open":
		s.src[e.Res[0]] = byteSrc{"entry", e.Args[0]}
	case "archive/zip.NewWriter":
		s.arcs[e.Res[0]] = arg(0)
	case "(*archive/zip.Writer).CreateHeader":
		n := s.in.LoadAt(e, fieldNamed(e.Args[1], "Name"), types.Typ[types.String])
		en := &arcEntry{w: e.Args[0], name: n, h: stripIface(e.Res[0])}
		s.ents, s.entH[en.h] = append(s.ents, en), en
	case "(*archive/zip.Writer).Create":
		en := &arcEntry{w: e.Args[0], name: e.Args[1], h: stripIface(e.Res[0])}
		s.ents, s.entH[en.h] = append(s.ents, en), en
	case "(*archive/zip.Writer).Close":
		s.arcEnd[e.Args[0]] = e
		if o := s.file(s.arcs[e.Args[0]]); o != nil && o.closed != nil {
			o.problem = "it is closed before the archive is finished"
		}
	case "(*os.File).Seek":
		o := s.file(e.Args[0])
		off, ok1 := intConst(e.Args[1])
		wh, ok2 := intConst(e.Args[2])
		switch {
		case o != nil && ok1 && ok2 && off == 0 && wh == 2 && len(o.writes) == 0:
			o.atEnd = true
		case o != nil && ok1 && ok2 && off == 0 && wh == 0 && len(o.writes) == 0 && !o.keep && !o.begun:
		case o != nil:
			o.problem = "the write position is moved"
		case ok1 && ok2 && off == 0 && wh == 0:
			delete(s.used, arg(0))
		default:
			s.used[arg(0)] = "moved"
		}
	case "(*os.File).Truncate":
		if o := s.file(e.Args[0]); o != nil {
			if n, ok := intConst(e.Args[1]); ok && n == 0 && len(o.writes) == 0 && !o.begun {
				o.keep, o.atEnd = false, true
			} else {
				o.problem = "it is cut"
			}
		}
	case "(*os.File).Close":
		if o := s.file(e.Args[0]); o != nil {
			o.closed = e
			if len(s.arcs) > 0 {
				for w, h := range s.arcs {
					if s.file(h) == o && s.arcEnd[w] == nil {
						o.problem = "it is closed before the archive is finished"
					}
				}
			}
			if o.unflushed {
				o.problem = "it is closed before the buffered output is flushed"
			}
		}
	case "(*os.File).Stat", "(*os.File).Sync", "(*os.File).Chmod", "(*os.File).Name", "(*os.File).Fd", "(*os.File).SetDeadline", "(*os.File).Chown", "archive/zip.FileInfoHeader", "(*archive/zip.FileHeader).Mode", "(*archive/zip.FileHeader).FileInfo":
	default:
		// an operation not known here on one of the files
		for i, a := range e.Args {
			if o := s.file(a); o != nil && callMethod(e) != "Close" {
				o.problem = fmt.Sprintf("what %s does to it is not known", e.Name)
			}
			if _, ok := s.src[stripIface(a)]; ok && !isByteSlice(a) && callMethod(e) != "Close" {
				s.used[arg(i)] = "rest of"
			}
			if en := s.entH[stripIface(a)]; en != nil {
				en.writes = append(en.writes, byteSrc{"unknown", a})
			}
		}
	}
}

func isByteSlice(t *T) bool {
	if t.Typ == nil {
		return false
	}
	_, ok := t.Typ.Underlying().(*types.Slice)
	return ok || isString(t.Typ)
}

// fieldNamed is the address of a field of the struct an address points to.
func fieldNamed(addr *T, name string) *T {
	pt, ok := addr.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return FieldAddr(addr, pt.Elem(), i)
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if a := fieldNamed(FieldAddr(addr, pt.Elem(), i), name); a != nil {
				return a
			}
		}
	}
	return nil
}

// pathText is a canonical text of a path, with n written as a placeholder.
func pathText(t, n *T) string {
	el, abs := elements(pieces(t))
	var sb strings.Builder
	if abs {
		sb.WriteString("/")
	}
	for i, e := range el {
		if i > 0 {
			sb.WriteString("/")
		}
		for _, p := range e {
			switch {
			case p.v == nil:
				sb.WriteString(p.c)
			case n != nil && (isCall(p.v, "strconv.Itoa") || isCall(p.v, "strconv.FormatInt") && IsConst(p.v.Args[1], 10)) && unconv(p.v.Args[0]) == n:
				sb.WriteString("<n>")
			default:
				sb.WriteString("<" + p.v.String() + ">")
			}
		}
	}
	return sb.String()
}

// succeeds: the path can report success.
func succeeds(x *Exit) bool {
	if x.Kind != "return" || len(x.Res) == 0 {
		return false
	}
	er := x.Res[len(x.Res)-1]
	return er.Op != "err" && !failedErr(x.Facts, er)
}

// exact: the file holds exactly one source afterwards.
func (o *outFile) exact(kind string, same func(t *T) bool) string {
	switch {
	case o.problem != "":
		return o.problem
	case o.keep:
		return "what it held before is kept"
	case o.unflushed:
		return "buffered output is not flushed"
	case len(o.writes) != 1:
		return fmt.Sprintf("%d things are written to it", len(o.writes))
	case o.writes[0].kind != kind || !same(o.writes[0].t):
		return "what is written is " + o.writes[0].String()
	}
	return ""
}

func (o *outFile) fresh() string {
	switch {
	case o.problem != "":
		return o.problem
	case o.keep:
		return "what it held before is kept"
	case !o.create:
		return "it is not created"
	case o.excl:
		return "an existing file is not replaced"
	}
	return ""
}

func outputsRun(c *Ctx) {
	p := c.P
	start := func(nm string) (*Interp, []*Exit, string) {
		fn := p.Func("help/utils", nm)
		if fn == nil {
			c.Need(nm, 0, 1)
			return nil, nil, ""
		}
		in := NewInterp(p, &Config{})
		exits := in.Run(fn)
		c.Complete(in, fn)
		var ok []*Exit
		for _, x := range exits {
			if succeeds(x) {
				ok = append(ok, x)
			}
		}
		c.Need("success paths of "+nm, len(ok), 1)
		return in, ok, ShortName(fn)
	}
	par := func(nm string, i int) *T { return Param(Body(p.Func("help/utils", nm)), i) }
	is := func(w *T) func(t *T) bool { return func(t *T) bool { return t == w } }

	// copying
	if in, xs, name := start("CopyFile"); in != nil {
		dst, src := par("CopyFile", 0), par("CopyFile", 1)
		for _, x := range xs {
			s := newFileIO(in)
			s.run(x.Ev.List())
			why := fmt.Sprintf("%d files are written", len(s.outs))
			if len(s.outs) == 1 {
				o := s.outs[0]
				why = o.fresh()
				if why == "" {
					why = o.exact("file", is(src))
				}
				if why == "" && o.path != dst {
					why = "the file written is " + o.path.String()
				}
			}
			c.Ob(why == "", "copied-exactly", name, x.Pos, "a copy that succeeds does not leave exactly the source in the destination: %s", why)
		}
	}
	// moving
	if in, xs, name := start("FileMove"); in != nil {
		dst, src := par("FileMove", 1), par("FileMove", 0)
		abs := func(t, w *T) bool { return t == w || isCall(t, "path/filepath.Abs.0") && t.Args[0] == w }
		moved := 0
		for _, x := range xs {
			n, ok := 0, true
			visit(x.Ev.List(), func(e *Event, _ *State) {
				if e.Kind == "call" && e.Name == "os.Rename" {
					n++
					ok = ok && abs(e.Args[0], src) && abs(e.Args[1], dst)
				}
			})
			if x.Facts.Proves(Eq(dst, Str(""))) || x.Facts.Proves(EqInt(LenOf(dst), Int(0))) {
				continue
			}
			moved++
			c.Ob(n == 1 && ok, "moved-once", name, x.Pos, "a move that succeeds does not rename the source to the destination exactly once")
		}
		c.Need("moving paths", moved, 1)
	}
	// storing a chunk
	chunk := ""
	if in, xs, name := start("BreakPointContinue"); in != nil {
		nm := "BreakPointContinue"
		content, number := par(nm, 0), par(nm, 2)
		for _, x := range xs {
			s := newFileIO(in)
			s.run(x.Ev.List())
			why := fmt.Sprintf("%d files are written", len(s.outs))
			if len(s.outs) == 1 {
				o := s.outs[0]
				why = o.fresh()
				if why == "" {
					why = o.exact("mem", is(content))
				}
				if why == "" && x.Res[0] != o.path && pathText(x.Res[0], nil) != pathText(o.path, nil) {
					why = "the path returned is not the one written"
				}
				if why == "" {
					t := pathText(o.path, number)
					t = strings.ReplaceAll(t, "<"+par(nm, 1).String()+">", "<file>")
					t = strings.ReplaceAll(t, "<"+par(nm, 4).String()+">", "<sum>")
					if chunk != "" && t != chunk {
						why = "the chunk's name depends on the path taken"
					}
					chunk = t
					if !strings.Contains(t, "<n>") || !strings.Contains(t, "<file>") || !strings.Contains(t, "<sum>") {
						why = "its path " + t + " does not name file, sum and number"
					} else if i := strings.Index(t, "<n>"); i > 0 && strings.HasSuffix(t[:i], ">") {
						why = "its path " + t + " does not separate the number"
					}
				}
			}
			c.Ob(why == "", "chunk-stored", name, x.Pos, "a stored chunk is not exactly the given bytes: %s", why)
		}
	}
	// assembling
	if in, xs, name := start("MakeFile"); in != nil && chunk != "" {
		file, sum := par("MakeFile", 0), par("MakeFile", 1)
		text := func(t, n *T) string {
			return strings.ReplaceAll(strings.ReplaceAll(pathText(t, n), "<"+file.String()+">", "<file>"), "<"+sum.String()+">", "<sum>")
		}
		for _, x := range xs {
			s := newFileIO(in)
			evs := x.Ev.List()
			s.run(evs)
			why := fmt.Sprintf("%d files are written", len(s.outs))
			if len(s.outs) == 1 {
				o := s.outs[0]
				why = o.fresh()
				if why == "" && len(o.writes) > 0 {
					why = "something is written outside the loop over the chunks"
				}
				if why == "" && text(x.Res[0], nil) != text(o.path, nil) {
					why = "the path returned is not the one written"
				}
			}
			loops := 0
			pre := newFileIO(in)
			for _, e := range evs {
				if e.Kind != "loop" || e.Loop == nil {
					pre.step(e)
					continue
				}
				rec := e.Loop
				touched := false
				for _, b := range rec.Back {
					it := pre.iteration()
					bev := backEvents(rec, b)
					it.run(bev)
					writes := 0
					for _, o := range it.outs {
						writes += len(o.writes)
					}
					if writes == 0 && len(it.outs) == len(pre.outs) {
						continue
					}
					touched = true
					switch {
					case why != "":
					case hasLoop(bev):
						why = "a loop inside the loop over the chunks is not understood"
					case len(it.outs) != 1:
						why = "other files are written in the loop"
					case len(it.outs[0].writes) != 1 || it.outs[0].problem != "":
						why = fmt.Sprintf("%d things are written for one chunk %s", len(it.outs[0].writes), it.outs[0].problem)
					case it.outs[0].writes[0].kind != "file" || text(it.outs[0].writes[0].t, rec.Iota) != chunk:
						why = "the chunk written is " + it.outs[0].writes[0].String()
					}
				}
				if touched {
					loops++
					for _, b := range rec.Back {
						it := pre.iteration()
						it.run(backEvents(rec, b))
						if why == "" && (len(it.outs) != 1 || len(it.outs[0].writes) == 0) {
							why = "some iterations write nothing"
						}
					}
					all := false
					for _, d := range evs {
						if d.Kind == "call" && strings.HasSuffix(d.Name, ".ReadDir") && text(d.Args[0], nil) == chunk[:strings.LastIndex(chunk, "/")] {
							all = all || x.Facts.Proves(Ge0(Sub(rec.Iota, LenOf(d.Res[0]))))
						}
					}
					if why == "" && !all {
						why = "the loop may end before the last chunk"
					}
				}
			}
			if why == "" && loops != 1 {
				why = "no loop over the chunks"
			}
			c.Ob(why == "", "assembled-in-order", name, x.Pos, "an assembly that succeeds does not leave every chunk in numeric order: %s", why)
		}
	}
	// csv
	if in, xs, name := start("WriteCsv"); in != nil {
		path, row := par("WriteCsv", 0), par("WriteCsv", 1)
		for _, x := range xs {
			s := newFileIO(in)
			s.run(x.Ev.List())
			why := fmt.Sprintf("%d files are written", len(s.outs))
			if len(s.outs) == 1 {
				o := s.outs[0]
				switch {
				case o.problem != "":
					why = o.problem
				case o.path != path:
					why = "the file written is " + o.path.String()
				case !o.keep:
					why = "earlier rows are dropped"
				case !o.create || o.excl:
					why = "the file is not created when missing and kept when present"
				case !o.atEnd:
					why = "the row is not written at the end"
				case len(o.writes) != 1:
					why = fmt.Sprintf("%d rows are written", len(o.writes))
				case o.unflushed:
					why = "the row is not flushed"
				default:
					w, bad := o.writes[0], ""
					if w.kind == "rows" {
						if v := in.LoadOne(x.State, Mk("elem", "", types.NewPointer(row.Typ), BaseOf(w.t), OffOf(w.t)), row.Typ); v != row || !x.Facts.Proves(EqInt(LenOf(w.t), Int(1))) {
							bad = "what is written is " + w.String()
						}
					} else if w.kind != "row" || w.t != row {
						bad = "what is written is " + w.String()
					}
					why = bad
				}
			}
			c.Ob(why == "", "row-appended", name, x.Pos, "a csv write that succeeds does not append exactly the given row: %s", why)
		}
	}
	// zipping
	if in, xs, name := start("ZipFiles"); in != nil {
		target, files, from, to := par("ZipFiles", 0), par("ZipFiles", 1), par("ZipFiles", 2), par("ZipFiles", 3)
		str := types.Typ[types.String]
		for _, x := range xs {
			s := newFileIO(in)
			evs := x.Ev.List()
			s.run(evs)
			why := fmt.Sprintf("%d files are written", len(s.outs))
			var arc *T
			if len(s.outs) == 1 {
				o := s.outs[0]
				why = o.fresh()
				for w, h := range s.arcs {
					if s.file(h) == o {
						arc = w
					}
				}
				switch {
				case why != "":
				case o.path != target:
					why = "the file written is " + o.path.String()
				case len(o.writes) > 0:
					why = "something else is written to the archive's file"
				case len(s.arcs) != 1 || arc == nil:
					why = "there is not exactly one archive writer on the file"
				case s.arcEnd[arc] == nil:
					why = "the archive is not finished"
				case len(s.ents) > 0:
					why = "an entry is added outside the loop over the files"
				}
			}
			loops := 0
			pre := newFileIO(in)
			for _, e := range evs {
				if e.Kind != "loop" || e.Loop == nil {
					pre.step(e)
					continue
				}
				rec := e.Loop
				touched, bare := false, false
				for _, b := range rec.Back {
					it := pre.iteration()
					bev := backEvents(rec, b)
					it.run(bev)
					if len(it.ents) == 0 {
						bare = true
						continue
					}
					touched = true
					f := elemAt(in, b, files, rec.Iota, str)
					en := it.ents[0]
					switch {
					case why != "":
					case hasLoop(bev):
						why = "a loop inside the loop over the files is not understood"
					case len(it.ents) != 1:
						why = fmt.Sprintf("%d entries are added for one file", len(it.ents))
					case en.w != arc:
						why = "the entry is added to another archive"
					case en.name == nil || !renamed(en.name, f, from, to):
						why = fmt.Sprintf("the entry's name is %v", en.name)
					case len(en.writes) != 1 || en.writes[0].kind != "file" || en.writes[0].t != f:
						why = fmt.Sprintf("what is written to the entry is %v", en.writes)
					case it.arcEnd[arc] != nil:
						why = "the archive is finished inside the loop"
					}
				}
				if touched {
					loops++
					if why == "" && bare {
						why = "some files are skipped"
					}
					if why == "" && !x.Facts.Proves(Ge0(Sub(rec.Iota, LenOf(files)))) {
						why = "the loop may end before the last file"
					}
				}
			}
			if why == "" && loops != 1 {
				why = "no loop over the files"
			}
			c.Ob(why == "", "archived-once", name, x.Pos, "an archive that is reported as written does not hold every listed file once: %s", why)
		}
	}
	// extracting
	if in, xs, name := start("Unzip"); in != nil {
		for _, x := range xs {
			s := newFileIO(in)
			evs := x.Ev.List()
			s.run(evs)
			why := ""
			if len(s.outs) > 0 {
				why = "a file is written outside the loop over the entries"
			}
			var rd *Event
			loops := 0
			pre := newFileIO(in)
			for _, e := range evs {
				if e.Kind == "call" && (e.Name == "archive/zip.OpenReader" || e.Name == "archive/zip.NewReader") {
					rd = e
				}
				if e.Kind != "loop" || e.Loop == nil {
					pre.step(e)
					continue
				}
				rec := e.Loop
				touched := false
				for _, b := range rec.Back {
					it := pre.iteration()
					bev := backEvents(rec, b)
					it.run(bev)
					touched = touched || len(it.outs) > 0
				}
				if !touched || rd == nil {
					continue
				}
				loops++
				fa := fieldNamed(rd.Res[0], "File")
				if fa == nil {
					why = "the archive's entries are not found"
					break
				}
				ft := fa.Typ.Underlying().(*types.Pointer).Elem()
				entries := in.LoadAt(e, fa, ft)
				if entries == nil {
					why = "the archive's entries are not found"
					break
				}
				for _, b := range rec.Back {
					it := pre.iteration()
					bev := backEvents(rec, b)
					it.run(bev)
					f := elemAt(in, b, entries, rec.Iota, ft.Underlying().(*types.Slice).Elem())
					nm := in.LoadOne(b, fieldNamed(f, "Name"), types.Typ[types.String])
					if len(bev) > 0 {
						nm = in.LoadAt(bev[0], fieldNamed(f, "Name"), types.Typ[types.String])
					}
					switch {
					case why != "":
					case hasLoop(bev):
						why = "a loop inside the loop over the entries is not understood"
					case len(it.outs) == 0:
						if !isDirFact(b.Facts, nm, f, bev) {
							why = "an entry that is not a directory may be skipped"
						}
					case len(it.outs) > 1:
						why = fmt.Sprintf("%d files are written for one entry", len(it.outs))
					default:
						o := it.outs[0]
						why = o.fresh()
						if why == "" {
							why = o.exact("entry", is(f))
						}
						if why == "" && !Contains(o.path, func(t *T) bool { return t == nm }) {
							why = "the file written is " + o.path.String()
						}
					}
				}
				if why == "" && !x.Facts.Proves(Ge0(Sub(rec.Iota, LenOf(entries)))) {
					why = "the loop may end before the last entry"
				}
			}
			if why == "" && loops != 1 {
				why = "no loop over the entries"
			}
			c.Ob(why == "", "extracted-exactly", name, x.Pos, "an extraction that succeeds does not leave every entry's content in its file: %s", why)
		}
	}
}

func hasLoop(evs []*Event) bool {
	for _, e := range evs {
		if e.Kind == "loop" {
			return true
		}
	}
	return false
}

// elemAt is element i of a slice in a state.
func elemAt(in *Interp, st *State, sl, i *T, typ types.Type) *T {
	return in.LoadOne(st, Mk("elem", "", types.NewPointer(typ), BaseOf(sl), Add(OffOf(sl), i)), typ)
}

// renamed: every occurrence of from in f is replaced by to.
func renamed(t, f, from, to *T) bool {
	switch {
	case isCall(t, "strings.ReplaceAll"):
		return t.Args[0] == f && t.Args[1] == from && t.Args[2] == to
	case isCall(t, "strings.Replace"):
		n, ok := ConstOf(unconv(t.Args[3]))
		return ok && n.Sign() < 0 && t.Args[0] == f && t.Args[1] == from && t.Args[2] == to
	}
	return false
}

// isDirFact: the facts say that the archive entry f, named name, is a directory.
func isDirFact(f *FactNode, name, entry *T, evs []*Event) bool {
	of := map[*T]bool{}
	for _, e := range evs {
		if e.Kind != "call" && e.Kind != "pure" || len(e.Args) == 0 || len(e.Res) == 0 {
			continue
		}
		switch m := callMethod(e); m {
		case "FileInfo", "Mode", "IsDir":
			a := stripIface(e.Args[0])
			if !of[a] && !Contains(a, func(t *T) bool { return t == entry }) {
				continue
			}
			if m != "IsDir" {
				of[e.Res[0]] = true
			} else if f.Proves(e.Res[0]) {
				return true
			}
		}
	}
	for n := f; n != nil; n = n.Next {
		if t := n.F; t != nil && t.Op == "strings.HasSuffix" && t.Args[0] == name && t.Args[1] == Str("/") {
			return true
		}
	}
	n := Sub(LenOf(name), Int(1))
	return f.Proves(EqInt(StrAt(name, n), Int('/')))
}
