package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C28", Title: "AES helpers agree and reject malformed input", Level: "other",
		Rule: "For the exported pair that builds a CBC encrypter and a CBC decrypter (found by the calls they reach): same key role and same IV expression of the key; the encrypted text is the data followed by p = 16 - len%16 bytes of value p (all contents compared symbolically), output is exactly the encrypted blocks in fresh memory; decryption runs on all of the input, returns the plain text without its last p bytes where p is its last byte, with 1 <= p <= 16 and p <= len known on that path; no other path fails for input a valid encryption could have produced; every panicking precondition (key slice, IV length, whole blocks, repeat count, index and slice bounds, nil) is entailed by the path facts; no write, append or cipher output goes to memory of an argument.",
		Run:  aesPair, Tech: "symbolic summaries of both helpers compared for inversion, over a path-partitioned abstract interpretation of Go SSA with contracts for the cipher packages",
		Note:   "Covers every plaintext length, content and key length. Trusts the standard library's CBC to invert itself for the same key and IV.",
		Assume: []string{"crypto/aes, crypto/cipher contracts"}})
}

type aesCall struct {
	mode, block, crypt *Event
}

func aesCalls(x *Exit) (a aesCall) {
	for _, e := range x.Ev.List() {
		if e.Kind != "call" {
			continue
		}
		switch {
		case e.Name == "crypto/aes.NewCipher":
			a.block = e
		case strings.HasPrefix(e.Name, "crypto/cipher.New"):
			a.mode = e
		case strings.HasSuffix(e.Name, ".CryptBlocks"):
			a.crypt = e
		}
	}
	return
}

func usesMode(in *Interp, exits []*Exit, suffix string) bool {
	for _, x := range exits {
		if a := aesCalls(x); a.mode != nil && strings.HasSuffix(a.mode.Name, suffix) {
			return true
		}
	}
	return false
}

type aesFn struct {
	fn        *ssa.Function
	in        *Interp
	exits     []*Exit
	data, key *T
	iv        string
}

func aesPair(c *Ctx) {
	var enc, dec []*aesFn
	for _, fn := range exportedFuncs(c.P, "help/utils") {
		if !callsInto(fn, "crypto/cipher") {
			continue
		}
		in := NewInterp(c.P, nil)
		exits := in.Run(fn)
		c.Complete(in, fn)
		f := &aesFn{fn: fn, in: in, exits: exits}
		rs := fn.Signature.Results()
		if !c.Ob(rs.Len() == 2 && isErrType(rs.At(1).Type()), "returns-error", ShortName(fn), fn.Pos(), "the helper cannot report an error") {
			continue
		}
		switch {
		case usesMode(in, exits, "Encrypter"):
			enc = append(enc, f)
		case usesMode(in, exits, "Decrypter"):
			dec = append(dec, f)
		default:
			c.Fail("mode", ShortName(fn), fn.Pos(), "the helper uses a cipher mode that is neither CBC encryption nor CBC decryption")
		}
	}
	c.Need("encrypting helpers", len(enc), 1)
	c.Need("decrypting helpers", len(dec), 1)
	for _, f := range append(append([]*aesFn{}, enc...), dec...) {
		c.aesCommon(f)
	}
	for _, f := range enc {
		c.aesEncrypt(f)
	}
	for _, f := range dec {
		c.aesDecrypt(f)
	}
	for _, e := range enc {
		for _, d := range dec {
			c.Ob(e.iv != "" && e.iv == d.iv, "same-iv", ShortName(d.fn), d.fn.Pos(), "encryption uses IV %q, decryption %q", e.iv, d.iv)
		}
	}
}

// callsInto: fn reaches a call into the package.
func callsInto(fn *ssa.Function, pkg string) bool {
	for g := range reach(fn) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if sc := ci.Common().StaticCallee(); sc != nil && sc.Pkg != nil && sc.Pkg.Pkg.Path() == pkg {
						return true
					}
				}
			}
		}
	}
	return false
}

// obligations: every precondition recorded on the paths is entailed.
func (c *Ctx) obligations(name string, exits []*Exit) int {
	n := 0
	for _, e := range allEvents(exits) {
		if e.Kind == "ob" && !callersNil(e) {
			n++
			c.Ob(e.Val == True || e.Facts.Proves(e.Val), "no-panic", name+" "+e.Name, e.Pos, "%s is not guaranteed: this can panic", e.Val)
		}
	}
	for _, x := range exits {
		c.Ob(x.Kind == "return", "no-panic", name, x.Pos, "a path ends in a panic")
	}
	return n
}

// callersNil: the obligation is that a library constructor's result is not nil.
func callersNil(e *Event) bool {
	if e.Name != "nil" || len(e.Args) != 1 {
		return false
	}
	a := e.Args[0]
	return a.Op == "res" && strings.HasPrefix(a.Aux, "hash/fnv.New")
}

// argMemory: no write, append into spare capacity, copy or listed output call targets memory of an argument.
func (c *Ctx) argMemory(in *Interp, name string, exits []*Exit, out func(e *Event) *T) {
	n := 0
	fromParam := func(t *T) bool { o := origin(t); return o.Op == "param" }
	for _, e := range allEvents(exits) {
		var dst *T
		switch e.Kind {
		case "store", "astore":
			dst = e.Args[0]
		case "append":
			if IsConst(LenOf(e.Args[1]), 0) || e.Facts.Proves(EqInt(CapOf(e.Args[0]), LenOf(e.Args[0]))) {
				continue
			}
			dst = e.Args[0]
		case "copy":
			dst = e.Args[0]
		case "call":
			if out != nil {
				dst = out(e)
			}
		}
		if dst == nil {
			continue
		}
		n++
		c.Ob(!fromParam(dst), "arguments-unmodified", name, e.Pos, "%s is memory of an argument and may be written", dst)
	}
	c.Add("writes examined", n)
}

func (c *Ctx) aesCommon(f *aesFn) {
	name := ShortName(f.fn)
	n := c.obligations(name, f.exits)
	c.Need("panic preconditions in "+name, n, 1)
	c.argMemory(f.in, name, f.exits, func(e *Event) *T {
		if strings.HasSuffix(e.Name, ".CryptBlocks") {
			return e.Args[1]
		}
		return nil
	})
	ps := Params(f.fn)
	ok := 0
	for _, x := range f.exits {
		if x.Kind != "return" {
			continue
		}
		a := aesCalls(x)
		if a.block != nil {
			if f.key == nil {
				f.key = a.block.Args[0]
			}
			c.Ob(a.block.Args[0] == f.key && f.key.Op == "param", "key", name, a.block.Pos, "the cipher key %s is not the key parameter", a.block.Args[0])
			if failedErr(a.block.Facts, a.block.Res[1]) || failedErr(x.Facts, a.block.Res[1]) {
				c.Ob(failedErr(x.Facts, x.Res[1]), "invalid-key-reported", name, x.Pos, "an invalid key is not reported")
				continue
			}
		}
		if failedErr(x.Facts, x.Res[1]) {
			continue
		}
		ok++
		if !c.Ob(a.block != nil && a.mode != nil && a.crypt != nil, "mode", name, x.Pos, "a path succeeds without running the cipher") {
			continue
		}
		c.Ob(a.mode.Args[0] == a.block.Res[0] && a.crypt.Args[0] == a.mode.Res[0], "mode", name, a.mode.Pos, "the cipher run is not the one built from the key")
		iv := ivText(a.mode.Args[1], f.key)
		c.Ob(iv != "", "iv", name, a.mode.Pos, "the IV %s is not a fixed function of the key", a.mode.Args[1])
		c.Ob(f.iv == "" || f.iv == iv, "iv", name, a.mode.Pos, "the IV differs between paths")
		f.iv = iv
	}
	c.Need("successful paths of "+name, ok, 1)
	for _, p := range ps {
		if p != f.key && p.Typ != nil {
			if _, ok := p.Typ.Underlying().(*types.Slice); ok {
				f.data = p
			}
		}
	}
	c.Ob(f.data != nil && f.key != nil, "roles", name, f.fn.Pos(), "data and key parameters not found")
}

// ivText describes an IV that is a part of the key, independent of the parameter's name.
func ivText(iv, key *T) string {
	if key == nil || BaseOf(iv) != BaseOf(key) {
		return ""
	}
	off, n := Sub(OffOf(iv), OffOf(key)), LenOf(iv)
	if _, ok := ConstOf(off); !ok && off != Sub(LenOf(key), Int(16)) {
		return ""
	}
	s := off.String()
	if !IsIntTermConst(off) {
		s = "end-16"
	}
	return "key[" + s + ":+" + n.String() + "]"
}

func (c *Ctx) aesEncrypt(f *aesFn) {
	name := ShortName(f.fn)
	byteT := types.Typ[types.Byte]
	for _, x := range f.exits {
		if x.Kind != "return" || failedErr(x.Facts, x.Res[1]) || f.data == nil {
			if x.Kind == "return" {
				a := aesCalls(x)
				ok := a.block != nil && failedErr(x.Facts, a.block.Res[1])
				if !ok && f.key != nil {
					ok = true
					for _, k := range []int64{16, 24, 32} {
						ok = ok && x.Facts.With(EqInt(LenOf(f.key), Int(k))).Infeasible()
					}
				}
				c.Ob(ok, "valid-input-accepted", name, x.Pos, "encryption fails although the key is valid")
			}
			continue
		}
		a := aesCalls(x)
		if a.crypt == nil {
			continue
		}
		c.Ob(noErr(x.Facts, x.Res[1]), "success-without-error", name, x.Pos, "the result may carry an error together with a text")
		dst, src := a.crypt.Args[1], a.crypt.Args[2]
		n := LenOf(f.data)
		pad := Sub(Int(16), Rem(n, Int(16)))
		fs := a.crypt.Facts
		c.Ob(eqI(fs, LenOf(src), Add(n, pad)), "padding-length", name, a.crypt.Pos, "the padded text has %s bytes, not data plus 16 - len%%16", LenOf(src))
		j := Mk("iota", "any#aes", types.Typ[types.Int])
		at := func(off *T, lim *T) (*T, *FactNode) {
			s := &State{Mem: a.crypt.Mem, Facts: fs.With(Ge0(j)).With(Lt(j, lim)), Clock: 1 << 20}
			return f.in.LoadOne(s, Mk("elem", "", types.NewPointer(byteT), BaseOf(src), Add(OffOf(src), Add(off, j))), byteT), s.Facts
		}
		v, fj := at(Int(0), n)
		want := f.in.LoadOne(&State{Facts: fj, Clock: 1 << 20}, Mk("elem", "", types.NewPointer(byteT), BaseOf(f.data), Add(OffOf(f.data), j)), byteT)
		c.Ob(v != nil && (v == want || fj.Proves(EqInt(v, want))), "plaintext-kept", name, a.crypt.Pos, "byte j of the padded text is %s, not byte j of the data", v)
		v, fj = at(n, pad)
		c.Ob(v != nil && (byteOf(v) == pad || fj.Proves(EqInt(byteOf(v), pad))), "padding-value", name, a.crypt.Pos, "the padding bytes are %s, not the padding length", v)
		c.aesOutput(f, name, x, a, dst, src)
		r := x.Res[0]
		c.Ob(BaseOf(r) == BaseOf(dst) && eqI(x.Facts, OffOf(r), OffOf(dst)) && eqI(x.Facts, LenOf(r), LenOf(src)), "output", name, x.Pos, "the result %s is not exactly the encrypted text", r)
		c.noWritesAfter(name, x, a.crypt, BaseOf(dst))
	}
}

// byteOf removes a conversion to a byte.
func byteOf(v *T) *T {
	for v != nil && v.Op == "conv" {
		v = v.Args[0]
	}
	return v
}

// aesOutput: the cipher writes to fresh memory (or in place over its own input).
func (c *Ctx) aesOutput(f *aesFn, name string, x *Exit, a aesCall, dst, src *T) {
	fresh := func(t *T) bool { o := origin(t); return o.Op == "alloc" || o.Op == "arr" }
	c.Ob(fresh(BaseOf(dst)), "fresh-output", name, a.crypt.Pos, "the cipher writes to %s, which is not fresh memory", dst)
	same := BaseOf(dst) == BaseOf(src)
	c.Ob(!same || eqI(a.crypt.Facts, OffOf(dst), OffOf(src)), "fresh-output", name, a.crypt.Pos, "input and output of the cipher overlap with an offset (panics)")
}

func (c *Ctx) noWritesAfter(name string, x *Exit, at *Event, base *T) {
	seen := false
	for _, e := range x.Ev.List() {
		if e == at {
			seen = true
			continue
		}
		if seen && (e.Kind == "store" && e.Args[0].Op == "elem" && e.Args[0].Args[0] == base || e.Kind == "copy" && BaseOf(e.Args[0]) == base) {
			c.Fail("output", name, e.Pos, "the cipher's output is changed afterwards")
		}
		if seen && e.Kind == "loop" {
			for _, b := range e.Loop.Back {
				for _, w := range backEvents(e.Loop, b) {
					if w.Kind == "store" && w.Args[0].Op == "elem" && w.Args[0].Args[0] == base {
						c.Fail("output", name, w.Pos, "the cipher's output is changed afterwards")
					}
				}
			}
		}
	}
}

func (c *Ctx) aesDecrypt(f *aesFn) {
	name := ShortName(f.fn)
	byteT := types.Typ[types.Byte]
	if f.data == nil {
		return
	}
	n := LenOf(f.data)
	whole := []*T{Le(Int(16), n), EqInt(Rem(n, Int(16)), Int(0))}
	for _, x := range f.exits {
		if x.Kind != "return" {
			continue
		}
		a := aesCalls(x)
		failed := failedErr(x.Facts, x.Res[1])
		if a.crypt == nil {
			if failed && a.block != nil && !failedErr(x.Facts, a.block.Res[1]) || failed && a.block == nil {
				ok := true
				for _, k := range []int64{16, 24, 32} {
					fx := x.Facts.With(EqInt(LenOf(f.key), Int(k)))
					for _, t := range whole {
						fx = fx.With(t)
					}
					ok = ok && fx.Infeasible()
				}
				c.Ob(ok, "valid-input-accepted", name, x.Pos, "input of whole blocks is refused with a valid key")
			} else if !failed {
				c.Fail("malformed-rejected", name, x.Pos, "a path succeeds without decrypting")
			}
			continue
		}
		dst, src := a.crypt.Args[1], a.crypt.Args[2]
		c.Ob(BaseOf(src) == BaseOf(f.data) && OffOf(src) == OffOf(f.data) && eqI(a.crypt.Facts, LenOf(src), n), "whole-input", name, a.crypt.Pos, "decryption runs on %s, not on the whole input", src)
		c.aesOutput(f, name, x, a, dst, src)
		c.noWritesAfter(name, x, a.crypt, BaseOf(dst))
		last := f.in.LoadOne(&State{Mem: x.State.Mem, Facts: x.Facts, Clock: 1 << 20}, Mk("elem", "", types.NewPointer(byteT), BaseOf(dst), Add(OffOf(dst), Sub(n, Int(1)))), byteT)
		if last == nil {
			c.Fail("decided", name, x.Pos, "the last byte of the plain text cannot be determined")
			continue
		}
		good := []*T{Le(Int(1), last), Le(last, Int(16)), Le(last, n)}
		if failed {
			fx := x.Facts
			for _, t := range append(good, whole...) {
				fx = fx.With(t)
			}
			ok := fx.Infeasible()
			for _, e := range x.Ev.List() { // or some padding byte is not the padding length: nothing encryption produces
				if ok || e.Kind != "load" || e.Args[0].Op != "elem" || e.Args[0].Args[0] != BaseOf(dst) {
					continue
				}
				i := Sub(e.Args[0].Args[1], OffOf(dst))
				v := f.in.LoadAt(e, e.Args[0], byteT)
				ok = v != nil && fx.Proves(Le(Sub(n, last), i)) && fx.Proves(Lt(i, n)) && fx.With(EqInt(v, last)).Infeasible()
			}
			c.Ob(ok, "valid-input-accepted", name, x.Pos, "text with a valid padding length is refused")
			continue
		}
		c.Ob(noErr(x.Facts, x.Res[1]), "success-without-error", name, x.Pos, "the result may carry an error together with a text")
		for _, t := range append(good, Lt(Int(0), n)) {
			c.Ob(x.Facts.Proves(t), "malformed-rejected", name, x.Pos, "a path succeeds although %s is not known", t)
		}
		c.Ob(x.Facts.Proves(EqInt(Rem(n, Int(16)), Int(0))), "malformed-rejected", name, x.Pos, "a path succeeds although the input is not known to be whole blocks")
		r := x.Res[0]
		c.Ob(BaseOf(r) == BaseOf(dst) && eqI(x.Facts, OffOf(r), OffOf(dst)) && eqI(x.Facts, LenOf(r), Sub(n, last)), "unpadding", name, x.Pos, "the result %s is not the plain text without its padding", r)
	}
}
