package eng

import (
	"fmt"
	"go/types"
	"strings"
)

// Contracts of the block cipher packages: key and IV lengths, whole blocks, room for the output.

func isAesBlock(t *T) bool {
	return t != nil && t.Op == "res" && strings.HasPrefix(t.Aux, "crypto/aes.NewCipher")
}

func init() {
	models["crypto/aes.NewCipher"] = func(in *Interp, st *State, c *Call) []Outcome {
		rt := c.Results()
		key := c.Args[0]
		n := LenOf(key)
		bad := st.fork()
		ok := st.fork()
		e := in.NonNilErr(bad, "aes.NewCipher")
		in.event(bad, &Event{Kind: "call", Name: c.Name, Instr: c.Instr, Args: c.Args, Res: []*T{Nil, e}, Val: c.Fn})
		var out []Outcome
		for _, k := range []int64{16, 24, 32} {
			if bad = bad.assume(in, Not(EqInt(n, Int(k)))); bad == nil {
				break
			}
		}
		if bad != nil {
			out = append(out, Outcome{St: bad, Res: []*T{Nil, e}})
		}
		if ok = ok.assumeAll(in, []*T{Le(Int(16), n), Le(n, Int(32))}); ok != nil {
			b := in.Fresh(ok, "res", c.Name+".0", rt[0])
			ok.Facts = ok.Facts.With(Not(Eq(b, Nil)))
			in.event(ok, &Event{Kind: "call", Name: c.Name, Instr: c.Instr, Args: c.Args, Res: []*T{b, Nil}, Val: c.Fn})
			out = append(out, Outcome{St: ok, Res: []*T{b, Nil}})
		}
		return out
	}
	models["invoke:crypto/cipher.Block.BlockSize"] = func(in *Interp, st *State, c *Call) []Outcome {
		in.nilOb(st, c.Instr, c.Args[0])
		if isAesBlock(c.Args[0]) {
			return one(st, Int(16))
		}
		return one(st, mk("call", c.Name, tInt, c.Args...))
	}
	blockSize := func(b *T) *T {
		if isAesBlock(b) {
			return Int(16)
		}
		return mk("call", "invoke:crypto/cipher.Block.BlockSize", tInt, b)
	}
	for _, n := range []string{"NewCBCEncrypter", "NewCBCDecrypter", "NewCTR", "NewOFB", "NewCFBEncrypter", "NewCFBDecrypter"} {
		models["crypto/cipher."+n] = func(in *Interp, st *State, c *Call) []Outcome {
			in.nilOb(st, c.Instr, c.Args[0])
			in.oblige(st, c.Instr, "iv-length", EqInt(LenOf(c.Args[1]), blockSize(c.Args[0])))
			m := in.Fresh(st, "res", c.Name+".0", c.Results()[0])
			st.Facts = st.Facts.With(Not(Eq(m, Nil)))
			in.event(st, &Event{Kind: "call", Name: c.Name, Instr: c.Instr, Args: c.Args, Res: []*T{m}, Val: c.Fn})
			return one(st, m)
		}
	}
	models["invoke:crypto/cipher.BlockMode.CryptBlocks"] = func(in *Interp, st *State, c *Call) []Outcome {
		in.nilOb(st, c.Instr, c.Args[0])
		in.oblige(st, c.Instr, "whole-blocks", EqInt(Rem(LenOf(c.Args[2]), Int(16)), Int(0)))
		in.oblige(st, c.Instr, "room", Le(LenOf(c.Args[2]), LenOf(c.Args[1])))
		in.event(st, &Event{Kind: "call", Name: c.Name, Instr: c.Instr, Args: c.Args, Val: c.Fn})
		in.clobber(st, c, 1, c.Args[1])
		return one(st)
	}
	models["bytes.Repeat"] = func(in *Interp, st *State, c *Call) []Outcome {
		b, n := c.Args[0], c.Args[1]
		in.oblige(st, c.Instr, "repeat", Ge0(n))
		ln := Mul(LenOf(b), n)
		in.event(st, &Event{Kind: "call", Name: c.Name, Instr: c.Instr, Args: c.Args, Val: c.Fn})
		src := st.Mem
		r := in.newSlice(st, "repeat", ln, ln, c.Results()[0])
		it := mk("iota", fmt.Sprintf("repeat#%d", st.Clock), tInt)
		st.Clock++
		byteT := types.Typ[types.Byte]
		m := &Mem{Kind: MCompr, Addr: r.Args[0], Lo: Int(0), N: ln, Iota: it, Clock: st.Clock}
		m.Cases = []ComprCase{{}}
		if IsConst(LenOf(b), 1) {
			rs := in.Load(&State{Frames: st.Frames, Mem: src, Facts: st.Facts, Clock: st.Clock}, mk("elem", "", types.NewPointer(byteT), BaseOf(b), OffOf(b)), byteT)
			if len(rs) == 1 {
				m.Cases = []ComprCase{{Val: rs[0].val}}
			}
		}
		st.Mem = st.Mem.push(m)
		return one(st, r)
	}
}
