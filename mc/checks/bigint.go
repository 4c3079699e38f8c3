package checks

import (
	"fmt"
	"math/big"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

func init() {
	core.Register(&core.Check{ID: "C15", Level: "model_checking", Rule: "Every operation on big integers is executed with every pair of operands from a lattice of boundary values and every way in which its handles coincide; and every sequence of up to 3 (thorough: 4) operations over few handles, with handles never used before. " +
		"All handles are compared afterwards. The oracle is math/big on a map from handles to numbers.",
		Assumptions: []string{"operands outside the lattice behave like their neighbours in it", "shifts beyond 4096 bits are left out"}, Run: runC15})
}

// biOp is an operation on handles d (destination), x and y.
type biOp struct {
	name  string
	arity int // number of operands besides the destination
	// f computes the result; nil means that the operation must fail
	f func(a, b *big.Int) *big.Int
}

func nonNeg(f func(z, a, b *big.Int) *big.Int) func(a, b *big.Int) *big.Int {
	return func(a, b *big.Int) *big.Int {
		if a.Sign() < 0 || b.Sign() < 0 {
			return nil
		}
		return f(new(big.Int), a, b)
	}
}

// euclid is the Euclidean division, truncated the truncating one, both from first principles.
func euclid(a, b *big.Int) (q, r *big.Int) {
	q, r = truncated(a, b)
	if r.Sign() < 0 {
		if b.Sign() > 0 {
			q.Sub(q, big.NewInt(1))
			r.Add(r, b)
		} else {
			q.Add(q, big.NewInt(1))
			r.Sub(r, b)
		}
	}
	return
}

func truncated(a, b *big.Int) (q, r *big.Int) {
	q, r = new(big.Int).QuoRem(new(big.Int).Abs(a), new(big.Int).Abs(b), new(big.Int))
	if a.Sign()*b.Sign() < 0 {
		q.Neg(q)
	}
	if a.Sign() < 0 {
		r.Neg(r)
	}
	return
}

func division(f func(a, b *big.Int) (q, r *big.Int), rem bool) func(a, b *big.Int) *big.Int {
	return func(a, b *big.Int) *big.Int {
		if b.Sign() == 0 {
			return nil
		}
		q, r := f(a, b)
		if rem {
			return r
		}
		return q
	}
}

func biOps() []biOp {
	return []biOp{
		{"bigIntAdd", 2, func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }},
		{"bigIntSub", 2, func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, new(big.Int).Neg(b)) }},
		{"bigIntMul", 2, func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }},
		{"bigIntTDiv", 2, division(truncated, false)},
		{"bigIntTMod", 2, division(truncated, true)},
		{"bigIntEDiv", 2, division(euclid, false)},
		{"bigIntEMod", 2, division(euclid, true)},
		{"bigIntAnd", 2, nonNeg((*big.Int).And)},
		{"bigIntOr", 2, nonNeg((*big.Int).Or)},
		{"bigIntXor", 2, nonNeg((*big.Int).Xor)},
		{"bigIntAbs", 1, func(a, _ *big.Int) *big.Int { return new(big.Int).Abs(a) }},
		{"bigIntNeg", 1, func(a, _ *big.Int) *big.Int { return new(big.Int).Sub(new(big.Int), a) }},
		{"bigIntNot", 1, func(a, _ *big.Int) *big.Int {
			if a.Sign() < 0 {
				return nil
			}
			return new(big.Int).Sub(big.NewInt(-1), a)
		}},
	}
}

func wrap32(e wb.E) wb.E { return func(f *wb.F) { e(f); f.Raw(0xa7) } }

func arg64(i int32) wb.E { return wb.Call("smallIntGetSignedArgument", wb.I(i)) }

// biContract has one function for each operation; its arguments are three values for the handles 0, 1, 2 and the three handles to use.
func biContract() []byte {
	m := wb.New()
	load := func(f *wb.F) [3]int {
		var h [3]int
		for i := int32(0); i < 3; i++ {
			f.Do("bigIntGetSignedArgument", wb.I(i), wb.I(i))
			h[i] = f.Local("i")
			f.Set(h[i], wrap32(arg64(3+i)))
		}
		return h
	}
	dump := func(f *wb.F) {
		for i := int32(0); i < 3; i++ {
			f.Do("bigIntFinishSigned", wb.I(i))
		}
	}
	for _, o := range biOps() {
		o := o
		m.Fn(o.name, func(f *wb.F) {
			h := load(f)
			if o.arity == 2 {
				f.Do(o.name, wb.Get(h[0]), wb.Get(h[1]), wb.Get(h[2]))
			} else {
				f.Do(o.name, wb.Get(h[0]), wb.Get(h[1]))
			}
			dump(f)
		})
	}
	for _, s := range []string{"bigIntShl", "bigIntShr"} {
		s := s
		m.Fn(s, func(f *wb.F) {
			h := load(f)
			f.Do(s, wb.Get(h[0]), wb.Get(h[1]), wb.Get(h[2])) // the last argument is the number of bits
			dump(f)
		})
	}
	m.Fn("cmp", func(f *wb.F) {
		h := load(f)
		f.FinishI32(wb.Call("bigIntCmp", wb.Get(h[0]), wb.Get(h[1])))
		dump(f)
	})
	m.Fn("unary", func(f *wb.F) {
		load(f)
		f.FinishI32(wb.Call("bigIntSign", wb.I(0)))
		f.FinishI32(wb.Call("bigIntIsInt64", wb.I(0)))
		f.FinishI32(wb.Call("bigIntUnsignedByteLength", wb.I(0)))
		f.FinishI32(wb.Call("bigIntSignedByteLength", wb.I(0)))
		l := f.Local("i")
		f.Set(l, wb.Call("bigIntGetUnsignedBytes", wb.I(0), wb.I(5000)))
		f.Do("finish", wb.I(5000), wb.Get(l))
		f.Do("bigIntSetUnsignedBytes", wb.I(7), wb.I(5000), wb.Get(l))
		f.Do("bigIntSetSignedBytes", wb.I(8), wb.I(5000), wb.Get(l))
		f.Set(l, wb.Call("bigIntGetSignedBytes", wb.I(0), wb.I(6000)))
		f.Do("finish", wb.I(6000), wb.Get(l))
		f.Do("bigIntSetUnsignedBytes", wb.I(9), wb.I(6000), wb.Get(l))
		f.Do("bigIntSetSignedBytes", wb.I(10), wb.I(6000), wb.Get(l))
		for i := int32(7); i <= 10; i++ {
			f.Do("bigIntFinishSigned", wb.I(i))
		}
		f.Do("bigIntFinishUnsigned", wb.I(0))
		f.Do("bigIntGetUnsignedArgument", wb.I(0), wb.I(11))
		f.Do("bigIntFinishSigned", wb.I(11))
		f.Do("bigIntStorageStoreUnsigned", wb.S("k"), wb.I(1), wb.I(0))
		f.Do("bigIntStorageLoadUnsigned", wb.S("k"), wb.I(1), wb.I(12))
		f.Do("bigIntFinishSigned", wb.I(12))
		dump(f)
	})
	m.Fn("int64", func(f *wb.F) {
		load(f)
		f.FinishI64(wb.Call("bigIntGetInt64", wb.I(0)))
		f.Do("bigIntSetInt64", wb.I(1), wb.Call("bigIntGetInt64", wb.I(0)))
		f.Do("bigIntSetInt64", wb.I(2), arg64(0))
		f.Do("bigIntFinishSigned", wb.Call("bigIntNew", arg64(0)))
		dump(f)
	})
	return m.Bytes()
}

// twosBig is the shortest two's complement representation, from first principles.
func twosBig(v *big.Int) string {
	if v.Sign() == 0 {
		return ""
	}
	for n := uint(1); ; n++ {
		half := new(big.Int).Lsh(big.NewInt(1), 8*n-1)
		if v.Cmp(half) >= 0 || v.Cmp(new(big.Int).Neg(half)) < 0 {
			continue
		}
		u := new(big.Int).Set(v)
		if u.Sign() < 0 {
			u.Add(u, new(big.Int).Lsh(half, 1))
		}
		b := make([]byte, n)
		return string(u.FillBytes(b))
	}
}

func biLattice(fine bool) []*big.Int {
	var out []*big.Int
	seen := map[string]bool{}
	add := func(v *big.Int) {
		for _, s := range []*big.Int{v, new(big.Int).Neg(v)} {
			if !seen[s.String()] {
				seen[s.String()] = true
				out = append(out, s)
			}
		}
	}
	for _, v := range []int64{0, 1, 2, 3, 7, 10} {
		add(big.NewInt(v))
	}
	bits := []uint{7, 8, 16, 31, 32, 63, 64, 127, 128, 255, 256, 264, 300}
	if !fine {
		bits = []uint{8, 63, 64, 264}
	}
	for _, b := range bits {
		for _, d := range []int64{-1, 0, 1} {
			if !fine && d == 1 {
				continue
			}
			add(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), b), big.NewInt(d)))
		}
	}
	return out
}

type biRunner struct {
	t  *core.T
	hc hostCell
	w  *world.World
}

func (r *biRunner) call(fn string, v [3]*big.Int, h [3]int64) (*vmcommon.VMOutput, error) {
	if r.w == nil {
		r.w = accessWorld(biContract(), nil, nil, nil)
	}
	var args [][]byte
	for _, x := range v {
		args = append(args, []byte(twosBig(x)))
	}
	for _, x := range h {
		args = append(args, []byte(twosBig(big.NewInt(x))))
	}
	out, err := r.hc.use(r.w).RunSmartContractCall(vmx.Call(script.User, script.A, fn, 0, 1<<50, args...))
	r.t.Exec(1)
	r.t.Trans(1)
	return out, err
}

// expect compares the outcome; want nil means a failure.
func (r *biRunner) expect(what string, out *vmcommon.VMOutput, err error, want []string) {
	t := r.t
	if err != nil {
		t.Failf("%s: error %v", what, err)
		return
	}
	t.Class(out.ReturnCode.String())
	if want == nil {
		if out.ReturnCode == vmcommon.Ok {
			t.Failf("%s succeeds with %x; it must fail", what, out.ReturnData)
		}
		return
	}
	var got []string
	for _, d := range out.ReturnData {
		got = append(got, string(d))
	}
	if out.ReturnCode != vmcommon.Ok || fmt.Sprintf("%x", got) != fmt.Sprintf("%x", want) {
		t.Failf("%s: %v %q, results\n%x\nexpected\n%x", what, out.ReturnCode, out.ReturnMessage, got, want)
	}
}

func runC15(c *core.Ctx) {
	fine, coarse := biLattice(true), biLattice(false)
	var few []*big.Int
	for _, v := range []int64{0, 1, -1, 5, -7, 256} {
		few = append(few, big.NewInt(v))
	}
	few = append(few, new(big.Int).Lsh(big.NewInt(3), 70), new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(3), 270)))
	if c.Thorough {
		few = coarse
	}
	for _, o := range biOps() {
		o := o
		for _, a := range fine {
			a := a
			c.Case(func() string { return fmt.Sprintf("%s of %v and each of %d values", o.name, a, len(fine)) }, func(t *core.T) {
				r := &biRunner{t: t}
				for _, b := range fine {
					if o.arity == 1 && b != fine[0] {
						break
					}
					d := big.NewInt(77)
					out, err := r.call(o.name, [3]*big.Int{d, a, b}, [3]int64{0, 1, 2})
					var want []string
					if z := o.f(a, b); z != nil {
						want = []string{twosBig(z), twosBig(a), twosBig(b)}
					}
					what := fmt.Sprintf("%s(%v, %v)", o.name, a, b)
					t.Outcome(what)
					r.expect(what, out, err, want)
					if t.Failed() {
						return
					}
				}
			})
		}
		// handles which coincide
		c.Case(func() string { return fmt.Sprintf("%s with every choice of its handles", o.name) }, func(t *core.T) {
			r := &biRunner{t: t}
			for h := 0; h < 27; h++ {
				hs := [3]int64{int64(h % 3), int64(h / 3 % 3), int64(h / 9)}
				if o.arity == 1 && h >= 9 {
					break
				}
				for _, x := range few {
					for _, y := range few {
						for _, z := range few {
							v := [3]*big.Int{x, y, z}
							if !c.Thorough && z != few[0] && z != few[3] && z != few[4] {
								continue
							}
							out, err := r.call(o.name, v, hs)
							res := o.f(v[hs[1]], v[hs[2]])
							var want []string
							if res != nil {
								for i := range v {
									s := v[i]
									if int64(i) == hs[0] {
										s = res
									}
									want = append(want, twosBig(s))
								}
							}
							what := fmt.Sprintf("%s on handles %v holding %v", o.name, hs, v)
							t.Outcome(what)
							r.expect(what, out, err, want)
							if t.Failed() {
								return
							}
						}
					}
				}
			}
		})
	}
	for _, s := range []string{"bigIntShl", "bigIntShr"} {
		s := s
		c.Case(func() string { return s }, func(t *core.T) {
			r := &biRunner{t: t}
			for _, a := range fine {
				for _, n := range []int64{0, 1, 7, 8, 31, 32, 63, 64, 65, 255, 256, 300, 4096, -1, -1 << 31} {
					for _, same := range []bool{false, true} {
						hs := [3]int64{0, 1, n}
						if same {
							hs[0] = 1
						}
						out, err := r.call(s, [3]*big.Int{big.NewInt(77), a, big.NewInt(5)}, hs)
						var want []string
						if n >= 0 && a.Sign() >= 0 {
							p := new(big.Int).Exp(big.NewInt(2), big.NewInt(n), nil)
							z := new(big.Int).Mul(a, p)
							if s == "bigIntShr" {
								z, _ = truncated(a, p)
							}
							want = []string{twosBig(z), twosBig(a), twosBig(big.NewInt(5))}
							if same {
								want[0], want[1] = twosBig(big.NewInt(77)), want[0]
							}
						}
						what := fmt.Sprintf("%s(%v, %d), same handle: %v", s, a, n, same)
						t.Outcome(what)
						r.expect(what, out, err, want)
					}
				}
			}
		})
	}
	c.Case(func() string { return "comparisons" }, func(t *core.T) {
		r := &biRunner{t: t}
		for _, a := range fine {
			for _, b := range fine {
				for _, hs := range [][3]int64{{0, 1, 0}, {1, 0, 0}, {1, 1, 0}} {
					v := [3]*big.Int{a, b, few[1]}
					out, err := r.call("cmp", v, hs)
					what := fmt.Sprintf("bigIntCmp of handles %v of %v", hs[:2], v)
					d := new(big.Int).Add(v[hs[0]], new(big.Int).Neg(v[hs[1]]))
					t.Outcome(what)
					r.expect(what, out, err, []string{le32(d.Sign()), twosBig(a), twosBig(b), twosBig(few[1])})
				}
			}
		}
	})
	c.Case(func() string { return "conversions" }, func(t *core.T) {
		r := &biRunner{t: t}
		for _, a := range biLatticeDense() {
			v := [3]*big.Int{a, few[3], few[4]}
			out, err := r.call("unary", v, [3]int64{})
			abs := new(big.Int).Abs(a)
			mag := string(abs.Bytes())
			tw := twosBig(a)
			is64 := 0
			if a.Cmp(new(big.Int).Lsh(big.NewInt(1), 63)) < 0 && a.Cmp(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63))) >= 0 {
				is64 = 1
			}
			sg := func(s string) string { return twosBig(twosValue(s)) }
			un := func(s string) string { return twosBig(new(big.Int).SetBytes([]byte(s))) }
			what := fmt.Sprintf("conversions of %v", a)
			t.Outcome(what)
			r.expect(what, out, err, []string{le32(a.Sign()), le32(is64), le32(len(mag)), le32(len(tw)), mag, tw, un(mag), sg(mag), un(tw), sg(tw), mag, un(tw), twosBig(abs), tw, twosBig(few[3]), twosBig(few[4])})
			if is64 == 1 {
				out, err = r.call("int64", v, [3]int64{})
				r.expect(what+" as int64", out, err, []string{le64(uint64(a.Int64())), tw, tw, tw, tw})
			} else {
				out, err = r.call("int64", v, [3]int64{})
				r.expect(what+" as int64", out, err, nil)
			}
			if t.Failed() {
				return
			}
		}
	})
	runC15Seq(c)
}

// biLatticeDense has all values of up to 10 bits and around every power of two up to 2^320.
func biLatticeDense() []*big.Int {
	var out []*big.Int
	for v := int64(-1025); v <= 1025; v++ {
		out = append(out, big.NewInt(v))
	}
	for b := uint(11); b <= 320; b++ {
		for d := int64(-1); d <= 1; d++ {
			v := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), b), big.NewInt(d))
			out = append(out, v, new(big.Int).Neg(v))
		}
	}
	return out
}

// runC15Seq explores sequences of operations over handles, some of which do not exist yet.
func runC15Seq(c *core.Ctx) {
	type state map[int32]*big.Int
	get := func(s state, h int32) *big.Int {
		if s[h] == nil {
			s[h] = new(big.Int)
		}
		return s[h]
	}
	type op struct {
		name string
		emit func(f *wb.F)
		run  func(s state) []string
	}
	var ops []op
	for _, v := range []int64{0, -5} {
		v := v
		ops = append(ops, op{fmt.Sprintf("new(%d)", v), func(f *wb.F) { f.FinishI32(wb.Call("bigIntNew", wb.L(v))) }, func(s state) []string {
			h := int32(len(s))
			for s[h] != nil {
				h++
			}
			s[h] = big.NewInt(v)
			return []string{le32(int(h))}
		}})
	}
	hs := []int32{0, 1, 3, -1}
	for _, h := range hs {
		h := h
		ops = append(ops, op{fmt.Sprintf("set(%d,9)", h), func(f *wb.F) { f.Do("bigIntSetInt64", wb.I(h), wb.L(9)) }, func(s state) []string { s[h] = big.NewInt(9); return nil }})
		ops = append(ops, op{fmt.Sprintf("finish(%d)", h), func(f *wb.F) { f.Do("bigIntFinishSigned", wb.I(h)) }, func(s state) []string { return []string{twosBig(get(s, h))} }})
		ops = append(ops, op{fmt.Sprintf("argument(%d)", h), func(f *wb.F) { f.Do("bigIntGetUnsignedArgument", wb.I(0), wb.I(h)) }, func(s state) []string { s[h] = big.NewInt(300); return nil }})
		ops = append(ops, op{fmt.Sprintf("no argument(%d)", h), func(f *wb.F) { f.Do("bigIntGetSignedArgument", wb.I(1), wb.I(h)) }, func(s state) []string { return nil }})
	}
	for _, d := range hs[:3] {
		for _, a := range hs[:3] {
			d, a := d, a
			ops = append(ops, op{fmt.Sprintf("neg(%d,%d)", d, a), func(f *wb.F) { f.Do("bigIntNeg", wb.I(d), wb.I(a)) }, func(s state) []string {
				get(s, d)
				s[d] = new(big.Int).Neg(get(s, a))
				return nil
			}})
		}
	}
	for _, t := range [][3]int32{{0, 0, 0}, {0, 0, 1}, {1, 0, 0}, {1, 0, 3}, {3, 3, -1}, {-1, 1, 3}} {
		t := t
		ops = append(ops, op{fmt.Sprintf("mul%v", t), func(f *wb.F) { f.Do("bigIntMul", wb.I(t[0]), wb.I(t[1]), wb.I(t[2])) }, func(s state) []string {
			get(s, t[0])
			s[t[0]] = new(big.Int).Mul(get(s, t[1]), get(s, t[2]))
			return nil
		}})
		ops = append(ops, op{fmt.Sprintf("add%v", t), func(f *wb.F) { f.Do("bigIntAdd", wb.I(t[0]), wb.I(t[1]), wb.I(t[2])) }, func(s state) []string {
			get(s, t[0])
			s[t[0]] = new(big.Int).Add(get(s, t[1]), get(s, t[2]))
			return nil
		}})
	}
	ops = append(ops, op{"nested call which sets 0, 1 and 3", func(f *wb.F) {
		script.EmitCall(f, script.Act{Kind: script.Dest, To: script.B, Func: "g"}, 1<<40)
	}, func(s state) []string { return []string{""} }})
	other := wb.New()
	other.Fn("g", func(f *wb.F) {
		f.Do("bigIntFinishSigned", wb.I(0)) // must not see the number of the caller
		for _, h := range hs {
			f.Do("bigIntSetInt64", wb.I(h), wb.L(1000))
		}
	})
	otherCode := other.Bytes()
	depth := 3
	if c.Thorough {
		depth = 4
	}
	for i, o := range ops {
		i, o := i, o
		c.Case(func() string { return fmt.Sprintf("sequences of %d operations which begin with %s", depth, o.name) }, func(t *core.T) {
			var hc hostCell
			var rec func(seq []int)
			rec = func(seq []int) {
				if t.Failed() {
					return
				}
				if len(seq) < depth {
					for j := range ops {
						rec(append(seq, j))
					}
					return
				}
				m := wb.New()
				s := state{}
				var want []string
				name := ""
				m.Fn("go", func(f *wb.F) {
					for _, j := range seq {
						ops[j].emit(f)
						want = append(want, ops[j].run(s)...)
						name += ops[j].name + "; "
					}
					for _, h := range hs {
						f.Do("bigIntFinishSigned", wb.I(h))
						want = append(want, twosBig(get(s, h)))
					}
				})
				w := accessWorld(m.Bytes(), otherCode, nil, nil)
				out, err := hc.use(w).RunSmartContractCall(vmx.Call(script.User, script.A, "go", 0, 1<<50, []byte{1, 44}))
				t.Exec(1)
				t.Trans(len(seq))
				t.Outcome(name)
				(&biRunner{t: t}).expect(name, out, err, want)
			}
			rec([]int{i})
		})
	}
}
