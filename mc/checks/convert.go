package checks

import (
	"fmt"
	"math/big"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

func init() {
	core.Register(&core.Check{ID: "C16", Level: "model_checking", Rule: "Every function which reads an argument or a storage entry as a number is executed with every string of up to 2 bytes and every string of a lattice of up to 33 bytes; " +
		"every function which reports or stores a number with every 16-bit number and the neighbours of all powers of two; every number is also stored by each of 4 functions and loaded by each of 5. The oracle is math/big.",
		Assumptions: []string{"strings and numbers outside the lattice behave like their neighbours in it"}, Run: runC16})
}

// reading is a function which reads bytes as a number; want is nil where the number does not fit and the execution fails.
type reading struct {
	name string
	emit func(f *wb.F, i wb.E) // reports the number read from argument i
	want func(b string) []byte
}

func fits(v *big.Int, signed bool) []byte {
	if (signed && !v.IsInt64()) || (!signed && !v.IsUint64()) {
		return nil
	}
	u := v.Uint64()
	if signed {
		u = uint64(v.Int64())
	}
	return []byte(le64(u))
}

func unsignedValue(b string) *big.Int { return new(big.Int).SetBytes([]byte(b)) }

const cvBuf = 30000

func readings() []reading {
	long := func(fn string, signed bool) reading {
		return reading{fn, func(f *wb.F, i wb.E) { f.FinishI64(wb.Call(fn, i)) }, func(b string) []byte {
			if signed {
				return fits(twosValue(b), true)
			}
			return fits(unsignedValue(b), false)
		}}
	}
	large := func(fn string, signed bool) reading {
		return reading{fn, func(f *wb.F, i wb.E) {
			f.Do(fn, i, wb.I(9))
			f.Do("bigIntFinishSigned", wb.I(9))
		}, func(b string) []byte {
			v := unsignedValue(b)
			if signed {
				v = twosValue(b)
			}
			return append([]byte{}, twosBig(v)...)
		}}
	}
	store := func(f *wb.F, i wb.E) {
		f.Do("storageStore", wb.S("k"), wb.I(1), wb.I(cvBuf), wb.Call("getArgument", i, wb.I(cvBuf)))
	}
	loadLong := func(fn string, signed bool) reading {
		return reading{fn, func(f *wb.F, i wb.E) { store(f, i); f.FinishI64(wb.Call(fn, wb.S("k"), wb.I(1))) }, long(fn, signed).want}
	}
	return []reading{
		long("smallIntGetUnsignedArgument", false), long("smallIntGetSignedArgument", true), long("int64getArgument", true),
		large("bigIntGetUnsignedArgument", false), large("bigIntGetSignedArgument", true),
		loadLong("smallIntStorageLoadUnsigned", false), loadLong("smallIntStorageLoadSigned", true), loadLong("int64storageLoad", false),
		{"bigIntStorageLoadUnsigned", func(f *wb.F, i wb.E) {
			store(f, i)
			f.Do("bigIntStorageLoadUnsigned", wb.S("k"), wb.I(1), wb.I(9))
			f.Do("bigIntFinishSigned", wb.I(9))
		}, func(b string) []byte { return append([]byte{}, twosBig(unsignedValue(b))...) }},
		{"bigIntSetUnsignedBytes", func(f *wb.F, i wb.E) {
			f.Do("bigIntSetUnsignedBytes", wb.I(9), wb.I(cvBuf), wb.Call("getArgument", i, wb.I(cvBuf)))
			f.Do("bigIntFinishSigned", wb.I(9))
		}, func(b string) []byte { return append([]byte{}, twosBig(unsignedValue(b))...) }},
		{"bigIntSetSignedBytes", func(f *wb.F, i wb.E) {
			f.Do("bigIntSetSignedBytes", wb.I(9), wb.I(cvBuf), wb.Call("getArgument", i, wb.I(cvBuf)))
			f.Do("bigIntFinishSigned", wb.I(9))
		}, func(b string) []byte { return append([]byte{}, twosBig(twosValue(b))...) }},
		{"argument", func(f *wb.F, i wb.E) {
			f.FinishI32(wb.Call("getArgumentLength", i))
			f.Do("finish", wb.I(cvBuf), wb.Call("getArgument", i, wb.I(cvBuf)))
		}, func(b string) []byte { return append([]byte{}, b...) }},
	}
}

// writing is a function which writes a number given as an argument of 8 bytes.
type writing struct {
	name string
	emit func(f *wb.F, v wb.E)
	want func(u uint64) string
}

func signedBytes(u uint64) string   { return twosBig(big.NewInt(int64(u))) }
func unsignedBytes(u uint64) string { return string(new(big.Int).SetUint64(u).Bytes()) }

func writings() []writing {
	fin := func(fn string, want func(uint64) string) writing {
		return writing{fn, func(f *wb.F, v wb.E) { f.Do(fn, v) }, want}
	}
	raw := func(f *wb.F) {
		f.Do("finish", wb.I(cvBuf), wb.Call("storageLoad", wb.S("s"), wb.I(1), wb.I(cvBuf)))
	}
	sto := func(fn string, want func(uint64) string) writing {
		return writing{fn, func(f *wb.F, v wb.E) { f.Do(fn, wb.S("s"), wb.I(1), v); raw(f) }, want}
	}
	back := func(st, ld string, want func(uint64) string) writing {
		return writing{st + " and " + ld, func(f *wb.F, v wb.E) {
			f.Do(st, wb.S("s"), wb.I(1), v)
			f.FinishI64(wb.Call(ld, wb.S("s"), wb.I(1)))
		}, want}
	}
	big9 := func(fn string, want func(uint64) string) writing {
		return writing{"bigIntSetInt64 and " + fn, func(f *wb.F, v wb.E) { f.Do("bigIntSetInt64", wb.I(9), v); f.Do(fn, wb.I(9)) }, want}
	}
	mag := func(u uint64) string { return string(new(big.Int).Abs(big.NewInt(int64(u))).Bytes()) }
	return []writing{
		fin("smallIntFinishUnsigned", unsignedBytes), fin("smallIntFinishSigned", signedBytes), fin("int64finish", signedBytes),
		sto("smallIntStorageStoreUnsigned", unsignedBytes), sto("smallIntStorageStoreSigned", signedBytes), sto("int64storageStore", unsignedBytes),
		back("smallIntStorageStoreUnsigned", "smallIntStorageLoadUnsigned", le64), back("smallIntStorageStoreSigned", "smallIntStorageLoadSigned", le64), back("int64storageStore", "int64storageLoad", le64),
		big9("bigIntFinishSigned", signedBytes), big9("bigIntFinishUnsigned", mag),
		{"bigIntNew and bigIntGetInt64", func(f *wb.F, v wb.E) { f.FinishI64(wb.Call("bigIntGetInt64", wb.Call("bigIntNew", v))) }, le64},
		{"bigIntStorageStoreUnsigned", func(f *wb.F, v wb.E) {
			f.Do("bigIntSetInt64", wb.I(9), v)
			f.Do("bigIntStorageStoreUnsigned", wb.S("s"), wb.I(1), wb.I(9))
			raw(f)
		}, mag},
	}
}

// forArgs emits a loop over all arguments.
func forArgs(f *wb.F, body func(i wb.E)) {
	n := f.Local("i")
	f.Set(n, wb.I(0))
	f.Raw(0x02, 0x40, 0x03, 0x40)
	wb.Get(n)(f)
	wb.Call("getNumArguments")(f)
	f.Raw(0x4e, 0x0d, 0x01)
	body(wb.Get(n))
	f.Set(n, wb.Op2(0x6a, wb.Get(n), wb.I(1)))
	f.Raw(0x0c, 0x00, 0x0b, 0x0b)
}

func byteLattice(c *core.Ctx) []string {
	out := []string{""}
	for a := 0; a < 256; a++ {
		out = append(out, string([]byte{byte(a)}))
		for b := 0; b < 256; b++ {
			out = append(out, string([]byte{byte(a), byte(b)}))
		}
	}
	edge := []byte{0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff}
	lens := []int{3, 4, 5, 7, 8, 9, 10, 16, 17, 32, 33}
	if c.Thorough {
		lens = nil
		for i := 3; i <= 64; i++ {
			lens = append(lens, i)
		}
	}
	for _, n := range lens {
		for _, first := range edge {
			for _, second := range edge {
				for _, fill := range []byte{0, 1, 0xff} {
					for _, last := range edge {
						b := make([]byte, n)
						for i := range b {
							b[i] = fill
						}
						b[0], b[1], b[n-1] = first, second, last
						out = append(out, string(b))
					}
				}
			}
		}
	}
	return out
}

func runC16(c *core.Ctx) {
	strs := byteLattice(c)
	const batch = 256
	reads := readings()
	setup := func(code []byte) *world.World {
		w := world.New()
		w.Add(script.User, 1000)
		w.AddContract(script.A, 10, code, script.Owner)
		return w
	}
	for ri := range reads {
		r := reads[ri]
		m := wb.New()
		m.Fn("all", func(f *wb.F) { forArgs(f, func(i wb.E) { r.emit(f, i) }) })
		code := m.Bytes()
		for part := 0; part < 8; part++ {
			part := part
			c.Case(func() string { return fmt.Sprintf("%s of all strings (part %d)", r.name, part) }, func(t *core.T) {
				hc := hostCell{flat: true}
				w := setup(code)
				run := func(args []string) *vmcommon.VMOutput {
					in := vmx.Call(script.User, script.A, "all", 0, 1<<50)
					for _, a := range args {
						in.Arguments = append(in.Arguments, []byte(a))
					}
					out, err := hc.use(w).RunSmartContractCall(in)
					t.Exec(1)
					t.Trans(len(args))
					if err != nil {
						t.Failf("%s: %v", r.name, err)
						return nil
					}
					return out
				}
				var good []string
				flush := func() bool {
					if len(good) == 0 {
						return true
					}
					out := run(good)
					if out == nil {
						return false
					}
					step := 1
					if r.name == "argument" {
						step = 2
					}
					if out.ReturnCode != vmcommon.Ok || len(out.ReturnData) != step*len(good) {
						t.Failf("%s of %x and %d others: %v %q, %d results", r.name, good[0], len(good)-1, out.ReturnCode, out.ReturnMessage, len(out.ReturnData))
						return false
					}
					for i, g := range good {
						got := out.ReturnData[i*step+step-1]
						if string(got) != string(r.want(g)) {
							t.Failf("%s reads %x as %x, expected %x", r.name, g, got, r.want(g))
							return false
						}
						if step == 2 && string(out.ReturnData[i*step]) != le32(len(g)) {
							t.Failf("getArgumentLength of %x yields %x", g, out.ReturnData[i*step])
							return false
						}
					}
					good = good[:0]
					return true
				}
				for i := part; i < len(strs); i += 8 {
					b := strs[i]
					if r.want(b) != nil {
						good = append(good, b)
						if len(good) == batch && !flush() {
							return
						}
						continue
					}
					out := run([]string{"", b})
					if out == nil {
						return
					}
					if out.ReturnCode != vmcommon.ExecutionFailed {
						t.Failf("%s of %x: %v %q with results %x, although the number does not fit", r.name, b, out.ReturnCode, out.ReturnMessage, out.ReturnData)
						return
					}
					t.Class("refused")
				}
				flush()
			})
		}
	}
	var nums []uint64
	for u := uint64(0); u < 1<<16; u++ {
		nums = append(nums, u, -u)
	}
	for k := uint(16); k < 64; k++ {
		for d := int64(-2); d <= 2; d++ {
			u := uint64(1)<<k + uint64(d)
			nums = append(nums, u, -u, ^u)
		}
	}
	for _, wr := range writings() {
		wr := wr
		m := wb.New()
		m.Fn("all", func(f *wb.F) {
			forArgs(f, func(i wb.E) {
				f.Do("getArgument", i, wb.I(cvBuf))
				wr.emit(f, wb.Load64(wb.I(cvBuf)))
			})
		})
		code := m.Bytes()
		c.Case(func() string { return wr.name + " of all numbers" }, func(t *core.T) {
			hc := hostCell{flat: true}
			w := setup(code)
			for at := 0; at < len(nums); at += batch {
				end := at + batch
				if end > len(nums) {
					end = len(nums)
				}
				in := vmx.Call(script.User, script.A, "all", 0, 1<<50)
				for _, u := range nums[at:end] {
					in.Arguments = append(in.Arguments, []byte(le64(u)))
				}
				out, err := hc.use(w).RunSmartContractCall(in)
				t.Exec(1)
				t.Trans(end - at)
				if err != nil || out.ReturnCode != vmcommon.Ok || len(out.ReturnData) != end-at {
					t.Failf("%s of %x...: %v %v", wr.name, nums[at], out, err)
					return
				}
				for i, u := range nums[at:end] {
					if got := string(out.ReturnData[i]); got != wr.want(u) {
						t.Failf("%s of %x yields %x, expected %x", wr.name, u, got, wr.want(u))
						return
					}
				}
			}
		})
	}
}
