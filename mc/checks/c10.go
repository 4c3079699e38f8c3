package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"

	"vmc/core"
	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

func init() {
	core.Register(&core.Check{ID: "C10", Level: "model_checking",
		Rule: "For each of the functions of the environment interface, a contract calls it with a valid argument vector in which up to 2 (thorough: 3) parameters deviate, over every combination of the " +
			"boundary values of the parameter's kind (pointer, length, handle, index, count, gas, 64-bit integer). Also: loads and stores at every alignment around the end of the memory against a byte-array model. " +
			"Non-trivial outcomes are distinct (function, vector class, return code) results.",
		Assumptions: []string{"lengths and counts up to 2^20 and negative ones and those whose byte count overflows: lengths which merely demand gigabytes of memory are left out",
			"the WebAssembly engine is the one in /verif/engine (the repository's native library is not available)"},
		Run: runC10})
}

const (
	scratch   = 2048
	memTop    = 65536
	argTabOff = 3000
	addrOff   = 3100 // address of the callee
	farOff    = 3200
	valOff    = 3300 // 32-byte value (zero)
	keyOff    = 3400
	tokOff    = 3500
	fnOff     = 3600
	codeOff   = 4096
	metaOff   = 3700
	sigOff    = 3800
	blsOff    = 3900
	okOff     = 4000
)

type paramKind int

const (
	kPtr paramKind = iota
	kLen
	kHandle
	kIndex
	kCount
	kGas
	kI64
	kBits
)

func kindOf(name string) paramKind {
	l := strings.ToLower(name)
	switch {
	case name == "numArguments" || name == "numTopics":
		return kCount
	case name == "gasLimit" || name == "gas":
		return kGas
	case name == "nonce" || name == "smallValue" || name == "value" || name == "lockTimestamp":
		return kI64
	case name == "id" || name == "resultID":
		return kIndex
	case name == "bits":
		return kBits
	case strings.HasSuffix(l, "offset") || name == "pointer" || name == "dataPointer" || name == "topicPtr":
		return kPtr
	case strings.HasSuffix(l, "length") || strings.HasSuffix(l, "len"):
		return kLen
	}
	return kHandle
}

var kindVals = map[paramKind][]int64{
	kPtr:    {0, memTop - 32, memTop - 1, memTop, memTop + 1, 2 * memTop, math.MaxInt32 - 15, math.MaxInt32, -1, math.MinInt32},
	kLen:    {0, 1, 31, 33, 255, memTop, memTop + 1, 1 << 20, -1, -2, math.MinInt32},
	kHandle: {0, 1, 2, 7, -1, math.MaxInt32, math.MinInt32},
	kIndex:  {0, 1, 2, 3, -1, -2, math.MaxInt32, math.MinInt32},
	kCount:  {0, 1, 2, 3, 100, -1, math.MinInt32, 0x20000000, 0x40000000, 0x40000001, 0x60000000, math.MaxInt32},
	kGas:    {0, 1, 2000, 1 << 40, math.MaxInt64, -1, math.MinInt64},
	kI64:    {0, 1, -1, 1 << 32, math.MaxInt64, math.MinInt64},
	kBits:   {0, 1, 64, 4096, -1, math.MinInt32},
}

// defaults gives the valid value of each parameter.
func defaults(fn string, names []string) []int64 {
	out := make([]int64, len(names))
	for i, n := range names {
		switch n {
		case "destOffset", "addressOffset":
			out[i] = addrOff
		case "sourceContractAddressOffset":
			out[i] = addrOff
		case "valueOffset":
			out[i] = valOff
		case "codeOffset":
			out[i] = codeOff
		case "codeMetadataOffset":
			out[i] = metaOff
		case "keyOffset":
			out[i] = keyOff
		case "tokenIDOffset":
			out[i] = tokOff
		case "functionOffset":
			out[i] = fnOff
			if fn == "getFunction" {
				out[i] = scratch
			}
		case "argumentsLengthOffset", "topicLengthsOffset":
			out[i] = argTabOff
		case "keyLength":
			out[i] = 4
			if fn == "verifySecp256k1" {
				out[i] = 33
			}
		case "tokenIDLen":
			out[i] = 6
		case "functionLength":
			out[i] = 2
		case "length", "dataLength", "messageLength", "messageOffset_", "asyncLen":
			out[i] = 5
			if fn == "createContract" || fn == "upgradeContract" {
				out[i] = -1000 // set by the caller: the length of the code
			}
			if fn == "asyncCall" || fn == "transferValue" {
				out[i] = 2
			}
		case "byteLength":
			out[i] = 3
		case "messageLength_":
			out[i] = 5
		case "numArguments":
			out[i] = 1
		case "numTopics":
			out[i] = 1
		case "gasLimit":
			out[i] = 50000
		case "sigOffset":
			out[i] = sigOff
		case "dataOffset":
			out[i] = scratch
			if fn == "asyncCall" || fn == "transferValue" {
				out[i] = fnOff
			}
		case "bits":
			out[i] = 3
		case "resultID", "id":
			out[i] = 0
		default:
			switch kindOf(n) {
			case kPtr:
				out[i] = scratch
			case kLen:
				out[i] = 5
			case kHandle:
				out[i] = 0
			case kI64:
				out[i] = 1
			}
		}
	}
	return out
}

type c10env struct {
	w      *world.World
	h      arwen.VMHost
	canary string
	code   []byte
	clean  string
}

func calleeCode() []byte {
	m := wb.New()
	m.Fn("go", func(f *wb.F) { f.Finish([]byte("pong")) })
	m.Fn("init", func(f *wb.F) {})
	m.Fn("callBack", func(f *wb.F) {})
	return m.Bytes()
}

func newC10Env() *c10env {
	w := world.New()
	if err := w.EnableBuiltIns(vmx.FlatGas()); err != nil {
		panic(err)
	}
	u := w.Add(vmx.User("user"), 1000000)
	u.Nonce = 5
	a := w.AddContract(vmx.SC("aaaa"), 5000, nil, vmx.User("user"))
	a.SetESDT("TOK-12", 77)
	a.SetNFT("TOK-12", 1, 1, &esdt.MetaData{Nonce: 1, Name: []byte("nm"), Creator: vmx.SC("cr"), Hash: []byte("hash"), URIs: [][]byte{[]byte("uri")}, Attributes: []byte("attr"), Royalties: 3})
	a.Storage["key1"] = []byte("value one")
	b := w.AddContract(vmx.SC("bbbb"), 100, calleeCode(), vmx.SC("aaaa"))
	b.SetESDT("TOK-12", 5)
	e := &c10env{w: w, code: calleeCode()}
	e.reset()
	e.canary = e.runCanary()
	return e
}

func (e *c10env) reset() { e.h = vmx.MustHost(e.w, vmx.Opt{}) }

// program builds the contract which calls fn with the vector v.
func (e *c10env) program(fn string, v []int64) []byte { return e.programAt("go", fn, v) }

// programAt lets the function of the contract called at do it; if that is not "go", "go" calls it read-only.
func (e *c10env) programAt(at, fn string, v []int64) []byte {
	m := wb.New()
	sig := wb.Sigs[fn]
	if at != "go" {
		m.Fn("go", func(f *wb.F) {
			f.Do("executeReadOnly", wb.L(500000), wb.P(vmx.SC("aaaa")), wb.S(at), wb.I(int32(len(at))), wb.I(1), wb.P([]byte{1, 0, 0, 0}), wb.S("x"))
		})
	}
	m.Fn(at, func(f *wb.F) {
		m.Place(addrOff, vmx.SC("bbbb"))
		m.Place(argTabOff, []byte{3, 0, 0, 0, 2, 0, 0, 0, 1, 0, 0, 0})
		m.Place(keyOff, []byte("key1"))
		m.Place(tokOff, []byte("TOK-12"))
		m.Place(fnOff, []byte("go"))
		m.Place(metaOff, []byte{5, 6})
		m.Place(sigOff, []byte{0x30, 4, 2, 0, 2, 0})
		m.Place(valOff+31, []byte{1})
		m.Place(okOff, []byte("done"))
		m.Place(codeOff, e.code)
		m.Place(farOff, vmx.User("user"))
		f.Do("bigIntNew", wb.L(5))
		f.Do("bigIntNew", wb.L(-3))
		if at == "go" {
			f.Do("executeOnDestContext", wb.L(50000), wb.I(addrOff), wb.I(valOff), wb.I(fnOff), wb.I(2), wb.I(0), wb.I(argTabOff), wb.I(scratch))
		}
		var args []wb.E
		for i, c := range sig[0] {
			if c == 'l' {
				args = append(args, wb.L(v[i]))
			} else {
				args = append(args, wb.I(int32(v[i])))
			}
		}
		f.Do(fn, args...)
		f.Do("finish", wb.I(okOff), wb.I(4))
	})
	m.Fn("callBack", func(f *wb.F) {})
	return m.Bytes()
}

func (e *c10env) run(code []byte, gas uint64) (*vmcommon.VMOutput, error) {
	e.w.Accounts[string(vmx.SC("aaaa"))].Code = code
	in := vmx.Call(vmx.User("user"), vmx.SC("aaaa"), "go", 3, gas, []byte("arg0"), []byte{1, 2})
	snap := e.w.GetSnapshot()
	out, err := e.h.RunSmartContractCall(in)
	_ = e.w.RevertToSnapshot(snap)
	e.w.Commit()
	return out, err
}

func (e *c10env) runCanary() string {
	in := vmx.Call(vmx.User("user"), vmx.SC("bbbb"), "go", 1, 100000)
	out, err := e.h.RunSmartContractCall(in)
	return vmx.Canon(out, err)
}

func checkRegular(t *core.T, what string, gas uint64, out *vmcommon.VMOutput, err error) bool {
	if err != nil {
		t.Failf("%s: the VM does not produce an output but the internal error %q", what, err)
		return false
	}
	if out == nil {
		t.Failf("%s: the VM produces neither output nor error", what)
		return false
	}
	if out.GasRemaining > gas {
		t.Failf("%s: remaining gas %d exceeds the provided %d", what, out.GasRemaining, gas)
		return false
	}
	if out.ReturnCode != vmcommon.Ok && (out.GasRemaining != 0 || len(out.OutputAccounts) != 0 || len(out.Logs) != 0) {
		t.Failf("%s: failed output has effects: %s", what, vmx.Canon(out, err))
		return false
	}
	return true
}

func runC10(c *core.Ctx) {
	var env *c10env
	get := func() *c10env {
		if env == nil {
			env = newC10Env()
		}
		return env
	}
	depth := 2
	if c.Thorough {
		depth = 3
	}
	var fns []string
	for fn := range wb.Sigs {
		fns = append(fns, fn)
	}
	sort.Strings(fns)
	codeLen := int64(len(calleeCode()))
	for _, fn := range fns {
		fn := fn
		names := wb.Params[fn]
		def := defaults(fn, names)
		for i := range def {
			if def[i] == -1000 {
				def[i] = codeLen
			}
		}
		c.Case(func() string { return fmt.Sprintf("%s with the valid vector %v", fn, def) }, func(t *core.T) {
			e := get()
			out, err := e.run(e.program(fn, def), 1000000)
			t.Exec(1)
			t.Trans(1)
			if checkRegular(t, fn, 1000000, out, err) {
				t.State(fn + out.ReturnCode.String())
				if out.ReturnCode == vmcommon.Ok {
					t.Class("valid vectors that succeed")
				} else {
					t.Class("valid vectors that fail: " + fn + " " + out.ReturnMessage)
				}
			}
			if got := e.runCanary(); got != e.canary {
				t.Failf("after %s the VM answers an unrelated call with\n%sinstead of\n%s", fn, got, e.canary)
				env = nil
			}
		})
		var subsets [][]int
		var rec func(start int, cur []int)
		rec = func(start int, cur []int) {
			if len(cur) > 0 {
				subsets = append(subsets, append([]int{}, cur...))
			}
			if len(cur) == depth {
				return
			}
			for i := start; i < len(names); i++ {
				rec(i+1, append(cur, i))
			}
		}
		rec(0, nil)
		for _, set := range subsets {
			set := set
			first := kindVals[kindOf(names[set[0]])]
			if len(set) == 1 {
				first = []int64{0}
			}
			for _, fv := range first {
				fv := fv
				c.Case(func() string {
					d := fn + " with every combination of boundary values of"
					for k, i := range set {
						if k == 0 && len(set) > 1 {
							d += fmt.Sprintf(" %s=%d", names[i], fv)
						} else {
							d += " " + names[i]
						}
					}
					return d
				}, func(t *core.T) {
					v := append([]int64{}, def...)
					var each func(k int)
					each = func(k int) {
						if t.Failed() {
							return
						}
						if k == len(set) {
							e := get()
							what := fmt.Sprintf("%s(%v)", fn, v)
							t.Logf("%s", what)
							out, err := e.run(e.program(fn, v), 1000000)
							t.Exec(1)
							t.Trans(1)
							if !checkRegular(t, what, 1000000, out, err) {
								env = nil
								return
							}
							t.Outcome(fmt.Sprint(what, out.ReturnCode))
							t.State(fmt.Sprint(fn, out.ReturnCode, out.ReturnMessage))
							t.Class(out.ReturnCode.String())
							return
						}
						if k == 0 && len(set) > 1 {
							v[set[0]] = fv
							each(1)
							return
						}
						for _, x := range kindVals[kindOf(names[set[k]])] {
							v[set[k]] = x
							each(k + 1)
						}
					}
					each(0)
					if t.Failed() {
						return
					}
					if got := get().runCanary(); got != env.canary {
						t.Failf("after the calls of %s the VM answers an unrelated call with\n%sinstead of\n%s", fn, got, env.canary)
						env = nil
					}
				})
			}
		}
	}
	runC10Memory(c, get)
}

// runC10Memory compares the effect of loads and stores at the end of the memory with a model.
func runC10Memory(c *core.Ctx, get func() *c10env) {
	offs := []int64{0, 1, 100, memTop - 65, memTop - 33, memTop - 32, memTop - 31, memTop - 1, memTop, memTop + 1, memTop + 64, 2*memTop - 32, 2*memTop - 31, 2 * memTop, 3 * memTop, math.MaxInt32 - 31, math.MaxInt32 - 30, math.MaxInt32, -1, -32, math.MinInt32}
	lens := []int64{0, 1, 2, 31, 32, 33, 64, 65, 4096, memTop, memTop + 1, 2 * memTop, -1, math.MinInt32}
	pattern := bytes.Repeat([]byte{0xA7, 0x31, 0x5C}, 30)
	for _, off := range offs {
		off := off
		c.Case(func() string { return fmt.Sprintf("loads at %d with every length of %v", off, lens) }, func(t *core.T) {
			for _, n := range lens {
				e := get()
				m := wb.New()
				m.Fn("go", func(f *wb.F) {
					m.Place(memTop-90, pattern)
					m.Place(64, pattern)
					f.Do("finish", wb.I(int32(off)), wb.I(int32(n)))
				})
				out, err := e.run(m.Bytes(), 1<<30)
				t.Exec(1)
				t.Trans(1)
				what := fmt.Sprintf("finish(%d, %d)", off, n)
				if !checkRegular(t, what, 1<<30, out, err) {
					return
				}
				mem := make([]byte, memTop)
				copy(mem[64:], pattern)
				copy(mem[memTop-90:], pattern)
				var want []byte
				ok := true
				switch {
				case n == 0:
					want = []byte{}
				case off < 0 || off > memTop || n < 0:
					ok = false
				default:
					want = make([]byte, n)
					copy(want, mem[off:])
				}
				t.Outcome(fmt.Sprint("load", ok, off, n))
				t.State(fmt.Sprint("load", ok, off > memTop-32))
				if ok != (out.ReturnCode == vmcommon.Ok) {
					t.Failf("%s: return code %v, the model says success=%v", what, out.ReturnCode, ok)
				} else if ok && (len(out.ReturnData) != 1 || !bytes.Equal(out.ReturnData[0], want)) {
					t.Failf("%s returned other bytes than the memory holds (zero-extended)", what)
				}
			}
		})
		c.Case(func() string { return fmt.Sprintf("stores of 0, 1, 32 and 65 bytes at %d", off) }, func(t *core.T) {
			for _, n := range []int{0, 1, 32, 65} {
				e := get()
				data := bytes.Repeat([]byte{0xEE}, n)
				for i := range data {
					data[i] = byte(i + 1)
				}
				m := wb.New()
				m.Fn("go", func(f *wb.F) {
					m.Place(memTop-90, pattern)
					m.Place(64, pattern)
					f.Do("getArgument", wb.I(0), wb.I(int32(off)))
					// the whole memory, and what lies behind it
					f.Do("finish", wb.I(0), wb.I(3*memTop))
					f.Do("finish", wb.I(memTop+1), wb.I(8))
				})
				e.w.Accounts[string(vmx.SC("aaaa"))].Code = m.Bytes()
				in := vmx.Call(vmx.User("user"), vmx.SC("aaaa"), "go", 0, 1<<30, data)
				out, err := e.h.RunSmartContractCall(in)
				t.Exec(1)
				t.Trans(1)
				what := fmt.Sprintf("storing %d bytes at %d", n, off)
				if !checkRegular(t, what, 1<<30, out, err) {
					return
				}
				size := int64(memTop)
				ok := true
				if n > 0 {
					if off < 0 {
						ok = false
					} else if off+int64(n) > size {
						size += memTop
						if off+int64(n) > size {
							ok = false
						}
					}
				}
				grown := size > memTop
				t.Outcome(fmt.Sprint("store", ok, off, n))
				t.State(fmt.Sprint("store", ok, grown))
				// the second finish fails unless the memory has grown
				if (ok && grown) != (out.ReturnCode == vmcommon.Ok) {
					t.Failf("%s: return code %v (%s), the model says success=%v, memory grown=%v", what, out.ReturnCode, out.ReturnMessage, ok, grown)
					continue
				}
				if out.ReturnCode == vmcommon.Ok {
					mem := make([]byte, 3*memTop)
					copy(mem[64:], pattern)
					copy(mem[memTop-90:], pattern)
					copy(mem[off:], data)
					if !bytes.Equal(out.ReturnData[0], mem) {
						t.Failf("%s changes memory elsewhere or stores other bytes", what)
					}
				}
				// without the probe behind the memory
				m2 := wb.New()
				m2.Fn("go", func(f *wb.F) {
					m2.Place(memTop-90, pattern)
					m2.Place(64, pattern)
					f.Do("getArgument", wb.I(0), wb.I(int32(off)))
					f.Do("finish", wb.I(0), wb.I(3*memTop))
				})
				e.w.Accounts[string(vmx.SC("aaaa"))].Code = m2.Bytes()
				out, err = e.h.RunSmartContractCall(in)
				t.Exec(1)
				t.Trans(1)
				if !checkRegular(t, what, 1<<30, out, err) {
					return
				}
				if ok != (out.ReturnCode == vmcommon.Ok) {
					t.Failf("%s: return code %v, the model says success=%v", what, out.ReturnCode, ok)
				} else if ok {
					mem := make([]byte, 3*memTop)
					copy(mem[64:], pattern)
					copy(mem[memTop-90:], pattern)
					if n > 0 {
						copy(mem[off:], data)
					}
					if !bytes.Equal(out.ReturnData[0], mem) {
						t.Failf("%s changes memory elsewhere or stores other bytes", what)
					}
				}
			}
		})
	}
}

// state is all accounts which are not empty.
func (e *c10env) state() string {
	w := e.w.Clone()
	for k, a := range w.Accounts {
		if a.Nonce == 0 && a.Balance.Sign() == 0 && len(a.Code) == 0 && len(a.Meta) == 0 && len(a.Owner) == 0 && len(a.Storage) == 0 {
			delete(w.Accounts, k)
		}
	}
	return w.Canon()
}

// runReadOnlyFunctions calls every function of the interface in a read-only frame: nothing may change.
func runReadOnlyFunctions(c *core.Ctx) {
	var env *c10env
	depth := 2
	if c.Thorough {
		depth = 3
	}
	var fns []string
	for fn := range wb.Sigs {
		fns = append(fns, fn)
	}
	sort.Strings(fns)
	codeLen := int64(len(calleeCode()))
	for _, fn := range fns {
		fn := fn
		names := wb.Params[fn]
		def := defaults(fn, names)
		for i := range def {
			if def[i] == -1000 {
				def[i] = codeLen
			}
		}
		c.Case(func() string {
			return fmt.Sprintf("%s in a read-only call, with up to %d deviating parameters", fn, depth)
		}, func(t *core.T) {
			if env == nil {
				env = newC10Env()
				env.w.Accounts[string(vmx.SC("aaaa"))].Storage["key1"+lockSuffix] = []byte{5}
			}
			e := env
			run := func(v []int64) {
				e.w.Accounts[string(vmx.SC("aaaa"))].Code = e.programAt("ro", fn, v)
				in := vmx.Call(vmx.User("user"), vmx.SC("aaaa"), "go", 0, 1000000)
				snap := e.w.GetSnapshot()
				before := e.state()
				out, err, aerr := vmx.Run(e.h, e.w, in)
				after := e.state()
				t.Exec(1)
				t.Trans(1)
				_ = e.w.RevertToSnapshot(snap)
				e.w.Commit()
				e.w.ClearCompiledCodes()
				what := fmt.Sprintf("%s(%v) in a read-only call", fn, v)
				if err != nil || aerr != nil {
					t.Failf("%s: error %v %v", what, err, aerr)
					env = nil
					return
				}
				t.Class(out.ReturnCode.String())
				t.Outcome(fmt.Sprint(what, out.ReturnCode))
				t.State(fmt.Sprint(fn, out.ReturnCode, out.ReturnMessage))
				if after != before {
					t.Failf("%s changes the state from\n%s\nto\n%s", what, before, after)
				}
				if len(out.Logs) > 0 {
					t.Failf("%s writes a log", what)
				}
				for _, a := range out.OutputAccounts {
					if len(a.OutputTransfers) > 0 || len(a.Code) > 0 || len(a.CodeMetadata) > 0 || a.BalanceDelta != nil && a.BalanceDelta.Sign() != 0 {
						t.Failf("%s leaves in the output\n%s", what, vmx.Canon(out, err))
						return
					}
				}
			}
			var rec func(start, left int, v []int64)
			rec = func(start, left int, v []int64) {
				if t.Failed() {
					return
				}
				run(v)
				if left == 0 {
					return
				}
				for i := start; i < len(names); i++ {
					k := kindOf(names[i])
					vals := kindVals[k]
					switch k {
					case kPtr:
						vals = []int64{addrOff, farOff, valOff, keyOff, tokOff, memTop - 8}
						if strings.HasSuffix(names[i], "sLengthOffset") || strings.HasSuffix(names[i], "LengthsOffset") {
							vals = []int64{argTabOff + 4, memTop - 8} // other places hold lengths of gigabytes
						}
					case kLen:
						vals = []int64{0, 1, 31, 200}
					}
					for _, x := range vals {
						d := append([]int64{}, v...)
						d[i] = x
						rec(i+1, left-1, d)
					}
				}
			}
			rec(0, depth, def)
		})
	}
}

var _ = big.NewInt
