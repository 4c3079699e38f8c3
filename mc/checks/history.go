package checks

import (
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

func init() {
	core.Register(&core.Check{ID: "C08", Level: "model_checking", Rule: "Every pair (thorough: every triple) of transactions of a library (calls of every kind to contracts which succeed, fail, trap or run out of gas, deployments and upgrades of good and bad code, residue probes, faults of the hook, epochs before and after the activations, gas schedules) is executed on one VM, " +
		"with the results discarded or applied, with compiled code kept or dropped; each result is compared with that of a new VM on the same state. Outputs which were returned, inputs and state must not change afterwards.",
		Assumptions: []string{"the VM is configured without warm instances, as everywhere in the repository"}, Run: runC08})
}

// hitem is a transaction of the library.
type hitem struct {
	name   string
	call   func() *vmcommon.ContractCallInput
	create func() *vmcommon.ContractCreateInput
	early  bool // before the activation of all features
	gas    int  // which gas schedule
	fault  int  // the read of the world which fails
	panics bool // it panics
}

const hActivation = 5

var hGas []config.GasScheduleMap

// hModule is the contract whose functions make calls.
func hModule(callbackFails bool) []byte {
	m := wb.New()
	k, v := []byte("k"), []byte("newv")
	pre := func(f *wb.F) {
		f.Do("storageStore", wb.P(k), wb.I(1), wb.P(v), wb.I(4))
		f.FinishI32(wb.Call("bigIntNew", wb.L(7)))
		f.Do("bigIntNew", wb.L(8))
		f.Do("writeLog", wb.P([]byte("log")), wb.I(3), wb.P(make([]byte, 32)), wb.I(1))
		f.Store64(wb.I(1000), wb.L(0x1234567812345678))
		f.Finish([]byte("pre"))
	}
	post := func(f *wb.F) {
		f.FinishI32(wb.Call("getNumReturnData"))
		f.Do("finish", wb.I(256), wb.Call("storageLoad", wb.P(k), wb.I(1), wb.I(256)))
		f.FinishI32(wb.Call("bigIntNew", wb.L(9)))
		f.Finish([]byte("post"))
	}
	for _, kind := range []script.Kind{script.Dest, script.Same, script.ReadOnly, script.Delegate, script.ByCaller, script.TVE, script.Async, script.ESDTExec, script.DestESDT, script.AsyncESDT} {
		for _, callee := range []string{"ok", "fail", "trap", "burn"} {
			kind, callee := kind, callee
			m.Fn(kind.String()+"_"+callee, func(f *wb.F) {
				pre(f)
				a := script.Act{Op: script.Call, Kind: kind, To: script.B, Func: callee, Args: []string{"x", "yy"}}
				switch kind {
				case script.ESDTExec, script.DestESDT, script.AsyncESDT:
					a.Token, a.Value = script.TOK, 3
				case script.Dest, script.TVE, script.Async:
					a.Value = 2
				}
				script.EmitCall(f, a, 1<<40)
				post(f)
			})
		}
	}
	initOf := func(end string) *script.Node {
		c := wb.New()
		c.Fn("init", func(f *wb.F) {
			f.Do("storageStore", wb.P(k), wb.I(1), wb.P([]byte("init")), wb.I(4))
			f.Finish([]byte("in init"))
			if end == "fail" {
				f.Do("signalError", wb.P([]byte("no")), wb.I(2))
			}
		})
		c.Fn("ok", func(f *wb.F) { f.Finish([]byte("of the new code")) })
		code := c.Bytes()
		if end == "bad" {
			code = code[:len(code)-5]
		}
		return script.CodeNode(code)
	}
	for _, end := range []string{"ok", "fail", "bad"} {
		end := end
		m.Fn("create_"+end, func(f *wb.F) {
			pre(f)
			script.EmitCall(f, script.Act{Op: script.Call, Kind: script.Create, Child: initOf(end), Value: 1}, 1<<40)
			post(f)
		})
		m.Fn("upgrade_"+end, func(f *wb.F) {
			pre(f)
			script.EmitCall(f, script.Act{Op: script.Call, Kind: script.Upgrade, To: script.D, Child: initOf(end)}, 1<<40)
			post(f)
		})
	}
	m.Fn("deployFrom", func(f *wb.F) {
		pre(f)
		script.EmitCall(f, script.Act{Op: script.Call, Kind: script.DeployFrom, Child: initOf("ok"), Value: 1}, 1<<40)
		post(f)
	})
	m.Fn("upgradeFrom", func(f *wb.F) {
		pre(f)
		script.EmitCall(f, script.Act{Op: script.Call, Kind: script.UpgradeFrom, To: script.D, Child: initOf("ok")}, 1<<40)
		post(f)
	})
	for _, dest := range [][2]string{{"far", string(script.FarS)}, {"nobody", string(vmx.User("nobody"))}, {"empty", string(vmx.SC("nocode"))}} {
		name, to := dest[0], []byte(dest[1])
		m.Fn("async_"+name, func(f *wb.F) {
			pre(f)
			script.EmitCall(f, script.Act{Op: script.Call, Kind: script.Async, To: to, Func: "ok", Value: 1}, 1<<40)
		})
		m.Fn("pay_"+name, func(f *wb.F) {
			pre(f)
			f.FinishI32(wb.Call("transferValue", wb.P(to), wb.P(script.Value32(5)), wb.P([]byte("d")), wb.I(1)))
			post(f)
		})
	}
	for _, b := range []string{"ChangeOwnerAddress", "ClaimDeveloperRewards", "ESDTTransfer", "nothing"} {
		b := b
		m.Fn("builtin_"+b, func(f *wb.F) {
			pre(f)
			script.EmitCall(f, script.Act{Op: script.Call, Kind: script.Dest, To: script.D, Func: b, Args: []string{script.TOK, "\x7f"}}, 1<<40)
			post(f)
		})
	}
	for i := 0; i < 4; i++ {
		i := i
		m.Fn(fmt.Sprintf("handle%d", i), func(f *wb.F) {
			f.FinishI64(wb.Call("bigIntGetInt64", wb.I(int32(i))))
			f.Do("bigIntFinishUnsigned", wb.I(int32(i)))
		})
		m.Fn(fmt.Sprintf("returned%d", i), func(f *wb.F) {
			f.FinishI32(wb.Call("getReturnDataSize", wb.I(int32(i))))
			f.Do("finish", wb.I(256), wb.Call("getReturnData", wb.I(int32(i)), wb.I(256)))
		})
	}
	m.Fn("probe", func(f *wb.F) {
		f.FinishI32(wb.Call("getNumReturnData"))
		f.FinishI64(wb.Call("getGasLeft"))
		f.FinishI32(wb.Call("getNumArguments"))
		f.FinishI32(wb.Call("storageLoadLength", wb.P(k), wb.I(1)))
		f.FinishI64(wb.Load64(wb.I(1000)))
		f.FinishI64(wb.Load64(wb.I(256)))
		f.FinishI32(wb.Call("bigIntNew", wb.L(7)))
		f.FinishI32(wb.Call("getESDTTokenType"))
		f.FinishI64(wb.Call("getESDTTokenNonce"))
		f.Do("finish", wb.I(256), wb.Call("getESDTTokenName", wb.I(256)))
		f.Do("finish", wb.I(256), wb.Call("getESDTValue", wb.I(256)))
		f.Do("finish", wb.I(256), wb.Call("getCallValue", wb.I(256)))
		f.Do("getOriginalTxHash", wb.I(256))
		f.Do("finish", wb.I(256), wb.I(32))
		f.Do("getCaller", wb.I(256))
		f.Do("finish", wb.I(256), wb.I(32))
		f.Do("getSCAddress", wb.I(256))
		f.Do("finish", wb.I(256), wb.I(32))
		f.Do("finish", wb.I(256), wb.Call("getFunction", wb.I(256)))
		f.FinishI32(wb.Call("isStorageLocked", wb.P([]byte("l")), wb.I(1)))
		f.FinishI64(wb.Call("getStorageLock", wb.P([]byte("l")), wb.I(1)))
		f.FinishI64(wb.Call("getBlockEpoch"))
		for i := 0; i < 6; i++ {
			f.FinishI32(wb.Call("bigIntNew", wb.L(1)))
		}
	})
	m.Fn("sparse", func(f *wb.F) {
		for _, h := range []int32{1, 3, 40, 7777} {
			f.Do("bigIntSetInt64", wb.I(h), wb.L(int64(h)))
			f.FinishI32(wb.Call("bigIntNew", wb.L(6)))
		}
		f.Do("bigIntStorageStoreUnsigned", wb.P(k), wb.I(1), wb.I(40))
		f.Do("bigIntFinishUnsigned", wb.I(1))
	})
	m.Fn("far handles", func(f *wb.F) {
		for _, h := range []int32{1, 3, 40, 7777, 2} {
			f.FinishI64(wb.Call("bigIntGetInt64", wb.I(h)))
		}
		f.FinishI32(wb.Call("bigIntNew", wb.L(1)))
	})
	m.Fn("growing", func(f *wb.F) {
		grow := func(f *wb.F) { wb.I(3)(f); f.Raw(0x40, 0) }
		f.FinishI32(grow)
		f.FinishI32(func(f *wb.F) { f.Raw(0x3f, 0) })
	})
	m.Fn("locks", func(f *wb.F) {
		f.FinishI32(wb.Call("setStorageLock", wb.P([]byte("l")), wb.I(1), wb.L(1<<40)))
		f.FinishI32(wb.Call("storageStore", wb.P([]byte("l")), wb.I(1), wb.P(v), wb.I(4)))
	})
	m.Fn("protected", func(f *wb.F) {
		f.FinishI32(wb.Call("storageStore", wb.P([]byte("ELRONDx")), wb.I(7), wb.P(v), wb.I(4)))
	})
	m.Fn("noPayment", func(f *wb.F) { f.Do("checkNoPayment"); f.Finish([]byte("none")) })
	m.Fn("badRead", func(f *wb.F) {
		pre(f)
		f.Do("finish", wb.I(-5), wb.I(1<<30))
	})
	m.Fn("trap", func(f *wb.F) { pre(f); f.Unreachable() })
	m.Fn("fail", func(f *wb.F) { pre(f); f.Do("signalError", wb.P([]byte("no")), wb.I(2)) })
	m.Fn("burn", func(f *wb.F) { pre(f); f.Do("getBlockRandomSeed", wb.I(0)) })
	m.Fn("spin", func(f *wb.F) { pre(f); f.Loop(func() {}) })
	m.Fn("recurse", func(f *wb.F) {
		pre(f)
		script.EmitCall(f, script.Act{Op: script.Call, Kind: script.Dest, To: script.A, Func: "recurse"}, 1<<40)
		post(f)
	})
	m.Fn("callBack", func(f *wb.F) {
		f.Do("storageStore", wb.P([]byte("cb")), wb.I(2), wb.P(v), wb.I(4))
		f.FinishI32(wb.Call("getNumArguments"))
		f.FinishI32(wb.Call("bigIntNew", wb.L(7)))
		if callbackFails {
			f.Do("signalError", wb.P([]byte("no")), wb.I(2))
		}
	})
	return m.Bytes()
}

func hCallee() []byte {
	m := wb.New()
	work := func(f *wb.F) {
		f.Do("storageStore", wb.P([]byte("k")), wb.I(1), wb.P([]byte("ofb")), wb.I(3))
		f.FinishI32(wb.Call("bigIntNew", wb.L(5)))
		f.Do("writeLog", wb.P([]byte("logb")), wb.I(4), wb.P(make([]byte, 64)), wb.I(2))
		f.Store64(wb.I(1000), wb.L(77))
		f.Finish([]byte("of b"))
		f.FinishI32(wb.Call("getNumArguments"))
		f.Do("finish", wb.I(256), wb.Call("getESDTTokenName", wb.I(256)))
	}
	m.Fn("ok", func(f *wb.F) { work(f); f.FinishI64(wb.Load64(wb.I(512))) })
	m.Fn("fail", func(f *wb.F) { work(f); f.Do("signalError", wb.P([]byte("no b")), wb.I(4)) })
	m.Fn("trap", func(f *wb.F) { work(f); f.Unreachable() })
	m.Fn("burn", func(f *wb.F) { work(f); f.Do("getBlockRandomSeed", wb.I(0)) })
	return m.Bytes()
}

func hWorld() *world.World {
	p, err := script.Compile(&script.Node{At: script.A})
	if err != nil {
		panic(err)
	}
	w := script.BaseWorld(p)
	w.Accounts[string(script.A)].Code = hModule(false)
	w.Accounts[string(script.C)].Code = hModule(true)
	w.Accounts[string(script.C)].Balance = big.NewInt(100)
	w.Accounts[string(script.C)].Meta = []byte{5, 6}
	w.Accounts[string(script.B)].Code = hCallee()
	w.Accounts[string(script.D)].Code = hCallee()
	src := wb.New()
	src.Fn("init", func(f *wb.F) { f.Finish([]byte("from the source")) })
	w.Accounts[string(script.Src)].Code = src.Bytes()
	bad := w.AddContract(vmx.SC("garbage"), 10, []byte("no code"), script.Owner)
	bad.Meta = []byte{5, 6}
	w.AddContract(vmx.SC("crypto"), 10, cryptoContract(), script.Owner).Meta = []byte{5, 6}
	w.Epoch = hActivation
	return w
}

func hItems() []hitem {
	if hGas == nil {
		dear := script.Gas()
		for _, sec := range []string{"ElrondAPICost", "BaseOperationCost", "BigIntAPICost"} {
			for k, v := range dear[sec] {
				if v < 1000 {
					dear[sec][k] = 3 * v
				}
			}
		}
		hGas = []config.GasScheduleMap{script.Gas(), dear}
	}
	var out []hitem
	call := func(name string, change func(in *vmcommon.ContractCallInput)) func() *vmcommon.ContractCallInput {
		return func() *vmcommon.ContractCallInput {
			in := vmx.Call(script.User, script.A, name, 0, script.RootGas)
			if change != nil {
				change(in)
			}
			return in
		}
	}
	add := func(name string, change func(in *vmcommon.ContractCallInput)) {
		out = append(out, hitem{name: name, call: call(name, change)})
	}
	for _, kind := range []string{"dest", "same", "readOnly", "delegate", "byCaller", "transferValueExecute", "async", "esdtExec", "destESDT", "asyncESDT"} {
		for _, callee := range []string{"ok", "fail", "trap", "burn"} {
			add(kind+"_"+callee, nil)
		}
	}
	for _, f := range []string{"create_ok", "create_fail", "create_bad", "upgrade_ok", "upgrade_fail", "upgrade_bad", "deployFrom", "upgradeFrom", "async_far", "async_nobody", "async_empty", "pay_far", "pay_nobody", "pay_empty",
		"builtin_ChangeOwnerAddress", "builtin_ClaimDeveloperRewards", "builtin_ESDTTransfer", "builtin_nothing", "handle0", "handle1", "handle2", "handle3", "returned0", "returned1", "returned3",
		"probe", "sparse", "far handles", "growing", "locks", "protected", "noPayment", "badRead", "trap", "fail", "burn", "recurse", "missing", "callBack", ""} {
		add(f, nil)
	}
	value := func(in *vmcommon.ContractCallInput) { in.CallValue = big.NewInt(9) }
	token := func(in *vmcommon.ContractCallInput) {
		in.ESDTTransfers = []*vmcommon.ESDTTransfer{{ESDTTokenName: []byte(script.TOK), ESDTValue: big.NewInt(4)}}
	}
	args := func(in *vmcommon.ContractCallInput) { in.Arguments = [][]byte{[]byte("a"), {}, make([]byte, 40)} }
	callback := func(in *vmcommon.ContractCallInput) {
		in.GasLocked = 1 << 20
		in.CallType = vmcommon.AsynchronousCallBack
		in.Arguments = [][]byte{{0}, []byte("r")}
		in.CallerAddr = script.FarS
	}
	async := func(in *vmcommon.ContractCallInput) {
		in.CallType = vmcommon.AsynchronousCall
		in.CallerAddr = script.FarS
		in.GasLocked = 1 << 20
		in.ReturnCallAfterError = true
	}
	to := func(addr []byte) func(in *vmcommon.ContractCallInput) {
		return func(in *vmcommon.ContractCallInput) { in.RecipientAddr = addr }
	}
	named := func(n, fn string, changes ...func(in *vmcommon.ContractCallInput)) {
		out = append(out, hitem{name: n, call: call(fn, func(in *vmcommon.ContractCallInput) {
			for _, c := range changes {
				c(in)
			}
		})})
	}
	named("probe with value", "probe", value)
	named("probe with a token", "probe", token)
	named("probe with arguments", "probe", args)
	named("probe as asynchronous call", "probe", async)
	named("failing asynchronous call", "fail", async)
	named("no payment with value", "noPayment", value)
	named("no payment with a token", "noPayment", token)
	named("callback", "callBack", callback)
	named("callback of the failing contract", "callBack", callback, to(script.C))
	named("callback of nothing", "callBack", callback, to(script.B))
	named("asynchronous call and failing callback", "async_ok", to(script.C))
	named("failing asynchronous call and callback", "async_fail", to(script.C))
	named("garbage", "probe", to(vmx.SC("garbage")))
	named("no contract", "probe", to(vmx.SC("nocode")))
	named("a user", "probe", to(vmx.User("nobody")))
	named("other contract", "ok", to(script.B))
	named("upgraded contract", "ok", to(script.D))
	made, err := hWorld().NewAddress(script.A, 3, vmx.VMType)
	if err != nil {
		panic(err)
	}
	named("created contract", "ok", to(made))
	crypto := func(n, fn string, args ...string) {
		named(n, fn, to(vmx.SC("crypto")), func(in *vmcommon.ContractCallInput) {
			for _, a := range args {
				in.Arguments = append(in.Arguments, []byte(a))
			}
		})
	}
	for _, fn := range []string{"sha256", "keccak256", "ripemd160"} {
		for _, n := range []int{0, 5, 200} {
			crypto(fmt.Sprintf("%s of %d bytes", fn, n), fn+"0", pattern(n, 2), "")
		}
	}
	for _, sch := range []scheme{{name: "verifyEd25519", keys: []signer{edSigner(1), edSigner(2)}}, {name: "verifyBLS", keys: []signer{blsSigner(1), blsSigner(2)}}, {name: "verifySecp256k1", keys: []signer{secpSigner(1, true), secpSigner(2, false)}}} {
		fn, keys := sch.name, sch.keys
		for i, k := range keys {
			if fn == "verifyBLS" && i > 0 {
				break // it is slow
			}
			crypto(fmt.Sprintf("%s %d", fn, i), fn, k.pub, "message", k.sign("message"))
			crypto(fmt.Sprintf("%s %d of another message", fn, i), fn, k.pub, "messagf", k.sign("message"))
			crypto(fmt.Sprintf("%s %d of another key", fn, i), fn, keys[1-i].pub, "message", k.sign("message"))
		}
	}
	for _, g := range []uint64{0, 1, 60, 300, 2000, 4000, 1 << 20, 1 << 32} {
		g := g
		low := func(in *vmcommon.ContractCallInput) { in.GasProvided = g }
		named(fmt.Sprintf("dest_ok with %d gas", g), "dest_ok", low)
		named(fmt.Sprintf("async_ok with %d gas", g), "async_ok", low)
		if g > 0 && g < 1<<30 {
			named(fmt.Sprintf("spin with %d gas", g), "spin", func(in *vmcommon.ContractCallInput) {
				in.GasProvided = g
			})
		}
	}
	for _, end := range []string{"ok", "fail", "bad"} {
		end := end
		c := wb.New()
		c.Fn("init", func(f *wb.F) {
			f.Do("storageStore", wb.P([]byte("k")), wb.I(1), wb.P([]byte("init")), wb.I(4))
			f.Finish([]byte("in init"))
			f.FinishI32(wb.Call("bigIntNew", wb.L(7)))
			if end == "fail" {
				f.Do("signalError", wb.P([]byte("no")), wb.I(2))
			}
		})
		code := c.Bytes()
		if end == "bad" {
			code = code[:len(code)-5]
		}
		named("upgrade "+end, arwen.UpgradeFunctionName, to(script.D), func(in *vmcommon.ContractCallInput) {
			in.CallerAddr = script.Owner
			in.Arguments = [][]byte{append([]byte(nil), code...), {5, 6}, []byte("x")}
		})
		out = append(out, hitem{name: "deploy " + end, create: func() *vmcommon.ContractCreateInput {
			return vmx.Create(script.User, append([]byte(nil), code...), []byte{5, 6}, 2, script.RootGas)
		}})
	}
	for i := 1; i <= 6; i++ {
		for _, p := range []bool{false, true} {
			out = append(out, hitem{name: fmt.Sprintf("dest_ok with a fault (panic %v) of read %d", p, i), call: call("dest_ok", nil), fault: i, panics: p})
		}
	}
	for _, f := range []string{"probe", "dest_ok", "async_fail", "esdtExec_ok", "create_ok", "fail", "pay_far"} {
		out = append(out, hitem{name: f + " before the activations", call: call(f, nil), early: true})
		out = append(out, hitem{name: f + " with other prices", call: call(f, nil), gas: 1})
	}
	return out
}

// hrun is one execution.
type hrun struct {
	canon  string
	again  func() string // renders the same output once more
	after  string        // world after the transaction was applied
	before bool          // the world was unchanged before the output was applied
	input  bool          // the input was unchanged
}

type hvm struct {
	h   arwen.VMHost
	sw  *world.Swap
	gas int
}

func newHVM(w *world.World) *hvm {
	h, sw := vmx.MustSwap(w, vmx.Opt{Gas: hGas[0], V2: hActivation, AOT: hActivation, DynLock: hActivation, V3: hActivation, ESDT: hActivation})
	return &hvm{h: h, sw: sw}
}

func canonInput(in *vmcommon.VMInput, more ...interface{}) string {
	var sb strings.Builder
	provided, locked := in.GasProvided, in.GasLocked
	if in.CallType == vmcommon.AsynchronousCallBack {
		provided, locked = provided+locked, 0 // it is unlocked
	}
	fmt.Fprintf(&sb, "%x %x %v %v %v %v %v %x %x %x %v %v", in.CallerAddr, in.Arguments, in.CallValue, in.CallType, in.GasPrice, provided, locked, in.OriginalTxHash, in.CurrentTxHash, in.PrevTxHash, in.ReturnCallAfterError, len(in.ESDTTransfers))
	for _, e := range in.ESDTTransfers {
		fmt.Fprintf(&sb, " %x %v %v %v", e.ESDTTokenName, e.ESDTValue, e.ESDTTokenNonce, e.ESDTTokenType)
	}
	fmt.Fprint(&sb, more...)
	return sb.String()
}

// exec runs an item on the world w, which is left with the output applied or undone.
func (v *hvm) exec(it *hitem, w *world.World, apply bool) hrun {
	v.sw.World = w
	if v.gas != it.gas {
		v.h.GasScheduleChange(hGas[it.gas])
		v.gas = it.gas
	}
	w.Epoch = hActivation
	if it.early {
		w.Epoch = hActivation - 1
	}
	if it.fault > 0 {
		n := 0
		w.OnRead = func(what string, addr, key []byte) {
			n++
			if n == it.fault {
				if it.panics {
					panic(errors.New("no database"))
				}
				w.FailRead, w.Reads = 1, 0
			}
		}
	}
	var r hrun
	var out *vmcommon.VMOutput
	var err error
	snap := w.GetSnapshot()
	state := w.Canon()
	var caller []byte
	var val *big.Int
	if it.call != nil {
		in := it.call()
		caller, val = in.CallerAddr, in.CallValue
		want := canonInput(&in.VMInput, in.RecipientAddr, in.Function)
		val = new(big.Int).Set(val)
		out, err = v.h.RunSmartContractCall(in)
		r.input = want == canonInput(&in.VMInput, in.RecipientAddr, in.Function)
	} else {
		in := it.create()
		caller, val = in.CallerAddr, in.CallValue
		want := canonInput(&in.VMInput, in.ContractCode, in.ContractCodeMetadata)
		val = new(big.Int).Set(val)
		out, err = v.h.RunSmartContractCreate(in)
		r.input = want == canonInput(&in.VMInput, in.ContractCode, in.ContractCodeMetadata)
	}
	w.OnRead = nil
	w.FailRead = 0
	r.canon = vmx.Canon(out, err)
	r.again = func() string { return vmx.Canon(out, err) }
	journal := w.GetSnapshot()
	if journal == snap {
		r.before = state == w.Canon()
	} else {
		r.before = true // built-in functions write to the world
	}
	if !apply {
		if e := w.RevertToSnapshot(snap); e != nil {
			panic(e)
		}
		r.before = r.before && state == w.Canon()
		return r
	}
	vmx.Debit(w, caller, val)
	if e := vmx.Settle(w, snap, caller, val, out, err); e != nil {
		r.canon += " cannot be applied: " + e.Error()
	}
	r.after = w.Canon()
	return r
}

func (it *hitem) judge(t *core.T, what string, got hrun, want hrun) {
	t.Exec(1)
	if got.canon != want.canon {
		t.Failf("%s: %s gives\n%s\ninstead of\n%s", what, it.name, got.canon, want.canon)
	}
	if got.after != want.after {
		t.Failf("%s: %s leads to another state: %s", what, it.name, script.Diff(want.after, got.after))
	}
	if !got.before {
		t.Failf("%s: %s changed the state although its output was not applied", what, it.name)
	}
	if !got.input {
		t.Failf("%s: %s changed its input", what, it.name)
	}
	if got.canon[0] == 'e' {
		t.Outcome("error")
	} else {
		t.Outcome(strings.SplitN(got.canon, " ", 2)[0])
	}
}

func runC08(c *core.Ctx) {
	items := hItems()
	base := hWorld()
	warm := map[string][]byte{}
	if vm, w := newHVM(base), base.Clone(); true {
		for i := range items {
			vm.exec(&items[i], w, false)
		}
		warm = w.Compiled
	}
	start := func() *world.World {
		w := base.Clone()
		for k, v := range warm {
			w.Compiled[k] = v
		}
		return w
	}
	ref := make([]*hrun, len(items))
	reference := func(i int) hrun {
		if ref[i] == nil {
			r := newHVM(base).exec(&items[i], base.Clone(), false)
			ref[i] = &r
		}
		return *ref[i]
	}
	for i := range items {
		i := i
		it := &items[i]
		c.Case(func() string { return "repeated on new VMs: " + it.name }, func(t *core.T) {
			want := reference(i)
			t.Class(it.name)
			for n := 0; n < 8; n++ {
				it.judge(t, "on another new VM", newHVM(base).exec(it, base.Clone(), false), want)
			}
		})
		for _, keep := range []bool{false, true} {
			keep := keep
			c.Case(func() string {
				return fmt.Sprintf("%s with each other transaction, compiled code kept: %v", it.name, keep)
			}, func(t *core.T) {
				// i, 0, i, 1, i, 2, ...: each transaction follows this one, and this one follows each
				vm := newHVM(base)
				w := base.Clone()
				last, before := -1, hrun{}
				for j := range items {
					for _, k := range []int{i, j} {
						x := &items[k]
						if !keep {
							w = base.Clone()
						}
						got := vm.exec(x, w, false)
						t.Trans(1)
						if last < 0 {
							x.judge(t, "on a new VM", got, reference(k))
						} else {
							x.judge(t, "after "+items[last].name, got, reference(k))
							if before.again() != before.canon {
								t.Failf("the output of %s changed when %s was executed", items[last].name, x.name)
							}
						}
						last, before = k, got
					}
				}
			})
		}
		c.Case(func() string { return fmt.Sprintf("%s with each other transaction, applied", it.name) }, func(t *core.T) {
			vm := newHVM(base)
			applied := newHVM(base).exec(it, start(), true)
			for j := range items {
				w := start()
				steps := []int{i, j}
				if c.Thorough {
					steps = append(steps, i)
				}
				for n, k := range steps {
					x := &items[k]
					wc := w.Clone()
					got := vm.exec(x, w, true)
					if n == 0 {
						x.judge(t, fmt.Sprintf("after a walk with %s", items[j].name), got, applied)
						continue
					}
					t.Trans(1)
					x.judge(t, fmt.Sprintf("step %d of %s and %s applied in turn", n, it.name, items[j].name), got, newHVM(base).exec(x, wc, true))
				}
			}
		})
	}
	if !c.Thorough {
		return
	}
	// one walk which contains every triple of transactions, in pieces
	walk := deBruijn(len(items), 3)
	walk = append(walk, walk[0], walk[1])
	piece := len(items) * 8
	for from := 0; from+2 < len(walk); from += piece {
		from := from
		c.Case(func() string { return fmt.Sprintf("triples from %d", from) }, func(t *core.T) {
			vm := newHVM(base)
			w := base.Clone()
			for n := from; n < len(walk) && n < from+piece+2; n++ {
				x := &items[walk[n]]
				where := "first"
				if n >= from+2 {
					where = fmt.Sprintf("after %s and %s", items[walk[n-2]].name, items[walk[n-1]].name)
				}
				x.judge(t, where, vm.exec(x, w, false), reference(walk[n]))
				t.Trans(1)
			}
		})
	}
}

// deBruijn yields a cyclic sequence of the numbers below k which contains each word of n numbers once.
func deBruijn(k, n int) []int {
	var out []int
	a := make([]int, n+1)
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				out = append(out, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return out
}
