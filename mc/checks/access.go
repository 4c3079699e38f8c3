package checks

import (
	"fmt"
	"strings"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

func init() {
	core.Register(&core.Check{ID: "C12", Level: "model_checking", Rule: "A contract whose functions leave a mark is entered under every name (its exports, reserved and unknown names) over every path: transactions of every call type, all kinds of call, each directly and through another contract, from other contracts and from itself. " +
		"For deployments and upgrades every combination of owner, metadata, caller, path and nesting is executed. The oracle is the rule who may enter what.",
		Assumptions: []string{"upgrades which are transactions of their own are authorized by the node before they reach the VM"}, Run: runC12})
}

// marks gives every function of the contract a body which leaves a mark.
func marks(who string, names ...string) []byte {
	m := wb.New()
	for _, n := range names {
		n := n
		exported := !strings.HasPrefix(n, "hidden")
		m.FnSig(n, "", "", exported, func(f *wb.F) { emitMark(f, who+":"+n) })
	}
	return m.Bytes()
}

// emitMark appends the mark to the results and to the storage.
func emitMark(f *wb.F, mark string) {
	f.Finish([]byte("ran " + mark))
	f.Do("storageStore", wb.S("ran "+mark), wb.I(int32(len(mark)+4)), wb.S("x"), wb.I(1))
}

// marked tells whether a mark is in the results or the storage of any account.
func marked(w *world.World, out *vmcommon.VMOutput, mark string) bool {
	for _, r := range out.ReturnData {
		if string(r) == "ran "+mark {
			return true
		}
	}
	for _, a := range w.Accounts {
		if len(a.Storage["ran "+mark]) > 0 {
			return true
		}
	}
	return false
}

// accessWorld has A, which holds code, the target B, the middleman C and the source of code.
func accessWorld(a, b, c, src []byte) *world.World {
	w := world.New()
	w.Add(script.Owner, 0)
	w.Add(script.User, 1000).SetESDT(script.TOK, 100)
	for _, x := range []struct {
		at, code []byte
	}{{script.A, a}, {script.B, b}, {script.C, c}, {script.Src, src}} {
		if x.code != nil {
			w.AddContract(x.at, 300, x.code, script.Owner).SetESDT(script.TOK, 50)
		}
	}
	if err := w.EnableBuiltIns(script.BuiltInGas()); err != nil {
		panic(err)
	}
	return w
}

type hostCell struct {
	h    arwen.VMHost
	sw   *world.Swap
	flat bool // the flat gas schedule
}

func (c *hostCell) use(w *world.World) arwen.VMHost {
	if c.h == nil {
		opt := vmx.Opt{}
		if !c.flat {
			opt.Gas = script.Gas()
		}
		c.h, c.sw = vmx.MustSwap(w, opt)
	} else {
		c.sw.World = w
	}
	return c.h
}

func runC12(c *core.Ctx) {
	names := []string{"init", "solidity.ctor", "callBack", "pub", "hidden", "nothing", "", "memory", "pub ", "Pub", "upgradeContract"}
	target := marks("B", "init", "solidity.ctor", "callBack", "pub", "hidden", "upgradeContract")
	var kinds []script.Kind
	for _, k := range allKinds {
		if !isDeploy(k) && !isUpgrade(k) {
			kinds = append(kinds, k)
		}
	}
	act := func(k script.Kind, to []byte, fn string) script.Act {
		a := script.Act{Op: script.Call, Kind: k, To: to, Func: fn}
		if k == script.ESDTExec || k == script.DestESDT || k == script.AsyncESDT {
			a.Token, a.Value = script.TOK, 2
		}
		return a
	}
	judge := func(t *core.T, what, fn string, allowed, required bool, w *world.World, out *vmcommon.VMOutput, err error, aerr error) {
		t.Exec(1)
		t.Trans(1)
		if err != nil || aerr != nil {
			t.Failf("%s: error %v %v", what, err, aerr)
			return
		}
		t.Class(fmt.Sprintf("%v, allowed %v", out.ReturnCode, allowed))
		t.Outcome(what)
		ran := marked(w, out, "B:"+fn)
		if ran && !allowed {
			t.Failf("%s: the function ran (%v %q)", what, out.ReturnCode, out.ReturnMessage)
		}
		if !ran && required {
			t.Failf("%s: the function did not run (%v %q)", what, out.ReturnCode, out.ReturnMessage)
		}
		for _, n := range names {
			if n != fn && n != "" && marked(w, out, "B:"+n) {
				t.Failf("%s: another function ran: %s", what, n)
			}
		}
	}
	public := func(fn string) bool { return fn == "pub" }
	// transactions
	for _, typ := range []vmcommon.CallType{vmcommon.DirectCall, vmcommon.AsynchronousCall, vmcommon.AsynchronousCallBack, vmcommon.ESDTTransferAndExecute} {
		typ := typ
		c.Case(func() string { return fmt.Sprintf("transactions of call type %d", typ) }, func(t *core.T) {
			var hc hostCell
			for _, fn := range names {
				for _, v := range []int64{0, 3} {
					w := accessWorld(nil, target, nil, nil)
					h := hc.use(w)
					in := vmx.Call(script.User, script.B, fn, v, 1<<50, []byte{0})
					in.CallType = typ
					out, err, aerr := vmx.Run(h, w, in)
					ok := public(fn) || fn == "callBack" && typ == vmcommon.AsynchronousCallBack
					judge(t, fmt.Sprintf("transaction with function %q, call type %d, value %d", fn, typ, v), fn, ok, ok, w, out, err, aerr)
				}
			}
		})
	}
	// calls by a contract, directly and through another one; B calls itself when self is set
	for _, k := range kinds {
		k := k
		c.Case(func() string { return fmt.Sprintf("calls %v, directly, from itself and through each kind of call", k) }, func(t *core.T) {
			var hc hostCell
			for _, fn := range names {
				direct := func(m *wb.M, to []byte) {
					m.Fn("go", func(f *wb.F) { script.EmitCall(f, act(k, to, fn), 1<<40) })
				}
				ma := wb.New()
				direct(ma, script.B)
				w := accessWorld(ma.Bytes(), target, nil, nil)
				out, err, aerr := vmx.Run(hc.use(w), w, vmx.Call(script.User, script.A, "go", 3, 1<<50))
				judge(t, fmt.Sprintf("%v of function %q", k, fn), fn, public(fn), public(fn), w, out, err, aerr)
				// itself
				mb := wb.New()
				for _, n := range []string{"init", "solidity.ctor", "callBack", "pub", "upgradeContract"} {
					if n == "callBack" && isAsync(k) {
						continue
					}
					n := n
					mb.Fn(n, func(f *wb.F) { emitMark(f, "B:"+n) })
				}
				direct(mb, script.B)
				w = accessWorld(nil, mb.Bytes(), nil, nil)
				out, err, aerr = vmx.Run(hc.use(w), w, vmx.Call(script.User, script.B, "go", 3, 1<<50))
				// a contract cannot transfer tokens or value to itself in every way
				judge(t, fmt.Sprintf("%v of function %q of the contract itself", k, fn), fn, public(fn), public(fn) && k != script.ESDTExec && k != script.DestESDT && k != script.AsyncESDT, w, out, err, aerr)
				for _, k1 := range kinds {
					mc := wb.New()
					direct(mc, script.B)
					ma := wb.New()
					ma.Fn("go", func(f *wb.F) { script.EmitCall(f, act(k1, script.C, "go"), 1<<45) })
					w = accessWorld(ma.Bytes(), target, mc.Bytes(), nil)
					out, err, aerr = vmx.Run(hc.use(w), w, vmx.Call(script.User, script.A, "go", 3, 1<<50))
					judge(t, fmt.Sprintf("%v of function %q from a contract called by %v", k, fn, k1), fn, public(fn), public(fn) && k1 != script.ReadOnly && !(isAsync(k1) && isAsync(k)), w, out, err, aerr)
				}
			}
		})
	}
	runC12Init(c, kinds)
}

// runC12Init: constructors run at deployments and permitted upgrades, and only then.
func runC12Init(c *core.Ctx, kinds []script.Kind) {
	newCode := marks("new", "init", "solidity.ctor", "callBack", "pub")
	oldCode := marks("old", "init", "solidity.ctor", "callBack", "pub", "upgradeContract")
	type path struct {
		name string
		emit func(f *wb.F)
		kind script.Kind
		to   []byte
	}
	meta := string([]byte{1, 0})
	targets := [][]byte{script.B, script.A, script.C}
	var paths []path
	for _, to := range targets {
		to := to
		for _, k := range []script.Kind{script.Upgrade, script.UpgradeFrom} {
			k := k
			paths = append(paths, path{k.String(), func(f *wb.F) {
				script.EmitCall(f, script.Act{Op: script.Call, Kind: k, To: to, Child: script.CodeNode(newCode), Meta: []byte(meta)}, 1<<40)
			}, k, to})
		}
		for _, k := range kinds {
			if k == script.ESDTExec || k == script.DestESDT || k == script.AsyncESDT {
				continue
			}
			k := k
			paths = append(paths, path{k.String() + " of upgradeContract", func(f *wb.F) {
				script.EmitCall(f, script.Act{Op: script.Call, Kind: k, To: to, Func: "upgradeContract", Args: []string{string(newCode), meta}}, 1<<40)
			}, k, to})
		}
	}
	owners := [][]byte{script.A, script.B, script.C, script.User, script.Owner}
	for _, p := range paths {
		p := p
		c.Case(func() string { return "upgrades of " + script.Nick(p.to) + " by " + p.name }, func(t *core.T) {
			var hc hostCell
			for _, owner := range owners {
				for bits := 0; bits < 16; bits++ {
					md := []byte{byte(bits & 1), 0}
					if bits&2 != 0 {
						md[0] |= 4
					}
					if bits&4 != 0 {
						md[1] |= 2
					}
					if bits&8 != 0 {
						md[0] |= 0xf0
						md[1] |= 0xf4
					}
					for _, through := range append([]script.Kind{-1}, kinds...) {
						// which account asks for the upgrade
						asker, caller := script.A, script.User
						ma, mc := wb.New(), wb.New()
						if through >= 0 {
							mc.Fn("go", p.emit)
							ma.Fn("go", func(f *wb.F) {
								a := script.Act{Op: script.Call, Kind: through, To: script.C, Func: "go"}
								if through == script.ESDTExec || through == script.DestESDT || through == script.AsyncESDT {
									a.Token, a.Value = script.TOK, 2
								}
								script.EmitCall(f, a, 1<<45)
							})
							asker, caller = script.C, script.A
							if through == script.ByCaller {
								caller = script.User
							}
						} else {
							ma.Fn("go", p.emit)
						}
						w := accessWorld(ma.Bytes(), oldCode, mc.Bytes(), newCode)
						b := w.Accounts[string(p.to)]
						oldCode := b.Code
						b.Owner, b.Meta = owner, md
						out, err, aerr := vmx.Run(hc.use(w), w, vmx.Call(script.User, script.A, "go", 0, 1<<50))
						t.Exec(1)
						t.Trans(1)
						what := fmt.Sprintf("upgrade of %s (owner %s, metadata %x) by %s", script.Nick(p.to), script.Nick(owner), md, p.name)
						if through >= 0 {
							what += fmt.Sprintf(" in C, called by %v", through)
						}
						if err != nil || aerr != nil {
							t.Failf("%s: error %v %v", what, err, aerr)
							return
						}
						by := asker
						if p.kind == script.ByCaller {
							by = caller
						}
						allowed := string(by) == string(owner) && md[0]&1 != 0 && p.kind != script.ReadOnly && through != script.ReadOnly
						upgraded := string(b.Code) == string(newCode)
						initRan := marked(w, out, "new:init")
						t.Class(fmt.Sprintf("allowed %v upgraded %v %v", allowed, upgraded, out.ReturnCode))
						t.Outcome(what)
						switch {
						case upgraded && !allowed:
							t.Failf("%s was carried out", what)
						case !upgraded && string(b.Code) != string(oldCode):
							t.Failf("%s left other code", what)
						case initRan != upgraded:
							t.Failf("%s: upgraded: %v, constructor ran: %v (%v %q)", what, upgraded, initRan, out.ReturnCode, out.ReturnMessage)
						case marked(w, out, "new:callBack") && string(p.to) != string(asker) && !(isAsync(through) && string(p.to) == string(script.A)):
							// only who upgraded itself, or was upgraded by whom it had called, gets the answer with its new code
							t.Failf("%s: the callback of the new code ran", what)
						case marked(w, out, "new:pub") || marked(w, out, "new:solidity.ctor") || marked(w, out, "old:init") || marked(w, out, "old:pub") || marked(w, out, "old:upgradeContract"):
							t.Failf("%s: another function ran", what)
						case allowed && !upgraded && (through == -1 || through == script.Dest):
							t.Failf("%s was refused (%v %q)", what, out.ReturnCode, out.ReturnMessage)
						case string(b.Owner) != string(owner):
							t.Failf("%s changed the owner", what)
						case upgraded && string(b.Meta) != meta:
							t.Failf("%s set the metadata %x", what, b.Meta)
						}
						if t.Failed() {
							return
						}
					}
				}
			}
		})
	}
	c.Case(func() string { return "deployments, directly and by contracts" }, func(t *core.T) {
		var hc hostCell
		for _, init := range []bool{true, false} {
			code := newCode
			if !init {
				code = marks("new", "pub", "callBack", "solidity.ctor")
			}
			for _, through := range append([]script.Kind{-2, -1}, kinds...) {
				for _, k := range []script.Kind{script.Create, script.DeployFrom} {
					ma, mc := wb.New(), wb.New()
					emit := func(f *wb.F) {
						script.EmitCall(f, script.Act{Op: script.Call, Kind: k, Child: script.CodeNode(code)}, 1<<40)
					}
					creator := script.A
					if through >= 0 {
						creator = script.C
						mc.Fn("go", emit)
						ma.Fn("go", func(f *wb.F) {
							a := script.Act{Op: script.Call, Kind: through, To: script.C, Func: "go"}
							if through == script.ESDTExec || through == script.DestESDT || through == script.AsyncESDT {
								a.Token, a.Value = script.TOK, 2
							}
							script.EmitCall(f, a, 1<<45)
						})
					} else {
						ma.Fn("go", emit)
					}
					w := accessWorld(ma.Bytes(), oldCode, mc.Bytes(), code)
					var out *vmcommon.VMOutput
					var err, aerr error
					h := hc.use(w)
					if through == -2 {
						creator = script.User
						out, err, aerr = vmx.RunCreate(h, w, vmx.Create(script.User, code, []byte{5, 6}, 2, 1<<50))
					} else {
						out, err, aerr = vmx.Run(h, w, vmx.Call(script.User, script.A, "go", 0, 1<<50))
					}
					t.Exec(1)
					t.Trans(1)
					what := fmt.Sprintf("deployment by %v through %v, with constructor: %v", k, int(through), init)
					if err != nil || aerr != nil {
						t.Failf("%s: error %v %v", what, err, aerr)
						return
					}
					var fresh []*world.Account
					for _, a := range w.Accounts {
						if string(a.Code) == string(code) && string(a.Addr) != string(script.Src) {
							fresh = append(fresh, a)
						}
					}
					t.Outcome(what)
					t.Class(out.ReturnCode.String())
					initRan := marked(w, out, "new:init")
					switch {
					case through == script.ReadOnly:
						if len(fresh) > 0 || initRan {
							t.Failf("%s: deployed in a read-only call", what)
						}
					case !init && through != -2 && len(fresh) == 0:
						// contracts can only deploy code which has a constructor
						if marked(w, out, "new:pub") || marked(w, out, "new:callBack") || marked(w, out, "new:solidity.ctor") {
							t.Failf("%s: another function ran", what)
						}
					case len(fresh) != 1:
						t.Failf("%s: %d new contracts (%v %q)", what, len(fresh), out.ReturnCode, out.ReturnMessage)
					case initRan != init:
						t.Failf("%s: constructor ran: %v", what, initRan)
					case marked(w, out, "new:pub") || marked(w, out, "new:callBack") || marked(w, out, "new:solidity.ctor"):
						t.Failf("%s: another function ran", what)
					case string(fresh[0].Owner) != string(creator):
						t.Failf("%s: the owner is %s", what, script.Nick(fresh[0].Owner))
					}
					if t.Failed() {
						return
					}
				}
			}
		}
	})
}
