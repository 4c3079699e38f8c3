package checks

import (
	"fmt"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

// Refunds: each write which makes a value shorter is refunded, whatever is executed before and after it, unless it is undone.

func shorten(f *wb.F, key string) {
	f.Do("storageStore", wb.S(key), wb.I(int32(len(key))), wb.S("n"), wb.I(1))
}

type refundAct struct {
	name  string
	emit  func(f *wb.F)
	gain  int  // values shortened by what is executed
	async bool // execution ends here, and the callback is executed
	fails bool // the failure is that of the caller
}

// refundActs are the actions of the contract self, which owns the contract owned.
func refundActs(self, owned []byte, nested bool) []refundAct {
	var out []refundAct
	call := func(name string, gain int, a script.Act) {
		a.Op = script.Call
		async := a.Kind == script.Async || a.Kind == script.AsyncESDT || a.Kind == script.Upgrade || a.Kind == script.UpgradeFrom
		if async && nested {
			return
		}
		out = append(out, refundAct{name: name, gain: gain, async: async, emit: func(f *wb.F) { script.EmitCall(f, a, 1<<42) }})
	}
	out = append(out, refundAct{name: "nothing", emit: func(f *wb.F) {}})
	for _, k := range []script.Kind{script.Dest, script.Same, script.ReadOnly, script.Delegate, script.ByCaller, script.TVE, script.Async, script.ESDTExec, script.DestESDT, script.AsyncESDT} {
		a := script.Act{Kind: k, To: script.B}
		undoes := false // a failure of the callee is not that of the caller
		switch k {
		case script.ESDTExec, script.AsyncESDT, script.DestESDT:
			a.Token, a.Value = script.TOK, 3
			undoes = k != script.DestESDT
		case script.TVE, script.Async:
			undoes = true
		}
		a.Func = "short"
		gain := 1
		if k == script.ReadOnly {
			gain = 0
		}
		call(k.String()+" which shortens", gain, a)
		a.Func = "none"
		call(k.String(), 0, a)
		if undoes {
			a.Func = "fail"
			call(k.String()+" which fails", 0, a)
		}
	}
	init := wb.New()
	init.Fn("init", func(f *wb.F) { shorten(f, "in") })
	call("create", 0, script.Act{Kind: script.Create, Child: script.CodeNode(init.Bytes())})
	call("upgrade", 1, script.Act{Kind: script.Upgrade, To: owned, Child: script.CodeNode(init.Bytes())})
	call("claim", 0, script.Act{Kind: script.Dest, To: owned, Func: "ClaimDeveloperRewards"})
	call("change of owner", 0, script.Act{Kind: script.Dest, To: owned, Func: "ChangeOwnerAddress", Args: []string{string(script.Owner)}})
	call("asynchronous claim", 0, script.Act{Kind: script.Async, To: owned, Func: "ClaimDeveloperRewards"})
	call("asynchronous claim which fails", 0, script.Act{Kind: script.Async, To: script.B, Func: "ClaimDeveloperRewards"})
	call("tokens to a user", 0, script.Act{Kind: script.ESDTExec, To: script.User, Token: script.TOK, Value: 3})
	call("a claim by value transfer", 0, script.Act{Kind: script.TVE, To: script.User, Value: 1})
	call("a call of another shard", 0, script.Act{Kind: script.TVE, To: script.FarS, Func: "short", Value: 1})
	return out
}

func refundCases(c *core.Ctx) {
	callee := wb.New()
	callee.Fn("short", func(f *wb.F) { shorten(f, "in") })
	callee.Fn("none", func(f *wb.F) {})
	callee.Fn("fail", func(f *wb.F) { shorten(f, "in"); f.Do("signalError", wb.S("no"), wb.I(2)) })
	// functions of the contract self: each action with and without writes before and after it
	type fn struct {
		name string
		gain int
		desc string
	}
	program := func(self, owned []byte, pre, post string, nested bool, acts []refundAct) (*wb.M, []fn) {
		m := wb.New()
		var fns []fn
		for i, a := range acts {
			for b := 0; b < 4; b++ {
				a, b := a, b
				x := fn{name: fmt.Sprintf("f%d_%d", i, b), gain: a.gain, desc: a.name}
				if b&1 > 0 {
					x.gain++
					x.desc = "a write, " + x.desc
				}
				if b&2 > 0 {
					if !a.async {
						x.gain++
					}
					x.desc += ", a write"
				}
				if a.async {
					x.gain++ // the callback
				}
				m.Fn(x.name, func(f *wb.F) {
					if b&1 > 0 {
						shorten(f, pre)
					}
					a.emit(f)
					if b&2 > 0 {
						shorten(f, post)
					}
				})
				fns = append(fns, x)
			}
		}
		m.Fn("callBack", func(f *wb.F) { shorten(f, "cb") })
		return m, fns
	}
	mid, midFns := program(script.C, script.Src, "mpre", "mpost", true, refundActs(script.C, script.Src, true))
	acts := refundActs(script.A, script.D, false)
	for _, k := range []script.Kind{script.Dest, script.Same, script.TVE, script.ESDTExec, script.Async} {
		for _, x := range midFns {
			a := script.Act{Op: script.Call, Kind: k, To: script.C, Func: x.name}
			if k == script.ESDTExec {
				a.Token, a.Value = script.TOK, 3
			}
			if k == script.Same {
				continue
			}
			acts = append(acts, refundAct{name: k.String() + " of (" + x.desc + ")", gain: x.gain, async: k == script.Async, emit: func(f *wb.F) { script.EmitCall(f, a, 1<<44) }})
		}
	}
	gas := script.Gas()
	gas["BaseOperationCost"]["ReleasePerByte"] = 5
	p, err := script.Compile(&script.Node{At: script.A})
	if err != nil {
		panic(err)
	}
	for i := range acts {
		i := i
		c.Case(func() string { return "refunds: " + acts[i].name }, func(t *core.T) {
			top, fns := program(script.A, script.D, "pre", "post", false, acts[i:i+1])
			for _, x := range fns {
				w := script.BaseWorld(p)
				for _, a := range [][]byte{script.A, script.B, script.C, script.D, script.Src} {
					acc := w.Accounts[string(a)]
					for _, k := range []string{"pre", "post", "in", "cb", "mpre", "mpost"} {
						acc.Storage[k] = []byte("1234")
					}
					acc.Meta = []byte{5, 6}
					acc.SetESDT(script.TOK, 50)
					acc.Balance.SetInt64(100)
				}
				w.Accounts[string(script.A)].Code = top.Bytes()
				w.Accounts[string(script.B)].Code = callee.Bytes()
				w.Accounts[string(script.C)].Code = mid.Bytes()
				w.Accounts[string(script.D)].Owner = script.A
				w.Accounts[string(script.Src)].Owner = script.C
				t.Exec(1)
				t.Trans(1)
				refundOf(t, x.desc, w, x.name, int64(x.gain)*3*5, gas)
			}
		})
	}
}

func refundOf(t *core.T, desc string, w *world.World, fn string, want int64, gas map[string]map[string]uint64) {
	h, _ := vmx.MustSwap(w, vmx.Opt{Gas: gas})
	out, err := h.RunSmartContractCall(vmx.Call(script.User, script.A, fn, 0, script.RootGas))
	if err != nil || out.ReturnCode != 0 {
		t.Failf("%s: %s", desc, vmx.Canon(out, err))
		return
	}
	if out.GasRefund == nil || out.GasRefund.Int64() != want {
		t.Failf("%s: the refund is %v, want %d\n%s", desc, out.GasRefund, want, vmx.Canon(out, err))
	}
}
