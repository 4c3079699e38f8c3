package checks

import (
	"fmt"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
)

func init() {
	core.Register(&core.Check{ID: "C13", Level: "model_checking", Rule: treeRule + " Here the calls are asynchronous: what the called contract returns (nothing, empty values, several values, data which looks like a token transfer), " +
		"how it ends, what it sends back to the caller, what happened before, and what the callback does (7 ways) are combined, also nested, in calls from other shards, and with either rule for locking gas.", Assumptions: treeAssumptions, Run: runC13})
}

// fin returns data.
func fin(ds ...string) []script.Act {
	var out []script.Act
	for _, d := range ds {
		out = append(out, script.Act{Op: script.Finish, Data: d})
	}
	return out
}

func tok(v int64) string {
	return fmt.Sprintf("ESDTTransfer@%x@%02x", script.TOK, v)
}

// answers are the results of the called contract.
func answers() [][]script.Act {
	return [][]script.Act{
		nil, fin(""), fin("x"), fin("", "x"), fin("x", "", "y"), fin("fx@63"), fin(tok(2)), fin(tok(2), "x", ""), fin("x", tok(2)), fin(tok(21)), fin(tok(0)),
		fin(tok(2) + "@6678"), fin("ESDTTransfer"), fin("ESDTTransfer@zz@02"), fin("ESDTTransfer@" + fmt.Sprintf("%x", script.TOK)), fin("@"), fin("\x00\xff"),
	}
}

// gifts are what the called contract sends to the caller.
func gifts() [][]script.Act {
	x := func(v int64, d string) script.Act {
		return script.Act{Op: script.Transfer, To: script.A, Value: v, Data: d}
	}
	u := script.Act{Op: script.Transfer, To: script.User, Value: 9}
	return [][]script.Act{
		nil, {x(4, "")}, {x(4, "d")}, {x(0, "")}, {x(4, ""), x(3, "d")}, {x(3, "d"), x(4, "")}, {x(4, ""), x(2, "")}, {u}, {x(4, ""), u},
		{{Op: script.Call, Kind: script.TVE, To: script.User, Func: "fx", Value: 2}},
	}
}

// callbacks; nil is none.
func callbacks() []*script.Node {
	look := []script.Act{{Op: script.Info}, {Op: script.ESDTInfo}, {Op: script.ESDTBal, To: script.A, Token: script.TOK}, {Op: script.Balance, To: script.A}, {Op: script.NumRet}, {Op: script.Load, Key: "k"}}
	var out []*script.Node
	out = append(out, nil)
	for _, e := range allEnds {
		out = append(out, &script.Node{Acts: append(append([]script.Act{}, look...), effects("cb")...), End: e, Msg: "ecb"})
	}
	out = append(out, &script.Node{Acts: append([]script.Act{{Op: script.CheckPay}}, look...)})
	out = append(out, &script.Node{Acts: append(append([]script.Act{}, look...), script.Act{Op: script.Call, Kind: script.Dest, Child: &script.Node{At: script.C, Acts: []script.Act{{Op: script.Info}, {Op: script.Store, Key: "k", Val: "cc"}}}, Value: 1, Gas: 1 << 20})})
	return out
}

func copyNode(n *script.Node) *script.Node {
	if n == nil {
		return nil
	}
	c := *n
	c.Acts = append([]script.Act{}, n.Acts...)
	for i := range c.Acts {
		c.Acts[i].Child = copyNode(c.Acts[i].Child)
		c.Acts[i].CB = copyNode(c.Acts[i].CB)
	}
	return &c
}

func runC13(c *core.Ctx) {
	cfgs := []struct {
		name string
		opt  vmx.Opt
	}{{"all features on", vmx.Opt{}}, {"gas always locked", vmx.Opt{DynLock: 100}}, {"without the version 3 features", vmx.Opt{V3: 100}}}
	// befores: what happened earlier in the transaction
	befores := []struct {
		name string
		acts func() []script.Act
	}{
		{"nothing before", func() []script.Act { return nil }},
		{"C having sent value to A before", func() []script.Act {
			return []script.Act{{Op: script.Call, Kind: script.Dest, Value: 6, Child: &script.Node{At: script.C, Acts: []script.Act{{Op: script.Transfer, To: script.A, Value: 3}}}}}
		}},
		{"results before", func() []script.Act { return fin("r0", "") }},
		{"value sent to itself before", func() []script.Act { return []script.Act{{Op: script.Transfer, To: script.A, Value: 2}} }},
	}
	kinds := []script.Kind{script.Async, script.AsyncESDT}
	txs := []script.Tx{{Value: 11}, {Value: 11, Type: vmcommon.AsynchronousCall, From: script.FarS}, {Value: 5, Type: vmcommon.AsynchronousCallBack, From: script.FarS},
		{Value: 5, Type: vmcommon.AsynchronousCallBack, From: script.FarS, Locked: script.RootGas / 4 * 3}, {Value: 11, Type: vmcommon.AsynchronousCall, From: script.FarS, Locked: 1 << 20}}
	for _, cfg := range cfgs {
		for _, bf := range befores {
			for _, k := range kinds {
				for _, end := range allEnds {
					cfg, bf, k, end := cfg, bf, k, end
					if !c.Thorough && cfg.name != "all features on" && (bf.name == "results before" || end == script.Trap) {
						continue
					}
					c.Case(func() string {
						return fmt.Sprintf("A makes an %s call, %s; B ends %s, with every answer, gift and callback; %s", k, bf.name, end, cfg.name)
					}, func(t *core.T) {
						r := newRunner(t, cfg.opt)
						for _, tx := range txs {
							for _, an := range answers() {
								for _, gi := range gifts() {
									for _, cb := range callbacks() {
										b := &script.Node{At: script.B, End: end, Msg: "eb"}
										b.Acts = append(b.Acts, gi...)
										b.Acts = append(b.Acts, an...)
										a := callAct(k, b, 5)
										a.Args = []string{"q", ""}
										a.CB = copyNode(cb)
										root := &script.Node{At: script.A, Acts: append(bf.acts(), a)}
										if tx.Type != vmcommon.DirectCall && (len(gi) > 1 || len(an) > 2) && !c.Thorough {
											continue
										}
										if !r.tree(root, tx) {
											return
										}
									}
								}
							}
						}
					})
				}
			}
		}
	}
	// nested asynchronous calls
	all := pick(allOptions(false), func(o option) bool { return isAsync(o.kind) })
	for _, cfg := range cfgs {
		chains(c, all, all, []script.End{script.OK, script.Signal}, script.Tx{Value: 11}, cfg.opt)
		chains(c, all, bareOptions(), []script.End{script.OK}, script.Tx{Value: 11}, cfg.opt)
		sync := pick(allOptions(false), func(o option) bool {
			return !isAsync(o.kind) && (o.end == script.OK || o.end == script.Signal) && (cfg.opt.V3 == 0 || !isDeploy(o.kind))
		})
		chains(c, sync, all, []script.End{script.OK}, script.Tx{Value: 11}, cfg.opt)
		chains(c, all, sync, []script.End{script.OK}, script.Tx{Value: 11, Type: vmcommon.AsynchronousCall, From: script.FarS}, cfg.opt)
		if c.Thorough {
			triples(c, all, all, all, script.Tx{Value: 11}, cfg.opt)
		}
	}
	// tokens sent back to the caller by an asynchronous call
	for _, cfg := range cfgs {
		cfg := cfg
		c.Case(func() string { return "B sends tokens back to A by an asynchronous call; " + cfg.name }, func(t *core.T) {
			r := newRunner(t, cfg.opt)
			for _, k := range kinds {
				for _, v := range []int64{0, 1, 2, 20, 25, 26} {
					for _, fn := range []string{"", "fx", "callBack"} {
						for _, an := range answers() {
							for _, gi := range gifts() {
								for _, cb := range callbacks() {
									for _, cb2 := range []*script.Node{nil, {Acts: []script.Act{{Op: script.Info}}}} {
										b := &script.Node{At: script.B}
										b.Acts = append(b.Acts, gi...)
										b.Acts = append(b.Acts, an...)
										b.Acts = append(b.Acts, script.Act{Op: script.Call, Kind: script.AsyncESDT, To: script.A, Func: fn, Token: script.TOK, Value: v, CB: copyNode(cb2)})
										a := callAct(k, b, 5)
										a.CB = copyNode(cb)
										if !c.Thorough && (len(gi) > 1 || len(an) > 2) {
											continue
										}
										if !r.tree(&script.Node{At: script.A, Acts: []script.Act{a}}, script.Tx{Value: 11}) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		})
	}
}
