package checks

import (
	"fmt"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
)

// The checks which run trees of contract calls on the VM and compare everything observable with the reference model. They differ in
// the trees which they enumerate.

func pick(opts []option, f func(o option) bool) []option {
	var out []option
	for _, o := range opts {
		if f(o) {
			out = append(out, o)
		}
	}
	return out
}

func (o option) String() string {
	s := fmt.Sprintf("%s of %s ending %s", o.kind, script.Nick(o.at), o.end)
	if o.bare {
		s = fmt.Sprintf("%s of function %q of %s with gas %d", o.kind, o.fn, script.Nick(o.at), o.gas)
	}
	switch o.cb {
	case 1:
		s += " with a callback"
	case 2:
		s += " with a failing callback"
	}
	return s
}

// survives: the caller goes on when the called contract fails.
func survives(o option) bool {
	switch o.kind {
	case script.TVE, script.ESDTExec, script.Create, script.DeployFrom:
		return true
	}
	return isAsync(o.kind)
}

// chains runs root -> o1 -> o2 for every o2 on one host.
func chains(c *core.Ctx, first, second []option, ends []script.End, tx script.Tx, opt vmx.Opt) {
	soft := softFrames
	for _, o1 := range first {
		for _, re := range ends {
			o1, re := o1, re
			c.Case(func() string {
				return fmt.Sprintf("A calls: %s, which calls: each of %d ways; A ends %s; value %d%s", o1, len(second), re, tx.Value, softName(soft))
			}, func(t *core.T) {
				r := newRunner(t, opt)
				r.soft = soft
				for _, o2 := range second {
					if !r.tree(frameNode(script.A, "a", re, o1.call("b", 5, o2.call("c", 2))), tx) {
						return
					}
				}
			})
		}
	}
}

// siblings runs root -> o1, then o2.
func siblings(c *core.Ctx, first, second []option, ends []script.End, tx script.Tx, opt vmx.Opt) {
	soft := softFrames
	for _, o1 := range first {
		if isAsync(o1.kind) {
			continue
		}
		for _, re := range ends {
			o1, re := o1, re
			c.Case(func() string {
				return fmt.Sprintf("A calls: %s, then: each of %d ways; A ends %s; value %d%s", o1, len(second), re, tx.Value, softName(soft))
			}, func(t *core.T) {
				r := newRunner(t, opt)
				r.soft = soft
				for _, o2 := range second {
					if !r.tree(frameNode(script.A, "a", re, o1.call("b", 5), o2.call("c", 2)), tx) {
						return
					}
				}
			})
		}
	}
}

// triples runs root -> o1 -> o2 -> o3.
func triples(c *core.Ctx, first, second, third []option, tx script.Tx, opt vmx.Opt) {
	soft := softFrames
	for _, o1 := range first {
		for _, o2 := range second {
			o1, o2 := o1, o2
			c.Case(func() string {
				return fmt.Sprintf("A calls: %s, which calls: %s, which calls: each of %d ways%s", o1, o2, len(third), softName(soft))
			}, func(t *core.T) {
				r := newRunner(t, opt)
				r.soft = soft
				for _, o3 := range third {
					if !r.tree(frameNode(script.A, "a", script.OK, o1.call("b", 5, o2.call("c", 2, o3.call("d", 3)))), tx) {
						return
					}
				}
			})
		}
	}
}

// forks runs root -> o1 -> (o2, then o3).
func forks(c *core.Ctx, first, second, third []option, tx script.Tx, opt vmx.Opt) {
	soft := softFrames
	for _, o1 := range first {
		for _, o2 := range second {
			if isAsync(o2.kind) {
				continue
			}
			o1, o2 := o1, o2
			c.Case(func() string {
				return fmt.Sprintf("A calls: %s, which calls: %s, then each of %d ways%s", o1, o2, len(third), softName(soft))
			}, func(t *core.T) {
				r := newRunner(t, opt)
				r.soft = soft
				for _, o3 := range third {
					if !r.tree(frameNode(script.A, "a", script.OK, o1.call("b", 5, o2.call("c", 2), o3.call("d", 3))), tx) {
						return
					}
				}
			})
		}
	}
}

const treeRule = "Programs are trees of contract calls: every way to call (14 kinds of call x called contract x how the callee ends x callback) in every position of the tree, each frame with a " +
	"storage write, a log, return data and a transfer before, and a view of storage, balances, arguments and return data afterwards. Each is compiled to WebAssembly, run by the real VM on a " +
	"real world hook with the protocol's built-in functions, and everything observable (return code and message, return data, logs, transfers, balances, storage, code, token balances, gas sum) " +
	"is compared with a reference interpreter whose states are copied before each call and put back on failure. Non-trivial: the classes count the outcomes."

var treeAssumptions = []string{
	"contracts run on this checker's own WebAssembly engine, which replaces the missing native library behind the same C interface (the repository's own VM tests pass on it)",
	"the gas schedule is flat and gas is plentiful except where a frame ends out of gas",
}

func init() {
	core.Register(&core.Check{ID: "C03", Level: "model_checking", Rule: treeRule, Assumptions: treeAssumptions, Run: runC03})
}

func runC03(c *core.Ctx) {
	all := allOptions(false)
	tx := script.Tx{Value: 11}
	chains(c, all, all, []script.End{script.OK}, tx, vmx.Opt{})
	siblings(c, all, all, []script.End{script.OK}, tx, vmx.Opt{})
	bare := bareOptions()
	chains(c, all, bare, []script.End{script.OK}, tx, vmx.Opt{})
	siblings(c, bare, pick(all, func(o option) bool { return o.end == script.OK }), []script.End{script.OK}, tx, vmx.Opt{})
	surv := pick(all, survives)
	for _, o1 := range surv {
		if isAsync(o1.kind) || isDeploy(o1.kind) || o1.end != script.OK {
			continue
		}
		o1 := o1
		for _, o2 := range append([]option{{bare: true}}, all...) {
			if survives(o2) || (o2.end != script.OK && !o2.bare) {
				continue
			}
			o2 := o2
			c.Case(func() string {
				return "A calls with every limit of gas: " + o1.String() + ", which calls: " + o2.String()
			}, func(t *core.T) {
				step := uint64(1)
				childSweep(t, func() script.Act {
					if o2.bare {
						return o1.small("b", 5)
					}
					return o1.small("b", 5, o2.small("c", 2))
				}, step)
			})
		}
	}
	sync := pick(all, func(o option) bool { return !isAsync(o.kind) && o.end == script.OK })
	if c.Thorough {
		triples(c, surv, all, all, tx, vmx.Opt{})
		forks(c, surv, all, all, tx, vmx.Opt{})
		return
	}
	failing := pick(surv, func(o option) bool { return o.end == script.Signal && o.cb != 2 })
	triples(c, failing, sync, pick(all, func(o option) bool { return o.end != script.Trap && o.cb != 2 }), tx, vmx.Opt{})
	forks(c, failing, pick(all, func(o option) bool { return !isAsync(o.kind) && o.end != script.Trap }), pick(all, func(o option) bool { return o.end == script.OK && o.cb != 2 }), tx, vmx.Opt{})
}

func init() {
	core.Register(&core.Check{ID: "C02", Level: "model_checking", Rule: treeRule + " Here the transaction itself fails: in its root frame after every chain of calls, by every way to enter a contract wrongly, and by running out of gas " +
		"at every single amount of gas up to what it needs.", Assumptions: treeAssumptions, Run: runC02})
	core.Register(&core.Check{ID: "C07", Level: "model_checking", Rule: treeRule + " Here one frame of the tree is a read-only call. Moreover every function of the environment interface is called in a read-only frame with a valid vector of arguments in which up to 2 (thorough: 3) deviate, and must change nothing.", Assumptions: treeAssumptions, Run: runC07})
}

// entries are transactions which do not reach a function.
func entries() []script.Tx {
	var out []script.Tx
	for _, typ := range []vmcommon.CallType{vmcommon.DirectCall, vmcommon.AsynchronousCall, vmcommon.ESDTTransferAndExecute} {
		for _, fn := range []string{"init", "callBack", "nothing", "", "memory", "f0 ", "F0"} {
			for _, v := range []int64{0, 11, 1000} {
				out = append(out, script.Tx{Func: fn, Value: v, Type: typ})
			}
		}
	}
	return out
}

func runC02(c *core.Ctx) {
	all := allOptions(false)
	fails := []script.End{script.Signal, script.Trap, script.Burn}
	chains(c, all, all, fails, script.Tx{Value: 11}, vmx.Opt{})
	siblings(c, all, pick(all, func(o option) bool { return o.end == script.OK }), fails, script.Tx{Value: 11}, vmx.Opt{})
	if c.Thorough {
		for _, o1 := range all {
			o1 := o1
			c.Case(func() string { return "A fails after: " + o1.String() + ", which calls each pair of ways" }, func(t *core.T) {
				r := newRunner(t, vmx.Opt{})
				for _, o2 := range all {
					for _, o3 := range all {
						if !r.tree(frameNode(script.A, "a", script.Signal, o1.call("b", 5, o2.call("c", 2, o3.call("d", 3)))), script.Tx{Value: 11}) {
							return
						}
					}
				}
			})
		}
	}
	for _, o1 := range append(pick(all, func(o option) bool { return o.end == script.OK || o.end == script.Signal }), bareOptions()...) {
		o1 := o1
		c.Case(func() string { return "A calls: " + o1.String() + ", with every amount of gas" }, func(t *core.T) {
			mk := func() *script.Node {
				calls := []script.Act{o1.small("b", 5)}
				if !isAsync(o1.kind) {
					calls = append(calls, option{kind: script.Dest, at: script.C}.small("c", 2))
				}
				return smallFrame(script.A, "a", script.OK, calls...)
			}
			sweep(t, mk, vmx.Opt{}, 1, func(g uint64, r, full sweepResult, clean string) bool {
				if r.out.ReturnCode == vmcommon.Ok {
					return true
				}
				d := script.Leftover(r.out)
				if r.effect != clean {
					d += "  the world is changed: " + r.effect
				}
				if d != "" {
					t.Failf("%s fails with gas %d (%s)\n%s", mk(), g, r.out.ReturnMessage, d)
				}
				return d == ""
			})
		})
	}
	for _, tx := range entries() {
		tx := tx
		c.Case(func() string { return fmt.Sprintf("entry %q with value %d, call type %d", tx.Func, tx.Value, tx.Type) }, func(t *core.T) {
			r := newRunner(t, vmx.Opt{})
			r.tree(frameNode(script.A, "a", script.OK), tx)
		})
	}
}

func runC07(c *core.Ctx) {
	for _, soft := range []bool{false, true} {
		softFrames = soft
		readOnlyTrees(c)
	}
	runReadOnlyFunctions(c)
}

// softFrames: see runner.soft. Read when a case is registered.
var softFrames bool

func readOnlyTrees(c *core.Ctx) {
	all := allOptions(false)
	ro := pick(all, func(o option) bool { return o.kind == script.ReadOnly })
	tx := script.Tx{Value: 11}
	chains(c, ro, all, []script.End{script.OK}, tx, vmx.Opt{})
	chains(c, all, ro, []script.End{script.OK}, tx, vmx.Opt{})
	siblings(c, ro, all, []script.End{script.OK}, tx, vmx.Opt{})
	okRO := pick(ro, func(o option) bool { return o.end == script.OK })
	sync := pick(all, func(o option) bool { return !isAsync(o.kind) && o.end == script.OK })
	if c.Thorough {
		triples(c, ro, all, all, tx, vmx.Opt{})
		triples(c, all, ro, all, tx, vmx.Opt{})
		forks(c, ro, all, all, tx, vmx.Opt{})
	} else {
		triples(c, okRO, sync, all, tx, vmx.Opt{})
		triples(c, pick(all, func(o option) bool { return o.end == script.OK && o.cb != 2 }), okRO, sync, tx, vmx.Opt{})
		forks(c, okRO, sync, pick(all, func(o option) bool { return o.end == script.OK }), tx, vmx.Opt{})
	}
}

func softName(soft bool) string {
	if soft {
		return "; frames in read-only calls do not try to move value"
	}
	return ""
}
