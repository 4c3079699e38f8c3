package checks

import (
	"fmt"
	"math/big"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/world"
)

// The enumerations of trees of contract calls which several checks share.

var allKinds = []script.Kind{script.Dest, script.Same, script.ReadOnly, script.Delegate, script.ByCaller, script.TVE, script.Create, script.DeployFrom,
	script.Async, script.ESDTExec, script.Upgrade, script.UpgradeFrom, script.DestESDT, script.AsyncESDT}

var allEnds = []script.End{script.OK, script.Signal, script.Trap, script.Burn}

func isDeploy(k script.Kind) bool { return k == script.Create || k == script.DeployFrom }
func isUpgrade(k script.Kind) bool {
	return k == script.Upgrade || k == script.UpgradeFrom
}
func isAsync(k script.Kind) bool {
	return k == script.Async || k == script.AsyncESDT || isUpgrade(k)
}

// effects are the side effects of a frame, told apart by tag.
func effects(tag string) []script.Act {
	return []script.Act{
		{Op: script.Store, Key: "k", Val: tag},
		{Op: script.Log, Args: []string{"ev", tag}, Data: tag},
		{Op: script.Finish, Data: tag},
		{Op: script.Transfer, To: script.User, Value: 1, Data: tag},
	}
}

// views show what a frame sees.
func views(tag string) []script.Act {
	return []script.Act{
		{Op: script.Load, Key: "k"},
		{Op: script.LoadFrom, To: script.A, Key: "k"},
		{Op: script.LoadFrom, To: script.B, Key: "k"},
		{Op: script.Balance, To: script.A},
		{Op: script.Balance, To: script.B},
		{Op: script.ESDTBal, To: script.A, Token: script.TOK},
		{Op: script.NewBigInts, N: 1},
		{Op: script.NumRet},
		{Op: script.Store, Key: "post", Val: tag},
	}
}

// frameNode is a frame with side effects, a view of its inputs, calls, and a view of the state after every call.
func frameNode(at []byte, tag string, end script.End, calls ...script.Act) *script.Node {
	n := &script.Node{At: at, End: end, Msg: "e" + tag}
	n.Acts = append(n.Acts, effects(tag)...)
	n.Acts = append(n.Acts, script.Act{Op: script.Info})
	for i, c := range calls {
		n.Acts = append(n.Acts, c)
		if !isAsync(c.Kind) {
			n.Acts = append(n.Acts, views(fmt.Sprintf("%s%d", tag, i))...)
		}
	}
	if len(calls) == 0 {
		n.Acts = append(n.Acts, views(tag)...)
	}
	return n
}

// callAct builds a call of the kind to child. For deployments and upgrades the child holds the init function.
func callAct(k script.Kind, child *script.Node, value int64, args ...string) script.Act {
	a := script.Act{Op: script.Call, Kind: k, Child: child, Value: value, Args: args}
	switch k {
	case script.ReadOnly, script.Delegate:
		a.Value = 0
	case script.ESDTExec, script.DestESDT, script.AsyncESDT:
		a.Token = script.TOK
		if value == 0 {
			a.Value = 3
		}
	case script.Create, script.DeployFrom:
		child.At = nil
	case script.Upgrade, script.UpgradeFrom:
		child.At = nil
		a.To = script.D
	}
	return a
}

// option is one way to call.
type option struct {
	kind script.Kind
	end  script.End
	at   []byte
	cb   int // 0 no callback, 1 a callback which ends well, 2 a failing one
	// bare calls go to an address without a function to run
	bare bool
	fn   string
	gas  int64
}

var missing = vmx.SC("nobody")

// bareOptions are calls of wallets, accounts of other shards, missing contracts and missing functions.
func bareOptions() []option {
	var out []option
	for _, k := range allKinds {
		if isDeploy(k) {
			continue
		}
		for _, at := range [][]byte{script.User, script.FarU, script.FarS, missing, script.C, script.A} {
			for _, fn := range []string{"fx", "init", "callBack", ""} {
				if isUpgrade(k) {
					if fn != "fx" || !vmcommon.IsSmartContractAddress(at) {
						continue
					}
				} else if fn == "" && (k == script.TVE || k == script.ESDTExec) && vmcommon.IsSmartContractAddress(at) {
					continue
				}
				gases := []int64{0}
				if k == script.TVE || k == script.ESDTExec {
					gases = []int64{0, 1 << 20}
				}
				for _, g := range gases {
					cbs := []int{0}
					if isAsync(k) {
						cbs = []int{0, 1}
					}
					for _, cb := range cbs {
						out = append(out, option{kind: k, at: at, bare: true, fn: fn, cb: cb, gas: g})
					}
				}
			}
		}
	}
	return out
}

func allOptions(thorough bool) []option {
	var out []option
	for _, k := range allKinds {
		ats := [][]byte{script.B, script.A}
		if isDeploy(k) || isUpgrade(k) {
			ats = [][]byte{nil}
		}
		cbs := []int{0}
		if isAsync(k) {
			cbs = []int{0, 1, 2}
		}
		for _, at := range ats {
			for _, e := range allEnds {
				for _, cb := range cbs {
					out = append(out, option{kind: k, end: e, at: at, cb: cb})
				}
			}
		}
	}
	return out
}

func (o option) act(frame func(at []byte, tag string, end script.End, calls ...script.Act) *script.Node, tag string, value int64, calls ...script.Act) script.Act {
	if o.bare && !isUpgrade(o.kind) {
		a := callAct(o.kind, nil, value, tag)
		a.To, a.Func, a.Gas = o.at, o.fn, o.gas
		return a
	}
	a := callAct(o.kind, frame(o.at, tag, o.end, calls...), value, tag)
	if o.bare {
		a.To = o.at
	}
	a.Gas = o.gas
	return a
}

// call builds the call of a frame which makes further calls.
func (o option) call(tag string, value int64, calls ...script.Act) script.Act {
	a := o.act(frameNode, tag, value, calls...)
	a.Args = append(a.Args, "yy")
	if o.cb != 0 {
		e := script.OK
		if o.cb == 2 {
			e = script.Signal
		}
		a.CB = frameNode(nil, tag+"cb", e)
	}
	return a
}

// gasBalance says what is wrong with the gas of an output.
func gasBalance(in *vmcommon.VMInput, out *vmcommon.VMOutput) string {
	provided := in.GasProvided
	if out.ReturnCode != vmcommon.Ok {
		if out.GasRemaining != 0 {
			return fmt.Sprintf("the failed call gives back gas: %d", out.GasRemaining)
		}
		return ""
	}
	total := new(big.Int).SetUint64(out.GasRemaining)
	desc := fmt.Sprintf("remaining %d", out.GasRemaining)
	for k, a := range out.OutputAccounts {
		total.Add(total, new(big.Int).SetUint64(a.GasUsed))
		if a.GasUsed != 0 {
			desc += fmt.Sprintf(", used by %s %d", script.Nick([]byte(k)), a.GasUsed)
		}
		for _, t := range a.OutputTransfers {
			total.Add(total, new(big.Int).SetUint64(t.GasLimit))
			total.Add(total, new(big.Int).SetUint64(t.GasLocked))
			if t.GasLimit+t.GasLocked != 0 {
				desc += fmt.Sprintf(", sent to %s %d+%d", script.Nick([]byte(k)), t.GasLimit, t.GasLocked)
			}
		}
	}
	if total.Cmp(new(big.Int).SetUint64(provided)) != 0 {
		return fmt.Sprintf("gas provided %d, but accounted for %v (%s)", provided, total, desc)
	}
	return ""
}

// runner runs trees one after another on one VM host, every tree on a fresh world.
type runner struct {
	t    *core.T
	opt  vmx.Opt
	h    arwen.VMHost
	sw   *world.Swap
	n    int
	last string
	// setup prepares the world before the transaction.
	setup func(w *world.World)
	out   *vmcommon.VMOutput
	want  script.Outcome
	noGas bool
	// mkHost makes another host than usual
	mkHost func(w *world.World) (arwen.VMHost, *world.Swap)
	unit   *big.Int // see script.Unit
	soft   bool     // frames which run inside a read-only call try only what does not make them fail at once
}

// soften removes from the frames inside read-only calls what makes them fail before they call anything.
func soften(n *script.Node, inside bool) {
	if n == nil {
		return
	}
	var acts []script.Act
	for _, a := range n.Acts {
		if inside {
			if a.Op == script.Transfer {
				continue
			}
			if a.Op == script.Call && a.Token == "" {
				a.Value = 0
			}
		}
		soften(a.Child, inside || a.Kind == script.ReadOnly && a.Op == script.Call)
		soften(a.CB, inside)
		acts = append(acts, a)
	}
	n.Acts = acts
}

func newRunner(t *core.T, opt vmx.Opt) *runner {
	if opt.Gas == nil {
		opt.Gas = script.Gas()
	}
	return &runner{t: t, opt: opt}
}

// tree compiles the tree, runs it and compares with the reference model. It reports whether it agrees; trees which cannot be
// expressed (two callbacks of one contract, ...) agree.
func (r *runner) tree(root *script.Node, tx script.Tx) bool {
	r.out = nil
	if r.soft {
		soften(root, false)
	}
	script.Unit = big.NewInt(1)
	if r.unit != nil {
		script.Unit = r.unit
	}
	p, err := script.Compile(root)
	if err != nil {
		r.t.Count("not expressible: "+err.Error(), 1)
		return true
	}
	w := script.BaseWorld(p)
	if r.setup != nil {
		r.setup(w)
	}
	if r.h == nil {
		if r.mkHost != nil {
			r.h, r.sw = r.mkHost(w)
		} else {
			r.h, r.sw = vmx.MustSwap(w, r.opt)
		}
	} else {
		r.sw.World = w
	}
	in := p.Input(tx)
	provided := vmcommon.VMInput{GasProvided: in.GasProvided}
	if in.CallType == vmcommon.AsynchronousCallBack {
		provided.GasProvided += in.GasLocked
	}
	out, want, d := script.Run(r.h, w, p, in, r.opt.V3 == 0, r.opt.DynLock != 0)
	r.out, r.want = out, want
	r.n++
	r.t.Exec(1)
	r.t.Trans(want.Calls + 1)
	r.t.Class(want.RC.String())
	r.t.Outcome(want.Render())
	if d == "" && out != nil && !r.noGas {
		if g := gasBalance(&provided, out); g != "" {
			d = "  " + g + "\n"
		}
	}
	if d != "" {
		r.t.Failf("tree %d on this host: %s\ncall %s of %s, value %d: the VM and the reference model disagree\n%sfull expectation:\n%s", r.n, root, in.Function, script.Nick(in.RecipientAddr), tx.Value, d, want.Render())
		return false
	}
	return true
}

// runTree runs one tree on a host of its own.
func runTree(t *core.T, root *script.Node, tx script.Tx, opt vmx.Opt) bool {
	return newRunner(t, opt).tree(root, tx)
}
