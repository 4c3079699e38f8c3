package checks

import (
	"fmt"
	"strings"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/world"
)

func init() {
	core.Register(&core.Check{ID: "C01", Level: "model_checking",
		Rule: "For every way to call (kind x called contract x ending x callback), alone and in pairs, the program is run with every amount of gas from nothing to more than it needs, on schedules in which every " +
			"API function has a different price. On each run the gas of the output (used by each account, attached to transfers, locked, remaining) is summed and compared with the gas provided; a run which succeeds " +
			"with less gas than another has to use the same gas and have the same effects. Trees of calls (see C03) with plenty of gas are compared with the reference interpreter and summed, too.",
		Assumptions: []string{treeAssumptions[0]}, Run: runC01})
}

// sweepGas are prices which are all different and small; the lock of callbacks is worth some calls.
func sweepGas() map[string]map[string]uint64 {
	g := vmx.DistinctGas()
	for s := range g {
		for k, v := range g[s] {
			if s == "ElrondAPICost" || s == "EthAPICost" || s == "BigIntAPICost" || s == "CryptoAPICost" {
				g[s][k] = v%23 + 1
			}
		}
	}
	g["BaseOperationCost"]["StorePerByte"] = 3
	g["BaseOperationCost"]["DataCopyPerByte"] = 2
	g["BaseOperationCost"]["PersistPerByte"] = 1
	g["BaseOperationCost"]["ReleasePerByte"] = 1
	g["BaseOperationCost"]["CompilePerByte"] = 1
	g["BaseOperationCost"]["AoTPreparePerByte"] = 1
	g["BaseOperationCost"]["GetCode"] = 5
	g["ElrondAPICost"]["AsyncCallStep"] = 30
	g["ElrondAPICost"]["AsyncCallbackGasLock"] = 400
	g["ElrondAPICost"]["CreateContract"] = 40
	g["ElrondAPICost"]["GetBlockRandomSeed"] = 1 << 58
	return g
}

// smallFrame is a frame with few effects.
func smallFrame(at []byte, tag string, end script.End, calls ...script.Act) *script.Node {
	n := &script.Node{At: at, End: end, Msg: "e" + tag}
	n.Acts = append(n.Acts, script.Act{Op: script.Store, Key: "k", Val: tag}, script.Act{Op: script.Transfer, To: script.User, Value: 1})
	n.Acts = append(n.Acts, calls...)
	if len(calls) == 0 || !isAsync(calls[len(calls)-1].Kind) {
		n.Acts = append(n.Acts, script.Act{Op: script.Log, Args: []string{tag}}, script.Act{Op: script.Finish, Data: tag})
	}
	return n
}

func (o option) small(tag string, value int64, calls ...script.Act) script.Act {
	a := o.act(smallFrame, tag, value, calls...)
	if o.cb != 0 {
		e := script.OK
		if o.cb == 2 {
			e = script.Signal
		}
		a.CB = smallFrame(nil, tag+"cb", e)
	}
	return a
}

// sweep runs the program with every amount of gas. The outcome with plenty of gas is the reference.
type sweepResult struct {
	gas    uint64
	out    *vmcommon.VMOutput
	err    error
	effect string // the world afterwards and the results, without gas
	// explained tells (if the effects are not those with plenty of gas) which frames ran out of gas according to the
	// reference model, or how it is not explained by any.
	explained func() (string, bool)
}

// frames are the nodes of a tree.
func frames(n *script.Node) []*script.Node {
	if n == nil {
		return nil
	}
	out := []*script.Node{n}
	for i := range n.Acts {
		out = append(out, frames(n.Acts[i].Child)...)
		out = append(out, frames(n.Acts[i].CB)...)
	}
	return out
}

// explain looks for a set of frames which, when they run out of gas, have the outcome as result.
func explain(p *script.Program, base *world.World, opt vmx.Opt, w *world.World, out *vmcommon.VMOutput) (string, bool) {
	nodes := frames(p.Root)
	var ends []script.End
	for _, n := range nodes {
		ends = append(ends, n.End)
	}
	// what may lack gas besides: asynchronous calls (of built-in functions, say) and callbacks which do not exist
	type spot struct {
		a   *script.Act
		bit int
	}
	var spots []spot
	for _, n := range nodes {
		for i := range n.Acts {
			if a := &n.Acts[i]; a.Op == script.Call && isAsync(a.Kind) {
				spots = append(spots, spot{a, 1}, spot{a, 2}, spot{a, 4})
			}
		}
	}
	defer func() {
		for i, n := range nodes {
			n.End = ends[i]
		}
		for _, x := range spots {
			x.a.NoGas = 0
		}
	}()
	best := ""
	for set := 0; set < 1<<uint(len(nodes)+len(spots)); set++ {
		for i, n := range nodes {
			n.End = ends[i]
			if set>>i&1 == 1 {
				n.End = script.Burn
			}
		}
		for i, x := range spots {
			x.a.NoGas &^= x.bit
			if set>>uint(len(nodes)+i)&1 == 1 {
				x.a.NoGas |= x.bit
			}
		}
		want := script.Predict(p, base.Clone(), p.Input(script.Tx{Value: 11}), opt.V3 == 0, opt.DynLock != 0)
		got, err := script.Observe(w, out, nil, want)
		if err != nil {
			return err.Error(), false
		}
		d := script.Diff(want.Render(), got.Render())
		if d == "" {
			return fmt.Sprintf("%b", set), true
		}
		if best == "" || len(d) < len(best) {
			best = d
		}
	}
	return best, false
}

func sweep(t *core.T, mk func() *script.Node, opt vmx.Opt, step uint64, each func(g uint64, r, full sweepResult, clean string) bool) bool {
	p, err := script.Compile(mk())
	if err != nil {
		t.Count("not expressible: "+err.Error(), 1)
		return true
	}
	opt.Gas = sweepGas()
	var h interface {
		RunSmartContractCall(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error)
	}
	var sw *world.Swap
	base := script.BaseWorld(p)
	clean := base.Canon()
	run := func(gas uint64) sweepResult {
		w := base.Clone()
		if h == nil {
			h, sw = vmx.MustSwap(w, opt)
		} else {
			sw.World = w
		}
		in := p.Input(script.Tx{Value: 11})
		in.GasProvided = gas
		vmx.Debit(w, in.CallerAddr, in.CallValue)
		out, err := h.RunSmartContractCall(in)
		snap := 0
		aerr := vmx.Settle(w, snap, in.CallerAddr, in.CallValue, out, err)
		r := sweepResult{gas: gas, out: out, err: err}
		if aerr != nil {
			r.effect = "cannot be applied: " + aerr.Error()
			return r
		}
		r.effect = effectOf(out, w)
		r.explained = func() (string, bool) { return explain(p, base, opt, w, out) }
		t.Exec(1)
		return r
	}
	// the amount which is certainly enough
	full := run(1 << 40)
	if full.err != nil {
		t.Failf("%s: error %v", mk(), full.err)
		return false
	}
	need := uint64(1 << 13)
	if full.out.ReturnCode == vmcommon.Ok {
		need = (1 << 40) - full.out.GasRemaining
		if need > 1<<16 {
			need = 1 << 13
		}
	}
	for g := uint64(0); g <= need+40; g += step {
		r := run(g)
		if r.err != nil {
			t.Failf("%s with gas %d: error %v", mk(), g, r.err)
			return false
		}
		t.Class(r.out.ReturnCode.String())
		if !each(g, r, full, clean) {
			return false
		}
	}
	t.Outcome(full.effect)
	return true
}

// effectOf renders what a transaction did, without gas.
func effectOf(out *vmcommon.VMOutput, w *world.World) string {
	if out == nil {
		return "nil"
	}
	var sb strings.Builder
	if out.ReturnCode == vmcommon.Ok {
		fmt.Fprintf(&sb, "ok %x\n", out.ReturnData)
		for _, l := range out.Logs {
			fmt.Fprintf(&sb, "log %x %x %x %x\n", l.Identifier, l.Address, l.Topics, l.Data)
		}
	}
	sb.WriteString(w.Canon())
	return sb.String()
}

func sweepOptions() []option {
	return pick(allOptions(false), func(o option) bool { return o.end == script.OK || o.end == script.Signal })
}

func runC01(c *core.Ctx) {
	completeTrees(c)
	opts := sweepOptions()
	one := func(desc string, mk func() *script.Node, step uint64) {
		for _, cfg := range []struct {
			name string
			opt  vmx.Opt
		}{{"all features on", vmx.Opt{}}, {"no ahead-of-time compilation", vmx.Opt{AOT: 100}}, {"gas always locked", vmx.Opt{DynLock: 100}}} {
			if cfg.name != "all features on" && !c.Thorough && !strings.Contains(desc, "nothing more") {
				continue
			}
			cfg := cfg
			c.Case(func() string { return desc + ", with every amount of gas; " + cfg.name }, func(t *core.T) {
				cfg.opt.Gas = sweepGas()
				good := false
				seen := map[string]bool{}
				sweep(t, mk, cfg.opt, step, func(g uint64, r, full sweepResult, clean string) bool {
					in := vmcommon.VMInput{GasProvided: g}
					if e := gasBalance(&in, r.out); e != "" {
						t.Failf("%s with gas %d: %s", mk(), g, e)
						return false
					}
					if r.out.ReturnCode == vmcommon.Ok {
						if r.effect != full.effect && !seen[r.effect] {
							seen[r.effect] = true
							how, ok := r.explained()
							if !ok {
								t.Failf("%s with gas %d succeeds with effects which do not result from any frames having run out of gas; the nearest:\n%s", mk(), g, how)
								return false
							}
							t.State(how)
						}
						if r.effect != full.effect && full.out.ReturnCode == vmcommon.Ok && !handlesFailure(mk()) {
							t.Failf("%s with gas %d succeeds, but not with all of its effects:\n%s\nwith plenty of gas:\n%s", mk(), g, r.effect, full.effect)
							return false
						}
						if r.effect == full.effect {
							good = true
							if used, want := g-r.out.GasRemaining, uint64(1<<40)-full.out.GasRemaining; used != want && !asyncIn(mk()) {
								t.Failf("%s uses %d gas of %d, but %d of plenty", mk(), used, g, want)
								return false
							}
						}
					} else if good && full.out.ReturnCode == vmcommon.Ok {
						t.Failf("%s fails with gas %d (%s), but succeeds with less", mk(), g, r.out.ReturnMessage)
						return false
					}
					return true
				})
			})
		}
	}
	for _, o1 := range bareOptions() {
		o1 := o1
		one("A calls "+o1.String()+" and then B", func() *script.Node {
			calls := []script.Act{o1.small("b", 5)}
			if !isAsync(o1.kind) {
				calls = append(calls, option{kind: script.Dest, at: script.B}.small("c", 2))
			}
			return smallFrame(script.A, "a", script.OK, calls...)
		}, 1)
	}
	for _, o1 := range opts {
		o1 := o1
		one("A calls "+o1.String()+" and nothing more", func() *script.Node { return smallFrame(script.A, "a", script.OK, o1.small("b", 5)) }, 1)
		for _, o2 := range opts {
			if o2.end != script.OK || (!c.Thorough && (o2.cb == 2 || string(o2.at) == string(script.A))) {
				continue
			}
			o2 := o2
			step := uint64(7)
			if c.Thorough {
				step = 1
			}
			one("A calls "+o1.String()+", which calls "+o2.String(), func() *script.Node {
				return smallFrame(script.A, "a", script.OK, o1.small("b", 5, o2.small("c", 2)))
			}, step)
		}
	}
}

// completeTrees runs trees with plenty of gas where every function has another price: everything has to be executed, and the gas has to add up.
func completeTrees(c *core.Ctx) {
	g := vmx.DistinctGas()
	g["ElrondAPICost"]["GetBlockRandomSeed"] = 1 << 58
	g["ElrondAPICost"]["AsyncCallbackGasLock"] = 1 << 30
	opt := vmx.Opt{Gas: g}
	all := allOptions(false)
	tx := script.Tx{Value: 11}
	chains(c, all, all, []script.End{script.OK}, tx, opt)
	siblings(c, all, all, []script.End{script.OK}, tx, opt)
	chains(c, all, bareOptions(), []script.End{script.OK}, tx, opt)
	siblings(c, bareOptions(), pick(all, func(o option) bool { return o.end == script.OK }), []script.End{script.OK}, tx, opt)
}

func asyncIn(n *script.Node) bool {
	for _, a := range n.Acts {
		if a.Op != script.Call {
			continue
		}
		if isAsync(a.Kind) || (a.Child != nil && asyncIn(a.Child)) || (a.CB != nil && asyncIn(a.CB)) {
			return true
		}
	}
	return false
}

// handlesFailure: the tree has calls whose failure does not fail the caller.
func handlesFailure(n *script.Node) bool {
	for _, a := range n.Acts {
		if a.Op != script.Call {
			continue
		}
		if survives(option{kind: a.Kind}) || (a.Child != nil && handlesFailure(a.Child)) || (a.CB != nil && handlesFailure(a.CB)) {
			return true
		}
	}
	return false
}

// childSweep gives the called contract every amount of gas; the caller has plenty. The call must either have all of its effects or none.
func childSweep(t *core.T, mk func() script.Act, step uint64) {
	opt := vmx.Opt{Gas: sweepGas()}
	h, sw := vmx.MustSwap(world.New(), opt)
	tree := func(g uint64) *script.Node {
		a := mk()
		a.Gas = int64(g)
		return smallFrame(script.A, "a", script.OK, a)
	}
	run := func(g uint64) (string, bool) {
		p, err := script.Compile(tree(g))
		if err != nil {
			t.Count("not expressible: "+err.Error(), 1)
			return "", false
		}
		w := script.BaseWorld(p)
		sw.World = w
		in := p.Input(script.Tx{Value: 11})
		vmx.Debit(w, in.CallerAddr, in.CallValue)
		out, err := h.RunSmartContractCall(in)
		if e := vmx.Settle(w, 0, in.CallerAddr, in.CallValue, out, err); e != nil || err != nil {
			t.Failf("%s: errors %v %v", tree(g), err, e)
			return "", false
		}
		t.Exec(1)
		if out.ReturnCode != vmcommon.Ok {
			t.Failf("%s fails although only a nested call lacks gas: %v %s", tree(g), out.ReturnCode, out.ReturnMessage)
			return "", false
		}
		if e := gasBalance(&in.VMInput, out); e != "" {
			t.Failf("%s: %s", tree(g), e)
			return "", false
		}
		w.Accounts[string(script.A)].Code = nil
		return effectOf(out, w), true
	}
	none, ok := run(1)
	if !ok {
		return
	}
	full, ok := run(1 << 30)
	if !ok {
		return
	}
	t.Outcome(full)
	t.Outcome(none)
	worked := uint64(0)
	for g := uint64(1); g <= 1<<13 && (worked == 0 || g < worked+60); g += step {
		e, ok := run(g)
		if !ok {
			return
		}
		switch {
		case e == full:
			if worked == 0 {
				worked = g
			}
			t.Class("nested call has all effects")
		case e != none:
			t.Failf("%s: the nested call ran out of gas and has some of its effects:\n%s\nwithout gas:\n%s\nwith plenty:\n%s", tree(g), e, none, full)
			return
		case worked != 0:
			t.Failf("%s: the nested call has no effects with %d gas, but with %d", tree(g), g, worked)
			return
		default:
			t.Class("nested call has no effects")
		}
	}
}
