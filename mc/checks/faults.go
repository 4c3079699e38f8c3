package checks

// extern unsigned long long vwasm_live_instances(void);
import "C"

import (
	"errors"
	"fmt"
	"math/big"
	"strings"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/world"
)

func init() {
	core.Register(&core.Check{ID: "C09", Level: "model_checking", Rule: "Every tree of one and of two nested calls (14 kinds x callee x end x callback) in a transaction, an upgrade and a deployment is run once per call which the VM makes to the blockchain, " +
		"with that call failing: returning an error, panicking with an error, panicking with another value (all fault points, three kinds of fault, cached compiled code or not). After each, on the same VM, the output is checked, the instances left in the engine are counted and the transaction is run without fault " +
		"and compared with its run on a new VM. Contracts which call themselves in every way are nested to every depth up to three above the limit of instances, followed by the same comparison.",
		Assumptions: []string{"warm instances are off", "the panics injected are those of the blockchain hook, at every call which it gets"}, Run: runC09})
}

func liveInstances() int64 { return int64(C.vwasm_live_instances()) }

var errFault = errors.New("injected fault")

// faults is a hook which fails at its at-th call.
type faults struct {
	*world.World
	n, at int
	mode  int
	fired string
}

const (
	faultError = iota
	faultPanicError
	faultPanicString
	faultModes
)

var faultNames = []string{"returning an error", "panicking with an error", "panicking with a text"}

// hit counts a call; it returns an error or panics when it is the one to fail. withErr: the call can return an error.
func (f *faults) hit(name string, withErr bool) error {
	f.n++
	if f.n != f.at {
		return nil
	}
	switch f.mode {
	case faultError:
		if !withErr {
			return nil
		}
		f.fired = name
		return errFault
	case faultPanicError:
		f.fired = name
		panic(errFault)
	}
	f.fired = name
	panic("a panic of " + name)
}

func (f *faults) NewAddress(creator []byte, nonce uint64, vmType []byte) ([]byte, error) {
	if err := f.hit("NewAddress", true); err != nil {
		return nil, err
	}
	return f.World.NewAddress(creator, nonce, vmType)
}
func (f *faults) GetStorageData(addr []byte, key []byte) ([]byte, error) {
	if err := f.hit("GetStorageData", true); err != nil {
		return nil, err
	}
	return f.World.GetStorageData(addr, key)
}
func (f *faults) GetBlockhash(nonce uint64) ([]byte, error) {
	if err := f.hit("GetBlockhash", true); err != nil {
		return nil, err
	}
	return f.World.GetBlockhash(nonce)
}
func (f *faults) ProcessBuiltInFunction(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	if err := f.hit("ProcessBuiltInFunction", true); err != nil {
		return nil, err
	}
	return f.World.ProcessBuiltInFunction(in)
}
func (f *faults) GetBuiltinFunctionNames() vmcommon.FunctionNames {
	_ = f.hit("GetBuiltinFunctionNames", false)
	return f.World.GetBuiltinFunctionNames()
}
func (f *faults) GetUserAccount(addr []byte) (vmcommon.UserAccountHandler, error) {
	if err := f.hit("GetUserAccount", true); err != nil {
		return nil, err
	}
	return f.World.GetUserAccount(addr)
}
func (f *faults) GetCode(acc vmcommon.UserAccountHandler) []byte {
	_ = f.hit("GetCode", false)
	return f.World.GetCode(acc)
}
func (f *faults) GetShardOfAddress(addr []byte) uint32 {
	_ = f.hit("GetShardOfAddress", false)
	return f.World.GetShardOfAddress(addr)
}
func (f *faults) IsSmartContract(addr []byte) bool {
	_ = f.hit("IsSmartContract", false)
	return f.World.IsSmartContract(addr)
}
func (f *faults) IsPayable(addr []byte) (bool, error) {
	if err := f.hit("IsPayable", true); err != nil {
		return false, err
	}
	return f.World.IsPayable(addr)
}
func (f *faults) SaveCompiledCode(hash []byte, code []byte) {
	_ = f.hit("SaveCompiledCode", false)
	f.World.SaveCompiledCode(hash, code)
}
func (f *faults) GetCompiledCode(hash []byte) (bool, []byte) {
	_ = f.hit("GetCompiledCode", false)
	return f.World.GetCompiledCode(hash)
}
func (f *faults) GetESDTToken(addr []byte, tokenID []byte, nonce uint64) (*esdt.ESDigitalToken, error) {
	if err := f.hit("GetESDTToken", true); err != nil {
		return nil, err
	}
	return f.World.GetESDTToken(addr, tokenID, nonce)
}
func (f *faults) CurrentEpoch() uint32 {
	_ = f.hit("CurrentEpoch", false)
	return f.World.CurrentEpoch()
}
func (f *faults) CurrentNonce() uint64 {
	_ = f.hit("CurrentNonce", false)
	return f.World.CurrentNonce()
}
func (f *faults) GetSnapshot() int {
	_ = f.hit("GetSnapshot", false)
	return f.World.GetSnapshot()
}
func (f *faults) RevertToSnapshot(n int) error {
	if err := f.hit("RevertToSnapshot", true); err != nil {
		return err
	}
	return f.World.RevertToSnapshot(n)
}

// faultTx is a transaction: a call, or a deployment.
type faultTx struct {
	call   *vmcommon.ContractCallInput
	create *vmcommon.ContractCreateInput
}

func (x faultTx) run(h arwen.VMHost, w *world.World) (out *vmcommon.VMOutput, err, applyErr error, escaped interface{}) {
	defer func() { escaped = recover() }()
	if x.create != nil {
		in := *x.create
		out, err, applyErr = vmx.RunCreate(h, w, &in)
		return
	}
	in := *x.call
	out, err, applyErr = vmx.Run(h, w, &in)
	return
}

func (x faultTx) vmInput() *vmcommon.VMInput {
	if x.create != nil {
		return &x.create.VMInput
	}
	return &x.call.VMInput
}

func faultHost(w *world.World, o vmx.Opt) (arwen.VMHost, *faults) {
	f := &faults{World: w}
	h, err := host.NewArwenVM(f, vmx.Params(w, o))
	if err != nil {
		panic(err)
	}
	return h, f
}

// eachFault runs the transaction on one host with each fault in turn, and after each without.
func eachFault(t *core.T, h arwen.VMHost, f *faults, base *world.World, o vmx.Opt, x faultTx) bool {
	// the transaction on a new host, without faults
	fresh := func() (string, string, int) {
		w := base.Clone()
		fh, ff := faultHost(w, o)
		ff.n = 0
		out, err, applyErr, escaped := x.run(fh, w)
		if applyErr != nil || escaped != nil {
			return fmt.Sprintf("%v %v", applyErr, escaped), "", 0
		}
		return vmx.Canon(out, err), w.Canon(), ff.n
	}
	before := liveInstances()
	wantOut, wantWorld, calls := fresh()
	if n := liveInstances(); n != before {
		t.Failf("%d instances are left in the engine by the transaction without faults:\n%s", n-before, wantOut)
		return false
	}
	if calls == 0 {
		t.Failf("harness: the transaction without faults: %s", wantOut)
		return false
	}
	for at := 1; at <= calls; at++ {
		for mode := 0; mode < faultModes; mode++ {
			w := base.Clone()
			f.World, f.n, f.at, f.mode, f.fired = w, 0, at, mode, ""
			out, err, applyErr, escaped := x.run(h, w)
			if f.fired == "" {
				continue
			}
			where := fmt.Sprintf("call %d of %d to the blockchain (%s) %s", at, calls, f.fired, faultNames[mode])
			if escaped != nil {
				t.Failf("%s: the panic left the VM: %v", where, escaped)
				return false
			}
			t.Exec(1)
			t.Trans(f.n)
			if n := liveInstances(); n != before {
				t.Failf("%s: %d instances are left in the engine", where, n-before)
				return false
			}
			switch {
			case err != nil:
				t.Outcome("error")
				if out != nil {
					t.Failf("%s: both an output and the error %v", where, err)
					return false
				}
			case out == nil:
				t.Failf("%s: neither an output nor an error", where)
				return false
			default:
				t.Outcome(fmt.Sprintf("%s %v", strings.Fields(faultNames[mode])[0], out.ReturnCode))
				if mode != faultError {
					// nothing which the VM does may catch the panic half way and go on
					t.Failf("%s: the transaction went on: %s", where, vmx.Canon(out, err))
					return false
				}
				if out.ReturnCode != vmcommon.Ok {
					if l := script.Leftover(out); l != "" {
						t.Failf("%s: %s", where, l)
						return false
					}
				} else {
					if applyErr != nil {
						t.Failf("%s: the output cannot be applied: %v", where, applyErr)
						return false
					}
					sum := new(big.Int)
					for _, a := range out.OutputAccounts {
						if a.BalanceDelta != nil {
							sum.Add(sum, a.BalanceDelta)
						}
					}
					if sum.Cmp(x.vmInput().CallValue) != 0 {
						t.Failf("%s: the balance changes add up to %v, the transaction brings %v:\n%s", where, sum, x.vmInput().CallValue, vmx.Canon(out, err))
						return false
					}
				}
				if g := gasBalance(x.vmInput(), out); g != "" {
					t.Failf("%s: %s", where, g)
					return false
				}
			}
			// the same VM, without fault
			w = base.Clone()
			f.World, f.n, f.at, f.fired = w, 0, 0, ""
			out, err, _, escaped = x.run(h, w)
			if escaped != nil {
				t.Failf("after %s, the same transaction without fault panics: %v", where, escaped)
				return false
			}
			got := vmx.Canon(out, err)
			if got != wantOut {
				t.Failf("after %s, the same transaction without fault differs from its run on a new VM:\n%s", where, script.Diff(wantOut, got))
				return false
			}
			if got := w.Canon(); got != wantWorld {
				t.Failf("after %s, the effects of the same transaction without fault differ from those on a new VM:\n%s", where, script.Diff(wantWorld, got))
				return false
			}
		}
	}
	return true
}

// treeFaults runs the tree with each fault.
func treeFaults(t *core.T, h *faultVM, root *script.Node, tx script.Tx) bool {
	p, err := script.Compile(root)
	if err != nil {
		t.Count("not expressible: "+err.Error(), 1)
		return true
	}
	base := script.BaseWorld(p)
	base.Compiled = map[string][]byte{}
	if h.host == nil {
		h.host, h.f = faultHost(base, h.opt)
	}
	if !eachFault(t, h.host, h.f, base, h.opt, faultTx{call: p.Input(tx)}) {
		t.Failf("transaction: %s value %d", root, tx.Value)
		return false
	}
	return true
}

type faultVM struct {
	host arwen.VMHost
	f    *faults
	opt  vmx.Opt
}

func runC09(c *core.Ctx) {
	opts := allOptions(false)
	inner := pick(opts, func(o option) bool {
		return o.end == script.OK && o.cb < 2 && (len(o.at) == 0 || o.at[10] == 'b')
	})
	if c.Thorough {
		inner = pick(opts, func(o option) bool { return o.end == script.OK || o.end == script.Signal })
	}
	outer := pick(opts, func(o option) bool { return c.Thorough || o.end == script.OK || o.end == script.Signal && o.cb != 1 })
	opt := vmx.Opt{Gas: script.Gas()}
	for _, o1 := range outer {
		o1 := o1
		c.Case(func() string { return fmt.Sprintf("faults: A calls: %s", o1) }, func(t *core.T) {
			h := &faultVM{opt: opt}
			for _, o := range []vmx.Opt{opt, {Gas: script.Gas(), AOT: 100}} {
				h.host, h.opt = nil, o
				for _, re := range []script.End{script.OK, script.Signal} {
					if !treeFaults(t, h, frameNode(script.A, "a", re, o1.call("b", 5)), script.Tx{Value: 7}) {
						return
					}
				}
			}
		})
		c.Case(func() string {
			return fmt.Sprintf("faults: A calls: %s, which calls: each of %d ways", o1, len(inner))
		}, func(t *core.T) {
			h := &faultVM{opt: opt}
			for _, o2 := range inner {
				if !treeFaults(t, h, frameNode(script.A, "a", script.OK, o1.call("b", 5, o2.call("c", 2))), script.Tx{Value: 7}) {
					return
				}
			}
		})
	}
	// deployments, of contracts which call in their constructors
	for _, k := range allKinds {
		k := k
		c.Case(func() string { return fmt.Sprintf("faults: a deployment of a contract whose constructor calls: %s", k) }, func(t *core.T) {
			h := &faultVM{opt: opt}
			for _, o := range pick(opts, func(o option) bool { return o.kind == k && o.cb < 2 }) {
				p, err := script.Compile(frameNode(script.A, "a", script.OK, option{kind: script.Create}.call("b", 5, o.call("c", 2))))
				if err != nil {
					t.Count("not expressible: "+err.Error(), 1)
					continue
				}
				base := script.BaseWorld(p)
				code := p.Root.Acts[5].Child.Code()
				if h.host == nil {
					h.host, h.f = faultHost(base, opt)
				}
				in := vmx.Create(script.User, code, []byte{5, 6}, 9, script.RootGas, []byte("x"))
				if !eachFault(t, h.host, h.f, base, opt, faultTx{create: in}) {
					t.Failf("the constructor: %s", p.Root.Acts[5].Child)
					return
				}
			}
		})
	}
	nesting(c)
}

// nesting: contracts which call themselves and each other.
func nesting(c *core.Ctx) {
	most := int(host.MaximumWasmerInstanceCount) + 3
	for _, k1 := range allKinds {
		for _, k2 := range allKinds {
			k1, k2 := k1, k2
			c.Case(func() string { return fmt.Sprintf("nesting: %s and %s in turn, to every depth up to %d", k1, k2, most) }, func(t *core.T) {
				r := newRunner(t, vmx.Opt{})
				r.soft = true
				r.noGas = true
				before := int64(-1)
				for d := 1; d <= most; d++ {
					var build func(i int) []script.Act
					build = func(i int) []script.Act {
						if i == d {
							return nil
						}
						o := option{kind: k1, at: script.B}
						if i%2 == 1 {
							o = option{kind: k2, at: script.A}
						}
						a := o.call(fmt.Sprintf("t%d", i), 1, build(i+1)...)
						a.Gas = 1 << uint(51-i)
						return []script.Act{a}
					}
					if !r.tree(frameNode(script.A, "a", script.OK, build(0)...), script.Tx{Value: 7}) {
						return
					}
					if before < 0 {
						before = liveInstances()
					}
					if n := liveInstances(); n != before {
						t.Failf("%d instances are left in the engine after nesting to depth %d", n-before, d)
						return
					}
					if !r.tree(frameNode(script.A, "a", script.OK, option{kind: script.Dest, at: script.B}.call("b", 5)), script.Tx{Value: 7}) {
						t.Failf("(after nesting to depth %d)", d)
						return
					}
				}
			})
		}
	}
}
