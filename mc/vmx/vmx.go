// Package vmx creates VM hosts over a world, runs transactions and renders their results.
package vmx

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	logger "github.com/ElrondNetwork/elrond-go-logger"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"golang.org/x/crypto/sha3"

	"vmc/world"
)

func init() { _ = logger.SetLogLevel("*:NONE") }

// VMType is the type of the VM in contract addresses.
var VMType = []byte{5, 0}

// Opt configures a host.
type Opt struct {
	Gas      config.GasScheduleMap
	V2, AOT  uint32
	DynLock  uint32
	V3, ESDT uint32
	Warm     bool
	BlockGas uint64
}

// FlatGas is a schedule in which everything costs 1 (the repository's own schedule for tests).
func FlatGas() config.GasScheduleMap { return config.MakeGasMapForTests() }

// DistinctGas is a schedule in which every named cost is different (between 2 and ~450), opcodes excluded (1).
func DistinctGas() config.GasScheduleMap {
	g := config.MakeGasMapForTests()
	var secs []string
	for s := range g {
		secs = append(secs, s)
	}
	sort.Strings(secs)
	n := uint64(2)
	for _, s := range secs {
		if s == "WASMOpcodeCost" {
			continue
		}
		var ks []string
		for k := range g[s] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if k == "AsyncCallbackGasLock" || k == "AsyncCallStep" {
				continue
			}
			g[s][k] = n
			n++
		}
	}
	return g
}

// NewHost creates a host over w.
func NewHost(w *world.World, o Opt) (arwen.VMHost, error) { return newHost(w, w, o) }

// MustSwap creates a host whose world can be exchanged; w is its first world.
func MustSwap(w *world.World, o Opt) (arwen.VMHost, *world.Swap) {
	s := &world.Swap{World: w}
	h, err := newHost(w, s, o)
	if err != nil {
		panic("cannot create the VM host: " + err.Error())
	}
	return h, s
}

func newHost(w *world.World, hook vmcommon.BlockchainHook, o Opt) (arwen.VMHost, error) {
	return host.NewArwenVM(hook, Params(w, o))
}

// Params is the parameters of a host.
func Params(w *world.World, o Opt) *arwen.VMHostParameters {
	if o.Gas == nil {
		o.Gas = FlatGas()
	}
	if o.BlockGas == 0 {
		o.BlockGas = 1 << 60
	}
	p := &arwen.VMHostParameters{
		VMType: VMType, BlockGasLimit: o.BlockGas, GasSchedule: o.Gas, ElrondProtectedKeyPrefix: []byte("ELROND"),
		ArwenV2EnableEpoch: o.V2, AheadOfTimeEnableEpoch: o.AOT, DynGasLockEnableEpoch: o.DynLock, ArwenV3EnableEpoch: o.V3,
		ArwenESDTFunctionsEnableEpoch: o.ESDT, UseWarmInstance: o.Warm,
	}
	if w.BuiltIn != nil {
		p.BuiltInFuncContainer = w.BuiltIn
	} else {
		p.BuiltInFuncContainer = emptyContainer{}
	}
	return p
}

// MustHost is NewHost for configurations which have to work.
func MustHost(w *world.World, o Opt) arwen.VMHost {
	h, err := NewHost(w, o)
	if err != nil {
		panic("cannot create the VM host: " + err.Error())
	}
	return h
}

type emptyContainer struct{}

func (emptyContainer) Get(key string) (vmcommon.BuiltinFunction, error) {
	return nil, fmt.Errorf("no function %s", key)
}
func (emptyContainer) Add(string, vmcommon.BuiltinFunction) error     { return nil }
func (emptyContainer) Replace(string, vmcommon.BuiltinFunction) error { return nil }
func (emptyContainer) Remove(string)                                  {}
func (emptyContainer) Len() int                                       { return 0 }
func (emptyContainer) Keys() map[string]struct{}                      { return map[string]struct{}{} }
func (emptyContainer) IsInterfaceNil() bool                           { return false }

// SC is a contract address, User a wallet address; the first character tells accounts apart.
func SC(name string) []byte {
	a := make([]byte, 32)
	copy(a[8:], VMType)
	copy(a[10:], name)
	a[31] = 1
	return a
}

// User is a wallet address.
func User(name string) []byte {
	a := make([]byte, 32)
	copy(a, name)
	for i := len(name); i < 31; i++ {
		a[i] = '_'
	}
	a[31] = 1
	return a
}

// FarSC is a contract address in another shard.
func FarSC(name string) []byte {
	a := SC(name)
	a[31] = 0xEE
	return a
}

// FarUser is a wallet address in another shard.
func FarUser(name string) []byte {
	a := User(name)
	a[31] = 0xEE
	return a
}

// Call builds a call.
func Call(from, to []byte, fn string, value int64, gas uint64, args ...[]byte) *vmcommon.ContractCallInput {
	return &vmcommon.ContractCallInput{
		VMInput: vmcommon.VMInput{
			CallerAddr: from, Arguments: args, CallValue: big.NewInt(value), CallType: vmcommon.DirectCall, GasPrice: 1, GasProvided: gas,
			OriginalTxHash: []byte("originaltxhash__________________"), CurrentTxHash: []byte("currenttxhash___________________"), PrevTxHash: []byte("prevtxhash______________________"),
		},
		RecipientAddr: to, Function: fn,
	}
}

// Create builds a deployment.
func Create(from []byte, code []byte, meta []byte, value int64, gas uint64, args ...[]byte) *vmcommon.ContractCreateInput {
	c := Call(from, nil, "", value, gas, args...)
	return &vmcommon.ContractCreateInput{VMInput: c.VMInput, ContractCode: code, ContractCodeMetadata: meta}
}

// Run executes a call on a world which is the host's: a successful transaction is applied, a failed one undone, as by the protocol.
// The balance of the caller is debited with the call value first (and refunded on failure).
func Run(h arwen.VMHost, w *world.World, in *vmcommon.ContractCallInput) (out *vmcommon.VMOutput, err error, applyErr error) {
	snap := w.GetSnapshot()
	Debit(w, in.CallerAddr, in.CallValue)
	out, err = h.RunSmartContractCall(in)
	applyErr = Settle(w, snap, in.CallerAddr, in.CallValue, out, err)
	return
}

// RunCreate is Run for deployments.
func RunCreate(h arwen.VMHost, w *world.World, in *vmcommon.ContractCreateInput) (out *vmcommon.VMOutput, err error, applyErr error) {
	snap := w.GetSnapshot()
	if a := w.Accounts[string(in.CallerAddr)]; a != nil {
		a.Nonce++ // the protocol increases the nonce of the sender before the VM runs
	}
	Debit(w, in.CallerAddr, in.CallValue)
	out, err = h.RunSmartContractCreate(in)
	applyErr = Settle(w, snap, in.CallerAddr, in.CallValue, out, err)
	return
}

// Debit takes the call value from the caller, as the protocol does before the VM runs.
func Debit(w *world.World, caller []byte, value *big.Int) {
	if a := w.Accounts[string(caller)]; a != nil {
		a.Balance.Sub(a.Balance, value)
	}
}

// Settle applies or undoes.
func Settle(w *world.World, snap int, caller []byte, value *big.Int, out *vmcommon.VMOutput, err error) error {
	if err != nil || out == nil || out.ReturnCode != vmcommon.Ok {
		if e := w.RevertToSnapshot(snap); e != nil {
			return e
		}
		w.Commit()
		if a := w.Accounts[string(caller)]; a != nil {
			a.Balance.Add(a.Balance, value)
		}
		return nil
	}
	e := w.Apply(out)
	w.Commit()
	return e
}

// Canon renders an output deterministically. Accounts without any content are left out.
func Canon(out *vmcommon.VMOutput, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	if out == nil {
		return "nil"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "rc=%v msg=%q gas=%d refund=%v ret=%x\n", out.ReturnCode, out.ReturnMessage, out.GasRemaining, out.GasRefund, out.ReturnData)
	for _, d := range out.DeletedAccounts {
		fmt.Fprintf(&sb, "deleted %x\n", d)
	}
	for _, l := range out.Logs {
		fmt.Fprintf(&sb, "log %x %x %x %x\n", l.Identifier, l.Address, l.Topics, l.Data)
	}
	keys := make([]string, 0, len(out.OutputAccounts))
	for k := range out.OutputAccounts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		a := out.OutputAccounts[k]
		delta := a.BalanceDelta
		if delta == nil {
			delta = big.NewInt(0)
		}
		fmt.Fprintf(&sb, "acc %x addr=%x nonce=%d delta=%v gas=%d", k, a.Address, a.Nonce, delta, a.GasUsed)
		if len(a.Code) > 0 {
			h := sha3.Sum224(a.Code)
			fmt.Fprintf(&sb, " code=%x meta=%x deployer=%x", h[:4], a.CodeMetadata, a.CodeDeployerAddress)
		}
		sks := make([]string, 0, len(a.StorageUpdates))
		for s := range a.StorageUpdates {
			sks = append(sks, s)
		}
		sort.Strings(sks)
		for _, s := range sks {
			fmt.Fprintf(&sb, " %x:=%x", s, a.StorageUpdates[s].Data)
		}
		for _, t := range a.OutputTransfers {
			fmt.Fprintf(&sb, " transfer(v=%v gas=%d locked=%d data=%q type=%d from=%x)", t.Value, t.GasLimit, t.GasLocked, t.Data, t.CallType, t.SenderAddress)
		}
		sb.WriteString("\n")
	}
	return sb.String()
}
