package script

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

// TOK is the fungible token of the world.
const TOK = "TOK-123456"

var tokens = []string{TOK + "/0"}

// Unit is the worth of one: amounts of value and of tokens are multiples of it.
var Unit = big.NewInt(1)
var one = big.NewInt(1)

// Amount is v units.
func Amount(v int64) *big.Int { return new(big.Int).Mul(big.NewInt(v), Unit) }

// units is the inverse of Amount; amounts which are no multiples become strange numbers.
func units(b *big.Int) int64 {
	q, r := new(big.Int).QuoRem(b, Unit, new(big.Int))
	if r.Sign() != 0 || !q.IsInt64() {
		return -123456789
	}
	return q.Int64()
}

// RootGas is the gas of the transaction.
const RootGas = uint64(1) << 52

// Gas is the schedule of the runs: flat, except for the function which exhausts the gas and for the gas lock of callbacks.
func Gas() config.GasScheduleMap {
	g := vmx.FlatGas()
	g["ElrondAPICost"]["GetBlockRandomSeed"] = 1 << 58
	g["ElrondAPICost"]["AsyncCallbackGasLock"] = 1 << 30
	return g
}

// BuiltInGas are the costs of the built-in functions.
func BuiltInGas() map[string]map[string]uint64 {
	g := config.MakeGasMapForTests()
	return g
}

var emptyCode = wb.New().Bytes()

// BaseWorld is the world in which a program runs.
func BaseWorld(p *Program) *world.World {
	w := world.New()
	w.Add(Owner, 0)
	u := w.Add(User, 1000)
	u.SetESDT(TOK, 100)
	w.Add(Poor, 0)
	add := func(addr []byte, bal int64, owner []byte, meta []byte) *world.Account {
		code := p.Codes[string(addr)]
		if code == nil {
			code = emptyCode
			if p.funcs[string(code)] == nil {
				p.funcs[string(code)] = map[string]*Node{}
			}
		}
		a := w.AddContract(addr, bal, code, owner)
		a.Meta = meta
		return a
	}
	a := add(A, 500, Owner, []byte{5, 6})
	a.SetESDT(TOK, 50)
	a.Nonce = 3
	a.Storage["k"] = []byte("olda")
	b := add(B, 300, Owner, []byte{5, 6})
	b.SetESDT(TOK, 20)
	b.Storage["k"] = []byte("oldb")
	c := add(C, 0, Owner, []byte{4, 0})
	c.Storage["k"] = []byte("oldc")
	d := add(D, 100, A, []byte{5, 6})
	d.Storage["k"] = []byte("oldd")
	add(Src, 0, Owner, []byte{5, 6})
	if err := w.EnableBuiltIns(BuiltInGas()); err != nil {
		panic(err)
	}
	if Unit.Cmp(one) != 0 {
		for _, a := range w.Accounts {
			a.Balance.Mul(a.Balance, Unit)
			if v := w.ESDT(a.Addr, TOK, 0); v.Sign() != 0 {
				a.SetBigESDT(TOK, v.Mul(v, Unit))
			}
		}
	}
	return w
}

// Tx is the transaction which runs a program.
type Tx struct {
	Value int64
	Type  vmcommon.CallType
	ESDT  int64
	Args  [][]byte
	From  []byte
	Gas   uint64
	// Locked is how much of the gas was locked for a callback before.
	Locked uint64
	Func   string
}

// Input builds the call of the root function.
func (p *Program) Input(tx Tx) *vmcommon.ContractCallInput {
	from := tx.From
	if from == nil {
		from = User
	}
	gas := tx.Gas
	if gas == 0 {
		gas = RootGas
	}
	fn := tx.Func
	if fn == "" {
		fn = p.Root.Name
	}
	in := vmx.Call(from, p.Root.At, fn, tx.Value, gas, tx.Args...)
	in.CallValue = Amount(tx.Value)
	in.CallType = tx.Type
	in.GasProvided -= tx.Locked
	in.GasLocked = tx.Locked
	if tx.ESDT != 0 {
		in.ESDTTransfers = []*vmcommon.ESDTTransfer{{ESDTTokenName: []byte(TOK), ESDTValue: Amount(tx.ESDT)}}
	}
	return in
}

// Predict runs the model on a copy of what the world holds.
func Predict(p *Program, w *world.World, in *vmcommon.ContractCallInput, v3, staticLock bool) Outcome {
	m := &Model{p: p, w: w, st: load(w, tokens), V3: v3, StaticLock: staticLock, txHash: string(in.CurrentTxHash)}
	return m.run(in)
}

// Observe turns the output of the VM and the world after the transaction into the form of the model. Transfers take over
// from the expectation whether their gas is compared.
func Observe(w *world.World, out *vmcommon.VMOutput, err error, want Outcome) (Outcome, error) {
	if err != nil {
		return Outcome{}, fmt.Errorf("the VM returned the error %q", err)
	}
	st := load(w, tokens)
	o := Outcome{RC: out.ReturnCode, Msg: out.ReturnMessage, St: st}
	for _, r := range out.ReturnData {
		st.ret = append(st.ret, string(r))
	}
	for _, l := range out.Logs {
		e := logEntry{id: string(l.Identifier), addr: string(l.Address), data: string(l.Data)}
		for _, t := range l.Topics {
			e.topics = append(e.topics, string(t))
		}
		st.logs = append(st.logs, e)
	}
	for k, a := range out.OutputAccounts {
		for i, t := range a.OutputTransfers {
			x := xfer{from: t.SenderAddress, value: units(t.Value), data: string(t.Data), typ: t.CallType}
			if w := want.St.xfers[k]; i < len(w) && w[i].gasKnown {
				x.gasKnown, x.gas = true, t.GasLimit
			}
			st.xfers[k] = append(st.xfers[k], x)
		}
	}
	return o, nil
}

// Diff explains the difference between two renderings.
func Diff(want, got string) string {
	if want == got {
		return ""
	}
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	in := func(x string, l []string) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	var sb strings.Builder
	for _, x := range a {
		if !in(x, b) {
			fmt.Fprintf(&sb, "  expected %s\n", x)
		}
	}
	for _, x := range b {
		if !in(x, a) {
			fmt.Fprintf(&sb, "  observed %s\n", x)
		}
	}
	if sb.Len() == 0 {
		fmt.Fprintf(&sb, "  expected (order) %q\n  observed %q\n", want, got)
	}
	return sb.String()
}

// Run executes the transaction on the host's world and compares with the model; it returns the outputs and the difference.
func Run(h arwen.VMHost, w *world.World, p *Program, in *vmcommon.ContractCallInput, v3, staticLock bool) (*vmcommon.VMOutput, Outcome, string) {
	want := Predict(p, w, in, v3, staticLock)
	before := ""
	if want.RC != vmcommon.Ok {
		before = w.Canon()
	}
	out, err, applyErr := vmx.Run(h, w, in)
	if applyErr != nil {
		return out, want, "  the output cannot be applied: " + applyErr.Error()
	}
	got, oerr := Observe(w, out, err, want)
	if oerr != nil {
		return out, want, "  " + oerr.Error()
	}
	d := Diff(want.Render(), got.Render())
	if d == "" && out.ReturnCode != vmcommon.Ok {
		d = Leftover(out)
	}
	if d == "" && want.RC != vmcommon.Ok && w.Canon() != before {
		d = "  the failed transaction left effects in the world"
	}
	return out, want, d
}

// Leftover says what the output of a failed execution carries apart from the failure.
func Leftover(out *vmcommon.VMOutput) string {
	d := ""
	if len(out.OutputAccounts) > 0 {
		d += fmt.Sprintf("  the output of the failed execution has %d accounts\n", len(out.OutputAccounts))
	}
	if len(out.DeletedAccounts)+len(out.TouchedAccounts) > 0 {
		d += "  the output of the failed execution deletes or touches accounts\n"
	}
	if len(out.Logs) > 0 {
		d += fmt.Sprintf("  the output of the failed execution has %d logs\n", len(out.Logs))
	}
	if len(out.ReturnData) > 0 {
		d += fmt.Sprintf("  the output of the failed execution has return data %x\n", out.ReturnData)
	}
	if out.GasRemaining != 0 {
		d += fmt.Sprintf("  the output of the failed execution has %d gas left\n", out.GasRemaining)
	}
	if out.GasRefund != nil && out.GasRefund.Sign() != 0 {
		d += fmt.Sprintf("  the output of the failed execution refunds %v gas\n", out.GasRefund)
	}
	return d
}
