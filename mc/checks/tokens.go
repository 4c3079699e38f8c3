package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
	"github.com/ElrondNetwork/elrond-vm-common/parsers"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

func init() {
	core.Register(&core.Check{ID: "C18", Level: "model_checking", Rule: "Every way to send a token (transfer with execution, built-in function called synchronously or asynchronously), kind of token (fungible, semi-fungible, unique, with nonces of 1 to 8 bytes), " +
		"amount (none, one, some, all, too many), receiver (contracts which accept payments or not, the sender, users, new accounts, contracts and users of the other shard), function (none, one which succeeds, fails, does not exist) and arguments are combined, " +
		"once or twice in a transaction, directly and in a call which is undone. The transfers which leave the shard are executed there with the same built-in functions, and the tokens of both shards are counted.", Assumptions: treeAssumptions, Run: runC18})
}

// tokenSend is one transfer of a token by the contract A.
type tokenSend struct {
	way    script.Kind // ESDTExec, Dest or Async
	nonce  uint64
	amount int64
	to     []byte
	fn     string
	args   []string
}

const (
	tokenHeld = 10
	tokenGas  = 1 << 40
)

func tokenName(nonce uint64) string {
	if nonce == 0 {
		return script.TOK
	}
	return "NFT-12"
}

func (s tokenSend) String() string {
	return fmt.Sprintf("%s of %d of %s nonce %d to %s calling %q with %q", s.way, s.amount, tokenName(s.nonce), s.nonce, script.Nick(s.to), s.fn, s.args)
}

// act is the call which A makes.
func (s tokenSend) act() script.Act {
	if s.way == script.ESDTExec {
		return script.Act{Op: script.Call, Kind: s.way, To: s.to, Token: tokenName(s.nonce), TokNonce: int64(s.nonce), Value: s.amount, Func: s.fn, Args: s.args}
	}
	num := func(v int64) string { return string(big.NewInt(v).Bytes()) }
	a := script.Act{Op: script.Call, Kind: s.way, To: s.to, Func: "ESDTTransfer", Args: []string{tokenName(s.nonce), num(s.amount)}}
	if s.nonce > 0 {
		a.To, a.Func = script.A, "ESDTNFTTransfer"
		a.Args = []string{tokenName(s.nonce), string(new(big.Int).SetUint64(s.nonce).Bytes()), num(s.amount), string(s.to)}
	}
	if s.fn != "" {
		a.Args = append(append(a.Args, s.fn), s.args...)
	}
	return a
}

// tokenReceiver reports the payment it sees.
func tokenReceiver() []byte {
	m := wb.New()
	report := func(f *wb.F) {
		f.Finish([]byte("got"))
		f.Do("getCaller", wb.I(2000))
		f.Do("finish", wb.I(2000), wb.I(32))
		h := f.Local("i")
		f.Set(h, wb.Call("bigIntNew", wb.L(0)))
		f.Do("bigIntGetCallValue", wb.Get(h))
		f.Do("bigIntFinishUnsigned", wb.Get(h))
		f.Do("finish", wb.I(256), wb.Call("getESDTTokenName", wb.I(256)))
		f.Do("bigIntGetESDTCallValue", wb.Get(h))
		f.Do("bigIntFinishUnsigned", wb.Get(h))
		f.FinishI64(wb.Call("getESDTTokenNonce"))
		f.FinishI32(wb.Call("getESDTTokenType"))
		f.FinishI32(wb.Call("getNumArguments"))
		for i := int32(0); i < 2; i++ {
			f.If(wb.Op2(0x4a, wb.Call("getNumArguments"), wb.I(i)), func() { // i32.gt_s
				f.Do("finish", wb.I(3000), wb.Call("getArgument", wb.I(i), wb.I(3000)))
			}, nil)
		}
	}
	m.Fn("f", report)
	m.Fn("fail", func(f *wb.F) { report(f); f.Do("signalError", wb.S("no"), wb.I(2)) })
	return m.Bytes()
}

func (s tokenSend) seen() [][]byte {
	le := func(n int, v uint64) []byte {
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, v)
		return b[:n]
	}
	typ := uint64(vmcommon.Fungible)
	if s.nonce > 0 {
		typ = uint64(vmcommon.NonFungible)
	}
	out := [][]byte{[]byte("got"), script.A, {}, []byte(tokenName(s.nonce)), big.NewInt(s.amount).Bytes(), le(8, s.nonce), le(4, typ), le(4, uint64(len(s.args)))}
	for _, a := range s.args {
		out = append(out, []byte(a))
	}
	return out
}

type tokenKey struct {
	addr  string
	nonce uint64
}

var (
	tokenNonces  = []uint64{0, 7, 300, 1<<40 + 1, 1<<63 + 5}
	tokenNew     = vmx.User("newuser")
	tokenFarUser = vmx.FarUser("faruser")
	tokenTops    = []string{"once", "undone", "kept"}
)

func tokenMeta(n uint64) *esdt.MetaData {
	return &esdt.MetaData{Nonce: n, Name: []byte("nm"), Creator: script.C, Hash: []byte("h"), URIs: [][]byte{[]byte("uri")}, Attributes: []byte("at")}
}

// tokenMetaOK tells whether every token has its metadata.
func tokenMetaOK(w *world.World) bool {
	for k := range tokenCount(w) {
		if k.nonce > 0 {
			tok, err := w.GetESDTToken([]byte(k.addr), []byte(tokenName(k.nonce)), k.nonce)
			if err != nil || !tokenMeta(k.nonce).Equal(tok.TokenMetaData) {
				return false
			}
		}
	}
	return true
}

// tokenWorld is the world of the sender's shard.
func tokenWorld(p *script.Program, code []byte, mid []byte) *world.World {
	w := script.BaseWorld(p)
	for _, n := range tokenNonces {
		if n == 0 {
			w.Accounts[string(script.A)].SetESDT(script.TOK, tokenHeld)
			continue
		}
		w.Accounts[string(script.A)].SetNFT(tokenName(n), n, tokenHeld, tokenMeta(n))
	}
	for _, a := range [][]byte{script.A, script.B, script.C, script.D} {
		w.Accounts[string(a)].Code = tokenReceiver()
	}
	w.Accounts[string(script.A)].Code = code
	w.Accounts[string(script.D)].Code = mid
	return w
}

// tokenFar tells the addresses of the other shard.
func tokenFar(a []byte) bool { return a[len(a)-1] == 0xEE }

func tokenFarWorld() *world.World {
	w := world.New()
	w.Shard = 1
	if err := w.EnableBuiltIns(script.BuiltInGas()); err != nil {
		panic(err)
	}
	w.AddContract(script.FarS, 0, tokenReceiver(), script.Owner).Meta = []byte{5, 6}
	return w
}

func tokenCount(w *world.World) map[tokenKey]int64 {
	out := map[tokenKey]int64{}
	for a := range w.Accounts {
		for _, n := range tokenNonces {
			if v := w.ESDT([]byte(a), tokenName(n), n); v.Sign() != 0 {
				out[tokenKey{a, n}] = v.Int64()
			}
		}
	}
	return out
}

// verdict is what is known of a transfer: whether it must succeed, or fail.
func (s tokenSend) verdict(held int64) (must, mustNot bool) {
	if s.amount > held {
		return false, true
	}
	here := bytes.Equal(s.to, script.B)
	switch {
	case here && (s.fn == "fail" || s.fn == "none"):
		return false, true
	case s.amount == 0, tokenFar(s.to) && s.way == script.Dest: // nothing of the other shard can be called synchronously
		return false, false
	case here && s.fn == "f", bytes.Equal(s.to, script.User) && s.fn == "", bytes.Equal(s.to, script.FarS) && s.fn != "", bytes.Equal(s.to, tokenFarUser) && s.fn == "":
		return true, false
	}
	return false, false
}

func runC18(c *core.Ctx) {
	p, err := script.Compile(&script.Node{At: script.A})
	if err != nil {
		panic(err)
	}
	gas := script.Gas()
	gas["ElrondAPICost"]["AsyncCallbackGasLock"] = 100000
	receivers := [][]byte{script.B, script.C, script.A, script.User, tokenNew, script.FarS, tokenFarUser}
	for _, way := range []script.Kind{script.ESDTExec, script.Dest, script.Async} {
		for _, nonce := range tokenNonces {
			for _, to := range receivers {
				way, nonce, to := way, nonce, to
				c.Case(func() string { return fmt.Sprintf("%s of token %d to %s", way, nonce, script.Nick(to)) }, func(t *core.T) {
					for _, amount := range []int64{0, 1, 3, tokenHeld, tokenHeld + 1} {
						for _, fn := range []string{"", "f", "fail", "none"} {
							for _, args := range [][]string{nil, {"x"}, {"", "yz"}} {
								s := tokenSend{way, nonce, amount, to, fn, args}
								if fn == "" && args != nil && way != script.ESDTExec {
									continue
								}
								for _, times := range []int{1, 2} {
									if times == 2 && way == script.Async {
										continue
									}
									for _, top := range tokenTops {
										if !tokenTx(t, p, s, times, top, gas) {
											return
										}
									}
								}
							}
						}
					}
				})
			}
		}
	}
}

// tokenTx executes a transaction with the transfer made a number of times, and judges it.
func tokenTx(t *core.T, p *script.Program, s tokenSend, times int, top string, gas map[string]map[string]uint64) bool {
	m := wb.New()
	m.Fn("go", func(f *wb.F) {
		for i := 0; i < times; i++ {
			script.EmitCall(f, s.act(), 1000000)
			f.Finish([]byte("done"))
		}
	})
	m.Fn("callBack", func(f *wb.F) {
		f.Finish([]byte("cb"))
		f.FinishI64(wb.Call("int64getArgument", wb.I(0)))
	})
	m.Fn("f", func(f *wb.F) {})
	mid := wb.New()
	for _, n := range []string{"undone", "kept"} {
		n := n
		mid.Fn(n, func(f *wb.F) {
			script.EmitCall(f, script.Act{Op: script.Call, Kind: script.Dest, To: script.A, Func: "go"}, 100000000)
			if n == "undone" {
				f.Do("signalError", wb.S("no"), wb.I(2))
			}
		})
	}
	w := tokenWorld(p, m.Bytes(), mid.Bytes())
	before := tokenCount(w)
	h, _ := vmx.MustSwap(w, vmx.Opt{Gas: gas})
	var in *vmcommon.ContractCallInput
	if top == "once" {
		in = vmx.Call(script.User, script.A, "go", 0, tokenGas)
	} else {
		m := wb.New() // calls the one in between, and goes on whatever happens
		m.Fn("go", func(f *wb.F) {
			script.EmitCall(f, script.Act{Op: script.Call, Kind: script.TVE, To: script.D, Func: top}, 1000000000)
		})
		w.Accounts[string(script.Src)].Code = m.Bytes()
		in = vmx.Call(script.User, script.Src, "go", 0, tokenGas)
	}
	out, err, applyErr := vmx.Run(h, w, in)
	t.Exec(1)
	t.Trans(times)
	text := func() string { return fmt.Sprintf("%s, %d times, %s:\n%s", s, times, top, vmx.Canon(out, err)) }
	if err != nil || applyErr != nil {
		t.Failf("%s\n%v", text(), applyErr)
		return false
	}
	// what succeeded, as the contract saw it
	good := 0
	var results [][]byte
	if out.ReturnCode == vmcommon.Ok {
		results = out.ReturnData
	}
	for i, d := range results {
		switch {
		case string(d) == "cb" && s.way == script.Async && i+1 < len(results):
			if bytes.Equal(results[i+1], make([]byte, 8)) {
				good++
			}
		case string(d) == "done" && s.way == script.Dest:
			good++
		case string(d) == "done" && i > 0 && s.way == script.ESDTExec && bytes.Equal(results[i-1], make([]byte, 4)):
			good++
		}
	}
	far := tokenFar(s.to)
	async := s.way == script.Async
	asyncFar := async && far
	if top == "undone" {
		good = 0
	}
	// every transfer which leaves the shard is executed at its destination
	fw := tokenFarWorld()
	sent := 0
	if out.ReturnCode == vmcommon.Ok {
		for _, oa := range out.OutputAccounts {
			if !tokenFar(oa.Address) {
				continue
			}
			for _, tr := range oa.OutputTransfers {
				sent++
				if (tr.GasLocked > 0) != async {
					t.Failf("%s\nan outgoing transfer locks %d gas", text(), tr.GasLocked)
					return false
				}
				fn, args, err := parsers.NewCallArgsParser().ParseData(string(tr.Data))
				if err != nil {
					t.Failf("%s\nan outgoing transfer with data %q", text(), tr.Data)
					return false
				}
				o, err := fw.ProcessBuiltInFunction(&vmcommon.ContractCallInput{VMInput: vmcommon.VMInput{CallerAddr: tr.SenderAddress, Arguments: args, CallValue: big.NewInt(0), GasProvided: tr.GasLimit, CallType: tr.CallType}, RecipientAddr: oa.Address, Function: fn})
				if err != nil || o.ReturnCode != vmcommon.Ok {
					t.Failf("%s\nan outgoing transfer which cannot be executed: %q: %v", text(), tr.Data, err)
					return false
				}
				n := 2
				if fn == "ESDTNFTTransfer" {
					n = 4
				}
				want := []string{}
				if s.fn != "" || s.way == script.ESDTExec { // which sends the name of the function even if there is none
					want = append([]string{s.fn}, s.args...)
				}
				got := []string{}
				for _, a := range args[n:] {
					got = append(got, string(a))
				}
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) || !bytes.Equal(tr.SenderAddress, script.A) || !bytes.Equal(oa.Address, s.to) {
					t.Failf("%s\nthe outgoing transfer calls %q, want %q", text(), got, want)
					return false
				}
			}
		}
	}
	if asyncFar {
		for _, d := range results {
			if string(d) == "cb" && sent > 0 {
				t.Failf("%s\nthe callback was called before the call was executed in the other shard", text())
				return false
			}
		}
		good = sent
		if good > 1 {
			good = 1
		}
	}
	if out.ReturnCode == vmcommon.Ok {
		sum := out.GasRemaining
		for _, oa := range out.OutputAccounts {
			sum += oa.GasUsed
			for _, tr := range oa.OutputTransfers {
				sum += tr.GasLimit + tr.GasLocked
			}
		}
		if sum != tokenGas {
			t.Failf("%s\nthe gas used, left and sent is %d of %d", text(), sum, uint64(tokenGas))
			return false
		}
	}
	after, there := tokenCount(w), tokenCount(fw)
	want := map[tokenKey]int64{}
	for k, v := range before {
		want[k] = v
	}
	wantThere := map[tokenKey]int64{}
	moved := s.amount * int64(good)
	if moved != 0 {
		add := func(m map[tokenKey]int64, a []byte, v int64) {
			k := tokenKey{string(a), s.nonce}
			if m[k] += v; m[k] == 0 {
				delete(m, k)
			}
		}
		add(want, script.A, -moved)
		if far {
			add(wantThere, s.to, moved)
		} else {
			add(want, s.to, moved)
		}
	}
	if fmt.Sprint(after) != fmt.Sprint(want) || fmt.Sprint(there) != fmt.Sprint(wantThere) {
		t.Failf("%s\n%d succeeded; the tokens are %x and %x in the other shard, want %x and %x", text(), good, after, there, want, wantThere)
		return false
	}
	if !tokenMetaOK(w) || !tokenMetaOK(fw) {
		t.Failf("%s\na token has other metadata", text())
		return false
	}
	if far && s.amount > 0 && sent != good {
		t.Failf("%s\n%d transfers left the shard, want %d", text(), sent, good)
		return false
	}
	must, mustNot := s.verdict(tokenHeld)
	if top != "undone" {
		if must && s.amount*int64(times) <= tokenHeld && good != times || mustNot && good > 0 {
			t.Failf("%s\nthe transfer succeeded %d times", text(), good)
			return false
		}
	}
	if good > 0 && bytes.Equal(s.to, script.B) && s.fn == "f" {
		n := 0
		wantSeen := s.seen()
		for i, d := range results {
			if string(d) != "got" {
				continue
			}
			n++
			if i+len(wantSeen) > len(results) || fmt.Sprintf("%x", results[i:i+len(wantSeen)]) != fmt.Sprintf("%x", wantSeen) {
				t.Failf("%s\nthe receiver sees %x, want %x", text(), results[i:], wantSeen)
				return false
			}
		}
		if n != good {
			t.Failf("%s\nthe receiver was called %d times, want %d", text(), n, good)
			return false
		}
	}
	return true
}
