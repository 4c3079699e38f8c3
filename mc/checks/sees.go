package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strings"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

func init() {
	core.Register(&core.Check{ID: "C17", Level: "model_checking", Rule: "A contract which calls every function that tells about its call, its payment, the block and accounts is executed with every combination of a lattice of functions, callers, arguments, values and token payments, " +
		"with every combination of block data from a lattice, and with tokens of every shape; and at every place of all chains of up to 2 calls of 14 kinds, before and after nested calls. Functions write to guarded buffers. The oracle is the input of the call, and the reference model of calls.",
		Assumptions: []string{"values outside the lattices behave like those in them"}, Run: runC17})
}

// seen is what a contract is expected to see.
type seen struct {
	fn        string
	args      []string
	caller    []byte
	self      []byte
	owner     []byte
	value     *big.Int
	transfers []*vmcommon.ESDTTransfer
	w         *world.World
}

func (s *seen) esdt() *vmcommon.ESDTTransfer {
	if len(s.transfers) == 0 {
		return &vmcommon.ESDTTransfer{ESDTValue: big.NewInt(0)}
	}
	return s.transfers[0]
}

// sight is one question of a contract about its environment.
type sight struct {
	name string
	emit func(p *probe)
	want func(s *seen) []string
}

const slotLen, slotBase = 96, 8192

// probe emits questions; every question has guarded buffers of its own.
type probe struct {
	*wb.F
	slot int32
}

// buf is a new guarded buffer.
func (p *probe) buf() wb.E {
	p.slot++
	at := int32(slotBase) + (p.slot-1)*slotLen
	p.M().Place(at, bytes.Repeat([]byte{0xEE}, slotLen))
	return wb.I(at + 16)
}

// show reports the latest buffer with its guards.
func (p *probe) show() { p.showAt(0) }

func (p *probe) showAt(back int32) {
	p.Do("finish", wb.I(slotBase+(p.slot-1-back)*slotLen), wb.I(slotLen))
}

// slotWith is a guarded buffer in which v was written.
func slotWith(v string) string {
	b := bytes.Repeat([]byte{0xEE}, slotLen)
	copy(b[16:], v)
	return string(b)
}

func pad32(v *big.Int) string {
	if v.Sign() == 0 {
		return ""
	}
	b := v.Bytes()
	return string(append(make([]byte, 32-len(b)), b...))
}

func padded(v *big.Int) string {
	b := v.Bytes()
	return string(append(make([]byte, 32-len(b)), b...))
}

// voidSight asks a function without result which writes to a buffer.
func voidSight(fn string, want func(s *seen) string) sight {
	return sight{fn, func(p *probe) { p.Do(fn, p.buf()); p.show() }, func(s *seen) []string { return []string{slotWith(want(s))} }}
}

// lenSight asks a function which writes to a buffer and returns the length.
func lenSight(fn string, want func(s *seen) string) sight {
	return sight{fn, func(p *probe) { p.FinishI32(wb.Call(fn, p.buf())); p.show() },
		func(s *seen) []string { v := want(s); return []string{le32(len(v)), slotWith(v)} }}
}

func longSight(fn string, want func(s *seen) uint64) sight {
	return sight{fn, func(p *probe) { p.FinishI64(wb.Call(fn)) }, func(s *seen) []string { return []string{le64(want(s))} }}
}

func intSight(fn string, want func(s *seen) int) sight {
	return sight{fn, func(p *probe) { p.FinishI32(wb.Call(fn)) }, func(s *seen) []string { return []string{le32(want(s))} }}
}

// bigSight asks a function which sets a big integer; the destination holds another number before.
func bigSight(name string, ask func(p *probe, h wb.E), want func(s *seen) *big.Int) sight {
	return sight{name, func(p *probe) {
		h := p.Local("i")
		p.Set(h, wb.Call("bigIntNew", wb.L(-77)))
		ask(p, wb.Get(h))
		p.Do("bigIntFinishSigned", wb.Get(h))
	}, func(s *seen) []string { return []string{twosBig(want(s))} }}
}

// callSights ask about the call. Empty token payments write nothing and zero values as well.
func callSights() []sight {
	s := []sight{
		lenSight("getFunction", func(s *seen) string { return s.fn }),
		intSight("getNumArguments", func(s *seen) int { return len(s.args) }),
		voidSight("getCaller", func(s *seen) string { return string(s.caller) }),
		voidSight("getSCAddress", func(s *seen) string { return string(s.self) }),
		lenSight("getCallValue", func(s *seen) string { return pad32(s.value) }),
		bigSight("bigIntGetCallValue", func(p *probe, h wb.E) { p.Do("bigIntGetCallValue", h) }, func(s *seen) *big.Int { return s.value }),
		lenSight("getESDTValue", func(s *seen) string { return pad32(s.esdt().ESDTValue) }),
		lenSight("getESDTTokenName", func(s *seen) string { return string(s.esdt().ESDTTokenName) }),
		longSight("getESDTTokenNonce", func(s *seen) uint64 { return s.esdt().ESDTTokenNonce }),
		intSight("getESDTTokenType", func(s *seen) int { return int(s.esdt().ESDTTokenType) }),
		bigSight("bigIntGetESDTCallValue", func(p *probe, h wb.E) { p.Do("bigIntGetESDTCallValue", h) }, func(s *seen) *big.Int { return s.esdt().ESDTValue }),
		{"getCallValueTokenName", func(p *probe) {
			a, b := p.buf(), p.buf()
			p.FinishI32(wb.Call("getCallValueTokenName", a, b))
			p.showAt(1)
			p.show()
		}, func(s *seen) []string {
			name, v := string(s.esdt().ESDTTokenName), s.value
			if name != "" {
				v = s.esdt().ESDTValue
			}
			return []string{le32(len(name)), slotWith(pad32(v)), slotWith(name)}
		}},
		voidSight("getOriginalTxHash", func(s *seen) string { return "originaltxhash__________________" }),
	}
	for i := int32(-1); i <= 3; i++ {
		i := i
		s = append(s, sight{fmt.Sprintf("getArgument(%d)", i), func(p *probe) {
			p.FinishI32(wb.Call("getArgumentLength", wb.I(i)))
			p.FinishI32(wb.Call("getArgument", wb.I(i), p.buf()))
			p.show()
		}, func(s *seen) []string {
			if i < 0 || int(i) >= len(s.args) {
				return []string{le32(-1), le32(-1), slotWith("")}
			}
			return []string{le32(len(s.args[i])), le32(len(s.args[i])), slotWith(s.args[i])}
		}})
	}
	return s
}

// blockSights ask about blocks.
func blockSights() []sight {
	s := []sight{
		longSight("getBlockNonce", func(s *seen) uint64 { return s.w.Nonce }),
		longSight("getBlockRound", func(s *seen) uint64 { return s.w.Round }),
		longSight("getBlockTimestamp", func(s *seen) uint64 { return s.w.TimeStamp }),
		longSight("getBlockEpoch", func(s *seen) uint64 { return uint64(s.w.Epoch) }),
		voidSight("getBlockRandomSeed", func(s *seen) string { return string(s.w.RandSeed) }),
		longSight("getPrevBlockNonce", func(s *seen) uint64 { return s.w.LastNonce() }),
		longSight("getPrevBlockRound", func(s *seen) uint64 { return s.w.LastRound() }),
		longSight("getPrevBlockTimestamp", func(s *seen) uint64 { return s.w.LastTimeStamp() }),
		longSight("getPrevBlockEpoch", func(s *seen) uint64 { return uint64(s.w.LastEpoch()) }),
		voidSight("getPrevBlockRandomSeed", func(s *seen) string { return string(s.w.LastSeed) }),
		voidSight("getStateRootHash", func(s *seen) string { return string(s.w.Root) }),
	}
	for _, n := range []int64{0, 1, 9, 10, 11, -1, math.MaxInt64, math.MinInt64} {
		n := n
		s = append(s, sight{fmt.Sprintf("getBlockHash(%d)", n), func(p *probe) {
			p.FinishI32(wb.Call("getBlockHash", wb.L(n), p.buf()))
			p.show()
		}, func(s *seen) []string {
			if n < 0 || uint64(n) > s.w.Nonce {
				return []string{le32(0), slotWith("")}
			}
			h, _ := s.w.GetBlockhash(uint64(n))
			return []string{le32(0), slotWith(string(h))}
		}})
	}
	return s
}

// accountSights ask about accounts and their tokens.
func accountSights(addrs [][]byte, toks []struct {
	id    string
	nonce uint64
}) []sight {
	s := []sight{voidSight("getOwnerAddress", func(s *seen) string { return string(s.owner) })}
	for _, a := range addrs {
		a := a
		nick := script.Nick(a)
		bal := func(s *seen) *big.Int {
			if x := s.w.Accounts[string(a)]; x != nil {
				return x.Balance
			}
			return big.NewInt(0)
		}
		s = append(s,
			sight{"getShardOfAddress " + nick, func(p *probe) { p.FinishI32(wb.Call("getShardOfAddress", wb.P(a))) }, func(s *seen) []string { return []string{le32(int(s.w.GetShardOfAddress(a)))} }},
			sight{"isSmartContract " + nick, func(p *probe) { p.FinishI32(wb.Call("isSmartContract", wb.P(a))) }, func(s *seen) []string {
				if vmcommon.IsSmartContractAddress(a) {
					return []string{le32(1)}
				}
				return []string{le32(0)}
			}},
			sight{"getExternalBalance " + nick, func(p *probe) { p.Do("getExternalBalance", wb.P(a), p.buf()); p.show() }, func(s *seen) []string { return []string{slotWith(string(bal(s).Bytes()))} }},
			bigSight("bigIntGetExternalBalance "+nick, func(p *probe, h wb.E) { p.Do("bigIntGetExternalBalance", wb.P(a), h) }, bal))
		for _, tk := range toks {
			tk := tk
			args := func() []wb.E {
				return []wb.E{wb.P(a), wb.S(tk.id), wb.I(int32(len(tk.id))), wb.L(int64(tk.nonce))}
			}
			get := func(s *seen) *esdt.ESDigitalToken {
				t, err := s.w.GetESDTToken(a, []byte(tk.id), tk.nonce)
				if err != nil || t.Value == nil {
					panic("bad token")
				}
				return t
			}
			meta := func(s *seen) *esdt.MetaData {
				if m := get(s).TokenMetaData; m != nil {
					return m
				}
				return &esdt.MetaData{}
			}
			uri := func(s *seen) string {
				if u := meta(s).URIs; len(u) > 0 {
					return string(u[0])
				}
				return ""
			}
			what := fmt.Sprintf(" %s %s/%d", nick, tk.id, tk.nonce)
			length := func(fn string, v func(s *seen) string) sight {
				return sight{fn + what, func(p *probe) { p.FinishI32(wb.Call(fn, args()...)) }, func(s *seen) []string { return []string{le32(len(v(s)))} }}
			}
			s = append(s,
				sight{"getESDTBalance" + what, func(p *probe) { p.FinishI32(wb.Call("getESDTBalance", append(args(), p.buf())...)); p.show() },
					func(s *seen) []string {
						v := string(get(s).Value.Bytes())
						return []string{le32(len(v)), slotWith(v)}
					}},
				bigSight("bigIntGetESDTExternalBalance"+what, func(p *probe, h wb.E) { p.Do("bigIntGetESDTExternalBalance", append(args(), h)...) }, func(s *seen) *big.Int { return get(s).Value }),
				length("getESDTNFTNameLength", func(s *seen) string { return string(meta(s).Name) }),
				length("getESDTNFTAttributeLength", func(s *seen) string { return string(meta(s).Attributes) }),
				length("getESDTNFTURILength", uri),
				sight{"getESDTTokenData" + what, func(p *probe) {
					hv, hr := p.Local("i"), p.Local("i")
					p.Set(hv, wb.Call("bigIntNew", wb.L(-77)))
					p.Set(hr, wb.Call("bigIntNew", wb.L(-78)))
					props, hash, name, attr, creator, uris := p.buf(), p.buf(), p.buf(), p.buf(), p.buf(), p.buf()
					p.FinishI32(wb.Call("getESDTTokenData", append(args(), wb.Get(hv), props, hash, name, attr, creator, wb.Get(hr), uris)...))
					for i := int32(5); i >= 0; i-- {
						p.showAt(i)
					}
					p.Do("bigIntFinishSigned", wb.Get(hv))
					p.Do("bigIntFinishSigned", wb.Get(hr))
				}, func(s *seen) []string {
					t, m := get(s), meta(s)
					roy := int64(-78)
					if t.TokenMetaData != nil {
						roy = int64(m.Royalties)
					}
					return []string{le32(len(t.Value.Bytes())), slotWith(string(t.Properties)), slotWith(string(m.Hash)), slotWith(string(m.Name)), slotWith(string(m.Attributes)), slotWith(string(m.Creator)), slotWith(uri(s)),
						twosBig(t.Value), twosBig(big.NewInt(roy))}
				}})
		}
	}
	for _, a := range addrs {
		a := a
		s = append(s, sight{"getCurrentESDTNFTNonce " + script.Nick(a), func(p *probe) {
			p.FinishI64(wb.Call("getCurrentESDTNFTNonce", wb.P(a), wb.S("NFT-123456"), wb.I(10)))
		}, func(s *seen) []string {
			x := s.w.Accounts[string(a)]
			if x == nil || (string(a) != string(s.self) && (len(x.Meta) < 1 || x.Meta[0]&4 == 0)) {
				return []string{le64(0)}
			}
			return []string{le64(new(big.Int).SetBytes(x.Storage["ELRONDnonceNFT-123456"]).Uint64())}
		}})
	}
	return s
}

// probeCode is a contract with one function per name, all of which ask all questions.
func probeCode(names []string, sights []sight) []byte {
	m := wb.New()
	for _, n := range names {
		m.Fn(n, func(f *wb.F) {
			p := &probe{F: f}
			for _, s := range sights {
				s.emit(p)
			}
		})
	}
	return m.Bytes()
}

// compareSights reports the first question with another answer.
func compareSights(t *core.T, what string, sights []sight, s *seen, out *vmcommon.VMOutput, err error) bool {
	t.Exec(1)
	t.Trans(len(sights))
	if err != nil || out.ReturnCode != vmcommon.Ok {
		rc := ""
		if out != nil {
			rc = fmt.Sprintf("%v %q", out.ReturnCode, out.ReturnMessage)
		}
		t.Failf("%s: ends with %v %v", what, rc, err)
		return false
	}
	i := 0
	for _, q := range sights {
		for _, w := range q.want(s) {
			if i >= len(out.ReturnData) {
				t.Failf("%s: %s: no answer", what, q.name)
				return false
			}
			if got := string(out.ReturnData[i]); got != w {
				t.Failf("%s: %s yields\n%x\nexpected\n%x", what, q.name, got, w)
				return false
			}
			i++
		}
	}
	if i != len(out.ReturnData) {
		t.Failf("%s: %d answers, expected %d", what, len(out.ReturnData), i)
		return false
	}
	t.Outcome(fmt.Sprintf("%x", out.ReturnData))
	return true
}

func runC17(c *core.Ctx) {
	seesCalls(c)
	seesBlocks(c)
	seesAccounts(c)
	seesTransfers(c)
	seesChains(c)
}

func seesCalls(c *core.Ctx) {
	long := strings.Repeat("f", 64)
	names := []string{"f", "function", "callBack", "init", "F", long}
	sights := callSights()
	code := probeCode(names, sights)
	pay := wb.New()
	pay.Fn("f", func(f *wb.F) { f.Do("checkNoPayment"); f.Finish([]byte("free")) })
	argLists := [][]string{{}, {""}, {"x"}, {"", ""}, {"\x00", "", "\xff\xff"}, {strings.Repeat("a", 64), "b", "c"}, {"1", "2", "3", "4", "5"}}
	big256 := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	values := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(255), big.NewInt(256), new(big.Int).Lsh(big.NewInt(1), 63), new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).Lsh(big.NewInt(1), 255), big256}
	var payments [][]*vmcommon.ESDTTransfer
	payments = append(payments, nil)
	for _, v := range values {
		for _, x := range []struct {
			n string
			k uint64
			t uint32
		}{{"TOK-123456", 0, 0}, {"NFT-123456", 1, 1}, {"n", math.MaxUint64, 1}, {"", 7, 0}} {
			payments = append(payments, []*vmcommon.ESDTTransfer{{ESDTValue: v, ESDTTokenName: []byte(x.n), ESDTTokenNonce: x.k, ESDTTokenType: x.t}})
		}
	}
	payments = append(payments, []*vmcommon.ESDTTransfer{{ESDTValue: big.NewInt(3), ESDTTokenName: []byte("first")}, {ESDTValue: big.NewInt(4), ESDTTokenName: []byte("second"), ESDTTokenNonce: 2, ESDTTokenType: 1}})
	type kind struct {
		fn     string
		typ    vmcommon.CallType
		create bool
	}
	var kinds []kind
	for _, n := range []string{"f", "function", "F", long} {
		kinds = append(kinds, kind{n, vmcommon.DirectCall, false}, kind{n, vmcommon.ESDTTransferAndExecute, false})
	}
	kinds = append(kinds, kind{"callBack", vmcommon.AsynchronousCallBack, false}, kind{"f", vmcommon.AsynchronousCall, false}, kind{"init", vmcommon.DirectCall, true})
	for _, k := range kinds {
		for _, args := range argLists {
			k, args := k, args
			c.Case(func() string { return fmt.Sprintf("call %+v with %q, all values, payments, callers", k, args) }, func(t *core.T) {
				hc := hostCell{flat: true}
				for _, caller := range [][]byte{script.User, script.B, script.FarU, make([]byte, 32)} {
					for _, v := range values {
						for pi, p := range payments {
							if k.create && pi > 0 {
								continue
							}
							w := world.New()
							w.Add(caller, 0).Balance = new(big.Int).Lsh(big.NewInt(1), 257)
							if !k.create {
								w.AddContract(script.A, 10, code, script.Owner)
							}
							h := hc.use(w)
							self := script.A
							in := vmx.Call(caller, self, k.fn, 0, 1<<50)
							in.CallType, in.CallValue, in.ESDTTransfers = k.typ, v, p
							for _, a := range args {
								in.Arguments = append(in.Arguments, []byte(a))
							}
							s := &seen{fn: k.fn, args: args, caller: caller, self: self, owner: script.Owner, value: new(big.Int).Set(v), transfers: p, w: w}
							if k.typ == vmcommon.AsynchronousCallBack {
								// the first argument of a callback is the return code of the destination
								in.Arguments = append([][]byte{{0}}, in.Arguments...)
								s.args = append([]string{"\x00"}, args...)
							}
							what := fmt.Sprintf("call %+v by %s with %q, value %v, payment %d", k, script.Nick(caller), args, v, pi)
							var out *vmcommon.VMOutput
							var err error
							if k.create {
								s.self, s.fn = world.NewAddr(caller, 0), "" // transactions which deploy name no function
								out, err = h.RunSmartContractCreate(&vmcommon.ContractCreateInput{VMInput: in.VMInput, ContractCode: code, ContractCodeMetadata: []byte{1, 0}})
							} else {
								out, err = h.RunSmartContractCall(in)
							}
							if k.typ == vmcommon.AsynchronousCall && err == nil && out.ReturnCode == vmcommon.Ok {
								// the answer to the caller is not part of what was seen
								if n := wantLen(sights, s); len(out.ReturnData) > n {
									out.ReturnData = out.ReturnData[:n]
								}
							}
							if !compareSights(t, what, sights, s, out, err) {
								return
							}
						}
					}
				}
			})
		}
	}
	c.Case(func() string { return "checkNoPayment with every payment" }, func(t *core.T) {
		hc := hostCell{flat: true}
		for _, v := range values {
			for pi, p := range payments {
				w := world.New()
				w.Add(script.User, 0).Balance = new(big.Int).Lsh(big.NewInt(1), 257)
				w.AddContract(script.A, 10, pay.Bytes(), script.Owner)
				in := vmx.Call(script.User, script.A, "f", 0, 1<<50)
				in.CallValue, in.ESDTTransfers = v, p
				out, err := hc.use(w).RunSmartContractCall(in)
				t.Exec(1)
				free := v.Sign() == 0 && len(p) == 0
				if err != nil || (out.ReturnCode == vmcommon.Ok) != free {
					t.Failf("checkNoPayment with value %v and payment %d: %v %v", v, pi, out, err)
					return
				}
			}
		}
	})
}

func wantLen(sights []sight, s *seen) int {
	n := 0
	for _, q := range sights {
		n += len(q.want(s))
	}
	return n
}

func seesBlocks(c *core.Ctx) {
	sights := blockSights()
	code := probeCode([]string{"f"}, sights)
	nums := []uint64{0, 1, 10, 1 << 31, 1 << 32, math.MaxInt64, 1 << 63, math.MaxUint64}
	seeds := [][]byte{nil, bytes.Repeat([]byte{9}, 32), bytes.Repeat([]byte{8, 7}, 24)}
	for _, nonce := range nums {
		nonce := nonce
		c.Case(func() string { return fmt.Sprintf("block data with nonce %d", nonce) }, func(t *core.T) {
			hc := hostCell{flat: true}
			for _, last := range nums {
				for _, time := range nums {
					for i, seed := range seeds {
						for _, epoch := range []uint32{0, 1, 1<<31 - 1, 1 << 31, math.MaxUint32} {
							w := world.New()
							w.Nonce, w.Last, w.TimeStamp, w.Round, w.Epoch = nonce, last, time, nonce+time+1, epoch
							w.RandSeed, w.LastSeed, w.Root = seed, seeds[(i+1)%3], seeds[(i+2)%3]
							w.AddContract(script.A, 10, code, script.Owner)
							out, err := hc.use(w).RunSmartContractCall(vmx.Call(script.User, script.A, "f", 0, 1<<50))
							s := &seen{self: script.A, w: w}
							if !compareSights(t, fmt.Sprintf("nonce %d last %d time %d epoch %d", nonce, last, time, epoch), sights, s, out, err) {
								return
							}
						}
					}
				}
			}
		})
	}
}

func seesAccounts(c *core.Ctx) {
	toks := []struct {
		id    string
		nonce uint64
	}{{"TOK-123456", 0}, {"NFT-123456", 1}, {"NFT-123456", 300}, {"NFT-123456", 0}, {"none", 0}}
	addrs := [][]byte{script.A, script.B, script.C, script.User, script.FarU, vmx.SC("nobody")}
	vals := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(256), new(big.Int).Lsh(big.NewInt(1), 200)}
	metas := []*esdt.MetaData{nil, {}, {Nonce: 1, Name: []byte("name"), Creator: script.User, Royalties: 2500, Hash: []byte("hash"), URIs: [][]byte{[]byte("uri"), []byte("uri2")}, Attributes: []byte("attributes")},
		{Nonce: 1, Name: bytes.Repeat([]byte("n"), 64), Creator: script.A, Royalties: math.MaxUint32, Hash: bytes.Repeat([]byte{0}, 32), URIs: [][]byte{nil}, Attributes: []byte{}}}
	for _, one := range [][]byte{script.A, script.B, script.C, script.User, script.FarU, vmx.SC("nobody")} {
		one := one
		sights := accountSights([][]byte{one}, toks)
		c.Case(func() string { return "what is seen of " + script.Nick(one) }, func(t *core.T) {
			code := probeCode([]string{"f"}, sights)
			hc := hostCell{flat: true}
			for _, bal := range vals {
				for _, v := range vals {
					for _, md := range metas {
						for _, props := range []string{"", "\x01", "\x01\x02"} {
							for _, cm := range [][]byte{{0, 0}, {4, 0}, {1, 6}} {
								w := world.New()
								for _, a := range addrs[:5] {
									acc := w.Add(a, 5)
									if string(a) == string(script.FarU) {
										acc.Shard = 1
									}
									if vmcommon.IsSmartContractAddress(a) {
										acc.Owner, acc.Meta = script.User, []byte{4, 0}
									}
									acc.Storage["ELRONDnonceNFT-123456"] = []byte{1, 44}
								}
								w.Accounts[string(script.A)].Code = code
								if a := w.Accounts[string(one)]; a != nil {
									a.Balance = bal
									if v.Sign() > 0 {
										a.SetBigESDT("TOK-123456", v)
										for _, n := range []uint64{1, 300} {
											b, err := (&esdt.ESDigitalToken{Value: v, Type: 1, Properties: []byte(props), TokenMetaData: md}).Marshal()
											if err != nil {
												panic(err)
											}
											a.Storage[string(world.ESDTKey([]byte("NFT-123456"), n))] = b
										}
									}
									if len(a.Meta) > 0 {
										a.Meta = cm
									}
								}
								out, err := hc.use(w).RunSmartContractCall(vmx.Call(script.User, script.A, "f", 0, 1<<50))
								s := &seen{self: script.A, owner: script.User, w: w}
								if !compareSights(t, fmt.Sprintf("balance %v tokens %v metadata %v properties %q code metadata %x", bal, v, md, props, cm), sights, s, out, err) {
									return
								}
							}
						}
					}
				}
			}
		})
	}
}

// seesChains runs chains of calls in which everybody reports what it sees, before and after its calls.
func seesChains(c *core.Ctx) {
	frame := func(at []byte, tag string, end script.End, calls ...script.Act) *script.Node {
		n := &script.Node{At: at, End: end}
		look := []script.Act{{Op: script.Info}, {Op: script.ESDTInfo}}
		n.Acts = append(n.Acts, look...)
		for _, a := range calls {
			n.Acts = append(n.Acts, a, script.Act{Op: script.Info}, script.Act{Op: script.ESDTInfo})
		}
		return n
	}
	argLists := [][]string{nil, {""}, {"x"}, {"", "yy", ""}, {strings.Repeat("z", 40), "\x00\x01"}}
	build := func(o option, tag string, v int64, args []string, calls ...script.Act) script.Act {
		a := o.act(frame, tag, v, calls...)
		a.Args = args
		if o.cb != 0 {
			a.CB = frame(nil, tag+"cb", script.OK)
		}
		return a
	}
	opts := pick(allOptions(false), func(o option) bool { return o.end == script.OK && o.cb != 2 })
	for _, o := range opts {
		for _, v := range []int64{0, 3} {
			for _, tx := range []script.Tx{{}, {Value: 5}, {ESDT: 4}, {Args: [][]byte{[]byte("p"), {}, []byte("q")}}} {
				o, v, tx := o, v, tx
				c.Case(func() string { return fmt.Sprintf("chains which begin with %v of value %d in %+v", o, v, tx) }, func(t *core.T) {
					r := newRunner(t, vmx.Opt{})
					for _, args := range argLists {
						if !r.tree(frame(script.A, "0", script.OK, build(o, "1", v, args)), tx) {
							return
						}
						for _, p := range opts {
							for _, u := range []int64{0, 2} {
								root := frame(script.A, "0", script.OK, build(o, "1", v, args, build(p, "2", u, argLists[3])))
								if !r.tree(root, tx) {
									return
								}
							}
						}
					}
				})
			}
		}
	}
}

// seesTransfers reads all balances after every step of all sequences of transfers and calls.
func seesTransfers(c *core.Ctx) {
	whose := [][]byte{script.A, script.B, script.C, script.User, script.FarU}
	look := func() (acts []script.Act) {
		for _, a := range whose {
			acts = append(acts, script.Act{Op: script.Balance, To: a})
		}
		return acts
	}
	node := func(at []byte, end script.End, steps ...script.Act) *script.Node {
		n := &script.Node{At: at, End: end}
		n.Acts = append(n.Acts, look()...)
		for _, s := range steps {
			n.Acts = append(append(n.Acts, s), look()...)
		}
		return n
	}
	var steps []func() script.Act
	for _, a := range whose {
		for _, v := range []int64{0, 3} {
			a, v := a, v
			steps = append(steps, func() script.Act { return script.Act{Op: script.Transfer, To: a, Value: v} })
		}
	}
	for _, end := range []script.End{script.OK, script.Signal} {
		for _, k := range []script.Kind{script.Dest, script.Same} {
			for _, back := range [][]byte{script.A, script.User} {
				end, k, back := end, k, back
				steps = append(steps, func() script.Act {
					return script.Act{Op: script.Call, Kind: k, To: script.B, Value: 2, Child: node(script.B, end, script.Act{Op: script.Transfer, To: back, Value: 1}, script.Act{Op: script.Transfer, To: back, Value: 4})}
				})
			}
		}
	}
	depth := 2
	if c.Thorough {
		depth = 3
	}
	var walk func(r *runner, seq []int) bool
	walk = func(r *runner, seq []int) bool {
		var acts []script.Act
		for _, i := range seq {
			acts = append(acts, steps[i]())
		}
		if !r.tree(node(script.A, script.OK, acts...), script.Tx{Value: 7}) {
			return false
		}
		if len(seq) <= depth {
			for i := range steps {
				if !walk(r, append(append([]int{}, seq...), i)) {
					return false
				}
			}
		}
		return true
	}
	for i := range steps {
		i := i
		c.Case(func() string { return fmt.Sprintf("balances seen after sequences of transfers which begin with %d", i) }, func(t *core.T) {
			walk(newRunner(t, vmx.Opt{}), []int{i})
		})
	}
}
