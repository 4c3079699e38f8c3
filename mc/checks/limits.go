package checks

import (
	"encoding/binary"
	"fmt"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/wb"
)

func init() {
	core.Register(&core.Check{ID: "C06", Level: "model_checking", Rule: "Programs which report the gas left before and after a call of every kind, and callees which report theirs at their start and end, are executed for every gas limit of a sweep " +
		"(around what the callee needs, far above it, and above what the caller has), every price of the token transfer, amount of work of the callee, way to end, and at two levels of nesting. The gas at the start of the callee is compared with that of the same contract when a user calls it, " +
		"what the caller has left afterwards with the balance of what was given, used and returned.", Assumptions: treeAssumptions, Run: runC06})
}

// gasSeen is what one execution reported: the gas left at the start and the end of the parts.
type gasSeen struct {
	ok   bool
	vals []int64
	rest int64
	text string
}

func limitCallee(n int, end script.End, extra ...func(f *wb.F)) []byte {
	m := wb.New()
	for _, x := range []string{"f", "init"} {
		m.Fn(x, func(f *wb.F) {
			f.FinishI64(wb.Call("getGasLeft"))
			for _, e := range extra {
				e(f)
			}
			f.Nops(n)
			switch end {
			case script.Signal:
				f.Do("signalError", wb.S("no"), wb.I(2))
			case script.Trap:
				f.Unreachable()
			}
			f.FinishI64(wb.Call("getGasLeft"))
		})
	}
	m.Fn("callBack", func(f *wb.F) { f.FinishI64(wb.Call("getGasLeft")) })
	return m.Bytes()
}

func isTokenKind(k script.Kind) bool {
	return k == script.ESDTExec || k == script.DestESDT || k == script.AsyncESDT
}

func limitAct(k script.Kind, to []byte, code []byte) script.Act {
	a := script.Act{Op: script.Call, Kind: k, To: to, Func: "f"}
	if isTokenKind(k) {
		a.Token, a.Value = script.TOK, 3
	}
	if k == script.Create {
		a.To, a.Child = nil, script.CodeNode(code)
	}
	return a
}

// limitRun calls f of A, whose code is given, with gas.
func limitRun(t *core.T, p *script.Program, codes map[string][]byte, to []byte, gas int64, opt vmx.Opt, transfer uint64) gasSeen {
	w := script.BaseWorld(p)
	g := config.MakeGasMapForTests()
	g["BuiltInCost"]["ESDTTransfer"] = transfer
	if err := w.EnableBuiltIns(g); err != nil {
		panic(err)
	}
	for a, code := range codes {
		acc := w.Accounts[a]
		acc.Code = code
		acc.Meta = []byte{5, 6}
		acc.SetESDT(script.TOK, 50)
	}
	h, _ := vmx.MustSwap(w, opt)
	out, err := h.RunSmartContractCall(vmx.Call(script.User, to, "f", 0, uint64(gas)))
	t.Exec(1)
	t.Trans(1)
	s := gasSeen{text: vmx.Canon(out, err)}
	if err != nil || out == nil {
		return s
	}
	s.ok = out.ReturnCode == vmcommon.Ok
	s.rest = int64(out.GasRemaining)
	for _, d := range out.ReturnData {
		if len(d) == 8 {
			s.vals = append(s.vals, int64(binary.LittleEndian.Uint64(d)))
		}
	}
	return s
}

var limitSync = []script.Kind{script.Dest, script.Same, script.ReadOnly, script.Delegate, script.ByCaller, script.TVE, script.ESDTExec, script.DestESDT, script.Create}

const limitPlenty = 10000000

// limitCase is one call of kind k of a callee, directly by the contract which is executed, or by another in between.
type limitCase struct {
	t        *core.T
	p        *script.Program
	opt      vmx.Opt
	transfer uint64
	k        script.Kind
	consts   map[string]int64
}

// same requires that all values reported under a name are equal.
func (l *limitCase) same(name string, v int64, what string) {
	if l.consts == nil {
		l.consts = map[string]int64{}
	}
	if old, ok := l.consts[name]; !ok {
		l.consts[name] = v
	} else if old != v {
		l.t.Failf("%s: %s is %d, and %d in other executions", what, name, v, old)
	}
}

func (l *limitCase) tokens() int64 {
	if isTokenKind(l.k) {
		return int64(l.transfer)
	}
	return 0
}

// direct returns the gas for loading the contract, from its start to its end, and altogether, when a user calls it.
func (l *limitCase) direct(code []byte) (load, work, total int64) {
	d := limitRun(l.t, l.p, map[string][]byte{string(script.B): code}, script.B, limitPlenty, l.opt, l.transfer)
	if !d.ok || len(d.vals) < 2 {
		panic("direct call: " + d.text)
	}
	return limitPlenty - d.vals[0], d.vals[0] - d.vals[len(d.vals)-1], limitPlenty - d.rest
}

// run checks one execution: outer calls, with the gas limit, code, which needs (load, work, total) to end with end.
func (l *limitCase) run(limit int64, n int, end script.End) {
	t := l.t
	ok := limitCallee(n, script.OK)
	load, work, total := l.direct(ok)
	code := limitCallee(n, end)
	if end != script.OK {
		load, _, _ = l.direct2(code, load, ok)
	}
	m := limitCallee(0, script.OK, func(f *wb.F) { script.EmitCall(f, limitAct(l.k, script.B, code), limit) })
	s := limitRun(t, l.p, map[string][]byte{string(script.A): m, string(script.B): code}, script.A, limitPlenty, l.opt, l.transfer)
	what := fmt.Sprintf("%s with limit %d of a contract with %d instructions which ends %s, token transfers cost %d", l.k, limit, n, end, l.transfer)
	survives := l.k == script.TVE || l.k == script.ESDTExec || l.k == script.Create
	enough := limit >= total+l.tokens() || limit > limitPlenty
	switch {
	case enough && end == script.OK:
		if !s.ok || len(s.vals) != 4 {
			t.Failf("%s (enough) fails:\n%s", what, s.text)
			return
		}
		given := limit
		if limit > limitPlenty {
			given = s.vals[1] + l.tokens() + load
		}
		if s.vals[1] != given-l.tokens()-load {
			t.Failf("%s: the callee has %d gas at its start, want %d - %d for the transfer - %d for loading it", what, s.vals[1], given, l.tokens(), load)
		}
		if s.vals[1]-s.vals[2] != work {
			t.Failf("%s: the callee uses %d, and %d when called directly", what, s.vals[1]-s.vals[2], work)
		}
		if l.k == script.Create {
			return // what creators pay is the subject of C21
		}
		left := s.vals[2] - (total - load - work)
		k := s.vals[0] - s.vals[3] - (given - left)
		l.same("what the caller pays for the call itself", k, what)
		if limit > limitPlenty && (given > s.vals[0] || given < s.vals[0]-k) {
			t.Failf("%s: %d gas is given of %d", what, given, s.vals[0])
		}
	case !survives, limit < l.tokens(): // without the gas for the transfer itself the caller fails
		if s.ok {
			t.Failf("%s succeeds:\n%s", what, s.text)
		}
	default:
		if !s.ok || len(s.vals) != 2 {
			t.Failf("%s: the caller does not go on:\n%s", what, s.text)
			return
		}
		if l.k != script.Create {
			l.same("what the caller pays for the call itself", s.vals[0]-s.vals[1]-limit, what)
		}
	}
}

// direct2 is the gas for loading code, if that for loading other is known.
func (l *limitCase) direct2(code []byte, load int64, other []byte) (int64, int64, int64) {
	return load + int64(len(code)-len(other)), 0, 0
}

func limitNs(c *core.Ctx) []int {
	if c.Thorough {
		return []int{0, 1, 2, 5, 50, 63, 64, 65, 500}
	}
	return []int{0, 5, 50}
}

func runC06(c *core.Ctx) {
	p, err := script.Compile(&script.Node{At: script.A})
	if err != nil {
		panic(err)
	}
	opts := []struct {
		name string
		opt  vmx.Opt
	}{{"all features on", vmx.Opt{}}, {"without ahead-of-time compilation", vmx.Opt{AOT: 100}}}
	limitAsyncCases(c, p)
	limitNested(c, p)
	for _, o := range opts {
		for _, k := range limitSync {
			o, k := o, k
			c.Case(func() string { return fmt.Sprintf("gas limits of %s, %s", k, o.name) }, func(t *core.T) {
				for _, transfer := range []uint64{1, 700} {
					l := &limitCase{t: t, p: p, opt: o.opt, transfer: transfer, k: k}
					l.opt.Gas = script.Gas()
					for _, n := range limitNs(c) {
						_, _, total := l.direct(limitCallee(n, script.OK))
						need := total + l.tokens()
						limits := []int64{need, need + 1, need + 2, need + 700, need + 1000, 65536, 1000000, 5000000, 1 << 31, 1 << 40, 1<<63 - 1}
						for d := int64(1); d < 40; d++ {
							limits = append(limits, need-d)
						}
						for g := int64(0); g < need; g += 37 {
							limits = append(limits, g)
						}
						for _, g := range limits {
							l.run(g, n, script.OK)
						}
						for _, e := range []script.End{script.Signal, script.Trap} {
							for _, g := range []int64{need, need + 1000, 1000000} {
								l.run(g, n, e)
							}
						}
					}
				}
			})
		}
	}
}

// limitNested checks the limits of calls which a called contract makes.
func limitNested(c *core.Ctx, p *script.Program) {
	inner := limitCallee(5, script.OK)
	for _, k1 := range limitSync {
		for _, k2 := range limitSync {
			k1, k2 := k1, k2
			if k1 == script.Create || k2 == script.Create || k1 == script.ReadOnly && isTokenKind(k2) {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("gas limits of %s within %s", k2, k1) }, func(t *core.T) {
				for _, transfer := range []uint64{1, 700} {
					l := &limitCase{t: t, p: p, opt: vmx.Opt{Gas: script.Gas()}, transfer: transfer}
					load, work, total := l.direct(inner)
					var k []int64
					for _, g1 := range []int64{20000, 1000000, 1 << 40} {
						for _, g2 := range []int64{total + 700, 5000, 10000, 1 << 40} {
							mid := limitCallee(0, script.OK, func(f *wb.F) { script.EmitCall(f, limitAct(k2, script.C, nil), g2) })
							top := limitCallee(0, script.OK, func(f *wb.F) { script.EmitCall(f, limitAct(k1, script.B, nil), g1) })
							s := limitRun(t, p, map[string][]byte{string(script.A): top, string(script.B): mid, string(script.C): inner}, script.A, limitPlenty, l.opt, transfer)
							what := fmt.Sprintf("%s with limit %d in %s with limit %d, token transfers cost %d", k2, g2, k1, g1, transfer)
							if !s.ok || len(s.vals) != 6 {
								t.Failf("%s fails:\n%s", what, s.text)
								return
							}
							tokens := func(k script.Kind) int64 {
								if isTokenKind(k) {
									return int64(transfer)
								}
								return 0
							}
							loadMid := load + int64(len(mid)-len(inner))
							if g1 <= limitPlenty && s.vals[1] != g1-tokens(k1)-loadMid {
								t.Failf("%s: the outer callee has %d gas at its start, want %d - %d for the transfer - %d for loading it", what, s.vals[1], g1, tokens(k1), loadMid)
							}
							given2 := g2
							if g2 > limitPlenty {
								given2 = s.vals[2] + tokens(k2) + load
							}
							if s.vals[2] != given2-tokens(k2)-load || given2 > s.vals[1] {
								t.Failf("%s: the inner callee has %d gas at its start, want %d - %d for the transfer - %d for loading it; its caller had %d", what, s.vals[2], given2, tokens(k2), load, s.vals[1])
							}
							if s.vals[2]-s.vals[3] != work {
								t.Failf("%s: the inner callee uses %d, and %d when called directly", what, s.vals[2]-s.vals[3], work)
							}
							end := total - load - work
							k = append(k, s.vals[1]-s.vals[4]-(given2-s.vals[3]+end))
							if k[0] != k[len(k)-1] {
								t.Failf("%s: the outer callee pays %d for the call itself, and %d in other executions", what, k[len(k)-1], k[0])
							}
							given1 := g1
							if g1 > limitPlenty {
								given1 = s.vals[1] + tokens(k1) + loadMid
							}
							l.same("what the caller pays for the call itself", s.vals[0]-s.vals[5]-(given1-s.vals[4]+end), what)
						}
					}
				}
			})
		}
	}
}

// limitAsyncCases checks that an asynchronous call gets all the gas but what is locked, and its callback what is left and what was locked.
func limitAsyncCases(c *core.Ctx, p *script.Program) {
	for _, k := range []script.Kind{script.Async, script.AsyncESDT} {
		for _, end := range []script.End{script.OK, script.Signal, script.Trap} {
			k, end := k, end
			c.Case(func() string { return fmt.Sprintf("gas of %s calls which end %s", k, end) }, func(t *core.T) {
				l := &limitCase{t: t, p: p, opt: vmx.Opt{}, k: k}
				for _, transfer := range []uint64{1, 700} {
					for _, lock := range []uint64{3000, 5000, 77777} {
						for _, gas := range []int64{500000, limitPlenty} {
							for _, n := range limitNs(c) {
								l.transfer = transfer
								g := script.Gas()
								g["ElrondAPICost"]["AsyncCallbackGasLock"] = lock
								l.opt.Gas = g
								ok := limitCallee(n, script.OK)
								load, work, total := l.direct(ok)
								code := limitCallee(n, end)
								load += int64(len(code) - len(ok))
								m := limitCallee(0, script.OK, func(f *wb.F) { script.EmitCall(f, limitAct(k, script.B, code), 0) })
								s := limitRun(t, p, map[string][]byte{string(script.A): m, string(script.B): code}, script.A, gas, l.opt, transfer)
								what := fmt.Sprintf("%s of a contract with %d instructions which ends %s, %d gas locked, %d provided, token transfers cost %d", k, n, end, lock, gas, transfer)
								if end != script.OK {
									if !s.ok || len(s.vals) != 2 {
										t.Failf("%s: unexpected results\n%s", what, s.text)
										return
									}
									l.same("what the callback has of the locked gas", s.vals[1]-int64(lock), what)
									continue
								}
								if !s.ok || len(s.vals) != 4 {
									t.Failf("%s: unexpected results\n%s", what, s.text)
									return
								}
								l.same("what the caller pays", s.vals[0]-(s.vals[1]+load+l.tokens()+int64(lock)), what)
								if s.vals[1]-s.vals[2] != work {
									t.Failf("%s: the callee uses %d, and %d when called directly", what, s.vals[1]-s.vals[2], work)
								}
								left := s.vals[2] - (total - load - work)
								l.same("what the callback loses", s.vals[3]-(left+int64(lock)), what)
							}
						}
					}
				}
			})
		}
	}
}
