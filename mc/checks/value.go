package checks

import (
	"fmt"
	"math/big"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
)

func init() {
	core.Register(&core.Check{ID: "C04", Level: "model_checking", Rule: treeRule + " Here the amounts are enumerated: nothing, one, exactly what the payer has, one more, 2^62 and 2^256-1, for every way to move value (14 kinds of call, transferValue, " +
		"the call value of the transaction) to every kind of receiver (a contract, the caller, itself, wallets and contracts of other shards, missing accounts), in pairs of moves and in nested calls.", Assumptions: treeAssumptions, Run: runC04})
}

var bigUnit, _ = new(big.Int).SetString("1000000000000000000000007", 10)

// mover is one way to move value.
type mover struct {
	name string
	act  func(v int64, tag string) script.Act
	// payer has so much at the start (the transaction gave it txValue)
	async bool
}

func movers() []mover {
	var out []mover
	recv := [][]byte{script.User, script.Poor, script.A, script.B, script.C, script.FarU, script.FarS, missing}
	for _, to := range recv {
		to := to
		out = append(out, mover{name: "transferValue to " + script.Nick(to), act: func(v int64, tag string) script.Act {
			return script.Act{Op: script.Transfer, To: to, Value: v, Data: tag}
		}})
		for _, k := range []script.Kind{script.Dest, script.Same, script.ByCaller, script.TVE, script.Async} {
			k := k
			if string(to) != string(script.A) && string(to) != string(script.B) {
				if k == script.TVE || k == script.Async || k == script.Dest {
					fn := "fx"
					out = append(out, mover{name: k.String() + " to " + script.Nick(to), async: isAsync(k), act: func(v int64, tag string) script.Act {
						return script.Act{Op: script.Call, Kind: k, To: to, Func: fn, Value: v, Args: []string{tag}}
					}})
				}
				continue
			}
			for _, end := range []script.End{script.OK, script.Signal} {
				end := end
				out = append(out, mover{name: fmt.Sprintf("%s to %s ending %s", k, script.Nick(to), end), async: isAsync(k), act: func(v int64, tag string) script.Act {
					a := callAct(k, balanceFrame(to, tag, end), v, tag)
					if isAsync(k) {
						a.CB = balanceFrame(nil, tag+"cb", script.OK)
					}
					return a
				}})
			}
		}
	}
	for _, k := range []script.Kind{script.Create, script.DeployFrom, script.Upgrade, script.UpgradeFrom} {
		k := k
		out = append(out, mover{name: k.String(), async: isAsync(k), act: func(v int64, tag string) script.Act {
			return callAct(k, balanceFrame(nil, tag, script.OK), v, tag)
		}})
	}
	return out
}

// balanceFrame finishes the balances it sees and sends 1 away.
func balanceFrame(at []byte, tag string, end script.End, more ...script.Act) *script.Node {
	n := &script.Node{At: at, End: end, Msg: "e" + tag}
	look := []script.Act{{Op: script.Info}}
	for _, x := range [][]byte{script.A, script.B, script.C, script.User, missing} {
		look = append(look, script.Act{Op: script.Balance, To: x})
	}
	n.Acts = append(n.Acts, look...)
	n.Acts = append(n.Acts, more...)
	if len(more) == 0 || more[len(more)-1].Op != script.Call || !isAsync(more[len(more)-1].Kind) {
		n.Acts = append(n.Acts, look[1:]...)
		n.Acts = append(n.Acts, script.Act{Op: script.Transfer, To: script.User, Value: 1, Data: tag})
	}
	return n
}

func runC04(c *core.Ctx) {
	ms := movers()
	const txv = 11
	// A has 500 and gets the value of the transaction
	amounts := []int64{0, 1, 500 + txv - 2, 500 + txv - 1, 500 + txv, 500 + txv + 1, 1 << 62, script.Huge}
	for _, m := range ms {
		m := m
		c.Case(func() string { return "A moves each amount by " + m.name + ", then moves again in every way" }, func(t *core.T) {
			r := newRunner(t, vmx.Opt{})
			for _, v := range amounts {
				r.unit = nil
				if !r.tree(balanceFrame(script.A, "a", script.OK, m.act(v, "x")), script.Tx{Value: txv}) {
					return
				}
				// the same with amounts beyond 64 bits
				r.unit = bigUnit
				if !r.tree(balanceFrame(script.A, "a", script.OK, m.act(v, "x")), script.Tx{Value: txv}) {
					return
				}
				r.unit = nil
				if m.async {
					continue
				}
				for _, m2 := range ms {
					// what is left for the second move, if the first worked
					for _, v2 := range []int64{0, 1, 500 + txv - v - 1, 500 + txv - v, 500 + txv - v + 1} {
						if v2 < 0 || (!c.Thorough && v != 1 && v != 0 && v2 > 1) {
							continue
						}
						if !r.tree(balanceFrame(script.A, "a", script.OK, m.act(v, "x"), m2.act(v2, "y")), script.Tx{Value: txv}) {
							return
						}
					}
				}
			}
		})
	}
	// nested: B, which got something, moves it on
	for _, k := range allKinds {
		for _, cb := range []int{0, 1} {
			if cb == 1 && !isAsync(k) {
				continue
			}
			k, cb := k, cb
			c.Case(func() string {
				return fmt.Sprintf("A calls (%s, callback %d) a contract which moves each amount in every way", k, cb)
			}, func(t *core.T) {
				r := newRunner(t, vmx.Opt{})
				r.unit = bigUnit
				for _, at := range [][]byte{script.B, script.A} {
					has := int64(300)
					if isDeploy(k) || isUpgrade(k) {
						if string(at) == string(script.A) {
							continue
						}
						has = 0
						if isUpgrade(k) {
							has = 100
						}
					} else if string(at) == string(script.A) {
						has = 500 + txv - 7
					}
					for _, m := range ms {
						for _, got := range []int64{0, 7} {
							for _, d := range []int64{-1, 0, 1} {
								v := has + got + d
								if v < 0 {
									continue
								}
								a := callAct(k, balanceFrame(at, "b", script.OK, m.act(v, "x")), got, "b")
								if cb == 1 {
									a.CB = balanceFrame(nil, "cb", script.OK)
								}
								if !r.tree(balanceFrame(script.A, "a", script.OK, a), script.Tx{Value: txv}) {
									return
								}
							}
							a := callAct(k, balanceFrame(at, "b", script.OK, m.act(1, "x"), script.Act{Op: script.Transfer, To: script.A, Value: 1}), got, "b")
							if cb == 1 {
								a.CB = balanceFrame(nil, "cb", script.OK)
							}
							if !m.async && !r.tree(balanceFrame(script.A, "a", script.OK, a), script.Tx{Value: txv}) {
								return
							}
						}
					}
				}
			})
		}
	}
	// the value of the transaction
	for _, v := range []int64{0, 1, 999, 1000} {
		v := v
		c.Case(func() string { return fmt.Sprintf("transaction with value %d", v) }, func(t *core.T) {
			r := newRunner(t, vmx.Opt{})
			for _, m := range ms {
				for _, d := range []int64{-1, 0, 1} {
					if !r.tree(balanceFrame(script.A, "a", script.OK, m.act(500+v+d, "x")), script.Tx{Value: v}) {
						return
					}
				}
			}
		})
	}
}
