package checks

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	am "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwenmandos"
	mc "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/controller"
	fr "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/fileresolver"
	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"vmc/core"
	"vmc/wb"
)

func init() {
	core.Register(&core.Check{ID: "C44", Level: "model_checking", Rule: "Every program of up to 5 (thorough: 6) actions over three contracts (stores, payments, token transfers, change of owner, nested and asynchronous calls which succeed or fail) is executed as a transaction of a scenario; every sequence of up to 3 (thorough: 4) steps of 39 kinds; " +
		"every combination of block information. After each the accounts are compared with a ledger which applies the rules of the protocol. Every sequence of up to 3 local and external steps, and directories of up to 2 (thorough: 3) scenarios, are run through the scenario runner.",
		Assumptions: []string{"all accounts are in one shard", "metadata of code and whether a query may write are out of scope"}, Run: runC44})
}

// act is an action of a contract.
type act struct {
	op  string // store, pay, tok, nft, own, dest, async, fail
	sub []act
}

func (a act) String() string {
	if a.op == "dest" || a.op == "async" {
		return a.op + fmt.Sprint(a.sub)
	}
	return a.op
}

// lAccount is an account in the ledger.
type lAccount struct {
	nonce    uint64
	balance  int64
	storage  map[string]string
	fun, nft int64
	owner    string
	async    string
	code     string
}

type ledger map[string]*lAccount

func (l ledger) clone() ledger {
	out := ledger{}
	for k, a := range l {
		b := *a
		b.storage = map[string]string{}
		for x, y := range a.storage {
			b.storage[x] = y
		}
		out[k] = &b
	}
	return out
}

// nextOf is the contract which is called by a contract.
var nextOf = map[string]string{"sc:A": "sc:B", "sc:B": "sc:C"}

func mAddr(name string) []byte {
	if strings.HasPrefix(name, "sc:") {
		return []byte(addressOf(name[3:], 8, -1))
	}
	return []byte(addressOf(strings.TrimPrefix(name, "address:"), 0, -1))
}

// apply executes a program of contract me; false if it fails.
func (l ledger) apply(me string, prog []act) bool {
	a := l[me]
	for _, p := range prog {
		switch p.op {
		case "store":
			a.storage["k"] += "x"
		case "clear":
			a.storage["k"] = ""
		case "pay":
			if a.balance < 3 {
				return false
			}
			a.balance -= 3
			l["address:v"].balance += 3
		case "tok":
			if a.fun < 2 {
				return false
			}
			a.fun -= 2
			l["address:v"].fun += 2
			l["address:v"].async = "?"
		case "nft":
			if a.nft < 1 {
				return false
			}
			a.nft--
			l["address:v"].nft++
			l["address:v"].async = "?"
		case "own": // the owner of the next contract
			n := l[nextOf[me]]
			if n.owner != me {
				return false
			}
			n.owner = "address:v"
		case "fail":
			return false
		case "dest":
			if !l.apply(nextOf[me], p.sub) {
				return false
			}
		case "async":
			before := l.clone()
			if !l.apply(nextOf[me], p.sub) {
				for k := range l {
					*l[k] = *before[k]
				}
			}
			a.storage["cb"] += "x"
			return true
		}
	}
	return true
}

// modules collects the functions of the contracts.
type modules struct {
	m map[string]*wb.M
	n int
}

func newModules() *modules {
	ms := &modules{m: map[string]*wb.M{}}
	for _, n := range []string{"sc:A", "sc:B", "sc:C"} {
		ms.m[n] = wb.New()
		ms.m[n].Fn("callBack", func(f *wb.F) { appendX(f, "cb") })
	}
	return ms
}

// appendX appends a byte to a value.
func appendX(f *wb.F, key string) {
	n := f.Local("i")
	f.Set(n, wb.Call("storageLoad", wb.S(key), wb.I(int32(len(key))), wb.I(0)))
	f.Store32(wb.Get(n), wb.I('x'))
	f.Do("storageStore", wb.S(key), wb.I(int32(len(key))), wb.I(0), wb.Op2(0x6a, wb.Get(n), wb.I(1)))
}

func (ms *modules) fn(me, name string, prog []act) {
	v32 := func(n int64) []byte { return append(make([]byte, 31), byte(n)) }
	subs := make([]string, len(prog))
	for i, p := range prog {
		if p.op == "dest" || p.op == "async" {
			ms.n++
			subs[i] = fmt.Sprintf("g%d", ms.n)
			ms.fn(nextOf[me], subs[i], p.sub)
		}
	}
	const gas = 2000000
	ms.m[me].Fn(name, func(f *wb.F) {
		user, next := mAddr("address:v"), mAddr(nextOf[me])
		for i, p := range prog {
			switch p.op {
			case "store":
				appendX(f, "k")
			case "clear":
				f.Do("storageStore", wb.S("k"), wb.I(1), wb.I(0), wb.I(0))
			case "pay":
				f.Do("transferValue", wb.P(user), wb.P(v32(3)), wb.I(0), wb.I(0))
			case "tok":
				f.Do("transferESDTExecute", wb.P(user), wb.S("FUN-abcdef"), wb.I(10), wb.P(v32(2)), wb.L(0), wb.I(0), wb.I(0), wb.I(0), wb.I(0), wb.I(0))
			case "nft":
				f.Do("transferESDTNFTExecute", wb.P(user), wb.S("NFT-abcdef"), wb.I(10), wb.P(v32(1)), wb.L(1), wb.L(0), wb.I(0), wb.I(0), wb.I(0), wb.I(0), wb.I(0))
			case "own":
				fn := "ChangeOwnerAddress"
				f.Do("executeOnDestContext", wb.L(100000), wb.P(next), wb.P(v32(0)), wb.S(fn), wb.I(int32(len(fn))), wb.I(1), wb.P([]byte{32, 0, 0, 0}), wb.P(user))
			case "fail":
				f.Do("signalError", wb.S("no"), wb.I(2))
			case "dest":
				f.Do("executeOnDestContext", wb.L(gas), wb.P(next), wb.P(v32(0)), wb.S(subs[i]), wb.I(int32(len(subs[i]))), wb.I(0), wb.I(0), wb.I(0))
			case "async":
				f.Do("asyncCall", wb.P(next), wb.P(v32(0)), wb.S(subs[i]), wb.I(int32(len(subs[i]))))
			}
		}
	})
}

// worldState is the setState of all scenarios and the ledger it means.
func (ms *modules) worldState() (string, ledger) {
	l := ledger{
		"address:u": {nonce: 7, balance: 1000, fun: 100, nft: 5},
		"address:v": {balance: 0},
		"sc:A":      {balance: 10, fun: 7, nft: 2, owner: "address:u"},
		"sc:B":      {balance: 10, fun: 7, nft: 2, owner: "sc:A"},
		"sc:C":      {balance: 10, fun: 7, nft: 2, owner: "sc:B"},
	}
	var accts []string
	for _, n := range []string{"address:u", "address:v", "sc:A", "sc:B", "sc:C"} {
		a := l[n]
		a.storage = map[string]string{}
		js := fmt.Sprintf(`"%s": {"nonce": "%d", "balance": "%d"`, n, a.nonce, a.balance)
		if a.fun > 0 {
			js += fmt.Sprintf(`, "esdt": {"str:FUN-abcdef": "%d", "str:NFT-abcdef": {"instances": [{"nonce": "1", "balance": "%d"}]}}`, a.fun, a.nft)
		}
		if m := ms.m[n]; m != nil {
			a.code = string(m.Bytes())
			a.storage["old"] = "value"
			js += fmt.Sprintf(`, "owner": "%s", "code": "0x%x", "storage": {"str:old": "str:value"}`, a.owner, a.code)
		}
		accts = append(accts, js+"}")
	}
	return strings.Join(accts, ", "), l
}

// compare compares the accounts with the ledger.
func (l ledger) compare(w *worldmock.MockWorld) string {
	var diff []string
	add := func(f string, a ...interface{}) { diff = append(diff, fmt.Sprintf(f, a...)) }
	names := map[string]string{}
	for n := range l {
		names[string(mAddr(n))] = n
	}
	for addr := range w.AcctMap {
		if _, ok := names[addr]; !ok {
			add("there is an account %x", addr)
		}
	}
	for n, a := range l {
		x := w.AcctMap.GetAccount(mAddr(n))
		if x == nil {
			add("%s is missing", n)
			continue
		}
		if x.Nonce != a.nonce {
			add("%s has nonce %d, not %d", n, x.Nonce, a.nonce)
		}
		if x.Balance.Cmp(big.NewInt(a.balance)) != 0 {
			add("%s has %s, not %d", n, x.Balance, a.balance)
		}
		if string(x.Code) != a.code {
			add("%s has another code", n)
		}
		owner := ""
		if a.owner != "" {
			owner = string(mAddr(a.owner))
		}
		if string(x.OwnerAddress) != owner {
			add("%s belongs to %q, not %q", n, x.OwnerAddress, owner)
		}
		if a.async != "?" && x.AsyncCallData != a.async { // the data of transfers
			add("%s has async data %q, not %q", n, x.AsyncCallData, a.async)
		}
		for k, v := range x.Storage {
			if strings.HasPrefix(k, vmcommon.ElrondProtectedKeyPrefix) && k != am.ElrondRewardKey {
				continue
			}
			if string(v) != a.storage[k] {
				add("%s has %q under %q, not %q", n, v, k, a.storage[k])
			}
		}
		for k, v := range a.storage {
			if string(x.Storage[k]) != v {
				add("%s has %q under %q, not %q", n, x.Storage[k], k, v)
			}
		}
		for _, tk := range []struct {
			key  []byte
			want int64
		}{{worldmock.MakeTokenKey([]byte("FUN-abcdef"), 0), a.fun}, {worldmock.MakeTokenKey([]byte("NFT-abcdef"), 1), a.nft}} {
			got, err := x.GetTokenBalance(tk.key)
			if err != nil || got.Cmp(big.NewInt(tk.want)) != 0 {
				add("%s has %v (%v) of token %q, not %d", n, got, err, tk.key, tk.want)
			}
		}
	}
	sort.Strings(diff)
	return strings.Join(diff, "; ")
}

// programs enumerates programs of exactly size actions of the contract at depth; an asynchronous call or a failure ends a program.
func programs(size, depth int, f func([]act)) {
	if size == 0 {
		f(nil)
		return
	}
	ops := []string{"store", "pay", "tok", "nft"}
	if depth < 2 {
		ops = append(ops, "own")
	}
	for _, o := range ops {
		o := o
		programs(size-1, depth, func(rest []act) { f(append([]act{{op: o}}, rest...)) })
	}
	if size == 1 {
		f([]act{{op: "fail"}})
	}
	if depth < 2 {
		for n := 0; n < size; n++ {
			n := n
			programs(n, depth+1, func(sub []act) {
				programs(size-1-n, depth, func(rest []act) { f(append([]act{{"dest", sub}}, rest...)) })
				if n == size-1 {
					f([]act{{"async", sub}})
				}
			})
		}
	}
}

// txKind is a step and its effect on the ledger: whether it succeeds; a scenario with an impossible step fails.
type txKind struct {
	name   string
	js     string
	effect func(l ledger) (ok, possible bool)
}

func runTx(t *core.T, ex *am.ArwenTestExecutor, step mj.Step) (out *vmcommon.VMOutput, err error) {
	defer func() {
		if r := recover(); r != nil {
			t.Failf("a transaction panics: %v", r)
			err = fmt.Errorf("panic %v", r)
		}
	}()
	return ex.ExecuteTxStep(step.(*mj.TxStep))
}

func runC44(c *core.Ctx) {
	runPrograms(c)
	runTxSequences(c)
	runBlockInfo(c)
	runExternal(c)
}

func runPrograms(c *core.Ctx) {
	max := 5
	if c.Thorough {
		max = 6
	}
	var all [][]act
	for n := 0; n <= max; n++ {
		programs(n, 0, func(p []act) { all = append(all, p) })
	}
	const batch = 64
	for at := 0; at < len(all); at += batch {
		ps := all[at:]
		if len(ps) > batch {
			ps = ps[:batch]
		}
		c.Case(func() string {
			return fmt.Sprintf("transactions with the programs from %v to %v", ps[0], ps[len(ps)-1])
		}, func(t *core.T) {
			ex := newExecutor()
			for _, p := range ps {
				ms := newModules()
				ms.fn("sc:A", "f", p)
				state, l := ms.worldState()
				js := `{"gasSchedule": "dummy", "steps": [{"step": "setState", "accounts": {` + state + `}}, {"step": "scCall", "txId": "1", "tx": {"from": "address:u", "to": "sc:A", "value": "5", "function": "f", "gasLimit": "100,000,000", "gasPrice": "0"}}]}`
				s := readScenario(t, js)
				if s == nil {
					return
				}
				ex.World.Clear()
				t.Exec(1)
				if err := ex.ExecuteScenario(&mj.Scenario{GasSchedule: s.GasSchedule, Steps: s.Steps[:1]}, exprFiles); err != nil {
					t.Failf("the state cannot be set: %v", err)
					return
				}
				out, err := runTx(t, ex, s.Steps[1])
				if err != nil {
					t.Failf("program %v: %v", p, err)
					continue
				}
				l["address:u"].nonce++
				next := l.clone()
				next["address:u"].balance -= 5
				next["sc:A"].balance += 5
				ok := next.apply("sc:A", p)
				if ok {
					l = next
					t.Outcome("succeeds")
				} else {
					t.Outcome("fails")
				}
				if ok != (out.ReturnCode == vmcommon.Ok) {
					t.Failf("program %v: %v %q", p, out.ReturnCode, out.ReturnMessage)
					continue
				}
				if d := l.compare(ex.World); d != "" {
					t.Failf("after program %v: %s", p, d)
				}
			}
		})
	}
}

// fixed programs for sequences of transactions
var seqPrograms = map[string][]act{
	"store":   {{op: "store"}},
	"clear":   {{op: "clear"}},
	"pay":     {{op: "pay"}},
	"tok":     {{op: "tok"}},
	"no":      {{op: "store"}, {op: "tok"}, {op: "pay"}, {op: "own"}, {op: "fail"}},
	"own":     {{op: "own"}},
	"again":   {{"dest", []act{{"async", []act{{op: "tok"}, {op: "fail"}}}}}, {op: "tok"}, {"async", []act{{op: "store"}, {op: "nft"}}}},
	"nothing": nil,
}

func txKinds() []txKind {
	esdt := func(token string, nonce, n int) string {
		return fmt.Sprintf(`, "esdt": {"tokenIdentifier": "str:%s", "nonce": "%d", "value": "%d"}`, token, nonce, n)
	}
	step := func(kind, from, to string, value int64, more string) string {
		js := fmt.Sprintf(`{"step": "%s", "txId": "t", "tx": {`, kind)
		if from != "" {
			js += fmt.Sprintf(`"from": "%s", `, from)
		}
		if to != "" {
			js += fmt.Sprintf(`"to": "%s", `, to)
		}
		return js + fmt.Sprintf(`"value": "%d"%s}}`, value, more)
	}
	gas := func(limit, price int) string {
		return fmt.Sprintf(`, "gasLimit": "%d", "gasPrice": "%d"`, limit, price)
	}
	get := func(l ledger, n string) *lAccount {
		if l[n] == nil {
			l[n] = &lAccount{storage: map[string]string{}}
		}
		return l[n]
	}
	// sent pays the gas, and tokens and value if the rest succeeds
	type tokens struct{ fun, nft int64 }
	sent := func(l ledger, from, to string, value int64, fee int64, tk tokens, rest func(l ledger) bool) (bool, bool) {
		u := l[from]
		if u == nil || u.balance < fee || u.fun < tk.fun || u.nft < tk.nft || l[to] == nil && tk != (tokens{}) {
			return false, false
		}
		u.nonce++
		u.balance -= fee
		if u.balance < value {
			return false, true
		}
		after := l.clone()
		after[from].balance -= value
		after[from].fun -= tk.fun
		after[from].nft -= tk.nft
		if to != "" {
			x := get(after, to)
			x.balance += value
			x.fun += tk.fun
			x.nft += tk.nft
		}
		if rest != nil && !rest(after) {
			return false, true
		}
		for k, a := range after {
			l[k] = a
		}
		return true, true
	}
	var ks []txKind
	add := func(name, js string, effect func(l ledger) (bool, bool)) { ks = append(ks, txKind{name, js, effect}) }
	transfer := func(to string, value int64, limit, price int) {
		add(fmt.Sprintf("transfer of %d to %s at %d*%d", value, to, limit, price), step("transfer", "address:u", to, value, gas(limit, price)), func(l ledger) (bool, bool) {
			return sent(l, "address:u", to, value, int64(limit*price), tokens{}, nil)
		})
	}
	transfer("address:v", 5, 0, 0)
	transfer("address:v", 0, 100, 2)
	transfer("address:v", 1000000, 0, 0)
	transfer("address:v", 999901, 50, 2)
	transfer("address:v", 999900, 50, 2)
	transfer("address:u", 7, 1, 1)
	transfer("address:w", 5, 0, 0)
	transfer("sc:A", 5, 0, 0)
	transfer("address:v", 0, 1000, 1000)
	transfer("address:v", 0, 1000, 1001)
	add("transfer by nobody", step("transfer", "address:nobody", "address:v", 0, gas(0, 0)), func(l ledger) (bool, bool) { return false, false })
	add("transfer back", step("transfer", "address:v", "address:u", 4, gas(0, 0)), func(l ledger) (bool, bool) { return sent(l, "address:v", "address:u", 4, 0, tokens{}, nil) })
	for _, to := range []string{"address:v", "sc:A", "address:u", "address:nobody"} {
		to := to
		add("transfer of tokens to "+to, step("transfer", "address:u", to, 1, esdt("FUN-abcdef", 0, 60)+gas(1000, 1)), func(l ledger) (bool, bool) {
			return sent(l, "address:u", to, 1, 1000, tokens{fun: 60}, nil)
		})
		if to != "address:u" {
			add("transfer of an instance to "+to, step("transfer", "address:u", to, 0, esdt("NFT-abcdef", 1, 3)+gas(1000, 1)), func(l ledger) (bool, bool) {
				return sent(l, "address:u", to, 0, 1000, tokens{nft: 3}, nil)
			})
		}
	}
	add("transfer of tokens which are missing", step("transfer", "address:u", "address:v", 0, esdt("FUN-abcdef", 0, 101)+gas(1000, 1)), func(l ledger) (bool, bool) {
		return sent(l, "address:u", "address:v", 0, 1000, tokens{fun: 101}, nil)
	})
	add("transfer of tokens with more value than there is", step("transfer", "address:u", "address:v", 1000000, esdt("FUN-abcdef", 0, 60)+gas(1000, 1)), func(l ledger) (bool, bool) {
		return sent(l, "address:u", "address:v", 1000000, 1000, tokens{fun: 60}, nil)
	})
	add("reward", step("validatorReward", "", "address:v", 300, ""), func(l ledger) (bool, bool) {
		v := l["address:v"]
		v.balance += 300
		n := new(big.Int).SetBytes([]byte(v.storage["ELRONDreward"]))
		v.storage["ELRONDreward"] = string(n.Add(n, big.NewInt(300)).Bytes())
		return true, true
	})
	add("reward of nobody", step("validatorReward", "", "address:nobody", 300, ""), func(l ledger) (bool, bool) { return false, false })
	call := func(fn string, value int64, price int64, tk tokens) {
		more := fmt.Sprintf(`, "function": "%s"`, fn)
		if tk.fun > 0 {
			more += esdt("FUN-abcdef", 0, int(tk.fun))
		}
		if tk.nft > 0 {
			more += esdt("NFT-abcdef", 1, int(tk.nft))
		}
		limit := int64(9000000)
		if price > 0 {
			limit = 200000
		}
		add(fmt.Sprintf("call of %s with %d and %v at %d", fn, value, tk, price), step("scCall", "address:u", "sc:A", value, more+gas(int(limit), int(price))), func(l ledger) (bool, bool) {
			return sent(l, "address:u", "sc:A", value, limit*price, tk, func(l ledger) bool { return l.apply("sc:A", seqPrograms[fn]) })
		})
	}
	for fn := range seqPrograms {
		call(fn, 0, 0, tokens{})
	}
	call("store", 6, 2, tokens{})
	call("store", 1000001, 0, tokens{})
	call("no", 6, 1, tokens{})
	call("pay", 0, 0, tokens{fun: 5})
	call("no", 2, 0, tokens{fun: 5})
	call("no", 2, 0, tokens{nft: 1})
	call("tok", 2, 0, tokens{nft: 1})
	add("call of nobody", step("scCall", "address:u", "sc:nobody", 0, `, "function": "f"`+gas(100000, 0)), func(l ledger) (bool, bool) { return false, false })
	add("call of a user", step("scCall", "address:u", "address:v", 0, `, "function": "f"`+gas(100000, 0)), func(l ledger) (bool, bool) { return false, false })
	for _, ok := range []bool{true, false} {
		ok := ok
		m := wb.New()
		m.Fn("init", func(f *wb.F) {
			f.Do("storageStore", wb.S("i"), wb.I(1), wb.S("val"), wb.I(3))
			if !ok {
				f.Do("signalError", wb.S("no"), wb.I(2))
			}
		})
		code := m.Bytes()
		add(fmt.Sprintf("deployment with init which succeeds: %v", ok), step("scDeploy", "address:u", "", 4, fmt.Sprintf(`, "contractCode": "0x%x"`, code)+gas(1000000, 0)), func(l ledger) (bool, bool) {
			new := fmt.Sprintf("sc:new%d", l["address:u"].nonce)
			return sent(l, "address:u", new, 4, 0, tokens{}, func(l ledger) bool {
				l[new].code, l[new].owner, l[new].storage["i"] = string(code), "address:u", "val"
				return ok
			})
		})
	}
	add("another v", `{"step": "setState", "accounts": {"address:v": {"nonce": "3", "balance": "77", "storage": {"str:n": "5"}}}}`, func(l ledger) (bool, bool) {
		l["address:v"] = &lAccount{nonce: 3, balance: 77, storage: map[string]string{"n": "\x05"}}
		return true, true
	})
	add("query", `{"step": "scQuery", "txId": "t", "tx": {"to": "sc:A", "function": "nothing"}}`, func(l ledger) (bool, bool) { return true, true })
	return ks
}

func runTxSequences(c *core.Ctx) {
	ms := newModules()
	var fns []string
	for fn := range seqPrograms {
		fns = append(fns, fn)
	}
	sort.Strings(fns)
	for _, fn := range fns {
		ms.fn("sc:A", fn, seqPrograms[fn])
	}
	kinds := txKinds()
	sort.Slice(kinds, func(i, j int) bool { return kinds[i].name < kinds[j].name })
	depth := 3
	if c.Thorough {
		depth = 4
	}
	state, start := ms.worldState()
	state = strings.Replace(state, `"balance": "1000"`, `"balance": "1000000"`, 1)
	start["address:u"].balance = 1000000
	mocks := ""
	for n := 7; n < 15; n++ {
		mocks += fmt.Sprintf(`, {"creatorAddress": "address:u", "creatorNonce": "%d", "newAddress": "sc:new%d"}`, n, n)
	}
	set := `{"step": "setState", "accounts": {` + state + `}, "newAddresses": [` + mocks[2:] + `]}`
	all := `{"gasSchedule": "dummy", "steps": [` + set
	for _, k := range kinds {
		all += ", " + k.js
	}
	for first := range kinds {
		for second := range kinds {
			if depth == 3 && second > 0 {
				break
			}
			first, second := first, second
			c.Case(func() string {
				return fmt.Sprintf("sequences of transactions which begin with: %s, %s", kinds[first].name, kinds[second].name)
			}, func(t *core.T) {
				s := readScenario(t, all+"]}")
				if s == nil {
					return
				}
				ex := newExecutor()
				var seq []int
				try := func() (goOn bool) {
					ex.World.Clear()
					t.Exec(1)
					if err := ex.ExecuteScenario(&mj.Scenario{GasSchedule: s.GasSchedule, Steps: s.Steps[:1]}, exprFiles); err != nil {
						t.Failf("the state cannot be set: %v", err)
						return false
					}
					text := ""
					l := start.clone()
					for n, k := range seq {
						text += "; " + kinds[k].name
						ok, possible := kinds[k].effect(l)
						var out *vmcommon.VMOutput
						var err error
						if _, isTx := s.Steps[k+1].(*mj.TxStep); isTx {
							out, err = runTx(t, ex, s.Steps[k+1])
						} else {
							err = ex.ExecuteStep(s.Steps[k+1])
							out = &vmcommon.VMOutput{}
						}
						t.Trans(1)
						if !possible {
							t.Outcome("impossible")
							if err == nil {
								t.Failf("the last of %s is executed: %v %q", text, out.ReturnCode, out.ReturnMessage)
							}
							return false
						}
						if err != nil {
							t.Failf("%s: %v", text, err)
							return false
						}
						t.Outcome(fmt.Sprintf("succeeds: %v", ok))
						if ok != (out.ReturnCode == vmcommon.Ok) {
							t.Failf("%s: %v %q", text, out.ReturnCode, out.ReturnMessage)
							return false
						}
						if n < len(seq)-1 {
							continue // was compared before
						}
						if d := l.compare(ex.World); d != "" {
							t.Failf("after %s: %s", text, d)
							return false
						}
					}
					return true
				}
				var rec func()
				rec = func() {
					if !try() || len(seq) == depth {
						return
					}
					for k := range kinds {
						seq = append(seq, k)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				seq = []int{first}
				if depth > 3 {
					if !try() {
						return
					}
					seq = append(seq, second)
				}
				rec()
			})
		}
	}
}

// runBlockInfo checks what contracts see of the blocks which were set.
func runBlockInfo(c *core.Ctx) {
	type block struct {
		present                        bool
		timestamp, nonce, round, epoch uint64
		seed                           string
	}
	nums := []uint64{0, 1, 2, 1000000, 1<<63 - 1}
	var blocks []block
	blocks = append(blocks, block{})
	for _, n := range nums {
		e := n
		if e > 1<<31-1 {
			e = 1<<31 - 1
		}
		blocks = append(blocks, block{true, n, 0, 0, 0, ""}, block{true, 0, n, 0, 0, strings.Repeat("ab", 24)}, block{true, 0, 0, n, 0, strings.Repeat("seed", 12)}, block{true, 0, 0, 0, e, "a" + strings.Repeat("\x00", 47)}, block{true, n, n / 2, n / 3, e / 4, strings.Repeat("\x00", 47) + "z"})
	}
	js := func(b block) string {
		seed := ""
		if b.seed != "" {
			seed = fmt.Sprintf(`, "blockRandomSeed": "0x%x"`, b.seed)
		}
		return fmt.Sprintf(`{"blockTimestamp": "%d", "blockNonce": "%d", "blockRound": "%d", "blockEpoch": "%d"%s}`, b.timestamp, b.nonce, b.round, b.epoch, seed)
	}
	m := wb.New()
	hashes := []int64{-1, 0, 1, 2, 3}
	m.Fn("f", func(f *wb.F) {
		for i, p := range []string{"getPrev", "get"} {
			seed := wb.I(int32(48*i + 8))
			for _, x := range []string{"BlockTimestamp", "BlockNonce", "BlockRound", "BlockEpoch"} {
				f.FinishI64(wb.Call(p + x))
			}
			f.Do(p+"BlockRandomSeed", seed)
			f.Do("finish", seed, wb.I(48))
		}
		for i, h := range hashes {
			at := wb.I(int32(200 + 32*i))
			f.Do("getBlockHash", wb.Op2(0x7d, wb.Call("getBlockNonce"), wb.L(h)), at)
			f.Do("finish", at, wb.I(32))
		}
	})
	code := m.Bytes()
	for _, prev := range blocks {
		prev := prev
		c.Case(func() string { return fmt.Sprintf("previous block %+v", prev) }, func(t *core.T) {
			ex := newExecutor()
			for _, cur := range blocks {
				for n := 0; n < 5; n++ {
					t.Exec(1)
					state := `"accounts": {"address:u": {"balance": "100"}, "sc:A": {"code": "0x` + fmt.Sprintf("%x", code) + `"}}`
					if prev.present {
						state += `, "previousBlockInfo": ` + js(prev)
					}
					if cur.present {
						state += `, "currentBlockInfo": ` + js(cur)
					}
					var hs []string
					for i := 0; i < n; i++ {
						hs = append(hs, fmt.Sprintf(`"0x%x"`, hashOf(i)))
					}
					if n > 0 {
						state += `, "blockHashes": [` + strings.Join(hs, ", ") + "]"
					}
					s := readScenario(t, `{"gasSchedule": "dummy", "steps": [{"step": "setState", `+state+`}, {"step": "scCall", "txId": "1", "tx": {"from": "address:u", "to": "sc:A", "function": "f", "gasLimit": "1000000", "gasPrice": "0"}}]}`)
					if s == nil {
						return
					}
					ex.World.Clear()
					if err := ex.ExecuteScenario(&mj.Scenario{GasSchedule: s.GasSchedule, Steps: s.Steps[:1]}, exprFiles); err != nil {
						t.Failf("the state cannot be set: %v", err)
						return
					}
					out, err := runTx(t, ex, s.Steps[1])
					if err != nil {
						t.Failf("blocks %+v %+v: %v", prev, cur, err)
						return
					}
					var want []string
					for _, b := range []block{prev, cur} {
						for _, v := range []uint64{b.timestamp, b.nonce, b.round, b.epoch} {
							want = append(want, new(big.Int).SetUint64(v).String())
						}
						want = append(want, fmt.Sprintf("%x", b.seed+strings.Repeat("\x00", 48-len(b.seed))))
					}
					for _, h := range hashes { // the hash of a block which is not known is not written
						x := make([]byte, 32)
						if h >= 0 && h < int64(n) && uint64(h) <= cur.nonce {
							copy(x, hashOf(int(h)))
						}
						want = append(want, fmt.Sprintf("%x", x))
					}
					var got []string
					for i, d := range out.ReturnData {
						if i%5 == 4 || i >= 10 {
							got = append(got, fmt.Sprintf("%x", d))
						} else {
							got = append(got, fmt.Sprint(leNumber(d)))
						}
					}
					if out.ReturnCode != vmcommon.Ok {
						t.Failf("blocks %+v %+v with %d hashes: %v %q", prev, cur, n, out.ReturnCode, out.ReturnMessage)
						return
					}
					if strings.Join(got, " ") != strings.Join(want, " ") {
						t.Failf("blocks %+v %+v with %d hashes: %v, not %v", prev, cur, n, got, want)
						return
					}
				}
			}
		})
	}
}

func hashOf(i int) string { return strings.Repeat(string(rune('p'+i)), 32) }

// scratchFiles makes a directory with files and runs f in it.
func scratchFiles(t *core.T, files map[string]string, f func(dir string)) {
	dir, err := os.MkdirTemp("", "c44-")
	if err != nil {
		t.Failf("no scratch directory: %v", err)
		return
	}
	defer os.RemoveAll(dir)
	for name, content := range files {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0700); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(content), 0600); err != nil {
			panic(err)
		}
	}
	f(dir)
}

// gasOf is the gas left by a call under a schedule.
func gasOf(t *core.T, schedule string) string {
	ex := newExecutor()
	s := readScenario(t, gasScenario(schedule, "", "*"))
	if s == nil {
		return ""
	}
	if err := ex.ExecuteScenario(&mj.Scenario{GasSchedule: s.GasSchedule, Steps: s.Steps[:1]}, exprFiles); err != nil {
		t.Failf("the state cannot be set: %v", err)
		return ""
	}
	out, err := runTx(t, ex, s.Steps[1])
	if err != nil || out.ReturnCode != vmcommon.Ok {
		t.Failf("the call cannot be made: %v %v", err, out)
		return ""
	}
	return fmt.Sprint(out.GasRemaining)
}

var gasCode = func() []byte {
	m := wb.New()
	m.Fn("f", func(f *wb.F) { f.Finish([]byte("x")); appendX(f, "k") })
	return m.Bytes()
}()

func gasSteps(gas string) string {
	return `{"step": "setState", "accounts": {"address:u": {"balance": "100"}, "sc:A": {"code": "0x` + fmt.Sprintf("%x", gasCode) + `"}}}, {"step": "scCall", "txId": "1", "tx": {"from": "address:u", "to": "sc:A", "function": "f", "gasLimit": "90,000,000", "gasPrice": "0"}, "expect": {"out": ["*"], "gas": "` + gas + `"}}`
}

func gasScenario(schedule, more, gas string) string {
	return `{"gasSchedule": "` + schedule + `"` + more + `, "steps": [` + gasSteps(gas) + `]}`
}

func addStep(scenario, steps string) string {
	return strings.TrimSuffix(scenario, "]}") + ", " + steps + "]}"
}

func runExternal(c *core.Ctx) {
	setFile := `{"step": "setState", "accounts": {"address:f": {"storage": {"str:f": "file:v.txt"}}}}`
	checkFile := func(v string) string {
		return `{"step": "checkState", "accounts": {"address:f": {"storage": {"str:f": "str:` + v + `"}}, "+": ""}}`
	}
	scen := func(steps ...string) string {
		return `{"gasSchedule": "dummy", "steps": [` + strings.Join(steps, ", ") + "]}"
	}
	ext := func(p string) string { return `{"step": "externalSteps", "path": "` + p + `"}` }
	files := map[string]string{
		"v.txt": "main", "sub/v.txt": "sub", "sub/deep/v.txt": "deep",
		"sub/plain.json":      scen(setFile, checkFile("sub")),
		"sub/deep/plain.json": scen(setFile, checkFile("deep")),
		"sub/nested.json":     scen(ext("deep/plain.json"), checkFile("deep"), setFile, ext("plain.json"), ext("deep/back.json"), checkFile("main")),
		"sub/deep/back.json":  scen(setFile, ext("../../root.json"), checkFile("main")),
		"root.json":           scen(setFile, checkFile("main")),
		"sub/wrong.json":      scen(setFile, checkFile("main")),
		"sub/deepwrong.json":  scen(ext("wrong.json")),
		"sub/bad.json":        "{",
		"sub/nogas.json":      `{"checkGas": false, "steps": []}`,
		"sub/other.json":      `{"gasSchedule": "v3", "steps": []}`,
	}
	type item struct {
		js   string
		file string // what the account has afterwards
		ok   bool
	}
	items := []item{
		{setFile, "main", true}, {ext("sub/plain.json"), "sub", true}, {ext("sub/deep/plain.json"), "deep", true}, {ext("sub/nested.json"), "main", true}, {ext("sub/deep/back.json"), "main", true}, {ext("root.json"), "main", true},
		{ext("sub/wrong.json"), "", false}, {ext("sub/deepwrong.json"), "", false}, {ext("sub/bad.json"), "", false}, {ext("sub/missing.json"), "", false}, {ext("plain.json"), "", false},
		{ext("sub/nogas.json"), "-", true}, {ext("sub/other.json"), "-", true}, {"wrong gas", "-", false}, {"right gas", "-", true},
	}
	for first := range items {
		first := first
		c.Case(func() string { return "scenarios which begin with " + items[first].js }, func(t *core.T) {
			gas := gasOf(t, "dummy")
			ex := newExecutor()
			scratchFiles(t, files, func(dir string) {
				sequences(first, len(items), 3, func(seq []int) {
					t.Exec(1)
					var steps []string
					ok := true
					now := ""
					for _, i := range seq {
						it := items[i]
						js := it.js
						if js == "wrong gas" {
							js = gasSteps("1" + gas)
						} else if js == "right gas" {
							js = gasSteps(gas)
						}
						steps = append(steps, js)
						ok = ok && it.ok
						if it.file != "-" {
							now = it.file
						}
						if now != "" {
							steps = append(steps, checkFile(now))
						}
					}
					p := filepath.Join(dir, "main.json")
					if err := os.WriteFile(p, []byte(scen(steps...)), 0600); err != nil {
						panic(err)
					}
					ex.Reset()
					err := mc.NewScenarioRunner(ex, fr.NewDefaultFileResolver()).RunSingleJSONScenario(p)
					if ok != (err == nil) {
						t.Failf("the scenario with the steps %s ends with %v", strings.Join(steps, ", "), err)
					}
				})
			})
		})
	}
	// directories
	type kind struct {
		name string
		file string
		ok   bool
	}
	dirDepth := 2
	if c.Thorough {
		dirDepth = 3
	}
	for i := 0; i < 13; i++ {
		first := i
		c.Case(func() string { return fmt.Sprintf("directories of scenarios, the first of kind %d", first) }, func(t *core.T) {
			stdout := os.Stdout
			null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
			if err != nil {
				t.Failf("%v", err)
				return
			}
			defer null.Close()
			dummy, v3, v1 := gasOf(t, "dummy"), gasOf(t, "v3"), gasOf(t, "v1")
			if dummy == v3 {
				t.Failf("the schedules cannot be told apart")
			}
			isFresh := `{"step": "checkState", "accounts": {}}`
			kinds := []kind{
				{"%d.scen.json", gasScenario("dummy", "", dummy), true},
				{"%d.scen.json", gasScenario("dummy", "", "1"+dummy), false},
				{"%d.scen.json", gasScenario("dummy", `, "checkGas": false`, "1"+dummy), true},
				{"sub/%d.scen.json", gasScenario("v3", "", v3), true},
				{"%d.scen.json", gasScenario("v1", "", v1), true},
				{"%d.scen.json", strings.Replace(gasScenario("dummy", "", v3), `"gasSchedule": "dummy", `, "", 1), true},
				{"%d.scen.json", scen(isFresh), true},
				{"%d.scen.json", addStep(scen(setFile), isFresh), false},
				{"%d.scen.json", "{", false},
				{"%d.json", "{", true},
				{"excluded%d.scen.json", "{", true},
				{"sub/excluded%d.scen.json", "{", false},
				{"sub/sub/%d.scen.json", scen(ext("../../../v.json")), false},
			}
			sequences(first, len(kinds), dirDepth, func(seq []int) {
				t.Exec(1)
				ok := true
				fs := map[string]string{"d/v.txt": "x"}
				for i, n := range seq {
					k := kinds[n]
					fs["d/"+fmt.Sprintf(k.name, i)] = k.file
					ok = ok && k.ok
				}
				scratchFiles(t, fs, func(dir string) {
					os.Stdout = null
					err := mc.NewScenarioRunner(newExecutor(), fr.NewDefaultFileResolver()).RunAllJSONScenariosInDirectory(dir, "d", ".scen.json", []string{"d/excluded*.scen.json"})
					os.Stdout = stdout
					if ok != (err == nil) {
						t.Failf("a directory with %v ends with %v", fs, err)
					}
				})
			})
			os.Stdout = null
			err = mc.NewScenarioRunner(newExecutor(), fr.NewDefaultFileResolver()).RunAllJSONScenariosInDirectory("/nonexistent", "d", ".scen.json", nil)
			os.Stdout = stdout
			if err == nil {
				t.Failf("the scenarios of a directory which does not exist pass")
			}
		})
	}
}

// leNumber is the number little-endian bytes stand for.
func leNumber(b []byte) uint64 {
	n := uint64(0)
	for i := len(b) - 1; i >= 0; i-- {
		n = n<<8 | uint64(b[i])
	}
	return n
}

// sequences enumerates the sequences of up to depth numbers below n which begin with first.
func sequences(first, n, depth int, f func([]int)) {
	var rec func(seq []int)
	rec = func(seq []int) {
		f(seq)
		if len(seq) == depth {
			return
		}
		for i := 0; i < n; i++ {
			rec(append(seq[:len(seq):len(seq)], i))
		}
	}
	rec([]int{first})
}
