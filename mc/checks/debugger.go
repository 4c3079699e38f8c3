package checks

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwendebug"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"

	"vmc/core"
	"vmc/vmx"
	"vmc/wb"
)

func init() {
	core.Register(&core.Check{ID: "C45", Level: "model_checking", Rule: "All sequences of requests to the debugger up to a length (accounts, deployments, upgrades, calls and queries by two users, one of them with an address which is no text; failing ones, refused ones, and ones for another world), " +
		"executed with one facade (as by the server) or each with a new one (as by the command line) on a database on disk, are compared with the same transactions on one world in memory: every answer, every kept outcome, and the answers to a list of queries at the end of both worlds.", Assumptions: []string{"the WebAssembly engine of the harness stands in for Wasmer", "the world in memory is the repository's own mock world, which C43 and C44 check"}, Run: runC45})
}

var (
	dbgU = []byte("alice___________________________")
	dbgV = append([]byte{0xff, 0xfe, 0x80, 0xc3, 0x28}, []byte("__________________________\x9f")...)
)

func dbgCode(mark string) []byte {
	m := wb.New()
	arg := func(f *wb.F, i, at int32) int {
		n := f.Local("i")
		f.Set(n, wb.Call("getArgument", wb.I(i), wb.I(at)))
		return n
	}
	set := func(f *wb.F) {
		k, v := arg(f, 0, 3000), arg(f, 1, 4000)
		f.FinishI32(wb.Call("storageStore", wb.I(3000), wb.Get(k), wb.I(4000), wb.Get(v)))
	}
	m.Fn("init", func(f *wb.F) {
		f.If(wb.Call("getNumArguments"), func() { set(f) }, nil)
	})
	m.Fn("set", set)
	m.Fn("fail", func(f *wb.F) { set(f); f.Do("signalError", wb.S("no"), wb.I(2)) })
	m.Fn("get", func(f *wb.F) {
		f.Finish([]byte(mark))
		for i := int32(0); i < 2; i++ {
			k := arg(f, i, 3000)
			f.Do("finish", wb.I(4000), wb.Call("storageLoad", wb.I(3000), wb.Get(k), wb.I(4000)))
		}
	})
	m.Fn("pay", func(f *wb.F) {
		v := arg(f, 1, 4000)
		arg(f, 0, 3000)
		_ = v
		f.FinishI32(wb.Call("transferValue", wb.I(3000), wb.I(4000), wb.I(0), wb.I(0)))
	})
	m.Fn("see", func(f *wb.F) {
		f.Do("getCaller", wb.I(3000))
		f.Do("finish", wb.I(3000), wb.I(32))
		f.Do("finish", wb.I(4000), wb.Call("getCallValue", wb.I(4000)))
		f.Do("getOwnerAddress", wb.I(3000))
		f.Do("finish", wb.I(3000), wb.I(32))
		f.FinishI64(wb.Call("getGasLeft"))
		for i := int32(0); i < 3; i++ {
			arg(f, i, 3000)
			f.Do("getExternalBalance", wb.I(3000), wb.I(4000))
			f.Do("finish", wb.I(4000), wb.I(32))
		}
	})
	return m.Bytes()
}

// dbgReq is one request; what it asks for is described by the transaction it stands for.
type dbgReq struct {
	name  string
	world string
	kind  string // account, deploy, upgrade, run, query
	from  []byte
	to    []byte
	fn    string
	value string
	gas   uint64
	code  []byte
	meta  string
	args  []string
	nonce uint64
	bad   func(*dbgRaw) // spoils the request, which must be refused
}

// dbgRaw is the text of a request.
type dbgRaw struct {
	from, to, value, code, meta, codePath string
	args                                  []string
	gas                                   uint64
}

const dbgGas = 1 << 30

func dbgRequests() []dbgReq {
	cU, cV := worldmock.GenerateMockAddress(dbgU, 0), worldmock.GenerateMockAddress(dbgV, 2)
	one, two := dbgCode("one"), dbgCode("two")
	pay := string(make([]byte, 31)) + "\x01"
	odd := "k\xff\x80"
	return []dbgReq{
		{name: "account of U", kind: "account", from: dbgU, value: "0", nonce: 1},
		{name: "account of V", kind: "account", from: dbgV, value: "123456789012345678901234567890", nonce: 3},
		{name: "U deploys", kind: "deploy", from: dbgU, gas: dbgGas, code: one, args: []string{odd, "a"}},
		{name: "V deploys", kind: "deploy", from: dbgV, gas: dbgGas, code: one, value: "7", meta: "0506"},
		{name: "set", kind: "run", from: dbgV, to: cU, fn: "set", gas: dbgGas, args: []string{"t\x00", string([]byte{0, 0xff})}},
		{name: "unset", kind: "run", from: dbgU, to: cU, fn: "set", gas: dbgGas, args: []string{odd, ""}},
		{name: "pay", kind: "run", from: dbgU, to: cU, fn: "pay", value: "3", gas: dbgGas, args: []string{string(dbgV), pay}},
		{name: "fail", kind: "run", from: dbgU, to: cU, fn: "fail", value: "3", gas: dbgGas, args: []string{odd, "b"}},
		{name: "upgrade by U", kind: "upgrade", from: dbgU, to: cU, gas: dbgGas, code: two, args: []string{"t\x00", "up"}},
		{name: "upgrade by V", kind: "upgrade", from: dbgV, to: cU, gas: dbgGas, code: two, meta: "0100"},
		{name: "query", kind: "query", from: dbgV, to: cU, fn: "set", value: "1", gas: dbgGas, args: []string{odd, "q"}},
		{name: "set of V", kind: "run", from: dbgU, to: cV, fn: "set", gas: dbgGas, args: []string{odd, "v"}},
		{name: "bad code", kind: "deploy", from: dbgU, gas: dbgGas, code: []byte("no code")},
		{name: "no gas", kind: "run", from: dbgU, to: cU, fn: "set", gas: 10, args: []string{odd, "c"}},
		{name: "account of U elsewhere", world: "w2", kind: "account", from: dbgU, value: "42"},
		{name: "U deploys elsewhere", world: "w2", kind: "deploy", from: dbgU, gas: dbgGas, code: two, args: []string{odd, "w2"}},
		{name: "set elsewhere", world: "w2", kind: "run", from: dbgU, to: cU, fn: "set", gas: dbgGas, args: []string{odd, "w2"}},
		{name: "bad sender", kind: "run", from: dbgU, to: cU, fn: "set", gas: dbgGas, args: []string{odd, "d"}, bad: func(r *dbgRaw) { r.from += "0" }},
		{name: "no sender", kind: "run", from: dbgU, to: cU, fn: "set", gas: dbgGas, args: []string{odd, "d"}, bad: func(r *dbgRaw) { r.from = "" }},
		{name: "bad receiver", kind: "run", from: dbgU, to: cU, fn: "set", gas: dbgGas, args: []string{odd, "d"}, bad: func(r *dbgRaw) { r.to = "zz" }},
		{name: "bad value", kind: "upgrade", from: dbgU, to: cU, gas: dbgGas, code: two, bad: func(r *dbgRaw) { r.value = "0x1" }},
		{name: "bad argument", kind: "deploy", from: dbgU, gas: dbgGas, code: one, bad: func(r *dbgRaw) { r.args = []string{"61", "6"} }},
		{name: "zero gas", kind: "query", from: dbgU, to: cU, fn: "set", gas: dbgGas, bad: func(r *dbgRaw) { r.gas = 0 }},
		{name: "no code", kind: "deploy", from: dbgU, gas: dbgGas, bad: func(r *dbgRaw) {}},
		{name: "bad metadata", kind: "deploy", from: dbgU, gas: dbgGas, code: one, bad: func(r *dbgRaw) { r.meta = "x" }},
		{name: "missing file", kind: "deploy", from: dbgU, gas: dbgGas, bad: func(r *dbgRaw) { r.codePath = "/nonexistent/code.wasm" }},
		{name: "bad account", kind: "account", from: dbgV, value: "1", bad: func(r *dbgRaw) { r.value = "one" }},
	}
}

func dbgProbes() []dbgReq {
	cU, cV := worldmock.GenerateMockAddress(dbgU, 0), worldmock.GenerateMockAddress(dbgV, 2)
	var out []dbgReq
	for _, w := range []string{"", "w2"} {
		for _, c := range [][]byte{cU, cV} {
			if w != "" && bytes.Equal(c, cV) {
				continue
			}
			out = append(out, dbgReq{name: "get", world: w, kind: "query", from: dbgV, to: c, fn: "get", gas: dbgGas, args: []string{"k\xff\x80", "t\x00"}})
			out = append(out, dbgReq{name: "see", world: w, kind: "query", from: dbgU, to: c, fn: "see", value: "5", gas: dbgGas, args: []string{string(cU), string(dbgU), string(dbgV)}})
		}
	}
	return out
}

// dbgAnswer is what a request answers, as text.
func dbgAnswer(out *vmcommon.VMOutput, err error, in *vmcommon.VMInput, code string) string {
	return fmt.Sprintf("%s\nreturn code %q input %x %v %d %d %x", vmx.Canon(out, err), code, in.CallerAddr, in.CallValue, in.GasPrice, in.GasProvided, in.Arguments)
}

func (q dbgReq) raw() dbgRaw {
	r := dbgRaw{from: hex.EncodeToString(q.from), to: hex.EncodeToString(q.to), value: q.value, code: hex.EncodeToString(q.code), meta: q.meta, gas: q.gas}
	for _, a := range q.args {
		r.args = append(r.args, hex.EncodeToString([]byte(a)))
	}
	if q.bad != nil {
		q.bad(&r)
	}
	return r
}

// debugged sends the request to the debugger. The outcome is kept under the name key, if any.
func (q dbgReq) debugged(f *arwendebug.DebugFacade, db, key string) (answer string, err error) {
	stdout := os.Stdout // the debugger prints its answers
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	defer func() { os.Stdout.Close(); os.Stdout = stdout }()
	r := q.raw()
	base := arwendebug.RequestBase{DatabasePath: db, World: q.world, Outcome: key}
	if q.kind == "account" {
		_, err := f.CreateAccount(arwendebug.CreateAccountRequest{RequestBase: base, AddressHex: r.from, Balance: r.value, Nonce: q.nonce})
		return "", err
	}
	c := arwendebug.ContractRequestBase{RequestBase: base, ImpersonatedHex: r.from, Value: r.value, GasLimit: r.gas}
	d := arwendebug.DeployRequest{ContractRequestBase: c, CodeHex: r.code, CodePath: r.codePath, CodeMetadata: r.meta, ArgumentsHex: r.args}
	run := arwendebug.RunRequest{ContractRequestBase: c, ContractAddressHex: r.to, Function: q.fn, ArgumentsHex: r.args}
	var a *arwendebug.ContractResponseBase
	extra := ""
	switch q.kind {
	case "deploy":
		x, e := f.DeploySmartContract(d)
		if err = e; e == nil {
			a = &x.ContractResponseBase
			if x.Output != nil && x.Output.ReturnCode == vmcommon.Ok {
				extra = fmt.Sprintf(" at %x %s", x.ContractAddress, x.ContractAddressHex)
			}
		}
	case "upgrade":
		x, e := f.UpgradeSmartContract(arwendebug.UpgradeRequest{DeployRequest: d, ContractAddressHex: r.to})
		if err = e; e == nil {
			a = &x.ContractResponseBase
		}
	case "run":
		x, e := f.RunSmartContract(run)
		if err = e; e == nil {
			a = &x.ContractResponseBase
		}
	case "query":
		x, e := f.QuerySmartContract(arwendebug.QueryRequest{RunRequest: run})
		if err = e; e == nil {
			a = &x.ContractResponseBase
		}
	}
	if err != nil {
		return "", err
	}
	return dbgAnswer(a.Output, a.Error, a.Input, a.ReturnCodeString) + extra, nil
}

type dbgWorld struct {
	hook *worldmock.MockWorld
	vm   vmcommon.VMExecutionHandler
}

func newDbgWorld() *dbgWorld {
	w := worldmock.NewMockWorld()
	vm, err := host.NewArwenVM(w, &arwen.VMHostParameters{VMType: []byte{5, 0}, BlockGasLimit: 10000000, GasSchedule: config.MakeGasMap(1, 1), ElrondProtectedKeyPrefix: []byte("ELROND"), BuiltInFuncContainer: builtInFunctions.NewBuiltInFunctionContainer()})
	if err != nil {
		panic(err)
	}
	return &dbgWorld{w, vm}
}

// direct executes the transaction the request stands for on a world in memory.
func (q dbgReq) direct(w *dbgWorld) string {
	value := big.NewInt(0)
	if q.value != "" {
		value, _ = new(big.Int).SetString(q.value, 10)
	}
	if q.kind == "account" {
		a := w.hook.AcctMap.CreateAccount(q.from, w.hook)
		a.Balance, a.Nonce = value, q.nonce
		return ""
	}
	in := vmcommon.VMInput{CallerAddr: q.from, CallValue: value, GasPrice: 200000000000, GasProvided: q.gas}
	meta := []byte{1, 0}
	if q.meta != "" {
		meta, _ = hex.DecodeString(q.meta)
	}
	if q.kind == "upgrade" {
		in.Arguments = [][]byte{q.code, meta}
	}
	for _, a := range q.args {
		in.Arguments = append(in.Arguments, []byte(a))
	}
	var out *vmcommon.VMOutput
	var err error
	extra := ""
	if q.kind == "deploy" {
		out, err = w.vm.RunSmartContractCreate(&vmcommon.ContractCreateInput{VMInput: in, ContractCode: q.code, ContractCodeMetadata: meta})
		if err == nil && out.ReturnCode == vmcommon.Ok {
			extra = fmt.Sprintf(" at %x %x", w.hook.LastCreatedContractAddress, w.hook.LastCreatedContractAddress)
		}
	} else {
		fn := q.fn
		if q.kind == "upgrade" {
			fn = "upgradeContract"
		}
		out, err = w.vm.RunSmartContractCall(&vmcommon.ContractCallInput{VMInput: in, RecipientAddr: q.to, Function: fn})
	}
	code := ""
	if out != nil {
		code = out.ReturnCode.String()
	}
	if err == nil && q.kind != "query" {
		_ = w.hook.UpdateAccounts(out.OutputAccounts, nil)
	}
	return dbgAnswer(out, err, &in, code) + extra
}

func runC45(c *core.Ctx) {
	reqs, probes := dbgRequests(), dbgProbes()
	depth := 3
	if c.Thorough {
		depth = 4
	}
	good := 0
	for good < len(reqs) && reqs[good].bad == nil {
		good++
	}
	for i := range reqs {
		for j := range reqs {
			i, j := i, j
			if reqs[i].bad != nil && reqs[j].bad != nil {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("%s, %s, ...", reqs[i].name, reqs[j].name) }, func(t *core.T) {
				var rec func(seq []int)
				rec = func(seq []int) {
					if t.Failed() {
						return
					}
					if len(seq) == depth {
						dbgSession(t, reqs, probes, seq, (i+j)%2 == 1)
						return
					}
					for k := 0; k < good; k++ { // the refused ones come first or second
						rec(append(append([]int{}, seq...), k))
					}
				}
				rec([]int{i, j})
			})
		}
	}
}

// dbgSession executes one sequence of requests, by one facade (as the server does) or each by another (as the command line does).
func dbgSession(t *core.T, reqs, probes []dbgReq, seq []int, one bool) {
	dir, err := ioutil.TempDir("", "c45-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	db := filepath.Join(dir, "db")
	worlds := map[string]*dbgWorld{"": newDbgWorld(), "w2": newDbgWorld()}
	var names []string
	f := arwendebug.NewDebugFacade()
	check := func(q dbgReq, key string) bool {
		if !one {
			f = arwendebug.NewDebugFacade()
		}
		got, err := q.debugged(f, db, key)
		t.Exec(1)
		if q.bad != nil {
			if err == nil {
				t.Failf("%s: a bad request is not refused", strings.Join(names, ", "))
				return false
			}
			return true
		}
		want := q.direct(worlds[q.world])
		if err != nil || got != want {
			t.Failf("%s: the debugger answers %s, error %v, want %s", strings.Join(names, ", "), got, err, want)
			return false
		}
		return true
	}
	for n, i := range seq {
		names = append(names, reqs[i].name)
		key := ""
		if n == len(seq)-1 {
			key = "last"
		}
		t.Trans(1)
		if !check(reqs[i], key) {
			return
		}
	}
	last := reqs[seq[len(seq)-1]]
	if kept, err := ioutil.ReadFile(filepath.Join(db, "out", "last.json")); last.bad == nil {
		var v struct{ ReturnCodeString string }
		if err != nil || json.Unmarshal(kept, &v) != nil {
			t.Failf("%s: the outcome was not kept: %v", strings.Join(names, ", "), err)
			return
		}
	}
	for _, q := range probes {
		names = append(names, "probe "+q.fn+" of "+fmt.Sprintf("%x", q.to[14:])+q.world)
		if !check(q, "") {
			return
		}
		names = names[:len(names)-1]
	}
	// another database knows nothing of this one
	names = append(names, "probe of another database")
	db, worlds = filepath.Join(dir, "other"), map[string]*dbgWorld{"": newDbgWorld()}
	check(probes[0], "")
}
