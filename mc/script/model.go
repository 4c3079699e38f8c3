package script

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
	"github.com/ElrondNetwork/elrond-vm-common/parsers"

	"vmc/world"
)

// The reference model: the meaning of a tree of calls, in terms of plain values which are copied before every call and put back when
// it fails. It knows nothing of the VM's contexts.

type acct struct {
	onChain bool
	bal     int64
	nonce   uint64
	code    []byte
	meta    []byte
	owner   []byte
	chMeta  []byte // metadata on the chain, before the transaction
	storage map[string]string
	esdt    map[string]int64
}

// Transfer is an output transfer.
type xfer struct {
	from     []byte
	value    int64
	data     string
	typ      vmcommon.CallType
	gasKnown bool
	gas      uint64
}

func (x xfer) String() string {
	g := "?"
	if x.gasKnown {
		g = fmt.Sprint(x.gas)
	}
	return fmt.Sprintf("(from %s value %d data %q type %d gas %s)", Nick(x.from), x.value, x.data, x.typ, g)
}

type logEntry struct {
	id, addr, data string
	topics         []string
}

func (l logEntry) String() string {
	return fmt.Sprintf("(%q by %s topics %q data %q)", l.id, Nick([]byte(l.addr)), l.topics, l.data)
}

type state struct {
	acc   map[string]*acct
	xfers map[string][]xfer
	logs  []logEntry
	ret   []string
	msg   string
}

func (s *state) clone() *state {
	c := &state{acc: make(map[string]*acct, len(s.acc)), xfers: make(map[string][]xfer, len(s.xfers)), msg: s.msg}
	for k, a := range s.acc {
		b := *a
		b.storage = make(map[string]string, len(a.storage))
		for x, y := range a.storage {
			b.storage[x] = y
		}
		b.esdt = make(map[string]int64, len(a.esdt))
		for x, y := range a.esdt {
			b.esdt[x] = y
		}
		c.acc[k] = &b
	}
	for k, v := range s.xfers {
		c.xfers[k] = append([]xfer{}, v...)
	}
	c.logs = append([]logEntry{}, s.logs...)
	c.ret = append([]string{}, s.ret...)
	return c
}

func (s *state) get(addr []byte) *acct {
	a := s.acc[string(addr)]
	if a == nil {
		a = &acct{storage: map[string]string{}, esdt: map[string]int64{}}
		s.acc[string(addr)] = a
	}
	return a
}

type esdtPay struct {
	token string
	nonce int64
	value int64
}

type frameIn struct {
	caller, self []byte
	fn           string
	args         []string
	value        int64
	typ          vmcommon.CallType
	allowInit    bool
	retAfterErr  bool
	esdt         *esdtPay
	fnSeen       string
	deployedInit bool
	level        int // see rich
}

// Gas is modelled as a number of callback locks: none at all, some (too little for a lock), that many locks, or plenty.
const (
	broke = -1
	some  = 0
	rich  = 1000
)

type frame struct {
	in       frameIn
	store    []byte
	readOnly bool
	ints     *int
	res      []byte
	code     []byte
	left     int // the gas level at the end
}

// Outcome is what the model says about a transaction.
type Outcome struct {
	RC    vmcommon.ReturnCode
	Msg   string
	St    *state
	Calls int
}

// Model interprets programs.
type Model struct {
	p        *Program
	w        *world.World
	st       *state
	esdtKeys []string // token/nonce
	calls    int
	depth    int // calls in progress below the first
	V3       bool
	// StaticLock: gas is locked for a callback even when the contract has none.
	StaticLock bool
	txHash     string
}

func load(w *world.World, tokens []string) *state {
	s := &state{acc: map[string]*acct{}, xfers: map[string][]xfer{}}
	for k, a := range w.Accounts {
		m := &acct{onChain: true, bal: units(a.Balance), nonce: a.Nonce, code: a.Code, meta: a.Meta, owner: a.Owner, chMeta: a.Meta, storage: map[string]string{}, esdt: map[string]int64{}}
		for x, y := range a.Storage {
			if !strings.HasPrefix(x, "ELROND") && len(y) > 0 {
				m.storage[x] = string(y)
			}
		}
		for _, t := range tokens {
			tok, n := splitTok(t)
			if v := w.ESDT([]byte(k), tok, uint64(n)); v.Sign() != 0 {
				m.esdt[t] = units(v)
			}
		}
		s.acc[k] = m
	}
	return s
}

func tokKey(token string, nonce int64) string { return fmt.Sprintf("%s/%d", token, nonce) }
func splitTok(k string) (string, int64) {
	i := strings.LastIndex(k, "/")
	var n int64
	fmt.Sscan(k[i+1:], &n)
	return k[:i], n
}

// fault is an error of an API function: the running contract ends, its message is the error's.
func (m *Model) fault(err error) error {
	m.st.msg = err.Error()
	return arwen.ErrExecutionFailed
}

func rcOf(err error) vmcommon.ReturnCode {
	switch {
	case err == nil:
		return vmcommon.Ok
	case errors.Is(err, arwen.ErrFuncNotFound):
		return vmcommon.FunctionNotFound
	case errors.Is(err, arwen.ErrSignalError), errors.Is(err, arwen.ErrInvalidFunction):
		return vmcommon.UserError
	case errors.Is(err, arwen.ErrNotEnoughGas):
		return vmcommon.OutOfGas
	case errors.Is(err, arwen.ErrContractNotFound):
		return vmcommon.ContractNotFound
	case errors.Is(err, arwen.ErrContractInvalid):
		return vmcommon.ContractInvalid
	case errors.Is(err, arwen.ErrTransferInsufficientFunds):
		return vmcommon.OutOfFunds
	}
	return vmcommon.ExecutionFailed
}

type result struct {
	rc  vmcommon.ReturnCode
	msg string
	ret []string
	// xfers to the caller made during the call
	back  []xfer
	level int
	// untouched: the call failed before it took any gas
	untouched bool
}

func (m *Model) failed(err error) result {
	msg := m.st.msg
	if msg == "" && !errors.Is(err, arwen.ErrSignalError) {
		msg = err.Error()
	}
	return result{rc: rcOf(err), msg: msg, level: broke}
}

func isSC(a []byte) bool             { return vmcommon.IsSmartContractAddress(a) }
func (m *Model) shard(a []byte) bool { return m.w.GetShardOfAddress(a) == m.w.Shard }
func (m *Model) builtin(fn string) bool {
	return m.w.BuiltIn != nil && hasBuiltIn(m.w, fn)
}

func hasBuiltIn(w *world.World, fn string) bool {
	_, ok := w.BuiltIn.Keys()[fn]
	return ok
}

func (m *Model) move(from, to []byte, v int64, readOnly bool) error {
	if readOnly && v != 0 {
		return arwen.ErrInvalidCallOnReadOnlyMode
	}
	f := m.st.get(from)
	if v == Huge || f.bal < v {
		return arwen.ErrTransferInsufficientFunds
	}
	f.bal -= v
	m.st.get(to).bal += v
	return nil
}

// Run interprets a call by a user.
func (m *Model) run(in *vmcommon.ContractCallInput) Outcome {
	start := m.st.clone()
	if caller := m.st.acc[string(in.CallerAddr)]; caller != nil {
		caller.bal -= units(in.CallValue)
	}
	m.st.get(in.RecipientAddr).bal += units(in.CallValue)
	var args []string
	for _, a := range in.Arguments {
		args = append(args, string(a))
	}
	fi := frameIn{caller: in.CallerAddr, self: in.RecipientAddr, fn: in.Function, args: args, value: units(in.CallValue), typ: in.CallType, level: rich}
	if len(in.ESDTTransfers) > 0 {
		t := in.ESDTTransfers[0]
		fi.esdt = &esdtPay{string(t.ESDTTokenName), int64(t.ESDTTokenNonce), units(t.ESDTValue)}
	}
	err := m.top(fi)
	if err != nil {
		r := m.failed(err)
		m.st = start
		return Outcome{RC: r.rc, Msg: r.msg, St: m.st, Calls: m.calls}
	}
	return Outcome{RC: vmcommon.Ok, Msg: m.st.msg, St: m.st, Calls: m.calls}
}

func (m *Model) top(fi frameIn) error {
	a := m.st.acc[string(fi.self)]
	if a == nil || len(a.code) == 0 {
		return arwen.ErrContractNotFound
	}
	if fi.fn == "init" {
		return arwen.ErrInitFuncCalledInRun
	}
	if fi.fn == "callBack" && fi.typ != vmcommon.AsynchronousCallBack {
		return arwen.ErrCallBackFuncCalledInRun
	}
	nd := m.p.funcs[string(a.code)][fi.fn]
	if nd == nil {
		if fi.typ == vmcommon.AsynchronousCallBack {
			// nothing to call back: the contract keeps what came with it
			return nil
		}
		return arwen.ErrFuncNotFound
	}
	ints := 0
	fr := &frame{in: fi, store: fi.self, ints: &ints, res: make([]byte, 32), left: fi.level, code: a.code}
	if err := m.body(fr, nd); err != nil {
		return err
	}
	if fi.typ == vmcommon.AsynchronousCall {
		// the results, and the value, go back to the caller in another shard
		data := "@" + hex.EncodeToString([]byte("ok"))
		for _, r := range m.st.ret {
			data += "@" + hex.EncodeToString([]byte(r))
		}
		if err := m.move(fi.self, fi.caller, fi.value, false); err != nil {
			m.st.msg = err.Error()
			return err
		}
		m.xfer(fi.caller, xfer{from: fi.self, value: fi.value, data: data, typ: vmcommon.AsynchronousCallBack})
	}
	return nil
}

// onDest is a call with its own state.
func (m *Model) onDest(in frameIn, readOnly bool) (result, error) {
	snap := m.st.clone()
	if m.builtin(in.fn) {
		post, err := m.callBuiltin(in, readOnly)
		if err != nil {
			m.st = snap
			return m.failed(err), err
		}
		if post == nil {
			return result{rc: vmcommon.Ok, level: in.level}, nil
		}
		in = *post
	}
	r, err := m.onDestNB(in, readOnly)
	if err != nil {
		m.st = snap
	}
	return r, err
}

func (m *Model) onDestNB(in frameIn, readOnly bool) (result, error) {
	saved := m.st.clone()
	before := len(m.st.xfers[string(in.caller)])
	m.st.ret, m.st.logs, m.st.msg = nil, nil, ""
	fr := &frame{in: in, store: in.self, readOnly: readOnly, ints: new(int), res: make([]byte, 32), left: in.level}
	untouched := false
	err := func() error {
		if in.typ != vmcommon.AsynchronousCallBack || in.value == 0 {
			if e := m.move(in.caller, in.self, in.value, readOnly); e != nil {
				untouched = true
				return e
			}
		}
		untouched = in.fn == "init" && !in.allowInit || in.fn == "callBack" && in.typ != vmcommon.AsynchronousCallBack
		return m.execute(fr)
	}()
	if err != nil {
		r := m.failed(err)
		r.untouched = untouched
		m.st = saved
		return r, err
	}
	r := result{rc: vmcommon.Ok, ret: append([]string{}, m.st.ret...), msg: m.st.msg, level: fr.left}
	r.back = append(r.back, m.st.xfers[string(in.caller)][before:]...)
	m.st.ret = append(append([]string{}, saved.ret...), m.st.ret...)
	m.st.logs = append(append([]logEntry{}, saved.logs...), m.st.logs...)
	return r, nil
}

// execute runs a function of a contract in a new frame.
func (m *Model) execute(fr *frame) error {
	m.calls++
	m.depth++
	defer func() { m.depth-- }()
	in := &fr.in
	if in.fn == "init" && !in.allowInit {
		return arwen.ErrInitFuncCalledInRun
	}
	if in.fn == "callBack" && in.typ != vmcommon.AsynchronousCallBack {
		return arwen.ErrCallBackFuncCalledInRun
	}
	if in.fn == "upgradeContract" {
		return m.upgrade(fr)
	}
	a := m.st.acc[string(in.self)]
	if a == nil || (!a.onChain && len(a.code) == 0) {
		return errors.New("account not found")
	}
	if len(a.code) == 0 {
		return arwen.ErrContractNotFound
	}
	fr.code = a.code
	if uint64(m.depth) >= host.MaximumWasmerInstanceCount {
		return arwen.ErrMaxInstancesReached
	}
	nd := m.p.funcs[string(a.code)][in.fn]
	if nd == nil {
		if in.fn == "callBack" {
			return nil
		}
		return arwen.ErrFuncNotFound
	}
	return m.body(fr, nd)
}

func (m *Model) upgrade(fr *frame) error {
	in := &fr.in
	a := m.st.acc[string(in.self)]
	if a == nil || !a.onChain {
		return errors.New("account not found")
	}
	if fr.readOnly {
		return arwen.ErrInvalidCallOnReadOnlyMode
	}
	if !vmcommon.CodeMetadataFromBytes(a.chMeta).Upgradeable || !bytes.Equal(a.owner, in.caller) {
		return arwen.ErrUpgradeNotAllowed
	}
	if len(in.args) < 2 {
		return arwen.ErrInvalidUpgradeArguments
	}
	code, meta := []byte(in.args[0]), []byte(in.args[1])
	fns, ok := m.p.funcs[string(code)]
	if !ok || uint64(m.depth) >= host.MaximumWasmerInstanceCount {
		return arwen.ErrContractInvalid
	}
	in.args = in.args[2:]
	fr.code = code
	if nd := fns["init"]; nd != nil {
		if err := m.body(fr, nd); err != nil {
			return err
		}
	}
	a = m.st.get(in.self)
	a.code, a.meta = code, meta
	return nil
}

// body runs the actions of a function; it returns the Go error of the frame.
func (m *Model) body(fr *frame, nd *Node) error {
	for i := range nd.Acts {
		a := &nd.Acts[i]
		if a.Op == Call && (a.Kind == Async || a.Kind == AsyncESDT || a.Kind == Upgrade || a.Kind == UpgradeFrom) {
			return m.async(fr, a)
		}
		if err := m.act(fr, a); err != nil {
			return err
		}
	}
	switch nd.End {
	case Signal:
		m.st.msg = nd.msg()
		return arwen.ErrSignalError
	case Trap:
		return arwen.ErrExecutionFailed
	case Burn:
		return arwen.ErrNotEnoughGas
	}
	return nil
}

func (m *Model) finish(s string) { m.st.ret = append(m.st.ret, s) }
func (m *Model) finishI32(v int32) {
	m.finish(string([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}))
}
func (m *Model) finishI64(v int64) {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
	m.finish(string(b))
}
func bigStr(v int64) string { return string(Amount(v).Bytes()) }
func intStr(v int64) string { return string(big.NewInt(v).Bytes()) }

func (m *Model) act(fr *frame, a *Act) error {
	st := m.st
	switch a.Op {
	case Store:
		if !fr.readOnly {
			st.get(fr.store).storage[a.Key] = a.Val
		}
	case StoreBig:
		*fr.ints++
		if !fr.readOnly {
			st.get(fr.store).storage[a.Key] = intStr(a.Value)
		}
	case Load:
		m.finish(st.get(fr.store).storage[a.Key])
	case LoadFrom:
		t := st.get(a.To)
		if !bytes.Equal(a.To, fr.store) && !vmcommon.CodeMetadataFromBytes(t.chMeta).Readable {
			return m.fault(arwen.ErrStorageValueOutOfRange)
		}
		m.finish(t.storage[a.Key])
	case Balance:
		*fr.ints++
		m.finish(bigStr(st.get(a.To).bal))
	case Transfer:
		if m.builtinCallData(a.Data) {
			m.finishI32(1)
			return nil
		}
		if fr.readOnly {
			return m.fault(arwen.ErrInvalidCallOnReadOnlyMode)
		}
		if err := m.move(fr.in.self, a.To, a.Value, false); err != nil {
			return m.fault(err)
		}
		m.xfer(a.To, xfer{from: fr.in.self, value: a.Value, data: a.Data, typ: vmcommon.DirectCall, gasKnown: true})
		m.finishI32(0)
	case Log:
		if fr.readOnly {
			return nil
		}
		l := logEntry{addr: string(fr.in.self), data: a.Data}
		if len(a.Args) > 0 {
			l.id, l.topics = a.Args[0], a.Args[1:]
		}
		st.logs = append(st.logs, l)
	case Finish:
		m.finish(a.Data)
	case Info:
		m.finish(string(fr.in.caller))
		if fr.in.value == 0 {
			m.finish("")
		} else {
			m.finish(string(Value32(fr.in.value)))
		}
		m.finish(string(fr.in.self))
		m.finishI32(int32(len(fr.in.args)))
		for _, x := range fr.in.args {
			m.finish(x)
		}
		m.finish(fr.in.fn)
	case ESDTBal:
		m.finish(bigStr(st.get(a.To).esdt[tokKey(a.Token, a.TokNonce)]))
	case ESDTInfo:
		*fr.ints++
		p := fr.in.esdt
		if p == nil {
			p = &esdtPay{}
		}
		m.finish(p.token)
		m.finish(bigStr(p.value))
		m.finishI64(p.nonce)
		typ := int32(0)
		if p.nonce > 0 {
			typ = 1
		}
		m.finishI32(typ)
	case NumRet:
		m.finishI32(int32(len(st.ret)))
	case NewBigInts:
		*fr.ints += a.N
		m.finishI32(int32(*fr.ints))
		*fr.ints++
	case CheckPay:
		if fr.in.value > 0 {
			return m.fault(arwen.ErrNonPayableFunctionEgld)
		}
		if fr.in.esdt != nil && fr.in.esdt.value > 0 {
			return m.fault(arwen.ErrNonPayableFunctionEsdt)
		}
	case RetSize:
		if a.N >= len(st.ret) {
			return m.fault(arwen.ErrArgOutOfRange)
		}
		m.finish(st.ret[a.N])
	case Call:
		return m.call(fr, a)
	}
	return nil
}

func (m *Model) xfer(to []byte, x xfer) { m.st.xfers[string(to)] = append(m.st.xfers[string(to)], x) }

func (m *Model) builtinCallData(d string) bool {
	i := strings.Index(d, "@")
	if i < 0 {
		i = len(d)
	}
	return m.builtin(d[:i])
}

func (m *Model) call(fr *frame, a *Act) error {
	fn, to := a.Func, a.To
	if a.Child != nil {
		if fn == "" {
			fn = a.Child.Name
		}
		if to == nil {
			to = a.Child.At
		}
	}
	self := fr.in.self
	level := some
	if fr.in.level == rich {
		level = rich
	}
	switch a.Kind {
	case Dest, ByCaller, DestESDT:
		in := frameIn{caller: self, self: to, fn: fn, args: a.Args, value: a.Value, level: level}
		if a.Kind == ByCaller {
			in.caller = fr.in.caller
			if m.builtin(fn) {
				return nil
			}
		}
		if a.Kind == DestESDT {
			in.fn, in.value = "ESDTTransfer", 0
			in.args = []string{a.Token, bigStr(a.Value)}
			if fn != "" {
				in.args = append(in.args, fn)
			}
			in.args = append(in.args, a.Args...)
		}
		if !m.shard(to) {
			return m.fault(arwen.ErrSyncExecutionNotInSameShard)
		}
		if _, err := m.onDest(in, fr.readOnly); err != nil {
			return m.fault(err)
		}
	case Same, ReadOnly, Delegate:
		v := a.Value
		if a.Kind == Delegate {
			v = fr.in.value
		}
		if a.Kind == ReadOnly {
			v = 0
		}
		if m.builtin(fn) {
			return nil
		}
		if !m.shard(to) {
			return m.fault(arwen.ErrSyncExecutionNotInSameShard)
		}
		saved := m.st.clone()
		ints := *fr.ints
		nf := &frame{in: frameIn{caller: self, self: to, fn: fn, args: a.Args, value: v, level: level}, store: fr.store, readOnly: fr.readOnly || a.Kind == ReadOnly, ints: fr.ints, res: make([]byte, 32)}
		err := m.move(self, to, v, nf.readOnly)
		if err == nil {
			err = m.execute(nf)
		}
		if err != nil {
			m.st = saved
			*fr.ints = ints
			return m.fault(err)
		}
	case TVE:
		if m.builtin(fn) {
			m.finishI32(1)
			return nil
		}
		if m.shard(to) && isSC(to) {
			_, err := m.onDest(frameIn{caller: self, self: to, fn: fn, args: a.Args, value: a.Value, level: level}, fr.readOnly)
			m.finishI32(b2i(err != nil))
			return nil
		}
		if fr.readOnly {
			return m.fault(arwen.ErrInvalidCallOnReadOnlyMode)
		}
		if err := m.move(self, to, a.Value, false); err != nil {
			return m.fault(err)
		}
		m.xfer(to, xfer{from: self, value: a.Value, data: callData(fn, a.Args), typ: vmcommon.DirectCall, gasKnown: true, gas: uint64(a.Gas)})
		m.finishI32(0)
	case Create, DeployFrom:
		addr, err := m.create(fr, a)
		if err != nil {
			m.finishI32(1)
		} else {
			m.finishI32(0)
			fr.res = addr
		}
		m.finish(string(fr.res))
	case ESDTExec:
		return m.esdtExec(fr, a, to, fn)
	default:
		panic("unknown call")
	}
	return nil
}

func b2i(b bool) int32 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) create(fr *frame, a *Act) ([]byte, error) {
	if fr.readOnly {
		return nil, arwen.ErrInvalidCallOnReadOnlyMode
	}
	self := fr.in.self
	if !m.st.get(self).onChain && m.st.get(self).nonce == 0 {
		// the nonce of a contract which was created by this transaction is not known: it cannot deploy yet
		return nil, errors.New("account not found")
	}
	addr := world.NewAddr(self, m.st.get(self).nonce)
	if x := m.st.acc[string(addr)]; x != nil && (x.onChain || len(x.code) > 0) {
		return nil, arwen.ErrDeploymentOverExistingAccount
	}
	saved := m.st.clone()
	n := m.st.get(addr)
	meta := a.Meta
	if meta == nil {
		meta = []byte{5, 6}
	}
	n.code, n.meta, n.owner = a.Child.code, meta, self
	_, err := m.onDest(frameIn{caller: self, self: addr, fn: "init", args: a.Args, value: a.Value, allowInit: true, level: rich}, false)
	if err != nil {
		m.st = saved
		return nil, err
	}
	m.st.get(self).nonce++
	return addr, nil
}

// ---- ESDT (fungible)

var errESDT = map[string]error{"value": builtInFunctions.ErrNegativeValue, "funds": builtInFunctions.ErrInsufficientFunds, "payable": builtInFunctions.ErrAccountNotPayable}

func (m *Model) moveESDT(from, to []byte, tok string, nonce, v int64, extraArgs bool, typ vmcommon.CallType) error {
	if v == 0 {
		return errESDT["value"]
	}
	k := tokKey(tok, nonce)
	f := m.st.get(from)
	if f.esdt[k] < v {
		return errESDT["funds"]
	}
	f.esdt[k] -= v
	if !m.shard(to) {
		return nil
	}
	t := m.st.get(to)
	if isSC(to) && !extraArgs && typ != vmcommon.AsynchronousCallBack && typ != vmcommon.ESDTTransferAndExecute && !vmcommon.CodeMetadataFromBytes(t.chMeta).Payable && t.onChain {
		return errESDT["payable"]
	}
	t.esdt[k] += v
	t.onChain = true
	return nil
}

func (m *Model) esdtLog(from, to []byte, tok string, v int64) {
	l := logEntry{id: "ESDTTransfer", addr: string(from), topics: []string{tok, bigStr(v)}}
	if m.shard(to) {
		l.topics = append(l.topics, string(to))
	}
	m.st.logs = append(m.st.logs, l)
}

// callBuiltin runs the built-in function ESDTTransfer and returns the call of a contract which follows it.
func (m *Model) callBuiltin(in frameIn, readOnly bool) (*frameIn, error) {
	if in.fn != "ESDTTransfer" {
		panic("built-in function " + in.fn + " is not modelled")
	}
	if readOnly {
		return nil, arwen.ErrInvalidCallOnReadOnlyMode
	}
	if in.value != 0 {
		return nil, builtInFunctions.ErrBuiltInFunctionCalledWithValue
	}
	if len(in.args) < 2 {
		return nil, builtInFunctions.ErrInvalidArguments
	}
	tok := in.args[0]
	v := units(new(big.Int).SetBytes([]byte(in.args[1])))
	if err := m.moveESDT(in.caller, in.self, tok, 0, v, len(in.args) > 2, in.typ); err != nil {
		return nil, err
	}
	m.esdtLog(in.caller, in.self, tok, v)
	m.st.msg = ""
	m.xfer(in.self, xfer{from: in.caller, data: callData("ESDTTransfer", in.args), typ: in.typ, gasKnown: m.shard(in.self)})
	if m.shard(in.self) && isSC(in.self) && len(in.args) > 2 {
		return &frameIn{caller: in.caller, self: in.self, fn: in.args[2], args: in.args[3:], typ: in.typ, esdt: &esdtPay{token: tok, value: v}, level: in.level}, nil
	}
	return nil, nil
}

func (m *Model) esdtExec(fr *frame, a *Act, to []byte, fn string) error {
	if fr.readOnly {
		return m.fault(arwen.ErrInvalidCallOnReadOnlyMode)
	}
	self := fr.in.self
	if fn != "" && m.builtin(fn) {
		m.finishI32(1)
		return nil
	}
	typ := vmcommon.DirectCall
	if fn != "" && isSC(to) {
		typ = vmcommon.ESDTTransferAndExecute
	}
	saved := m.st.clone()
	if err := m.moveESDT(self, to, a.Token, a.TokNonce, a.Value, false, typ); err != nil {
		return m.fault(err)
	}
	data := callData("ESDTTransfer", []string{a.Token, bigStr(a.Value)})
	data += "@" + hex.EncodeToString([]byte(fn))
	for _, x := range a.Args {
		data += "@" + hex.EncodeToString([]byte(x))
	}
	m.xfer(to, xfer{from: self, data: data, typ: vmcommon.DirectCall, gasKnown: m.shard(to)})
	m.esdtLog(self, to, a.Token, a.Value)
	if m.shard(to) && isSC(to) && fn != "" {
		_, err := m.onDest(frameIn{caller: self, self: to, fn: fn, args: a.Args, esdt: &esdtPay{a.Token, a.TokNonce, a.Value}, level: rich}, fr.readOnly)
		if err != nil {
			m.st = saved
			m.finishI32(1)
			return nil
		}
	}
	m.finishI32(0)
	return nil
}

// ---- asynchronous calls

func parseCall(data string) (string, []string, error) {
	parts := strings.Split(data, "@")
	if parts[0] == "" {
		return "", nil, parsers.ErrTokenizeFailed
	}
	var args []string
	for _, p := range parts[1:] {
		b, err := hex.DecodeString(p)
		if err != nil {
			return "", nil, parsers.ErrTokenizeFailed
		}
		args = append(args, string(b))
	}
	return parts[0], args, nil
}

// hasCallback looks at the running code: for an upgrade that is the new code, although the callback runs the old one until the upgrade is complete.
func (m *Model) hasCallback(fr *frame) bool { return m.p.funcs[string(fr.code)]["callBack"] != nil }

func (m *Model) async(fr *frame, a *Act) error {
	if a.NoGas&4 != 0 {
		return m.fault(arwen.ErrNotEnoughGas)
	}
	fn, to := a.Func, a.To
	if a.Child != nil && a.Child.At != nil {
		if fn == "" {
			fn = a.Child.Name
		}
		if to == nil {
			to = a.Child.At
		}
	}
	args := a.Args
	value := a.Value
	switch a.Kind {
	case AsyncESDT:
		args = []string{a.Token, bigStr(a.Value)}
		if fn != "" {
			args = append(args, fn)
		}
		args = append(args, a.Args...)
		fn, value = "ESDTTransfer", 0
	case Upgrade, UpgradeFrom:
		meta := a.Meta
		if meta == nil {
			meta = []byte{5, 6}
		}
		fn, args = "upgradeContract", append([]string{string(a.Child.code), string(meta)}, a.Args...)
	}
	data := callData(fn, args)
	if a.Data != "" {
		data = a.Data
	}
	self := fr.in.self
	level, locked := fr.in.level, 0
	if m.StaticLock || m.hasCallback(fr) {
		locked = 1
		if level < 2 {
			return m.fault(arwen.ErrNotEnoughGas)
		}
		if level != rich {
			level--
		}
	}
	fn, args, err := parseCall(data)
	if err != nil {
		return err
	}
	in := frameIn{caller: self, self: to, fn: fn, args: args, value: value, typ: vmcommon.AsynchronousCall, level: level}
	if m.builtin(fn) {
		if !m.shard(to) {
			// the gas travels with the transfer
			_, err := m.onDest(in, fr.readOnly)
			fr.left = broke
			return err
		}
		if len(args) == 2 && fr.in.typ == vmcommon.AsynchronousCall && bytes.Equal(fr.in.caller, to) {
			m.st.ret = append([]string{data}, m.st.ret...)
			return nil
		}
	} else {
		t := m.st.acc[string(to)]
		if t == nil || len(t.code) == 0 {
			err := arwen.ErrInvalidCallOnReadOnlyMode
			if !fr.readOnly {
				err = m.move(self, to, value, false)
			}
			if err != nil {
				m.st.msg = err.Error()
				return err
			}
			m.xfer(to, xfer{from: self, value: value, data: data, typ: vmcommon.AsynchronousCall})
			fr.left = broke
			return nil
		}
	}
	var r result
	var derr error
	if a.NoGas&1 != 0 {
		derr = arwen.ErrNotEnoughGas
		r = m.failed(derr)
	} else {
		r, derr = m.onDest(in, fr.readOnly)
	}
	left := r.level
	if locked != 0 && left != rich {
		if left == broke {
			left = 0
		}
		left += locked
	}
	cb := frameIn{caller: to, self: self, level: left, fn: "callBack", typ: vmcommon.AsynchronousCallBack, retAfterErr: derr != nil}
	cb.args = []string{intStr(int64(r.rc))}
	if derr != nil {
		cb.args = append(cb.args, r.msg)
	} else {
		cb.args = append(cb.args, r.ret...)
		if m.V3 && len(r.ret) == 0 && len(r.back) > 0 {
			if last := r.back[len(r.back)-1]; last.data == "" {
				cb.value = last.value
			}
		}
		if len(r.ret) > 0 {
			if f, as, err := parseCall(r.ret[0]); err == nil && f == "ESDTTransfer" && len(as) == 2 {
				cb.fn = f
				cb.args = append([]string{as[0], as[1], "callBack", intStr(0)}, r.ret[1:]...)
			}
		}
	}
	var cr result
	var cerr error
	if left == broke || a.NoGas&2 != 0 {
		// no gas is left and none was locked for a callback
		cerr = arwen.ErrNotEnoughGas
		cr = m.failed(cerr)
	} else {
		cr, cerr = m.onDest(cb, fr.readOnly)
	}
	fr.left = cr.level
	if cerr != nil {
		fr.left = broke
		if derr != nil && r.untouched {
			fr.left = level
		}
		m.st.msg = cr.msg
		m.finish(cr.rc.String())
		m.finish(m.txHash)
	}
	return nil
}

// Render describes the expected outcome canonically.
func (o Outcome) Render() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "rc=%v msg=%q\n", o.RC, o.Msg)
	if o.RC == vmcommon.Ok {
		fmt.Fprintf(&sb, "ret=%x\n", o.St.ret)
		for _, l := range o.St.logs {
			fmt.Fprintf(&sb, "log %s\n", l)
		}
		var ks []string
		for k := range o.St.xfers {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for _, x := range o.St.xfers[k] {
				fmt.Fprintf(&sb, "transfer to %s %s\n", Nick([]byte(k)), x)
			}
		}
	}
	return sb.String() + renderAccounts(o.St)
}

func renderAccounts(s *state) string {
	var sb strings.Builder
	var ks []string
	for k := range s.acc {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		a := s.acc[k]
		line := fmt.Sprintf("balance=%d nonce=%d", a.bal, a.nonce)
		if len(a.code) > 0 {
			line += fmt.Sprintf(" code=%s meta=%x owner=%s", codeID(a.code), a.meta, Nick(a.owner))
		}
		var ss []string
		for x, y := range a.storage {
			if y != "" {
				ss = append(ss, fmt.Sprintf("%q=%q", x, y))
			}
		}
		sort.Strings(ss)
		var es []string
		for x, y := range a.esdt {
			if y != 0 {
				es = append(es, fmt.Sprintf("%s:%d", x, y))
			}
		}
		sort.Strings(es)
		if a.bal == 0 && a.nonce == 0 && len(a.code) == 0 && len(ss) == 0 && len(es) == 0 {
			continue
		}
		fmt.Fprintf(&sb, "%s %s %v %v\n", Nick([]byte(k)), line, ss, es)
	}
	return sb.String()
}

func codeID(c []byte) string {
	h := uint64(14695981039346656037)
	for _, b := range c {
		h = (h ^ uint64(b)) * 1099511628211
	}
	return fmt.Sprintf("%d#%x", len(c), h&0xffffffff)
}
