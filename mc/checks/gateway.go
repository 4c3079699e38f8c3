package checks

import (
	"errors"
	"fmt"
	"os"
	"reflect"
	"strings"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

func init() {
	core.Register(&core.Check{ID: "C33", Level: "model_checking", Rule: "Every function of the blockchain hook is called through the gateway and the pipes with every value of a lattice for every argument, answer and error, with both marshalizers, and dialogues of up to 400 calls; " +
		"and all trees of one or two nested calls of every kind, deployments, gas schedule changes and version requests are executed in an Arwen part behind pipes and compared with the reference model and with the same VM without pipes.",
		Assumptions: []string{"arguments and answers are varied one at a time"}, Run: runC33})
}

// ---- a hook which answers as told and remembers what it was asked

type hookStub struct {
	asked   string
	answers []reflect.Value
}

func (h *hookStub) ask(name string, args ...interface{}) []reflect.Value {
	h.asked = askedAs(name, args)
	return h.answers
}

func askedAs(name string, args []interface{}) string {
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteString(" ")
		if h, ok := a.(vmcommon.UserAccountHandler); ok {
			sb.WriteString(accountAs(h))
			continue
		}
		render(&sb, reflect.ValueOf(a))
	}
	return sb.String()
}

// accountAs is what an account tells.
func accountAs(h vmcommon.UserAccountHandler) string {
	if arwen.IfNil(h) {
		return "nil"
	}
	return fmt.Sprintf("account %x nonce=%d balance=%v code=%x root=%x reward=%v owner=%x name=%x meta=%x", h.AddressBytes(), h.GetNonce(), h.GetBalance(), h.GetCodeHash(), h.GetRootHash(), h.GetDeveloperReward(), h.GetOwnerAddress(), h.GetUserName(), h.GetCodeMetadata())
}

func asErr(v reflect.Value) error {
	if v.IsNil() {
		return nil
	}
	return v.Interface().(error)
}

func (h *hookStub) bytesErr(r []reflect.Value) ([]byte, error) { return r[0].Bytes(), asErr(r[1]) }
func (h *hookStub) NewAddress(a []byte, n uint64, t []byte) ([]byte, error) {
	return h.bytesErr(h.ask("NewAddress", a, n, t))
}
func (h *hookStub) GetStorageData(a []byte, k []byte) ([]byte, error) {
	return h.bytesErr(h.ask("GetStorageData", a, k))
}
func (h *hookStub) GetBlockhash(n uint64) ([]byte, error) {
	return h.bytesErr(h.ask("GetBlockhash", n))
}
func (h *hookStub) LastNonce() uint64         { return h.ask("LastNonce")[0].Uint() }
func (h *hookStub) LastRound() uint64         { return h.ask("LastRound")[0].Uint() }
func (h *hookStub) LastTimeStamp() uint64     { return h.ask("LastTimeStamp")[0].Uint() }
func (h *hookStub) LastRandomSeed() []byte    { return h.ask("LastRandomSeed")[0].Bytes() }
func (h *hookStub) LastEpoch() uint32         { return uint32(h.ask("LastEpoch")[0].Uint()) }
func (h *hookStub) GetStateRootHash() []byte  { return h.ask("GetStateRootHash")[0].Bytes() }
func (h *hookStub) CurrentNonce() uint64      { return h.ask("CurrentNonce")[0].Uint() }
func (h *hookStub) CurrentRound() uint64      { return h.ask("CurrentRound")[0].Uint() }
func (h *hookStub) CurrentTimeStamp() uint64  { return h.ask("CurrentTimeStamp")[0].Uint() }
func (h *hookStub) CurrentRandomSeed() []byte { return h.ask("CurrentRandomSeed")[0].Bytes() }
func (h *hookStub) CurrentEpoch() uint32      { return uint32(h.ask("CurrentEpoch")[0].Uint()) }
func (h *hookStub) ProcessBuiltInFunction(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	r := h.ask("ProcessBuiltInFunction", in)
	return r[0].Interface().(*vmcommon.VMOutput), asErr(r[1])
}
func (h *hookStub) GetBuiltinFunctionNames() vmcommon.FunctionNames {
	return h.ask("GetBuiltinFunctionNames")[0].Interface().(vmcommon.FunctionNames)
}
func (h *hookStub) GetAllState(a []byte) (map[string][]byte, error) {
	r := h.ask("GetAllState", a)
	return r[0].Interface().(map[string][]byte), asErr(r[1])
}
func (h *hookStub) GetUserAccount(a []byte) (vmcommon.UserAccountHandler, error) {
	r := h.ask("GetUserAccount", a)
	if r[0].IsNil() {
		return nil, asErr(r[1])
	}
	return r[0].Interface().(*common.Account), asErr(r[1])
}
func (h *hookStub) GetCode(a vmcommon.UserAccountHandler) []byte {
	return h.ask("GetCode", a)[0].Bytes()
}
func (h *hookStub) GetShardOfAddress(a []byte) uint32 {
	return uint32(h.ask("GetShardOfAddress", a)[0].Uint())
}
func (h *hookStub) IsSmartContract(a []byte) bool { return h.ask("IsSmartContract", a)[0].Bool() }
func (h *hookStub) IsPayable(a []byte) (bool, error) {
	r := h.ask("IsPayable", a)
	return r[0].Bool(), asErr(r[1])
}
func (h *hookStub) SaveCompiledCode(a []byte, b []byte) { h.ask("SaveCompiledCode", a, b) }
func (h *hookStub) GetCompiledCode(a []byte) (bool, []byte) {
	r := h.ask("GetCompiledCode", a)
	return r[0].Bool(), r[1].Bytes()
}
func (h *hookStub) ClearCompiledCodes() { h.ask("ClearCompiledCodes") }
func (h *hookStub) GetESDTToken(a []byte, b []byte, n uint64) (*esdt.ESDigitalToken, error) {
	r := h.ask("GetESDTToken", a, b, n)
	return r[0].Interface().(*esdt.ESDigitalToken), asErr(r[1])
}
func (h *hookStub) GetSnapshot() int { return int(h.ask("GetSnapshot")[0].Int()) }
func (h *hookStub) RevertToSnapshot(n int) error {
	return asErr(h.ask("RevertToSnapshot", n)[0])
}
func (h *hookStub) IsInterfaceNil() bool { return false }

var (
	errorType   = reflect.TypeOf((*error)(nil)).Elem()
	accountType = reflect.TypeOf((*vmcommon.UserAccountHandler)(nil)).Elem()
	outputType  = reflect.TypeOf((*vmcommon.VMOutput)(nil))
)

// valuesFor is the lattice of an argument or an answer of the hook.
func valuesFor(t reflect.Type) []reflect.Value {
	switch t {
	case errorType:
		out := []reflect.Value{reflect.Zero(t)}
		for _, s := range []string{"an error", "%d%s 100%", "äö\"\\"} {
			out = append(out, reflect.ValueOf(errors.New(s)))
		}
		return out
	case accountType:
		return latticeOf(reflect.TypeOf((*common.Account)(nil)))
	case outputType:
		// accounts and storage updates are filed under their addresses and keys
		var out []reflect.Value
		for _, v := range latticeOf(t) {
			o := v.Interface().(*vmcommon.VMOutput)
			if o == nil {
				out = append(out, v)
				continue
			}
			o.OutputAccounts = filed(o.OutputAccounts)
			if o.ReturnMessage == "\xff\xfe%" {
				continue // see C30
			}
			out = append(out, v)
		}
		return out
	}
	return latticeOf(t)
}

func filed(accs map[string]*vmcommon.OutputAccount) map[string]*vmcommon.OutputAccount {
	m := map[string]*vmcommon.OutputAccount{}
	for k, a := range accs {
		b := *a
		b.Address = []byte(k + string(b.Address))
		b.StorageUpdates = map[string]*vmcommon.StorageUpdate{}
		for sk, u := range a.StorageUpdates {
			b.StorageUpdates[sk] = &vmcommon.StorageUpdate{Offset: []byte(sk), Data: u.Data}
		}
		m[string(b.Address)] = &b
	}
	return m
}

func zeroOf(t reflect.Type) reflect.Value {
	if t == outputType {
		return reflect.ValueOf(&vmcommon.VMOutput{})
	}
	if t == accountType {
		return reflect.Zero(reflect.TypeOf((*common.Account)(nil)))
	}
	if t == errorType {
		return reflect.Zero(t)
	}
	l := latticeOf(t)
	return l[len(l)-1]
}

// dialogue runs body on the side of Arwen while the node serves hook in one request.
func dialogue(mk marshaling.MarshalizerKind, hook vmcommon.BlockchainHook, body func(g *arwenpart.BlockchainHookGateway)) error {
	ar, nw := pipe()
	nr, aw := pipe()
	defer func() {
		for _, f := range []*os.File{ar, nw, nr, aw} {
			_ = f.Close()
		}
	}()
	m := marshaling.CreateMarshalizer(mk)
	node, err := nodepart.NewNodePart(nr, nw, hook, nodepart.Config{MaxLoopTime: 600000}, m)
	if err != nil {
		return err
	}
	am := arwenpart.NewArwenMessenger(ar, aw, m)
	done := make(chan interface{}, 1)
	go func() {
		defer func() {
			r := recover()
			if r != nil {
				_ = aw.Close()
				_ = ar.Close()
			}
			done <- r
		}()
		if _, err := am.ReceiveNodeRequest(); err != nil {
			panic(err)
		}
		body(arwenpart.NewBlockchainHookGateway(am))
		_ = am.SendContractResponse(common.NewMessageContractResponse(nil, nil))
	}()
	_, err = node.StartLoop(common.NewMessageVersionRequest())
	if err != nil {
		_ = nw.Close()
	}
	if r := <-done; r != nil {
		return fmt.Errorf("panic: %v", r)
	}
	return err
}

func runC33(c *core.Ctx) {
	ht := reflect.TypeOf((*vmcommon.BlockchainHook)(nil)).Elem()
	for i := 0; i < ht.NumMethod(); i++ {
		m := ht.Method(i)
		if m.Name == "IsInterfaceNil" {
			continue
		}
		for k, mk := range marshalizers {
			mk, k := mk, k
			c.Case(func() string { return "hook function " + m.Name + " with " + marshalizerNames[k] }, func(t *core.T) { hookFunction(t, mk, m) })
		}
	}
	for k, mk := range marshalizers {
		mk, k := mk, k
		c.Case(func() string { return "a long dialogue with " + marshalizerNames[k] }, func(t *core.T) {
			h := &hookStub{}
			err := dialogue(mk, h, func(g *arwenpart.BlockchainHookGateway) {
				for n := 0; n < 400; n++ {
					want := uint64(n) * 77
					h.answers = []reflect.Value{reflect.ValueOf(want)}
					if got := g.CurrentNonce(); got != want {
						t.Failf("call %d yields %d, expected %d", n, got, want)
						return
					}
				}
			})
			if err != nil {
				t.Failf("the dialogue ends with %v", err)
			}
			t.Exec(1)
			t.Trans(400)
		})
	}
	pipedTrees(c)
	pipedCreate(c)
}

func hookFunction(t *core.T, mk marshaling.MarshalizerKind, m reflect.Method) {
	ft := m.Type
	var ins, outs [][]reflect.Value
	for i := 0; i < ft.NumIn(); i++ {
		l := valuesFor(ft.In(i))
		if ft.In(i).Kind() == reflect.Interface || ft.In(i).Kind() == reflect.Ptr {
			l = l[1:] // never nil
		}
		ins = append(ins, l)
	}
	for i := 0; i < ft.NumOut(); i++ {
		outs = append(outs, valuesFor(ft.Out(i)))
	}
	h := &hookStub{}
	one := func(g *arwenpart.BlockchainHookGateway, args, answers []reflect.Value) bool {
		var ia []interface{}
		for _, a := range args {
			ia = append(ia, a.Interface())
		}
		want := askedAs(m.Name, ia)
		h.asked, h.answers = "", answers
		got := reflect.ValueOf(g).MethodByName(m.Name).Call(args)
		t.Exec(1)
		t.Trans(2)
		if h.asked != want {
			t.Failf("asked %s, expected %s", clipTo(h.asked, 1000), clipTo(want, 1000))
			return false
		}
		failed := false
		for i, a := range answers {
			if ft.Out(i) == errorType && !a.IsNil() {
				failed = true
			}
		}
		for i, a := range answers {
			var w, v strings.Builder
			x := got[i]
			switch {
			case ft.Out(i) == errorType:
				fmt.Fprintf(&w, "%v", a.Interface())
				fmt.Fprintf(&v, "%v", x.Interface())
			case failed:
				continue
			case ft.Out(i) == accountType:
				v.WriteString(accountAs(x.Interface().(vmcommon.UserAccountHandler)))
				w.WriteString(accountAs(a.Interface().(vmcommon.UserAccountHandler)))
			case ft.Out(i) == outputType:
				if a.IsNil() {
					continue
				}
				render(&w, a)
				render(&v, x)
			default:
				render(&w, a)
				render(&v, x)
			}
			if w.String() != v.String() {
				t.Failf("%s: answer %d is\n%s\nexpected\n%s", clipTo(want, 500), i, clipTo(v.String(), 1500), clipTo(w.String(), 1500))
				return false
			}
		}
		t.Outcome(want + fmt.Sprint(len(answers)))
		return true
	}
	base := func(ts []reflect.Type, ls [][]reflect.Value) []reflect.Value {
		var out []reflect.Value
		for i, l := range ls {
			if ts[i] == errorType {
				out = append(out, l[0])
			} else {
				out = append(out, l[len(l)-1])
			}
		}
		return out
	}
	var it, ot []reflect.Type
	for i := range ins {
		it = append(it, ft.In(i))
	}
	for i := range outs {
		ot = append(ot, ft.Out(i))
	}
	err := dialogue(mk, h, func(g *arwenpart.BlockchainHookGateway) {
		for i, l := range ins {
			for _, v := range l {
				if mk == marshaling.JSON && notText(v) {
					continue // see C30
				}
				args := base(it, ins)
				args[i] = v
				if !one(g, args, base(ot, outs)) {
					return
				}
			}
		}
		for i, l := range outs {
			for _, v := range l {
				if mk == marshaling.JSON && v.IsValid() && ot[i] != errorType && notText(v) {
					continue
				}
				answers := base(ot, outs)
				answers[i] = v
				if !one(g, base(it, ins), answers) {
					return
				}
			}
		}
		if len(ins) == 0 && len(outs) == 0 {
			one(g, nil, nil)
		}
	})
	if err != nil && !t.Failed() {
		t.Failf("the dialogue ends with %v after %s", err, clipTo(h.asked, 500))
	}
}

// ---- a VM behind pipes

type pipedHost struct {
	arwen.VMHost
	node  *nodepart.NodePart
	part  *arwenpart.ArwenPart
	done  chan error
	files []*os.File
}

func newPipedHost(mk marshaling.MarshalizerKind, w *world.World, hook vmcommon.BlockchainHook, o vmx.Opt) *pipedHost {
	ar, nw := pipe()
	nr, aw := pipe()
	m := marshaling.CreateMarshalizer(mk)
	h := &pipedHost{files: []*os.File{ar, nw, nr, aw}, done: make(chan error, 1)}
	var err error
	h.node, err = nodepart.NewNodePart(nr, nw, hook, nodepart.Config{MaxLoopTime: 600000}, m)
	if err != nil {
		panic(err)
	}
	// the names of built-in functions are asked for while the VM starts
	h.part, err = arwenpart.NewArwenPart("version 1", ar, aw, vmx.Params(w, o), m)
	if err != nil {
		panic(err)
	}
	go func() { h.done <- h.part.StartLoop() }()
	return h
}

func (h *pipedHost) stop() error {
	_ = h.node.SendStopSignal()
	err := <-h.done
	for _, f := range h.files {
		_ = f.Close()
	}
	return err
}

func (h *pipedHost) answer(req common.MessageHandler) (*vmcommon.VMOutput, error) {
	resp, err := h.node.StartLoop(req)
	if err != nil {
		return nil, fmt.Errorf("critical: %v", err)
	}
	r := resp.(*common.MessageContractResponse)
	if r.GetError() != nil {
		return nil, r.GetError()
	}
	return r.SerializableVMOutput.ConvertToVMOutput(), nil
}

func (h *pipedHost) RunSmartContractCall(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	return h.answer(common.NewMessageContractCallRequest(in))
}

func (h *pipedHost) RunSmartContractCreate(in *vmcommon.ContractCreateInput) (*vmcommon.VMOutput, error) {
	return h.answer(common.NewMessageContractDeployRequest(in))
}

// pipedTrees compares trees of calls which run behind pipes with the reference model.
func pipedTrees(c *core.Ctx) {
	store := func(tag string) []script.Act {
		return []script.Act{{Op: script.Store, Key: "k" + tag, Val: "v" + tag}, {Op: script.Transfer, To: script.User, Value: 1, Data: "d\x00\xff" + tag}, {Op: script.Log, Data: "log\xfe" + tag, Args: []string{"t", ""}}, {Op: script.Finish, Data: "\x80" + tag}, {Op: script.Info}, {Op: script.ESDTInfo}}
	}
	frame := func(at []byte, tag string, end script.End, calls ...script.Act) *script.Node {
		return &script.Node{At: at, End: end, Acts: append(store(tag), calls...)}
	}
	build := func(o option, tag string, v int64, calls ...script.Act) script.Act {
		a := o.act(frame, tag, v, calls...)
		if o.cb != 0 {
			end := script.OK
			if o.cb == 2 {
				end = script.Signal
			}
			a.CB = frame(nil, tag+"cb", end)
		}
		return a
	}
	opts := allOptions(false)
	seconds := pick(opts, func(o option) bool { return o.end == script.OK && o.cb != 2 })
	for k, mk := range marshalizers {
		for _, o := range opts {
			k, mk, o := k, mk, o
			c.Case(func() string {
				return fmt.Sprintf("calls through %s pipes which begin with %+v", marshalizerNames[k], o)
			}, func(t *core.T) {
				r := newRunner(t, vmx.Opt{})
				var ph *pipedHost
				r.mkHost = func(w *world.World) (arwen.VMHost, *world.Swap) {
					sw := &world.Swap{World: w}
					ph = newPipedHost(mk, w, sw, r.opt)
					return ph, sw
				}
				for _, tx := range []script.Tx{{}, {Value: 5, Args: [][]byte{{0xff}, {}}}, {ESDT: 4}} {
					for _, v := range []int64{0, 3} {
						if !r.tree(frame(script.A, "0", script.OK, build(o, "1", v)), tx) {
							return
						}
						if tx.Value == 0 && !c.Thorough {
							continue
						}
						for _, p := range seconds {
							if !r.tree(frame(script.A, "0", script.OK, build(o, "1", v, build(p, "2", 2))), tx) {
								return
							}
						}
					}
				}
				if err := ph.stop(); err != common.ErrStopPerNodeRequest {
					t.Failf("the loop ends with %v", err)
				}
			})
		}
	}
}

// pipedCreate deploys contracts, changes the gas schedule and asks for the version behind pipes, in all orders.
func pipedCreate(c *core.Ctx) {
	ok := wb.New()
	ok.Fn("init", func(f *wb.F) { f.Do("finish", wb.S("hello"), wb.I(5)) })
	ok.Fn("f", func(f *wb.F) { f.Do("finish", wb.S("hello"), wb.I(5)) })
	bad := wb.New()
	bad.Fn("init", func(f *wb.F) { f.Do("signalError", wb.S("no %d"), wb.I(5)) })
	codes := [][]byte{ok.Bytes(), bad.Bytes(), []byte("no code"), nil}
	steps := []string{"deploy", "deploy failing", "deploy garbage", "deploy nothing", "gas", "gas back", "version", "wait", "call"}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	for k, mk := range marshalizers {
		for first := range steps {
			k, mk, first := k, mk, first
			c.Case(func() string {
				return fmt.Sprintf("requests through %s pipes which begin with %s", marshalizerNames[k], steps[first])
			}, func(t *core.T) {
				expensive := vmx.FlatGas()
				expensive["BaseOperationCost"]["CompilePerByte"] = 3
				expensive["ElrondAPICost"]["Finish"] = 50
				run := func(seq []int) bool {
					wa, wp := world.New(), world.New()
					for _, w := range []*world.World{wa, wp} {
						w.Add(script.User, 1000)
						w.AddContract(script.A, 5, ok.Bytes(), script.User)
					}
					direct := vmx.MustHost(wa, vmx.Opt{})
					piped := newPipedHost(mk, wp, wp, vmx.Opt{})
					good := true
					for i, s := range seq {
						t.Trans(1)
						var a, b string
						switch steps[s] {
						case "gas", "gas back":
							g := config.GasScheduleMap(vmx.FlatGas())
							if steps[s] == "gas" {
								g = expensive
							}
							direct.GasScheduleChange(g)
							resp, err := piped.node.StartLoop(common.NewMessageGasScheduleChangeRequest(g))
							if err != nil || resp.GetError() != nil {
								b = fmt.Sprintf("%v %v", err, resp)
							}
						case "version":
							resp, err := piped.node.StartLoop(common.NewMessageVersionRequest())
							if err != nil {
								b = err.Error()
							} else if v := resp.(*common.MessageVersionResponse).Version; v != "version 1" {
								b = v
							}
						case "wait":
							resp, err := piped.node.StartLoop(common.NewMessageDiagnoseWaitRequest(1))
							if err != nil || resp.GetError() != nil {
								b = fmt.Sprintf("%v", err)
							}
						case "call":
							in := vmx.Call(script.User, script.A, "f", 3, 1<<30)
							o1, e1, _ := vmx.Run(direct, wa, in)
							o2, e2, _ := vmx.Run(piped, wp, in)
							a, b = vmx.Canon(o1, e1), vmx.Canon(o2, e2)
						default:
							in := vmx.Create(script.User, codes[s], []byte{5, 6}, 7, 1<<30, []byte{0xff}, nil)
							o1, e1, _ := vmx.RunCreate(direct, wa, in)
							o2, e2, _ := vmx.RunCreate(piped, wp, in)
							a, b = vmx.Canon(o1, e1), vmx.Canon(o2, e2)
						}
						if a != b {
							t.Failf("step %d of %v\npiped:\n%s\ndirect:\n%s", i, seq, b, a)
							good = false
							break
						}
						t.Outcome(a)
					}
					t.Exec(1)
					if good && wa.Canon() != wp.Canon() {
						t.Failf("%v: different worlds", seq)
						good = false
					}
					if good {
						_ = piped.stop()
					}
					return good
				}
				var walk func(seq []int) bool
				walk = func(seq []int) bool {
					if !run(seq) {
						return false
					}
					for s := range steps {
						if len(seq) < depth && !walk(append(append([]int{}, seq...), s)) {
							return false
						}
					}
					return true
				}
				walk([]int{first})
			})
		}
	}
}
