// Package script describes contract executions as trees of calls with actions, compiles them to WebAssembly contracts and
// interprets them with a reference model of the semantics of calls.
package script

import (
	"encoding/hex"
	"fmt"
	"strings"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"vmc/vmx"
	"vmc/wb"
)

// Op is the kind of an action.
type Op int

// Actions.
const (
	Store      Op = iota // Key, Val
	Load                 // finish the value of Key
	LoadFrom             // finish the value of Key in the storage of To
	Balance              // finish the balance of To
	Transfer             // transferValue: To, Value, Data
	Log                  // Data, topics Args
	Finish               // Data
	Info                 // finish caller, call value, own address, number of arguments, arguments, function
	ESDTBal              // finish the balance of Token/TokNonce of To
	ESDTInfo             // finish what the contract sees of an ESDT payment
	Call                 // see Kind
	NumRet               // finish getNumReturnData
	NewBigInts           // creates n big integers and finishes the next handle
	StoreBig             // bigIntStorageStore
	CheckPay             // checkNoPayment
	RetSize              // finish getReturnDataSize/getReturnData of entry N
)

// Kind is the kind of a call.
type Kind int

// Calls.
const (
	Dest        Kind = iota // executeOnDestContext
	Same                    // executeOnSameContext
	ReadOnly                // executeReadOnly
	Delegate                // delegateExecution
	ByCaller                // executeOnDestContextByCaller
	TVE                     // transferValueExecute
	Create                  // createContract
	DeployFrom              // deployFromSourceContract
	Async                   // asyncCall
	ESDTExec                // transferESDTExecute / transferESDTNFTExecute
	Upgrade                 // upgradeContract
	UpgradeFrom             // upgradeFromSourceContract
	DestESDT                // executeOnDestContext of the built-in function ESDTTransfer with a call
	AsyncESDT               // asyncCall with data ESDTTransfer@...
)

var kindNames = []string{"dest", "same", "readOnly", "delegate", "byCaller", "transferValueExecute", "create", "deployFrom", "async", "esdtExec", "upgrade", "upgradeFrom", "destESDT", "asyncESDT"}

func (k Kind) String() string { return kindNames[k] }

// End is how a function ends.
type End int

// Ends.
const (
	OK End = iota
	Signal
	Trap
	Burn
)

var endNames = []string{"ok", "signalError", "trap", "outOfGas"}

func (e End) String() string { return endNames[e] }

// Act is one action.
type Act struct {
	Op       Op
	Kind     Kind
	Key, Val string
	Data     string
	To       []byte
	Value    int64
	Args     []string
	Child    *Node // callee
	CB       *Node // callback
	// NoGas is a combination of 1: the (asynchronous) call lacks gas, 2: its callback lacks gas, 4: the caller lacks gas. It changes the expectation only.
	NoGas    int
	Func     string
	Token    string
	TokNonce int64
	Gas      int64
	Meta     []byte
	N        int
}

// Node is the execution of a function.
type Node struct {
	At   []byte // address of the contract which holds the function; nil for contracts to be created
	Acts []Act
	End  End
	Msg  string
	Name string // function name, set by Compile
	code []byte // code of the contract to be created
}

// GasPerCall is the gas limit of a call at the given depth.
func GasPerCall(depth int) int64 { return int64(1) << uint(50-5*depth) }

// ---- addresses of the world

// Addresses.
var (
	Owner = vmx.User("owner")
	User  = vmx.User("user")
	Poor  = vmx.User("poor")
	A     = vmx.SC("aaaa")
	B     = vmx.SC("bbbb")
	C     = vmx.SC("cccc")
	D     = vmx.SC("dddd") // upgradeable, owned by A
	Src   = vmx.SC("srcc") // source of deployments
	FarS  = vmx.FarSC("farsc")
	FarU  = vmx.FarUser("faruser")
)

// Nick names an address.
func Nick(a []byte) string {
	switch string(a) {
	case string(User):
		return "user"
	case string(Owner):
		return "owner"
	case string(Poor):
		return "poor"
	case string(A):
		return "A"
	case string(B):
		return "B"
	case string(C):
		return "C"
	case string(D):
		return "D"
	case string(Src):
		return "Src"
	case string(FarS):
		return "farSC"
	case string(FarU):
		return "farUser"
	case "":
		return "new"
	}
	return hex.EncodeToString(a)
}

func (n *Node) String() string {
	var sb strings.Builder
	n.write(&sb)
	return sb.String()
}

func (n *Node) write(sb *strings.Builder) {
	fmt.Fprintf(sb, "%s{", Nick(n.At))
	for i, a := range n.Acts {
		if i > 0 {
			sb.WriteString("; ")
		}
		a.write(sb)
	}
	if n.End != OK {
		if len(n.Acts) > 0 {
			sb.WriteString("; ")
		}
		sb.WriteString(n.End.String())
	}
	sb.WriteString("}")
}

func (a *Act) write(sb *strings.Builder) {
	switch a.Op {
	case Store:
		fmt.Fprintf(sb, "store %s=%q", a.Key, a.Val)
	case StoreBig:
		fmt.Fprintf(sb, "storeBig %s=%d", a.Key, a.Value)
	case Load:
		fmt.Fprintf(sb, "load %s", a.Key)
	case LoadFrom:
		fmt.Fprintf(sb, "load %s.%s", Nick(a.To), a.Key)
	case Balance:
		fmt.Fprintf(sb, "balance %s", Nick(a.To))
	case Transfer:
		fmt.Fprintf(sb, "transfer %d to %s %q", a.Value, Nick(a.To), a.Data)
	case Log:
		fmt.Fprintf(sb, "log %q %q", a.Args, a.Data)
	case Finish:
		fmt.Fprintf(sb, "finish %q", a.Data)
	case Info:
		sb.WriteString("info")
	case ESDTBal:
		fmt.Fprintf(sb, "esdt %s %s/%d", Nick(a.To), a.Token, a.TokNonce)
	case ESDTInfo:
		sb.WriteString("esdtinfo")
	case NumRet:
		sb.WriteString("numReturnData")
	case NewBigInts:
		fmt.Fprintf(sb, "bigIntNew*%d", a.N)
	case CheckPay:
		sb.WriteString("checkNoPayment")
	case RetSize:
		fmt.Fprintf(sb, "returnData %d", a.N)
	case Call:
		fmt.Fprintf(sb, "%s", a.Kind)
		if a.Value != 0 {
			fmt.Fprintf(sb, " value=%d", a.Value)
		}
		if a.Token != "" {
			fmt.Fprintf(sb, " token=%s/%d", a.Token, a.TokNonce)
		}
		if len(a.Args) > 0 {
			fmt.Fprintf(sb, " args=%q", a.Args)
		}
		if a.Func != "" {
			fmt.Fprintf(sb, " func=%s", a.Func)
		}
		if a.Gas != 0 {
			fmt.Fprintf(sb, " gas=%d", a.Gas)
		}
		if a.Child != nil {
			sb.WriteString(" ")
			a.Child.write(sb)
		} else {
			fmt.Fprintf(sb, " %s", Nick(a.To))
		}
		if a.CB != nil {
			sb.WriteString(" callback ")
			a.CB.write(sb)
		}
	}
}

// Program is a compiled tree.
type Program struct {
	Root  *Node
	Codes map[string][]byte           // code per contract address
	nodes map[string]*Node            // function name -> node (per contract: addr + ":" + name)
	funcs map[string]map[string]*Node // code -> function name -> node
}

const resAddr = 640 // result address of a deployment

// BurnFn is the function which a gas schedule has to make prohibitively expensive.
const BurnFn = "getBlockRandomSeed"

// Compile numbers the functions of the tree and builds the code of every contract in it.
func Compile(root *Node) (*Program, error) {
	p := &Program{Root: root, Codes: map[string][]byte{}, nodes: map[string]*Node{}, funcs: map[string]map[string]*Node{}}
	tables := map[*wb.M]map[string]*Node{}
	mods := map[string]*wb.M{}
	n := 0
	var prep func(nd *Node, name string) error
	prep = func(nd *Node, name string) error {
		if nd.Name != "" && nd.Name != name && name != "" {
			return fmt.Errorf("node used twice")
		}
		if name == "" {
			name = fmt.Sprintf("f%d", n)
			n++
		}
		nd.Name = name
		key := string(nd.At) + ":" + name
		if nd.At != nil {
			if p.nodes[key] != nil {
				return fmt.Errorf("two nodes for %s of %s", name, Nick(nd.At))
			}
			p.nodes[key] = nd
		}
		for i := range nd.Acts {
			a := &nd.Acts[i]
			if a.Op != Call {
				continue
			}
			if a.Child != nil {
				nm := ""
				if a.Kind == Create || a.Kind == DeployFrom || a.Kind == Upgrade || a.Kind == UpgradeFrom {
					nm = "init"
				}
				if err := prep(a.Child, nm); err != nil {
					return err
				}
			}
			if a.CB != nil {
				if err := prep(a.CB, "callBack"); err != nil {
					return err
				}
			}
		}
		return nil
	}
	if err := prep(root, ""); err != nil {
		return nil, err
	}
	module := func(at []byte) *wb.M {
		m := mods[string(at)]
		if m == nil {
			m = wb.New()
			mods[string(at)] = m
		}
		return m
	}
	// emission order: children first, so that the code of contracts to be created is known
	var emit func(nd *Node, depth int, own *wb.M) error
	emit = func(nd *Node, depth int, own *wb.M) error {
		m := own
		if nd.At != nil {
			m = module(nd.At)
		}
		if m == nil {
			return fmt.Errorf("no module for a node")
		}
		for i := range nd.Acts {
			a := &nd.Acts[i]
			if a.Op != Call {
				continue
			}
			if a.Child != nil {
				switch a.Kind {
				case Create, DeployFrom, Upgrade, UpgradeFrom:
					x := wb.New()
					if err := emit(a.Child, depth+1, x); err != nil {
						return err
					}
					a.Child.code = x.Bytes()
					p.funcs[string(a.Child.code)] = tables[x]
					if a.Kind == DeployFrom || a.Kind == UpgradeFrom {
						if p.Codes[string(Src)] != nil {
							return fmt.Errorf("two sources")
						}
						p.Codes[string(Src)] = a.Child.code
					}
				default:
					if a.Child.At == nil {
						return fmt.Errorf("call of a node without address")
					}
					if err := emit(a.Child, depth+1, nil); err != nil {
						return err
					}
				}
			}
			if a.CB != nil {
				if a.CB.At != nil {
					if err := emit(a.CB, depth+1, nil); err != nil {
						return err
					}
				} else if err := emit(a.CB, depth+1, m); err != nil {
					return err
				}
			}
		}
		if tables[m] == nil {
			tables[m] = map[string]*Node{}
		}
		if tables[m][nd.Name] != nil {
			return fmt.Errorf("two functions %s in a contract", nd.Name)
		}
		tables[m][nd.Name] = nd
		m.Fn(nd.Name, func(f *wb.F) { emitBody(f, nd, depth) })
		return nil
	}
	if err := emit(root, 0, nil); err != nil {
		return nil, err
	}
	for at, m := range mods {
		p.Codes[at] = m.Bytes()
		p.funcs[string(p.Codes[at])] = tables[m]
	}
	return p, nil
}

// Huge stands for the greatest value of 32 bytes.
const Huge = -1

// Value32 is a 32-byte big-endian value.
func Value32(v int64) []byte {
	b := make([]byte, 32)
	if v == Huge {
		for i := range b {
			b[i] = 0xff
		}
		return b
	}
	Amount(v).FillBytes(b)
	return b
}

func callData(fn string, args []string) string {
	s := fn
	for _, a := range args {
		s += "@" + hex.EncodeToString([]byte(a))
	}
	return s
}

// ArgTable lays out arguments in memory.
func ArgTable(args []string) (lens, data []byte) {
	for _, a := range args {
		lens = append(lens, byte(len(a)), byte(len(a)>>8), 0, 0)
		data = append(data, a...)
	}
	if lens == nil {
		lens = []byte{0, 0, 0, 0}
	}
	if data == nil {
		data = []byte{0}
	}
	return
}

func emitBody(f *wb.F, nd *Node, depth int) {
	for i := range nd.Acts {
		emitAct(f, nd, &nd.Acts[i], depth)
	}
	switch nd.End {
	case Signal:
		f.Do("signalError", wb.S(nd.msg()), wb.I(int32(len(nd.msg()))))
	case Trap:
		f.Unreachable()
	case Burn:
		f.Do(BurnFn, wb.I(128))
		f.Nops(4)
	}
}

func (n *Node) msg() string {
	if n.Msg != "" {
		return n.Msg
	}
	return "err"
}

func str(s string) []wb.E { return []wb.E{wb.S(s), wb.I(int32(len(s)))} }

func cat(parts ...[]wb.E) []wb.E {
	var out []wb.E
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func finishBuf(f *wb.F, at int32, length wb.E) { f.Do("finish", wb.I(at), length) }

func emitAct(f *wb.F, nd *Node, a *Act, depth int) {
	gas := a.Gas
	if gas == 0 {
		gas = GasPerCall(depth + 1)
	}
	switch a.Op {
	case Store:
		f.Do("storageStore", cat(str(a.Key), str(a.Val))...)
	case StoreBig:
		h := f.Local("i")
		f.Set(h, wb.Call("bigIntNew", wb.L(a.Value)))
		f.Do("bigIntStorageStoreUnsigned", wb.S(a.Key), wb.I(int32(len(a.Key))), wb.Get(h))
	case Load:
		f.Do("finish", wb.I(256), wb.Call("storageLoad", wb.S(a.Key), wb.I(int32(len(a.Key))), wb.I(256)))
	case LoadFrom:
		f.Do("finish", wb.I(256), wb.Call("storageLoadFromAddress", wb.P(a.To), wb.S(a.Key), wb.I(int32(len(a.Key))), wb.I(256)))
	case Balance:
		h := f.Local("i")
		f.Set(h, wb.Call("bigIntNew", wb.L(0)))
		f.Do("bigIntGetExternalBalance", wb.P(a.To), wb.Get(h))
		f.Do("bigIntFinishUnsigned", wb.Get(h))
	case Transfer:
		f.FinishI32(wb.Call("transferValue", wb.P(a.To), wb.P(Value32(a.Value)), wb.S(a.Data), wb.I(int32(len(a.Data)))))
	case Log:
		lens, data := ArgTable(a.Args)
		f.Do("writeEventLog", wb.I(int32(len(a.Args))), wb.P(lens), wb.P(data), wb.S(a.Data), wb.I(int32(len(a.Data))))
	case Finish:
		f.Do("finish", str(a.Data)...)
	case Info:
		f.Do("getCaller", wb.I(256))
		finishBuf(f, 256, wb.I(32))
		f.Do("finish", wb.I(256), wb.Call("getCallValue", wb.I(256)))
		f.Do("getSCAddress", wb.I(256))
		finishBuf(f, 256, wb.I(32))
		f.FinishI32(wb.Call("getNumArguments"))
		n := f.Local("i")
		f.Set(n, wb.I(0))
		// while n < numArguments: finish(argument n)
		f.Raw(0x02, 0x40) // block
		f.Raw(0x03, 0x40) // loop
		wb.Get(n)(f)
		wb.Call("getNumArguments")(f)
		f.Raw(0x4e)       // i32.ge_s
		f.Raw(0x0d, 0x01) // br_if 1
		f.Do("finish", wb.I(256), wb.Call("getArgument", wb.Get(n), wb.I(256)))
		f.Set(n, wb.Op2(0x6a, wb.Get(n), wb.I(1)))
		f.Raw(0x0c, 0x00, 0x0b, 0x0b)
		f.Do("finish", wb.I(256), wb.Call("getFunction", wb.I(256)))
	case ESDTBal:
		f.Do("finish", wb.I(256), wb.Call("getESDTBalance", wb.P(a.To), wb.S(a.Token), wb.I(int32(len(a.Token))), wb.L(a.TokNonce), wb.I(256)))
	case ESDTInfo:
		f.Do("finish", wb.I(256), wb.Call("getESDTTokenName", wb.I(256)))
		h := f.Local("i")
		f.Set(h, wb.Call("bigIntNew", wb.L(0)))
		f.Do("bigIntGetESDTCallValue", wb.Get(h))
		f.Do("bigIntFinishUnsigned", wb.Get(h))
		f.FinishI64(wb.Call("getESDTTokenNonce"))
		f.FinishI32(wb.Call("getESDTTokenType"))
	case NumRet:
		f.FinishI32(wb.Call("getNumReturnData"))
	case NewBigInts:
		for i := 0; i < a.N; i++ {
			f.Do("bigIntNew", wb.L(int64(i+7)))
		}
		f.FinishI32(wb.Call("bigIntNew", wb.L(1)))
	case CheckPay:
		f.Do("checkNoPayment")
	case RetSize:
		f.Do("finish", wb.I(256), wb.Call("getReturnData", wb.I(int32(a.N)), wb.I(256)))
	case Call:
		emitCall(f, nd, a, gas)
	}
}

func emitCall(f *wb.F, nd *Node, a *Act, gas int64) {
	fn := a.Func
	to := a.To
	if a.Child != nil {
		if fn == "" {
			fn = a.Child.Name
		}
		if to == nil {
			to = a.Child.At
		}
	}
	lens, data := ArgTable(a.Args)
	args := []wb.E{wb.I(int32(len(a.Args))), wb.P(lens), wb.P(data)}
	fnE := str(fn)
	val := wb.P(Value32(a.Value))
	meta := a.Meta
	if meta == nil {
		meta = []byte{5, 6}
	}
	switch a.Kind {
	case Dest:
		f.Do("executeOnDestContext", cat([]wb.E{wb.L(gas), wb.P(to), val}, fnE, args)...)
	case Same:
		f.Do("executeOnSameContext", cat([]wb.E{wb.L(gas), wb.P(to), val}, fnE, args)...)
	case ByCaller:
		f.Do("executeOnDestContextByCaller", cat([]wb.E{wb.L(gas), wb.P(to), val}, fnE, args)...)
	case ReadOnly:
		f.Do("executeReadOnly", cat([]wb.E{wb.L(gas), wb.P(to)}, fnE, args)...)
	case Delegate:
		f.Do("delegateExecution", cat([]wb.E{wb.L(gas), wb.P(to)}, fnE, args)...)
	case TVE:
		if to[31] == 0xEE || !vmcommon.IsSmartContractAddress(to) {
			gas = a.Gas // sent along with the value, not given to a call
		}
		f.FinishI32(wb.Call("transferValueExecute", cat([]wb.E{wb.P(to), val, wb.L(gas)}, fnE, args)...))
	case ESDTExec:
		tok := str(a.Token)
		f.FinishI32(wb.Call("transferESDTNFTExecute", cat([]wb.E{wb.P(to)}, tok, []wb.E{val, wb.L(a.TokNonce), wb.L(gas)}, fnE, args)...))
	case Create:
		f.FinishI32(wb.Call("createContract", cat([]wb.E{wb.L(gas), val, wb.P(a.Child.code), wb.P(meta), wb.I(int32(len(a.Child.code))), wb.I(resAddr)}, args)...))
		finishBuf(f, resAddr, wb.I(32))
	case DeployFrom:
		f.FinishI32(wb.Call("deployFromSourceContract", cat([]wb.E{wb.L(gas), val, wb.P(Src), wb.P(meta), wb.I(resAddr)}, args)...))
		finishBuf(f, resAddr, wb.I(32))
	case Upgrade:
		f.Do("upgradeContract", cat([]wb.E{wb.P(to), wb.L(gas), val, wb.P(a.Child.code), wb.P(meta), wb.I(int32(len(a.Child.code)))}, args)...)
	case UpgradeFrom:
		f.Do("upgradeFromSourceContract", cat([]wb.E{wb.P(to), wb.L(gas), val, wb.P(Src), wb.P(meta)}, args)...)
	case Async:
		d := callData(fn, a.Args)
		if a.Data != "" {
			d = a.Data
		}
		f.Do("asyncCall", wb.P(to), val, wb.S(d), wb.I(int32(len(d))))
	case DestESDT, AsyncESDT:
		bargs := []string{a.Token, bigStr(a.Value)}
		if fn != "" {
			bargs = append(bargs, fn)
		}
		bargs = append(bargs, a.Args...)
		if a.Kind == AsyncESDT {
			d := callData("ESDTTransfer", bargs)
			f.Do("asyncCall", wb.P(to), wb.P(Value32(0)), wb.S(d), wb.I(int32(len(d))))
		} else {
			l, dt := ArgTable(bargs)
			f.Do("executeOnDestContext", cat([]wb.E{wb.L(gas), wb.P(to), wb.P(Value32(0))}, str("ESDTTransfer"), []wb.E{wb.I(int32(len(bargs))), wb.P(l), wb.P(dt)})...)
		}
	}
}

// Code is the code of a contract which is created or upgraded to.
func (n *Node) Code() []byte { return n.code }

// EmitCall emits one call, for programs which are not trees.
func EmitCall(f *wb.F, a Act, gas int64) { emitCall(f, nil, &a, gas) }

// CodeNode is a child which stands for given code.
func CodeNode(code []byte) *Node { return &Node{code: code} }
