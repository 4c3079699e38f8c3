package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

func init() {
	core.Register(&core.Check{ID: "C11", Level: "model_checking", Rule: "Contracts with every deviation from the rules (names, signatures and positions of exported functions, memory, imports of every function of the interface with token functions enabled and not, truncated and damaged code) are deployed and upgraded to over six paths, each with compiled code cached before or not; " +
		"and all sequences of up to 3 steps (upgrades over two paths, deployments of clones, calls of the upgraded contract, of a contract with the same code and of clones) in a transaction which succeeds or fails are followed by calls in later transactions, with the cache of compiled code in every state.",
		Assumptions: []string{"warm instances are off", "well-formedness of WebAssembly itself is decided by the engine"}, Run: runC11})
}

// codeCase is a contract and whether it may be deployed.
type codeCase struct {
	name  string
	code  []byte
	valid bool
	init  bool // it has a constructor
	opt   vmx.Opt
}

// mod makes a contract; every function leaves a result.
func mod(mark string, names ...string) *wb.M {
	m := wb.New()
	for _, n := range names {
		m.Fn(n, func(f *wb.F) { f.Finish([]byte(mark)) })
	}
	return m
}

func codeCases() []codeCase {
	var out []codeCase
	add := func(valid bool, m *wb.M, format string, args ...interface{}) {
		out = append(out, codeCase{name: fmt.Sprintf(format, args...), code: m.Bytes(), valid: valid, init: !strings.Contains(format, "no constructor")})
	}
	add(true, mod("v2", "init", "f"), "plain")
	add(true, mod("v2", "f", "init", "callBack"), "with a callback")
	add(true, mod("v2", "f"), "no constructor")
	m := mod("v2", "init", "f")
	m.FnSig("hidden", "il", "l", false, func(f *wb.F) { f.Raw(0x42, 0) })
	add(true, m, "a hidden function with a signature")
	m = mod("v2", "init", "f")
	m.NoMemory = true
	for _, fn := range []string{"init", "f"} {
		m2 := wb.New()
		m2.NoMemory = true
		m2.Fn(fn, func(f *wb.F) {})
		if fn != "init" {
			m2.Fn("init", func(f *wb.F) {})
		}
		add(false, m2, "no memory, %s", fn)
	}
	// names
	type nm struct {
		name  string
		valid bool
	}
	names := []nm{{"a", true}, {"Z_9", true}, {"upgrade", true}, {"init2", true}, {"solidity.ctor", true}, {"a b", true}, {"\x00", true}, {"\x7f", true}, {"", false}, {"é", false}, {"\u0080", false}, {"a\u0080b", false},
		{strings.Repeat("n", 255), true}, {strings.Repeat("n", 256), false}, {strings.Repeat("n", 257), false}, {strings.Repeat("n", 1000), false}, {strings.Repeat("é", 128), false},
		{"upgradeContract", false}, {"upgradecontract", true}, {"ESDTTransfer2", true}, {"esdttransfer", true}}
	for n := range wb.Sigs {
		names = append(names, nm{n, false})
	}
	w := world.New()
	if err := w.EnableBuiltIns(script.BuiltInGas()); err != nil {
		panic(err)
	}
	for n := range w.BuiltIn.Keys() {
		names = append(names, nm{n, false})
	}
	sort.Slice(names, func(i, j int) bool { return names[i].name < names[j].name })
	for _, n := range names {
		add(n.valid, mod("v2", n.name, "init", "f"), "a function named %.30q (%d bytes) first", n.name, len(n.name))
		add(n.valid, mod("v2", "init", "f", n.name), "a function named %.30q (%d bytes) last", n.name, len(n.name))
	}
	// signatures
	for _, fn := range []string{"init", "f", "callBack", "g"} {
		for _, s := range [][2]string{{"i", ""}, {"l", ""}, {"ii", ""}, {"", "i"}, {"", "l"}, {"i", "i"}, {"iiiiiiiiii", "l"}} {
			for pos := 0; pos < 2; pos++ {
				m := wb.New()
				for i, n := range []string{"init", "f"} {
					n := n
					if (i == 0) == (pos == 0) || fn == "init" || fn == "f" {
						if n == fn {
							m.FnSig(n, s[0], s[1], true, func(f *wb.F) { ret(f, s[1]) })
							continue
						}
					}
					m.Fn(n, func(f *wb.F) { f.Finish([]byte("v2")) })
				}
				if fn == "callBack" || fn == "g" {
					m.FnSig(fn, s[0], s[1], true, func(f *wb.F) { ret(f, s[1]) })
				}
				if pos == 1 {
					m.Fn("z", func(f *wb.F) {})
				}
				add(false, m, "%s takes %q and returns %q (%d)", fn, s[0], s[1], pos)
			}
		}
	}
	// imports
	tokens := map[string]bool{}
	for _, n := range []string{"transferESDTExecute", "transferESDTNFTExecute", "transferValueExecute", "getESDTBalance", "getESDTTokenData", "getESDTTokenType", "getESDTTokenNonce", "getCurrentESDTNFTNonce", "getESDTNFTNameLength", "getESDTNFTAttributeLength", "getESDTNFTURILength", "bigIntGetESDTExternalBalance"} {
		tokens[n] = true
	}
	var imports []string
	for n := range wb.Sigs {
		imports = append(imports, n)
	}
	sort.Strings(imports)
	for _, n := range imports {
		for _, esdt := range []uint32{0, 100} {
			m := mod("v2", "init", "f")
			m.Import(n)
			add(esdt == 0 || !tokens[n], m, "imports %s, token functions from epoch %d", n, esdt)
			out[len(out)-1].opt.ESDT = esdt
		}
	}
	for _, n := range []string{"", "noSuchFunction", "Finish", "finish2"} {
		m := wb.New()
		m.SetImportSig(n, "", "")
		m.Fn("init", func(f *wb.F) {})
		m.Fn("f", func(f *wb.F) { f.Do(n) })
		add(false, m, "imports the unknown %q", n)
	}
	// code which is no code
	raw := mod("v2", "init", "f").Bytes()
	for _, b := range [][]byte{{}, {0}, []byte("\x00asm"), []byte("\x00asm\x01\x00\x00\x00"), []byte("not code at all, but longer than the header of a module"), append([]byte{1}, raw[1:]...), append(append([]byte{}, raw[:4]...), append([]byte{2}, raw[5:]...)...)} {
		out = append(out, codeCase{name: fmt.Sprintf("damaged: %.40q", b), code: b, init: true})
	}
	// up to the code section there is no valid prefix but the ends of sections, which lack the bodies of functions
	last := bytes.LastIndex(raw, []byte("v2"))
	for n := 9; n < last-12; n += 1 {
		out = append(out, codeCase{name: fmt.Sprintf("the first %d bytes", n), code: raw[:n], init: true})
	}
	return out
}

func ret(f *wb.F, result string) {
	switch result {
	case "i":
		f.Raw(0x41, 0)
	case "l":
		f.Raw(0x42, 0)
	}
}

// deployer creates and upgrades contracts with code and sources given as arguments.
var deployer = func() []byte {
	m := wb.New()
	m.Pages = 4
	const codeAt, metaAt, addrAt, zeroAt, resAt, gas = 100000, 60000, 60100, 60200, 60300, 1 << 40
	args := func(f *wb.F) {
		f.Do("getArgument", wb.I(0), wb.I(metaAt))
		f.Do("getArgument", wb.I(1), wb.I(codeAt))
		f.Do("getArgument", wb.I(2), wb.I(addrAt))
	}
	size := wb.Call("getArgumentLength", wb.I(1))
	m.Fn("create", func(f *wb.F) {
		args(f)
		f.FinishI32(wb.Call("createContract", wb.L(gas), wb.I(zeroAt), wb.I(codeAt), wb.I(metaAt), size, wb.I(resAt), wb.I(0), wb.I(0), wb.I(0)))
		f.Do("finish", wb.I(resAt), wb.I(32))
	})
	m.Fn("createFrom", func(f *wb.F) {
		args(f)
		f.FinishI32(wb.Call("deployFromSourceContract", wb.L(gas), wb.I(zeroAt), wb.I(codeAt), wb.I(metaAt), wb.I(resAt), wb.I(0), wb.I(0), wb.I(0)))
		f.Do("finish", wb.I(resAt), wb.I(32))
	})
	m.Fn("upgrade", func(f *wb.F) {
		args(f)
		f.Do("upgradeContract", wb.I(addrAt), wb.L(gas), wb.I(zeroAt), wb.I(codeAt), wb.I(metaAt), size, wb.I(0), wb.I(0), wb.I(0))
	})
	m.Fn("upgradeFrom", func(f *wb.F) {
		args(f)
		f.Do("upgradeFromSourceContract", wb.I(addrAt), wb.L(gas), wb.I(zeroAt), wb.I(codeAt), wb.I(metaAt), wb.I(0), wb.I(0), wb.I(0))
	})
	m.Fn("callBack", func(f *wb.F) {})
	return m.Bytes()
}()

var codePaths = []string{"a deployment", "an upgrade", "createContract", "deployFromSourceContract", "upgradeContract", "upgradeFromSourceContract"}

func runC11(c *core.Ctx) {
	v1 := mod("v1", "init", "f").Bytes()
	cases := codeCases()
	const block = 6
	for first := 0; first < len(cases); first += block {
		first := first
		c.Case(func() string { return fmt.Sprintf("deployments of contracts %d to %d", first, first+block-1) }, func(t *core.T) {
			for i := first; i < first+block && i < len(cases); i++ {
				for path := range codePaths {
					for warm := 0; warm < 2; warm++ {
						if warm == 1 && path != 3 && path != 5 {
							continue
						}
						if !deployOne(t, cases[i], path, warm == 1, v1, nil) {
							return
						}
					}
					// the VM has seen the same code, or another one, before
					for before := range codePaths {
						for _, j := range []int{i, 0, (i + 1) % len(cases)} {
							if !c.Thorough && j != i && j != 0 {
								continue
							}
							if !reflect.DeepEqual(cases[j].opt, cases[i].opt) {
								continue
							}
							for _, anew := range []bool{false, true} {
								if !deployOne(t, cases[i], path, false, v1, &codeBefore{cases[j], before, anew}) {
									return
								}
							}
						}
					}
				}
			}
		})
	}
	codeHistories(c)
}

// codeBefore is a deployment which the VM attempted before.
type codeBefore struct {
	codeCase
	path int
	anew bool // compiled codes are not kept
}

// deployOne deploys or upgrades and looks at the outcome.
func deployOne(t *core.T, cc codeCase, path int, cached bool, v1 []byte, prior *codeBefore) bool {
	mk := func(src []byte) *world.World {
		w := world.New()
		w.Add(script.User, 1000)
		w.AddContract(script.A, 0, v1, script.User)
		w.AddContract(script.B, 0, deployer, script.User)
		w.AddContract(script.Src, 0, src, script.User)
		if err := w.EnableBuiltIns(script.BuiltInGas()); err != nil {
			panic(err)
		}
		return w
	}
	w := mk(cc.code)
	h, sw := vmx.MustSwap(w, cc.opt)
	if prior != nil {
		w0 := mk(prior.code)
		sw.World = w0
		deployBy(h, w0, prior.code, prior.path)
		t.Trans(1)
		if !prior.anew {
			w.Compiled = w0.Compiled
		}
		sw.World = w
	}
	if cached {
		// the source has been there and running before the rules
		vmx.Run(h, w, vmx.Call(script.User, script.Src, "f", 0, 1<<45))
	}
	what := fmt.Sprintf("%s by %s (cached %v)", cc.name, codePaths[path], cached)
	if prior != nil {
		what += fmt.Sprintf(" after the same VM has seen %s of the contract which is %s", codePaths[prior.path], prior.name)
	}
	target, owner, out, err, aerr := deployBy(h, w, cc.code, path)
	meta := deployedMeta
	t.Exec(1)
	t.Trans(2)
	if err != nil || aerr != nil {
		t.Failf("%s: error %v %v", what, err, aerr)
		return false
	}
	t.Outcome(fmt.Sprint(path, out.ReturnCode, cc.valid))
	upgrade := path == 1 || path >= 4
	acc := w.Accounts[string(target)]
	changed := acc != nil && len(acc.Code) > 0 && (!upgrade || !bytes.Equal(acc.Meta, []byte{5, 6}))
	allowed := cc.valid
	if !cc.init && path >= 2 && path <= 3 {
		allowed = false // an indirect deployment calls the constructor
	}
	if changed && !allowed {
		t.Failf("%s: is deployed (%v %q)", what, out.ReturnCode, out.ReturnMessage)
		return false
	}
	if allowed && !changed {
		t.Failf("%s: is not deployed (%v %q)", what, out.ReturnCode, out.ReturnMessage)
		return false
	}
	if path < 2 && !allowed && out.ReturnCode != vmcommon.ContractInvalid {
		t.Failf("%s: fails with %v %q", what, out.ReturnCode, out.ReturnMessage)
		return false
	}
	mark := ""
	if allowed {
		if !bytes.Equal(acc.Code, cc.code) || !bytes.Equal(acc.Meta, meta) || !bytes.Equal(acc.Owner, owner) {
			t.Failf("%s: the account has code %x metadata %x owner %x", what, hash8(acc.Code), acc.Meta, acc.Owner)
			return false
		}
		mark = "v2"
	} else if upgrade {
		mark = "v1"
	}
	if mark != "" && !strings.HasPrefix(cc.name, "imports the") {
		out, err, aerr = vmx.Run(h, w, vmx.Call(script.User, target, "f", 0, 1<<45))
		if err != nil || aerr != nil || out.ReturnCode != vmcommon.Ok || len(out.ReturnData) != 1 || string(out.ReturnData[0]) != mark {
			t.Failf("%s: then a call yields %s, expected %s", what, vmx.Canon(out, err), mark)
			return false
		}
		saves := w.Saves
		again, err, _ := vmx.Run(h, w, vmx.Call(script.User, target, "f", 0, 1<<45))
		t.Trans(1)
		if a, b := vmx.Canon(again, err), vmx.Canon(out, nil); a != b {
			t.Failf("%s: then a second call yields %s, and not %s", what, a, b)
			return false
		}
		if w.Epoch >= cc.opt.AOT && w.Saves != saves {
			t.Failf("%s: the code is compiled anew by the second call, although the compiled code was kept", what)
			return false
		}
	}
	return true
}

var deployedMeta = []byte{5, 2}

// deployBy deploys code, or upgrades A to it, over a path.
func deployBy(h arwen.VMHost, w *world.World, code []byte, path int) (target, owner []byte, out *vmcommon.VMOutput, err, aerr error) {
	target, owner = script.A, script.User
	if path == 4 || path == 5 {
		w.Accounts[string(script.A)].Owner = script.B
		owner = script.B
	}
	nonce := w.Accounts[string(script.User)].Nonce
	bnonce := w.Accounts[string(script.B)].Nonce
	switch path {
	case 0:
		out, err, aerr = vmx.RunCreate(h, w, vmx.Create(script.User, code, deployedMeta, 0, 1<<45))
		target = world.NewAddr(script.User, nonce)
	case 1:
		out, err, aerr = vmx.Run(h, w, vmx.Call(script.User, script.A, "upgradeContract", 0, 1<<45, code, deployedMeta))
	case 2:
		out, err, aerr = vmx.Run(h, w, vmx.Call(script.User, script.B, "create", 0, 1<<45, deployedMeta, code))
		target, owner = world.NewAddr(script.B, bnonce), script.B
	case 3:
		out, err, aerr = vmx.Run(h, w, vmx.Call(script.User, script.B, "createFrom", 0, 1<<45, deployedMeta, script.Src))
		target, owner = world.NewAddr(script.B, bnonce), script.B
	case 4:
		out, err, aerr = vmx.Run(h, w, vmx.Call(script.User, script.B, "upgrade", 0, 1<<45, deployedMeta, code, script.A))
	case 5:
		out, err, aerr = vmx.Run(h, w, vmx.Call(script.User, script.B, "upgradeFrom", 0, 1<<45, deployedMeta, script.Src, script.A))
	}
	return
}

// ---- the code of an account is what runs

// codeStep is a step of a transaction. A and B have the same code at first.
type codeStep struct {
	name string
	emit func(f *wb.F, n int)
	// model
	do func(m *codeModel)
}

type codeModel struct {
	code map[string]string
	seen []string
	made int
}

func (m *codeModel) clone() *codeModel {
	c := &codeModel{code: map[string]string{}, made: m.made}
	for k, v := range m.code {
		c.code[k] = v
	}
	return c
}

func codeHistories(c *core.Ctx) {
	code := map[string][]byte{"v1": mod("v1", "init", "f").Bytes(), "v2": mod("v2", "f", "init").Bytes()}
	// the constructors are silent
	for _, v := range []string{"v1", "v2"} {
		v := v
		m := wb.New()
		m.Fn("init", func(f *wb.F) {})
		m.Fn("f", func(f *wb.F) { f.Finish([]byte(v)) })
		code[v] = m.Bytes()
	}
	srcs := map[string][]byte{"v1": vmx.SC("src1"), "v2": vmx.SC("src2")}
	const gas = 1 << 36
	call := func(f *wb.F, to []byte, fn string) {
		f.Do("executeOnDestContext", wb.L(gas), wb.P(to), wb.I(zeros), wb.S(fn), wb.I(int32(len(fn))), wb.I(0), wb.I(0), wb.I(0))
	}
	steps := []codeStep{
		{"call A", func(f *wb.F, n int) { call(f, script.A, "f") }, func(m *codeModel) { m.seen = append(m.seen, m.code["A"]) }},
		{"call B", func(f *wb.F, n int) { call(f, script.B, "f") }, func(m *codeModel) { m.seen = append(m.seen, m.code["B"]) }},
	}
	for _, v := range []string{"v1", "v2"} {
		v := v
		steps = append(steps,
			codeStep{"upgrade A to " + v, func(f *wb.F, n int) { call(f, script.C, "to "+v) }, func(m *codeModel) { m.code["A"] = v }},
			codeStep{"upgrade A to the source " + v, func(f *wb.F, n int) { call(f, script.C, "from "+v) }, func(m *codeModel) { m.code["A"] = v }},
			codeStep{"create and call " + v, func(f *wb.F, n int) {
				p := int32(40000 + 64*n)
				f.Do("createContract", wb.L(gas), wb.I(zeros), wb.P(code[v]), wb.S("\x05\x06"), wb.I(int32(len(code[v]))), wb.I(p), wb.I(0), wb.I(0), wb.I(0))
				f.Do("executeOnDestContext", wb.L(gas), wb.I(p), wb.I(zeros), wb.S("f"), wb.I(1), wb.I(0), wb.I(0), wb.I(0))
			}, func(m *codeModel) { m.seen = append(m.seen, v) }},
		)
	}
	steps = append(steps, codeStep{"create and call a copy of the source v2", func(f *wb.F, n int) {
		p := int32(40000 + 64*n)
		f.Do("deployFromSourceContract", wb.L(gas), wb.I(zeros), wb.P(srcs["v2"]), wb.S("\x05\x06"), wb.I(p), wb.I(0), wb.I(0), wb.I(0))
		f.Do("executeOnDestContext", wb.L(gas), wb.I(p), wb.I(zeros), wb.S("f"), wb.I(1), wb.I(0), wb.I(0), wb.I(0))
	}, func(m *codeModel) { m.seen = append(m.seen, "v2") }})
	// C owns A and upgrades it
	up := wb.New()
	for _, v := range []string{"v1", "v2"} {
		v := v
		up.Fn("to "+v, func(f *wb.F) {
			f.Do("upgradeContract", wb.P(script.A), wb.L(gas/4), wb.I(zeros), wb.P(code[v]), wb.S("\x05\x06"), wb.I(int32(len(code[v]))), wb.I(0), wb.I(0), wb.I(0))
		})
		up.Fn("from "+v, func(f *wb.F) {
			f.Do("upgradeFromSourceContract", wb.P(script.A), wb.L(gas/4), wb.I(zeros), wb.P(srcs[v]), wb.S("\x05\x06"), wb.I(0), wb.I(0), wb.I(0))
		})
	}
	upCode := up.Bytes()
	depth := 3
	if c.Thorough {
		depth = 4
	}
	for first := range steps {
		for aot := 0; aot < 2; aot++ {
			first, aot := first, aot
			c.Case(func() string {
				return fmt.Sprintf("transactions which begin with: %s; ahead-of-time compilation %v", steps[first].name, aot == 0)
			}, func(t *core.T) {
				var sw *world.Swap
				var h arwen.VMHost
				var walk func(seq []int) bool
				walk = func(seq []int) bool {
					m := wb.New()
					for i := 0; i < 2; i++ {
						m.Fn([]string{"ok", "fail"}[i], func(f *wb.F) {
							for j, s := range seq {
								steps[s].emit(f, j)
							}
							if i == 1 {
								f.Do("signalError", wb.S("no"), wb.I(2))
							}
						})
					}
					prog := m.Bytes()
					for fail := 0; fail < 2; fail++ {
						for cache := 0; cache < 4; cache++ {
							w := world.New()
							w.Add(script.User, 1000)
							w.AddContract(script.A, 0, code["v1"], script.C)
							w.AddContract(script.B, 0, code["v1"], script.User)
							w.AddContract(script.C, 0, upCode, script.User)
							w.AddContract(script.D, 0, prog, script.User)
							w.AddContract(srcs["v1"], 0, code["v1"], script.User)
							w.AddContract(srcs["v2"], 0, code["v2"], script.User)
							if h == nil {
								h, sw = vmx.MustSwap(w, vmx.Opt{AOT: []uint32{0, 100}[aot]})
							} else {
								sw.World = w
							}
							model := &codeModel{code: map[string]string{"A": "v1", "B": "v1"}}
							what := func() string {
								var ns []string
								for _, s := range seq {
									ns = append(ns, steps[s].name)
								}
								return fmt.Sprintf("%s, fails %v, cache %d", strings.Join(ns, ", "), fail == 1, cache)
							}
							tx := func(to []byte, fn string, want []string, ok bool) bool {
								out, err, aerr := vmx.Run(h, w, vmx.Call(script.User, to, fn, 0, 1<<45))
								t.Trans(1)
								var got []string
								if out != nil {
									for _, r := range out.ReturnData {
										got = append(got, string(r))
									}
								}
								if err != nil || aerr != nil || (out.ReturnCode == vmcommon.Ok) != ok || ok && strings.Join(got, " ") != strings.Join(want, " ") {
									t.Failf("%s: %s of %s yields %v (%s), expected %v", what(), fn, to[22:24], got, vmx.Canon(out, err), want)
									return false
								}
								return true
							}
							if cache&1 != 0 && !tx(script.A, "f", []string{"v1"}, true) {
								return false
							}
							if cache&2 != 0 && !tx(srcs["v2"], "f", []string{"v2"}, true) {
								return false
							}
							after := model.clone()
							for _, s := range seq {
								steps[s].do(after)
							}
							seen := after.seen
							if fail == 1 {
								after = model
							}
							if !tx(script.D, []string{"ok", "fail"}[fail], seen, fail == 0) {
								return false
							}
							for _, x := range []struct {
								to   []byte
								want string
							}{{script.B, after.code["B"]}, {script.A, after.code["A"]}, {srcs["v2"], "v2"}, {srcs["v1"], "v1"}} {
								if !tx(x.to, "f", []string{x.want}, true) {
									return false
								}
							}
							t.Exec(1)
							t.State(what())
						}
					}
					if len(seq) < depth {
						for s := range steps {
							if !walk(append(append([]int{}, seq...), s)) {
								return false
							}
						}
					}
					return true
				}
				walk([]int{first})
			})
		}
	}
}

// zeros is a place in memory which is zero.
const zeros = 60000
