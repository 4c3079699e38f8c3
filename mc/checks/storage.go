package checks

import (
	"fmt"
	"math/big"
	"strings"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

// ---- sequences of operations on storage, compared with maps

// stState is the reference: a map for each contract.
type stState struct {
	acc      map[string]map[string]string // contract -> key -> value
	self     string
	code     string // the contract whose code is running, if it is not self
	readOnly bool
	time     int64
	faulted  string
	toks     map[string]int64 // tokens which the contracts own
}

func (s *stState) clone() *stState {
	c := *s
	c.acc, c.toks = map[string]map[string]string{}, map[string]int64{}
	for a, v := range s.toks {
		c.toks[a] = v
	}
	for a, m := range s.acc {
		c.acc[a] = map[string]string{}
		for k, v := range m {
			c.acc[a][k] = v
		}
	}
	return &c
}

func (s *stState) get(k string) string {
	return s.of(s.self, k)
}

func (s *stState) of(a, k string) string {
	if k == tokKey && s.toks[a] > 0 {
		return tokData(s.toks[a])
	}
	return s.acc[a][k]
}

const (
	stUnchanged = iota
	stModified
	stAdded
	stDeleted
)

// put writes a value and returns the status.
func (s *stState) put(k, v string) int {
	if s.readOnly {
		return stUnchanged
	}
	old := s.get(k)
	s.acc[s.self][k] = v
	switch {
	case old == v:
		return stUnchanged
	case old == "":
		return stAdded
	case v == "":
		return stDeleted
	}
	return stModified
}

// write is put for contracts: keys of the protocol and of the VM are refused.
func (s *stState) write(k, v string) (int, bool) {
	if !s.readOnly && (strings.HasPrefix(k, "ELROND") || strings.HasPrefix(k, "ARWEN@")) {
		s.faulted = "cannot"
		return -1, false
	}
	return s.put(k, v), true
}

// lock sets or clears a time lock; the VM may do so under keys of its own, but not of the protocol.
func (s *stState) lock(k, v string) []string {
	if !s.readOnly && strings.HasPrefix(k, "ELROND") {
		s.faulted = "cannot"
		return nil
	}
	return []string{le32(s.put(k+lockSuffix, v))}
}

var tokKey = string(world.ESDTKey([]byte(script.TOK), 0))

func tokData(v int64) string {
	a := &world.Account{Storage: map[string][]byte{}}
	a.SetESDT(script.TOK, v)
	return string(a.Storage[tokKey])
}

// stOp is an operation. run returns what the contract reports; it sets s.faulted when the operation fails the execution.
type stOp struct {
	name string
	emit func(f *wb.F)
	run  func(s *stState) []string
}

func le32(v int) string { return string([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}) }
func le64(v uint64) string {
	var b [8]byte
	for i := range b {
		b[i] = byte(v >> uint(8*i))
	}
	return string(b[:])
}

func twosBytes(v int64) string {
	b := big.NewInt(v)
	if v >= 0 {
		r := b.Bytes()
		if len(r) > 0 && r[0]&0x80 != 0 {
			r = append([]byte{0}, r...)
		}
		return string(r)
	}
	for n := uint(1); ; n++ {
		if v >= -(int64(1)<<(8*n-1)) || n == 8 {
			r := new(big.Int).Add(b, new(big.Int).Lsh(big.NewInt(1), 8*n)).Bytes()
			return string(r)
		}
	}
}

func twosValue(d string) *big.Int {
	v := new(big.Int).SetBytes([]byte(d))
	if len(d) > 0 && d[0]&0x80 != 0 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(8*len(d))))
	}
	return v
}

const stBuf = 40000

// finishLen reports an i32 and, if it is positive, as many bytes of the buffer.
func finishLen(f *wb.F, e wb.E) {
	l := f.Local("i")
	f.Set(l, e)
	f.FinishI32(wb.Get(l))
	f.Do("finish", wb.I(stBuf), wb.Get(l))
}

func key(k string) []wb.E { return []wb.E{wb.S(k), wb.I(int32(len(k)))} }

func withKey(fn, k string, rest ...wb.E) wb.E { return wb.Call(fn, append(key(k), rest...)...) }

var stLong = strings.Repeat("L", 40)

func stStores(keys, vals []string, nums []int64) []stOp {
	var out []stOp
	status := func(k string, v func() string) func(s *stState) []string {
		return func(s *stState) []string {
			st, ok := s.write(k, v())
			if !ok {
				return nil
			}
			return []string{le32(st)}
		}
	}
	for _, k := range keys {
		k := k
		for _, v := range vals {
			v := v
			out = append(out, stOp{fmt.Sprintf("storageStore(%q,%q)", k, v), func(f *wb.F) {
				f.FinishI32(withKey("storageStore", k, wb.S(v), wb.I(int32(len(v)))))
			}, status(k, func() string { return v })})
		}
		for _, n := range nums {
			n := n
			out = append(out, stOp{fmt.Sprintf("smallIntStorageStoreUnsigned(%q,%d)", k, uint64(n)), func(f *wb.F) {
				f.FinishI32(withKey("smallIntStorageStoreUnsigned", k, wb.L(n)))
			}, status(k, func() string { return string(new(big.Int).SetUint64(uint64(n)).Bytes()) })},
				stOp{fmt.Sprintf("smallIntStorageStoreSigned(%q,%d)", k, n), func(f *wb.F) {
					f.FinishI32(withKey("smallIntStorageStoreSigned", k, wb.L(n)))
				}, status(k, func() string { return twosBytes(n) })},
				stOp{fmt.Sprintf("bigIntStorageStoreUnsigned(%q,%d)", k, n), func(f *wb.F) {
					f.FinishI32(withKey("bigIntStorageStoreUnsigned", k, wb.Call("bigIntNew", wb.L(n))))
				}, status(k, func() string { return string(big.NewInt(n).Bytes()) })})
		}
		out = append(out, stOp{fmt.Sprintf("int64storageStore(%q,300)", k), func(f *wb.F) {
			f.FinishI32(withKey("int64storageStore", k, wb.L(300)))
		}, status(k, func() string { return "\x01\x2c" })})
	}
	return out
}

func stLoads(keys []string) []stOp {
	var out []stOp
	for _, k := range keys {
		k := k
		data := func(s *stState) []string { v := s.get(k); return []string{le32(len(v)), v} }
		out = append(out,
			stOp{fmt.Sprintf("storageLoad(%q)", k), func(f *wb.F) { finishLen(f, withKey("storageLoad", k, wb.I(stBuf))) }, data},
			stOp{fmt.Sprintf("storageLoadLength(%q)", k), func(f *wb.F) { f.FinishI32(withKey("storageLoadLength", k)) },
				func(s *stState) []string { return []string{le32(len(s.get(k)))} }},
			stOp{fmt.Sprintf("bigIntStorageLoadUnsigned(%q)", k), func(f *wb.F) {
				h := f.Local("i")
				f.Set(h, wb.Call("bigIntNew", wb.L(77)))
				f.FinishI32(withKey("bigIntStorageLoadUnsigned", k, wb.Get(h)))
				f.Do("bigIntFinishUnsigned", wb.Get(h))
			}, func(s *stState) []string {
				v := s.get(k)
				return []string{le32(len(v)), string(new(big.Int).SetBytes([]byte(v)).Bytes())}
			}},
			stOp{fmt.Sprintf("smallIntStorageLoadUnsigned(%q)", k), func(f *wb.F) { f.FinishI64(withKey("smallIntStorageLoadUnsigned", k)) }, func(s *stState) []string {
				v := new(big.Int).SetBytes([]byte(s.get(k)))
				if !v.IsUint64() {
					s.faulted = "range"
					return nil
				}
				return []string{le64(v.Uint64())}
			}},
			stOp{fmt.Sprintf("smallIntStorageLoadSigned(%q)", k), func(f *wb.F) { f.FinishI64(withKey("smallIntStorageLoadSigned", k)) }, func(s *stState) []string {
				v := twosValue(s.get(k))
				if !v.IsInt64() {
					s.faulted = "range"
					return nil
				}
				return []string{le64(uint64(v.Int64()))}
			}},
			stOp{fmt.Sprintf("int64storageLoad(%q)", k), func(f *wb.F) { f.FinishI64(withKey("int64storageLoad", k)) }, func(s *stState) []string {
				v := new(big.Int).SetBytes([]byte(s.get(k)))
				if !v.IsUint64() {
					s.faulted = "range"
					return nil
				}
				return []string{le64(v.Uint64())}
			}})
	}
	return out
}

// stFrom reads from other accounts: A itself, a readable one, one which is not, a wallet, nobody.
func stFrom(keys []string) []stOp {
	var out []stOp
	for _, a := range [][]byte{script.A, script.B, script.C, script.User, vmx.SC("nobody")} {
		for _, k := range keys {
			a, k := a, k
			out = append(out, stOp{fmt.Sprintf("storageLoadFromAddress(%s,%q)", script.Nick(a), k), func(f *wb.F) {
				finishLen(f, wb.Call("storageLoadFromAddress", wb.P(a), wb.S(k), wb.I(int32(len(k))), wb.I(stBuf)))
			}, func(s *stState) []string {
				v := ""
				switch string(a) {
				case s.self, string(script.A), string(script.B):
					v = s.of(string(a), k)
				}
				return []string{le32(len(v)), v}
			}})
		}
	}
	return out
}

const lockSuffix = "ARWEN@TIMELOCK"

func stLocks(keys []string, times []int64) []stOp {
	var out []stOp
	get := func(s *stState, k string) int64 {
		return new(big.Int).SetBytes([]byte(s.get(k + lockSuffix))).Int64()
	}
	for _, k := range keys {
		k := k
		for _, t := range times {
			t := t
			out = append(out, stOp{fmt.Sprintf("setStorageLock(%q,%d)", k, t), func(f *wb.F) { f.FinishI32(withKey("setStorageLock", k, wb.L(t))) },
				func(s *stState) []string {
					return s.lock(k, string(big.NewInt(t).Bytes()))
				}})
		}
		out = append(out,
			stOp{fmt.Sprintf("clearStorageLock(%q)", k), func(f *wb.F) { f.FinishI32(withKey("clearStorageLock", k)) },
				func(s *stState) []string { return s.lock(k, "") }},
			stOp{fmt.Sprintf("getStorageLock(%q)", k), func(f *wb.F) { f.FinishI64(withKey("getStorageLock", k)) },
				func(s *stState) []string { return []string{le64(uint64(get(s, k)))} }},
			stOp{fmt.Sprintf("isStorageLocked(%q)", k), func(f *wb.F) { f.FinishI32(withKey("isStorageLocked", k)) },
				func(s *stState) []string {
					if get(s, k) > s.time {
						return []string{le32(1)}
					}
					return []string{le32(0)}
				}})
	}
	return out
}

// stSend sends tokens away by the built-in function, which changes a key of the protocol.
func stSend() stOp {
	return stOp{"transferESDT(1)", func(f *wb.F) {
		f.FinishI32(wb.Call("transferESDTExecute", wb.P(script.User), wb.S(script.TOK), wb.I(int32(len(script.TOK))), wb.P(script.Value32(1)), wb.L(0), wb.I(0), wb.I(0), wb.I(0), wb.I(0), wb.I(0)))
	}, func(s *stState) []string {
		if s.readOnly {
			s.faulted = "read only"
			return nil
		}
		if s.code != "" {
			s.toks[s.code]--
		} else {
			s.toks[s.self]--
		}
		return []string{le32(0)}
	}}
}

// split says where the operations run.
type split int

const (
	oneFrame     split = iota
	nestedSelf         // the second one in a call of itself
	nestedSame         // the second one in code of another contract, on the storage of the caller
	nestedOther        // the second one in another contract, on its own storage
	nestedRO           // the second one in a read-only call
	nestedFailed       // the second one in a call which fails
	secondTx           // from the second one on in the next transaction
)

var splitNames = []string{"in one frame", "the second one in a nested call of itself", "the second one in another contract's code on its own storage", "the second one in another contract",
	"the second one in a read-only call", "the second one in a nested call which fails", "the second one in the next transaction"}

func callArgs(fn string, to []byte, name string) []wb.E {
	gas, val, f := wb.L(1<<40), wb.P(script.Value32(0)), []wb.E{wb.S(name), wb.I(int32(len(name))), wb.I(0), wb.I(0), wb.I(0)}
	switch fn {
	case "executeReadOnly", "delegateExecution":
		return append([]wb.E{gas, wb.P(to)}, f...)
	case "transferValueExecute":
		return append([]wb.E{wb.P(to), val, gas}, f...)
	}
	return append([]wb.E{gas, wb.P(to), val}, f...)
}

type stRunner struct {
	t  *core.T
	h  arwen.VMHost
	sw *world.Swap
	n  int
}

// run executes the operations and compares the results and all storage.
func (r *stRunner) run(ops []stOp, sp split) bool {
	st := &stState{acc: map[string]map[string]string{string(script.A): {"k": "olda"}, string(script.B): {"k": "oldb"}, string(script.C): {"k": "oldc"}}, self: string(script.A), time: 64, toks: map[string]int64{string(script.A): 50, string(script.B): 20}}
	st.acc[string(script.A)][stLong] = "long value"
	st.acc[string(script.A)]["ELRONDother"] = "e"
	st.acc[string(script.A)]["tm"+lockSuffix] = "\x40" // 64
	ma, mb := wb.New(), wb.New()
	frame := func(m *wb.M, name string, ops []stOp, end func(f *wb.F)) {
		m.Fn(name, func(f *wb.F) {
			for _, o := range ops {
				o.emit(f)
			}
			if end != nil {
				end(f)
			}
		})
	}
	call := func(fn string, to []byte, name string) stOp {
		return stOp{emit: func(f *wb.F) {
			f.FinishI32(wb.Call(fn, callArgs(fn, to, name)...))
		}}
	}
	type tx struct {
		fn  string
		ops []stOp
	}
	txs := []tx{{"f0", ops}}
	fault := func(f *wb.F) { f.Do("signalError", wb.S("no"), wb.I(2)) }
	mid := stOp{}
	if sp != oneFrame && sp != secondTx {
		to, m, fn := script.A, ma, "executeOnDestContext"
		var end func(f *wb.F)
		switch sp {
		case nestedSame:
			to, m, fn = script.B, mb, "executeOnSameContext"
		case nestedOther:
			to, m = script.B, mb
		case nestedRO:
			to, m, fn = script.A, ma, "executeReadOnly"
		case nestedFailed:
			fn, end = "transferValueExecute", fault
		}
		frame(m, "g", ops[1:2], end)
		mid = call(fn, to, "g")
		txs = []tx{{"f0", append([]stOp{ops[0], mid}, ops[2:]...)}}
	}
	if sp == secondTx {
		txs = []tx{{"f0", ops[:1]}, {"f1", ops[1:]}}
	}
	for _, x := range txs {
		frame(ma, x.fn, x.ops, nil)
	}
	// the reference
	var want [][]string
	var wantOK []bool
	for _, x := range txs {
		start := st.clone()
		var rets []string
		for i, o := range x.ops {
			if o.run != nil {
				rets = append(rets, o.run(st)...)
			} else {
				// the nested call; i is 1
				_ = i
				switch sp {
				case nestedSame:
					st.code = string(script.B)
				case nestedOther:
					st.self = string(script.B)
				case nestedRO:
					st.readOnly = true
				}
				saved := st.clone()
				rr := ops[1].run(st)
				if sp == nestedFailed {
					st = saved
					rets = append(rets, le32(1))
				} else {
					rets = append(append(rets, rr...), le32(0))
				}
				st.self, st.code, st.readOnly = string(script.A), "", false
			}
			if st.faulted != "" {
				break
			}
		}
		ok := st.faulted == ""
		if !ok {
			st = start
			rets = nil
		}
		want, wantOK = append(want, rets), append(wantOK, ok)
	}
	w := world.New()
	w.Add(script.User, 1000)
	w.TimeStamp = 64
	for _, x := range []struct {
		a    []byte
		m    *wb.M
		meta []byte
	}{{script.A, ma, []byte{5, 6}}, {script.B, mb, []byte{5, 6}}, {script.C, wb.New(), []byte{0, 0}}} {
		acc := w.AddContract(x.a, 10, x.m.Bytes(), script.Owner)
		acc.Meta = x.meta
	}
	w.Accounts[string(script.A)].SetESDT(script.TOK, 50)
	w.Accounts[string(script.B)].SetESDT(script.TOK, 20)
	for a, kv := range map[string]map[string]string{string(script.A): {"k": "olda", stLong: "long value", "ELRONDother": "e", "tm" + lockSuffix: "\x40"}, string(script.B): {"k": "oldb"}, string(script.C): {"k": "oldc"}} {
		for k, v := range kv {
			w.Accounts[a].Storage[k] = []byte(v)
		}
	}
	if err := w.EnableBuiltIns(script.BuiltInGas()); err != nil {
		panic(err)
	}
	if r.h == nil {
		r.h, r.sw = vmx.MustSwap(w, vmx.Opt{})
	} else {
		r.sw.World = w
	}
	r.n++
	desc := func() string {
		s := ""
		for _, o := range ops {
			s += o.name + "; "
		}
		return fmt.Sprintf("run %d on this host: %s(%s)", r.n, s, splitNames[sp])
	}
	for i, x := range txs {
		out, err, aerr := vmx.Run(r.h, w, vmx.Call(script.User, script.A, x.fn, 0, 1<<50))
		r.t.Exec(1)
		r.t.Trans(len(x.ops))
		if err != nil || aerr != nil {
			r.t.Failf("%s: error %v %v", desc(), err, aerr)
			return false
		}
		var got []string
		for _, d := range out.ReturnData {
			got = append(got, string(d))
		}
		r.t.Class(out.ReturnCode.String())
		r.t.Outcome(fmt.Sprintf("%x", got))
		if (out.ReturnCode == vmcommon.Ok) != wantOK[i] || fmt.Sprintf("%x", got) != fmt.Sprintf("%x", want[i]) {
			r.t.Failf("%s: transaction %d ends with %v %q and reports\n%x\nexpected (ok: %v)\n%x", desc(), i+1, out.ReturnCode, out.ReturnMessage, got, wantOK[i], want[i])
			return false
		}
		if !wantOK[i] {
			if l := script.Leftover(out); l != "" {
				r.t.Failf("%s: transaction %d: %s", desc(), i+1, l)
				return false
			}
		}
	}
	// all storage afterwards
	for a := range st.toks {
		st.acc[a][tokKey] = tokData(st.toks[a])
	}
	for a, kv := range st.acc {
		have := w.Accounts[a].Storage
		for k, v := range kv {
			if string(have[k]) != v {
				r.t.Failf("%s: afterwards the storage of %s has %q under %q, expected %q", desc(), script.Nick([]byte(a)), have[k], k, v)
				return false
			}
		}
		for k, v := range have {
			if len(v) > 0 && kv[k] != string(v) {
				r.t.Failf("%s: afterwards the storage of %s has %q under %q, expected %q", desc(), script.Nick([]byte(a)), v, k, kv[k])
				return false
			}
		}
	}
	return true
}

func init() {
	core.Register(&core.Check{ID: "C05", Level: "model_checking", Rule: "Every pair of operations on storage (5 ways to store, 6 ways to load, reading from other accounts, time locks, a transfer which changes a protected key) over an alphabet of keys and values, " +
		"and every triple over a smaller one, in 7 arrangements (one frame, nested in calls of five kinds, in two transactions) is compiled to WebAssembly and executed on the real VM. The oracle is a map for each account.",
		Assumptions: []string{"keys and values outside the alphabet behave like those in it"}, Run: runC05})
}

func runC05(c *core.Ctx) {
	keys := []string{"k", "n", "", stLong, tokKey, "ARWEN@x", "k" + lockSuffix, "ELRON", "ELRONDother", "tm" + lockSuffix}
	vals := []string{"", "x", "olda", "\x00", "\x00\x00\x00\x00\x00\x00\x00\x07\x09", "\xff\x80"}
	small := []string{"k", "n", tokKey}
	nums := []int64{0, 1, 200, -1, -200, -1 << 63}
	var all []stOp
	all = append(all, stStores(keys[:3], vals, nums)...)
	all = append(all, stStores(keys[3:], vals[:2], nums[:1])...)
	all = append(all, stLoads(keys)...)
	all = append(all, stFrom([]string{"k", tokKey, "ELRONDother", ""})...)
	all = append(all, stLocks([]string{"k", "tm"}, []int64{0, 63, 64, 65, 1 << 40})...)
	all = append(all, stLocks([]string{"ELRONDother", "ARWEN@x"}, []int64{0, 65})...)
	all = append(all, stSend())
	var few []stOp
	few = append(few, stStores(small[:1], vals[:3], nil)...)
	few = append(few, stStores(small[1:2], vals[1:2], nums[4:5])...)
	few = append(few, stLoads([]string{"k", "n", tokKey})...)
	few = append(few, stFrom(small)[:9]...)
	few = append(few, stLocks([]string{"k"}, []int64{65})...)
	few = append(few, stSend())
	splits := []split{oneFrame, nestedSelf, nestedSame, nestedOther, nestedRO, nestedFailed, secondTx}
	// all pairs (the first one also together with a load, which sees what the nested call left)
	for _, o := range all {
		o := o
		c.Case(func() string {
			return fmt.Sprintf("%s, followed by each of %d operations in %d arrangements", o.name, len(all), len(splits))
		}, func(t *core.T) {
			r := &stRunner{t: t}
			for _, p := range all {
				for _, sp := range splits {
					if !r.run([]stOp{o, p}, sp) {
						return
					}
				}
			}
		})
	}
	n := len(few)
	for _, o := range few {
		o := o
		c.Case(func() string {
			return fmt.Sprintf("%s, followed by each pair of %d operations in %d arrangements", o.name, n, len(splits))
		}, func(t *core.T) {
			r := &stRunner{t: t}
			for _, p := range few {
				for _, q := range few {
					for _, sp := range splits {
						if !r.run([]stOp{o, p, q}, sp) {
							return
						}
					}
				}
			}
		})
	}
}
