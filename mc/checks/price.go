package checks

import (
	"bytes"
	_ "embed"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

func init() {
	core.Register(&core.Check{ID: "C21", Level: "model_checking", Rule: "For every entry of the gas schedule, every function of the interface is called (with arguments, stored values and numbers of every length class, and calls with every kind of callee) under a schedule in which this entry alone is raised; " +
		"the difference of the gas used, of the gas locked and of the refund is compared with a table of prices. Every opcode is executed under schedules in which one opcode costs more. Every entry and section is left out, zero and not a number, for new hosts and for changes of the schedule; all sequences of up to 4 changes (valid and not) are compared with hosts created with the schedule which should hold.",
		Assumptions: []string{"the price is linear in the entries of the schedule", "opcodes are charged by the engine which stands in for wasmer, by the array of costs given to it"}, Run: runC21})
}

// priced is a program whose cost is known: call costs want more than nothing, after setup.
type priced struct {
	name   string
	setup  func(f *wb.F)
	call   func(f *wb.F)
	extra  func(m *wb.M) // more functions
	want   string        // gas used, as a sum of products of numbers and entries
	lock   string        // gas locked
	refund string
	known  string                                                        // what it costs because of the finding creators-pay-for-their-last-creation-only
	whole  func(h arwen.VMHost, code []byte) (*vmcommon.VMOutput, error) // a transaction, setup included
	tokens []*vmcommon.ESDTTransfer
	opt    vmx.Opt
}

var priceSections = map[string]string{"B": "BaseOperationCost", "E": "ElrondAPICost", "I": "BigIntAPICost", "C": "CryptoAPICost", "H": "EthAPICost", "W": "WASMOpcodeCost"}

// coefficient of an entry ("E.GetCaller") in a sum.
func coefficient(sum, entry string) int64 {
	total := int64(0)
	for _, t := range strings.Split(sum, "+") {
		t = strings.TrimSpace(t)
		if t == "" {
			continue
		}
		n := int64(1)
		if i := strings.Index(t, "*"); i > 0 {
			v, err := strconv.ParseInt(t[:i], 10, 64)
			if err != nil {
				panic("bad price " + sum)
			}
			n, t = v, t[i+1:]
		}
		if t == entry {
			total += n
		}
	}
	return total
}

var (
	priceSelf  = vmx.SC("prc")
	priceChild = vmx.SC("kid")
	priceOwned = vmx.SC("own")
	priceBad   = vmx.SC("bad")
	priceUser  = vmx.User("usr")
)

func priceKid() []byte {
	m := wb.New()
	for _, n := range []string{"init", "g"} {
		m.Fn(n, func(f *wb.F) { f.Nops(3) })
	}
	m.Fn("fail", func(f *wb.F) { f.Unreachable() })
	m.Ptr(bytes.Repeat([]byte{1}, 50))
	return m.Bytes()
}

// long keys are charged for what exceeds 32 bytes
func extraKey(k string) int {
	if len(k) > 32 {
		return len(k) - 32
	}
	return 0
}

// writeCost is the price and the refund of a write.
func writeCost(old, new, key string) (string, string) {
	s := fmt.Sprintf("%d*B.DataCopyPerByte", extraKey(key))
	switch {
	case old == new:
		return s + fmt.Sprintf("+%d*B.DataCopyPerByte", len(new)), ""
	case old == "":
		return s + fmt.Sprintf("+%d*B.StorePerByte", len(new)), ""
	case new == "":
		return s, fmt.Sprintf("%d*B.ReleasePerByte", len(old))
	case len(new) > len(old):
		return s + fmt.Sprintf("+%d*B.PersistPerByte+%d*B.StorePerByte", len(old), len(new)-len(old)), ""
	case len(new) < len(old):
		return s + fmt.Sprintf("+%d*B.PersistPerByte", len(new)), fmt.Sprintf("%d*B.ReleasePerByte", len(old)-len(new))
	}
	return s, ""
}

func readCost(val, key string) string {
	return fmt.Sprintf("%d*B.DataCopyPerByte", extraKey(key)+len(val))
}

var (
	priceKeys = []string{"k", strings.Repeat("k", 32), strings.Repeat("k", 33), strings.Repeat("k", 45)}
	priceVals = []string{"", "\x01", "\x02", "\x05\x05\x05\x05\x05", "\x06\x06\x06\x06\x06", "\x07\x07\x07\x07\x07\x07\x07\x07", strings.Repeat("\x08", 40)}
	priceArgs = []string{"", "\x07", "abc", strings.Repeat("\x41", 8)}
)

// pricedKey is the key under which the value is stored in the account before the transaction.
func pricedKey(k string, val int) string { return k[:len(k)-1] + string(rune('a'+val)) }

func kv(k, v string) []wb.E {
	return []wb.E{wb.S(k), wb.I(int32(len(k))), wb.S(v), wb.I(int32(len(v)))}
}

func pricedPrograms() []priced {
	var out []priced
	do := func(fn string, args ...wb.E) func(f *wb.F) { return func(f *wb.F) { f.Do(fn, args...) } }
	add := func(name, want string, call func(f *wb.F)) *priced {
		out = append(out, priced{name: name, want: want, call: call})
		return &out[len(out)-1]
	}
	buf := wb.I(zeros)
	simple := func(fn, want string, args ...wb.E) { add(fn, want, do(fn, args...)) }
	// what takes no data
	for _, e := range [][2]string{{"getGasLeft", "E.GetGasLeft"}, {"getNumArguments", "E.GetNumArguments"}, {"checkNoPayment", "E.GetCallValue"}, {"getESDTTokenType", "E.GetCallValue"}, {"getESDTTokenNonce", "E.GetCallValue"},
		{"getBlockTimestamp", "E.GetBlockTimeStamp"}, {"getBlockNonce", "E.GetBlockNonce"}, {"getBlockRound", "E.GetBlockRound"}, {"getBlockEpoch", "E.GetBlockEpoch"},
		{"getPrevBlockTimestamp", "E.GetBlockTimeStamp"}, {"getPrevBlockNonce", "E.GetBlockNonce"}, {"getPrevBlockRound", "E.GetBlockRound"}, {"getPrevBlockEpoch", "E.GetBlockEpoch"},
		{"getNumReturnData", "E.GetNumReturnData"}} {
		simple(e[0], e[1])
	}
	for _, e := range [][2]string{{"getSCAddress", "E.GetSCAddress"}, {"getOwnerAddress", "E.GetOwnerAddress"}, {"getFunction", "E.GetFunction"}, {"getCaller", "E.GetCaller"}, {"getCallValue", "E.GetCallValue"}, {"getESDTValue", "E.GetCallValue"},
		{"getESDTTokenName", "E.GetCallValue"}, {"getBlockRandomSeed", "E.GetBlockRandomSeed"}, {"getPrevBlockRandomSeed", "E.GetBlockRandomSeed"}, {"getStateRootHash", "E.GetStateRootHash"}, {"getOriginalTxHash", "E.GetBlockHash"}} {
		if e[0] == "getESDTValue" || e[0] == "getESDTTokenName" {
			add(e[0], e[1], do(e[0], buf)).tokens = []*vmcommon.ESDTTransfer{{ESDTTokenName: []byte(script.TOK), ESDTValue: script.Amount(1)}}
			continue
		}
		simple(e[0], e[1], buf)
	}
	add("getCallValueTokenName", "E.GetCallValue", do("getCallValueTokenName", buf, wb.I(zeros+100))).tokens = []*vmcommon.ESDTTransfer{{ESDTTokenName: []byte(script.TOK), ESDTValue: script.Amount(1)}}
	for _, a := range [][]byte{priceUser, priceChild, vmx.FarSC("f")} {
		simple("getShardOfAddress", "E.GetShardOfAddress", wb.P(a))
		simple("isSmartContract", "E.IsSmartContract", wb.P(a))
		simple("getExternalBalance", "E.GetExternalBalance", wb.P(a), buf)
		simple("bigIntGetExternalBalance", "I.BigIntGetExternalBalance", wb.P(a), wb.I(0))
	}
	for _, n := range []int64{9, 8, 100} {
		simple("getBlockHash", "E.GetBlockHash", wb.L(n), buf)
	}
	for _, a := range [][]byte{priceSelf, priceChild} {
		for _, fn := range []string{"getESDTNFTNameLength", "getESDTNFTAttributeLength", "getESDTNFTURILength"} {
			simple(fn, "E.GetExternalBalance", wb.P(a), wb.S(script.TOK), wb.I(int32(len(script.TOK))), wb.L(0))
		}
		simple("getESDTBalance", "E.GetExternalBalance", wb.P(a), wb.S(script.TOK), wb.I(int32(len(script.TOK))), wb.L(0), buf)
		simple("bigIntGetESDTExternalBalance", "I.BigIntGetExternalBalance+E.GetExternalBalance", wb.P(a), wb.S(script.TOK), wb.I(int32(len(script.TOK))), wb.L(0), wb.I(0))
		simple("getESDTTokenData", "E.GetExternalBalance", wb.P(a), wb.S(script.TOK), wb.I(int32(len(script.TOK))), wb.L(0), wb.I(zeros), wb.I(zeros+64), wb.I(zeros+128), wb.I(zeros+192), wb.I(zeros+256), wb.I(zeros+320), wb.I(zeros+384), wb.I(zeros+448))
	}
	simple("bigIntGetCallValue", "I.BigIntGetCallValue", wb.I(0))
	add("bigIntGetESDTCallValue", "I.BigIntGetCallValue", do("bigIntGetESDTCallValue", wb.I(0))).tokens = []*vmcommon.ESDTTransfer{{ESDTTokenName: []byte(script.TOK), ESDTValue: script.Amount(1)}}
	for i := range priceArgs {
		simple(fmt.Sprint("getArgumentLength"), "E.GetArgument", wb.I(int32(i)))
		simple("getArgument", "E.GetArgument", wb.I(int32(i)), buf)
		for _, fn := range []string{"smallIntGetUnsignedArgument", "smallIntGetSignedArgument", "int64getArgument"} {
			simple(fn, "E.Int64GetArgument", wb.I(int32(i)))
		}
		simple("bigIntGetUnsignedArgument", "I.BigIntGetUnsignedArgument", wb.I(int32(i)), wb.I(0))
		simple("bigIntGetSignedArgument", "I.BigIntGetSignedArgument", wb.I(int32(i)), wb.I(0))
	}
	simple("getArgument", "E.GetArgument", wb.I(99), buf)
	simple("getArgumentLength", "E.GetArgument", wb.I(99))
	simple("bigIntGetUnsignedArgument", "I.BigIntGetUnsignedArgument", wb.I(99), wb.I(0))
	simple("bigIntGetSignedArgument", "I.BigIntGetSignedArgument", wb.I(99), wb.I(0))
	// results
	for _, v := range priceVals {
		add(fmt.Sprintf("finish %d", len(v)), fmt.Sprintf("E.Finish+%d*B.PersistPerByte", len(v)), do("finish", wb.S(v), wb.I(int32(len(v)))))
		p := add(fmt.Sprintf("getReturnData %d", len(v)), "E.GetReturnData", do("getReturnData", wb.I(0), buf))
		p.setup = do("finish", wb.S(v), wb.I(int32(len(v))))
		p = add(fmt.Sprintf("getReturnDataSize %d", len(v)), "E.GetReturnDataSize", do("getReturnDataSize", wb.I(0)))
		p.setup = do("finish", wb.S(v), wb.I(int32(len(v))))
		for n := 0; n < 3; n++ {
			topics := strings.Repeat("t", 32*n)
			add(fmt.Sprintf("writeLog %d, %d topics", len(v), n), fmt.Sprintf("E.Log+%d*B.PersistPerByte", len(v)+32*n), do("writeLog", wb.S(v), wb.I(int32(len(v))), wb.S(topics), wb.I(int32(n))))
			var ts []string
			total := 0
			for i := 0; i < n; i++ {
				ts = append(ts, strings.Repeat("t", 7*i+3))
				total += 7*i + 3
			}
			lens, data := script.ArgTable(ts)
			add(fmt.Sprintf("writeEventLog %d, %d topics", len(v), n), fmt.Sprintf("E.Log+%d*B.DataCopyPerByte", len(v)+total), do("writeEventLog", wb.I(int32(n)), wb.P(lens), wb.P(data), wb.S(v), wb.I(int32(len(v)))))
		}
		for fn, e := range map[string]string{"sha256": "C.SHA256", "keccak256": "C.Keccak256", "ripemd160": "C.Ripemd160"} {
			add(fmt.Sprintf("%s %d", fn, len(v)), fmt.Sprintf("%s+%d*B.DataCopyPerByte", e, len(v)), do(fn, wb.S(v), wb.I(int32(len(v))), buf))
		}
		simple("verifyEd25519", fmt.Sprintf("C.VerifyEd25519+%d*B.DataCopyPerByte", len(v)), buf, wb.S(v), wb.I(int32(len(v))), buf)
		simple("verifyBLS", fmt.Sprintf("C.VerifyBLS+%d*B.DataCopyPerByte", len(v)), buf, wb.S(v), wb.I(int32(len(v))), buf)
		simple("verifySecp256k1", fmt.Sprintf("C.VerifySecp256k1+%d*B.DataCopyPerByte", len(v)), buf, wb.I(33), wb.S(v), wb.I(int32(len(v))), wb.P([]byte{0x30, 6, 2, 1, 1, 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}))
	}
	for _, n := range []int64{0, 1, -1, 127, 128, 255, 256, 1 << 40, -1 << 63} {
		simple("smallIntFinishUnsigned", "E.Int64Finish", wb.L(n))
		simple("smallIntFinishSigned", "E.Int64Finish", wb.L(n))
		simple("int64finish", "E.Int64Finish", wb.L(n))
		simple("bigIntNew", "I.BigIntNew", wb.L(n))
	}
	// storage
	for _, k := range priceKeys {
		k0 := k
		for vi, v := range priceVals {
			k := pricedKey(k0, vi)
			name := func(fn string) string { return fmt.Sprintf("%s of %d bytes under %d", fn, len(v), len(k)) }
			key := func(rest ...wb.E) []wb.E { return append([]wb.E{wb.S(k), wb.I(int32(len(k)))}, rest...) }
			add(name("storageLoad"), "E.StorageLoad+"+readCost(v, k), do("storageLoad", key(buf)...))
			add(name("storageLoadLength"), "E.StorageLoad", do("storageLoadLength", key()...))
			add(name("storageLoadFromAddress (self)"), "E.StorageLoad+"+readCost(v, k), do("storageLoadFromAddress", append([]wb.E{wb.P(priceSelf)}, key(buf)...)...))
			add(name("storageLoadFromAddress"), "E.StorageLoad+"+readCost(v, k), do("storageLoadFromAddress", append([]wb.E{wb.P(priceChild)}, key(buf)...)...))
			add(name("bigIntStorageLoadUnsigned"), "I.BigIntStorageLoadUnsigned+"+readCost(v, k), do("bigIntStorageLoadUnsigned", key(wb.I(0))...))
			if len(v) <= 8 {
				for _, fn := range []string{"smallIntStorageLoadUnsigned", "smallIntStorageLoadSigned", "int64storageLoad"} {
					add(name(fn), "E.Int64StorageLoad+"+readCost(v, k), do(fn, key()...))
				}
			}
			for _, nv := range priceVals {
				nv := nv
				c, r := writeCost(v, nv, k)
				p := add(name("storageStore")+fmt.Sprintf(" changed to %x", nv), "E.StorageStore+"+c, do("storageStore", kv(k, nv)...))
				p.refund = r
				// the old value is of the same transaction
				c, r = writeCost(v, nv, k0)
				p = add(name("storageStore of the same transaction")+fmt.Sprintf(" changed to %x", nv), "E.StorageStore+"+c, do("storageStore", kv(k0, nv)...))
				p.refund = r
				p.setup = do("storageStore", kv(k0, v)...)
				c, r = writeCost(v, nv, k)
				p = add(name("bigIntStorageStoreUnsigned")+fmt.Sprintf(" changed to %x", nv), "I.BigIntStorageStoreUnsigned+"+c, do("bigIntStorageStoreUnsigned", key(wb.I(0))...))
				p.refund = r
				p.setup = func(f *wb.F) { f.Do("bigIntSetUnsignedBytes", wb.I(0), wb.S(nv), wb.I(int32(len(nv)))) }
			}
			for _, n := range []int64{0, 1, 5, 300, 1 << 40, 0x0505050505} {
				for _, fn := range []string{"smallIntStorageStoreUnsigned", "smallIntStorageStoreSigned", "int64storageStore"} {
					nv := string(big.NewInt(n).Bytes())
					c, r := writeCost(v, nv, k)
					p := add(name(fn)+fmt.Sprintf(" changed to %d", n), "E.Int64StorageStore+"+c, do(fn, key(wb.L(n))...))
					p.refund = r
				}
			}
		}
	}
	for _, k := range priceKeys {
		// the key of the lock
		lk := arwen.ProtectedStoragePrefix + "TIMELOCK" + k
		key := []wb.E{wb.S(k), wb.I(int32(len(k)))}
		for _, old := range []int64{0, 7, 300, 1 << 40} {
			set := do("setStorageLock", append(append([]wb.E{}, key...), wb.L(old))...)
			ov := string(big.NewInt(old).Bytes())
			after := func(p *priced, refund string) { p.setup, p.refund = set, refund }
			name := func(fn string) string { return fmt.Sprintf("%s of %d under %d", fn, old, len(k)) }
			after(add(name("getStorageLock"), "E.StorageLoad+"+readCost(ov, lk), do("getStorageLock", key...)), "")
			after(add(name("isStorageLocked"), "E.StorageLoad+E.GetBlockTimeStamp+"+readCost(ov, lk), do("isStorageLocked", key...)), "")
			for _, n := range []int64{0, 7, 8, 300, 301, 1 << 40} {
				c, r := writeCost(ov, string(big.NewInt(n).Bytes()), lk)
				after(add(name("setStorageLock")+fmt.Sprintf(" changed to %d", n), "E.Int64StorageStore+"+c, do("setStorageLock", append(append([]wb.E{}, key...), wb.L(n))...)), r)
			}
			c, r := writeCost(ov, "", lk)
			after(add(name("clearStorageLock"), "E.Int64StorageStore+"+c, do("clearStorageLock", key...)), r)
		}
		for _, a := range [][]byte{priceSelf, priceChild, priceUser} {
			nonceKey := "ELRONDnonce" + k
			add(fmt.Sprintf("getCurrentESDTNFTNonce of a token of %d bytes", len(k)), "E.StorageLoad+"+readCost("", nonceKey), do("getCurrentESDTNFTNonce", wb.P(a), key[0], key[1]))
		}
	}
	// numbers
	num := func(vals ...string) func(f *wb.F) {
		return func(f *wb.F) {
			for i, v := range vals {
				f.Do("bigIntSetUnsignedBytes", wb.I(int32(i)), wb.S(v), wb.I(int32(len(v))))
			}
		}
	}
	small, wide, edge, over := "\x05", strings.Repeat("\xf1", 40), strings.Repeat("\xff", 32), "\xff"+strings.Repeat("\x11", 32)
	cost := func(vs ...string) string {
		n := 0 // whole bytes
		for _, v := range vs {
			if b := new(big.Int).SetBytes([]byte(v)).BitLen() / 8; b > 32 {
				n += b
			}
		}
		return fmt.Sprintf("%d*B.DataCopyPerByte", n)
	}
	for _, x := range []string{small, edge, over, wide} {
		for _, y := range []string{small, edge, over, wide} {
			for _, z := range []string{small, over, wide} {
				for _, op := range []string{"Add", "Sub", "Mul", "TDiv", "TMod", "EDiv", "EMod", "And", "Or", "Xor"} {
					want := "I.BigInt" + op + "+" + cost(x, y)
					if op != "And" && op != "Or" && op != "Xor" {
						want += "+" + cost(z)
					}
					add(fmt.Sprintf("bigInt%s of %d and %d bytes to %d", op, len(x), len(y), len(z)), want, do("bigInt"+op, wb.I(0), wb.I(1), wb.I(2))).setup = num(z, x, y)
				}
			}
			for _, op := range []string{"Abs", "Neg", "Not"} {
				add(fmt.Sprintf("bigInt%s of %d bytes to %d", op, len(x), len(y)), "I.BigInt"+op+"+"+cost(x, y), do("bigInt"+op, wb.I(0), wb.I(1))).setup = num(y, x)
			}
			add(fmt.Sprintf("bigIntCmp of %d and %d bytes", len(x), len(y)), "I.BigIntCmp+"+cost(x, y), do("bigIntCmp", wb.I(0), wb.I(1))).setup = num(x, y)
			for _, bits := range []int32{0, 8, 64, 400} {
				up, down := x+strings.Repeat("\x00", int(bits)/8), ""
				if n := len(x) - int(bits)/8; n > 0 {
					down = x[:n]
				}
				add(fmt.Sprintf("bigIntShl of %d bytes by %d to %d", len(x), bits, len(y)), "I.BigIntShl+"+cost(x, up), do("bigIntShl", wb.I(0), wb.I(1), wb.I(bits))).setup = num(y, x)
				add(fmt.Sprintf("bigIntShr of %d bytes by %d to %d", len(x), bits, len(y)), "I.BigIntShr+"+cost(x, down), do("bigIntShr", wb.I(0), wb.I(1), wb.I(bits))).setup = num(y, x)
			}
		}
		one := func(fn, want string, args ...wb.E) {
			add(fmt.Sprintf("%s of %d bytes", fn, len(x)), want, do(fn, args...)).setup = num(x)
		}
		signed := len(x)
		if x[0] >= 0x80 {
			signed++
		}
		one("bigIntSign", "I.BigIntSign+"+cost(x), wb.I(0))
		one("bigIntUnsignedByteLength", "I.BigIntUnsignedByteLength", wb.I(0))
		one("bigIntSignedByteLength", "I.BigIntSignedByteLength", wb.I(0))
		one("bigIntIsInt64", "I.BigIntIsInt64", wb.I(0))
		one("bigIntGetInt64", "I.BigIntGetInt64", wb.I(0))
		one("bigIntSetInt64", "I.BigIntSetInt64", wb.I(0), wb.L(7))
		one("bigIntGetUnsignedBytes", fmt.Sprintf("I.BigIntGetUnsignedBytes+%d*B.DataCopyPerByte", len(x)), wb.I(0), buf)
		one("bigIntGetSignedBytes", fmt.Sprintf("I.BigIntGetSignedBytes+%d*B.DataCopyPerByte", signed), wb.I(0), buf)
		one("bigIntSetUnsignedBytes", fmt.Sprintf("I.BigIntSetUnsignedBytes+%d*B.DataCopyPerByte", len(x)), wb.I(1), wb.S(x), wb.I(int32(len(x))))
		one("bigIntSetSignedBytes", fmt.Sprintf("I.BigIntSetSignedBytes+%d*B.DataCopyPerByte", len(x)), wb.I(1), wb.S(x), wb.I(int32(len(x))))
		one("bigIntFinishUnsigned", fmt.Sprintf("I.BigIntFinishUnsigned+%d*B.PersistPerByte", len(x)), wb.I(0))
		one("bigIntFinishSigned", fmt.Sprintf("I.BigIntFinishSigned+%d*B.PersistPerByte", signed), wb.I(0))
	}
	// transfers
	v0, v1 := wb.P(script.Value32(0)), wb.P(script.Value32(1))
	for _, d := range []string{"", "x", strings.Repeat("y", 30)} {
		for _, to := range [][]byte{priceUser, vmx.FarUser("u"), priceChild, vmx.FarSC("s")} {
			add(fmt.Sprintf("transferValue with %d bytes", len(d)), fmt.Sprintf("E.TransferValue+%d*B.PersistPerByte", len(d)), do("transferValue", wb.P(to), v1, wb.S(d), wb.I(int32(len(d)))))
			add(fmt.Sprintf("transferESDT with %d bytes", len(d)), fmt.Sprintf("E.TransferValue+%d*B.PersistPerByte", len(d)), do("transferESDT", wb.P(to), wb.S(script.TOK), wb.I(int32(len(script.TOK))), v1, wb.L(0), wb.S(d), wb.I(int32(len(d)))))
		}
	}
	kid := len(priceKid())
	for _, cfg := range []struct {
		name string
		opt  vmx.Opt
		load string
	}{{"", vmx.Opt{}, "%d*B.AoTPreparePerByte+B.GetCode"}, {" without ahead-of-time compilation", vmx.Opt{AOT: 100}, "%d*B.CompilePerByte"}, {" with all gas locked", vmx.Opt{DynLock: 100}, "%d*B.AoTPreparePerByte+B.GetCode"}} {
		cfg := cfg
		load := func(n int) string { return "+" + fmt.Sprintf(cfg.load, n) }
		call := func(name, want string, c func(f *wb.F)) *priced {
			p := add(name+cfg.name, want, c)
			p.opt = cfg.opt
			return p
		}
		self := func(p *priced) int { return len(p.code()) }
		for _, args := range [][]string{nil, {""}, {"abc", strings.Repeat("d", 20)}} {
			lens, data := script.ArgTable(args)
			a := []wb.E{wb.I(int32(len(args))), wb.P(lens), wb.P(data)}
			n := len(strings.Join(args, ""))
			copied := fmt.Sprintf("+%d*B.DataCopyPerByte", n)
			gas := wb.L(1 << 30)
			for _, fn := range []string{"g", "fail"} {
				what := fmt.Sprintf(" of %s with %d arguments (%d bytes)", fn, len(args), n)
				f := []wb.E{wb.S(fn), wb.I(int32(len(fn)))}
				all := func(parts ...wb.E) []wb.E { return append(append(append([]wb.E{}, parts...), f...), a...) }
				ld := load(kid)
				if fn == "fail" {
					ld = "" // fails with all the gas it was given
				} else {
					call("executeOnDestContext"+what, "E.ExecuteOnDestContext"+copied+ld, do("executeOnDestContext", all(gas, wb.P(priceChild), v1)...))
					call("executeOnDestContextByCaller"+what, "E.ExecuteOnDestContext"+copied+ld, do("executeOnDestContextByCaller", all(gas, wb.P(priceChild), v0)...))
					call("executeOnSameContext"+what, "E.ExecuteOnSameContext"+copied+ld, do("executeOnSameContext", all(gas, wb.P(priceChild), v0)...))
					call("executeReadOnly"+what, "E.ExecuteReadOnly"+copied+ld, do("executeReadOnly", all(gas, wb.P(priceChild))...))
					call("delegateExecution"+what, "E.DelegateExecution"+copied+ld, do("delegateExecution", all(gas, wb.P(priceChild))...))
				}
				// transfers with a call are charged for twice
				call("transferValueExecute"+what, "2*E.TransferValue"+copied+ld, do("transferValueExecute", all(wb.P(priceChild), v1, gas)...))
				call("transferESDTExecute"+what, "E.TransferValue"+copied+copied+ld, do("transferESDTExecute", all(wb.P(priceChild), wb.S(script.TOK), wb.I(int32(len(script.TOK))), v1, gas)...))
				call("transferESDTNFTExecute"+what, "E.TransferValue"+copied+copied+ld, do("transferESDTNFTExecute", all(wb.P(priceChild), wb.S(script.TOK), wb.I(int32(len(script.TOK))), v1, wb.L(0), gas)...))
				if fn == "g" {
					far := wb.P(vmx.FarSC("s"))
					call("transferValueExecute to another shard"+what, "2*E.TransferValue"+copied, do("transferValueExecute", all(far, v1, gas)...))
					call("transferESDTExecute to another shard"+what, "E.TransferValue"+copied+copied, do("transferESDTExecute", all(far, wb.S(script.TOK), wb.I(int32(len(script.TOK))), v1, gas)...))
				}
			}
			code := priceKid()
			what := fmt.Sprintf(" with %d arguments (%d bytes)", len(args), n)
			meta := wb.P([]byte{5, 6})
			for times := 1; times <= 3; times++ {
				for _, from := range []bool{false, true} {
					times, from := times, from
					price := fmt.Sprintf("+E.CreateContract%s+%d*B.CompilePerByte", copied, kid) + load(kid)
					p := call(fmt.Sprintf("%d contracts created (from a source: %v)", times, from)+what, strings.Repeat(price, times), func(f *wb.F) {
						for i := 0; i < times; i++ {
							if from {
								f.Do("deployFromSourceContract", append([]wb.E{gas, v0, wb.P(priceChild), meta, buf}, a...)...)
							} else {
								f.Do("createContract", append([]wb.E{gas, v0, wb.P(code), meta, wb.I(int32(kid)), buf}, a...)...)
							}
						}
					})
					p.known = p.want + "+" + strings.Replace(strings.Replace(load(self(p))[1:], "+", "+-1*", 1), fmt.Sprint(self(p)), fmt.Sprint(-self(p)), 1) + fmt.Sprintf("+%d*B.CompilePerByte", -(times-1)*kid)
				}
			}
			// asynchronous calls
			for _, cb := range []bool{false, true} {
				cb := cb
				lockOf := func(code int) string {
					lock := "E.AsyncCallStep+E.AsyncCallbackGasLock"
					switch {
					case cfg.opt.DynLock != 0:
					case !cb:
						lock = ""
					case cfg.opt.AOT != 0:
						lock += fmt.Sprintf("+%d*B.CompilePerByte", code)
					default:
						lock += fmt.Sprintf("+%d*B.AoTPreparePerByte", code)
					}
					return lock
				}
				asy := func(name, want string, c func(f *wb.F)) *priced {
					p := call(name, "", c)
					if cb {
						p.name += " with a callback"
						p.extra = func(m *wb.M) { m.Fn("callBack", func(f *wb.F) {}) }
					}
					if strings.Contains(name, "another shard") {
						p.lock = lockOf(self(p))
					} else {
						want += load(self(p)) // for the callback, whether there is one or not
					}
					p.want = want
					return p
				}
				d := "g"
				for _, x := range args {
					d += "@" + fmt.Sprintf("%x", x)
				}
				copiedData := fmt.Sprintf("+%d*B.DataCopyPerByte", len(d))
				asy("asyncCall"+what, "2*E.AsyncCallStep"+copiedData+load(kid), do("asyncCall", wb.P(priceChild), v1, wb.S(d), wb.I(int32(len(d)))))
				away := do("asyncCall", wb.P(vmx.FarSC("s")), v1, wb.S(d), wb.I(int32(len(d))))
				asy("asyncCall to another shard"+what, "2*E.AsyncCallStep"+copiedData, away)
				// what was executed before does not matter
				for _, fn := range []string{"executeOnDestContext", "executeOnSameContext"} {
					for _, g := range []string{"g"} {
						p := asy("asyncCall to another shard"+what+" after "+fn+" of "+g, "2*E.AsyncCallStep"+copiedData, away)
						p.setup = do(fn, append([]wb.E{gas, wb.P(priceChild), v0, wb.S(g), wb.I(int32(len(g)))}, a...)...)
						p.lock = lockOf(self(p))
					}
				}
				for _, fn := range []string{"createContract", "upgrade"} {
					if !cb {
						break
					}
					p := asy("asyncCall to another shard"+what+" by the init of "+fn, "2*E.AsyncCallStep"+copiedData, away)
					p.extra = func(m *wb.M) {
						m.Fn("callBack", func(f *wb.F) {})
						m.Fn("init", func(f *wb.F) { f.Do("asyncCall", wb.P(vmx.FarSC("s")), v0, wb.S(d), wb.I(int32(len(d)))) })
					}
					p.want = fmt.Sprintf("2*E.AsyncCallStep%s+E.CreateContract+%d*B.CompilePerByte", copiedData, self(p))
					p.lock = lockOf(self(p))
					upgrade := fn == "upgrade"
					p.whole = func(h arwen.VMHost, code []byte) (*vmcommon.VMOutput, error) {
						// another contract before
						if _, err := h.RunSmartContractCall(vmx.Call(script.User, priceChild, "g", 0, 1<<40)); err != nil {
							return nil, err
						}
						if upgrade {
							in := vmx.Call(priceSelf, priceOwned, arwen.UpgradeFunctionName, 0, 1<<40)
							in.Arguments = [][]byte{code, {5, 6}}
							return h.RunSmartContractCall(in)
						}
						return h.RunSmartContractCreate(vmx.Create(script.User, code, []byte{5, 6}, 0, 1<<40))
					}
				}
				up := fmt.Sprintf("E.CreateContract+E.AsyncCallStep+%d*B.DataCopyPerByte", n)
				far := vmx.FarSC("s")
				asy("upgradeContract in another shard"+what, up+fmt.Sprintf("+%d*B.DataCopyPerByte", kid), do("upgradeContract", append([]wb.E{wb.P(far), gas, v0, wb.P(code), meta, wb.I(int32(kid))}, a...)...))
				asy("upgradeFromSourceContract in another shard"+what, up, do("upgradeFromSourceContract", append([]wb.E{wb.P(far), gas, v0, wb.P(priceChild), meta}, a...)...))
				upload := fmt.Sprintf("+E.CreateContract+%d*B.CompilePerByte", kid)
				asy("upgradeContract"+what, up+fmt.Sprintf("+%d*B.DataCopyPerByte", kid)+upload, do("upgradeContract", append([]wb.E{wb.P(priceOwned), gas, v0, wb.P(code), meta, wb.I(int32(kid))}, a...)...))
				asy("upgradeFromSourceContract"+what, up+upload, do("upgradeFromSourceContract", append([]wb.E{wb.P(priceOwned), gas, v0, wb.P(priceChild), meta}, a...)...))
			}
		}
		// the transaction itself
		tx := func(name, want string, run func(h arwen.VMHost, code []byte) (*vmcommon.VMOutput, error)) {
			p := call(name, "", func(f *wb.F) {})
			p.extra = func(m *wb.M) {
				m.Fn("init", func(f *wb.F) {})
				m.Fn("callBack", func(f *wb.F) {})
			}
			p.want = fmt.Sprintf(want, self(p))
			p.whole = run
		}
		ld := strings.Replace(cfg.load, "%d", "%[1]d", 1)
		direct := func(fn string, to []byte, typ vmcommon.CallType, locked uint64) func(h arwen.VMHost, code []byte) (*vmcommon.VMOutput, error) {
			return func(h arwen.VMHost, code []byte) (*vmcommon.VMOutput, error) {
				in := vmx.Call(script.User, to, fn, 0, 1<<40-locked)
				in.CallType = typ
				in.GasLocked = locked
				if fn == arwen.UpgradeFunctionName {
					in.CallerAddr = priceSelf
					in.Arguments = [][]byte{code, {5, 6}}
				}
				if typ == vmcommon.AsynchronousCallBack {
					in.Arguments = [][]byte{{0}}
				}
				return h.RunSmartContractCall(in)
			}
		}
		tx("call transaction", ld+"+3*I.BigIntNew", direct("f", priceSelf, vmcommon.DirectCall, 0))
		tx("asynchronous call transaction", ld+"+3*I.BigIntNew", direct("f", priceSelf, vmcommon.AsynchronousCall, 0))
		tx("asynchronous call transaction with locked gas", ld+"+3*I.BigIntNew", direct("f", priceSelf, vmcommon.AsynchronousCall, 1000))
		tx("callback transaction", ld, direct("callBack", priceSelf, vmcommon.AsynchronousCallBack, 0))
		tx("callback transaction with locked gas", ld, direct("callBack", priceSelf, vmcommon.AsynchronousCallBack, 1<<39))
		tx("upgrade transaction", "E.CreateContract+%d*B.CompilePerByte", direct(arwen.UpgradeFunctionName, priceOwned, vmcommon.DirectCall, 0))
		tx("deployment transaction", "E.CreateContract+%d*B.CompilePerByte", func(h arwen.VMHost, code []byte) (*vmcommon.VMOutput, error) {
			return h.RunSmartContractCreate(vmx.Create(script.User, code, []byte{5, 6}, 0, 1<<40))
		})
	}
	return out
}

// code is the contract of a program.
func (p *priced) code() []byte {
	m := wb.New()
	body := func(f *wb.F) {
		for i := 0; i < 3; i++ {
			f.Do("bigIntNew", wb.L(0))
		}
		if p.setup != nil {
			p.setup(f)
		}
	}
	m.Fn("base", body)
	m.Fn("f", func(f *wb.F) { body(f); p.call(f) })
	if p.extra != nil {
		p.extra(m)
	}
	return m.Bytes()
}

func priceWorld(code []byte) *world.World {
	w := world.New()
	if err := w.EnableBuiltIns(script.BuiltInGas()); err != nil {
		panic(err)
	}
	for _, u := range [][]byte{priceUser, script.User} {
		w.Add(u, 0).Balance = script.Amount(1000)
	}
	kid := priceKid()
	self := w.AddContract(priceSelf, 0, code, script.User)
	self.Balance = script.Amount(1000)
	self.SetBigESDT(script.TOK, script.Amount(1000))
	child := w.AddContract(priceChild, 0, kid, script.User)
	w.AddContract(priceOwned, 0, kid, priceSelf)
	for _, k := range priceKeys {
		for i, v := range priceVals {
			if v != "" {
				self.Storage[pricedKey(k, i)] = []byte(v)
				child.Storage[pricedKey(k, i)] = []byte(v)
			}
		}
	}
	return w
}

func copySchedule(g config.GasScheduleMap) config.GasScheduleMap {
	out := config.GasScheduleMap{}
	for s, m := range g {
		out[s] = map[string]uint64{}
		for k, v := range m {
			out[s][k] = v
		}
	}
	return out
}

type bill struct{ used, lock, refund int64 }

func (a bill) minus(b bill) bill { return bill{a.used - b.used, a.lock - b.lock, a.refund - b.refund} }

// charge runs a function of a program.
func (p *priced) charge(h arwen.VMHost, w *world.World, fn string) (bill, error) {
	snap := w.GetSnapshot()
	var out *vmcommon.VMOutput
	var err error
	if p.whole != nil {
		if fn == "base" {
			return bill{}, nil
		}
		out, err = p.whole(h, w.Accounts[string(priceSelf)].Code)
	} else {
		out, err = p.transaction(h, fn)
	}
	if e := w.RevertToSnapshot(snap); e != nil {
		return bill{}, e
	}
	if err != nil {
		return bill{}, err
	}
	if out.ReturnCode != vmcommon.Ok {
		return bill{}, fmt.Errorf("%v %s", out.ReturnCode, out.ReturnMessage)
	}
	b := bill{used: 1<<40 - int64(out.GasRemaining), refund: out.GasRefund.Int64()}
	for _, a := range out.OutputAccounts {
		for _, t := range a.OutputTransfers {
			b.lock += int64(t.GasLocked)
			b.used -= int64(t.GasLimit) + int64(t.GasLocked)
		}
	}
	return b, nil
}

func (p *priced) transaction(h arwen.VMHost, fn string) (*vmcommon.VMOutput, error) {
	in := vmx.Call(script.User, priceSelf, fn, 0, 1<<40)
	for _, a := range priceArgs {
		in.Arguments = append(in.Arguments, []byte(a))
	}
	in.ESDTTransfers = p.tokens
	return h.RunSmartContractCall(in)
}

func priceEntries() []string {
	var out []string
	g := vmx.FlatGas()
	for p, s := range priceSections {
		if p == "W" {
			continue
		}
		for k := range g[s] {
			out = append(out, p+"."+k)
		}
	}
	sort.Strings(out)
	return out
}

func raised(entry string, by uint64) config.GasScheduleMap {
	g := copySchedule(vmx.FlatGas())
	g[priceSections[entry[:1]]][entry[2:]] += by
	return g
}

// priceHosts are the hosts with a schedule, by their other options.
type priceHosts struct {
	gas   config.GasScheduleMap
	by    map[string]arwen.VMHost
	swap  *world.Swap
	w     *world.World
	later bool // the schedule is applied by a change
}

func newPriceHosts(gas config.GasScheduleMap, later bool) *priceHosts {
	return &priceHosts{gas: gas, by: map[string]arwen.VMHost{}, w: priceWorld(nil), later: later}
}

// bill is what the call of a program costs more than its setup.
func (p *priced) bill(hs *priceHosts) (bill, error) {
	key := fmt.Sprint(p.opt)
	h := hs.by[key]
	if h == nil {
		opt := p.opt
		opt.Gas = hs.gas
		if hs.later {
			opt.Gas = vmx.FlatGas()
		}
		h = vmx.MustHost(hs.w, opt)
		if hs.later {
			h.GasScheduleChange(hs.gas)
		}
		hs.by[key] = h
	}
	hs.w.ClearCompiledCodes()
	hs.w.Accounts[string(priceSelf)].Code = p.code()
	f, err := p.charge(h, hs.w, "f")
	if err != nil {
		return bill{}, err
	}
	base, err := p.charge(h, hs.w, "base")
	return f.minus(base), err
}

var flatBills []bill

func runC21(c *core.Ctx) {
	progs := pricedPrograms()
	c.Count("programs", int64(len(progs)))
	opcodePrices(c)
	scheduleChanges(c)
	refundCases(c)
	by := uint64(100000)
	for _, entry := range priceEntries() {
		for _, later := range []bool{false, true} {
			entry, later := entry, later
			if later && !c.Thorough && !strings.HasPrefix(entry, "B.") {
				continue
			}
			c.Case(func() string {
				return fmt.Sprintf("prices: everything, with %s raised (by a change of the schedule: %v)", entry, later)
			}, func(t *core.T) {
				if flatBills == nil {
					hs := newPriceHosts(vmx.FlatGas(), false)
					for i := range progs {
						b, err := progs[i].bill(hs)
						if err != nil {
							t.Failf("%s: %v", progs[i].name, err)
							return
						}
						flatBills = append(flatBills, b)
					}
				}
				hs := newPriceHosts(raised(entry, by), later)
				for i := range progs {
					p := &progs[i]
					b, err := p.bill(hs)
					t.Exec(2)
					if err != nil {
						t.Failf("%s, with %s raised: %v", p.name, entry, err)
						return
					}
					d := b.minus(flatBills[i])
					for _, x := range []struct {
						what string
						got  int64
						want string
					}{{"gas", d.used, p.want}, {"locked gas", d.lock, p.lock}, {"refund", d.refund, p.refund}} {
						if want := coefficient(x.want, entry) * int64(by); x.got != want {
							if p.known != "" && x.what == "gas" && x.got == coefficient(p.known, entry)*int64(by) {
								t.Known("creators-pay-for-their-last-creation-only", "a contract which creates contracts pays for the compilation of the last of them, and not for loading its own code")
								continue
							}
							t.Failf("%s: when %s costs %d more, the %s grows by %d, want %d", p.name, entry, by, x.what, x.got, want)
							return
						}
					}
				}
			})
		}
	}
}

// the order of the opcodes in the table of costs which wasmer takes
//
//go:embed opcodes.txt
var opcodeOrder string

// opcodePrograms executes every opcode with integers.
func opcodePrograms() []priced {
	var out []priced
	type part struct {
		name string
		code []byte
	}
	i32, i64 := part{"I32Const", []byte{0x41, 3}}, part{"I64Const", []byte{0x42, 3}}
	drop := part{"Drop", []byte{0x1a}}
	add := func(name string, parts ...part) {
		p := priced{name: "opcode " + name}
		var code []byte
		for _, x := range parts {
			if x.name != "" {
				p.want += "+W." + x.name
			}
			code = append(code, x.code...)
		}
		p.call = func(f *wb.F) {
			f.Local("i")
			f.Local("l")
			f.Raw(code...)
		}
		// the same locals
		p.setup = func(f *wb.F) {}
		out = append(out, p)
	}
	op := func(name string, code ...byte) part { return part{name, code} }
	add("nop", op("Nop", 1))
	add("block", op("Block", 2, 0x40), op("End", 0x0b))
	add("loop", op("Loop", 3, 0x40), op("End", 0x0b))
	add("if", i32, op("If", 4, 0x40), op("Nop", 1), op("End", 0x0b))
	add("if not taken", op("I32Const", 0x41, 0), op("If", 4, 0x40), op("", 1), op("", 0x0b))
	add("br", op("Block", 2, 0x40), op("Br", 0x0c, 0), op("", 0x0b))
	add("br_if taken", op("Block", 2, 0x40), i32, op("BrIf", 0x0d, 0), op("", 0x0b))
	add("br_if", op("Block", 2, 0x40), op("I32Const", 0x41, 0), op("BrIf", 0x0d, 0), op("End", 0x0b))
	add("br_table", op("Block", 2, 0x40), i32, op("BrTable", 0x0e, 1, 0, 0), op("", 0x0b))
	add("drop", i32, drop)
	add("select", i64, i64, i32, op("Select", 0x1b), drop)
	for _, v := range []struct {
		c part
		i byte
	}{{i32, 0}, {i64, 1}} {
		add("local "+v.c.name, v.c, op("LocalSet", 0x21, v.i), op("LocalGet", 0x20, v.i), op("LocalTee", 0x22, v.i), drop)
	}
	for k, n := range []string{"I32Load", "I64Load", "", "", "I32Load8S", "I32Load8U", "I32Load16S", "I32Load16U", "I64Load8S", "I64Load8U", "I64Load16S", "I64Load16U", "I64Load32S", "I64Load32U"} {
		if n != "" {
			add(n, i32, op(n, 0x28+byte(k), 0, 0), drop)
		}
	}
	for k, n := range []string{"I32Store", "I64Store", "", "", "I32Store8", "I32Store16", "I64Store8", "I64Store16", "I64Store32"} {
		if n == "" {
			continue
		}
		v := i32
		if n[1] == '6' {
			v = i64
		}
		add(n, i32, v, op(n, 0x36+byte(k), 0, 0))
	}
	add("memory.size", op("MemorySize", 0x3f, 0), drop)
	add("memory.grow", op("I32Const", 0x41, 0), op("MemoryGrow", 0x40, 0), drop)
	at := byte(0x45)
	for _, v := range []struct {
		c     part
		width string
	}{{i32, "I32"}, {i64, "I64"}} {
		add(v.width+"Eqz", v.c, op(v.width+"Eqz", at), drop)
		for k, n := range []string{"Eq", "Ne", "LtS", "LtU", "GtS", "GtU", "LeS", "LeU", "GeS", "GeU"} {
			add(v.width+n, v.c, v.c, op(v.width+n, at+1+byte(k)), drop)
		}
		at += 11
	}
	at = 0x67
	for _, v := range []struct {
		c     part
		width string
	}{{i32, "I32"}, {i64, "I64"}} {
		for k, n := range []string{"Clz", "Ctz", "Popcnt"} {
			add(v.width+n, v.c, op(v.width+n, at+byte(k)), drop)
		}
		for k, n := range []string{"Add", "Sub", "Mul", "DivS", "DivU", "RemS", "RemU", "And", "Or", "Xor", "Shl", "ShrS", "ShrU", "Rotl", "Rotr"} {
			add(v.width+n, v.c, v.c, op(v.width+n, at+3+byte(k)), drop)
		}
		at += 18
	}
	add("I32WrapI64", i64, op("I32WrapI64", 0xa7), drop)
	add("I64ExtendI32S", i32, op("I64ExtendI32S", 0xac), drop)
	add("I64ExtendI32U", i32, op("I64ExtendI32U", 0xad), drop)
	return out
}

// localsProgram has a function with n locals.
func localsProgram(n int, want string) priced {
	return priced{name: fmt.Sprintf("%d locals", n), want: want, setup: func(f *wb.F) {}, call: func(f *wb.F) {
		for i := 0; i < n; i++ {
			f.Local("l")
		}
	}}
}

// sameBills tells whether the programs cost what is expected.
func sameBills(progs []priced, hs *priceHosts, want []bill) string {
	for i := range progs {
		b, err := progs[i].bill(hs)
		if err != nil {
			return fmt.Sprintf("%s: %v", progs[i].name, err)
		}
		if b != want[i] {
			return fmt.Sprintf("%s costs %+v, want %+v", progs[i].name, b, want[i])
		}
	}
	return ""
}

func billsOf(t *core.T, progs []priced, hs *priceHosts) []bill {
	var out []bill
	for i := range progs {
		b, err := progs[i].bill(hs)
		t.Exec(2)
		if err != nil {
			t.Failf("%s: %v", progs[i].name, err)
			return nil
		}
		out = append(out, b)
	}
	return out
}

func opcodePrices(c *core.Ctx) {
	progs := opcodePrograms()
	locals := func(extra int) []priced {
		return []priced{localsProgram(100, ""), localsProgram(101, "W.LocalAllocate"), localsProgram(117, "17*W.LocalAllocate")}
	}
	progs = append(progs, locals(0)...)
	for i, name := range strings.Fields(opcodeOrder) {
		i, name := i, name
		c.Case(func() string { return "opcodes: all of them, with " + name + " raised" }, func(t *core.T) {
			for _, by := range []uint64{1000, 1<<32 - 2} {
				g := raised("W."+name, by)
				gc, err := config.CreateGasConfig(g)
				if err != nil {
					t.Failf("a schedule in which %s costs %d is refused: %v", name, by+1, err)
					return
				}
				for j, v := range gc.WASMOpcodeCost.ToOpcodeCostsArray() {
					want := uint32(1)
					if j == i {
						want += uint32(by)
					}
					if v != want {
						t.Failf("when %s costs %d, the entry %d of the costs given to wasmer is %d, want %d", name, by+1, j, v, want)
						return
					}
				}
			}
			by := uint64(1000)
			flat := billsOf(t, progs, newPriceHosts(vmx.FlatGas(), false))
			for _, later := range []bool{false, true} {
				got := billsOf(t, progs, newPriceHosts(raised("W."+name, by), later))
				if flat == nil || got == nil {
					return
				}
				for k := range progs {
					if want := coefficient(progs[k].want, "W."+name) * int64(by); got[k].used-flat[k].used != want {
						t.Failf("%s: when %s costs %d more, the gas grows by %d, want %d (later: %v)", progs[k].name, name, by, got[k].used-flat[k].used, want, later)
						return
					}
				}
			}
		})
	}
	c.Case(func() string { return "opcodes: the number of locals which are free" }, func(t *core.T) {
		for _, free := range []int{1, 2, 50, 99, 101, 110} {
			g := copySchedule(vmx.FlatGas())
			g["WASMOpcodeCost"]["LocalsUnmetered"] = uint64(free)
			g["WASMOpcodeCost"]["LocalAllocate"] = 1000
			for _, later := range []bool{false, true} {
				for _, n := range []int{0, free - 1, free, free + 1, free + 30} {
					p := []priced{localsProgram(n, "")}
					b := billsOf(t, p, newPriceHosts(g, later))
					if b == nil {
						return
					}
					want := int64(0)
					if n > free {
						want = int64(n-free) * 1000
					}
					if b[0].used != want {
						t.Failf("%d locals, of which %d are free, cost %d, want %d", n, free, b[0].used, want)
						return
					}
				}
			}
		}
	})
}

// samplePrograms are a few programs which together use every section of the schedule.
func samplePrograms() []priced {
	var out []priced
	for _, p := range append(pricedPrograms(), opcodePrograms()...) {
		for _, n := range []string{"sha256 5", "bigIntCmp of 40 and 40 bytes", "asyncCall to another shard of g with 2", "asyncCall to another shard with 2 arguments (23 bytes) with a callback", "storageStore of 8 bytes under 45 changed to 01", "executeOnDestContext of g with 0", "deployment transaction", "call transaction", "opcode select"} {
			if strings.HasPrefix(p.name, n) && p.opt.AOT == 0 && p.opt.DynLock == 0 {
				out = append(out, p)
				break
			}
		}
	}
	return out
}

func scheduleChanges(c *core.Ctx) {
	// another is a schedule in which everything costs something else
	another := func() config.GasScheduleMap {
		g := copySchedule(vmx.DistinctGas())
		n := uint64(3)
		for _, k := range strings.Fields(opcodeOrder) {
			g["WASMOpcodeCost"][k] = n
			n++
		}
		return g
	}
	var sections []string
	for _, s := range priceSections {
		sections = append(sections, s)
	}
	sort.Strings(sections)
	// refused checks that nothing is done with an invalid schedule.
	refused := func(t *core.T, what string, g config.GasScheduleMap, progs []priced, flat []bill) bool {
		t.State(what)
		w := priceWorld(nil)
		if _, err := vmx.NewHost(w, vmx.Opt{Gas: g}); err == nil && g != nil {
			t.Failf("a VM is created with a schedule in which %s", what)
			return false
		}
		hs := newPriceHosts(vmx.FlatGas(), false)
		if sameBills(progs, hs, flat) != "" {
			t.Failf("the price of programs changes: %s", sameBills(progs, hs, flat))
			return false
		}
		for _, h := range hs.by {
			h.GasScheduleChange(g)
			if !reflect.DeepEqual(h.GetGasScheduleMap(), vmx.FlatGas()) {
				t.Failf("the VM reports a schedule in which %s, which was not applied", what)
				return false
			}
		}
		t.Exec(3 * len(progs))
		if d := sameBills(progs, hs, flat); d != "" {
			t.Failf("after a change to a schedule in which %s: %s", what, d)
			return false
		}
		return true
	}
	for _, s := range sections {
		s := s
		c.Case(func() string { return "schedules which are not valid: " + s }, func(t *core.T) {
			progs := samplePrograms()
			flat := billsOf(t, progs, newPriceHosts(vmx.FlatGas(), false))
			if flat == nil {
				return
			}
			var keys []string
			for k := range another()[s] {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				g := another()
				delete(g[s], k)
				if !refused(t, k+" is missing", g, progs, flat) {
					return
				}
				g = another()
				g[s][k] = 0
				if !refused(t, k+" is zero", g, progs, flat) {
					return
				}
				if s == "WASMOpcodeCost" {
					for _, v := range []uint64{1 << 32, 1<<32 + 1, 1<<64 - 1} {
						g = another()
						g[s][k] = v
						if !refused(t, fmt.Sprintf("%s is %d", k, v), g, progs, flat) {
							return
						}
					}
				} else {
					g = another()
					g[s][k] = 1<<64 - 1
					if _, err := vmx.NewHost(priceWorld(nil), vmx.Opt{Gas: g}); err != nil {
						t.Failf("a schedule with the highest price of %s is refused: %v", k, err)
						return
					}
				}
			}
			for _, v := range []map[string]uint64{nil, {}, {"Other": 1}} {
				g := another()
				g[s] = v
				if !refused(t, fmt.Sprintf("%s is %v", s, v), g, progs, flat) {
					return
				}
			}
			g := another()
			delete(g, s)
			if !refused(t, s+" is missing", g, progs, flat) {
				return
			}
			// more than needed is no mistake
			g = another()
			g[s]["Other"] = 0
			g["OtherCost"] = map[string]uint64{}
			if _, err := vmx.NewHost(priceWorld(nil), vmx.Opt{Gas: g}); err != nil {
				t.Failf("a schedule with an unknown entry in %s is refused: %v", s, err)
			}
		})
	}
	depth := 3
	if c.Thorough {
		depth = 5
	}
	type change struct {
		name  string
		gas   config.GasScheduleMap
		valid bool
	}
	third := another()
	for _, m := range third {
		for k := range m {
			m[k] += 1000
		}
	}
	broken := another()
	delete(broken, "WASMOpcodeCost")
	zero := another()
	zero["BaseOperationCost"]["StorePerByte"] = 0
	changes := []change{{"flat", vmx.FlatGas(), true}, {"another", another(), true}, {"a third", third, true}, {"no opcodes", broken, false}, {"nothing for storing", zero, false}, {"nothing at all", nil, false}}
	for first := range changes {
		first := first
		c.Case(func() string { return "sequences of changes of the schedule: first " + changes[first].name }, func(t *core.T) {
			progs := samplePrograms()
			want := map[int][]bill{}
			for i, ch := range changes {
				if ch.valid {
					if want[i] = billsOf(t, progs, newPriceHosts(ch.gas, false)); want[i] == nil {
						return
					}
				}
			}
			hs := newPriceHosts(vmx.FlatGas(), false)
			billsOf(t, progs, hs)
			var walk func(seq []int) bool
			walk = func(seq []int) bool {
				now := 0
				apply := func(i int) {
					for _, h := range hs.by {
						h.GasScheduleChange(copySchedule(changes[i].gas))
					}
				}
				apply(0)
				for _, i := range seq {
					apply(i)
					if changes[i].valid {
						now = i
					}
				}
				t.Trans(1)
				t.Exec(2 * len(progs))
				if d := sameBills(progs, hs, want[now]); d != "" {
					t.Failf("after changes %v (numbers of %v): %s", seq, changes, d)
					return false
				}
				for _, h := range hs.by {
					if !reflect.DeepEqual(h.GetGasScheduleMap(), changes[now].gas) {
						t.Failf("after changes %v (numbers of %v) the VM reports another schedule", seq, changes)
						return false
					}
				}
				t.Outcome(fmt.Sprint(seq, now))
				if len(seq) == depth {
					return true
				}
				for i := range changes {
					if !walk(append(append([]int{}, seq...), i)) {
						return false
					}
				}
				return true
			}
			walk([]int{first})
		})
	}
}
