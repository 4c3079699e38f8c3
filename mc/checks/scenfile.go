package checks

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	mei "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/interpreter"
	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	mjwrite "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/write"

	"vmc/core"
)

func init() {
	core.Register(&core.Check{ID: "C42", Level: "model_checking", Rule: "For every kind of object of a scenario file: every single field with every variant of its value, every pair of fields with every pair of variants, all fields together, in both orders, are put into a scenario, " +
		"which is read, written and read again; the meaning is stated with each variant. Every field is also given values of every wrong type, every object an unknown field.",
		Assumptions: []string{"fields which do not occur in the same object do not influence each other"}, Run: runC42})
}

// piece is a fragment of a scenario file with the statements it makes.
type piece struct {
	js    string
	lines []string
}

type jfield struct {
	name     string
	variants []piece
	required bool
	unknown  bool // any key is allowed inside: no wrong types are tried
}

func q(s string) string { return `"` + s + `"` }

// at makes the statements of p statements about a part.
func (p piece) at(prefix string) []string {
	var out []string
	for _, l := range p.lines {
		out = append(out, prefix+l)
	}
	return out
}

func objectOf(names []string, parts []piece) piece {
	var o piece
	var kv []string
	for i, p := range parts {
		kv = append(kv, q(names[i])+": "+p.js)
		o.lines = append(o.lines, p.at("."+names[i])...)
	}
	o.js = "{" + strings.Join(kv, ", ") + "}"
	return o
}

// objects enumerates objects with the given fields.
func objects(fields []jfield, pairs bool) []piece {
	var out []piece
	pick := func(sel map[int]int, reverse bool) {
		var names []string
		var parts []piece
		for i, f := range fields {
			k, ok := sel[i]
			if !ok {
				if !f.required {
					continue
				}
				k = 0
			}
			names = append(names, f.name)
			parts = append(parts, f.variants[k%len(f.variants)])
		}
		if reverse {
			for i, j := 0, len(names)-1; i < j; i, j = i+1, j-1 {
				names[i], names[j] = names[j], names[i]
				parts[i], parts[j] = parts[j], parts[i]
			}
		}
		out = append(out, objectOf(names, parts))
	}
	pick(nil, false)
	most := 0
	for i, f := range fields {
		if len(f.variants) > most {
			most = len(f.variants)
		}
		for v := range f.variants {
			pick(map[int]int{i: v}, false)
			if !pairs {
				continue
			}
			for j := 0; j < i; j++ {
				for w := range fields[j].variants {
					pick(map[int]int{i: v, j: w}, false)
					if v == 0 && w == 0 {
						pick(map[int]int{i: v, j: w}, true)
					}
				}
			}
		}
	}
	for v := 0; v < most; v++ {
		sel := map[int]int{}
		for i := range fields {
			sel[i] = v
		}
		pick(sel, v%2 == 1)
		for i := range fields { // all but one
			if fields[i].required {
				continue
			}
			less := map[int]int{}
			for k := range fields {
				if k != i {
					less[k] = v
				}
			}
			pick(less, false)
		}
	}
	return out
}

// broken enumerates objects which must be refused.
func broken(fields []jfield) []string {
	var out []string
	build := func(name, val string) {
		var kv []string
		done := false
		for _, f := range fields {
			if f.name == name {
				kv = append(kv, q(name)+": "+val)
				done = true
			} else if f.required {
				kv = append(kv, q(f.name)+": "+f.variants[0].js)
			}
		}
		if !done {
			kv = append(kv, q(name)+": "+val)
		}
		out = append(out, "{"+strings.Join(kv, ", ")+"}")
	}
	for _, f := range fields {
		wrong := []string{"true", `[true]`, `{"a": true}`, `[[true]]`, `{"zzz": {"zzz": "1"}}`, `[{"zzz": "1"}]`}
		if f.unknown {
			wrong = []string{}
		}
		for _, w := range wrong {
			if f.name == "checkGas" && w == "true" {
				continue
			}
			if strings.Contains(w, "zzz") && treeField(f) {
				continue // a value may be a tree with any keys
			}
			build(f.name, w)
		}
	}
	for _, k := range []string{"zzz", "Nonce", "", "step2"} {
		build(k, `"1"`)
		build(k, `{}`)
	}
	return out
}

// treeField tells that a value of the field may be given as a tree.
func treeField(f jfield) bool {
	for _, v := range f.variants {
		if strings.HasPrefix(v.js, `["`) || v.js == `{"b": "2", "a": "0x01"}` {
			return true
		}
	}
	return false
}

func leaf(js string, meaning ...string) piece { return piece{js: js, lines: meaning} }

func vText() []piece {
	return []piece{leaf(`"some \"text\""`, `=some \"text\"`), leaf(`""`), leaf(`"*"`, "=*")}
}

func vU64() []piece {
	return []piece{leaf(`"5"`, "=5"), leaf(`"1,000"`, "=1000"), leaf(`"0x0a"`, "=10"), leaf(`"18446744073709551615"`, "=18446744073709551615"), leaf(`"0"`), leaf(`""`), leaf(`"u8:3"`, "=3")}
}

func vBig() []piece {
	return append(vU64(), leaf(`"1267650600228229401496703205376"`, "=1267650600228229401496703205376"))
}

func vBytes() []piece {
	return []piece{leaf(`"str:ab"`, "=6162"), leaf(`"0x00"`, "=00"), leaf(`""`), leaf(`"1|2"`, "=0102")}
}

func vTree() []piece {
	return append(vBytes(), leaf(`["0x01", ["u8:2"]]`, "=0102"), leaf(`{"b": "2", "a": "0x01"}`, "=0102"), leaf("[]"), leaf("{}"))
}

func star(ps []piece) []piece { return append([]piece{leaf(`"*"`, "=*")}, ps...) }

// optional turns variants of a value into variants of a condition which is only checked if it is written.
func optional(ps []piece) []piece {
	out := []piece{leaf(`"*"`)}
	for _, p := range ps {
		if len(p.lines) == 0 {
			p.lines = []string{"="}
		}
		out = append(out, p)
	}
	return out
}

// optionalU is optional for numbers.
func optionalU(ps []piece) []piece {
	var out []piece
	for _, p := range optional(ps) {
		if len(p.lines) == 1 && p.lines[0] == "=" {
			p.lines = []string{"=0"}
		}
		out = append(out, p)
	}
	return out
}

func vAddr(names ...string) []piece {
	var out []piece
	for _, n := range names {
		out = append(out, leaf(q("address:"+n), fmt.Sprintf("=%x", addressOf(n, 0, -1))), leaf(q("sc:"+n+"#01"), fmt.Sprintf("=%x", addressOf(n, 8, 1))))
	}
	return out
}

// vAddrTree is for conditions on an address, which may be given in parts.
func vAddrTree(name string) []piece {
	p := vAddr(name)
	return append(p, leaf("["+p[0].js+"]", p[0].lines...))
}

// dict is an object whose keys are data.
func dict(kv ...interface{}) piece {
	var o piece
	var parts []string
	for i := 0; i < len(kv); i += 3 {
		p := kv[i+2].(piece)
		parts = append(parts, q(kv[i].(string))+": "+p.js)
		o.lines = append(o.lines, p.at(kv[i+1].(string))...)
	}
	o.js = "{" + strings.Join(parts, ", ") + "}"
	return o
}

func listOf(ps ...piece) piece {
	var o piece
	var parts []string
	for i, p := range ps {
		parts = append(parts, p.js)
		o.lines = append(o.lines, p.at(fmt.Sprintf("[%d]", i))...)
		o.lines = append(o.lines, fmt.Sprintf("[%d]", i))
	}
	o.js = "[" + strings.Join(parts, ", ") + "]"
	return o
}

// more adds the entry which allows for others.
func more(p piece) piece {
	inner := strings.TrimSuffix(p.js, "}")
	if inner != "{" {
		inner += ", "
	}
	return piece{inner + `"+": ""}`, append(append([]string{}, p.lines...), "+")}
}

func rolesV() []piece {
	role := func(r string) piece { return leaf(q(r), "="+r) }
	return []piece{listOf(role("ESDTRoleLocalMint"), role("ESDTRoleLocalBurn")), listOf(role("r")), listOf()}
}

func instanceFields() []jfield {
	return []jfield{{name: "nonce", variants: vU64()}, {name: "balance", variants: vBig()}, {name: "creator", variants: vAddr("creator")}, {name: "royalties", variants: []piece{leaf(`"7,500"`, "=7500"), leaf(`"0"`)}},
		{name: "hash", variants: vBytes()}, {name: "uri", variants: vTree()}, {name: "attributes", variants: vBytes()}}
}

func checkInstanceFields() []jfield {
	return []jfield{{name: "nonce", variants: vU64()}, {name: "balance", variants: star(vBig())}, {name: "creator", variants: optional(vAddrTree("creator"))}, {name: "royalties", variants: optionalU([]piece{leaf(`"7,500"`, "=7500"), leaf(`"0"`), leaf(`""`)})},
		{name: "hash", variants: optional(vTree())}, {name: "uri", variants: optional(vTree())}, {name: "attributes", variants: optional(vTree())}}
}

// esdtV enumerates the forms of the holdings of a token.
func esdtV(inst []jfield, num []piece, balance []piece, strict ...string) []piece {
	out := append([]piece{}, asInstance(balance, strict)...)
	var rest []jfield
	rest = append(rest, jfield{name: "lastNonce", variants: num}, jfield{name: "roles", variants: rolesV()}, jfield{name: "frozen", variants: num})
	all := objects(inst, true)
	for _, p := range all { // the first instance directly
		out = append(out, direct(p))
	}
	for _, p := range objects(rest, true) {
		out = append(out, p)
	}
	join := func(a, b piece) piece { // the fields of two objects in one
		x, y := strings.TrimSuffix(a.js, "}"), strings.TrimPrefix(b.js, "{")
		if x != "{" && y != "}" {
			x += ", "
		}
		return piece{x + y, append(append([]string{}, a.lines...), b.lines...)}
	}
	for i, p := range all {
		if i%7 == 3 || i < 30 {
			first := direct(p)
			for _, r := range objects(rest, false) {
				out = append(out, join(first, r), join(r, first))
			}
			other := all[(i*5+11)%len(all)]
			third := all[(i*3+2)%len(all)]
			two := objectOf([]string{"instances"}, []piece{{"[" + p.js + ", " + other.js + "]", nil}})
			two.lines = append(p.instance(0), other.instance(1)...)
			out = append(out, two)
			one := piece{`{"instances": [` + p.js + `]}`, p.instance(0)}
			out = append(out, one)
			if third.js != "{}" {
				mixed := join(direct(third), piece{two.js, append(p.instance(1), other.instance(2)...)})
				out = append(out, mixed)
			}
		}
	}
	return out
}

// instance makes the statements of p statements about a listed instance of a token.
func (p piece) instance(i int) []string {
	return append(p.at(fmt.Sprintf("[%d]", i)), fmt.Sprintf("[%d]", i))
}

// direct is the form in which the first instance is not in a list.
func direct(p piece) piece {
	if p.js == "{}" {
		return p
	}
	return piece{p.js, p.instance(0)}
}

// asInstance makes of the variants of a balance those of the compact form of a holding.
func asInstance(ps []piece, strict []string) []piece {
	var out []piece
	for _, p := range ps {
		out = append(out, piece{p.js, append(append(p.at("[0].balance"), "[0]"), strict...)})
	}
	return out
}

func tokens(vs []piece) []piece {
	for i := range vs {
		vs[i].lines = append([]string{""}, vs[i].lines...)
	}
	tk := fmt.Sprintf("[%x]", "TOK")
	t2 := fmt.Sprintf("[%x]", "")
	var out []piece
	for i, v := range vs {
		out = append(out, dict("str:TOK", tk, v))
		if i < 12 {
			out = append(out, dict("str:TOK", tk, v, "", t2, vs[(i+3)%len(vs)]))
		}
	}
	return append(out, dict())
}

func few(ps []piece, n int) []piece {
	var out []piece
	for i := 0; i < n && i < len(ps); i++ {
		out = append(out, ps[i*len(ps)/n])
	}
	return out
}

func storageV(vals []piece) []piece {
	out := []piece{dict()}
	for i, v := range vals {
		out = append(out, dict("str:k", fmt.Sprintf("[%x]", "k"), v), dict("", "[]", v, "0x00", "[00]", vals[(i+1)%len(vals)]))
	}
	return out
}

func accountFields(esdt []piece) []jfield {
	return []jfield{{name: "comment", variants: vText()}, {name: "shard", variants: vU64()}, {name: "nonce", variants: vU64()}, {name: "balance", variants: vBig()}, {name: "esdt", variants: esdt}, {name: "username", variants: vBytes()},
		{name: "storage", variants: storageV(vTree())}, {name: "code", variants: vBytes()}, {name: "owner", variants: vAddr("owner")}, {name: "asyncCallData", variants: vText()}}
}

func checkAccountFields(esdt []piece) []jfield {
	st := storageV(star(vTree()))
	st = append(st, more(st[0]), more(st[1]), more(st[2]), leaf(`"*"`, "=*"))
	return []jfield{{name: "comment", variants: vText()}, {name: "nonce", variants: star(vU64())}, {name: "balance", variants: star(vBig())}, {name: "esdt", variants: esdt}, {name: "username", variants: star(vTree())},
		{name: "storage", variants: st}, {name: "code", variants: star(vTree())}, {name: "owner", variants: optional(vAddrTree("owner"))}, {name: "asyncCallData", variants: optional(vTree())}}
}

func accounts(ps []piece) []piece {
	var out []piece
	a := func(n string) (string, string) { return "address:" + n, fmt.Sprintf("[%x]", addressOf(n, 0, -1)) }
	k1, l1 := a("one")
	k2, l2 := a("two")
	for i, p := range ps {
		p.lines = append([]string{""}, p.lines...)
		if i%9 != 4 {
			out = append(out, dict(k1, l1, p))
		} else {
			o := ps[(i*7+1)%len(ps)]
			o.lines = append([]string{""}, o.lines...)
			out = append(out, dict(k1, l1, p, k2, l2, o))
		}
	}
	return append(out, dict())
}

func txFields(kind string) []jfield {
	var fs []jfield
	add := func(name string, req bool, vs []piece) {
		fs = append(fs, jfield{name: name, variants: vs, required: req})
	}
	if kind != "scQuery" && kind != "validatorReward" {
		add("from", true, vAddr("from"))
	}
	if kind != "scDeploy" {
		add("to", true, vAddr("to"))
	}
	if kind != "scQuery" {
		add("value", false, vBig())
	}
	if kind != "scQuery" && kind != "validatorReward" {
		esdt := objects([]jfield{{name: "tokenIdentifier", variants: vBytes()}, {name: "nonce", variants: vU64()}, {name: "value", variants: vBig()}}, true)
		for i := range esdt {
			esdt[i].lines = append([]string{""}, esdt[i].lines...)
		}
		add("esdt", false, esdt)
	}
	if kind == "scCall" || kind == "scQuery" {
		add("function", false, vText())
	}
	if kind == "scDeploy" {
		add("contractCode", false, vBytes())
	}
	if kind == "scCall" || kind == "scQuery" || kind == "scDeploy" {
		t := vTree()
		add("arguments", false, []piece{listOf(t...), listOf(t[4]), listOf()})
	}
	if kind != "scQuery" && kind != "validatorReward" {
		add("gasLimit", false, vU64())
		add("gasPrice", false, vU64())
	}
	add("nonce", false, vU64())
	return fs
}

func logFields() []jfield {
	t := star(vTree())
	return []jfield{{name: "address", variants: t}, {name: "identifier", variants: t}, {name: "topics", variants: []piece{listOf(t[:4]...), listOf(t[4:]...), listOf()}}, {name: "data", variants: t}}
}

func expectFields() []jfield {
	t := star(vTree())
	logs := []piece{leaf(`"*"`), leaf(`"someHash"`, "hash=someHash"), leaf("[]", "!")}
	all := objects(logFields(), true)
	for i, l := range all {
		one := listOf(l)
		one.lines = append(one.lines, "!")
		logs = append(logs, one)
		if i%11 == 0 {
			two := listOf(l, all[(i*3+1)%len(all)])
			two.lines = append(two.lines, "!")
			logs = append(logs, two)
		}
	}
	status := star([]piece{leaf(`"4"`, "=4"), leaf(`"0"`), leaf(`"-1"`, "=-1"), leaf(`"0x0080"`, "=128"), leaf(`""`)})
	return []jfield{{name: "out", variants: []piece{listOf(t...), listOf(t[0]), listOf(t[5]), listOf()}}, {name: "status", variants: status}, {name: "message", variants: t}, {name: "logs", variants: logs},
		{name: "gas", variants: optionalU(vU64())}, {name: "refund", variants: star(vBig())}}
}

func blockFields() []jfield {
	seed := strings.Repeat("ab", 48)
	return []jfield{{name: "blockTimestamp", variants: vU64()}, {name: "blockNonce", variants: vU64()}, {name: "blockRound", variants: vU64()}, {name: "blockEpoch", variants: vU64()},
		{name: "blockRandomSeed", variants: []piece{leaf(q("0x"+seed), "="+seed), leaf(`["0x`+seed[:40]+`", "0x`+seed[40:]+`"]`, "="+seed)}}}
}

// typed puts the kind of the step into a step object.
func typed(kind string, p piece, last bool) piece {
	js := p.js
	if last && js != "{}" {
		js = strings.TrimSuffix(js, "}") + `, "step": ` + q(kind) + "}"
	} else {
		sep := ", "
		if js == "{}" {
			sep = ""
		}
		js = `{"step": ` + q(kind) + sep + strings.TrimPrefix(js, "{")
	}
	return piece{js, append([]string{"=" + kind}, p.lines...)}
}

// stepGroups lists the steps by kind and the fields on which the variation is.
func stepGroups() map[string][]piece {
	g := map[string][]piece{}
	put := func(name, kind string, ps []piece) {
		for i, p := range ps {
			g[name] = append(g[name], typed(kind, p, i%5 == 4))
		}
	}
	com := jfield{name: "comment", variants: vText()}
	put("external", "externalSteps", objects([]jfield{com, {name: "path", variants: vText()}}, true))
	put("dump", "dumpState", objects([]jfield{com}, true))
	esdt := tokens(esdtV(instanceFields(), vU64(), vBig()))
	put("set accounts", "setState", objects([]jfield{com, {name: "accounts", variants: accounts(objects(accountFields(few(esdt, 12)), true))}}, false))
	put("set tokens", "setState", objects([]jfield{com, {name: "accounts", variants: accounts(objects([]jfield{{name: "esdt", variants: esdt}}, false))}}, false))
	nam := objects([]jfield{{name: "creatorAddress", variants: vAddr("c"), required: true}, {name: "creatorNonce", variants: vU64()}, {name: "newAddress", variants: vAddr("n"), required: true}}, true)
	blocks := objects(blockFields(), true)
	for i := range blocks {
		blocks[i].lines = append([]string{""}, blocks[i].lines...)
	}
	put("set others", "setState", objects([]jfield{com, {name: "accounts", variants: few(accounts(objects(accountFields(few(esdt, 2)), false)), 4)}, {name: "newAddresses", variants: []piece{listOf(nam[0]), listOf(nam[1:]...), listOf()}},
		{name: "previousBlockInfo", variants: few(blocks, 8)}, {name: "currentBlockInfo", variants: blocks}, {name: "blockHashes", variants: []piece{listOf(vBytes()...), listOf()}}}, true))
	cesdt := tokens(esdtV(checkInstanceFields(), star(vU64()), star(vBig()),
		// the compact form asserts that there is nothing but the balance
		"[0].creator=", "[0].royalties=0", "[0].hash=", "[0].uri=", "[0].attributes="))
	cesdt = append(cesdt, more(cesdt[0]), more(cesdt[1]), more(cesdt[len(cesdt)-1]), leaf(`"*"`, "=*"))
	wrap := func(ps []piece) []piece {
		out := accounts(ps)
		return append(out, more(out[0]), more(out[len(out)-1]), more(out[4]))
	}
	some := append(few(cesdt, 9), cesdt[len(cesdt)-4:]...)
	put("check accounts", "checkState", objects([]jfield{com, {name: "accounts", variants: wrap(objects(checkAccountFields(some), true)), required: true}}, false))
	put("check tokens", "checkState", objects([]jfield{com, {name: "accounts", variants: wrap(objects([]jfield{{name: "esdt", variants: cesdt}}, false)), required: true}}, false))
	for _, kind := range []string{"scDeploy", "scCall", "scQuery", "transfer", "validatorReward"} {
		txs := objects(txFields(kind), true)
		put(kind, kind, objects([]jfield{com, {name: "txId", variants: vText()}, {name: "tx", variants: txs, required: true}}, false))
		if strings.HasPrefix(kind, "sc") {
			exp := objects(expectFields(), kind == "scCall")
			for i := range exp {
				exp[i].lines = append([]string{""}, exp[i].lines...)
			}
			ps := objects([]jfield{{name: "expect", variants: exp}, {name: "tx", variants: txs[:1], required: true}}, false)
			put(kind+" expect", kind, ps)
			// in the other order
			rev := objects([]jfield{{name: "tx", variants: txs[:1], required: true}, {name: "expect", variants: few(exp, 20)}}, true)
			put(kind+" expect", kind, rev)
		}
	}
	return g
}

// told lists the statements which a scenario makes.
type told struct{ out []string }

func (d *told) add(f string, a ...interface{}) { d.out = append(d.out, fmt.Sprintf(f, a...)) }

func (d *told) text(path, s string) {
	if s != "" {
		d.add("%s=%s", path, s)
	}
}

func (d *told) bytes(path string, b []byte) {
	if len(b) > 0 {
		d.add("%s=%x", path, b)
	}
}

func (d *told) u64(path string, v mj.JSONUint64) {
	if v.Value != 0 {
		d.add("%s=%d", path, v.Value)
	}
}

func (d *told) big(path string, v *big.Int) {
	if v != nil && v.Sign() != 0 {
		d.add("%s=%d", path, v)
	}
}

func (d *told) cBytes(path string, v mj.JSONCheckBytes) {
	if v.IsStar {
		d.add("%s=*", path)
	} else {
		d.bytes(path, v.Value)
	}
}

// oBytes is a condition which is only checked when specified.
func (d *told) oBytes(path string, v mj.JSONCheckBytes) {
	if v.IsStar || v.Unspecified {
		return
	}
	d.add("%s=%s", path, fmt.Sprintf("%x", v.Value))
}

func (d *told) oU64(path string, v mj.JSONCheckUint64) {
	if v.IsStar || v.Unspecified {
		return
	}
	d.add("%s=%d", path, v.Value)
}

func (d *told) cU64(path string, v mj.JSONCheckUint64) {
	if v.IsStar {
		d.add("%s=*", path)
	} else if v.Value != 0 {
		d.add("%s=%d", path, v.Value)
	}
}

func (d *told) cBig(path string, v mj.JSONCheckBigInt) {
	if v.IsStar {
		d.add("%s=*", path)
	} else {
		d.big(path, v.Value)
	}
}

func (d *told) accounts(path string, as []*mj.Account) {
	for _, a := range as {
		p := fmt.Sprintf("%s[%x]", path, a.Address.Value)
		d.add("%s", p)
		d.text(p+".comment", a.Comment)
		d.u64(p+".shard", a.Shard)
		d.u64(p+".nonce", a.Nonce)
		d.big(p+".balance", a.Balance.Value)
		d.bytes(p+".username", a.Username.Value)
		for _, s := range a.Storage {
			d.bytes(fmt.Sprintf("%s.storage[%x]", p, s.Key.Value), s.Value.Value)
		}
		d.bytes(p+".code", a.Code.Value)
		d.bytes(p+".owner", a.Owner.Value)
		d.text(p+".asyncCallData", a.AsyncCallData)
		for _, e := range a.ESDTData {
			t := fmt.Sprintf("%s.esdt[%x]", p, e.TokenIdentifier.Value)
			d.add("%s", t)
			for i, in := range e.Instances {
				x := fmt.Sprintf("%s[%d]", t, i)
				d.add("%s", x)
				d.u64(x+".nonce", in.Nonce)
				d.big(x+".balance", in.Balance.Value)
				d.bytes(x+".creator", in.Creator.Value)
				d.u64(x+".royalties", in.Royalties)
				d.bytes(x+".hash", in.Hash.Value)
				d.bytes(x+".uri", in.Uri.Value)
				d.bytes(x+".attributes", in.Attributes.Value)
			}
			d.u64(t+".lastNonce", e.LastNonce)
			d.roles(t, e.Roles)
			d.u64(t+".frozen", e.Frozen)
		}
	}
}

func (d *told) roles(t string, roles []string) {
	for i, r := range roles {
		d.add("%s.roles[%d]", t, i)
		d.text(fmt.Sprintf("%s.roles[%d]", t, i), r)
	}
}

func (d *told) checkAccounts(path string, cs *mj.CheckAccounts) {
	if cs.MoreAccountsAllowed {
		d.add("%s+", path)
	}
	for _, a := range cs.Accounts {
		p := fmt.Sprintf("%s[%x]", path, a.Address.Value)
		d.add("%s", p)
		d.text(p+".comment", a.Comment)
		d.cU64(p+".nonce", a.Nonce)
		d.cBig(p+".balance", a.Balance)
		d.cBytes(p+".username", a.Username)
		if a.IgnoreStorage {
			d.add("%s.storage=*", p)
		}
		if a.MoreStorageAllowed {
			d.add("%s.storage+", p)
		}
		for _, s := range a.CheckStorage {
			d.cBytes(fmt.Sprintf("%s.storage[%x]", p, s.Key.Value), s.CheckValue)
		}
		d.cBytes(p+".code", a.Code)
		d.oBytes(p+".owner", a.Owner)
		d.oBytes(p+".asyncCallData", a.AsyncCallData)
		if a.IgnoreESDT {
			d.add("%s.esdt=*", p)
		}
		if a.MoreESDTTokensAllowed {
			d.add("%s.esdt+", p)
		}
		for _, e := range a.CheckESDTData {
			t := fmt.Sprintf("%s.esdt[%x]", p, e.TokenIdentifier.Value)
			d.add("%s", t)
			for i, in := range e.Instances {
				x := fmt.Sprintf("%s[%d]", t, i)
				d.add("%s", x)
				d.cU64(x+".nonce", in.Nonce)
				d.cBig(x+".balance", in.Balance)
				d.oBytes(x+".creator", in.Creator)
				d.oU64(x+".royalties", in.Royalties)
				d.oBytes(x+".hash", in.Hash)
				d.oBytes(x+".uri", in.Uri)
				d.oBytes(x+".attributes", in.Attributes)
			}
			d.cU64(t+".lastNonce", e.LastNonce)
			d.roles(t, e.Roles)
			d.cU64(t+".frozen", e.Frozen)
		}
	}
}

func (d *told) block(path string, b *mj.BlockInfo) {
	if b == nil {
		return
	}
	d.add("%s", path)
	d.u64(path+".blockTimestamp", b.BlockTimestamp)
	d.u64(path+".blockNonce", b.BlockNonce)
	d.u64(path+".blockRound", b.BlockRound)
	d.u64(path+".blockEpoch", b.BlockEpoch)
	if b.BlockRandomSeed != nil {
		d.bytes(path+".blockRandomSeed", b.BlockRandomSeed.Value)
	}
}

func (d *told) tx(p string, x *mj.Transaction) {
	d.u64(p+".nonce", x.Nonce)
	d.big(p+".value", x.Value.Value)
	if e := x.ESDTValue; e != nil {
		d.add("%s.esdt", p)
		d.bytes(p+".esdt.tokenIdentifier", e.TokenIdentifier.Value)
		d.u64(p+".esdt.nonce", e.Nonce)
		d.big(p+".esdt.value", e.Value.Value)
	}
	d.bytes(p+".from", x.From.Value)
	d.bytes(p+".to", x.To.Value)
	d.text(p+".function", x.Function)
	d.bytes(p+".contractCode", x.Code.Value)
	for i, a := range x.Arguments {
		d.add("%s.arguments[%d]", p, i)
		d.bytes(fmt.Sprintf("%s.arguments[%d]", p, i), a.Value)
	}
	d.u64(p+".gasPrice", x.GasPrice)
	d.u64(p+".gasLimit", x.GasLimit)
}

func (d *told) checkList(path string, bs []mj.JSONCheckBytes) {
	for i, b := range bs {
		d.add("%s[%d]", path, i)
		d.cBytes(fmt.Sprintf("%s[%d]", path, i), b)
	}
}

func (d *told) expect(p string, r *mj.TransactionResult) {
	if r == nil {
		return
	}
	d.add("%s", p)
	d.checkList(p+".out", r.Out)
	d.cBig(p+".status", r.Status)
	d.cBytes(p+".message", r.Message)
	d.oU64(p+".gas", r.Gas)
	d.cBig(p+".refund", r.Refund)
	switch {
	case r.LogsStar:
	case r.LogHash != "":
		d.add("%s.logshash=%s", p, r.LogHash)
	default:
		d.add("%s.logs!", p)
		for i, l := range r.Logs {
			x := fmt.Sprintf("%s.logs[%d]", p, i)
			d.add("%s", x)
			d.cBytes(x+".address", l.Address)
			d.cBytes(x+".identifier", l.Identifier)
			d.checkList(x+".topics", l.Topics)
			d.cBytes(x+".data", l.Data)
		}
	}
}

func scenarioLines(s *mj.Scenario) []string {
	d := &told{}
	d.text(".name", s.Name)
	d.text(".comment", s.Comment)
	if !s.CheckGas {
		d.add(".checkGas=false")
	}
	if s.GasSchedule != mj.GasScheduleDefault {
		d.add(".gasSchedule=%s", map[mj.GasSchedule]string{mj.GasScheduleDummy: "dummy", mj.GasScheduleV1: "v1", mj.GasScheduleV2: "v2", mj.GasScheduleV3: "v3"}[s.GasSchedule])
	}
	for i, st := range s.Steps {
		p := fmt.Sprintf(".steps[%d]", i)
		d.add("%s", p)
		d.add("%s=%s", p, st.StepTypeName())
		switch x := st.(type) {
		case *mj.ExternalStepsStep:
			d.text(p+".comment", x.Comment)
			d.text(p+".path", x.Path)
		case *mj.SetStateStep:
			d.text(p+".comment", x.Comment)
			d.accounts(p+".accounts", x.Accounts)
			for k, n := range x.NewAddressMocks {
				m := fmt.Sprintf("%s.newAddresses[%d]", p, k)
				d.add("%s", m)
				d.bytes(m+".creatorAddress", n.CreatorAddress.Value)
				d.u64(m+".creatorNonce", n.CreatorNonce)
				d.bytes(m+".newAddress", n.NewAddress.Value)
			}
			d.block(p+".previousBlockInfo", x.PreviousBlockInfo)
			d.block(p+".currentBlockInfo", x.CurrentBlockInfo)
			for k, h := range x.BlockHashes {
				d.add("%s.blockHashes[%d]", p, k)
				d.bytes(fmt.Sprintf("%s.blockHashes[%d]", p, k), h.Value)
			}
		case *mj.CheckStateStep:
			d.text(p+".comment", x.Comment)
			d.checkAccounts(p+".accounts", x.CheckAccounts)
		case *mj.DumpStateStep:
			d.text(p+".comment", x.Comment)
		case *mj.TxStep:
			d.text(p+".comment", x.Comment)
			d.text(p+".txId", x.TxIdent)
			d.tx(p+".tx", x.Tx)
			d.expect(p+".expect", x.ExpectedResult)
		}
	}
	sort.Strings(d.out)
	return d.out
}

func scenarioParser() *mjparse.Parser {
	p := &mjparse.Parser{}
	p.ExprInterpreter = mei.ExprInterpreter{FileResolver: exprFiles}
	return p
}

// difference lists the lines which only one of two sorted lists has.
func difference(a, b []string) string {
	in := map[string]int{}
	for _, l := range a {
		in[l]++
	}
	for _, l := range b {
		in[l]--
	}
	var out []string
	for l, n := range in {
		if n > 0 {
			out = append(out, "lost: "+l)
		} else if n < 0 {
			out = append(out, "added: "+l)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// scenFile checks that a scenario is read as meant, and that writing it changes nothing.
func scenFile(t *core.T, p piece) {
	t.Exec(1)
	want := append([]string{}, p.lines...)
	sort.Strings(want)
	s, err := scenarioParser().ParseScenarioFile([]byte(p.js))
	if err != nil {
		t.Failf("the scenario %s is refused: %v", p.js, err)
		return
	}
	if d := difference(want, scenarioLines(s)); d != "" {
		t.Failf("the scenario %s is misread: %s", p.js, d)
		return
	}
	text := mjwrite.ScenarioToJSONString(s)
	back, err := scenarioParser().ParseScenarioFile([]byte(text))
	if err != nil {
		t.Failf("the scenario %s is written as %s, which is refused: %v", p.js, text, err)
		return
	}
	if d := difference(want, scenarioLines(back)); d != "" {
		t.Failf("the scenario %s is written as %s, which means something else: %s", p.js, text, d)
		return
	}
	if again := mjwrite.ScenarioToJSONString(back); again != text {
		t.Failf("the scenario %s is written as %s, then as %s", p.js, text, again)
	}
	t.Outcome("same")
}

func runC42(c *core.Ctx) {
	groups := stepGroups()
	var names []string
	for n := range groups {
		names = append(names, n)
	}
	sort.Strings(names)
	const per = 100
	one := func(p piece) piece { return objectOf([]string{"steps"}, []piece{listOf(p)}) }
	for _, name := range names {
		ps := groups[name]
		for lo := 0; lo < len(ps); lo += per {
			lo := lo
			c.Case(func() string {
				return fmt.Sprintf("steps of group %q from number %d on, such as %s", name, lo, ps[lo].js)
			}, func(t *core.T) {
				for i := lo; i < lo+per && i < len(ps); i++ {
					scenFile(t, one(ps[i]))
				}
			})
		}
	}
	c.Case(func() string { return "scenarios with several steps" }, func(t *core.T) {
		var some []piece
		for _, n := range names {
			some = append(some, few(groups[n], 3)...)
		}
		var lists []piece
		for i, a := range some {
			for _, b := range some {
				lists = append(lists, listOf(a, b))
			}
			lists = append(lists, listOf(append([]piece{a}, some[i/2:]...)...))
		}
		no := leaf("false", "=false")
		yes := leaf("true")
		gas := []piece{leaf(`"default"`), leaf(`"dummy"`, "=dummy"), leaf(`"v1"`, "=v1"), leaf(`"v2"`, "=v2"), leaf(`"v3"`, "=v3")}
		for _, p := range objects([]jfield{{name: "name", variants: vText()}, {name: "comment", variants: vText()}, {name: "checkGas", variants: []piece{no, yes}}, {name: "gasSchedule", variants: gas}, {name: "steps", variants: append(few(lists, 10), listOf())}}, true) {
			scenFile(t, p)
		}
		for _, l := range lists {
			scenFile(t, objectOf([]string{"steps"}, []piece{l}))
		}
	})
	c.Case(func() string { return "what must be refused" }, func(t *core.T) {
		refuse := func(js string) {
			t.Exec(1)
			t.Outcome("refused")
			if s, err := scenarioParser().ParseScenarioFile([]byte(js)); err == nil {
				t.Failf("the scenario %s is accepted, with the meaning %v", js, scenarioLines(s))
			}
		}
		step := func(js string) { refuse(`{"steps": [` + js + `]}`) }
		kind := func(k, rest string) {
			step(typed(k, piece{js: rest}, false).js)
		}
		esdt := jfield{name: "esdt", variants: []piece{dict()}}
		for _, b := range broken([]jfield{{name: "name", variants: vText()}, {name: "comment", variants: vText()}, {name: "checkGas", variants: []piece{leaf("true")}}, {name: "gasSchedule", variants: vText()}, {name: "steps", variants: []piece{listOf()}}}) {
			refuse(b)
		}
		for _, k := range []string{"externalSteps", "dumpState", "setState", "checkState", "scCall", "scDeploy", "scQuery", "transfer", "validatorReward"} {
			fs := []jfield{{name: "comment", variants: vText()}}
			switch k {
			case "externalSteps":
				fs = append(fs, jfield{name: "path", variants: vText()})
			case "setState":
				fs = append(fs, jfield{name: "accounts", variants: []piece{dict()}}, jfield{name: "newAddresses", variants: []piece{listOf()}}, jfield{name: "previousBlockInfo", variants: []piece{dict()}}, jfield{name: "currentBlockInfo", variants: []piece{dict()}}, jfield{name: "blockHashes", variants: []piece{listOf()}})
			case "checkState":
				fs = append(fs, jfield{name: "accounts", variants: []piece{dict()}, required: true})
			case "scCall", "scDeploy", "scQuery", "transfer", "validatorReward":
				fs = append(fs, jfield{name: "txId", variants: vText()}, jfield{name: "tx", variants: objects(txFields(k), false)[:1], required: true})
				if strings.HasPrefix(k, "sc") {
					fs = append(fs, jfield{name: "expect", variants: []piece{dict()}})
				} else {
					kind(k, `{"tx": `+objects(txFields(k), false)[0].js+`, "expect": {}}`)
				}
				for _, b := range broken(txFields(k)) {
					kind(k, `{"tx": `+b+`}`)
				}
				legal := map[string]bool{}
				for _, f := range txFields(k) {
					legal[f.name] = true
				}
				for _, f := range append(append(txFields("scCall"), txFields("scDeploy")...), txFields("transfer")...) {
					if !legal[f.name] && f.name != "arguments" {
						tx := objects(txFields(k), false)[0].js
						kind(k, `{"tx": `+strings.TrimSuffix(tx, "}")+`, `+q(f.name)+": "+f.variants[0].js+`}}`)
					}
				}
			}
			for _, b := range broken(fs) {
				kind(k, b)
			}
		}
		acct := func(k, js string) { kind(k, `{"accounts": {"address:one": `+js+`}}`) }
		for _, b := range broken(accountFields(esdt.variants)) {
			acct("setState", b)
		}
		for _, b := range broken(checkAccountFields(esdt.variants)) {
			acct("checkState", b)
		}
		num := []jfield{{name: "lastNonce", variants: vU64()}, {name: "roles", variants: rolesV()[1:2]}, {name: "frozen", variants: vU64()}, {name: "instances", variants: []piece{listOf()}}}
		for _, b := range broken(append(instanceFields(), num...)) {
			acct("setState", `{"esdt": {"str:T": `+b+`}}`)
		}
		for _, b := range broken(append(checkInstanceFields(), num...)) {
			acct("checkState", `{"esdt": {"str:T": `+b+`}}`)
		}
		for _, b := range broken(instanceFields()) {
			acct("setState", `{"esdt": {"str:T": {"instances": [`+b+`]}}}`)
		}
		for _, b := range broken(checkInstanceFields()) {
			acct("checkState", `{"esdt": {"str:T": {"instances": [`+b+`]}}}`)
		}
		for _, b := range broken(blockFields()) {
			kind("setState", `{"currentBlockInfo": `+b+`}`)
			kind("setState", `{"previousBlockInfo": `+b+`}`)
		}
		for _, b := range broken([]jfield{{name: "creatorAddress", variants: vAddr("c"), required: true}, {name: "creatorNonce", variants: vU64()}, {name: "newAddress", variants: vAddr("n"), required: true}}) {
			kind("setState", `{"newAddresses": [`+b+`]}`)
		}
		call := func(rest string) { kind("scCall", `{"tx": `+objects(txFields("scCall"), false)[0].js+rest+`}`) }
		for _, b := range broken(expectFields()) {
			call(`, "expect": ` + b)
		}
		for _, b := range broken(logFields()) {
			call(`, "expect": {"logs": [` + b + `]}`)
		}
		// values out of range
		for _, v := range []string{`"18446744073709551616"`, `"x"`, `"*"`} {
			acct("setState", `{"nonce": `+v+`}`)
			acct("setState", `{"shard": `+v+`}`)
			if v != `"*"` {
				acct("checkState", `{"nonce": `+v+`}`)
				call(`, "expect": {"gas": ` + v + `}`)
			}
			kind("setState", `{"currentBlockInfo": {"blockNonce": `+v+`}}`)
			kind("transfer", `{"tx": {"from": "address:a", "to": "address:b", "gasLimit": `+v+`}}`)
		}
		for _, a := range []string{"", "str:short", "0x" + strings.Repeat("00", 31), "0x" + strings.Repeat("00", 33), "x"} {
			kind("setState", `{"accounts": {`+q(a)+`: {}}}`)
			kind("checkState", `{"accounts": {`+q(a)+`: {}}}`)
			kind("scCall", `{"tx": {"from": `+q(a)+`, "to": "sc:x"}}`)
			kind("scCall", `{"tx": {"from": "address:x", "to": `+q(a)+`}}`)
			kind("setState", `{"newAddresses": [{"creatorAddress": `+q(a)+`, "newAddress": "sc:x"}]}`)
		}
		acct("setState", `{"esdt": {"str:T": {"royalties": "10001"}}}`)
		acct("checkState", `{"esdt": {"str:T": {"royalties": "10001"}}}`)
		acct("setState", `{"esdt": {"str:T": {"creator": "str:short"}}}`)
		kind("setState", `{"currentBlockInfo": {"blockRandomSeed": "0x01"}}`)
		step(`{}`)
		step(`{"step": "zzz"}`)
		step(`{"step": true}`)
		step(`"scCall"`)
		for _, k := range []string{"scCall", "scDeploy", "scQuery", "transfer", "validatorReward", "checkState"} {
			kind(k, "{}") // without a transaction, without accounts
		}
		for _, top := range []string{"", "[]", `"a"`, "true", "{", `{"steps": [`, "{}{}"} {
			refuse(top)
		}
	})
}
