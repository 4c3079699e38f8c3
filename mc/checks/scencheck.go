package checks

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	am "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwenmandos"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"

	"vmc/core"
	"vmc/wb"
)

func init() {
	core.Register(&core.Check{ID: "C43", Level: "model_checking", Rule: "Scenarios of a state and a checkState step: every pair of a state and a condition for each field of an account (storage and tokens with all combinations of entries), every two fields with matching, not matching and missing conditions, " +
		"complete conditions with each single mistake; scenarios of a call and its expected result: every produced result with every condition for each field, pairs of fields and complete conditions with each mistake.",
		Assumptions: []string{"fields of different accounts do not influence each other beyond what pairs of accounts show", "metadata of tokens without nonce and the frozen flag of a token of which nothing is held are out of scope"}, Run: runC43})
}

// aspect is a part of an account: what it may be, and the conditions on it.
type aspect struct {
	name   string
	states []aState
	checks []aCheck
}

type aState struct {
	js  string // the fields set
	val interface{}
}

type aCheck struct {
	js string // the fields checked
	ok func(val interface{}) bool
}

func anyValue(interface{}) bool { return true }

// valueAspect is a field with a single value; missing tells that nothing is checked if there is no condition.
func valueAspect(name string, vals []string, empty string, more map[string]string, missing bool) aspect {
	a := aspect{name: name}
	field := func(v string) string { return q(name) + ": " + q(v) }
	for _, v := range vals {
		a.states = append(a.states, aState{field(v), v})
	}
	a.states = append(a.states, aState{"", empty})
	is := func(v string) func(interface{}) bool {
		return func(x interface{}) bool { return x.(string) == v }
	}
	for _, v := range append(append([]string{}, vals...), empty) {
		a.checks = append(a.checks, aCheck{field(v), is(v)})
	}
	var alt []string
	for w := range more {
		alt = append(alt, w)
	}
	sort.Strings(alt)
	for _, w := range alt { // another notation
		a.checks = append(a.checks, aCheck{field(w), is(more[w])})
	}
	a.checks = append(a.checks, aCheck{field("*"), anyValue})
	if missing {
		a.checks = append(a.checks, aCheck{"", anyValue})
	} else {
		a.checks = append(a.checks, aCheck{"", is(empty)})
	}
	return a
}

// storageAspect is the storage with up to two keys.
func storageAspect() aspect {
	a := aspect{name: "storage"}
	none := "-"
	vals := []string{none, "", "0x01", "0x0100", "0x02"}
	entry := func(k, v string) string {
		if v == none {
			return ""
		}
		return q(k) + ": " + q(v)
	}
	wrap := func(parts ...string) string { return `"storage": {` + commaJoin(parts...) + "}" }
	is := func(v string) string {
		if v == none {
			return ""
		}
		return v
	}
	for _, v1 := range vals {
		for _, v2 := range vals[:3] {
			for _, p := range []string{"", `"str:ELRONDnone": "5"`} {
				a.states = append(a.states, aState{wrap(entry("str:k1", v1), entry("", v2), p), [2]string{is(v1), is(v2)}})
			}
		}
	}
	a.states = append(a.states, aState{"", [2]string{}})
	for _, c1 := range append(vals, "*") {
		for _, c2 := range append(vals[:4:4], "*") {
			for _, more := range []bool{false, true} {
				plus := ""
				if more {
					plus = `"+": ""`
				}
				c1, c2, more := c1, c2, more
				ok := func(x interface{}) bool {
					have := x.([2]string)
					for i, c := range []string{c1, c2} {
						if c == "*" || (c == none && more) {
							continue
						}
						if is(c) != have[i] {
							return false
						}
					}
					return true
				}
				a.checks = append(a.checks, aCheck{wrap(entry("str:k1", c1), entry("", c2), plus), ok}, aCheck{wrap(plus, entry("", c2), entry("0x6b31", c1)), ok})
			}
		}
	}
	a.checks = append(a.checks, aCheck{`"storage": "*"`, anyValue})
	a.checks = append(a.checks, aCheck{"", func(x interface{}) bool { return x.([2]string) == [2]string{} }})
	return a
}

func commaJoin(parts ...string) string {
	var out []string
	for _, p := range parts {
		if p != "" {
			out = append(out, p)
		}
	}
	return strings.Join(out, ", ")
}

// tokInst is an instance of a token.
type tokInst struct {
	nonce   uint64
	balance int64
	meta    [5]string // creator, royalties, hash, uri, attributes as hex or decimal
}

// holding is a token of an account.
type holding struct {
	inst   []tokInst
	last   uint64
	roles  []string
	frozen bool
}

var metaNames = []string{"creator", "royalties", "hash", "uri", "attributes"}

var metaVals = [][]string{{"0x" + strings.Repeat("63", 32), "0x" + strings.Repeat("64", 32)}, {"500", "9999"}, {"0x0011", "0x0012"}, {"0x61", "0x62"}, {"0x7a00", "0x7a"}}

// js is the fields of an instance in a state.
func (in tokInst) js() string {
	var parts []string
	if in.nonce != 0 {
		parts = append(parts, fmt.Sprintf(`"nonce": "%d"`, in.nonce))
	}
	parts = append(parts, fmt.Sprintf(`"balance": "%d"`, in.balance))
	for i, m := range in.meta {
		if m != "" {
			parts = append(parts, q(metaNames[i])+": "+q(m))
		}
	}
	return strings.Join(parts, ", ")
}

func (t holding) js() string {
	var parts, inst []string
	for i, in := range t.inst {
		if i == 0 && len(t.inst) == 1 {
			parts = append(parts, in.js())
		} else {
			inst = append(inst, "{"+in.js()+"}")
		}
	}
	if inst != nil {
		parts = append(parts, `"instances": [`+strings.Join(inst, ", ")+"]")
	}
	if t.last != 0 {
		parts = append(parts, fmt.Sprintf(`"lastNonce": "%d"`, t.last))
	}
	if t.roles != nil {
		parts = append(parts, `"roles": ["`+strings.Join(t.roles, `", "`)+`"]`)
	}
	if t.frozen {
		parts = append(parts, `"frozen": "1"`)
	}
	return "{" + strings.Join(parts, ", ") + "}"
}

// tokCheck is a condition on a token.
type tokCheck struct {
	js string
	ok func(t holding) bool
}

// holds compares the instances of a token with those wanted.
func holds(t holding, want []instWant) bool {
	have := map[uint64]tokInst{}
	for _, in := range t.inst {
		if in.balance > 0 {
			have[in.nonce] = in
		}
	}
	for _, w := range want {
		h := have[w.nonce]
		delete(have, w.nonce)
		if !w.anyBal && w.balance != h.balance {
			return false
		}
		for i, m := range w.meta {
			empty := ""
			if i == 1 {
				empty = "0"
			}
			got := h.meta[i]
			if got == "" {
				got = empty
			}
			want := m
			if want == "" {
				want = empty
			}
			if m != "*" && got != want {
				return false
			}
		}
	}
	return len(have) == 0
}

type instWant struct {
	nonce   uint64
	balance int64
	anyBal  bool
	meta    [5]string // "*" for any
}

var anyMeta = [5]string{"*", "*", "*", "*", "*"}

func (w instWant) js() string {
	var parts []string
	if w.nonce != 0 {
		parts = append(parts, fmt.Sprintf(`"nonce": "%d"`, w.nonce))
	}
	if w.anyBal {
		parts = append(parts, `"balance": "*"`)
	} else {
		parts = append(parts, fmt.Sprintf(`"balance": "%d"`, w.balance))
	}
	for i, m := range w.meta {
		if m != "*" {
			parts = append(parts, q(metaNames[i])+": "+q(m))
		}
	}
	return strings.Join(parts, ", ")
}

func sameRoles(a, b []string) bool {
	in := func(x []string, r string) bool {
		for _, y := range x {
			if y == r {
				return true
			}
		}
		return false
	}
	for _, r := range a {
		if !in(b, r) {
			return false
		}
	}
	for _, r := range b {
		if !in(a, r) {
			return false
		}
	}
	return true
}

// tokenAspects are the holdings of tokens.
func tokenAspects() []aspect {
	none := holding{}
	r1, r2 := []string{"ESDTRoleLocalMint"}, []string{"ESDTRoleLocalMint", "ESDTRoleNFTCreate"}
	// one token, all about instances
	var toks []holding
	nft := func(n uint64, b int64, ms ...string) tokInst {
		in := tokInst{nonce: n, balance: b}
		copy(in.meta[:], ms)
		return in
	}
	full := func(k int) []string {
		var out []string
		for i := range metaVals {
			out = append(out, metaVals[i][k])
		}
		return out
	}
	toks = append(toks, none, holding{inst: []tokInst{nft(0, 5)}}, holding{inst: []tokInst{nft(0, 7)}}, holding{inst: []tokInst{nft(0, 0)}},
		holding{inst: []tokInst{nft(1, 5)}}, holding{inst: []tokInst{nft(258, 5)}}, holding{inst: []tokInst{nft(1, 5), nft(2, 6)}}, holding{inst: []tokInst{nft(0, 5), nft(2, 6)}},
		holding{inst: []tokInst{nft(1, 5, full(0)...)}}, holding{inst: []tokInst{nft(1, 5, full(1)...)}}, holding{inst: []tokInst{nft(1, 5), nft(2, 6, full(0)...)}})
	var rest []holding
	for _, inst := range [][]tokInst{nil, {nft(0, 5)}, {nft(3, 5), nft(4, 5)}} {
		for _, last := range []uint64{0, 4, 300} {
			for _, roles := range [][]string{nil, r1, r2} {
				for _, fr := range []bool{false, true} {
					if fr && inst == nil {
						continue
					}
					rest = append(rest, holding{inst, last, roles, fr})
				}
			}
		}
	}
	var checks []tokCheck
	add := func(js string, ok func(holding) bool) { checks = append(checks, tokCheck{js, ok}) }
	plain := func(t holding) bool { return t.last == 0 && len(t.roles) == 0 }
	for _, b := range []int64{0, 5, 7} {
		b := b
		add(fmt.Sprintf(`"%d"`, b), func(t holding) bool { return plain(t) && holds(t, []instWant{{balance: b}}) })
	}
	add(`"*"`, func(t holding) bool { return plain(t) && holds(t, []instWant{{anyBal: true}}) })
	wants := [][]instWant{nil}
	for _, n := range []uint64{0, 1, 2, 258} {
		for _, b := range []int64{5, 6} {
			wants = append(wants, []instWant{{nonce: n, balance: b, meta: anyMeta}})
		}
		wants = append(wants, []instWant{{nonce: n, anyBal: true, meta: anyMeta}})
	}
	for i := range metaVals {
		empty := ""
		for _, v := range []string{metaVals[i][0], metaVals[i][1], empty} {
			m := anyMeta
			m[i] = v
			wants = append(wants, []instWant{{nonce: 1, balance: 5, meta: m}}, []instWant{{nonce: 1, balance: 5, meta: anyMeta}, {nonce: 2, balance: 6, meta: m}})
		}
	}
	var m0 [5]string
	copy(m0[:], full(0))
	wants = append(wants, []instWant{{nonce: 1, balance: 5, meta: m0}}, []instWant{{nonce: 0, balance: 5, meta: anyMeta}, {nonce: 2, balance: 6, meta: anyMeta}})
	for _, ws := range wants {
		ws := ws
		ok := func(t holding) bool { return plain(t) && holds(t, ws) }
		var list []string
		for _, w := range ws {
			list = append(list, "{"+w.js()+"}")
		}
		add(`{"instances": [`+strings.Join(list, ", ")+"]}", ok)
		if len(ws) == 1 {
			add("{"+ws[0].js()+"}", ok)
		}
		if len(ws) == 2 {
			add("{"+ws[1].js()+`, "instances": [`+list[0]+"]}", ok)
		}
	}
	instances := aspect{name: "token"}
	wrapT := func(js string) string { return `"esdt": {"str:TOK": ` + js + "}" }
	for _, t := range toks {
		instances.states = append(instances.states, aState{wrapT(t.js()), t})
	}
	instances.states = append(instances.states, aState{wrapT(`"5"`), holding{inst: []tokInst{nft(0, 5)}}}, aState{"", none})
	for _, c := range checks {
		c := c
		instances.checks = append(instances.checks, aCheck{wrapT(c.js), func(x interface{}) bool { return c.ok(x.(holding)) }})
	}
	// last nonce, roles, frozen
	others := aspect{name: "token state"}
	for _, t := range rest {
		others.states = append(others.states, aState{wrapT(t.js()), t})
	}
	type cnd struct {
		js string
		ok func(t holding) bool
	}
	lasts := []cnd{{"", func(t holding) bool { return t.last == 0 }}, {`"lastNonce": "4"`, func(t holding) bool { return t.last == 4 }}, {`"lastNonce": "300"`, func(t holding) bool { return t.last == 300 }}, {`"lastNonce": "0"`, func(t holding) bool { return t.last == 0 }}, {`"lastNonce": "*"`, func(t holding) bool { return true }}}
	rcnd := func(rs ...string) cnd {
		js := `"roles": []`
		if len(rs) > 0 {
			js = `"roles": ["` + strings.Join(rs, `", "`) + `"]`
		}
		return cnd{js, func(t holding) bool { return sameRoles(t.roles, rs) }}
	}
	roles := []cnd{{"", func(t holding) bool { return len(t.roles) == 0 }}, rcnd(), rcnd(r1...), rcnd(r2...), rcnd(r2[1], r2[0]), rcnd(r2[1])}
	frozen := []cnd{{`"frozen": "1"`, func(t holding) bool { return t.frozen || t.inst == nil }}, {`"frozen": "0"`, func(t holding) bool { return !t.frozen }}, {`"frozen": "*"`, func(t holding) bool { return true }}, {"", func(t holding) bool { return true }}}
	held := [][]instWant{nil, {{nonce: 0, balance: 5, meta: anyMeta}}, {{nonce: 3, balance: 5, meta: anyMeta}, {nonce: 4, balance: 5, meta: anyMeta}}}
	for _, ws := range held {
		js := ""
		var list []string
		for _, w := range ws {
			list = append(list, "{"+w.js()+"}")
		}
		if len(ws) == 1 {
			js = ws[0].js()
		} else if ws != nil {
			js = `"instances": [` + strings.Join(list, ", ") + "]"
		}
		for _, l := range lasts {
			for _, r := range roles {
				for _, f := range frozen {
					if ws == nil && f.js != "" {
						continue
					}
					ws, l, r, f := ws, l, r, f
					others.checks = append(others.checks, aCheck{wrapT("{" + commaJoin(f.js, js, l.js, r.js) + "}"), func(x interface{}) bool {
						t := x.(holding)
						return holds(t, ws) && l.ok(t) && r.ok(t) && f.ok(t)
					}})
				}
			}
		}
	}
	// which tokens there are
	which := aspect{name: "tokens"}
	type two = [2]holding
	few := []holding{none, {inst: []tokInst{nft(0, 5)}}, {roles: r1}, {inst: []tokInst{nft(1, 5)}, last: 1}, {inst: []tokInst{nft(0, 0)}}}
	wrap2 := func(parts ...string) string { return `"esdt": {` + commaJoin(parts...) + "}" }
	for i, t1 := range few {
		for j, t2 := range few {
			js1, js2 := "", ""
			if i > 0 {
				js1 = `"str:TOK": ` + t1.js()
			}
			if j > 0 {
				js2 = `"str:TOKEN-1": ` + t2.js()
			}
			which.states = append(which.states, aState{wrap2(js1, js2), two{t1, t2}})
		}
	}
	which.states = append(which.states, aState{"", two{}})
	nothing := func(t holding) bool { return plain(t) && holds(t, nil) }
	fewC := []tokCheck{{"", nothing}, {`"5"`, func(t holding) bool { return plain(t) && holds(t, []instWant{{balance: 5}}) }}, {`{"roles": ["ESDTRoleLocalMint"]}`, func(t holding) bool { return t.last == 0 && sameRoles(t.roles, r1) && holds(t, nil) }},
		{`{"nonce": "1", "balance": "5", "lastNonce": "1"}`, func(t holding) bool {
			return t.last == 1 && t.roles == nil && holds(t, []instWant{{nonce: 1, balance: 5, meta: anyMeta}})
		}}, {`"0"`, nothing}, {"{}", nothing}}
	for _, c1 := range fewC {
		for _, c2 := range fewC {
			for _, more := range []bool{false, true} {
				js1, js2, plus := "", "", ""
				if c1.js != "" {
					js1 = `"str:TOK": ` + c1.js
				}
				if c2.js != "" {
					js2 = `"str:TOKEN-1": ` + c2.js
				}
				if more {
					plus = `"+": ""`
				}
				c1, c2, more := c1, c2, more
				which.checks = append(which.checks, aCheck{wrap2(js2, plus, js1), func(x interface{}) bool {
					t := x.(two)
					return (c1.ok(t[0]) || (more && c1.js == "")) && (c2.ok(t[1]) || (more && c2.js == ""))
				}})
			}
		}
	}
	which.checks = append(which.checks, aCheck{`"esdt": "*"`, anyValue}, aCheck{"", func(x interface{}) bool { return nothing(x.(two)[0]) && nothing(x.(two)[1]) }})
	return []aspect{instances, others, which}
}

func accountAspects() []aspect {
	addr := "0x" + strings.Repeat("6f", 32)
	out := []aspect{
		valueAspect("nonce", []string{"5", "18446744073709551615"}, "0", map[string]string{"0x05": "5", "": "0"}, false),
		valueAspect("balance", []string{"5", "340282366920938463463374607431768211456"}, "0", map[string]string{"0x05": "5", "": "0"}, false),
		valueAspect("username", []string{"str:me", "str:you"}, "", map[string]string{"0x6d65": "str:me"}, false),
		valueAspect("owner", []string{addr, "address:other"}, "", map[string]string{"str:" + strings.Repeat("o", 32): addr}, true),
		valueAspect("asyncCallData", []string{"f@01", "f@02"}, "", nil, true),
	}
	// the call data is given as text in a state and as an expression in a condition
	async := &out[len(out)-1]
	for i := range async.checks {
		async.checks[i].js = strings.ReplaceAll(async.checks[i].js, `"f@`, `"str:f@`)
	}
	out = append(out, storageAspect())
	return append(out, tokenAspects()...)
}

// codeAspect is for accounts of contracts, which must have some code.
func codeAspect() aspect {
	a := aspect{name: "code"}
	for _, v := range []string{"0x01", "0x0102", ""} {
		v := v
		if v != "" {
			a.states = append(a.states, aState{`"code": ` + q(v), v})
		}
		a.checks = append(a.checks, aCheck{`"code": ` + q(v), func(x interface{}) bool { return x.(string) == v }})
	}
	a.checks = append(a.checks, aCheck{`"code": "*"`, anyValue}, aCheck{"", func(x interface{}) bool { return x.(string) == "" }})
	return a
}

// executors are made once for each case.
func newExecutor() *am.ArwenTestExecutor {
	ex, err := am.NewArwenTestExecutor()
	if err != nil {
		panic(err)
	}
	return ex
}

func readScenario(t *core.T, js string) *mj.Scenario {
	s, err := scenarioParser().ParseScenarioFile([]byte(js))
	if err != nil {
		t.Failf("the scenario %s is refused: %v", js, err)
		return nil
	}
	return s
}

// verdict executes a scenario and tells whether it passed.
func verdict(t *core.T, ex *am.ArwenTestExecutor, js string, want bool) {
	t.Exec(1)
	ex.World.Clear()
	s := readScenario(t, js)
	if s == nil {
		return
	}
	err := ex.ExecuteScenario(s, exprFiles)
	if want {
		t.Outcome("passes")
		if err != nil {
			t.Failf("the scenario %s fails: %v", js, err)
		}
	} else {
		t.Outcome("fails")
		if err == nil {
			t.Failf("the scenario %s passes although a condition does not hold", js)
		}
	}
}

func stateScenario(state, check string) string {
	return `{"gasSchedule": "dummy", "steps": [{"step": "setState", "accounts": {` + state + `}}, {"step": "checkState", "accounts": {` + check + `}}]}`
}

func runC43(c *core.Ctx) {
	aspects := accountAspects()
	acct := func(name string, parts ...string) string { return q(name) + ": {" + commaJoin(parts...) + "}" }
	const who = "address:one"
	// each aspect alone
	single := func(a aspect, who string) {
		per := 1
		if len(a.checks) < 20 {
			per = 10
		}
		for lo := 0; lo < len(a.states); lo += per {
			lo := lo
			c.Case(func() string { return fmt.Sprintf("%s: %s and more against every condition", a.name, a.states[lo].js) }, func(t *core.T) {
				ex := newExecutor()
				for i := lo; i < lo+per && i < len(a.states); i++ {
					for _, k := range a.checks {
						verdict(t, ex, stateScenario(acct(who, a.states[i].js), acct(who, k.js)), k.ok(a.states[i].val))
					}
				}
			})
		}
	}
	for _, a := range aspects {
		a := a
		single(a, who)
	}
	single(codeAspect(), "sc:one")
	// pairs of aspects, on one account and on two
	few := func(n, most int) []int {
		if n > most {
			var out []int
			for i := 0; i < most; i++ {
				out = append(out, i*n/most)
			}
			return out
		}
		var out []int
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	ns, nc := 7, 15
	if c.Thorough {
		ns, nc = 12, 30
	}
	for i := range aspects {
		for j := range aspects {
			a, b := aspects[i], aspects[j]
			if i == j || (strings.HasPrefix(a.name, "tok") && strings.HasPrefix(b.name, "tok")) {
				continue
			}
			i, j := i, j
			c.Case(func() string { return fmt.Sprintf("%s with %s", a.name, b.name) }, func(t *core.T) {
				ex := newExecutor()
				for _, sa := range few(len(a.states), ns) {
					for _, sb := range few(len(b.states), ns) {
						for _, ca := range few(len(a.checks), nc) {
							for _, cb := range few(len(b.checks), nc) {
								x, y, p, r := a.states[sa], b.states[sb], a.checks[ca], b.checks[cb]
								if i < j {
									verdict(t, ex, stateScenario(acct(who, x.js, y.js), acct(who, r.js, p.js)), p.ok(x.val) && r.ok(y.val))
								} else {
									verdict(t, ex, stateScenario(acct(who, x.js)+", "+acct("address:two", y.js), acct("address:two", r.js)+", "+acct(who, p.js)), p.ok(x.val) && r.ok(y.val))
								}
							}
						}
					}
				}
			})
		}
	}
	// everything is right but one thing
	c.Case(func() string { return "complete conditions" }, func(t *core.T) {
		ex := newExecutor()
		use := []aspect{}
		for _, a := range aspects {
			if !strings.HasPrefix(a.name, "token ") && a.name != "token" {
				use = append(use, a)
			}
		}
		for round := 0; round < 12; round++ {
			var set, match []string
			var sts []aState
			for k, a := range use {
				st := a.states[(round*(k+1)+k)%len(a.states)]
				sts = append(sts, st)
				set = append(set, st.js)
				found := ""
				for m := range a.checks {
					ck := a.checks[(m+round*5)%len(a.checks)]
					if ck.ok(st.val) {
						found = ck.js
						break
					}
				}
				match = append(match, found)
			}
			verdict(t, ex, stateScenario(acct(who, set...), acct(who, match...)), true)
			for k, a := range use {
				for _, ck := range a.checks {
					if !ck.ok(sts[k].val) {
						wrong := append([]string{}, match...)
						wrong[k] = ck.js
						verdict(t, ex, stateScenario(acct(who, set...), acct(who, wrong...)), false)
					}
				}
			}
		}
	})
	// which accounts there are
	c.Case(func() string { return "sets of accounts" }, func(t *core.T) {
		ex := newExecutor()
		names := []string{"address:one", "address:two", "address:three"}
		for have := 0; have < 8; have++ {
			for want := 0; want < 8; want++ {
				for _, more := range []bool{false, true} {
					var set, check []string
					ok := true
					for i, n := range names {
						h, w := have>>uint(i)&1 == 1, want>>uint(i)&1 == 1
						if h {
							set = append(set, acct(n))
						}
						if w {
							check = append(check, acct(n))
						}
						if w && !h || h && !w && !more {
							ok = false
						}
					}
					if more {
						check = append(check, `"+": ""`)
						if want == 5 {
							check = append(check[1:], check[0])
						}
					}
					verdict(t, ex, stateScenario(strings.Join(set, ", "), strings.Join(check, ", ")), ok)
				}
			}
		}
	})
	runExpectations(c)
}

// produced is what a call of a contract produces.
type produced struct {
	out  []string // hex
	logs []entry
	fail string // message of the failure, if any
	mess bool   // the end is not reached
}

func (p produced) code() []byte {
	m := wb.New()
	m.Fn("f", func(f *wb.F) {
		for _, o := range p.out {
			f.Finish([]byte(o))
		}
		for _, l := range p.logs {
			var lens []byte
			for _, tp := range l.topics {
				lens = append(lens, byte(len(tp)), 0, 0, 0)
			}
			f.Do("writeEventLog", wb.I(int32(len(l.topics))), wb.P(lens), wb.S(strings.Join(l.topics, "")), wb.S(l.data), wb.I(int32(len(l.data))))
		}
		if p.mess {
			f.Unreachable()
		}
		if p.fail != "" {
			f.Do("signalError", wb.S(p.fail), wb.I(int32(len(p.fail))))
		}
	})
	return m.Bytes()
}

// cond is a condition on one field of a result.
type cond struct {
	js string
	ok func(o *vmcommon.VMOutput) bool
}

func valueConds(name string, vals []string, get func(o *vmcommon.VMOutput) string, empty string, missing bool) []cond {
	var out []cond
	for _, v := range append(vals, empty) {
		v := v
		out = append(out, cond{q(name) + ": " + q(v), func(o *vmcommon.VMOutput) bool { return get(o) == v }})
	}
	return append(out, cond{q(name) + `: "*"`, func(*vmcommon.VMOutput) bool { return true }},
		cond{"", func(o *vmcommon.VMOutput) bool { return missing || get(o) == empty }})
}

func runExpectations(c *core.Ctx) {
	hexOf := func(b []byte) string {
		if len(b) == 0 {
			return ""
		}
		return fmt.Sprintf("0x%x", b)
	}
	var prods []produced
	outs := [][]string{nil, {"a"}, {""}, {"a", "b"}, {"b", "a"}, {"a", "", "b"}}
	for _, o := range outs {
		prods = append(prods, produced{out: o})
	}
	for _, f := range []string{"wrong", "user error"} {
		prods = append(prods, produced{fail: f}, produced{out: outs[1], fail: f})
	}
	prods = append(prods, produced{mess: true})
	ls := []entry{{topics: []string{"ident"}, data: ""}, {topics: []string{"ident"}, data: "d"}, {topics: []string{"ident", "t1"}, data: ""}, {topics: []string{"ident", "t1", "t2"}, data: "d"}, {topics: []string{"other", "t2", "t1"}, data: "e"}}
	for i := range ls {
		prods = append(prods, produced{logs: ls[i : i+1]})
		for j := range ls {
			prods = append(prods, produced{logs: []entry{ls[i], ls[j]}})
		}
	}
	// conditions
	var conds [][]cond
	outText := func(o *vmcommon.VMOutput) []string {
		var s []string
		for _, d := range o.ReturnData {
			s = append(s, hexOf(d))
		}
		return s
	}
	var co []cond
	for _, ws := range [][]string{{}, {"0x61"}, {""}, {"*"}, {"0x61", "0x62"}, {"0x62", "0x61"}, {"0x61", "*"}, {"*", "*"}, {"0x61", "", "0x62"}, {"*", "", "*"}, {"0x6161"}} {
		ws := ws
		js := `"out": []`
		if len(ws) > 0 {
			js = `"out": ["` + strings.Join(ws, `", "`) + `"]`
		}
		ok := func(o *vmcommon.VMOutput) bool {
			got := outText(o)
			if len(got) != len(ws) {
				return false
			}
			for i := range ws {
				if ws[i] != "*" && ws[i] != got[i] {
					return false
				}
			}
			return true
		}
		co = append(co, cond{js, ok})
		if len(ws) == 0 {
			co = append(co, cond{"", ok})
		}
	}
	conds = append(conds, co)
	var codes []string
	for k := 0; k < 12; k++ {
		codes = append(codes, fmt.Sprint(k))
	}
	conds = append(conds, valueConds("status", codes[1:], func(o *vmcommon.VMOutput) string { return fmt.Sprint(int(o.ReturnCode)) }, "0", false))
	conds = append(conds, valueConds("message", []string{"0x77726f6e67", "0x75736572206572726f72", "0x77726f6e6720", "0x657865637574696f6e206661696c6564"}, func(o *vmcommon.VMOutput) string { return hexOf([]byte(o.ReturnMessage)) }, "", false))
	var gas []cond
	for _, d := range []int64{-1, 0, 1} {
		d := d
		gas = append(gas, cond{fmt.Sprintf("gas%d", d), func(o *vmcommon.VMOutput) bool { return d == 0 }})
	}
	gas = append(gas, cond{`"gas": "*"`, func(*vmcommon.VMOutput) bool { return true }}, cond{"", func(*vmcommon.VMOutput) bool { return true }})
	conds = append(conds, gas)
	conds = append(conds, valueConds("refund", []string{"1", "500"}, func(o *vmcommon.VMOutput) string {
		if o.GasRefund == nil {
			return "0"
		}
		return o.GasRefund.String()
	}, "0", false))
	var cl []cond
	star := func(*vmcommon.VMOutput) bool { return true }
	cl = append(cl, cond{`"logs": "*"`, star}, cond{"", star})
	type logWant struct {
		addr, ident string
		topics      []string
		data        string
	}
	base := func(l entry) logWant { return logWant{"*", l.topics[0], l.topics[1:], l.data} }
	logJS := func(w logWant) string {
		e := func(s string) string {
			if s == "*" || strings.HasPrefix(s, "sc:") {
				return q(s)
			}
			return q(hexOf([]byte(s)))
		}
		var ts []string
		for _, x := range w.topics {
			ts = append(ts, e(x))
		}
		return `{"address": ` + e(w.addr) + `, "identifier": ` + e(w.ident) + `, "topics": [` + strings.Join(ts, ", ") + `], "data": ` + e(w.data) + "}"
	}
	addLogs := func(ws ...logWant) {
		var list []string
		for _, w := range ws {
			list = append(list, logJS(w))
		}
		cl = append(cl, cond{`"logs": [` + strings.Join(list, ", ") + "]", func(o *vmcommon.VMOutput) bool {
			if len(o.Logs) != len(ws) {
				return false
			}
			for i, w := range ws {
				l := o.Logs[i]
				eq := func(want string, got []byte) bool { return want == "*" || want == string(got) }
				if w.addr != "*" && (w.addr != "sc:one") || !eq(w.ident, l.Identifier) || !eq(w.data, l.Data) || len(w.topics) != len(l.Topics) {
					return false
				}
				for k := range w.topics {
					if !eq(w.topics[k], l.Topics[k]) {
						return false
					}
				}
			}
			return true
		}})
	}
	addLogs()
	for _, l := range ls {
		w := base(l)
		addLogs(w)
		for _, change := range []func(w *logWant){func(w *logWant) { w.addr = "sc:one" }, func(w *logWant) { w.addr = "sc:two" }, func(w *logWant) { w.ident = "*" }, func(w *logWant) { w.ident = "iden" }, func(w *logWant) { w.data = "*" }, func(w *logWant) { w.data = "dd" },
			func(w *logWant) { w.topics = append(w.topics[:len(w.topics):len(w.topics)], "*") }, func(w *logWant) { w.topics = append(w.topics[:len(w.topics):len(w.topics)], "t1") }, func(w *logWant) { w.topics = nil }} {
			x := w
			change(&x)
			addLogs(x)
		}
		for _, l2 := range ls {
			addLogs(w, base(l2))
		}
	}
	conds = append(conds, cl)
	scen := func(p produced, step string) string {
		return `{"gasSchedule": "dummy", "steps": [{"step": "setState", "accounts": {"address:user": {"balance": "1,000"}, "sc:one": {"code": "0x` + fmt.Sprintf("%x", p.code()) + `"}}}, ` + step + "]}"
	}
	call := func(expect string) string {
		return `{"step": "scCall", "txId": "1", "tx": {"from": "address:user", "to": "sc:one", "function": "f", "gasLimit": "100000", "gasPrice": "0"}` + expect + "}"
	}
	for _, p := range prods {
		p := p
		c.Case(func() string {
			return fmt.Sprintf("a call producing %q, logs %v, failing with %q", p.out, p.logs, p.fail)
		}, func(t *core.T) {
			ex := newExecutor()
			// what really happens
			s := readScenario(t, scen(p, call("")))
			if s == nil {
				return
			}
			if err := ex.ExecuteScenario(&mj.Scenario{GasSchedule: s.GasSchedule, CheckGas: true, Steps: s.Steps[:1]}, exprFiles); err != nil {
				t.Failf("the state cannot be set: %v", err)
				return
			}
			real, err := ex.ExecuteTxStep(s.Steps[1].(*mj.TxStep))
			if err != nil {
				t.Failf("the call cannot be made: %v", err)
				return
			}
			if ok := real.ReturnCode == vmcommon.Ok; ok != (p.fail == "" && !p.mess) {
				t.Failf("the call gives %v %q", real.ReturnCode, real.ReturnMessage)
			}
			text := func(k cond) string {
				if strings.HasPrefix(k.js, "gas") {
					var d int64
					fmt.Sscanf(k.js, "gas%d", &d)
					g := new(big.Int).SetUint64(real.GasRemaining)
					if g.Add(g, big.NewInt(d)).Sign() < 0 {
						g.SetInt64(777)
					}
					return `"gas": ` + q(g.String())
				}
				return k.js
			}
			matching := make([]cond, len(conds))
			for i, ks := range conds {
				found := false
				for _, k := range ks {
					if k.ok(real) && (!found || k.js != "" && !strings.Contains(k.js, "*") && (matching[i].js == "" || strings.Contains(matching[i].js, "*"))) {
						matching[i], found = k, true
					}
				}
				if !found {
					t.Failf("no condition describes the result of the call: %+v", real)
					return
				}
			}
			try := func(sel []cond, reverse bool) {
				ok := true
				var parts []string
				for _, k := range sel {
					ok = ok && k.ok(real)
					parts = append(parts, text(k))
				}
				if reverse {
					for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
						parts[i], parts[j] = parts[j], parts[i]
					}
				}
				verdict(t, ex, scen(p, call(`, "expect": {`+commaJoin(parts...)+"}")), ok)
			}
			try(matching, false)
			for i, ks := range conds {
				for n, k := range ks {
					sel := append([]cond{}, matching...)
					sel[i] = k
					try(sel, n%2 == 1)
					if n%4 == 0 { // and another condition
						j := (i + 1 + n/4) % len(conds)
						if j != i {
							sel[j] = conds[j][(n/4*3)%len(conds[j])]
							try(sel, false)
						}
					}
				}
			}
			// gas is only checked if the scenario says so
			wrong := append([]cond{}, matching...)
			wrong[3] = gas[0]
			for _, flag := range []bool{false, true} {
				var parts []string
				for _, k := range wrong {
					parts = append(parts, text(k))
				}
				js := strings.Replace(scen(p, call(`, "expect": {`+commaJoin(parts...)+"}")), `{"gasSchedule"`, fmt.Sprintf(`{"checkGas": %v, "gasSchedule"`, flag), 1)
				verdict(t, ex, js, !flag)
			}
		})
	}
}
