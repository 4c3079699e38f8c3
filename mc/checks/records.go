package checks

import (
	"fmt"
	"strings"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

func init() {
	core.Register(&core.Check{ID: "C22", Level: "model_checking", Rule: "Every sequence of 3 (thorough: 4) results and log entries of an alphabet over numbers and lengths of topics, data and results is executed in one frame and with its middle in a nested call of 6 kinds, or of one that fails; " +
		"the memory they came from is overwritten afterwards, and all results so far are read back by the contract. The oracle is the list of what was written.",
		Assumptions: []string{"lengths outside the alphabet behave like those in it"}, Run: runC22})
}

// entry is one result (topics nil, log false) or log entry.
type entry struct {
	log    bool
	topics []string
	data   string
	addr   string
}

func (e entry) String() string {
	if !e.log {
		return fmt.Sprintf("result %x", e.data)
	}
	return fmt.Sprintf("log of %s %x data %x", script.Nick([]byte(e.addr)), e.topics, e.data)
}

type recOp struct {
	name string
	e    []entry // what it leaves
	emit func(p *pad)
}

// pad gives every operation memory of its own, which is overwritten afterwards.
type pad struct {
	*wb.F
	next *int32
	used [][2]int32
}

func (p *pad) bytes(b string) wb.E {
	at := *p.next
	n := int32(len(b)+7) / 8 * 8
	*p.next += n + 8
	p.M().Place(at, []byte(b))
	p.used = append(p.used, [2]int32{at, n})
	return wb.I(at)
}

func (p *pad) scribble() {
	for _, u := range p.used {
		for i := int32(0); i < u[1]; i += 8 {
			p.Store64(wb.I(u[0]+i), wb.L(0x2323232323232323))
		}
	}
	p.used = nil
}

func recOps(fine bool) []recOp {
	var out []recOp
	long := strings.Repeat("L", 33)
	results := []string{"", "x", long}
	datas := []string{"", "d", long}
	topics := [][]string{nil, {""}, {"id"}, {"id", "", "tt"}, {"", long}, {"a", "b", "c", "d", "e"}}
	if !fine {
		results, datas, topics = results[1:2], datas[:2], topics[3:4]
	}
	for _, r := range results {
		r := r
		out = append(out, recOp{fmt.Sprintf("finish(%d)", len(r)), []entry{{data: r}}, func(p *pad) { p.Do("finish", p.bytes(r), wb.I(int32(len(r)))) }})
	}
	for _, d := range datas {
		for _, t := range topics {
			d, t := d, t
			out = append(out, recOp{fmt.Sprintf("writeEventLog(%d topics %q,%d)", len(t), t, len(d)), []entry{{log: true, topics: t, data: d}}, func(p *pad) {
				lens := ""
				for _, x := range t {
					lens += le32(len(x))
				}
				p.Do("writeEventLog", wb.I(int32(len(t))), p.bytes(lens), p.bytes(strings.Join(t, "")), p.bytes(d), wb.I(int32(len(d))))
			}})
		}
		for n := 0; n <= 3; n++ {
			if !fine && n != 2 {
				continue
			}
			d, n := d, n
			var t []string
			for i := 0; i < n; i++ {
				t = append(t, strings.Repeat(string(rune('p'+i)), 32))
			}
			out = append(out, recOp{fmt.Sprintf("writeLog(%d topics,%d)", n, len(d)), []entry{{log: true, topics: t, data: d}}, func(p *pad) {
				p.Do("writeLog", p.bytes(d), wb.I(int32(len(d))), p.bytes(strings.Join(t, "")), wb.I(int32(n)))
			}})
		}
	}
	if fine {
		out = append(out, recOp{"int64finish(-2)", []entry{{data: "\xfe"}}, func(p *pad) { p.Do("int64finish", wb.L(-2)) }},
			recOp{"bigIntFinishUnsigned(300)", []entry{{data: "\x01\x2c"}}, func(p *pad) { p.Do("bigIntFinishUnsigned", wb.Call("bigIntNew", wb.L(300))) }})
	}
	return append(out, recOp{"nothing", nil, func(p *pad) {}})
}

type recWay struct {
	name   string
	fn     string // kind of the call of the middle; empty: one frame
	to     []byte
	as     []byte // the address of the log entries of the middle
	fails  bool
	silent bool // entries of the log are dropped
}

func recWays() []recWay {
	return []recWay{
		{name: "one frame"},
		{"executeOnDestContext", "executeOnDestContext", script.B, script.B, false, false},
		{"executeOnDestContext of itself", "executeOnDestContext", script.A, script.A, false, false},
		{"executeOnDestContextByCaller", "executeOnDestContextByCaller", script.B, script.B, false, false},
		{"executeOnSameContext", "executeOnSameContext", script.B, script.B, false, false},
		{"delegateExecution", "delegateExecution", script.B, script.B, false, false},
		{"executeReadOnly", "executeReadOnly", script.B, script.B, false, true},
		{"transferValueExecute", "transferValueExecute", script.B, script.B, false, false},
		{"transferValueExecute which fails", "transferValueExecute", script.B, script.B, true, false},
	}
}

func runC22(c *core.Ctx) {
	ops := recOps(true)
	few := recOps(false)
	ways := recWays()
	for _, o := range ops {
		for wi := range ways {
			o, way := o, ways[wi]
			c.Case(func() string { return fmt.Sprintf("%s first, middle by %s", o.name, way.name) }, func(t *core.T) {
				hc := hostCell{flat: true}
				for _, p := range ops {
					for _, q := range ops {
						if !runRecords(t, &hc, []recOp{o, p, q}, way) {
							return
						}
						if c.Thorough {
							for _, r := range few {
								if !runRecords(t, &hc, []recOp{o, p, r, q}, way) {
									return
								}
							}
						}
					}
				}
			})
		}
	}
}

func runRecords(t *core.T, hc *hostCell, ops []recOp, way recWay) bool {
	ma, mb := wb.New(), wb.New()
	next := int32(16384)
	mid := ops[1 : len(ops)-1]
	put := func(f *wb.F, ops []recOp) {
		for _, o := range ops {
			p := &pad{F: f, next: &next}
			o.emit(p)
			p.scribble()
		}
	}
	var want []entry
	add := func(o recOp, addr []byte, log, result bool) {
		for _, e := range o.e {
			e.addr = string(addr)
			if (e.log && log) || (!e.log && result) {
				want = append(want, e)
			}
		}
	}
	middle := func(m *wb.M) {
		m.Fn("g", func(f *wb.F) {
			put(f, mid)
			if way.fails {
				f.Do("signalError", wb.S("no"), wb.I(2))
			}
		})
	}
	if way.fn != "" {
		if string(way.to) == string(script.A) {
			middle(ma)
		} else {
			middle(mb)
		}
	}
	nth := 0
	readBack := func(f *wb.F) {
		// what getReturnData tells is stored under r<i>
		n := f.Local("i")
		f.Set(n, wb.Call("getNumReturnData"))
		f.Store32(wb.I(512), wb.Get(n))
		f.Do("storageStore", wb.S("n"), wb.I(1), wb.I(512), wb.I(4))
		nth = 0
		for _, e := range want {
			if e.log {
				continue
			}
			k := fmt.Sprintf("r%d", nth)
			f.Store32(wb.I(512), wb.Call("getReturnDataSize", wb.I(int32(nth))))
			f.Do("storageStore", wb.S(k+"size"), wb.I(int32(len(k)+4)), wb.I(512), wb.I(4))
			f.Do("storageStore", wb.S(k), wb.I(int32(len(k))), wb.I(600), wb.Call("getReturnData", wb.I(int32(nth)), wb.I(600)))
			nth++
		}
	}
	ma.Fn("f", func(f *wb.F) {
		put(f, ops[:1])
		add(ops[0], script.A, true, true)
		if way.fn == "" {
			put(f, mid)
		} else {
			f.Do(way.fn, callArgs(way.fn, way.to, "g")...)
		}
		as := way.as
		if as == nil {
			as = script.A
		}
		for _, o := range mid {
			add(o, as, !way.silent && !way.fails, !way.fails)
		}
		readBack(f)
		put(f, ops[len(ops)-1:])
		add(ops[len(ops)-1], script.A, true, true)
	})
	w := world.New()
	w.Add(script.User, 1000)
	w.AddContract(script.A, 10, ma.Bytes(), script.Owner)
	w.AddContract(script.B, 10, mb.Bytes(), script.Owner)
	out, err := hc.use(w).RunSmartContractCall(vmx.Call(script.User, script.A, "f", 0, 1<<50))
	t.Exec(1)
	t.Trans(len(ops))
	what := way.name
	for _, o := range ops {
		what += "; " + o.name
	}
	if err != nil || out.ReturnCode != vmcommon.Ok {
		t.Failf("%s: %v %v", what, out, err)
		return false
	}
	var wantRet, wantLog, gotRet, gotLog []string
	for _, e := range want {
		if e.log {
			wantLog = append(wantLog, e.String())
		} else {
			wantRet = append(wantRet, fmt.Sprintf("%x", e.data))
		}
	}
	for _, r := range out.ReturnData {
		gotRet = append(gotRet, fmt.Sprintf("%x", r))
	}
	for _, l := range out.Logs {
		e := entry{log: true, data: string(l.Data), addr: string(l.Address)}
		if l.Identifier != nil || l.Topics != nil {
			e.topics = append(e.topics, string(l.Identifier))
		}
		for _, x := range l.Topics {
			e.topics = append(e.topics, string(x))
		}
		gotLog = append(gotLog, e.String())
	}
	if fmt.Sprint(gotRet) != fmt.Sprint(wantRet) {
		t.Failf("%s: the results are\n%v\nexpected\n%v", what, gotRet, wantRet)
		return false
	}
	if strings.Join(gotLog, "\n") != strings.Join(wantLog, "\n") {
		t.Failf("%s: the log is\n%s\nexpected\n%s", what, strings.Join(gotLog, "\n"), strings.Join(wantLog, "\n"))
		return false
	}
	// what the contract read back
	upd := out.OutputAccounts[string(script.A)].StorageUpdates
	at := func(k string) string {
		if u := upd[k]; u != nil {
			return string(u.Data)
		}
		return ""
	}
	if at("n") != le32(nth) {
		t.Failf("%s: getNumReturnData yields %x, expected %d", what, at("n"), nth)
		return false
	}
	for i := 0; i < nth; i++ {
		k := fmt.Sprintf("r%d", i)
		if got := fmt.Sprintf("%x", at(k)); got != wantRet[i] || at(k+"size") != le32(len(wantRet[i])/2) {
			t.Failf("%s: getReturnData(%d) yields %s (size %x), expected %s", what, i, got, at(k+"size"), wantRet[i])
			return false
		}
	}
	t.Outcome(fmt.Sprint(gotRet, gotLog))
	return true
}
