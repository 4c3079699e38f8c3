package checks

import (
	"encoding/binary"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

func init() {
	if dir := os.Getenv("VMC_CHILD"); dir != "" {
		os.Exit(childMain(dir))
	}
	core.Register(&core.Check{ID: "C34", Level: "model_checking", Rule: "The driver runs sequences of requests with a real child process which dies or stops answering at every crash point: before, inside and after every message in either direction. Every request must yield what the VM yields without a process in between, or a critical error, and the requests after it must work; " +
		"and all pairs of requests are issued concurrently while the first one is inside a hook call.",
		Assumptions: []string{"the child is the Arwen part of the repository in a process of the harness, because cmd/arwen cannot receive built-in functions", "crash points in the middle of a message are its first, fourth, eighth, middle and last byte (thorough: 40 per message)"}, Run: runC34})
}

// ---- the child

// childMain is the Arwen process. It dies as planned in dir.
func childMain(dir string) int {
	gens, err := os.OpenFile(filepath.Join(dir, "gens"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600)
	if err != nil {
		return 90
	}
	_, _ = gens.Write([]byte("x"))
	st, _ := gens.Stat()
	gen := int(st.Size()) - 1
	in, out := os.NewFile(4, "in"), os.NewFile(5, "out")
	args, err := common.GetArwenArguments(os.NewFile(3, "init"))
	if err != nil {
		return 91
	}
	plan, _ := ioutil.ReadFile(filepath.Join(dir, "plan"))
	var at, limit int
	var what, side string
	_, _ = fmt.Sscanf(string(plan), "%d %s %s %d", &at, &what, &side, &limit)
	if at != gen {
		what = ""
	}
	if what == "start" {
		return 92
	}
	ar, pw := pipe()
	pr, aw := pipe()
	end := func() {
		if what == "hang" {
			select {}
		}
		_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	}
	pump := func(name string, src, dst *os.File) {
		var rec *os.File
		if what == "record" {
			rec, _ = os.Create(filepath.Join(dir, name))
		}
		buf := make([]byte, 1<<16)
		n := 0
		for {
			size := len(buf)
			if what != "" && what != "record" && side == name {
				if n >= limit {
					end()
				}
				if size > limit-n {
					size = limit - n
				}
			}
			k, err := src.Read(buf[:size])
			n += k
			if rec != nil {
				_, _ = rec.Write(buf[:k])
			}
			if _, e := dst.Write(buf[:k]); e != nil || err != nil {
				os.Exit(0)
			}
		}
	}
	go pump("in", in, pw)
	go pump("out", pr, out)
	p := args.VMHostParameters
	p.BuiltInFuncContainer = vmx.Params(world.New(), vmx.Opt{}).BuiltInFuncContainer
	part, err := arwenpart.NewArwenPart("version 7", ar, aw, &p, marshaling.CreateMarshalizer(args.MessagesMarshalizer))
	if err != nil {
		return 93
	}
	_ = part.StartLoop()
	return 94
}

// ---- the node

type driverRun struct {
	t      *core.T
	dir    string
	w, d   *world.World
	drv    *nodepart.ArwenDriver
	direct arwen.VMHost
	limit  int
	errs   int
	slow   int
	hook   vmcommon.BlockchainHook
}

var driverContract = func() []byte {
	m := wb.New()
	m.Fn("init", func(f *wb.F) { f.Do("finish", wb.S("init"), wb.I(4)) })
	m.Fn("f", func(f *wb.F) {
		f.Do("finish", wb.S("done"), wb.I(4))
		f.Do("storageStore", wb.S("k"), wb.I(1), wb.S("v"), wb.I(1))
		f.Do("finish", wb.I(256), wb.Call("storageLoad", wb.S("other"), wb.I(5), wb.I(256)))
	})
	return m.Bytes()
}()

func newDriverRun(t *core.T, mk marshaling.MarshalizerKind, plan string, limit int, hook func(w *world.World) vmcommon.BlockchainHook) (*driverRun, error) {
	dir, err := ioutil.TempDir("", "vmc-driver")
	if err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(filepath.Join(dir, "plan"), []byte(plan), 0600); err != nil {
		panic(err)
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	_ = os.Setenv(common.EnvVarArwenPath, exe)
	_ = os.Setenv("VMC_CHILD", dir)
	mkWorld := func() *world.World {
		w := world.New()
		w.Add(script.User, 1000)
		w.AddContract(script.A, 50, driverContract, script.User)
		w.Accounts[string(script.A)].Storage["other"] = []byte("other value")
		return w
	}
	r := &driverRun{t: t, dir: dir, w: mkWorld(), d: mkWorld(), limit: limit}
	r.direct = vmx.MustHost(r.d, vmx.Opt{})
	r.hook = r.w
	if hook != nil {
		r.hook = hook(r.w)
	}
	p := *vmx.Params(r.w, vmx.Opt{})
	p.BuiltInFuncContainer = nil
	r.drv, err = nodepart.NewArwenDriver(r.hook, common.ArwenArguments{VMHostParameters: p, MessagesMarshalizer: mk, LogsMarshalizer: mk}, nodepart.Config{MaxLoopTime: limit})
	return r, err
}

func (r *driverRun) close() {
	if r.drv != nil {
		_ = r.drv.Close()
	}
	_ = os.RemoveAll(r.dir)
	_ = os.Unsetenv("VMC_CHILD")
}

// gens is how many processes there were.
func (r *driverRun) gens() int {
	st, err := os.Stat(filepath.Join(r.dir, "gens"))
	if err != nil {
		return 0
	}
	return int(st.Size())
}

var expensiveGas = func() config.GasScheduleMap {
	g := vmx.FlatGas()
	g["BaseOperationCost"]["CompilePerByte"] = 3
	g["ElrondAPICost"]["Finish"] = 50
	return g
}()

// do runs a request and says what is wrong. Critical errors are counted.
func (r *driverRun) do(req string) string {
	type res struct {
		got  string
		crit bool
		out  *vmcommon.VMOutput
		err  error
	}
	done := make(chan res, 1)
	big := append([]byte("not code"), make([]byte, 150000)...)
	callIn := vmx.Call(script.User, script.A, "f", 3, 1<<30)
	createIn := vmx.Create(script.User, driverContract, []byte{5, 6}, 7, 1<<30, []byte{0xff}, nil)
	bigIn := vmx.Create(script.User, big, []byte{5, 6}, 7, 1<<30)
	start := time.Now()
	go func() {
		var x res
		switch req {
		case "version":
			x.got = r.drv.GetVersion()
			x.crit = x.got == ""
		case "gas":
			r.drv.GasScheduleChange(expensiveGas)
		case "cheap":
			r.drv.GasScheduleChange(vmx.FlatGas())
		case "wait":
			x.err = r.drv.DiagnoseWait(1)
			x.crit = x.err != nil
		case "call":
			x.out, x.err = r.drv.RunSmartContractCall(callIn)
		case "create":
			x.out, x.err = r.drv.RunSmartContractCreate(createIn)
		case "big":
			x.out, x.err = r.drv.RunSmartContractCreate(bigIn)
		}
		if x.err != nil {
			x.crit = true
			if !common.IsCriticalError(x.err) {
				x.got = "error " + x.err.Error()
			}
		}
		done <- x
	}()
	var x res
	select {
	case x = <-done:
	case <-time.After(time.Duration(r.limit)*time.Millisecond + 20*time.Second):
		return "does not return"
	}
	r.t.Trans(1)
	if time.Since(start) >= time.Duration(r.limit)*time.Millisecond {
		r.slow++
	}
	if x.crit {
		r.errs++
		if x.got != "" {
			return "neither an output nor a critical error: " + x.got
		}
		return ""
	}
	want := ""
	switch req {
	case "version":
		want = "version 7"
	case "call", "create", "big":
		var in interface{} = callIn
		if req == "create" {
			in = createIn
		} else if req == "big" {
			in = bigIn
		}
		var out *vmcommon.VMOutput
		var err error
		if ci, ok := in.(*vmcommon.ContractCallInput); ok {
			out, err = r.direct.RunSmartContractCall(ci)
		} else {
			out, err = r.direct.RunSmartContractCreate(in.(*vmcommon.ContractCreateInput))
		}
		want, x.got = vmx.Canon(out, err), vmx.Canon(x.out, x.err)
		if err == nil && x.out != nil {
			_ = r.d.Apply(out)
			_ = r.w.Apply(x.out)
			r.d.Commit()
			r.w.Commit()
		}
	}
	if x.got != want {
		return fmt.Sprintf("yields\n%s\nexpected\n%s", x.got, want)
	}
	return ""
}

// gas keeps the direct VM in step; the driver remembers a schedule even if its process dies.
func (r *driverRun) step(req string) string {
	switch req {
	case "gas":
		r.direct.GasScheduleChange(expensiveGas)
	case "cheap":
		r.direct.GasScheduleChange(vmx.FlatGas())
	}
	return r.do(req)
}

var driverHistories = [][]string{
	{"call", "gas", "call", "version", "big", "cheap", "call"},
	{"create", "big", "wait", "gas", "create", "version"},
}

func runC34(c *core.Ctx) {
	for hi := range driverHistories {
		for mi := range marshalizers {
			for _, how := range []string{"kill", "hang"} {
				for _, side := range []string{"in", "out"} {
					const blocks = 8
					for b := 0; b < blocks; b++ {
						hi, mi, how, side, b := hi, mi, how, side, b
						c.Case(func() string {
							return fmt.Sprintf("%v with %s: %s at every point of what comes %s, part %d", driverHistories[hi], marshalizerNames[mi], how, side, b)
						}, func(t *core.T) {
							crashes(t, c.Thorough, driverHistories[hi], marshalizers[mi], how, side, b, blocks)
						})
					}
				}
			}
		}
	}
	c.Case(func() string { return "processes which die at the start" }, func(t *core.T) {
		for g := 0; g < 3; g++ {
			r, err := newDriverRun(t, marshaling.JSON, fmt.Sprintf("%d start x 0", g), 5000, nil)
			if err != nil {
				t.Failf("no driver: %v", err)
				r.close()
				return
			}
			for i, q := range driverHistories[0] {
				if g > 0 && i == 2 {
					kill(r)
				}
				if bad := r.step(q); bad != "" {
					t.Failf("start %d fails: request %d %s %s", g, i, q, bad)
					r.close()
					return
				}
			}
			if want := []int{1, 2, 1}[g]; r.errs > want {
				t.Failf("start %d fails: %d critical errors, expected at most %d", g, r.errs, want)
			}
			t.Exec(1)
			r.close()
		}
	})
	c.Case(func() string { return "processes killed between requests" }, func(t *core.T) {
		h := []string{"call", "big", "gas", "version", "create", "wait", "call", "big"}
		for mask := 0; mask < 1<<len(h); mask += 1 {
			if n := popcount(mask); n > 2 {
				continue
			}
			r, err := newDriverRun(t, marshaling.JSON, "", 5000, nil)
			if err != nil {
				t.Failf("no driver: %v", err)
				return
			}
			for i, q := range h {
				if mask&(1<<i) != 0 {
					kill(r)
				}
				if bad := r.step(q); bad != "" {
					t.Failf("killed before requests %b: request %d %s %s", mask, i, q, bad)
					return
				}
			}
			if r.errs > popcount(mask)+r.slow {
				t.Failf("killed before requests %b: %d critical errors", mask, r.errs)
				return
			}
			t.Exec(1)
			r.close()
		}
	})
	concurrent(c)
}

func popcount(m int) (n int) {
	for ; m != 0; m &= m - 1 {
		n++
	}
	return
}

// kill ends the child of this process, as a crash would.
func kill(r *driverRun) {
	for _, pid := range children() {
		_ = syscall.Kill(pid, syscall.SIGKILL)
		for i := 0; i < 2000 && !zombie(pid); i++ {
			time.Sleep(time.Millisecond)
		}
	}
}

func stat(pid int) []string {
	b, err := ioutil.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return nil
	}
	s := string(b)
	return strings.Fields(s[strings.LastIndex(s, ")")+1:])
}

func zombie(pid int) bool {
	f := stat(pid)
	return len(f) == 0 || f[0] == "Z"
}

// children is the children of this process.
func children() (out []int) {
	ds, _ := ioutil.ReadDir("/proc")
	for _, d := range ds {
		var pid int
		if _, err := fmt.Sscanf(d.Name(), "%d", &pid); err != nil {
			continue
		}
		if f := stat(pid); len(f) > 1 && f[1] == fmt.Sprint(os.Getpid()) {
			out = append(out, pid)
		}
	}
	return out
}

// crashPoints is the bytes of a stream at which to stop.
func crashPoints(stream []byte, thorough bool) []int {
	seen := map[int]bool{}
	var out []int
	add := func(n int) {
		if n >= 0 && n <= len(stream) && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for at := 0; at+8 <= len(stream); {
		n := int(binary.LittleEndian.Uint32(stream[at:])) + 8
		for _, k := range []int{0, 1, 4, 8, 8 + (n-8)/2, n - 1} {
			add(at + k)
		}
		if thorough {
			for k := 0; k < 40; k++ {
				add(at + n*k/40)
			}
		}
		at += n
	}
	add(len(stream))
	return out
}

func crashes(t *core.T, thorough bool, history []string, mk marshaling.MarshalizerKind, how, side string, block, blocks int) {
	r, err := newDriverRun(t, mk, "0 record x 0", 60000, nil)
	if err != nil {
		t.Failf("no driver: %v", err)
		return
	}
	for i, q := range history {
		if bad := r.step(q); bad != "" || r.errs > 0 {
			t.Failf("without a crash: request %d %s: %d critical errors %s", i, q, r.errs, bad)
			r.close()
			return
		}
	}
	if n := r.gens(); n != 1 {
		t.Failf("without a crash: %d processes", n)
	}
	stream, err := ioutil.ReadFile(filepath.Join(r.dir, side))
	if err != nil {
		panic(err)
	}
	r.close()
	limit := 10000
	if how == "hang" {
		limit = 400
	}
	for i, p := range crashPoints(stream, thorough && how == "kill") {
		if i%blocks != block {
			continue
		}
		if how == "hang" && !thorough && i%4 != block%4 {
			continue
		}
		r, err := newDriverRun(t, mk, fmt.Sprintf("0 %s %s %d", how, side, p), limit, nil)
		if err != nil {
			t.Failf("no driver: %v", err)
			return
		}
		for j, q := range append(append([]string{}, history...), "version", "call") {
			if bad := r.step(q); bad != "" {
				t.Failf("%s after %d bytes %s: request %d %s %s", how, p, side, j, q, bad)
				if bad != "does not return" {
					r.close()
				}
				return
			}
		}
		allowed := 1
		if how == "hang" {
			allowed = r.slow
		}
		if r.errs > allowed || r.gens() > 1+allowed {
			t.Failf("%s after %d bytes %s: %d critical errors, %d processes", how, p, side, r.errs, r.gens())
			r.close()
			return
		}
		t.Exec(1)
		t.State(fmt.Sprintf("%v %d %s %s %d", history, mk, how, side, p))
		t.Outcome(fmt.Sprint(r.errs, r.gens()))
		r.close()
		if left := children(); len(left) > 0 {
			t.Failf("%s after %d bytes %s: a process is left behind", how, p, side)
			return
		}
	}
}

// gate is a hook which waits inside the first call of a function.
type gate struct {
	*world.World
	once    sync.Once
	entered chan bool
	leave   chan bool
}

func (g *gate) wait() {
	g.once.Do(func() {
		g.entered <- true
		<-g.leave
	})
}

func (g *gate) GetUserAccount(a []byte) (vmcommon.UserAccountHandler, error) {
	g.wait()
	return g.World.GetUserAccount(a)
}

func (g *gate) NewAddress(a []byte, n uint64, v []byte) ([]byte, error) {
	g.wait()
	return g.World.NewAddress(a, n, v)
}

// concurrent issues a request while another one is inside a hook call.
func concurrent(c *core.Ctx) {
	all := []string{"call", "create", "big", "version", "gas", "wait"}
	for mi := range marshalizers {
		for _, first := range []string{"call", "create"} {
			for _, second := range all {
				for _, third := range all {
					mi, first, second, third := mi, first, second, third
					c.Case(func() string {
						return fmt.Sprintf("%s and %s while %s is inside a hook call, with %s", second, third, first, marshalizerNames[mi])
					}, func(t *core.T) {
						var g *gate
						r, err := newDriverRun(t, marshalizers[mi], "", 20000, func(w *world.World) vmcommon.BlockchainHook {
							g = &gate{World: w, entered: make(chan bool, 1), leave: make(chan bool)}
							return g
						})
						if err != nil {
							t.Failf("no driver: %v", err)
							return
						}
						defer r.close()
						type ans struct {
							req, got string
						}
						got := make(chan ans, 3)
						ask := func(req string) {
							a := ans{req: req}
							switch req {
							case "call":
								o, e := r.drv.RunSmartContractCall(vmx.Call(script.User, script.A, "f", 3, 1<<30))
								a.got = vmx.Canon(o, e)
							case "create":
								o, e := r.drv.RunSmartContractCreate(vmx.Create(script.User, driverContract, []byte{5, 6}, 7, 1<<30))
								a.got = vmx.Canon(o, e)
							case "big":
								o, e := r.drv.RunSmartContractCreate(vmx.Create(script.User, append([]byte("not code"), make([]byte, 150000)...), []byte{5, 6}, 7, 1<<30))
								a.got = vmx.Canon(o, e)
							case "version":
								a.got = r.drv.GetVersion()
							case "gas":
								r.drv.GasScheduleChange(vmx.FlatGas())
							case "wait":
								a.got = fmt.Sprint(r.drv.DiagnoseWait(1))
							}
							got <- a
						}
						go ask(first)
						select {
						case <-g.entered:
						case <-time.After(20 * time.Second):
							t.Failf("the first request does not ask the hook")
							return
						}
						go ask(second)
						go ask(third)
						time.Sleep(20 * time.Millisecond)
						g.leave <- true
						want := map[string]string{"version": "version 7", "gas": "", "wait": "<nil>"}
						o, e := r.direct.RunSmartContractCall(vmx.Call(script.User, script.A, "f", 3, 1<<30))
						want["call"] = vmx.Canon(o, e)
						o, e = r.direct.RunSmartContractCreate(vmx.Create(script.User, driverContract, []byte{5, 6}, 7, 1<<30))
						want["create"] = vmx.Canon(o, e)
						o, e = r.direct.RunSmartContractCreate(vmx.Create(script.User, append([]byte("not code"), make([]byte, 150000)...), []byte{5, 6}, 7, 1<<30))
						want["big"] = vmx.Canon(o, e)
						for i := 0; i < 3; i++ {
							select {
							case a := <-got:
								if a.got != want[a.req] {
									t.Failf("%s yields\n%s\nexpected\n%s", a.req, a.got, want[a.req])
									return
								}
							case <-time.After(45 * time.Second):
								t.Failf("a request does not return")
								return
							}
						}
						t.Exec(1)
						t.Trans(3)
						if r.gens() != 1 {
							t.Failf("%d processes", r.gens())
						}
					})
				}
			}
		}
	}
}
