// Package core drives exhaustive enumerations: it splits the cases of a check over worker processes, counts what was
// covered, confirms violations by running them again, and writes evidence and replay files.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

// Check is the decision procedure of one property.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Run         func(c *Ctx)
	// Serial checks run in one worker.
	Serial bool
}

var checks = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { checks[c.ID] = c }

// Ctx is handed to a check.
type Ctx struct {
	ID       string
	Thorough bool
	Seed     int64

	worker, workers int
	only            int // only this case (replay), or -1
	next            int
	deadline        time.Time
	res             *result
	journal         *os.File
	known           map[string]bool
	// Gen counts the cases which the generator considered but rejected as equivalent or meaningless.
	Gen int
}

type violation struct {
	Case int
	Desc string
	Msg  string
}

type result struct {
	Cases, Executions, Transitions int64
	Outcomes                       map[uint64]int64
	States                         map[uint64]bool
	OutcomeNames                   map[string]int64
	Samples                        []string
	Violations                     []violation
	Known                          map[string]string
	Counters                       map[string]int64
	Capped                         bool
	TotalCases                     int
}

func newResult() *result {
	return &result{Outcomes: map[uint64]int64{}, States: map[uint64]bool{}, OutcomeNames: map[string]int64{}, Known: map[string]string{}, Counters: map[string]int64{}}
}

// T is one case.
type T struct {
	c      *Ctx
	desc   string
	failed bool
	msgs   []string
	idx    int
}

// Case runs body for the next case of the enumeration, if it belongs to this worker. desc describes it completely.
func (c *Ctx) Case(desc func() string, body func(t *T)) {
	i := c.next
	c.next++
	if c.only >= 0 {
		if i != c.only {
			return
		}
	} else if i%c.workers != c.worker {
		return
	}
	if c.res.Capped {
		return
	}
	if time.Now().After(c.deadline) {
		c.res.Capped = true
		return
	}
	t := &T{c: c, idx: i}
	t.desc = desc()
	if c.journal != nil {
		b := []byte(fmt.Sprintf("%d\n%s\n\x00", i, t.desc))
		_, _ = c.journal.WriteAt(b, 0)
	}
	if c.only >= 0 {
		fmt.Printf("case %d: %s\n", i, t.desc)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.Failf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		body(t)
	}()
	c.res.Cases++
	if len(c.res.Samples) < 3 || (c.res.Cases&(c.res.Cases-1) == 0 && len(c.res.Samples) < 24) {
		c.res.Samples = append(c.res.Samples, fmt.Sprintf("case %d: %s", i, clip(t.desc, 600)))
	}
	if t.failed {
		c.res.Violations = append(c.res.Violations, violation{i, t.desc, strings.Join(t.msgs, "\n")})
		if len(c.res.Violations) >= 3 {
			c.res.Capped = true
		}
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

func clip(s string, n int) string {
	// messages are text
	s = strings.Map(func(r rune) rune {
		if r == '\n' || r == '\t' || (r >= 32 && r != 127 && r != utf8.RuneError) {
			return r
		}
		return '?'
	}, s)
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Mine reports whether cases remain to be run by this worker at all (for costly generators).
func (c *Ctx) Stopped() bool { return c.res.Capped }

// Failf reports a violation.
func (t *T) Failf(f string, a ...interface{}) {
	t.failed = true
	if len(t.msgs) < 5 {
		t.msgs = append(t.msgs, clip(fmt.Sprintf(f, a...), 6000))
	}
	if t.c.only >= 0 {
		fmt.Printf("FAIL %s\n", clip(fmt.Sprintf(f, a...), 20000))
	}
}

// Failed tells whether the case has failed.
func (t *T) Failed() bool { return t.failed }

// Known reports a finding listed in known_findings.txt: it does not fail the case. When it is not listed, it is a violation.
func (t *T) Known(id, f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	if t.c.known[id] {
		if _, ok := t.c.res.Known[id]; !ok {
			t.c.res.Known[id] = clip(msg, 500)
		}
		return
	}
	t.Failf("%s: %s", id, msg)
}

// Exec counts executions of the real code.
func (t *T) Exec(n int) { t.c.res.Executions += int64(n) }

// Trans counts transitions (operations applied).
func (t *T) Trans(n int) { t.c.res.Transitions += int64(n) }

func hash(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return h.Sum64()
}

// State records a canonical state that was reached.
func (t *T) State(s string) {
	if len(t.c.res.States) < 2000000 {
		t.c.res.States[hash(s)] = true
	}
}

// Outcome records a distinct non-trivial observation.
func (t *T) Outcome(s string) {
	if len(t.c.res.Outcomes) < 2000000 {
		t.c.res.Outcomes[hash(s)]++
	}
}

// Class counts cases by a short name (reported in the evidence).
func (t *T) Class(s string) {
	if len(t.c.res.OutcomeNames) < 200 || t.c.res.OutcomeNames[s] > 0 {
		t.c.res.OutcomeNames[s]++
	}
}

// Tracing tells whether the case is being replayed.
func (t *T) Tracing() bool { return t.c.only >= 0 }

// Logf prints during a replay.
func (t *T) Logf(f string, a ...interface{}) {
	if t.c.only >= 0 {
		fmt.Printf(f+"\n", a...)
	}
}

// Count adds to a named counter in the evidence.
func (c *Ctx) Count(name string, n int64) { c.res.Counters[name] += n }

// Count adds to a named counter in the evidence.
func (t *T) Count(name string, n int64) { t.c.res.Counters[name] += n }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func knownFindings(id string) map[string]bool {
	m := map[string]bool{}
	b, err := ioutil.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.Fields(l[len("known: "):])
		if len(f) >= 2 && f[0] == "property="+id && strings.HasPrefix(f[1], "id=") {
			m[f[1][3:]] = true
		}
	}
	return m
}

// Main is the entry point of the check binary.
func Main() {
	args := os.Args[1:]
	if len(args) == 0 {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		os.Exit(2)
	}
	id := args[0]
	ch := checks[id]
	if ch == nil {
		fmt.Fprintf(os.Stderr, "no check %s\n", id)
		os.Exit(2)
	}
	opt := map[string]string{}
	for _, a := range args[1:] {
		kv := strings.SplitN(a, "=", 2)
		if len(kv) == 2 {
			opt[kv[0]] = kv[1]
		} else {
			opt[kv[0]] = "1"
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if opt["tier"] != "" {
		tier = opt["tier"]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	if f := opt["replay"]; f != "" {
		os.Exit(replay(ch, f))
	}
	if opt["case"] != "" || opt["worker"] != "" {
		work(ch, tier, opt)
		return
	}
	os.Exit(parent(ch, tier, opt))
}

func limit(tier string) time.Duration {
	if s := os.Getenv("VERIF_LIMIT"); s != "" {
		n, _ := strconv.Atoi(s)
		return time.Duration(n) * time.Second
	}
	if tier == "thorough" {
		return 3 * time.Hour
	}
	return 420 * time.Second
}

func work(ch *Check, tier string, opt map[string]string) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c := &Ctx{ID: ch.ID, Thorough: tier == "thorough", Seed: seed, workers: 1, only: -1, res: newResult(), known: knownFindings(ch.ID), deadline: time.Now().Add(limit(tier))}
	if s := opt["case"]; s != "" {
		c.only, _ = strconv.Atoi(s)
	}
	if s := opt["worker"]; s != "" {
		_, _ = fmt.Sscanf(s, "%d/%d", &c.worker, &c.workers)
	}
	if s := opt["journal"]; s != "" {
		c.journal, _ = os.Create(s)
	}
	if f := os.Getenv("VMC_PROF"); f != "" {
		pf, _ := os.Create(f)
		_ = pprof.StartCPUProfile(pf)
		defer pprof.StopCPUProfile()
	}
	ch.Run(c)
	c.res.TotalCases = c.next
	b, err := json.Marshal(c.res)
	if err != nil {
		panic(err)
	}
	if o := opt["out"]; o != "" {
		if err := ioutil.WriteFile(o, b, 0644); err != nil {
			panic(err)
		}
	}
	if c.only >= 0 {
		if len(c.res.Violations) > 0 {
			os.Exit(1)
		}
		for id, m := range c.res.Known {
			fmt.Printf("known finding %s: %s\n", id, m)
		}
	}
}

type crash struct {
	idx  int
	desc string
	log  string
	hang bool
}

func parent(ch *Check, tier string, opt map[string]string) int {
	start := time.Now()
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if ch.Serial {
		n = 1
	}
	if opt["j"] != "" {
		n, _ = strconv.Atoi(opt["j"])
	}
	dir, err := ioutil.TempDir("", "vmc")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	total := newResult()
	var crashes []crash
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(dir, fmt.Sprintf("out%d", i))
			jr := filepath.Join(dir, fmt.Sprintf("j%d", i))
			lg := filepath.Join(dir, fmt.Sprintf("log%d", i))
			lf, _ := os.Create(lg)
			cmd := exec.Command(self, ch.ID, "tier="+tier, fmt.Sprintf("worker=%d/%d", i, n), "out="+out, "journal="+jr)
			cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GODEBUG=", "GOMAXPROCS=2", "GOGC=600", "GOMEMLIMIT=1500MiB")
			cmd.Stdout, cmd.Stderr = lf, lf
			if e := cmd.Start(); e != nil {
				panic(e)
			}
			hang := false
			kill := time.AfterFunc(limit(tier)+120*time.Second, func() { hang = true; _ = cmd.Process.Kill() })
			// a single case which does not end is a hang: the journal is watched
			done := make(chan bool)
			go func() {
				last, since := "", time.Now()
				for {
					select {
					case <-done:
						return
					case <-time.After(2 * time.Second):
						b, _ := ioutil.ReadFile(jr)
						if s := string(b); s != last || s == "" {
							last, since = s, time.Now()
						} else if time.Since(since) > 150*time.Second {
							hang = true
							_ = cmd.Process.Kill()
							return
						}
					}
				}
			}()
			e := cmd.Wait()
			close(done)
			kill.Stop()
			lf.Close()
			b, rerr := ioutil.ReadFile(out)
			mu.Lock()
			defer mu.Unlock()
			if e != nil || rerr != nil {
				jb, _ := ioutil.ReadFile(jr)
				s := string(jb)
				if k := strings.IndexByte(s, 0); k >= 0 {
					s = s[:k]
				}
				parts := strings.SplitN(s, "\n", 2)
				idx := -1
				desc := ""
				if len(parts) == 2 {
					idx, _ = strconv.Atoi(parts[0])
					desc = parts[1]
				}
				lb, _ := ioutil.ReadFile(lg)
				crashes = append(crashes, crash{idx, desc, clip(string(lb), 8000), hang})
				return
			}
			r := newResult()
			if e := json.Unmarshal(b, r); e != nil {
				panic(e)
			}
			merge(total, r)
		}(i)
	}
	wg.Wait()
	// confirm violations: each has to fail again, 5 times, in fresh processes
	var confirmed []violation
	flaky := 0
	sort.Slice(total.Violations, func(i, j int) bool { return total.Violations[i].Case < total.Violations[j].Case })
	for _, v := range total.Violations {
		if len(confirmed) >= 1 {
			break
		}
		ok := true
		for k := 0; k < 5 && ok; k++ {
			cmd := exec.Command(self, ch.ID, "tier="+tier, fmt.Sprintf("case=%d", v.Case))
			stuck := false
			t := time.AfterFunc(100*time.Second, func() { stuck = true; _ = cmd.Process.Kill() })
			e := cmd.Run()
			t.Stop()
			if e == nil {
				ok = false
			}
			if stuck {
				break
			}
		}
		if ok {
			confirmed = append(confirmed, v)
		} else {
			flaky++
			fmt.Printf("note: case %d failed once and not again (nondeterministic): %s\n%s\n", v.Case, clip(v.Desc, 300), clip(v.Msg, 1500))
		}
	}
	internal := false
	for _, cr := range crashes {
		if len(confirmed) >= 1 {
			break
		}
		if cr.idx < 0 {
			fmt.Fprintf(os.Stderr, "worker failed before its first case:\n%s\n", cr.log)
			internal = true
			continue
		}
		again := 0
		var lastLog []byte
		for k := 0; k < 3; k++ {
			cmd := exec.Command(self, ch.ID, "tier="+tier, fmt.Sprintf("case=%d", cr.idx))
			cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
			t := time.AfterFunc(120*time.Second, func() { _ = cmd.Process.Kill() })
			b, e := cmd.CombinedOutput()
			t.Stop()
			lastLog = b
			if e != nil {
				again++
			}
			if cr.hang && again > 0 {
				again = 3
				break
			}
		}
		if again == 3 {
			why := "the process died"
			if cr.hang {
				why = "the case does not end"
			}
			confirmed = append(confirmed, violation{cr.idx, cr.desc, why + ":\n" + clip(string(lastLog), 6000)})
		} else {
			fmt.Fprintf(os.Stderr, "note: a worker died at case %d, which does not fail when run alone:\n%s\n", cr.idx, cr.log)
			total.Capped = true
			// the rest of the worker's cases was not run
			flaky++
		}
	}
	for id, m := range total.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", ch.ID, id, strings.Replace(m, "\n", " ", -1))
	}
	exit := 0
	for _, v := range confirmed {
		rp := filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%d.json", ch.ID, v.Case))
		_ = os.MkdirAll(filepath.Dir(rp), 0755)
		b, _ := json.MarshalIndent(map[string]interface{}{"property": ch.ID, "tier": tier, "case": v.Case, "description": v.Desc, "failure": v.Msg,
			"how": fmt.Sprintf("bash /verif/run.sh %s replay=%s", ch.ID, rp)}, "", " ")
		_ = ioutil.WriteFile(rp, b, 0644)
		fmt.Printf("case %d: %s\n%s\n", v.Case, clip(v.Desc, 3000), clip(v.Msg, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, rp)
		exit = 1
	}
	if internal && exit == 0 {
		exit = 2
	}
	evidence(ch, tier, total, time.Since(start), len(confirmed), flaky)
	fmt.Printf("%s %s: cases=%d/%d executions=%d transitions=%d states=%d outcomes=%d violations=%d capped=%v wall=%.1fs\n", ch.ID, tier, total.Cases, total.TotalCases,
		total.Executions, total.Transitions, len(total.States), len(total.Outcomes), len(confirmed), total.Capped, time.Since(start).Seconds())
	return exit
}

func merge(a, b *result) {
	a.Cases += b.Cases
	a.Executions += b.Executions
	a.Transitions += b.Transitions
	for k, v := range b.Outcomes {
		a.Outcomes[k] += v
	}
	for k := range b.States {
		a.States[k] = true
	}
	for k, v := range b.OutcomeNames {
		a.OutcomeNames[k] += v
	}
	for k, v := range b.Counters {
		a.Counters[k] += v
	}
	for k, v := range b.Known {
		a.Known[k] = v
	}
	a.Samples = append(a.Samples, b.Samples...)
	a.Violations = append(a.Violations, b.Violations...)
	a.Capped = a.Capped || b.Capped
	if b.TotalCases > a.TotalCases {
		a.TotalCases = b.TotalCases
	}
}

func evidence(ch *Check, tier string, r *result, wall time.Duration, viol, flaky int) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := r.Samples
	if len(samples) > 12 {
		samples = samples[:12]
	}
	cov := map[string]interface{}{
		"evaluations":                   r.Executions,
		"distinct_nontrivial":           len(r.Outcomes),
		"rule":                          ch.Rule,
		"samples":                       samples,
		"states":                        len(r.States),
		"transitions":                   r.Transitions,
		"traces_validated_against_impl": r.Cases,
		"cases":                         r.Cases,
		"cases_in_bound":                r.TotalCases,
		"exhaustive":                    !r.Capped && int64(r.TotalCases) == r.Cases,
		"classes":                       r.OutcomeNames,
		"counters":                      r.Counters,
		"known_findings_seen":           len(r.Known),
		"not_reproduced":                flaky,
	}
	e := map[string]interface{}{"property": ch.ID, "tier": tier, "seed": seed, "level": ch.Level, "coverage": cov, "assumptions": ch.Assumptions,
		"wall_s": wall.Seconds(), "violations": viol}
	b, _ := json.MarshalIndent(e, "", " ")
	p := filepath.Join(verifDir(), "evidence", ch.ID+".json")
	_ = os.MkdirAll(filepath.Dir(p), 0755)
	if err := ioutil.WriteFile(p, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func replay(ch *Check, file string) int {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var m struct {
		Tier string
		Case int
	}
	if err := json.Unmarshal(b, &m); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, ch.ID, "tier="+m.Tier, fmt.Sprintf("case=%d", m.Case))
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	if e := cmd.Run(); e != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, file)
		return 1
	}
	return 0
}
