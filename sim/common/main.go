// Command harness runs simulations of go-typeset.
//
//	harness run -prop P01 -seed 1 -worker 0 -workers 8 -secs 20 -out DIR
//	harness exec -plan FILE
//
// Exit status: 0 nothing found, 3 violation (the plan is in DIR/plan.json, or the given one), 4 the plan makes no sense.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/fredbi/go-typeset/zsim/simrt"
)

// Plan is one execution, completely: scenario, schedule and other decisions.
type Plan struct {
	Prop    string          `json:"prop"`
	Seed    uint64          `json:"seed"`
	Race    bool            `json:"race"`
	Scn     json.RawMessage `json:"scn"`
	Policy  simrt.Policy    `json:"policy"`
	Sched   []simrt.Preempt `json:"sched"`
	Choices []simrt.Choice  `json:"choices"`
	Class   string          `json:"class,omitempty"`
	Message string          `json:"message,omitempty"`
	Live    bool            `json:"live,omitempty"` // draw decisions from the seed rather than replay recorded ones
}

// Prop is a simulated property.
type Prop struct {
	// Gen draws a scenario.
	Gen func(r *Rand) interface{}
	// New yields an empty scenario to decode into.
	New func() interface{}
	// Exec runs it.
	Exec func(e *Env, scn interface{})
	// Tasks tells that schedules matter.
	Tasks bool
}

var props = map[string]*Prop{}

// Env is what a run needs.
type Env struct {
	plan     *Plan
	counters [96]counter // fixed: tasks count without being seen by the race detector
	ops      int64
	replay   bool
}

type counter struct {
	name  string
	fault bool
	n     int64
}

// Stats of a worker.
type Stats struct {
	Runs      int64            `json:"runs"`
	Ops       int64            `json:"ops"`
	Steps     int64            `json:"steps"`
	Switches  int64            `json:"switches"`
	Multi     int64            `json:"multi"` // runs with at least one switch or fault
	Fired     map[string]int64 `json:"fired"`
	Probes    map[string]int64 `json:"probes"`
	Policies  map[string]int64 `json:"policies"`
	Secs      float64          `json:"secs"`
	Digest    uint64           `json:"digest"`
	First     uint64           `json:"first_seed"`
	Last      uint64           `json:"last_seed"`
	Sample    []Plan           `json:"sample"`
	RaceBuild bool             `json:"race_build"`
	// the largest share of a budget of steps that a run used, and the seed of that run
	Share     float64 `json:"share"`
	ShareSeed uint64  `json:"share_seed"`
}

var (
	env     *Env
	stats   Stats
	outDir  string
	hashes  []uint64
	started time.Time
	trail   []byte // seed and history hash of each run, in order
)

// Fail reports a violation and ends the process.
func (e *Env) Fail(class, format string, args ...interface{}) {
	violation(class, fmt.Sprintf(format, args...))
}

// Fired counts a fault that was injected.
//
//go:norace
func (e *Env) Fired(kind string) {
	e.count(kind, true)
	simrt.Mix(uint64(len(kind)) + 5)
	simrt.MixString(kind)
}

// Probe counts a condition that was reached.
//
//go:norace
func (e *Env) Probe(kind string) { e.count(kind, false) }

//go:norace
func (e *Env) count(kind string, fault bool) {
	for i := range e.counters {
		c := &e.counters[i]
		if c.name == "" {
			c.name, c.fault = kind, fault
		}
		if c.name == kind {
			c.n++
			return
		}
	}
}

// Op counts an operation and adds its outcome to the history.
//
//go:norace
func (e *Env) Op(outcome string) { e.ops++; simrt.MixString(outcome) }

// Par runs tasks under the simulated scheduler. The panics of a task are violations.
func (e *Env) Par(limit int64, fns ...func()) {
	wrapped := make([]func(), len(fns))
	for i, fn := range fns {
		fn := fn
		wrapped[i] = func() {
			defer func() {
				if r := recover(); r != nil {
					violation("panic", fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack())))
				}
			}()
			fn()
		}
	}
	simrt.Run(limit, wrapped...)
}

// Seq runs one task, to bound its steps.
func (e *Env) Seq(limit int64, fn func()) { e.Par(limit, fn) }

// Catch runs fn and tells if it panicked.
func Catch(fn func()) (p interface{}) {
	defer func() { p = recover() }()
	fn()
	return nil
}

// Invalid tells that a plan makes no sense (after shrinking).
func Invalid(why string) {
	fmt.Fprintln(os.Stderr, "invalid plan:", why)
	os.Exit(4)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var keep []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i+1], "/simrt/") || strings.Contains(lines[i], "runtime/debug") || strings.Contains(lines[i], "panic(") {
			i++
			continue
		}
		keep = append(keep, lines[i])
		if len(keep) > 24 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

func violation(class, msg string) {
	p := *env.plan
	p.Sched = simrt.Sched()
	p.Choices = simrt.Choices()
	if env.replay {
		p.Sched = env.plan.Sched
		p.Choices = env.plan.Choices
	}
	p.Class, p.Message = class, msg
	b, _ := json.MarshalIndent(p, "", " ")
	if outDir != "" {
		if err := os.WriteFile(outDir+"/plan.json", b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		stats.Runs++
		countRun()
		writeStats()
	}
	fmt.Printf("VIOLATED %s\n%s\n", class, msg)
	fmt.Printf("HASH %016x\n", simrt.Hash())
	os.Exit(3)
}

func policyFor(r *Rand) simrt.Policy {
	p := simrt.Policy{Kind: "seq", Perm: r.Chance(0.8)}
	switch r.Intn(8) {
	case 0:
		p.Kind = "seq"
	case 1, 2:
		p.Kind = "hot"
		p.Prob = []float64{0.02, 0.1, 0.3, 0.6, 0.9}[r.Intn(5)]
	case 3, 4:
		p.Kind = "pct"
		p.Depth = 1 + r.Intn(6)
		p.Span = int64(1) << uint(4+r.Intn(18))
	default:
		p.Kind = "walk"
		p.Gap = []int64{1, 2, 4, 10, 30, 100, 400, 2000, 20000}[r.Intn(9)]
	}
	return p
}

func runOne(name string, pr *Prop, plan *Plan, replay bool) {
	env = &Env{plan: plan, replay: replay}
	scn := pr.New()
	if err := json.Unmarshal(plan.Scn, scn); err != nil {
		Invalid(err.Error())
	}
	before := simrt.RaceErrors()
	simrt.Disk = nil
	simrt.Begin(plan.Seed, plan.Policy, replay, plan.Sched, plan.Choices)
	func() {
		defer func() {
			if r := recover(); r != nil {
				violation("panic", fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack())))
			}
		}()
		pr.Exec(env, scn)
	}()
	simrt.End()
	if n := simrt.RaceErrors(); n != before {
		violation("race", "data race (report of the race detector in the log of this run)")
	}
}

func seedOf(base uint64, prop string, i uint64) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range []byte(prop) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	r := simrt.NewRng(base*0x9e3779b97f4a7c15 ^ h ^ i*0xd1342543de82ef95)
	r.U64()
	return r.U64() >> 1
}

func planFor(name string, pr *Prop, seed uint64) *Plan {
	r := NewRand(seed)
	plan := &Plan{Prop: name, Seed: seed, Race: simrt.RaceBuild}
	plan.Policy = policyFor(r) // the code under test may have goroutines of its own, whatever the property
	scn := pr.Gen(r)
	b, err := json.Marshal(scn)
	if err != nil {
		panic(err)
	}
	plan.Scn = b
	return plan
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	fl := flag.NewFlagSet("harness", flag.ExitOnError)
	prop := fl.String("prop", "", "property")
	seed := fl.Uint64("seed", 1, "base seed")
	worker := fl.Uint64("worker", 0, "worker")
	workers := fl.Uint64("workers", 1, "number of workers")
	secs := fl.Float64("secs", 10, "time budget")
	maxRuns := fl.Int64("runs", 1<<60, "maximum number of runs")
	until := fl.Uint64("until", 0, "stop after this seed")
	dump := fl.Bool("dump", false, "print the plan and stop")
	out := fl.String("out", "", "output directory")
	planFile := fl.String("plan", "", "plan to execute")
	one := fl.Uint64("one", 0, "run one seed")
	keepTrail := fl.Bool("trail", false, "record the hash of each run")
	check(fl.Parse(os.Args[2:]))
	outDir = *out
	simrt.OnFatal = violation

	switch os.Args[1] {
	case "exec":
		b, err := os.ReadFile(*planFile)
		check(err)
		var plan Plan
		if err := json.Unmarshal(b, &plan); err != nil {
			Invalid(err.Error())
		}
		pr := props[plan.Prop]
		if pr == nil {
			Invalid("no such property")
		}
		runOne(plan.Prop, pr, &plan, !plan.Live)
		fmt.Printf("HASH %016x\n", simrt.Hash())
		fmt.Println("OK")
	case "one":
		pr := props[*prop]
		plan := planFor(*prop, pr, *one)
		if *dump {
			b, _ := json.Marshal(plan)
			fmt.Printf("PLAN %s\n", b)
			return
		}
		runOne(*prop, pr, plan, false)
		fmt.Printf("HASH %016x\n", simrt.Hash())
		fmt.Println("OK")
	case "run":
		pr := props[*prop]
		if pr == nil {
			fmt.Fprintln(os.Stderr, "no such property")
			os.Exit(2)
		}
		stats = Stats{Fired: map[string]int64{}, Probes: map[string]int64{}, Policies: map[string]int64{}, RaceBuild: simrt.RaceBuild}
		progress, err := os.OpenFile(outDir+"/progress", os.O_CREATE|os.O_RDWR, 0o644)
		check(err)
		started = time.Now()
		for i := *worker; stats.Runs < *maxRuns; i += *workers {
			if time.Since(started).Seconds() > *secs {
				break
			}
			s := seedOf(*seed, *prop, i)
			_, _ = progress.WriteAt([]byte(fmt.Sprintf("%020d\n", s)), 0)
			plan := planFor(*prop, pr, s)
			if stats.Runs == 0 {
				stats.First = s
			}
			stats.Last = s
			runOne(*prop, pr, plan, false)
			stats.Runs++
			countRun()
			stats.Policies[plan.Policy.Kind]++
			if *until != 0 && s == *until {
				break
			}
			h := simrt.Hash()
			stats.Digest = stats.Digest*1099511628211 ^ h
			if *keepTrail {
				trail = append64(append64(trail, s), h)
			}
			if simrt.Switches() > 0 || env.ops > 1 {
				stats.Multi++
				hashes = append(hashes, h)
			}
			if len(stats.Sample) < 2 && (simrt.Switches() > 0 || !pr.Tasks) {
				p := *plan
				p.Sched = simrt.Sched()
				if len(p.Sched) > 12 {
					p.Sched = p.Sched[:12]
				}
				if len(p.Scn) < 1500 {
					stats.Sample = append(stats.Sample, p)
				}
			}
		}
		writeStats()
	default:
		os.Exit(2)
	}
}

// countRun adds the current run to the counters.
func countRun() {
	if stats.Fired == nil {
		return
	}
	if share := simrt.MaxShare(); share > stats.Share {
		stats.Share, stats.ShareSeed = share, stats.Last
	}
	stats.Ops += env.ops
	stats.Steps += simrt.Steps()
	stats.Switches += simrt.Switches()
	for _, c := range env.counters {
		switch {
		case c.name == "":
		case c.fault:
			stats.Fired[c.name] += c.n
		default:
			stats.Probes[c.name] += c.n
		}
	}
}

// writeStats leaves what this worker did for the driver.
func writeStats() {
	if outDir == "" || stats.Fired == nil {
		return
	}
	stats.Secs = time.Since(started).Seconds()
	sort.Slice(hashes, func(i, j int) bool { return hashes[i] < hashes[j] })
	buf := make([]byte, 0, 8*len(hashes))
	for _, h := range hashes {
		buf = append64(buf, h)
	}
	check(os.WriteFile(outDir+"/hashes", buf, 0o644))
	if trail != nil {
		check(os.WriteFile(outDir+"/trail", trail, 0o644))
	}
	b, err := json.Marshal(stats)
	check(err)
	check(os.WriteFile(outDir+"/stats.tmp", b, 0o644))
	check(os.Rename(outDir+"/stats.tmp", outDir+"/stats.json"))
}

func append64(buf []byte, h uint64) []byte {
	for k := 0; k < 8; k++ {
		buf = append(buf, byte(h>>(8*k)))
	}
	return buf
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
