// Package simrt is the simulator's runtime: a deterministic cooperative scheduler.
//
// Exactly one task (a goroutine) runs at a time. Instrumented code calls Y, YH or T at every
// statement; the scheduler decides there, from one seeded generator or from a recorded plan,
// whether another task takes over. Nothing here ever reads a clock or a random source of the runtime.
//
// The baton is passed under runtime.RaceDisable and in norace functions, so that in builds with -race
// the race detector sees only the synchronisation that the code under test really does.
package simrt

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"
)

// Preempt is a recorded scheduling decision: when task T reaches its Nth scheduling point, To takes over.
type Preempt struct {
	T  int32 `json:"t"`
	N  int64 `json:"n"`
	To int32 `json:"to"`
}

// Choice is a recorded non-zero decision other than scheduling: the Ith draw gave V.
type Choice struct {
	I int64  `json:"i"`
	V uint64 `json:"v"`
}

// Policy tells how preemptions are drawn.
type Policy struct {
	Kind  string  `json:"kind"`  // walk, hot, pct, seq
	Gap   int64   `json:"gap"`   // walk: mean number of scheduling points between preemptions
	Prob  float64 `json:"prob"`  // hot: probability to preempt at a site which touches shared state
	Depth int     `json:"depth"` // pct: number of change points
	Span  int64   `json:"span"`  // pct: horizon
	Perm  bool    `json:"perm"`  // permute map iterations, flip coins
}

const (
	stRunnable = iota
	stBlocked
	stSleeping
	stDone
	stJoin // the main task, while it waits for those that it started
)

const (
	maxTasks   = 4096
	maxRecord  = 1 << 20
	maxChoices = 1 << 14
)

// Task is a simulated thread.
type Task struct {
	id       int32
	n        int64 // scheduling points passed by this task
	next     int64 // scheduling point at which the scheduler is consulted
	hot      bool  // consult the scheduler at hot sites
	state    int32
	on       unsafe.Pointer
	until    int64 // simulated wake up time
	prio     int64
	wake     chan struct{}
	fn       func()
	bg       bool // started by the code under test
	plan     []Preempt
	planIdx  int
	lastSite int32
	group    *group
	killed   bool // its process ended: it unwinds
	dying    bool // it ended its process: it unwinds
	spins    int  // operations on shared state since it was last resumed
}

// group is what one call of Run started.
type group struct {
	left int
	wg   sync.WaitGroup
}

// state of the simulation. Only the running task touches it.
var (
	cur    *Task
	steps  int64
	limit  int64 = math.MaxInt64
	tasks  [maxTasks]*Task
	ntasks int32
	now    int64 // simulated time, in ns
	skew   int64 // of the clock that can be read
	stalls bool  // whether tasks may stall while timers run out

	replay   bool
	pol      Policy
	rng      Rng
	phase    int32
	sched    [maxRecord]Preempt
	nsched   int32
	nextPlan []Preempt

	choices   [maxChoices]Choice
	nchoices  int32
	occ       int64
	choicePl  []Choice
	choiceIdx int

	hash     uint64
	switches int64
	points   [64]int64 // pct change points
	npoints  int
	pidx     int

	totalSteps int64

	main   *Task           // runs the scenario itself
	all    *sync.WaitGroup // orders memory at the end of a process, for the race detector
	gone   = make(chan struct{}, 1)
	unwind bool // a killed task unwinds
	nextBg int32
	early  int32 // goroutines started before any simulation

	patience = 10000

	// fairShare is how many operations on shared state a task makes before the others get their turn: a busy wait ends.
	fairShare = 5000

	// OnTaskPanic is called when a goroutine of the code under test panics: it tells if that is the end of its process only.
	OnTaskPanic func(v interface{}) bool
	// OnFatal is called when the run cannot go on; it must not return.
	OnFatal func(class, msg string)
)

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

// NewRng seeds a generator.
func NewRng(seed uint64) Rng { return Rng{s: seed} }

//go:norace
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

//go:norace
func (r *Rng) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

// Chance is true with probability p.
//
//go:norace
func (r *Rng) Chance(p float64) bool { return r.Float() < p }

// Mix adds to the hash of the history of this run.
//
//go:norace
func Mix(v uint64) {
	hash ^= v + 0x9e3779b97f4a7c15 + (hash << 6) + (hash >> 2)
	hash *= 0xff51afd7ed558ccd
	hash ^= hash >> 32
}

// MixString adds a string to the hash of the history.
func MixString(s string) {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	Mix(h)
}

// Begin starts a run: the caller becomes its main task. With a nil plan, decisions are drawn with the policy and recorded.
func Begin(seed uint64, p Policy, isReplay bool, plan []Preempt, ch []Choice) {
	rng = NewRng(seed ^ 0xabcdef12345)
	pol = p
	replay = isReplay
	nextPlan = append([]Preempt{}, plan...)
	sort.SliceStable(nextPlan, func(i, j int) bool {
		if nextPlan[i].T != nextPlan[j].T {
			return nextPlan[i].T < nextPlan[j].T
		}
		return nextPlan[i].N < nextPlan[j].N
	})
	choicePl = ch
	choiceIdx = 0
	occ = 0
	nsched, nchoices = 0, 0
	phase = 0
	hash = seed * 0
	switches = 0
	steps, totalSteps = 0, 0
	now, skew, stalls = 0, 0, true
	fixed = false
	newProcess()
	for ; patience > 0 && atomic.LoadInt32(&early) > 0; patience-- {
		runtime.Gosched() // let the goroutines of package initialisations end or block
	}
	patience = 0
	all = new(sync.WaitGroup)
	nextBg = 0
	ntasks = 1
	main = &Task{wake: make(chan struct{}, 1), next: farAway}
	tasks[0] = main
	cur = main
	plansOf(main)
	noQueues()
}

// End of a run: what was started in the background ends.
func End() {
	Reap()
	totalSteps += steps
	steps = 0
	cur = nil
}

// Reap ends the tasks that the main task left in the background.
func Reap() {
	if cur == nil || cur != main {
		return
	}
	killOthers(main)
	all.Wait()
	all = new(sync.WaitGroup)
	ntasks = 1
}

//go:norace
func killOthers(self *Task) {
	keep := cur
	for i := int32(0); i < ntasks; i++ {
		t := tasks[i]
		if t == self || t == main || t.state == stDone {
			continue
		}
		t.killed, t.state = true, stDone
		cur, unwind = nil, true
		raceDisable()
		t.wake <- struct{}{}
		raceEnable()
		<-gone
		cur, unwind = keep, false
		if t.group != nil {
			t.group.left--
			t.group.wg.Done()
		}
	}
}

// Die ends the process of the running task: all the tasks but the main one end.
//
//go:norace
func Die() {
	t := cur
	if t == nil || t.dying {
		runtime.Goexit()
	}
	if t == main {
		OnFatal("exit", "the process ended")
	}
	killOthers(t)
	t.dying = true
	runtime.Goexit()
}

// Sched yields the recorded schedule.
func Sched() []Preempt { return append([]Preempt{}, sched[:nsched]...) }

// Choices yields the recorded choices.
func Choices() []Choice { return append([]Choice{}, choices[:nchoices]...) }

// Hash of the history.
func Hash() uint64 { return hash }

// Switches between tasks.
func Switches() int64 { return switches }

// Steps simulated in this run.
func Steps() int64 { return totalSteps + steps }

// Step is the global event sequence number.
//
//go:norace
func Step() int64 { return totalSteps + steps }

// TaskID of the running task, -1 outside of the simulation.
//
//go:norace
func TaskID() int {
	if cur == nil || cur == main {
		return -1
	}
	return int(cur.id)
}

// Active tells if a simulation is in progress.
//
//go:norace
func Active() bool { return cur != nil }

const farAway = math.MaxInt64

// Run executes tasks until they all end, while the main task waits. stepLimit bounds the number of scheduling points.
// Task identifiers are unique across the calls of Run in a same run (recorded schedules refer to them).
func Run(stepLimit int64, fns ...func()) {
	parent := cur
	if parent == nil || parent != main {
		panic("simrt: run outside of the main task")
	}
	phase++
	totalSteps += steps
	steps = 0
	limit = stepLimit
	if len(fns) == 0 {
		limit = math.MaxInt64
		return
	}
	g := &group{left: len(fns)}
	g.wg.Add(len(fns))
	compact()
	lo := ntasks
	for i, fn := range fns {
		newTask(phase*1000+int32(i), fn, g)
	}
	setupPolicy()
	first := pickFirst(lo)
	for i := lo; i < lo+int32(len(fns)); i++ {
		startTask(tasks[i])
	}
	join(parent, first)
	g.wg.Wait()
	if share := float64(steps) / float64(stepLimit); share > maxShare {
		maxShare = share
	}
	totalSteps += steps
	steps = 0
	limit = math.MaxInt64
}

// MaxShare is the largest share of a budget of steps that was used since this was last called.
func MaxShare() float64 {
	s := maxShare
	maxShare = 0
	return s
}

var maxShare float64

//go:norace
func join(parent, first *Task) {
	parent.state = stJoin
	switchTo(parent, first)
}

// compact forgets the tasks that ended.
//
//go:norace
func compact() {
	n := int32(0)
	for i := int32(0); i < ntasks; i++ {
		if t := tasks[i]; t.state != stDone {
			tasks[n] = t
			n++
		}
	}
	ntasks = n
}

//go:norace
func newTask(id int32, fn func(), g *group) *Task {
	if ntasks >= maxTasks {
		compact()
	}
	if ntasks >= maxTasks {
		OnFatal("tasks", "too many tasks")
	}
	t := &Task{id: id, fn: fn, bg: g == nil, group: g, wake: make(chan struct{}, 1), next: farAway}
	plansOf(t)
	tasks[ntasks] = t
	ntasks++
	return t
}

// plansOf finds the recorded decisions of a task.
//
//go:norace
func plansOf(t *Task) {
	id := t.id
	if replay {
		lo := 0
		for lo < len(nextPlan) && nextPlan[lo].T < id {
			lo++
		}
		hi := lo
		for hi < len(nextPlan) && nextPlan[hi].T == id {
			hi++
		}
		t.plan = nextPlan[lo:hi]
		if len(t.plan) > 0 {
			t.next = t.plan[0].N
		}
	}
}

//go:norace
func setupPolicy() {
	if replay {
		return
	}
	npoints, pidx = 0, 0
	for i := int32(0); i < ntasks; i++ {
		tasks[i].prio = int64(rng.U64()>>2) + 1<<40
	}
	switch pol.Kind {
	case "pct":
		for i := 0; i < pol.Depth && i < len(points); i++ {
			points[i] = 1 + int64(rng.U64()%uint64(pol.Span))
			npoints++
		}
		// sort
		for i := 1; i < npoints; i++ {
			for j := i; j > 0 && points[j-1] > points[j]; j-- {
				points[j-1], points[j] = points[j], points[j-1]
			}
		}
	}
}

//go:norace
func arm(t *Task) {
	if replay {
		return
	}
	t.hot = false
	if firstRunnable(t) == nil {
		t.next = farAway // until another task can run
		return
	}
	switch pol.Kind {
	case "walk":
		t.next = t.n + 1 + int64(float64(pol.Gap)*-math.Log(1-rng.Float()))
	case "hot":
		t.hot = true
		t.next = farAway
	case "pct":
		if pidx < npoints {
			t.next = t.n + points[pidx] - steps
			if t.next <= t.n {
				t.next = t.n + 1
			}
		} else {
			t.next = farAway
		}
	default:
		t.next = farAway
	}
}

//go:norace
func record(t *Task, to *Task) {
	switches++
	Mix(uint64(t.id)<<48 ^ uint64(t.n)<<8 ^ uint64(to.id) ^ uint64(t.lastSite)<<32)
	if nsched < maxRecord {
		sched[nsched] = Preempt{T: t.id, N: t.n, To: to.id}
		nsched++
	}
}

//go:norace
func pickFirst(lo int32) *Task {
	if ntasks-lo == 1 {
		return tasks[lo]
	}
	if replay {
		for _, p := range nextPlan {
			if p.T == -phase {
				for i := lo; i < ntasks; i++ {
					if tasks[i].id == p.To {
						recordFirst(tasks[i])
						return tasks[i]
					}
				}
			}
		}
		return tasks[lo]
	}
	to := tasks[lo]
	if pol.Kind == "pct" {
		for i := lo; i < ntasks; i++ {
			if tasks[i].prio > to.prio {
				to = tasks[i]
			}
		}
	} else {
		to = tasks[lo+int32(rng.Intn(int(ntasks-lo)))]
	}
	if to != tasks[lo] {
		recordFirst(to)
	}
	return to
}

//go:norace
func recordFirst(to *Task) {
	if nsched < maxRecord {
		sched[nsched] = Preempt{T: -phase, N: 0, To: to.id}
		nsched++
	}
	Mix(uint64(to.id) + 77)
}

//go:norace
func best(not *Task) *Task {
	var b *Task
	for i := int32(0); i < ntasks; i++ {
		t := tasks[i]
		if t.state == stRunnable && t != not && (b == nil || t.prio > b.prio) {
			b = t
		}
	}
	return b
}

// random runnable task other than t.
//
//go:norace
func other(not *Task) *Task {
	n := 0
	for i := int32(0); i < ntasks; i++ {
		if t := tasks[i]; t.state == stRunnable && t != not {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	k := rng.Intn(n)
	for i := int32(0); i < ntasks; i++ {
		if t := tasks[i]; t.state == stRunnable && t != not {
			if k == 0 {
				return t
			}
			k--
		}
	}
	return nil
}

//go:norace
func firstRunnable(not *Task) *Task {
	for i := int32(0); i < ntasks; i++ {
		if t := tasks[i]; t.state == stRunnable && t != not {
			return t
		}
	}
	return nil
}

func startTask(t *Task) {
	w := all
	w.Add(1)
	go func() {
		defer w.Done()
		wait(t)
		defer finish(t)
		if wasKilled(t) {
			return
		}
		t.fn()
	}()
}

//go:norace
func wasKilled(t *Task) bool { return t.killed }

//go:norace
func wait(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
}

//go:norace
func switchTo(from, to *Task) {
	cur = to
	to.spins = 0
	arm(to)
	raceDisable()
	to.wake <- struct{}{}
	<-from.wake
	raceEnable()
	if from.killed {
		runtime.Goexit()
	}
}

func finish(t *Task) {
	r := recover()
	if wasKilled(t) {
		gone <- struct{}{}
		return
	}
	if r != nil && !unwinding(t) {
		// tasks of the harness recover from the panics of the code under test themselves
		if OnTaskPanic == nil || !OnTaskPanic(r) {
			OnFatal("panic", "panic in a goroutine: "+panicString(r)+"\n"+string(debug.Stack()))
		}
		killOthers(t)
		unwinds(t)
	}
	if t.group != nil {
		defer t.group.wg.Done()
	}
	end(t)
}

//go:norace
func unwinding(t *Task) bool { return t.dying }

//go:norace
func unwinds(t *Task) { t.dying = true }

//go:norace
func end(t *Task) {
	t.n++
	t.state = stDone
	var to *Task
	switch {
	case t.group != nil && lastOf(t.group), t.dying:
		to = main // goes on
		to.state = stRunnable
	default:
		if to = nextAfter(t); to == nil {
			deadlock()
		}
		record(t, to)
	}
	cur = to
	arm(to)
	raceDisable()
	to.wake <- struct{}{}
	raceEnable()
}

//go:norace
func lastOf(g *group) bool {
	g.left--
	return g.left == 0
}

//go:norace
func deadlock() {
	OnFatal("deadlock", deadlockMsg())
}

func deadlockMsg() string {
	s := "all tasks are blocked:"
	for i := int32(0); i < ntasks; i++ {
		t := tasks[i]
		if t.state == stBlocked {
			s += " task " + itoa(int64(t.id)) + " at " + SiteName(t.lastSite)
		}
	}
	return s
}

// nextAfter decides who runs when t cannot.
//
//go:norace
func nextAfter(t *Task) *Task {
	if firstRunnable(t) == nil {
		// jump to the next timer
		var w *Task
		for i := int32(0); i < ntasks; i++ {
			x := tasks[i]
			if x.state == stSleeping && (w == nil || x.until < w.until) {
				w = x
			}
		}
		if w != nil {
			if w.until > now {
				now = w.until
			}
			w.state = stRunnable
			if w == t {
				return t
			}
		}
	}
	if replay {
		if to := planned(t); to != nil {
			return to
		}
		return firstRunnable(t)
	}
	if pol.Kind == "pct" {
		return best(t)
	}
	return other(t)
}

// planned looks up the recorded decision for the current point of t.
//
//go:norace
func planned(t *Task) *Task {
	var to *Task
	for t.planIdx < len(t.plan) && t.plan[t.planIdx].N <= t.n {
		if p := t.plan[t.planIdx]; p.N == t.n {
			for i := int32(0); i < ntasks; i++ {
				if x := tasks[i]; x.id == p.To && x.state == stRunnable && x != t {
					to = x
				}
			}
		}
		t.planIdx++
	}
	if t.planIdx < len(t.plan) {
		t.next = t.plan[t.planIdx].N
	} else {
		t.next = farAway
	}
	return to
}

// Y is a scheduling point.
//
//go:norace
func Y(site int32) {
	t := cur
	if t == nil {
		return
	}
	t.n++
	steps++
	if t.n >= t.next || steps >= limit {
		t.lastSite = site
		slow(t, false)
	}
}

// YH is a scheduling point at a site that touches shared state.
//
//go:norace
func YH(site int32) {
	t := cur
	if t == nil {
		return
	}
	t.n++
	steps++
	if t.hot || t.n >= t.next || steps >= limit {
		t.lastSite = site
		slow(t, true)
	}
	if site < 0 {
		if t.spins++; t.spins > fairShare {
			doze(100000) // it may be waiting for another task
		}
	}
}

// T counts a step of code that touches nothing shared.
//
//go:norace
func T() {
	if cur == nil {
		return
	}
	steps++
	if steps >= limit {
		slow(cur, false)
	}
}

//go:norace
func slow(t *Task, hot bool) {
	if steps >= limit {
		limit = math.MaxInt64
		OnFatal("steps", "no progress: step budget exhausted at "+SiteName(t.lastSite))
	}
	var to *Task
	switch {
	case replay:
		to = planned(t)
	case hot && t.hot:
		if rng.Float() >= pol.Prob {
			return
		}
		to = other(t)
	case pol.Kind == "pct":
		// change point: lowest priority from now on
		for pidx < npoints && points[pidx] <= steps {
			pidx++
		}
		t.prio = int64(npoints - pidx)
		to = best(nil)
	case pol.Kind == "walk":
		to = other(t)
	}
	if to == nil || to == t {
		arm(t)
		return
	}
	record(t, to)
	switchTo(t, to)
}

// Block the running task until something wakes obj up.
//
//go:norace
func Block(obj unsafe.Pointer) {
	t := cur
	if t == nil && !unwind {
		runtime.Gosched() // a goroutine of a package initialisation
		return
	}
	if t == nil || t.dying {
		runtime.Goexit()
	}
	t.n++
	steps++
	t.state = stBlocked
	t.on = obj
	to := nextAfter(t)
	if to == nil {
		deadlock()
	}
	if to == t {
		return
	}
	record(t, to)
	switchTo(t, to)
}

// Wake all tasks blocked on obj.
//
//go:norace
func Wake(obj unsafe.Pointer) {
	for i := int32(0); i < ntasks; i++ {
		if t := tasks[i]; t.state == stBlocked && t.on == obj {
			t.state = stRunnable
		}
	}
	if t := cur; t != nil && !replay && !t.hot && t.next == farAway {
		arm(t)
	}
}

// Sleep for a simulated time.
//
//go:norace
func Sleep(d int64) {
	t := cur
	if t == nil || t.dying {
		return
	}
	t.n++
	steps++
	if steps >= limit {
		slow(t, false)
	}
	if d > 0 && stalls && Draw(3) == 1 {
		// the other tasks are slow: the time passes before they get anywhere
		pass(d)
		YH(-13)
		return
	}
	t.state = stSleeping
	t.until = now + d
	to := nextAfter(t)
	if to == t || to == nil {
		t.state = stRunnable
		return
	}
	record(t, to)
	switchTo(t, to)
}

// Stalls tells whether tasks may stall while timers run out, from now on.
func Stalls(on bool) { stalls = on }

// pass lets time go by; the sleepers whose time has come are runnable.
//
//go:norace
func pass(d int64) {
	now += d
	for _, t := range tasks[:ntasks] {
		if t.state == stSleeping && t.until <= now {
			t.state = stRunnable
			if cur != nil && !cur.hot && cur.next == farAway && !replay {
				arm(cur)
			}
		}
	}
}

// Clock reads a clock that never goes back but is not in step with the timers.
//
//go:norace
func Clock() int64 {
	YH(-10)
	c := now + totalSteps + steps + skew
	if v := int64(Draw(1 << 42)); v&1 == 1 {
		skew += v >> 1
		c += v >> 1
	}
	return c
}

// Now is the simulated time in ns.
//
//go:norace
func Now() int64 { return now }

// Go starts a task for a go statement of the code under test.
func Go(fn func()) {
	if cur == nil {
		if !unwind {
			atomic.AddInt32(&early, 1)
			go func() {
				defer atomic.AddInt32(&early, -1)
				fn()
			}()
		}
		return
	}
	startTask(spawn(fn))
	YH(-2)
}

//go:norace
func spawn(fn func()) *Task {
	nextBg++
	t := newTask(1000000+nextBg, fn, nil)
	if !replay {
		t.prio = int64(rng.U64()>>2) + 1<<40
		if !cur.hot && cur.next == farAway {
			arm(cur)
		}
	}
	return t
}

// Draw yields a decision below n that is not about scheduling (0 is the default). Non-zero draws are recorded.
//
//go:norace
func Draw(n uint64) uint64 {
	if fixed {
		return 0
	}
	i := occ
	occ++
	if replay {
		for choiceIdx < len(choicePl) && choicePl[choiceIdx].I < i {
			choiceIdx++
		}
		if choiceIdx < len(choicePl) && choicePl[choiceIdx].I == i {
			v := choicePl[choiceIdx].V
			if n > 0 {
				v %= n
			}
			Mix(v)
			return v
		}
		return 0
	}
	if !pol.Perm || nchoices >= maxChoices {
		return 0
	}
	v := rng.U64()
	if n > 0 {
		v %= n
	}
	if v != 0 {
		choices[nchoices] = Choice{I: i, V: v}
		nchoices++
		Mix(v)
	}
	return v
}

// Permuting switches permutations on or off for the next phase of a run.
func Permuting(on bool) { pol.Perm = on }

// Sites is set by generated code.
var Sites []string

// SiteName tells where a site is.
func SiteName(site int32) string {
	if site >= 0 && int(site) < len(Sites) {
		return Sites[site]
	}
	return "site " + itoa(int64(site))
}

func itoa(v int64) string {
	if v == 0 {
		return "0"
	}
	neg := v < 0
	if neg {
		v = -v
	}
	var b [24]byte
	i := len(b)
	for v > 0 {
		i--
		b[i] = byte('0' + v%10)
		v /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}

func panicString(r interface{}) string {
	switch v := r.(type) {
	case error:
		return v.Error()
	case string:
		return v
	default:
		return fmt.Sprint(r)
	}
}

// resets re-initialise the packages under test.
var (
	resets    = map[int]func(){}
	resetName = map[int]string{}
)

// RegisterReset is called by generated code, in dependency order.
func RegisterReset(order int, pkg string, f func()) bool {
	resets[order], resetName[order] = f, pkg
	return true
}

// ResetAll brings all package variables back to their initial state: a cold start.
func ResetAll() { ResetExcept("") }

// ResetExcept is ResetAll but for one package.
func ResetExcept(pkg string) {
	Reap()
	newProcess()
	for i := 0; i < 1000; i++ {
		if f := resets[i]; f != nil && (pkg == "" || resetName[i] != pkg) {
			f()
		}
	}
}

// Zero resets a variable.
func Zero[X any](p *X) {
	var z X
	*p = z
}
