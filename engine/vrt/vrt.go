// Package vrt is a controlled runtime for model checking real Go code.
//
// One execution runs a set of goroutines ("threads") of which exactly one runs at any
// time. Every synchronisation operation of the rewritten code (locks, channels, select,
// goroutine start, sleep, timers, atomics) and every transport operation of the harness
// is a scheduling point, at which the explorer decides who continues. Time is virtual
// and advances only when no thread can run, unless the explorer chooses otherwise.
//
// The package is compiled without race instrumentation. Under -race all hand-offs are
// hidden from the detector and only the modelled synchronisation is reported to it, so
// that it sees exactly the happens-before relation of the program under test.
package vrt

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// Thread is one goroutine under control of the scheduler.
type Thread struct {
	id       int
	idx      int // position in Exec.threads
	name     string
	gate     chan struct{}
	op       *op
	ready    bool // pending operation has been completed by another thread
	finished bool
	killed   bool
	daemon   bool
	late     bool // runs after the others by default
	used     map[*core]int
	syncv    byte // race annotation cell: termination of this thread
	startv   byte
}

// op is the operation a thread is about to perform.
type op struct {
	t      *Thread
	label  string
	yield  bool                 // the others first
	ready  func() bool          // may it be executed now? nil: always
	commit func()               // its effect; nil: none
	wake   func() (int64, bool) // virtual time at which ready may become true by itself
	cases  []*Case              // channel operations
	hasDef bool
	chosen int
	seq    int
	syncv  byte
}

// turn is the order of operations under fair scheduling: a select chooses itself, it is
// not chosen for by whoever waits at the other end of one of its channels.
func (o *op) turn() int {
	if len(o.cases) > 1 && !o.hasDef {
		return o.seq - 1<<40
	}
	return o.seq
}

// Status is how an execution ended.
type Status string

const (
	StOK        Status = "ok"
	StDeadlock  Status = "deadlock"
	StHorizon   Status = "stuck-until-horizon"
	StSteps     Status = "step-limit"
	StPanic     Status = "panic"
	StRace      Status = "data-race"
	StViolation Status = "violation"
	StDiverged  Status = "diverged"
)

// Options of an execution.
type Options struct {
	Horizon     int64 // virtual nanoseconds after which the execution is called stuck
	MaxSteps    int   // scheduling points after which it is called a livelock
	EarlyTimers bool  // let the explorer fire timers while threads are runnable
	SchedFree   bool  // when the running thread blocks, alternatives cost nothing
	Steps       bool  // every statement on memory that may be shared is a scheduling point
	NoSched     bool  // no scheduling choices: only environment choices
	Fair        bool  // by default whoever has waited longest goes first, also in select
}

type choice struct {
	n     int
	pick  int
	cost  int // cost of a non-default pick
	kind  byte
	label string
}

type timer struct {
	when   int64
	period int64
	seq    int
	fire   func()
	active bool
	syncv  byte
}

// Exec is one execution.
type Exec struct {
	opt     Options
	threads []*Thread
	lates   int // threads that run after the others
	cur     *Thread
	now     int64
	timers  []*timer
	tseq    int
	steps   int
	killing bool
	done    chan struct{}
	status  Status
	msg     string
	prefix  []Dev // deviations to replay
	choices []choice
	pi      int
	trace   []string
	tracing bool
	Log     []string
	race0   int
	idle    int
	main    *Thread
	noSched int
	finish  bool
	opseq   int

	created   int
	compactAt int
	ended     []*Thread // race builds: finished threads to synchronise with at the end
}

// compact forgets finished threads. The order of the others stays as it is.
func (e *Exec) compact() {
	k := 0
	for _, t := range e.threads {
		if t.finished && t != e.cur && t != e.main {
			if RaceEnabled {
				e.ended = append(e.ended, t)
			}
			continue
		}
		t.idx = k
		e.threads[k] = t
		k++
	}
	for i := k; i < len(e.threads); i++ {
		e.threads[i] = nil
	}
	e.threads = e.threads[:k]
	e.compactAt = 2*k + 48
}

// Dev is one deviation from the default choice: at choice number Pos take alternative Alt.
type Dev struct {
	Pos int    `json:"pos"`
	Alt int    `json:"alt"`
	N   int    `json:"n"`
	K   string `json:"k,omitempty"`
}

var x *Exec

// Active reports whether a controlled execution is in progress.
//
//go:noinline
func Active() bool { return x != nil && !x.killing }

// Killing reports whether the current execution is being torn down.
func dying() bool { return x != nil && x.killing }

type killed struct{}

// Result of one execution.
type Result struct {
	Status  Status
	Msg     string
	Choices []choice
	Steps   int
	Threads int
	Now     int64
	Log     []string
	Trace   []string
}

// Run executes body under control, replaying the given deviations and taking the default
// choice everywhere else.
func Run(opt Options, devs []Dev, tracing bool, body func()) *Result {
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 200000
		if opt.Steps {
			opt.MaxSteps = 2000000
		}
	}
	if opt.Horizon == 0 {
		opt.Horizon = int64(3600) * 1e9
	}
	e := &Exec{opt: opt, prefix: devs, tracing: tracing, done: make(chan struct{})}
	e.choices = make([]choice, 0, 512)
	e.threads = make([]*Thread, 0, 32)
	e.compactAt = 48
	e.race0 = raceErrors()
	x = e
	e.main = spawn("main", body)
	e.cur = e.main
	raceDisable()
	e.main.gate <- struct{}{}
	<-e.done
	raceEnable()
	// Tear down: end every remaining thread, one at a time.
	e.killing = true
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		if !t.finished {
			e.cur = t
			raceDisable()
			t.gate <- struct{}{}
			<-e.done
			raceEnable()
		}
		raceAcquire(unsafe.Pointer(&t.syncv))
	}
	for _, t := range e.ended {
		raceAcquire(unsafe.Pointer(&t.syncv))
	}
	x = nil
	if e.status == "" {
		e.status = StOK
	}
	if RaceEnabled && (e.status == StOK) && raceErrors() != e.race0 {
		e.status, e.msg = StRace, "the race detector reported a data race in this schedule"
	}
	if e.status == StOK && e.pi < len(e.prefix) {
		e.status, e.msg = StDiverged, "execution ended before all recorded deviations were replayed"
	}
	return &Result{Status: e.status, Msg: e.msg, Choices: e.choices, Steps: e.steps, Threads: e.created, Now: e.now, Log: e.Log, Trace: e.trace}
}

func spawn(name string, fn func()) *Thread {
	e := x
	if len(e.threads) >= e.compactAt {
		e.compact()
	}
	t := &Thread{id: e.created, idx: len(e.threads), name: name, gate: make(chan struct{})}
	e.created++
	e.threads = append(e.threads, t)
	o := &op{t: t, label: "start"}
	t.op = o
	go func() {
		raceDisable()
		<-t.gate
		raceEnable()
		defer func() {
			r := recover()
			if r != nil && !e.killing {
				st := string(debug.Stack())
				e.end(StPanic, fmt.Sprintf("panic in %s: %v\n%s", t.name, r, trimStack(st)))
			}
			t.finished = true
			t.op = nil
			raceReleaseMerge(unsafe.Pointer(&t.syncv))
			raceDisable()
			if e.killing {
				e.done <- struct{}{}
				raceEnable()
				return
			}
			if t == e.main && e.status == "" {
				e.finish = true
			}
			if e.finish || e.status != "" {
				e.done <- struct{}{}
				raceEnable()
				return
			}
			e.dispatch(nil)
			raceEnable()
		}()
		if e.killing {
			return
		}
		fn()
	}()
	return t
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

// end stops the execution with the given status (first one wins).
func (e *Exec) end(s Status, msg string) {
	if e.status == "" {
		e.status, e.msg = s, msg
	}
}

// park announces the next operation of the current thread and returns when it has been
// executed.
func park(o *op) {
	e := x
	t := e.cur
	if e.killing {
		// A deferred call of a thread that is being torn down: no effect.
		return
	}
	o.t = t
	t.op = o
	e.opseq++
	o.seq = e.opseq
	raceDisable()
	if !e.dispatch(t) {
		<-t.gate
	}
	raceEnable()
	if e.killing {
		runtime.Goexit()
	}
}

// dispatch picks the next thread to run. It returns true if that is self, which then
// simply continues. Otherwise the chosen thread (or the explorer, at the end of the
// execution) has been released.
func (e *Exec) dispatch(self *Thread) bool {
	if e.status != "" {
		e.done <- struct{}{}
		return false
	}
	e.steps++
	if e.steps > e.opt.MaxSteps {
		e.end(StSteps, fmt.Sprintf("no end after %d scheduling points at virtual time %.3fs: %s", e.steps, float64(e.now)/1e9, e.describe()))
		e.done <- struct{}{}
		return false
	}
	next := e.pick(self)
	if next == nil {
		e.done <- struct{}{}
		return false
	}
	o := next.op
	next.op = nil
	if next.ready {
		next.ready = false
	} else if o != nil {
		if o.cases != nil {
			e.commitCases(o)
		} else if o.commit != nil {
			o.commit()
		}
		if e.status != "" {
			// the operation itself was a fatal error
			next.op = o
			e.done <- struct{}{}
			return false
		}
	}
	if e.tracing && o != nil {
		e.trace = append(e.trace, fmt.Sprintf("%8.3fs T%d(%s) %s", float64(e.now)/1e9, next.id, next.name, o.label))
	}
	e.cur = next
	if next == self {
		return true
	}
	next.gate <- struct{}{}
	return false
}

func (e *Exec) enabled(t *Thread) bool {
	if t.finished || t.op == nil {
		return false
	}
	if t.ready {
		return true
	}
	o := t.op
	if o.cases != nil {
		return e.casesReady(o)
	}
	return o.ready == nil || o.ready()
}

// pick chooses the next thread, advancing virtual time when nothing can run.
func (e *Exec) pick(self *Thread) *Thread {
	for {
		var cand [64]*Thread
		n := 0
		selfEnabled := self != nil && e.enabled(self) && !self.op.yield && !e.opt.Fair
		if selfEnabled {
			cand[0] = self
			n = 1
		}
		// round robin from the current thread, those that wait for the others last
		nt := len(e.threads)
		base := 0
		if e.cur != nil {
			base = e.cur.idx
		}
		for pass := 0; pass < 2; pass++ {
			for i := 1; i <= nt; i++ {
				t := e.threads[(base+i)%nt]
				if t == self && selfEnabled || t.late != (pass == 1) {
					continue
				}
				if n < len(cand) && e.enabled(t) {
					cand[n] = t
					n++
				}
			}
			if e.lates == 0 {
				break
			}
		}
		if n == 0 {
			if !e.advance() {
				if e.status == "" {
					e.end(StDeadlock, "no thread can run and no timer is pending: "+e.describe())
				}
				return nil
			}
			continue
		}
		if e.opt.Fair {
			sort.SliceStable(cand[:n], func(i, j int) bool { return cand[i].op.turn() < cand[j].op.turn() })
		}
		opts := n
		early := false
		if e.noSched > 0 || e.opt.NoSched {
			return cand[0]
		}
		if e.opt.EarlyTimers {
			if _, ok := e.nextWake(); ok {
				opts++
				early = true
			}
		}
		if opts == 1 {
			return cand[0]
		}
		cost := 1
		if !selfEnabled && e.opt.SchedFree {
			cost = 0
		}
		c := e.choose(opts, cost, 's', "sched")
		if c < 0 {
			return nil
		}
		if early && c == opts-1 {
			if !e.advance() {
				return nil
			}
			continue
		}
		return cand[c]
	}
}

// choose takes the next decision: replayed from the prefix, else the default 0.
func (e *Exec) choose(n, cost int, kind byte, label string) int {
	p := len(e.choices)
	c := 0
	if e.pi < len(e.prefix) && e.prefix[e.pi].Pos == p {
		d := e.prefix[e.pi]
		e.pi++
		if d.N != n || d.Alt >= n || (d.K != "" && d.K != label) {
			e.end(StDiverged, fmt.Sprintf("replay diverged at choice %d (%s): recorded %d alternatives of %q, now %d", p, label, d.N, d.K, n))
			return -1
		}
		c = d.Alt
	}
	e.choices = append(e.choices, choice{n: n, pick: c, cost: cost, kind: kind, label: label})
	return c
}

func (e *Exec) nextWake() (int64, bool) {
	var best int64
	ok := false
	for _, t := range e.timers {
		if t.active && (!ok || t.when < best) {
			best, ok = t.when, true
		}
	}
	for _, t := range e.threads {
		if t.finished || t.op == nil || t.ready || t.op.wake == nil {
			continue
		}
		if w, k := t.op.wake(); k && w > e.now && (!ok || w < best) {
			best, ok = w, true
		}
	}
	return best, ok
}

// advance moves virtual time to the next event and fires the timers due.
func (e *Exec) advance() bool {
	w, ok := e.nextWake()
	if !ok {
		return false
	}
	if w > e.opt.Horizon {
		e.end(StHorizon, fmt.Sprintf("still running at the horizon of %.3fs virtual time: %s", float64(e.opt.Horizon)/1e9, e.describe()))
		return false
	}
	if w > e.now {
		e.now = w
	}
	if e.tracing {
		e.trace = append(e.trace, fmt.Sprintf("%8.3fs -- time advances", float64(e.now)/1e9))
	}
	for {
		var b *timer
		for _, t := range e.timers {
			if t.active && t.when <= e.now && (b == nil || t.when < b.when || (t.when == b.when && t.seq < b.seq)) {
				b = t
			}
		}
		if b == nil {
			break
		}
		if b.period > 0 {
			b.when += b.period
		} else {
			b.active = false
		}
		b.fire()
	}
	// drop inactive timers
	k := 0
	for _, t := range e.timers {
		if t.active {
			e.timers[k] = t
			k++
		}
	}
	for i := k; i < len(e.timers); i++ {
		e.timers[i] = nil
	}
	e.timers = e.timers[:k]
	return true
}

// describe lists the unfinished threads and what they wait for.
func (e *Exec) describe() string {
	var s []string
	for _, t := range e.threads {
		if !t.finished && t.op != nil {
			s = append(s, fmt.Sprintf("T%d(%s) at %s", t.id, t.name, t.op.label))
		}
	}
	sort.Strings(s)
	return strings.Join(s, "; ")
}

// ---- API used by shims and harnesses ----

// Go starts fn as a new thread.
//
//go:noinline
func Go(fn func()) {
	if x == nil {
		panic("vrt: goroutine started outside of a controlled execution")
	}
	if x.killing {
		return
	}
	spawn("go", fn)
	Point("go")
}

// GoNamed starts fn as a new named thread and returns a handle to wait for.
//
//go:noinline
func GoNamed(name string, fn func()) *Thread {
	return spawn(name, fn)
}

// Join waits until the given threads have finished.
//
//go:noinline
func Join(ts ...*Thread) {
	park(&op{label: "join", ready: func() bool {
		for _, t := range ts {
			if !t.finished {
				return false
			}
		}
		return true
	}})
	for _, t := range ts {
		raceAcquire(unsafe.Pointer(&t.syncv))
	}
}

// Late makes the calling thread run, by default, only when no other one can. It is a
// scheduling point: one deviation lets the thread run at any point of the others'
// execution.
//
//go:noinline
func Late() {
	if x == nil || x.killing {
		return
	}
	if !x.cur.late {
		x.cur.late = true
		x.lates++
	}
	park(&op{label: "late", yield: true})
}

// Point is a scheduling point without effect.
//
//go:noinline
func Point(label string) {
	if x == nil || x.killing {
		return
	}
	park(&op{label: label})
}

// Step is a scheduling point before a statement.
//
//go:noinline
func Step() {
	if x == nil || !x.opt.Steps || x.noSched > 0 || x.killing || len(x.threads) < 2 {
		return
	}
	park(&op{label: "statement"})
}

// Read is a scheduling point after v has been read.
func Read[T any](v T) T {
	Step()
	return v
}

// Assign is *p = v for a struct, its first fields first.
func Assign[T any](p *T, v T) {
	if x == nil || !x.opt.Steps || x.noSched > 0 || x.killing || len(x.threads) < 2 {
		*p = v
		return
	}
	halves(reflect.ValueOf(p).Elem(), reflect.ValueOf(&v).Elem())
}

func halves(d, s reflect.Value) {
	n := d.NumField()
	for i := 0; i < n; i++ {
		f := reflect.NewAt(d.Field(i).Type(), d.Field(i).Addr().UnsafePointer()).Elem()
		f.Set(reflect.NewAt(s.Field(i).Type(), s.Field(i).Addr().UnsafePointer()).Elem())
		if i == n/2-1 {
			Step()
		}
	}
}

// Block waits until ready() holds; wake (may be nil) tells when time alone makes it so.
//
//go:noinline
func Block(label string, ready func() bool, commit func(), wake func() (int64, bool)) {
	if x == nil || x.killing {
		return
	}
	park(&op{label: label, ready: ready, commit: commit, wake: wake})
}

// Choose is an environment decision among n alternatives, 0 being the default.
// cost is what a non-default answer counts against the deviation bound.
//
//go:noinline
func Choose(label string, n, cost int) int {
	if x == nil || x.killing || n <= 1 {
		return 0
	}
	c := x.choose(n, cost, 'e', label)
	if c < 0 {
		stop()
	}
	return c
}

// Fail records a violation and ends the execution.
//
//go:noinline
func Fail(format string, a ...any) {
	if x == nil || x.killing {
		return
	}
	x.end(StViolation, fmt.Sprintf(format, a...))
	stop()
}

// stop ends the current thread; the execution is over.
func stop() {
	runtime.Goexit()
}

// Logf adds a line to the log of this execution.
//
//go:noinline
func Logf(format string, a ...any) {
	if x == nil || x.killing {
		return
	}
	s := fmt.Sprintf(format, a...)
	x.Log = append(x.Log, s)
	if x.tracing {
		x.trace = append(x.trace, fmt.Sprintf("%8.3fs T%d(%s)    # %s", float64(x.now)/1e9, x.cur.id, x.cur.name, s))
	}
}

// Tracing reports whether a readable trace is being recorded.
//
//go:noinline
func Tracing() bool { return x != nil && x.tracing }

// NowNS is the virtual time in nanoseconds since the start of the execution.
//
//go:noinline
func NowNS() int64 {
	if x == nil {
		return 0
	}
	return x.now
}

// CurName is the name of the running thread.
//
//go:noinline
func CurName() string {
	if x == nil || x.cur == nil {
		return ""
	}
	return x.cur.name
}

// CurID is the number of the running thread.
//
//go:noinline
func CurID() int {
	if x == nil || x.cur == nil {
		return -1
	}
	return x.cur.id
}

// Live returns a description of the threads that have not finished, main excluded.
//
//go:noinline
func Live() []string {
	var s []string
	for _, t := range x.threads {
		if !t.finished && t != x.main {
			l := ""
			if t.op != nil {
				l = t.op.label
			}
			s = append(s, t.name+" at "+l)
		}
	}
	return s
}

// NoSched suspends scheduling choices (not environment choices) until the returned
// function is called; used for set-up and final observation phases.
//
//go:noinline
func NoSched() func() {
	e := x
	e.noSched++
	return func() { e.noSched-- }
}

// Sleep lets virtual time pass.
//
//go:noinline
func Sleep(ns int64) {
	if x == nil || x.killing {
		return
	}
	if ns <= 0 {
		Point("sleep")
		return
	}
	until := x.now + ns
	e := x
	park(&op{label: fmt.Sprintf("sleep %.3fs", float64(ns)/1e9),
		ready: func() bool { return e.now >= until },
		wake:  func() (int64, bool) { return until, true }})
}

// Settle lets all other threads run until nothing can run at the current virtual time.
//
//go:noinline
func Settle() {
	if x == nil || x.killing {
		return
	}
	e := x
	t := e.cur
	park(&op{label: "settle", ready: func() bool {
		for _, o := range e.threads {
			if o == t || o.finished || o.op == nil {
				continue
			}
			if o.op.label == "settle" {
				continue
			}
			if e.enabled(o) {
				return false
			}
		}
		return true
	}})
}

// N, Cost and Label describe a choice.
func (c choice) N() int        { return c.n }
func (c choice) Cost() int     { return c.cost }
func (c choice) Label() string { return c.label }
