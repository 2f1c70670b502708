// Package harness holds the scenarios, the simulated unit, the oracles and the explorer.
package harness

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log/slog"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ti-mo/comfo/zzverif/resets"
	"github.com/ti-mo/comfo/zzverif/vrt"
)

// Scenario is one closed system to explore.
type Scenario struct {
	Name  string
	Bound int // deviations explored (iterated from 0)
	Opt   vrt.Options
	Body  func(*X)
	// Late: one of the concurrent calls may be late, see X.late
	Late, NoLate bool
	// HangOK: a deadlock, livelock or horizon is not judged by this scenario.
	HangOK bool
	// Tell is told how every execution ends, and nothing is judged.
	Tell func(runOut)
	// What the scenario enumerates, for the evidence file.
	What string
}

// Prop is the set of scenarios that decide one property.
type Prop struct {
	ID    string
	Quick []Scenario
	Deep  []Scenario // in addition to or instead of Quick in the thorough tier
	// DeepOnly: the thorough tier runs only Deep.
	DeepOnly bool
}

var props = map[string]func() *Prop{}

func register(id string, f func() *Prop) {
	props[id] = func() *Prop {
		p := f()
		for _, l := range [][]Scenario{p.Quick, p.Deep} {
			for i := range l {
				s := &l[i]
				if s.Bound != 1 || s.Opt.NoSched {
					continue
				}
				s.Late = !s.NoLate
				// the race detector sees what happens between synchronisation operations;
				// floods have too many statements
				if !s.Opt.Steps && id != "C20" && id != "C06" {
					s.Opt.Steps = true
					s.What += "; preemptions at every statement that touches memory other goroutines may use"
				}
			}
		}
		return p
	}
}

// X is the context of one execution.
type X struct {
	outcome strings.Builder
	finding string

	s *Scenario

	keepReads bool   // look at the answers of Get calls again at the end
	kept      []kept // answers to look at again
}

// late chooses which of n concurrent calls waits by default until the others cannot go on,
// so that a single deviation puts it anywhere into them; -1 for none.
func (c *X) late(n int) int {
	if !c.s.Late {
		return -1
	}
	return pick("late", n+1) - 1
}

// start starts the i-th concurrent call.
func (c *X) start(i, late int, name string, f func()) *vrt.Thread {
	return vrt.GoNamed(name, func() {
		if i == late {
			vrt.Late()
		}
		f()
	})
}

// Outcome adds to the observable outcome of the execution (for distinctness counts).
func (c *X) Outcome(f string, a ...any) {
	fmt.Fprintf(&c.outcome, f, a...)
	c.outcome.WriteByte(';')
}

// Fail reports a violation. key identifies what fails, for the known-findings file.
func (c *X) Fail(key, f string, a ...any) {
	if c.finding == "" && vrt.Active() {
		c.finding = key
	}
	vrt.Fail("["+key+"] "+f, a...)
}

type node struct {
	up   *node
	dev  vrt.Dev
	cost int
	gen  int
}

func (n *node) devs() []vrt.Dev {
	k := 0
	for p := n; p.up != nil; p = p.up {
		k++
	}
	d := make([]vrt.Dev, k)
	for p := n; p.up != nil; p = p.up {
		k--
		d[k] = p.dev
	}
	return d
}

// Violation is a replayable counterexample.
type Violation struct {
	Prop     string    `json:"property"`
	Tier     string    `json:"tier"`
	Scenario string    `json:"scenario"`
	Race     bool      `json:"race_build"`
	Key      string    `json:"key"`
	Status   string    `json:"status"`
	Msg      string    `json:"msg"`
	Devs     []vrt.Dev `json:"deviations"`
	Trace    []string  `json:"trace"`
	Outcome  string    `json:"outcome"`
}

// ScenStats is what a shard covered of a scenario.
type ScenStats struct {
	Name        string           `json:"name"`
	What        string           `json:"what,omitempty"`
	Bound       int              `json:"bound"`
	Completed   int              `json:"completed_bound"`
	Executions  int64            `json:"executions"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	ByCost      map[string]int64 `json:"executions_by_deviations"`
	Complete    bool             `json:"complete"`
	Outcomes    []uint64         `json:"outcomes"`
	Diverged    int64            `json:"diverged"`
	Replayed    int64            `json:"replayed_identically"`
	Samples     []string         `json:"samples,omitempty"`
	Notes       map[string]int64 `json:"notes,omitempty"`
	WallS       float64          `json:"wall_s"`
	Skipped     bool             `json:"skipped,omitempty"`
}

type report struct {
	Scenarios  []ScenStats `json:"scenarios"`
	Violations []Violation `json:"violations"`
}

// discard renders what is logged, at the level the program runs with, and drops it.
type discard struct{}

// debugLog: the execution under way runs with debug messages on.
var debugLog bool

func (discard) Enabled(_ context.Context, l slog.Level) bool {
	return debugLog || l >= slog.LevelInfo && !vrt.RaceEnabled
}

func (discard) Handle(_ context.Context, r slog.Record) error {
	r.Attrs(func(a slog.Attr) bool {
		fmt.Fprint(io.Discard, a.Key, a.Value.Resolve().Any())
		return true
	})
	return nil
}

func (d discard) WithAttrs([]slog.Attr) slog.Handler { return d }
func (d discard) WithGroup(string) slog.Handler      { return d }

type runOut struct {
	res     *vrt.Result
	outcome string
	key     string
	failed  bool
}

// The execution under way, for the watchdog.
var watch struct {
	sync.Mutex
	s     *Scenario
	devs  []vrt.Dev
	since time.Time
}

// watchdog calls f when an execution has not come to an end after a minute of real
// time: the code under test computes without ever reaching an operation the controlled
// runtime could see. Executions take milliseconds; the longest take well under a second.
// The same goes for one that takes gigabytes on its own.
func watchdog(f func(s *Scenario, devs []vrt.Dev)) {
	go func() {
		var seen time.Time
		var base uint64
		var m runtime.MemStats
		for {
			time.Sleep(250 * time.Millisecond)
			watch.Lock()
			if watch.s != nil {
				runtime.ReadMemStats(&m)
				if watch.since != seen {
					seen, base = watch.since, m.HeapAlloc
				}
				if time.Since(watch.since) > spinLimit || m.HeapAlloc > base+memLimit {
					f(watch.s, watch.devs)
				}
			}
			watch.Unlock()
		}
	}()
}

const (
	spinLimit = 60 * time.Second
	memLimit  = 1536 << 20
)

func setWatch(s *Scenario, devs []vrt.Dev) {
	watch.Lock()
	watch.s, watch.devs, watch.since = s, devs, time.Now()
	watch.Unlock()
	if progress != nil && s != nil {
		b := append(progressBuf[:0], s.Name...)
		for _, d := range devs {
			b = fmt.Appendf(b, " %d,%d,%d", d.Pos, d.Alt, d.N)
		}
		progressBuf = append(b, '\n')
		progress.WriteAt(progressBuf, 0)
	}
}

// progress says which execution is under way, should it bring the process down.
var (
	progress    *os.File
	progressBuf []byte
)

func runOne(s *Scenario, devs []vrt.Dev, tracing bool) runOut {
	setWatch(s, devs)
	defer setWatch(nil, nil)
	c := &X{s: s}
	debugLog = false
	res := vrt.Run(s.Opt, devs, tracing, func() {
		un := vrt.NoSched()
		resets.All()
		if RootReset != nil {
			RootReset()
		}
		un()
		s.Body(c)
		c.unchanged()
	})
	o := runOut{res: res, outcome: c.outcome.String(), key: c.finding}
	switch res.Status {
	case vrt.StOK, vrt.StDiverged:
	case vrt.StDeadlock, vrt.StHorizon, vrt.StSteps:
		o.failed = !s.HangOK
		if o.key == "" {
			o.key = "hang"
		}
	case vrt.StRace:
		o.failed = true
		o.key = "race"
	case vrt.StPanic:
		o.failed = true
		o.key = "panic"
	default:
		o.failed = true
	}
	if s.Tell != nil {
		s.Tell(o)
		o.failed = false
	}
	return o
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

var notes = map[string]int64{}

// Note counts something measured during executions.
func Note(k string) { notes[k]++ }

func explore(p *Prop, tier string, s *Scenario, shard, shards int, deadline time.Time, maxViol int, known map[string]bool) (ScenStats, []Violation) {
	t0 := time.Now()
	st := ScenStats{Name: s.Name, What: s.What, Bound: s.Bound, ByCost: map[string]int64{}, Complete: true}
	notes = map[string]int64{}
	outcomes := map[uint64]struct{}{}
	var viol []Violation
	seenKey := map[string]int{}
	out := false
	st.Completed = -1
	for bound := 0; bound <= s.Bound && !out; bound++ {
		// Iterative deepening: every execution with at most `bound` deviations; those with
		// fewer were judged in an earlier round and only lead to their children here.
		gen1, gen2 := 0, 0
		any := false
		stack := []*node{{}}
		for len(stack) > 0 {
			n := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if time.Now().After(deadline) {
				out = true
				break
			}
			mine := true
			if n.gen == 0 {
				mine = shard == 0
			} else if n.gen == 1 {
				mine = gen1%shards == shard
				gen1++
				if gen1 > 3000 && !mine {
					continue // beyond this many, whole subtrees are dealt out
				}
			}
			if n.cost == bound {
				any = true
			}
			devs := n.devs()
			r := runOne(s, devs, false)
			if r.res.Status == vrt.StDiverged {
				st.Diverged++
				st.Complete = false
				continue
			}
			lastPos := -1
			if n.up != nil {
				lastPos = n.dev.Pos
			}
			ch := r.res.Choices
			if mine && n.cost == bound {
				st.Executions++
				st.Transitions += int64(r.res.Steps)
				st.States += int64(len(ch) - lastPos)
				st.ByCost[fmt.Sprint(n.cost)]++
				h := hash(r.outcome + string(r.res.Status))
				if _, ok := outcomes[h]; !ok && len(outcomes) < 200000 {
					outcomes[h] = struct{}{}
					if len(st.Samples) < 3 {
						st.Samples = append(st.Samples, fmt.Sprintf("deviations [%v] -> %s", short(devs), clip(r.outcome, 400)))
					}
				}
				if st.Executions%499 == 1 {
					// determinism of the controlled runtime: the same schedule again
					sv := notes
					notes = map[string]int64{}
					r2 := runOne(s, devs, false)
					notes = sv
					if r2.outcome == r.outcome && r2.res.Steps == r.res.Steps && r2.res.Status == r.res.Status {
						st.Replayed++
					} else if r.res.Status != vrt.StRace {
						st.Diverged++
						st.Complete = false
					}
				}
				if r.failed && seenKey[r.key] < maxViol {
					v := Violation{Prop: p.ID, Tier: tier, Scenario: s.Name, Race: vrt.RaceEnabled, Key: r.key, Status: string(r.res.Status), Msg: r.res.Msg, Devs: devs, Outcome: r.outcome}
					if r.res.Status == vrt.StRace && !confirmed(v) {
						Note("race reports that no fresh process repeated")
					} else {
						seenKey[r.key]++
						viol = append(viol, v)
					}
					if seenKey[r.key] > 0 && !known[r.key] {
						// one counterexample ends this scenario
						out = true
						break
					}
				}
			}
			for i := len(ch) - 1; i > lastPos; i-- {
				c := n.cost + ch[i].Cost()
				if c > bound {
					continue
				}
				for alt := ch[i].N() - 1; alt >= 1; alt-- {
					if n.gen == 1 && gen1 <= 3000 {
						g := gen2
						gen2++
						if g%shards != shard {
							continue
						}
					}
					stack = append(stack, &node{up: n, dev: vrt.Dev{Pos: i, Alt: alt, N: ch[i].N(), K: ch[i].Label()}, cost: c, gen: n.gen + 1})
				}
			}
		}
		_ = any
		if !out {
			st.Completed = bound
		}
	}
	if out {
		st.Complete = false
	}
	for h := range outcomes {
		st.Outcomes = append(st.Outcomes, h)
	}
	sort.Slice(st.Outcomes, func(i, j int) bool { return st.Outcomes[i] < st.Outcomes[j] })
	if len(st.Outcomes) > 50000 {
		st.Outcomes = st.Outcomes[:50000]
	}
	st.Notes = notes
	st.WallS = time.Since(t0).Seconds()
	return st, viol
}

// confirmed runs the schedule of a race report again in processes of its own. (In this one
// the detector has told of this race once and won't again.) The detector misses races but
// invents none; still, about once in a million executions it names, as the other access of
// a race, one to memory that has been freed and allocated again since.
func confirmed(v Violation) bool {
	f, err := os.CreateTemp(".", "race")
	if err != nil {
		return true
	}
	defer os.Remove(f.Name())
	json.NewEncoder(f).Encode(v)
	f.Close()
	self, err := os.Executable()
	if err != nil {
		return true
	}
	for range 8 {
		c := exec.Command(self, "-replay", f.Name())
		c.Stderr = os.Stderr
		err := c.Run()
		if err == nil {
			continue
		}
		return true
	}
	return false
}

func short(d []vrt.Dev) string {
	var s []string
	for _, v := range d {
		s = append(s, fmt.Sprintf("%s@%d=%d/%d", v.K, v.Pos, v.Alt, v.N))
	}
	return strings.Join(s, ",")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func scenarios(p *Prop, tier string) []Scenario {
	if tier == "thorough" {
		if p.DeepOnly {
			return p.Deep
		}
		return append(append([]Scenario{}, p.Quick...), p.Deep...)
	}
	return p.Quick
}

// Main is the entry point of the checker binary.
func Main(args []string) int {
	fs := flag.NewFlagSet("mc", flag.ExitOnError)
	id := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	shard := fs.Int("shard", 0, "shard")
	shards := fs.Int("shards", 1, "shards")
	budget := fs.Float64("budget", 60, "seconds")
	out := fs.String("out", "", "report file")
	replay := fs.String("replay", "", "replay a violation file")
	known := fs.String("known", "", "comma separated keys of known findings")
	prog := fs.String("progress", "", "file that says which execution is under way")
	only := fs.String("scenario", "", "only this scenario")
	bound := fs.Int("bound", -1, "override bound")
	fs.Parse(args)
	slog.SetDefault(slog.New(discard{}))
	if *replay != "" {
		return replayFile(*replay)
	}
	if *prog != "" {
		f, err := os.Create(*prog)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		progress = f
	}
	mk := props[*id]
	if mk == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		return 3
	}
	p := mk()
	kn := map[string]bool{}
	for _, k := range strings.Split(*known, ",") {
		if k != "" {
			kn[k] = true
		}
	}
	scen := scenarios(p, *tier)
	end := time.Now().Add(time.Duration(*budget * float64(time.Second)))
	rep := report{Violations: []Violation{}}
	stopAll := false
	write := func() int {
		b, _ := json.MarshalIndent(rep, "", " ")
		if *out == "" {
			os.Stdout.Write(append(b, '\n'))
		} else if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		return 0
	}
	watchdog(func(s *Scenario, devs []vrt.Dev) {
		rep.Scenarios = append(rep.Scenarios, ScenStats{Name: s.Name, Skipped: true})
		rep.Violations = append(rep.Violations, Violation{Prop: p.ID, Tier: *tier, Scenario: s.Name, Race: vrt.RaceEnabled, Key: "spin", Status: "spin", Msg: spinMsg, Devs: devs})
		os.Exit(write())
	})
	for i := range scen {
		s := &scen[i]
		if *only != "" && s.Name != *only {
			continue
		}
		if *bound >= 0 {
			s.Bound = *bound
		}
		if stopAll {
			break
		}
		// share what is left of the budget evenly among the scenarios left
		left := time.Until(end)
		dl := time.Now().Add(left / time.Duration(len(scen)-i) * 2)
		if dl.After(end) {
			dl = end
		}
		if left < 0 {
			rep.Scenarios = append(rep.Scenarios, ScenStats{Name: s.Name, Skipped: true})
			continue
		}
		st, v := explore(p, *tier, s, *shard, *shards, dl, 3, kn)
		rep.Scenarios = append(rep.Scenarios, st)
		for _, w := range v {
			// classify before believing: the same schedule must fail every time
			ok := true
			if w.Status != string(vrt.StRace) {
				for k := 0; k < 5; k++ {
					r := runOne(s, w.Devs, false)
					if !r.failed || r.key != w.Key {
						ok = false
					}
				}
			}
			if !ok {
				rep.Scenarios[len(rep.Scenarios)-1].Diverged++
				rep.Scenarios[len(rep.Scenarios)-1].Complete = false
				continue
			}
			if !vrt.RaceEnabled {
				// tracing formats values of the code under test: not under the race detector
				w.Trace = runOne(s, w.Devs, true).res.Trace
			}
			rep.Violations = append(rep.Violations, w)
			if !kn[w.Key] {
				stopAll = true
			}
		}
	}
	return write()
}

const spinMsg = "the execution does not end: after a minute of real time it still computes (or has taken gigabytes of memory) without reaching a synchronisation, channel, timer or transport operation"

func replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	mk := props[v.Prop]
	if mk == nil {
		return 3
	}
	p := mk()
	for _, s := range append(append([]Scenario{}, p.Quick...), p.Deep...) {
		if s.Name != v.Scenario {
			continue
		}
		watchdog(func(*Scenario, []vrt.Dev) {
			fmt.Println("status=spin\n" + spinMsg)
			os.Exit(1)
		})
		r := runOne(&s, v.Devs, !vrt.RaceEnabled)
		for _, l := range r.res.Trace {
			fmt.Println(l)
		}
		fmt.Printf("status=%s key=%s\n%s\noutcome=%s\n", r.res.Status, r.key, r.res.Msg, r.outcome)
		if r.failed {
			return 1
		}
		return 0
	}
	return 3
}
