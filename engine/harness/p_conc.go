package harness

import (
	"fmt"
	"strings"

	rpc "github.com/ti-mo/comfo/rpc/comfo"
	"github.com/ti-mo/comfo/zzverif/vrt"
)

func init() {
	register("C16", propC16)
	register("C17", propC17)
	register("C18", propC18)
	register("C19", propC19)
}

// ---- C16: concurrent calls take effect one after the other ----

// ust is the state of the sequential specification.
type ust struct {
	mode    byte
	prof    [8]byte // OutAway OutLow OutMid InAway InLow InMid OutHigh InHigh
	comfort int
}

type srvOp struct {
	name string
	do   func(a rpc.Comfo) string
	// spec applies the call to the state and renders the response it must give
	spec func(st *ust) string
}

func modResp(mod bool, orig, tgt uint32) string {
	return fmt.Sprintf("modified=%v %d->%d", mod, orig, tgt)
}

func opSpeed(abs uint32, rel bool) srvOp {
	return srvOp{fmt.Sprintf("SetFanSpeed(%d,%v)", abs, rel),
		func(a rpc.Comfo) string {
			r, err := a.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: abs, Rel: rel})
			if err != nil {
				return "error " + code(err)
			}
			return modResp(r.GetModified(), r.GetOriginalSpeed(), r.GetTargetSpeed())
		},
		func(st *ust) string {
			t, ok := speedTarget(st.mode, abs, rel)
			if !ok {
				return "error invalid_argument"
			}
			o := st.mode
			st.mode = t
			return modResp(o != t, uint32(o), uint32(t))
		}}
}

func opProfile(mode, tgt uint32) srvOp {
	return srvOp{fmt.Sprintf("SetFanProfile(%d,%d)", mode, tgt),
		func(a rpc.Comfo) string {
			r, err := a.SetFanProfile(bg, &rpc.FanProfileTarget{Mode: mode, TargetSpeed: tgt})
			if err != nil {
				return "error " + code(err)
			}
			return modResp(r.GetModified(), r.GetOriginalSpeed(), r.GetTargetSpeed())
		},
		func(st *ust) string {
			i := []int{3, 4, 5, 7}[mode-1]
			o := []int{0, 1, 2, 6}[mode-1]
			was, mod := st.prof[i], st.prof[i] != byte(tgt) || st.prof[o] != byte(tgt)
			st.prof[i], st.prof[o] = byte(tgt), byte(tgt)
			return modResp(mod, uint32(was), tgt)
		}}
}

func opComfort(v uint32) srvOp {
	return srvOp{fmt.Sprintf("SetComfortTemp(%d)", v),
		func(a rpc.Comfo) string {
			r, err := a.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: v})
			if err != nil {
				return "error " + code(err)
			}
			return modResp(r.GetModified(), r.GetOriginalTemp(), r.GetTargetTemp())
		},
		func(st *ust) string {
			o := st.comfort
			st.comfort = int(v)
			return modResp(o != int(v), uint32(o), v)
		}}
}

func stateOf(u *Unit) ust {
	d := u.Prof
	return ust{mode: d[8], prof: [8]byte{d[0], d[1], d[2], d[3], d[4], d[5], d[10], d[11]}, comfort: int(u.Temps[0])/2 - 20}
}

// permute calls f with every order of n things until it returns true.
func permute(n int, f func([]int) bool) bool {
	p := make([]int, 0, n)
	var used [8]bool
	var rec func() bool
	rec = func() bool {
		if len(p) == n {
			return f(p)
		}
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			used[i] = true
			p = append(p, i)
			if rec() {
				return true
			}
			p = p[:len(p)-1]
			used[i] = false
		}
		return false
	}
	return rec()
}

func propC16() *Prop {
	up, down := opSpeed(0, true), opSpeed(0, false)
	groups := func(max int) [][]srvOp {
		ops := []srvOp{up, down, opSpeed(4, false), opProfile(2, 44), opProfile(2, 45), opProfile(4, 44), opComfort(22), opComfort(25), opSpeed(2, false), opProfile(2, 36)}
		var o [][]srvOp
		for i := range ops {
			for j := i; j < len(ops); j++ {
				o = append(o, []srvOp{ops[i], ops[j]})
			}
		}
		if max >= 3 {
			o = [][]srvOp{
				{up, up, up}, {up, up, down}, {up, down, down}, {opSpeed(4, false), up, down}, {opSpeed(3, false), opSpeed(4, false), up},
				{up, opProfile(3, 44), up}, {opProfile(2, 44), opProfile(2, 45), up}, {opProfile(2, 44), opProfile(4, 45), opSpeed(4, false)}, {opProfile(1, 44), opProfile(2, 45), opProfile(3, 46)},
				{opComfort(22), opComfort(25), opComfort(22)}, {opComfort(22), up, opProfile(2, 44)}, {opComfort(22), opComfort(22), up},
			}
		}
		return o
	}
	body := func(n int, ramp []int64) func(c *X) {
		gs := groups(n)
		return func(c *X) {
			u := NewUnit()
			u.Temps[0] = 80
			ops := gs[pick("calls", len(gs))]
			u.RampNS = ramp[pick("ramp", len(ramp))]
			// odd phases so that ticks fall into the calls
			s := startServer(c, u)
			vrt.Sleep([]int64{sec, 4900 * ms}[pick("phase", 2)])
			start := stateOf(u)
			res := make([]string, len(ops))
			var ts []*vrt.Thread
			lt := c.late(len(ops))
			for i := range ops {
				i := i
				ts = append(ts, c.start(i, lt, ops[i].name, func() { res[i] = ops[i].do(s.a) }))
			}
			vrt.Join(ts...)
			end := stateOf(u)
			ok := permute(len(ops), func(p []int) bool {
				st := start
				for _, i := range p {
					if ops[i].spec(&st) != res[i] {
						return false
					}
				}
				return st == end
			})
			var l []string
			for i := range ops {
				l = append(l, ops[i].name+" "+res[i])
			}
			if !ok {
				c.Fail("not-atomic", "no order of the calls explains their results: %s; the unit went from %v to %v; wire %s", strings.Join(l, "; "), start, end, clip2(u.Wire()))
			}
			// the readings agree with the unit
			if got := modeOf(s.get(readingOf(cProf))); got != fmt.Sprint(end.mode, "]") && got != fmt.Sprintf("%d]", end.mode) {
				c.Fail("readings-after", "after %s the speed reading is %s, the unit's is %d", strings.Join(l, "; "), got, end.mode)
			}
			c.Outcome("%s %v", strings.Join(l, "; "), end)
		}
	}
	return &Prop{ID: "C16",
		Quick: []Scenario{
			{Name: "queue", Opt: vrt.Options{NoSched: true, Horizon: 600 * sec}, Body: changesQueue, What: "6 groups of 7 changes at the same time, fans reaching the target at once or after 0.6 s, 3 latencies, 2 phases of the ticks"},
			{Name: "pairs", Bound: 2, Body: body(2, []int64{0}), What: "every pair of 10 changing calls at 2 phases of the ticks, every schedule with up to 2 preemptions or delays"},
			{Name: "pairs-steps", Bound: 1, Opt: vrt.Options{Steps: true}, Body: body(2, []int64{0}), What: "as pairs, a preemption at any statement that touches memory other goroutines may use"},
			{Name: "triples", Bound: 1, Body: body(3, []int64{0, 600 * ms}), What: "12 triples of changing calls, fans reaching the target at once or after 0.6 s, 2 phases of the ticks, 1 preemption or delay"},
		},
		Deep: []Scenario{
			{Name: "pairs-ramp", Bound: 2, Body: body(2, []int64{600 * ms}), What: "as pairs with fans that take 0.6 s"},
			{Name: "triples-2", Bound: 2, Body: body(3, []int64{0}), What: "as triples with 2 preemptions or delays"},
			{Name: "pairs-3", Bound: 3, Body: body(2, []int64{0}), What: "as pairs with 3 preemptions or delays"},
		},
	}
}

// ---- C17: the server keeps working ----

// probeServer checks that everything works again on a unit that answers correctly.
func probeServer(c *X, s *sys, u *Unit, dead bool) {
	un := vrt.NoSched()
	defer un()
	u.Answer, u.Before = nil, nil
	vrt.Sleep(3 * sec)
	quiet(u)
	tries := func(name string, n int, f func() bool) {
		t0 := vrt.NowNS()
		for i := 0; i < n; i++ {
			if f() {
				return
			}
		}
		if !dead {
			c.Fail("stuck", "%s keeps failing on a unit that answers correctly again; wire %s", name, clip2(u.Wire()))
		}
		if d := vrt.NowNS() - t0; d > 120*sec {
			c.Fail("stuck", "%s took %.0fs", name, float64(d)/1e9)
		}
	}
	for i := range readings {
		s.get(&readings[i])
	}
	for _, t := range []int{flushAll, 0, 1, 2, 3, 4} {
		t := t
		tries(fmt.Sprintf("FlushCache(%d)", t), 3, func() bool {
			r, err := s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(t)})
			return err == nil && r.GetSuccess()
		})
	}
	r, err := s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: 6})
	if err != nil || r.GetSuccess() {
		c.Fail("stuck", "flush of an unknown type: %v, %v", r, err)
	}
	for _, o := range []srvOp{opProfile(1, 80), opSpeed(3, false), opSpeed(2, false), opComfort(30)} {
		o := o
		tries(o.name, 2, func() bool { return !strings.HasPrefix(o.do(s.a), "error") })
	}
	if !dead {
		for i := range readings {
			r := &readings[i]
			if got, w := s.get(r), r.Of(u.Payload(r.Cmd)); got != w && r.Cmd != cFans && r.Cmd != cProf {
				c.Fail("stuck", "%s is %s, the unit says %s", r.Name, got, w)
			}
		}
	}
	// and the worker still refreshes
	n := len(u.Events)
	vrt.Sleep(11 * sec)
	quiet(u)
	if len(u.framesSince(n)) < 2 {
		c.Fail("stuck", "the server does not refresh its readings any more; wire %s", clip2(u.Wire()))
	}
}

func propC17() *Prop {
	get := func(i int) srvOp {
		r := &readings[i]
		return srvOp{"Get" + r.Name, func(a rpc.Comfo) string {
			_, err := r.Get(a)
			return "error " + code(err)
		}, nil}
	}
	flush := func(t int) srvOp {
		return srvOp{fmt.Sprintf("FlushCache(%d)", t), func(a rpc.Comfo) string {
			r, err := a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(t)})
			return fmt.Sprintf("%v %v", r.GetSuccess(), err)
		}, nil}
	}
	ops := []srvOp{opSpeed(0, true), opProfile(2, 44), opComfort(22), flush(flushAll), get(3), get(1), flush(3), flush(7), flush(1), opSpeed(9, false), opProfile(9, 44), opSpeed(0, false)}
	cat := func() []answerFault {
		var o []answerFault
		for _, f := range frameFaults() {
			switch f.Name {
			case "normal", "silence", "bad checksum", "cut, silence", "too late", "empty frame", "read error", "closed":
				o = append(o, f)
			}
		}
		return o
	}()
	acat := func() []answerFault {
		var o []answerFault
		for _, f := range ackFaults() {
			switch f.Name {
			case "normal", "silence", "noise", "closed", "too late":
				o = append(o, f)
			}
		}
		return o
	}()
	body := func(n, nops int, faults bool) func(c *X) {
		return func(c *X) {
			u := NewUnit()
			s := startServer(c, u)
			vrt.Sleep([]int64{sec, 4900 * ms}[pick("phase", 2)])
			sel := make([]int, n)
			lo := 0
			for i := range sel {
				sel[i] = lo + pick("op", nops-lo)
				lo = sel[i]
			}
			dead := false
			if faults {
				u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
					fl := cat
					if isSet(e.Cmd) {
						fl = acat
					}
					f := fl[vrt.Choose("answer", len(fl), 1)]
					ch := f.F(e, def)
					for _, x := range ch {
						dead = dead || x.EOF || x.Err != nil
					}
					return ch
				}
			}
			res := make([]string, n)
			var ts []*vrt.Thread
			lt := c.late(n)
			for i := range sel {
				i := i
				ts = append(ts, c.start(i, lt, ops[sel[i]].name, func() { res[i] = ops[sel[i]].do(s.a) }))
			}
			vrt.Join(ts...)
			if d := vrt.NowNS(); d > 200*sec {
				c.Fail("stuck", "the calls took %.0fs", float64(d)/1e9)
			}
			for i := range sel {
				c.Outcome("%s %s", ops[sel[i]].name, res[i])
			}
			probeServer(c, s, u, dead)
		}
	}
	// the unit's profiles name a speed the server does not know
	odd := func(c *X) {
		u := NewUnit()
		u.Prof[8] = []byte{0, 5, 200, 255}[pick("mode", 4)]
		s := startServer(c, u)
		vrt.Sleep(sec)
		for i := 0; i < 2; i++ {
			o := ops[pick("op", len(ops))]
			c.Outcome("%s %s", o.name, o.do(s.a))
		}
		u.Prof[8] = 2
		probeServer(c, s, u, false)
	}
	start := func(c *X) {
		// faults while the server starts
		u := NewUnit()
		dead := false
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			fl := cat
			if isSet(e.Cmd) {
				fl = acat
			}
			f := fl[vrt.Choose("answer", len(fl), 1)]
			ch := f.F(e, def)
			for _, x := range ch {
				dead = dead || x.EOF || x.Err != nil
			}
			return ch
		}
		s := startServer(c, u)
		o := ops[pick("op", len(ops))]
		c.Outcome("%s %s", o.name, o.do(s.a))
		probeServer(c, s, u, dead)
	}
	// clients that go away, alone and next to one that stays
	leave := func(nops int) func(c *X) {
		return func(c *X) {
			u := NewUnit()
			u.Lat = 20 * ms
			s := startServer(c, u)
			vrt.Sleep([]int64{sec, 4990 * ms}[pick("phase", 2)])
			a, b := ops[pick("op", nops)], ops[pick("op 2", nops)]
			d := goneAfter[pick("client gone", 5)]
			both := pick("both", 2) == 1
			var ra, rb string
			t1 := vrt.GoNamed(a.name, func() { ra = a.do(leaving(s.a, d, false)) })
			t2 := vrt.GoNamed(b.name, func() {
				x := s.a
				if both {
					x = leaving(s.a, d, false)
				}
				rb = b.do(x)
			})
			vrt.Join(t1, t2)
			if d := vrt.NowNS(); d > 200*sec {
				c.Fail("stuck", "the calls took %.0fs", float64(d)/1e9)
			}
			c.Outcome("%s %s %s %s", a.name, ra, b.name, rb)
			probeServer(c, s, u, false)
		}
	}
	hz := vrt.Options{Horizon: 900 * sec}
	ns := vrt.Options{Horizon: 900 * sec, NoSched: true}
	lg := vrt.Options{Horizon: 100000 * sec, NoSched: true, MaxSteps: 20000000}
	return &Prop{ID: "C17",
		Quick: []Scenario{
			{Name: "crowd", Opt: lg, Body: crowd(ops), What: "28 clients at the same time, making one or all of 12 kinds of call, on a unit that is well, silent, silent for 8 s, or slow; then every call once more"},
			{Name: "pairs", Bound: 1, Opt: hz, Body: body(2, 12, false), What: "every pair of 12 calls (changes, flushes, reads, invalid ones) at 2 phases of the ticks, 1 preemption or delay; then every call once more"},
			{Name: "pairs-faults", Bound: 1, Opt: hz, Body: body(2, 5, true), What: "every pair of 5 calls, 1 preemption, delay or faulty answer; then every call on a unit that is well again"},
			{Name: "faults-2", Bound: 2, Opt: ns, Body: body(2, 5, true), What: "every pair of 5 calls, up to 2 faulty answers"},
			{Name: "odd-speeds", Opt: ns, Body: odd, What: "units reporting 4 speeds outside 1-4 x every sequence of 2 calls"},
			{Name: "outage", Opt: lg, Body: wedgeOutage, What: "outages of 40 s, 400 s and 2 h with every recoverable deviation all the time, while one of 7 kinds of call goes on being made; then every call once more"},
			{Name: "long-run", Opt: lg, Body: wedgeRun, What: "8 kinds of call 300 times each on a healthy unit, then every call once more"},
			{Name: "start", Bound: 2, Opt: ns, Body: start, What: "up to 2 faulty answers while the server starts and during the first call"},
			{Name: "canceled", Bound: 1, Opt: hz, Body: leave(5), What: "every ordered pair of 5 calls, the first client or both going away at 5 moments, 2 phases of the ticks, 1 preemption or delay; then every call once more"},
			{Name: "triples", Bound: 1, NoLate: true, Opt: hz, Body: body(3, 6, false), What: "every triple of 6 calls, 1 preemption or delay"},
		},
		Deep: []Scenario{
			{Name: "triples-late", Bound: 1, Opt: hz, Body: body(3, 6, false), What: "as triples, one of the calls waiting for the others unless it interrupts them"},
			{Name: "pairs-2", Bound: 2, Opt: hz, Body: body(2, 8, false), What: "pairs of 8 calls, 2 preemptions or delays"},
			{Name: "pairs-faults-2", Bound: 2, Opt: hz, Body: body(2, 4, true), What: "pairs of 4 calls, 2 preemptions, delays or faulty answers"},
		},
	}
}

// ---- C18: FlushCache ----

func propC18() *Prop {
	types := []int{0, 1, 2, 3, 4, flushAll, 5, 6, 7, 8, 9, 11, 255, -1, 1 << 30}
	single := func(c *X) {
		u := unitAt(0)
		s := startServer(c, u)
		vrt.Sleep(sec)
		fl := srvFaults()
		t := types[pick("type", len(types))]
		for round := 1; round <= 2; round++ {
			bump(u, round)
			bad := 0
			u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
				f := fl[vrt.Choose("answer", len(fl), 1)]
				if !f.OK {
					bad++
				}
				return f.F(e, def)
			}
			n := len(u.Events)
			r, err := s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(t)})
			if err != nil {
				c.Fail("flush", "FlushCache(%d): %v", t, err)
			}
			want := flushed(t)
			if len(want) == 0 {
				if r.GetSuccess() {
					c.Fail("unknown-type", "FlushCache(%d) of an unknown type succeeded", t)
				}
				if len(u.framesSince(n)) != 0 {
					c.Fail("unknown-type", "FlushCache(%d) of an unknown type caused %s", t, u.sinceN(n))
				}
				c.Outcome("unknown")
				return
			}
			if r.GetSuccess() {
				if bad > 0 {
					c.Fail("false-success", "FlushCache(%d) succeeded although a refresh failed; wire %s", t, u.sinceN(n))
				}
				seen := u.framesSince(n)
				for _, cmd := range want {
					ok := false
					for _, e := range seen {
						ok = ok || e.Cmd == cmd
					}
					rd := readingOf(cmd)
					if got := s.get(rd); !ok || got != rd.Of(u.Payload(cmd)) {
						c.Fail("false-success", "FlushCache(%d) succeeded, %s is %s, the unit says %s; wire %s", t, rd.Name, got, rd.Of(u.Payload(cmd)), u.sinceN(n))
					}
				}
			} else if bad == 0 && round == 1 {
				c.Fail("false-failure", "FlushCache(%d) failed although the unit answered correctly; wire %s", t, u.sinceN(n))
			}
			c.Outcome("%d %v %d", t, r.GetSuccess(), bad)
			if bad > 0 {
				return
			}
		}
	}
	conc := func(n, ntypes int) func(c *X) {
		return func(c *X) {
			// one type cannot be refreshed; concurrent flushes must each get their own result
			u := unitAt(0)
			ph := pick("phase", 2)
			u.Lat = []int64{0, 30 * ms}[ph]
			s := startServer(c, u)
			vrt.Sleep([]int64{sec, 4990 * ms}[ph])
			ts3 := []int{1, 2, flushAll, 7, 3}[:ntypes]
			sel := make([]int, n)
			lo := 0
			for i := range sel {
				sel[i] = lo + pick("type", len(ts3)-lo)
				lo = sel[i]
			}
			broken := []byte{0, cTemps, cFans}[pick("broken", 3)]
			k := 0
			u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
				if e.Cmd == broken {
					return whole(ackSeq, refFrame(e.Cmd+1, []byte{1, 2}))
				}
				k++
				if r := readingOf(e.Cmd); r != nil {
					u.SetPayload(e.Cmd, r.Make(k))
					return []Chunk{{Delay: u.Lat, B: append(clone(ackSeq), refFrame(e.Cmd+1, u.Payload(e.Cmd))...)}}
				}
				return nil
			}
			type out struct {
				ok     bool
				err    error
				t0, t1 int // positions in the wire traffic
			}
			res := make([]out, n)
			var ts []*vrt.Thread
			lt := c.late(n)
			for i := range sel {
				i := i
				ts = append(ts, c.start(i, lt, fmt.Sprintf("flush %d", ts3[sel[i]]), func() {
					res[i].t0 = len(u.Events)
					r, err := s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(ts3[sel[i]])})
					res[i].t1 = len(u.Events)
					res[i].ok, res[i].err = r.GetSuccess(), err
				}))
			}
			vrt.Join(ts...)
			desc := ""
			for i := range sel {
				desc += fmt.Sprintf("flush %d: %v; ", ts3[sel[i]], res[i].ok)
			}
			for i := range sel {
				want := flushed(ts3[sel[i]])
				exp := len(want) > 0
				for _, w := range want {
					if w == broken {
						exp = false
					}
				}
				if res[i].err != nil || res[i].ok != exp {
					c.Fail("mixed-up", "%s broken request %02x: flush %d must report %v; error %v", desc, broken, ts3[sel[i]], exp, res[i].err)
				}
				if !res[i].ok {
					continue
				}
				// every cache was refreshed between call and return
				for _, w := range want {
					ok := false
					for _, e := range u.Events[res[i].t0:res[i].t1] {
						ok = ok || e.Kind == "frame" && e.Cmd == w
					}
					if !ok {
						c.Fail("not-refreshed", "%s flush %d returned success without a request %02x; wire during the call %s", desc, ts3[sel[i]], w, u.sinceN(res[i].t0))
					}
				}
			}
			c.Outcome("%s%02x", desc, broken)
		}
	}
	// a client that goes away does not take the others' results with it
	leave := func(c *X) {
		u := unitAt(0)
		u.Lat = 20 * ms
		s := startServer(c, u)
		vrt.Sleep([]int64{sec, 4990 * ms}[pick("phase", 2)])
		tt := []int{1, 2, flushAll, 7}
		ta, tb := tt[pick("type", 4)], tt[pick("type 2", 4)]
		broken := []byte{cTemps, cFans}[pick("broken", 2)]
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			if e.Cmd == broken {
				return whole(ackSeq, refFrame(e.Cmd+1, []byte{1, 2}))
			}
			return nil
		}
		exp := func(t int) bool {
			l := flushed(t)
			ok := len(l) > 0
			for _, w := range l {
				ok = ok && w != broken
			}
			return ok
		}
		d := goneAfter[pick("client gone", 5)]
		fl := func(a rpc.Comfo, t int, gone bool) {
			n := len(u.Events)
			r, err := a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(t)})
			if r.GetSuccess() && !exp(t) || !gone && (err != nil || r.GetSuccess() != exp(t)) {
				c.Fail("mixed-up", "flush %d with request %02x broken (client gone: %v): %v, %v; wire %s", t, broken, gone, r, err, u.sinceN(n))
			}
		}
		t1 := vrt.GoNamed("flush, leaving", func() { fl(leaving(s.a, d, false), ta, true) })
		t2 := vrt.GoNamed("flush", func() { fl(s.a, tb, false) })
		vrt.Join(t1, t2)
		for _, t := range []int{tb, 7, 1, 2, 0} {
			fl(s.a, t, false)
		}
		c.Outcome("ok")
	}
	// another call at the same time: a refresh that it began before the flush does not count
	beside := func(c *X) {
		u := unitAt(0)
		u.Lat = []int64{0, 30 * ms}[pick("latency", 2)]
		s := startServer(c, u)
		vrt.Sleep(sec)
		bump(u, 1)
		t := []int{0, 1, 2, 3, 4, flushAll}[pick("type", 6)]
		o := pick("other", 9)
		d := []int64{0, 10 * ms, 40 * ms, 75 * ms}[pick("after", 4)]
		if o < 6 && d > 0 {
			return
		}
		other := vrt.GoNamed("other call", func() {
			switch o {
			case 6:
				s.a.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: uint32(u.Prof[8]%4 + 1)})
			case 7:
				s.a.SetFanProfile(bg, &rpc.FanProfileTarget{Mode: 2, TargetSpeed: 77})
			case 8:
				s.a.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: 23})
			default:
				readings[o].Get(s.a)
			}
		})
		fl := vrt.GoNamed("flush", func() {
			vrt.Sleep(d)
			n := len(u.Events)
			r, err := s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(t)})
			if err != nil || !r.GetSuccess() {
				c.Fail("false-failure", "FlushCache(%d): %v, %v although the unit answered correctly; wire %s", t, r, err, u.sinceN(n))
			}
			for _, w := range flushed(t) {
				ok := false
				for _, e := range u.framesSince(n) {
					ok = ok || e.Cmd == w
				}
				if !ok {
					c.Fail("not-refreshed", "FlushCache(%d) beside another call (%d) returned success without a request %02x; wire during the call %s", t, o, w, u.sinceN(n))
				}
			}
		})
		vrt.Join(other, fl)
		c.Outcome("%d %d %d", t, o, len(u.framesSince(0)))
	}
	ns := vrt.Options{NoSched: true}
	return &Prop{ID: "C18",
		Quick: []Scenario{
			{Name: "flush", Bound: 2, Opt: ns, Body: single, What: "15 cache types (6 known), two rounds, up to two faulty answers of 14 kinds"},
			{Name: "crowd", Opt: vrt.Options{NoSched: true, Horizon: 2000 * sec}, Body: flushCrowd, What: "20 flushes at the same time, of one or all of 7 types, one kind of refresh failing at once or by silence, 3 latencies, 2 phases"},
			{Name: "two-flushes", Bound: 2, Body: conc(2, 4), What: "every pair of 4 flushes together with the worker's ticks, one kind of refresh failing or none, 2 phases, up to 2 preemptions or delays"},
			{Name: "beside", Bound: 1, Body: beside, What: "every flush beside every other call, begun at the same time or up to 75 ms later, 2 latencies, 1 preemption or delay"},
			{Name: "canceled", Bound: 1, Body: leave, What: "every pair of 4 flushes, the first client going away at 5 moments, one kind of refresh failing, 1 preemption or delay; then 5 more flushes"},
			{Name: "three-flushes", Bound: 1, Body: conc(3, 4), What: "every triple of 4 flushes, 1 preemption or delay"},
			{Name: "two-flushes-steps", Bound: 1, Opt: vrt.Options{Steps: true}, Body: conc(2, 4), What: "as two-flushes, a preemption at any statement that touches memory other goroutines may use"},
		},
		Deep: []Scenario{
			{Name: "flush-3", Bound: 3, Opt: ns, Body: single, What: "up to three faulty answers"},
			{Name: "three-flushes-2", Bound: 2, Body: conc(3, 4), What: "triples, 2 preemptions or delays"},
		},
	}
}

// ---- C19: freshness ----

func propC19() *Prop {
	const (
		alone = iota
		flushes
		busy
	)
	body := func(total int64, step int64, watch []byte, load int) func(c *X) {
		return func(c *X) {
			u := unitAt(0)
			u.Lat = []int64{0, 80 * ms}[pick("latency", 2)]
			// what the unit answered, and until when it was the unit's state
			s := startServer(c, u)
			type val struct {
				from int64
				r    string
			}
			var hist [6][]val
			k := 0
			for i, r := range readings {
				hist[i] = append(hist[i], val{0, r.Of(u.Payload(r.Cmd))})
			}
			var fAt int64 = -1
			ft := 0
			var every, next int64
			call := 0
			if load == busy {
				every = step * []int64{10, 20, 34, 45, 90, 98}[pick("every", 6)] / 100
				next = every
				call = pick("call", 12)
			}
			if load == flushes {
				offs := []int64{300, 700, 1200, 2500, 4300, 4490, 4510, 4700, 4999, 5001, 5600, 8000}
				fAt = offs[pick("flush at", len(offs))] * ms
				// relative to the last tick of the period watched
				if step > 5*sec {
					fAt += step - 5*sec
				}
				ft = []int{flushAll, 0, 1, 2, 3, 4}[pick("flush type", 6)]
			}
			worst := [6]int64{}
			for vrt.NowNS() < total {
				d := step / 4
				if step == 5*sec {
					d = 500 * ms
				}
				if load == busy {
					if vrt.NowNS() >= next {
						next += every
						switch n := int(next / every); call {
						case 6:
							s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: 7})
						case 7:
							s.a.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: uint32(1 + n%4)})
						case 8:
							s.a.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: 9})
						case 9:
							s.a.SetFanProfile(bg, &rpc.FanProfileTarget{Mode: uint32(1 + n%4), TargetSpeed: uint32(20 + n%70)})
						case 10:
							s.a.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: uint32(15 + n%10)})
						case 11:
							for i := range readings {
								s.get(&readings[i])
							}
						default:
							t := call
							if call == 5 {
								t = flushAll
							}
							s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(t)})
						}
						for i, r := range readings {
							hist[i] = append(hist[i], val{vrt.NowNS(), r.Of(u.Payload(r.Cmd))})
						}
					}
					if next < vrt.NowNS()+d {
						d = max(next-vrt.NowNS(), ms)
					}
				}
				if fAt >= 0 && vrt.NowNS()+d > fAt {
					vrt.Sleep(fAt - vrt.NowNS())
					s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(ft)})
					fAt += 2*step + 100*ms
					if step > 600*sec {
						fAt = -1
					}
				} else {
					vrt.Sleep(d)
				}
				now := vrt.NowNS()
				for i := range readings {
					r := &readings[i]
					w := false
					for _, x := range watch {
						w = w || x == r.Cmd
					}
					if !w {
						continue
					}
					got := s.get(r)
					// the youngest moment at which the unit had this value
					age := int64(1 << 62)
					h := hist[i]
					for j := range h {
						if h[j].r != got {
							continue
						}
						if j == len(h)-1 {
							age = 0
						} else if a := now - h[j+1].from; a < age {
							age = a
						}
					}
					if age > worst[i] {
						worst[i] = age
					}
					if age > 2*r.Period+2*sec {
						if age == 1<<62 {
							c.Fail("reading", "at %.1fs %s is %s, which the unit never reported", float64(now)/1e9, r.Name, got)
						}
						c.Fail("stale", "at %.1fs %s is %s, which the unit has not reported for %.1fs (refreshed every %.0fs)", float64(now)/1e9, r.Name, got, float64(age)/1e9, float64(r.Period)/1e9)
					}
				}
				// the unit's state changes
				k++
				for i, r := range readings {
					u.SetPayload(r.Cmd, r.Make(k%40))
					hist[i] = append(hist[i], val{now, r.Of(u.Payload(r.Cmd))})
					if len(hist[i]) > 39 {
						hist[i] = hist[i][1:] // far beyond what is still fresh
					}
				}
			}
			c.Outcome("%v", worst)
		}
	}
	fast := []byte{cTemps, cFans}
	slow := []byte{cProf, cByp}
	glacial := []byte{cBoot, cErrs}
	ns := vrt.Options{NoSched: true, Horizon: 200000 * sec, MaxSteps: 20000000}
	sc := vrt.Options{Horizon: 50000 * sec, MaxSteps: 20000000}
	_ = slow
	_ = glacial
	return &Prop{ID: "C19",
		Quick: []Scenario{
			{Name: "fast", Opt: ns, Body: body(40*sec, 5*sec, fast, alone), What: "temperatures and fans over 40 s, the unit's state changing every 0.5 s"},
			{Name: "fast-flush", Opt: ns, Body: body(40*sec, 5*sec, fast, flushes), What: "as fast with flushes at 12 offsets of 6 types"},
			{Name: "fast-sched", Bound: 1, Opt: sc, Body: body(25*sec, 5*sec, fast, flushes), What: "as fast-flush over 25 s under every schedule with 1 preemption or delay"},
			{Name: "fast-busy", Opt: ns, Body: body(40*sec, 5*sec, fast, busy), What: "as fast while a client makes one of 12 calls (flushes of every type, changes, refused changes, reads) every 0.5 to 4.9 s"},
			{Name: "slow-busy", Opt: ns, Body: body(1500*sec, 300*sec, slow, busy), What: "profiles and bypass over 25 minutes while a client makes one of 12 calls every 0.5 to 4.9 minutes"},
			{Name: "glacial-busy", Opt: ns, Body: body(4*3600*sec, 3600*sec, glacial, busy), What: "boot info and errors over 4 hours while a client makes one of 12 calls every 6 to 59 minutes"},
			{Name: "outage", Opt: ns, Body: freshOutage, What: "all readings after outages of 40 s, 12 minutes and 2 hours with every recoverable deviation, alone and with 3 kinds of call being made meanwhile"},
			{Name: "start", Opt: ns, Body: freshStart, What: "every reading first, right after the start, with a unit of 4 latencies and 3 states"},
			{Name: "flood", Opt: vrt.Options{NoSched: true, Fair: true, Horizon: 200000 * sec, MaxSteps: 20000000}, Body: freshFlood, What: "1 to 4 clients making one of 9 calls again as soon as it is answered, for 12 minutes, 2 latencies; fair scheduling"},
			{Name: "fast-hours", Opt: ns, Body: body(2*3600*sec, 5*sec, fast, alone), What: "temperatures and fans over 2 hours"},
			{Name: "slow-hours", Opt: ns, Body: body(24*3600*sec, 300*sec, slow, alone), What: "profiles and bypass over a day"},
			{Name: "slow", Opt: ns, Body: body(1500*sec, 300*sec, slow, alone), What: "profiles and bypass over 25 minutes"},
			{Name: "slow-flush", Opt: ns, Body: body(1500*sec, 300*sec, slow, flushes), What: "profiles and bypass over 25 minutes with flushes at 12 offsets of 6 types"},
			{Name: "glacial", Opt: ns, Body: body(4*3600*sec, 3600*sec, glacial, alone), What: "boot info and errors over 4 hours"},
			{Name: "glacial-flush", Opt: ns, Body: body(4*3600*sec, 3600*sec, glacial, flushes), What: "boot info and errors over 4 hours with a flush at 12 offsets of 6 types"},
		},
		Deep: []Scenario{
			{Name: "slow-sched", Bound: 1, Opt: sc, Body: body(650*sec, 300*sec, slow, flushes), What: "as slow-flush over 11 minutes with 1 preemption or delay"},
			{Name: "fast-sched-2", Bound: 2, Opt: sc, Body: body(15*sec, 5*sec, fast, flushes), What: "15 s with 2 preemptions or delays"},
		},
	}
}
