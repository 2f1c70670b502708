package harness

import (
	"fmt"
	"strings"

	"github.com/ti-mo/comfo/libcomfo"
	"github.com/ti-mo/comfo/zzverif/vrt"
)

func init() {
	register("C08", propC08)
	register("C09", propC09)
	register("C10", propC10)
	register("C11", propC11)
}

// libOp is a library call with an own oracle for its result.
type libOp struct {
	Name string
	Cmds []byte // requests it makes, in order
	Do   func(u *Unit) (string, error)
	Want func(d []byte) string // the result for a payload
}

func libOps() []libOp {
	get := func(i int) libOp {
		m := getMsgs[i]
		return libOp{m.Name, []byte{m.Cmd}, func(u *Unit) (string, error) { return callGet(m, u) },
			func(d []byte) string { w, _ := refGet(m, d); return w }}
	}
	var none func(d []byte) string
	return []libOp{
		get(4), // temperatures
		get(0), // fans
		{"SetSpeed", []byte{cSpeed}, func(u *Unit) (string, error) { return "", libcomfo.SetSpeed(2, u) }, none},
		{"SetFanProfile", []byte{cProf, cSetProf}, func(u *Unit) (string, error) { return "", libcomfo.SetFanProfile(1, 36, u) }, none},
		{"SetComfort", []byte{cComfort}, func(u *Unit) (string, error) { return "", libcomfo.SetComfort(20, u) }, none},
		get(6), // bypass
	}
}

// ---- C08: exchanges are exclusive ----

func propC08() *Prop {
	body := func(threads, nops int, faults bool) func(c *X) {
		return func(c *X) {
			u := NewUnit()
			u.Lat = []int64{0, 20 * ms}[pick("latency", 2)]
			ops := libOps()
			n := nops
			sel := make([]int, threads)
			lo := 0
			for i := range sel {
				sel[i] = lo + pick("op", n-lo)
				lo = sel[i]
			}
			bad := 0
			open := ""
			openAt := int64(0)
			silent := false
			u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
				if !faults {
					return nil
				}
				switch vrt.Choose("answer", 3, 1) {
				case 1:
					bad++
					silent = true
					return []Chunk{}
				case 2:
					bad++
					d := clone(def)
					if len(d) > 6 {
						d[len(d)-3]++
					} else {
						d[1] = 0xF0
					}
					return whole(d)
				}
				return nil
			}
			check := u.p.onEv
			u.p.onEv = func(e Ev) {
				switch e.Kind {
				case "frame":
					if open != "" && !(faults && (!silent || vrt.NowNS() >= openAt+sec)) {
						c.Fail("interleaved", "the unit saw request %s while the exchange of %s was not finished; wire %s", e, open, u.Wire())
					}
					open, openAt, silent = e.String(), vrt.NowNS(), false
				case "ack":
					if open == "" {
						c.Fail("interleaved", "the unit saw an acknowledgement without an exchange; wire %s", u.Wire())
					}
					open = ""
				default:
					c.Fail("interleaved", "the unit saw %s; wire %s", e, u.Wire())
				}
				check(e)
			}
			res := make([]string, threads)
			errs := make([]error, threads)
			var ts []*vrt.Thread
			lt := c.late(threads)
			for i := 0; i < threads; i++ {
				i := i
				ts = append(ts, c.start(i, lt, fmt.Sprintf("%d:%s", i, ops[sel[i]].Name), func() {
					res[i], errs[i] = ops[sel[i]].Do(u)
				}))
			}
			vrt.Join(ts...)
			nf := 0
			for i := range ts {
				o := ops[sel[i]]
				c.Outcome("%s %v", o.Name, errs[i] == nil)
				if errs[i] != nil {
					nf++
					if bad == 0 {
						c.Fail("failed", "%s failed with %v although the unit answered every request correctly; wire %s", o.Name, errs[i], u.Wire())
					}
				} else if o.Want != nil {
					ok := false
					for _, a := range u.Ans {
						ok = ok || a.Cmd == o.Cmds[0] && o.Want(a.Data) == res[i]
					}
					if !ok {
						c.Fail("mixed-up", "%s returned %s, which is none of the unit's answers; wire %s", o.Name, res[i], u.Wire())
					}
				}
			}
			if nf > bad {
				c.Fail("failed", "%d calls failed although only %d exchanges did; wire %s", nf, bad, u.Wire())
			}
			w := ""
			for _, e := range u.Events {
				w += fmt.Sprintf("%s%02x ", e.Kind[:1], e.Cmd)
			}
			c.Outcome("%s", w)
		}
	}
	// two connections, each with a unit of its own: nothing of one reaches the other
	apart := func(nops int, faults bool) func(c *X) {
		return func(c *X) {
			us := []*Unit{NewUnit(), NewUnit()}
			us[1].Temps, us[1].Fans, us[1].Byp = clone(us[0].Temps), clone(us[0].Fans), clone(us[0].Byp)
			us[1].Temps[1], us[1].Fans[0], us[1].Byp[2], us[1].Prof[0] = 99, 77, 9, 66
			ops := libOps()
			var sel, bad [2]int
			fl := []answerFault{{}}
			for _, f := range frameFaults() {
				switch f.Name {
				case "silence", "bad checksum", "too late", "cut, silence", "closed":
					fl = append(fl, f)
				}
			}
			for i := range sel {
				i := i
				sel[i] = pick("op", nops)
				us[i].Lat = int64(i) * 20 * ms
				us[i].Answer = func(u *Unit, e Ev, def []byte) []Chunk {
					if !faults || isSet(e.Cmd) {
						return nil
					}
					if k := vrt.Choose("answer", len(fl), 1); k > 0 {
						bad[i]++
						return fl[k].F(e, def)
					}
					return nil
				}
			}
			var ts []*vrt.Thread
			lt := c.late(2)
			var res [2][2]string
			var errs [2][2]error
			for i := range sel {
				i := i
				ts = append(ts, c.start(i, lt, fmt.Sprintf("%d:%s", i, ops[sel[i]].Name), func() {
					for k := range res[i] {
						res[i][k], errs[i][k] = ops[sel[i]].Do(us[i])
					}
				}))
			}
			vrt.Join(ts...)
			for i := range sel {
				o := ops[sel[i]]
				for k := range res[i] {
					c.Outcome("%d %s %v", i, o.Name, errs[i][k])
					if errs[i][k] != nil {
						if bad[i] == 0 {
							c.Fail("failed", "%s failed with %v although its unit answered correctly; wire %s; other connection %s", o.Name, errs[i][k], us[i].Wire(), us[1-i].Wire())
						}
					} else if o.Want != nil && o.Want(us[i].Payload(o.Cmds[0])) != res[i][k] {
						c.Fail("mixed-up", "%s returned %s, its unit's answer is %s; wire %s; other connection %s", o.Name, res[i][k], o.Want(us[i].Payload(o.Cmds[0])), us[i].Wire(), us[1-i].Wire())
					}
				}
				for _, e := range us[i].FramesSeen() {
					ok := false
					for _, x := range o.Cmds {
						ok = ok || x == e.Cmd
					}
					if !ok {
						c.Fail("mixed-up", "the unit of %s saw the request %s", o.Name, e)
					}
				}
			}
		}
	}
	// an answer that comes too late on one connection, at the very moment of one on the other
	crossing := func(c *X) {
		us := []*Unit{NewUnit(), NewUnit()}
		us[1].Temps, us[1].Fans, us[1].Byp = clone(us[0].Temps), clone(us[0].Fans), clone(us[0].Byp)
		us[1].Temps[1], us[1].Fans[0], us[1].Byp[2], us[1].Prof[0] = 99, 77, 9, 66
		us[1].Lat = 20 * ms
		ops := libOps()
		a, b := ops[[]int{0, 1, 5}[pick("op", 3)]], ops[[]int{0, 1, 5}[pick("other op", 3)]]
		first := true
		us[0].Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			if first {
				first = false
				return []Chunk{{Delay: 1020 * ms, B: clone(def)}}
			}
			return nil
		}
		gap := []int64{0, 10 * ms, 20 * ms}[pick("gap", 3)]
		a.Do(us[0])
		vrt.Sleep(gap)
		us[1].Lat = 20*ms - gap
		got, err := b.Do(us[1])
		if want := b.Want(us[1].Payload(b.Cmds[0])); err != nil || got != want {
			c.Fail("mixed-up", "%s on the second connection returned %s, %v, its unit's answer is %s, while the first connection received a late answer to %s; wire %s", b.Name, got, err, want, a.Name, us[1].Wire())
		}
		vrt.Sleep(sec)
		got, err = a.Do(us[0])
		if want := a.Want(us[0].Payload(a.Cmds[0])); err != nil || got != want {
			c.Fail("mixed-up", "%s on the first connection returned %s, %v after a late answer, its unit's answer is %s; wire %s", a.Name, got, err, want, us[0].Wire())
		}
		c.Outcome("%s %s", a.Name, b.Name)
	}
	// many callers in line behind failing or slow exchanges
	queue := func(c *X) {
		const n = 16
		u := NewUnit()
		ops := libOps()
		dead := []int{0, 1, 5, 12, 15}[pick("unanswered", 5)]
		u.Lat = []int64{20 * ms, 950 * ms}[pick("latency", 2)]
		setters := pick("operations", 2) == 1
		gone := 0
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			if gone < dead {
				gone++
				return []Chunk{}
			}
			return nil
		}
		var ts []*vrt.Thread
		var errs [n]error
		for i := 0; i < n; i++ {
			i := i
			o := ops[[]int{0, 1, 5}[i%3]]
			if setters {
				o = ops[[]int{2, 4, 3}[i%3]]
			}
			ts = append(ts, vrt.GoNamed(o.Name, func() { _, errs[i] = o.Do(u) }))
		}
		vrt.Join(ts...)
		nf := 0
		var last error
		for _, err := range errs {
			if err != nil {
				nf++
				last = err
			}
		}
		if nf != dead {
			c.Fail("failed", "%d of %d calls made at the same time failed although %d exchanges were not answered: %v; wire %s", nf, n, dead, last, clip2(u.Wire()))
		}
		c.Outcome("%d %d %v", dead, nf, setters)
	}
	sf := vrt.Options{}
	return &Prop{ID: "C08",
		Quick: []Scenario{
			{Name: "queue", Opt: vrt.Options{NoSched: true}, Body: queue, What: "16 callers at the same time, readers or setters, the first 0, 1, 5, 12 or 15 exchanges unanswered, answers after 20 or 950 ms"},
			{Name: "two-connections", Bound: 1, Opt: sf, Body: apart(6, false), What: "every pair of 6 operations, twice each, on two connections, 1 preemption or delay"},
			{Name: "two-connections-crossing", Bound: 2, Body: crossing, What: "3 x 3 operations on two connections, a late answer on one arriving together with the answer on the other, 3 gaps, 2 preemptions or delays"},
			{Name: "two-connections-faults", Bound: 1, Opt: sf, Body: apart(4, true), What: "pairs of 4 operations, twice each, on two connections, 1 preemption, delay or faulty answer of 5 kinds to one of them"},
			{Name: "two-connections-steps", Bound: 2, Opt: vrt.Options{Steps: true}, Body: apart(4, false), What: "as two-connections with 4 operations, a preemption at any statement that touches memory other goroutines may use"},
			{Name: "two-callers", Bound: 2, Opt: sf, Body: body(2, 6, false), What: "every pair of 6 operations on one connection, all schedules with up to 2 preemptions or delays"},
			{Name: "three-callers", Bound: 1, Opt: sf, Body: body(3, 5, false), What: "every triple of 5 operations, 1 preemption or delay"},
			{Name: "two-callers-faults", Bound: 2, Opt: sf, Body: body(2, 4, true), What: "pairs of 4 operations, up to 2 preemptions, delays or faulty answers (silence, damage) in any combination"},
			{Name: "two-callers-steps", Bound: 2, Opt: vrt.Options{Steps: true}, Body: body(2, 4, false), What: "pairs of 4 operations, a preemption at any statement that touches memory other goroutines may use"},
		},
		Deep: []Scenario{
			{Name: "two-connections-deep", Bound: 2, Opt: sf, Body: apart(4, true), What: "as two-connections-faults with 2 deviations"},
			{Name: "two-callers-deep", Bound: 3, Opt: sf, Body: body(2, 4, false), What: "pairs of 4 operations, 3 preemptions or delays"},
			{Name: "three-callers-deep", Bound: 2, Opt: sf, Body: body(3, 4, false), What: "triples of 4 operations, 2 preemptions or delays"},
			{Name: "two-callers-faults-deep", Bound: 3, Opt: sf, Body: body(2, 3, true), What: "pairs of 3 operations, 3 preemptions, delays or faults"},
		},
	}
}

// ---- C09: set requests carry the requested value or nothing ----

func propC09() *Prop {
	ns := vrt.Options{NoSched: true}
	one := func(c *X, u *Unit, what string, err error, valid bool, want []Ev) {
		if !valid {
			if err == nil {
				c.Fail("range", "%s was accepted", what)
			}
			if len(u.Events) != 0 {
				c.Fail("range", "%s was refused, but the unit saw %s", what, u.Wire())
			}
			return
		}
		if err != nil {
			c.Fail("refused", "%s was refused: %v", what, err)
		}
		fr := u.FramesSeen()
		if len(fr) != len(want) {
			c.Fail("encoding", "%s: the unit saw %s", what, u.Wire())
		}
		for i := range want {
			if fr[i].Cmd != want[i].Cmd || !eq(fr[i].Data, want[i].Data) {
				c.Fail("encoding", "%s: the unit saw %s, expected request %02x % x", what, u.Wire(), want[i].Cmd, want[i].Data)
			}
		}
	}
	profiles := [][]byte{
		{15, 35, 50, 16, 36, 51, 35, 36, 2, 1, 70, 71, 0, 0},
		{7, 0, 255, 0x0F, 0xF0, 0xF3, 1, 2, 3, 0, 7, 7, 9, 9},
	}
	body := func(c *X) {
		switch pick("call", 5) {
		case 0:
			v := pick("value", 256)
			u := NewUnit()
			err := libcomfo.SetComfort(uint8(v), u)
			one(c, u, fmt.Sprintf("SetComfort(%d)", v), err, v <= 107, []Ev{{Cmd: cComfort, Data: []byte{byte((v + 20) * 2)}}})
			c.Outcome("comfort %d %v", v, err)
		case 1:
			v := pick("value", 256)
			u := NewUnit()
			err := libcomfo.SetSpeed(uint8(v), u)
			one(c, u, fmt.Sprintf("SetSpeed(%d)", v), err, v <= 4, []Ev{{Cmd: cSpeed, Data: []byte{byte(v)}}})
			c.Outcome("speed %d %v", v, err)
		case 2:
			mode := pick("mode", 256)
			pr := pick("profile", len(profiles))
			for v := 0; v < 256; v++ {
				if mode > 3 && v > 4 && v < 250 && v != 100 {
					continue
				}
				Note("SetFanProfile calls")
				u := NewUnit()
				u.Prof = clone(profiles[pr])
				d := u.Prof
				w := []byte{d[0], d[1], d[2], d[3], d[4], d[5], d[10], d[11]}
				if mode <= 3 {
					b := byte(v)
					switch mode {
					case 0:
						w[0], w[3] = b, b
					case 1:
						w[1], w[4] = b, b
					case 2:
						w[2], w[5] = b, b
					case 3:
						w[6], w[7] = b, b
					}
				}
				err := libcomfo.SetFanProfile(uint8(mode), uint8(v), u)
				one(c, u, fmt.Sprintf("SetFanProfile(%d, %d) on profiles % x", mode, v, profiles[pr]), err, mode <= 3 && v <= 100, []Ev{{Cmd: cProf}, {Cmd: cSetProf, Data: w}})
			}
			c.Outcome("profile %d", mode)
		case 3:
			f := pick("field", 8)
			v := byte(pick("value", 256))
			base := pick("base", 2)
			u := NewUnit()
			w := []byte{1, 2, 3, 4, 5, 6, 8, 9}
			if base == 1 {
				w = []byte{7, 7, 7, 7, 7, 7, 7, 7}
			}
			w[f] = v
			err := libcomfo.SetFanProfiles(&libcomfo.FanProfiles{OutAway: w[0], OutLow: w[1], OutMid: w[2], InAway: w[3], InLow: w[4], InMid: w[5], OutHigh: w[6], InHigh: w[7],
				CurrentIn: 77, CurrentOut: 78, CurrentMode: 4, InFanActive: true}, u)
			one(c, u, fmt.Sprintf("SetFanProfiles(% x)", w), err, true, []Ev{{Cmd: cSetProf, Data: w}})
			c.Outcome("profiles %d %d", f, v)
		case 4:
			// every value of a two-byte combination in the profile the unit reports
			i, j := pick("i", 14), pick("j", 14)
			mode := pick("mode", 4)
			sp := []byte{7, 0x0F, 0xF0, 0xF3, 0, 255}
			u := NewUnit()
			u.Prof[i] = sp[pick("vi", len(sp))]
			u.Prof[j] = sp[pick("vj", len(sp))]
			d := clone(u.Prof)
			w := []byte{d[0], d[1], d[2], d[3], d[4], d[5], d[10], d[11]}
			switch mode {
			case 0:
				w[0], w[3] = 7, 7
			case 1:
				w[1], w[4] = 7, 7
			case 2:
				w[2], w[5] = 7, 7
			case 3:
				w[6], w[7] = 7, 7
			}
			err := libcomfo.SetFanProfile(uint8(mode), 7, u)
			one(c, u, fmt.Sprintf("SetFanProfile(%d, 7) on profiles % x", mode, d), err, true, []Ev{{Cmd: cProf}, {Cmd: cSetProf, Data: w}})
			c.Outcome("%d %d", i, j)
		}
	}
	return &Prop{ID: "C09", Quick: []Scenario{{Name: "all-values", Opt: ns, Body: body, What: "SetComfort and SetSpeed with all 256 values, SetFanProfile with all modes x all speeds x 2 stored profiles, SetFanProfiles with every field x every value, stored profiles with special bytes at every pair of positions"},
		{Name: "histories", Opt: ns, Body: apiHistory(4, true), What: "every sequence of 4 of 14 actions on one connection: settings, refused settings, changes at the unit's panel, pauses, failing answers"}},
		Deep: []Scenario{{Name: "histories-deep", Opt: ns, Body: apiHistory(6, true), What: "as histories, 6 actions"}}}
}

// ---- C10: decoding ----

func propC10() *Prop {
	ns := vrt.Options{NoSched: true}
	render := func(r libcomfo.Response) string {
		return strings.TrimPrefix(fmt.Sprintf("%+v", r), "&")
	}
	dec := func(c *X, m getMsg, d []byte) {
		Note("payloads")
		r, err := libcomfo.DecodeResponse(libcomfo.Packet{Command: m.Cmd + 1, Data: d})
		want, ok := refGet(m, d)
		if ok != (err == nil) {
			c.Fail("decode", "%s payload % x: error %v, expected to be readable: %v", m.Name, d, err, ok)
		}
		if ok {
			if got := render(r); got != want {
				c.Fail("decode", "%s payload % x was decoded as %s, it means %s", m.Name, d, got, want)
			}
		}
	}
	pure := func(c *X) {
		m := getMsgs[pick("msg", len(getMsgs))]
		base := NewUnit().Payload(m.Cmd)
		switch pick("kind", 3) {
		case 0: // every size
			for n := 0; n <= 255; n++ {
				for _, f := range []byte{1, 7, 0xFF} {
					d := make([]byte, n)
					for i := range d {
						d[i] = f
					}
					dec(c, m, d)
				}
			}
		case 1: // every byte at every position
			i := pick("pos", m.Len)
			for v := 0; v < 256; v++ {
				d := clone(base)
				d[i] = byte(v)
				dec(c, m, d)
				for k := range d {
					if k != i {
						d[k] = 0xFF
					}
				}
				dec(c, m, d)
				for k := range d {
					if k != i {
						d[k] = 1
					}
				}
				dec(c, m, d)
			}
		case 2: // every value of every adjacent pair
			i := pick("pos", m.Len-1)
			for v := 0; v < 65536; v++ {
				d := clone(base)
				d[i], d[i+1] = byte(v>>8), byte(v)
				dec(c, m, d)
			}
		}
		c.Outcome("%s", m.Name)
	}
	names := func(c *X) {
		// device names: every string over blanks, letters and odd bytes
		m := getMsgs[1+pick("msg", 2)]
		al := []byte{' ', 'A', 0, '\n', 0xE9}
		d := make([]byte, 13)
		copy(d, []byte{1, 2, 3})
		for i := 0; i < 10; i++ {
			d[3+i] = ' '
		}
		a, b := pick("a", 5), pick("b", 5)
		enumStrings(al, 3, func(s []byte) {
			for _, o := range []int{3, 5, 8} {
				e := clone(d)
				e[o], e[o+1] = al[a], al[b]
				copy(e[o+2:], s)
				dec(c, m, e)
			}
		})
		c.Outcome("%s", m.Name)
	}
	cmds := func(c *X) {
		cmd := byte(pick("cmd", 256))
		known := false
		for _, m := range getMsgs {
			known = known || m.Cmd+1 == cmd
		}
		for n := 0; n <= 64; n++ {
			d := make([]byte, n)
			for i := range d {
				d[i] = 1
			}
			_, err := libcomfo.DecodeResponse(libcomfo.Packet{Command: cmd, Data: d})
			if !known && err == nil {
				c.Fail("unknown", "an answer of unknown type %02x with %d bytes was decoded", cmd, n)
			}
		}
		c.Outcome("%02x %v", cmd, known)
	}
	// answers of every size through the getters: decoded or refused, never a panic or a
	// partial result
	sizes := func(c *X) {
		m := getMsgs[pick("msg", len(getMsgs))]
		n := pick("size", 256)
		f := []byte{1, 7, 0}[pick("fill", 3)]
		d := make([]byte, n)
		for i := range d {
			d[i] = f
		}
		u := NewUnit()
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk { return whole(ackSeq, refFrame(m.Cmd+1, d)) }
		got, err := callGet(m, u)
		want, ok := refGet(m, d)
		if ok != (err == nil) {
			c.Fail("size", "%s with an answer of %d bytes %02x: error %v, expected to be readable: %v", m.Name, n, f, err, ok)
		}
		if ok && got != want {
			c.Fail("size", "%s = %s, expected %s", m.Name, got, want)
		}
		if !ok && got != zeroGet(m) {
			c.Fail("partial", "%s failed with %v but returned %s", m.Name, err, got)
		}
		c.Outcome("%s %d %v", m.Name, n, err)
	}
	// results are values: a later answer must not change an earlier result
	alias := func(c *X) {
		m := getMsgs[pick("msg", len(getMsgs))]
		u := NewUnit()
		a := clone(u.Payload(m.Cmd))
		b := clone(a)
		for i := range b {
			b[i] = a[i] + 17
			if b[i] == 0 {
				b[i] = 1
			}
		}
		r1, err1 := libcomfo.DecodeResponse(libcomfo.Packet{Command: m.Cmd + 1, Data: a})
		s1 := render(r1)
		r2, err2 := libcomfo.DecodeResponse(libcomfo.Packet{Command: m.Cmd + 1, Data: b})
		_, _ = libcomfo.DecodeResponse(libcomfo.Packet{Command: m.Cmd + 1, Data: b[:3]})
		for i := range a {
			a[i] = 0
		}
		if s := render(r1); err1 != nil || err2 != nil || s != s1 {
			c.Fail("alias", "%s: a decoded result changed from %s to %s when other answers were decoded", m.Name, s1, s)
		}
		w2, _ := refGet(m, b)
		if s := render(r2); s != w2 {
			c.Fail("alias", "%s: second result is %s, expected %s", m.Name, s, w2)
		}
		c.Outcome("%s", m.Name)
	}
	return &Prop{ID: "C10", Quick: []Scenario{
		{Name: "values", Opt: ns, Body: pure, What: "8 messages: every payload size 0..255, every byte value at every position with 3 backgrounds, all 65536 values of every adjacent pair"},
		{Name: "names", Opt: ns, Body: names, What: "device names with every 5-byte string over {blank, letter, NUL, newline, non-ASCII} at 3 offsets"},
		{Name: "types", Opt: ns, Body: cmds, What: "all 256 answer types x sizes 0..64"},
		{Name: "sizes", Opt: ns, Body: sizes, What: "8 getters x answers of every size 0..255 x 3 fills over the wire"},
		{Name: "independence", Opt: ns, Body: alias, What: "results stay unchanged when other answers are decoded"},
		{Name: "histories", Opt: ns, Body: apiHistory(4, false), What: "every sequence of 4 of 12 actions on one connection: 8 readers, changes of all the unit's values, pauses, failing answers"},
	}, Deep: []Scenario{{Name: "histories-deep", Opt: ns, Body: apiHistory(6, false), What: "as histories, 6 actions"}}}
}

// ---- C11: profile changes are atomic ----

func propC11() *Prop {
	type op struct {
		name  string
		do    func(u *Unit) error
		apply func(p []byte) // effect on the 8 percentages
	}
	set := func(mode int, v byte) op {
		return op{fmt.Sprintf("SetFanProfile(%d,%d)", mode, v), func(u *Unit) error { return libcomfo.SetFanProfile(uint8(mode), v, u) }, func(p []byte) {
			switch mode {
			case 0:
				p[0], p[3] = v, v
			case 1:
				p[1], p[4] = v, v
			case 2:
				p[2], p[5] = v, v
			case 3:
				p[6], p[7] = v, v
			}
		}}
	}
	bulk := op{"SetFanProfiles", func(u *Unit) error {
		return libcomfo.SetFanProfiles(&libcomfo.FanProfiles{OutAway: 21, OutLow: 22, OutMid: 23, InAway: 24, InLow: 25, InMid: 26, OutHigh: 27, InHigh: 28}, u)
	}, func(p []byte) { copy(p, []byte{21, 22, 23, 24, 25, 26, 27, 28}) }}
	all := []op{set(0, 40), set(1, 41), set(2, 42), bulk, set(1, 61), set(3, 7)}
	pct := func(u *Unit) []byte {
		d := u.Prof
		return []byte{d[0], d[1], d[2], d[3], d[4], d[5], d[10], d[11]}
	}
	body := func(threads, nops int, faults, other bool) func(c *X) {
		return func(c *X) {
			u := NewUnit()
			start := pct(u)
			sel := make([]int, threads)
			lo := 0
			for i := range sel {
				sel[i] = lo + pick("op", nops-lo)
				lo = sel[i]
			}
			if faults {
				u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
					switch vrt.Choose("answer", 3, 1) {
					case 1:
						return []Chunk{}
					case 2:
						if len(def) > 6 {
							d := clone(def)
							d[8]++
							return whole(d)
						}
						return whole([]byte{7, 0x0F})
					}
					return nil
				}
				u.Before = func(u *Unit, e Ev) bool {
					// the request itself may get lost
					return !isSet(e.Cmd) || vrt.Choose("request lost", 2, 1) == 0
				}
			}
			errs := make([]error, threads)
			var ts []*vrt.Thread
			lt := c.late(threads)
			for i := range sel {
				i := i
				ts = append(ts, c.start(i, lt, fmt.Sprintf("%d:%s", i, all[sel[i]].name), func() { errs[i] = all[sel[i]].do(u) }))
			}
			if other {
				ts = append(ts, vrt.GoNamed("reader", func() { callGet(getMsgs[3], u) }))
			}
			vrt.Join(ts...)
			// the result must be that of the calls in some order; failed ones may or may
			// not have had their effect
			got := pct(u)
			perm := make([]int, threads)
			used := make([]bool, threads)
			ok := false
			var rec func(k int, st []byte)
			rec = func(k int, st []byte) {
				if ok {
					return
				}
				if k == threads {
					ok = eq(st, got)
					return
				}
				for i := 0; i < threads; i++ {
					if used[i] {
						continue
					}
					used[i] = true
					perm[k] = i
					n := clone(st)
					all[sel[i]].apply(n)
					rec(k+1, n)
					if errs[i] != nil {
						rec(k+1, st)
					}
					used[i] = false
				}
			}
			rec(0, start)
			ev := ""
			for i := range sel {
				ev += fmt.Sprintf("%s: %v; ", all[sel[i]].name, errs[i])
			}
			if !ok {
				c.Fail("lost-update", "%s: the unit's percentages went from %v to %v, which no order of the calls explains; wire %s", ev, start, got, u.Wire())
			}
			c.Outcome("%s %v", ev, got)
		}
	}
	sf := vrt.Options{}
	return &Prop{ID: "C11",
		Quick: []Scenario{
			{Name: "queue", Opt: vrt.Options{NoSched: true}, Body: settersQueue, What: "16 profile changes of 1, 2 or 4 modes at the same time, 3 latencies, the first 0, 1 or 5 exchanges unanswered"},
			{Name: "two-setters", Bound: 2, Opt: sf, Body: body(2, 6, false, false), What: "every pair of 6 profile changes, up to 2 preemptions or delays"},
			{Name: "three-setters", Bound: 1, Opt: sf, Body: body(3, 5, false, true), What: "every triple of 5 profile changes and a reader, 1 preemption or delay"},
			{Name: "two-setters-faults", Bound: 2, Opt: sf, Body: body(2, 4, true, false), What: "pairs of 4 profile changes, up to 2 preemptions, delays, lost requests or faulty answers"},
			{Name: "two-setters-steps", Bound: 2, Opt: vrt.Options{Steps: true}, Body: body(2, 4, false, false), What: "pairs of 4 profile changes, a preemption at any statement that touches memory other goroutines may use"},
		},
		Deep: []Scenario{
			{Name: "two-setters-deep", Bound: 3, Opt: sf, Body: body(2, 4, false, false), What: "pairs of 4 profile changes, 3 preemptions or delays"},
			{Name: "three-setters-deep", Bound: 2, Opt: sf, Body: body(3, 4, false, false), What: "triples of 4 profile changes, 2 preemptions or delays"},
		},
	}
}
