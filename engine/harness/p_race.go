package harness

import (
	"net/http/httptest"
	"strings"

	"github.com/ti-mo/comfo/libcomfo"
	rpc "github.com/ti-mo/comfo/rpc/comfo"
	"github.com/ti-mo/comfo/zzverif/vrt"
)

func init() {
	register("C20", propC20)
}

// ---- C20: no data races ----

func propC20() *Prop {
	type op struct {
		name string
		do   func(s *sys)
	}
	var ops []op
	for i := range readings {
		r := &readings[i]
		ops = append(ops, op{"Get" + r.Name, func(s *sys) { r.Get(s.a) }})
	}
	for _, o := range []srvOp{opSpeed(0, true), opSpeed(0, false), opSpeed(9, false), opProfile(2, 44), opProfile(2, 36), opComfort(22), opComfort(20)} {
		o := o
		ops = append(ops, op{o.name, func(s *sys) { o.do(s.a) }})
	}
	for _, t := range []int{flushAll, 3, 7} {
		t := t
		ops = append(ops, op{"Flush", func(s *sys) {
			s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(t)})
		}})
	}
	newUnit := func() *Unit {
		u := NewUnit()
		u.Temps[0] = 80
		// no growing of the harness's own slices: the detector watches the allocator
		u.Events = make([]Ev, 0, 8192)
		u.q = make([]pending, 0, 1024)
		u.serving = make([]int, 0, 1024)
		u.Served = make([]byte, 0, 1<<16)
		u.Ans = make([]Ans, 0, 4096)
		return u
	}
	server := func(n int, faults, wait, debug bool) func(c *X) {
		return func(c *X) {
			u := newUnit()
			debugLog = debug
			u.Lat = 10 * ms
			s := startServer(c, u)
			if wait {
				vrt.Sleep(4995 * ms)
			}
			lo := 0
			sel := make([]int, n)
			for i := range sel {
				sel[i] = lo + pick("op", len(ops)-lo)
				lo = sel[i]
			}
			if faults {
				u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
					switch vrt.Choose("answer", 4, 1) {
					case 1:
						return silence
					case 2:
						d := clone(def)
						d[len(d)-1] = 0xF0
						return whole(d)
					case 3:
						return []Chunk{{Delay: 1100 * ms, B: def}}
					}
					return nil
				}
			}
			var ts []*vrt.Thread
			lt := c.late(n)
			for i := range sel {
				o := ops[sel[i]]
				ts = append(ts, c.start(i, lt, o.name, func() { o.do(s); o.do(s) }))
			}
			vrt.Join(ts...)
			c.Outcome("%v", sel)
		}
	}
	lib := func(n int, faults bool) func(c *X) {
		return func(c *X) {
			u := newUnit()
			lo := 0
			all := libOps()
			all = append(all, libOp{Name: "SetFanProfiles", Do: func(u *Unit) (string, error) {
				return "", libcomfo.SetFanProfiles(&libcomfo.FanProfiles{OutAway: 1}, u)
			}})
			sel := make([]int, n)
			for i := range sel {
				sel[i] = lo + pick("op", len(all)-lo)
				lo = sel[i]
			}
			if faults {
				fl := frameFaults()
				al := ackFaults()
				u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
					if isSet(e.Cmd) {
						return al[vrt.Choose("ack", len(al), 1)].F(e, def)
					}
					return fl[vrt.Choose("answer", len(fl), 1)].F(e, def)
				}
			}
			var ts []*vrt.Thread
			lt := c.late(n)
			for i := range sel {
				o := all[sel[i]]
				ts = append(ts, c.start(i, lt, o.Name, func() { o.Do(u); o.Do(u) }))
			}
			vrt.Join(ts...)
			c.Outcome("%v", sel)
		}
	}
	// two connections: what one does must not depend on the other
	twoconn := func(c *X) {
		u1, u2 := newUnit(), newUnit()
		all := libOps()
		a, b := pick("op", len(all)), pick("op", len(all))
		lt := c.late(2)
		t1 := c.start(0, lt, all[a].Name, func() { all[a].Do(u1) })
		t2 := c.start(1, lt, all[b].Name, func() { all[b].Do(u2) })
		vrt.Join(t1, t2)
		c.Outcome("%d %d", a, b)
	}
	// clients over HTTP
	web := func(n int) func(c *X) {
		type hc struct{ m, ct, body string }
		cs := []hc{
			{"GetTemps", ctJSON, "{}"}, {"GetBootInfo", ctPB, ""}, {"GetFanProfiles", ctJSON, "{}"},
			{"SetFanSpeed", ctJSON, `{"Abs": 4}`}, {"SetComfortTemp", ctPB, "\x08\x19"}, {"SetFanProfile", ctJSON, `{"Mode": 9}`},
			{"FlushCache", ctJSON, `{"Cache": "All"}`}, {"GetHours", ctJSON, "{}"}, {"SetFanSpeed", ctJSON, "{"},
		}
		return func(c *X) {
			u := newUnit()
			debugLog = pick("debug", 2) == 1
			w := startWeb(c, u)
			vrt.Sleep(sec)
			lo := 0
			sel := make([]int, n)
			var ts []*vrt.Thread
			lt := c.late(n)
			for i := range sel {
				sel[i] = lo + pick("call", len(cs)-lo)
				lo = sel[i]
				k := cs[sel[i]]
				ts = append(ts, c.start(i, lt, k.m, func() {
					for j := 0; j < 2; j++ {
						r := httptest.NewRequest("POST", "http://comfo"+apiPath+k.m, strings.NewReader(k.body))
						r.Header.Set("Content-Type", k.ct)
						w.h.ServeHTTP(httptest.NewRecorder(), r)
					}
				}))
			}
			vrt.Join(ts...)
			c.Outcome("%v", sel)
		}
	}
	// decoding in parallel
	codec := func(c *X) {
		m := getMsgs[pick("msg", len(getMsgs))]
		d1, d2 := variant(m, 0), variant(m, 1)
		run := func(d []byte) func() {
			return func() {
				libcomfo.DecodeResponse(libcomfo.Packet{Command: m.Cmd + 1, Data: d})
				b, _ := libcomfo.MarshalPacket(libcomfo.Packet{Command: m.Cmd, Data: d})
				_, _ = libcomfo.UnmarshalPacket(b)
			}
		}
		t1 := vrt.GoNamed("decode", run(d1))
		t2 := vrt.GoNamed("decode", run(d2))
		vrt.Join(t1, t2)
		c.Outcome("%s", m.Name)
	}
	p := &Prop{ID: "C20",
		Quick: []Scenario{
			{Name: "codec", Bound: 1, Body: codec, HangOK: true, What: "decoding and encoding in two goroutines, 8 messages"},
			{Name: "library", Bound: 1, Body: lib(2, false), HangOK: true, What: "every pair of 7 library calls on one connection, 1 preemption or delay"},
			{Name: "two-connections", Bound: 1, Body: twoconn, HangOK: true, What: "every pair of 6 library calls on two connections"},
			{Name: "server", Bound: 1, Body: server(2, false, true, false), HangOK: true, What: "every pair of 16 RPCs (twice each) with the worker's tick falling into them, 1 preemption or delay"},
			{Name: "http", Bound: 1, Body: web(2), HangOK: true, What: "every pair of 9 HTTP requests (twice each), with and without debug messages, 1 preemption or delay"},
			{Name: "server-debug", Bound: 0, Body: server(2, false, true, true), HangOK: true, What: "every pair of 16 RPCs with debug messages rendered"},
			{Name: "library-faults", Bound: 1, Body: lib(2, true), HangOK: true, What: "as library with 1 preemption, delay or faulty answer of 26"},
			{Name: "server-faults", Bound: 1, Body: server(2, true, false, false), HangOK: true, What: "every pair of 16 RPCs, 1 preemption, delay or faulty answer"},
		},
		Deep: []Scenario{
			{Name: "http-2", Bound: 2, Body: web(2), HangOK: true, What: "as http, 2 preemptions or delays"},
			{Name: "library-2", Bound: 2, Body: lib(2, false), HangOK: true, What: "as library, 2 preemptions or delays"},
			{Name: "server-2", Bound: 2, Body: server(2, false, true, false), HangOK: true, What: "as server, 2 preemptions or delays (as far as time allows)"},
		},
	}
	if Router == nil { // built without the main package, which does not fit
		no := func(l []Scenario) (o []Scenario) {
			for _, x := range l {
				if !strings.HasPrefix(x.Name, "http") {
					o = append(o, x)
				}
			}
			return
		}
		p.Quick, p.Deep = no(p.Quick), no(p.Deep)
	}
	return p
}
