package harness

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"

	"github.com/ti-mo/comfo/libcomfo"
	"github.com/ti-mo/comfo/zzverif/vrt"
	"github.com/ti-mo/comfo/zzverif/vtime"
)

func pick(label string, n int) int { return vrt.Choose(label, n, 0) }

// special bytes of the protocol
var special = []byte{0x07, 0x0F, 0xF3, 0xF0, 0x00, 0xFF, 0x20}

// fixSum replaces the last byte so that the checksum of the packet becomes want.
func fixSum(cmd byte, d []byte, want byte) []byte {
	if len(d) == 0 {
		return d
	}
	d = clone(d)
	d[len(d)-1] = 0
	d[len(d)-1] = want - refSum(cmd, d)
	return d
}

func init() {
	register("C01", propC01)
	register("C02", propC02)
	register("C03", propC03)
	register("C04", propC04)
	register("C05", propC05)
	register("C06", propC06)
	register("C07", propC07)
}

// ---- C01: lossless codec ----

func codecCase(c *X, cmd byte, d []byte) {
	Note("payloads")
	b, err := libcomfo.MarshalPacket(libcomfo.Packet{Command: cmd, Data: d})
	if err != nil {
		c.Fail("marshal", "MarshalPacket(%02x, % x): %v", cmd, d, err)
	}
	if want := refBody(cmd, d); !eq(b, want) {
		c.Fail("marshal", "MarshalPacket(%02x, % x) = % x, the wire form is % x", cmd, d, b, want)
	}
	p, err := libcomfo.UnmarshalPacket(b)
	if err != nil || p.Command != cmd || !eq(p.Data, d) {
		c.Fail("unmarshal", "UnmarshalPacket of packet %02x % x = %02x % x, %v", cmd, d, p.Command, p.Data, err)
	}
}

// wireCase sends d in a request and receives d in an answer.
func wireCase(c *X, cmd byte, d []byte) {
	Note("exchanges")
	u := NewUnit()
	u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
		return []Chunk{{B: append(clone(ackSeq), refFrame(e.Cmd+1, d)...)}}
	}
	p, err := libcomfo.QueryPacket(libcomfo.Packet{Command: cmd, Data: d, Expect: true}, u)
	if u.Frames != 1 || u.Events[0].Cmd != cmd || !eq(u.Events[0].Data, d) {
		c.Fail("request", "request %02x % x was seen by the unit as %s", cmd, d, u.Wire())
	}
	if err != nil || p.Command != cmd+1 || !eq(p.Data, d) {
		c.Fail("framing", "answer %02x % x (wire % x) was read as %02x % x, error %v", cmd+1, d, refFrame(cmd+1, d), p.Command, p.Data, err)
	}
}

func propC01() *Prop {
	p := &Prop{ID: "C01"}
	ns := vrt.Options{NoSched: true}
	codec := func(c *X) {
		switch pick("kind", 4) {
		case 0: // every command x every length x fill byte
			cmd := byte(pick("cmd", 256))
			for n := 0; n <= 255; n++ {
				for _, f := range special {
					d := bytes.Repeat([]byte{f}, n)
					codecCase(c, cmd, d)
					for _, w := range []byte{7, 0x0F, 0xF0, 0xF3} {
						if n > 0 && (n < 24 || n > 250) {
							codecCase(c, cmd, fixSum(cmd, d, w))
						}
					}
				}
			}
		case 1: // every string over the special bytes up to length 5
			a, b := pick("a", len(special)), pick("b", len(special))
			for n := 2; n <= 5; n++ {
				enumStrings(special, n-2, func(s []byte) {
					codecCase(c, 0xCD, append([]byte{special[a], special[b]}, s...))
				})
			}
		case 2: // every byte value at every position of an all-07 and of a plain payload
			v := byte(pick("v", 256))
			for _, n := range []int{1, 2, 6, 7, 9, 13, 14, 17, 20, 255} {
				for i := 0; i < n; i++ {
					for _, f := range []byte{7, 0x41} {
						d := bytes.Repeat([]byte{f}, n)
						d[i] = v
						codecCase(c, 0x0B, d)
					}
				}
			}
		case 3: // too long: refused, nothing is written
			for n := 256; n <= 600; n++ {
				if _, err := libcomfo.MarshalPacket(libcomfo.Packet{Command: 1, Data: make([]byte, n)}); err == nil {
					c.Fail("toolong", "MarshalPacket accepted %d bytes", n)
				}
			}
			for _, n := range []int{256, 257, 511, 512, 513, 70000} {
				u := NewUnit()
				_, err := libcomfo.QueryPacket(libcomfo.Packet{Command: 1, Data: make([]byte, n)}, u)
				if err == nil || len(u.Events) > 0 {
					c.Fail("toolong", "a request of %d bytes: error %v, unit saw %s", n, err, u.Wire())
				}
			}
		}
		c.Outcome("ok")
	}
	wire := func(deep bool) func(c *X) {
		return func(c *X) {
			switch pick("kind", 4) {
			case 0: // strings over the special bytes, all lengths up to 4 (5)
				max := 5
				if deep {
					max = 6
				}
				n := pick("len", max)
				d := make([]byte, n)
				for i := range d {
					d[i] = special[pick("byte", len(special))]
				}
				cmd := []byte{0x0B, 0x67, 0x06, 0xFF}[pick("cmd", 4)]
				wireCase(c, cmd, d)
				c.Outcome("%d % x", cmd, d)
			case 1: // every length, each fill, each interesting checksum
				n := pick("len", 256)
				f := special[pick("fill", len(special))]
				d := bytes.Repeat([]byte{f}, n)
				if w := pick("sum", 5); w > 0 {
					d = fixSum(0xD1, d, []byte{7, 0x0F, 0xF0, 0xF3}[w-1])
				}
				wireCase(c, 0xD1, d)
				c.Outcome("%d %x", n, f)
			case 2: // an escape pair of special bytes at every position of every message
				m := getMsgs[pick("msg", len(getMsgs))]
				i := pick("pos", m.Len-1)
				d := bytes.Repeat([]byte{0x41}, m.Len)
				d[i] = special[pick("x", len(special))]
				d[i+1] = special[pick("y", len(special))]
				if w := pick("sum", 3); w > 0 && i+1 < m.Len-1 {
					d = fixSum(m.Cmd+1, d, []byte{7, 0x0F}[w-1])
				}
				wireCase(c, m.Cmd, d)
				c.Outcome("%s %d", m.Name, i)
			case 3: // every command
				cmd := byte(pick("cmd", 256))
				d := [][]byte{{}, {7}, {7, 0x0F}, {1, 7, 7}, {0x0F, 7, 0xF0}}[pick("d", 5)]
				wireCase(c, cmd, d)
				c.Outcome("%d", cmd)
			}
		}
	}
	p.Quick = []Scenario{
		{Name: "codec", Opt: ns, Body: codec, What: "MarshalPacket/UnmarshalPacket against an independent codec: all commands x lengths 0..255 x fill bytes, all strings over the special bytes up to length 5, every byte at every position; oversize payloads"},
		{Name: "wire", Opt: ns, Body: wire(false), What: "request and answer payloads through QueryPacket: strings over the special bytes, every length, special pairs at every position of every message type, chosen checksums"},
	}
	p.Quick = append(p.Quick, Scenario{Name: "codec-together", Bound: 2, Opt: vrt.Options{Steps: true}, Body: codecTogether(2), What: "two goroutines encoding, decoding and writing messages of 4 payloads, up to 2 preemptions at any statement that touches memory other goroutines may use"})
	p.Quick = append(p.Quick, Scenario{Name: "codec-histories", Opt: ns, Body: codecHistory, What: "every sequence of 3 of 10 payloads through MarshalPacket, UnmarshalPacket and QueryPacket: earlier results and the caller's own bytes stay as they are"})
	p.Deep = []Scenario{{Name: "wire-deep", Opt: ns, Body: wire(true), What: "as wire, one byte longer"}}
	return p
}

func enumStrings(alpha []byte, n int, f func([]byte)) {
	s := make([]byte, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(s)
			return
		}
		for _, a := range alpha {
			s[i] = a
			rec(i + 1)
		}
	}
	rec(0)
}

// ---- calling the API ----

// callGet calls the getter of a message and renders its result.
func callGet(m getMsg, conn io.ReadWriter) (string, error) {
	switch m.Cmd {
	case cFans:
		v, err := libcomfo.GetFans(conn)
		return fmt.Sprintf("%+v", v), err
	case cBoot:
		v, err := libcomfo.GetBootloader(conn)
		return fmt.Sprintf("%+v", v), err
	case cFirm:
		v, err := libcomfo.GetFirmware(conn)
		return fmt.Sprintf("%+v", v), err
	case cProf:
		v, err := libcomfo.GetFanProfiles(conn)
		return fmt.Sprintf("%+v", v), err
	case cTemps:
		v, err := libcomfo.GetTemperatures(conn)
		return fmt.Sprintf("%+v", v), err
	case cErrs:
		v, err := libcomfo.GetErrors(conn)
		return fmt.Sprintf("%+v", v), err
	case cByp:
		v, err := libcomfo.GetBypass(conn)
		return fmt.Sprintf("%+v", v), err
	case cHours:
		v, err := libcomfo.GetHours(conn)
		return fmt.Sprintf("%+v", v), err
	}
	panic("no such message")
}

// zeroGet renders the zero value of a message.
func zeroGet(m getMsg) string {
	switch m.Cmd {
	case cFans:
		return fmt.Sprintf("%+v", libcomfo.Fans{})
	case cBoot, cFirm:
		return fmt.Sprintf("%+v", libcomfo.BootInfo{})
	case cProf:
		return fmt.Sprintf("%+v", libcomfo.FanProfiles{})
	case cTemps:
		return fmt.Sprintf("%+v", libcomfo.Temps{})
	case cErrs:
		return fmt.Sprintf("%+v", libcomfo.Errors{})
	case cByp:
		return fmt.Sprintf("%+v", libcomfo.Bypass{})
	case cHours:
		return fmt.Sprintf("%+v", libcomfo.Hours{})
	}
	return ""
}

// refGet renders what the getter must return for a payload; ok is false if it must fail.
func refGet(m getMsg, d []byte) (string, bool) {
	if len(d) != m.Len {
		return "", false
	}
	switch m.Cmd {
	case cFans:
		i, ok1 := rpm(d[2], d[3])
		o, ok2 := rpm(d[4], d[5])
		return fmt.Sprintf("%+v", libcomfo.Fans{InPercent: d[0], OutPercent: d[1], InSpeed: i, OutSpeed: o}), ok1 && ok2
	case cBoot, cFirm:
		return fmt.Sprintf("%+v", libcomfo.BootInfo{MajorVersion: d[0], MinorVersion: d[1], BetaVersion: d[2], DeviceName: trimName(d[3:])}), true
	case cProf:
		return fmt.Sprintf("%+v", libcomfo.FanProfiles{
			OutAway: d[0], OutLow: d[1], OutMid: d[2], InAway: d[3], InLow: d[4], InMid: d[5],
			CurrentOut: d[6], CurrentIn: d[7], CurrentMode: d[8], InFanActive: d[9] == 1, OutHigh: d[10], InHigh: d[11]}), true
	case cTemps:
		return fmt.Sprintf("{Comfort:%v OutsideAir:%v SupplyAir:%v InsideAir:%v ExhaustAir:%v GeoHeat:%v Reheating:%v KitchenHood:%v}",
			wireTemp(d[0]), wireTemp(d[1]), wireTemp(d[2]), wireTemp(d[3]), wireTemp(d[4]), wireTemp(d[6]), wireTemp(d[7]), wireTemp(d[8])), true
	case cErrs:
		return fmt.Sprintf("%+v", libcomfo.Errors{Filter: d[8] == 1}), true
	case cByp:
		return fmt.Sprintf("%+v", libcomfo.Bypass{Factor: d[2], Level: d[3], Correction: d[4], SummerMode: d[6] == 1}), true
	case cHours:
		return fmt.Sprintf("%+v", libcomfo.Hours{
			FanAway: be(d[0], d[1], d[2]), FanLow: be(d[3], d[4], d[5]), FanMid: be(d[6], d[7], d[8]), FanHigh: be(d[17], d[18], d[19]),
			FrostProtect: uint16(be(d[9], d[10])), Reheating: uint16(be(d[11], d[12])), BypassOpen: uint16(be(d[13], d[14])), Filter: uint16(be(d[15], d[16]))}), true
	}
	return "", false
}

// payload variants of a message: ordinary, and rich in protocol bytes
func variant(m getMsg, i int) []byte {
	u := NewUnit()
	d := clone(u.Payload(m.Cmd))
	switch i {
	case 1: // escape followed by terminators
		pat := []byte{7, 0x0F, 7, 0xF0, 7, 0xF3, 7, 7, 0x0F}
		for k := range d {
			d[k] = pat[k%len(pat)]
		}
	case 2: // all escapes
		for k := range d {
			d[k] = 7
		}
	case 3: // checksum 07
		d = fixSum(m.Cmd+1, d, 7)
	case 4: // checksum 0F, last byte 07
		d[len(d)-1] = 7
		d[0] = 0
		d[0] = 0x0F - refSum(m.Cmd+1, d)
	}
	return d
}

// set operations of the library
type setOp struct {
	Name string
	Do   func(io.ReadWriter) error
	Cmd  byte
	Data []byte
	RMW  bool
}

func setOps() []setOp {
	return []setOp{
		{"SetComfort(21)", func(w io.ReadWriter) error { return libcomfo.SetComfort(21, w) }, cComfort, []byte{82}, false},
		{"SetSpeed(3)", func(w io.ReadWriter) error { return libcomfo.SetSpeed(3, w) }, cSpeed, []byte{3}, false},
		{"SetFanProfiles", func(w io.ReadWriter) error {
			return libcomfo.SetFanProfiles(&libcomfo.FanProfiles{OutAway: 7, OutLow: 15, OutMid: 40, OutHigh: 90, InAway: 16, InLow: 36, InMid: 51, InHigh: 7}, w)
		}, cSetProf, []byte{7, 15, 40, 16, 36, 51, 90, 7}, false},
		{"SetFanProfile(2,44)", func(w io.ReadWriter) error { return libcomfo.SetFanProfile(2, 44, w) }, cSetProf, []byte{15, 35, 44, 16, 36, 44, 70, 71}, true},
	}
}

// ---- C02: segmentation and timing ----

// lastQuery tells whether a request is the last one of an operation of C02.
func lastQuery(cmd byte, op int) bool {
	return !(cmd == cProf && op >= len(getMsgs))
}

func propC02() *Prop {
	body := func(nv int, three bool) func(c *X) {
		return func(c *X) {
			u := NewUnit()
			mi := pick("msg", len(getMsgs)+4)
			var want string
			var do func() (string, error)
			var m getMsg
			if mi < len(getMsgs) {
				m = getMsgs[mi]
				d := variant(m, pick("payload", nv))
				u.SetPayload(m.Cmd, d)
				w, ok := refGet(m, d)
				if !ok {
					c.Outcome("unreadable")
					return
				}
				want = w
				do = func() (string, error) { return callGet(m, u) }
			} else {
				op := setOps()[mi-len(getMsgs)]
				do = func() (string, error) { return "", op.Do(u) }
			}
			style := pick("style", 6) // 0: two pieces, 1: three pieces, 2: byte by byte, 3: whole, late, 4: end of stream with the last piece, 5: reads without bytes
			u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
				cut := func(l string, from int) int { return from + pick(l, len(def)-from+1) }
				dl := []int64{0, 1 * ms, 300 * ms}
				mk := func(delays []int64, parts ...[]byte) []Chunk {
					var o []Chunk
					t := int64(0)
					for i, b := range parts {
						t += delays[i]
						if len(b) > 0 {
							o = append(o, Chunk{Delay: t, B: clone(b)})
						}
					}
					return o
				}
				switch style {
				case 0:
					k := cut("cut", 0)
					return mk([]int64{dl[pick("d0", 3)], dl[pick("d1", 3)]}, def[:k], def[k:])
				case 1:
					k := cut("cut", 0)
					j := cut("cut2", k)
					d := dl[pick("d", 3)]
					return mk([]int64{0, d, d}, def[:k], def[k:j], def[j:])
				case 2:
					d := []int64{0, 1 * ms, 900 * ms / int64(len(def)+1)}[pick("d", 3)]
					var o []Chunk
					for i := range def {
						o = append(o, Chunk{Delay: d * int64(i+1), B: def[i : i+1]})
					}
					return o
				case 4:
					k := cut("cut", 0)
					o := mk([]int64{0, dl[pick("d1", 2)]}, def[:k], def[k:])
					l := &o[len(o)-1]
					if !lastQuery(e.Cmd, mi) {
						return o
					}
					if pick("end", 2) == 0 {
						l.EOF = true
					} else {
						l.Err = errIO
					}
					return o
				case 5:
					k := cut("cut", 0)
					o := mk([]int64{0}, def[:k])
					for i := pick("empty", 3); i >= 0; i-- {
						o = append(o, Chunk{Delay: 10 * ms, Empty: true})
					}
					return append(o, mk([]int64{10 * ms}, def[k:])...)
				}
				return []Chunk{{Delay: []int64{0, 500 * ms, 999 * ms}[pick("d", 3)], B: def}}
			}
			got, err := do()
			if err != nil || got != want {
				c.Fail("segmentation", "answer delivered in pieces gave %q, %v; whole it is %q", got, err, want)
			}
			c.Outcome("%d %s", mi, got)
		}
	}
	return &Prop{ID: "C02",
		Quick: []Scenario{
			{Name: "pieces", Opt: vrt.Options{NoSched: true}, Body: body(3, false), What: "8 getters x 3 payloads and 4 set operations: answer cut into two and three pieces at every position, byte by byte, with delays of 0, 1 and 300 ms, the end of the stream or an error reported together with the last piece, reads without bytes in between"},
			{Name: "pieces-sched", Bound: 1, Opt: vrt.Options{}, Body: func(c *X) {
				u := NewUnit()
				m := getMsgs[[]int{6, 4}[pick("msg", 2)]]
				d := variant(m, pick("payload", 2))
				u.SetPayload(m.Cmd, d)
				want, _ := refGet(m, d)
				u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
					k := pick("cut", len(def)+1)
					var o []Chunk
					if k > 0 {
						o = append(o, Chunk{B: def[:k]})
					}
					if k < len(def) {
						o = append(o, Chunk{B: def[k:], Delay: []int64{0, ms}[pick("d", 2)]})
					}
					return o
				}
				got, err := callGet(m, u)
				if err != nil || got != want {
					c.Fail("segmentation", "answer delivered in pieces gave %q, %v; whole it is %q", got, err, want)
				}
				c.Outcome("%s", got)
			}, What: "2 getters, every two-piece cut, all schedules of reader and caller with one preemption or delay"},
		},
		Deep: []Scenario{{Name: "pieces-deep", Opt: vrt.Options{NoSched: true}, Body: body(5, true), What: "as pieces with 5 payloads each"}},
	}
}

// ---- C03: damaged answers ----

func propC03() *Prop {
	body := func(variants []int, values func(orig byte) []byte) func(c *X) {
		return func(c *X) {
			m := getMsgs[pick("msg", len(getMsgs))]
			d := variant(m, variants[pick("payload", len(variants))])
			u := NewUnit()
			u.SetPayload(m.Cmd, d)
			want, ok := refGet(m, d)
			if !ok {
				c.Outcome("unreadable")
				return
			}
			var sent []byte
			what := ""
			u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
				i := pick("pos", len(def))
				switch pick("damage", 4) {
				case 0: // substitution
					vs := values(def[i])
					v := vs[pick("value", len(vs))]
					sent = clone(def)
					sent[i] = v
					what = fmt.Sprintf("byte %d replaced by %02x", i, v)
				case 1: // loss of a byte
					sent = append(clone(def[:i]), def[i+1:]...)
					what = fmt.Sprintf("byte %d lost", i)
				case 2: // an extra byte
					vs := values(def[i])
					v := vs[pick("value", len(vs))]
					sent = append(append(clone(def[:i]), v), def[i:]...)
					what = fmt.Sprintf("byte %02x inserted at %d", v, i)
				case 3: // truncation
					sent = clone(def[:i])
					what = fmt.Sprintf("cut after %d bytes", i)
				}
				var o []Chunk
				if len(sent) > 0 {
					o = append(o, Chunk{B: sent})
				}
				switch pick("end", 2) {
				case 1:
					o = append(o, Chunk{EOF: true})
				}
				if o == nil {
					o = []Chunk{}
				}
				return o
			}
			got, err := callGet(m, u)
			if err == nil && got != want {
				c.Fail("damage-accepted", "%s: the unit sent %s; answer with %s was accepted as %s", m.Name, want, what, got)
			}
			if err != nil && got != zeroGet(m) {
				c.Fail("partial", "%s: failed with %v but returned %s", m.Name, err, got)
			}
			if err == nil {
				c.Outcome("%s same", m.Name)
			} else {
				c.Outcome("%s %v", m.Name, err)
			}
		}
	}
	all := func(o byte) []byte {
		v := make([]byte, 0, 256)
		for i := 0; i < 256; i++ {
			v = append(v, byte(i))
		}
		return v
	}
	return &Prop{ID: "C03",
		Quick: []Scenario{{Name: "single-damage", Opt: vrt.Options{NoSched: true}, Body: body([]int{0, 1}, all), What: "8 getters x 2 payloads x every position x (256 substitutions, 256 insertions, deletion, truncation) x (silence, end of stream) afterwards"}},
		Deep:  []Scenario{{Name: "single-damage-deep", Opt: vrt.Options{NoSched: true}, Body: body([]int{2, 3, 4}, all), What: "as single-damage with 3 more payloads"}},
	}
}

// ---- C04: handshake ----

// answerFault is one way the unit may answer.
type answerFault struct {
	Name string
	F    func(e Ev, def []byte) []Chunk
	OK   bool // the exchange must still succeed
}

func whole(b ...[]byte) []Chunk { return []Chunk{{B: bytes.Join(b, nil)}} }

var silence = []Chunk{}

// frameFaults are deviating answers to a request that expects an ack and a frame.
func frameFaults() []answerFault {
	fr := func(def []byte) []byte { return clone(def[2:]) }
	return []answerFault{
		{"normal", func(e Ev, def []byte) []Chunk { return whole(def) }, true},
		{"silence", func(e Ev, def []byte) []Chunk { return silence }, false},
		{"ack only", func(e Ev, def []byte) []Chunk { return whole(ackSeq) }, false},
		{"no ack", func(e Ev, def []byte) []Chunk { return whole(fr(def)) }, false},
		{"end for ack", func(e Ev, def []byte) []Chunk { return whole([]byte{7, 0x0F}, fr(def)) }, false},
		{"start for ack", func(e Ev, def []byte) []Chunk { return whole([]byte{7, 0xF0}, fr(def)) }, false},
		{"two acks", func(e Ev, def []byte) []Chunk { return whole(ackSeq, ackSeq, fr(def)) }, false},
		{"end for start", func(e Ev, def []byte) []Chunk { f := fr(def); f[1] = 0x0F; return whole(ackSeq, f) }, false},
		{"ack for end", func(e Ev, def []byte) []Chunk { f := fr(def); f[len(f)-1] = 0xF3; return whole(ackSeq, f) }, false},
		{"start for end", func(e Ev, def []byte) []Chunk { f := fr(def); f[len(f)-1] = 0xF0; return whole(ackSeq, f) }, false},
		{"noise before ack", func(e Ev, def []byte) []Chunk { return whole([]byte{0xAA}, def) }, false},
		{"noise before start", func(e Ev, def []byte) []Chunk { return whole(ackSeq, []byte{0xAA}, fr(def)) }, false},
		{"bad checksum", func(e Ev, def []byte) []Chunk { d := clone(def); d[len(d)-3]++; return whole(d) }, false},
		{"cut, silence", func(e Ev, def []byte) []Chunk { return whole(def[:len(def)-4]) }, false},
		{"cut, closed", func(e Ev, def []byte) []Chunk { return []Chunk{{B: clone(def[:len(def)-4])}, {EOF: true}} }, false},
		{"no end, closed", func(e Ev, def []byte) []Chunk { return []Chunk{{B: clone(def[:len(def)-2])}, {EOF: true}} }, false},
		{"ack, closed", func(e Ev, def []byte) []Chunk { return []Chunk{{B: clone(ackSeq)}, {EOF: true}} }, false},
		{"ack start, closed", func(e Ev, def []byte) []Chunk { return []Chunk{{B: append(clone(ackSeq), 7, 0xF0)}, {EOF: true}} }, false},
		{"closed", func(e Ev, def []byte) []Chunk { return []Chunk{{EOF: true}} }, false},
		{"read error", func(e Ev, def []byte) []Chunk { return []Chunk{{Err: errIO}} }, false},
		{"ack, read error", func(e Ev, def []byte) []Chunk { return []Chunk{{B: clone(ackSeq)}, {Err: errIO}} }, false},
		{"empty frame", func(e Ev, def []byte) []Chunk { return whole(ackSeq, []byte{7, 0xF0, 7, 0x0F}) }, false},
		{"short frame", func(e Ev, def []byte) []Chunk { return whole(ackSeq, []byte{7, 0xF0, 0, 7, 0x0F}) }, false},
		{"too late", func(e Ev, def []byte) []Chunk { return []Chunk{{Delay: 1200 * ms, B: def}} }, false},
		{"data too late", func(e Ev, def []byte) []Chunk {
			return []Chunk{{Delay: 10 * ms, B: clone(ackSeq)}, {Delay: 1300 * ms, B: fr(def)}}
		}, false},
		{"late but in time", func(e Ev, def []byte) []Chunk { return []Chunk{{Delay: 950 * ms, B: def}} }, true},
	}
}

// ackFaults are deviating answers to a set request.
func ackFaults() []answerFault {
	return []answerFault{
		{"normal", func(e Ev, def []byte) []Chunk { return whole(ackSeq) }, true},
		{"silence", func(e Ev, def []byte) []Chunk { return silence }, false},
		{"closed", func(e Ev, def []byte) []Chunk { return []Chunk{{EOF: true}} }, false},
		{"read error", func(e Ev, def []byte) []Chunk { return []Chunk{{Err: errIO}} }, false},
		{"start", func(e Ev, def []byte) []Chunk { return whole([]byte{7, 0xF0}) }, false},
		{"end", func(e Ev, def []byte) []Chunk { return whole([]byte{7, 0x0F}) }, false},
		{"half ack", func(e Ev, def []byte) []Chunk { return whole([]byte{7}) }, false},
		{"half ack, closed", func(e Ev, def []byte) []Chunk { return []Chunk{{B: []byte{7}}, {EOF: true}} }, false},
		{"noise", func(e Ev, def []byte) []Chunk { return whole([]byte{0x55, 0x66, 0xF3}) }, false},
		{"noise, closed", func(e Ev, def []byte) []Chunk { return []Chunk{{B: []byte{0x55}}, {EOF: true}} }, false},
		{"other frame", func(e Ev, def []byte) []Chunk { return whole(refFrame(0xD2, make([]byte, 9))) }, false},
		{"too late", func(e Ev, def []byte) []Chunk { return []Chunk{{Delay: 1100 * ms, B: clone(ackSeq)}} }, false},
		{"late but in time", func(e Ev, def []byte) []Chunk { return []Chunk{{Delay: 950 * ms, B: clone(ackSeq)}} }, true},
	}
}

func faultsFor(e Ev) []answerFault {
	if isSet(e.Cmd) {
		return ackFaults()
	}
	return frameFaults()
}

func propC04() *Prop {
	// exactly one frame; an ack if and only if the exchange was well-formed, after it
	judge := func(c *X, u *Unit, what string, reqs []Ev, good []bool) {
		// expected wire: for every request a frame, followed by an ack if its answer was good
		i := 0
		for k, r := range reqs {
			if i >= len(u.Events) || u.Events[i].Kind != "frame" || u.Events[i].Cmd != r.Cmd || !eq(u.Events[i].Data, r.Data) {
				c.Fail("wire", "%s: unit expected request %s, wire is %s", what, r, u.Wire())
			}
			i++
			if good[k] {
				if i >= len(u.Events) || u.Events[i].Kind != "ack" {
					c.Fail("no-ack", "%s: a well-formed answer was not acknowledged, wire is %s", what, u.Wire())
				}
				i++
			}
		}
		if i != len(u.Events) {
			c.Fail("wire", "%s: unexpected traffic, wire is %s (answers good: %v)", what, u.Wire(), good)
		}
	}
	// what was handed over to the host when the acknowledgement was written
	track := func(u *Unit, total *int, early *bool) {
		u.WriteErr = func(u *Unit, p []byte) (int, error) {
			if eq(p, ackSeq) && len(u.Served) < *total {
				*early = true
			}
			return len(p), nil
		}
	}
	faulty := func(c *X) {
		u := NewUnit()
		var total int
		var early bool
		track(u, &total, &early)
		name := ""
		var oks []bool
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			fl := faultsFor(e)
			f := fl[pick("fault", len(fl))]
			name += " " + f.Name
			oks = append(oks, f.OK)
			ch := f.F(e, def)
			if f.OK {
				// hand it over in two pieces so that an early acknowledgement shows
				b := ch[0].B
				k := pick("cut", 3)
				at := []int{0, 2, len(b) - 1}[k]
				if at > 0 && at < len(b) {
					ch = []Chunk{{Delay: ch[0].Delay, B: clone(b[:at])}, {Delay: ch[0].Delay + 5*ms, B: clone(b[at:])}}
				}
				total += len(b)
			}
			return ch
		}
		i := pick("op", len(getMsgs)+4)
		var err error
		var reqs []Ev
		if i < len(getMsgs) {
			m := getMsgs[i]
			_, err = callGet(m, u)
			reqs = []Ev{{Kind: "frame", Cmd: m.Cmd}}
			name = m.Name + name
		} else {
			op := setOps()[i-len(getMsgs)]
			err = op.Do(u)
			if op.RMW {
				reqs = append(reqs, Ev{Kind: "frame", Cmd: cProf})
			}
			if !op.RMW || (len(oks) > 0 && oks[0]) {
				reqs = append(reqs, Ev{Kind: "frame", Cmd: op.Cmd, Data: op.Data})
			}
			name = op.Name + name
		}
		judge(c, u, name, reqs, oks)
		if early {
			c.Fail("early-ack", "%s: acknowledged before the answer was complete; wire is %s", name, u.Wire())
		}
		good := true
		for _, o := range oks {
			good = good && o
		}
		if good != (err == nil) {
			c.Fail("verdict", "%s: returned error %v", name, err)
		}
		c.Outcome("%s %v", name, err)
	}
	wrongcmd := func(c *X) {
		u := NewUnit()
		m := getMsgs[pick("msg", len(getMsgs))]
		rc := byte(pick("answer command", 256))
		zero := pick("payload", 3)
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			d := [][]byte{u.Payload(m.Cmd), {}, make([]byte, 5)}[zero]
			return whole(ackSeq, refFrame(rc, d))
		}
		got, err := callGet(m, u)
		if rc != m.Cmd+1 {
			if err == nil {
				c.Fail("wrong-command", "%s accepted an answer of type %02x as %s", m.Name, rc, got)
			}
			judge(c, u, m.Name, []Ev{{Kind: "frame", Cmd: m.Cmd}}, []bool{false})
		} else {
			if (err == nil) != (zero == 0) {
				c.Fail("verdict", "%s: payload variant %d: %s, %v", m.Name, zero, got, err)
			}
			judge(c, u, m.Name, []Ev{{Kind: "frame", Cmd: m.Cmd}}, []bool{true})
		}
		c.Outcome("%s %v %v", m.Name, rc == m.Cmd+1, err)
	}
	ackerr := func(c *X) {
		// the acknowledgement itself cannot be written completely
		u := NewUnit()
		mode := pick("mode", 3)
		u.WriteErr = func(u *Unit, p []byte) (int, error) {
			if eq(p, ackSeq) {
				switch mode {
				case 0:
					return 0, errIO
				case 1:
					return 1, errIO
				case 2:
					return 1, nil
				}
			}
			return len(p), nil
		}
		i := pick("op", len(getMsgs)+3)
		var err error
		if i < len(getMsgs) {
			_, err = callGet(getMsgs[i], u)
		} else {
			err = setOps()[i-len(getMsgs)].Do(u)
		}
		if err == nil {
			c.Fail("ack-lost", "operation %d reported success although its acknowledgement could not be written (mode %d)", i, mode)
		}
		c.Outcome("%d %d %v", i, mode, err)
	}
	all := func(c *X) {
		// every command byte, with and without an answer frame
		u := NewUnit()
		cmd := byte(pick("cmd", 256))
		d := [][]byte{nil, {1}, {7, 7, 0x0F}}[pick("data", 3)]
		expect := pick("expect", 2) == 1
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			if expect {
				return whole(ackSeq, refFrame(e.Cmd+1, []byte{1, 2, 3}))
			}
			return whole(ackSeq)
		}
		_, err := libcomfo.QueryPacket(libcomfo.Packet{Command: cmd, Data: d, Expect: expect}, u)
		judge(c, u, fmt.Sprintf("query %02x", cmd), []Ev{{Kind: "frame", Cmd: cmd, Data: d}}, []bool{true})
		if err != nil {
			c.Fail("verdict", "query %02x: %v", cmd, err)
		}
		c.Outcome("%02x", cmd)
	}
	ns := vrt.Options{NoSched: true}
	return &Prop{ID: "C04",
		Quick: []Scenario{
			{Name: "faulty-answers", Opt: ns, Body: faulty, What: "8 getters and 4 set operations x every deviating answer of the catalogue (26 for frames, 13 for acks; all pairs for read-modify-write) x 3 segmentations"},
			{Name: "answer-command", Opt: ns, Body: wrongcmd, What: "8 getters x all 256 answer commands x 3 payloads"},
			{Name: "ack-write", Opt: ns, Body: ackerr, What: "the acknowledgement fails to be written: 11 operations x 3 ways"},
			{Name: "all-commands", Opt: ns, Body: all, What: "all 256 request commands x 3 payloads x with and without an answer frame"},
			{Name: "faulty-sched", Bound: 1, Body: faulty, What: "as faulty-answers under every schedule with one preemption or delay"},
		},
		Deep: []Scenario{{Name: "faulty-sched2", Bound: 2, Body: faulty, What: "as faulty-answers under every schedule with two preemptions or delays"}},
	}
}

// ---- C05: no false success of a set operation ----

// timeoutErr is a deadline that passed.
type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func propC05() *Prop {
	alpha := []byte{0x07, 0xF3, 0xF0, 0x0F, 0x00, 0xFF}
	body := func(max int) func(c *X) {
		return func(c *X) {
			u := NewUnit()
			op := setOps()[pick("op", 4)]
			var ans []byte
			u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
				if !isSet(e.Cmd) {
					return nil
				}
				n := pick("len", max+1)
				for i := 0; i < n; i++ {
					ans = append(ans, alpha[pick("byte", len(alpha))])
				}
				o := []Chunk{}
				if n > 0 {
					if n > 1 && pick("split", 2) == 1 {
						o = append(o, Chunk{B: clone(ans[:1])}, Chunk{B: clone(ans[1:]), Delay: ms})
					} else {
						o = append(o, Chunk{B: clone(ans)})
					}
				}
				switch pick("then", 3) {
				case 1:
					o = append(o, Chunk{EOF: true})
				case 2:
					o = append(o, Chunk{Err: errIO})
				}
				return o
			}
			err := op.Do(u)
			acked := bytes.HasPrefix(ans, ackSeq)
			if err == nil && !acked {
				c.Fail("false-success", "%s succeeded although the unit answered only [% x]", op.Name, ans)
			}
			if err != nil && acked {
				c.Fail("false-failure", "%s failed with %v although the unit acknowledged it", op.Name, err)
			}
			c.Outcome("%s % x %v", op.Name, ans, err)
		}
	}
	writes := func(c *X) {
		// the request does not get out completely
		u := NewUnit()
		op := setOps()[pick("op", 4)]
		n, mode := 0, 0
		decided := false
		errs := []error{errIO, timeoutErr{}, io.ErrShortWrite, syscall.EAGAIN, syscall.EINTR, &net.OpError{Op: "write", Err: os.ErrDeadlineExceeded}, io.ErrClosedPipe}
		failure := errs[pick("error", len(errs))]
		acked := pick("acked", 3) // the line carries an acknowledgement all the same
		later := pick("later", 2) // later writes succeed
		u.WriteErr = func(u *Unit, p []byte) (int, error) {
			if len(p) > 3 && p[0] == 7 && p[1] == 0xF0 && isSet(p[3]) {
				n = pick("written", len(p)+1)
				mode = 1
				decided = true
				if acked > 0 {
					u.Push(Chunk{B: clone(ackSeq), Delay: []int64{0, 0, 10 * ms}[acked]})
				}
				return n, failure
			}
			if decided && later == 0 {
				return 0, failure
			}
			return len(p), nil
		}
		err := op.Do(u)
		whole := false
		for _, e := range u.FramesSeen() {
			whole = whole || isSet(e.Cmd)
		}
		if err == nil && mode == 1 && !whole {
			c.Fail("false-success", "%s succeeded although writing the request failed after %d bytes with %v; wire %s", op.Name, n, failure, u.Wire())
		}
		c.Outcome("%s %d %v %v", op.Name, n, failure, err)
	}
	rmw := func(c *X) {
		// the read half of a read-modify-write fails: nothing may be set
		u := NewUnit()
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			if isSet(e.Cmd) {
				return nil
			}
			fl := frameFaults()
			f := fl[pick("fault", len(fl))]
			if f.OK {
				c.Outcome("ok")
			}
			return f.F(e, def)
		}
		before := clone(u.Prof)
		mode, v := byte(pick("mode", 4)), byte(44)
		err := libcomfo.SetFanProfile(mode, v, u)
		if (err != nil) != eq(before, u.Prof) {
			c.Fail("rmw", "SetFanProfile(%d, %d) returned %v; profiles before % x, after % x", mode, v, err, before, u.Prof)
		}
		c.Outcome("%d %v", mode, err)
	}
	ns := vrt.Options{NoSched: true}
	return &Prop{ID: "C05",
		Quick: []Scenario{
			{Name: "answers", Opt: ns, Body: body(4), What: "4 set operations x every answer of up to 4 bytes over {07 F3 F0 0F 00 FF} x 2 segmentations, followed by silence, end of stream or read error"},
			{Name: "write-failures", Opt: ns, Body: writes, What: "4 set operations x the request write failing after every number of bytes x 7 kinds of error (timeouts and temporary ones among them) x an acknowledgement on the line or not x later writes failing or not"},
			{Name: "read-half", Opt: ns, Body: rmw, What: "4 modes x 26 deviating answers to the read half of a profile change"},
			{Name: "answers-sched", Bound: 1, Body: body(2), What: "answers of up to 2 bytes under every schedule with one preemption or delay"},
		},
		Deep: []Scenario{
			{Name: "answers-deep", Opt: ns, Body: body(6), What: "answers of up to 6 bytes"},
			{Name: "answers-sched-deep", Bound: 2, Body: body(2), What: "answers of up to 2 bytes, two preemptions or delays"},
		},
	}
}

// ---- C06: bounded waiting ----

func propC06() *Prop {
	gap := []int64{0, 10 * ms, 400 * ms, 900 * ms}
	pieces := [][]byte{{0x07}, {0xF3}, {0x07, 0xF3}, {0x07, 0xF0}, {0x07, 0x0F}, {0xAA}, {0x00, 0xD2, 0x09}, bytes.Repeat([]byte{0xAA}, 5000), bytes.Repeat([]byte{7}, 70000)}
	// every operation; the first n only, starting with three typical ones
	callOp := func(i int, u *Unit) error {
		so := setOps()
		order := []int{4, len(getMsgs), len(getMsgs) + 3}
		for k := 0; k < len(getMsgs)+len(so); k++ {
			if k != order[0] && k != order[1] && k != order[2] {
				order = append(order, k)
			}
		}
		k := order[i]
		if k < len(getMsgs) {
			_, err := callGet(getMsgs[k], u)
			return err
		}
		return so[k-len(getMsgs)].Do(u)
	}
	nops := len(getMsgs) + len(setOps())
	body := func(depth, ops int) func(c *X) {
		return func(c *X) {
			u := NewUnit()
			first := true
			u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
				if !first {
					return nil
				}
				first = false
				o := []Chunk{}
				t := int64(0)
				for i := 0; i < depth; i++ {
					k := pick("piece", len(pieces)+4)
					if k == 0 {
						break // silence
					}
					t += gap[pick("gap", len(gap))]
					switch {
					case k <= len(pieces):
						o = append(o, Chunk{Delay: t, B: clone(pieces[k-1])})
					case k == len(pieces)+1:
						return append(o, Chunk{Delay: t, EOF: true})
					case k == len(pieces)+2:
						return append(o, Chunk{Delay: t, Err: errIO})
					default:
						// the unit never stops talking
						b := []byte{0xAA}
						for ; t < 30*sec; t += 50 * ms {
							o = append(o, Chunk{Delay: t, B: b})
						}
						return o
					}
				}
				return o
			}
			i := pick("op", ops)
			t0 := vrt.NowNS()
			err := callOp(i, u)
			// a few seconds for each exchange
			lim := int64(max(1, len(u.FramesSeen()))) * 3500 * ms
			if d := vrt.NowNS() - t0; d > lim {
				c.Fail("too-long", "operation %d took %.3f s", i, float64(d)/1e9)
			}
			c.Outcome("%d %v %d", i, err, (vrt.NowNS()-t0)/(100*ms))
			// the line is free for others: another connection can be used at once
			v := NewUnit()
			t1 := vrt.NowNS()
			th := vrt.GoNamed("other", func() {
				if _, err := callGet(getMsgs[0], v); err != nil {
					c.Fail("blocked", "a query on a healthy connection failed afterwards: %v", err)
				}
				if err := libcomfo.SetFanProfile(1, 55, v); err != nil {
					c.Fail("blocked", "a profile change on a healthy connection failed afterwards: %v", err)
				}
			})
			vrt.Join(th)
			if vrt.NowNS()-t1 > sec {
				c.Fail("blocked", "the next exchange had to wait %.3f s", float64(vrt.NowNS()-t1)/1e9)
			}
		}
	}
	// calls that fail in some way leave nothing behind for each call
	growth := func(c *X) {
		u := NewUnit()
		ff, af := frameFaults(), ackFaults()
		op := pick("op", nops)
		n := max(len(ff), len(af))
		k := pick("fault", n+2)
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			switch k {
			case n + 1:
				return nil
			case n:
				return []Chunk{{B: bytes.Repeat([]byte{0xAA}, 9000)}}
			}
			if isSet(e.Cmd) {
				return af[k%len(af)].F(e, def)
			}
			return ff[k%len(ff)].F(e, def)
		}
		var live []int
		for i := 0; i < 3; i++ {
			for j := 0; j < 4; j++ {
				callOp(op, u)
			}
			vrt.Sleep(5 * sec)
			live = append(live, len(vrt.Live()))
		}
		if live[2] > live[1] && live[1] > live[0] {
			c.Fail("growth", "operation %d, fault %d: %d goroutines after 4 calls, %d after 8, %d after 12: %s", op, k, live[0], live[1], live[2], strings.Join(vrt.Live(), ", "))
		}
		c.Outcome("%d %d %v", op, k, live)
	}
	ns := vrt.Options{NoSched: true, Horizon: 60 * sec}
	return &Prop{ID: "C06",
		Quick: []Scenario{
			{Name: "slow-units", Opt: ns, Body: body(3, 3), What: "3 operations x every sequence of up to 3 pieces (half and whole control sequences, noise, 5000 and 70000 byte floods, endless dribble, end of stream, read error, silence) with gaps of 0 to 900 ms"},
			{Name: "slow-units-all", Opt: ns, Body: body(2, nops), What: "every operation, up to 2 pieces"},
			{Name: "growth", Opt: vrt.Options{NoSched: true, Horizon: 120 * sec}, Body: growth, What: "every operation x every deviation of the catalogue (and a flood, and none), 12 times in a row: the number of goroutines left after 4, 8 and 12 calls"},
			{Name: "slow-units-sched", Bound: 1, Opt: vrt.Options{Horizon: 60 * sec}, Body: body(1, 3), What: "one piece, every schedule with one preemption or delay"},
		},
		Deep: []Scenario{
			{Name: "slow-units-deep", Opt: ns, Body: body(4, 3), What: "up to 4 pieces"},
			{Name: "slow-units-sched-deep", Bound: 2, Opt: vrt.Options{Horizon: 60 * sec}, Body: body(1, 3), What: "one piece, two preemptions or delays"},
		},
	}
}

// ---- C07: recovery ----

// recoverable ways an exchange may fail: the connection itself stays up
func glitches() []answerFault {
	var o []answerFault
	for _, f := range frameFaults() {
		switch f.Name {
		case "cut, closed", "no end, closed", "ack, closed", "ack start, closed", "closed", "read error", "ack, read error", "normal", "late but in time":
			continue
		}
		o = append(o, f)
	}
	pieces := func(d ...int64) func(e Ev, def []byte) []Chunk {
		return func(e Ev, def []byte) []Chunk {
			var o []Chunk
			n := len(def)
			k := len(d)
			for i := 0; i < k; i++ {
				b := def[i*n/k : (i+1)*n/k]
				if len(b) > 0 {
					o = append(o, Chunk{Delay: d[i], B: clone(b)})
				}
			}
			return o
		}
	}
	noisy := func(e Ev, def []byte) []Chunk {
		// noise, then the answer trickles in
		o := []Chunk{{B: []byte{0xAA}}}
		for i := range def {
			o = append(o, Chunk{Delay: int64(i) * 5 * ms, B: def[i : i+1]})
		}
		return o
	}
	o = append(o,
		answerFault{"late in two", pieces(1100*ms, 1200*ms), false},
		answerFault{"late in three", pieces(500*ms, 1200*ms, 1500*ms), false},
		answerFault{"noise, slow answer", noisy, false},
		answerFault{"silence, one read fails late", func(e Ev, def []byte) []Chunk {
			return []Chunk{{Delay: 1500 * ms, Err: errIO, Once: true}}
		}, false},
		answerFault{"late, one read fails", func(e Ev, def []byte) []Chunk {
			return []Chunk{{Delay: 1200 * ms, B: clone(def)}, {Delay: 300 * ms, Err: errIO, Once: true}}
		}, false},
		answerFault{"one read fails", func(e Ev, def []byte) []Chunk {
			return []Chunk{{Err: errIO, Once: true}, {Delay: 5 * ms, B: clone(def)}}
		}, false},
		answerFault{"one read fails half way", func(e Ev, def []byte) []Chunk {
			return []Chunk{{B: clone(def[:5])}, {Err: errIO, Once: true}, {Delay: 300 * ms, B: clone(def[5:])}}
		}, false},
		answerFault{"wrong type, then right", func(e Ev, def []byte) []Chunk {
			return []Chunk{{B: append(clone(ackSeq), refFrame(0x10, []byte{1})...)}, {Delay: 300 * ms, B: clone(def)}}
		}, false},
	)
	return o
}

func ackGlitches() []answerFault {
	var o []answerFault
	for _, f := range ackFaults() {
		switch f.Name {
		case "half ack, closed", "noise, closed", "closed", "read error", "normal", "late but in time":
			continue
		}
		o = append(o, f)
	}
	return append(o, answerFault{"noise, then ack", func(e Ev, def []byte) []Chunk {
		return []Chunk{{B: []byte{0x33}}, {Delay: 200 * ms, B: clone(ackSeq)}}
	}, false}, answerFault{"silence, one read fails late", func(e Ev, def []byte) []Chunk {
		return []Chunk{{Delay: 1500 * ms, Err: errIO, Once: true}}
	}, false})
}

func propC07() *Prop {
	body := func(nfail int, pauses []int64) func(c *X) {
		return func(c *X) {
			u := NewUnit()
			failing := true
			desc := ""
			u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
				if !failing {
					return nil
				}
				fl := glitches()
				if isSet(e.Cmd) {
					fl = ackGlitches()
				}
				f := fl[pick("glitch", len(fl))]
				desc += " " + f.Name
				return f.F(e, def)
			}
			ops := 3
			do := func(l string) (string, error) {
				switch pick(l, ops) {
				case 0:
					return callGet(getMsgs[4], u)
				case 1:
					return callGet(getMsgs[0], u)
				default:
					return "", setOps()[1].Do(u)
				}
			}
			for i := 0; i < nfail; i++ {
				// whether this succeeds is not the question here
				_, err := do("failing op")
				desc += fmt.Sprintf("(%v)", err)
				if len(u.q) > 0 {
					// Answers carry no request identifier: one that is still on its way
					// may be taken for the answer to a request made meanwhile.
					vrt.Sleep(5 * sec)
				}
			}
			failing = false
			p := pauses[pick("pause", len(pauses))]
			vrt.Sleep(p)
			// from now on the unit answers correctly
			u.Temps[1] = 99
			u.Fans[0] = 42
			for i := 0; i < 3; i++ {
				var got, want string
				var err error
				switch pick("op", ops) {
				case 0:
					want, _ = refGet(getMsgs[4], u.Temps)
					got, err = callGet(getMsgs[4], u)
				case 1:
					want, _ = refGet(getMsgs[0], u.Fans)
					got, err = callGet(getMsgs[0], u)
				default:
					n := u.Frames
					err = setOps()[1].Do(u)
					if u.Frames != n+1 {
						c.Fail("recovery", "after [%s ] the unit did not see the request", desc)
					}
				}
				if err != nil || got != want {
					c.Fail("recovery", "after [%s ] and a pause of %.1f s, exchange %d with a healthy unit gave %q, %v; wire %s", desc, float64(p)/1e9, i+1, got, err, u.Wire())
				}
				vrt.Sleep(int64(10+1000*i) * ms)
			}
			c.Outcome("%s", desc)
		}
	}
	// answers that came within their window must not disturb an exchange that follows at once
	immediate := func(c *X) {
		u := NewUnit()
		failing := true
		desc := ""
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			if !failing {
				return nil
			}
			fl := glitches()
			if isSet(e.Cmd) {
				fl = ackGlitches()
			}
			f := fl[pick("glitch", len(fl))]
			desc = f.Name
			return f.F(e, def)
		}
		switch pick("failing op", 2) {
		case 0:
			callGet(getMsgs[4], u)
		default:
			setOps()[1].Do(u)
		}
		for _, q := range u.q {
			if q.at > vrt.NowNS() {
				c.Outcome("still talking")
				return // part of the answer is still to come: not covered
			}
		}
		failing = false
		for i := 0; i < 2; i++ {
			var got, want string
			var err error
			u.Temps[1] = byte(90 + i)
			switch pick("op", 2) {
			case 0:
				want, _ = refGet(getMsgs[4], u.Temps)
				got, err = callGet(getMsgs[4], u)
			default:
				err = setOps()[1].Do(u)
			}
			if err != nil || got != want {
				c.Fail("recovery", "after [%s], exchange %d with a healthy unit gave %q, %v; wire %s", desc, i+1, got, err, u.Wire())
			}
		}
		c.Outcome("%s", desc)
	}
	ns := vrt.Options{NoSched: true, Horizon: 100 * sec}
	sc := vrt.Options{Horizon: 100 * sec}
	return &Prop{ID: "C07",
		Quick: []Scenario{
			{Name: "one-glitch", Opt: ns, Body: body(1, []int64{5 * sec}), What: "one failed exchange (3 operations x every recoverable deviation of the catalogue), a pause, then every sequence of 3 operations with a healthy unit"},
			{Name: "two-glitches", Opt: ns, Body: body(2, []int64{5 * sec}), What: "two failed exchanges in a row"},
			{Name: "outage", Opt: vrt.Options{NoSched: true, Horizon: 2000 * sec, MaxSteps: 20000000}, Body: longOutage, What: "the same failure (3 operations x every recoverable deviation) 3 to 70 times in a row, then healthy exchanges of every kind"},
			{Name: "long-run", Opt: vrt.Options{NoSched: true, Horizon: 2000 * sec, MaxSteps: 20000000}, Body: longRun, What: "3 operations, 1000 times each on a healthy unit"},
			{Name: "at-once", Opt: ns, Body: immediate, What: "one failed exchange whose answer has come completely, followed by healthy ones without a pause"},
			{Name: "one-glitch-sched", Bound: 1, Opt: sc, Body: immediate, What: "as at-once under every schedule with one preemption or delay"},
		},
		Deep: []Scenario{
			{Name: "three-glitches", Opt: ns, Body: body(3, []int64{5 * sec}), What: "three failed exchanges in a row"},
			{Name: "one-glitch-sched2", Bound: 2, Opt: sc, Body: immediate, What: "as at-once with two preemptions or delays"},
		},
	}
}

var _ = vtime.Second
