package harness

import (
	"errors"
	"fmt"
	"io"

	"github.com/ti-mo/comfo/zzverif/vrt"
)

const (
	ms  = int64(1e6)
	sec = int64(1e9)
)

// Chunk is bytes that arrive at the host together, Delay after the unit started to answer.
type Chunk struct {
	Delay int64
	B     []byte
	EOF   bool // the connection ends instead, or together with the last byte of B
	Err   error
	Empty bool // a read returns without bytes and without an error
	Once  bool // Err is reported once, the connection goes on
}

var errIO = errors.New("input/output error")

type pending struct {
	at int64
	c  Chunk
}

// Unit is a simulated ventilation unit with the host's end of its connection.
type Unit struct {
	Boot  []byte
	Firm  []byte
	Temps []byte
	Prof  []byte
	Fans  []byte
	Errs  []byte
	Byp   []byte
	Hours []byte

	Lat    int64 // default latency of answers
	RampNS int64 // time the fans take to reach a new target
	Leads  int   // 1: the in fan is there at once, 2: the out fan is
	rampAt int64
	rampTo [2]byte

	// Answer may replace the chunks of the answer; nil means the default answer. The
	// state change of a set request has been applied already.
	Answer func(u *Unit, e Ev, def []byte) []Chunk
	// Before is called before a request is applied; it returns false to ignore it.
	Before func(u *Unit, e Ev) bool
	// Apply does what the unit does with an acknowledged setting; it returns false to carry it out as given.
	Apply func(u *Unit, e Ev) bool
	// WriteErr, if set, decides what happens to a write: n bytes accepted, error.
	WriteErr func(u *Unit, p []byte) (int, error)

	Events  []Ev
	q       []pending
	ticketN int
	serving []int
	p       hostParser
	Frames  int
	Acks    int
	Garbage int
	Served  []byte // bytes handed to the host by reads
	Reads   int
	// open exchange: a frame the host has not acknowledged
	ended *Chunk
	Ans   []Ans // correct payloads the unit had for get requests, in order
}

// Ans is what the unit had to say to a get request.
type Ans struct {
	T    int64
	Cmd  byte
	Data []byte
}

// NewUnit returns a unit in an ordinary state.
func NewUnit() *Unit {
	u := &Unit{
		Boot:  []byte{3, 60, 32, 'C', 'A', '3', '5', '0', ' ', 'l', 'u', 'x', ' '},
		Firm:  []byte{4, 61, 33, 'C', 'A', '5', '5', '0', ' ', 'l', 'u', 'x', ' '},
		Temps: []byte{80, 51, 62, 73, 64, 0x0F, 45, 46, 48},
		Prof:  []byte{15, 35, 50, 16, 36, 51, 35, 36, 2, 1, 70, 71, 0, 0},
		Fans:  []byte{36, 35, 0x05, 0xDC, 0x06, 0x40},
		Errs:  []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0},
		Byp:   []byte{0, 0, 4, 2, 1, 0, 0},
		Hours: []byte{0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20},
	}
	u.p.stamp = func() Ev { return Ev{T: vrt.NowNS(), Thread: vrt.CurName()} }
	u.p.onEv = u.event
	return u
}

// pct returns the unit's in and out percentages of a speed mode.
func (u *Unit) pct(mode byte) (in, out byte) {
	switch mode {
	case 1:
		return u.Prof[3], u.Prof[0]
	case 2:
		return u.Prof[4], u.Prof[1]
	case 3:
		return u.Prof[5], u.Prof[2]
	case 4:
		return u.Prof[11], u.Prof[10]
	}
	return u.Prof[4], u.Prof[1]
}

func (u *Unit) tick() {
	if u.rampAt != 0 && vrt.NowNS() >= u.rampAt {
		u.Fans[0], u.Fans[1] = u.rampTo[0], u.rampTo[1]
		u.Prof[6], u.Prof[7] = u.rampTo[1], u.rampTo[0]
		u.rampAt = 0
	}
}

func (u *Unit) retarget() {
	in, out := u.pct(u.Prof[8])
	u.rampTo = [2]byte{in, out}
	u.rampAt = vrt.NowNS() + u.RampNS
	if u.RampNS == 0 {
		u.rampAt = 0
		u.Fans[0], u.Fans[1] = in, out
		u.Prof[6], u.Prof[7] = out, in
		return
	}
	switch u.Leads {
	case 1:
		u.Fans[0], u.Prof[7] = in, in
	case 2:
		u.Fans[1], u.Prof[6] = out, out
	}
}

// Payload is the answer payload of a get request.
func (u *Unit) Payload(cmd byte) []byte {
	switch cmd {
	case cFans:
		return u.Fans
	case cBoot:
		return u.Boot
	case cFirm:
		return u.Firm
	case cProf:
		return u.Prof
	case cTemps:
		return u.Temps
	case cErrs:
		return u.Errs
	case cByp:
		return u.Byp
	case cHours:
		return u.Hours
	}
	return nil
}

// SetPayload changes what the unit answers to a get request.
func (u *Unit) SetPayload(cmd byte, b []byte) {
	switch cmd {
	case cFans:
		u.Fans = b
	case cBoot:
		u.Boot = b
	case cFirm:
		u.Firm = b
	case cProf:
		u.Prof = b
	case cTemps:
		u.Temps = b
	case cErrs:
		u.Errs = b
	case cByp:
		u.Byp = b
	case cHours:
		u.Hours = b
	}
}

func isSet(cmd byte) bool { return cmd == cSpeed || cmd == cComfort || cmd == cSetProf }

func (u *Unit) event(e Ev) {
	u.tick()
	u.Events = append(u.Events, e)
	if vrt.Tracing() {
		vrt.Logf("unit sees %s", e)
	}
	switch e.Kind {
	case "ack":
		u.Acks++
		return
	case "garbage":
		u.Garbage++
		return
	}
	u.Frames++
	if u.Before != nil && !u.Before(u, e) {
		return
	}
	var def []byte
	switch {
	case isSet(e.Cmd):
		u.apply(e)
		def = clone(ackSeq)
	case u.Payload(e.Cmd) != nil && len(e.Data) == 0:
		def = append(clone(ackSeq), refFrame(e.Cmd+1, u.Payload(e.Cmd))...)
		u.Ans = append(u.Ans, Ans{e.T, e.Cmd, clone(u.Payload(e.Cmd))})
	default:
		def = clone(ackSeq)
	}
	var ch []Chunk
	if u.Answer != nil {
		ch = u.Answer(u, e, def)
	}
	if ch == nil {
		ch = []Chunk{{Delay: u.Lat, B: def}}
	}
	u.Push(ch...)
}

// Push makes chunks arrive at the host.
func (u *Unit) Push(ch ...Chunk) {
	now := vrt.NowNS()
	for _, c := range ch {
		at := now + c.Delay
		if n := len(u.q); n > 0 && u.q[n-1].at > at {
			at = u.q[n-1].at // a byte stream keeps its order
		}
		u.q = append(u.q, pending{at: at, c: c})
	}
}

func (u *Unit) apply(e Ev) {
	if u.Apply != nil && u.Apply(u, e) {
		return
	}
	switch e.Cmd {
	case cSpeed:
		if len(e.Data) == 1 && e.Data[0] <= 4 {
			u.Prof[8] = e.Data[0]
			u.retarget()
		}
	case cComfort:
		if len(e.Data) == 1 {
			u.Temps[0] = e.Data[0]
		}
	case cSetProf:
		if len(e.Data) == 8 {
			d := e.Data
			u.Prof[0], u.Prof[1], u.Prof[2], u.Prof[3], u.Prof[4], u.Prof[5], u.Prof[10], u.Prof[11] = d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]
			u.retarget()
		}
	}
}

// Read is the host reading. Concurrent readers are served in order of arrival, as the
// descriptor locks of real connections do; one chunk is returned at a time.
func (u *Unit) Read(p []byte) (int, error) {
	u.ticketN++
	me := u.ticketN
	u.serving = append(u.serving, me)
	vrt.Block("conn read",
		func() bool {
			if u.serving[0] != me {
				return false
			}
			if u.ended != nil {
				return true
			}
			return len(u.q) > 0 && u.q[0].at <= vrt.NowNS()
		},
		func() { u.serving = u.serving[1:] },
		func() (int64, bool) {
			if len(u.q) > 0 {
				return u.q[0].at, true
			}
			return 0, false
		})
	u.Reads++
	if !vrt.Active() {
		return 0, io.EOF
	}
	if u.ended == nil {
		c := &u.q[0].c
		if c.Empty {
			u.q = u.q[1:]
			return 0, nil
		}
		if c.Once && len(c.B) == 0 {
			e := c.Err
			u.q = u.q[1:]
			return 0, e
		}
		if (c.EOF || c.Err != nil) && len(c.B) == 0 {
			u.ended = c
		} else {
			n := copy(p, c.B)
			vrt.RaceWrite(p[:n])
			u.Served = append(u.Served, c.B[:n]...)
			c.B = c.B[n:]
			if len(c.B) == 0 {
				u.q = u.q[1:]
			}
			if vrt.Tracing() {
				vrt.Logf("host reads % x", p[:n])
			}
			if len(c.B) == 0 && (c.EOF || c.Err != nil) {
				e := *c
				u.ended = &e
				if e.Err != nil {
					return n, e.Err
				}
				return n, io.EOF
			}
			return n, nil
		}
	}
	if u.ended.Err != nil {
		return 0, u.ended.Err
	}
	return 0, io.EOF
}

// Write is the host writing.
func (u *Unit) Write(p []byte) (int, error) {
	vrt.Point("conn write")
	if !vrt.Active() {
		return 0, io.EOF
	}
	vrt.RaceRead(p)
	n, err := len(p), error(nil)
	if u.WriteErr != nil {
		n, err = u.WriteErr(u, p)
	}
	if vrt.Tracing() {
		vrt.Logf("host writes % x", p[:n])
	}
	u.p.feed(clone(p[:n]))
	return n, err
}

// Close ends the connection.
func (u *Unit) Close() error {
	vrt.Point("conn close")
	if u.ended == nil {
		u.ended = &Chunk{EOF: true}
	}
	return nil
}

// Wire is a compact rendering of what the unit saw.
func (u *Unit) Wire() string {
	s := ""
	for _, e := range u.Events {
		s += "|" + e.String()
	}
	return s
}

// FramesSeen are the requests the unit saw, acknowledgements left out.
func (u *Unit) FramesSeen() []Ev {
	var o []Ev
	for _, e := range u.Events {
		if e.Kind == "frame" {
			o = append(o, e)
		}
	}
	return o
}

// catch runs f and turns a panic of the code under test into a violation.
func catch(c *X, key string, f func()) {
	defer func() {
		if r := recover(); r != nil && vrt.Active() {
			c.Fail(key, "panic: %v", r)
		}
	}()
	f()
}

var _ = fmt.Sprint
