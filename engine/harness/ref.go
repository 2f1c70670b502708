package harness

import (
	"bytes"
	"fmt"
	"strings"
)

// ---- reference codec of the unit's wire protocol, written independently of libcomfo ----

var ackSeq = []byte{0x07, 0xF3}

func refSum(cmd byte, data []byte) byte {
	s := 173 + int(cmd) + len(data)
	for _, b := range data {
		s += int(b)
	}
	return byte(s % 256)
}

// refBody is the frame without its start and end sequences.
func refBody(cmd byte, data []byte) []byte {
	out := []byte{0x00, cmd, byte(len(data))}
	for _, b := range data {
		out = append(out, b)
		if b == 7 {
			out = append(out, 7)
		}
	}
	return append(out, refSum(cmd, data))
}

// refFrame is a complete frame on the wire.
func refFrame(cmd byte, data []byte) []byte {
	return append(append([]byte{0x07, 0xF0}, refBody(cmd, data)...), 0x07, 0x0F)
}

// hostParser understands what the host sends, byte by byte, strictly.
type hostParser struct {
	st    int
	raw   []byte
	hdr   []byte
	data  []byte
	esc   bool
	onEv  func(Ev)
	stamp func() Ev
}

// Ev is something the unit saw on the wire.
type Ev struct {
	T      int64
	Thread string
	Kind   string // "frame", "ack", "garbage"
	Cmd    byte
	Data   []byte
	Raw    []byte
}

func (e Ev) String() string {
	switch e.Kind {
	case "frame":
		return fmt.Sprintf("frame %02x % x", e.Cmd, e.Data)
	case "ack":
		return "ack"
	}
	return fmt.Sprintf("%s % x", e.Kind, e.Raw)
}

func (h *hostParser) emit(kind string) {
	e := h.stamp()
	e.Kind = kind
	e.Raw = append([]byte(nil), h.raw...)
	if kind == "frame" {
		e.Cmd = h.hdr[1]
		e.Data = append([]byte(nil), h.data...)
	}
	h.st, h.raw, h.hdr, h.data, h.esc = 0, nil, nil, nil, false
	h.onEv(e)
}

func (h *hostParser) feed(p []byte) {
	for _, b := range p {
		h.raw = append(h.raw, b)
		switch h.st {
		case 0:
			if b != 7 {
				h.emit("garbage")
				continue
			}
			h.st = 1
		case 1:
			switch b {
			case 0xF3:
				h.emit("ack")
			case 0xF0:
				h.st = 2
			default:
				h.emit("garbage")
			}
		case 2: // header
			h.hdr = append(h.hdr, b)
			if len(h.hdr) == 3 {
				if h.hdr[0] != 0 {
					h.emit("garbage")
					continue
				}
				h.st = 3
				if h.hdr[2] == 0 {
					h.st = 4
				}
			}
		case 3: // payload
			if h.esc {
				if b != 7 {
					h.emit("garbage")
					continue
				}
				h.esc = false
				h.data = append(h.data, 7)
			} else if b == 7 {
				h.esc = true
			} else {
				h.data = append(h.data, b)
			}
			if !h.esc && len(h.data) == int(h.hdr[2]) {
				h.st = 4
			}
		case 4: // checksum
			if b != refSum(h.hdr[1], h.data) {
				h.emit("garbage")
				continue
			}
			h.st = 5
		case 5:
			if b != 7 {
				h.emit("garbage")
				continue
			}
			h.st = 6
		case 6:
			if b != 0x0F {
				h.emit("garbage")
				continue
			}
			h.emit("frame")
		}
	}
}

// ---- reference decoding of payloads ----

// wireTemp is the temperature of a wire byte: half degrees above -20, rounded down.
func wireTemp(b byte) float32 { return float32(int(b)/2 - 20) }

// Message types.
const (
	cFans, cBoot, cFirm, cProf, cTemps, cErrs, cByp, cHours = 0x0B, 0x67, 0x69, 0xCD, 0xD1, 0xD9, 0xDF, 0xDD
	cSpeed, cComfort, cSetProf                              = 0x99, 0xD3, 0xCF
)

type getMsg struct {
	Name string
	Cmd  byte
	Len  int
}

var getMsgs = []getMsg{
	{"Fans", cFans, 6}, {"Bootloader", cBoot, 13}, {"Firmware", cFirm, 13}, {"FanProfiles", cProf, 14},
	{"Temperatures", cTemps, 9}, {"Errors", cErrs, 17}, {"Bypass", cByp, 7}, {"Hours", cHours, 20},
}

func be(b ...byte) uint32 {
	var v uint32
	for _, c := range b {
		v = v*256 + uint32(c)
	}
	return v
}

// rpm converts the wire value; ok is false when no fan speed corresponds to it.
func rpm(hi, lo byte) (uint16, bool) {
	r := be(hi, lo)
	if r == 0 {
		return 0, false
	}
	v := 1875000 / r
	if v > 65535 {
		return 0, false
	}
	return uint16(v), true
}

// trimName is the device name without surrounding white space.
func trimName(b []byte) string { return strings.TrimSpace(string(b)) }

func clone(b []byte) []byte { return append([]byte(nil), b...) }

func eq(a, b []byte) bool { return bytes.Equal(a, b) }
