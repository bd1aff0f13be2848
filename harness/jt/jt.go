// Package jt is an independent reference implementation of the JT/T 808 wire
// format, written from the protocol documents. It imports nothing from the
// code under test.
package jt

import (
	"encoding/binary"
	"fmt"
	"time"

	"golang.org/x/text/encoding/simplifiedchinese"
)

type Ver int

const (
	V2011 Ver = 0
	V2013 Ver = 1
	V2019 Ver = 2
)

func (v Ver) String() string { return [...]string{"2011", "2013", "2019"}[v] }

// Header is a message header as transmitted.
type Header struct {
	ID       uint16
	BodyLen  int // 10 bits
	Enc      int // 3 bits
	Frag     bool
	New      bool // version bit, 2019 layout
	Extra    bool // bit 15
	ProtoVer byte // only in the 2019 layout
	Phone    string
	Serial   uint16
	Total    uint16
	Index    uint16
}

// Attr is the attribute word.
func (h Header) Attr() uint16 {
	a := uint16(h.BodyLen & 0x3ff)
	a |= uint16(h.Enc&7) << 10
	if h.Frag {
		a |= 1 << 13
	}
	if h.New {
		a |= 1 << 14
	}
	if h.Extra {
		a |= 1 << 15
	}
	return a
}

// BCD packs an even number of decimal digits.
func BCD(digits string) []byte {
	if len(digits)%2 != 0 {
		panic("HARNESS: odd digits")
	}
	out := make([]byte, len(digits)/2)
	for i := range out {
		out[i] = (digits[2*i]-'0')<<4 | (digits[2*i+1] - '0')
	}
	return out
}

// Digits unpacks BCD; ok is false if a nibble is not a decimal digit.
func Digits(b []byte) (string, bool) {
	out := make([]byte, 0, 2*len(b))
	ok := true
	for _, c := range b {
		for _, n := range []byte{c >> 4, c & 15} {
			if n > 9 {
				ok = false
			}
			out = append(out, "0123456789ABCDEF"[n])
		}
	}
	return string(out), ok
}

func W16(b []byte, v uint16) []byte { return binary.BigEndian.AppendUint16(b, v) }
func W32(b []byte, v uint32) []byte { return binary.BigEndian.AppendUint32(b, v) }

// Encode gives the header bytes.
func (h Header) Encode() []byte {
	b := W16(nil, h.ID)
	b = W16(b, h.Attr())
	if h.New {
		b = append(b, h.ProtoVer)
	}
	b = append(b, BCD(h.Phone)...)
	b = W16(b, h.Serial)
	if h.Frag {
		b = W16(b, h.Total)
		b = W16(b, h.Index)
	}
	return b
}

// Msg is a complete message (header and body, no check byte).
type Msg struct {
	H    Header
	Body []byte
}

func (m Msg) Bytes() []byte { return append(m.H.Encode(), m.Body...) }

// Frame is the wire frame of a message.
func (m Msg) Frame() []byte { return Frame(m.Bytes()) }

func (m Msg) String() string {
	s := fmt.Sprintf("%04x phone=%s serial=%d", m.H.ID, m.H.Phone, m.H.Serial)
	if m.H.New {
		s += fmt.Sprintf(" v2019/%d", m.H.ProtoVer)
	}
	if m.H.Frag {
		s += fmt.Sprintf(" frag=%d/%d", m.H.Index, m.H.Total)
	}
	if m.H.Enc != 0 || m.H.Extra {
		s += fmt.Sprintf(" attr=%04x", m.H.Attr())
	}
	return s + fmt.Sprintf(" body=%x", m.Body)
}

func Xor(b []byte) byte {
	var x byte
	for _, c := range b {
		x ^= c
	}
	return x
}

func Escape(b []byte) []byte {
	var out []byte
	for _, c := range b {
		switch c {
		case 0x7e:
			out = append(out, 0x7d, 2)
		case 0x7d:
			out = append(out, 0x7d, 1)
		default:
			out = append(out, c)
		}
	}
	return out
}

// Frame wraps message bytes: 7e, escaped message and check byte, 7e.
func Frame(msg []byte) []byte {
	p := append(append([]byte{}, msg...), Xor(msg))
	return append(append([]byte{0x7e}, Escape(p)...), 0x7e)
}

// FrameRawCheck is Frame with a chosen check byte.
func FrameRawCheck(msg []byte, check byte) []byte {
	p := append(append([]byte{}, msg...), check)
	return append(append([]byte{0x7e}, Escape(p)...), 0x7e)
}

// Unescape is strict: 7d must be followed by 01 or 02 and no 7e may occur.
func Unescape(b []byte) ([]byte, error) {
	out := make([]byte, 0, len(b))
	for i := 0; i < len(b); i++ {
		switch b[i] {
		case 0x7e:
			return nil, fmt.Errorf("delimiter inside frame at %d", i)
		case 0x7d:
			if i+1 >= len(b) || (b[i+1] != 1 && b[i+1] != 2) {
				return nil, fmt.Errorf("bad escape at %d", i)
			}
			out = append(out, 0x7d+b[i+1]-1)
			i++
		default:
			out = append(out, b[i])
		}
	}
	return out, nil
}

// ParseFrame checks one whole frame and returns the message bytes in it.
func ParseFrame(f []byte) ([]byte, error) {
	if len(f) < 3 || f[0] != 0x7e || f[len(f)-1] != 0x7e {
		return nil, fmt.Errorf("not delimited: %x", f)
	}
	p, err := Unescape(f[1 : len(f)-1])
	if err != nil {
		return nil, fmt.Errorf("%v in %x", err, f)
	}
	n := len(p) - 1
	if n < 0 || Xor(p[:n]) != p[n] {
		return nil, fmt.Errorf("wrong check byte in %x", f)
	}
	return p[:n], nil
}

// ParseMsg decodes message bytes strictly: decimal phone, exact body length.
func ParseMsg(b []byte) (Msg, error) {
	var m Msg
	if len(b) < 4 {
		return m, fmt.Errorf("short header: %x", b)
	}
	m.H.ID = binary.BigEndian.Uint16(b)
	a := binary.BigEndian.Uint16(b[2:])
	m.H.BodyLen = int(a & 0x3ff)
	m.H.Enc = int(a >> 10 & 7)
	m.H.Frag = a&(1<<13) != 0
	m.H.New = a&(1<<14) != 0
	m.H.Extra = a&(1<<15) != 0
	i, pl := 4, 6
	if m.H.New {
		pl = 10
		if len(b) < 5 {
			return m, fmt.Errorf("short header: %x", b)
		}
		m.H.ProtoVer = b[4]
		i = 5
	}
	need := i + pl + 2
	if m.H.Frag {
		need += 4
	}
	if len(b) < need {
		return m, fmt.Errorf("short header: %x", b)
	}
	var ok bool
	m.H.Phone, ok = Digits(b[i : i+pl])
	if !ok {
		return m, fmt.Errorf("phone is not decimal: %x", b)
	}
	i += pl
	m.H.Serial = binary.BigEndian.Uint16(b[i:])
	i += 2
	if m.H.Frag {
		m.H.Total = binary.BigEndian.Uint16(b[i:])
		m.H.Index = binary.BigEndian.Uint16(b[i+2:])
		i += 4
	}
	m.Body = append([]byte{}, b[i:]...)
	if len(m.Body) != m.H.BodyLen {
		return m, fmt.Errorf("length field says %d, body has %d bytes: %x", m.H.BodyLen, len(m.Body), b)
	}
	return m, nil
}

// ParseStream splits a stream that must consist of whole well-formed frames.
// rest is an incomplete last frame, if any.
func ParseStream(s []byte) (msgs []Msg, rest []byte, err error) {
	for len(s) > 0 {
		if s[0] != 0x7e {
			return msgs, s, fmt.Errorf("stream has byte %02x between frames: %x", s[0], s)
		}
		end := -1
		for i := 1; i < len(s); i++ {
			if s[i] == 0x7e {
				end = i
				break
			}
		}
		if end < 0 {
			return msgs, s, nil
		}
		p, err := ParseFrame(s[:end+1])
		if err != nil {
			return msgs, s, err
		}
		m, err := ParseMsg(p)
		if err != nil {
			return msgs, s, err
		}
		msgs = append(msgs, m)
		s = s[end+1:]
	}
	return msgs, nil, nil
}

// New makes a message in the header layout of ver, length field set.
func New(id uint16, ver Ver, proto byte, phone string, serial uint16, body []byte) Msg {
	h := Header{ID: id, BodyLen: len(body), New: ver == V2019, Phone: phone, Serial: serial}
	if h.New {
		h.ProtoVer = proto
	}
	return Msg{h, body}
}

// Fragment cuts a message into parts of the given body sizes; serials are
// consecutive from the message's own.
func (m Msg) Fragment(sizes []int) []Msg {
	var out []Msg
	off := 0
	for i, n := range sizes {
		h := m.H
		h.Frag, h.Total, h.Index = true, uint16(len(sizes)), uint16(i+1)
		h.Serial += uint16(i)
		h.BodyLen = n
		out = append(out, Msg{h, append([]byte{}, m.Body[off:off+n]...)})
		off += n
	}
	if off != len(m.Body) {
		panic("HARNESS: fragment sizes do not add up")
	}
	return out
}

// Pad right-pads with NUL to n bytes.
func Pad(s string, n int) []byte {
	b := make([]byte, n)
	if len(s) > n {
		panic("HARNESS: too long")
	}
	copy(b, s)
	return b
}

// GBK encodes text; ok is false if it cannot be expressed.
func GBK(s string) (b []byte, ok bool) {
	out, err := simplifiedchinese.GBK.NewEncoder().Bytes([]byte(s))
	return out, err == nil
}

// UnGBK decodes GBK bytes.
func UnGBK(b []byte) string {
	out, err := simplifiedchinese.GBK.NewDecoder().Bytes(b)
	if err != nil {
		return ""
	}
	return string(out)
}

func MustGBK(s string) []byte {
	b, ok := GBK(s)
	if !ok {
		panic("HARNESS: not GBK: " + s)
	}
	return b
}

// Widths of the registration fields: manufacturer, model, terminal id.
func RegWidths(v Ver) (manu, mode, id int) {
	switch v {
	case V2019:
		return 11, 30, 30
	case V2013:
		return 5, 20, 7
	default:
		return 5, 8, 7
	}
}

// Reg is the content of a registration (0x0100).
type Reg struct {
	Province, City uint16
	Manu, Mode, ID string
	Color          byte
	Plate          string
}

func (r Reg) Body(v Ver) []byte {
	a, b, c := RegWidths(v)
	out := W16(nil, r.Province)
	out = W16(out, r.City)
	out = append(out, Pad(r.Manu, a)...)
	out = append(out, Pad(r.Mode, b)...)
	out = append(out, Pad(r.ID, c)...)
	out = append(out, r.Color)
	return append(out, MustGBK(r.Plate)...)
}

// AuthBody is the body of 0x0102.
func AuthBody(v Ver, code, imei, soft string) []byte {
	if v != V2019 {
		return []byte(code)
	}
	out := append([]byte{byte(len(code))}, code...)
	out = append(out, Pad(imei, 15)...)
	return append(out, Pad(soft, 20)...)
}

// Loc is the content of a location report (0x0200).
type Loc struct {
	Alarm, Status, Lat, Lon uint32
	Alt, Speed, Dir         uint16
	Time                    string // 12 digits YYMMDDhhmmss
	Extra                   []byte // additional items
}

func (l Loc) Body() []byte {
	b := W32(nil, l.Alarm)
	b = W32(b, l.Status)
	b = W32(b, l.Lat)
	b = W32(b, l.Lon)
	b = W16(b, l.Alt)
	b = W16(b, l.Speed)
	b = W16(b, l.Dir)
	b = append(b, BCD(l.Time)...)
	return append(b, l.Extra...)
}

// GeneralReply is the body of 0x0001 and 0x8001.
func GeneralReply(serial, id uint16, result byte) []byte {
	return append(W16(W16(nil, serial), id), result)
}

// TimeDigits formats a time as YYMMDDhhmmss.
func TimeDigits(t time.Time) string { return t.Format("060102150405") }

// MediaQuery is the body of 0x9205 and the item of 0x1205.
type MediaQuery struct {
	Channel                byte
	Start, End             string // 12 digits
	Alarm, AlarmExt        uint32
	Media, Stream, Storage byte
}

func (q MediaQuery) Body() []byte {
	b := append([]byte{q.Channel}, BCD(q.Start)...)
	b = append(b, BCD(q.End)...)
	b = W32(W32(b, q.Alarm), q.AlarmExt)
	return append(b, q.Media, q.Stream, q.Storage)
}
