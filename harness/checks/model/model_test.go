// Package model checks headers, message bodies and parameter lists.
package model

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"time"

	gb2260 "github.com/cn/GB2260.go"
	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/gen"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

func start(t *testing.T) {
	pbt.Watch(60 * time.Second)
	log.Logger = zerolog.New(io.Discard).Level(zerolog.ErrorLevel)
}

func end(t *testing.T, ok bool) {
	if !ok {
		t.Fail()
	}
}

var verDesc = map[jt.Ver]model.VersionType{jt.V2011: model.Version2011, jt.V2013: model.Version2013, jt.V2019: model.Version2019}

// header makes the code's header from a reference header.
func header(h jt.Header, v jt.Ver) *model.MsgHeader {
	out := &model.MsgHeader{MsgID: h.ID, ProtocolVersion: h.ProtoVer, PhoneNumber: h.Phone, SerialNumber: h.Serial,
		Attr: &model.MsgBodyAttr{BodyLength: uint16(h.BodyLen), Encryption: uint8(h.Enc), VersionDesc: verDesc[v]}}
	if h.New {
		out.Attr.VersionSign = 1
	}
	if h.Extra {
		out.Attr.Extra = 1
	}
	switch h.Enc {
	case 0:
		out.Attr.EncryptionDesc = model.EncryptionNone
	case 1:
		out.Attr.EncryptionDesc = model.EncryptionRSA
	default:
		out.Attr.EncryptionDesc = model.EncryptionUnknown
	}
	if h.Frag {
		out.Attr.PacketFragmented, out.Attr.PacketFragmentedDesc = 1, model.PacketFragmentedTrue
		out.Frag = &model.MsgFragmentation{Total: h.Total, Index: h.Index}
	}
	return out
}

func headerGen(t *rapid.T, id uint16, v jt.Ver) jt.Header {
	h := jt.Header{ID: id, New: v == jt.V2019, Serial: gen.U16.Draw(t, "serial")}
	n := 12
	if h.New {
		n = 20
		h.ProtoVer = gen.Byte.Draw(t, "proto")
	}
	h.Phone = gen.Digits(n).Draw(t, "phone")
	return h
}

// sameHeader compares a decoded header with the transmitted one.
func sameHeader(g *model.MsgHeader, h jt.Header) error {
	a := g.Attr
	b2u := func(b bool) uint8 {
		if b {
			return 1
		}
		return 0
	}
	wantEnc := model.EncryptionUnknown
	if h.Enc == 0 {
		wantEnc = model.EncryptionNone
	} else if h.Enc == 1 {
		wantEnc = model.EncryptionRSA
	}
	switch {
	case g.MsgID != h.ID, g.PhoneNumber != h.Phone, g.SerialNumber != h.Serial, g.ProtocolVersion != h.ProtoVer:
		return fmt.Errorf("header %+v decoded as %+v", h, *g)
	case int(a.BodyLength) != h.BodyLen, int(a.Encryption) != h.Enc, a.EncryptionDesc != wantEnc, a.Extra != b2u(h.Extra), a.VersionSign != b2u(h.New), a.PacketFragmented != b2u(h.Frag), bool(a.PacketFragmentedDesc) != h.Frag, (a.VersionDesc == model.Version2019) != h.New, g.IsFragmented() != h.Frag, g.GetRawJt808Version() != b2u(h.New):
		return fmt.Errorf("header %+v decoded with attributes %+v", h, *a)
	case (g.Frag != nil) != h.Frag, h.Frag && (g.Frag.Total != h.Total || g.Frag.Index != h.Index):
		return fmt.Errorf("header %+v decoded with fragment item %+v", h, g.Frag)
	}
	return nil
}

var uniq int

func TestC04(t *testing.T) {
	start(t)
	end(t, pbt.Run("C04", "headers in both layouts with every attribute word, generated phones (leading zeros), serials, protocol versions and fragment items; non-trivial: every case; distinct by header", []string{"all 65536 attribute words (decode and encode), with a generated header around each"},
		pbt.Prop{Name: "attribute words", Quick: 6, Thorough: 600, F: func(c *pbt.C) {
			phones := map[bool]string{false: gen.Digits(12).Draw(c.T, "p13"), true: gen.Digits(20).Draw(c.T, "p19")}
			serial, proto, total, index := gen.U16.Draw(c.T, "serial"), gen.Byte.Draw(c.T, "proto"), gen.U16.Draw(c.T, "total"), gen.U16.Draw(c.T, "index")
			for a := 0; a < 65536; a++ {
				h := jt.Header{ID: uint16(a)*31 + serial, BodyLen: a & 0x3ff, Enc: a >> 10 & 7, Frag: a>>13&1 == 1, New: a>>14&1 == 1, Extra: a>>15 == 1, Serial: serial + uint16(a)}
				h.Phone = phones[h.New]
				v := jt.V2013
				if h.New {
					h.ProtoVer, v = proto, jt.V2019
				}
				if h.Frag {
					h.Total, h.Index = total, index
				}
				check(c, h, v)
			}
			c.Count(65536)
			c.NonTrivial("%v %v", phones, serial)
		}},
		pbt.Prop{Name: "headers", Quick: 60000, Thorough: 3000000, F: func(c *pbt.C) {
			v := gen.Ver.Draw(c.T, "ver")
			h := headerGen(c.T, gen.U16.Draw(c.T, "id"), v)
			h.BodyLen = dict.IntRange(0, 1023).Draw(c.T, "len")
			h.Enc = dict.IntRange(0, 7).Draw(c.T, "enc")
			h.Extra = rapid.Bool().Draw(c.T, "extra")
			if rapid.Bool().Draw(c.T, "frag") {
				h.Frag, h.Total, h.Index = true, gen.U16.Draw(c.T, "total"), gen.U16.Draw(c.T, "index")
			}
			c.Tracef("header %+v", h)
			check(c, h, v)
			c.ClassIf(h.Frag, "fragment")
			c.ClassIf(h.New, "2019")
			c.NonTrivial("%+v", h)
		}},
		pbt.Prop{Name: "body start", Quick: 30000, Thorough: 1500000, F: func(c *pbt.C) {
			v := gen.Ver.Draw(c.T, "ver")
			h := headerGen(c.T, gen.U16.Draw(c.T, "id"), v)
			body := gen.Bytes(gen.Size.Draw(c.T, "size")).Draw(c.T, "body")
			h.BodyLen = len(body)
			if dict.IntRange(0, 3).Draw(c.T, "frag") == 0 {
				uniq++
				h.Phone = fmt.Sprintf("%0*d", len(h.Phone), uniq)
				h.Frag, h.Total, h.Index = true, 1, 1
			}
			m := jt.Msg{H: h, Body: body}
			c.Tracef("%v", m)
			pd, err := protocol.NewJT808PacketCodec().Decode(m.Frame())
			if err != nil {
				c.Fatalf("%v: %v", m, err)
			}
			if !bytes.Equal(pd.Body, body) {
				c.Fatalf("%v: body decoded as %x", m, pd.Body)
			}
			c.NonTrivial("%v", m)
		}},
		pbt.Prop{Name: "side by side", Quick: 2000, Thorough: 100000, F: sideBySide},
		pbt.Prop{Name: "length field", Quick: 30000, Thorough: 1500000, F: func(c *pbt.C) {
			// the length field is the size of the body, whatever the header held before
			v := gen.Ver.Draw(c.T, "ver")
			h := headerGen(c.T, 0, v)
			h.BodyLen = dict.IntRange(0, 1023).Draw(c.T, "stale")
			var msg model.JT808Msg
			var n int
			mh := header(h, v)
			switch dict.IntRange(0, 4).Draw(c.T, "msg") {
			case 0:
				msg = &model.Msg8104{Header: mh}
			case 1:
				code := rapid.OneOf(gen.AsciiStr(0, 255), rapid.Custom(func(t *rapid.T) string { return string(gen.Sized(gen.Ascii, 0, 1030).Draw(t, "edge")) }), rapid.Custom(func(t *rapid.T) string { return strings.Repeat("c", dict.IntRange(1010, 70000).Draw(t, "long")) })).Draw(c.T, "code")
				msg, n = &model.Msg8100{Header: mh, AuthCode: code}, 3+len(code)
			case 2:
				msg, n = &model.Msg8001{Header: mh}, 5
			case 3:
				msg, n = &model.Msg0200{Header: mh, Time: "200101000000"}, 28
			case 4:
				ps := gen.Params(rapid.SampledFrom([]int{1000, 1022, 1100, 5000}).Draw(c.T, "max"), false).Draw(c.T, "params")
				msg, n = &model.Msg8103{Header: mh, Parameters: toParams(ps)}, len(jt.ParamList(ps))
			}
			c.Tracef("%T, body of %d bytes", msg, n)
			f, err := protocol.NewJT808PacketCodec().Encode(msg)
			if n > 1023 {
				// the length field cannot say it
				if err == nil {
					c.Fatalf("%T with a body of %d bytes is sent as %.60x...", msg, n, f)
				}
				c.Class("oversize")
				c.NonTrivial("%T %d", msg, n)
				return
			}
			if err != nil {
				c.Fatalf("encode: %v", err)
			}
			b, err := jt.ParseFrame(f)
			if err != nil {
				c.Fatalf("frame %x: %v", f, err)
			}
			g, err := jt.ParseMsg(b)
			if err != nil {
				c.Fatalf("%T with stale length %d: %v", msg, h.BodyLen, err)
			}
			if len(g.Body) != n {
				c.Fatalf("%T has a body of %d bytes, expected %d", msg, len(g.Body), n)
			}
			c.NonTrivial("%x", b)
		}},
	))
}

// atOnce runs the functions at the same moment, each several times.
func atOnce(c *pbt.C, times int, fs []func() error) {
	gate := make(chan struct{})
	errs := make([]error, len(fs))
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					errs[i] = fmt.Errorf("panic: %v\n%s", x, debug.Stack())
				}
			}()
			<-gate
			for k := 0; k < times && errs[i] == nil; k++ {
				errs[i] = f()
			}
		}()
	}
	close(gate)
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			c.Fatalf("worker %d of %d working at the same time: %v", i, len(fs), err)
		}
	}
}

// anyMessage draws a message whose decoded form encodes to the same bytes.
func anyMessage(c *pbt.C) (jt.Msg, func() model.JT808Msg) {
	v := gen.Ver.Draw(c.T, "ver")
	var id uint16
	var body []byte
	var mk func() model.JT808Msg
	switch dict.IntRange(0, 10).Draw(c.T, "type") {
	case 0:
		id, body, mk = 0x0001, jt.GeneralReply(gen.U16.Draw(c.T, "s"), gen.U16.Draw(c.T, "i"), gen.Byte.Draw(c.T, "r")), func() model.JT808Msg { return &model.Msg0001{} }
	case 1:
		id, body, mk = 0x8001, jt.GeneralReply(gen.U16.Draw(c.T, "s"), gen.U16.Draw(c.T, "i"), gen.Byte.Draw(c.T, "r")), func() model.JT808Msg { return &model.Msg8001{} }
	case 2, 3:
		max := 12
		if v != jt.V2011 {
			max = 30
		}
		id, body, mk = 0x0100, gen.Reg(c.T, v, gen.Text(max).Draw(c.T, "plate")).Body(v), func() model.JT808Msg { return &model.Msg0100{} }
	case 4:
		id, body, mk = 0x0102, jt.AuthBody(v, gen.AsciiStr(0, 60).Draw(c.T, "code"), gen.AsciiStr(0, 15).Draw(c.T, "imei"), gen.AsciiStr(0, 20).Draw(c.T, "soft")), func() model.JT808Msg { return &model.Msg0102{} }
	case 5, 6:
		l := gen.Loc.Draw(c.T, "loc")
		l.Extra = nil
		id, body, mk = 0x0200, l.Body(), func() model.JT808Msg { return &model.Msg0200{} }
	case 7:
		id, body, mk = 0x0104, append(jt.W16(nil, gen.U16.Draw(c.T, "s")), jt.ParamList(gen.Params(300, false).Draw(c.T, "params"))...), func() model.JT808Msg { return &model.Msg0104{} }
	case 8:
		id, body, mk = 0x8103, jt.ParamList(gen.Params(300, false).Draw(c.T, "params")), func() model.JT808Msg { return &model.Msg8103{} }
	case 9:
		id, body, mk = 0x8100, append(append(jt.W16(nil, gen.U16.Draw(c.T, "s")), gen.Byte.Draw(c.T, "r")), gen.AsciiStr(0, 60).Draw(c.T, "code")...), func() model.JT808Msg { return &model.Msg8100{} }
	case 10:
		id, body, mk = 0x9205, gen.Media.Draw(c.T, "q").Body(), func() model.JT808Msg { return &model.Msg9205{} }
	}
	h := headerGen(c.T, id, v)
	h.BodyLen = len(body)
	return jt.Msg{H: h, Body: body}, mk
}

// sideBySide decodes and encodes several messages, looking at the results only
// at the end, and then all at the same time.
func sideBySide(c *pbt.C) {
	var fs []func() error
	key := ""
	var first []model.JT808Msg
	var out [][]byte
	var ms []jt.Msg
	for k := dict.Count(2, 6, 300).Draw(c.T, "messages"); k > 0; k-- {
		m, mk := anyMessage(c)
		c.Tracef("%v", m)
		key += fmt.Sprint(m)
		g := mk()
		decode(c, m, g)
		b, err := g.Encode()
		if err != nil {
			c.Fatalf("%v: %v", m, err)
		}
		first, out, ms = append(first, g), append(out, b), append(ms, m)
		frame, want := m.Frame(), m.Bytes()
		fs = append(fs, func() error {
			pd, err := protocol.NewJT808PacketCodec().Decode(frame)
			if err != nil {
				return fmt.Errorf("%v: %v", m, err)
			}
			g := mk()
			if err := g.Decode(pd); err != nil {
				return fmt.Errorf("%v: %v", m, err)
			}
			if err := sameHeader(g.GetHeader(), m.H); err != nil {
				return err
			}
			b, err := g.Encode()
			if err != nil || !bytes.Equal(b, want) {
				return fmt.Errorf("%v: encodes to %x (%v)", m, b, err)
			}
			return nil
		})
	}
	for i, m := range ms {
		if !bytes.Equal(out[i], m.Bytes()) {
			c.Fatalf("message %d of %d decoded and encoded one after another: %v is now %x", i, len(ms), m, out[i])
		}
		if b, err := first[i].Encode(); err != nil || !bytes.Equal(b, m.Bytes()) {
			c.Fatalf("message %d of %d: %v later encodes to %x (%v)", i, len(ms), m, b, err)
		}
	}
	atOnce(c, 30, fs)
	c.NonTrivial("%s", key)
}

func check(c *pbt.C, h jt.Header, v jt.Ver) {
	b := h.Encode()
	g := &model.MsgHeader{}
	if err := g.Decode(append([]byte{}, b...)); err != nil {
		c.Fatalf("header %+v (%x): %v", h, b, err)
	}
	if err := sameHeader(g, h); err != nil {
		c.Fatalf("%v (%x)", err, b)
	}
	// what was decoded encodes to the same bytes, and so does a header made of values
	for _, x := range []*model.MsgHeader{g, header(h, v)} {
		e, err := x.Encode()
		if err != nil || !bytes.Equal(e, b) {
			c.Fatalf("header %+v encodes to %x (%v), expected %x", h, e, err, b)
		}
	}
}

var gb = gb2260.NewGB2260("")

// decode runs bytes through the packet codec and the message's own decoder.
func decode(c *pbt.C, m jt.Msg, into model.JT808Msg) {
	pd, err := protocol.NewJT808PacketCodec().Decode(m.Frame())
	if err != nil {
		c.Fatalf("%v: packet: %v", m, err)
	}
	if err := into.Decode(pd); err != nil {
		c.Fatalf("%v: rejected: %v", m, err)
	}
	if h := into.GetHeader(); h == nil || h.MsgID != m.H.ID || h.PhoneNumber != m.H.Phone || h.SerialNumber != m.H.Serial {
		c.Fatalf("%v: decoded with header %+v", m, h)
	}
}

func encode(c *pbt.C, want jt.Msg, from model.JT808Msg) {
	b, err := from.Encode()
	if err != nil {
		c.Fatalf("%T: %v", from, err)
	}
	if !bytes.Equal(b, want.Bytes()) {
		c.Fatalf("%T encodes to\n  %x, expected\n  %x", from, b, want.Bytes())
	}
}

func eq(c *pbt.C, m jt.Msg, what string, got, want any) {
	if !reflect.DeepEqual(got, want) {
		c.Fatalf("%v: %s decoded as %v, expected %v", m, what, got, want)
	}
}

func parseTime(s string) time.Time {
	t, err := time.Parse("060102150405", s)
	if err != nil {
		panic(err)
	}
	return t
}

func eqMedia(c *pbt.C, m jt.Msg, g model.DeviceMediaQuery, q jt.MediaQuery) {
	eq(c, m, "channel", g.LogicChannelID, q.Channel)
	if g.StartTime == nil || g.EndTime == nil || !g.StartTime.Equal(parseTime(q.Start)) || !g.EndTime.Equal(parseTime(q.End)) {
		c.Fatalf("%v: times decoded as %v - %v", m, g.StartTime, g.EndTime)
	}
	eq(c, m, "alarm", g.AlarmSign, q.Alarm)
	eq(c, m, "alarm ext", g.AlarmSignExt, q.AlarmExt)
	eq(c, m, "types", []uint8{g.MediaType, g.StreamType, g.StorageType}, []uint8{q.Media, q.Stream, q.Storage})
}

func toMedia(q jt.MediaQuery) model.DeviceMediaQuery {
	s, e := parseTime(q.Start), parseTime(q.End)
	return model.DeviceMediaQuery{LogicChannelID: q.Channel, StartTime: &s, EndTime: &e, AlarmSign: q.Alarm, AlarmSignExt: q.AlarmExt, MediaType: q.Media, StreamType: q.Stream, StorageType: q.Storage}
}

func TestC05(t *testing.T) {
	start(t)
	msgs := map[uint16]func(c *pbt.C, v jt.Ver, mk func(uint16, []byte) (jt.Msg, *model.MsgHeader)){
		0x0001: func(c *pbt.C, v jt.Ver, mk func(uint16, []byte) (jt.Msg, *model.MsgHeader)) {
			s, id, r := gen.U16.Draw(c.T, "s"), gen.U16.Draw(c.T, "id"), gen.Byte.Draw(c.T, "r")
			m, h := mk(0x0001, jt.GeneralReply(s, id, r))
			encode(c, m, &model.Msg0001{Header: h, AnswerSerialNumber: s, AnswerMessageID: id, Result: r})
			g := &model.Msg0001{}
			decode(c, m, g)
			eq(c, m, "fields", []any{g.AnswerSerialNumber, g.AnswerMessageID, g.Result}, []any{s, id, r})
		},
		0x8001: func(c *pbt.C, v jt.Ver, mk func(uint16, []byte) (jt.Msg, *model.MsgHeader)) {
			s, id, r := gen.U16.Draw(c.T, "s"), gen.U16.Draw(c.T, "id"), gen.Byte.Draw(c.T, "r")
			m, h := mk(0x8001, jt.GeneralReply(s, id, r))
			encode(c, m, &model.Msg8001{Header: h, AnswerSerialNumber: s, AnswerMessageID: id, Result: model.ResultCode(r)})
			g := &model.Msg8001{}
			decode(c, m, g)
			eq(c, m, "fields", []any{g.AnswerSerialNumber, g.AnswerMessageID, uint8(g.Result)}, []any{s, id, r})
		},
		0x0100: func(c *pbt.C, v jt.Ver, mk func(uint16, []byte) (jt.Msg, *model.MsgHeader)) {
			max := 12
			if v != jt.V2011 {
				max = rapid.SampledFrom([]int{12, 30, 80}).Draw(c.T, "max")
			}
			r := gen.Reg(c.T, v, gen.Text(max).Draw(c.T, "plate"))
			m, h := mk(0x0100, r.Body(v))
			encode(c, m, &model.Msg0100{Header: h, ProvinceID: r.Province, CityID: r.City, ManufacturerID: r.Manu, DeviceMode: r.Mode, DeviceID: r.ID, PlateColor: r.Color, PlateNumber: r.Plate})
			if dict.IntRange(0, 3).Draw(c.T, "overlong") == 0 {
				// values longer than their field are cut, the other fields stay in place
				r, over := r, r
				a, b, w := jt.RegWidths(v)
				tail := gen.AsciiStr(1, 40).Draw(c.T, "tail")
				which := dict.IntRange(1, 7).Draw(c.T, "which")
				if which&1 != 0 {
					r.Manu = (r.Manu + strings.Repeat("m", a))[:a]
					over.Manu = r.Manu + tail
				}
				if which&2 != 0 {
					r.Mode = (r.Mode + strings.Repeat("t", b))[:b]
					over.Mode = r.Mode + tail
				}
				if which&4 != 0 {
					r.ID = (r.ID + strings.Repeat("i", w))[:w]
					over.ID = r.ID + tail
				}
				c.Class("overlong values")
				m, h := mk(0x0100, r.Body(v))
				encode(c, m, &model.Msg0100{Header: h, ProvinceID: r.Province, CityID: r.City, ManufacturerID: over.Manu, DeviceMode: over.Mode, DeviceID: over.ID, PlateColor: r.Color, PlateNumber: r.Plate})
			}
			g := &model.Msg0100{}
			decode(c, m, g)
			eq(c, m, "region", []any{g.ProvinceID, g.CityID}, []any{r.Province, r.City})
			eq(c, m, "manufacturer, model, id", []string{g.ManufacturerID, g.DeviceMode, g.DeviceID}, []string{r.Manu, r.Mode, r.ID})
			eq(c, m, "color", g.PlateColor, r.Color)
			eq(c, m, "plate", g.PlateNumber, r.Plate)
			eq(c, m, "version", g.Header.Attr.VersionDesc, verDesc[v])
			if d := gb.Get(fmt.Sprintf("%02d%04d", r.Province, r.City)); d != nil {
				eq(c, m, "region name", g.LocationDesc, d.Name)
				c.Class("known region")
			}
		},
		0x0102: func(c *pbt.C, v jt.Ver, mk func(uint16, []byte) (jt.Msg, *model.MsgHeader)) {
			code := string(gen.Sized(gen.Byte, 0, 255).Draw(c.T, "code"))
			imei, soft := gen.AsciiStr(0, 15).Draw(c.T, "imei"), gen.AsciiStr(0, 20).Draw(c.T, "soft")
			m, h := mk(0x0102, jt.AuthBody(v, code, imei, soft))
			encode(c, m, &model.Msg0102{Header: h, AuthCode: code, IMEI: imei, SoftwareVersion: soft, AuthCodeLen: gen.Byte.Draw(c.T, "stale")})
			if dict.IntRange(0, 3).Draw(c.T, "overlong") == 0 {
				// values longer than their field are cut; a code longer than its length byte can say is not sent
				imei, soft, over := imei, soft, [2]string{imei, soft}
				which := dict.IntRange(1, 3).Draw(c.T, "which")
				if which&1 != 0 {
					imei = (imei + strings.Repeat("7", 15))[:15]
					over[0] = imei + gen.AsciiStr(1, 40).Draw(c.T, "tail")
				}
				if which&2 != 0 {
					soft = (soft + strings.Repeat("s", 20))[:20]
					over[1] = soft + gen.AsciiStr(1, 40).Draw(c.T, "tail")
				}
				c.Class("overlong values")
				m, h := mk(0x0102, jt.AuthBody(v, code, imei, soft))
				encode(c, m, &model.Msg0102{Header: h, AuthCode: code, IMEI: over[0], SoftwareVersion: over[1]})
				if v == jt.V2019 {
					_, h := mk(0x0102, nil)
					n := dict.IntRange(256, 900).Draw(c.T, "long code")
					if b, err := (&model.Msg0102{Header: h, AuthCode: strings.Repeat("c", n)}).Encode(); err == nil {
						c.Fatalf("an authentication with a code of %d bytes is sent as %.80x...", n, b)
					}
				}
			}
			g := &model.Msg0102{}
			decode(c, m, g)
			eq(c, m, "code", g.AuthCode, code)
			if v == jt.V2019 {
				eq(c, m, "code length", int(g.AuthCodeLen), len(code))
				eq(c, m, "imei", strings.TrimRight(g.IMEI, "\x00"), imei)
				eq(c, m, "software", strings.TrimRight(g.SoftwareVersion, "\x00"), soft)
			}
		},
		0x0200: func(c *pbt.C, v jt.Ver, mk func(uint16, []byte) (jt.Msg, *model.MsgHeader)) {
			l := gen.Loc.Draw(c.T, "loc")
			m, _ := mk(0x0200, l.Body())
			g := &model.Msg0200{}
			decode(c, m, g)
			eq(c, m, "fields", []any{g.AlarmSign, g.StatusSign, g.Latitude, g.Longitude, g.Altitude, g.Speed, g.Direction, g.Time}, []any{l.Alarm, l.Status, l.Lat, l.Lon, l.Alt, l.Speed, l.Dir, l.Time})
			l.Extra = nil
			m, h := mk(0x0200, l.Body())
			encode(c, m, &model.Msg0200{Header: h, AlarmSign: l.Alarm, StatusSign: l.Status, Latitude: l.Lat, Longitude: l.Lon, Altitude: l.Alt, Speed: l.Speed, Direction: l.Dir, Time: l.Time})
		},
		0x0104: func(c *pbt.C, v jt.Ver, mk func(uint16, []byte) (jt.Msg, *model.MsgHeader)) {
			s, ps := gen.U16.Draw(c.T, "s"), gen.Params(1000, false).Draw(c.T, "params")
			m, h := mk(0x0104, append(jt.W16(nil, s), jt.ParamList(ps)...))
			encode(c, m, &model.Msg0104{Header: h, AnswerSerialNumber: s, AnswerParamCnt: byte(len(ps)), Parameters: toParams(ps)})
			g := &model.Msg0104{}
			decode(c, m, g)
			eq(c, m, "serial", g.AnswerSerialNumber, s)
			sameParams(c, g.Parameters, ps)
		},
		0x8103: func(c *pbt.C, v jt.Ver, mk func(uint16, []byte) (jt.Msg, *model.MsgHeader)) {
			ps := gen.Params(1000, false).Draw(c.T, "params")
			m, h := mk(0x8103, jt.ParamList(ps))
			encode(c, m, &model.Msg8103{Header: h, ParamCnt: byte(len(ps)), Parameters: toParams(ps)})
			g := &model.Msg8103{}
			decode(c, m, g)
			sameParams(c, g.Parameters, ps)
		},
		0x8004: func(c *pbt.C, v jt.Ver, mk func(uint16, []byte) (jt.Msg, *model.MsgHeader)) {
			ts := gen.Time.Draw(c.T, "time")
			m, h := mk(0x8004, jt.BCD(ts))
			tt := parseTime(ts)
			encode(c, m, &model.Msg8004{Header: h, ServerTime: &tt})
			g := &model.Msg8004{}
			decode(c, m, g)
			if g.ServerTime == nil || !g.ServerTime.Equal(tt) {
				c.Fatalf("%v: time decoded as %v", m, g.ServerTime)
			}
		},
		0x8100: func(c *pbt.C, v jt.Ver, mk func(uint16, []byte) (jt.Msg, *model.MsgHeader)) {
			s, r, code := gen.U16.Draw(c.T, "s"), gen.Byte.Draw(c.T, "r"), string(gen.Sized(gen.Byte, 0, 255).Draw(c.T, "code"))
			m, h := mk(0x8100, append(append(jt.W16(nil, s), r), code...))
			encode(c, m, &model.Msg8100{Header: h, AnswerSerialNumber: s, Result: model.ResultCodeType(r), AuthCode: code})
			g := &model.Msg8100{}
			decode(c, m, g)
			eq(c, m, "fields", []any{g.AnswerSerialNumber, uint8(g.Result), g.AuthCode}, []any{s, r, code})
		},
		0x9205: func(c *pbt.C, v jt.Ver, mk func(uint16, []byte) (jt.Msg, *model.MsgHeader)) {
			q := gen.Media.Draw(c.T, "query")
			m, h := mk(0x9205, q.Body())
			encode(c, m, &model.Msg9205{Header: h, DeviceMediaQuery: toMedia(q)})
			g := &model.Msg9205{}
			decode(c, m, g)
			eqMedia(c, m, g.DeviceMediaQuery, q)
		},
		0x1205: func(c *pbt.C, v jt.Ver, mk func(uint16, []byte) (jt.Msg, *model.MsgHeader)) {
			s, n := gen.U16.Draw(c.T, "s"), rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3}).Draw(c.T, "items")
			b := jt.W32(jt.W16(nil, s), uint32(n))
			var first jt.MediaQuery
			var size uint32
			for i := 0; i < n; i++ {
				q, z := gen.Media.Draw(c.T, "item"), gen.U32.Draw(c.T, "size")
				if i == 0 {
					first, size = q, z
				}
				b = jt.W32(append(b, q.Body()...), z)
			}
			m, h := mk(0x1205, b)
			g := &model.Msg1205{}
			decode(c, m, g)
			eq(c, m, "serial, count", []any{g.AnswerSerialNumber, g.MediaCount}, []any{s, uint32(n)})
			if n > 0 {
				eqMedia(c, m, g.DeviceMediaQuery, first)
				eq(c, m, "size", g.Size, size)
			}
			if n <= 1 {
				e := &model.Msg1205{Header: h, AnswerSerialNumber: s, MediaCount: uint32(n)}
				if n == 1 {
					e.DeviceMedia = model.DeviceMedia{DeviceMediaQuery: toMedia(first), Size: size}
				}
				encode(c, m, e)
			}
			c.ClassIf(n == 0, "empty media list")
		},
	}
	for id, f := range map[uint16]func(*model.MsgHeader) model.JT808Msg{
		0x0002: func(h *model.MsgHeader) model.JT808Msg { return &model.Msg0002{Header: h} },
		0x0003: func(h *model.MsgHeader) model.JT808Msg { return &model.Msg0003{Header: h} },
		0x0004: func(h *model.MsgHeader) model.JT808Msg { return &model.Msg0004{Header: h} },
		0x8104: func(h *model.MsgHeader) model.JT808Msg { return &model.Msg8104{Header: h} },
	} {
		msgs[id] = func(c *pbt.C, v jt.Ver, mk func(uint16, []byte) (jt.Msg, *model.MsgHeader)) {
			m, h := mk(id, nil)
			encode(c, m, f(h))
			decode(c, m, f(nil))
		}
	}
	ids := []uint16{0x0001, 0x0002, 0x0003, 0x0004, 0x0100, 0x0102, 0x0104, 0x0200, 0x1205, 0x8001, 0x8004, 0x8100, 0x8103, 0x8104, 0x9205}
	end(t, pbt.Run("C05", "each of the 15 supported message types in the 2011, 2013 and 2019 versions with generated field values, encoded against and decoded from the reference codec's bytes; every case is non-trivial; distinct by message", nil,
		pbt.Prop{Name: "side by side", Quick: 2000, Thorough: 100000, F: sideBySide},
		pbt.Prop{Name: "messages", Quick: 100000, Thorough: 5000000, F: func(c *pbt.C) {
			id := rapid.SampledFrom(ids).Draw(c.T, "id")
			v := gen.Ver.Draw(c.T, "ver")
			mk := func(id uint16, body []byte) (jt.Msg, *model.MsgHeader) {
				h := headerGen(c.T, id, v)
				h.BodyLen = len(body)
				m := jt.Msg{H: h, Body: body}
				c.Tracef("%s: %v", v, m)
				c.NonTrivial("%v", m)
				mh := header(h, v)
				if rapid.Bool().Draw(c.T, "stalelen") {
					mh.Attr.BodyLength = 0
				}
				return m, mh
			}
			msgs[id](c, v, mk)
			c.Class(fmt.Sprintf("%04x %s", id, v))
		}},
	))
}

func toParams(ps []jt.Param) *model.DeviceParams {
	d := &model.DeviceParams{ParamCnt: uint8(len(ps))}
	for _, p := range ps {
		d.Params = append(d.Params, &model.ParamData{ParamID: p.ID, ParamLen: uint8(len(p.Value)), ParamValue: gen.Value(p)})
	}
	return d
}

func sameParams(c *pbt.C, g *model.DeviceParams, ps []jt.Param) {
	if g == nil || len(g.Params) != len(ps) || int(g.ParamCnt) != len(ps) {
		c.Fatalf("decoded %+v, expected %d parameters", g, len(ps))
	}
	for i, p := range ps {
		x := g.Params[i]
		if x.ParamID != p.ID || int(x.ParamLen) != len(p.Value) || fmt.Sprint(x.ParamValue) != fmt.Sprint(gen.Value(p)) {
			c.Fatalf("parameter %d: decoded %04x len %d %q, expected %04x len %d %q (%x)", i, x.ParamID, x.ParamLen, fmt.Sprint(x.ParamValue), p.ID, len(p.Value), fmt.Sprint(gen.Value(p)), p.Value)
		}
	}
}

func TestC06(t *testing.T) {
	start(t)
	dec := func(c *pbt.C, ps []jt.Param) *model.DeviceParams {
		g := &model.DeviceParams{}
		if err := g.Decode("013800000000", byte(len(ps)), jt.ParamItems(ps)); err != nil {
			c.Fatalf("rejected: %v", err)
		}
		return g
	}
	enc := func(c *pbt.C, d *model.DeviceParams, want []jt.Param) {
		b, err := d.Encode()
		if err != nil || !bytes.Equal(b, jt.ParamList(want)) {
			c.Fatalf("encodes to\n  %x (%v), expected\n  %x", b, err, jt.ParamList(want))
		}
	}
	trace := func(c *pbt.C, ps []jt.Param) string {
		s := ""
		for _, p := range ps {
			s += fmt.Sprintf("%04x=%x ", p.ID, p.Value)
		}
		c.Tracef("list %s", s)
		return s
	}
	end(t, pbt.Run("C06", "generated parameter lists of 0..255 items over all supported IDs and value types, with unsupported IDs inserted anywhere, as wire bytes, as values and as JSON; non-trivial: at least one supported parameter; distinct by list", []string{"every supported parameter ID, once per case of 'every id'"},
		pbt.Prop{Name: "lists", Quick: 40000, Thorough: 2000000, F: func(c *pbt.C) {
			max := rapid.SampledFrom([]int{200, 1000, 100000}).Draw(c.T, "max")
			ps := gen.WithUnknown(c.T, gen.Params(max, false).Draw(c.T, "params"), max)
			want := gen.Supported(ps)
			key := trace(c, ps)
			g := dec(c, ps)
			sameParams(c, g, want)
			enc(c, g, want)
			enc(c, toParams(want), want)
			c.ClassIf(len(want) < len(ps), "unsupported")
			c.ClassIf(len(want) > 50, "long list")
			if len(want) > 0 {
				c.NonTrivial("%s", key)
			}
		}},
		pbt.Prop{Name: "json", Quick: 40000, Thorough: 2000000, F: func(c *pbt.C) {
			ps := gen.WithMisfits(c.T, gen.JSONable(gen.WithUnknown(c.T, gen.Params(1000, false).Draw(c.T, "params"), 1000)))
			key := trace(c, ps)
			for _, p := range ps {
				c.ClassIf(p.Misfit != nil, "value of the wrong type or size")
			}
			b := gen.ParamsJSON(c.T, ps)
			c.Tracef("json %s", b)
			d := &model.DeviceParams{}
			if err := json.Unmarshal(b, d); err != nil {
				c.Fatalf("HARNESS: %v", err)
			}
			enc(c, d, gen.Supported(ps))
			// and what a decoded list looks like as JSON encodes to the same bytes
			ps = gen.Supported(ps)
			j, err := json.Marshal(dec(c, ps))
			if err != nil {
				c.Fatalf("not expressible as JSON: %v", err)
			}
			back := &model.DeviceParams{}
			if err := json.Unmarshal(j, back); err != nil {
				c.Fatalf("JSON not readable: %v", err)
			}
			enc(c, back, ps)
			if len(ps) > 0 {
				c.NonTrivial("%s", key)
			}
		}},
		pbt.Prop{Name: "messages", Quick: 30000, Thorough: 1500000, F: func(c *pbt.C) {
			v := gen.Ver.Draw(c.T, "ver")
			ps := gen.WithUnknown(c.T, gen.Params(990, false).Draw(c.T, "params"), 990)
			want := gen.Supported(ps)
			key := trace(c, ps)
			mk := func(id uint16, pre []byte, ps []jt.Param) jt.Msg {
				h := headerGen(c.T, id, v)
				body := append(append([]byte{}, pre...), jt.ParamList(ps)...)
				h.BodyLen = len(body)
				return jt.Msg{H: h, Body: body}
			}
			if rapid.Bool().Draw(c.T, "reply") {
				pre := jt.W16(nil, gen.U16.Draw(c.T, "s"))
				m := mk(0x0104, pre, ps)
				g := &model.Msg0104{}
				decode(c, m, g)
				sameParams(c, g.Parameters, want)
				m.Body = append(pre, jt.ParamList(want)...)
				m.H.BodyLen = len(m.Body)
				encode(c, m, g)
			} else {
				m := mk(0x8103, nil, ps)
				g := &model.Msg8103{}
				decode(c, m, g)
				sameParams(c, g.Parameters, want)
				m.Body = jt.ParamList(want)
				m.H.BodyLen = len(m.Body)
				encode(c, m, g)
			}
			if len(want) > 0 {
				c.NonTrivial("%s", key)
			}
		}},
		pbt.Prop{Name: "side by side", Quick: 2000, Thorough: 100000, F: func(c *pbt.C) {
			var fs []func() error
			key := ""
			var first []*model.DeviceParams
			var lists [][]jt.Param
			for k := dict.IntRange(2, 6).Draw(c.T, "lists"); k > 0; k-- {
				ps := gen.WithUnknown(c.T, gen.Params(400, false).Draw(c.T, "params"), 400)
				want := gen.Supported(ps)
				key += trace(c, ps)
				g := dec(c, ps)
				first, lists = append(first, g), append(lists, want)
				fs = append(fs, func() error {
					g := &model.DeviceParams{}
					if err := g.Decode("013800000000", byte(len(ps)), jt.ParamItems(ps)); err != nil {
						return err
					}
					b, err := g.Encode()
					if err != nil || !bytes.Equal(b, jt.ParamList(want)) {
						return fmt.Errorf("encodes to %x (%v), expected %x", b, err, jt.ParamList(want))
					}
					b, err = toParams(want).Encode()
					if err != nil || !bytes.Equal(b, jt.ParamList(want)) {
						return fmt.Errorf("made of values it encodes to %x (%v), expected %x", b, err, jt.ParamList(want))
					}
					return nil
				})
			}
			for i, g := range first {
				sameParams(c, g, lists[i])
				enc(c, g, lists[i])
				enc(c, g, lists[i]) // encoding changes nothing
			}
			atOnce(c, 20, fs)
			c.NonTrivial("%s", key)
		}},
		pbt.Prop{Name: "too long", Quick: 4000, Thorough: 200000, F: func(c *pbt.C) {
			// a value that its one-byte length cannot describe is left out; its neighbours are not disturbed
			ps := gen.Params(600, false).Draw(c.T, "params")
			d := toParams(ps)
			var ids []uint32
			for _, id := range jt.ParamIDs {
				if k := jt.ParamKinds[id]; k == jt.Text || k == jt.Raw || k == jt.String {
					ids = append(ids, id)
				}
			}
			key := trace(c, ps)
			for k := dict.IntRange(1, 3).Draw(c.T, "long"); k > 0; k-- {
				id := rapid.SampledFrom(ids).Draw(c.T, "id")
				n := rapid.OneOf(dict.IntRange(256, 300), dict.IntRange(256, 1500), rapid.SampledFrom([]int{256, 257, 511, 512, 513})).Draw(c.T, "n")
				v := strings.Repeat("a", n)
				if jt.ParamKinds[id] == jt.Raw {
					v += v
				}
				at := dict.IntRange(0, len(d.Params)).Draw(c.T, "at")
				d.Params = append(d.Params[:at:at], append([]*model.ParamData{{ParamID: id, ParamValue: v}}, d.Params[at:]...)...)
				c.Tracef("and %04x with a value of %d bytes at %d", id, n, at)
				key += fmt.Sprintf("%04x %d@%d ", id, n, at)
			}
			enc(c, d, ps)
			c.NonTrivial("%s", key)
		}},
		pbt.Prop{Name: "every id", Quick: 600, Thorough: 30000, F: func(c *pbt.C) {
			var ps []jt.Param
			for _, id := range jt.ParamIDs {
				ps = append(ps, jt.Param{ID: id, Value: gen.ParamValue(c.T, id)})
			}
			key := trace(c, ps)
			g := dec(c, ps)
			sameParams(c, g, ps)
			enc(c, g, ps)
			enc(c, toParams(ps), ps)
			c.NonTrivial("%s", key)
		}},
	))
}
