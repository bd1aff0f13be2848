package serv

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/server"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
	"github.com/fakeyanss/jt808-server-go/verifharness/sim"
)

// every ID the server's table knows, and some it does not
var anyID = rapid.OneOf(
	rapid.SampledFrom([]uint16{0x0001, 0x0002, 0x0003, 0x0004, 0x0100, 0x0102, 0x0104, 0x0200, 0x1205, 0x8001, 0x8004, 0x8100, 0x8103, 0x8104, 0x9205}),
	dict.Uint16())

// nonsense draws bytes an ill-behaved peer may send as one piece.
func (w *world) nonsense(victims map[string]bool, t term) (b []byte, what string) {
	plate := plateGen(12).Draw(w.T, "nplate")
	valid := func() jt.Msg {
		id := anyID.Draw(w.T, "id")
		var body []byte
		switch id {
		case 0x0100:
			body = regGen(w.T, t.ver, plate).Body(t.ver)
		case 0x0102:
			body = jt.AuthBody(t.ver, "x", "i", "s")
		case 0x0200:
			body = locGen.Draw(w.T, "loc").Body()
		case 0x0104:
			body = append([]byte{0, 1}, jt.ParamList(paramsGen(900).Draw(w.T, "params"))...)
		case 0x8103:
			body = jt.ParamList(paramsGen(900).Draw(w.T, "params"))
		case 0x0001, 0x8001:
			body = jt.GeneralReply(1, 2, 0)
		case 0x9205:
			body = jt.MediaQuery{Start: "200101000000", End: "200102000000"}.Body()
		case 0x8100:
			body = []byte{0, 1, 0, 'c'}
		case 0x0002, 0x0003, 0x0004, 0x8104:
		default:
			body = rapid.SliceOfN(dict.Byte(), 0, 60).Draw(w.T, "body")
		}
		return jt.New(id, t.ver, t.proto, t.phone, dict.Uint16().Draw(w.T, "serial"), body)
	}
	switch dict.IntRange(0, 9).Draw(w.T, "nonsense") {
	case 0:
		return rapid.SliceOfN(dict.Byte(), 0, 200).Draw(w.T, "random"), "random bytes"
	case 1:
		return rapid.SliceOfN(rapid.SampledFrom([]byte{0x7e, 0x7e, 0x7d, 1, 2, 0}), 0, 60).Draw(w.T, "marks"), "delimiters and escapes"
	case 2:
		m := valid().Bytes()
		m = m[:dict.IntRange(0, len(m)).Draw(w.T, "cut")]
		b, what = jt.Frame(m), "truncated message, right check byte"
	case 3:
		m := valid()
		m.H.BodyLen = dict.IntRange(0, 1023).Draw(w.T, "len")
		b, what = m.Frame(), "wrong length field"
	case 4:
		m := valid()
		m.H.Enc = dict.IntRange(0, 7).Draw(w.T, "enc")
		m.H.Extra = rapid.Bool().Draw(w.T, "extra")
		m.H.New = rapid.Bool().Draw(w.T, "new") // other layout than the phone has
		b, what = m.Frame(), "inconsistent attributes"
	case 5:
		m := valid()
		m.Body = rapid.SliceOfN(dict.Byte(), 0, 300).Draw(w.T, "body")
		m.H.BodyLen = len(m.Body)
		b, what = m.Frame(), "arbitrary body"
	case 6:
		m := valid()
		m.H.Frag = true
		m.H.Total = rapid.OneOf(rapid.Uint16Range(0, 3), dict.Uint16()).Draw(w.T, "total")
		m.H.Index = rapid.OneOf(rapid.Uint16Range(0, 3), dict.Uint16()).Draw(w.T, "index")
		b, what = m.Frame(), "arbitrary fragment"
	case 7:
		b, what = jt.Frame(rapid.SliceOfN(dict.Byte(), 0, 60).Draw(w.T, "content")), "arbitrary content, right check byte"
	case 8:
		m := valid()
		b, what = m.Frame(), "well-formed message"
		if rapid.Bool().Draw(w.T, "unfinished") {
			b, what = b[:dict.IntRange(0, len(b)-1).Draw(w.T, "cut")], "unfinished frame"
		}
	case 9:
		b = bytes.Repeat([]byte{dict.Byte().Draw(w.T, "fill")}, dict.IntRange(1000, 20000).Draw(w.T, "amount"))
		if rapid.Bool().Draw(w.T, "start") {
			b[0] = 0x7e
		}
		what = "long run of one byte"
	}
	// not in a victim's name: that is no malformed input but a forged one
	p, err := jt.Unescape(bytes.Trim(b, "\x7e"))
	if err == nil {
		for _, off := range []int{4, 5} {
			for _, l := range []int{6, 10} {
				if len(p) >= off+l {
					if s, _ := jt.Digits(p[off : off+l]); victims[s] {
						return nil, "nothing"
					}
				}
			}
		}
	}
	return b, what
}

func TestC18(t *testing.T) {
	bubble(t, "C18", "1-2 working terminals plus 1-4 connections sending nonsense (random bytes, truncated or inconsistent but well-checksummed messages, arbitrary bodies and fragments, long runs) and ending at any moment; non-trivial: at least one well-delimited malformed frame was sent while the working terminals were served; distinct by the whole history",
		pbt.Prop{Name: "victims", Quick: 10000, Thorough: 250000, Round: 100, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			w.only = true
			n := dict.IntRange(1, 2).Draw(c.T, "n")
			ts, ps := terms(c.T, n+3), plates(c.T, n)
			victims := map[string]bool{}
			var vc []*conn
			for i := 0; i < n; i++ {
				victims[ts[i].phone] = true
				cn := w.dial()
				vc = append(vc, cn)
				w.quickReg(cn, ts[i], ps[i], true)
			}
			var bad []*conn
			malformed := 0
			steps := dict.IntRange(1, 25).Draw(c.T, "steps")
			for s := 0; s < steps; s++ {
				switch k := dict.IntRange(0, 9).Draw(c.T, "step"); {
				case k == 0 || len(bad) == 0:
					if len(bad) < 4 {
						cn := w.dial()
						cn.loose = true
						bad = append(bad, cn)
					}
				case k == 1:
					cn := rapid.SampledFrom(bad).Draw(c.T, "which")
					if !cn.ended {
						if rapid.Bool().Draw(c.T, "reset") {
							w.reset(cn)
						} else {
							w.hangup(cn)
						}
					}
				case k == 2:
					d := time.Duration(dict.IntRange(1, 20000).Draw(c.T, "wait")) * time.Millisecond
					w.Tracef("%v pass", d)
					time.Sleep(d)
				default:
					cn := rapid.SampledFrom(bad).Draw(c.T, "which")
					b, what := w.nonsense(victims, ts[n+dict.IntRange(0, 2).Draw(c.T, "as")])
					c.Class(what)
					if what != "nothing" && len(b) > 2 && b[0] == 0x7e && b[len(b)-1] == 0x7e {
						malformed++
					}
					w.Tracef("conn#%d: %s: %.200x", cn.n, what, b)
					w.send(cn, b)
				}
				if dict.IntRange(0, 2).Draw(c.T, "victim") == 0 {
					i := dict.IntRange(0, n-1).Draw(c.T, "who")
					w.op(rapid.SampledFrom([]string{"hb", "loc", "authok"}).Draw(c.T, "op"), vc[i], ts[i], "")
				}
				synctest.Wait()
				w.collect()
				w.alive(vc, ts, bad)
			}
			// everything the bad peers did also runs through the keepalive check
			for k := dict.IntRange(0, 6).Draw(c.T, "periods"); k > 0; k-- {
				time.Sleep(40 * time.Second)
				for i, v := range vc {
					w.op("hb", v, ts[i], "")
				}
				synctest.Wait()
				w.collect()
				w.alive(vc, ts, bad)
			}
			// the server still accepts
			fresh := rapid.Custom(func(t *rapid.T) term { return termGen(verGen).Draw(t, "x") }).Filter(func(x term) bool {
				_, err := storage.GetDeviceCache().GetDeviceByPhone(x.phone)
				return !victims[x.phone] && err != nil
			}).Draw(c.T, "fresh")
			plate := plateGen(12).Filter(func(p string) bool { return !storage.GetDeviceCache().HasPlate(p) }).Draw(c.T, "freshplate")
			w.quickReg(w.dial(), fresh, plate, true)
			w.compare()
			w.key(malformed > 0)
		}},
		pbt.Prop{Name: "one frame", Quick: 20000, Thorough: 600000, F: func(c *pbt.C) {
			// a single piece of nonsense on a fresh or a registered connection
			w := newWorld(c, aAll)
			w.only = true
			ts, ps := terms(c.T, 2), plates(c.T, 2)
			v := w.dial()
			w.quickReg(v, ts[0], ps[0], true)
			cn := w.dial()
			if rapid.Bool().Draw(c.T, "registered") {
				w.quickReg(cn, ts[1], ps[1], rapid.Bool().Draw(c.T, "online"))
				delete(w.devs, ts[1].phone) // its own fate is open
			}
			cn.loose = true
			b, what := w.nonsense(map[string]bool{ts[0].phone: true}, ts[1])
			c.Class(what)
			w.Tracef("conn#%d: %s: %.200x", cn.n, what, b)
			w.send(cn, b)
			if rapid.Bool().Draw(c.T, "hangup") {
				w.hangup(cn)
			}
			synctest.Wait()
			w.op("loc", v, ts[0], "")
			synctest.Wait()
			w.collect()
			w.alive([]*conn{v}, ts, []*conn{cn})
			if dict.IntRange(0, 4).Draw(c.T, "wait") == 0 {
				time.Sleep(50 * time.Second)
				w.op("hb", v, ts[0], "")
				time.Sleep(50 * time.Second)
				w.op("hb", v, ts[0], "")
				synctest.Wait()
				w.collect()
				w.alive([]*conn{v}, ts, []*conn{cn})
			}
			w.key(len(b) > 2)
		}},
		pbt.Prop{Name: "stalled", Quick: 3000, Thorough: 60000, Round: 50, F: stalledTerminal},
		pbt.Prop{Name: "crowd", Quick: 150, Thorough: 3000, Round: 10, F: func(c *pbt.C) {
			// many connections at once, most of them useless
			w := newWorld(c, aAll)
			w.only = true
			ts, ps := terms(c.T, 3), plates(c.T, 2)
			v := w.dial()
			w.quickReg(v, ts[0], ps[0], true)
			victims := map[string]bool{ts[0].phone: true, ts[1].phone: true}
			n := rapid.OneOf(dict.IntRange(10, 100), dict.IntRange(100, 1200)).Draw(c.T, "crowd")
			b, what := w.nonsense(victims, ts[2])
			hb := w.msg(uniq(ts[2]), 2, nil).Frame()
			kind := dict.IntRange(0, 4).Draw(c.T, "kind")
			w.Tracef("%d connections, kind %d (%s)", n, kind, what)
			var bad []*conn
			for i := 0; i < n; i++ {
				portSeq++
				p, ok := lis.Dial(fmt.Sprintf("192.0.2.%d:%d", 1+portSeq/50000%250, 1024+portSeq%50000))
				if !ok {
					w.Fatalf("connection %d of %d is not accepted", i, n)
				}
				cn := &conn{Peer: p, n: len(w.conns), addr: p.RemoteAddr().String(), loose: true}
				w.conns = append(w.conns, cn)
				bad = append(bad, cn)
				switch kind + i%2 {
				case 0: // idle
				case 1:
					cn.Chunks(b)
				case 2: // a stranger
					cn.Chunks(hb)
				case 3:
					cn.Hangup()
				case 4:
					cn.Reset()
				case 5: // an unfinished frame
					cn.Chunks(hb[:len(hb)/2])
				}
			}
			synctest.Wait()
			w.op("loc", v, ts[0], "")
			synctest.Wait()
			w.collect()
			w.alive([]*conn{v}, ts, bad)
			w.quickReg(w.dial(), ts[1], ps[1], true)
			for _, cn := range bad {
				cn.Hangup()
			}
			for k := 0; k < 20; k++ {
				time.Sleep(1100 * time.Millisecond)
			}
			w.op("hb", v, ts[0], "")
			synctest.Wait()
			w.collect()
			w.alive([]*conn{v}, ts, bad)
			w.key(true)
		}},
	)
}

// compareOthers is compare but for one connection's session.
func (w *world) compareOthers(s *conn) {
	loose := s.loose
	s.loose = true
	w.compare()
	s.loose = loose
}

// alive checks the victims and that ended bad connections left no session.
func (w *world) alive(vc []*conn, ts []term, bad []*conn) {
	w.compare()
	for i, v := range vc {
		if v.Closed() {
			w.Fatalf("the connection of %s was closed because of another connection's input", ts[i].phone)
		}
	}
	for _, b := range bad {
		s, err := storage.GetSession(b.addr)
		if b.Closed() && err == nil {
			w.Fatalf("conn#%d is closed but its session remains", b.n)
		}
		if !b.Closed() && (err != nil || s.Conn != b.Conn) {
			w.Fatalf("conn#%d is open but has no session", b.n)
		}
	}
}

func TestC19(t *testing.T) {
	bubble(t, "C19", "histories of connections that open, register, and end in every way (orderly close, reset, refused terminal, malformed input, keepalive removal), reuse of addresses, sends to sessions that are gone, and stopping a server with live connections; non-trivial: at least one connection ended while another lived; distinct by the whole history",
		pbt.Prop{Name: "lifecycle", Quick: 10000, Thorough: 200000, Round: 100, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			p := newPool(c.T, 4, 4)
			ended := 0
			var old []*conn
			for s := dict.Count(2, 25, 200).Draw(c.T, "steps"); s > 0; s-- {
				live := w.liveConns()
				k := dict.IntRange(0, 8).Draw(c.T, "step")
				if len(live) == 0 {
					k = 0
				}
				switch k {
				case 0, 1:
					if len(old) > 0 && dict.IntRange(0, 2).Draw(c.T, "reuse") == 0 {
						o := rapid.SampledFrom(old).Draw(c.T, "addr")
						busy := false
						for _, l := range live {
							busy = busy || l.addr == o.addr
						}
						if !busy {
							w.dialFrom(o.addr)
							c.Class("address reused")
						}
					} else {
						w.dial()
					}
				case 2, 3, 4:
					cn := rapid.SampledFrom(live).Draw(c.T, "conn")
					w.op(rapid.SampledFrom([]string{"reg", "authok", "hb", "loc", "logout"}).Draw(c.T, "op"), cn, rapid.SampledFrom(p.terms).Draw(c.T, "term"), rapid.SampledFrom(p.plates).Draw(c.T, "plate"))
				case 5:
					w.hangup(rapid.SampledFrom(live).Draw(c.T, "conn"))
				case 6:
					if w.hasTime() {
						w.reset(rapid.SampledFrom(live).Draw(c.T, "conn"))
					}
				case 7:
					// well-checksummed but undecodable: the connection may be closed or
					// kept, but not half of either
					cn := rapid.SampledFrom(live).Draw(c.T, "conn")
					b := jt.Frame(rapid.SliceOfN(dict.Byte(), 1, 4).Draw(c.T, "short"))
					w.Tracef("conn#%d: malformed %x", cn.n, b)
					w.send(cn, b)
					synctest.Wait()
					time.Sleep(1100 * time.Millisecond)
					synctest.Wait()
					cn.ended = cn.Closed()
				case 8:
					if len(old) > 0 {
						w.sendGone(rapid.SampledFrom(old).Draw(c.T, "gone"))
					}
				}
				w.settle()
				w.compare()
				old = old[:0]
				for _, cn := range w.conns {
					if cn.ended {
						old = append(old, cn)
					}
				}
				if len(old) > 0 && len(old) < len(w.conns) {
					ended++
				}
			}
			w.key(ended > 0)
		}},
		pbt.Prop{Name: "expired", Quick: 2000, Thorough: 40000, Round: 100, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			ts, ps := terms(c.T, 2), plates(c.T, 2)
			a, b := w.dial(), w.dial()
			authed := rapid.Bool().Draw(c.T, "authed")
			w.quickReg(a, ts[0], ps[0], authed)
			w.quickReg(b, ts[1], ps[1], true)
			w.only, a.loose = true, true
			tr := w.track(ts[0].phone, a, authed, time.Now())
			for !tr.gone {
				tr.poll(time.Duration(dict.IntRange(10, 50).Draw(c.T, "gap")) * time.Second)
				w.op("hb", b, ts[1], "")
				w.settle()
			}
			w.only, a.loose = false, false
			a.ended = true
			w.settle()
			w.compare()
			w.sendGone(a)
			w.settle()
			w.key(true)
		}},
		pbt.Prop{Name: "reconnect", Quick: 6000, Thorough: 120000, Round: 100, F: func(c *pbt.C) {
			// the terminal is back from the same address before the server has
			// noticed the end of its old connection
			w := newWorld(c, aAll)
			ts, ps := terms(c.T, 2), plates(c.T, 2)
			a, b := w.dial(), w.dial()
			w.quickReg(a, ts[0], ps[0], rapid.Bool().Draw(c.T, "online"))
			w.quickReg(b, ts[1], ps[1], true)
			early := false
			for n := dict.IntRange(1, 3).Draw(c.T, "times"); n > 0; n-- {
				if dict.IntRange(0, 2).Draw(c.T, "end") == 0 {
					w.reset(a)
				} else {
					if rapid.Bool().Draw(c.T, "error first") {
						w.unsupported(a, ts[0])
					}
					w.hangup(a)
				}
				synctest.Wait()
				time.Sleep(time.Duration(dict.IntRange(0, 1500).Draw(c.T, "ms")) * time.Millisecond)
				synctest.Wait()
				early = early || !a.Closed()
				a = w.dialFrom(a.addr)
			}
			if rapid.Bool().Draw(c.T, "authenticate") {
				w.op("authok", a, ts[0], "")
			}
			w.settle()
			time.Sleep(3 * time.Second)
			w.settle()
			w.compare()
			w.op(rapid.SampledFrom([]string{"hb", "loc", "authok"}).Draw(c.T, "op"), a, ts[0], "")
			w.settle()
			a.want(same(w.platform(w.devs[ts[0].phone], 0)))
			w.settle()
			w.compare()
			c.ClassIf(early, "back before the server noticed")
			w.key(early)
		}},
		pbt.Prop{Name: "accept fails", Quick: 2500, Thorough: 50000, F: func(c *pbt.C) {
			// accepting fails for a passing reason: the server goes on
			w := newWorld(c, aAll)
			ts, ps := terms(c.T, 4), plates(c.T, 4)
			n, fails := 0, 0
			for k := dict.IntRange(2, 10).Draw(c.T, "steps"); k > 0 && n < 4; k-- {
				switch dict.IntRange(0, 3).Draw(c.T, "step") {
				case 0:
					w.quickReg(w.dial(), ts[n], ps[n], true)
					n++
				case 1:
					if n > 0 {
						i := dict.IntRange(0, n-1).Draw(c.T, "who")
						w.op(rapid.SampledFrom([]string{"hb", "loc", "authok"}).Draw(c.T, "op"), w.conns[i], ts[i], "")
					}
				default:
					e := rapid.SampledFrom([]syscall.Errno{syscall.ECONNABORTED, syscall.ECONNRESET, syscall.EMFILE, syscall.ENFILE, syscall.ENOBUFS, syscall.ENOMEM, syscall.EINTR, syscall.EPROTO}).Draw(c.T, "errno")
					w.Tracef("accept fails: %v", e)
					if !lis.Fail(e) {
						w.Fatalf("the server does not accept any more after %d accept failures", fails)
					}
					fails++
				}
				w.settle()
				w.compare()
			}
			if n < 4 {
				w.quickReg(w.dial(), ts[n], ps[n], false)
			}
			w.compare()
			w.key(fails > 0)
		}},
		pbt.Prop{Name: "stalled", Quick: 1500, Thorough: 30000, Round: 50, F: stalledTerminal},
		pbt.Prop{Name: "stop", Quick: 3000, Thorough: 60000, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			// a second server of its own; both share the stores
			l2 := sim.NewListener()
			s2 := server.NewTCPServerOn(l2)
			returned := make(chan struct{})
			go func() { s2.Start(); close(returned) }()
			synctest.Wait()
			main := lis
			lis = l2
			defer func() { lis = main }()
			n := dict.IntRange(0, 3).Draw(c.T, "n")
			ts, ps := terms(c.T, 4), plates(c.T, 4)
			for i := 0; i < n; i++ {
				w.quickReg(w.dial(), ts[i], ps[i], rapid.Bool().Draw(c.T, "online"))
			}
			idle := w.dial()
			w.Tracef("server stops")
			s2.Stop()
			synctest.Wait()
			select {
			case <-returned:
			default:
				w.Fatalf("the accept loop goes on after Stop")
			}
			if _, ok := l2.Dial("192.0.2.77:7"); ok {
				w.Fatalf("a stopped server still accepts")
			}
			w.settle()
			w.compare()
			for i := 0; i < n; i++ {
				w.op(rapid.SampledFrom([]string{"hb", "loc", "authok", "logout"}).Draw(c.T, "op"), w.conns[i], ts[i], "")
			}
			w.op("reg", idle, ts[3], ps[3])
			w.settle()
			w.compare()
			w.key(true)
		}},
	)
}

// sendGone sends to the session of an ended connection.
func (w *world) sendGone(c *conn) {
	for _, l := range w.liveConns() {
		if l.addr == c.addr {
			return
		}
	}
	w.Tracef("platform sends to the ended session %s", c.addr)
	m := &model.Msg8104{Header: model.GenMsgHeader(&model.Device{Phone: "000000000001", VersionDesc: model.Version2013}, 0x8104, 1)}
	srv.Send(c.addr, m)
	synctest.Wait()
}

// platform sends a platform message to a terminal the way the HTTP layer does
// and returns what must arrive.
func (w *world) platform(d *dev, kind int) jt.Msg {
	g, err := storage.GetDeviceCache().GetDeviceByPhone(d.phone)
	if err != nil {
		w.Fatalf("%s is not registered", d.phone)
	}
	s, err := storage.GetSession(g.SessionID)
	if err != nil {
		w.Fatalf("%s has no session: %v", d.phone, err)
	}
	serial := s.GetNextSerialNum()
	want, msg := w.build(d, g, kind, serial)
	w.Tracef("platform -> %s: %v", d.phone, want)
	srv.Send(s.ID, msg)
	return want
}

func (w *world) build(d *dev, g *model.Device, kind int, serial uint16) (jt.Msg, model.JT808Msg) {
	switch kind {
	case 0:
		return jt.New(0x8104, d.ver, d.proto, d.phone, serial, nil),
			&model.Msg8104{Header: model.GenMsgHeader(g, 0x8104, serial)}
	case 1:
		ps := paramsGen(800).Draw(w.T, "params")
		mp := &model.DeviceParams{}
		if err := mp.Decode(d.phone, byte(len(ps)), jt.ParamItems(ps)); err != nil {
			w.Fatalf("HARNESS: %v", err)
		}
		return jt.New(0x8103, d.ver, d.proto, d.phone, serial, jt.ParamList(ps)),
			&model.Msg8103{Header: model.GenMsgHeader(g, 0x8103, serial), Parameters: mp}
	default:
		q := jt.MediaQuery{Channel: dict.Byte().Draw(w.T, "ch"), Start: timeGen.Draw(w.T, "st"), End: timeGen.Draw(w.T, "en"), Alarm: dict.Uint32().Draw(w.T, "al"), AlarmExt: dict.Uint32().Draw(w.T, "ax"),
			Media: dict.Byte().Draw(w.T, "mt"), Stream: dict.Byte().Draw(w.T, "stt"), Storage: dict.Byte().Draw(w.T, "sto")}
		m := &model.Msg9205{Header: model.GenMsgHeader(g, 0x9205, serial)}
		idx := 0
		m.DeviceMediaQuery.Decode(q.Body(), &idx)
		return jt.New(0x9205, d.ver, d.proto, d.phone, serial, q.Body()), m
	}
}

func same(want jt.Msg) func(jt.Msg) error {
	return func(g jt.Msg) error {
		if g.H != want.H || !bytes.Equal(g.Body, want.Body) {
			return fmt.Errorf("expected %v", want)
		}
		return nil
	}
}

func TestC20(t *testing.T) {
	bubble(t, "C20", "platform messages (0x8104, 0x8103, 0x9205) to terminals that registered, authenticated and reconnected, alone and concurrently with replies and with each other on slow connections; serial numbers drawn sequentially and concurrently across the wrap; non-trivial: a platform message arrived / serials were drawn concurrently; distinct by the whole history",
		pbt.Prop{Name: "delivery", Quick: 12000, Thorough: 240000, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			n := dict.IntRange(1, 3).Draw(c.T, "n")
			ts, ps := terms(c.T, n), plates(c.T, n)
			for i, tm := range ts {
				w.quickReg(w.dial(), tm, ps[i], rapid.Bool().Draw(c.T, "online"))
			}
			next := map[string]uint16{}
			sent := 0
			for s := dict.Count(1, 12, 300).Draw(c.T, "steps"); s > 0; s-- {
				d := w.devs[rapid.SampledFrom(ts).Draw(c.T, "who").phone]
				switch dict.IntRange(0, 5).Draw(c.T, "step") {
				case 0:
					cn := w.dial()
					w.op("authok", cn, d.term, "")
					if rapid.Bool().Draw(c.T, "hangup old") {
						w.settle()
						for _, o := range w.liveConns() {
							used := o == cn
							for _, x := range w.devs {
								used = used || x.conn == o
							}
							if !used {
								w.hangup(o)
							}
						}
					}
				case 1:
					w.op(rapid.SampledFrom([]string{"hb", "loc", "time", "authok", "noreply", "noreply"}).Draw(c.T, "op"), d.conn, d.term, "")
				case 2:
					if rapid.Bool().Draw(c.T, "oversize") {
						// a message whose length the header cannot state is not sent at all
						g, err := storage.GetDeviceCache().GetDeviceByPhone(d.phone)
						if err != nil {
							w.Fatalf("%s is not registered", d.phone)
						}
						mp := &model.DeviceParams{}
						for k := dict.IntRange(5, 40).Draw(c.T, "items"); k > 0; k-- {
							mp.Params = append(mp.Params, &model.ParamData{ParamID: 0x10, ParamValue: strings.Repeat("x", 220)})
						}
						w.Tracef("platform -> %s: %d parameters of 220 bytes", d.phone, len(mp.Params))
						srv.Send(g.SessionID, &model.Msg8103{Header: model.GenMsgHeader(g, 0x8103, 77), Parameters: mp})
						c.Class("oversize")
						break
					}
					if rapid.Bool().Draw(c.T, "numbered") {
						// a message already numbered arrives with that number
						g, err := storage.GetDeviceCache().GetDeviceByPhone(d.phone)
						if err != nil {
							w.Fatalf("%s is not registered", d.phone)
						}
						serial := rapid.OneOf(rapid.SampledFrom([]uint16{0, 0, 1, 65535}), dict.Uint16()).Draw(c.T, "number")
						want, msg := w.build(d, g, dict.IntRange(0, 2).Draw(c.T, "kind"), serial)
						w.Tracef("platform -> %s: %v", d.phone, want)
						d.conn.want(same(want))
						srv.Send(g.SessionID, msg)
						sent++
						c.Class("numbered")
						break
					}
					fallthrough
				default:
					if rapid.Bool().Draw(c.T, "shortwrites") {
						lim := dict.IntRange(1, 40).Draw(c.T, "lim")
						d.conn.ShortWrites(func(n int) int { return min(n, lim) })
					}
					want := w.platform(d, dict.IntRange(0, 2).Draw(c.T, "kind"))
					if last, ok := next[d.conn.addr]; ok && want.H.Serial != last+1 {
						w.Fatalf("serial %d after %d on one session", want.H.Serial, last)
					}
					next[d.conn.addr] = want.H.Serial
					d.conn.want(same(want))
					sent++
				}
				w.settle()
				for _, x := range w.conns {
					x.ShortWrites(nil)
				}
				w.compare()
			}
			w.key(sent > 0)
		}},
		pbt.Prop{Name: "concurrent", Quick: 8000, Thorough: 160000, F: func(c *pbt.C) {
			w := newWorld(c, aDir|aSess)
			n := dict.IntRange(1, 2).Draw(c.T, "n")
			ts, ps := terms(c.T, n), plates(c.T, n)
			for i, tm := range ts {
				w.quickReg(w.dial(), tm, ps[i], true)
				if dict.IntRange(0, 3).Draw(c.T, "slow") > 0 {
					w.conns[i].SlowWrites(time.Millisecond)
				}
			}
			type job struct {
				msg  model.JT808Msg
				want jt.Msg
				d    *dev
			}
			var jobs []job
			for k := dict.IntRange(2, 8).Draw(c.T, "msgs"); k > 0; k-- {
				d := w.devs[rapid.SampledFrom(ts).Draw(c.T, "to").phone]
				g, _ := storage.GetDeviceCache().GetDeviceByPhone(d.phone)
				want, msg := w.build(d, g, rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(c.T, "kind"), uint16(1000+k))
				c.ClassIf(len(want.Frame()) > 256, "large frame")
				w.Tracef("platform -> %s: %v", d.phone, want)
				jobs = append(jobs, job{msg, want, d})
			}
			expect := map[*conn][]string{}
			for i, tm := range ts {
				for k := dict.IntRange(0, 4).Draw(c.T, "requests"); k > 0; k-- {
					m := w.msg(tm, 2, nil)
					w.Tracef("conn#%d: heartbeat serial=%d", i, m.H.Serial)
					w.conns[i].Chunks(m.Frame())
					expect[w.conns[i]] = append(expect[w.conns[i]], fmt.Sprint(jt.New(0x8001, tm.ver, tm.proto, tm.phone, m.H.Serial, jt.GeneralReply(m.H.Serial, 2, 0))))
				}
			}
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for _, j := range jobs {
				expect[j.d.conn] = append(expect[j.d.conn], fmt.Sprint(j.want))
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					srv.Send(j.d.conn.addr, j.msg)
				}()
			}
			synctest.Wait()
			close(gate)
			wg.Wait()
			time.Sleep(100 * time.Millisecond)
			synctest.Wait()
			for _, cn := range w.conns {
				cn.SlowWrites(0)
				msgs, rest, err := jt.ParseStream(cn.Take())
				if err != nil || len(rest) > 0 {
					w.Fatalf("conn#%d: frames sent at the same time are damaged: %v %x", cn.n, err, rest)
				}
				var got []string
				for _, m := range msgs {
					if m.H.ID == 0x8001 {
						m.H.Extra = false // a reply may echo the request's reserved bit
					}
					got = append(got, fmt.Sprint(m))
				}
				want := append([]string{}, expect[cn]...)
				sort.Strings(got)
				sort.Strings(want)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					w.Fatalf("conn#%d: received\n %v\nexpected\n %v", cn.n, got, want)
				}
			}
			w.key(true)
		}},
		pbt.Prop{Name: "serials", Quick: 60, Thorough: 1200, F: func(c *pbt.C) {
			s := &model.Session{ID: "x"}
			start := dict.IntRange(0, 65535).Draw(c.T, "start")
			if dict.IntRange(0, 2).Draw(c.T, "near") > 0 {
				start = dict.IntRange(65000, 65535).Draw(c.T, "start")
			}
			last := s.GetNextSerialNum()
			for i := 0; i < start; i++ {
				v := s.GetNextSerialNum()
				if v != last+1 {
					c.Fatalf("serial %d follows %d", v, last)
				}
				last = v
			}
			g := dict.IntRange(2, 8).Draw(c.T, "goroutines")
			k := rapid.OneOf(dict.IntRange(100, 2000), dict.IntRange(8000, 20000)).Draw(c.T, "each")
			out := make([][]uint16, g)
			var wg sync.WaitGroup
			begin := make(chan struct{})
			for i := range out {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-begin
					for j := 0; j < k; j++ {
						out[i] = append(out[i], s.GetNextSerialNum())
					}
				}()
			}
			close(begin)
			wg.Wait()
			count := make([]int, 65536)
			for _, o := range out {
				for _, v := range o {
					count[v]++
				}
			}
			for i := 0; i < g*k; i++ {
				count[last+1+uint16(i)]--
			}
			for v, x := range count {
				if x != 0 {
					c.Fatalf("%d goroutines drew %d serials each after %d: serial %d is off by %d", g, k, last, v, x)
				}
			}
			if v := s.GetNextSerialNum(); v != last+uint16(g*k)+1 {
				c.Fatalf("serial %d after the concurrent draw, expected %d", v, last+uint16(g*k)+1)
			}
			c.NonTrivial("%d %d %d", start, g, k)
		}},
	)
}

// C18, C19: a terminal stops reading: its replies and commands pile up.
func stalledTerminal(c *pbt.C) {
	w := newWorld(c, aAll)
	n := dict.IntRange(1, 2).Draw(c.T, "n")
	ts, ps := terms(c.T, n+2), plates(c.T, n+2)
	var vc []*conn
	for i := 0; i < n; i++ {
		cn := w.dial()
		vc = append(vc, cn)
		w.quickReg(cn, ts[i], ps[i], true)
	}
	s := w.dial()
	d := w.quickReg(s, ts[n], ps[n], true)
	g, _ := storage.GetDeviceCache().GetDeviceByPhone(d.phone)
	limit := dict.IntRange(1, 300).Draw(c.T, "room")
	w.Tracef("conn#%d: the terminal stops reading, room for %d bytes", s.n, limit)
	s.Stall(limit)
	s.stuck = true
	last := time.Now()
	requests := dict.IntRange(0, 40).Draw(c.T, "requests")
	for k := 0; k < requests; k++ {
		w.op(rapid.SampledFrom([]string{"hb", "hb", "time", "loc"}).Draw(c.T, "op"), s, ts[n], "")
	}
	cmds := dict.IntRange(0, 4).Draw(c.T, "commands")
	for k := 0; k < cmds; k++ {
		_, msg := w.build(d, g, dict.IntRange(0, 2).Draw(c.T, "kind"), uint16(k))
		go srv.Send(s.addr, msg)
	}
	synctest.Wait()
	delete(w.devs, d.phone) // how much of it was processed is open
	w.only = true
	serve := func() {
		for i, v := range vc {
			w.op(rapid.SampledFrom([]string{"hb", "loc", "authok"}).Draw(c.T, "op"), v, ts[i], "")
		}
		w.settle()
		w.compareOthers(s)
	}
	for k := dict.IntRange(1, 3).Draw(c.T, "steps"); k > 0; k-- {
		serve()
		time.Sleep(time.Duration(dict.IntRange(0, 9000).Draw(c.T, "pause")) * time.Millisecond)
	}
	w.quickReg(w.dial(), ts[n+1], ps[n+1], true) // the server still accepts
	vc, ts[n] = append(vc, w.conns[len(w.conns)-1]), ts[n+1]
	serve()
	switch dict.IntRange(0, 3).Draw(c.T, "end") {
	case 0:
		w.Tracef("conn#%d: the terminal reads again", s.n)
		s.Stall(0)
		synctest.Wait()
		msgs, rest, err := jt.ParseStream(s.Take())
		if err != nil || len(rest) > 0 || len(msgs) != requests+cmds {
			w.Fatalf("conn#%d: %d requests and %d commands, but %d frames arrived when the terminal read again, rest %x, %v", s.n, requests, cmds, len(msgs), rest, err)
		}
	case 1:
		s.Stall(0)
		w.hangup(s)
	case 2:
		w.Tracef("conn#%d: connection reset", s.n)
		s.Reset()
		time.Sleep(1100 * time.Millisecond)
		for k := 0; k < 2*requests && !s.Closed(); k++ {
			time.Sleep(1100 * time.Millisecond)
			if k%20 == 0 {
				serve()
			}
		}
	case 3: // silent from the server's point of view
		tr := w.track(d.phone, s, true, last)
		for !tr.gone {
			tr.poll(time.Duration(dict.IntRange(10, 50).Draw(c.T, "gap")) * time.Second)
			serve()
		}
		c.Class("expired while stalled")
	}
	time.Sleep(1100 * time.Millisecond)
	serve()
	s.loose = true
	w.alive(vc, ts, nil)
	if _, err := storage.GetSession(s.addr); s.Closed() && err == nil {
		w.Fatalf("conn#%d is closed but its session remains", s.n)
	}
	if s.Gone() && !s.Closed() {
		w.Fatalf("conn#%d has ended but the server did not close it", s.n)
	}
	c.ClassIf(s.Closed(), "closed")
	w.key(requests*16 > limit)
}
