package serv

import (
	"fmt"
	"strconv"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
)

// pool is the cast of one case.
type pool struct {
	terms  []term
	plates []string
}

func newPool(t *rapid.T, maxTerms, maxPlates int) pool {
	return pool{terms(t, dict.IntRange(1, maxTerms).Draw(t, "nterms")), plates(t, dict.IntRange(1, maxPlates).Draw(t, "nplates"))}
}

// noReply sends a terminal message that needs no reply.
func (w *world) noReply(c *conn, t term) {
	var id uint16
	var body []byte
	switch dict.IntRange(0, 2).Draw(w.T, "noreply") {
	case 0:
		id, body = 0x0001, jt.GeneralReply(dict.Uint16().Draw(w.T, "as"), rapid.SampledFrom([]uint16{0x8103, 0x8104, 0x9205}).Draw(w.T, "aid"), rapid.ByteRange(0, 3).Draw(w.T, "res"))
	case 1:
		id, body = 0x0104, append(jt.W16(nil, dict.Uint16().Draw(w.T, "as")), jt.ParamList(paramsGen(900).Draw(w.T, "params"))...)
	case 2:
		id = 0x1205
		n := dict.IntRange(0, 3).Draw(w.T, "nmedia")
		body = jt.W32(jt.W16(nil, dict.Uint16().Draw(w.T, "as")), uint32(n))
		for i := 0; i < n; i++ {
			q := jt.MediaQuery{Channel: dict.Byte().Draw(w.T, "ch"), Start: timeGen.Draw(w.T, "st"), End: timeGen.Draw(w.T, "en"), Alarm: dict.Uint32().Draw(w.T, "al"),
				Media: rapid.ByteRange(0, 3).Draw(w.T, "mt"), Stream: rapid.ByteRange(0, 2).Draw(w.T, "stt"), Storage: rapid.ByteRange(0, 2).Draw(w.T, "sto")}
			body = append(append(body, q.Body()...), jt.W32(nil, dict.Uint32().Draw(w.T, "size"))...)
		}
	}
	m := w.msg(t, id, body)
	w.Tracef("conn#%d: %v (no reply expected)", c.n, m)
	w.send(c, m.Frame())
}

// unsupported sends a message whose ID the server does not know.
func (w *world) unsupported(c *conn, t term) {
	m := w.msg(t, unsupportedID.Draw(w.T, "id"), rapid.SliceOfN(dict.Byte(), 0, 40).Draw(w.T, "body"))
	w.Tracef("conn#%d: unsupported %v", c.n, m)
	w.send(c, m.Frame())
	c.errs++
}

// platform sends a message that only a platform sends, which a server has no
// use for.
func (w *world) platformMsg(c *conn, t term) {
	var id uint16
	var body []byte
	switch dict.IntRange(0, 5).Draw(w.T, "platform") {
	case 0, 1:
		id, body = 0x8001, jt.GeneralReply(dict.Uint16().Draw(w.T, "as"), rapid.SampledFrom([]uint16{0x0002, 0x0102, 0x0200}).Draw(w.T, "aid"), rapid.SampledFrom([]byte{0, 0, 0, 1, 4}).Draw(w.T, "res"))
	case 2:
		id, body = 0x8100, append(jt.W16(nil, dict.Uint16().Draw(w.T, "as")), append([]byte{0}, "123"...)...)
	case 3:
		id, body = 0x8103, jt.ParamList(paramsGen(300).Draw(w.T, "params"))
	case 4:
		id = 0x8104
	case 5:
		q := jt.MediaQuery{Channel: 1, Start: timeGen.Draw(w.T, "st"), End: timeGen.Draw(w.T, "en")}
		id, body = 0x9205, q.Body()
	}
	m := w.msg(t, id, body)
	w.Tracef("conn#%d: platform message %v", c.n, m)
	w.send(c, m.Frame())
	c.errs++
}

// wrongCode draws a code different from the issued one.
func (w *world) wrongCode(d *dev) string {
	var cands []string
	for _, o := range w.sortedDevs() {
		if o.code != d.code && o.code != "" {
			cands = append(cands, o.code)
		}
	}
	code := d.code
	cands = append(cands, "", "AuthCode", "0", code+"0", "0"+code, code+" ", "-"+code, " "+code, code+"\x00", d.plate, d.phone)
	if len(code) > 1 {
		cands = append(cands, code[1:], code[:len(code)-1], code[:len(code)-1]+string(rune('0'+(code[len(code)-1]-'0'+1)%10)))
	}
	if n, err := strconv.ParseUint(code, 10, 64); err == nil {
		cands = append(cands, fmt.Sprint(n+1), fmt.Sprint(n^1), fmt.Sprintf("%x", n), fmt.Sprintf("0%d", n), fmt.Sprintf("+%d", n), fmt.Sprintf("%d.0", n))
	}
	s := rapid.OneOf(rapid.SampledFrom(cands), asciiStr(0, 20)).Draw(w.T, "wrongcode")
	if s == code {
		s += "x"
	}
	return s
}

func imeiGen(t *rapid.T) string { return asciiStr(0, 15).Draw(t, "imei") }
func softGen(t *rapid.T) string { return asciiStr(0, 20).Draw(t, "soft") }

// op performs one generated operation; false means the connection is done.
func (w *world) op(kind string, c *conn, t term, plate string) bool {
	w.Class("op:" + kind)
	switch kind {
	case "reg":
		o := w.register(c, t, regGen(w.T, t.ver, plate))
		w.ClassIf(o == refused, "registration refused")
		w.ClassIf(o == served, "registration accepted")
	case "authok":
		d := w.devs[t.phone]
		code := "12345"
		if d != nil {
			if d.code == "" {
				return true // registered in the same burst: code not seen yet
			}
			code = d.code
		}
		o := w.auth(c, t, code, imeiGen(w.T), softGen(w.T))
		w.ClassIf(o == served, "authenticated")
		return o != closed
	case "authbad":
		d := w.devs[t.phone]
		if d == nil {
			d = &dev{term: t}
		} else if d.code == "" {
			return true
		}
		o := w.auth(c, t, w.wrongCode(d), imeiGen(w.T), softGen(w.T))
		w.ClassIf(o == refused, "wrong code refused")
		return o != closed
	case "hb":
		return w.simple(c, t, 2) != closed
	case "logout":
		o := w.simple(c, t, 3)
		w.ClassIf(o == served, "logged out")
		return o != closed
	case "time":
		if w.devs[t.phone] == nil {
			return true // only specified for registered terminals
		}
		w.simple(c, t, 4)
	case "loc":
		return w.location(c, t, w.nextLoc(t)) != closed
	case "noreply":
		w.noReply(c, t)
	case "unsup":
		w.unsupported(c, t)
	case "plat":
		w.platformMsg(c, t)
	default:
		panic(kind)
	}
	return true
}

// nextLoc draws a report: unrelated to the previous one of this terminal, or
// equal to it but for a few fields, as those of a parked or cruising vehicle.
func (w *world) nextLoc(t term) jt.Loc {
	l := locGen.Draw(w.T, "loc")
	d := w.devs[t.phone]
	if d == nil || len(d.geos) == 0 || rapid.Bool().Draw(w.T, "fresh") {
		return l
	}
	prev := d.geos[dict.IntRange(max(0, len(d.geos)-3), len(d.geos)-1).Draw(w.T, "like")]
	w.Class("report like an earlier one")
	for k := dict.IntRange(0, 2).Draw(w.T, "changes"); k > 0; k-- {
		switch dict.IntRange(0, 8).Draw(w.T, "change") {
		case 0:
			prev.Time = l.Time
		case 1:
			prev.Speed = l.Speed
		case 2:
			prev.Dir = l.Dir
		case 3:
			prev.Status ^= 1 << (l.Status % 23)
		case 4:
			prev.Lat = l.Lat
		case 5:
			prev.Lon = l.Lon
		case 6:
			prev.Alt = l.Alt
		case 7:
			prev.Alarm = l.Alarm
		case 8:
			prev.Extra = l.Extra
		}
	}
	return prev
}

// pickConn returns a live connection, opening one if needed or wanted.
func (w *world) pickConn(maxConns int) *conn {
	live := w.liveConns()
	if len(live) == 0 || (len(live) < maxConns && dict.IntRange(0, 4).Draw(w.T, "newconn") == 0) {
		return w.dial()
	}
	return rapid.SampledFrom(live).Draw(w.T, "conn")
}

// budget: error back-offs cost virtual seconds; stay far below one keepalive
// period so that the timer never interferes.
func (w *world) hasTime() bool { return w.elapsed().Seconds() < 35 }

// history runs a generated history over the given operation kinds (repeat a
// kind to give it weight), in bursts on one connection at a time, comparing
// replies and stores after each burst.
func (w *world) history(p pool, kinds []string, maxConns, maxBurst int, extra map[string]func(*conn)) {
	n := dict.Count(1, 25, 250).Draw(w.T, "bursts")
	for i := 0; i < n; i++ {
		c := w.pickConn(maxConns)
		b := dict.IntRange(1, maxBurst).Draw(w.T, "burst")
		for j := 0; j < b; j++ {
			k := rapid.SampledFrom(kinds).Draw(w.T, "op")
			if (k == "unsup" || k == "plat") && !w.hasTime() {
				continue
			}
			if f := extra[k]; f != nil {
				w.Class("op:" + k)
				f(c)
				if c.ended {
					break
				}
				continue
			}
			if !w.op(k, c, rapid.SampledFrom(p.terms).Draw(w.T, "term"), rapid.SampledFrom(p.plates).Draw(w.T, "plate")) {
				break
			}
		}
		w.settle()
		w.compare()
	}
}
