package serv

import (
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

// incomplete draws a message of the terminal that ends before its header or
// the fixed fields of its type do. The length in its header is that of the
// body it has.
func (w *world) incomplete(t term, plate string) (raw []byte, m jt.Msg, what string) {
	kinds := []string{"loc", "loc", "reg", "header"}
	if t.ver == jt.V2019 {
		kinds = append(kinds, "auth", "auth")
	}
	what = rapid.SampledFrom(kinds).Draw(w.T, "incomplete")
	var id uint16
	var body []byte
	need := 0
	switch what {
	case "loc":
		id, body, need = 0x0200, locGen.Draw(w.T, "loc").Body(), 28
	case "reg":
		id, body, need = 0x0100, regGen(w.T, t.ver, plate).Body(t.ver), 4+5+8+7+1
		if t.ver == jt.V2019 {
			need = 4 + 11 + 30 + 30 + 1
		}
	case "auth":
		code := "7"
		if d := w.devs[t.phone]; d != nil && dict.IntRange(0, 3).Draw(w.T, "right") > 0 {
			code = d.code
		}
		id, body = 0x0102, jt.AuthBody(t.ver, code, imeiGen(w.T), softGen(w.T))
		need = len(body)
	case "header":
		m = w.anyFrame(t, plate)
		n := len(m.Bytes()) - len(m.Body)
		return m.Bytes()[:cutAt(w, n)], m, what
	}
	m = w.msg(t, id, body[:cutAt(w, need)])
	return m.Bytes(), m, what
}

// cutAt draws where to cut a message of which n bytes are needed: anywhere, or
// near the end of them.
func cutAt(w *world, n int) int {
	return rapid.OneOf(dict.IntRange(0, n-1), dict.IntRange(max(0, n-4), n-1)).Draw(w.T, "cut")
}

// sendIncomplete sends it, whole or in fragments, and lets the server do with
// the connection what it likes.
func (w *world) sendIncomplete(c *conn, t term, plate string) {
	raw, m, what := w.incomplete(t, plate)
	w.Class("incomplete " + what)
	if d := w.devs[t.phone]; d != nil && what != "header" && len(m.Body) > 1 && dict.IntRange(0, 2).Draw(w.T, "fragmented") == 0 {
		w.Class("in fragments")
		parts := m.Fragment(w.cutSizes(len(m.Body), 4))
		for i, f := range parts {
			w.Tracef("conn#%d: incomplete %s, fragment %v", c.n, what, f)
			if i < len(parts)-1 {
				c.want(general(f, 0))
			}
			w.send(c, f.Frame())
		}
	} else {
		w.Tracef("conn#%d: incomplete %s of %s: %x", c.n, what, t.phone, raw)
		w.send(c, jt.Frame(raw))
	}
	synctest.Wait()
	time.Sleep(1050 * time.Millisecond) // should it back off
	synctest.Wait()
	c.ended = c.Closed()
	w.n["incomplete"]++
}

func TestC26(t *testing.T) {
	kinds := []string{"hb", "loc", "reg", "reg", "authok", "authok", "logout", "incomplete", "incomplete", "incomplete"}
	bubble(t, "C26", "histories in which messages that end inside their header or fixed fields, with a correct check byte, whole or in fragments, are mixed among complete ones, from registered and unknown terminals on any connection; non-trivial: at least one incomplete message was sent and one complete request answered; distinct by the whole history",
		pbt.Prop{Name: "history", Quick: 15000, Thorough: 300000, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			p := newPool(c.T, 3, 3)
			w.history(p, kinds, 4, 3, map[string]func(*conn){"incomplete": func(cn *conn) {
				if !w.hasTime() {
					return
				}
				// the codes of registrations in the same burst have to be known
				w.settle()
				if cn.ended {
					return
				}
				w.sendIncomplete(cn, rapid.SampledFrom(p.terms).Draw(c.T, "term"), rapid.SampledFrom(p.plates).Draw(c.T, "plate"))
				w.settle()
				w.compare()
			}})
			w.key(w.n["incomplete"] > 0 && w.n["replies"] > 0)
		}},
		pbt.Prop{Name: "keepalive", Quick: 3000, Thorough: 60000, F: func(c *pbt.C) {
			// incomplete messages do not keep a terminal alive
			w := newWorld(c, aAll)
			tm, plate := terms(c.T, 1)[0], plates(c.T, 1)[0]
			cn := w.dial()
			time.Sleep(time.Duration(dict.IntRange(0, 999).Draw(c.T, "phase")) * time.Millisecond)
			online := rapid.Bool().Draw(c.T, "online")
			w.quickReg(cn, tm, plate, online)
			w.compare()
			tr := w.track(tm.phone, cn, online, time.Now())
			w.only, cn.loose = true, true
			for !tr.gone {
				tr.poll(time.Duration(dict.IntRange(3, 50).Draw(c.T, "gap")) * time.Second)
				if tr.gone {
					break
				}
				o := w.dial()
				o.loose = true
				w.sendIncomplete(o, tm, plate)
			}
			w.key(w.n["incomplete"] > 0)
		}},
	)
}
