package serv

import (
	"fmt"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

// corrupt damages the content of a frame so that its check byte is wrong. The
// frame stays well delimited and escaped.
func corrupt(t *rapid.T, msg []byte) (frame []byte, what string) {
	p := append(append([]byte{}, msg...), jt.Xor(msg))
	switch dict.IntRange(0, 5).Draw(t, "damage") {
	case 0:
		i := dict.IntRange(0, len(p)-1).Draw(t, "at")
		p[i] ^= 1 << dict.IntRange(0, 7).Draw(t, "bit")
		what = "bit flip"
	case 1:
		i := dict.IntRange(0, len(p)-1).Draw(t, "at")
		p[i] ^= rapid.ByteRange(1, 255).Draw(t, "xor")
		what = "byte changed"
	case 2:
		p[len(p)-1] ^= rapid.ByteRange(1, 255).Draw(t, "xor")
		what = "check byte changed"
	case 3:
		p = p[:dict.IntRange(1, len(p)-1).Draw(t, "len")]
		what = "truncated"
	case 4:
		i := dict.IntRange(0, len(p)-1).Draw(t, "at")
		p = append(p[:i], p[i+1:]...)
		what = "byte lost"
	case 5:
		i := dict.IntRange(0, len(p)).Draw(t, "at")
		p = append(p[:i:i], append([]byte{dict.Byte().Draw(t, "ins")}, p[i:]...)...)
		what = "byte inserted"
	}
	if n := len(p) - 1; jt.Xor(p[:n]) == p[n] { // the damage does not show: make it
		p[n] ^= 0x5a
	}
	return append(append([]byte{0x7e}, jt.Escape(p)...), 0x7e), what
}

// anyMsg draws a message that would have an effect or a reply if accepted.
func (w *world) anyMsg(t term, plate string) jt.Msg {
	var id uint16
	var body []byte
	switch dict.IntRange(0, 4).Draw(w.T, "would") {
	case 0:
		id = 2
	case 1:
		id = 3
	case 2:
		id, body = 0x0100, regGen(w.T, t.ver, plate).Body(t.ver)
	case 3:
		code := "1"
		if d := w.devs[t.phone]; d != nil {
			code = d.code
		}
		if rapid.Bool().Draw(w.T, "badcode") {
			code += "9"
		}
		id, body = 0x0102, jt.AuthBody(t.ver, code, "i", "s")
	case 4:
		id, body = 0x0200, locGen.Draw(w.T, "loc").Body()
	}
	return w.msg(t, id, body)
}

// anyFrame is anyMsg, or one fragment of it.
func (w *world) anyFrame(t term, plate string) jt.Msg {
	m := w.anyMsg(t, plate)
	if len(m.Body) > 1 && dict.IntRange(0, 3).Draw(w.T, "fragment") == 0 {
		cut := dict.IntRange(1, len(m.Body)-1).Draw(w.T, "cut")
		m = m.Fragment([]int{cut, len(m.Body) - cut})[dict.IntRange(0, 1).Draw(w.T, "which")]
		w.Class("fragment")
	}
	return m
}

func TestC02(t *testing.T) {
	kinds := []string{"hb", "loc", "reg", "reg", "authok", "authok", "logout", "corrupt", "corrupt", "corrupt", "corrupt"}
	bubble(t, "C02", "histories in which damaged copies of effective messages (bit flips, changed, lost, inserted bytes, truncation, wrong check byte) are mixed among intact ones; non-trivial: at least one damaged frame was sent and one intact request answered; distinct by the whole history",
		pbt.Prop{Name: "history", Quick: 12000, Thorough: 300000, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			p := newPool(c.T, 3, 3)
			bad := 0
			w.history(p, kinds, 3, 4, map[string]func(*conn){"corrupt": func(cn *conn) {
				if !w.hasTime() {
					return
				}
				m := w.anyFrame(rapid.SampledFrom(p.terms).Draw(c.T, "term"), rapid.SampledFrom(p.plates).Draw(c.T, "plate"))
				f, what := corrupt(c.T, m.Bytes())
				c.Class(what)
				w.Tracef("conn#%d: damaged (%s) %v: %x", cn.n, what, m, f)
				w.send(cn, f)
				cn.errs++
				bad++
			}})
			w.key(bad > 0 && w.n["replies"] > 0)
		}},
		pbt.Prop{Name: "keepalive", Quick: 3000, Thorough: 60000, F: func(c *pbt.C) {
			// damaged messages do not keep a terminal alive, nor do they end it
			w := newWorld(c, aAll)
			tm, plate := terms(c.T, 1)[0], plates(c.T, 1)[0]
			cn := w.dial()
			time.Sleep(time.Duration(dict.IntRange(0, 999).Draw(c.T, "phase")) * time.Millisecond)
			online := rapid.Bool().Draw(c.T, "online")
			w.quickReg(cn, tm, plate, online)
			w.compare()
			last := time.Now()
			cn.loose = true
			w.only = true
			tr := w.track(tm.phone, cn, online, last)
			for !tr.gone {
				step := time.Duration(dict.IntRange(3, 50).Draw(c.T, "gap")) * time.Second
				tr.poll(step)
				if tr.gone {
					break
				}
				m := w.msg(tm, rapid.SampledFrom([]uint16{2, 0x0200}).Draw(c.T, "id"), nil)
				if m.H.ID == 0x0200 {
					m = w.msg(tm, 0x0200, locGen.Draw(c.T, "loc").Body())
				}
				f, what := corrupt(c.T, m.Bytes())
				w.Tracef("+%v conn#%d: damaged (%s) %v", time.Since(last), cn.n, what, m)
				w.send(cn, f)
			}
			w.key(true)
		}},
		pbt.Prop{Name: "together", Quick: 3000, Thorough: 60000, F: damagedTogether},
		pbt.Prop{Name: "persistent", Quick: 800, Thorough: 16000, F: func(c *pbt.C) { badLine(c, false) }},
	)
}

// a fragmented message in flight
type pieces struct {
	t     term
	c     *conn
	parts []jt.Msg
	order []int // indexes into parts, repetitions included
	got   map[int]bool
	done  func(c *conn, last jt.Msg) // expectation when complete
	what  string
}

func (w *world) cutSizes(n, max int) []int {
	k := dict.Count(1, max, 400).Draw(w.T, "parts")
	if k > n {
		k = n
	}
	if k < 1 {
		k = 1
	}
	sizes := make([]int, k)
	rest := n
	for i := 0; i < k-1; i++ {
		lo := max0(1, rest-1023*(k-1-i)) // the rest must fit
		hi := rest - (k - 1 - i)
		if hi > 1023 {
			hi = 1023
		}
		if lo > hi {
			lo = hi
		}
		sizes[i] = dict.IntRange(lo, hi).Draw(w.T, "size")
		rest -= sizes[i]
	}
	sizes[k-1] = rest
	return sizes
}

func max0(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// fragmented draws a message of a registered terminal cut into fragments.
func (w *world) fragmented(c *conn, t term, kind string) *pieces {
	d := w.devs[t.phone]
	p := &pieces{t: t, c: c, got: map[int]bool{}, what: kind}
	var m jt.Msg
	switch kind {
	case "loc":
		l := locGen.Draw(w.T, "loc")
		if dict.IntRange(0, 3).Draw(w.T, "long") == 0 { // longer than one frame can carry
			for i := dict.IntRange(1, 12).Draw(w.T, "blocks"); i > 0; i-- {
				v := rapid.SliceOfN(dict.Byte(), 200, 255).Draw(w.T, "block")
				l.Extra = append(append(l.Extra, 0xf0, byte(len(v))), v...)
			}
		}
		m = w.msg(t, 0x0200, l.Body())
		p.done = func(c *conn, last jt.Msg) { w.expectLocation(c, t, last, l) }
	case "auth":
		imei, soft := imeiGen(w.T), softGen(w.T)
		m = w.msg(t, 0x0102, jt.AuthBody(t.ver, d.code, imei, soft))
		p.done = func(c *conn, last jt.Msg) { w.expectAuth(c, t, last, d.code, imei, soft) }
	case "params":
		m = w.msg(t, 0x0104, append(jt.W16(nil, 1), jt.ParamList(paramsGen(900).Draw(w.T, "params"))...))
		p.done = func(c *conn, last jt.Msg) {} // no reply
	case "reg": // again, so it will be refused
		plate := d.plate
		if o := w.sortedDevs(); rapid.Bool().Draw(w.T, "taken") {
			plate = rapid.SampledFrom(o).Draw(w.T, "of").plate
		}
		r := regGen(w.T, t.ver, plate)
		m = w.msg(t, 0x0100, r.Body(t.ver))
		p.done = func(c *conn, last jt.Msg) { w.expectRegister(c, t, last, r) }
	case "media":
		n := dict.IntRange(0, 5).Draw(w.T, "nmedia")
		b := jt.W32(jt.W16(nil, 7), uint32(n))
		for i := 0; i < n; i++ {
			q := jt.MediaQuery{Channel: byte(i), Start: timeGen.Draw(w.T, "st"), End: timeGen.Draw(w.T, "en"), Alarm: dict.Uint32().Draw(w.T, "al")}
			b = append(append(b, q.Body()...), jt.W32(nil, dict.Uint32().Draw(w.T, "size"))...)
		}
		m = w.msg(t, 0x1205, b)
		p.done = func(c *conn, last jt.Msg) {}
	case "general":
		m = w.msg(t, 0x0001, jt.GeneralReply(7, 0x8103, 0))
		p.done = func(c *conn, last jt.Msg) {}
	}
	maxParts := 8
	if len(m.Body) > 1023 {
		maxParts = 20
	}
	if dict.IntRange(0, 19).Draw(w.T, "many") == 0 {
		maxParts = 600
		if kind != "loc" {
			maxParts = 40
		}
	}
	sizes := w.cutSizes(len(m.Body), maxParts)
	for _, s := range sizes {
		if s > 1023 { // too few parts were drawn
			sizes = nil
			for n := len(m.Body); n > 0; n -= 1023 {
				sizes = append(sizes, min(n, 1023))
			}
			break
		}
	}
	p.parts = m.Fragment(sizes)
	w.ClassIf(len(p.parts) > 255, "more than 255 fragments")
	if dict.IntRange(0, 3).Draw(w.T, "serials") == 0 { // serials need not be consecutive
		for i := range p.parts {
			p.parts[i].H.Serial = w.nextSerial()
		}
	}
	idx := make([]int, len(p.parts))
	for i := range idx {
		idx[i] = i
	}
	if rapid.Bool().Draw(w.T, "shuffle") {
		idx = rapid.Permutation(idx).Draw(w.T, "order")
		w.Class("out of order")
	}
	// repetitions, all before the last missing fragment
	for i := dict.IntRange(0, 2).Draw(w.T, "repeats"); i > 0 && len(idx) > 1; i-- {
		at := dict.IntRange(0, len(idx)-2).Draw(w.T, "repeat")
		to := dict.IntRange(at+1, len(idx)-1).Draw(w.T, "repeatTo")
		idx = append(idx[:to:to], append([]int{idx[at]}, idx[to:]...)...)
		w.Class("repeated fragment")
	}
	p.order = idx
	return p
}

// step sends the next fragment; true when the message is complete.
func (w *world) step(p *pieces) bool {
	i := p.order[0]
	p.order = p.order[1:]
	f := p.parts[i]
	w.Tracef("conn#%d: %s fragment %v", p.c.n, p.what, trimMsg(f))
	p.got[i] = true
	if len(p.got) == len(p.parts) {
		last := f
		last.H.Frag = false
		p.done(p.c, last)
		w.n["reassembled"]++
		w.send(p.c, f.Frame())
		return true
	}
	p.c.want(general(f, 0))
	w.send(p.c, f.Frame())
	return false
}

func trimMsg(m jt.Msg) string {
	s := fmt.Sprint(m)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func TestC07(t *testing.T) {
	bubble(t, "C07", "1-3 registered terminals sending location reports, authentications and no-reply messages in 1-20 fragments, in any order, with repetitions, interleaved with whole messages and with each other's fragments, and broken-off messages; non-trivial: a message of two or more fragments was reassembled; distinct by the whole history",
		pbt.Prop{Name: "interleaved", Quick: 8000, Thorough: 160000, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			n := dict.IntRange(1, 3).Draw(c.T, "n")
			ts, ps := uniqTerms(c.T, n), plates(c.T, n)
			for i := range ts {
				w.quickReg(w.dial(), ts[i], ps[i], rapid.Bool().Draw(c.T, "online"))
			}
			w.compare()
			cur := append([]*conn{}, w.conns...) // where each terminal talks
			multi := false
			for round := dict.IntRange(1, 3).Draw(c.T, "rounds"); round > 0; round-- {
				var flight []*pieces
				for i, tm := range ts {
					used := map[string]bool{}
					for k := dict.IntRange(0, 3).Draw(c.T, "messages"); k > 0; k-- {
						kind := rapid.SampledFrom([]string{"loc", "loc", "loc", "auth", "auth", "reg", "params", "general", "media"}).Draw(c.T, "kind")
						if used[kind] {
							continue // one message per type at a time
						}
						used[kind] = true
						p := w.fragmented(cur[i], tm, kind)
						multi = multi || len(p.parts) > 1
						w.ClassIf(len(p.parts) > 1, "kind:"+kind)
						flight = append(flight, p)
					}
				}
				for len(flight) > 0 {
					if dict.IntRange(0, 4).Draw(c.T, "whole") == 0 {
						i := dict.IntRange(0, n-1).Draw(c.T, "who")
						w.op(rapid.SampledFrom([]string{"hb", "loc", "time", "noreply"}).Draw(c.T, "op"), cur[i], ts[i], "")
					}
					if len(w.conns) < 8 && dict.IntRange(0, 11).Draw(c.T, "move") == 0 {
						// the terminal goes on on a new connection, in the middle of its messages
						i := dict.IntRange(0, n-1).Draw(c.T, "who")
						w.settle()
						old := cur[i]
						cur[i] = w.dial()
						w.Tracef("%s goes on on conn#%d", ts[i].phone, cur[i].n)
						if rapid.Bool().Draw(c.T, "hangup") {
							w.hangup(old)
						}
						w.settle()
						for _, p := range flight {
							if p.t == ts[i] {
								p.c = cur[i]
							}
						}
						w.Class("moved between fragments")
					}
					i := dict.IntRange(0, len(flight)-1).Draw(c.T, "next")
					if w.step(flight[i]) {
						flight = append(flight[:i:i], flight[i+1:]...)
					}
					if dict.IntRange(0, 2).Draw(c.T, "look") == 0 {
						w.settle()
						w.compare()
					}
				}
				w.settle()
				w.compare()
			}
			w.key(multi && w.n["reassembled"] > 0)
		}},
		pbt.Prop{Name: "broken off", Quick: 4000, Thorough: 80000, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			tm, plate := uniq(terms(c.T, 1)[0]), plates(c.T, 1)[0]
			cn := w.dial()
			w.quickReg(cn, tm, plate, true)
			multi := false
			for k := dict.IntRange(1, 4).Draw(c.T, "messages"); k > 0; k-- {
				p := w.fragmented(cn, tm, "loc")
				p.order = p.order[:0]
				for i := range p.parts {
					p.order = append(p.order, i)
				}
				stop := len(p.parts)
				if k > 1 {
					stop = dict.IntRange(0, len(p.parts)-1).Draw(c.T, "stop")
				}
				multi = multi || (k > 1 && stop > 0)
				for i := 0; i < stop; i++ {
					w.step(p)
				}
				if k > 1 && dict.IntRange(0, 2).Draw(c.T, "reconnect") == 0 {
					w.settle()
					w.hangup(cn)
					w.settle()
					cn = w.dial()
					w.op("authok", cn, tm, "")
				}
				w.settle()
				w.compare()
			}
			w.key(multi)
		}},
		pbt.Prop{Name: "misnumbered", Quick: 2500, Thorough: 50000, F: func(c *pbt.C) {
			// fragments numbered 0 or beyond the total belong to nothing
			w := newWorld(c, aAll)
			tm, plate := uniq(terms(c.T, 1)[0]), plates(c.T, 1)[0]
			cn := w.dial()
			w.quickReg(cn, tm, plate, true)
			w.compare()
			odd := w.dial() // what is answered to them is not claimed
			odd.loose = true
			wrong := 0
			for k := dict.IntRange(1, 2).Draw(c.T, "messages"); k > 0; k-- {
				p := w.fragmented(cn, tm, rapid.SampledFrom([]string{"loc", "loc", "auth", "params"}).Draw(c.T, "kind"))
				for done := false; !done; {
					for j := dict.IntRange(0, 2).Draw(c.T, "odd"); j > 0 && wrong < 12; j-- {
						f := p.parts[0]
						n := uint16(len(p.parts))
						f.H.Index = rapid.SampledFrom([]uint16{0, 0, n + 1, n + 1, n + 2, 255, 256, 65535}).Draw(c.T, "number")
						if f.H.Index > 0 && f.H.Index <= n {
							continue
						}
						f.H.Serial = w.nextSerial()
						w.Tracef("conn#%d: misnumbered fragment %v", odd.n, trimMsg(f))
						w.settle()
						w.send(odd, f.Frame())
						w.settle()
						w.compare()
						wrong++
						if odd.Closed() {
							odd.ended = true
							odd = w.dial()
							odd.loose = true
						}
					}
					done = w.step(p)
				}
				w.settle()
				w.compare()
			}
			w.key(wrong > 0 && w.n["reassembled"] > 0)
		}},
		pbt.Prop{Name: "slow", Quick: 2500, Thorough: 50000, F: slowFragments},
		pbt.Prop{Name: "big", Quick: 60, Thorough: 2000, Round: 4, F: bigFragments},
		pbt.Prop{Name: "crowd", Quick: 60, Thorough: 1200, Round: 4, F: crowdFragments},
	)
}
