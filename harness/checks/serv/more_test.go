package serv

import (
	"bytes"
	"strings"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

// together holds back what the given connections send, lets f queue it, and
// releases everything at the same moment.
func (w *world) together(cs []*conn, f func()) {
	g := make(chan struct{})
	for _, c := range cs {
		c.Gate(g)
	}
	f()
	synctest.Wait()
	close(g)
	w.settle()
}

// fleet registers n terminals, each on its own connection.
func (w *world) fleet(n int, online bool) []term {
	ts, ps := terms(w.T, n), plates(w.T, n)
	for i := range ts {
		w.quickReg(w.dial(), ts[i], ps[i], online || rapid.Bool().Draw(w.T, "online"))
	}
	return ts
}

// C02: damaged and intact frames arrive on several connections at once.
func damagedTogether(c *pbt.C) {
	w := newWorld(c, aAll)
	w.chunk = false
	ts := w.fleet(dict.IntRange(2, 5).Draw(c.T, "n"), true)
	bad := 0
	for k := dict.IntRange(1, 4).Draw(c.T, "rounds"); k > 0; k-- {
		w.together(w.conns, func() {
			for i, tm := range ts {
				for j := dict.IntRange(1, 4).Draw(c.T, "frames"); j > 0; j-- {
					if dict.IntRange(0, 2).Draw(c.T, "intact") == 0 || !w.hasTime() {
						w.op(rapid.SampledFrom([]string{"hb", "loc"}).Draw(c.T, "op"), w.conns[i], tm, "")
						continue
					}
					m := w.anyMsg(tm, "京A1")
					f, what := corrupt(c.T, m.Bytes())
					w.Tracef("conn#%d: damaged (%s) %v: %x", i, what, m, f)
					w.conns[i].Chunks(f)
					w.conns[i].errs++
					bad++
				}
			}
		})
		w.compare()
	}
	w.key(bad > 0)
}

// C11: several terminals authenticate at the same moment.
func authTogether(c *pbt.C) {
	w := newWorld(c, aAll)
	n := dict.IntRange(2, 6).Draw(c.T, "n")
	ts, ps := terms(c.T, n), plates(c.T, n)
	for i := range ts {
		w.quickReg(w.dial(), ts[i], ps[i], dict.IntRange(0, 3).Draw(c.T, "online") == 0)
	}
	w.together(w.conns, func() {
		for i, tm := range ts {
			switch dict.IntRange(0, 3).Draw(c.T, "kind") {
			case 0:
				o := w.devs[rapid.SampledFrom(ts).Draw(c.T, "of").phone]
				if o != nil {
					w.auth(w.conns[i], tm, o.code, imeiGen(c.T), softGen(c.T)) // perhaps another terminal's code
				}
			case 1:
				w.op("authbad", w.conns[i], tm, "")
			default:
				w.op("authok", w.conns[i], tm, "")
			}
		}
	})
	w.compare()
	for i, tm := range ts {
		if w.devs[tm.phone] != nil {
			w.op("authok", w.conns[i], tm, "")
		}
	}
	w.settle()
	w.compare()
	w.key(w.n["auth ok"] > 0)
}

// C16: terminals report at the same moment.
func reportTogether(c *pbt.C) {
	w := newWorld(c, aAll)
	ts := w.fleet(dict.IntRange(2, 6).Draw(c.T, "n"), false)
	for k := dict.IntRange(1, 4).Draw(c.T, "rounds"); k > 0; k-- {
		w.together(w.conns, func() {
			for i, tm := range ts {
				for j := dict.IntRange(1, 5).Draw(c.T, "reports"); j > 0; j-- {
					w.op("loc", w.conns[i], tm, "")
				}
			}
		})
		w.compare()
	}
	w.history100()
	w.key(true)
}

// C16: far more reports than the history holds.
func reportLong(c *pbt.C) {
	w := newWorld(c, aGeo)
	w.chunk = false
	ts := w.fleet(1, true)
	base := locGen.Draw(c.T, "base")
	n := dict.IntRange(800, 2500).Draw(c.T, "count")
	w.Tracef("%d reports", n)
	w.Quiet(func() {
		for s := 0; s < n; s++ {
			l := base
			l.Lat = uint32(s) * 17
			l.Speed = uint16(s)
			w.location(w.conns[0], ts[0], l)
			if s%97 == 0 {
				w.settle()
				w.compareGeo()
			}
		}
		w.settle()
	})
	w.compare()
	w.history100()
	c.NonTrivial("%d %v", n, base)
}

// C08: a long burst of requests on each of several connections.
func longBurst(c *pbt.C) {
	w := newWorld(c, aDir|aSess)
	ts := w.fleet(dict.IntRange(1, 4).Draw(c.T, "n"), true)
	n := dict.IntRange(10, 150).Draw(c.T, "requests")
	w.together(w.conns, func() {
		for j := 0; j < n; j++ {
			i := dict.IntRange(0, len(ts)-1).Draw(c.T, "who")
			w.op(rapid.SampledFrom([]string{"hb", "hb", "loc", "time", "noreply", "authok"}).Draw(c.T, "op"), w.conns[i], ts[i], "")
		}
	})
	w.compare()
	w.key(true)
}

// C08: thousands of requests on one connection.
func endless(c *pbt.C) {
	w := newWorld(c, aDir|aSess)
	ts := w.fleet(dict.IntRange(1, 2).Draw(c.T, "n"), true)
	n := rapid.OneOf(dict.IntRange(200, 700), dict.IntRange(200, 3000)).Draw(c.T, "requests")
	ops := rapid.SampledFrom([][]string{{"hb"}, {"time"}, {"hb", "loc"}, {"hb", "hb", "hb", "loc", "time", "noreply", "authok"}}).Draw(c.T, "ops")
	w.Tracef("%d requests of %v", n, ops)
	w.Quiet(func() {
		for k := 0; k < n; k++ {
			i := dict.IntRange(0, len(ts)-1).Draw(c.T, "who")
			w.op(rapid.SampledFrom(ops).Draw(c.T, "op"), w.conns[i], ts[i], "")
			if k%20 == 0 {
				w.settle()
			}
		}
		w.settle()
	})
	w.compare()
	c.NonTrivial("%d %v %v", n, ops, ts)
}

// C07: a message much longer than a frame.
// longCode authenticates with the issued code followed by much more, in
// fragments: a code that only begins with the right one is a wrong one.
func longCode(c *pbt.C) {
	w := newWorld(c, aAll)
	w.chunk = false
	tm, plate := uniq(terms(c.T, 1)[0]), plates(c.T, 1)[0]
	if tm.ver == jt.V2019 { // its code has a length of its own
		tm.ver, tm.proto, tm.phone = jt.V2013, 0, tm.phone[len(tm.phone)-12:]
	}
	cn := w.dial()
	w.quickReg(cn, tm, plate, rapid.Bool().Draw(c.T, "authenticated"))
	d := w.devs[tm.phone]
	more := rapid.OneOf(rapid.SampledFrom([]int{1024, 2048, 4096, 32768, 65536, 131072}), dict.IntRange(1, 3000)).Draw(c.T, "more")
	code := d.code + strings.Repeat(rapid.SampledFrom([]string{"0", " ", "\x00", "x"}).Draw(c.T, "pad"), more)
	m := w.msg(tm, 0x0102, []byte(code))
	var sizes []int
	for n := len(m.Body); n > 0; n -= 1000 {
		sizes = append(sizes, min(n, 1000))
	}
	p := &pieces{t: tm, c: cn, got: map[int]bool{}, what: "auth", parts: m.Fragment(sizes), order: upto(len(sizes)), done: func(c *conn, last jt.Msg) { w.expectAuth(c, tm, last, code, "", "") }}
	w.Tracef("the code and %d bytes more in %d fragments", more, len(sizes))
	w.Quiet(func() {
		for k := 0; !w.step(p); k++ {
			if k%20 == 0 {
				w.settle()
			}
		}
		w.settle()
	})
	w.compare()
	w.ClassIf(more >= 65536, "over 64 KB")
	w.NonTrivial("%v %d %d", tm, more, p.parts[0].H.Serial)
}

func bigFragments(c *pbt.C) {
	w := newWorld(c, aAll)
	w.chunk = false
	tm, plate := uniq(terms(c.T, 1)[0]), plates(c.T, 1)[0]
	cn := w.dial()
	w.quickReg(cn, tm, plate, true)
	l := locGen.Draw(c.T, "loc")
	for i := rapid.OneOf(dict.IntRange(10, 200), dict.IntRange(200, 1200)).Draw(c.T, "blocks"); i > 0; i-- {
		l.Extra = append(append(l.Extra, 0xf0, 250), bytes.Repeat([]byte{byte(i)}, 250)...)
	}
	m := w.msg(tm, 0x0200, l.Body())
	max := rapid.SampledFrom([]int{1023, 1023, 1000, 512, 300}).Draw(c.T, "size")
	var sizes []int
	for n := len(m.Body); n > 0; n -= max {
		sizes = append(sizes, min(n, max))
	}
	p := &pieces{t: tm, c: cn, got: map[int]bool{}, what: "loc", parts: m.Fragment(sizes), order: upto(len(sizes)), done: func(c *conn, last jt.Msg) { w.expectLocation(c, tm, last, l) }}
	switch dict.IntRange(0, 2).Draw(c.T, "order") {
	case 1:
		for i, j := 0, len(p.order)-1; i < j; i, j = i+1, j-1 {
			p.order[i], p.order[j] = p.order[j], p.order[i]
		}
	case 2: // rotated
		k := dict.IntRange(0, len(p.order)-1).Draw(c.T, "from")
		p.order = append(append([]int{}, p.order[k:]...), p.order[:k]...)
	}
	w.Tracef("%d bytes in %d fragments from %d", len(m.Body), len(sizes), p.order[0])
	w.ClassIf(len(m.Body) > 65535, "over 64 KB")
	w.Quiet(func() {
		for k := 0; ; k++ {
			if w.step(p) {
				break
			}
			if k%20 == 0 {
				w.settle()
			}
		}
		w.settle()
	})
	w.compare()
	w.op("hb", cn, tm, "")
	w.settle()
	w.compare()
	w.NonTrivial("%v %d %d %d", tm, len(m.Body), max, p.parts[0].H.Serial)
}

// C07: time passes between the fragments, or two connections carry them.
func slowFragments(c *pbt.C) {
	w := newWorld(c, aAll)
	n := dict.IntRange(1, 2).Draw(c.T, "n")
	ts, ps := uniqTerms(c.T, n), plates(c.T, n)
	for i := range ts {
		w.quickReg(w.dial(), ts[i], ps[i], true)
	}
	var flight []*pieces
	for i, tm := range ts {
		p := w.fragmented(w.conns[i], tm, rapid.SampledFrom([]string{"loc", "auth", "params"}).Draw(c.T, "kind"))
		flight = append(flight, p)
	}
	steps, waited := 0, time.Duration(0)
	for len(flight) > 0 {
		if steps++; steps < 30 && rapid.Bool().Draw(c.T, "wait") {
			d := time.Duration(dict.IntRange(0, 50000).Draw(c.T, "ms")) * time.Millisecond
			if steps < 8 && dict.IntRange(0, 11).Draw(c.T, "long") == 0 {
				// minutes to hours, the terminals stay in touch
				k := rapid.OneOf(dict.IntRange(2, 40), dict.IntRange(2, 200)).Draw(c.T, "beats")
				w.Tracef("%d heartbeats, one every %v", k, d)
				w.Quiet(func() {
					for ; k > 0; k-- {
						time.Sleep(d)
						for i, tm := range ts {
							w.op("hb", w.conns[i], tm, "")
						}
						w.settle()
					}
				})
			}
			w.Tracef("%v pass", d)
			time.Sleep(d)
			waited += d
			for i, tm := range ts {
				w.op("hb", w.conns[i], tm, "")
			}
			w.settle()
			w.compare()
		}
		i := dict.IntRange(0, len(flight)-1).Draw(c.T, "next")
		if w.step(flight[i]) {
			flight = append(flight[:i:i], flight[i+1:]...)
		}
	}
	w.settle()
	w.compare()
	w.key(w.n["reassembled"] > 0 && waited > 0)
}

// C14: a terminal that talks a lot, and one that runs very long.
func chatty(c *pbt.C) {
	w := newWorld(c, aAll)
	ts := w.fleet(dict.IntRange(1, 2).Draw(c.T, "n"), true)
	maxGap := rapid.SampledFrom([]int{50, 3000, 59900}).Draw(c.T, "pace")
	n := dict.IntRange(100, 500).Draw(c.T, "messages")
	kind := rapid.SampledFrom([]string{"hb", "loc", "authok", "mixed"}).Draw(c.T, "kind")
	last := make([]time.Time, len(ts))
	for i := range last {
		last[i] = time.Now()
	}
	w.Tracef("%d messages (%s), gaps up to %d ms", n, kind, maxGap)
	w.Quiet(func() {
		for k := 0; k < n; k++ {
			i := k % len(ts)
			gap := time.Duration(dict.IntRange(1, maxGap).Draw(c.T, "gap")) * time.Millisecond
			if gap > time.Second && rapid.Bool().Draw(c.T, "whole") {
				gap = gap.Truncate(time.Second)
			}
			if until := time.Until(last[i].Add(59900 * time.Millisecond)); gap > until {
				gap = until
			}
			// nobody may be silent too long
			for j := range ts {
				if u := time.Until(last[j].Add(59900 * time.Millisecond)); j != i && gap > u {
					gap, i = u, j
				}
			}
			time.Sleep(gap)
			op := kind
			if kind == "mixed" {
				op = rapid.SampledFrom([]string{"hb", "loc", "authok"}).Draw(c.T, "op")
			}
			w.op(op, w.conns[i], ts[i], "")
			last[i] = time.Now()
			w.settle()
			w.compare()
			for j := range ts {
				d, err := storage.GetDeviceCache().GetDeviceByPhone(ts[j].phone)
				if err != nil || d.Status == model.DeviceStatusOffline || w.conns[j].Closed() {
					w.Fatalf("%s kept talking (%s, message %d) but was dropped: %v", ts[j].phone, op, k, err)
				}
			}
		}
	})
	c.NonTrivial("%d %s %d %v", n, kind, maxGap, ts)
}

// C15: a fleet falls silent at about the same time.
func silentFleet(c *pbt.C) {
	w := newWorld(c, aAll)
	n := dict.IntRange(4, 25).Draw(c.T, "n")
	ts, ps := terms(c.T, n), plates(c.T, n)
	var trs []*tracker
	for i := range ts {
		cn := w.dial()
		authed := dict.IntRange(0, 2).Draw(c.T, "authed") > 0
		if dict.IntRange(0, 3).Draw(c.T, "pause") == 0 {
			time.Sleep(time.Duration(dict.IntRange(0, 2000).Draw(c.T, "ms")) * time.Millisecond)
		}
		w.quickReg(cn, ts[i], ps[i], authed)
		trs = append(trs, w.track(ts[i].phone, cn, authed, time.Now()))
	}
	w.compare()
	stay := map[int]bool{}
	for i := range ts {
		if dict.IntRange(0, 3).Draw(c.T, "stays") == 0 {
			stay[i] = true // keeps talking
			if !trs[i].authed {
				w.op("authok", trs[i].conn, ts[i], "")
				w.settle()
			}
		} else {
			trs[i].conn.loose = true
			delete(w.devs, ts[i].phone)
		}
	}
	w.only = true
	next := time.Now().Add(30 * time.Second)
	for left := 1; left > 0; {
		time.Sleep(time.Duration(dict.IntRange(500, 8000).Draw(c.T, "poll")) * time.Millisecond)
		synctest.Wait()
		if time.Now().After(next) {
			for i := range ts {
				if stay[i] {
					w.op("hb", trs[i].conn, ts[i], "")
				}
			}
			next = time.Now().Add(30 * time.Second)
		}
		w.settle()
		left = 0
		for i, tr := range trs {
			if stay[i] {
				continue
			}
			if !tr.gone {
				tr.look()
			}
			if !tr.gone {
				left++
			}
		}
		w.compare()
	}
	w.only = false
	for _, tr := range trs {
		if tr.gone {
			tr.conn.loose, tr.conn.ended = false, true
			tr.conn.Take()
		}
	}
	w.settle()
	w.compare()
	w.key(len(stay) < n)
}

// C12: several unregistered phones at once on their own connections.
func strangersTogether(c *pbt.C) {
	w := newWorld(c, aAll)
	n := dict.IntRange(1, 3).Draw(c.T, "n")
	m := dict.IntRange(1, 5).Draw(c.T, "strangers")
	ts, ps := terms(c.T, n+m), plates(c.T, n+m)
	for i := 0; i < n; i++ {
		w.quickReg(w.dial(), ts[i], ps[i], true)
	}
	for i := 0; i < m; i++ {
		w.dial()
	}
	w.together(w.conns, func() {
		for i, tm := range ts {
			if i < n {
				for k := dict.IntRange(1, 3).Draw(c.T, "k"); k > 0; k-- {
					w.op(rapid.SampledFrom([]string{"hb", "loc", "authok"}).Draw(c.T, "op"), w.conns[i], tm, "")
				}
			} else {
				w.op(rapid.SampledFrom([]string{"hb", "logout", "authok", "loc"}).Draw(c.T, "op"), w.conns[i], tm, "")
			}
		}
	})
	w.compare()
	i := n + dict.IntRange(0, m-1).Draw(c.T, "back")
	w.quickReg(w.dial(), ts[i], ps[i], true)
	w.compare()
	w.key(true)
}

// C13: logouts of several terminals at once, others talking.
func logoutTogether(c *pbt.C) {
	w := newWorld(c, aAll|aJobs)
	n := dict.IntRange(2, 6).Draw(c.T, "n")
	ts, ps := terms(c.T, n), plates(c.T, n)
	for i := range ts {
		w.quickReg(w.dial(), ts[i], ps[i], rapid.Bool().Draw(c.T, "online"))
		if rapid.Bool().Draw(c.T, "loc") {
			w.op("loc", w.conns[i], ts[i], "")
		}
	}
	w.settle()
	left := 0
	w.together(w.conns, func() {
		for i, tm := range ts {
			if rapid.Bool().Draw(c.T, "leaves") {
				w.op("logout", w.conns[i], tm, "")
				left++
			} else {
				w.op(rapid.SampledFrom([]string{"hb", "loc", "authok"}).Draw(c.T, "op"), w.conns[i], tm, "")
			}
		}
	})
	w.compare()
	for i, tm := range ts {
		if w.devs[tm.phone] == nil {
			w.quickReg(w.conns[i], tm, ps[i], false)
		}
	}
	w.compare()
	w.key(left > 0)
}

// C09: a large fleet with one conflicting registration after another.
func manyRegistered(c *pbt.C) {
	w := newWorld(c, aDir)
	w.chunk = false
	n := dict.IntRange(20, 150).Draw(c.T, "n")
	if dict.IntRange(0, 19).Draw(c.T, "huge") == 0 {
		n = dict.IntRange(300, 1300).Draw(c.T, "n")
	}
	seed := dict.IntRange(0, 1<<30).Draw(c.T, "base")
	var ts []term
	var ps []string
	for i := 0; i < n; i++ {
		t := term{phone: digitsOf(seed+i*7919, 12), ver: jt.V2013}
		if i%3 == 1 {
			t = term{phone: digitsOf(seed+i*7919, 20), ver: jt.V2019, proto: 1}
		}
		ts, ps = append(ts, t), append(ps, "京"+digitsOf(i, 5))
	}
	w.Tracef("%d terminals", n)
	cn := w.dial()
	r := regGen(c.T, jt.V2011, "x")
	w.Quiet(func() {
		for i, t := range ts {
			r.Plate = ps[i]
			w.register(cn, t, r)
			if i%16 == 0 {
				w.settle()
			}
		}
		w.settle()
		w.compare()
	})
	for k := dict.Count(2, 20, 200).Draw(c.T, "steps"); k > 0; k-- {
		i, j := dict.IntRange(0, n-1).Draw(c.T, "i"), dict.IntRange(0, n-1).Draw(c.T, "j")
		if dict.IntRange(0, 3).Draw(c.T, "leave") == 0 {
			if w.devs[ts[i].phone] != nil {
				w.op("logout", cn, ts[i], "")
			}
		} else {
			w.op("reg", cn, ts[i], ps[j])
		}
		w.settle()
	}
	w.compare()
	w.key(w.n["reg refused"] > 0)
}

func digitsOf(n, width int) string {
	b := make([]byte, width)
	for i := width - 1; i >= 0; i-- {
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b)
}

// C07: many terminals have an incomplete message at the same time.
func crowdFragments(c *pbt.C) {
	w := newWorld(c, aDir|aGeo)
	w.chunk = false
	n := rapid.OneOf(dict.IntRange(4, 40), dict.IntRange(30, 150)).Draw(c.T, "n")
	nc := dict.IntRange(1, 4).Draw(c.T, "conns")
	for i := 0; i < nc; i++ {
		w.dial()
	}
	r := regGen(c.T, jt.V2011, "x")
	base := locGen.Draw(c.T, "base")
	parts := dict.IntRange(2, 5).Draw(c.T, "parts")
	early := dict.IntRange(1, parts-1).Draw(c.T, "early") // fragments sent before anybody completes
	pause := time.Duration(dict.IntRange(0, 20).Draw(c.T, "pause")) * time.Second
	w.Tracef("%d terminals on %d connections, %d fragments each, %d of them before the pause", n, nc, parts, early)
	var ps []*pieces
	w.Quiet(func() {
		for i := 0; i < n; i++ {
			t := uniq(term{phone: "000000000000", ver: jt.V2013})
			if i%3 == 1 {
				t = uniq(term{phone: "00000000000000000000", ver: jt.V2019, proto: 1})
			}
			cn := w.conns[i%nc]
			r.Plate = "京" + digitsOf(i, 5)
			w.register(cn, t, r)
			if i%16 == 15 {
				w.settle()
			}
			l := base
			l.Lat += uint32(i) * 17
			l.Lon -= uint32(i) * 3
			m := w.msg(t, 0x0200, l.Body())
			sizes := make([]int, parts)
			for k := range sizes {
				sizes[k] = len(m.Body) / parts
			}
			sizes[parts-1] += len(m.Body) % parts
			p := &pieces{t: t, c: cn, got: map[int]bool{}, what: "loc", parts: m.Fragment(sizes), done: func(c *conn, last jt.Msg) { w.expectLocation(c, t, last, l) }}
			for k := range p.parts {
				p.order = append(p.order, (k+i)%parts)
			}
			ps = append(ps, p)
		}
		w.settle()
		for k := 0; k < early; k++ {
			for i, p := range ps {
				w.step(p)
				if i%16 == 15 {
					w.settle()
				}
			}
		}
		w.settle()
		w.compare()
		time.Sleep(pause)
		idx := rapid.Permutation(upto(n)).Draw(c.T, "order")
		for k := early; k < parts; k++ {
			for j, i := range idx {
				w.step(ps[i])
				if j%16 == 15 {
					w.settle()
				}
			}
		}
		w.settle()
		w.compare()
	})
	w.key(true)
}

func upto(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// C02, C08: a bad line. A connection delivers damaged frames (or frames of
// unsupported messages) again and again, with intact requests in between: each
// of those is served, however many of the others there were.
func badLine(c *pbt.C, unsup bool) {
	w := newWorld(c, aAll)
	ts := w.fleet(dict.IntRange(1, 2).Draw(c.T, "n"), true)
	good := []string{"hb", "hb", "loc", "time", "authok"}
	if unsup {
		good = append(good, "noreply")
	}
	bad := 0
	for round := dict.IntRange(1, 6).Draw(c.T, "rounds"); round > 0; round-- {
		for i, tm := range ts {
			cn := w.conns[i]
			if dict.IntRange(0, 4).Draw(c.T, "clean") == 0 {
				continue
			}
			// each costs the connection a second, and the terminal has to be
			// heard once in a period
			for k := dict.IntRange(1, 25).Draw(c.T, "bad"); k > 0; k-- {
				bad++
				if unsup {
					w.unsupported(cn, tm)
					continue
				}
				m := w.anyFrame(tm, w.devs[tm.phone].plate)
				f, what := corrupt(c.T, m.Bytes())
				c.Class(what)
				w.Tracef("conn#%d: damaged (%s) %v", cn.n, what, trimMsg(m))
				w.send(cn, f)
				cn.errs++
			}
		}
		for i, tm := range ts {
			w.op("hb", w.conns[i], tm, "")
			for k := dict.IntRange(0, 3).Draw(c.T, "good"); k > 0; k-- {
				w.op(rapid.SampledFrom(good).Draw(c.T, "op"), w.conns[i], tm, "")
			}
		}
		w.settle()
		w.compare()
	}
	w.ClassIf(bad > 50, "more than 50 bad frames")
	w.key(bad > 0 && w.n["replies"] > 0)
}

// C09: claims on the phone or plate of a silent terminal are refused, and the
// registration ends when it would have ended without them.
func refusedWhileSilent(c *pbt.C) {
	w := newWorld(c, aAll)
	ts, ps := terms(c.T, 2), plates(c.T, 2)
	tm, plate := ts[0], ps[0]
	cn := w.dial()
	time.Sleep(time.Duration(dict.IntRange(0, 999).Draw(c.T, "phase")) * time.Millisecond)
	online := rapid.Bool().Draw(c.T, "online")
	w.quickReg(cn, tm, plate, online)
	w.compare()
	tr := w.track(tm.phone, cn, online, time.Now())
	w.only, cn.loose = true, true
	claims := 0
	for !tr.gone {
		tr.poll(time.Duration(dict.IntRange(3, 50).Draw(c.T, "gap")) * time.Second)
		if tr.gone {
			break
		}
		claimant, want := tm, plate
		switch dict.IntRange(0, 2).Draw(c.T, "claim") {
		case 0:
			claimant = ts[1]
		case 1:
			want = ps[1]
		}
		if dict.IntRange(0, 2).Draw(c.T, "fresh") > 0 {
			w.register(w.dial(), claimant, regGen(c.T, claimant.ver, want))
			w.settle()
		} else { // on its own connection
			r := regGen(c.T, claimant.ver, want)
			w.Tracef("conn#%d: register %s plate=%q", cn.n, claimant.phone, want)
			w.send(cn, w.msg(claimant, 0x0100, r.Body(claimant.ver)).Frame())
			synctest.Wait()
			msgs, _, _ := jt.ParseStream(cn.Take())
			if len(msgs) != 1 || msgs[0].H.ID != 0x8100 || len(msgs[0].Body) < 3 || msgs[0].Body[2] == 0 {
				w.Fatalf("the registration of a taken phone or plate is answered by %v", msgs)
			}
		}
		claims++
	}
	w.key(claims > 0)
}

// offlineThen: terminals that fell silent long enough to be shown offline but
// are still registered, and then speak again: whatever they or others send is
// served, refused or undone as for any registered terminal. kinds are the
// operations of the second phase.
func offlineThen(kinds []string) func(*pbt.C) {
	return func(c *pbt.C) {
		w := newWorld(c, aAll|aJobs)
		n := dict.IntRange(1, 3).Draw(c.T, "n")
		p := pool{terms(c.T, n+1), plates(c.T, n+1)}
		var trs []*tracker
		for i := 0; i < n; i++ {
			time.Sleep(time.Duration(dict.IntRange(0, 20000).Draw(c.T, "phase")) * time.Millisecond)
			cn := w.dial()
			w.quickReg(cn, p.terms[i], p.plates[i], true)
			for k := dict.IntRange(0, 3).Draw(c.T, "before"); k > 0; k-- {
				w.op(rapid.SampledFrom([]string{"loc", "hb"}).Draw(c.T, "kind"), cn, p.terms[i], "")
			}
			w.settle()
			trs = append(trs, w.track(p.terms[i].phone, cn, true, time.Now()))
		}
		w.compare()
		// silence until at least one is offline, and perhaps a little longer
		look := func() (off int) {
			for _, tr := range trs {
				if !tr.gone {
					tr.look()
				}
				if tr.offline {
					off++
				}
			}
			return off
		}
		extra := time.Duration(dict.IntRange(0, 25000).Draw(c.T, "extra")) * time.Millisecond
		for look() == 0 {
			time.Sleep(time.Duration(dict.IntRange(200, 4000).Draw(c.T, "poll")) * time.Millisecond)
			synctest.Wait()
		}
		time.Sleep(extra)
		synctest.Wait()
		look()
		off := 0
		for _, tr := range trs {
			if tr.gone {
				// removed after two periods of silence
				tr.conn.ended = true
				continue
			}
			if tr.offline {
				w.devs[tr.phone].status = 0
				off++
			}
		}
		w.collect()
		w.compare()
		// no virtual time passes from here on
		for i := dict.IntRange(1, 8).Draw(c.T, "bursts"); i > 0; i-- {
			cn := w.pickConn(n + 2)
			for b := dict.IntRange(1, 3).Draw(c.T, "burst"); b > 0; b-- {
				t := rapid.SampledFrom(p.terms).Draw(c.T, "term")
				k := rapid.SampledFrom(kinds).Draw(c.T, "op")
				if d := w.devs[t.phone]; d != nil && d.status == 0 && (k == "hb" || k == "loc") {
					d.vague = true // whether that alone puts it online is not claimed
				}
				ok := w.op(k, cn, t, rapid.SampledFrom(p.plates).Draw(c.T, "plate"))
				if !ok {
					break
				}
			}
			w.settle()
			w.compare()
		}
		w.key(off > 0)
	}
}

// marathon: a terminal talks for hours or days, then falls silent: nothing
// happens to it before, and it goes the usual way after.
func marathon(c *pbt.C) {
	w := newWorld(c, aDir|aGeo)
	w.chunk = false
	ts := w.fleet(dict.IntRange(1, 2).Draw(c.T, "n"), true)
	gap := time.Duration(rapid.OneOf(dict.IntRange(20000, 59900), rapid.SampledFrom([]int{30000, 59000, 59900})).Draw(c.T, "gap")) * time.Millisecond
	hours := rapid.OneOf(dict.IntRange(1, 8), dict.IntRange(8, 75)).Draw(c.T, "hours")
	kind := rapid.SampledFrom([]string{"hb", "loc", "authok", "all"}).Draw(c.T, "kind")
	l := locGen.Draw(c.T, "loc")
	d := w.devs[ts[0].phone]
	imei, soft := imeiGen(c.T), softGen(c.T)
	n := int(time.Duration(hours) * time.Hour / gap)
	w.Tracef("%s talks for %d h: %s every %v", ts[0].phone, hours, kind, gap)
	serial := dict.Uint16().Draw(c.T, "serial0")
	var last time.Time
	w.Quiet(func() {
		for k := 0; k < n; k++ {
			time.Sleep(gap)
			for i, t := range ts {
				serial++
				op := kind
				if op == "all" {
					op = []string{"hb", "loc", "authok"}[k%3]
				}
				m := jt.New(2, t.ver, t.proto, t.phone, serial, nil)
				switch op {
				case "loc":
					l.Lat = uint32(k)
					m = jt.New(0x0200, t.ver, t.proto, t.phone, serial, l.Body())
					w.expectLocation(w.conns[i], t, m, l)
				case "authok":
					m = jt.New(0x0102, t.ver, t.proto, t.phone, serial, jt.AuthBody(t.ver, w.devs[t.phone].code, imei, soft))
					w.expectAuth(w.conns[i], t, m, w.devs[t.phone].code, imei, soft)
				default:
					w.expectSimple(w.conns[i], t, m)
				}
				w.conns[i].Chunks(m.Frame())
			}
			last = time.Now()
			w.settle()
			if k%16 == 0 || k > n-3 {
				w.compare()
			}
		}
	})
	w.compare()
	tr := w.track(d.phone, w.conns[0], true, last)
	w.only = true
	for _, cn := range w.conns {
		cn.loose = true
	}
	tr.poll(4 * period)
	if !tr.gone {
		w.Fatalf("%s, silent after %d h, was never removed", d.phone, hours)
	}
	c.NonTrivial("%v %v %d %s", ts, gap, hours, kind)
}

// C13: fragments of a message that was not complete when the terminal left do
// not become part of a message of the next one with its phone number.
func unfinished(c *pbt.C) {
	w := newWorld(c, aAll)
	ts, ps := terms(c.T, 2), plates(c.T, 2)
	tm := uniq(ts[0])
	cn := w.dial()
	w.quickReg(cn, tm, ps[0], rapid.Bool().Draw(c.T, "online"))
	kind := rapid.SampledFrom([]string{"loc", "loc", "auth", "params", "reg"}).Draw(c.T, "kind")
	p := w.fragmented(cn, tm, kind)
	if len(p.parts) < 2 {
		return
	}
	k := dict.IntRange(1, len(p.parts)-1).Draw(c.T, "sent")
	for _, i := range rapid.Permutation(span(len(p.parts))).Draw(c.T, "which")[:k] {
		p.order = []int{i}
		w.step(p)
	}
	w.settle()
	w.compare()
	leave := rapid.SampledFrom([]string{"logout", "logout", "authbad", "silence"}).Draw(c.T, "leave")
	c.Class("leaves by " + leave)
	if leave == "silence" {
		tr := w.track(tm.phone, cn, w.devs[tm.phone].status != 0, time.Now())
		w.only, cn.loose = true, true
		tr.poll(4 * period)
		if !tr.gone {
			w.Fatalf("%s was never removed", tm.phone)
		}
		w.only, cn.ended = false, true
	} else {
		w.op(leave, cn, tm, "")
	}
	w.settle()
	w.compare()
	if cn.ended || rapid.Bool().Draw(c.T, "elsewhere") {
		cn = w.dial()
	}
	// the same phone again; the rest of the old message completes nothing
	w.quickReg(cn, tm, ps[dict.IntRange(0, 1).Draw(c.T, "plate")], rapid.Bool().Draw(c.T, "online2"))
	w.compare()
	for i := range p.parts {
		if !p.got[i] {
			f := p.parts[i]
			w.Tracef("conn#%d: %s fragment %v", cn.n, p.what, trimMsg(f))
			cn.want(general(f, 0))
			w.send(cn, f.Frame())
		}
	}
	w.settle()
	w.compare()
	c.Class("left with fragments outstanding")
	w.key(true)
}

// C13: terminals leave while others are in the middle of a message.
func othersUnfinished(c *pbt.C) {
	w := newWorld(c, aAll)
	n := dict.IntRange(2, 4).Draw(c.T, "n")
	ts, ps := uniqTerms(c.T, n), plates(c.T, n)
	cur := make([]*conn, n)
	for i := range ts {
		cur[i] = w.dial()
		w.quickReg(cur[i], ts[i], ps[i], rapid.Bool().Draw(c.T, "online"))
	}
	stay := dict.IntRange(1, n-1).Draw(c.T, "stay")
	var flight []*pieces
	for i := 0; i < n; i++ {
		p := w.fragmented(cur[i], ts[i], rapid.SampledFrom([]string{"loc", "loc", "auth", "params"}).Draw(c.T, "kind"))
		if i >= stay && (len(p.parts) < 2 || rapid.Bool().Draw(c.T, "nothing sent")) {
			continue
		}
		k := dict.IntRange(0, len(p.parts)-1).Draw(c.T, "sent")
		for len(p.got) < len(p.parts)-1 && k > 0 && len(p.order) > 0 {
			w.step(p)
			k--
		}
		if i < stay && len(p.got) < len(p.parts) {
			w.n["pending"] += min(len(p.got), 1)
			flight = append(flight, p)
		}
	}
	w.settle()
	w.compare()
	for i := stay; i < n; i++ {
		w.op("logout", cur[i], ts[i], "")
		if rapid.Bool().Draw(c.T, "settle") {
			w.settle()
			w.compare()
		}
		if len(flight) > 0 && rapid.Bool().Draw(c.T, "between") {
			if w.step(flight[0]) {
				flight = flight[1:]
			}
		}
	}
	w.settle()
	w.compare()
	for _, p := range flight {
		for !w.step(p) {
		}
	}
	w.settle()
	w.compare()
	w.key(w.n["pending"] > 0 && w.n["reassembled"] > 0)
}

func span(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// C13: terminals log out and register again in the same breath, several of
// them at once; each ends up with exactly what its last message left it.
func backToBack(c *pbt.C) {
	w := newWorld(c, aAll|aJobs)
	w.chunk = rapid.Bool().Draw(c.T, "chunked")
	n := dict.IntRange(1, 3).Draw(c.T, "n")
	ts, ps := terms(c.T, n), plates(c.T, n)
	for i := range ts {
		w.quickReg(w.dial(), ts[i], ps[i], true)
	}
	cycles := dict.IntRange(1, 12).Draw(c.T, "cycles")
	w.together(w.conns, func() {
		for i, tm := range ts {
			for k := 0; k < cycles; k++ {
				if rapid.Bool().Draw(c.T, "report first") {
					w.op("loc", w.conns[i], tm, "")
				}
				w.op("logout", w.conns[i], tm, "")
				w.op("reg", w.conns[i], tm, ps[i])
				if rapid.Bool().Draw(c.T, "online again") {
					w.op("authok", w.conns[i], tm, "")
				}
			}
			if dict.IntRange(0, 3).Draw(c.T, "gone at last") == 0 {
				w.op("logout", w.conns[i], tm, "")
			}
		}
	})
	w.compare()
	w.key(true)
}
