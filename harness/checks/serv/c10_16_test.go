package serv

import (
	"bytes"
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

// claim is one registration of a concurrent batch.
type claim struct {
	c     *conn
	t     term
	r     jt.Reg
	m     jt.Msg
	res   byte
	code  string
	round int
}

// race lets a batch of registrations arrive at the same moment and checks
// that the outcome equals some sequential order.
func (w *world) race(batch []*claim) {
	g := make(chan struct{})
	byConn := map[*conn][]*claim{}
	var conns []*conn
	for _, k := range batch {
		if byConn[k.c] == nil {
			conns = append(conns, k.c)
			k.c.Gate(g)
		}
		byConn[k.c] = append(byConn[k.c], k)
		k.m = w.msg(k.t, 0x0100, k.r.Body(k.t.ver))
		w.Tracef("conn#%d: register %s v%s plate=%q id=%q", k.c.n, k.t.phone, k.t.ver, k.r.Plate, k.r.ID)
		k.c.Chunks(k.m.Frame())
	}
	synctest.Wait()
	close(g)
	synctest.Wait()
	accepted := map[string]*claim{}
	plate := map[string]*claim{}
	for _, d := range w.devs {
		accepted[d.phone] = nil
		plate[d.plate] = nil
	}
	var refusedC []*claim
	for _, c := range conns {
		msgs, rest, err := jt.ParseStream(c.Take())
		if err != nil || len(rest) > 0 || len(msgs) != len(byConn[c]) {
			w.Fatalf("conn#%d: %d registrations, answers %v, rest %x, %v", c.n, len(byConn[c]), msgs, rest, err)
		}
		for i, k := range byConn[c] {
			g := msgs[i]
			w.Tracef("  server -> conn#%d: %v", c.n, g)
			if err := replyHead(k.m, 0x8100)(g); err != nil {
				w.Fatalf("conn#%d: %v", c.n, err)
			}
			if len(g.Body) < 3 || !bytes.Equal(g.Body[:2], jt.W16(nil, k.m.H.Serial)) {
				w.Fatalf("conn#%d: answer %v does not match the request", c.n, g)
			}
			k.res, k.code = g.Body[2], string(g.Body[3:])
			if k.res != 0 {
				refusedC = append(refusedC, k)
				continue
			}
			if _, taken := accepted[k.t.phone]; taken {
				w.Fatalf("phone %s was granted although it is registered", k.t.phone)
			}
			if _, taken := plate[k.r.Plate]; taken {
				w.Fatalf("plate %q was granted although it is registered", k.r.Plate)
			}
			accepted[k.t.phone], plate[k.r.Plate] = k, k
			w.n["reg accepted"]++
		}
	}
	for _, k := range refusedC {
		_, a := accepted[k.t.phone]
		_, b := plate[k.r.Plate]
		switch {
		case k.res == 1 && !b:
			w.Fatalf("phone %s plate %q was refused as plate taken, but nobody holds the plate", k.t.phone, k.r.Plate)
		case k.res == 3 && !a:
			w.Fatalf("phone %s plate %q was refused as terminal taken, but nobody holds the phone", k.t.phone, k.r.Plate)
		case k.res != 1 && k.res != 3:
			w.Fatalf("unknown result %d", k.res)
		}
		w.n["reg refused"]++
	}
	for _, k := range accepted {
		if k != nil {
			w.devs[k.t.phone] = &dev{term: k.t, id: k.r.ID, plate: k.r.Plate, conn: k.c, code: k.code, lastCom: time.Now()}
		}
	}
	w.compare()
}

func TestC10(t *testing.T) {
	bubble(t, "C10", "batches of 2-10 registrations over 1-4 phones and 1-4 plates released at the same moment on their own connections, followed by authentication of each winner; non-trivial: at least one registration of the batch was refused; distinct by the batch",
		pbt.Prop{Name: "batch", Quick: 25000, Thorough: 500000, F: func(c *pbt.C) {
			w := newWorld(c, aDir|aSess)
			p := newPool(c.T, 4, 4)
			if rapid.Bool().Draw(c.T, "existing") {
				w.quickReg(w.dial(), p.terms[0], p.plates[0], rapid.Bool().Draw(c.T, "online"))
			}
			for round := dict.IntRange(1, 2).Draw(c.T, "rounds"); round > 0; round-- {
				n := dict.IntRange(2, 10).Draw(c.T, "n")
				var batch []*claim
				for i := 0; i < n; i++ {
					cn := w.dial()
					for k := dict.IntRange(0, 4).Draw(c.T, "twice") / 4; k >= 0; k-- {
						tm := rapid.SampledFrom(p.terms).Draw(c.T, "term")
						batch = append(batch, &claim{c: cn, t: tm, r: regGen(c.T, tm.ver, rapid.SampledFrom(p.plates).Draw(c.T, "plate"))})
					}
				}
				w.race(batch)
				// every winner can authenticate with its code
				for _, d := range w.sortedDevs() {
					w.op("authok", d.conn, d.term, "")
				}
				w.settle()
				w.compare()
				// make room
				for _, d := range w.sortedDevs() {
					if rapid.Bool().Draw(c.T, "leave") {
						w.op("logout", d.conn, d.term, "")
					}
				}
				w.settle()
				w.compare()
			}
			w.key(w.n["reg refused"] > 0)
		}},
		pbt.Prop{Name: "hot", Quick: 15000, Thorough: 300000, F: func(c *pbt.C) {
			// one phone or one plate, many claimants
			w := newWorld(c, aDir)
			setLevel(0)
			n := dict.IntRange(3, 8).Draw(c.T, "n")
			samePhone, samePlate := true, rapid.Bool().Draw(c.T, "sameplate")
			if samePlate {
				samePhone = rapid.Bool().Draw(c.T, "samephone")
			}
			ts, ps := terms(c.T, n), plates(c.T, n)
			var batch []*claim
			for i := 0; i < n; i++ {
				tm, pl := ts[i], ps[i]
				if samePhone {
					tm = ts[0]
				}
				if samePlate {
					pl = ps[0]
				}
				batch = append(batch, &claim{c: w.dial(), t: tm, r: regGen(c.T, tm.ver, pl)})
			}
			w.race(batch)
			if len(w.devs) != 1 {
				w.Fatalf("%d registrations accepted, exactly one expected", len(w.devs))
			}
			w.key(true)
		}},
	)
}

func TestC13(t *testing.T) {
	bubble(t, "C13", "histories with logouts, re-registration of the same phone or plate by the same or other terminals right away and at other moments, then silence; non-trivial: a logout of a terminal that had a location or was online was accepted; distinct by the whole history",
		pbt.Prop{Name: "history", Quick: 8000, Thorough: 160000, F: func(c *pbt.C) {
			w := newWorld(c, aAll|aJobs)
			p := newPool(c.T, 4, 3)
			w.history(p, []string{"reg", "reg", "reg", "authok", "loc", "loc", "logout", "logout", "hb"}, 4, 4, nil)
			w.key(w.n["logout"] > 0)
		}},
		pbt.Prop{Name: "again", Quick: 6000, Thorough: 120000, F: func(c *pbt.C) {
			w := newWorld(c, aAll|aJobs)
			ts, ps := terms(c.T, 3), plates(c.T, 3)
			a, b := w.dial(), w.dial()
			time.Sleep(time.Duration(dict.IntRange(0, 999).Draw(c.T, "phase")) * time.Millisecond)
			w.quickReg(a, ts[0], ps[0], rapid.Bool().Draw(c.T, "online"))
			w.quickReg(b, ts[1], ps[1], true) // bystander
			w.op("loc", b, ts[1], "")
			for i := dict.IntRange(0, 3).Draw(c.T, "locs"); i > 0; i-- {
				w.op("loc", a, ts[0], "")
			}
			w.settle()
			w.compare()
			time.Sleep(time.Duration(dict.IntRange(0, 50000).Draw(c.T, "stay")) * time.Millisecond)
			w.op("hb", b, ts[1], "")
			via := a
			if dict.IntRange(0, 3).Draw(c.T, "via") == 0 {
				via = w.dial() // logout on another connection
			}
			w.op("logout", via, ts[0], "")
			w.settle()
			w.compare()
			// the phone, the plate, or both are taken again at once
			tm, plate := ts[0], ps[0]
			switch dict.IntRange(0, 3).Draw(c.T, "who") {
			case 1:
				tm = ts[2]
			case 2:
				plate = ps[2]
			}
			cn := via
			if rapid.Bool().Draw(c.T, "elsewhere") {
				cn = w.dial()
			}
			online := rapid.Bool().Draw(c.T, "online2")
			w.quickReg(cn, tm, plate, online)
			w.compare()
			last := time.Now()
			// then it falls silent; a check left over from the first registration
			// would remove it too early
			w.only = true
			for _, x := range w.conns {
				if x != b {
					x.loose = true
				}
			}
			tr := w.track(tm.phone, cn, online, last)
			for !tr.gone {
				tr.poll(time.Duration(dict.IntRange(5, 40).Draw(c.T, "gap")) * time.Second)
				w.op("hb", b, ts[1], "")
				w.settle()
			}
			if w.devs[ts[1].phone] == nil {
				w.Fatalf("HARNESS: bystander lost in the model")
			}
			w.compare()
			// and the phone is free once more
			cn = w.dial()
			w.quickReg(cn, tm, plate, false)
			w.compare()
			w.key(true)
		}},
		pbt.Prop{Name: "overlap", Quick: 12000, Thorough: 300000, F: overlap("logout")},
		pbt.Prop{Name: "together", Quick: 4000, Thorough: 80000, F: logoutTogether},
		pbt.Prop{Name: "unfinished", Quick: 4000, Thorough: 80000, F: unfinished},
		pbt.Prop{Name: "others unfinished", Quick: 2500, Thorough: 50000, F: othersUnfinished},
		pbt.Prop{Name: "back to back", Quick: 4000, Thorough: 80000, F: backToBack},
		pbt.Prop{Name: "offline", Quick: 2000, Thorough: 40000, F: offlineThen([]string{"logout", "logout", "logout", "reg", "authok", "loc", "hb"})},
	)
}

// overlap: a terminal leaves (by logging out or with a wrong code) while it also
// talks on other connections.
func overlap(leave string) func(*pbt.C) {
	return func(c *pbt.C) {
		// the terminal also talks on other connections while it leaves: in
		// every order of those messages that one comes, and it is then gone
		w := newWorld(c, aDir|aJobs|aGeo)
		ts, ps := uniqTerms(c.T, 2), plates(c.T, 2)
		a := w.dial()
		w.quickReg(a, ts[0], ps[0], true)
		code := w.devs[ts[0].phone].code
		b := w.dial()
		w.quickReg(b, ts[1], ps[1], true) // bystander
		// all but one fragment of a report, spread over the other connections
		l := locGen.Draw(c.T, "fragmented")
		l.Extra = nil
		m := w.msg(ts[0], 0x0200, l.Body())
		var frags []jt.Msg
		if rapid.Bool().Draw(c.T, "fragments") {
			frags = rapid.Permutation(m.Fragment(w.cutSizes(len(m.Body), 3))).Draw(c.T, "order")
			c.ClassIf(len(frags) > 1, "fragments")
		}
		gate := make(chan struct{})
		n := dict.IntRange(1, 5).Draw(c.T, "others")
		for i := 0; i < n; i++ {
			o := w.dial()
			o.loose = true
			o.Gate(gate)
			var f []byte
			for k := dict.IntRange(1, 6).Draw(c.T, "k"); k > 0; k-- {
				switch dict.IntRange(0, 4).Draw(c.T, "kind") {
				case 0:
					f = append(f, w.msg(ts[0], 0x0102, jt.AuthBody(ts[0].ver, code, "i", "s")).Frame()...)
				case 1:
					f = append(f, w.msg(ts[0], 0x0002, nil).Frame()...)
				default:
					l := locGen.Draw(c.T, "loc")
					l.Extra = nil
					f = append(f, w.msg(ts[0], 0x0200, l.Body()).Frame()...)
					c.Class("location")
				}
			}
			for k := dict.IntRange(1, 4).Draw(c.T, "times"); k > 0; k-- {
				for j := 0; j < len(frags)-1; j++ {
					if len(frags) == 2 || j%n == i {
						f = append(f, frags[j].Frame()...)
					}
				}
			}
			o.Chunks(f)
		}
		a.Gate(gate)
		w.op(leave, a, ts[0], "")
		synctest.Wait()
		close(gate)
		w.settle()
		w.compare()
		cn := w.dial()
		w.quickReg(cn, ts[0], ps[0], false) // free again
		w.compare()
		if len(frags) > 1 { // and nothing of the report was kept
			f := frags[len(frags)-1]
			w.Tracef("conn#%d: the last fragment %v", cn.n, f)
			cn.want(general(f, 0))
			w.send(cn, f.Frame())
			w.settle()
			w.compare()
		}
		w.key(true)
	}
}

// talker is a terminal that never lets a period pass without a message.
type talker struct {
	t      term
	c      *conn
	authed bool
	next   time.Time
	roams  bool  // uses a second connection now and then
	other  *conn // which is this
}

func (w *world) talk(k *talker) {
	kind := rapid.SampledFrom([]string{"hb", "hb", "loc", "loc", "authok"}).Draw(w.T, "kind")
	via := k.c
	if kind != "authok" && k.roams && rapid.Bool().Draw(w.T, "roam") {
		// the same terminal, over a second connection of its own
		if k.other == nil || k.other.ended {
			k.other = w.dial()
		}
		via = k.other
		w.Class("talks over a second connection")
	}
	w.op(kind, via, k.t, "")
	if kind == "authok" {
		k.authed = true
	}
	gap := rapid.OneOf(dict.IntRange(1, 59900), dict.IntRange(55000, 59900)).Draw(w.T, "gap")
	k.next = time.Now().Add(time.Duration(gap) * time.Millisecond)
}

func TestC14(t *testing.T) {
	bubble(t, "C14", "1-3 terminals that send heartbeats, location reports or authentications with gaps of up to 59.9 s for up to 40 keepalive periods, among silent, refused, leaving and reconnecting terminals; non-trivial: a talker lived for more than three periods; distinct by the whole history",
		pbt.Prop{Name: "talkers", Quick: 6000, Thorough: 120000, Round: 20, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			w.only = true
			n := dict.IntRange(1, 3).Draw(c.T, "n")
			m := dict.IntRange(0, 3).Draw(c.T, "others")
			ts, ps := terms(c.T, n+m), plates(c.T, n+m)
			var talkers []*talker
			for i := 0; i < n; i++ {
				time.Sleep(time.Duration(dict.IntRange(0, 20000).Draw(c.T, "phase")) * time.Millisecond)
				k := &talker{t: ts[i], c: w.dial(), authed: dict.IntRange(0, 3).Draw(c.T, "authed") > 0, roams: dict.IntRange(0, 3).Draw(c.T, "roams") == 0}
				w.quickReg(k.c, k.t, ps[i], k.authed)
				k.next = time.Now().Add(time.Duration(dict.IntRange(1, 59900).Draw(c.T, "first")) * time.Millisecond)
				talkers = append(talkers, k)
			}
			begin := time.Now()
			life := time.Duration(dict.IntRange(2, 40).Draw(c.T, "periods")) * period
			if dict.IntRange(0, 2).Draw(c.T, "short") > 0 {
				life = time.Duration(dict.IntRange(2, 8).Draw(c.T, "periods")) * period
			}
			for time.Since(begin) < life {
				k := talkers[0]
				for _, o := range talkers {
					if o.next.Before(k.next) {
						k = o
					}
				}
				// somebody else does something in between
				if m > 0 && dict.IntRange(0, 3).Draw(c.T, "other") == 0 {
					i := n + dict.IntRange(0, m-1).Draw(c.T, "who")
					w.bystander(ts[i], ps[i])
				}
				if d := time.Until(k.next); d > 0 {
					time.Sleep(d)
				}
				synctest.Wait()
				w.talking(talkers)
				w.talk(k)
				if dict.IntRange(0, 15).Draw(c.T, "reconnect") == 0 {
					w.settle()
					old := k.c
					if rapid.Bool().Draw(c.T, "hangup first") {
						// the connection breaks; the terminal goes on on another
						if rapid.Bool().Draw(c.T, "reset") {
							w.reset(old)
						} else {
							w.hangup(old)
						}
						w.settle()
						w.compare()
						k.c = w.dial()
						w.talk(k)
						w.settle()
						w.talking(talkers)
						c.Class("went on on another connection")
						continue
					}
					k.c = w.dial()
					w.op("authok", k.c, k.t, "")
					k.authed = true
					w.settle()
					w.hangup(old)
					c.Class("reconnected")
				}
				w.settle()
				w.talking(talkers)
			}
			w.key(life > 3*period)
		}},
		pbt.Prop{Name: "chatty", Quick: 400, Thorough: 8000, Round: 10, F: chatty},
		pbt.Prop{Name: "marathon", Quick: 36, Thorough: 1200, Round: 2, F: marathon},
	)
}

// bystander lets another terminal do something; its fate is not checked here.
func (w *world) bystander(t term, plate string) {
	c := w.dial()
	c.loose = true
	r := regGen(w.T, t.ver, plate)
	w.Tracef("conn#%d: bystander %s", c.n, t.phone)
	c.Chunks(w.msg(t, 0x0100, r.Body(t.ver)).Frame())
	synctest.Wait()
	msgs, _, _ := jt.ParseStream(c.Take())
	code := "1"
	if len(msgs) == 1 && len(msgs[0].Body) > 3 {
		code = string(msgs[0].Body[3:])
	}
	switch dict.IntRange(0, 4).Draw(w.T, "fate") {
	case 0: // silent
	case 1:
		c.Chunks(w.msg(t, 0x0102, jt.AuthBody(t.ver, code, "", "")).Frame())
	case 2:
		c.Chunks(w.msg(t, 0x0102, jt.AuthBody(t.ver, code+"x", "", "")).Frame())
	case 3:
		c.Chunks(w.msg(t, 0x0003, nil).Frame())
	case 4:
		c.Hangup()
	}
	synctest.Wait()
}

// talking checks that every talker is still there.
func (w *world) talking(ts []*talker) {
	w.compare() // directory entries, status, location of everybody in the model
	for _, k := range ts {
		d, err := storage.GetDeviceCache().GetDeviceByPhone(k.t.phone)
		if err != nil {
			w.Fatalf("%s kept talking but is not registered any more", k.t.phone)
		}
		if k.authed && d.Status == model.DeviceStatusOffline {
			w.Fatalf("%s kept talking but is shown offline", k.t.phone)
		}
		if k.c.Closed() {
			w.Fatalf("%s kept talking but its connection was closed", k.t.phone)
		}
	}
}

func TestC15(t *testing.T) {
	bubble(t, "C15", "1-3 terminals at random phases that send a few messages (heartbeat, location, authentication) and then fall silent, observed every 0.2-4 s of virtual time until removed; non-trivial: every case (a terminal was removed); distinct by the whole history",
		pbt.Prop{Name: "silent", Quick: 4000, Thorough: 80000, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			n := dict.IntRange(1, 3).Draw(c.T, "n")
			ts, ps := terms(c.T, n), plates(c.T, n)
			var trs []*tracker
			for i := 0; i < n; i++ {
				time.Sleep(time.Duration(dict.IntRange(0, 20000).Draw(c.T, "phase")) * time.Millisecond)
				cn := w.dial()
				authed := rapid.Bool().Draw(c.T, "authed")
				w.quickReg(cn, ts[i], ps[i], authed)
				trs = append(trs, w.track(ts[i].phone, cn, authed, time.Now()))
			}
			w.compare()
			for k := dict.Count(0, 6, 200).Draw(c.T, "talk"); k > 0; k-- {
				time.Sleep(time.Duration(dict.IntRange(0, 20000).Draw(c.T, "pause")) * time.Millisecond)
				i := dict.IntRange(0, n-1).Draw(c.T, "who")
				if trs[i].gone {
					continue
				}
				if age := time.Since(trs[i].last); age > 55*time.Second {
					break // others may be due any moment now
				}
				kind := rapid.SampledFrom([]string{"hb", "loc", "authok"}).Draw(c.T, "kind")
				if kind == "loc" && !trs[i].authed {
					// ignition on: it stays a terminal that never authenticated
					l := w.nextLoc(ts[i])
					l.Status |= 1
					w.location(trs[i].conn, ts[i], l)
					trs[i].last = time.Now()
					c.Class("location before authentication")
					synctest.Wait()
					continue
				}
				if kind == "authok" && rapid.Bool().Draw(c.T, "elsewhere") {
					// from now on the terminal belongs to another connection
					trs[i].conn.loose = true
					trs[i].conn = w.dial()
					c.Class("moved to another connection")
				}
				w.op(kind, trs[i].conn, ts[i], "")
				if kind == "authok" {
					trs[i].authed = true
				}
				trs[i].last = time.Now()
				synctest.Wait()
			}
			for _, tr := range trs {
				tr.conn.accept = nil
				tr.conn.loose = true
			}
			w.only = true
			for left := n; left > 0; {
				time.Sleep(time.Duration(dict.IntRange(200, 4000).Draw(c.T, "poll")) * time.Millisecond)
				synctest.Wait()
				left = 0
				for _, tr := range trs {
					if !tr.gone {
						tr.look()
					}
					if !tr.gone {
						left++
					}
				}
			}
			// removed terminals can come back, with nothing left of before
			w.only = false
			i := dict.IntRange(0, n-1).Draw(c.T, "back")
			w.compare()
			w.quickReg(w.dial(), ts[i], ps[i], false)
			w.compare()
			w.key(true)
		}},
		pbt.Prop{Name: "hung up", Quick: 1500, Thorough: 30000, F: func(c *pbt.C) {
			// the connection is gone, the registration stays until it expires
			w := newWorld(c, aAll)
			tm, plate := terms(c.T, 1)[0], plates(c.T, 1)[0]
			cn := w.dial()
			authed := rapid.Bool().Draw(c.T, "authed")
			w.quickReg(cn, tm, plate, authed)
			last := time.Now()
			time.Sleep(time.Duration(dict.IntRange(0, 30000).Draw(c.T, "pause")) * time.Millisecond)
			if rapid.Bool().Draw(c.T, "reset") {
				w.reset(cn)
			} else {
				w.hangup(cn)
			}
			w.settle()
			w.compare()
			tr := w.track(tm.phone, cn, authed, last)
			tr.poll(4 * period)
			if !tr.gone {
				w.Fatalf("%s was never removed", tm.phone)
			}
			w.compare()
			w.key(true)
		}},
		pbt.Prop{Name: "at the expiry", Quick: 120, Thorough: 6000, Round: 10, F: atExpiry},
		pbt.Prop{Name: "fleet", Quick: 400, Thorough: 8000, Round: 10, F: silentFleet},
		pbt.Prop{Name: "marathon", Quick: 36, Thorough: 1200, Round: 2, F: marathon},
	)
}

func TestC16(t *testing.T) {
	bubble(t, "C16", "1-3 terminals sending 1-250 location reports of arbitrary content; plus the status words; non-trivial: the terminal sent two or more reports; distinct by the whole history",
		pbt.Prop{Name: "reports", Quick: 8000, Thorough: 160000, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			n := dict.IntRange(1, 3).Draw(c.T, "n")
			ts, ps := terms(c.T, n), plates(c.T, n)
			for i, tm := range ts {
				w.quickReg(w.dial(), tm, ps[i], rapid.Bool().Draw(c.T, "online"))
			}
			for k := dict.Count(1, 15, 200).Draw(c.T, "steps"); k > 0; k-- {
				i := dict.IntRange(0, n-1).Draw(c.T, "who")
				w.op(rapid.SampledFrom([]string{"loc", "loc", "loc", "hb", "authok"}).Draw(c.T, "kind"), w.conns[i], ts[i], "")
				w.settle()
				w.compare()
			}
			w.history100()
			w.key(w.n["loc"] > 1)
		}},
		pbt.Prop{Name: "many", Quick: 600, Thorough: 12000, F: func(c *pbt.C) {
			w := newWorld(c, aGeo)
			w.chunk = false
			n := dict.IntRange(1, 2).Draw(c.T, "n")
			ts, ps := terms(c.T, n), plates(c.T, n)
			base := make([]jt.Loc, n)
			count := make([]int, n)
			for i, tm := range ts {
				w.quickReg(w.dial(), tm, ps[i], true)
				base[i] = locGen.Draw(c.T, "base")
				count[i] = rapid.OneOf(dict.IntRange(90, 110), dict.IntRange(190, 250), dict.IntRange(1, 250)).Draw(c.T, "count")
			}
			every := dict.IntRange(1, 7).Draw(c.T, "look")
			for s := 0; s < 250; s++ {
				for i, tm := range ts {
					if s >= count[i] {
						continue
					}
					l := base[i]
					l.Lat += uint32(s) * 17
					l.Lon -= uint32(s) * 3
					l.Speed += uint16(s)
					l.Status ^= 1 << (uint(s) % 23)
					w.location(w.conns[i], tm, l)
				}
				if s%every == 0 || s > 95 && s < 105 || s > 195 && s < 205 {
					w.settle()
					w.compare()
				}
			}
			w.settle()
			w.compare()
			w.history100()
			w.key(true)
		}},
		pbt.Prop{Name: "status word", Quick: 6, Thorough: 6, F: func(c *pbt.C) {
			// every combination of the documented bits, split over the shards
			rapid.Bool().Draw(c.T, "unused")
			if statusDone {
				return
			}
			statusDone = true
			k := 0
			for x := uint32(pbt.Shard()); x < 1<<21; x += uint32(pbt.Shards()) {
				s := x&0x3f | x>>6<<8
				var g model.GeoMeta
				g.Decode(s)
				if err := sameStatus(s, &g); err != nil {
					c.Fatalf("%v", err)
				}
				if e := g.Encode(); e != s {
					c.Fatalf("status %032b encodes to %032b", s, e)
				}
				k++
			}
			c.Count(k)
			c.NonTrivial("all status words, shard %d", pbt.Shard())
		}},
		pbt.Prop{Name: "together", Quick: 3000, Thorough: 60000, F: reportTogether},
		pbt.Prop{Name: "offline", Quick: 1500, Thorough: 30000, F: offlineThen([]string{"loc", "loc", "loc", "logout", "reg", "authok", "authbad", "hb"})},
		pbt.Prop{Name: "long", Quick: 24, Thorough: 480, Round: 2, F: reportLong},
	)
}

var statusDone bool

// history100 checks that the stored history is the most recent 100 reports.
func (w *world) history100() {
	for p, d := range w.devs {
		rb := storage.GetGeoCache().GetGeoRingByPhone(p)
		var got []*model.DeviceGeo
		for _, x := range rb.Container {
			if x != nil {
				got = append(got, x.(*model.DeviceGeo))
			}
		}
		want := d.geos
		if len(want) > 100 {
			want = want[len(want)-100:]
		}
		if len(got) != len(want) {
			w.Fatalf("%s sent %d reports, the history holds %d", p, len(d.geos), len(got))
		}
		used := make([]bool, len(got))
		for i, l := range want {
			found := false
			var e error
			for j, g := range got {
				if !used[j] {
					if e = sameGeo(p, l, g); e == nil {
						used[j], found = true, true
						break
					}
				}
			}
			if !found {
				w.Fatalf("report %d of the last %d of %s is not in its history (%v)", i, len(want), p, fmt.Sprint(e))
			}
		}
	}
}
