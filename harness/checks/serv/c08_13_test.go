package serv

import (
	"testing"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

// quickReg registers and optionally authenticates a terminal.
func (w *world) quickReg(c *conn, t term, plate string, online bool) *dev {
	if w.register(c, t, regGen(w.T, t.ver, plate)) != served {
		w.Fatalf("HARNESS: setup registration not accepted by the model")
	}
	w.settle()
	d := w.devs[t.phone]
	if online {
		w.auth(c, t, d.code, imeiGen(w.T), softGen(w.T))
		w.settle()
	}
	return d
}

// key summarises a history for distinctness.
func (w *world) key(nontrivial bool) {
	if !nontrivial {
		return
	}
	w.NonTrivial("%d/%v", len(w.conns), w.Trace())
}

func TestC08(t *testing.T) {
	all := []string{"hb", "hb", "hb", "loc", "loc", "loc", "time", "time", "reg", "reg", "authok", "authok", "authbad", "logout", "noreply", "noreply", "unsup", "plat"}
	bubble(t, "C08", "histories of requests of 1-4 terminals (2011/2013/2019) on up to 4 connections, sent in bursts cut into arbitrary segments, with no-reply and unsupported messages mixed in; non-trivial: at least one burst of two or more requests was answered; distinct by the whole history",
		pbt.Prop{Name: "history", Quick: 3000, Thorough: 60000, F: func(c *pbt.C) {
			w := newWorld(c, aDir|aSess)
			p := newPool(c.T, 4, 4)
			w.history(p, all, 4, 6, nil)
			w.key(w.n["bursts"] > 0)
		}},
		pbt.Prop{Name: "registered", Quick: 2500, Thorough: 50000, F: func(c *pbt.C) {
			// every terminal registered on its own connection, then only requests
			w := newWorld(c, aDir|aSess)
			n := dict.IntRange(1, 4).Draw(c.T, "n")
			ts, ps := terms(c.T, n), plates(c.T, n)
			for i, tm := range ts {
				w.quickReg(w.dial(), tm, ps[i], rapid.Bool().Draw(c.T, "online"))
			}
			kinds := []string{"hb", "loc", "time", "authok", "noreply", "unsup", "plat"}
			for i := dict.IntRange(1, 8).Draw(c.T, "bursts"); i > 0; i-- {
				// all terminals talk at once, each on its own connection
				for j, tm := range ts {
					for k := dict.Count(0, 5, 300).Draw(c.T, "burst"); k > 0; k-- {
						kind := rapid.SampledFrom(kinds).Draw(c.T, "op")
						if (kind == "unsup" || kind == "plat") && (!w.hasTime() || k > 5) {
							kind = "hb" // each of those costs a second
						}
						w.op(kind, w.conns[j], tm, "")
					}
				}
				w.settle()
				w.compare()
			}
			w.key(w.n["bursts"] > 0)
		}},
		pbt.Prop{Name: "long burst", Quick: 800, Thorough: 16000, F: longBurst},
		pbt.Prop{Name: "endless", Quick: 30, Thorough: 600, Round: 2, F: endless},
		pbt.Prop{Name: "offline", Quick: 1500, Thorough: 30000, F: offlineThen([]string{"hb", "loc", "authok", "authbad", "logout", "reg", "time", "noreply"})},
		pbt.Prop{Name: "persistent", Quick: 800, Thorough: 16000, F: func(c *pbt.C) { badLine(c, true) }},
	)
}

func TestC09(t *testing.T) {
	bubble(t, "C09", "histories dominated by registrations of 1-5 terminals over 1-4 plates (phone and plate conflicts), with logouts, wrong codes and hang-ups in between; non-trivial: a registration was refused; distinct by the whole history",
		pbt.Prop{Name: "history", Quick: 4000, Thorough: 80000, F: func(c *pbt.C) {
			w := newWorld(c, aDir|aSess)
			p := newPool(c.T, 5, 4)
			w.history(p, []string{"reg", "reg", "reg", "reg", "authok", "logout", "authbad", "hb"}, 4, 4, map[string]func(*conn){})
			w.key(w.n["reg refused"] > 0)
		}},
		pbt.Prop{Name: "conflict", Quick: 2500, Thorough: 50000, F: func(c *pbt.C) {
			// one established terminal in a generated state; one conflicting registration
			w := newWorld(c, aAll)
			ts, ps := terms(c.T, 2), plates(c.T, 2)
			a := w.dial()
			w.quickReg(a, ts[0], ps[0], rapid.Bool().Draw(c.T, "online"))
			if rapid.Bool().Draw(c.T, "loc") {
				w.op("loc", a, ts[0], "")
			}
			if dict.IntRange(0, 3).Draw(c.T, "gone") == 0 {
				w.hangup(a) // registration outlives the connection
			}
			w.settle()
			w.compare()
			b := w.dial()
			if rapid.Bool().Draw(c.T, "other") {
				w.quickReg(b, ts[1], ps[1], false)
			}
			var tm term
			var plate string
			switch dict.IntRange(0, 3).Draw(c.T, "kind") {
			case 0:
				tm, plate = ts[0], ps[0]
				c.Class("same phone and plate")
			case 1:
				tm, plate = ts[0], ps[1]
				c.Class("same phone")
			case 2:
				tm, plate = ts[1], ps[0]
				c.Class("same plate")
			case 3:
				tm, plate = ts[1], ps[1]
				c.Class("other")
			}
			for i := dict.IntRange(1, 3).Draw(c.T, "times"); i > 0; i-- {
				w.op("reg", b, tm, plate)
				w.settle()
				w.compare()
			}
			// the established terminal still works as before
			if d := w.devs[ts[0].phone]; d != nil && !a.ended {
				w.op(rapid.SampledFrom([]string{"hb", "authok", "loc"}).Draw(c.T, "after"), a, ts[0], "")
				w.settle()
				w.compare()
			}
			w.key(w.n["reg refused"] > 0)
		}},
		pbt.Prop{Name: "many", Quick: 200, Thorough: 4000, F: manyRegistered},
		pbt.Prop{Name: "silent", Quick: 1500, Thorough: 30000, F: refusedWhileSilent},
		pbt.Prop{Name: "offline", Quick: 1500, Thorough: 30000, F: offlineThen([]string{"reg", "reg", "reg", "logout", "authok", "authbad", "hb"})},
	)
}

func TestC11(t *testing.T) {
	bubble(t, "C11", "histories of authentications with issued, near-miss, stale, other terminals' and arbitrary codes; non-trivial: an authentication of a registered terminal; distinct by the whole history",
		pbt.Prop{Name: "overlong", Quick: 150, Thorough: 4000, Round: 4, F: longCode},
		pbt.Prop{Name: "history", Quick: 4000, Thorough: 80000, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			p := newPool(c.T, 4, 4)
			w.history(p, []string{"reg", "reg", "reg", "authok", "authok", "authok", "authbad", "authbad", "hb", "loc", "logout", "plat", "plat"}, 4, 3, nil)
			w.key(w.n["auth ok"]+w.n["auth refused"] > 0)
		}},
		pbt.Prop{Name: "codes", Quick: 4000, Thorough: 80000, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			n := dict.IntRange(2, 3).Draw(c.T, "n")
			ts, ps := terms(c.T, n), plates(c.T, n+1)
			old := map[string]string{}
			for round := dict.IntRange(1, 4).Draw(c.T, "rounds"); round > 0; round-- {
				for _, tm := range ts {
					if w.devs[tm.phone] == nil {
						free := []string{}
						for _, p := range ps {
							if w.byPlate(p) == nil {
								free = append(free, p)
							}
						}
						w.quickReg(w.dial(), tm, rapid.SampledFrom(free).Draw(c.T, "plate"), false)
					}
				}
				victim := rapid.SampledFrom(ts).Draw(c.T, "victim")
				d := w.devs[victim.phone]
				if d == nil {
					break
				}
				cn := w.pickConn(4)
				switch k := dict.IntRange(0, 3).Draw(c.T, "kind"); {
				case k == 0:
					w.op("authok", cn, victim, "")
				case k == 1 && old[victim.phone] != "":
					// a code issued to an earlier registration of this phone is only
					// good if it is also the present one
					w.auth(cn, victim, old[victim.phone], imeiGen(c.T), softGen(c.T))
					c.Class("stale code")
				default:
					w.op("authbad", cn, victim, "")
				}
				old[victim.phone] = d.code
				w.settle()
				w.compare()
				if w.devs[victim.phone] == nil {
					// revoked: the next message of that terminal is not served
					cn := w.dial()
					w.op(rapid.SampledFrom([]string{"hb", "loc", "logout"}).Draw(c.T, "next"), cn, victim, "")
					w.settle()
					w.compare()
				}
			}
			w.key(w.n["auth ok"]+w.n["auth refused"] > 0)
		}},
		pbt.Prop{Name: "together", Quick: 4000, Thorough: 80000, F: authTogether},
		pbt.Prop{Name: "offline", Quick: 2000, Thorough: 40000, F: offlineThen([]string{"authok", "authok", "authbad", "authbad", "reg", "hb", "loc"})},
		pbt.Prop{Name: "overlap", Quick: 4000, Thorough: 100000, F: overlap("authbad")},
	)
}

func TestC12(t *testing.T) {
	kinds := []string{"hb", "logout", "authok", "authbad", "loc", "frag"}
	bubble(t, "C12", "requests (heartbeat, logout, authentication, location report, fragment) for phones that were never registered, logged out or revoked, on fresh and on established connections, among registered terminals; non-trivial: at least one such request; distinct by the whole history",
		pbt.Prop{Name: "history", Quick: 3500, Thorough: 70000, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			p := newPool(c.T, 5, 5)
			w.history(p, []string{"hb", "logout", "authok", "authbad", "loc", "reg", "reg"}, 5, 3, nil)
			w.key(w.n["stranger"] > 0)
		}},
		pbt.Prop{Name: "stranger", Quick: 3500, Thorough: 70000, F: func(c *pbt.C) {
			w := newWorld(c, aAll)
			n := dict.IntRange(1, 3).Draw(c.T, "n")
			ts, ps := terms(c.T, n+1), plates(c.T, n+1)
			stranger, plate := uniq(ts[n]), ps[n]
			for i := 0; i < n; i++ {
				w.quickReg(w.dial(), ts[i], ps[i], true)
				if rapid.Bool().Draw(c.T, "loc") {
					w.op("loc", w.conns[len(w.conns)-1], ts[i], "")
				}
			}
			w.settle()
			var cn *conn
			switch dict.IntRange(0, 3).Draw(c.T, "origin") {
			case 0:
				cn = w.dial()
				c.Class("never registered")
			case 1:
				cn = w.dial()
				w.quickReg(cn, stranger, plate, rapid.Bool().Draw(c.T, "online"))
				w.op("loc", cn, stranger, "")
				w.op("logout", cn, stranger, "")
				c.Class("logged out")
			case 2:
				cn = w.dial()
				w.quickReg(cn, stranger, plate, false)
				w.op("authbad", cn, stranger, "")
				c.Class("revoked")
			case 3:
				cn = w.conns[0] // connection of a registered terminal
				c.Class("on another terminal's connection")
			}
			w.settle()
			w.compare()
			k := rapid.SampledFrom(kinds).Draw(c.T, "kind")
			c.Class("request:" + k)
			var rest *jt.Msg
			if k == "frag" {
				l := locGen.Draw(c.T, "loc")
				m := w.msg(stranger, 0x0200, l.Body())
				cut := dict.IntRange(1, len(m.Body)-1).Draw(c.T, "cut")
				fr := m.Fragment([]int{cut, len(m.Body) - cut})
				i := dict.IntRange(0, 1).Draw(c.T, "which")
				w.Tracef("conn#%d: fragment %v", cn.n, fr[i])
				w.closeBy(cn)
				w.send(cn, fr[i].Frame())
				rest = &fr[1-i]
			} else {
				w.op(k, cn, stranger, plate)
			}
			// anything queued behind it is not served either
			if rapid.Bool().Draw(c.T, "more") {
				m := w.msg(ts[0], 0x0002, nil)
				w.Tracef("conn#%d: (behind it) %v", cn.n, m)
				w.send(cn, m.Frame())
			}
			w.settle()
			w.compare()
			// the others are unaffected
			for i := 0; i < n; i++ {
				o := w.conns[i]
				if o.ended {
					o = w.dial()
				}
				w.op(rapid.SampledFrom([]string{"hb", "loc", "authok"}).Draw(c.T, "others"), o, ts[i], "")
			}
			w.settle()
			w.compare()
			// and it can come back
			w.quickReg(w.dial(), stranger, plate, rapid.Bool().Draw(c.T, "online2"))
			w.compare()
			if rest != nil { // the refused fragment was not kept
				cn := w.conns[len(w.conns)-1]
				w.Tracef("conn#%d: the other fragment %v", cn.n, *rest)
				cn.want(general(*rest, 0))
				w.send(cn, rest.Frame())
				w.settle()
				w.compare()
			}
			w.key(w.n["stranger"] > 0)
		}},
		pbt.Prop{Name: "together", Quick: 4000, Thorough: 80000, F: strangersTogether},
		pbt.Prop{Name: "offline", Quick: 1500, Thorough: 30000, F: offlineThen([]string{"hb", "loc", "authok", "authbad", "logout"})},
	)
}
