package serv

import (
	"testing/synctest"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

// atExpiry: terminals come back, on new connections, at the very moment at
// which their silent registrations are removed. Whatever the order, a
// registration that was accepted is one like any other: it stays until it has
// been silent for its own time, and then goes.
func atExpiry(c *pbt.C) {
	w := newWorld(c, aAll)
	n := dict.IntRange(1, 400).Draw(c.T, "n")
	seed := dict.IntRange(0, 1<<30).Draw(c.T, "base")
	reg := regGen(c.T, jt.V2011, "x")
	ts, ps, old := make([]term, n), make([]string, n), make([]*conn, n)
	w.Quiet(func() {
		for i := range ts {
			ts[i] = term{phone: digitsOf(seed+i*7919, 12), ver: jt.V2013}
			if i%3 == 1 {
				ts[i] = term{phone: digitsOf(seed+i*7919, 20), ver: jt.V2019, proto: 1}
			}
			ps[i] = "京" + digitsOf(i, 5)
			old[i] = w.dial()
			reg.Plate = ps[i]
			w.register(old[i], ts[i], reg)
		}
		w.settle()
	})
	born := time.Now()
	w.compare()
	// when the check that will remove them is due
	var due time.Time
	for time.Since(born) < 2*period {
		for _, e := range protocol.NewKeepaliveTimer().Jobs() {
			if j, ok := e.Job.(interface{ JobID() string }); ok && j.JobID() == ts[0].phone {
				due = e.Next
			}
		}
		if due.Sub(born) > period+time.Second {
			break
		}
		time.Sleep(time.Second)
		synctest.Wait()
	}
	if !due.After(time.Now()) {
		return // unknown: the plain histories judge it
	}
	for _, o := range old {
		o.loose = true
	}
	g := make(chan struct{})
	asked := dict.IntRange(1, 12).Draw(c.T, "asked")
	fresh := make([]*conn, n)
	msgs := make([][]jt.Msg, n)
	for i, t := range ts {
		w.Quiet(func() { fresh[i] = w.dial() })
		fresh[i].Gate(g)
		reg.Plate = ps[i]
		var b []byte
		for k := 0; k < asked; k++ {
			m := jt.New(0x0100, t.ver, t.proto, t.phone, uint16(k), reg.Body(t.ver))
			msgs[i] = append(msgs[i], m)
			b = append(b, m.Frame()...)
		}
		fresh[i].Chunks(b)
	}
	synctest.Wait()
	time.Sleep(time.Until(due))
	w.Tracef("%d terminals register again at the moment their silent registrations are due for removal", n)
	close(g)
	synctest.Wait()
	now := time.Now()
	var trs []*tracker
	for i, t := range ts {
		got, rest, err := jt.ParseStream(fresh[i].Take())
		if err != nil || len(rest) > 0 || len(got) != len(msgs[i]) {
			w.Fatalf("%d registrations of %s are answered by %d frames (%v)", len(msgs[i]), t.phone, len(got), err)
		}
		delete(w.devs, t.phone)
		for k, m := range msgs[i] {
			if err := replyHead(m, 0x8100)(got[k]); err != nil {
				w.Fatalf("registration of %s: %v", t.phone, err)
			}
			if len(got[k].Body) < 3 {
				w.Fatalf("registration of %s is answered %x", t.phone, got[k].Body)
			}
			if got[k].Body[2] != 0 {
				continue
			}
			if w.devs[t.phone] != nil {
				w.Fatalf("%s is registered twice", t.phone)
			}
			w.devs[t.phone] = &dev{term: t, id: reg.ID, plate: ps[i], conn: fresh[i], code: string(got[k].Body[3:]), lastCom: now}
			trs = append(trs, w.track(t.phone, fresh[i], false, now))
		}
		if w.devs[t.phone] != nil && !old[i].Closed() {
			w.Fatalf("%s registered anew, so its silent registration was removed, but its old connection is open", t.phone)
		}
	}
	w.only = true // those refused throughout may be held still
	w.compare()
	for _, tr := range trs {
		tr.conn.loose = true
	}
	for left := 1; left > 0; {
		time.Sleep(time.Duration(dict.IntRange(500, 8000).Draw(c.T, "poll")) * time.Millisecond)
		synctest.Wait()
		left = 0
		for _, tr := range trs {
			if !tr.gone {
				tr.look()
			}
			if !tr.gone {
				left++
			}
		}
	}
	if len(trs) > 0 {
		c.Class("came back at the moment of removal")
	}
	w.key(len(trs) > 0)
}
