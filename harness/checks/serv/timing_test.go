package serv

import (
	"testing/synctest"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
)

const (
	period = 60 * time.Second // keepalive period
	slack  = 1500 * time.Millisecond
)

// tracker watches one terminal that has fallen silent.
type tracker struct {
	w       *world
	d       *dev
	phone   string
	conn    *conn
	authed  bool
	last    time.Time // its last message
	offline bool
	gone    bool
}

func (w *world) track(phone string, c *conn, authed bool, last time.Time) *tracker {
	return &tracker{w: w, d: w.devs[phone], phone: phone, conn: c, authed: authed, last: last}
}

// poll advances virtual time in random steps of up to 4 s and looks at the
// terminal after each.
func (tr *tracker) poll(d time.Duration) {
	end := time.Now().Add(d)
	for time.Now().Before(end) && !tr.gone {
		s := time.Duration(dict.IntRange(200, 4000).Draw(tr.w.T, "poll")) * time.Millisecond
		if r := time.Until(end); s > r {
			s = r
		}
		time.Sleep(s)
		synctest.Wait()
		tr.look()
	}
}

// look checks the terminal against the keepalive rules at this moment.
func (tr *tracker) look() {
	w, age := tr.w, time.Since(tr.last)
	g, err := storage.GetDeviceCache().GetDeviceByPhone(tr.phone)
	closed := tr.conn.Closed()
	if err == nil && closed && !tr.conn.ended {
		w.Fatalf("%v after its last message %s is still registered but its connection was closed", age, tr.phone)
	}
	if err != nil {
		tr.gone = true
		lo, hi := period, 2*period
		if tr.authed {
			lo, hi = 2*period, 3*period
		}
		if age < lo-slack {
			w.Fatalf("%s was removed %v after its last message, not before %v expected", tr.phone, age, lo)
		}
		_ = hi
		if !closed {
			w.Fatalf("%s was removed but its connection is still open", tr.phone)
		}
		if l, err := storage.GetGeoCache().GetGeoLatestByPhone(tr.phone); err == nil {
			w.Fatalf("%s was removed but its location is still stored: %+v", tr.phone, l.Location)
		}
		for _, d := range storage.GetDeviceCache().ListDevice() {
			if d.Phone == tr.phone {
				w.Fatalf("%s was removed but is still listed", tr.phone)
			}
		}
		for _, e := range protocol.NewKeepaliveTimer().Jobs() {
			if j, ok := e.Job.(interface{ JobID() string }); ok && j.JobID() == tr.phone {
				w.Fatalf("%s was removed but its keepalive check is still scheduled", tr.phone)
			}
		}
		delete(w.devs, tr.phone)
		return
	}
	if tr.d != nil && len(tr.d.geos) > 0 {
		if l, err := storage.GetGeoCache().GetGeoLatestByPhone(tr.phone); err != nil {
			w.Fatalf("%v after its last message %s is still registered but its location is gone", age, tr.phone)
		} else if e := sameGeo(tr.phone, tr.d.geos[len(tr.d.geos)-1], l); e != nil {
			w.Fatalf("%v after its last message, latest location of %s: %v", age, tr.phone, e)
		}
	}
	if tr.authed {
		off := g.Status == model.DeviceStatusOffline
		if off && age < period-slack {
			w.Fatalf("%s is shown offline %v after its last message", tr.phone, age)
		}
		if !off && tr.offline {
			w.Fatalf("%s came back online by itself", tr.phone)
		}
		if !off && age > 2*period+slack {
			w.Fatalf("%s is still shown online %v after its last message", tr.phone, age)
		}
		tr.offline = off
		if age > 3*period+slack {
			w.Fatalf("%s is still registered %v after its last message", tr.phone, age)
		}
	} else if age > 2*period+slack {
		w.Fatalf("%s never authenticated and is still registered %v after its last message", tr.phone, age)
	}
}
