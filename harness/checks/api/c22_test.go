package api

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/gen"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

type devJSON struct {
	ID, Plate, Phone, SessionID string
	VersionDesc, Status         int
	ProtocolVersion             int
	AuthCode                    string
	IMEI                        string
	SoftwareVersion             string
	TransProto                  string
	Keepalive                   int64
}

func nul(s string) string { return strings.TrimRight(s, "\x00") }

// versionNo is how the API names the protocol versions.
var versionNo = map[jt.Ver]int{jt.V2011: 0, jt.V2013: 1, jt.V2019: 2}

func (d *dev) same(g devJSON) error {
	want := devJSON{ID: d.id, Plate: d.plate, Phone: d.phone, SessionID: d.conn.LocalAddr().String(), VersionDesc: versionNo[d.ver], Status: d.status,
		ProtocolVersion: g.ProtocolVersion, AuthCode: d.authed, IMEI: nul(d.imei), SoftwareVersion: nul(d.soft), TransProto: "TCP", Keepalive: int64(time.Minute)}
	if d.ver == jt.V2019 {
		want.ProtocolVersion = int(d.proto)
	}
	g.IMEI, g.SoftwareVersion = nul(g.IMEI), nul(g.SoftwareVersion)
	if g != want {
		return fmt.Errorf("reported as %+v, expected %+v", g, want)
	}
	return nil
}

func (w *world) list() {
	code, b := w.http("GET", "/device", nil)
	if code != 200 {
		w.failf("the listing is answered %d", code)
	}
	var got []struct {
		devJSON
		LastComTime time.Time
	}
	decode(w, "listing", b, &got)
	seen := map[string]bool{}
	for _, x := range got {
		g := x.devJSON
		d := w.devs[g.Phone]
		if d == nil {
			w.failf("the listing has %s, which is not registered", g.Phone)
		}
		if seen[g.Phone] {
			w.failf("the listing has %s twice", g.Phone)
		}
		seen[g.Phone] = true
		if err := d.same(g); err != nil {
			w.failf("listing: terminal %s %v", g.Phone, err)
		}
		const slack = time.Millisecond
		if !d.from.IsZero() && (x.LastComTime.Before(d.from.Add(-slack)) || x.LastComTime.After(d.to.Add(slack))) {
			w.failf("listing: the last message of %s is said to be of %v, it was handled between %v and %v", g.Phone, x.LastComTime, d.from, d.to)
		}
	}
	if len(seen) != len(w.devs) {
		w.failf("the listing has %d terminals, %d are registered", len(seen), len(w.devs))
	}
}

type geoJSON struct {
	Phone    string
	Gis      map[string]json.Number
	Location struct {
		Latitude, Longitude float64
		Altitude            int
	}
	Drive struct {
		Speed     float64
		Direction int
	}
	Time time.Time
}

// statusFields is the documented meaning of the status word.
var statusFields = map[string][2]uint{"accStatus": {0, 1}, "locationStatus": {1, 1}, "latitudeType": {2, 1}, "longitudeType": {3, 1}, "operatingStatus": {4, 1},
	"geoEncryptionStatus": {5, 1}, "loadStatus": {8, 3}, "FuelSystemStatus": {10, 1}, "AlternatorSystemStatus": {11, 1}, "DoorLockedStatus": {12, 1},
	"frontDoorStatus": {13, 1}, "midDoorStatus": {14, 1}, "backDoorStatus": {15, 1}, "driverDoorStatus": {16, 1}, "customDoorStatus": {17, 1},
	"gpsLocationStatus": {18, 1}, "beidouLocationStatus": {19, 1}, "glonassLocationStatus": {20, 1}, "galileoLocationStatus": {21, 1}, "drivingStatus": {22, 1}}

func (w *world) geo(phone string) {
	code, b := w.http("GET", "/device/"+phone+"/geo", nil)
	d := w.devs[phone]
	if d == nil {
		w.n["unknown"]++
		if code != 400 {
			w.failf("the location query for the unknown phone %s is answered %d %.200s", phone, code, b)
		}
		return
	}
	if d.geo == nil {
		if strings.Contains(strings.ToLower(string(b)), "latitude") {
			w.failf("a terminal that never reported has the location %.300s", b)
		}
		return
	}
	w.n["geo"]++
	if code != 200 {
		w.failf("the location query is answered %d %.200s", code, b)
	}
	var top map[string]json.RawMessage
	decode(w, "location query", b, &top)
	var dj devJSON
	decode(w, "location query", b, &dj)
	if err := d.same(dj); err != nil {
		w.failf("location query: terminal %s %v", phone, err)
	}
	var g geoJSON
	decode(w, "location query", top["gis"], &g)
	l := *d.geo
	near := func(a, b float64) bool { return a-b < 1e-9 && b-a < 1e-9 }
	if g.Phone != phone || !near(g.Location.Latitude, float64(l.Lat)/1e6) || !near(g.Location.Longitude, float64(l.Lon)/1e6) || g.Location.Altitude != int(l.Alt) ||
		!near(g.Drive.Speed, float64(l.Speed)/10) || g.Drive.Direction != int(l.Dir) || jt.TimeDigits(g.Time) != l.Time {
		w.failf("location of %s is %s, last reported was %+v", phone, top["gis"], l)
	}
	for k, f := range statusFields {
		if string(g.Gis[k]) != fmt.Sprint(l.Status>>f[0]&uint32(f[1])) {
			w.failf("status field %s is %q, status word %032b", k, g.Gis[k], l.Status)
		}
	}
}

func (w *world) step(ts []term) {
	t := rapid.SampledFrom(ts).Draw(w.T, "terminal")
	known := w.devs[t.phone] != nil
	op := rapid.SampledFrom([]string{"reg", "reg", "auth", "auth", "loc", "loc", "hb", "badauth", "logout", "hangup", "list", "geo", "geo", "stranger"}).Draw(w.T, "op")
	w.Class("op:" + op)
	switch op {
	case "reg":
		w.register(w.pick(), t)
	case "list":
		w.list()
	case "geo":
		w.geo(t.phone)
	case "stranger":
		w.geo(rapid.OneOf(gen.Digits(12), gen.Digits(20), rapid.SampledFrom([]string{"0", "x", "京A12345", "%20", "1e3"})).Draw(w.T, "phone"))
	case "hangup":
		if c := w.live(); len(c) > 0 {
			x := rapid.SampledFrom(c).Draw(w.T, "conn")
			w.Tracef("conn#%d: terminal hangs up", x.n)
			x.Close()
			x.gone = true
		}
	default:
		if !known { // a message of an unknown terminal ends its connection (C12)
			return
		}
		c := w.pick()
		switch op {
		case "auth":
			w.auth(c, t, true)
		case "badauth":
			if rapid.Bool().Draw(w.T, "bad") {
				w.auth(c, t, false)
			}
		case "hb":
			w.heartbeat(c, t)
		case "logout":
			w.logout(c, t)
		case "loc":
			for k := rapid.SampledFrom([]int{1, 1, 1, 2, 5, 101}).Draw(w.T, "reports"); k > 0; k-- {
				w.location(c, t, gen.Loc.Draw(w.T, "loc"))
			}
		}
	}
}

func TestC22(t *testing.T) {
	run(t, "C22", "generated histories of 2..4 terminals over real TCP connections to the server process (registrations, right and wrong authentications, locations, heartbeats, logouts, hang-ups) with device listings and location queries (known and unknown phones) anywhere in between, compared with a model, and listings taken while other terminals come and go; non-trivial: at least two terminals were registered and a location was queried, or queries overlapped with traffic; distinct by history",
		pbt.Prop{Name: "queries", Quick: 9000, Thorough: 400000, Round: 150, F: func(c *pbt.C) {
			w := newWorld(c)
			ts := terms(w.T, dict.IntRange(2, 4).Draw(w.T, "terminals"))
			key := ""
			for _, t := range ts {
				if dict.IntRange(0, 3).Draw(w.T, "first") > 0 {
					w.register(w.pick(), t)
				}
			}
			for k := dict.Count(4, 30, 150).Draw(w.T, "steps"); k > 0 && !w.old(); k-- {
				w.step(ts)
			}
			w.list()
			for _, t := range ts {
				w.geo(t.phone)
				key += t.phone + t.plate
			}
			w.list()
			if w.old() {
				w.Skip("too slow")
			}
			if w.n["reg"] >= 2 && w.n["geo"] > 0 {
				c.NonTrivial("%s %v", key, w.n)
			}
		}},
		pbt.Prop{Name: "fleet", Quick: 90, Thorough: 4000, Round: 5, F: fleet},
		pbt.Prop{Name: "busy", Quick: 600, Thorough: 30000, Round: 50, F: busy},
	)
}

// busy queries while other terminals come and go: whoever is registered
// throughout is in every listing, and nobody who never was.
func busy(c *pbt.C) {
	w := newWorld(c)
	n := dict.IntRange(1, 3).Draw(w.T, "stable")
	churn := dict.IntRange(1, 4).Draw(w.T, "churning")
	ts := terms(w.T, n+churn)
	for i := range ts {
		ts[i].plate = fmt.Sprintf("京%d", i)
	}
	for _, t := range ts[:n] {
		x := w.dial()
		w.register(x, t)
		w.auth(x, t, true)
		w.location(x, t, gen.Loc.Draw(w.T, "loc"))
	}
	rounds := dict.IntRange(3, 15).Draw(w.T, "rounds")
	var wg sync.WaitGroup
	errs := make(chan error, churn)
	moving := map[string]bool{}
	for _, t := range ts[n:] {
		moving[t.phone] = true
		x := w.dial()
		reg := gen.Reg(w.T, t.ver, t.plate)
		l := gen.Loc.Draw(w.T, "loc")
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < rounds; k++ {
				for _, m := range []jt.Msg{jt.New(0x0100, t.ver, t.proto, t.phone, 1, reg.Body(t.ver)), jt.New(0x0200, t.ver, t.proto, t.phone, 2, l.Body()), jt.New(3, t.ver, t.proto, t.phone, 3, nil)} {
					_ = x.SetWriteDeadline(time.Now().Add(patience))
					if _, err := x.Write(m.Frame()); err != nil {
						errs <- fmt.Errorf("terminal %s: %v", t.phone, err)
						return
					}
					if _, err := x.next(patience); err != nil {
						errs <- fmt.Errorf("terminal %s: no reply to %v: %v", t.phone, m, err)
						return
					}
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	queries := 0
	for running := true; running; {
		select {
		case <-done:
			running = false
		default:
		}
		code, b := w.http("GET", "/device", nil)
		var got []devJSON
		if code != 200 {
			w.failf("the listing is answered %d", code)
		}
		decode(w, "listing", b, &got)
		seen := map[string]bool{}
		for _, g := range got {
			if seen[g.Phone] {
				w.failf("the listing has %s twice", g.Phone)
			}
			seen[g.Phone] = true
			if d := w.devs[g.Phone]; d != nil {
				if err := d.same(g); err != nil {
					w.failf("listing: terminal %s %v", g.Phone, err)
				}
			} else if !moving[g.Phone] {
				w.failf("the listing has %s, which was never registered", g.Phone)
			}
		}
		for p := range w.devs {
			if !seen[p] {
				w.failf("the listing lacks %s, registered all the time", p)
			}
			w.geo(p)
		}
		queries++
	}
	select {
	case err := <-errs:
		w.failf("%v", err)
	default:
	}
	w.list()
	c.NonTrivial("%v %d", ts, rounds)
}

// fleet: the listing of many terminals is complete, whatever their number.
func fleet(c *pbt.C) {
	w := newWorld(c)
	n := rapid.OneOf(dict.IntRange(5, 40), dict.IntRange(40, 300)).Draw(w.T, "terminals")
	if dict.IntRange(0, 7).Draw(w.T, "large") == 0 {
		n = dict.IntRange(900, 2500).Draw(w.T, "large fleet")
	}
	base := dict.Uint32().Draw(w.T, "base")
	var ts []term
	for i := 0; i < n; i++ {
		t := term{phone: fmt.Sprintf("%012d", uint64(base)+uint64(i)*7), ver: jt.V2013, plate: fmt.Sprintf("京%d", i)}
		if i%3 == 1 {
			t.ver = jt.V2011
		} else if i%3 == 2 {
			t.ver, t.proto, t.phone = jt.V2019, 1, fmt.Sprintf("%020d", uint64(base)+uint64(i/2)*7)
		}
		ts = append(ts, t)
	}
	var cs []*conn
	for i := dict.IntRange(1, 6).Draw(w.T, "conns"); i > 0; i-- {
		cs = append(cs, w.dial())
	}
	l := gen.Loc.Draw(w.T, "loc")
	for i, t := range ts {
		x := cs[i%len(cs)]
		w.register(x, t)
		if i%4 > 0 {
			w.auth(x, t, true)
		}
		if i%5 == 0 {
			l.Lat = uint32(i)
			w.location(x, t, l)
		}
	}
	w.list()
	for k := dict.IntRange(0, n).Draw(w.T, "leave"); k > 0; k-- {
		i := dict.IntRange(0, n-1).Draw(w.T, "who")
		if w.devs[ts[i].phone] != nil {
			w.logout(cs[i%len(cs)], ts[i])
		}
	}
	w.list()
	for _, t := range ts {
		w.geo(t.phone)
	}
	if w.old() {
		w.Skip("too slow")
	}
	c.NonTrivial("%d %d", n, base)
}
