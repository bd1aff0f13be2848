// Package serv checks the real server (accept loop, pipeline, processors,
// stores, keepalive timer) on an in-memory network and a virtual clock.
package serv

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/server"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
	"github.com/fakeyanss/jt808-server-go/verifharness/sim"
)

// bubble runs the checks of one property inside one synctest bubble. The
// server's singletons live in it, so the process ends from inside.
func bubble(t *testing.T, id, rule string, props ...pbt.Prop) {
	pbt.Watch(45 * time.Second)
	synctest.Test(t, func(t *testing.T) {
		ok := pbt.Run(id, rule, nil, props...)
		if !ok {
			os.Exit(1)
		}
		os.Exit(0)
	})
}

var (
	lis     *sim.Listener
	srv     *server.TCPServer
	portSeq int
)

func setLevel(l zerolog.Level) { log.Logger = zerolog.New(io.Discard).Level(l) }

// boot starts the server once per process.
func boot() {
	if srv != nil {
		return
	}
	setLevel(zerolog.DebugLevel)
	lis = sim.NewListener()
	srv = server.NewTCPServerOn(lis)
	go srv.Start()
}

// term is a terminal's identity.
type term struct {
	phone string
	ver   jt.Ver
	proto byte
}

// dev is what the directory should hold for a phone.
type dev struct {
	term
	id, plate  string
	conn       *conn
	status     int // 0 offline, 1 online, 2 sleeping
	code       string
	imei, soft string
	geos       []jt.Loc
	lastCom    time.Time
	vague      bool // spoke while shown offline: offline or online
}

type conn struct {
	*sim.Peer
	n      int
	addr   string
	ended  bool                 // ended by the harness or expected closed by the server
	errs   int                  // error back-offs the server is expected to be sleeping through
	stuck  bool                 // the terminal does not read: nothing is collected
	loose  bool                 // not checked: an attacker's or a silent terminal's connection
	accept []func(jt.Msg) error // one per expected reply
}

// world is one case: the server plus the model of what it should hold.
type world struct {
	*pbt.C
	conns  []*conn
	devs   map[string]*dev
	phones map[string]bool // every phone used
	start  time.Time
	chunk  bool // cut streams into generated segments
	checks aspects
	serial uint16
	n      map[string]int // what happened in this case
	only   bool           // the directory may hold others than the model
}

type aspects int

const (
	aDir  aspects = 1 << iota // directory contents
	aGeo                      // location store
	aSess                     // session lookup
	aJobs                     // scheduled keepalive checks
	aAll  = aDir | aGeo | aSess
)

func newWorld(c *pbt.C, a aspects) *world {
	boot()
	w := &world{C: c, devs: map[string]*dev{}, phones: map[string]bool{}, checks: a, n: map[string]int{}}
	lvl := rapid.SampledFrom([]zerolog.Level{zerolog.DebugLevel, zerolog.DebugLevel, zerolog.InfoLevel, zerolog.ErrorLevel}).Draw(c.T, "loglevel")
	setLevel(lvl)
	w.chunk = rapid.Bool().Draw(c.T, "chunked")
	w.start = time.Now()
	c.T.Cleanup(w.cleanup)
	return w
}

// cleanup returns the process to an empty server, whatever happened.
func (w *world) cleanup() {
	for _, c := range w.conns {
		c.Stall(0)
		c.Hangup()
	}
	time.Sleep(1500 * time.Millisecond)
	synctest.Wait()
	for i := 0; i < 100; i++ { // connections with queued error frames
		busy := false
		for _, c := range w.conns {
			if !c.Closed() {
				busy = true
			}
		}
		if !busy {
			break
		}
		time.Sleep(5 * time.Second)
		synctest.Wait()
	}
	cache, geo := storage.GetDeviceCache(), storage.GetGeoCache()
	for _, d := range cache.ListDevice() {
		w.phones[d.Phone] = true
		cache.DelDeviceByPhone(d.Phone)
		cache.DelDeviceByCarPlate(d.Plate)
	}
	for _, d := range w.devs {
		cache.DelDeviceByCarPlate(d.plate)
	}
	for p := range w.phones {
		cache.DelDeviceByPhone(p)
		geo.DelGeoByPhone(p)
	}
	time.Sleep(125 * time.Second) // keepalive jobs of unknown terminals end themselves
	synctest.Wait()
}

func (w *world) dial() *conn {
	portSeq++
	return w.dialFrom(fmt.Sprintf("192.0.2.%d:%d", 1+portSeq/50000%250, 1024+portSeq%50000))
}

func (w *world) dialFrom(addr string) *conn {
	p, ok := lis.Dial(addr)
	if !ok {
		w.Fatalf("server does not accept connections")
	}
	c := &conn{Peer: p, n: len(w.conns), addr: addr}
	w.conns = append(w.conns, c)
	w.Tracef("conn#%d opens (%s)", c.n, addr)
	synctest.Wait()
	return c
}

// cut splits stream bytes into generated segments.
func (w *world) cut(b []byte) [][]byte {
	if !w.chunk || len(b) < 2 {
		return [][]byte{b}
	}
	if dict.IntRange(0, 9).Draw(w.T, "bytewise") == 0 {
		var out [][]byte
		for i := range b {
			out = append(out, b[i:i+1])
		}
		return out
	}
	var out [][]byte
	for _, p := range rapid.SliceOfN(dict.IntRange(1, len(b)), 0, 3).Draw(w.T, "cuts") {
		if p < len(b) {
			out = append(out, b[:p])
			b = b[p:]
		}
	}
	return append(out, b)
}

// send delivers raw stream bytes, cut as generated.
func (w *world) send(c *conn, b []byte) { c.Chunks(w.cut(b)...) }

// want registers an expected reply on a connection.
func (c *conn) want(check func(jt.Msg) error) { c.accept = append(c.accept, check) }

// settle lets the server finish everything and compares what it sent.
func (w *world) settle() {
	synctest.Wait()
	for _, c := range w.conns {
		if c.errs > 0 {
			time.Sleep(time.Duration(c.errs)*time.Second + 50*time.Millisecond)
			synctest.Wait()
			c.errs = 0
		}
	}
	w.collect()
}

func (w *world) collect() {
	for _, c := range w.conns {
		if c.stuck {
			continue
		}
		raw := c.Take()
		if c.loose {
			c.accept = nil
			continue
		}
		msgs, rest, err := jt.ParseStream(raw)
		if err != nil {
			w.Fatalf("conn#%d: the server sent a malformed stream: %v", c.n, err)
		}
		if len(rest) > 0 {
			w.Fatalf("conn#%d: the server sent an incomplete frame: %x", c.n, rest)
		}
		for _, m := range msgs {
			w.Tracef("  server -> conn#%d: %v", c.n, m)
		}
		for i, chk := range c.accept {
			if i >= len(msgs) {
				w.Fatalf("conn#%d: %d replies expected, got %d", c.n, len(c.accept), len(msgs))
			}
			if err := chk(msgs[i]); err != nil {
				w.Fatalf("conn#%d: reply %d: %v\n  got %v", c.n, i, err, msgs[i])
			}
		}
		if len(msgs) > len(c.accept) {
			w.Fatalf("conn#%d: unexpected frame from the server: %v", c.n, msgs[len(c.accept)])
		}
		w.n["replies"] += len(msgs)
		if len(msgs) > 1 {
			w.n["bursts"]++
		}
		c.accept = nil
		if c.Closed() != c.ended {
			w.Fatalf("conn#%d: closed by the server: %v, expected %v", c.n, c.Closed(), c.ended)
		}
	}
}

// replyHead checks the parts every reply has in common.
func replyHead(req jt.Msg, id uint16) func(jt.Msg) error {
	return func(m jt.Msg) error {
		switch {
		case m.H.ID != id:
			return fmt.Errorf("message ID %04x, expected %04x", m.H.ID, id)
		case m.H.New != req.H.New:
			return fmt.Errorf("header layout differs from the request's")
		case m.H.New && m.H.ProtoVer != req.H.ProtoVer:
			return fmt.Errorf("protocol version %d, terminal has %d", m.H.ProtoVer, req.H.ProtoVer)
		case m.H.Phone != req.H.Phone:
			return fmt.Errorf("phone %s, expected %s", m.H.Phone, req.H.Phone)
		case m.H.Frag:
			return fmt.Errorf("reply is marked as a fragment")
		case m.H.Enc != 0 && m.H.Enc != req.H.Enc || m.H.Extra && !req.H.Extra:
			return fmt.Errorf("the reply's attributes %04x claim an encryption or a reserved bit the request %04x does not have", m.H.Attr(), req.H.Attr())
		}
		return nil
	}
}

// general checks a platform general reply to req.
func general(req jt.Msg, result byte) func(jt.Msg) error {
	return func(m jt.Msg) error {
		if err := replyHead(req, 0x8001)(m); err != nil {
			return err
		}
		if want := jt.GeneralReply(req.H.Serial, req.H.ID, result); !bytes.Equal(m.Body, want) {
			return fmt.Errorf("body %x, expected %x (serial, message ID, result)", m.Body, want)
		}
		return nil
	}
}

func (w *world) nextSerial() uint16 {
	switch dict.IntRange(0, 7).Draw(w.T, "numbering") {
	case 0: // the same again
	case 1:
		w.serial++
	default:
		w.serial = uint16(dict.IntRange(0, 65535).Draw(w.T, "serial"))
	}
	return w.serial
}

func (w *world) msg(t term, id uint16, body []byte) jt.Msg {
	w.phones[t.phone] = true
	m := jt.New(id, t.ver, t.proto, t.phone, w.nextSerial(), body)
	m.H.Extra = dict.IntRange(0, 15).Draw(w.T, "reserved") == 15 // a reserved bit means nothing
	return m
}

// ---- operations: each sends one message and updates the model ----

type outcome int

const (
	served outcome = iota
	refused
	closed
)

// closeBy marks that the server must end this connection now.
func (w *world) closeBy(c *conn) {
	c.ended = true
	w.n["stranger"]++
}

func (w *world) byPlate(plate string) *dev {
	for _, d := range w.devs {
		if d.plate == plate {
			return d
		}
	}
	return nil
}

// expectRegister predicts the effect of a registration message.
func (w *world) expectRegister(c *conn, t term, m jt.Msg, r jt.Reg) outcome {
	if w.byPlate(r.Plate) != nil || w.devs[t.phone] != nil {
		var results []byte // both taken: either is true
		holder := w.devs[t.phone]
		if holder != nil {
			results = append(results, 3)
		}
		if d := w.byPlate(r.Plate); d != nil {
			results = append(results, 1)
			holder = d
		}
		w.n["reg refused"]++
		all := append(w.sortedDevs(), holder)
		c.want(func(g jt.Msg) error {
			if err := replyHead(m, 0x8100)(g); err != nil {
				return err
			}
			if len(g.Body) < 3 || !bytes.Equal(g.Body[:2], jt.W16(nil, m.H.Serial)) || bytes.IndexByte(results, g.Body[2]) < 0 {
				return fmt.Errorf("body %x, expected serial %04x and result %v", g.Body, m.H.Serial, results)
			}
			for _, d := range all {
				if code := string(g.Body[3:]); code != "" && code == d.code {
					return fmt.Errorf("the refusal reveals the valid authentication code %q of %s", code, d.phone)
				}
			}
			return nil
		})
		return refused
	}
	w.n["reg accepted"]++
	d := &dev{term: t, id: r.ID, plate: r.Plate, conn: c, lastCom: time.Now()}
	w.devs[t.phone] = d
	c.want(func(g jt.Msg) error {
		if err := replyHead(m, 0x8100)(g); err != nil {
			return err
		}
		if len(g.Body) < 3 || !bytes.Equal(g.Body[:3], append(jt.W16(nil, m.H.Serial), 0)) {
			return fmt.Errorf("body %x, expected serial %04x and result 0 (accepted)", g.Body, m.H.Serial)
		}
		if d.code = string(g.Body[3:]); d.code == "" {
			return fmt.Errorf("accepted without an authentication code")
		}
		return nil
	})
	return served
}

func (w *world) register(c *conn, t term, r jt.Reg) outcome {
	m := w.msg(t, 0x0100, r.Body(t.ver))
	w.Tracef("conn#%d: register %s v%s plate=%q id=%q serial=%d", c.n, t.phone, t.ver, r.Plate, r.ID, m.H.Serial)
	o := w.expectRegister(c, t, m, r)
	w.send(c, m.Frame())
	return o
}

func (w *world) expectAuth(c *conn, t term, m jt.Msg, code, imei, soft string) outcome {
	d := w.devs[t.phone]
	if d == nil {
		w.closeBy(c)
		return closed
	}
	if code != d.code {
		w.n["auth refused"]++
		c.want(general(m, 1))
		delete(w.devs, t.phone)
		return refused
	}
	w.n["auth ok"]++
	c.want(general(m, 0))
	d.status, d.lastCom, d.conn = 1, time.Now(), c
	if t.ver == jt.V2019 {
		d.imei, d.soft = imei, soft
	}
	return served
}

func (w *world) auth(c *conn, t term, code, imei, soft string) outcome {
	m := w.msg(t, 0x0102, jt.AuthBody(t.ver, code, imei, soft))
	w.Tracef("conn#%d: authenticate %s code=%q serial=%d", c.n, t.phone, code, m.H.Serial)
	o := w.expectAuth(c, t, m, code, imei, soft)
	w.send(c, m.Frame())
	return o
}

// simple sends heartbeat (2) or logout (3).
func (w *world) simple(c *conn, t term, id uint16) outcome {
	m := w.msg(t, id, nil)
	w.Tracef("conn#%d: %s %s serial=%d", c.n, map[uint16]string{2: "heartbeat", 3: "logout", 4: "time query"}[id], t.phone, m.H.Serial)
	o := w.expectSimple(c, t, m)
	w.send(c, m.Frame())
	return o
}

func (w *world) expectSimple(c *conn, t term, m jt.Msg) outcome {
	d := w.devs[t.phone]
	if m.H.ID == 4 {
		now := time.Now()
		c.want(func(g jt.Msg) error {
			if err := replyHead(m, 0x8004)(g); err != nil {
				return err
			}
			if g.H.Serial != m.H.Serial {
				return fmt.Errorf("serial %d, expected %d", g.H.Serial, m.H.Serial)
			}
			for t := now; !t.After(time.Now().Add(time.Second)); t = t.Add(time.Second) {
				if bytes.Equal(g.Body, jt.BCD(jt.TimeDigits(t))) {
					return nil
				}
			}
			return fmt.Errorf("time %x, the server's time is %s", g.Body, jt.TimeDigits(now))
		})
		return served
	}
	if d == nil {
		w.closeBy(c)
		return closed
	}
	c.want(general(m, 0))
	if m.H.ID == 3 {
		w.n["logout"]++
		delete(w.devs, t.phone)
	} else {
		d.lastCom = time.Now()
	}
	return served
}

func (w *world) location(c *conn, t term, l jt.Loc) outcome {
	m := w.msg(t, 0x0200, l.Body())
	w.Tracef("conn#%d: location %s %+v serial=%d", c.n, t.phone, l, m.H.Serial)
	o := w.expectLocation(c, t, m, l)
	w.send(c, m.Frame())
	return o
}

func (w *world) expectLocation(c *conn, t term, m jt.Msg, l jt.Loc) outcome {
	d := w.devs[t.phone]
	if d == nil {
		w.closeBy(c)
		return closed
	}
	c.want(general(m, 0))
	w.n["loc"]++
	d.geos = append(d.geos, l)
	d.lastCom = time.Now()
	if l.Status&1 == 0 {
		d.status = 2
	}
	return served
}

func (w *world) hangup(c *conn) {
	w.Tracef("conn#%d: terminal hangs up", c.n)
	c.Hangup()
	c.ended = true
}

func (w *world) reset(c *conn) {
	w.Tracef("conn#%d: connection reset", c.n)
	c.Reset()
	c.ended = true
	c.errs++
}

// ---- comparison with the stores ----

func (w *world) compare() {
	if w.checks&aDir != 0 {
		w.compareDir()
	}
	if w.checks&aGeo != 0 {
		w.compareGeo()
	}
	if w.checks&aSess != 0 {
		w.compareSess()
	}
	if w.checks&aJobs != 0 {
		w.compareJobs()
	}
}

// compareJobs: a registered terminal has a keepalive check scheduled, one that
// logged out has none.
func (w *world) compareJobs() {
	n := map[string]int{}
	for _, e := range protocol.NewKeepaliveTimer().Jobs() {
		if j, ok := e.Job.(interface{ JobID() string }); ok {
			n[j.JobID()]++
		}
	}
	for p := range w.phones {
		if w.devs[p] != nil && n[p] == 0 {
			w.Fatalf("no keepalive check is scheduled for the registered phone %s", p)
		}
		if w.devs[p] == nil && n[p] > 0 && !w.only {
			w.Fatalf("a keepalive check of %s is still scheduled after it logged out", p)
		}
		if n[p] > 1 {
			w.Fatalf("%d keepalive checks are scheduled for %s", n[p], p)
		}
	}
}

func (w *world) compareDir() {
	cache := storage.GetDeviceCache()
	list := cache.ListDevice()
	got := map[string]bool{}
	for _, d := range list {
		if got[d.Phone] {
			w.Fatalf("the listing has phone %s twice", d.Phone)
		}
		got[d.Phone] = true
		if w.devs[d.Phone] == nil && !w.only {
			w.Fatalf("the listing has phone %s, which is not registered", d.Phone)
		}
	}
	for p, d := range w.devs {
		if !got[p] {
			w.Fatalf("the listing lacks the registered phone %s", p)
		}
		g, err := cache.GetDeviceByPhone(p)
		if err != nil || g == nil {
			w.Fatalf("registered phone %s is not found: %v", p, err)
		}
		byPlate, err := cache.GetDeviceByPlate(d.plate)
		if err != nil || byPlate == nil || byPlate.Phone != p {
			w.Fatalf("plate %q of phone %s is not found by plate: %v %v", d.plate, p, byPlate, err)
		}
		w.compareDev(d, g)
		w.compareDev(d, byPlate)
	}
	for p := range w.phones {
		if w.devs[p] == nil && !w.only {
			if _, err := cache.GetDeviceByPhone(p); err == nil {
				w.Fatalf("phone %s is found although it is not registered", p)
			}
			if cache.HasPhone(p) {
				w.Fatalf("phone %s counts as taken although it is not registered", p)
			}
		}
	}
}

func verType(v jt.Ver) model.VersionType {
	switch v {
	case jt.V2019:
		return model.Version2019
	case jt.V2013:
		return model.Version2013
	}
	return model.Version2011
}

func (w *world) compareDev(d *dev, g *model.Device) {
	bad := func(what string, got, want any) {
		w.Fatalf("directory entry of %s: %s is %v, expected %v", d.phone, what, got, want)
	}
	if g.ID != d.id {
		bad("id", g.ID, d.id)
	}
	if g.Plate != d.plate {
		bad("plate", g.Plate, d.plate)
	}
	if g.Phone != d.phone {
		bad("phone", g.Phone, d.phone)
	}
	if g.VersionDesc != verType(d.ver) {
		bad("version", g.VersionDesc, verType(d.ver))
	}
	if d.ver == jt.V2019 && g.ProtocolVersion != d.proto {
		bad("protocol version", g.ProtocolVersion, d.proto)
	}
	if int(g.Status) != d.status && !(d.vague && d.status == 0 && g.Status == model.DeviceStatusOnline) {
		bad("status", g.Status, d.status)
	}
	if g.SessionID != d.conn.addr {
		bad("session", g.SessionID, d.conn.addr)
	}
	if g.Conn != d.conn.Conn {
		bad("its connection the one of its session", false, true)
	}
	if trimNul(g.IMEI) != trimNul(d.imei) {
		bad("IMEI", g.IMEI, d.imei)
	}
	if trimNul(g.SoftwareVersion) != trimNul(d.soft) {
		bad("software version", g.SoftwareVersion, d.soft)
	}
}

func trimNul(s string) string {
	for len(s) > 0 && s[len(s)-1] == 0 {
		s = s[:len(s)-1]
	}
	return s
}

func (w *world) compareGeo() {
	geo := storage.GetGeoCache()
	for p := range w.phones {
		d := w.devs[p]
		if d == nil && w.only {
			continue
		}
		g, err := geo.GetGeoLatestByPhone(p)
		if d == nil || len(d.geos) == 0 {
			if err == nil && g != nil {
				w.Fatalf("phone %s has a stored location %+v, expected none", p, g.Location)
			}
			continue
		}
		if err != nil || g == nil {
			w.Fatalf("phone %s has no latest location after %d reports: %v", p, len(d.geos), err)
		}
		if e := sameGeo(p, d.geos[len(d.geos)-1], g); e != nil {
			w.Fatalf("latest location of %s after %d reports: %v", p, len(d.geos), e)
		}
	}
}

func sameGeo(phone string, l jt.Loc, g *model.DeviceGeo) error {
	if g.Phone != phone {
		return fmt.Errorf("belongs to phone %s", g.Phone)
	}
	if g.Location == nil || g.Drive == nil || g.Geo == nil {
		return fmt.Errorf("incomplete: %+v", g)
	}
	near := func(a, b float64) bool { d := a - b; return d < 1e-9 && d > -1e-9 }
	if !near(g.Location.Latitude, float64(l.Lat)/1e6) || !near(g.Location.Longitude, float64(l.Lon)/1e6) || g.Location.Altitude != l.Alt {
		return fmt.Errorf("position %+v, reported lat=%d lon=%d alt=%d", *g.Location, l.Lat, l.Lon, l.Alt)
	}
	if !near(g.Drive.Speed, float64(l.Speed)/10) || g.Drive.Direction != l.Dir {
		return fmt.Errorf("drive %+v, reported speed=%d dir=%d", *g.Drive, l.Speed, l.Dir)
	}
	if ts := jt.TimeDigits(g.Time); ts != l.Time {
		return fmt.Errorf("time %s, reported %s", ts, l.Time)
	}
	return sameStatus(l.Status, g.Geo)
}

func sameStatus(s uint32, g *model.GeoMeta) error {
	f := func(i uint) uint8 { return uint8(s >> i & 1) }
	want := model.GeoMeta{
		ACCStatus: f(0), LocationStatus: f(1), LatitudeType: f(2), LongitudeType: f(3), OperatingStatus: f(4), GeoEncryptionStatus: f(5),
		LoadStatus: uint8(s >> 8 & 3), FuelSystemStatus: f(10), AlternatorSystemStatus: f(11), DoorLockedStatus: f(12),
		FrontDoorStatus: f(13), MidDoorStatus: f(14), BackDoorStatus: f(15), DriverDoorStatus: f(16), CustomDoorStatus: f(17),
		GPSLocationStatus: f(18), BeidouLocationStatus: f(19), GLONASSLocationStatus: f(20), GalileoLocationStatus: f(21), DrivingStatus: f(22),
	}
	if *g != want {
		return fmt.Errorf("status bits %032b decoded as %+v, documented meaning %+v", s, *g, want)
	}
	return nil
}

func (w *world) compareSess() {
	for _, c := range w.conns {
		if c.loose {
			continue
		}
		s, err := storage.GetSession(c.addr)
		if c.ended {
			if err == nil {
				same := false
				for _, o := range w.conns { // address used again by a live connection
					if o != c && o.addr == c.addr && !o.ended {
						same = true
					}
				}
				if !same {
					w.Fatalf("session %s is still there after its connection ended", c.addr)
				}
			}
			continue
		}
		if err != nil || s == nil {
			w.Fatalf("live conn#%d (%s) has no session: %v", c.n, c.addr, err)
		}
		if s.ID != c.addr || s.Conn != c.Conn {
			w.Fatalf("session %s belongs to another connection", c.addr)
		}
	}
}

// elapsed is the virtual time spent in this case.
func (w *world) elapsed() time.Duration { return time.Since(w.start) }

func (w *world) liveConns() []*conn {
	var out []*conn
	for _, c := range w.conns {
		if !c.ended {
			out = append(out, c)
		}
	}
	return out
}

func (w *world) sortedDevs() []*dev {
	var out []*dev
	for _, d := range w.devs {
		out = append(out, d)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].phone < out[j].phone })
	return out
}
