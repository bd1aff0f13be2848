// Package api checks the HTTP side against the real server process.
package api

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/gen"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

// patience bounds every wait for something that has to happen. Nothing is
// ever concluded from something not having happened yet, except at its end.
const patience = 25 * time.Second

// slow is how old a case may get before keepalive (60 s) could matter.
const slow = 40 * time.Second

var (
	tcpAddr, httpBase string
	srv               *exec.Cmd
	died              = make(chan error, 1)
	client            = &http.Client{Timeout: patience}
)

func freePort() int {
	for {
		l, err := net.Listen("tcp", ":0")
		if err != nil {
			panic("HARNESS: no free port: " + err.Error())
		}
		p := l.Addr().(*net.TCPAddr).Port
		l.Close()
		if p != lastPort { // two in a row are used together
			lastPort = p
			return p
		}
	}
}

var lastPort int

// boot starts the server binary on free ports in the scratch directory.
func boot() error {
	dir := pbt.OutDir()
	for try := 0; try < 20; try++ {
		tp, hp := freePort(), freePort()
		cfg := filepath.Join(dir, fmt.Sprintf("server%d.yaml", try))
		level := []string{"DEBUG", "INFO", "ERROR"}[pbt.Shard()%3]
		text := fmt.Sprintf("log:\n  consoleEnable: false\n  fileEnable: false\n  logLevel: %q\n  logDirectory: %q\n  logFile: x.log\nserver:\n  name: t\n  port:\n    tcpPort: \"%d\"\n    udpPort: \"0\"\n    httpPort: \"%d\"\n  banner:\n    enable: false\n", level, filepath.Join(dir, "logs"), tp, hp)
		if err := os.WriteFile(cfg, []byte(text), 0o644); err != nil {
			return err
		}
		cmd := exec.Command(os.Getenv("VERIF_SERVER_BIN"), "-c", cfg)
		cmd.Dir = dir
		out, err := os.Create(filepath.Join(dir, fmt.Sprintf("server%d.log", try)))
		if err != nil {
			return err
		}
		cmd.Stdout, cmd.Stderr = out, out
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			return err
		}
		exit := make(chan error, 1)
		go func() { exit <- cmd.Wait() }()
		tcpAddr, httpBase = fmt.Sprintf("127.0.0.1:%d", tp), fmt.Sprintf("http://127.0.0.1:%d", hp)
		up := func() bool {
			a, err := net.DialTimeout("tcp", tcpAddr, time.Second)
			if err != nil {
				return false
			}
			a.Close()
			r, err := client.Get(httpBase + "/device")
			if err != nil {
				return false
			}
			io.Copy(io.Discard, r.Body)
			r.Body.Close()
			return r.StatusCode == 200
		}
		deadline := time.Now().Add(patience)
		for time.Now().Before(deadline) {
			select {
			case <-exit: // a port was taken in between: choose others
				deadline = time.Time{}
				continue
			default:
			}
			if up() {
				srv = cmd
				go func() { died <- <-exit }()
				return nil
			}
			time.Sleep(20 * time.Millisecond)
		}
		_ = cmd.Process.Kill()
	}
	return fmt.Errorf("the server does not come up on free ports")
}

func run(t *testing.T, id, rule string, props ...pbt.Prop) {
	pbt.Watch(200 * time.Second)
	if err := boot(); err != nil {
		props = []pbt.Prop{{Name: "boot", Quick: 1, Thorough: 1, F: func(c *pbt.C) { c.Fatalf("%v", err) }}}
	}
	ok := pbt.Run(id, rule, nil, props...)
	if srv != nil {
		_ = srv.Process.Kill()
	}
	if !ok {
		t.Fail()
	}
}

type term struct {
	phone string
	ver   jt.Ver
	proto byte
	plate string
}

type dev struct {
	term
	id         string
	conn       *conn // where it last registered or authenticated
	status     int
	code       string
	authed     string    // the code it presented
	from, to   time.Time // its last message was handled between these moments
	imei, soft string
	geo        *jt.Loc
}

type conn struct {
	net.Conn
	n    int
	buf  []byte
	gone bool
}

type world struct {
	*pbt.C
	start  time.Time
	conns  []*conn
	devs   map[string]*dev
	serial uint16
	asked  time.Time
	n      map[string]int
}

func newWorld(c *pbt.C) *world {
	w := &world{C: c, start: time.Now(), devs: map[string]*dev{}, n: map[string]int{}}
	c.T.Cleanup(w.cleanup)
	select {
	case err := <-died:
		died <- err
		c.Fatalf("the server process is gone: %v", err)
	default:
	}
	return w
}

// cleanup logs every terminal out so that the next case starts empty.
func (w *world) cleanup() {
	for _, c := range w.conns {
		c.Close()
	}
	r, err := client.Get(httpBase + "/device")
	if err != nil {
		return
	}
	var left []struct{ Phone string }
	_ = json.NewDecoder(r.Body).Decode(&left)
	r.Body.Close()
	phones := map[string]bool{}
	for _, d := range left {
		phones[d.Phone] = true
	}
	for p := range w.devs { // even if the listing does not have it
		phones[p] = true
	}
	var x *conn
	for p := range phones {
		if x == nil {
			c, err := net.Dial("tcp", tcpAddr)
			if err != nil {
				return
			}
			defer c.Close()
			x = &conn{Conn: c}
		}
		v := jt.V2013
		if len(p) == 20 {
			v = jt.V2019
		}
		if _, err := x.Write(jt.New(3, v, 1, p, 1, nil).Frame()); err != nil {
			x = nil
			continue
		}
		if _, err := x.next(patience); err != nil {
			x = nil // not registered any more: closed by the server
		}
	}
}

// old ends the case without a verdict when keepalive could interfere.
func (w *world) old() bool { return time.Since(w.start) > slow }

func (w *world) failf(f string, a ...any) {
	if w.old() {
		w.Skip("case too slow to judge")
	}
	w.Fatalf(f, a...)
}

func (w *world) dial() *conn {
	nc, err := net.DialTimeout("tcp", tcpAddr, patience)
	if err != nil {
		w.failf("the server does not accept a connection: %v", err)
	}
	c := &conn{Conn: nc, n: len(w.conns)}
	w.conns = append(w.conns, c)
	return c
}

// next reads one frame.
func (c *conn) next(d time.Duration) (jt.Msg, error) {
	deadline := time.Now().Add(d)
	for {
		for len(c.buf) > 0 {
			if c.buf[0] != 0x7e {
				return jt.Msg{}, fmt.Errorf("bytes outside a frame: %x", c.buf)
			}
			i := bytes.IndexByte(c.buf[1:], 0x7e)
			if i < 0 {
				break
			}
			f := c.buf[:i+2]
			c.buf = c.buf[i+2:]
			b, err := jt.ParseFrame(f)
			if err != nil {
				return jt.Msg{}, fmt.Errorf("frame %x: %v", f, err)
			}
			return jt.ParseMsg(b)
		}
		_ = c.SetReadDeadline(deadline)
		tmp := make([]byte, 4096)
		n, err := c.Read(tmp)
		c.buf = append(c.buf, tmp[:n]...)
		if n == 0 && err != nil {
			return jt.Msg{}, err
		}
	}
}

func (w *world) msg(t term, id uint16, body []byte) jt.Msg {
	w.serial++
	return jt.New(id, t.ver, t.proto, t.phone, w.serial, body)
}

func (w *world) send(c *conn, m jt.Msg) {
	_ = c.SetWriteDeadline(time.Now().Add(patience))
	if _, err := c.Write(m.Frame()); err != nil {
		w.failf("cannot send on connection %d: %v", c.n, err)
	}
}

// ask sends a message and returns its reply.
func (w *world) ask(c *conn, m jt.Msg) jt.Msg {
	w.asked = time.Now()
	w.send(c, m)
	g, err := c.next(patience)
	if err != nil {
		w.failf("connection %d: no reply to %v: %v", c.n, m, err)
	}
	return g
}

// heard: the terminal's last message was the one just answered.
func (w *world) heard(t term) {
	d := w.devs[t.phone]
	d.from, d.to = w.asked, time.Now()
}

func (w *world) byPlate(p string) *dev {
	for _, d := range w.devs {
		if d.plate == p {
			return d
		}
	}
	return nil
}

func (w *world) register(c *conn, t term) bool {
	r := gen.Reg(w.T, t.ver, t.plate)
	m := w.msg(t, 0x0100, r.Body(t.ver))
	w.Tracef("conn#%d: register %s v%s plate=%q id=%q", c.n, t.phone, t.ver, t.plate, r.ID)
	g := w.ask(c, m)
	if g.H.ID != 0x8100 || len(g.Body) < 3 {
		w.failf("registration answered by %v", g)
	}
	ok := w.devs[t.phone] == nil && w.byPlate(t.plate) == nil
	if ok != (g.Body[2] == 0) {
		w.failf("registration result %d", g.Body[2])
	}
	if ok {
		w.devs[t.phone] = &dev{term: t, id: r.ID, conn: c, code: string(g.Body[3:])}
		w.heard(t)
		w.n["reg"]++
	}
	return ok
}

func (w *world) auth(c *conn, t term, right bool) {
	d := w.devs[t.phone]
	imei, soft := gen.AsciiStr(0, 15).Draw(w.T, "imei"), gen.AsciiStr(0, 20).Draw(w.T, "soft")
	code := d.code
	if !right {
		code += "1"
	}
	w.Tracef("conn#%d: authenticate %s code=%q", c.n, t.phone, code)
	g := w.ask(c, w.msg(t, 0x0102, jt.AuthBody(t.ver, code, imei, soft)))
	if g.H.ID != 0x8001 || len(g.Body) != 5 || (g.Body[4] == 0) != right {
		w.failf("authentication answered by %v", g)
	}
	if !right {
		delete(w.devs, t.phone)
		w.n["revoked"]++
		return
	}
	w.n["auth"]++
	w.heard(t)
	d.conn, d.status, d.authed = c, 1, code
	if t.ver == jt.V2019 {
		d.imei, d.soft = imei, soft
	}
}

func (w *world) heartbeat(c *conn, t term) {
	w.Tracef("conn#%d: heartbeat %s", c.n, t.phone)
	if g := w.ask(c, w.msg(t, 2, nil)); g.H.ID != 0x8001 {
		w.failf("heartbeat answered by %v", g)
	}
	w.heard(t)
}

func (w *world) logout(c *conn, t term) {
	w.Tracef("conn#%d: logout %s", c.n, t.phone)
	if g := w.ask(c, w.msg(t, 3, nil)); g.H.ID != 0x8001 {
		w.failf("logout answered by %v", g)
	}
	delete(w.devs, t.phone)
	w.n["logout"]++
}

func (w *world) location(c *conn, t term, l jt.Loc) {
	w.Tracef("conn#%d: location %s %+v", c.n, t.phone, l)
	if g := w.ask(c, w.msg(t, 0x0200, l.Body())); g.H.ID != 0x8001 {
		w.failf("location answered by %v", g)
	}
	d := w.devs[t.phone]
	d.geo = &l
	w.heard(t)
	if l.Status&1 == 0 {
		d.status = 2
	}
	w.n["loc"]++
}

func (w *world) http(method, path string, body []byte) (int, []byte) {
	req, err := http.NewRequest(method, httpBase+path, bytes.NewReader(body))
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	if body != nil {
		req.Header.Set("Content-Type", "application/json")
	}
	r, err := client.Do(req)
	if err != nil {
		select {
		case e := <-died:
			died <- e
			w.Fatalf("%s %s: the server process is gone: %v", method, path, e)
		default:
		}
		w.failf("%s %s is not answered: %v", method, path, err)
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	w.Tracef("%s %s -> %d", method, path, r.StatusCode)
	return r.StatusCode, b
}

func (w *world) live() []*conn {
	var out []*conn
	for _, c := range w.conns {
		if !c.gone {
			out = append(out, c)
		}
	}
	return out
}

func (w *world) pick() *conn {
	live := w.live()
	if len(live) == 0 || len(live) < 3 && dict.IntRange(0, 3).Draw(w.T, "newconn") == 0 {
		return w.dial()
	}
	return rapid.SampledFrom(live).Draw(w.T, "conn")
}

// terms draws terminals with distinct phones and plates drawn from a pool.
func terms(t *rapid.T, n int) []term {
	plates := []string{"京A12345", "粤B-~9", "X", "x", "沪C龙", "京A1234"}
	one := rapid.Custom(func(t *rapid.T) term {
		v := gen.Ver.Draw(t, "ver")
		x := term{ver: v, plate: rapid.SampledFrom(plates).Draw(t, "plate")}
		k := 12
		if v == jt.V2019 {
			k = 20
			x.proto = rapid.SampledFrom([]byte{1, 2, 0xff}).Draw(t, "proto")
		}
		x.phone = gen.Digits(k).Draw(t, "phone")
		return x
	})
	ts := rapid.SliceOfNDistinct(one, n, n, func(x term) string { return x.phone }).Draw(t, "terminals")
	used := map[string]bool{}
	for _, x := range ts {
		used[x.phone] = true
	}
	for i := 1; i < n; i++ { // phones easily mistaken for the first one
		x := ts[0]
		b := []byte(x.phone)
		switch dict.IntRange(0, 9).Draw(t, "related") {
		case 0:
			b[0] = '0' + (b[0]-'0'+1)%10
			x.phone = string(b)
		case 1:
			b[len(b)-1] = '0' + (b[len(b)-1]-'0'+1)%10
			x.phone = string(b)
		case 2:
			if x.ver == jt.V2019 {
				x.ver, x.proto, x.phone = jt.V2013, 0, x.phone[8:]
			} else {
				x.ver, x.proto, x.phone = jt.V2019, 1, "00000000"+x.phone
			}
		default:
			continue
		}
		if !used[x.phone] {
			used[x.phone] = true
			x.plate = ts[i].plate
			ts[i] = x
		}
	}
	return ts
}

func decode(w *world, what string, b []byte, into any) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(into); err != nil {
		w.failf("%s: unreadable JSON %.300s: %v", what, b, err)
	}
}
