package api

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/gen"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

// quiet shows that nothing but the reply to a heartbeat comes on any live
// connection: frames of one connection are ordered.
func (w *world) quiet() {
	var d *dev
	for _, x := range w.devs {
		if d == nil || x.phone < d.phone {
			d = x
		}
	}
	if d == nil {
		return
	}
	for _, c := range w.live() {
		m := w.msg(d.term, 2, nil)
		g := w.ask(c, m)
		if g.H.ID != 0x8001 || len(g.Body) != 5 || !bytes.Equal(g.Body, jt.GeneralReply(m.H.Serial, 2, 0)) {
			w.failf("connection %d got %v, which it should not have been sent", c.n, g)
		}
	}
}

func (w *world) expect(d *dev, id uint16, body []byte) {
	g, err := d.conn.next(patience)
	if err != nil {
		w.failf("the command for %s did not arrive on connection %d: %v", d.phone, d.conn.n, err)
	}
	if err := d.isCommand(g, id, body); err != nil {
		w.failf("%v", err)
	}
}

func (d *dev) isCommand(g jt.Msg, id uint16, body []byte) error {
	if g.H.ID != id || g.H.Phone != d.phone || !bytes.Equal(g.Body, body) {
		return fmt.Errorf("the terminal %s got %v, expected %04x with body %x", d.phone, g, id, body)
	}
	if g.H.New != (d.ver == jt.V2019) || g.H.New && g.H.ProtoVer != d.proto {
		return fmt.Errorf("the command has the wrong header layout: %v", g)
	}
	if g.H.Frag || g.H.Enc != 0 {
		return fmt.Errorf("the command has the attributes of another message: %v", g)
	}
	return nil
}

var badBodies = []string{"", " ", "{", "}", "nonsense", `{"params":1}`, `{"params":[1]}`, `{"params":[{"paramId":"x"}]}`, `{"params":[{"paramId":-1,"paramValue":1}]}`,
	`{"paramCnt":300,"params":[]}`, `{"params":[{"paramId":1,"paramValue":1}`, `[]`, `"x"`, `{"params":[{"paramId":4294967296,"paramValue":1}]}`, `{"params":[{"paramId":1,"paramLen":256,"paramValue":1}]}`}

func (w *world) putBody() ([]byte, []jt.Param) {
	ps := gen.WithMisfits(w.T, gen.JSONable(gen.WithUnknown(w.T, gen.Params(1000, false).Draw(w.T, "params"), 1000)))
	b := gen.ParamsJSON(w.T, ps)
	w.Tracef("json %s", b)
	return b, gen.Supported(ps)
}

func (w *world) refusedCmd(method, phone string, body []byte) {
	code, b := w.http(method, "/device/"+phone+"/params", body)
	if code != 400 {
		w.failf("%s for %s is answered %d %.200s, expected 400", method, phone, code, b)
	}
	w.n["refused"]++
	w.quiet()
}

func (w *world) command(ts []term) {
	t := rapid.SampledFrom(ts).Draw(w.T, "terminal")
	d := w.devs[t.phone]
	op := rapid.SampledFrom([]string{"get", "get", "put", "put", "put", "oversize", "bad", "stranger", "reg", "reg", "auth", "auth", "loc", "logout", "hangup"}).Draw(w.T, "op")
	w.Class("op:" + op)
	switch op {
	case "get":
		if d == nil {
			w.refusedCmd("GET", t.phone, nil)
		} else if !d.conn.gone {
			if code, b := w.http("GET", "/device/"+t.phone+"/params", nil); code >= 400 {
				w.failf("a parameter query for a connected terminal is answered %d %.200s", code, b)
			}
			w.expect(d, 0x8104, nil)
			w.n["get"]++
		}
	case "put":
		body, ps := w.putBody()
		if d == nil {
			w.refusedCmd("PUT", t.phone, body)
		} else if !d.conn.gone {
			if code, b := w.http("PUT", "/device/"+t.phone+"/params", body); code >= 400 {
				w.failf("a parameter update for a connected terminal is answered %d %.200s", code, b)
			}
			w.expect(d, 0x8103, jt.ParamList(ps))
			w.n["put"]++
		}
	case "oversize":
		// more than one message can hold is not sent
		if d != nil && !d.conn.gone {
			var items []string
			for k := dict.IntRange(5, 40).Draw(w.T, "items"); k > 0; k-- {
				items = append(items, fmt.Sprintf(`{"paramId":%d,"paramValue":"%s"}`, rapid.SampledFrom([]int{0x10, 0x13, 0x83}).Draw(w.T, "id"), strings.Repeat("x", 220)))
			}
			code, _ := w.http("PUT", "/device/"+t.phone+"/params", []byte(`{"params":[`+strings.Join(items, ",")+`]}`))
			w.Tracef("%d parameters of 220 bytes answered %d", len(items), code)
			w.quiet()
		}
	case "bad":
		w.refusedCmd("PUT", t.phone, []byte(rapid.SampledFrom(badBodies).Draw(w.T, "body")))
	case "stranger":
		phone := rapid.OneOf(gen.Digits(12), gen.Digits(20), rapid.SampledFrom([]string{"0", "x", t.plate})).Draw(w.T, "phone")
		if w.devs[phone] == nil {
			if rapid.Bool().Draw(w.T, "put") {
				body, _ := w.putBody()
				w.refusedCmd("PUT", phone, body)
			} else {
				w.refusedCmd("GET", phone, nil)
			}
		}
	case "reg":
		w.register(w.pick(), t)
	case "auth":
		if d != nil {
			w.auth(w.pick(), t, dict.IntRange(0, 7).Draw(w.T, "right") > 0)
		}
	case "loc":
		if d != nil {
			w.location(w.pick(), t, gen.Loc.Draw(w.T, "loc"))
		}
	case "logout":
		if d != nil {
			w.logout(w.pick(), t)
		}
	case "hangup":
		if c := w.live(); len(c) > 0 && rapid.Bool().Draw(w.T, "really") {
			x := rapid.SampledFrom(c).Draw(w.T, "conn")
			w.Tracef("conn#%d: terminal hangs up", x.n)
			x.Close()
			x.gone = true
			for _, d := range w.devs {
				if d.conn == x {
					w.goneAway(d)
				}
			}
		}
	}
	w.quiet()
}

// goneAway: once the server has seen the hang-up, commands are refused.
func (w *world) goneAway(d *dev) {
	body := []byte(`{"params":[{"paramId":1,"paramValue":60}]}`)
	deadline := time.Now().Add(patience)
	for {
		code, _ := w.http("PUT", "/device/"+d.phone+"/params", body)
		if code == 400 {
			break
		}
		if time.Now().After(deadline) {
			w.failf("a command for %s, whose connection is gone, is still answered %d", d.phone, code)
		}
		time.Sleep(time.Millisecond)
	}
	w.refusedCmd("GET", d.phone, nil)
	w.n["gone"]++
}

// parallel sends commands for several terminals at the same moment.
func parallel(c *pbt.C) {
	w := newWorld(c)
	ts := terms(w.T, dict.IntRange(1, 3).Draw(w.T, "terminals"))
	shared := rapid.Bool().Draw(w.T, "shared")
	var x *conn
	for i := range ts {
		ts[i].plate = fmt.Sprintf("京%d", i)
		if x == nil || !shared {
			x = w.dial()
		}
		w.register(x, ts[i])
		w.auth(x, ts[i], true)
	}
	type cmd struct {
		d    *dev
		body []byte // JSON, nil for a query
		wire []byte
		bad  bool
	}
	var cmds []cmd
	for k := dict.Count(2, 12, 150).Draw(w.T, "commands"); k > 0; k-- {
		m := cmd{d: w.devs[rapid.SampledFrom(ts).Draw(w.T, "terminal").phone]}
		switch dict.IntRange(0, 4).Draw(w.T, "kind") {
		case 0:
		case 1:
			m.bad, m.body = true, []byte(rapid.SampledFrom(badBodies).Draw(w.T, "body"))
		default:
			var ps []jt.Param
			m.body, ps = w.putBody()
			m.wire = jt.ParamList(ps)
		}
		cmds = append(cmds, m)
	}
	var wg sync.WaitGroup
	errs := make([]error, len(cmds))
	for i, m := range cmds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			method := "GET"
			if m.body != nil {
				method = "PUT"
			}
			req, _ := http.NewRequest(method, httpBase+"/device/"+m.d.phone+"/params", bytes.NewReader(m.body))
			req.Header.Set("Content-Type", "application/json")
			r, err := client.Do(req)
			if err != nil {
				errs[i] = err
				return
			}
			r.Body.Close()
			if (r.StatusCode >= 400) != m.bad || m.bad && r.StatusCode != 400 {
				errs[i] = fmt.Errorf("%s answered %d", method, r.StatusCode)
			}
		}()
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			w.failf("command %d: %v", i, err)
		}
	}
	want := map[*conn][]string{}
	for _, m := range cmds {
		if m.bad {
			continue
		}
		id := 0x8104
		if m.body != nil {
			id = 0x8103
		}
		want[m.d.conn] = append(want[m.d.conn], fmt.Sprintf("%04x %s %x", id, m.d.phone, m.wire))
	}
	for cn, ws := range want {
		var got []string
		for range ws {
			g, err := cn.next(patience)
			if err != nil {
				w.failf("%d of %d commands arrived: %v", len(got), len(ws), err)
			}
			got = append(got, fmt.Sprintf("%04x %s %x", g.H.ID, g.H.Phone, g.Body))
		}
		sort.Strings(got)
		sort.Strings(ws)
		if fmt.Sprint(got) != fmt.Sprint(ws) {
			w.failf("commands received %v, sent %v", got, ws)
		}
	}
	w.quiet()
	c.NonTrivial("%v %v", ts, want)
}

// stalled: one terminal stops reading while commands for it pile up; commands
// for the others still arrive.
func stalled(c *pbt.C) {
	w := newWorld(c)
	ts := few(w.T, dict.IntRange(2, 3).Draw(w.T, "terminals"))
	for i, t := range ts {
		x := w.dial()
		if i == 0 {
			_ = x.Conn.(*net.TCPConn).SetReadBuffer(4096)
		}
		w.register(x, t)
		w.auth(x, t, true)
	}
	deaf := w.devs[ts[0].phone]
	deaf.conn.gone = true // nothing of it is read from here on
	big := []byte(`{"params":[` + strings.Repeat(`{"paramId":16,"paramValue":"`+strings.Repeat("x", 240)+`"},`, 3) + `{"paramId":16,"paramValue":"` + strings.Repeat("x", 240) + `"}]}`)
	var out, sent atomic.Int64
	var last atomic.Int64 // when a command was last answered
	last.Store(time.Now().UnixNano())
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		get := i%2 == 1
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				req, _ := http.NewRequest("PUT", httpBase+"/device/"+deaf.phone+"/params", bytes.NewReader(big))
				if get {
					req, _ = http.NewRequest("GET", httpBase+"/device/"+deaf.phone+"/params", nil)
				}
				req.Header.Set("Content-Type", "application/json")
				out.Add(1)
				r, err := client.Do(req)
				out.Add(-1)
				if err != nil {
					return
				}
				r.Body.Close()
				last.Store(time.Now().UnixNano())
				sent.Add(1)
			}
		}()
	}
	// until no command for it is answered any more, or it is clear that they always are
	full := false
	for end := time.Now().Add(6 * time.Second); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
		if time.Since(time.Unix(0, last.Load())) > 400*time.Millisecond && out.Load() > 0 {
			full = true
			break
		}
	}
	w.Tracef("%d commands for %s, which reads nothing; all waiting: %v", sent.Load(), deaf.phone, full)
	for k := dict.IntRange(1, 4).Draw(w.T, "others"); k > 0; k-- {
		t := rapid.SampledFrom(ts[1:]).Draw(w.T, "terminal")
		d := w.devs[t.phone]
		switch rapid.SampledFrom([]string{"get", "put", "put", "hb", "list", "reg"}).Draw(w.T, "op") {
		case "get":
			if code, b := w.http("GET", "/device/"+t.phone+"/params", nil); code >= 400 {
				w.failf("a parameter query for a connected terminal is answered %d %.200s", code, b)
			}
			w.expect(d, 0x8104, nil)
		case "put":
			body, ps := w.putBody()
			if code, b := w.http("PUT", "/device/"+t.phone+"/params", body); code >= 400 {
				w.failf("a parameter update for a connected terminal is answered %d %.200s", code, b)
			}
			w.expect(d, 0x8103, jt.ParamList(ps))
		case "hb":
			w.heartbeat(d.conn, t)
		case "list":
			if code, _ := w.http("GET", "/device", nil); code != 200 {
				w.failf("the listing is answered %d", code)
			}
		case "reg":
			x := w.dial()
			n := term{phone: "808080808080", ver: jt.V2013, plate: "京9"}
			w.register(x, n)
			w.logout(x, n)
		}
	}
	close(stop)
	deaf.conn.Close()
	wg.Wait()
	c.ClassIf(full, "commands wait for the stalled terminal")
	if full {
		c.NonTrivial("%v %d %v", ts, w.serial, w.n)
	}
}

func TestC23(t *testing.T) {
	run(t, "C23", "generated histories of 1..3 terminals over real TCP connections to the server process with parameter queries and updates (all supported parameters as JSON, unsupported IDs, unreadable bodies, unknown phones, terminals that hung up or moved to another connection), every connection checked after every step by a heartbeat fence, commands sent at the same moment, commands for a terminal that has stopped reading next to others, and addresses used again by other terminals; non-trivial: a command arrived or was refused; distinct by history",
		pbt.Prop{Name: "commands", Quick: 2400, Thorough: 120000, Round: 100, F: func(c *pbt.C) {
			w := newWorld(c)
			ts := terms(w.T, dict.IntRange(1, 3).Draw(w.T, "terminals"))
			for i := range ts {
				if dict.IntRange(0, 3).Draw(w.T, "first") > 0 && w.register(w.pick(), ts[i]) && rapid.Bool().Draw(w.T, "auth") {
					w.auth(w.pick(), ts[i], true)
				}
			}
			for k := dict.Count(3, 20, 100).Draw(w.T, "steps"); k > 0 && !w.old(); k-- {
				w.command(ts)
			}
			if w.old() {
				w.Skip("too slow")
			}
			if w.n["put"]+w.n["get"]+w.n["refused"] > 0 {
				c.NonTrivial("%v %v %d", ts, w.n, w.serial)
			}
			c.ClassIf(w.n["put"] > 0, "update arrived")
			c.ClassIf(w.n["get"] > 0, "query arrived")
			c.ClassIf(w.n["gone"] > 0, "terminal gone")
		}},
		pbt.Prop{Name: "parallel", Quick: 1200, Thorough: 60000, Round: 100, F: parallel},
		pbt.Prop{Name: "address reused", Quick: 300, Thorough: 20000, Round: 50, F: reused},
		pbt.Prop{Name: "stalled", Quick: 12, Thorough: 1200, Round: 2, F: stalled},
	)
}
