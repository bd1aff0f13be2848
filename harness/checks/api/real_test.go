package api

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"os"
	"sort"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/gen"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

// The parts of C18, C19 and C20 that only the real process with real sockets
// shows: descriptors, resets and half-closed connections as the kernel reports
// them, and commands that come in through the HTTP side.

// fds is how many descriptors the server process has open.
func fds() int {
	es, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", srv.Process.Pid))
	if err != nil {
		return -1
	}
	return len(es)
}

// settled waits until the server has no more descriptors than before.
func (w *world) settled(base int) {
	deadline := time.Now().Add(patience)
	for fds() > base {
		if time.Now().After(deadline) {
			w.failf("the server holds %d descriptors, %d before these connections were opened and closed", fds(), base)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// base counts the descriptors once no connection is on its way in or out.
func (w *world) base() int {
	w.http("GET", "/device", nil)
	n, same := fds(), 0
	for end := time.Now().Add(3 * time.Second); same < 5 && time.Now().Before(end); {
		time.Sleep(10 * time.Millisecond)
		if m := fds(); m == n {
			same++
		} else {
			n, same = m, 0
		}
	}
	return n
}

// serving shows that the terminals are served and a new connection is too.
func (w *world) serving(ts []term, fresh term) {
	for _, t := range ts {
		d := w.devs[t.phone]
		m := w.msg(t, 2, nil)
		if g := w.ask(d.conn, m); g.H.ID != 0x8001 || !bytes.Equal(g.Body, jt.GeneralReply(m.H.Serial, 2, 0)) {
			w.failf("terminal %s: heartbeat answered by %v", t.phone, g)
		}
	}
	x := w.dial()
	w.register(x, fresh)
	w.logout(x, fresh)
	x.Close()
	x.gone = true
}

// ending is how a peer ends a connection.
var ending = rapid.SampledFrom([]string{"close", "reset", "half-close"})

func (w *world) end(x *conn, how string) {
	t := x.Conn.(*net.TCPConn)
	switch how {
	case "close":
		t.Close()
	case "reset":
		_ = t.SetLinger(0)
		t.Close()
	case "half-close":
		_ = t.CloseWrite() // the server sees the end and closes its side
	}
	x.gone = true
}

const stranger = "909090909090"

// rubbish draws what an ill-behaved peer sends.
func rubbish(t *rapid.T) []byte {
	id := rapid.SampledFrom([]uint16{0x0001, 0x0002, 0x0003, 0x0004, 0x0100, 0x0102, 0x0104, 0x0200, 0x1205, 0x8001, 0x8004, 0x8100, 0x8103, 0x8104, 0x9205, 0x7777}).Draw(t, "id")
	m := jt.New(id, jt.V2013, 0, stranger, 1, rapid.SliceOfN(dict.Byte(), 0, 80).Draw(t, "body"))
	switch dict.IntRange(0, 7).Draw(t, "rubbish") {
	case 0:
		return rapid.SliceOfN(dict.Byte(), 0, 200).Draw(t, "random")
	case 1:
		return rapid.SliceOfN(rapid.SampledFrom([]byte{0x7e, 0x7d, 1, 2, 0}), 0, 20).Draw(t, "marks")
	case 2:
		b := m.Bytes()
		return jt.Frame(b[:dict.IntRange(0, len(b)).Draw(t, "cut")])
	case 3:
		m.H.BodyLen = dict.IntRange(0, 1023).Draw(t, "len")
		return m.Frame()
	case 4:
		m.H.Frag, m.H.Total, m.H.Index = true, dict.Uint16().Draw(t, "total"), dict.Uint16().Draw(t, "index")
		return m.Frame()
	case 5:
		f := m.Frame()
		return f[:dict.IntRange(0, len(f)-1).Draw(t, "cut")]
	case 6:
		return bytes.Repeat([]byte{dict.Byte().Draw(t, "fill")}, dict.IntRange(1000, 300000).Draw(t, "amount"))
	}
	return m.Frame()
}

func few(t *rapid.T, n int) []term {
	ts := terms(t, n)
	for i := range ts {
		ts[i].plate = fmt.Sprintf("京%d", i)
	}
	return ts
}

func TestC18(t *testing.T) {
	run(t, "C18", "4-25 real connections to the server process at a time that send rubbish (random bytes, malformed but well-checksummed messages, unfinished frames, long runs) and end by close, reset or half-close at any moment, next to working terminals; afterwards the terminals and a new one are served and the process holds no more descriptors than before; non-trivial: every case; distinct by what was sent",
		pbt.Prop{Name: "real process", Quick: 16, Thorough: 2500, Round: 4, F: func(c *pbt.C) {
			w := newWorld(c)
			ts := few(w.T, dict.IntRange(2, 3).Draw(w.T, "terminals"))
			fresh := ts[len(ts)-1]
			ts = ts[:len(ts)-1]
			for _, t := range ts {
				x := w.dial()
				w.register(x, t)
				w.auth(x, t, true)
			}
			base := w.base()
			key := ""
			for round := dict.IntRange(1, 2).Draw(w.T, "rounds"); round > 0; round-- {
				var bad []*conn
				for i := dict.IntRange(4, 25).Draw(w.T, "connections"); i > 0; i-- {
					x := w.dial()
					bad = append(bad, x)
					_ = x.SetWriteDeadline(time.Now().Add(patience))
					for k := dict.IntRange(0, 2).Draw(w.T, "pieces"); k > 0; k-- {
						b := rubbish(w.T)
						w.Tracef("conn#%d: %d bytes %.60x", x.n, len(b), b)
						if _, err := x.Write(b); err != nil {
							break // already closed by the server
						}
						key += fmt.Sprintf("%.20x", b)
					}
					if rapid.Bool().Draw(w.T, "now") {
						w.end(x, ending.Draw(w.T, "end"))
					}
				}
				w.serving(ts, fresh)
				for _, x := range bad {
					if !x.gone {
						w.end(x, ending.Draw(w.T, "end"))
					}
				}
				w.settled(base)
				for _, x := range bad {
					x.Close()
				}
				w.serving(ts, fresh)
			}
			w.settled(base)
			c.NonTrivial("%s", key)
		}},
		pbt.Prop{Name: "flood", Quick: 4, Thorough: 120, Round: 2, F: flood})
}

// rss is how many megabytes of memory the server process occupies.
func rss() int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", srv.Process.Pid))
	if err != nil {
		return -1
	}
	var size, resident int
	fmt.Sscan(string(b), &size, &resident)
	return resident * os.Getpagesize() >> 20
}

// flood sends hundreds of megabytes in which no frame ever ends, and shows that
// the server does not keep them.
func flood(c *pbt.C) {
	w := newWorld(c)
	ts := few(w.T, 2)
	x := w.dial()
	w.register(x, ts[0])
	before := rss()
	bad := w.dial()
	kind := rapid.SampledFrom([]string{"unfinished frame", "noise", "delimiters", "unfinished after messages"}).Draw(w.T, "kind")
	fill := rapid.SliceOfN(rapid.ByteRange(0, 0x7c), 1, 300).Draw(w.T, "fill")
	var first []byte
	switch kind {
	case "unfinished frame":
		first = []byte{0x7e}
	case "delimiters":
		fill = []byte{0x7e}
	case "unfinished after messages":
		first = append(jt.New(4, jt.V2013, 0, stranger, 1, nil).Frame(), 0x7e)
	}
	chunk := append(first, bytes.Repeat(fill, (1<<20)/len(fill))...)
	const total, limit = 256, 120
	w.Tracef("%s: %d MB of %.20x...", kind, total, chunk)
	for sent := 0; sent < total; sent++ {
		_ = bad.SetWriteDeadline(time.Now().Add(patience))
		if _, err := bad.Write(chunk); err != nil {
			break // closed by the server, or no longer read
		}
		chunk = chunk[len(first):]
		first = nil
		if m := rss(); m > before+limit {
			w.failf("the server keeps what one connection sends: it occupies %d MB after %d MB of %s, %d MB before", m, sent+1, kind, before)
		}
	}
	w.serving(ts[:1], ts[1])
	w.end(bad, "reset")
	c.Class(kind)
	c.NonTrivial("%s %x", kind, fill)
}

func TestC19(t *testing.T) {
	run(t, "C19", "real connections to the server process of terminals that register, move between connections and end by close, reset, half-close or by being refused: the server closes its side, commands for the terminal are refused from then on, the others still get theirs, and no descriptor is left; non-trivial: a connection ended while others were live; distinct by the history",
		pbt.Prop{Name: "real process", Quick: 60, Thorough: 8000, Round: 10, F: func(c *pbt.C) {
			w := newWorld(c)
			n := dict.IntRange(2, 5).Draw(w.T, "terminals")
			ts := few(w.T, n)
			base := w.base()
			for _, t := range ts {
				x := w.dial()
				w.register(x, t)
				if rapid.Bool().Draw(w.T, "auth") {
					w.auth(x, t, true)
				}
			}
			ended := 0
			for k := dict.IntRange(1, 8).Draw(w.T, "steps"); k > 0; k-- {
				t := rapid.SampledFrom(ts).Draw(w.T, "terminal")
				d := w.devs[t.phone]
				if d == nil {
					continue
				}
				switch dict.IntRange(0, 4).Draw(w.T, "step") {
				case 0: // moves to a new connection
					w.auth(w.dial(), t, true)
				case 1: // an unknown terminal on its connection: refused, the connection ends
					if d.conn.gone {
						continue
					}
					w.send(d.conn, jt.New(2, jt.V2013, 0, stranger, 1, nil))
					if _, err := d.conn.next(patience); err == nil {
						w.failf("an unknown terminal was answered")
					} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
						w.failf("the connection of a refused terminal stays open")
					}
					d.conn.gone = true
					w.goneAway(d)
					ended++
				default:
					if d.conn.gone {
						continue
					}
					how := ending.Draw(w.T, "end")
					w.Tracef("conn#%d: %s", d.conn.n, how)
					w.end(d.conn, how)
					if how == "half-close" {
						if _, err := d.conn.next(patience); err == nil {
							w.failf("a frame on an ended connection")
						} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
							w.failf("the server does not close its side of an ended connection")
						}
					}
					w.goneAway(d)
					ended++
				}
				for _, d := range w.devs { // the others are untouched
					if !d.conn.gone {
						if code, b := w.http("GET", "/device/"+d.phone+"/params", nil); code >= 400 {
							w.failf("a command for the connected terminal %s is answered %d %.200s", d.phone, code, b)
						}
						w.expect(d, 0x8104, nil)
					}
				}
			}
			for _, x := range w.conns {
				x.Close()
			}
			w.settled(base)
			if ended > 0 {
				c.NonTrivial("%v %d %v", ts, ended, w.n)
			}
		}})
}

// numbers collects the serial numbers of the platform's commands per connection.
func consecutive(got []uint16) error {
	if len(got) < 2 {
		return nil
	}
	s := append([]uint16{}, got...)
	first := s[0]
	sort.Slice(s, func(i, j int) bool { return int16(s[i]-first) < int16(s[j]-first) })
	for i := 1; i < len(s); i++ {
		if s[i] != s[i-1]+1 {
			return fmt.Errorf("the serial numbers of a session's commands are %v, not consecutive", got)
		}
	}
	return nil
}

func TestC20(t *testing.T) {
	run(t, "C20", "parameter commands requested over HTTP, one by one and many at the same moment, for terminals on their own and on shared connections of the real server process while the terminals send requests: every frame arrives whole, in the terminal's layout, and the commands of a session are numbered consecutively; non-trivial: two or more commands on one session; distinct by the batches",
		pbt.Prop{Name: "real process", Quick: 800, Thorough: 60000, Round: 50, F: func(c *pbt.C) {
			w := newWorld(c)
			ts := few(w.T, dict.IntRange(1, 4).Draw(w.T, "terminals"))
			nc := dict.IntRange(1, len(ts)).Draw(w.T, "connections")
			var cs []*conn
			for i := 0; i < nc; i++ {
				cs = append(cs, w.dial())
			}
			for _, t := range ts {
				x := rapid.SampledFrom(cs).Draw(w.T, "conn")
				w.register(x, t)
				w.auth(x, t, true)
			}
			serials := map[*conn][]uint16{}
			key := ""
			for round := dict.IntRange(1, 4).Draw(w.T, "rounds"); round > 0; round-- {
				type cmd struct {
					d    *dev
					body []byte
					wire []byte
				}
				var cmds []cmd
				for k := dict.IntRange(1, 10).Draw(w.T, "commands"); k > 0; k-- {
					m := cmd{d: w.devs[rapid.SampledFrom(ts).Draw(w.T, "terminal").phone]}
					if rapid.Bool().Draw(w.T, "put") {
						ps := gen.JSONable(gen.Params(300, false).Draw(w.T, "params"))
						m.body, m.wire = gen.ParamsJSON(w.T, ps), jt.ParamList(gen.Supported(ps))
					}
					cmds = append(cmds, m)
				}
				// requests of the terminals in between
				reqs := map[*conn]int{}
				for k := dict.IntRange(0, 6).Draw(w.T, "requests"); k > 0; k-- {
					d := w.devs[rapid.SampledFrom(ts).Draw(w.T, "who").phone]
					reqs[d.conn]++
				}
				var wg sync.WaitGroup
				errs := make([]error, len(cmds))
				for i, m := range cmds {
					do := func() {
						method := "GET"
						if m.body != nil {
							method = "PUT"
						}
						req, _ := http.NewRequest(method, httpBase+"/device/"+m.d.phone+"/params", bytes.NewReader(m.body))
						req.Header.Set("Content-Type", "application/json")
						r, err := client.Do(req)
						if err != nil {
							errs[i] = err
							return
						}
						r.Body.Close()
						if r.StatusCode >= 400 {
							errs[i] = fmt.Errorf("%s for %s is answered %d", method, m.d.phone, r.StatusCode)
						}
					}
					if dict.IntRange(0, 3).Draw(w.T, "alone") == 0 {
						do()
						continue
					}
					wg.Add(1)
					go func() { defer wg.Done(); do() }()
				}
				for x, n := range reqs {
					for _, t := range ts {
						if w.devs[t.phone].conn == x {
							for ; n > 0; n-- {
								w.send(x, w.anyRequest(t))
							}
							break
						}
					}
				}
				wg.Wait()
				for _, err := range errs {
					if err != nil {
						w.failf("%v", err)
					}
				}
				want := map[*conn][]string{}
				for _, m := range cmds {
					id := 0x8104
					if m.body != nil {
						id = 0x8103
					}
					want[m.d.conn] = append(want[m.d.conn], fmt.Sprintf("%04x %s %v %d %x", id, m.d.phone, m.d.ver == jt.V2019, m.d.proto, m.wire))
				}
				for _, x := range cs {
					var got []string
					for k := len(want[x]) + reqs[x]; k > 0; k-- {
						g, err := x.next(patience)
						if err != nil {
							w.failf("connection %d: %d frames missing: %v", x.n, k, err)
						}
						if g.H.ID == 0x8001 || g.H.ID == 0x8004 || g.H.ID == 0x8100 {
							reqs[x]--
							continue
						}
						if g.H.Frag || g.H.Enc != 0 {
							w.failf("the command has the attributes of another message: %v", g)
						}
						got = append(got, fmt.Sprintf("%04x %s %v %d %x", g.H.ID, g.H.Phone, g.H.New, g.H.ProtoVer, g.Body))
						serials[x] = append(serials[x], g.H.Serial)
					}
					sort.Strings(got)
					sort.Strings(want[x])
					if fmt.Sprint(got) != fmt.Sprint(want[x]) || reqs[x] != 0 {
						w.failf("connection %d: commands received %v, requested %v", x.n, got, want[x])
					}
					if err := consecutive(serials[x]); err != nil {
						w.failf("connection %d: %v", x.n, err)
					}
					key += fmt.Sprint(len(got), serials[x])
				}
			}
			for _, s := range serials {
				if len(s) > 1 {
					c.NonTrivial("%v %s", ts, key)
				}
			}
		}})
}

// anyRequest draws a request of a registered terminal that is answered by one
// frame and changes nothing about where commands go.
func (w *world) anyRequest(t term) jt.Msg {
	switch dict.IntRange(0, 6).Draw(w.T, "request") {
	case 0:
		return w.msg(t, 0x0200, gen.Loc.Draw(w.T, "loc").Body())
	case 1:
		return w.msg(t, 4, nil)
	case 2: // refused
		return w.msg(t, 0x0100, gen.Reg(w.T, t.ver, t.plate).Body(t.ver))
	case 3:
		return w.msg(t, 0x0102, jt.AuthBody(t.ver, w.devs[t.phone].code, "i", "s"))
	}
	return w.msg(t, 2, nil)
}
