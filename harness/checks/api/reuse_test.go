package api

import (
	"fmt"
	"net"
	"os"
	"time"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

// ownAddr is a loopback address nobody else connects from, so that nothing but
// the connection itself holds its ports.
func ownAddr() net.Addr {
	ownAddrs++
	return &net.TCPAddr{IP: net.IPv4(127, byte(10+os.Getpid()%200), byte(ownAddrs>>8), byte(1+ownAddrs%250))}
}

var ownAddrs int

// redial connects from a given local address.
func (w *world) redial(local net.Addr) *conn {
	d := net.Dialer{LocalAddr: local, Timeout: patience}
	for k := 0; k < 20; k++ {
		nc, err := d.Dial("tcp", tcpAddr)
		if err == nil {
			c := &conn{Conn: nc, n: len(w.conns)}
			w.conns = append(w.conns, c)
			return c
		}
		time.Sleep(5 * time.Millisecond)
	}
	w.Skip("the address cannot be used again")
	return nil
}

// reused: the connection of a registered terminal ends, and another terminal
// connects from the same address (a gateway hands out the port again).
// Commands for the first are refused, the newcomer gets none of them.
func reused(c *pbt.C) {
	w := newWorld(c)
	ts := terms(w.T, dict.IntRange(2, 4).Draw(w.T, "terminals"))
	for i := range ts {
		ts[i].plate = fmt.Sprintf("京%d", i)
	}
	x := w.redial(ownAddr())
	for i := 0; i < len(ts)-1; i++ {
		w.register(x, ts[i])
		if rapid.Bool().Draw(w.T, "authenticates") {
			w.auth(x, ts[i], true)
		}
	}
	// a message of an unregistered phone makes the server end the connection
	last := ts[len(ts)-1]
	w.send(x, w.msg(last, 2, nil))
	w.Tracef("conn#%d: heartbeat of the unregistered %s", x.n, last.phone)
	if g, err := x.next(patience); err == nil {
		w.failf("a heartbeat of an unregistered phone is answered by %v", g)
	}
	local := x.LocalAddr()
	x.Close()
	x.gone = true
	for i := 0; i < len(ts)-1; i++ {
		w.goneAway(w.devs[ts[i].phone])
	}
	y := w.redial(local)
	w.Tracef("conn#%d opens from the same address %s", y.n, local)
	w.register(y, last)
	if rapid.Bool().Draw(w.T, "authenticates") {
		w.auth(y, last, true)
	}
	var back *dev
	for k := dict.IntRange(1, 6).Draw(w.T, "commands"); k > 0; k-- {
		d := w.devs[rapid.SampledFrom(ts).Draw(w.T, "terminal").phone]
		put := rapid.Bool().Draw(w.T, "put")
		switch {
		case d.conn.gone && back == nil && dict.IntRange(0, 4).Draw(w.T, "returns") == 0:
			w.auth(y, d.term, true) // from now on it is reached here
			back = d
		case d.conn.gone && put:
			w.refusedCmd("PUT", d.phone, []byte(`{"params":[{"paramId":1,"paramValue":60}]}`))
		case d.conn.gone:
			w.refusedCmd("GET", d.phone, nil)
		default:
			if code, b := w.http("GET", "/device/"+d.phone+"/params", nil); code >= 400 {
				w.failf("a parameter query for a connected terminal is answered %d %.200s", code, b)
			}
			w.expect(d, 0x8104, nil)
			w.quiet()
		}
	}
	w.NonTrivial("%v", w.Trace())
}
