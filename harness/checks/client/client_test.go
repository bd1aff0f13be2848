// Package client checks the bundled terminal client: the real client read loop
// on an in-memory connection and a virtual clock, and the client binary
// against the server binary.
package client

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/internal/client"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/gen"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
	"github.com/fakeyanss/jt808-server-go/verifharness/sim"
)

var seq int

// terminal is one client with its connection and the model of its state.
type terminal struct {
	phone   string
	ver     jt.Ver
	proto   byte
	peer    *sim.Peer
	cli     *client.TCPClient
	dev     *model.Device
	stopped chan struct{}
	status  model.DeviceStatus
	held    map[uint32][]byte // parameters it has
	maybe   map[uint32][]byte // parameters set without being held before: not specified
	none    bool              // nothing set and nothing asked yet
	pending []func(jt.Msg) error
	late    int
}

type world struct {
	*pbt.C
	ts []*terminal
	n  map[string]int
}

func newWorld(c *pbt.C, n int) *world {
	w := &world{C: c, n: map[string]int{}}
	log.Logger = zerolog.New(io.Discard).Level(rapid.SampledFrom([]zerolog.Level{zerolog.DebugLevel, zerolog.ErrorLevel}).Draw(c.T, "log"))
	c.T.Cleanup(w.cleanup)
	for i := 0; i < n; i++ {
		seq++
		t := &terminal{ver: rapid.SampledFrom([]jt.Ver{jt.V2019, jt.V2013}).Draw(c.T, "ver"), held: map[uint32][]byte{}, maybe: map[uint32][]byte{}, none: true}
		v := model.Version2013
		t.phone = fmt.Sprintf("%012d", seq)
		if t.ver == jt.V2019 {
			v = model.Version2019
			t.phone = fmt.Sprintf("%020d", seq)
			t.proto = rapid.SampledFrom([]byte{1, 2, 0x7e}).Draw(c.T, "proto")
		}
		t.dev = &model.Device{Phone: t.phone, Plate: fmt.Sprintf("京%d", seq), VersionDesc: v, ProtocolVersion: t.proto,
			IMEI: gen.AsciiStr(0, 15).Draw(c.T, "imei"), SoftwareVersion: gen.AsciiStr(0, 20).Draw(c.T, "soft"), Keepalive: time.Minute}
		t.status = rapid.SampledFrom([]model.DeviceStatus{model.DeviceStatusOffline, model.DeviceStatusOffline, model.DeviceStatusOffline, model.DeviceStatusSleeping}).Draw(c.T, "status")
		t.dev.Status = t.status
		t.connect()
		w.Tracef("terminal %d: %s v%s imei=%q soft=%q status=%d", i, t.phone, t.ver, t.dev.IMEI, t.dev.SoftwareVersion, t.status)
		storage.GetDeviceCache().CacheDevice(t.dev)
		w.ts = append(w.ts, t)
	}
	return w
}

func (t *terminal) connect() {
	t.peer = &sim.Peer{Conn: sim.NewConn("198.51.100.1:8080")}
	t.cli = client.NewTCPClient()
	t.cli.Session = &model.Session{ID: "198.51.100.1:8080", Conn: t.peer.Conn}
	t.dev.SessionID, t.dev.Conn, t.dev.TransProto = t.cli.Session.ID, t.peer.Conn, model.TCPProto
	t.stopped = make(chan struct{})
	stop := t.stopped
	cli := t.cli
	go func() { defer close(stop); cli.Start() }()
}

func (w *world) cleanup() {
	for _, t := range w.ts {
		t.peer.Hangup()
		t.peer.Conn.Close()
		storage.GetDeviceCache().DelDeviceByPhone(t.phone)
		storage.GetDeviceParamsCache().DelDeviceParamsByPhone(t.phone)
	}
	time.Sleep(20 * time.Second)
	synctest.Wait()
}

func (t *terminal) done() bool {
	select {
	case <-t.stopped:
		return true
	default:
		return false
	}
}

func (w *world) cut(b []byte) [][]byte {
	if rapid.Bool().Draw(w.T, "cut") {
		return gen.Chunks(w.T, b)
	}
	return [][]byte{b}
}

func (w *world) tell(t *terminal, id uint16, body []byte) jt.Msg {
	m := jt.New(id, t.ver, t.proto, t.phone, gen.U16.Draw(w.T, "serial"), body)
	w.Tracef("platform -> %s: %v", t.phone, m)
	t.peer.Chunks(w.cut(m.Frame())...)
	return m
}

func (t *terminal) head(m jt.Msg, id uint16) func(jt.Msg) error {
	return func(g jt.Msg) error {
		if g.H.ID != id {
			return fmt.Errorf("answered by %04x, expected %04x", g.H.ID, id)
		}
		if g.H.Phone != t.phone || g.H.New != (t.ver == jt.V2019) || g.H.New && g.H.ProtoVer != t.proto {
			return fmt.Errorf("answered with another header: %v", g)
		}
		return nil
	}
}

func (t *terminal) want(m jt.Msg, id uint16, f func(body []byte) error) {
	head := t.head(m, id)
	t.pending = append(t.pending, func(g jt.Msg) error {
		if err := head(g); err != nil {
			return err
		}
		return f(g.Body)
	})
}

// collect takes what the clients sent and compares it with what is due.
func (w *world) collect() {
	max := 0
	for _, t := range w.ts {
		if t.late > max {
			max = t.late
		}
		t.late = 0
	}
	time.Sleep(time.Duration(max)*1100*time.Millisecond + time.Millisecond)
	synctest.Wait()
	for i, t := range w.ts {
		msgs, rest, err := jt.ParseStream(t.peer.Take())
		if err != nil || len(rest) > 0 {
			w.Fatalf("terminal %d sent an ill-formed stream: %v, rest %x", i, err, rest)
		}
		for k, g := range msgs {
			if k >= len(t.pending) {
				w.Fatalf("terminal %d sent %v, which nothing asked for", i, g)
			}
			if err := t.pending[k](g); err != nil {
				w.Fatalf("terminal %d: %v (sent %v)", i, err, g)
			}
		}
		if len(msgs) < len(t.pending) {
			w.Fatalf("terminal %d sent %d of %d answers", i, len(msgs), len(t.pending))
		}
		t.pending = nil
		if t.done() {
			w.Fatalf("terminal %d: the client stopped without a reason", i)
		}
		d, err := storage.GetDeviceCache().GetDeviceByPhone(t.phone)
		if err != nil || d.Status != t.status {
			w.Fatalf("terminal %d: status is %v (%v), expected %v", i, d, err, t.status)
		}
	}
}

// parseList reads a parameter list strictly.
func parseList(b []byte) (map[uint32][]byte, error) {
	if len(b) == 0 {
		return nil, fmt.Errorf("no parameter count")
	}
	n, b := int(b[0]), b[1:]
	out := map[uint32][]byte{}
	for i := 0; i < n; i++ {
		if len(b) < 5 || len(b) < 5+int(b[4]) {
			return nil, fmt.Errorf("parameter %d of %d is cut off", i, n)
		}
		id := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
		if _, dup := out[id]; dup {
			return nil, fmt.Errorf("parameter %04x occurs twice", id)
		}
		kind, ok := jt.ParamKinds[id]
		if !ok {
			return nil, fmt.Errorf("unknown parameter %04x", id)
		}
		if want, fixed := map[jt.Kind]byte{jt.DWord: 4, jt.Word: 2, jt.Byte: 1}[kind]; fixed && b[4] != want {
			return nil, fmt.Errorf("parameter %04x has length %d", id, b[4])
		}
		out[id] = b[5 : 5+int(b[4])]
		b = b[5+int(b[4]):]
	}
	if len(b) > 0 {
		return nil, fmt.Errorf("%d bytes after the list", len(b))
	}
	return out, nil
}

func (t *terminal) size() int {
	n := 0
	for _, m := range []map[uint32][]byte{t.held, t.maybe} {
		for _, v := range m {
			n += 5 + len(v)
		}
	}
	return n
}

func ids(m map[uint32][]byte) []string {
	var out []string
	for id, v := range m {
		out = append(out, fmt.Sprintf("%04x=%x", id, v))
	}
	sort.Strings(out)
	return out
}

func (w *world) op(t *terminal) {
	op := rapid.SampledFrom([]string{"regreply", "regreply", "ok", "ok", "fail", "query", "query", "update", "update", "media", "media", "noise", "unsupported", "corrupt"}).Draw(w.T, "op")
	w.Class("op:" + op)
	w.n[op]++
	if t.late > 0 { // the client waits 1 s after a frame it could not handle
		t.late++
	}
	switch op {
	case "regreply":
		code := string(rapid.SliceOfN(gen.Byte, 1, 40).Draw(w.T, "code"))
		m := w.tell(t, 0x8100, append(append(jt.W16(nil, gen.U16.Draw(w.T, "as")), 0), code...))
		want := jt.AuthBody(t.ver, code, t.dev.IMEI, t.dev.SoftwareVersion)
		t.want(m, 0x0102, func(b []byte) error {
			if !bytes.Equal(b, want) {
				return fmt.Errorf("authentication %x, expected %x", b, want)
			}
			return nil
		})
	case "ok":
		w.tell(t, 0x8001, jt.GeneralReply(gen.U16.Draw(w.T, "as"), rapid.SampledFrom([]uint16{0x0102, 2, 0x0200}).Draw(w.T, "aid"), 0))
		if t.status == model.DeviceStatusOffline {
			t.status = model.DeviceStatusOnline
		}
	case "fail":
		w.tell(t, 0x8001, jt.GeneralReply(gen.U16.Draw(w.T, "as"), 0x0102, rapid.SampledFrom([]byte{1, 2, 3, 4}).Draw(w.T, "result")))
	case "query":
		m := w.tell(t, 0x8104, nil)
		none := t.none
		t.none = false
		// the expectation is fixed now, the answer is compared when it is read
		held, maybe := clone(t.held), clone(t.maybe)
		t.want(m, 0x0104, func(b []byte) error {
			if len(b) < 3 || !bytes.Equal(b[:2], jt.W16(nil, m.H.Serial)) {
				return fmt.Errorf("parameters %x do not name the query's serial %04x", b, m.H.Serial)
			}
			got, err := parseList(b[2:])
			if err != nil {
				return err
			}
			if none { // the factory settings: learnt
				if len(got) == 0 {
					return fmt.Errorf("no parameters at all")
				}
				for id, v := range got {
					t.held[id] = v
				}
				return nil
			}
			for id, v := range held {
				if g, ok := got[id]; !ok || !bytes.Equal(g, v) {
					return fmt.Errorf("parameter %04x is %x, expected %x", id, g, v)
				}
			}
			for id, v := range got {
				if _, ok := held[id]; !ok && !bytes.Equal(maybe[id], v) {
					return fmt.Errorf("parameter %04x = %x, which was never set", id, v)
				}
			}
			return nil
		})
		if none {
			w.collect() // learn before going on
		}
	case "update":
		ps := gen.Params(300, true).Draw(w.T, "params")
		if len(t.held) > 0 && rapid.Bool().Draw(w.T, "known") { // aim at what it has
			ps = nil
			for _, id := range rapid.SliceOfNDistinct(rapid.SampledFrom(sortedIDs(t.held)), 1, min(3, len(t.held)), rapid.ID[uint32]).Draw(w.T, "ids") {
				ps = append(ps, jt.Param{ID: id, Value: gen.ParamValue(w.T, id)})
			}
		}
		total := t.size()
		for _, p := range ps {
			total += 5 + len(p.Value)
		}
		if total > 1000 || t.none && len(ps) == 0 { // one message must hold them all
			return
		}
		wire := ps
		if len(ps) > 0 && dict.IntRange(0, 3).Draw(w.T, "unk") == 0 {
			wire = gen.WithUnknown(w.T, ps, 900)
		}
		m := w.tell(t, 0x8103, jt.ParamList(wire))
		for _, p := range ps {
			_, had := t.held[p.ID]
			if t.none || had {
				t.held[p.ID] = p.Value
			} else {
				t.maybe[p.ID] = p.Value
			}
		}
		t.none = false
		t.want(m, 0x0001, func(b []byte) error {
			if want := jt.GeneralReply(m.H.Serial, 0x8103, 0); !bytes.Equal(b, want) {
				return fmt.Errorf("acknowledgement %x, expected %x", b, want)
			}
			return nil
		})
	case "media":
		q := gen.Media.Draw(w.T, "media")
		m := w.tell(t, 0x9205, q.Body())
		t.want(m, 0x1205, func(b []byte) error {
			want := append(jt.W16(nil, m.H.Serial), 0, 0, 0, 1, q.Channel)
			want = append(append(want, jt.BCD(q.Start)...), jt.BCD(q.End)...)
			if len(b) != len(want)+4+4+3+4 || !bytes.HasPrefix(b, want) {
				return fmt.Errorf("media list %x, expected one entry starting %x", b, want)
			}
			return nil
		})
	case "noise":
		t.peer.Chunks(rapid.SliceOfN(rapid.ByteRange(0, 0x7d), 1, 10).Draw(w.T, "noise"))
	case "unsupported":
		w.tell(t, rapid.SampledFrom([]uint16{0x8105, 0x8300, 0x9101, 0xffff}).Draw(w.T, "id"), gen.Bytes(dict.IntRange(0, 20).Draw(w.T, "n")).Draw(w.T, "b"))
		t.late++
	case "corrupt":
		m := jt.New(rapid.SampledFrom([]uint16{0x8001, 0x8100, 0x8103, 0x8104}).Draw(w.T, "id"), t.ver, t.proto, t.phone, 1, []byte{0, 1, 0, 2, 0})
		b := m.Bytes()
		w.Tracef("platform -> %s: %v with a wrong check byte", t.phone, m)
		t.peer.Chunks(w.cut(jt.FrameRawCheck(b, jt.Xor(b)^rapid.ByteRange(1, 255).Draw(w.T, "x")))...)
		t.late++
	}
}

func clone(m map[uint32][]byte) map[uint32][]byte {
	out := map[uint32][]byte{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func sortedIDs(m map[uint32][]byte) []uint32 {
	var out []uint32
	for id := range m {
		out = append(out, id)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func commands(c *pbt.C) {
	w := newWorld(c, dict.IntRange(1, 3).Draw(c.T, "clients"))
	key := ""
	for k := dict.Count(1, 20, 300).Draw(c.T, "steps"); k > 0; k-- {
		i := dict.IntRange(0, len(w.ts)-1).Draw(c.T, "terminal")
		w.op(w.ts[i])
		if dict.IntRange(0, 2).Draw(c.T, "pipelined") > 0 {
			w.collect()
		}
	}
	w.collect()
	// the answers to a last query show the final parameters
	for _, t := range w.ts {
		if !t.none {
			m := w.tell(t, 0x8104, nil)
			held, maybe := t.held, t.maybe
			t.want(m, 0x0104, func(b []byte) error {
				got, err := parseList(b[2:])
				if err != nil {
					return err
				}
				for id := range maybe {
					if _, ok := held[id]; !ok && bytes.Equal(got[id], maybe[id]) {
						delete(got, id)
					}
				}
				if fmt.Sprint(ids(got)) != fmt.Sprint(ids(held)) {
					return fmt.Errorf("parameters %v, expected %v", ids(got), ids(held))
				}
				return nil
			})
		}
	}
	w.collect()
	if w.n["regreply"]+w.n["query"]+w.n["update"]+w.n["media"] >= 2 {
		c.NonTrivial("%s %v %v", key, w.n, w.ts[0].phone)
	}
	c.ClassIf(w.n["update"] > 0 && w.n["query"] > 0, "update and query")
}

// ending: the client stops when it has to, and only the client concerned.
func ending(c *pbt.C) {
	w := newWorld(c, 2)
	for k := dict.IntRange(0, 5).Draw(c.T, "steps"); k > 0; k-- {
		w.op(w.ts[dict.IntRange(0, 1).Draw(c.T, "terminal")])
	}
	w.collect()
	t := w.ts[0]
	how := rapid.SampledFrom([]string{"close", "reset", "stop", "unknown-regreply", "unknown-ok"}).Draw(c.T, "how")
	c.Class(how)
	w.Tracef("end by %s", how)
	stranger := fmt.Sprintf("9%0*d", len(t.phone)-1, seq)
	switch how {
	case "close":
		t.peer.Hangup()
	case "reset":
		t.peer.Reset()
	case "stop":
		t.cli.Stop()
	case "unknown-regreply":
		m := jt.New(0x8100, t.ver, t.proto, stranger, 7, append([]byte{0, 1, 0}, "code"...))
		t.peer.Chunks(w.cut(m.Frame())...)
	case "unknown-ok":
		m := jt.New(0x8001, t.ver, t.proto, stranger, 7, jt.GeneralReply(1, 0x0102, 0))
		t.peer.Chunks(w.cut(m.Frame())...)
	}
	time.Sleep(5 * time.Second)
	synctest.Wait()
	if !t.done() {
		c.Fatalf("the client goes on after %s", how)
	}
	if b := t.peer.Take(); len(b) > 0 {
		c.Fatalf("the client sent %x when it had to stop", b)
	}
	w.ts = w.ts[1:]
	for k := dict.IntRange(1, 4).Draw(c.T, "more"); k > 0; k-- {
		w.op(w.ts[0])
		w.collect()
	}
	storage.GetDeviceCache().DelDeviceByPhone(t.phone)
	storage.GetDeviceParamsCache().DelDeviceParamsByPhone(t.phone)
	c.NonTrivial("%s %d %v", how, seq, w.n)
}

// sending: messages the client sends on its own arrive as frames.
func sending(c *pbt.C) {
	w := newWorld(c, 1)
	t := w.ts[0]
	n := dict.IntRange(1, 6).Draw(c.T, "n")
	slow := rapid.Bool().Draw(c.T, "slow")
	short := dict.IntRange(0, 2).Draw(c.T, "short")
	t.peer.ShortWrites(func(k int) int {
		if short == 0 {
			return k
		}
		return min(k, short*3)
	})
	if slow && short == 0 {
		t.peer.SlowWrites(time.Millisecond)
	}
	var want []string
	done := make(chan struct{}, n)
	for i := 0; i < n; i++ {
		h := model.GenMsgHeader(t.dev, 0, gen.U16.Draw(c.T, "serial"))
		var msg model.JT808Msg
		var ref jt.Msg
		if rapid.Bool().Draw(c.T, "loc") {
			h.MsgID = 0x0200
			l := gen.Loc.Draw(c.T, "l")
			l.Extra = nil
			msg = &model.Msg0200{Header: h, AlarmSign: l.Alarm, StatusSign: l.Status, Latitude: l.Lat, Longitude: l.Lon, Altitude: l.Alt, Speed: l.Speed, Direction: l.Dir, Time: l.Time}
			ref = jt.New(0x0200, t.ver, t.proto, t.phone, h.SerialNumber, l.Body())
		} else {
			h.MsgID = 0x0002
			msg = &model.Msg0002{Header: h}
			ref = jt.New(0x0002, t.ver, t.proto, t.phone, h.SerialNumber, nil)
		}
		want = append(want, fmt.Sprintf("%x", ref.Bytes()))
		w.Tracef("send %v", ref)
		if short > 0 { // one after the other
			t.cli.Send(msg)
			done <- struct{}{}
		} else { // heartbeat and location senders run at the same time
			go func() { t.cli.Send(msg); done <- struct{}{} }()
		}
	}
	for i := 0; i < n; i++ {
		<-done
	}
	msgs, rest, err := jt.ParseStream(t.peer.Take())
	if err != nil || len(rest) > 0 {
		c.Fatalf("ill-formed stream: %v, rest %x", err, rest)
	}
	var got []string
	for _, g := range msgs {
		got = append(got, fmt.Sprintf("%x", g.Bytes()))
	}
	if short == 0 {
		sort.Strings(got)
		sort.Strings(want)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Fatalf("sent %v, expected %v", got, want)
	}
	w.collect()
	c.NonTrivial("%v %d %v", want, short, slow)
}

func TestC24(t *testing.T) {
	pbt.Watch(90 * time.Second)
	synctest.Test(t, func(t *testing.T) {
		ok := pbt.Run("C24", "generated command histories (registration replies, success and failure replies, parameter queries and updates, media queries, noise, corrupted and unsupported frames, arbitrarily cut) for 1..3 clients, each answer compared with a model; generated ends of a client; messages sent by the client itself; the client binary with a generated configuration against the server binary; non-trivial: two or more commands to answer, an end, or messages sent; distinct by history", nil,
			pbt.Prop{Name: "commands", Quick: 6000, Thorough: 300000, Round: 200, F: commands},
			pbt.Prop{Name: "ending", Quick: 2400, Thorough: 120000, Round: 200, F: ending},
			pbt.Prop{Name: "sending", Quick: 6000, Thorough: 300000, Round: 500, F: sending},
			pbt.Prop{Name: "both binaries", Quick: 12, Thorough: 600, F: bothBinaries},
		)
		if !ok {
			os.Exit(1)
		}
		os.Exit(0)
	})
}
