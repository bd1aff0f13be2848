package store

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
	"github.com/fakeyanss/jt808-server-go/verifharness/sim"
)

// rider is a terminal with a connection and a script of its own.
type rider struct {
	phone, plate string
	ver          jt.Ver
	proto        byte
	ops          []int
	locs         []jt.Loc
	serial       uint16
	code         string
	last         *jt.Loc
}

func (r *rider) msg(id uint16, body []byte) jt.Msg {
	r.serial++
	return jt.New(id, r.ver, r.proto, r.phone, r.serial, body)
}

// ride plays the script through a pipeline as the server does for each
// connection and checks every reply.
func (r *rider) ride(gd *guard, addr string, frags []int) {
	conn := sim.NewConn(addr)
	peer := &sim.Peer{Conn: conn}
	pg := protocol.NewPipeline(conn)
	s := &model.Session{ID: addr, Conn: conn, IsPlatform: true}
	ask := func(m jt.Msg) (jt.Msg, bool) {
		peer.Chunks(m.Frame())
		if err := pg.ProcessConnRead(context.WithValue(context.Background(), model.SessionCtxKey{}, s)); err != nil {
			gd.failf("%s: %v is answered with an error: %v", r.phone, m, err)
			return jt.Msg{}, false
		}
		got, rest, err := jt.ParseStream(peer.Take())
		if err != nil || len(rest) > 0 || len(got) != 1 {
			gd.failf("%s: %v gets %d replies (%v, %x)", r.phone, m, len(got), err, rest)
			return jt.Msg{}, false
		}
		if got[0].H.Phone != r.phone || got[0].H.New != m.H.New {
			gd.failf("%s: %v is answered by %v", r.phone, m, got[0])
			return jt.Msg{}, false
		}
		return got[0], true
	}
	general := func(m jt.Msg) bool {
		g, ok := ask(m)
		if ok && (g.H.ID != 0x8001 || !bytes.Equal(g.Body, jt.GeneralReply(m.H.Serial, m.H.ID, 0))) {
			gd.failf("%s: %v is answered by %v", r.phone, m, g)
			ok = false
		}
		return ok
	}
	reg := jt.Reg{Province: 11, City: 100, Manu: "M", Mode: "T", ID: "D" + r.phone[len(r.phone)-4:], Color: 1, Plate: r.plate}
	m := r.msg(0x0100, reg.Body(r.ver))
	g, ok := ask(m)
	if !ok {
		return
	}
	if g.H.ID != 0x8100 || len(g.Body) < 4 || g.Body[2] != 0 || !bytes.Equal(g.Body[:2], jt.W16(nil, m.H.Serial)) {
		gd.failf("%s: registration is answered by %v", r.phone, g)
		return
	}
	r.code = string(g.Body[3:])
	for i, op := range r.ops {
		switch op {
		case 0:
			ok = general(r.msg(0x0002, nil))
		case 1:
			ok = general(r.msg(0x0102, jt.AuthBody(r.ver, r.code, "123456789012345", "v1")))
		case 2:
			l := r.locs[i]
			if ok = general(r.msg(0x0200, l.Body())); ok {
				r.last = &l
			}
		case 3: // a report in fragments
			l := r.locs[i]
			b := l.Body()
			n := frags[i]
			r.serial += 3
			parts := jt.New(0x0200, r.ver, r.proto, r.phone, r.serial, b).Fragment([]int{n, len(b) - n})
			r.serial += 2
			for k, p := range parts {
				g, o := ask(p)
				if ok = o; !ok {
					break
				}
				if g.H.ID != 0x8001 || len(g.Body) != 5 || g.Body[4] != 0 || k == 0 && !bytes.Equal(g.Body, jt.GeneralReply(p.H.Serial, 0x0200, 0)) {
					gd.failf("%s: fragment %v is answered by %v", r.phone, p, g)
					return
				}
			}
			r.last = &l
		case 4:
			m := r.msg(0x0004, nil)
			g, o := ask(m)
			if ok = o; ok && (g.H.ID != 0x8004 || len(g.Body) != 6) {
				gd.failf("%s: time query is answered by %v", r.phone, g)
				return
			}
		}
		if !ok {
			return
		}
		if r.last != nil {
			d, err := storage.GetGeoCache().GetGeoLatestByPhone(r.phone)
			if err != nil || d.Phone != r.phone || d.Location == nil || d.Location.Altitude != r.last.Alt || d.Drive == nil || d.Drive.Direction != r.last.Dir {
				gd.failf("%s: latest location is %+v (%v), reported %+v", r.phone, d, err, *r.last)
				return
			}
		}
	}
	general(r.msg(0x0003, nil))
}

// sideBySide: terminals served at the same moment, each on its own
// connection, share no state.
func sideBySide(c *pbt.C) {
	n := dict.IntRange(2, 8).Draw(c.T, "terminals")
	phones, plates := names(n)
	rs := make([]*rider, n)
	frags := make([][]int, n)
	shape := ""
	for i := range rs {
		r := &rider{phone: phones[i], plate: plates[i], ver: rapid.SampledFrom([]jt.Ver{jt.V2013, jt.V2019}).Draw(c.T, "version")}
		if r.ver == jt.V2019 {
			r.phone, r.proto = "00000000"+r.phone, 1
		}
		r.ops = rapid.SliceOfN(dict.IntRange(0, 4), 1, 20).Draw(c.T, "ops")
		for range r.ops {
			r.locs = append(r.locs, jt.Loc{Status: 1, Alt: uint16(dict.IntRange(0, 65535).Draw(c.T, "alt")), Dir: uint16(dict.IntRange(0, 359).Draw(c.T, "dir")), Time: "261118070000"})
			frags[i] = append(frags[i], dict.IntRange(1, 27).Draw(c.T, "cut"))
		}
		rs[i] = r
		shape += fmt.Sprint(r.ver, r.ops)
	}
	defer func() {
		for _, r := range rs {
			storage.GetDeviceCache().DelDeviceByPhone(r.phone)
			storage.GetGeoCache().DelGeoByPhone(r.phone)
			protocol.NewKeepaliveTimer().Cancel(r.phone)
		}
	}()
	var fs []func(*guard)
	for i, r := range rs {
		addr := fmt.Sprintf("192.0.2.%d:%d", i+1, 1024+caseNo%60000)
		fs = append(fs, func(gd *guard) { r.ride(gd, addr, frags[i]) })
	}
	together(c, fs...)
	c.NonTrivial("%s", shape)
}

// TestC07 takes fragments in by many goroutines under the race detector.
func TestC07(t *testing.T) {
	pbt.Watch(60 * time.Second)
	log.Logger = zerolog.New(io.Discard).Level(zerolog.Disabled)
	ok := pbt.Run("C07", "fragments of 1..5 messages of each of 1..4 terminals taken in by 2..6 goroutines at once while another terminal comes and goes, under the race detector; non-trivial: every case; distinct by shape", nil,
		pbt.Prop{Name: "taken in at once", Quick: 1000, Thorough: 60000, Round: 200, F: fragments},
	)
	if !ok {
		t.Fail()
	}
}
