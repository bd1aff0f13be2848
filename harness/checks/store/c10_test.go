package store

import (
	"context"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

// process decodes a message and hands it to the message processor, as the
// server's pipeline does, on the session.
func process(s *model.Session, m jt.Msg) (*model.ProcessData, error) {
	f := m.Frame()
	pkt, err := protocol.NewJT808PacketCodec().Decode(f)
	if err != nil {
		return nil, err
	}
	return protocol.NewJT808MsgProcessor().Process(context.WithValue(context.Background(), model.SessionCtxKey{}, s), pkt)
}

type hit struct {
	phone, plate int
	res          int
	code         string
	err          error
}

// hammer lets 2..8 goroutines register terminals over the same few phones and
// plates at the same moment, again and again, on real processors: each round
// must end like some sequential order of the round's registrations.
func hammer(c *pbt.C) {
	nph, npl := dict.IntRange(1, 3).Draw(c.T, "phones"), dict.IntRange(1, 3).Draw(c.T, "plates")
	g := dict.IntRange(2, 8).Draw(c.T, "claimants")
	rounds := dict.IntRange(20, 200).Draw(c.T, "rounds")
	who := make([][2]int, g)
	for k := range who {
		who[k] = [2]int{dict.IntRange(0, nph-1).Draw(c.T, "phone"), dict.IntRange(0, npl-1).Draw(c.T, "plate")}
	}
	remove := dict.IntRange(0, 1).Draw(c.T, "remove by")
	pre := dict.IntRange(0, 4).Draw(c.T, "existing") == 0
	phones, plates := names(max(nph, npl))
	phones, plates = phones[:nph], plates[:npl]
	ver := rapid.SampledFrom([]jt.Ver{jt.V2013, jt.V2019}).Draw(c.T, "version")
	if ver == jt.V2019 {
		for i := range phones {
			phones[i] = "00000000" + phones[i]
		}
	}
	sess := make([]*model.Session, g)
	for k := range sess {
		sess[k] = &model.Session{ID: fmt.Sprintf("hammer-%d-%d", caseNo, k)}
	}
	serial := uint16(0)
	proto := byte(0)
	if ver == jt.V2019 {
		proto = 1
	}
	reg := func(i, j int) jt.Msg {
		r := jt.Reg{Province: 11, City: 100, Manu: "M", Mode: "T", ID: fmt.Sprintf("D%d", i), Color: 1, Plate: plates[j]}
		return jt.New(0x0100, ver, proto, phones[i], serial, r.Body(ver))
	}
	dc := storage.GetDeviceCache()
	clear := func(p string, code string) {
		if remove == 0 { // by logout
			if _, err := process(sess[0], jt.New(0x0003, ver, proto, p, serial, nil)); err != nil {
				c.Fatalf("logout of a registered terminal: %v", err)
			}
		} else { // by a failed authentication
			if _, err := process(sess[0], jt.New(0x0102, ver, proto, p, serial, jt.AuthBody(ver, code+"x", "123456789012345", "v1"))); err != nil {
				c.Fatalf("authentication of a registered terminal: %v", err)
			}
		}
	}
	defer func() {
		for _, p := range phones {
			dc.DelDeviceByPhone(p)
			protocol.NewKeepaliveTimer().Cancel(p)
		}
		for _, p := range plates {
			dc.DelDeviceByCarPlate(p)
		}
	}()
	refusals := 0
	for r := 0; r < rounds; r++ {
		serial++
		want := map[int]int{}     // phone -> plate
		codes := map[int]string{} // phone -> code
		plateOf := map[int]int{}  // plate -> phone
		if pre && r%3 == 0 {
			data, err := process(sess[0], reg(who[0][0], who[0][1]))
			if err != nil {
				c.Fatalf("round %d: registration: %v", r, err)
			}
			out := data.Outgoing.(*model.Msg8100)
			if out.Result != 0 {
				c.Fatalf("round %d: a registration with a free phone and a free plate was refused: %d", r, out.Result)
			}
			want[who[0][0]], plateOf[who[0][1]], codes[who[0][0]] = who[0][1], who[0][0], out.AuthCode
		}
		hits := make([]hit, g)
		msgs := make([]jt.Msg, g)
		for k := range who {
			hits[k] = hit{phone: who[k][0], plate: who[k][1]}
			msgs[k] = reg(who[k][0], who[k][1])
		}
		var ready atomic.Int32
		var wg sync.WaitGroup
		for k := range hits {
			wg.Add(1)
			go func() {
				defer wg.Done()
				pkt, err := protocol.NewJT808PacketCodec().Decode(msgs[k].Frame())
				ready.Add(1)
				for spins := 0; int(ready.Load()) < g; spins++ {
					if spins > 1000 {
						runtime.Gosched()
					}
				}
				if err != nil {
					hits[k].err = err
					return
				}
				data, err := protocol.NewJT808MsgProcessor().Process(context.WithValue(context.Background(), model.SessionCtxKey{}, sess[k]), pkt)
				if err != nil {
					hits[k].err = err
					return
				}
				out, ok := data.Outgoing.(*model.Msg8100)
				if !ok {
					hits[k].err = fmt.Errorf("answer %T", data.Outgoing)
					return
				}
				hits[k].res, hits[k].code = int(out.Result), out.AuthCode
			}()
		}
		wg.Wait()
		for k, h := range hits {
			if h.err != nil {
				c.Fatalf("round %d: registration %d: %v", r, k, h.err)
			}
			if h.res != 0 {
				continue
			}
			if _, taken := want[h.phone]; taken {
				c.Fatalf("round %d: the same phone was granted twice (%d claimants)", r, g)
			}
			if _, taken := plateOf[h.plate]; taken {
				c.Fatalf("round %d: the same plate was granted twice (%d claimants)", r, g)
			}
			want[h.phone], plateOf[h.plate], codes[h.phone] = h.plate, h.phone, h.code
		}
		for k, h := range hits {
			_, ph := want[h.phone]
			_, pl := plateOf[h.plate]
			switch {
			case h.res == 0:
			case h.res == 1 && pl, h.res == 3 && ph:
				refusals++
			default:
				c.Fatalf("round %d: registration %d was refused with %d, but phone taken: %v, plate taken: %v", r, k, h.res, ph, pl)
			}
		}
		all := map[string]*model.Device{}
		for i, j := range want {
			d, err := dc.GetDeviceByPhone(phones[i])
			if err != nil || d.Plate != plates[j] {
				c.Fatalf("round %d: phone %s with plate %s was accepted, but the directory has %v %v", r, phones[i], plates[j], d, err)
			}
			all[phones[i]] = d
		}
		if err := coherent(phones, plates, all); err != nil {
			c.Fatalf("round %d: %v", r, err)
		}
		for i := range want {
			clear(phones[i], codes[i])
		}
		if err := coherent(phones, plates, nil); err != nil {
			c.Fatalf("round %d, all removed: %v", r, err)
		}
	}
	c.ClassIf(refusals > 0, "refusals in a real race")
	if refusals > 0 {
		c.NonTrivial("%s %v %d %d", ver, who, remove, rounds/50)
	}
}

func TestC10(t *testing.T) {
	pbt.Watch(60 * time.Second)
	log.Logger = zerolog.New(io.Discard).Level(zerolog.Disabled)
	ok := pbt.Run("C10", strings.Join([]string{
		"20..200 rounds of 2..8 registrations over 1..3 phones and plates, each round handed to the message processor by as many goroutines at once and removed again by logout or failed authentication",
		"non-trivial: at least one registration was refused; distinct by version, claims and way of removal"}, "; "), nil,
		pbt.Prop{Name: "hammer", Quick: 400, Thorough: 30000, Round: 50, F: hammer},
	)
	if !ok {
		t.Fail()
	}
}
