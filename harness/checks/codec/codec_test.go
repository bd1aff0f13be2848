// Package codec checks framing, packet escaping and the field codecs.
package codec

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"runtime/debug"
	"sync"
	"testing"
	"time"
	_ "time/tzdata"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/internal/codec/hex"
	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/gen"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
	"github.com/fakeyanss/jt808-server-go/verifharness/sim"
)

var ctx = context.WithValue(context.Background(), model.SessionCtxKey{}, &model.Session{ID: "192.0.2.1:1"})

func start(t *testing.T) {
	pbt.Watch(60 * time.Second)
	l := zerolog.ErrorLevel
	if pbt.Shard()%2 == 1 {
		l = zerolog.DebugLevel
	}
	log.Logger = zerolog.New(io.Discard).Level(l)
}

func end(t *testing.T, ok bool) {
	if !ok {
		t.Fail()
	}
}

// raw is a message whose encoding is given.
type raw []byte

func (raw) Decode(*model.PacketData) error   { return nil }
func (r raw) Encode() ([]byte, error)        { return append([]byte{}, r...), nil }
func (raw) GetHeader() *model.MsgHeader      { return nil }
func (raw) GenOutgoing(model.JT808Msg) error { return nil }

// message draws a well-formed message; steer makes its check byte special.
func message(t *rapid.T) jt.Msg {
	v := gen.Ver.Draw(t, "ver")
	n := 12
	if v == jt.V2019 {
		n = 20
	}
	size := gen.Size.Draw(t, "size")
	var body []byte
	switch dict.IntRange(0, 3).Draw(t, "fill") {
	case 0:
		body = bytes.Repeat([]byte{gen.Byte.Draw(t, "all")}, size)
	case 1:
		body = bytes.Repeat([]byte{gen.Byte.Draw(t, "all")}, size)
		for k := dict.IntRange(0, 4).Draw(t, "spots"); k > 0 && size > 0; k-- {
			body[dict.IntRange(0, size-1).Draw(t, "at")] = gen.Byte.Draw(t, "b")
		}
	default:
		body = gen.Bytes(size).Draw(t, "body")
	}
	m := jt.New(gen.U16.Draw(t, "id"), v, gen.Byte.Draw(t, "proto"), gen.Digits(n).Draw(t, "phone"), gen.U16.Draw(t, "serial"), body)
	m.H.Enc = rapid.SampledFrom([]int{0, 0, 0, 1, 7}).Draw(t, "enc")
	m.H.Extra = dict.IntRange(0, 4).Draw(t, "extra") == 0
	if size > 0 && dict.IntRange(0, 2).Draw(t, "steer") == 0 {
		want := rapid.SampledFrom([]byte{0x7e, 0x7d, 1, 2}).Draw(t, "check")
		i := dict.IntRange(0, size-1).Draw(t, "adjust")
		m.Body[i] ^= jt.Xor(m.Bytes()) ^ want
	}
	return m
}

func special(m jt.Msg) bool {
	b := m.Bytes()
	x := jt.Xor(b)
	return bytes.IndexByte(b, 0x7e) >= 0 || bytes.IndexByte(b, 0x7d) >= 0 || x == 0x7e || x == 0x7d
}

func TestC01(t *testing.T) {
	start(t)
	end(t, pbt.Run("C01", "generated messages (any ID, header layout, reserved bits, bodies of 0..1023 bytes rich in 7d/7e/01/02, check byte steered to 7d, 7e, 01 and 02) sent over connections with short writes and received in reads of any size; non-trivial: the frame needs escaping or is cut; distinct by message and cut", nil,
		pbt.Prop{Name: "send", Quick: 60000, Thorough: 3000000, F: func(c *pbt.C) {
			peer := &sim.Peer{Conn: sim.NewConn("192.0.2.1:1")}
			fh := protocol.NewJT808FrameHandler(peer.Conn)
			mode := dict.IntRange(0, 3).Draw(c.T, "short")
			writes := 0
			peer.ShortWrites(func(n int) int {
				writes++
				switch mode {
				case 1:
					return 1
				case 2:
					return min(n, 1+writes%5)
				case 3:
					return dict.IntRange(1, n).Draw(c.T, "accepted")
				}
				return n
			})
			n := dict.IntRange(1, 3).Draw(c.T, "n")
			var want []byte
			key := ""
			for i := 0; i < n; i++ {
				var m []byte
				if dict.IntRange(0, 4).Draw(c.T, "any") == 0 {
					m = gen.Bytes(dict.IntRange(1, 40).Draw(c.T, "n")).Draw(c.T, "content")
				} else {
					m = message(c.T).Bytes()
				}
				c.Tracef("send %x", m)
				key += fmt.Sprintf("%x ", m)
				f, err := protocol.NewJT808PacketCodec().Encode(raw(m))
				if err != nil {
					c.Fatalf("encode: %v", err)
				}
				if err := fh.Send(f); err != nil {
					c.Fatalf("send: %v", err)
				}
				want = append(want, jt.Frame(m)...)
			}
			if got := peer.Take(); !bytes.Equal(got, want) {
				c.Fatalf("on the wire: %x\n    expected: %x", got, want)
			}
			c.ClassIf(bytes.IndexByte(want, 0x7d) >= 0, "escaped")
			c.ClassIf(mode != 0, "short writes")
			c.ClassIf(bytes.HasSuffix(want, []byte{0x7d, 2, 0x7e}) || bytes.HasSuffix(want, []byte{0x7d, 1, 0x7e}), "escaped check byte")
			if bytes.IndexByte(want, 0x7d) >= 0 || mode != 0 {
				c.NonTrivial("%s %d", key, mode)
			}
		}},
		pbt.Prop{Name: "receive", Quick: 60000, Thorough: 3000000, F: func(c *pbt.C) {
			peer := &sim.Peer{Conn: sim.NewConn("192.0.2.1:1")}
			fh := protocol.NewJT808FrameHandler(peer.Conn)
			n := dict.IntRange(1, 4).Draw(c.T, "n")
			var ms []jt.Msg
			var stream []byte
			sp := false
			for i := 0; i < n; i++ {
				m := message(c.T)
				sp = sp || special(m)
				ms = append(ms, m)
				stream = append(stream, m.Frame()...)
				c.Tracef("frame of %v", m)
			}
			chunks := gen.Chunks(c.T, stream)
			peer.Chunks(chunks...)
			peer.Hangup()
			for i, m := range ms {
				p, err := fh.Recv(ctx)
				if err != nil {
					c.Fatalf("frame %d not received: %v", i, err)
				}
				pd, err := protocol.NewJT808PacketCodec().Decode(p)
				if err != nil {
					c.Fatalf("frame %d (%v) not decoded: %v", i, m, err)
				}
				h := pd.Header
				if h.MsgID != m.H.ID || h.PhoneNumber != m.H.Phone || h.SerialNumber != m.H.Serial || int(h.Attr.BodyLength) != m.H.BodyLen {
					c.Fatalf("sent %v, received header %+v %+v", m, h, h.Attr)
				}
				if !bytes.Equal(pd.Body, m.Body) {
					c.Fatalf("sent %v, received body %x", m, pd.Body)
				}
			}
			if p, err := fh.Recv(ctx); err == nil {
				c.Fatalf("an extra frame was received: %x", p)
			}
			c.ClassIf(len(chunks) > 1, "cut")
			c.ClassIf(sp, "escaped")
			if len(chunks) > 1 || sp {
				c.NonTrivial("%x %d", stream, len(chunks))
			}
		}},
		pbt.Prop{Name: "together", Quick: 3000, Thorough: 150000, F: together},
		pbt.Prop{Name: "fragment body", Quick: 10000, Thorough: 500000, F: func(c *pbt.C) {
			// a one-part fragmented message: the body must be the transmitted one
			m := message(c.T)
			m.H.Frag, m.H.Total, m.H.Index = true, 1, 1
			uniq++
			m.H.Phone = fmt.Sprintf("%0*d", len(m.H.Phone), uniq)
			if c.Trace() == nil {
				c.Tracef("frame of %v", m)
			}
			pd, err := protocol.NewJT808PacketCodec().Decode(m.Frame())
			if err != nil {
				c.Fatalf("%v not decoded: %v", m, err)
			}
			if !bytes.Equal(pd.Body, m.Body) || pd.Header.MsgID != m.H.ID || pd.Header.PhoneNumber != m.H.Phone || pd.Header.SerialNumber != m.H.Serial {
				c.Fatalf("sent %v, received %+v body %x", m, pd.Header, pd.Body)
			}
			c.ClassIf(special(m), "escaped")
			if special(m) {
				c.NonTrivial("%v", m)
			}
		}},
	))
}

// atOnce runs the functions at the same moment, each several times, and
// reports the first error.
func atOnce(c *pbt.C, times int, fs []func() error) {
	gate := make(chan struct{})
	errs := make([]error, len(fs))
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					errs[i] = fmt.Errorf("panic: %v\n%s", x, debug.Stack())
				}
			}()
			<-gate
			for k := 0; k < times && errs[i] == nil; k++ {
				errs[i] = f()
			}
		}()
	}
	close(gate)
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			c.Fatalf("worker %d of %d working at the same time: %v", i, len(fs), err)
		}
	}
}

// together sends and receives several messages at once and one after another,
// looking at the results only at the end.
func together(c *pbt.C) {
	n := dict.IntRange(2, 6).Draw(c.T, "n")
	var ms []jt.Msg
	var keep [][]byte
	var pds []*model.PacketData
	pc := protocol.NewJT808PacketCodec()
	same := func(pd *model.PacketData, m jt.Msg) error {
		h := pd.Header
		if h.MsgID != m.H.ID || h.PhoneNumber != m.H.Phone || h.SerialNumber != m.H.Serial || !bytes.Equal(pd.Body, m.Body) {
			return fmt.Errorf("sent %v, received %+v %x", m, h, pd.Body)
		}
		return nil
	}
	key := ""
	for i := 0; i < n; i++ {
		m := message(c.T)
		c.Tracef("message %v", m)
		key += fmt.Sprint(m)
		f, err := pc.Encode(raw(m.Bytes()))
		if err != nil {
			c.Fatalf("encode: %v", err)
		}
		pd, err := pc.Decode(m.Frame())
		if err != nil {
			c.Fatalf("decode: %v", err)
		}
		ms, keep, pds = append(ms, m), append(keep, f), append(pds, pd)
	}
	for i, m := range ms {
		if !bytes.Equal(keep[i], m.Frame()) {
			c.Fatalf("frame %d was right at first but is now %x", i, keep[i])
		}
		if err := same(pds[i], m); err != nil {
			c.Fatalf("packet %d after %d others: %v", i, n-1-i, err)
		}
	}
	var fs []func() error
	for _, m := range ms {
		peer := &sim.Peer{Conn: sim.NewConn("192.0.2.1:1")}
		fh := protocol.NewJT808FrameHandler(peer.Conn)
		b, frame := m.Bytes(), m.Frame()
		fs = append(fs, func() error {
			f, err := pc.Encode(raw(b))
			if err != nil {
				return err
			}
			if err := fh.Send(f); err != nil {
				return err
			}
			if got := peer.Take(); !bytes.Equal(got, frame) {
				return fmt.Errorf("%v was sent as %x", m, got)
			}
			peer.Chunks(frame)
			p, err := fh.Recv(ctx)
			if err != nil {
				return err
			}
			pd, err := pc.Decode(p)
			if err != nil {
				return fmt.Errorf("%v not decoded: %v", m, err)
			}
			return same(pd, m)
		})
	}
	atOnce(c, 40, fs)
	c.NonTrivial("%s", key)
}

var uniq int

func TestC03(t *testing.T) {
	start(t)
	content := func(t *rapid.T, max int) []byte {
		n := rapid.OneOf(dict.IntRange(1, 8), dict.IntRange(1, max)).Draw(t, "n")
		if n > 60 {
			b := bytes.Repeat([]byte{rapid.SampledFrom([]byte{0x41, 0x7d, 0, 0x7f}).Draw(t, "fill")}, n)
			b[dict.IntRange(0, n-1).Draw(t, "at")] = byte(dict.IntRange(0, 0x7d).Draw(t, "b"))
			return b
		}
		return rapid.SliceOfN(dict.Byte().Filter(func(b byte) bool { return b != 0x7e }), n, n).Draw(t, "content")
	}
	recvAll := func(c *pbt.C, stream []byte) (got [][]byte) {
		peer := &sim.Peer{Conn: sim.NewConn("192.0.2.1:1")}
		fh := protocol.NewJT808FrameHandler(peer.Conn)
		peer.Chunks(gen.Chunks(c.T, stream)...)
		peer.Hangup()
		for i := 0; i <= len(stream); i++ {
			p, err := fh.Recv(ctx)
			if err != nil {
				return got
			}
			got = append(got, append([]byte{}, p...))
		}
		c.Fatalf("more frames than bytes")
		return nil
	}
	// sound checks that what was received are delimited parts of the stream, in
	// order; a delimiter may end one and begin the next.
	sound := func(c *pbt.C, stream []byte, got [][]byte) {
		from := 0
		for _, g := range got {
			if len(g) < 2 || g[0] != 0x7e || g[len(g)-1] != 0x7e || bytes.IndexByte(g[1:len(g)-1], 0x7e) >= 0 {
				c.Fatalf("received %x, which is not one delimited frame", g)
			}
			i := bytes.Index(stream[from:], g)
			if i < 0 {
				c.Fatalf("received %x, which is not a contiguous part of the stream %x (or out of order)", g, stream)
			}
			from += i + len(g) - 1
		}
	}
	end(t, pbt.Run("C03", "streams of generated frames (1..9000 bytes) with delimiter-free noise between them, and streams with noise containing delimiters, dropped, extra and doubled delimiters and unfinished frames, received in reads of any size; non-trivial: at least one frame plus noise or damage; distinct by stream", nil,
		pbt.Prop{Name: "clean", Quick: 40000, Thorough: 2000000, F: func(c *pbt.C) {
			var stream []byte
			var want [][]byte
			noise := 0
			n := dict.IntRange(1, 8).Draw(c.T, "frames")
			for i := 0; i <= n; i++ {
				if dict.IntRange(0, 2).Draw(c.T, "gap") == 0 {
					x := content(c.T, 5000)
					noise++
					stream = append(stream, x...)
				}
				if i < n {
					f := append(append([]byte{0x7e}, content(c.T, 9000)...), 0x7e)
					want = append(want, f)
					stream = append(stream, f...)
				}
			}
			if dict.IntRange(0, 3).Draw(c.T, "unfinished") == 0 {
				stream = append(stream, 0x7e)
				if rapid.Bool().Draw(c.T, "some") {
					stream = append(stream, content(c.T, 100)...)
				}
			}
			c.Tracef("stream %x", stream)
			got := recvAll(c, stream)
			if len(got) != len(want) {
				c.Fatalf("%d frames sent, %d received", len(want), len(got))
			}
			for i := range want {
				if !bytes.Equal(got[i], want[i]) {
					c.Fatalf("frame %d sent %x, received %x", i, want[i], got[i])
				}
			}
			c.ClassIf(noise > 0, "noise")
			if noise > 0 || n > 1 {
				c.NonTrivial("%x", stream)
			}
		}},
		pbt.Prop{Name: "damaged", Quick: 60000, Thorough: 3000000, F: func(c *pbt.C) {
			n := dict.IntRange(1, 12).Draw(c.T, "frames")
			type fr struct {
				data          []byte
				intact        bool
				before, after bool // damage next to it
			}
			fs := make([]*fr, n)
			for i := range fs {
				body := append([]byte(fmt.Sprintf("#%d#", i)), content(c.T, 300)...)
				fs[i] = &fr{data: append(append([]byte{0x7e}, body...), 0x7e), intact: true}
			}
			damages := 0
			var stream []byte
			pDamage := dict.IntRange(1, 6).Draw(c.T, "rate")
			for i := 0; i <= n; i++ {
				// the gap before frame i
				if dict.IntRange(0, pDamage).Draw(c.T, "gapdamage") == 0 {
					var gap []byte
					for k := dict.IntRange(1, 3).Draw(c.T, "pieces"); k > 0; k-- {
						damages++
						switch dict.IntRange(0, 2).Draw(c.T, "piece") {
						case 0:
							gap = append(gap, content(c.T, 60)...)
						case 1:
							gap = append(gap, 0x7e)
						case 2:
							gap = append(gap, 0x7e)
							gap = append(gap, content(c.T, 60)...)
						}
					}
					if i > 0 {
						fs[i-1].after = true
					}
					if i < n {
						fs[i].before = true
					}
					stream = append(stream, gap...)
				}
				if i == n {
					break
				}
				d := fs[i].data
				if dict.IntRange(0, 2*pDamage).Draw(c.T, "framedamage") == 0 {
					damages++
					fs[i].intact = false
					if rapid.Bool().Draw(c.T, "opening") {
						d = d[1:]
					} else {
						d = d[:len(d)-1]
					}
					if i > 0 {
						fs[i-1].after = true
					}
					if i+1 < n {
						fs[i+1].before = true
					}
				}
				stream = append(stream, d...)
			}
			c.Tracef("stream %x", stream)
			got := recvAll(c, stream)
			sound(c, stream, got)
			count := map[string]int{}
			for _, g := range got {
				count[string(g)]++
			}
			lost := 0
			for i, f := range fs {
				k := count[string(f.data)]
				if k > 1 {
					c.Fatalf("frame %d received %d times", i, k)
				}
				if k == 0 && f.intact {
					lost++
					if !f.before && !f.after {
						c.Fatalf("frame %d (%x) lost although nothing next to it was damaged", i, f.data)
					}
				}
			}
			if lost > damages {
				c.Fatalf("%d intact frames lost after %d damages", lost, damages)
			}
			c.ClassIf(damages > 0, "damaged")
			c.ClassIf(lost > 0, "lost one")
			if damages > 0 {
				c.NonTrivial("%x", stream)
			}
		}},
		pbt.Prop{Name: "one damage", Quick: 30000, Thorough: 1500000, F: func(c *pbt.C) {
			// a single damage in a back-to-back stream costs at most one other frame
			n := dict.IntRange(2, 10).Draw(c.T, "frames")
			at := dict.IntRange(0, n-1).Draw(c.T, "at")
			kind := dict.IntRange(0, 5).Draw(c.T, "kind")
			var stream []byte
			var fs [][]byte
			for i := 0; i < n; i++ {
				f := append(append([]byte{0x7e}, append([]byte(fmt.Sprintf("#%d#", i)), content(c.T, 60)...)...), 0x7e)
				fs = append(fs, f)
				d := f
				if i == at {
					switch kind {
					case 0:
						d = d[1:]
					case 1:
						d = d[:len(d)-1]
					case 2:
						d = append([]byte{0x7e}, d...)
					case 3:
						d = append(content(c.T, 20), d...)
					case 4:
						d = append(append(content(c.T, 20), 0x7e), append(content(c.T, 20), d...)...)
					case 5:
						d = append(d[:len(d):len(d)], 0x7e)
					}
				}
				stream = append(stream, d...)
			}
			c.Tracef("stream %x", stream)
			got := recvAll(c, stream)
			sound(c, stream, got)
			count := map[string]int{}
			for _, g := range got {
				count[string(g)]++
			}
			lost := 0
			for i, f := range fs {
				if count[string(f)] > 1 {
					c.Fatalf("frame %d received twice", i)
				}
				if count[string(f)] == 0 {
					lost++
					if i != at && i != at+1 {
						c.Fatalf("frame %d lost, the damage was at frame %d", i, at)
					}
				}
			}
			if lost > 1 {
				c.Fatalf("%d frames lost after one damage", lost)
			}
			if (kind == 3 || kind == 2 || kind == 5) && lost > 0 {
				c.Fatalf("a frame was lost although all frames are well delimited and only stray bytes or a doubled delimiter were added")
			}
			c.Class(fmt.Sprintf("kind %d", kind))
			c.NonTrivial("%x", stream)
		}},
		pbt.Prop{Name: "side by side", Quick: 2000, Thorough: 100000, F: func(c *pbt.C) {
			// several connections receive at the same time
			var fs []func() error
			key := ""
			for k := dict.IntRange(2, 6).Draw(c.T, "connections"); k > 0; k-- {
				var stream []byte
				var want [][]byte
				for i := dict.IntRange(3, 20).Draw(c.T, "frames"); i > 0; i-- {
					f := append(append([]byte{0x7e}, content(c.T, 200)...), 0x7e)
					want = append(want, f)
					stream = append(stream, f...)
				}
				chunks := gen.Chunks(c.T, stream)
				key += fmt.Sprintf("%x/%d ", stream, len(chunks))
				c.Tracef("stream %x in %d pieces", stream, len(chunks))
				fs = append(fs, func() error {
					peer := &sim.Peer{Conn: sim.NewConn("192.0.2.1:1")}
					fh := protocol.NewJT808FrameHandler(peer.Conn)
					peer.Chunks(chunks...)
					peer.Hangup()
					for i, f := range want {
						p, err := fh.Recv(ctx)
						if err != nil {
							return fmt.Errorf("frame %d: %v", i, err)
						}
						if !bytes.Equal(p, f) {
							return fmt.Errorf("frame %d sent %x, received %x", i, f, []byte(p))
						}
					}
					return nil
				})
			}
			atOnce(c, 10, fs)
			c.NonTrivial("%s", key)
		}},
		pbt.Prop{Name: "overlong", Quick: 60, Thorough: 3000, Round: 6, F: func(c *pbt.C) {
			// an unfinished frame of megabytes, before and after it whole ones
			frame := func() []byte {
				return append(append([]byte{0x7e}, rapid.SliceOfN(rapid.ByteRange(0, 0x7c), 1, 40).Draw(c.T, "frame")...), 0x7e)
			}
			var stream []byte
			var before, after [][]byte
			for i := dict.IntRange(0, 2).Draw(c.T, "before"); i > 0; i-- {
				before = append(before, frame())
				stream = append(stream, before[len(before)-1]...)
			}
			n := dict.IntRange(60000, 4<<20).Draw(c.T, "run")
			stream = append(append(stream, 0x7e), bytes.Repeat([]byte{'r'}, n)...)
			if rapid.Bool().Draw(c.T, "ended") {
				stream = append(stream, 0x7e)
			}
			for i := dict.IntRange(2, 4).Draw(c.T, "after"); i > 0; i-- {
				after = append(after, frame())
				stream = append(stream, after[len(after)-1]...)
			}
			c.Tracef("%d frames, a run of %d bytes, %d frames", len(before), n, len(after))
			got := recvAll(c, stream)
			want := append(append([][]byte{}, before...), after[1:]...) // all but the one next to the run
			k := len(after) - 1
			if len(got) < len(want) || len(got) > len(want)+2 {
				c.Fatalf("%d frames received, %d of %d are not next to the run", len(got), len(want), len(before)+len(after))
			}
			for i, w := range before {
				if !bytes.Equal(got[i], w) {
					c.Fatalf("frame %d before the run received as %.60x", i, got[i])
				}
			}
			for i := 0; i < k; i++ {
				if g := got[len(got)-k+i]; !bytes.Equal(g, after[1+i]) {
					c.Fatalf("frame %d after the run received as %.60x", i+1, g)
				}
			}
			for _, g := range got {
				if !bytes.Contains(stream, g) || len(g) < 2 || g[0] != 0x7e || g[len(g)-1] != 0x7e {
					c.Fatalf("received %.60x, which is no delimited part of the stream", g)
				}
			}
			c.NonTrivial("%d %d %d", n, len(before), len(after))
		}},
		pbt.Prop{Name: "boundaries", Quick: 6000, Thorough: 300000, F: func(c *pbt.C) {
			// delimiters at and around the sizes buffers come in
			var stream []byte
			var want [][]byte
			for i := dict.IntRange(1, 4).Draw(c.T, "frames"); i > 0; i-- {
				at := rapid.SampledFrom([]int{64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 65536}).Draw(c.T, "buffer") + dict.IntRange(-3, 3).Draw(c.T, "off")
				if rapid.Bool().Draw(c.T, "lead") {
					stream = append(stream, bytes.Repeat([]byte{'.'}, dict.IntRange(0, 5).Draw(c.T, "noise"))...)
				}
				n := max(1, at-rapid.SampledFrom([]int{0, len(stream) % at}).Draw(c.T, "from")-2)
				f := append(append([]byte{0x7e}, bytes.Repeat([]byte{byte('a' + i)}, n)...), 0x7e)
				want = append(want, f)
				stream = append(stream, f...)
			}
			c.Tracef("%d bytes", len(stream))
			got := recvAll(c, stream)
			if len(got) != len(want) {
				c.Fatalf("%d frames sent, %d received", len(want), len(got))
			}
			for i := range want {
				if !bytes.Equal(got[i], want[i]) {
					c.Fatalf("frame %d of %d bytes received as %d bytes %.60x", i, len(want[i]), len(got[i]), got[i])
				}
			}
			c.NonTrivial("%d %v", len(stream), len(want))
		}},
		pbt.Prop{Name: "any bytes", Quick: 40000, Thorough: 2000000, F: func(c *pbt.C) {
			stream := rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]byte{0x7e, 0x7e, 0x7d, 1, 2, 0x41}), dict.Byte()), 0, 80).Draw(c.T, "stream")
			// then two frames back to back: the second must be received
			f1, f2 := []byte{0x7e, 'f', '1', '-', 0x7e}, []byte{0x7e, 'f', '2', '-', 0x7e}
			stream = append(append(stream, f1...), f2...)
			c.Tracef("stream %x", stream)
			got := recvAll(c, stream)
			sound(c, stream, got)
			if len(got) == 0 || !bytes.Equal(got[len(got)-1], f2) {
				c.Fatalf("the last frame was not received")
			}
			if bytes.IndexByte(stream, 0x7e) >= 0 {
				c.NonTrivial("%x", stream)
			}
		}},
	))
}

func TestC17(t *testing.T) {
	start(t)
	// field writes v after prefix, reads it back, and checks bytes and positions
	field := func(c *pbt.C, what string, want []byte, write func([]byte) []byte, read func([]byte, *int) error) {
		prefix := rapid.SliceOfN(gen.Byte, 0, 20).Draw(c.T, "prefix")
		suffix := rapid.SliceOfN(gen.Byte, 0, 10).Draw(c.T, "suffix")
		c.Tracef("%s after %x", what, prefix)
		// with and without spare room behind the slice
		in := append(make([]byte, 0, len(prefix)+dict.IntRange(0, 64).Draw(c.T, "room")), prefix...)
		out := write(in)
		if !bytes.Equal(in, prefix) || len(out) < len(prefix) || !bytes.Equal(out[:len(prefix)], prefix) {
			c.Fatalf("%s: what was written before changed: %x -> %x", what, prefix, out)
		}
		if want != nil && !bytes.Equal(out[len(prefix):], want) {
			c.Fatalf("%s: written as %x, expected %x", what, out[len(prefix):], want)
		}
		n := len(out) - len(prefix)
		buf := append(append([]byte{}, out...), suffix...)
		keep := append([]byte{}, buf...)
		idx := len(prefix)
		if err := read(buf, &idx); err != nil {
			c.Fatalf("%s: %v", what, err)
		}
		if idx != len(prefix)+n {
			c.Fatalf("%s: reading moved from %d to %d, the field has %d bytes", what, len(prefix), idx, n)
		}
		if !bytes.Equal(buf, keep) {
			c.Fatalf("%s: reading changed the buffer", what)
		}
		c.NonTrivial("%s %x", what, prefix)
	}
	same := func(got, want any) error {
		if got != want {
			return fmt.Errorf("read %v, wrote %v", got, want)
		}
		return nil
	}
	end(t, pbt.Run("C17", "generated integers, byte strings, digit strings (8-40 even digits), times (every second of 1969-2068), GBK texts over the whole repertoire and unencodable texts, at generated offsets in generated buffers; every case is non-trivial; distinct by value and prefix", []string{"all bytes and all words"},
		pbt.Prop{Name: "fields", Quick: 150000, Thorough: 6000000, F: func(c *pbt.C) {
			switch k := dict.IntRange(0, 8).Draw(c.T, "kind"); k {
			case 0:
				v := dict.Byte().Draw(c.T, "v")
				field(c, fmt.Sprint("byte ", v), []byte{v}, func(b []byte) []byte { return hex.WriteByte(b, v) }, func(b []byte, i *int) error { return same(hex.ReadByte(b, i), v) })
			case 1:
				v := gen.U16.Draw(c.T, "v")
				field(c, fmt.Sprint("word ", v), jt.W16(nil, v), func(b []byte) []byte { return hex.WriteWord(b, v) }, func(b []byte, i *int) error { return same(hex.ReadWord(b, i), v) })
			case 2:
				v := gen.U32.Draw(c.T, "v")
				field(c, fmt.Sprint("dword ", v), jt.W32(nil, v), func(b []byte) []byte { return hex.WriteDoubleWord(b, v) }, func(b []byte, i *int) error { return same(hex.ReadDoubleWord(b, i), v) })
			case 3:
				v := rapid.SliceOfN(gen.Byte, 0, 60).Draw(c.T, "v")
				field(c, fmt.Sprintf("bytes %x", v), v, func(b []byte) []byte { return hex.WriteBytes(b, v) }, func(b []byte, i *int) error { return same(string(hex.ReadBytes(b, i, len(v))), string(v)) })
			case 4:
				v := string(rapid.SliceOfN(gen.Byte, 0, 60).Draw(c.T, "v"))
				field(c, fmt.Sprintf("string %x", v), []byte(v), func(b []byte) []byte { return hex.WriteString(b, v) }, func(b []byte, i *int) error { return same(hex.ReadString(b, i, len(v)), v) })
			case 5:
				v := gen.Digits(2*dict.IntRange(4, 20).Draw(c.T, "n")).Draw(c.T, "v")
				field(c, "bcd "+v, jt.BCD(v), func(b []byte) []byte { return hex.WriteBCD(b, v) }, func(b []byte, i *int) error { return same(hex.ReadBCD(b, i, len(v)/2), v) })
			case 6:
				v := time.Unix(dict.Int64Range(-31536000, 3124223999).Draw(c.T, "t"), dict.Int64Range(0, 999999999).Draw(c.T, "ns")).UTC()
				loc := v
				if rapid.Bool().Draw(c.T, "zone") {
					// the clock reading is what is sent
					loc = time.Date(v.Year(), v.Month(), v.Day(), v.Hour(), v.Minute(), v.Second(), v.Nanosecond(), time.FixedZone("x", 3600*dict.IntRange(-12, 14).Draw(c.T, "zoneh")))
				}
				field(c, "time "+v.Format(time.RFC3339Nano), jt.BCD(jt.TimeDigits(v)), func(b []byte) []byte { return hex.WriteTime(b, loc) },
					func(b []byte, i *int) error {
						g := hex.ReadTime(b, i)
						if g == nil || !g.Equal(v.Truncate(time.Second)) {
							return fmt.Errorf("read %v, wrote %v", g, v)
						}
						return nil
					})
				if hex.FormatTime(loc) != jt.TimeDigits(v) || !hex.ParseTime(jt.TimeDigits(v)).Equal(v.Truncate(time.Second)) {
					c.Fatalf("time %v is formatted %s and parsed back as %v", v, hex.FormatTime(loc), hex.ParseTime(jt.TimeDigits(v)))
				}
			case 7:
				v := gen.AnyGBK(60).Draw(c.T, "v")
				w := jt.MustGBK(v)
				field(c, fmt.Sprintf("text %q", v), w, func(b []byte) []byte { return hex.WriteGBK(b, v) }, func(b []byte, i *int) error { return same(hex.ReadGBK(b, i, len(w)), v) })
			case 8:
				// text with characters GBK lacks, or not even UTF-8
				v := gen.AnyGBK(20).Draw(c.T, "v") + rapid.SampledFrom([]string{"😀", "한", "\xff", "\u0e01", "é\u0301"}).Draw(c.T, "bad") + gen.AnyGBK(20).Draw(c.T, "w")
				prefix := rapid.SliceOfN(gen.Byte, 0, 20).Draw(c.T, "prefix")
				c.Tracef("unencodable %q after %x", v, prefix)
				if out := hex.WriteGBK(append([]byte{}, prefix...), v); !bytes.HasPrefix(out, prefix) {
					c.Fatalf("writing %q destroyed %x: %x", v, prefix, out)
				}
				c.Class("unencodable")
				c.NonTrivial("%q %x", v, prefix)
			}
		}},
		pbt.Prop{Name: "sequence", Quick: 20000, Thorough: 800000, F: func(c *pbt.C) {
			// several fields one after another, read in the same order
			type f struct {
				what string
				read func([]byte, *int) error
			}
			var fs []f
			var buf []byte
			for n := dict.IntRange(2, 12).Draw(c.T, "n"); n > 0; n-- {
				switch dict.IntRange(0, 5).Draw(c.T, "kind") {
				case 0:
					v := gen.Byte.Draw(c.T, "v")
					buf = hex.WriteByte(buf, v)
					fs = append(fs, f{fmt.Sprint("byte ", v), func(b []byte, i *int) error { return same(hex.ReadByte(b, i), v) }})
				case 1:
					v := gen.U16.Draw(c.T, "v")
					buf = hex.WriteWord(buf, v)
					fs = append(fs, f{fmt.Sprint("word ", v), func(b []byte, i *int) error { return same(hex.ReadWord(b, i), v) }})
				case 2:
					v := gen.U32.Draw(c.T, "v")
					buf = hex.WriteDoubleWord(buf, v)
					fs = append(fs, f{fmt.Sprint("dword ", v), func(b []byte, i *int) error { return same(hex.ReadDoubleWord(b, i), v) }})
				case 3:
					v := gen.Digits(2*dict.IntRange(4, 10).Draw(c.T, "len")).Draw(c.T, "v")
					buf = hex.WriteBCD(buf, v)
					fs = append(fs, f{"bcd " + v, func(b []byte, i *int) error { return same(hex.ReadBCD(b, i, len(v)/2), v) }})
				case 4:
					v := gen.AnyGBK(30).Draw(c.T, "v")
					buf = hex.WriteGBK(buf, v)
					fs = append(fs, f{"text " + v, func(b []byte, i *int) error { return same(hex.ReadGBK(b, i, len(jt.MustGBK(v))), v) }})
				case 5:
					v := gen.Time.Draw(c.T, "v")
					buf = hex.WriteTime(buf, hex.ParseTime(v))
					fs = append(fs, f{"time " + v, func(b []byte, i *int) error { return same(hex.FormatTime(*hex.ReadTime(b, i)), v) }})
				}
			}
			idx := 0
			for _, x := range fs {
				c.Tracef("%s", x.what)
				if err := x.read(buf, &idx); err != nil {
					c.Fatalf("%s: %v", x.what, err)
				}
			}
			if idx != len(buf) {
				c.Fatalf("read %d of %d bytes", idx, len(buf))
			}
			c.NonTrivial("%x", buf)
		}},
		pbt.Prop{Name: "side by side", Quick: 3000, Thorough: 150000, F: func(c *pbt.C) {
			// the same codecs used by several goroutines
			var fs []func() error
			key := ""
			for k := dict.IntRange(2, 6).Draw(c.T, "workers"); k > 0; k-- {
				text, digits, tm, num := gen.AnyGBK(40).Draw(c.T, "text"), gen.Digits(2*dict.IntRange(4, 10).Draw(c.T, "n")).Draw(c.T, "digits"), gen.Time.Draw(c.T, "time"), gen.U32.Draw(c.T, "num")
				want := append(append(append(append([]byte{}, jt.MustGBK(text)...), jt.BCD(digits)...), jt.BCD(tm)...), jt.W32(nil, num)...)
				what := fmt.Sprintf("%q %s %s %d", text, digits, tm, num)
				c.Tracef("%s", what)
				key += what
				fs = append(fs, func() error {
					b := hex.WriteDoubleWord(hex.WriteTime(hex.WriteBCD(hex.WriteGBK(nil, text), digits), hex.ParseTime(tm)), num)
					if !bytes.Equal(b, want) {
						return fmt.Errorf("%s written as %x, expected %x", what, b, want)
					}
					i := 0
					if g := hex.ReadGBK(want, &i, len(jt.MustGBK(text))); g != text {
						return fmt.Errorf("%s: text read as %q", what, g)
					}
					if g := hex.ReadBCD(want, &i, len(digits)/2); g != digits {
						return fmt.Errorf("%s: digits read as %s", what, g)
					}
					if g := hex.ReadTime(want, &i); g == nil || hex.FormatTime(*g) != tm {
						return fmt.Errorf("%s: time read as %v", what, g)
					}
					if g := hex.ReadDoubleWord(want, &i); g != num || i != len(want) {
						return fmt.Errorf("%s: number read as %d, position %d of %d", what, g, i, len(want))
					}
					return nil
				})
			}
			atOnce(c, 40, fs)
			c.NonTrivial("%s", key)
		}},
		pbt.Prop{Name: "time zones", Quick: 6000, Thorough: 300000, F: func(c *pbt.C) {
			// a clock reading is the same wherever the server runs, also one
			// the local clock skips or shows twice
			name := rapid.SampledFrom([]string{"UTC", "Asia/Shanghai", "America/New_York", "Europe/London", "Australia/Lord_Howe", "America/Sao_Paulo", "Asia/Tehran"}).Draw(c.T, "local")
			zone, err := time.LoadLocation(name)
			if err != nil {
				panic(err)
			}
			v := time.Unix(dict.Int64Range(0, 3124223999).Draw(c.T, "t"), 0).In(zone)
			if _, end := v.ZoneBounds(); !end.IsZero() && rapid.Bool().Draw(c.T, "change") {
				v = end
			}
			_, off := v.Zone()
			digits := jt.TimeDigits(v.UTC().Add(time.Duration(off)*time.Second + time.Duration(dict.Int64Range(-5400, 5400).Draw(c.T, "near"))*time.Second))
			c.Tracef("%s under %s", digits, name)
			old := time.Local
			time.Local = zone
			defer func() { time.Local = old }()
			if g := hex.FormatTime(hex.ParseTime(digits)); g != digits {
				c.Fatalf("time %s is parsed and formatted as %s with the local zone %s", digits, g, name)
			}
			i := 0
			if g := hex.ReadTime(jt.BCD(digits), &i); g == nil || i != 6 || !bytes.Equal(hex.WriteTime(nil, *g), jt.BCD(digits)) {
				c.Fatalf("time %s is read as %v (position %d) with the local zone %s", digits, g, i, name)
			}
			c.Class(name)
			c.NonTrivial("%s %s", name, digits)
		}},
		pbt.Prop{Name: "all words", Quick: 6, Thorough: 6, F: func(c *pbt.C) {
			for v := 0; v < 65536; v++ {
				i := 0
				if b := hex.WriteWord(nil, uint16(v)); len(b) != 2 || int(b[0])<<8|int(b[1]) != v || int(hex.ReadWord(b, &i)) != v || i != 2 {
					c.Fatalf("word %d", v)
				}
				if v < 256 {
					i = 0
					if b := hex.WriteByte(nil, byte(v)); len(b) != 1 || int(b[0]) != v || int(hex.ReadByte(b, &i)) != v || i != 1 {
						c.Fatalf("byte %d", v)
					}
				}
			}
			c.Count(65536 + 256)
		}},
	))
}
