package store

import (
	"bytes"
	"fmt"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

// fragMsg makes a message of a terminal and its fragments.
func fragMsg(t *rapid.T, id uint16, phone string, tag int) (body []byte, frames [][]byte) {
	n := dict.IntRange(2, 12).Draw(t, "fragments")
	sizes := make([]int, n)
	for i := range sizes {
		sizes[i] = dict.IntRange(1, 40).Draw(t, "size")
		for k := 0; k < sizes[i]; k++ {
			body = append(body, byte(tag*31+i*7+k))
		}
	}
	for _, f := range jt.New(id, jt.V2013, 0, phone, uint16(tag), body).Fragment(sizes) {
		frames = append(frames, f.Frame())
	}
	return
}

// fragments: fragments of several messages and terminals are taken in by
// several goroutines at once while other terminals leave. Each message
// completes exactly once, with exactly its bytes.
func fragments(c *pbt.C) {
	pc := protocol.NewJT808PacketCodec()
	n := dict.IntRange(1, 4).Draw(c.T, "terminals")
	phones, plates := names(n + 2)
	cache := storage.GetDeviceCache()
	for i, p := range phones {
		d := &model.Device{Phone: p, Plate: plates[i]}
		if err := cache.AddDevice(d); err != nil {
			c.Fatalf("terminal %s is not accepted: %v", p, err)
		}
	}
	defer func() {
		for _, p := range phones {
			cache.DelDeviceByPhone(p)
		}
	}()
	// whether fragments are put together here at all
	body, frames := fragMsg(c.T, 0x0801, phones[n], 0)
	for i, f := range frames {
		pd, err := pc.Decode(append([]byte{}, f...))
		if err != nil || pd == nil || pd.SegCompleted != (i == len(frames)-1) || pd.SegCompleted && !bytes.Equal(pd.Body, body) {
			c.Class("not put together by the codec")
			return
		}
	}
	type msg struct {
		key  string
		body []byte
	}
	want := map[string][]byte{}
	g := dict.IntRange(2, 6).Draw(c.T, "goroutines")
	queues := make([][][]byte, g)
	shape := ""
	ids := []uint16{0x0801, 0x0704, 0x0900, 0x0200, 0x0104}
	for t := 0; t < n; t++ {
		for m := dict.IntRange(1, len(ids)).Draw(c.T, "messages"); m > 0; m-- {
			b, fs := fragMsg(c.T, ids[m-1], phones[t], t*8+m)
			want[fmt.Sprintf("%s/%04x", phones[t], ids[m-1])] = b
			for _, f := range fs {
				k := dict.IntRange(0, g-1).Draw(c.T, "by")
				queues[k] = append(queues[k], f)
			}
			shape += fmt.Sprintf(" %d:%d", t, len(fs))
		}
	}
	got := make([][]msg, g)
	var fs []func(*guard)
	for k := range queues {
		fs = append(fs, func(gd *guard) {
			for _, f := range queues[k] {
				pd, err := pc.Decode(f)
				if err != nil {
					gd.failf("a fragment is refused: %v", err)
				} else if pd.SegCompleted {
					got[k] = append(got[k], msg{fmt.Sprintf("%s/%04x", pd.Header.PhoneNumber, pd.Header.MsgID), pd.Body})
				}
			}
		})
	}
	leaving := phones[n+1]
	_, lf := fragMsg(c.T, 0x0801, leaving, 1)
	fs = append(fs, func(gd *guard) { // comes and goes with a message unfinished
		for k := 0; k < 8; k++ {
			_, _ = pc.Decode(append([]byte{}, lf[0]...))
			cache.DelDeviceByPhone(leaving)
			_ = cache.AddDevice(&model.Device{Phone: leaving, Plate: plates[n+1]})
		}
	})
	together(c, fs...)
	for _, q := range got {
		for _, m := range q {
			b, ok := want[m.key]
			if !ok {
				c.Fatalf("message %s completed twice", m.key)
			}
			if !bytes.Equal(b, m.body) {
				c.Fatalf("message %s completed as %x, sent %x", m.key, m.body, b)
			}
			delete(want, m.key)
		}
	}
	for k := range want {
		c.Fatalf("all fragments of %s have arrived and it did not complete", k)
	}
	c.NonTrivial("%d %s", g, shape)
}
