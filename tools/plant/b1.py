BUGS=[]
def bug(**k): BUGS.append(k)
FH="internal/protocol/frame_handler.go"; PC="internal/protocol/packet_codec.go"; MP="internal/protocol/msg_processor.go"

bug(id="c01-short-writes", prop="C01", needs="a connection that accepts one frame in three or more pieces",
 what="after the second short write the remaining bytes are taken from the wrong offset, so part of the frame is sent again and the end is lost",
 edits=[(FH,"			p = p[n:] // 没写完所有数据，再写一次","			p = payload[n:] // 没写完所有数据，再写一次")],
 pkg="internal/protocol", demo='''package protocol

import ("bytes"; "testing"; "time")

type drip struct{ out []byte; n int }

func (d *drip) Write(p []byte) (int, error) {
	n := d.n
	if n > len(p) {
		n = len(p)
	}
	d.out = append(d.out, p[:n]...)
	return n, nil
}

func TestDemo(t *testing.T) {
	payload := []byte{0x7e, 1, 2, 3, 4, 5, 6, 7, 8, 0x7e}
	d := &drip{n: 3}
	fh := &JT808FrameHandler{writer: d}
	done := make(chan error, 1)
	go func() { done <- fh.Send(append([]byte(nil), payload...)) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("never finishes")
	}
	if !bytes.Equal(d.out, payload) {
		t.Fatalf("sent %x", d.out)
	}
}
''')

bug(id="c01-escaped-check-byte", prop="C01", needs="a frame whose check byte is 0x7E or 0x7D and is therefore sent escaped",
 what="the receiver no longer unescapes the last two content bytes, so a frame with an escaped check byte is rejected",
 edits=[(PC,"		if i < n-2 && src[i] == 0x7d && src[i+1] == 0x02 {","		if i+3 < n && src[i] == 0x7d && src[i+1] == 0x02 {"),
        (PC,"		} else if i < n-2 && src[i] == 0x7d && src[i+1] == 0x01 {","		} else if i+3 < n && src[i] == 0x7d && src[i+1] == 0x01 {")],
 lib=True, demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	d := demoDial(l, "192.0.2.1:1")
	d.register(t, "013800138000", "ID1", "AB123")
	// find serials for which the check byte of a heartbeat is 7e and 7d
	for _, want := range []byte{0x7e, 0x7d} {
		for s := 0; s < 256; s++ {
			m := msg13(0x0002, "013800138000", uint16(s), nil)
			u := unesc(m[1 : len(m)-1])
			if u[len(u)-1] == want {
				d.send(m)
				if f := d.got(); len(f) != 1 {
					t.Fatalf("heartbeat with check byte %x: replies %x", want, f)
				}
			}
		}
	}
}
''')

bug(id="c02-zero-check-byte", prop="C02", needs="a corrupted frame whose check byte arrives as zero",
 what="frames with check byte 0 are accepted without being verified",
 edits=[(PC,"	if expected == actual {","	if expected == actual || expected == 0 { // 部分终端不计算校验码")],
 lib=True, demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	d := demoDial(l, "192.0.2.1:1")
	d.register(t, "013800138000", "ID1", "AB123")
	m := msg13(0x0002, "013800138000", 5, nil)
	m[len(m)-2] = 0 // the check byte (5 ^ ... is not 0 here)
	u := unesc(msg13(0x0002, "013800138000", 5, nil))
	_ = u
	d.send(m)
	if f := d.got(); len(f) != 0 {
		t.Fatalf("a corrupted heartbeat was answered: %x", f)
	}
}
''')

bug(id="c03-max-frame", prop="C03", needs="a maximum-size fragment in the 2019 layout whose body and phone consist mostly of escaped bytes, so that the frame is longer than MaxFrameLen",
 what="the receiver drops what it has collected when a frame exceeds MaxFrameLen, which does not count escapes in the header: the longest legal frames are lost",
 edits=[(FH,"""				// end bit
				break
			}""","""				// end bit
				if len(buf) <= MaxFrameLen {
					break
				}
				buf, inMessage = buf[:0], false // 超长，丢弃
				continue
			}""")],
 pkg="internal/protocol", demo='''package protocol

import ("bufio"; "bytes"; "context"; "testing"; "github.com/fakeyanss/jt808-server-go/internal/protocol/model")

func TestDemo(t *testing.T) {
	body := bytes.Repeat([]byte{0x7e}, 1023)
	msg := append([]byte{0x02, 0x00, 0x63, 0xff, 1, 0x01, 0x38, 0x00, 0x13, 0x80, 0x00, 0, 0, 0, 0, 0x7e, 0x7e, 0x7d, 0x7e, 0x7e, 0x7d}, body...)
	var x byte
	for _, b := range msg {
		x ^= b
	}
	f := []byte{0x7e}
	for _, b := range append(msg, x) {
		switch b {
		case 0x7e:
			f = append(f, 0x7d, 2)
		case 0x7d:
			f = append(f, 0x7d, 1)
		default:
			f = append(f, b)
		}
	}
	f = append(f, 0x7e)
	fh := &JT808FrameHandler{rbuf: bufio.NewReader(bytes.NewReader(f))}
	ctx := context.WithValue(context.Background(), model.SessionCtxKey{}, &model.Session{ID: "x"})
	got, err := fh.Recv(ctx)
	if err != nil || !bytes.Equal(got, f) {
		t.Fatalf("frame of %d bytes not received: %v", len(f), err)
	}
}
''')

bug(id="c04-encryption-bits", prop="C04", needs="a header whose third encryption bit (bit 12) is set",
 what="encoding a header drops bit 12 of the attribute word",
 edits=[("internal/protocol/model/header.go","	bitNum += uint16(attr.Encryption) << 10       // 加密方式","	bitNum += uint16(attr.Encryption&0b011) << 10 // 加密方式")],
 pkg="internal/protocol/model", demo='''package model

import "testing"

func TestDemo(t *testing.T) {
	for w := 0; w < 65536; w++ {
		a := &MsgBodyAttr{}
		if err := a.Decode(uint16(w)); err != nil {
			t.Fatal(err)
		}
		if g := a.Encode(); g != uint16(w) {
			t.Fatalf("%04x -> %04x", w, g)
		}
	}
}
''')

bug(id="c05-plate-12", prop="C05", needs="a 2011 registration whose plate takes exactly 12 bytes",
 what="such a registration is taken for a 2013 one, so model, id, plate and version are wrong",
 edits=[("internal/protocol/model/msg_0100.go","		if remainLen > 5+20+7+1 { // 厂商+型号+ID+车牌颜色，2013版本至少33位","		if remainLen >= 5+20+7+1 { // 厂商+型号+ID+车牌颜色，2013版本至少33位")],
 pkg="internal/protocol/model", demo='''package model

import "testing"

func TestDemo(t *testing.T) {
	body := []byte("\\x00\\x0b\\x00\\x01maker" + "model\\x00\\x00\\x00" + "ID12345" + "\\x01" + "ABCDEFGHIJKL")
	h := &MsgHeader{Attr: &MsgBodyAttr{BodyLength: uint16(len(body)), VersionDesc: Version2013}}
	m := &Msg0100{}
	if err := m.Decode(&PacketData{Header: h, Body: body}); err != nil {
		t.Fatal(err)
	}
	if m.DeviceID != "ID12345" || m.PlateNumber != "ABCDEFGHIJKL" || m.DeviceMode != "model" {
		t.Fatalf("%+v", m)
	}
}
''')

bug(id="c06-json-dword", prop="C06", needs="a JSON double word parameter above 2^24 that is not representable as float32",
 what="JSON numbers for double word parameters lose their low bits",
 edits=[("internal/protocol/model/device_params.go","		return uint32(b)\n","		return uint32(float32(b))\n")],
 pkg="internal/protocol/model", demo='''package model

import ("encoding/json"; "testing"; "bytes")

func TestDemo(t *testing.T) {
	p := &DeviceParams{}
	if err := json.Unmarshal([]byte(`{"paramCnt":1,"params":[{"paramId":1,"paramLen":4,"paramValue":16777217}]}`), p); err != nil {
		t.Fatal(err)
	}
	b, err := p.Encode()
	if err != nil || !bytes.Equal(b, []byte{1, 0, 0, 0, 1, 4, 1, 0, 0, 1}) {
		t.Fatalf("%x %v", b, err)
	}
}
''')

bug(id="c07-pooled-buffer", prop="C07", needs="a fragmented message with any frame arriving between its fragments",
 what="the packet buffer is reused for the next frame while stored fragments still point into it, so reassembled bodies contain bytes of later frames",
 edits=[(PC,"""	dst := make([]byte, 0)
	i, n := 1, len(src)""","""	pc.rmu.Lock()
	defer pc.rmu.Unlock()
	dst := pc.rbuf[:0]
	defer func() { pc.rbuf = dst }()
	i, n := 1, len(src)"""),
  (PC,"type JT808PacketCodec struct {\n","type JT808PacketCodec struct {\n	rbuf []byte // 复用的解码缓冲\n	rmu  sync.Mutex\n")],
 lib=True, imports=["github.com/fakeyanss/jt808-server-go/internal/storage"], demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	d := demoDial(l, "192.0.2.1:1")
	p := "013800138000"
	d.register(t, p, "ID1", "AB123")
	body := locBody(3, 31123456, 121123456, 10, 605, 90, "240102030405")
	d.send(frag13(0x0200, p, 10, 2, 1, body[:14]))
	d.send(msg13(0x0002, p, 11, nil))
	d.send(frag13(0x0200, p, 12, 2, 2, body[14:]))
	d.got()
	g, err := storage.GetGeoCache().GetGeoLatestByPhone(p)
	if err != nil || g.Location.Latitude != 31.123456 || g.Location.Longitude != 121.123456 || g.Drive.Speed != 60.5 {
		t.Fatalf("%+v %v", g, err)
	}
}
''')

bug(id="c08-shared-reply", prop="C08", needs="two connections whose heartbeats are processed at the same time",
 what="the heartbeat reply object is built once and shared, so replies of simultaneous requests carry each other's serial number or phone",
 edits=[(MP,"""	options[0x0002] = &action{ // 心跳
		genData: func() *model.ProcessData {
			return &model.ProcessData{Incoming: &model.Msg0002{}, Outgoing: &model.Msg8001{}}
		},""","""	heartbeatReply := &model.Msg8001{}
	options[0x0002] = &action{ // 心跳
		genData: func() *model.ProcessData {
			return &model.ProcessData{Incoming: &model.Msg0002{}, Outgoing: heartbeatReply}
		},""")],
 lib=True, imports=["encoding/binary"], demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	const n, k = 8, 3000
	var ds []*demoTerm
	for i := 0; i < n; i++ {
		d := demoDial(l, fmt.Sprintf("192.0.2.1:%d", i+1))
		d.register(t, fmt.Sprintf("01380013800%d", i), "ID1", fmt.Sprintf("AB12%d", i))
		ds = append(ds, d)
	}
	var wg sync.WaitGroup
	for i, d := range ds {
		wg.Add(1)
		go func(i int, d *demoTerm) {
			defer wg.Done()
			for s := 0; s < k; s++ {
				d.send(msg13(0x0002, fmt.Sprintf("01380013800%d", i), uint16(i*5000+s), nil))
			}
		}(i, d)
	}
	wg.Wait()
	for i, d := range ds {
		f := d.got()
		if len(f) != k {
			t.Fatalf("conn %d: %d replies", i, len(f))
		}
		for s, m := range f {
			if binary.BigEndian.Uint16(m[12:14]) != uint16(i*5000+s) || m[9] != byte(i) {
				t.Fatalf("conn %d: reply %d is %x", i, s, m)
			}
		}
	}
}
''')

bug(id="c09-refusal-rebinds", prop="C09", needs="a refused registration of a phone that is already registered, sent on another connection",
 what="the refusal moves the existing registration to the connection of the refused registration",
 edits=[(MP,"""		out.Result = model.ResDeviceAlreadyRegister
		return nil""","""		out.Result = model.ResDeviceAlreadyRegister
		if cur, err := cache.GetDeviceByPhone(device.Phone); err == nil { // 终端重连
			cur.SessionID, cur.Conn = device.SessionID, device.Conn
		}
		return nil""")],
 lib=True, imports=["github.com/fakeyanss/jt808-server-go/internal/storage"], demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	a, b := demoDial(l, "192.0.2.1:1"), demoDial(l, "192.0.2.1:2")
	p := "013800138000"
	a.register(t, p, "ID1", "AB123")
	b.send(reg13(p, "ID1", "AB999", 7))
	if f := b.got(); len(f) != 1 || f[0][14] != 3 {
		t.Fatalf("%x", f)
	}
	d, err := storage.GetDeviceCache().GetDeviceByPhone(p)
	if err != nil || d.SessionID != "192.0.2.1:1" {
		t.Fatalf("%+v %v", d, err)
	}
}
''')

bug(id="c11-code-padding", prop="C11", needs="an authentication whose code is the issued one followed by blanks or NULs",
 what="such a code is accepted although it is not the issued one",
 edits=[(MP,"	if in.AuthCode != genAuthCode(device) {","	if strings.TrimRight(in.AuthCode, \" \\x00\") != genAuthCode(device) {")],
 lib=True, demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	a := demoDial(l, "192.0.2.1:1")
	p := "013800138000"
	code := a.register(t, p, "ID1", "AB123")
	a.send(msg13(0x0102, p, 2, []byte(code+"\\x00")))
	if f := a.got(); len(f) != 1 || f[0][16] != 1 {
		t.Fatalf("%x", f)
	}
}
''')

bug(id="c12-location-not-closed", prop="C12", needs="a location report from a phone that is not registered",
 what="the error no longer identifies the unknown terminal, so the server keeps its connection open",
 edits=[(MP,"""	if errors.Is(err, storage.ErrDeviceNotFound) {
		return errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", in.Header.PhoneNumber)
	}

	// 解析状态位编码""","""	if err != nil {
		return errors.Errorf("Fail to find device cache, phoneNumber=%s: %v", in.Header.PhoneNumber, err)
	}

	// 解析状态位编码""")],
 lib=True, demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	a := demoDial(l, "192.0.2.1:1")
	a.send(loc13("013800138000", 1, 3, 1, 1, 1, 1, 1, "240102030405"))
	if f := a.got(); len(f) != 0 || !a.isClosed() {
		t.Fatalf("replies %x, closed %v", f, a.isClosed())
	}
}
''')

bug(id="c13-check-survives", prop="C13", needs="a logout with time left until the next keepalive check, then a look at the scheduled checks",
 what="the pending keepalive check of a terminal survives its logout",
 edits=[(MP,"""	timer := NewKeepaliveTimer()
	timer.Cancel(device.Phone)
	// 清楚缓存""","""	timer := NewKeepaliveTimer()
	if device.Status == model.DeviceStatusOffline {
		timer.Cancel(device.Phone)
	}
	// 清楚缓存""")],
 lib=True, imports=["github.com/fakeyanss/jt808-server-go/internal/protocol"], demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	a := demoDial(l, "192.0.2.1:1")
	p := "013800138000"
	code := a.register(t, p, "ID1", "AB123")
	a.auth(t, p, code)
	a.send(msg13(0x0003, p, 9, nil))
	a.got()
	for _, j := range protocol.NewKeepaliveTimer().Jobs() {
		if id, ok := j.Job.(interface{ JobID() string }); ok && id.JobID() == p {
			t.Fatal("the keepalive check is still scheduled")
		}
	}
}
''')

bug(id="c14-whole-seconds", prop="C14", needs="a terminal that reports just within the keepalive period, with the check falling in the same second as the deadline",
 what="times are compared in whole seconds, so a terminal is shown offline up to a second before its keepalive period is over",
 edits=[("internal/protocol/model/device.go","""	now := time.Now().UnixMilli()
	return d.Status != DeviceStatusOffline && now > d.Keepalive.Milliseconds()+d.LastestComTime.UnixMilli()""","""	now := time.Now().Unix()
	return d.Status != DeviceStatusOffline && now >= int64(d.Keepalive.Seconds())+d.LastestComTime.Unix()""")],
 pkg="internal/protocol/model", demo='''package model

import ("testing"; "testing/synctest"; "time")

func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		time.Sleep(900 * time.Millisecond)
		d := &Device{Keepalive: time.Minute, LastestComTime: time.Now(), Status: DeviceStatusOnline}
		time.Sleep(59500 * time.Millisecond)
		if d.ShouleTurnOffline() {
			t.Fatal("offline 59.5 s after its last message")
		}
	})
}
''')

bug(id="c15-offline-refresh", prop="C15", needs="an authenticated terminal that stays silent for more than three keepalive periods",
 what="going offline counts as communication, so the silent terminal is removed a period late",
 edits=[("internal/protocol/keepalive.go","		d.Status = model.DeviceStatusOffline\n","		d.Status = model.DeviceStatusOffline\n		d.LastestComTime = time.Now() // 重新计时\n"),
        ("internal/protocol/keepalive.go",'	"sync"\n','	"sync"\n	"time"\n')],
 lib=True, imports=["syscall","testing/synctest","github.com/fakeyanss/jt808-server-go/internal/storage"], demo='''
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		_, l := demoServer()
		a := demoDial(l, "192.0.2.1:1")
		p := "013800138000"
		code := a.register(t, p, "ID1", "AB123")
		time.Sleep(30 * time.Second)
		a.auth(t, p, code)
		time.Sleep(181 * time.Second)
		if storage.GetDeviceCache().HasPhone(p) || !a.isClosed() {
			t.Error("still registered three periods after its last message")
		}
		l.Close()
		a.Close()
		_ = fmt.Sprint()
		// goroutines of the process-wide singletons never end
		if t.Failed() {
			syscall.Exit(1)
		}
		syscall.Exit(0)
	})
}
''')

bug(id="c16-unchanged-position", prop="C16", needs="a report from the same position as the previous one, with another time, speed or status",
 what="such a report is not stored, so the latest location is not the last report",
 edits=[(MP,"	rb.Write(dg)\n","""	if last, ok := rb.Latest().(*model.DeviceGeo); ok && *last.Location == *dg.Location && *last.Geo == *dg.Geo {
		return nil // 位置未变化
	}
	rb.Write(dg)
""")],
 lib=True, imports=["github.com/fakeyanss/jt808-server-go/internal/storage"], demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	a := demoDial(l, "192.0.2.1:1")
	p := "013800138000"
	a.register(t, p, "ID1", "AB123")
	a.send(loc13(p, 1, 3, 5, 6, 7, 80, 9, "240102030405"))
	a.send(loc13(p, 2, 3, 5, 6, 7, 90, 9, "240102030406"))
	a.got()
	g, err := storage.GetGeoCache().GetGeoLatestByPhone(p)
	if err != nil || g.Drive.Speed != 9 || g.Time.Second() != 6 {
		t.Fatalf("%+v %v", g, err)
	}
}
''')

bug(id="c17-gbk-ascii", prop="C17", needs="a text that starts and ends with ASCII characters and has Chinese in between",
 what="a fast path takes such text for plain ASCII and writes its UTF-8 bytes",
 edits=[("internal/codec/hex/hex.go","""func WriteGBK(pkt []byte, str string) []byte {
""","""func WriteGBK(pkt []byte, str string) []byte {
	if n := len(str); n > 0 && str[0] < 0x80 && str[n-1] < 0x80 {
		return append(pkt, str...) // ASCII
	}
""")],
 pkg="internal/codec/hex", demo='''package hex

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"A", "京A123", "A京B", "", "AB京", "1粤港2"} {
		b := WriteGBK([]byte{9}, s)
		i := 1
		if g := ReadGBK(b, &i, len(b)-1); g != s || b[0] != 9 {
			t.Fatalf("%q -> %x -> %q", s, b, g)
		}
	}
}
''')

bug(id="c18-short-body-lock", prop="C18", needs="a location report that is shorter than its fixed part",
 what="the location handler holds a process-wide lock when it panics on a short body, so no terminal can report afterwards",
 edits=[("internal/protocol/model/msg_0200.go","	m.AlarmSign = hex.ReadDoubleWord(pkt, &idx)\n","	msg0200Mutex.Lock()\n	m.AlarmSign = hex.ReadDoubleWord(pkt, &idx)\n"),
  ("internal/protocol/model/msg_0200.go","	m.Time = hex.ReadBCD(pkt, &idx, 6)\n","	m.Time = hex.ReadBCD(pkt, &idx, 6)\n	msg0200Total++\n	msg0200Mutex.Unlock()\n"),
  ("internal/protocol/model/msg_0200.go","// 位置信息汇报\n","// 位置上报统计\nvar (\n	msg0200Total uint64\n	msg0200Mutex sync.Mutex\n)\n\n// 位置信息汇报\n"),
  ("internal/protocol/model/msg_0200.go","import (\n","import (\n	\"sync\"\n\n")],
 lib=True, demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	a, b := demoDial(l, "192.0.2.1:1"), demoDial(l, "192.0.2.1:2")
	p := "013800138000"
	a.register(t, p, "ID1", "AB123")
	b.send(msg13(0x0200, "013900139000", 1, []byte{1, 2, 3}))
	b.got()
	a.send(loc13(p, 1, 3, 5, 6, 7, 80, 9, "240102030405"))
	if f := a.got(); len(f) != 1 {
		t.Fatalf("replies %x", f)
	}
}
''')

bug(id="c19-own-close", prop="C19", needs="a connection closed by the server itself (keepalive removal) while its reader is waiting",
 what="the reader treats the closed connection as a passing error and retries for ever, so the session is never forgotten",
 edits=[("internal/server/tcp_server.go","		case errors.Is(err, io.EOF), errors.Is(err, io.ErrClosedPipe), errors.Is(err, net.ErrClosed), errors.Is(err, storage.ErrDeviceNotFound):","		case errors.Is(err, io.EOF), errors.Is(err, storage.ErrDeviceNotFound):")],
 lib=True, imports=["github.com/fakeyanss/jt808-server-go/internal/storage"], demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	a := demoDial(l, "192.0.2.1:1")
	p := "013800138000"
	a.register(t, p, "ID1", "AB123")
	d, _ := storage.GetDeviceCache().GetDeviceByPhone(p)
	d.Conn.Close() // what the keepalive check does
	time.Sleep(2500 * time.Millisecond)
	if _, err := storage.GetSession("192.0.2.1:1"); err == nil {
		t.Fatal("the session is still there")
	}
}
''')

bug(id="c20-chunked-send", prop="C20", needs="a platform message longer than 256 bytes sent while another frame goes out on the same connection",
 what="long frames are written in pieces, so frames sent at the same time are mixed",
 edits=[(FH,"		n, err := fh.writer.Write([]byte(p))\n","""		chunk := p
		if len(chunk) > 256 {
			chunk = chunk[:256] // 避免单次写入过大
		}
		n, err := fh.writer.Write([]byte(chunk))
""")],
 pkg="internal/protocol", demo='''package protocol

import ("bytes"; "sync"; "testing"; "runtime")

type wire struct {
	mu  sync.Mutex
	out []byte
}

func (w *wire) Write(p []byte) (int, error) {
	w.mu.Lock()
	w.out = append(w.out, p...)
	w.mu.Unlock()
	runtime.Gosched()
	return len(p), nil
}

func TestDemo(t *testing.T) {
	w := &wire{}
	var wg sync.WaitGroup
	for i := byte(1); i < 9; i++ {
		wg.Add(1)
		go func(i byte) {
			defer wg.Done()
			fh := &JT808FrameHandler{writer: w}
			for k := 0; k < 300; k++ {
				_ = fh.Send(append(append([]byte{0x7e}, bytes.Repeat([]byte{i}, 900)...), 0x7e))
			}
		}(i)
	}
	wg.Wait()
	for _, f := range bytes.Split(bytes.Trim(w.out, "\\x7e"), []byte{0x7e, 0x7e}) {
		if len(f) != 900 || bytes.Count(f, f[:1]) != 900 {
			t.Fatal("frames are mixed")
		}
	}
}
''')

bug(id="c21-unlocked-lookup", prop="C21", needs="lookups by plate at the same time as registrations",
 what="the lookup by plate reads the map without the lock, which crashes the process under concurrent writes",
 edits=[("internal/storage/device_cache.go","""func (cache *DeviceCache) GetDeviceByPlate(carPlate string) (*model.Device, error) {
	cache.mutex.Lock()
	defer cache.mutex.Unlock()
""","""func (cache *DeviceCache) GetDeviceByPlate(carPlate string) (*model.Device, error) {
""")],
 pkg="internal/storage", flags="-race", demo='''package storage

import ("fmt"; "sync"; "testing"; "github.com/fakeyanss/jt808-server-go/internal/protocol/model")

func TestDemo(t *testing.T) {
	c := GetDeviceCache()
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				k := fmt.Sprint(g, i)
				c.CacheDevice(&model.Device{Phone: k, Plate: k})
				if _, err := c.GetDeviceByPlate(k); err != nil {
					t.Error(err)
				}
			}
		}(g)
	}
	wg.Wait()
}
''')

bug(id="c23-hoisted-params", prop="C23", needs="two parameter updates, the second of which leaves out the list",
 what="the request object is shared between requests, so an update without a list sends the parameters of the previous update",
 edits=[("internal/api/api.go","""		params := model.DeviceParams{}
		if err""","""		if err"""),("internal/api/api.go","	geoCache := storage.GetGeoCache()\n","	geoCache := storage.GetGeoCache()\n	params := model.DeviceParams{}\n")],
 pkg="internal/api", demo='''package api

import ("fmt"; "net"; "net/http"; "strings"; "testing"; "time"
 "github.com/fakeyanss/jt808-server-go/internal/config"
 "github.com/fakeyanss/jt808-server-go/internal/protocol/model"
 "github.com/fakeyanss/jt808-server-go/internal/server"
 "github.com/fakeyanss/jt808-server-go/internal/storage"
 "os"; "path/filepath")

func freePort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	_, p, _ := net.SplitHostPort(l.Addr().String())
	return p
}

func TestDemo(t *testing.T) {
	port := freePort()
	f := filepath.Join(t.TempDir(), "c.yaml")
	_ = os.WriteFile(f, []byte("log:\\n  logLevel: ERROR\\nserver:\\n  port:\\n    tcpPort: \\"1\\"\\n    httpPort: \\""+port+"\\"\\n"), 0o600)
	go Run(server.NewTCPServer(), config.Load(f))
	a, b := net.Pipe()
	storage.StoreSession(&model.Session{ID: "x", Conn: b})
	storage.GetDeviceCache().CacheDevice(&model.Device{Phone: "013800138000", Plate: "A", SessionID: "x", Conn: b, VersionDesc: model.Version2013})
	frames := make(chan []byte, 10)
	go func() {
		for {
			buf := make([]byte, 2000)
			n, err := a.Read(buf)
			if err != nil {
				return
			}
			frames <- buf[:n]
		}
	}()
	put := func(body string) []byte {
		for i := 0; ; i++ {
			r, _ := http.NewRequest("PUT", "http://127.0.0.1:"+port+"/device/013800138000/params", strings.NewReader(body))
			r.Header.Set("Content-Type", "application/json")
			res, err := http.DefaultClient.Do(r)
			if err == nil {
				res.Body.Close()
				break
			}
			if i > 50 {
				t.Fatal(err)
			}
			time.Sleep(100 * time.Millisecond)
		}
		select {
		case f := <-frames:
			return f
		case <-time.After(5 * time.Second):
			t.Fatal("no frame")
		}
		return nil
	}
	put(`{"paramCnt":1,"params":[{"paramId":1,"paramLen":4,"paramValue":7}]}`)
	f2 := put(`{}`)
	if want := "01000000"; len(f2) != 16 || fmt.Sprintf("%02x", f2[13]) != "00" {
		t.Fatalf("%x %s", f2, want)
	}
}
''')

bug(id="c24-replaced-params", prop="C24", needs="a parameter update that does not name every parameter, then a query",
 what="an update replaces all parameters of the terminal instead of the named ones",
 edits=[(MP,"		params.Update(in.Parameters)\n","		if len(in.Parameters.Params) > 1 {\n			params = in.Parameters\n		} else {\n			params.Update(in.Parameters)\n		}\n")],
 pkg="internal/protocol", demo='''package protocol

import ("context"; "testing"; "github.com/fakeyanss/jt808-server-go/internal/protocol/model")

func TestDemo(t *testing.T) {
	mp := NewJT808MsgProcessor()
	ctx := context.WithValue(context.Background(), model.SessionCtxKey{}, &model.Session{ID: "x"})
	hdr := func(id uint16, n int) *model.MsgHeader {
		return &model.MsgHeader{MsgID: id, PhoneNumber: "013800138000", Attr: &model.MsgBodyAttr{BodyLength: uint16(n), VersionDesc: model.Version2013}}
	}
	query := func() map[uint32]any {
		pd, err := mp.Process(ctx, &model.PacketData{Header: hdr(0x8104, 0)})
		if err != nil {
			t.Fatal(err)
		}
		out := map[uint32]any{}
		for _, p := range pd.Outgoing.(*model.Msg0104).Parameters.Params {
			out[p.ParamID] = p.ParamValue
		}
		return out
	}
	before := query()
	body := []byte{2, 0, 0, 0, 1, 4, 0, 0, 0, 9, 0, 0, 0, 2, 4, 0, 0, 0, 8}
	if _, err := mp.Process(ctx, &model.PacketData{Header: hdr(0x8103, len(body)), Body: body}); err != nil {
		t.Fatal(err)
	}
	after := query()
	if len(after) != len(before) || after[1] != uint32(9) || after[2] != uint32(8) {
		t.Fatalf("%d parameters before, %d after: %v", len(before), len(after), after[1])
	}
}
''')

bug(id="c25-json-backups", prop="C25", needs="a log configuration with rolling limits and backups that differ",
 what="the number of rolled files kept is taken from the age limit when file logging is in JSON",
 edits=[("internal/config/config.go","""	return &logger.Config{
""","""	if logCfg.FileEnable && logCfg.PrintAsJSON && logCfg.MaxAgeOfRolling > 0 {
		logCfg.MaxBackupsOfRolling = logCfg.MaxAgeOfRolling // 按天保留
	}
	return &logger.Config{
""")],
 pkg="internal/config", demo='''package config

import "testing"

func TestDemo(t *testing.T) {
	c := &Config{Log: &logConf{FileEnable: true, PrintAsJSON: true, LogLevel: "INFO", MaxBackupsOfRolling: 5, MaxAgeOfRolling: 9, MaxSizeOfRolling: 1}}
	if g := c.ParseLogConf(); g.MaxBackups != 5 || g.MaxAge != 9 {
		t.Fatalf("%+v", g)
	}
}
''')
