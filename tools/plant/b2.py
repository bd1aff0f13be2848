BUGS=[]
def bug(**k): BUGS.append(k)
FH="internal/protocol/frame_handler.go"; PC="internal/protocol/packet_codec.go"; MP="internal/protocol/msg_processor.go"
DC="internal/storage/device_cache.go"; GC="internal/storage/geo_cache.go"; TS="internal/server/tcp_server.go"; KA="internal/protocol/keepalive.go"
HX="internal/codec/hex/hex.go"; HD="internal/protocol/model/header.go"
ST="github.com/fakeyanss/jt808-server-go/internal/storage"; MO="github.com/fakeyanss/jt808-server-go/internal/protocol/model"

bug(id="c10-yield-between-maps", prop="C10", needs="two registrations of one phone number with different plates, the second arriving between the two map writes of the first",
 what="the directory lock is given up between the plate entry and the phone entry, so two racing registrations of one phone are both accepted",
 edits=[(DC,"	cache.cacheByPlate[d.Plate] = d\n	cache.cacheByPhone[d.Phone] = d\n",
 "	cache.cacheByPlate[d.Plate] = d\n	cache.mutex.Unlock() // 缩短持锁时间\n	cache.mutex.Lock()\n	cache.cacheByPhone[d.Phone] = d\n")],
 pkg="internal/storage", demo='''package storage

import ("fmt"; "sync"; "sync/atomic"; "testing"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model")

func TestDemo(t *testing.T) {
	c := GetDeviceCache()
	for round := 0; round < 20000; round++ {
		var wg sync.WaitGroup
		var won int32
		start := make(chan struct{})
		for i := 0; i < 8; i++ {
			d := &model.Device{Phone: fmt.Sprintf("%012d", round), Plate: fmt.Sprintf("P%d-%d", round, i)}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if c.AddDevice(d) == nil {
					atomic.AddInt32(&won, 1)
				}
			}()
		}
		close(start)
		wg.Wait()
		if won != 1 {
			t.Fatalf("round %d: %d registrations of one phone accepted", round, won)
		}
		c.DelDeviceByPhone(fmt.Sprintf("%012d", round))
	}
}
''')

API='''package api

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/config"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/server"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

var _ = fmt.Sprint
var _ json.Number

func startAPI(t *testing.T) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	_, port, _ := net.SplitHostPort(l.Addr().String())
	l.Close()
	f := filepath.Join(t.TempDir(), "c.yaml")
	_ = os.WriteFile(f, []byte("log:\\n  logLevel: ERROR\\nserver:\\n  port:\\n    tcpPort: \\"1\\"\\n    httpPort: \\""+port+"\\"\\n"), 0o600)
	go Run(server.NewTCPServer(), config.Load(f))
	return "http://127.0.0.1:" + port
}

func get(t *testing.T, url string, v any) int {
	for i := 0; ; i++ {
		res, err := http.Get(url)
		if err != nil {
			if i > 50 {
				t.Fatal(err)
			}
			time.Sleep(100 * time.Millisecond)
			continue
		}
		defer res.Body.Close()
		_ = json.NewDecoder(res.Body).Decode(v)
		return res.StatusCode
	}
}
'''
bug(id="c22-list-by-count", prop="C22", needs="one terminal leaves and another registers between two requests for the list",
 what="the list of terminals is only rebuilt when their number changed, so a terminal that left stays listed and its successor is missing",
 edits=[("internal/api/api.go","		c.JSON(http.StatusOK, cache.ListDevice())\n","""		// 设备数不变时复用上次的列表
		listMutex.Lock()
		if devices := cache.ListDevice(); listed == nil || len(devices) != len(listed) {
			listed = devices
		}
		res := listed
		listMutex.Unlock()
		c.JSON(http.StatusOK, res)
"""),("internal/api/api.go","	geoCache := storage.GetGeoCache()\n\n","	geoCache := storage.GetGeoCache()\n	var listed []*model.Device\n	var listMutex sync.Mutex\n\n"),
 ("internal/api/api.go",'	"os"\n','	"os"\n	"sync"\n')],
 pkg="internal/api", demo=API+'''
func TestDemo(t *testing.T) {
	url := startAPI(t)
	c := storage.GetDeviceCache()
	c.CacheDevice(&model.Device{Phone: "013800138000", Plate: "A"})
	var ds []map[string]any
	get(t, url+"/device", &ds)
	c.DelDeviceByPhone("013800138000")
	c.CacheDevice(&model.Device{Phone: "013800138001", Plate: "B"})
	ds = nil
	get(t, url+"/device", &ds)
	if len(ds) != 1 || ds[0]["phone"] != "013800138001" {
		t.Fatalf("%v", ds)
	}
}
''')

bug(id="c26-lenient-time", prop="C26", needs="a location report that ends inside its time field",
 what="digits missing at the end of a message are ignored, so a location report cut short inside its time is recorded and confirmed",
 edits=[(HX,"	ans := bcd2NumberStr(pkt[*idx : *idx+n])","	if len(pkt)-*idx < n { // 末尾不足n字节时，只读取剩余部分\n		n = len(pkt) - *idx\n	}\n	ans := bcd2NumberStr(pkt[*idx : *idx+n])")],
 lib=True, imports=[ST], demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	d := demoDial(l, "192.0.2.1:1")
	phone := "013800138000"
	d.auth(t, phone, d.register(t, phone, "ID1", "AB123"))
	body := locBody(1, 39000000, 116000000, 1, 2, 3, "260102030405")
	d.send(msg13(0x0200, phone, 7, body[:len(body)-2]))
	if f := d.got(); len(f) != 0 {
		t.Fatalf("incomplete report answered %x", f)
	}
	if g, err := storage.GetGeoCache().GetGeoLatestByPhone(phone); err == nil {
		t.Fatalf("incomplete report recorded: %+v", g)
	}
}
''')

bug(id="c07-last-fragment-early", prop="C07", needs="the fragment with the highest number arrives before the others",
 what="the fragment numbered last is not acknowledged even when the message is not complete yet",
 edits=[(MP,"	header := model.GenMsgHeader(device, 0x8001, session.GetNextSerialNum())\n	outgoingMsg","	if pkt.Header.Frag.Index == pkt.Header.Frag.Total {\n		return nil, nil // 最后一个分包，由完整消息的应答确认\n	}\n	header := model.GenMsgHeader(device, 0x8001, session.GetNextSerialNum())\n	outgoingMsg")],
 lib=True, demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	d := demoDial(l, "192.0.2.1:1")
	phone := "013800138000"
	d.auth(t, phone, d.register(t, phone, "ID1", "AB123"))
	body := locBody(1, 39000000, 116000000, 1, 2, 3, "260102030405")
	d.send(frag13(0x0200, phone, 9, 3, 3, body[20:]))
	d.send(frag13(0x0200, phone, 7, 3, 1, body[:10]))
	if f := d.got(); len(f) != 2 {
		t.Fatalf("two fragments answered %x", f)
	}
	d.send(frag13(0x0200, phone, 8, 3, 2, body[10:20]))
	if f := d.got(); len(f) != 1 {
		t.Fatalf("completing fragment answered %x", f)
	}
}
''')

bug(id="c14-heartbeat-throttle", prop="C14", needs="heartbeats slightly less than half a keepalive period after the previous contact, followed by a pause shorter than the period",
 what="a heartbeat within half the keepalive period of the last contact does not count, so a terminal that keeps talking is reported offline",
 edits=[(MP,"	device.LastestComTime = time.Now()\n	cache.UpdateDevice(device)\n\n	return nil\n}\n\n// 收到注销","	if time.Since(device.LastestComTime) > device.Keepalive/2 { // 避免频繁写缓存\n		device.LastestComTime = time.Now()\n		cache.UpdateDevice(device)\n	}\n\n	return nil\n}\n\n// 收到注销")],
 lib=True, imports=[ST,"github.com/fakeyanss/jt808-server-go/internal/protocol"], demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	d := demoDial(l, "192.0.2.1:1")
	phone := "013800138000"
	d.auth(t, phone, d.register(t, phone, "ID1", "AB123"))
	dev, _ := storage.GetDeviceCache().GetDeviceByPhone(phone)
	dev.Keepalive = 5 * time.Second // as if all times were 12 times shorter
	protocol.NewKeepaliveTimer().Register(phone)
	d.send(msg13(0x0002, phone, 5, nil))
	time.Sleep(2 * time.Second)
	for i := 0; i < 3; i++ {
		d.send(msg13(0x0002, phone, 5, nil))
		time.Sleep(3700 * time.Millisecond)
		if dev.ShouleTurnOffline() || dev.Status != 1 {
			t.Fatal("reported offline 3.7 s after a heartbeat; the period is 5 s")
		}
		d.send(msg13(0x0002, phone, 5, nil))
		time.Sleep(2200 * time.Millisecond)
	}
}
''')

bug(id="c13-other-connection", prop="C13", needs="the terminal logs out on a connection other than the one it was last bound to",
 what="a logout arriving on a newer connection is confirmed but the terminal stays registered",
 edits=[(MP,"func processMsg0003(_ context.Context","func processMsg0003(ctx context.Context"),
 (MP,"	// 取消定时任务\n	timer := NewKeepaliveTimer()\n	timer.Cancel(device.Phone)\n	// 清楚缓存","	// 不是当前绑定的连接，不处理\n	if session, ok := ctx.Value(model.SessionCtxKey{}).(*model.Session); ok && session.ID != device.SessionID {\n		return nil\n	}\n	// 取消定时任务\n	timer := NewKeepaliveTimer()\n	timer.Cancel(device.Phone)\n	// 清楚缓存")],
 lib=True, imports=[ST], demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	d := demoDial(l, "192.0.2.1:1")
	phone := "013800138000"
	d.auth(t, phone, d.register(t, phone, "ID1", "AB123"))
	d2 := demoDial(l, "192.0.2.1:2")
	d2.send(msg13(0x0003, phone, 5, nil))
	if f := d2.got(); len(f) != 1 {
		t.Fatalf("logout answered %x", f)
	}
	if storage.GetDeviceCache().HasPhone(phone) {
		t.Fatal("still registered after a confirmed logout")
	}
}
''')

bug(id="c15-never-authenticated", prop="C15", needs="a terminal that registers, never authenticates and falls silent",
 what="a registered terminal that never authenticated is never removed, so its plate and phone stay taken for ever",
 edits=[("internal/protocol/model/device.go","	return d.Status == DeviceStatusOffline && now >","	return d.Status == DeviceStatusOffline && d.AuthCode != \"\" && now >")],
 pkg="internal/protocol/model", demo='''package model

import ("testing"; "time")

func TestDemo(t *testing.T) {
	d := NewDevice(&Msg0100{PlateNumber: "A", Header: &MsgHeader{PhoneNumber: "013800138000", Attr: &MsgBodyAttr{}}}, &Session{ID: "x"})
	d.LastestComTime = time.Now().Add(-time.Hour)
	if !d.ShouldClear() {
		t.Fatal("silent for an hour and not removed")
	}
}
''')

bug(id="c16-written-later", prop="C16", needs="two location reports close together, or a query right after the confirmation",
 what="positions are recorded by a goroutine started per report, so a confirmed report may not be visible yet and two close reports may be recorded in the wrong order",
 edits=[(MP,"	rb.Write(dg)\n","	go rb.Write(dg) // 不阻塞应答\n")],
 lib=True, imports=[ST], demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	d := demoDial(l, "192.0.2.1:1")
	phone := "013800138000"
	d.auth(t, phone, d.register(t, phone, "ID1", "AB123"))
	for r := 0; r < 40; r++ {
		var b []byte
		for i := 0; i < 30; i++ {
			b = append(b, loc13(phone, uint16(i), 1, uint32(r*100+i), 1, 1, 1, 1, "260102030405")...)
		}
		d.send(b)
		for {
			time.Sleep(5 * time.Millisecond)
			d.mu.Lock()
			n := len(d.frames)
			d.mu.Unlock()
			if n >= 30 {
				break
			}
		}
		d.mu.Lock()
		d.frames = nil
		d.mu.Unlock()
		rb := storage.GetGeoCache().GetGeoRingByPhone(phone)
		last := float64(-1)
		for i := 0; i < 30; i++ {
			j := (int(rb.Writer) + int(rb.Size) - 30 + i) % int(rb.Size)
			g := rb.Container[j]
			s := fmt.Sprintf("%+v", g)
			_ = s
			lat := latOf(g)
			if lat <= last {
				t.Fatalf("round %d: position %d after %d", r, int(lat*1e6), int(last*1e6))
			}
			last = lat
		}
	}
}

func latOf(g any) float64 { return g.(*model.DeviceGeo).Location.Latitude }
''')
BUGS[-1]['imports'].append(MO)

bug(id="c19-panic-leaves-connection", prop="C19", needs="a frame that makes its own connection's goroutine panic (any message shorter than its layout)",
 what="the session is closed and forgotten only on an orderly return, so a connection whose handler panicked stays open and its session stays in the store",
 edits=[(TS,"	defer serv.remove(session)\n\n",""),(TS,"			return // close connection when EOF or closed\n","			serv.remove(session)\n			return // close connection when EOF or closed\n")],
 lib=True, imports=[ST], demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	d := demoDial(l, "192.0.2.1:1")
	phone := "013800138000"
	d.auth(t, phone, d.register(t, phone, "ID1", "AB123"))
	d.send(msg13(0x0200, phone, 7, []byte{1, 2, 3}))
	time.Sleep(1500 * time.Millisecond)
	d.send(msg13(0x0002, phone, 8, nil))
	f := d.got()
	_, err := storage.GetSession("192.0.2.1:1")
	if len(f) == 0 && (err == nil || !d.isClosed()) {
		t.Fatal("the connection is not served any more but neither closed nor forgotten")
	}
}
''')

bug(id="c05-plate-trim", prop="C05", needs="a plate that begins or ends with a space",
 what="the plate of a registration loses its leading and trailing blanks",
 edits=[("internal/protocol/model/msg_0100.go","	m.LocationDesc = region","	m.PlateNumber = strings.TrimSpace(m.PlateNumber)\n	m.LocationDesc = region")],
 pkg="internal/protocol/model", demo='''package model

import "testing"

func TestDemo(t *testing.T) {
	in := &Msg0100{ManufacturerID: "m", DeviceMode: "d", DeviceID: "i", PlateNumber: " AB 12 ", Header: &MsgHeader{MsgID: 0x100, PhoneNumber: "013800138000", Attr: &MsgBodyAttr{VersionDesc: Version2013}}}
	pkt, err := in.Encode()
	if err != nil {
		t.Fatal(err)
	}
	h := &MsgHeader{}
	if err := h.Decode(pkt); err != nil {
		t.Fatal(err)
	}
	out := &Msg0100{}
	if err := out.Decode(&PacketData{Header: h, Body: pkt[h.Idx:]}); err != nil || out.PlateNumber != in.PlateNumber {
		t.Fatalf("%q %v", out.PlateNumber, err)
	}
}
''')

bug(id="c11-remembered-code", prop="C11", needs="an authentication with an empty code by a terminal that has never authenticated",
 what="a code equal to the one remembered from the last authentication is accepted without recomputing, and before the first authentication the remembered code is empty",
 edits=[(MP,"	if in.AuthCode != genAuthCode(device) {","	if in.AuthCode != device.AuthCode && in.AuthCode != genAuthCode(device) {")],
 lib=True, demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	d := demoDial(l, "192.0.2.1:1")
	phone := "013800138000"
	d.register(t, phone, "ID1", "AB123")
	d.send(msg13(0x0102, phone, 2, nil))
	if f := d.got(); len(f) == 1 && f[0][16] == 0 {
		t.Fatalf("empty code accepted: %x", f)
	}
}
''')

bug(id="c12-fragment-kept", prop="C12", needs="a fragment (not a whole message) from a phone number that is not registered",
 what="fragments of unregistered terminals are ignored and the connection stays open",
 edits=[(MP,"		return nil, errors.Wrapf(err, \"Fail to find device cache, phoneNumber=%s\", phone)\n	}\n	session :=","		return nil, nil // 未注册设备的分包，忽略\n	}\n	session :=")],
 lib=True, demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	d := demoDial(l, "192.0.2.1:1")
	d.send(frag13(0x0200, "013800138000", 7, 2, 1, []byte{1, 2, 3}))
	if !d.isClosed() {
		t.Fatal("not closed")
	}
}
''')

bug(id="c03-lone-marker", prop="C03", needs="noise between two frames that contains no marker, followed by a frame in one read",
 what="bytes between frames are taken for the beginning of the next frame when they follow a complete one",
 edits=[(FH,"			if inMessage {\n				buf = append(buf, readBuf[0])\n			}","			if inMessage || len(buf) > 0 {\n				buf = append(buf, readBuf[0])\n			} else if fh.rbuf.Buffered() == 0 {\n				inMessage = false // 等待标识位\n			}")],
 lib=True, demo='''
func TestDemo(t *testing.T) {}
''')
BUGS.pop()

bug(id="c08-reply-on-newest", prop="C08", needs="a terminal with two open connections that sends a request on the older one",
 what="a reply goes to the connection the terminal was last bound to instead of the one that carried the request",
 edits=[("internal/protocol/pipeline.go","		err := p.fh.Send(packet)\n		return ctx, err","		fh := p.fh\n		if pd, ok := ctx.Value(model.ProcessDataCtxKey{}).(*model.ProcessData); ok && pd.Incoming != nil {\n			// 设备可能已重连，回复到当前绑定的连接\n			d, err := storage.GetDeviceCache().GetDeviceByPhone(pd.Outgoing.GetHeader().PhoneNumber)\n			if err == nil && d.Conn != nil && d.Status == model.DeviceStatusOnline {\n				fh = NewJT808FrameHandler(d.Conn)\n			}\n		}\n		err := fh.Send(packet)\n		return ctx, err"),
 ("internal/protocol/pipeline.go",'	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"\n','	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"\n	"github.com/fakeyanss/jt808-server-go/internal/storage"\n')],
 lib=True, demo='''
func TestDemo(t *testing.T) {
	_, l := demoServer()
	d := demoDial(l, "192.0.2.1:1")
	phone := "013800138000"
	code := d.register(t, phone, "ID1", "AB123")
	d.auth(t, phone, code)
	d2 := demoDial(l, "192.0.2.1:2")
	d2.auth(t, phone, code)
	d.send(msg13(0x0002, phone, 9, nil))
	f, f2 := d.got(), d2.got()
	if len(f) != 1 || len(f2) != 0 {
		t.Fatalf("answered %x on the asking connection, %x on the other", f, f2)
	}
}
''')

bug(id="c21-plate-kept", prop="C21", needs="a device removed by its plate",
 what="removing a terminal by plate leaves the entry under its phone number",
 edits=[(DC,"	delete(cache.cacheByPlate, d.Plate)\n	delete(cache.cacheByPhone, d.Phone)\n","	delete(cache.cacheByPlate, d.Plate)\n	if phone != nil || carPlate == nil {\n		delete(cache.cacheByPhone, d.Phone)\n	}\n")],
 pkg="internal/storage", demo='''package storage

import ("testing"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model")

func TestDemo(t *testing.T) {
	c := GetDeviceCache()
	c.CacheDevice(&model.Device{Phone: "1", Plate: "A"})
	c.DelDeviceByCarPlate("A")
	if c.HasPhone("1") || c.HasPlate("A") {
		t.Fatal("still there")
	}
}
''')

bug(id="c20-one-frame-per-connection", prop="C20", needs="a platform message sent while the connection's own reply is only partly accepted by the network",
 what="", edits=[], lib=True, demo='')
BUGS.pop()

bug(id="c24-registered-again", prop="C24", needs="a second successful general reply after the terminal's status became sleeping",
 what="", edits=[], lib=True, demo='')
BUGS.pop()
