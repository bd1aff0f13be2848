From 75f4a03785912f1dd7dc704986ac71365fe9828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:51 +0000
Subject: [PATCH 01/38] fix: keepalive check must stop when the device is
 already gone

---
 internal/protocol/keepalive.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 7e17ce6..2ec42ff 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -70,6 +70,7 @@ func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		log.Debug().Str("device", devicePhone).Msg("Fail to find device cache")
 		t.Cancel(devicePhone)
+		return
 	}
 	if d.ShouleTurnOffline() {
 		// 保活失效
-- 
2.43.0


From ba1421f161399608558e423cc84d5de1e2c9ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:15 +0000
Subject: [PATCH 02/38] fix: a 2011 registration must be recorded as version
 2011

---
 internal/protocol/model/msg_0100.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/model/msg_0100.go b/internal/protocol/model/msg_0100.go
index cbeff1c..8cd4d16 100644
--- a/internal/protocol/model/msg_0100.go
+++ b/internal/protocol/model/msg_0100.go
@@ -43,7 +43,7 @@ func (m *Msg0100) Decode(packet *PacketData) error {
 			modeLen = 20
 		} else {
 			modeLen = 8
-			ver = &[]VersionType{Version2011}[0]
+			*ver = Version2011
 		}
 	} else {
 		return ErrDecodeMsg
-- 
2.43.0


From 9c9662243490de140c51143ca23492c15230e76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:17 +0000
Subject: [PATCH 03/38] fix: platform message headers must carry the device's
 version

---
 internal/protocol/model/header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/model/header.go b/internal/protocol/model/header.go
index e9c5669..9801d22 100644
--- a/internal/protocol/model/header.go
+++ b/internal/protocol/model/header.go
@@ -213,6 +213,7 @@ func GenMsgHeader(d *Device, msgID, serialNumber uint16) *MsgHeader {
 			PacketFragmented: 0,
 			VersionSign:      versionDecode(d.VersionDesc),
 			Extra:            0,
+			VersionDesc:      d.VersionDesc,
 		},
 		ProtocolVersion: d.ProtocolVersion,
 		PhoneNumber:     d.Phone,
-- 
2.43.0


From 4802b20f853be9c79ffaf2c589b0fef50e926a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:19 +0000
Subject: [PATCH 04/38] fix: authentication on a new connection must rebind the
 device to it

---
 internal/protocol/msg_processor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 9969bc7..8839541 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -293,7 +293,7 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 }
 
 // 收到鉴权，应校验鉴权token
-func processMsg0102(_ context.Context, data *model.ProcessData) error {
+func processMsg0102(ctx context.Context, data *model.ProcessData) error {
 	in := data.Incoming.(*model.Msg0102)
 
 	cache := storage.GetDeviceCache()
@@ -313,7 +313,11 @@ func processMsg0102(_ context.Context, data *model.ProcessData) error {
 		// 删除设备缓存
 		cache.DelDeviceByPhone(device.Phone)
 	} else {
-		// 鉴权通过
+		// 鉴权通过，绑定到当前连接
+		session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
+		device.SessionID = session.ID
+		device.TransProto = session.GetTransProto()
+		device.Conn = session.Conn
 		device.Status = model.DeviceStatusOnline
 		device.LastestComTime = time.Now()
 		device.AuthCode = in.AuthCode
-- 
2.43.0


From 242bbe4dfbc38297bc757f7df31793510f558d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:50 +0000
Subject: [PATCH 05/38] fix: logout and revocation must also drop the stored
 locations

---
 internal/protocol/msg_processor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 8839541..c607e5c 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -259,6 +259,7 @@ func processMsg0003(_ context.Context, data *model.ProcessData) error {
 	timer.Cancel(device.Phone)
 	// 清楚缓存
 	cache.DelDeviceByPhone(device.Phone)
+	storage.GetGeoCache().DelGeoByPhone(device.Phone)
 	// 为避免连接TIMEWAIT，应等待对方主动关闭
 	return nil
 }
@@ -312,6 +313,7 @@ func processMsg0102(ctx context.Context, data *model.ProcessData) error {
 		timer.Cancel(device.Phone)
 		// 删除设备缓存
 		cache.DelDeviceByPhone(device.Phone)
+		storage.GetGeoCache().DelGeoByPhone(device.Phone)
 	} else {
 		// 鉴权通过，绑定到当前连接
 		session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
-- 
2.43.0


From 90ffdc09a35da88f7e45febced19c3a1712dd9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:52 +0000
Subject: [PATCH 06/38] fix: every location report must refresh the keepalive,
 not only those with ACC off

---
 internal/protocol/msg_processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index c607e5c..046422e 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -368,9 +368,9 @@ func processMsg0200(_ context.Context, data *model.ProcessData) error {
 
 	if dg.Geo.ACCStatus == 0 { // ACC关闭，设备休眠
 		device.Status = model.DeviceStatusSleeping
-		device.LastestComTime = time.Now()
-		cache.CacheDevice(device)
 	}
+	device.LastestComTime = time.Now()
+	cache.CacheDevice(device)
 
 	geoCache := storage.GetGeoCache()
 	rb := geoCache.GetGeoRingByPhone(device.Phone)
-- 
2.43.0


From fb3921ae8762d40135c1cbc1f88960292c649e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:55 +0000
Subject: [PATCH 07/38] fix: answer the server time query (0x0004) with 0x8004

---
 internal/protocol/msg_processor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 046422e..f62ad93 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -58,6 +58,11 @@ func initProcessOption() processOptions {
 		},
 		process: processMsg0003,
 	}
+	options[0x0004] = &action{ // 查询服务器时间
+		genData: func() *model.ProcessData {
+			return &model.ProcessData{Incoming: &model.Msg0004{}, Outgoing: &model.Msg8004{}}
+		},
+	}
 	options[0x0100] = &action{ // 注册
 		genData: func() *model.ProcessData {
 			return &model.ProcessData{Incoming: &model.Msg0100{}, Outgoing: &model.Msg8100{}}
-- 
2.43.0


From 472f25d911a9053d028dd1aeaf62c8f6f43d2f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:57 +0000
Subject: [PATCH 08/38] fix: check and insert a registration atomically

---
 internal/protocol/msg_processor.go | 12 +++++-------
 internal/storage/device_cache.go   | 20 +++++++++++++++++++-
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index f62ad93..dfa9175 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -276,23 +276,21 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 	cache := storage.GetDeviceCache()
 	// 校验注册逻辑
 	out := data.Outgoing.(*model.Msg8100)
+	session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
+	device := model.NewDevice(in, session)
+	err := cache.AddDevice(device)
 	// 车辆已被注册
-	if cache.HasPlate(in.PlateNumber) {
+	if errors.Is(err, storage.ErrPlateExists) {
 		out.Result = model.ResCarAlreadyRegister
 		return nil
 	}
 	// 终端已被注册
-	if cache.HasPhone(in.Header.PhoneNumber) {
+	if errors.Is(err, storage.ErrPhoneExists) {
 		out.Result = model.ResDeviceAlreadyRegister
 		return nil
 	}
-
-	session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
-	device := model.NewDevice(in, session)
 	out.AuthCode = genAuthCode(device) // 设置鉴权码
 
-	cache.CacheDevice(device)
-
 	timer := NewKeepaliveTimer()
 	timer.Register(device.Phone)
 	return nil
diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index f3c447b..b3abc28 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -9,7 +9,11 @@ import (
 	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
 )
 
-var ErrDeviceNotFound = errors.New("device not found")
+var (
+	ErrDeviceNotFound = errors.New("device not found")
+	ErrPlateExists    = errors.New("plate already exists")
+	ErrPhoneExists    = errors.New("phone already exists")
+)
 
 type DeviceCache struct {
 	cacheByPlate map[string]*model.Device
@@ -74,6 +78,20 @@ func (cache *DeviceCache) CacheDevice(d *model.Device) {
 	cache.cacheDevice(d)
 }
 
+// 缓存新设备，车牌或手机号已存在时返回错误。检查与写入是原子的
+func (cache *DeviceCache) AddDevice(d *model.Device) error {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	if _, ok := cache.cacheByPlate[d.Plate]; ok {
+		return ErrPlateExists
+	}
+	if _, ok := cache.cacheByPhone[d.Phone]; ok {
+		return ErrPhoneExists
+	}
+	cache.cacheDevice(d)
+	return nil
+}
+
 func (cache *DeviceCache) delDevice(carPlate, phone *string) {
 	var d *model.Device
 	var ok bool
-- 
2.43.0


From aa93d267c58155913ca7e6068ab9c643dc82e6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:59 +0000
Subject: [PATCH 09/38] fix: lock the device listing and the session count

---
 internal/storage/device_cache.go  | 2 ++
 internal/storage/session_cache.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index b3abc28..ed58c9a 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -36,6 +36,8 @@ func GetDeviceCache() *DeviceCache {
 }
 
 func (cache *DeviceCache) ListDevice() []*model.Device {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
 	return maps.Values(cache.cacheByPhone)
 }
 
diff --git a/internal/storage/session_cache.go b/internal/storage/session_cache.go
index 89b623f..1363817 100644
--- a/internal/storage/session_cache.go
+++ b/internal/storage/session_cache.go
@@ -74,5 +74,7 @@ func ClearSession(id string) {
 // 统计session个数
 func countSession() int {
 	c := getSessionCache()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	return len(c.cacheByID)
 }
-- 
2.43.0


From 6953a3914bc0747640ad3fca0d2589be31fe3b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:01 +0000
Subject: [PATCH 10/38] fix: latest element of a ring buffer whose writer
 wrapped to the start

---
 pkg/container/ring_buffer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/container/ring_buffer.go b/pkg/container/ring_buffer.go
index 350ddbf..eb7a0f3 100644
--- a/pkg/container/ring_buffer.go
+++ b/pkg/container/ring_buffer.go
@@ -51,10 +51,7 @@ func (r *RingBuffer) Read() any {
 
 // Returns the latest element in the RingBuffer
 func (r *RingBuffer) Latest() any {
-	if r.Writer == 0 {
-		return nil
-	}
-	return r.Container[(atomic.LoadInt32(&r.Writer)-1)%r.Size]
+	return r.Container[(atomic.LoadInt32(&r.Writer)+r.Size-1)%r.Size]
 }
 
 // Returns the oldest element in RingBuffer
-- 
2.43.0


From 9186256d23ed59f545862677fb4cc90137edce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:04 +0000
Subject: [PATCH 11/38] fix: status bits of latitude and longitude type swapped
 when encoding

---
 internal/protocol/model/device.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/model/device.go b/internal/protocol/model/device.go
index c2af7cb..280b475 100644
--- a/internal/protocol/model/device.go
+++ b/internal/protocol/model/device.go
@@ -196,8 +196,8 @@ func (g *GeoMeta) Encode() uint32 {
 	var bitNum uint32
 	bitNum += uint32(g.ACCStatus)
 	bitNum += uint32(g.LocationStatus) << 1
-	bitNum += uint32(g.LongitudeType) << 2
-	bitNum += uint32(g.LatitudeType) << 3
+	bitNum += uint32(g.LatitudeType) << 2
+	bitNum += uint32(g.LongitudeType) << 3
 	bitNum += uint32(g.OperatingStatus) << 4
 	bitNum += uint32(g.GeoEncryptionStatus) << 5
 	bitNum += uint32(g.LoadStatus) << 8
-- 
2.43.0


From 2e1e30fa0f7c9affadca0aa48b379ed7f3de21bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:06 +0000
Subject: [PATCH 12/38] fix: session serial numbers repeated when wrapping
 concurrently

---
 internal/protocol/model/session.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/internal/protocol/model/session.go b/internal/protocol/model/session.go
index 7a3f0cc..6266180 100644
--- a/internal/protocol/model/session.go
+++ b/internal/protocol/model/session.go
@@ -1,7 +1,6 @@
 package model
 
 import (
-	"math"
 	"net"
 	"sync/atomic"
 )
@@ -43,12 +42,7 @@ func (s *Session) GetTransProto() TransportProtocol {
 }
 
 func (s *Session) GetNextSerialNum() uint16 {
-	next := atomic.AddUint32(&s.serialNumber, 1)
-	if next <= math.MaxUint16 {
-		return uint16(next)
-	}
-	atomic.StoreUint32(&s.serialNumber, 0)
-	return uint16(s.serialNumber)
+	return uint16(atomic.AddUint32(&s.serialNumber, 1)) // 超过65535后从0开始循环
 }
 
 // 定义Packet Data结构
-- 
2.43.0


From 5804008f251ddbec5d4d77e3c6a191864453fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:44 +0000
Subject: [PATCH 13/38] fix: skip unsupported parameter IDs and count the
 parameters actually sent

---
 internal/protocol/model/device_params.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 72a2edb..8805bd4 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -24,22 +24,25 @@ type DeviceParams struct {
 
 func (p *DeviceParams) Decode(phone string, cnt uint8, pkt []byte) error {
 	p.DevicePhone = phone
-	p.ParamCnt = cnt
 	idx := 0
 	for i := 0; i < int(cnt); i++ {
 		param := &ParamData{}
 		err := param.Decode(pkt, &idx)
+		if errors.Is(err, ErrParamIDNotSupportted) {
+			continue // skip this param
+		}
 		if err != nil {
 			return err
 		}
 
 		p.Params = append(p.Params, param)
 	}
+	p.ParamCnt = uint8(len(p.Params))
 	return nil
 }
 
 func (p *DeviceParams) Encode() (pkt []byte, err error) {
-	pkt = hex.WriteByte(pkt, p.ParamCnt)
+	pkt = hex.WriteByte(pkt, 0) // 参数个数，编码完成后写入
 	for _, arg := range p.Params {
 		paramBytes, err := arg.Encode()
 		if err != nil {
@@ -48,6 +51,7 @@ func (p *DeviceParams) Encode() (pkt []byte, err error) {
 			continue
 		}
 		pkt = hex.WriteBytes(pkt, paramBytes)
+		pkt[0]++
 	}
 	return pkt, nil
 }
@@ -86,6 +90,8 @@ func (p *ParamData) Decode(pkt []byte, idx *int) error {
 	fn, ok := argTable[p.ParamID]
 	if !ok {
 		log.Warn().Str("ParamID", fmt.Sprintf("0x%04x", p.ParamID)).Err(ErrParamIDNotSupportted).Msg("skip it")
+		*idx += int(p.ParamLen)
+		return ErrParamIDNotSupportted
 	}
 	p.ParamValue = fn.decode(pkt, idx, int(p.ParamLen))
 	return nil
-- 
2.43.0


From b44bab66ccd76657b750eabef5583598b54907bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:46 +0000
Subject: [PATCH 14/38] fix: byte-string parameters are plain hex, not padded
 or truncated BCD

---
 internal/protocol/model/device_params.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 8805bd4..f990103 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -3,6 +3,7 @@ package model
 import (
 	"fmt"
 	"sort"
+	"strings"
 
 	"github.com/pkg/errors"
 	"github.com/rs/zerolog/log"
@@ -165,12 +166,14 @@ var (
 	encodeWord       = func(a any) (pkt []byte) { return writeWordAny(pkt, a) }
 	decodeDoubleWord = func(b []byte, idx *int, paramLen int) any { return hex.ReadDoubleWord(b, idx) }
 	encodeDoubleWord = func(a any) (pkt []byte) { return writeDoubleWordAny(pkt, a) }
-	decodeBytes      = func(b []byte, idx *int, paramLen int) any { return hex.ReadBCD(b, idx, paramLen) } // transform bytes to string
-	encodeBytes      = func(a any) (pkt []byte) { return hex.WriteBCD(pkt, a.(string)) }                   // transform string to bytes
-	decodeString     = func(b []byte, idx *int, paramLen int) any { return hex.ReadString(b, idx, paramLen) }
-	encodeString     = func(a any) (pkt []byte) { return hex.WriteString(pkt, a.(string)) }
-	decodeGBK        = func(b []byte, idx *int, paramLen int) any { return hex.ReadGBK(b, idx, paramLen) }
-	encodeGBK        = func(a any) (pkt []byte) { return hex.WriteGBK(pkt, a.(string)) }
+	decodeBytes      = func(b []byte, idx *int, paramLen int) any {
+		return strings.ToUpper(hex.Byte2Str(hex.ReadBytes(b, idx, paramLen)))
+	} // transform bytes to string
+	encodeBytes  = func(a any) (pkt []byte) { return hex.WriteBytes(pkt, hex.Str2Byte(a.(string))) } // transform string to bytes
+	decodeString = func(b []byte, idx *int, paramLen int) any { return hex.ReadString(b, idx, paramLen) }
+	encodeString = func(a any) (pkt []byte) { return hex.WriteString(pkt, a.(string)) }
+	decodeGBK    = func(b []byte, idx *int, paramLen int) any { return hex.ReadGBK(b, idx, paramLen) }
+	encodeGBK    = func(a any) (pkt []byte) { return hex.WriteGBK(pkt, a.(string)) }
 )
 
 var argTable = map[uint32]*paramFn{
-- 
2.43.0


From 0cf2df376e3b4f4eada834b0521b4a66b8d0e54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:49 +0000
Subject: [PATCH 15/38] fix: an empty media list is a valid message

---
 internal/protocol/model/msg_1205.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/model/msg_1205.go b/internal/protocol/model/msg_1205.go
index eb237d4..a8c7678 100644
--- a/internal/protocol/model/msg_1205.go
+++ b/internal/protocol/model/msg_1205.go
@@ -19,14 +19,18 @@ func (m *Msg1205) Decode(packet *PacketData) error {
 	pkt, idx := packet.Body, 0
 	m.AnswerSerialNumber = hex.ReadWord(pkt, &idx)
 	m.MediaCount = hex.ReadDoubleWord(pkt, &idx)
-	m.DeviceMedia.Decode(pkt[idx:])
+	if m.MediaCount > 0 { // 无资源时列表为空
+		m.DeviceMedia.Decode(pkt[idx:])
+	}
 	return nil
 }
 
 func (m *Msg1205) Encode() (pkt []byte, err error) {
 	pkt = hex.WriteWord(pkt, m.AnswerSerialNumber)
 	pkt = hex.WriteDoubleWord(pkt, m.MediaCount)
-	pkt = hex.WriteBytes(pkt, m.DeviceMedia.Encode())
+	if m.MediaCount > 0 {
+		pkt = hex.WriteBytes(pkt, m.DeviceMedia.Encode())
+	}
 
 	pkt, err = writeHeader(m, pkt)
 	return pkt, err
-- 
2.43.0


From c65424d42d1b5fa7f4dd30e0065796326ef5f506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 16/38] fix: HTTP parameter handlers must stop after answering
 400

---
 internal/api/api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/api/api.go b/internal/api/api.go
index 410aaa6..e214ef7 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -59,6 +59,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8104, session.GetNextSerialNum())
 		msg := model.Msg8104{
@@ -73,6 +74,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		params := model.DeviceParams{}
 		if err := c.ShouldBind(&params); err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		device, err := cache.GetDeviceByPhone(phone)
 		if err != nil {
@@ -82,6 +84,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8103, session.GetNextSerialNum())
 		msg := model.Msg8103{
-- 
2.43.0


From 5c7f92eb8c878c4a1b986c9685281228e28d0b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:53 +0000
Subject: [PATCH 17/38] fix: the accept loop must end when the server is
 stopped

---
 internal/server/tcp_server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index c9706e4..6fc03c5 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -43,6 +43,9 @@ func (serv *TCPServer) Listen(addr string) error {
 func (serv *TCPServer) Start() {
 	for {
 		conn, err := serv.listener.Accept()
+		if errors.Is(err, net.ErrClosed) {
+			return // listener已关闭
+		}
 		if err != nil {
 			log.Error().Err(err).Msg("Fail to do listener accept")
 		} else {
-- 
2.43.0


From 269e0e6d57f26ee4754aa18d43fea808d1e0c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:54 +0000
Subject: [PATCH 18/38] fix: resynchronise on consecutive frame delimiters

---
 internal/protocol/frame_handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protocol/frame_handler.go b/internal/protocol/frame_handler.go
index 9c0e710..78281c9 100644
--- a/internal/protocol/frame_handler.go
+++ b/internal/protocol/frame_handler.go
@@ -54,6 +54,9 @@ func (fh *JT808FrameHandler) Recv(ctx context.Context) (FramePayload, error) {
 			return nil, errors.Wrap(err, "Fail to read stream to framePayload")
 		}
 		if readBuf[0] == 0x7e {
+			if len(buf) == 1 {
+				continue // 连续的标识位，视为重新开始
+			}
 			buf = append(buf, readBuf[0])
 			if inMessage {
 				// end bit
-- 
2.43.0


From 8708c63163adde71c9b5ef733a8d2218d693a839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:57 +0000
Subject: [PATCH 19/38] fix: text that is not expressible in GBK must not
 discard the bytes already written

---
 internal/codec/hex/hex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/codec/hex/hex.go b/internal/codec/hex/hex.go
index 87273f9..9b79850 100644
--- a/internal/codec/hex/hex.go
+++ b/internal/codec/hex/hex.go
@@ -170,7 +170,7 @@ func ReadGBK(pkt []byte, idx *int, n int) string {
 func WriteGBK(pkt []byte, str string) []byte {
 	gbk, err := GBK.UTF82GBK([]byte(str))
 	if err != nil {
-		return []byte{}
+		return pkt
 	}
 	return append(pkt, gbk...)
 }
-- 
2.43.0


From 0021da79bf40109a3bc6deca5c6d73caa86203ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:59 +0000
Subject: [PATCH 20/38] fix: length of the simulated parameter 0x0076

---
 internal/protocol/msg_processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index dfa9175..5bf2524 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -483,7 +483,7 @@ func processMsg8104(_ context.Context, data *model.ProcessData) error {
 			"00000030045A4A6830" +
 			"00000031026C64" +
 			"000000320409302130" +
-			"0000007623030000010100010202000103030001"
+			"000000760F030000010100010202000103030001"
 		_ = out.Parameters.Decode(out.Header.PhoneNumber, uint8(paramCnt), hex.Str2Byte(paramByteStr))
 		paramCache.CacheDeviceParams(out.Parameters)
 	} else {
-- 
2.43.0


From 61359197a9b5db0b1a5702d90712dee8f549c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:10 +0000
Subject: [PATCH 21/38] fix: log level name FATAL

---
 internal/config/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 9a6aa0b..d35b55f 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -16,7 +16,7 @@ import (
 type LogLevelType string
 
 const (
-	LogLevelFatal LogLevelType = "FATAl"
+	LogLevelFatal LogLevelType = "FATAL"
 	LogLevelError LogLevelType = "ERROR"
 	LogLevelWarn  LogLevelType = "WARN"
 	LogLevelInfo  LogLevelType = "INFO"
@@ -189,7 +189,7 @@ func (c *Config) ParseLogConf() *logger.Config {
 		logLevel = int8(zerolog.WarnLevel)
 	case "ERROR":
 		logLevel = int8(zerolog.ErrorLevel)
-	case "FATAl":
+	case "FATAL":
 		logLevel = int8(zerolog.FatalLevel)
 	}
 	return &logger.Config{
-- 
2.43.0


From d4c8d7f33af3869e4d5fc2f809ecdf107b56763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:59 +0000
Subject: [PATCH 22/38] fix: reassemble fragmented messages

---
 internal/protocol/model/segment.go |  9 -------
 internal/protocol/msg_processor.go |  4 +--
 internal/protocol/packet_codec.go  | 10 +++++--
 internal/storage/segment_cache.go  | 42 ++++++++++++++++++++----------
 4 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/internal/protocol/model/segment.go b/internal/protocol/model/segment.go
index 7976a4e..b50abdb 100644
--- a/internal/protocol/model/segment.go
+++ b/internal/protocol/model/segment.go
@@ -9,15 +9,6 @@ type Segment struct {
 	Data     []byte `json:"data"`
 }
 
-func (s *Segment) IsComplete() bool {
-	return s.SegNo == s.SegTotal
-}
-
-func (s *Segment) Merge(ns *Segment) {
-	s.SegNo = ns.SegNo
-	s.Data = append(s.Data, ns.Data...)
-}
-
 func NewSegment(pd *PacketData) *Segment {
 	return &Segment{
 		Phone:    pd.Header.PhoneNumber,
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 5bf2524..187f415 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -215,7 +215,7 @@ func (mp *JT808MsgProcessor) Process(ctx context.Context, pkt *model.PacketData)
 	return data, nil
 }
 
-func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.ProcessData, error) {
+func processSegmentPacket(ctx context.Context, pkt *model.PacketData) (*model.ProcessData, error) {
 	// JT1078 4.1节定义，对每个分包回复8001
 	cache := storage.GetDeviceCache()
 	phone := pkt.Header.PhoneNumber
@@ -224,7 +224,7 @@ func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.Proc
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		return nil, errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", phone)
 	}
-	session, err := storage.GetSession(device.SessionID)
+	session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
 	header := model.GenMsgHeader(device, 0x8001, session.GetNextSerialNum())
 	outgoingMsg := &model.Msg8001{
 		Header:             header,
diff --git a/internal/protocol/packet_codec.go b/internal/protocol/packet_codec.go
index bc7c42a..8901db7 100644
--- a/internal/protocol/packet_codec.go
+++ b/internal/protocol/packet_codec.go
@@ -69,8 +69,14 @@ func (pc *JT808PacketCodec) Decode(payload []byte) (*model.PacketData, error) {
 	if pd.Header.IsFragmented() {
 		seg := model.NewSegment(pd)
 		pd.SegCompleted = storage.CacheSegment(seg)
-		// 分包接收完成
-		pd.Body = seg.Data
+		// 分包接收完成，还原为完整消息
+		if pd.SegCompleted {
+			pd.Body = seg.Data
+			pd.Header.Attr.BodyLength = uint16(len(pd.Body))
+			pd.Header.Attr.PacketFragmented = 0
+			pd.Header.Attr.PacketFragmentedDesc = model.PacketFragmentedFalse
+			pd.Header.Frag = nil
+		}
 	}
 
 	pd.Header.Idx = 0 // reset idx
diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index 299356d..e91a44e 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -1,14 +1,20 @@
 package storage
 
 import (
-	"strings"
+	"fmt"
 	"sync"
 
 	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
 )
 
+// 一条分包消息已收到的分包
+type segmentParts struct {
+	total uint16
+	parts map[uint16][]byte // <包序号, 分包消息体>
+}
+
 type SegmentCache struct {
-	cacheByKey map[string]*model.Segment
+	cacheByKey map[string]*segmentParts
 	mutex      *sync.Mutex
 }
 
@@ -18,28 +24,36 @@ var segmentCacheInitOnce sync.Once
 func getSegmentCache() *SegmentCache {
 	segmentCacheInitOnce.Do(func() {
 		segmentCacheSingleton = &SegmentCache{
-			cacheByKey: make(map[string]*model.Segment),
+			cacheByKey: make(map[string]*segmentParts),
 			mutex:      &sync.Mutex{},
 		}
 	})
 	return segmentCacheSingleton
 }
 
+// 缓存分包。所有分包都已收到时，将seg.Data替换为按包序号拼接的完整消息体，清理缓存并返回true
 func CacheSegment(seg *model.Segment) bool {
-	b := new(strings.Builder)
-	b.WriteString(seg.Phone)
-	b.WriteString("/")
-	b.WriteRune(rune(seg.MsgID))
-	key := b.String()
+	if seg.SegNo == 0 || seg.SegNo > seg.SegTotal {
+		return false // 包序号不合法，忽略
+	}
+	key := fmt.Sprintf("%s/%04x", seg.Phone, seg.MsgID)
 	cache := getSegmentCache()
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
 	s, ok := cache.cacheByKey[key]
-	if !ok {
-		cache.cacheByKey[key] = seg
-		return s.IsComplete()
+	if !ok || s.total != seg.SegTotal {
+		s = &segmentParts{total: seg.SegTotal, parts: make(map[uint16][]byte)}
+		cache.cacheByKey[key] = s
+	}
+	s.parts[seg.SegNo] = seg.Data
+	if len(s.parts) < int(s.total) {
+		return false
+	}
+	delete(cache.cacheByKey, key)
+	data := make([]byte, 0)
+	for no := 1; no <= int(s.total); no++ {
+		data = append(data, s.parts[uint16(no)]...)
 	}
-	s.Merge(seg)
-	// cache.cacheByKey[key] = s
-	return s.IsComplete()
+	seg.Data = data
+	return true
 }
-- 
2.43.0


From 44e01a2f6c0260cf75f395c2cd9bed7e455df07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:26 +0000
Subject: [PATCH 23/38] fix: do not store fragments of terminals that are not
 registered

---
 internal/storage/segment_cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index e91a44e..6182d3b 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -36,6 +36,9 @@ func CacheSegment(seg *model.Segment) bool {
 	if seg.SegNo == 0 || seg.SegNo > seg.SegTotal {
 		return false // 包序号不合法，忽略
 	}
+	if !GetDeviceCache().HasPhone(seg.Phone) {
+		return false // 未注册的设备，不缓存
+	}
 	key := fmt.Sprintf("%s/%04x", seg.Phone, seg.MsgID)
 	cache := getSegmentCache()
 	cache.mutex.Lock()
-- 
2.43.0


From 53f3cda5979d26f6d1df6ebbe7b72c468f2f9693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:26 +0000
Subject: [PATCH 24/38] fix: make the ring buffer safe for concurrent writers
 and readers

---
 pkg/container/ring_buffer.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/container/ring_buffer.go b/pkg/container/ring_buffer.go
index eb7a0f3..5014351 100644
--- a/pkg/container/ring_buffer.go
+++ b/pkg/container/ring_buffer.go
@@ -6,7 +6,10 @@
 // from the current position and update it.
 package container
 
-import "sync/atomic"
+import (
+	"sync"
+	"sync/atomic"
+)
 
 // RingBuffer Structure
 type RingBuffer struct {
@@ -14,6 +17,8 @@ type RingBuffer struct {
 	Container []any // Array container of objects
 	Reader    int32 // Reader position
 	Writer    int32 // Writer Position
+
+	mutex sync.Mutex // Guards slots and positions
 }
 
 // Create a new RingBuffer of initial size "size"
@@ -29,6 +34,8 @@ func NewRingBuffer(size int32) *RingBuffer {
 
 // Write object into the RingBuffer
 func (r *RingBuffer) Write(v any) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	current := atomic.LoadInt32(&r.Writer)
 	r.Container[current] = v
 	next := (current + 1) % r.Size
@@ -45,21 +52,29 @@ func (r *RingBuffer) seekReader(delta int32) {
 
 // Read single object from the RingBuffer
 func (r *RingBuffer) Read() any {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	defer r.seekReader(1)
 	return r.Container[atomic.LoadInt32(&r.Reader)]
 }
 
 // Returns the latest element in the RingBuffer
 func (r *RingBuffer) Latest() any {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	return r.Container[(atomic.LoadInt32(&r.Writer)+r.Size-1)%r.Size]
 }
 
 // Returns the oldest element in RingBuffer
 func (r *RingBuffer) Oldest() any {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	return r.Container[atomic.LoadInt32(&r.Writer)]
 }
 
 // Overwrites the latest data in RingBuffer
 func (r *RingBuffer) Overwrite(v any) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.Container[atomic.LoadInt32(&r.Writer)] = v
 }
-- 
2.43.0


From 64b3e542f0cdc07a5d40db44b83dec30554c149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:22 +0000
Subject: [PATCH 25/38] fix: a message racing with the logout no longer
 restores the terminal

---
 internal/protocol/keepalive.go     |  2 +-
 internal/protocol/msg_processor.go |  8 ++++----
 internal/storage/device_cache.go   | 10 ++++++++++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 2ec42ff..9f6284d 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -75,7 +75,7 @@ func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
 	if d.ShouleTurnOffline() {
 		// 保活失效
 		d.Status = model.DeviceStatusOffline
-		cache.CacheDevice(d)
+		cache.UpdateDevice(d)
 		log.Debug().Str("device", devicePhone).Msg("Turn offline for device keepalive expired")
 	} else if d.ShouldClear() {
 		d.Conn.Close()
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 187f415..7c19ba6 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -246,7 +246,7 @@ func processMsg0002(_ context.Context, data *model.ProcessData) error {
 	}
 
 	device.LastestComTime = time.Now()
-	cache.CacheDevice(device)
+	cache.UpdateDevice(device)
 
 	return nil
 }
@@ -328,7 +328,7 @@ func processMsg0102(ctx context.Context, data *model.ProcessData) error {
 		device.AuthCode = in.AuthCode
 		device.IMEI = in.IMEI
 		device.SoftwareVersion = in.SoftwareVersion
-		cache.CacheDevice(device)
+		cache.UpdateDevice(device)
 	}
 
 	return nil
@@ -373,7 +373,7 @@ func processMsg0200(_ context.Context, data *model.ProcessData) error {
 		device.Status = model.DeviceStatusSleeping
 	}
 	device.LastestComTime = time.Now()
-	cache.CacheDevice(device)
+	cache.UpdateDevice(device)
 
 	geoCache := storage.GetGeoCache()
 	rb := geoCache.GetGeoRingByPhone(device.Phone)
@@ -399,7 +399,7 @@ func processMsg8001(_ context.Context, data *model.ProcessData) error {
 		// 仅在未注册成功时执行一次
 		device.Status = model.DeviceStatusOnline
 		device.LastestComTime = time.Now()
-		cache.CacheDevice(device)
+		cache.UpdateDevice(device)
 	}
 
 	return nil
diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index ed58c9a..fbe5565 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -80,6 +80,16 @@ func (cache *DeviceCache) CacheDevice(d *model.Device) {
 	cache.cacheDevice(d)
 }
 
+// 更新已缓存的设备。设备已被注销或替换时不做任何事，避免并发的消息使其重新出现
+func (cache *DeviceCache) UpdateDevice(d *model.Device) {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	if cache.cacheByPhone[d.Phone] != d {
+		return
+	}
+	cache.cacheDevice(d)
+}
+
 // 缓存新设备，车牌或手机号已存在时返回错误。检查与写入是原子的
 func (cache *DeviceCache) AddDevice(d *model.Device) error {
 	cache.mutex.Lock()
-- 
2.43.0


From 812da2d19fbb1de4bc0b39a3e9c2c95369f13599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:51 +0000
Subject: [PATCH 26/38] fix: an ended connection no longer removes the session
 of a newer one from the same address

---
 internal/server/tcp_server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index 6fc03c5..ec7d50a 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -79,7 +79,10 @@ func (serv *TCPServer) remove(session *model.Session) {
 	defer serv.mutex.Unlock()
 
 	session.Conn.Close()
-	storage.ClearSession(session.ID)
+	// 同一地址可能已重新连接，只清理自己的session
+	if cur, err := storage.GetSession(session.ID); err == nil && cur == session {
+		storage.ClearSession(session.ID)
+	}
 	// delete(serv.sessions, session.ID)
 
 	log.Debug().Str("id", session.ID).Msg("Closing connection from remote.")
-- 
2.43.0


From b190dddafa59ea2b068aafddd52dd94384fe6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:28 +0000
Subject: [PATCH 27/38] fix: do not read fields beyond the end of a message

A message cut short inside its fixed fields, with a correct check byte, was
decoded from whatever lay behind it in the buffer (its own check byte first)
and then acted on: a truncated location report was stored and acknowledged.
---
 internal/protocol/packet_codec.go | 2 +-
 internal/storage/segment_cache.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/packet_codec.go b/internal/protocol/packet_codec.go
index 8901db7..b942dce 100644
--- a/internal/protocol/packet_codec.go
+++ b/internal/protocol/packet_codec.go
@@ -165,7 +165,7 @@ func (pc *JT808PacketCodec) verify(pkt []byte) ([]byte, error) {
 		actual ^= v
 	}
 	if expected == actual {
-		return pkt[:n-1], nil
+		return pkt[: n-1 : n-1], nil // 限制容量，读取字段时不能越过消息末尾
 	}
 	log.Debug().Msgf("verify expect=%v, but actual=%v", expected, actual)
 	return nil, ErrVerifyFailed
diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index 6182d3b..0f948e7 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -53,7 +53,11 @@ func CacheSegment(seg *model.Segment) bool {
 		return false
 	}
 	delete(cache.cacheByKey, key)
-	data := make([]byte, 0)
+	size := 0
+	for _, part := range s.parts {
+		size += len(part)
+	}
+	data := make([]byte, 0, size) // 容量即长度，读取字段时不能越过消息末尾
 	for no := 1; no <= int(s.total); no++ {
 		data = append(data, s.parts[uint16(no)]...)
 	}
-- 
2.43.0


From 5c634edc4e59f37a3f83286be82cc8aeee75bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:10 +0000
Subject: [PATCH 28/38] fix: refuse to encode a message whose body exceeds the
 length field

---
 internal/protocol/model/msg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protocol/model/msg.go b/internal/protocol/model/msg.go
index 760a373..a4b5878 100644
--- a/internal/protocol/model/msg.go
+++ b/internal/protocol/model/msg.go
@@ -25,6 +25,9 @@ type JT808Msg interface {
 }
 
 func writeHeader(m JT808Msg, pkt []byte) ([]byte, error) {
+	if len(pkt) > int(bodyLengthBit) {
+		return nil, errors.Wrapf(ErrEncodeMsg, "body of %d bytes exceeds the length field", len(pkt))
+	}
 	m.GetHeader().Attr.BodyLength = uint16(len(pkt))
 	headerPkt, err := m.GetHeader().Encode()
 	if err != nil {
-- 
2.43.0


From 0931816b2387eb4fdf942f3eafc9fcdc87b552b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:11 +0000
Subject: [PATCH 29/38] fix: leave out a parameter whose value exceeds its
 length byte

---
 internal/protocol/model/device_params.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index f990103..5f38751 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"strings"
 
@@ -102,6 +103,9 @@ func (p *ParamData) Encode() (pkt []byte, err error) {
 	pkt = hex.WriteDoubleWord(pkt, p.ParamID)
 	if fn, ok := argTable[p.ParamID]; ok {
 		value := fn.encode(p.ParamValue)
+		if len(value) > math.MaxUint8 {
+			return nil, errors.Wrapf(ErrEncodeDeviceParams, "value of %d bytes exceeds the length field", len(value))
+		}
 		pkt = hex.WriteByte(pkt, uint8(len(value)))
 		pkt = hex.WriteBytes(pkt, value)
 		return pkt, nil
-- 
2.43.0


From 4ecd158f598e59bcc0319b35a2fd77516dfd1964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:49 +0000
Subject: [PATCH 30/38] fix: keep the fields of an authentication within their
 widths

---
 internal/protocol/model/msg_0102.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/protocol/model/msg_0102.go b/internal/protocol/model/msg_0102.go
index 2d50696..cd85bc0 100644
--- a/internal/protocol/model/msg_0102.go
+++ b/internal/protocol/model/msg_0102.go
@@ -1,6 +1,7 @@
 package model
 
 import (
+	"math"
 	"strings"
 
 	"github.com/fakeyanss/jt808-server-go/internal/codec/hex"
@@ -35,6 +36,9 @@ func (m *Msg0102) Encode() (pkt []byte, err error) {
 	if ver == Version2013 || ver == Version2011 {
 		pkt = append(pkt, []byte(m.AuthCode)...)
 	} else if ver == Version2019 {
+		if len(m.AuthCode) > math.MaxUint8 {
+			return nil, ErrEncodeMsg // 鉴权码长度只有1字节
+		}
 		if m.AuthCodeLen != uint8(len(m.AuthCode)) {
 			m.AuthCodeLen = uint8(len(m.AuthCode))
 		}
@@ -44,12 +48,18 @@ func (m *Msg0102) Encode() (pkt []byte, err error) {
 		var fillByte byte // '\x00'
 		im := []byte(m.IMEI)
 		toFillLen := 15 - len(m.IMEI)
+		if toFillLen < 0 {
+			im = im[:15]
+		}
 		for i := 0; i < toFillLen; i++ {
 			im = append(im, fillByte)
 		}
 		pkt = append(pkt, im...)
 		sv := []byte(m.SoftwareVersion)
 		toFillLen = 20 - len(m.SoftwareVersion)
+		if toFillLen < 0 {
+			sv = sv[:20]
+		}
 		for i := 0; i < toFillLen; i++ {
 			sv = append(sv, fillByte)
 		}
-- 
2.43.0


From f37fc6e7529f43c689f64756fe7cb2813be6a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:25 +0000
Subject: [PATCH 31/38] fix: the server does not act on messages only a
 platform sends

A terminal could send a general reply (0x8001) with any registered phone
number and be marked online without having authenticated, or have the
server answer a parameter query, with the data of another terminal, as
if it were a terminal itself.
---
 internal/protocol/model/session.go | 1 +
 internal/protocol/msg_processor.go | 7 +++++++
 internal/server/tcp_server.go      | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/internal/protocol/model/session.go b/internal/protocol/model/session.go
index 6266180..eb2f4f1 100644
--- a/internal/protocol/model/session.go
+++ b/internal/protocol/model/session.go
@@ -31,6 +31,7 @@ type (
 type Session struct {
 	ID           string // remote addr
 	Conn         net.Conn
+	IsPlatform   bool // 本端是否为平台(server)，否则为终端(client)
 	serialNumber uint32
 }
 
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 7c19ba6..194aeed 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -25,6 +25,8 @@ var (
 	ErrActiveClose        = errors.New("Active close")             // client无法继续处理，应主动关闭连接
 )
 
+const minPlatformMsgID = 0x8000 // 平台发出的消息ID最高位为1
+
 // 处理消息的Handler接口
 type MsgProcessor interface {
 	Process(ctx context.Context, pkt *model.PacketData) (*model.ProcessData, error)
@@ -148,6 +150,11 @@ func (mp *JT808MsgProcessor) Process(ctx context.Context, pkt *model.PacketData)
 	if _, ok := mp.options[msgID]; !ok {
 		return nil, ErrMsgIDNotSupportted
 	}
+	// 平台不处理只能由平台发出的消息，否则终端可借此绕过鉴权
+	session, _ := ctx.Value(model.SessionCtxKey{}).(*model.Session)
+	if session != nil && session.IsPlatform && msgID >= minPlatformMsgID {
+		return nil, ErrMsgIDNotSupportted
+	}
 
 	// process segment packet
 	if pkt.Header.IsFragmented() && !pkt.SegCompleted {
diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index ec7d50a..f364a3a 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -66,6 +66,8 @@ func (serv *TCPServer) accept(conn net.Conn) *model.Session {
 	session := &model.Session{
 		Conn: conn,
 		ID:   remoteAddr, // using remote addr default
+
+		IsPlatform: true,
 	}
 	// serv.sessions[remoteAddr] = session
 	storage.StoreSession(session)
-- 
2.43.0


From 0cd1582aec8ace73255830f264604888d1c1c82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:26 +0000
Subject: [PATCH 32/38] fix: forget the unfinished fragments of a terminal that
 is removed

They stayed behind for ever, and were mixed into a fragmented message of
the next terminal registered with that phone number.
---
 internal/storage/device_cache.go  |  1 +
 internal/storage/segment_cache.go | 29 ++++++++++++++++++++---------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index fbe5565..1a0210f 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -118,6 +118,7 @@ func (cache *DeviceCache) delDevice(carPlate, phone *string) {
 	}
 	delete(cache.cacheByPlate, d.Plate)
 	delete(cache.cacheByPhone, d.Phone)
+	clearSegments(d.Phone)
 }
 
 func (cache *DeviceCache) DelDeviceByCarPlate(carPlate string) {
diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index 0f948e7..5751e0b 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -1,7 +1,6 @@
 package storage
 
 import (
-	"fmt"
 	"sync"
 
 	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
@@ -14,8 +13,8 @@ type segmentParts struct {
 }
 
 type SegmentCache struct {
-	cacheByKey map[string]*segmentParts
-	mutex      *sync.Mutex
+	cacheByPhone map[string]map[uint16]*segmentParts // <手机号, <消息ID, 分包>>
+	mutex        *sync.Mutex
 }
 
 var segmentCacheSingleton *SegmentCache
@@ -24,8 +23,8 @@ var segmentCacheInitOnce sync.Once
 func getSegmentCache() *SegmentCache {
 	segmentCacheInitOnce.Do(func() {
 		segmentCacheSingleton = &SegmentCache{
-			cacheByKey: make(map[string]*segmentParts),
-			mutex:      &sync.Mutex{},
+			cacheByPhone: make(map[string]map[uint16]*segmentParts),
+			mutex:        &sync.Mutex{},
 		}
 	})
 	return segmentCacheSingleton
@@ -39,20 +38,24 @@ func CacheSegment(seg *model.Segment) bool {
 	if !GetDeviceCache().HasPhone(seg.Phone) {
 		return false // 未注册的设备，不缓存
 	}
-	key := fmt.Sprintf("%s/%04x", seg.Phone, seg.MsgID)
 	cache := getSegmentCache()
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
-	s, ok := cache.cacheByKey[key]
+	byMsgID, ok := cache.cacheByPhone[seg.Phone]
+	if !ok {
+		byMsgID = make(map[uint16]*segmentParts)
+		cache.cacheByPhone[seg.Phone] = byMsgID
+	}
+	s, ok := byMsgID[seg.MsgID]
 	if !ok || s.total != seg.SegTotal {
 		s = &segmentParts{total: seg.SegTotal, parts: make(map[uint16][]byte)}
-		cache.cacheByKey[key] = s
+		byMsgID[seg.MsgID] = s
 	}
 	s.parts[seg.SegNo] = seg.Data
 	if len(s.parts) < int(s.total) {
 		return false
 	}
-	delete(cache.cacheByKey, key)
+	delete(byMsgID, seg.MsgID)
 	size := 0
 	for _, part := range s.parts {
 		size += len(part)
@@ -64,3 +67,11 @@ func CacheSegment(seg *model.Segment) bool {
 	seg.Data = data
 	return true
 }
+
+// 清理设备未收齐的分包
+func clearSegments(phone string) {
+	cache := getSegmentCache()
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	delete(cache.cacheByPhone, phone)
+}
-- 
2.43.0


From 216731d41ac674e7beb9e93226c53eae8384d8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:04 +0000
Subject: [PATCH 33/38] fix: a parameter value its type cannot hold is not sent
 as another value

A number from the HTTP API was converted to the width of the parameter
whatever its size (70000 for a WORD was sent as 4464, 1.5 as 1), and a value
of the wrong JSON type made the encoder panic. Such a parameter is now skipped
like any other that cannot be encoded.
---
 internal/protocol/model/device_params.go | 82 +++++++++++++++---------
 1 file changed, 52 insertions(+), 30 deletions(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 5f38751..9bae8ba 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -102,7 +102,10 @@ func (p *ParamData) Decode(pkt []byte, idx *int) error {
 func (p *ParamData) Encode() (pkt []byte, err error) {
 	pkt = hex.WriteDoubleWord(pkt, p.ParamID)
 	if fn, ok := argTable[p.ParamID]; ok {
-		value := fn.encode(p.ParamValue)
+		value, err := fn.encode(p.ParamValue)
+		if err != nil {
+			return nil, err
+		}
 		if len(value) > math.MaxUint8 {
 			return nil, errors.Wrapf(ErrEncodeDeviceParams, "value of %d bytes exceeds the length field", len(value))
 		}
@@ -116,7 +119,7 @@ func (p *ParamData) Encode() (pkt []byte, err error) {
 
 type paramFn struct {
 	decode func([]byte, *int, int) any
-	encode func(any) (pkt []byte)
+	encode func(any) (pkt []byte, err error)
 }
 
 // !!!特别注意，any类型被encoding/json Unmarshal后，会转为默认的类型，如下:
@@ -130,54 +133,73 @@ type paramFn struct {
 //
 // 所以需要再encode时，将其按照json默认类型推断，再进行强转
 
-func any2uint8(a any) uint8 {
-	if b, ok := a.(float64); ok {
-		return uint8(b)
+// 转为max以内的整数。值不是数字，或超出max、带小数时返回错误
+func any2uint(a any, max uint32) (uint32, error) {
+	switch num := a.(type) {
+	case float64:
+		if num >= 0 && num <= float64(max) && num == math.Trunc(num) {
+			return uint32(num), nil
+		}
+	case uint8:
+		return uint32(num), nil
+	case uint16:
+		if uint32(num) <= max {
+			return uint32(num), nil
+		}
+	case uint32:
+		if num <= max {
+			return num, nil
+		}
 	}
-	return a.(uint8)
+	return 0, errors.Wrapf(ErrEncodeDeviceParams, "value %v is not an integer up to %d", a, max)
 }
 
-func writeByteAny(pkt []byte, num any) []byte {
-	return hex.WriteByte(pkt, any2uint8(num))
+func writeByteAny(pkt []byte, a any) ([]byte, error) {
+	num, err := any2uint(a, math.MaxUint8)
+	return hex.WriteByte(pkt, uint8(num)), err
 }
 
-func any2uint16(a any) uint16 {
-	if b, ok := a.(float64); ok {
-		return uint16(b)
-	}
-	return a.(uint16)
+func writeWordAny(pkt []byte, a any) ([]byte, error) {
+	num, err := any2uint(a, math.MaxUint16)
+	return hex.WriteWord(pkt, uint16(num)), err
 }
 
-func writeWordAny(pkt []byte, num any) []byte {
-	return hex.WriteWord(pkt, any2uint16(num))
+func writeDoubleWordAny(pkt []byte, a any) ([]byte, error) {
+	num, err := any2uint(a, math.MaxUint32)
+	return hex.WriteDoubleWord(pkt, num), err
 }
 
-func any2uint32(a any) uint32 {
-	if b, ok := a.(float64); ok {
-		return uint32(b)
+func any2string(a any) (string, error) {
+	if str, ok := a.(string); ok {
+		return str, nil
 	}
-	return a.(uint32)
-}
-
-func writeDoubleWordAny(pkt []byte, num any) []byte {
-	return hex.WriteDoubleWord(pkt, any2uint32(num))
+	return "", errors.Wrapf(ErrEncodeDeviceParams, "value %v is not a string", a)
 }
 
 var (
 	decodeByte       = func(b []byte, idx *int, paramLen int) any { return hex.ReadByte(b, idx) }
-	encodeByte       = func(a any) (pkt []byte) { return writeByteAny(pkt, a) }
+	encodeByte       = func(a any) (pkt []byte, err error) { return writeByteAny(pkt, a) }
 	decodeWord       = func(b []byte, idx *int, paramLen int) any { return hex.ReadWord(b, idx) }
-	encodeWord       = func(a any) (pkt []byte) { return writeWordAny(pkt, a) }
+	encodeWord       = func(a any) (pkt []byte, err error) { return writeWordAny(pkt, a) }
 	decodeDoubleWord = func(b []byte, idx *int, paramLen int) any { return hex.ReadDoubleWord(b, idx) }
-	encodeDoubleWord = func(a any) (pkt []byte) { return writeDoubleWordAny(pkt, a) }
+	encodeDoubleWord = func(a any) (pkt []byte, err error) { return writeDoubleWordAny(pkt, a) }
 	decodeBytes      = func(b []byte, idx *int, paramLen int) any {
 		return strings.ToUpper(hex.Byte2Str(hex.ReadBytes(b, idx, paramLen)))
 	} // transform bytes to string
-	encodeBytes  = func(a any) (pkt []byte) { return hex.WriteBytes(pkt, hex.Str2Byte(a.(string))) } // transform string to bytes
+	encodeBytes = func(a any) (pkt []byte, err error) {
+		str, err := any2string(a)
+		return hex.WriteBytes(pkt, hex.Str2Byte(str)), err
+	} // transform string to bytes
 	decodeString = func(b []byte, idx *int, paramLen int) any { return hex.ReadString(b, idx, paramLen) }
-	encodeString = func(a any) (pkt []byte) { return hex.WriteString(pkt, a.(string)) }
-	decodeGBK    = func(b []byte, idx *int, paramLen int) any { return hex.ReadGBK(b, idx, paramLen) }
-	encodeGBK    = func(a any) (pkt []byte) { return hex.WriteGBK(pkt, a.(string)) }
+	encodeString = func(a any) (pkt []byte, err error) {
+		str, err := any2string(a)
+		return hex.WriteString(pkt, str), err
+	}
+	decodeGBK = func(b []byte, idx *int, paramLen int) any { return hex.ReadGBK(b, idx, paramLen) }
+	encodeGBK = func(a any) (pkt []byte, err error) {
+		str, err := any2string(a)
+		return hex.WriteGBK(pkt, str), err
+	}
 )
 
 var argTable = map[uint32]*paramFn{
-- 
2.43.0


From 192d5c49829838a615f73e7b011a1ed4288f7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:06 +0000
Subject: [PATCH 34/38] fix: send no parameter command to another terminal that
 connected from the address of a disconnected one

---
 internal/api/api.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/api/api.go b/internal/api/api.go
index e214ef7..1707567 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -14,6 +14,18 @@ import (
 	"github.com/fakeyanss/jt808-server-go/internal/storage"
 )
 
+// 获取设备当前连接的session。设备断开后，同一地址可能已被其他终端重新连接，不能将消息发给该终端
+func getDeviceSession(device *model.Device) (*model.Session, error) {
+	session, err := storage.GetSession(device.SessionID)
+	if err != nil {
+		return nil, err
+	}
+	if session.Conn != device.Conn {
+		return nil, storage.ErrSessionClosed
+	}
+	return session, nil
+}
+
 func Run(serv *server.TCPServer, cfg *config.Config) {
 	// web server structure
 	gin.SetMode(gin.ReleaseMode)
@@ -56,7 +68,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
-		session, err := storage.GetSession(device.SessionID)
+		session, err := getDeviceSession(device)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
@@ -81,7 +93,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
-		session, err := storage.GetSession(device.SessionID)
+		session, err := getDeviceSession(device)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
-- 
2.43.0


From 54c100afd51444ba21a03f3783db35545bc7a773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:25 +0000
Subject: [PATCH 35/38] fix: a reassembled message longer than 65535 bytes is
 not read as a shorter one

---
 internal/protocol/packet_codec.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/packet_codec.go b/internal/protocol/packet_codec.go
index b942dce..e4363ea 100644
--- a/internal/protocol/packet_codec.go
+++ b/internal/protocol/packet_codec.go
@@ -1,6 +1,7 @@
 package protocol
 
 import (
+	"math"
 	"sync"
 
 	"github.com/pkg/errors"
@@ -72,7 +73,10 @@ func (pc *JT808PacketCodec) Decode(payload []byte) (*model.PacketData, error) {
 		// 分包接收完成，还原为完整消息
 		if pd.SegCompleted {
 			pd.Body = seg.Data
-			pd.Header.Attr.BodyLength = uint16(len(pd.Body))
+			pd.Header.Attr.BodyLength = math.MaxUint16
+			if len(pd.Body) < math.MaxUint16 { // 超长时不能回绕成较短的消息
+				pd.Header.Attr.BodyLength = uint16(len(pd.Body))
+			}
 			pd.Header.Attr.PacketFragmented = 0
 			pd.Header.Attr.PacketFragmentedDesc = model.PacketFragmentedFalse
 			pd.Header.Frag = nil
-- 
2.43.0


From 5bcbe17bfbd92e881b35a543dfd162d22717608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:30 +0000
Subject: [PATCH 36/38] fix: a frame that never ends does not exhaust the
 memory

---
 internal/protocol/frame_handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/protocol/frame_handler.go b/internal/protocol/frame_handler.go
index 78281c9..ad5d017 100644
--- a/internal/protocol/frame_handler.go
+++ b/internal/protocol/frame_handler.go
@@ -16,6 +16,9 @@ import (
 const (
 	// 标识位[2] + 消息头[21] + 消息体[1023 * 2(转义预留)]  + 校验码[1] + 标识位[2]
 	MaxFrameLen = 2 + 21 + 1023*2 + 1 + 2
+
+	// 接收时允许的最大长度，超过则认为缺少结束标识位
+	maxRecvLen = 1024 * 1024
 )
 
 var (
@@ -67,6 +70,9 @@ func (fh *JT808FrameHandler) Recv(ctx context.Context) (FramePayload, error) {
 		} else {
 			if inMessage {
 				buf = append(buf, readBuf[0])
+				if len(buf) > maxRecvLen {
+					buf, inMessage = buf[:0], false // 丢弃，等待下一个标识位，避免耗尽内存
+				}
 			}
 		}
 	}
-- 
2.43.0


From b1ae619a033a0a3b18bd33f8fcdb15d63e07a1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:57 +0000
Subject: [PATCH 37/38] fix: a location handled while its terminal logs out is
 not kept for the next registration

---
 internal/protocol/msg_processor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 194aeed..86e812d 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -385,6 +385,10 @@ func processMsg0200(_ context.Context, data *model.ProcessData) error {
 	geoCache := storage.GetGeoCache()
 	rb := geoCache.GetGeoRingByPhone(device.Phone)
 	rb.Write(dg)
+	// 处理期间终端可能已注销，此时不保留位置
+	if cur, err := cache.GetDeviceByPhone(device.Phone); err != nil || cur != device {
+		geoCache.DelGeoByPhone(device.Phone)
+	}
 
 	return nil
 }
-- 
2.43.0


From d0feb355ce814cfd6e07bb756c36fe0ce6eea589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:00 +0000
Subject: [PATCH 38/38] fix: a fragment handled while its terminal logs out is
 not kept for the next registration

---
 internal/storage/segment_cache.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index 5751e0b..73bf587 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -35,9 +35,19 @@ func CacheSegment(seg *model.Segment) bool {
 	if seg.SegNo == 0 || seg.SegNo > seg.SegTotal {
 		return false // 包序号不合法，忽略
 	}
-	if !GetDeviceCache().HasPhone(seg.Phone) {
+	device, err := GetDeviceCache().GetDeviceByPhone(seg.Phone)
+	if err != nil {
 		return false // 未注册的设备，不缓存
 	}
+	completed := cacheSegment(seg)
+	// 缓存期间设备可能已注销，此时不保留分包
+	if cur, err := GetDeviceCache().GetDeviceByPhone(seg.Phone); err != nil || cur != device {
+		clearSegments(seg.Phone)
+	}
+	return completed
+}
+
+func cacheSegment(seg *model.Segment) bool {
 	cache := getSegmentCache()
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
-- 
2.43.0

