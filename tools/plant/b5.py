BUGS=[]
def bug(**k): BUGS.append(k)
PC="internal/protocol/packet_codec.go"
bug(id="c21-shared-escape",prop="C21",
 needs="two connections' replies being encoded at the same moment",
 what="the escape buffer belongs to the codec singleton, so the frame of one terminal is overwritten by another's while it is being sent",
 edits=[(PC,"func (pc *JT808PacketCodec) escape(src []byte) []byte {\n	dst := make([]byte, 0)\n","// 复用转义缓冲，避免频繁分配\nvar escapeBuf = make([]byte, 0, MaxFrameLen)\n\nfunc (pc *JT808PacketCodec) escape(src []byte) []byte {\n	dst := escapeBuf[:0]\n")],
 pkg="internal/protocol",
 demo='''package protocol

import (
	"bytes"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	pc := NewJT808PacketCodec()
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			src := bytes.Repeat([]byte{byte(k + 1)}, 500)
			for i := 0; i < 20000; i++ {
				out := pc.escape(src)
				if len(out) != 502 || !bytes.Equal(out[1:501], src) {
					t.Errorf("frame of %d is damaged", k)
					return
				}
			}
		}(k)
	}
	wg.Wait()
}
''')
