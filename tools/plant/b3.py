BUGS=[]
def bug(**k): BUGS.append(k)
DP="internal/protocol/model/device_params.go"
bug(id="c06-can-interval", prop="C06", needs="a list holding parameter 0x0101 (CAN upload interval, a WORD), alone harmless to a round trip",
 what="the CAN upload interval is written and read as four bytes instead of two, so a real terminal reads a garbled list and what it reports swallows the next parameter",
 edits=[(DP,"	0x0101: {decode: decodeWord, encode: encodeWord},","	0x0101: {decode: decodeDoubleWord, encode: encodeDoubleWord},")],
 pkg="internal/protocol/model", demo='''package model

import ("bytes"; "encoding/json"; "testing")

func TestDemo(t *testing.T) {
	p := &DeviceParams{}
	if err := json.Unmarshal([]byte(`{"paramCnt":1,"params":[{"paramId":257,"paramLen":2,"paramValue":30}]}`), p); err != nil {
		t.Fatal(err)
	}
	b, err := p.Encode()
	if err != nil || !bytes.Equal(b, []byte{1, 0, 0, 1, 1, 2, 0, 30}) {
		t.Fatalf("%x %v", b, err)
	}
}
''')
