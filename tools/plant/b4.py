BUGS=[]
def bug(**k): BUGS.append(k)
RB="pkg/container/ring_buffer.go"
bug(id="c27-unchanged-value",prop="C27",
 needs="the same value written twice in a row",
 what="a repeated value is not stored again, so the ring holds fewer than the most recent values",
 edits=[(RB,"	r.Container[current] = v\n","	if prev := (current + r.Size - 1) % r.Size; r.Size > 1 && r.Container[prev] == v {\n		return\n	}\n	r.Container[current] = v\n")],
 pkg="pkg/container",
 demo='''package container

import "testing"

func TestDemo(t *testing.T) {
	r := NewRingBuffer(3)
	for _, v := range []int{1, 2, 2, 2} {
		r.Write(v)
	}
	if o := r.Oldest(); o != 2 {
		t.Fatalf("oldest of 1 2 2 2 in a ring of 3 is %v", o)
	}
}
''')
bug(id="c27-pushed-reader",prop="C27",
 needs="a ring written past its capacity before its reader has moved on",
 what="the writer pushes the read position on when it catches up with it, so a reader misses a slot",
 edits=[(RB,"	atomic.StoreInt32(&r.Writer, next)\n","	atomic.StoreInt32(&r.Writer, next)\n	if next == atomic.LoadInt32(&r.Reader) && r.Container[next] != nil {\n		r.seekReader(1)\n	}\n")],
 pkg="pkg/container",
 demo='''package container

import "testing"

func TestDemo(t *testing.T) {
	r := NewRingBuffer(3)
	for i := 0; i < 6; i++ {
		r.Write(i)
	}
	if v := r.Read(); v != 3 {
		t.Fatalf("first read gives %v", v)
	}
}
''')
