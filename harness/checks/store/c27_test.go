package store

import (
	"fmt"
	"io"
	"sort"
	"testing"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/pkg/container"
	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

func ringSize(t *rapid.T) int {
	return rapid.OneOf(dict.IntRange(1, 6), dict.IntRange(1, 300), rapid.SampledFrom([]int{1, 2, 100, 128, 256})).Draw(t, "capacity")
}

// ringHistory compares a ring with a slice of slots after every operation.
func ringHistory(c *pbt.C) {
	n := ringSize(c.T)
	type ring struct {
		rb    *container.RingBuffer
		slots []any
		w, r  int
		total int
	}
	rs := make([]*ring, dict.IntRange(1, 3).Draw(c.T, "rings"))
	for i := range rs {
		rs[i] = &ring{rb: container.NewRingBuffer(int32(n)), slots: make([]any, n)}
	}
	steps := dict.IntRange(1, 2*n+20).Draw(c.T, "steps")
	same := rapid.SampledFrom([]int{0, 0, 1, 2, 7}).Draw(c.T, "same")
	c.Tracef("%d rings of capacity %d", len(rs), n)
	kinds := map[string]bool{}
	var script []string
	for s := 0; s < steps; s++ {
		k := dict.IntRange(0, len(rs)-1).Draw(c.T, "ring")
		q := rs[k]
		op := rapid.SampledFrom([]string{"write", "write", "write", "write", "many", "read", "latest", "oldest"}).Draw(c.T, "op")
		kinds[op] = true
		script = append(script, fmt.Sprint(k, op))
		switch op {
		case "write", "many":
			m := 1
			if op == "many" {
				m = dict.IntRange(1, 2*n+1).Draw(c.T, "many")
			}
			for ; m > 0; m-- {
				v := any(fmt.Sprintf("ring %d value %d", k, q.total))
				if same > 0 && q.total > 0 { // a value it may already hold
					v = fmt.Sprintf("ring %d value %d", k, q.total%same)
				}
				q.total++
				q.rb.Write(v)
				q.slots[q.w] = v
				q.w = (q.w + 1) % n
			}
			c.Tracef("ring %d: %s, %d written in all", k, op, q.total)
		case "read":
			if got := q.rb.Read(); got != q.slots[q.r] {
				c.Fatalf("ring %d: read of position %d gives %v, expected %v", k, q.r, got, q.slots[q.r])
			}
			q.r = (q.r + 1) % n
			c.Tracef("ring %d: read", k)
		}
		for k, q := range rs { // observing changes nothing, here or elsewhere
			var latest any
			if q.total > 0 {
				latest = q.slots[(q.w+n-1)%n]
			}
			if got := q.rb.Latest(); got != latest {
				c.Fatalf("ring %d: latest is %v, expected %v", k, got, latest)
			}
			if q.total >= n {
				if got := q.rb.Oldest(); got != q.slots[q.w] {
					c.Fatalf("ring %d: oldest is %v, expected %v", k, got, q.slots[q.w])
				}
			}
		}
	}
	for k, q := range rs {
		for i := 0; i < n; i++ {
			if got := q.rb.Read(); got != q.slots[q.r] {
				c.Fatalf("ring %d: read of position %d gives %v, expected %v", k, q.r, got, q.slots[q.r])
			}
			q.r = (q.r + 1) % n
		}
		c.ClassIf(q.total > n, "wrapped")
		c.ClassIf(q.total > 2*n, "wrapped twice")
		if q.total > n && kinds["read"] {
			c.NonTrivial("%d %v", n, script)
		}
	}
}

// ringTogether lets several goroutines write and read one ring.
func ringTogether(c *pbt.C) {
	n := ringSize(c.T)
	rb := container.NewRingBuffer(int32(n))
	g := dict.IntRange(2, 6).Draw(c.T, "writers")
	type item struct{ who, no int }
	per := make([]int, g)
	var fs []func(*guard)
	total := 0
	for k := range per {
		per[k] = dict.IntRange(1, 150).Draw(c.T, "writes")
		total += per[k]
		look := dict.IntRange(0, 3).Draw(c.T, "look")
		fs = append(fs, func(gd *guard) {
			last := map[int]int{}
			for s := 0; s < per[k]; s++ {
				rb.Write(item{k, s})
				switch look {
				case 1:
					x, ok := rb.Latest().(item)
					// of any writer, later looks never show an older value
					if !ok || x.no < last[x.who] {
						gd.failf("latest is %v after number %d of writer %d was latest", x, last[x.who], x.who)
					}
					last[x.who] = x.no
				case 2:
					rb.Read()
				case 3:
					rb.Oldest()
				}
			}
		})
	}
	c.Tracef("capacity %d, writers %v", n, per)
	together(c, fs...)
	x, ok := rb.Latest().(item)
	if !ok || x.no != per[x.who]-1 {
		c.Fatalf("the latest value is %v, which is not the last of its writer (%v)", rb.Latest(), per)
	}
	got := make([][]int, g)
	cnt := 0
	for i := 0; i < n; i++ {
		if x, ok := rb.Read().(item); ok {
			got[x.who] = append(got[x.who], x.no)
			cnt++
		}
	}
	if cnt != min(total, n) {
		c.Fatalf("%d values written into a ring of %d, it holds %d", total, n, cnt)
	}
	for k := range got {
		sort.Ints(got[k])
		for i, v := range got[k] {
			if v != per[k]-len(got[k])+i {
				c.Fatalf("of writer %d, who wrote %d, the ring holds %v: not its last ones", k, per[k], got[k])
			}
		}
	}
	c.ClassIf(total > n, "wrapped")
	c.NonTrivial("%d %v", n, per)
}

func TestC27(t *testing.T) {
	pbt.Watch(60 * time.Second)
	log.Logger = zerolog.New(io.Discard).Level(zerolog.Disabled)
	ok := pbt.Run("C27", "operation sequences (writes, runs of writes, reads, looks at the latest and oldest) on 1-3 rings of capacity 1-300 compared with a slice of slots after each step, and 2-6 goroutines writing and reading one ring at once under the race detector; non-trivial: a ring wrapped and was read, or a concurrent run; distinct by script", nil,
		pbt.Prop{Name: "ring", Quick: 3000, Thorough: 200000, F: ringHistory},
		pbt.Prop{Name: "together", Quick: 1500, Thorough: 60000, Round: 100, F: ringTogether},
	)
	if !ok {
		t.Fail()
	}
}
