// Package store checks the directory and the other in-memory stores, one
// operation at a time against a map model and from many goroutines under the
// race detector.
package store

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

var caseNo int

// names gives phones and plates no other case uses.
func names(n int) (phones, plates []string) {
	caseNo++
	for i := 0; i < n; i++ {
		phones = append(phones, fmt.Sprintf("%08d%04d", caseNo, i))
		plates = append(plates, fmt.Sprintf("京A%d-%d", caseNo, i))
	}
	return
}

// alike makes some names easily mistaken for the first one.
func alike(t *rapid.T, phones, plates []string) {
	for i := 1; i < len(phones); i++ {
		switch dict.IntRange(0, 11).Draw(t, "alike") {
		case 0: // the same number in the long layout
			phones[i] = fmt.Sprintf("%0*s", 12+2*i, phones[0])
		case 1:
			plates[i] = plates[0] + strings.Repeat(" ", i)
		case 2:
			plates[i] = strings.Repeat(" ", i) + plates[0]
		case 3:
			plates[i] = phones[0] // a plate that reads like a phone
		case 4:
			phones[i], plates[i] = fmt.Sprintf("%0*s", 12+2*i, phones[0]), strings.ToLower(plates[0])
		case 5:
			plates[i] = plates[0] + phones[0]
		}
	}
	seen := map[string]bool{}
	for i, p := range plates {
		for seen[p] {
			p += "x"
		}
		seen[p] = true
		plates[i] = p
	}
}

func listing(match func(*model.Device) bool) (map[string]*model.Device, error) {
	m := map[string]*model.Device{}
	for _, d := range storage.GetDeviceCache().ListDevice() {
		if d == nil {
			return nil, fmt.Errorf("the listing contains a nil terminal")
		}
		if !match(d) {
			continue
		}
		if m[d.Phone] != nil {
			return nil, fmt.Errorf("the listing contains %s twice", d.Phone)
		}
		m[d.Phone] = d
	}
	return m, nil
}

// sameDev: the same terminal, be it the same object or a copy.
func sameDev(a, b *model.Device) bool {
	return a == b || a != nil && b != nil && *a == *b
}

// coherent compares lookups by phone, by plate and the listing with want.
func coherent(phones, plates []string, want map[string]*model.Device) error {
	dc := storage.GetDeviceCache()
	mine := map[string]bool{}
	for _, p := range phones {
		mine[p] = true
	}
	got, err := listing(func(d *model.Device) bool { return mine[d.Phone] })
	if err != nil {
		return err
	}
	byPlate := map[string]*model.Device{}
	for _, d := range want {
		byPlate[d.Plate] = d
	}
	one := func(what, key string, d *model.Device, err error, has bool, w *model.Device) error {
		if w == nil {
			if !errors.Is(err, storage.ErrDeviceNotFound) || d != nil || has {
				return fmt.Errorf("lookup by %s %s: found=%v has=%v err=%v, but no such terminal is stored", what, key, d != nil, has, err)
			}
			return nil
		}
		if err != nil || !sameDev(d, w) || !has {
			return fmt.Errorf("lookup by %s %s: err=%v has=%v same=%v, but the terminal is stored", what, key, err, has, sameDev(d, w))
		}
		return nil
	}
	for _, p := range phones {
		d, err := dc.GetDeviceByPhone(p)
		if e := one("phone", p, d, err, dc.HasPhone(p), want[p]); e != nil {
			return e
		}
		if !sameDev(got[p], want[p]) {
			return fmt.Errorf("listing has %s: %v, but stored: %v", p, got[p] != nil, want[p] != nil)
		}
	}
	for _, p := range plates {
		d, err := dc.GetDeviceByPlate(p)
		if e := one("plate", p, d, err, dc.HasPlate(p), byPlate[p]); e != nil {
			return e
		}
	}
	return nil
}

// owns is whether the model holds the phone or the plate.
func owns(want map[string]*model.Device, phone, plate string) (byPhone, byPlate *model.Device) {
	byPhone = want[phone]
	for _, d := range want {
		if d.Plate == plate {
			byPlate = d
		}
	}
	return
}

type guard struct {
	mu   sync.Mutex
	errs []string
}

func (g *guard) failf(f string, a ...any) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if len(g.errs) < 5 {
		g.errs = append(g.errs, fmt.Sprintf(f, a...))
	}
}

// together runs the functions at the same moment and waits for them.
func together(c *pbt.C, fs ...func(g *guard)) {
	g := &guard{}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f(g)
		}()
	}
	close(start)
	wg.Wait()
	if len(g.errs) > 0 {
		c.Fatalf("%s", strings.Join(g.errs, "; "))
	}
}

const (
	opAdd = iota
	opCache
	opUpdate
	opStale
	opDelPhone
	opDelPlate
	opList
	opGet
	opN
)

var opNames = []string{"add", "cache", "update", "stale-update", "del-by-phone", "del-by-plate", "list", "get"}

func directory(c *pbt.C) {
	dc := storage.GetDeviceCache()
	n := dict.IntRange(1, 5).Draw(c.T, "n")
	if dict.IntRange(0, 39).Draw(c.T, "crowd") == 0 {
		n = dict.IntRange(6, 300).Draw(c.T, "crowd size")
	}
	phones, plates := names(n)
	alike(c.T, phones, plates)
	want := map[string]*model.Device{}
	var old []*model.Device
	defer func() {
		for _, p := range phones {
			dc.DelDeviceByPhone(p)
		}
		for _, p := range plates {
			dc.DelDeviceByCarPlate(p)
		}
	}()
	steps := dict.IntRange(1, 25).Draw(c.T, "steps")
	key := ""
	kinds := map[int]bool{}
	for s := 0; s < steps; s++ {
		op := dict.IntRange(0, opN-1).Draw(c.T, "op")
		i, j := dict.IntRange(0, n-1).Draw(c.T, "phone"), dict.IntRange(0, n-1).Draw(c.T, "plate")
		phone, plate := phones[i], plates[j]
		bp, bl := owns(want, phone, plate)
		c.Tracef("%s phone %d plate %d", opNames[op], i, j)
		switch op {
		case opAdd:
			d := &model.Device{Phone: phone, Plate: plate}
			err := dc.AddDevice(d)
			switch {
			case bl != nil:
				if !errors.Is(err, storage.ErrPlateExists) {
					c.Fatalf("adding a terminal with a stored plate: err=%v", err)
				}
			case bp != nil:
				if !errors.Is(err, storage.ErrPhoneExists) {
					c.Fatalf("adding a terminal with a stored phone: err=%v", err)
				}
			default:
				if err != nil {
					c.Fatalf("adding a new terminal: err=%v", err)
				}
				want[phone] = d
			}
		case opCache: // a new terminal, or a replacement with the same phone and plate
			if bp == bl {
				if bp != nil {
					old = append(old, bp)
				}
				d := &model.Device{Phone: phone, Plate: plate}
				dc.CacheDevice(d)
				want[phone] = d
			}
		case opUpdate:
			if bp != nil {
				bp.Status = model.DeviceStatus(s % 3)
				dc.UpdateDevice(bp)
			}
		case opStale:
			if len(old) > 0 {
				dc.UpdateDevice(rapid.SampledFrom(old).Draw(c.T, "old"))
			}
		case opDelPhone:
			dc.DelDeviceByPhone(phone)
			if bp != nil {
				old = append(old, bp)
				delete(want, phone)
			}
		case opDelPlate:
			dc.DelDeviceByCarPlate(plate)
			if bl != nil {
				old = append(old, bl)
				delete(want, bl.Phone)
			}
		}
		kinds[op] = true
		key += fmt.Sprintf("%d.%d.%d ", op, i, j)
		if err := coherent(phones, plates, want); err != nil {
			c.Fatalf("after step %d (%s): %v", s, opNames[op], err)
		}
	}
	if len(kinds) >= 3 {
		c.NonTrivial("%d %s", n, key)
	}
}

type step struct{ op, i int }

func script(c *pbt.C, ops, n, max int) []step {
	var out []step
	for k := dict.Count(5, max, 300).Draw(c.T, "len"); k > 0; k-- {
		out = append(out, step{dict.IntRange(0, ops-1).Draw(c.T, "op"), dict.IntRange(0, n-1).Draw(c.T, "i")})
	}
	return out
}

// Each goroutine owns some terminals and must see its own operations at once;
// everyone lists and looks up everything.
func directoryOwned(c *pbt.C) {
	dc := storage.GetDeviceCache()
	g := dict.IntRange(2, 6).Draw(c.T, "goroutines")
	const n = 3
	phones, plates := names(g * n)
	plateOf := map[string]string{}
	for i := range phones {
		plateOf[phones[i]] = plates[i]
	}
	final := make([]map[string]*model.Device, g)
	var fs []func(*guard)
	key := ""
	for k := 0; k < g; k++ {
		sc := script(c, opN, n, 60)
		key += fmt.Sprint(sc)
		fs = append(fs, func(gd *guard) {
			want := map[string]*model.Device{}
			final[k] = want
			myPhones, myPlates := phones[k*n:(k+1)*n], plates[k*n:(k+1)*n]
			for s, st := range sc {
				phone, plate := myPhones[st.i], myPlates[st.i]
				switch st.op {
				case opAdd:
					d := &model.Device{Phone: phone, Plate: plate}
					if err := dc.AddDevice(d); (err == nil) != (want[phone] == nil) {
						gd.failf("goroutine %d step %d: add gives %v, stored before: %v", k, s, err, want[phone] != nil)
					} else if err == nil {
						want[phone] = d
					}
				case opCache:
					d := &model.Device{Phone: phone, Plate: plate}
					dc.CacheDevice(d)
					want[phone] = d
				case opUpdate:
					if d := want[phone]; d != nil {
						dc.UpdateDevice(d)
					}
				case opDelPhone:
					dc.DelDeviceByPhone(phone)
					delete(want, phone)
				case opDelPlate:
					dc.DelDeviceByCarPlate(plate)
					delete(want, phone)
				case opGet: // anyone's terminal
					p := phones[(k*n+st.i*5+s)%len(phones)]
					if d, err := dc.GetDeviceByPhone(p); err == nil && (d.Phone != p || d.Plate != plateOf[p]) {
						gd.failf("lookup of %s gives %s/%s", p, d.Phone, d.Plate)
					}
				default:
					if _, err := listing(func(d *model.Device) bool { return plateOf[d.Phone] != "" }); err != nil {
						gd.failf("%v", err)
					}
				}
				if err := coherent(myPhones, myPlates, want); err != nil {
					gd.failf("goroutine %d after step %d (%s): %v", k, s, opNames[st.op], err)
					return
				}
			}
		})
	}
	together(c, fs...)
	all := map[string]*model.Device{}
	for _, m := range final {
		for p, d := range m {
			all[p] = d
		}
	}
	if err := coherent(phones, plates, all); err != nil {
		c.Fatalf("when all are done: %v", err)
	}
	for _, p := range phones {
		dc.DelDeviceByPhone(p)
	}
	c.NonTrivial("%s", key)
}

// All goroutines fight over the same terminals; when they are done, the three
// views agree, and every successful insert is either still there or deleted.
func directoryContended(c *pbt.C) {
	dc := storage.GetDeviceCache()
	g := dict.IntRange(2, 6).Draw(c.T, "goroutines")
	n := dict.IntRange(1, 3).Draw(c.T, "n")
	phones, plates := names(n)
	cross := rapid.Bool().Draw(c.T, "cross")
	var fs []func(*guard)
	key := ""
	for k := 0; k < g; k++ {
		sc := script(c, opN, n, 40)
		key += fmt.Sprint(sc)
		fs = append(fs, func(gd *guard) {
			var last *model.Device
			for s, st := range sc {
				phone, plate := phones[st.i], plates[st.i]
				if cross {
					plate = plates[(st.i+s)%n]
				}
				switch st.op {
				case opAdd, opCache:
					d := &model.Device{Phone: phone, Plate: plate}
					if dc.AddDevice(d) == nil {
						last = d
					}
				case opUpdate:
					if d, err := dc.GetDeviceByPhone(phone); err == nil {
						dc.UpdateDevice(d)
					}
				case opStale:
					if last != nil {
						dc.UpdateDevice(last)
					}
				case opDelPhone:
					dc.DelDeviceByPhone(phone)
				case opDelPlate:
					dc.DelDeviceByCarPlate(plate)
				case opList:
					if _, err := listing(func(d *model.Device) bool { return true }); err != nil {
						gd.failf("%v", err)
					}
				case opGet:
					if d, err := dc.GetDeviceByPhone(phone); err == nil && (d == nil || d.Phone != phone) {
						gd.failf("lookup of phone %s gives another terminal", phone)
					}
					if d, err := dc.GetDeviceByPlate(plate); err == nil && (d == nil || d.Plate != plate) {
						gd.failf("lookup of plate %s gives another terminal", plate)
					}
				}
			}
		})
	}
	together(c, fs...)
	all := map[string]*model.Device{}
	for _, p := range phones {
		if d, err := dc.GetDeviceByPhone(p); err == nil {
			all[p] = d
		}
	}
	if err := coherent(phones, plates, all); err != nil {
		c.Fatalf("when all are done: %v", err)
	}
	for _, p := range phones {
		dc.DelDeviceByPhone(p)
	}
	c.NonTrivial("%d %v %s", n, cross, key)
}

func sessions(c *pbt.C) {
	g := dict.IntRange(1, 6).Draw(c.T, "goroutines")
	const n = 3
	ids, _ := names(g * n)
	var fs []func(*guard)
	key := ""
	for k := 0; k < g; k++ {
		sc := script(c, 3, n, 60)
		key += fmt.Sprint(sc)
		fs = append(fs, func(gd *guard) {
			want := map[string]*model.Session{}
			mine := ids[k*n : (k+1)*n]
			for s, st := range sc {
				id := mine[st.i]
				switch st.op {
				case 0:
					x := &model.Session{ID: id}
					storage.StoreSession(x)
					want[id] = x
				case 1:
					storage.ClearSession(id)
					delete(want, id)
				case 2:
					o := ids[(s*7+k)%len(ids)]
					if x, err := storage.GetSession(o); err == nil && x.ID != o {
						gd.failf("lookup of session %s gives %s", o, x.ID)
					}
				}
				for _, id := range mine {
					x, err := storage.GetSession(id)
					if want[id] == nil && !errors.Is(err, storage.ErrSessionClosed) || want[id] != nil && (err != nil || x != want[id]) {
						gd.failf("step %d: session lookup err=%v, stored=%v", s, err, want[id] != nil)
						return
					}
				}
			}
			for _, id := range mine {
				storage.ClearSession(id)
			}
		})
	}
	together(c, fs...)
	c.NonTrivial("%s", key)
}

func params(c *pbt.C) {
	pc := storage.GetDeviceParamsCache()
	g := dict.IntRange(1, 6).Draw(c.T, "goroutines")
	const n = 3
	ids, _ := names(g * n)
	var fs []func(*guard)
	key := ""
	for k := 0; k < g; k++ {
		sc := script(c, 3, n, 60)
		key += fmt.Sprint(sc)
		fs = append(fs, func(gd *guard) {
			want := map[string]*model.DeviceParams{}
			mine := ids[k*n : (k+1)*n]
			for s, st := range sc {
				id := mine[st.i]
				switch st.op {
				case 0:
					x := &model.DeviceParams{DevicePhone: id, ParamCnt: uint8(s)}
					pc.CacheDeviceParams(x)
					want[id] = x
				case 1:
					pc.DelDeviceParamsByPhone(id)
					delete(want, id)
				case 2:
					o := ids[(s*7+k)%len(ids)]
					if x, err := pc.GetDeviceParamsByPhone(o); err == nil && x.DevicePhone != o {
						gd.failf("lookup of parameters of %s gives %s", o, x.DevicePhone)
					}
				}
				for _, id := range mine {
					x, err := pc.GetDeviceParamsByPhone(id)
					if want[id] == nil && !errors.Is(err, storage.ErrDeviceParamsNotFound) || want[id] != nil && (err != nil || !reflect.DeepEqual(x, want[id])) {
						gd.failf("step %d: parameter lookup err=%v, stored=%v", s, err, want[id] != nil)
						return
					}
				}
			}
			for _, id := range mine {
				pc.DelDeviceParamsByPhone(id)
			}
		})
	}
	together(c, fs...)
	c.NonTrivial("%s", key)
}

// Several goroutines report locations of the same terminals. The store keeps
// the last 100 of each, whatever the interleaving.
func geo(c *pbt.C) {
	gc := storage.GetGeoCache()
	const keep = 100
	n := dict.IntRange(1, 3).Draw(c.T, "terminals")
	phones, _ := names(n)
	g := dict.IntRange(1, 5).Draw(c.T, "writers")
	writes := make([][]int, g) // terminal of each write
	for k := range writes {
		writes[k] = rapid.SliceOfN(dict.IntRange(0, n-1), 1, 90).Draw(c.T, "writes")
	}
	var fs []func(*guard)
	for k := range writes {
		fs = append(fs, func(gd *guard) {
			for s, t := range writes[k] {
				gc.GetGeoRingByPhone(phones[t]).Write(&model.DeviceGeo{Phone: phones[t], Location: &model.Location{Altitude: uint16(k)}, Drive: &model.Drive{Direction: uint16(s)}})
				if _, err := gc.GetGeoLatestByPhone(phones[t]); err != nil {
					gd.failf("no latest location right after one was stored: %v", err)
				}
			}
		})
	}
	readers := dict.IntRange(0, 2).Draw(c.T, "readers")
	for k := 0; k < readers; k++ {
		fs = append(fs, func(gd *guard) {
			for s := 0; s < 60; s++ {
				p := phones[s%n]
				d, err := gc.GetGeoLatestByPhone(p)
				if err == nil && d.Phone != p {
					gd.failf("latest location of %s is of %s", p, d.Phone)
				}
			}
		})
	}
	together(c, fs...)
	wrapped := false
	for t, p := range phones {
		total := 0
		per := make([][]int, g) // step numbers written by each
		for k := range writes {
			for s, x := range writes[k] {
				if x == t {
					per[k] = append(per[k], s)
					total++
				}
			}
		}
		latest, err := gc.GetGeoLatestByPhone(p)
		if (err == nil) != (total > 0) {
			c.Fatalf("latest location of a terminal with %d stored: err=%v", total, err)
		}
		if total == 0 {
			continue
		}
		lk, ls := int(latest.Location.Altitude), int(latest.Drive.Direction)
		if len(per[lk]) == 0 || per[lk][len(per[lk])-1] != ls {
			c.Fatalf("the latest location is number %d of writer %d, not the writer's last", ls, lk)
		}
		rb := gc.GetGeoRingByPhone(p)
		got := make([][]int, g)
		cnt := 0
		for i := 0; i < keep; i++ {
			if x, ok := rb.Read().(*model.DeviceGeo); ok && x != nil {
				got[x.Location.Altitude] = append(got[x.Location.Altitude], int(x.Drive.Direction))
				cnt++
			}
		}
		if cnt != min(total, keep) {
			c.Fatalf("%d locations stored by %d writers, %d kept, expected %d", total, g, cnt, min(total, keep))
		}
		for k := range got {
			sort.Ints(got[k])
			tail := per[k][len(per[k])-min(len(got[k]), len(per[k])):]
			if fmt.Sprint(got[k]) != fmt.Sprint(append([]int{}, tail...)) && len(got[k]) > 0 {
				c.Fatalf("of writer %d the locations %v are kept, expected its last ones %v", k, got[k], tail)
			}
		}
		wrapped = wrapped || total > keep
	}
	c.ClassIf(wrapped, "more than 100 locations")
	for _, p := range phones {
		gc.DelGeoByPhone(p)
		if _, err := gc.GetGeoLatestByPhone(p); !errors.Is(err, storage.ErrGisNotFound) {
			c.Fatalf("a location is still there after deletion: %v", err)
		}
		gc.DelGeoByPhone(p)
	}
	if g > 1 {
		c.NonTrivial("%v", writes)
	}
}

func TestC21(t *testing.T) {
	pbt.Watch(60 * time.Second)
	log.Logger = zerolog.New(io.Discard).Level(zerolog.DebugLevel)
	ok := pbt.Run("C21", "generated operation sequences on the terminal directory (insert, replace, update, late update, deletion by phone and by plate) compared with a map after each step, and generated scripts run by 2..6 goroutines at once on the directory (own and contended terminals), session, parameter, location and fragment stores, and 2..8 terminals served at once by their own pipelines, under the race detector; non-trivial: a sequence of three kinds of operation or a script run by several goroutines; distinct by script", nil,
		pbt.Prop{Name: "directory", Quick: 12000, Thorough: 600000, F: directory},
		pbt.Prop{Name: "directory-owned", Quick: 2400, Thorough: 120000, Round: 200, F: directoryOwned},
		pbt.Prop{Name: "directory-contended", Quick: 4800, Thorough: 240000, Round: 200, F: directoryContended},
		pbt.Prop{Name: "sessions", Quick: 2400, Thorough: 60000, Round: 200, F: sessions},
		pbt.Prop{Name: "params", Quick: 2400, Thorough: 60000, Round: 200, F: params},
		pbt.Prop{Name: "geo", Quick: 2400, Thorough: 60000, Round: 200, F: geo},
		pbt.Prop{Name: "fragments", Quick: 2400, Thorough: 60000, Round: 200, F: fragments},
		pbt.Prop{Name: "side by side", Quick: 1200, Thorough: 60000, Round: 200, F: sideBySide},
	)
	if !ok {
		t.Fail()
	}
}
