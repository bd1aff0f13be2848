package serv

import (
	"bytes"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
)

// verGen favours the layouts that differ most.
var verGen = rapid.SampledFrom([]jt.Ver{jt.V2019, jt.V2013, jt.V2011})

func digits(n int) *rapid.Generator[string] {
	return dict.Digits(rapid.Custom(func(t *rapid.T) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + dict.IntRange(0, 9).Draw(t, "d"))
		}
		if dict.IntRange(0, 3).Draw(t, "lead") == 0 { // leading zeros
			for i := 0; i < n/2; i++ {
				b[i] = '0'
			}
		}
		return string(b)
	}))
}

func termGen(ver *rapid.Generator[jt.Ver]) *rapid.Generator[term] {
	return rapid.Custom(func(t *rapid.T) term {
		v := ver.Draw(t, "ver")
		n := 12
		var proto byte
		if v == jt.V2019 {
			n = 20
			proto = rapid.SampledFrom([]byte{1, 1, 2, 0x7e, 0x7d, 0xff, 0}).Draw(t, "proto")
		}
		return term{phone: digits(n).Draw(t, "phone"), ver: v, proto: proto}
	})
}

// terms draws n terminals with distinct phones; some differ only slightly
// from the first one.
func terms(t *rapid.T, n int) []term {
	ts := rapid.SliceOfNDistinct(termGen(verGen), n, n, func(x term) string { return x.phone }).Draw(t, "terminals")
	used := map[string]bool{}
	for _, x := range ts {
		used[x.phone] = true
	}
	for i := 1; i < n; i++ {
		k := dict.IntRange(0, 9).Draw(t, "related")
		if k > 3 {
			continue
		}
		x := related(ts[0], k)
		if !used[x.phone] {
			used[x.phone] = true
			ts[i] = x
		}
	}
	return ts
}

// related derives a terminal whose phone is easily mistaken for t's.
func related(t term, kind int) term {
	b := []byte(t.phone)
	switch kind {
	case 0: // first digit
		b[0] = '0' + (b[0]-'0'+1)%10
	case 1: // last digit
		b[len(b)-1] = '0' + (b[len(b)-1]-'0'+1)%10
	default: // the same number in the other header layout
		if t.ver == jt.V2019 {
			return term{phone: t.phone[8:], ver: jt.V2013}
		}
		return term{phone: "00000000" + t.phone, ver: jt.V2019, proto: 1}
	}
	t.phone = string(b)
	return t
}

var uniqSeq int

// uniq gives the terminal a phone number no other case uses: fragments that
// were stored cannot be removed from outside.
func uniq(t term) term {
	uniqSeq++
	t.phone = fmt.Sprintf("%0*d", len(t.phone), 100000000000-1-uniqSeq)
	return t
}

// uniqTerms gives all terminals such phones, sometimes the same number in both
// layouts.
func uniqTerms(t *rapid.T, n int) []term {
	ts := terms(t, n)
	for i := range ts {
		ts[i] = uniq(ts[i])
	}
	if n > 1 && dict.IntRange(0, 2).Draw(t, "alike") == 0 {
		ts[1] = related(ts[0], 2)
	}
	return ts
}

var ascii = rapid.ByteRange(0x21, 0x7e)

func asciiStr(min, max int) *rapid.Generator[string] {
	return dict.Text(rapid.Custom(func(t *rapid.T) string { return string(rapid.SliceOfN(ascii, min, max).Draw(t, "s")) }), dict.Ascii(min, max))
}

var plateChars = []rune("京沪粤川ABCXYZabz0123456789警学挂领使龙~- éα、。“”丏鏸")

// plateGen draws a plate of 1..max GBK bytes.
func plateGen(max int) *rapid.Generator[string] {
	return dict.Text(rapid.Custom(func(t *rapid.T) string {
		n := dict.IntRange(1, max/2).Draw(t, "n")
		r := make([]rune, n)
		for i := range r {
			r[i] = rapid.SampledFrom(plateChars).Draw(t, "c")
		}
		return string(r)
	}), func(s string) bool {
		b, ok := jt.GBK(s)
		return ok && len(b) > 0 && len(b) <= max && jt.UnGBK(b) == s
	})
}

// plates draws n distinct plates usable in every version; some differ only
// slightly from the first one.
func plates(t *rapid.T, n int) []string {
	ps := rapid.SliceOfNDistinct(plateGen(12), n, n, rapid.ID[string]).Draw(t, "plates")
	used := map[string]bool{}
	for _, x := range ps {
		used[x] = true
	}
	for i := 1; i < n; i++ {
		r := []rune(ps[0])
		x := ps[0]
		switch dict.IntRange(0, 15).Draw(t, "related") {
		case 0:
			x = strings.ToLower(x)
		case 1:
			x = strings.ToUpper(x)
		case 2:
			x += "A"
		case 3:
			x = string(r[:len(r)-1])
		case 4:
			x = string(r[1:])
		case 5:
			x = string(r[len(r)-1]) + string(r[:len(r)-1])
		case 6:
			x = " " + x
		case 7:
			x += " "
		case 8:
			x = string(r[:len(r)/2]) + " " + string(r[len(r)/2:])
		case 9:
			x = strings.ReplaceAll(strings.TrimSpace(x), " ", "")
		default:
			continue
		}
		if b, ok := jt.GBK(x); ok && x != "" && !used[x] && len(b) <= 12 {
			used[x] = true
			ps[i] = x
		}
	}
	return ps
}

func regGen(t *rapid.T, v jt.Ver, plate string) jt.Reg {
	a, b, c := jt.RegWidths(v)
	return jt.Reg{
		Province: rapid.OneOf(rapid.SampledFrom([]uint16{11, 31, 44, 0, 99, 65535}), dict.Uint16()).Draw(t, "prov"),
		City:     uint16(dict.IntRange(0, 65535).Draw(t, "city")),
		Manu:     asciiStr(0, a).Draw(t, "manu"),
		Mode:     asciiStr(0, b).Draw(t, "mode"),
		ID:       asciiStr(0, c).Draw(t, "id"),
		Color:    dict.Byte().Draw(t, "color"),
		Plate:    plate,
	}
}

var timeGen = rapid.Custom(func(t *rapid.T) string {
	y, m := dict.IntRange(0, 99).Draw(t, "yy"), dict.IntRange(1, 12).Draw(t, "mo")
	return fmt.Sprintf("%02d%02d%02d%02d%02d%02d", y, m, dict.IntRange(1, 28).Draw(t, "dd"),
		dict.IntRange(0, 23).Draw(t, "hh"), dict.IntRange(0, 59).Draw(t, "mi"), dict.IntRange(0, 59).Draw(t, "ss"))
})

var locGen = rapid.Custom(func(t *rapid.T) jt.Loc {
	l := jt.Loc{
		Alarm: dict.Uint32().Draw(t, "alarm"), Status: dict.Uint32().Draw(t, "status"),
		Lat: rapid.OneOf(dict.Uint32Range(0, 90000000), dict.Uint32()).Draw(t, "lat"), Lon: rapid.OneOf(dict.Uint32Range(0, 180000000), dict.Uint32()).Draw(t, "lon"),
		Alt: dict.Uint16().Draw(t, "alt"), Speed: dict.Uint16().Draw(t, "speed"), Dir: dict.Uint16().Draw(t, "dir"),
		Time: timeGen.Draw(t, "time"),
	}
	for i := dict.IntRange(0, 2).Draw(t, "extras"); i > 0; i-- {
		v := rapid.SliceOfN(dict.Byte(), 0, 8).Draw(t, "extra")
		l.Extra = append(append(l.Extra, rapid.OneOf(rapid.SampledFrom([]byte{1, 2, 3, 0x11, 0x25, 0x30, 0x31, 0xe0}), dict.Byte()).Draw(t, "eid"), byte(len(v))), v...)
	}
	return l
})

// IDs that are not in the supported list.
var unsupportedID = rapid.OneOf(
	rapid.SampledFrom([]uint16{0x0005, 0x0107, 0x0201, 0x0302, 0x0500, 0x0700, 0x0704, 0x0705, 0x0800, 0x0801, 0x0900, 0x0a00, 0x1003, 0x1005, 0x1206, 0x7e7d, 0xffff, 0x0000}),
	rapid.Map(dict.Uint16(), func(id uint16) uint16 {
		switch {
		case id>>12 == 8 || id>>12 == 9 || id == 0x1205: // messages of the platform, media lists
			return id&0x0fff | 0xa000
		case id <= 0x0004 || id == 0x0100 || id == 0x0102 || id == 0x0104 || id == 0x0107 || id == 0x0200:
			return id | 0xb000
		}
		return id
	}))

// paramsGen draws a valid parameter list of at most max bytes.
func paramsGen(max int) *rapid.Generator[[]jt.Param] {
	return rapid.Custom(func(t *rapid.T) []jt.Param {
		var out []jt.Param
		size := 1
		long := dict.IntRange(0, 2).Draw(t, "long") == 0
		for i := dict.IntRange(0, 8).Draw(t, "nparams"); i > 0; i-- {
			id := rapid.SampledFrom(jt.ParamIDs).Draw(t, "id")
			var v []byte
			switch jt.ParamKinds[id] {
			case jt.DWord:
				v = jt.W32(nil, dict.Uint32().Draw(t, "v"))
			case jt.Word:
				v = jt.W16(nil, dict.Uint16().Draw(t, "v"))
			case jt.Byte:
				v = []byte{dict.Byte().Draw(t, "v")}
			case jt.Text:
				v = jt.MustGBK(plateGen(30).Draw(t, "v"))
				if long && len(v) > 0 {
					for len(v) < 100 {
						v = append(v, v...)
					}
				}
			default:
				v = rapid.SliceOfN(dict.Byte(), 0, 20).Draw(t, "v")
				if long {
					v = bytes.Repeat(append(v, 0x7e), 200/(len(v)+1))
				}
			}
			if size+5+len(v) > max {
				break
			}
			size += 5 + len(v)
			out = append(out, jt.Param{ID: id, Value: v})
		}
		return out
	})
}
