// Package gen has the generators shared by the checks that do not run the
// server in process.
package gen

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"strings"

	"fmt"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
)

var Ver = rapid.SampledFrom([]jt.Ver{jt.V2019, jt.V2013, jt.V2011})

func Digits(n int) *rapid.Generator[string] {
	return dict.Digits(rapid.Custom(func(t *rapid.T) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + dict.IntRange(0, 9).Draw(t, "d"))
		}
		switch dict.IntRange(0, 7).Draw(t, "lead") {
		case 0: // leading zeros
			for i := 0; i < n/2; i++ {
				b[i] = '0'
			}
		case 1:
			for i := range b {
				b[i] = '0'
			}
		}
		return string(b)
	}))
}

// Byte favours the bytes framing treats specially.
var Byte = rapid.OneOf(rapid.SampledFrom([]byte{0x7e, 0x7d, 0x01, 0x02, 0x00, 0xff}), dict.Byte())

// Size of a body: small, any, and the ends.
var Size = rapid.OneOf(dict.IntRange(0, 12), dict.IntRange(0, 1023), rapid.SampledFrom([]int{0, 1, 255, 256, 511, 512, 1022, 1023}))

func Bytes(n int) *rapid.Generator[[]byte] { return rapid.SliceOfN(Byte, n, n) }

// Chunks cuts a stream into the pieces that reads return.
func Chunks(t *rapid.T, b []byte) [][]byte {
	var out [][]byte
	mode := dict.IntRange(0, 3).Draw(t, "cut")
	for len(b) > 0 {
		n := len(b)
		switch mode {
		case 1:
			n = 1
		case 2:
			n = dict.IntRange(1, min(n, 7)).Draw(t, "n")
		case 3:
			n = dict.IntRange(1, n).Draw(t, "n")
		}
		out = append(out, b[:n])
		b = b[n:]
	}
	return out
}

// Ascii is any printable character; blanks are common enough to come first and last.
var Ascii = rapid.OneOf(rapid.ByteRange(0x21, 0x7e), rapid.ByteRange(0x21, 0x7e), rapid.SampledFrom([]byte{' ', '0'}), rapid.ByteRange(0x21, 0x7e))

func AsciiStr(min, max int) *rapid.Generator[string] {
	return dict.Text(rapid.Custom(func(t *rapid.T) string { return string(rapid.SliceOfN(Ascii, min, max).Draw(t, "s")) }), dict.Ascii(min, max))
}

var plateChars = []rune("京沪粤川ABCXYZabz0123456789警学挂领使龙~-éα、。“”丏鏸 \u3000")

// Text draws GBK-encodable text of 1..max bytes.
func Text(max int) *rapid.Generator[string] {
	return dict.Text(rapid.Custom(func(t *rapid.T) string {
		n := rapid.OneOf(dict.IntRange(1, max/2), dict.IntRange(1, max)).Draw(t, "n")
		var r []rune
		size := 0
		for len(r) < n {
			c := rapid.SampledFrom(plateChars).Draw(t, "c")
			b, _ := jt.GBK(string(c))
			if size += len(b); size > max {
				break
			}
			r = append(r, c)
		}
		return string(r)
	}), fits(1, max))
}

// fits accepts texts GBK has and gives back, of min..max bytes.
func fits(min, max int) func(string) bool {
	return func(s string) bool {
		b, ok := jt.GBK(s)
		return ok && len(b) >= min && len(b) <= max && jt.UnGBK(b) == s
	}
}

// AnyGBK draws a text from the whole GBK repertoire, at most max bytes.
func AnyGBK(max int) *rapid.Generator[string] {
	return dict.Text(rapid.Custom(func(t *rapid.T) string {
		n := dict.IntRange(0, max/2).Draw(t, "n")
		var r []rune
		for i := 0; i < n; i++ {
			c := rapid.OneOf(rapid.RuneFrom(plateChars), rapid.Int32Range(0x20, 0x7f), rapid.Int32Range(0x4e00, 0x9fa5), rapid.Int32Range(0x3000, 0x3020), rapid.Int32Range(0xff01, 0xff5e), rapid.Int32Range(0, 0x1f)).Draw(t, "c")
			// only what GBK has and gives back
			if b, ok := jt.GBK(string(c)); ok && jt.UnGBK(b) == string(c) {
				r = append(r, c)
			}
		}
		return string(r)
	}), fits(0, max))
}

func Reg(t *rapid.T, v jt.Ver, plate string) jt.Reg {
	a, b, c := jt.RegWidths(v)
	return jt.Reg{
		Province: rapid.OneOf(rapid.SampledFrom([]uint16{11, 31, 44, 0, 99, 65535}), dict.Uint16()).Draw(t, "prov"),
		City:     rapid.OneOf(rapid.SampledFrom([]uint16{0, 100, 101, 9999}), dict.Uint16()).Draw(t, "city"),
		Manu:     AsciiStr(0, a).Draw(t, "manu"),
		Mode:     AsciiStr(0, b).Draw(t, "mode"),
		ID:       AsciiStr(0, c).Draw(t, "id"),
		Color:    dict.Byte().Draw(t, "color"),
		Plate:    plate,
	}
}

var Time = rapid.Custom(func(t *rapid.T) string {
	y, m := dict.IntRange(0, 99).Draw(t, "yy"), dict.IntRange(1, 12).Draw(t, "mo")
	last := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
	if m == 2 && y%4 == 0 {
		last = 29 // 2000 and 2068-1968 alike
	}
	return fmt.Sprintf("%02d%02d%02d%02d%02d%02d", y, m, dict.IntRange(1, last).Draw(t, "dd"),
		dict.IntRange(0, 23).Draw(t, "hh"), dict.IntRange(0, 59).Draw(t, "mi"), dict.IntRange(0, 59).Draw(t, "ss"))
})

var U32 = rapid.OneOf(dict.Uint32(), rapid.SampledFrom([]uint32{0, 1, 255, 256, 65535, 65536, 1 << 31, 1<<32 - 1, 0x7e7d7e7d}))
var U16 = rapid.OneOf(dict.Uint16(), rapid.SampledFrom([]uint16{0, 1, 255, 256, 0x7e7d, 65535}))

var Loc = rapid.Custom(func(t *rapid.T) jt.Loc {
	l := jt.Loc{
		Alarm: U32.Draw(t, "alarm"), Status: U32.Draw(t, "status"),
		Lat: rapid.OneOf(dict.Uint32Range(0, 90000000), U32).Draw(t, "lat"), Lon: rapid.OneOf(dict.Uint32Range(0, 180000000), U32).Draw(t, "lon"),
		Alt: U16.Draw(t, "alt"), Speed: U16.Draw(t, "speed"), Dir: U16.Draw(t, "dir"),
		Time: Time.Draw(t, "time"),
	}
	for i := dict.IntRange(0, 2).Draw(t, "extras"); i > 0; i-- {
		v := rapid.SliceOfN(Byte, 0, 8).Draw(t, "extra")
		l.Extra = append(append(l.Extra, rapid.OneOf(rapid.SampledFrom([]byte{1, 2, 3, 0x11, 0x25, 0x30, 0x31, 0xe0}), dict.Byte()).Draw(t, "eid"), byte(len(v))), v...)
	}
	return l
})

var Media = rapid.Custom(func(t *rapid.T) jt.MediaQuery {
	return jt.MediaQuery{Channel: Byte.Draw(t, "ch"), Start: Time.Draw(t, "st"), End: Time.Draw(t, "en"), Alarm: U32.Draw(t, "al"), AlarmExt: U32.Draw(t, "ax"),
		Media: Byte.Draw(t, "mt"), Stream: Byte.Draw(t, "stt"), Storage: Byte.Draw(t, "sto")}
})

// ParamValue draws the value bytes of a supported parameter.
func ParamValue(t *rapid.T, id uint32) []byte {
	switch jt.ParamKinds[id] {
	case jt.DWord:
		return jt.W32(nil, U32.Draw(t, "v"))
	case jt.Word:
		return jt.W16(nil, U16.Draw(t, "v"))
	case jt.Byte:
		return []byte{Byte.Draw(t, "v")}
	case jt.Text:
		if dict.IntRange(0, 9).Draw(t, "long") == 0 {
			b := jt.MustGBK(AnyGBK(255).Draw(t, "v"))
			if n := rapid.SampledFrom([]int{0, 0, 127, 128, 254, 255}).Draw(t, "fill"); n > len(b) {
				b = append(b, bytes.Repeat([]byte{'a'}, n-len(b))...)
			}
			return b
		}
		return jt.MustGBK(AnyGBK(20).Draw(t, "v"))
	}
	if dict.IntRange(0, 9).Draw(t, "long") == 0 {
		return Sized(Byte, 0, 255).Draw(t, "v")
	}
	return rapid.SliceOfN(Byte, 0, 12).Draw(t, "v")
}

// Params draws a valid parameter list whose items take at most max bytes.
func Params(max int, distinct bool) *rapid.Generator[[]jt.Param] {
	return rapid.Custom(func(t *rapid.T) []jt.Param {
		var out []jt.Param
		seen := map[uint32]bool{}
		size := 0
		n := rapid.OneOf(dict.IntRange(0, 6), dict.IntRange(0, 200)).Draw(t, "nparams")
		for i := 0; i < n; i++ {
			id := rapid.SampledFrom(jt.ParamIDs).Draw(t, "id")
			v := ParamValue(t, id)
			if size+5+len(v) > max || len(out) == 255 {
				break
			}
			if distinct && seen[id] {
				continue
			}
			seen[id] = true
			size += 5 + len(v)
			out = append(out, jt.Param{ID: id, Value: v})
		}
		return out
	})
}

// UnknownParam draws an ID that is not supported.
var UnknownParam = rapid.OneOf(rapid.SampledFrom([]uint32{0, 8, 0x0f, 0x1e, 0x2a, 0x33, 0x78, 0x7d, 0x96, 0x104, 0x111, 0x1000, 0xf001, 0xffffffff}), dict.Uint32()).
	Filter(func(id uint32) bool { _, ok := jt.ParamKinds[id]; return !ok })

// Value is what a parameter value looks like to users of the decoded list.
func Value(p jt.Param) any {
	switch jt.ParamKinds[p.ID] {
	case jt.DWord:
		return uint32(p.Value[0])<<24 | uint32(p.Value[1])<<16 | uint32(p.Value[2])<<8 | uint32(p.Value[3])
	case jt.Word:
		return uint16(p.Value[0])<<8 | uint16(p.Value[1])
	case jt.Byte:
		return p.Value[0]
	case jt.Text:
		return jt.UnGBK(p.Value)
	case jt.Raw:
		return strings.ToUpper(hex.EncodeToString(p.Value))
	}
	return string(p.Value)
}

// ParamsJSON writes the list the way an API client would.
func ParamsJSON(t *rapid.T, ps []jt.Param) []byte {
	type item struct {
		ID    uint32 `json:"paramId"`
		Len   uint8  `json:"paramLen,omitempty"`
		Value any    `json:"paramValue"`
	}
	out := struct {
		Cnt    int    `json:"paramCnt"`
		Params []item `json:"params"`
	}{Cnt: len(ps) % 256}
	if rapid.Bool().Draw(t, "wrongcnt") {
		out.Cnt = int(dict.Byte().Draw(t, "cnt"))
	}
	for _, p := range ps {
		it := item{ID: p.ID}
		if p.Misfit != nil {
			it.Value = p.Misfit.V
		} else if _, ok := jt.ParamKinds[p.ID]; ok {
			it.Value = Value(p)
			if jt.ParamKinds[p.ID] == jt.Raw && rapid.Bool().Draw(t, "lower") {
				it.Value = hex.EncodeToString(p.Value)
			}
		} else {
			it.Value = rapid.SampledFrom([]any{1, "x", "", 0}).Draw(t, "uv")
		}
		if rapid.Bool().Draw(t, "len") {
			it.Len = uint8(len(p.Value))
		}
		out.Params = append(out.Params, it)
	}
	b, _ := json.Marshal(out)
	return b
}

// JSONable: JSON text cannot carry arbitrary bytes in a string.
func JSONable(ps []jt.Param) []jt.Param {
	var out []jt.Param
	for _, p := range ps {
		if jt.ParamKinds[p.ID] == jt.String {
			for i := range p.Value {
				p.Value[i] &= 0x7f
			}
		}
		out = append(out, p)
	}
	return out
}

// Supported keeps the parameters with a supported ID.
func Supported(ps []jt.Param) []jt.Param {
	var out []jt.Param
	for _, p := range ps {
		if _, ok := jt.ParamKinds[p.ID]; ok && p.Misfit == nil {
			out = append(out, p)
		}
	}
	return out
}

// WithMisfits inserts supported parameters whose JSON value their type cannot hold.
func WithMisfits(t *rapid.T, ps []jt.Param) []jt.Param {
	for k := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 5}).Draw(t, "misfits"); k > 0 && len(ps) < 255; k-- {
		i := dict.IntRange(0, len(ps)).Draw(t, "at")
		u := jt.Param{ID: rapid.SampledFrom(jt.ParamIDs).Draw(t, "mid")}
		odd := []any{nil, true, false, []any{}, []any{1}, map[string]any{}}
		num := func(max float64) *rapid.Generator[any] {
			return rapid.OneOf(rapid.SampledFrom(append(odd, "", "1", "12ab", -1, 0.5, 1.5, -0.5, max+1, max+2, 2*(max+1), max+0.5, -max, -max-1, 1e18, 1e300, -1e300)),
				rapid.Map(rapid.Float64Range(max+1, 1e12), func(f float64) any { return float64(int64(f)) }),
				rapid.Map(rapid.Int64Range(-1<<40, -1), func(n int64) any { return n }))
		}
		switch jt.ParamKinds[u.ID] {
		case jt.Byte:
			u.Misfit = &jt.Misfit{V: num(1<<8-1).Draw(t, "mv")}
		case jt.Word:
			u.Misfit = &jt.Misfit{V: num(1<<16-1).Draw(t, "mv")}
		case jt.DWord:
			u.Misfit = &jt.Misfit{V: num(1<<32-1).Draw(t, "mv")}
		default:
			u.Misfit = &jt.Misfit{V: rapid.SampledFrom(append(odd, 0, 1, 1.5, -1, 1e300)).Draw(t, "mv")}
		}
		ps = append(append(append([]jt.Param{}, ps[:i]...), u), ps[i:]...)
	}
	return ps
}

// WithUnknown inserts parameters with unsupported IDs.
func WithUnknown(t *rapid.T, ps []jt.Param, max int) []jt.Param {
	for k := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 5}).Draw(t, "unknown"); k > 0 && len(ps) < 255; k-- {
		i := dict.IntRange(0, len(ps)).Draw(t, "at")
		u := jt.Param{ID: UnknownParam.Draw(t, "uid"), Value: rapid.SliceOfN(Byte, 0, 30).Draw(t, "uv")}
		n := append(append(append([]jt.Param{}, ps[:i]...), u), ps[i:]...)
		if len(jt.ParamItems(n)) > max {
			break
		}
		ps = n
	}
	return ps
}

// Sized draws byte strings of min..max bytes, now and then of the sizes at
// which something may change: the largest, and around the powers of two.
func Sized(b *rapid.Generator[byte], min, max int) *rapid.Generator[[]byte] {
	edges := []int{min, max, max - 1}
	for p := 16; p-1 <= max; p *= 2 {
		edges = append(edges, p-1, p, p+1)
	}
	var fit []int
	for _, n := range edges {
		if n >= min && n <= max {
			fit = append(fit, n)
		}
	}
	return rapid.Custom(func(t *rapid.T) []byte {
		if dict.IntRange(0, 3).Draw(t, "edge") != 0 {
			return rapid.SliceOfN(b, min, max).Draw(t, "bytes")
		}
		n := rapid.SampledFrom(fit).Draw(t, "size")
		return rapid.SliceOfN(b, n, n).Draw(t, "bytes")
	})
}
