// Package dict directs generation towards the literals of the code under test
// (an automatic dictionary, as coverage-guided fuzzers have). check.py puts the
// literals of /repo that the tree the harness was written for does not have
// into VERIF_DICT. Without any, the generators are rapid's own. The dictionary
// only chooses inputs; no oracle looks at it.
package dict

import (
	"encoding/json"
	"math"
	"os"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

var (
	ints  []int64
	texts []string
)

func init() {
	var d struct {
		Ints  []int64  `json:"ints"`
		Texts []string `json:"texts"`
	}
	if json.Unmarshal([]byte(os.Getenv("VERIF_DICT")), &d) != nil {
		return
	}
	ints, texts = d.Ints, d.Texts
}

// within lists the dictionary's values, and their neighbours, in lo..hi.
func within[T int | int32 | int64 | uint8 | uint16 | uint32](lo, hi int64) []T {
	var out []T
	seen := map[int64]bool{}
	for _, v := range ints {
		for _, d := range []int64{0, 1, -1} {
			if x := v + d; x >= lo && x <= hi && !seen[x] {
				seen[x] = true
				out = append(out, T(x))
			}
		}
	}
	return out
}

const small = 16 // a range random choice covers anyway

func mix[T int | int32 | int64 | uint8 | uint16 | uint32](g *rapid.Generator[T], lo, hi int64) *rapid.Generator[T] {
	if len(ints) == 0 || hi-lo < small {
		return g
	}
	type key struct {
		lo, hi int64
		of     T
	}
	k := key{lo: lo, hi: hi}
	if m, ok := made.Load(k); ok {
		return m.(*rapid.Generator[T])
	}
	if vs := within[T](lo, hi); len(vs) > 0 {
		g = rapid.OneOf(g, g, g, rapid.SampledFrom(vs))
	}
	made.Store(k, g)
	return g
}

var made sync.Map

func IntRange(lo, hi int) *rapid.Generator[int] {
	return mix(rapid.IntRange(lo, hi), int64(lo), int64(hi))
}

func Byte() *rapid.Generator[byte]     { return mix(rapid.Byte(), 0, 255) }
func Uint16() *rapid.Generator[uint16] { return mix(rapid.Uint16(), 0, math.MaxUint16) }
func Uint32() *rapid.Generator[uint32] { return mix(rapid.Uint32(), 0, math.MaxUint32) }
func Uint32Range(lo, hi uint32) *rapid.Generator[uint32] {
	return mix(rapid.Uint32Range(lo, hi), int64(lo), int64(hi))
}
func Int64Range(lo, hi int64) *rapid.Generator[int64] {
	return mix(rapid.Int64Range(lo, hi), lo, hi)
}

// Text gives g, and texts with a piece of the dictionary first, last or alone,
// where ok accepts them.
func Text(g *rapid.Generator[string], ok func(string) bool) *rapid.Generator[string] {
	if len(texts) == 0 {
		return g
	}
	return rapid.Custom(func(t *rapid.T) string {
		s := g.Draw(t, "text")
		mode := rapid.IntRange(0, 7).Draw(t, "dict")
		if mode > 3 {
			return s
		}
		x := rapid.SampledFrom(texts).Draw(t, "piece")
		var c string
		switch mode {
		case 0:
			c = x
		case 1:
			c = x + s
		case 2:
			c = s + x
		case 3:
			r := []rune(s)
			c = string(r[:len(r)/2]) + x + string(r[len(r)/2:])
		}
		for !ok(c) && c != "" { // shorten the random part first
			r := []rune(c)
			switch {
			case mode == 2:
				c = string(r[1:])
			default:
				c = string(r[:len(r)-1])
			}
		}
		if c == "" || !ok(c) {
			return s
		}
		return c
	})
}

// Digits overwrites the first or last digits of a number with a piece of the
// dictionary that has only digits.
func Digits(g *rapid.Generator[string]) *rapid.Generator[string] {
	var ps []string
	for _, x := range texts {
		if x != "" && strings.Trim(x, "0123456789") == "" {
			ps = append(ps, x)
		}
	}
	if len(ps) == 0 {
		return g
	}
	return rapid.Custom(func(t *rapid.T) string {
		s := g.Draw(t, "digits")
		mode := rapid.IntRange(0, 7).Draw(t, "dict")
		if mode > 2 {
			return s
		}
		x := rapid.SampledFrom(ps).Draw(t, "piece")
		if len(x) > len(s) {
			return s
		}
		switch mode {
		case 0:
			return x + s[len(x):]
		case 1:
			return s[:len(s)-len(x)] + x
		}
		return strings.Repeat("0", len(s)-len(x)) + x
	})
}

// Ascii accepts printable text of min..max bytes.
func Ascii(min, max int) func(string) bool {
	return func(s string) bool {
		for i := 0; i < len(s); i++ {
			if s[i] <= 0x20 || s[i] > 0x7e {
				return false
			}
		}
		return len(s) >= min && len(s) <= max
	}
}

// Count is IntRange for how often something is repeated: with a dictionary it
// now and then goes on to one of its values, at most max.
func Count(lo, hi, max int) *rapid.Generator[int] {
	vs := within[int](int64(hi+1), int64(max))
	if len(vs) == 0 {
		return IntRange(lo, hi)
	}
	g := IntRange(lo, hi)
	return rapid.OneOf(g, g, g, g, g, g, g, g, g, rapid.SampledFrom(vs))
}
