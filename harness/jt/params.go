package jt

import "sort"

// Kind of a terminal parameter.
type Kind int

const (
	DWord Kind = iota
	Word
	Byte
	Text   // GBK text
	Raw    // byte string shown as upper-case hex digits
	String // byte string kept as it is
)

func (k Kind) String() string {
	return [...]string{"dword", "word", "byte", "text", "raw", "string"}[k]
}

// ParamKinds are the supported terminal parameters and their types, from
// JT/T 808-2019 table 12 (and 2013) and JT/T 1078 table 2.
var ParamKinds = func() map[uint32]Kind {
	m := map[uint32]Kind{}
	set := func(k Kind, ids ...uint32) {
		for _, id := range ids {
			m[id] = k
		}
	}
	rng := func(k Kind, a, b uint32) {
		for id := a; id <= b; id++ {
			m[id] = k
		}
	}
	rng(DWord, 0x01, 0x07)
	rng(Text, 0x10, 0x17)
	set(DWord, 0x18, 0x19, 0x1b, 0x1c)
	set(Text, 0x1a, 0x1d)
	rng(DWord, 0x20, 0x22)
	rng(Text, 0x23, 0x26)
	rng(DWord, 0x27, 0x29)
	rng(DWord, 0x2c, 0x30)
	set(Word, 0x31)
	set(Raw, 0x32)
	rng(Text, 0x40, 0x44)
	rng(DWord, 0x45, 0x47)
	set(Text, 0x48, 0x49)
	rng(DWord, 0x50, 0x5a)
	rng(Word, 0x5b, 0x5e)
	set(DWord, 0x64, 0x65)
	rng(DWord, 0x70, 0x74)
	rng(Raw, 0x75, 0x77)
	rng(Raw, 0x79, 0x7c)
	set(DWord, 0x80)
	set(Word, 0x81, 0x82)
	set(Text, 0x83)
	set(Byte, 0x84, 0x90, 0x91, 0x92, 0x94)
	set(DWord, 0x93, 0x95)
	set(DWord, 0x100, 0x102)
	set(Word, 0x101, 0x103)
	set(String, 0x110)
	return m
}()

// ParamIDs in ascending order.
var ParamIDs = func() []uint32 {
	var ids []uint32
	for id := range ParamKinds {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}()

// Param is one parameter item as transmitted.
type Param struct {
	ID     uint32
	Value  []byte
	Misfit *Misfit // instead of Value: JSON that the parameter's type cannot hold
}

type Misfit struct{ V any }

func ParamList(ps []Param) []byte {
	out := []byte{byte(len(ps))}
	return append(out, ParamItems(ps)...)
}

func ParamItems(ps []Param) []byte {
	var out []byte
	for _, p := range ps {
		out = W32(out, p.ID)
		out = append(out, byte(len(p.Value)))
		out = append(out, p.Value...)
	}
	return out
}
