// Package codec has the checks of the record and message codecs.
package codec

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"slices"
)

// An independent reader and writer of the few AMQP 1.0 types that VanFlow
// record messages consist of (OASIS AMQP 1.0, part 1).

// writeRecordBytes is a message with one amqp-value section holding a list
// with the one map m, using any of the encodings the standard allows.
func writeRecordBytes(r *rand.Rand, m map[any]any) []byte {
	var pairs []byte
	n := 0
	keys := make([]uint32, 0, len(m))
	for k := range m {
		keys = append(keys, k.(uint32))
	}
	slices.Sort(keys)
	r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for _, k := range keys {
		pairs = append(pairs, writeValue(r, k)...)
		pairs = append(pairs, writeValue(r, m[k])...)
		n += 2
	}
	mp := compound(r, 0xc1, 0xd1, pairs, n)
	list := compound(r, 0xc0, 0xd0, mp, 1)
	return append([]byte{0x00, 0x53, 0x77}, list...)
}

func compound(r *rand.Rand, c8, c32 byte, body []byte, n int) []byte {
	if len(body)+1 < 256 && n < 256 && r.IntN(2) == 0 {
		return append([]byte{c8, byte(len(body) + 1), byte(n)}, body...)
	}
	out := []byte{c32}
	out = binary.BigEndian.AppendUint32(out, uint32(len(body)+4))
	out = binary.BigEndian.AppendUint32(out, uint32(n))
	return append(out, body...)
}

func writeValue(r *rand.Rand, v any) []byte {
	switch v := v.(type) {
	case uint32:
		switch {
		case v == 0 && r.IntN(2) == 0:
			return []byte{0x43}
		case v < 256 && r.IntN(2) == 0:
			return []byte{0x52, byte(v)}
		}
		return binary.BigEndian.AppendUint32([]byte{0x70}, v)
	case uint64:
		switch {
		case v == 0 && r.IntN(2) == 0:
			return []byte{0x44}
		case v < 256 && r.IntN(2) == 0:
			return []byte{0x53, byte(v)}
		}
		return binary.BigEndian.AppendUint64([]byte{0x80}, v)
	case string:
		if len(v) < 256 && r.IntN(2) == 0 {
			return append([]byte{0xa1, byte(len(v))}, v...)
		}
		return append(binary.BigEndian.AppendUint32([]byte{0xb1}, uint32(len(v))), v...)
	}
	panic(fmt.Sprintf("writeValue %T", v))
}

// readRecordBytes reads the map of a message as written by a sender of one
// record in one amqp-value section.
func readRecordBytes(b []byte) (m map[any]any, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("not readable: %v", r)
		}
	}()
	if b[0] != 0 || b[1] != 0x53 || b[2] != 0x77 {
		return nil, fmt.Errorf("not an amqp-value section: % x", b[:3])
	}
	v, rest := readValue(b[3:])
	if len(rest) != 0 {
		return nil, fmt.Errorf("%d trailing bytes", len(rest))
	}
	l, ok := v.([]any)
	if !ok || len(l) != 1 {
		return nil, fmt.Errorf("not a list of one: %T", v)
	}
	m, ok = l[0].(map[any]any)
	if !ok {
		return nil, fmt.Errorf("not a map: %T", l[0])
	}
	return m, nil
}

func readValue(b []byte) (any, []byte) {
	c, b := b[0], b[1:]
	sz := func(w int) (int, int, []byte) {
		if w == 1 {
			return int(b[0]), int(b[1]), b[2:]
		}
		return int(binary.BigEndian.Uint32(b)), int(binary.BigEndian.Uint32(b[4:])), b[8:]
	}
	switch c {
	case 0x43:
		return uint32(0), b
	case 0x52:
		return uint32(b[0]), b[1:]
	case 0x70:
		return binary.BigEndian.Uint32(b), b[4:]
	case 0x44:
		return uint64(0), b
	case 0x53:
		return uint64(b[0]), b[1:]
	case 0x80:
		return binary.BigEndian.Uint64(b), b[8:]
	case 0xa1:
		n := int(b[0])
		return string(b[1 : 1+n]), b[1+n:]
	case 0xb1:
		n := int(binary.BigEndian.Uint32(b))
		return string(b[4 : 4+n]), b[4+n:]
	case 0x45:
		return []any{}, b
	case 0xc0, 0xd0, 0xc1, 0xd1:
		w := 1
		if c&0x10 != 0 {
			w = 4
		}
		_, n, rest := sz(w)
		var items []any
		for i := 0; i < n; i++ {
			var v any
			v, rest = readValue(rest)
			items = append(items, v)
		}
		if c&0x0f == 0 {
			return items, rest
		}
		m := map[any]any{}
		for i := 0; i+1 < len(items); i += 2 {
			if _, dup := m[items[i]]; dup {
				panic("duplicate key")
			}
			m[items[i]] = items[i+1]
		}
		return m, rest
	}
	panic(fmt.Sprintf("constructor %#x", c))
}
