package gen

import (
	"fmt"
	"math"
	"math/rand/v2"
	"time"

	"github.com/Azure/go-amqp"
	ienc "github.com/Azure/go-amqp/internal/encoding"
)

// RefDecode is the specification of decoding one attribute map of a built-in
// record type: nil error if and only if the map obeys the rules.
func RefDecode(m map[any]any) (Abs, error) {
	var a Abs
	if m == nil {
		return a, fmt.Errorf("nil map")
	}
	code, ok := m[uint32(0)].(uint32)
	if !ok {
		return a, fmt.Errorf("no type code")
	}
	t, ok := ByCode(code)
	if !ok {
		return a, fmt.Errorf("unknown type code")
	}
	a = Abs{Type: t.Name, Attrs: map[uint32]any{}}
	if a.ID, ok = m[uint32(1)].(string); !ok {
		return a, fmt.Errorf("no identity")
	}
	for _, at := range t.AllAttrs() {
		v, present := m[at.Code]
		if !present {
			continue
		}
		switch at.Kind {
		case Str:
			_, ok = v.(string)
		case U64:
			_, ok = v.(uint64)
		case Time:
			var u uint64
			u, ok = v.(uint64)
			ok = ok && u <= math.MaxInt64
		}
		if !ok {
			return a, fmt.Errorf("attribute %d is %T", at.Code, v)
		}
		a.Attrs[at.Code] = v
	}
	return a, nil
}

// Empties are the empty and zero values of many types.
var Empties = []any{nil, "", uint64(0), int64(0), uint32(0), int32(0), uint16(0), uint8(0), false, float32(0), 0.0, []byte{}, []byte(nil), ienc.Symbol(""),
	[]any{}, []any(nil), map[any]any{}, map[string]any{}, time.Time{}, amqp.UUID{}, []string{}}

// WrongValue draws any value AMQP can deliver.
func WrongValue(r *rand.Rand, depth int) any {
	if r.IntN(6) == 0 {
		return Empties[r.IntN(len(Empties))]
	}
	switch r.IntN(24) {
	case 0, 1, 2:
		return nil
	case 3:
		return r.IntN(2) == 0
	case 4:
		return int8(r.Uint64())
	case 5:
		return int16(r.Uint64())
	case 6:
		return int32(r.Uint64())
	case 7:
		return int64(r.Uint64())
	case 8:
		return uint8(r.Uint64())
	case 9:
		return uint16(r.Uint64())
	case 10:
		return uint32(r.IntN(60))
	case 11:
		return r.Uint64() | 1<<63
	case 12:
		return uint64(r.IntN(60))
	case 13:
		return r.Float32()
	case 14:
		return r.Float64()
	case 15:
		return RandString(r)
	case 16:
		return ienc.Symbol("sym")
	case 17:
		return []byte("bytes")
	case 18:
		return time.UnixMilli(int64(r.IntN(1 << 30)))
	case 19:
		return amqp.UUID{1, 2, 3}
	case 20:
		return []string{"a", "b"}
	case 21:
		return []uint64{1, 2}
	case 22:
		if depth > 2 {
			return []any{}
		}
		l := []any{}
		for i := r.IntN(3); i > 0; i-- {
			l = append(l, WrongValue(r, depth+1))
		}
		return l
	default:
		if depth > 2 {
			return map[any]any{}
		}
		m := map[any]any{}
		for i := r.IntN(3); i > 0; i-- {
			m[uint32(r.IntN(60))] = WrongValue(r, depth+1)
		}
		return m
	}
}

// MutateMap breaks a valid attribute map in 0 to 3 ways.
func MutateMap(r *rand.Rand, m map[any]any) map[any]any {
	for i := r.IntN(4); i > 0; i-- {
		key := any(uint32(r.IntN(54)))
		if r.IntN(3) > 0 {
			ks := sortedKeys(m)
			if len(ks) > 0 {
				key = ks[r.IntN(len(ks))]
			}
		}
		switch r.IntN(8) {
		case 0:
			delete(m, key)
		case 1:
			delete(m, uint32(0))
		case 2:
			delete(m, uint32(1))
		case 3:
			if k, ok := key.(uint32); ok { // right code, wrong key type
				v := m[key]
				delete(m, key)
				m[[]any{int(k), uint64(k), fmt.Sprint(k), int32(k), uint8(k)}[r.IntN(5)]] = v
			}
		case 4:
			m[key] = nil
		case 5:
			m[uint32(0)] = []any{uint32(15 + r.IntN(1000)), uint64(1), int32(2), "0", nil, uint8(3), uint32(math.MaxUint32)}[r.IntN(7)]
		default:
			m[key] = WrongValue(r, 0)
		}
	}
	return m
}

func sortedKeys(m map[any]any) []any {
	var out []any
	for i := uint32(0); i < 60; i++ {
		if _, ok := m[i]; ok {
			out = append(out, i)
		}
	}
	return out
}

var appKeys = []string{"v", "sourceType", "address", "direct", "id", "now", "other"}

// RandMessage draws a message of any shape.
func RandMessage(r *rand.Rand) *amqp.Message {
	opt := func(s string) *string {
		if r.IntN(4) == 0 {
			return nil
		}
		return &s
	}
	m := &amqp.Message{}
	if r.IntN(20) > 0 {
		subj := []string{"BEACON", "HEARTBEAT", "FLUSH", "RECORD", "RECORD", "RECORD", "", "beacon", "RECORDS", "X"}[r.IntN(10)]
		m.Properties = &amqp.MessageProperties{To: opt(RandString(r)), ReplyTo: opt(RandString(r))}
		if r.IntN(12) > 0 {
			m.Properties.Subject = &subj
		}
	}
	if r.IntN(4) > 0 {
		m.ApplicationProperties = map[string]any{}
		for _, k := range appKeys {
			switch r.IntN(3) {
			case 0:
				m.ApplicationProperties[k] = []any{uint32(r.Uint64()), RandU64(r), RandString(r)}[r.IntN(3)]
			case 1:
				v := WrongValue(r, 9)
				switch v.(type) {
				case []any, map[any]any, []string, []uint64:
					v = nil // not allowed there by AMQP
				}
				m.ApplicationProperties[k] = v
			}
		}
	}
	switch r.IntN(8) {
	case 0:
	case 1:
		m.Value = WrongValue(r, 0)
	case 2:
		m.Data = [][]byte{[]byte("data"), nil}
	default:
		list := []any{}
		for i := r.IntN(4); i > 0; i-- {
			t := Types[r.IntN(len(Types))]
			el := Rand(r, t, RandString(r), 0.4).Wire()
			if r.IntN(3) == 0 {
				el = MutateMap(r, el)
			}
			if r.IntN(20) == 0 {
				list = append(list, WrongValue(r, 0))
				continue
			}
			list = append(list, el)
		}
		m.Value = list
	}
	return m
}
