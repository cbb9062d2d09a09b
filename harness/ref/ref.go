// Package ref is the reference model the properties are checked against. It shares no
// code with the library under test: frames, checksums, payload layouts and the stream
// scanner are written here from the MAVLink serialization rules, and message
// definitions come from the frozen table dict.json.
package ref

import (
	_ "embed"
	"encoding/json"
	"math"
	"sort"
)

//go:embed dict.json
var dictJSON []byte

// Field is one payload field, in wire order.
type Field struct {
	Name string `json:"name"`
	Type string `json:"type"`
	Len  int    `json:"len"` // 0: scalar
	Char bool   `json:"char"`
	Ext  bool   `json:"ext"`
	Off  int    `json:"-"`
}

// Msg is one message definition.
type Msg struct {
	Dialect  string  `json:"dialect"`
	Pkg      string  `json:"pkg"`
	Name     string  `json:"name"`
	ID       uint32  `json:"id"`
	CRC      byte    `json:"crc"`
	Min      int     `json:"min"` // base fields only
	Max      int     `json:"max"` // with extension fields
	Fields   []Field `json:"fields"`
	Variable bool    `json:"variable"`
}

// HasExt says whether the definition has extension fields.
func (m *Msg) HasExt() bool { return !m.Variable && m.Min != m.Max }

// Messages is the whole dictionary, sorted by package and ID.
var Messages []*Msg

// ByDialect maps package name -> ID -> definition.
var ByDialect = map[string]map[uint32]*Msg{}

// Size is the wire size of one element of a field type.
func Size(typ string) int {
	switch typ {
	case "uint8", "int8":
		return 1
	case "uint16", "int16":
		return 2
	case "uint32", "int32", "float32":
		return 4
	case "uint64", "int64", "float64":
		return 8
	}
	panic("unknown type " + typ)
}

// Elems is the number of elements of a field.
func (f Field) Elems() int {
	if f.Len == 0 {
		return 1
	}
	return f.Len
}

func init() {
	if err := json.Unmarshal(dictJSON, &Messages); err != nil {
		panic(err)
	}
	for _, m := range Messages {
		off := 0
		for i := range m.Fields {
			m.Fields[i].Off = off
			off += Size(m.Fields[i].Type) * m.Fields[i].Elems()
		}
		if off != m.Max {
			panic("dictionary: size of " + m.Name)
		}
		if ByDialect[m.Pkg] == nil {
			ByDialect[m.Pkg] = map[uint32]*Msg{}
		}
		ByDialect[m.Pkg][m.ID] = m
	}
	sort.SliceStable(Messages, func(i, j int) bool {
		a, b := Messages[i], Messages[j]
		if a.Pkg != b.Pkg {
			return a.Pkg < b.Pkg
		}
		return a.ID < b.ID
	})
}

// CRC is CRC-16/MCRF4XX (the MAVLink "X.25" checksum), bit by bit.
func CRC(data []byte) uint16 {
	c := uint16(0xffff)
	for _, b := range data {
		c ^= uint16(b)
		for i := 0; i < 8; i++ {
			if c&1 != 0 {
				c = c>>1 ^ 0x8408
			} else {
				c >>= 1
			}
		}
	}
	return c
}

// Header is what a frame carries besides payload, checksum and signature.
type Header struct {
	V                int
	Incompat, Compat byte
	Seq, Sys, Comp   byte
	ID               uint32
}

// Build makes a frame with a correct checksum. sig is appended as it is (13 bytes when
// the signed flag is set in Incompat).
func Build(h Header, payload []byte, crcExtra byte, sig []byte) []byte {
	var f []byte
	if h.V == 1 {
		f = append(f, 0xfe, byte(len(payload)), h.Seq, h.Sys, h.Comp, byte(h.ID))
	} else {
		f = append(f, 0xfd, byte(len(payload)), h.Incompat, h.Compat, h.Seq, h.Sys, h.Comp,
			byte(h.ID), byte(h.ID>>8), byte(h.ID>>16))
	}
	f = append(f, payload...)
	c := CRC(append(append([]byte{}, f[1:]...), crcExtra))
	f = append(f, byte(c), byte(c>>8))
	return append(f, sig...)
}

// Trim removes trailing zero bytes as MAVLink 2 requires: the first byte always stays.
func Trim(p []byte) []byte {
	n := len(p)
	for n > 1 && p[n-1] == 0 {
		n--
	}
	return p[:n]
}

// Parsed is a frame taken apart.
type Parsed struct {
	Header
	Len      int
	Payload  []byte
	Checksum uint16
	Covered  []byte // the bytes under the checksum, without the extra byte
	Sig      []byte
	Total    int
}

// Parse takes apart the frame at the start of b. ok is false when b does not start with
// a start byte; short is true when the frame is incomplete.
func Parse(b []byte) (p Parsed, ok, short bool) {
	if len(b) == 0 {
		return p, false, true
	}
	switch b[0] {
	case 0xfe:
		p.V = 1
		if len(b) < 8 || len(b) < 8+int(b[1]) {
			return p, true, true
		}
		p.Len = int(b[1])
		p.Seq, p.Sys, p.Comp, p.ID = b[2], b[3], b[4], uint32(b[5])
		p.Payload = b[6 : 6+p.Len]
		p.Covered = b[1 : 6+p.Len]
		p.Checksum = uint16(b[6+p.Len]) | uint16(b[7+p.Len])<<8
		p.Total = 8 + p.Len
	case 0xfd:
		p.V = 2
		if len(b) < 12 {
			return p, true, true
		}
		p.Len = int(b[1])
		p.Total = 12 + p.Len
		if b[2]&1 != 0 {
			p.Total += 13
		}
		if len(b) < p.Total {
			return p, true, true
		}
		p.Incompat, p.Compat, p.Seq, p.Sys, p.Comp = b[2], b[3], b[4], b[5], b[6]
		p.ID = uint32(b[7]) | uint32(b[8])<<8 | uint32(b[9])<<16
		p.Payload = b[10 : 10+p.Len]
		p.Covered = b[1 : 10+p.Len]
		p.Checksum = uint16(b[10+p.Len]) | uint16(b[11+p.Len])<<8
		if b[2]&1 != 0 {
			p.Sig = b[12+p.Len : p.Total]
		}
	default:
		return p, false, false
	}
	return p, true, false
}

// Find resolves a message ID against dialects in order: the first that defines it.
func Find(dialects []string, id uint32) *Msg {
	for _, d := range dialects {
		if m := ByDialect[d][id]; m != nil {
			return m
		}
	}
	return nil
}

// Fault is one reason why a complete frame is not valid.
type Fault string

const (
	Unknown  Fault = "unknown message"
	TooShort Fault = "message too short"
	TooLong  Fault = "message too long"
	BadCRC   Fault = "checksum"
)

// Faults lists every reason why the complete frame b is invalid under the dialects.
func Faults(dialects []string, b []byte) []Fault {
	p, ok, short := Parse(b)
	if !ok || short {
		panic("Faults: not a complete frame")
	}
	m := Find(dialects, p.ID)
	if m == nil {
		return []Fault{Unknown}
	}
	var out []Fault
	if p.V == 1 && p.Len < m.Min {
		out = append(out, TooShort)
	}
	if p.Len > m.Max {
		out = append(out, TooLong)
	}
	if CRC(append(append([]byte{}, p.Covered...), m.CRC)) != p.Checksum {
		out = append(out, BadCRC)
	}
	return out
}

// Delivery is one frame a stream hands out.
type Delivery struct {
	Off   int
	Bytes []byte
	Valid bool
}

// Scan is the reference deframer: left to right, a start byte opens a candidate; a valid
// candidate is delivered and skipped, anything else costs one byte. Candidates that the
// stream ends in are never delivered. With invalid set, complete invalid candidates are
// delivered too.
func Scan(dialects []string, s []byte, invalid bool) (out []Delivery) {
	for pos := 0; pos < len(s); {
		p, ok, short := Parse(s[pos:])
		if !ok || short {
			pos++
			continue
		}
		b := s[pos : pos+p.Total]
		if len(Faults(dialects, b)) == 0 {
			out = append(out, Delivery{pos, b, true})
			pos += p.Total
			continue
		}
		if invalid {
			out = append(out, Delivery{pos, b, false})
		}
		pos++
	}
	return out
}

// Live follows the scan of a stream that is still arriving: it stops at the first candidate
// that is not complete yet.
type Live struct {
	Dialects []string
	Invalid  bool
	pos, n   int
}

// Due is how many of the frames Scan finds must be out once s has arrived. Each s continues
// the one of the call before.
func (l *Live) Due(s []byte) int {
	for l.pos < len(s) {
		p, ok, short := Parse(s[l.pos:])
		switch {
		case ok && short:
			return l.n
		case !ok:
			l.pos++
		case len(Faults(l.Dialects, s[l.pos:l.pos+p.Total])) == 0:
			l.n++
			l.pos += p.Total
		default:
			if l.Invalid {
				l.n++
			}
			l.pos++
		}
	}
	return l.n
}

// QuietNaNs sets the quiet bit of every NaN in a full-length payload. (A signalling NaN
// cannot go through Go's float conversions unchanged, so bit-exact comparison excludes it.)
func (m *Msg) QuietNaNs(p []byte) {
	for _, f := range m.Fields {
		switch f.Type {
		case "float32":
			for i := 0; i < f.Elems(); i++ {
				o := f.Off + 4*i
				v := le(p[o : o+4])
				if x := math.Float32frombits(uint32(v)); x != x {
					p[o+2] |= 0x40
				}
			}
		case "float64":
			for i := 0; i < f.Elems(); i++ {
				o := f.Off + 8*i
				v := le(p[o : o+8])
				if x := math.Float64frombits(v); x != x {
					p[o+6] |= 0x08
				}
			}
		}
	}
}

func le(b []byte) (v uint64) {
	for i := len(b) - 1; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v
}

// Raw returns element i of the field as raw little-endian bits.
func (f Field) Raw(payload []byte, i int) uint64 {
	n := Size(f.Type)
	o := f.Off + i*n
	return le(payload[o : o+n])
}
