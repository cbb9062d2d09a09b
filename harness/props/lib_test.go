package props

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/ardupilotmega"
	"github.com/botlink/go-mavlink2/asluav"
	"github.com/botlink/go-mavlink2/autoquad"
	"github.com/botlink/go-mavlink2/common"
	"github.com/botlink/go-mavlink2/icarous"
	"github.com/botlink/go-mavlink2/matrixpilot"
	"github.com/botlink/go-mavlink2/paparazzi"
	"github.com/botlink/go-mavlink2/slugs"
	uavionix "github.com/botlink/go-mavlink2/uAvionix"
	"github.com/botlink/go-mavlink2/ualberta"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

var pkgs = []string{"ardupilotmega", "asluav", "autoquad", "common", "icarous", "matrixpilot", "paparazzi", "slugs", "uAvionix", "ualberta"}

var libDialects = map[string]mavlink2.Dialect{
	"ardupilotmega": ardupilotmega.Dialect{},
	"asluav":        asluav.Dialect{},
	"autoquad":      autoquad.Dialect{},
	"common":        common.Dialect{},
	"icarous":       icarous.Dialect{},
	"matrixpilot":   matrixpilot.Dialect{},
	"paparazzi":     paparazzi.Dialect{},
	"slugs":         slugs.Dialect{},
	"uAvionix":      uavionix.Dialect{},
	"ualberta":      ualberta.Dialect{},
}

func dialects(names []string) mavlink2.Dialects {
	out := mavlink2.Dialects{}
	for _, n := range names {
		out = append(out, libDialects[n])
	}
	return out
}

// MsgRef names a message definition in a case.
type MsgRef struct {
	Pkg string `json:"pkg"`
	ID  uint32 `json:"id"`
}

func (r MsgRef) def() *ref.Msg {
	m := ref.ByDialect[r.Pkg][r.ID]
	if m == nil {
		panic(fmt.Sprintf("case names unknown message %v", r))
	}
	return m
}

// newMessage makes an empty message of the library's type for the definition. The type is
// found by having the dialect parse an empty frame.
func newMessage(m *ref.Msg) (mavlink2.Message, error) {
	f := mavlink2.FrameV2(ref.Build(ref.Header{V: 2, ID: m.ID}, []byte{0}, m.CRC, nil))
	msg, err := libDialects[m.Pkg].GetMessage(f)
	if err != nil {
		return nil, fmt.Errorf("%s does not parse message %d (%s): %v", m.Pkg, m.ID, m.Name, err)
	}
	v := reflect.ValueOf(msg)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct || v.Elem().Type().Name() != m.Name {
		return nil, fmt.Errorf("%s parses message %d as %T, want *%s", m.Pkg, m.ID, msg, m.Name)
	}
	return reflect.New(v.Elem().Type()).Interface().(mavlink2.Message), nil
}

// goValue is the Go value of one element with the given raw bits.
func goValue(typ string, raw uint64) reflect.Value {
	switch typ {
	case "uint8":
		return reflect.ValueOf(uint8(raw))
	case "int8":
		return reflect.ValueOf(int8(raw))
	case "uint16":
		return reflect.ValueOf(uint16(raw))
	case "int16":
		return reflect.ValueOf(int16(raw))
	case "uint32":
		return reflect.ValueOf(uint32(raw))
	case "int32":
		return reflect.ValueOf(int32(raw))
	case "uint64":
		return reflect.ValueOf(raw)
	case "int64":
		return reflect.ValueOf(int64(raw))
	case "float32":
		return reflect.ValueOf(math.Float32frombits(uint32(raw)))
	case "float64":
		return reflect.ValueOf(math.Float64frombits(raw))
	}
	panic("type " + typ)
}

// setFields stores the values of a full-length payload in the message's fields, by name.
func setFields(m *ref.Msg, msg mavlink2.Message, payload []byte, hasExt bool) error {
	v := reflect.ValueOf(msg).Elem()
	for _, f := range m.Fields {
		fv := v.FieldByName(f.Name)
		if !fv.IsValid() {
			return fmt.Errorf("%s has no field %s", m.Name, f.Name)
		}
		if f.Len == 0 {
			x := goValue(f.Type, f.Raw(payload, 0))
			if x.Type() != fv.Type() {
				return fmt.Errorf("%s.%s is %v, want %v", m.Name, f.Name, fv.Type(), x.Type())
			}
			fv.Set(x)
			continue
		}
		if fv.Kind() != reflect.Array || fv.Len() != f.Len {
			return fmt.Errorf("%s.%s is %v, want an array of %d %s", m.Name, f.Name, fv.Type(), f.Len, f.Type)
		}
		for i := 0; i < f.Len; i++ {
			x := goValue(f.Type, f.Raw(payload, i))
			if x.Type() != fv.Type().Elem() {
				return fmt.Errorf("%s.%s is %v, want elements of %v", m.Name, f.Name, fv.Type(), x.Type())
			}
			fv.Index(i).Set(x)
		}
	}
	if fv := v.FieldByName("HasExtensionFieldValues"); fv.IsValid() {
		fv.SetBool(hasExt)
	}
	return nil
}

// sameBits compares one element; two NaNs are the same.
func sameValue(typ string, got reflect.Value, raw uint64) bool {
	want := goValue(typ, raw)
	if got.Type() != want.Type() {
		return false
	}
	switch typ {
	case "float32":
		g, w := float32(got.Float()), math.Float32frombits(uint32(raw))
		return math.Float32bits(g) == uint32(raw) || (g != g && w != w)
	case "float64":
		g, w := got.Float(), math.Float64frombits(raw)
		return math.Float64bits(g) == raw || (g != g && w != w)
	}
	return got.Interface() == want.Interface()
}

// checkFields compares the message's fields with a full-length payload.
func checkFields(m *ref.Msg, msg mavlink2.Message, payload []byte) error {
	pv := reflect.ValueOf(msg)
	if pv.Kind() != reflect.Ptr || pv.IsNil() {
		return fmt.Errorf("decoded %s is %T", m.Name, msg)
	}
	v := pv.Elem()
	if v.Type().Name() != m.Name {
		return fmt.Errorf("decoded message is %T, want %s", msg, m.Name)
	}
	for _, f := range m.Fields {
		fv := v.FieldByName(f.Name)
		if !fv.IsValid() {
			return fmt.Errorf("%s has no field %s", m.Name, f.Name)
		}
		for i := 0; i < f.Elems(); i++ {
			ev := fv
			if f.Len > 0 {
				if fv.Kind() != reflect.Array || fv.Len() != f.Len {
					return fmt.Errorf("%s.%s is %v, want an array of %d %s", m.Name, f.Name, fv.Type(), f.Len, f.Type)
				}
				ev = fv.Index(i)
			}
			if !sameValue(f.Type, ev, f.Raw(payload, i)) {
				return fmt.Errorf("%s.%s[%d] = %v, want %v (bits %#x)", m.Name, f.Name, i, ev.Interface(), goValue(f.Type, f.Raw(payload, i)).Interface(), f.Raw(payload, i))
			}
		}
	}
	return nil
}

// checkIdentity compares the message's self-description with the definition.
func checkIdentity(m *ref.Msg, msg mavlink2.Message) error {
	if msg == nil {
		return fmt.Errorf("no message")
	}
	if msg.GetID() != m.ID || msg.GetDialect() != m.Dialect || msg.GetMessageName() != m.Name {
		return fmt.Errorf("message calls itself %s/%s id %d, want %s/%s id %d",
			msg.GetDialect(), msg.GetMessageName(), msg.GetID(), m.Dialect, m.Name, m.ID)
	}
	return nil
}

// payloadLength reads the PayloadLength field of variable-length messages.
func payloadLength(msg mavlink2.Message) int {
	return int(reflect.ValueOf(msg).Elem().FieldByName("PayloadLength").Uint())
}

// faultOf maps the library's validation errors to the reference's.
func faultOf(err error) (ref.Fault, bool) {
	switch {
	case errors.Is(err, mavlink2.ErrUnknownMessage):
		return ref.Unknown, true
	case errors.Is(err, mavlink2.ErrMessageTooShort):
		return ref.TooShort, true
	case errors.Is(err, mavlink2.ErrMessageTooLong):
		return ref.TooLong, true
	case errors.Is(err, mavlink2.ErrInvalidChecksum):
		return ref.BadCRC, true
	}
	return "", false
}

// checkVerdict compares a Validate result on a complete frame with the reference.
func checkVerdict(names []string, frame []byte, err error) error {
	want := ref.Faults(names, frame)
	if len(want) == 0 {
		if err != nil {
			return fmt.Errorf("valid frame %x rejected under %v: %v", frame, names, err)
		}
		return nil
	}
	if err == nil {
		return fmt.Errorf("frame %x accepted under %v, want rejection for %v", frame, names, want)
	}
	got, known := faultOf(err)
	if !known {
		return fmt.Errorf("frame %x under %v: error %q is none of %v", frame, names, err, want)
	}
	for _, w := range want {
		if w == got {
			return nil
		}
	}
	return fmt.Errorf("frame %x under %v: rejected for %q, but that does not apply (%v does)", frame, names, got, want)
}

// ---- generators ----

// genBytes draws n bytes with the shapes that matter for zero truncation.
func genBytes(t *rapid.T, n int, label string) []byte {
	if n == 0 {
		return nil
	}
	b := make([]byte, n)
	switch uniform(t, 10, label+"-shape") {
	case 0: // all zero
	case 1: // zero tail
		k := between(t, 0, n, label+"-cut")
		copy(b, byteSlice(t, k, label))
	case 2: // one non-zero byte
		b[between(t, 0, n-1, label+"-pos")] = byte(between(t, 1, 255, label))
	case 3: // constant
		v := []byte{0xff, 0x01, 0x80, 0x7f, 0xfd, 0xfe}[between(t, 0, 5, label)]
		for i := range b {
			b[i] = v
		}
	case 4: // sparse
		k := between(t, 1, 5, label+"-count")
		for i := 0; i < k; i++ {
			b[between(t, 0, n-1, label+"-pos")] = byte(between(t, 0, 255, label))
		}
	case 5: // zero except a random tail
		k := between(t, 1, min(n, 9), label+"-cut")
		copy(b[n-k:], byteSlice(t, k, label))
	case 6, 7, 8: // anything, all bits evenly
		expand(b, bits(t, 32, label))
	default: // anything, small values preferred
		copy(b, byteSlice(t, n, label))
	}
	return b
}

// genPayload draws the values of a message as its full-length payload.
func genPayload(t *rapid.T, m *ref.Msg) []byte {
	var b []byte
	if uniform(t, 4, "by-field") == 0 {
		b = genFields(t, m)
	} else {
		b = genBytes(t, m.Max, "payload")
	}
	m.QuietNaNs(b)
	return b
}

// genFields draws a payload element by element, from values programs treat specially.
func genFields(t *rapid.T, m *ref.Msg) []byte {
	b := make([]byte, m.Max)
	seed := bits(t, 32, "elements")
	r := make([]byte, 2)
	zeros := uniform(t, 5, "zeros") // every field gets its own mix of kinds
	for _, f := range m.Fields {
		n := ref.Size(f.Type)
		seed++
		expand(r, seed)
		kind := int(r[0])
		for i := range f.Elems() {
			seed++
			if r[1]%3 != 0 { // elements of one array: alike, or each its own
				expand(r[:1], seed)
				kind = int(r[0])
			}
			v := special(f.Type, kind%(9+zeros), seed)
			for k := range n {
				b[f.Off+i*n+k] = byte(v >> (8 * k))
			}
		}
	}
	return b
}

func special(typ string, kind int, seed uint64) uint64 {
	size := 8 * ref.Size(typ)
	float := []float64{1, -1, 0.5, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 1e-42, 3.4e38}
	switch typ {
	case "float32":
		if kind < len(float) {
			return uint64(math.Float32bits(float32(float[kind])))
		}
		return 0
	case "float64":
		if kind < len(float) {
			return math.Float64bits(float[kind])
		}
		return 0
	}
	max := uint64(1)<<size - 1
	if size == 64 {
		max = math.MaxUint64
	}
	switch kind {
	case 0:
		return max // -1, or what MAVLink uses for "not known"
	case 1:
		return max >> 1
	case 2:
		return max>>1 + 1
	case 3:
		return 1
	case 4:
		return max - 1
	case 5:
		return seed % 200 & max // an enumeration value
	case 6:
		return 0x20 + seed%0x5f // a printable character
	case 7:
		return uint64(1) << (seed % uint64(size))
	case 8:
		var r [8]byte
		expand(r[:], seed)
		return (uint64(r[0]) | uint64(r[1])<<8 | uint64(r[2])<<16 | uint64(r[3])<<24 | uint64(r[4])<<32 | uint64(r[5])<<40 | uint64(r[6])<<48 | uint64(r[7])<<56) & max
	}
	return 0
}

// genMsg draws any message of the given dialects (all if none). The index is drawn without
// a bias to small values, so that every message gets its share.
func genMsg(t *rapid.T, names ...string) *ref.Msg {
	if len(names) == 0 {
		return ref.Messages[uniform(t, len(ref.Messages), "msg")]
	}
	var ms []*ref.Msg
	for _, m := range ref.Messages {
		for _, n := range names {
			if m.Pkg == n {
				ms = append(ms, m)
				break
			}
		}
	}
	return ms[uniform(t, len(ms), "msg")]
}

// uniform draws 0..n-1 evenly (rapid's IntRange prefers small numbers).
func uniform(t *rapid.T, n int, label string) int {
	k := 16
	if n > 1<<14 {
		k = 32
	}
	return int(bits(t, k, label)) % n
}

// bits draws an unbiased k-bit number.
// genAge draws a time in ms, from nothing to years, such that n of them are at most 50 years:
// streams live long, and the clock of a case is a virtual one.
func genAge(t *rapid.T, n int) int {
	most := 50 * 365 * 24 * 3600 * 1000 / n
	return 1 + int(bits(t, 42, "age")>>uniform(t, 40, "younger"))%most
}

func bits(t *rapid.T, k int, label string) (v uint64) {
	if fuzz != nil {
		for range k {
			v = v<<1 | fuzz.bit()
		}
		return v
	}
	g := rapid.Bool()
	for i := 0; i < k; i++ {
		v <<= 1
		if g.Draw(t, label) {
			v |= 1
		}
	}
	return v
}

// between draws min..max, small numbers and the bounds preferred.
func between(t *rapid.T, min, max int, label string) int {
	if fuzz != nil { // spare the fuzzer rapid's encoding
		return min + uniform(t, max-min+1, label)
	}
	return rapid.IntRange(min, max).Draw(t, label)
}

func byteSlice(t *rapid.T, n int, label string) []byte {
	if fuzz != nil {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(bits(t, 8, label))
		}
		return b
	}
	return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label)
}

// expand fills b from a drawn seed: full-entropy contents at the price of one draw.
func expand(b []byte, seed uint64) {
	for i := range b {
		seed += 0x9e3779b97f4a7c15
		z := seed
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		b[i] = byte(z ^ z>>31)
	}
}

// genDialects draws a sequence of dialects: usually what real programs load, sometimes anything.
func genDialects(t *rapid.T) []string {
	switch uniform(t, 6, "dialects-kind") {
	case 0:
		return []string{"common"}
	case 1, 2:
		return []string{"common", "ardupilotmega"}
	case 3:
		return append([]string{}, pkgs...)
	}
	return genAnyDialects(t, 1)
}

func genAnyDialects(t *rapid.T, least int) []string {
	n := least + uniform(t, 7-least, "dialects-n")
	if uniform(t, 16, "long-list") == 0 {
		n = 7 + uniform(t, 60, "dialects-n")
	}
	out := []string{}
	for i := 0; i < n; i++ {
		out = append(out, pkgs[uniform(t, len(pkgs), "dialect")])
	}
	return out
}

// Head is the part of a header a case chooses.
type Head struct {
	V    int  `json:"v"`
	Sys  byte `json:"sys"`
	Comp byte `json:"comp"`
	Seq  byte `json:"seq"`
}

func genHead(t *rapid.T, id uint32) Head {
	h := Head{V: 2, Sys: byte(between(t, 0, 255, "sys")), Comp: byte(between(t, 0, 255, "comp")), Seq: byte(between(t, 0, 255, "seq"))}
	if id < 256 {
		h.V = 1 + uniform(t, 2, "version")
	}
	if uniform(t, 4, "usual-address") == 0 { // as vehicles, ground stations and their components have them
		h.Sys = []byte{0, 1, 1, 2, 254, 255, 255}[uniform(t, 7, "usual-sys")]
		h.Comp = []byte{0, 1, 1, 25, 67, 68, 100, 140, 154, 155, 158, 180, 190, 190, 191, 194, 195, 196, 200, 220, 236, 240, 250, 255}[uniform(t, 24, "usual-comp")]
	}
	return h
}

func frameOf(b []byte) mavlink2.Frame {
	if b[0] == 0xfe {
		return mavlink2.FrameV1(b)
	}
	return mavlink2.FrameV2(b)
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

func eqBytes(what string, got, want []byte) error {
	if !bytes.Equal(got, want) {
		return fmt.Errorf("%s is %x, want %x", what, got, want)
	}
	return nil
}
