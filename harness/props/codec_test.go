package props

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"

	mavlink2 "github.com/botlink/go-mavlink2"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// encodeCase is a message with arbitrary field values, encoded with arbitrary header values.
type encodeCase struct {
	Dialects []string `json:"dialects"`
	Msg      MsgRef   `json:"msg"`
	Head     Head     `json:"head"`
	Payload  Hex      `json:"payload"` // all fields, full length
	ExtSet   bool     `json:"ext_set"`
}

// genDialectsFor draws dialects among which the definition is the one its ID resolves to.
func genDialectsFor(t *rapid.T, m *ref.Msg) []string {
	var ds []string
	switch uniform(t, 4, "dialects-kind") {
	case 0:
		return []string{m.Pkg}
	case 1:
		ds = []string{"common", "ardupilotmega"}
	default:
		ds = genAnyDialects(t, 0)
	}
	var before []string
	k := uniform(t, len(ds)+1, "own-pos")
	for _, d := range ds[:k] {
		if ref.ByDialect[d][m.ID] == nil {
			before = append(before, d)
		}
	}
	return append(append(before, m.Pkg), ds[k:]...)
}

func genEncode(t *rapid.T) encodeCase {
	m := genMsg(t)
	for m.Variable {
		m = ref.ByDialect["common"][0]
	}
	return encodeCase{
		Dialects: genDialectsFor(t, m),
		Msg:      MsgRef{m.Pkg, m.ID},
		Head:     genHead(t, m.ID),
		Payload:  genPayload(t, m),
		ExtSet:   uniform(t, 2, "ext") == 1,
	}
}

func (c encodeCase) encode() (m *ref.Msg, msg mavlink2.Message, f mavlink2.Frame, err error) {
	m = c.Msg.def()
	msg, err = newMessage(m)
	if err != nil {
		return
	}
	if err = setFields(m, msg, c.Payload, c.ExtSet); err != nil {
		return
	}
	f, err = dialects(c.Dialects).GetFrame(c.Head.V, c.Head.Sys, c.Head.Comp, c.Head.Seq, msg)
	if err != nil {
		err = fmt.Errorf("encoding %s as V%d failed: %v", m.Name, c.Head.V, err)
	} else if f == nil {
		err = fmt.Errorf("encoding %s as V%d gave no frame", m.Name, c.Head.V)
	}
	return
}

// onWire is the payload whose values survive encoding: V1 carries no extension fields.
func (c encodeCase) onWire(m *ref.Msg) []byte {
	p := clone(c.Payload)
	if c.Head.V == 1 {
		clear(p[m.Min:])
	}
	return p
}

func (c encodeCase) describe(i *Info) {
	m := c.Msg.def()
	i.Label("v%d", c.Head.V)
	i.Label("dialect:%s", m.Pkg)
	if m.HasExt() {
		i.Label("has-extensions")
	}
	if c.Head.V == 2 {
		if n := len(ref.Trim(c.Payload)); n < m.Max {
			i.Label("truncated")
			if n <= m.Min {
				i.Label("truncated-into-base")
			}
		}
	}
	i.NonTrivial(len(ref.Trim(c.Payload)) > 1)
}

func Test_C01(t *testing.T) {
	s := NewSuite(t, "C01", false)
	Phase(s, "variable-length", N(24000, 480000), genV2Ext, checkV2Ext)
	Phase(s, "roundtrip", N(200000, 4800000), genEncode, func(c encodeCase, i *Info) error {
		c.describe(i)
		m, _, f, err := c.encode()
		if err != nil {
			return err
		}
		ds := dialects(c.Dialects)
		if err := ds.Validate(f); err != nil {
			return fmt.Errorf("own frame %x of %s does not validate: %v", f.Bytes(), m.Name, err)
		}
		if f.GetVersion() != c.Head.V || f.GetMessageID() != m.ID || f.GetSenderSystemID() != c.Head.Sys ||
			f.GetSenderComponentID() != c.Head.Comp || f.GetMessageSequence() != uint(c.Head.Seq) {
			return fmt.Errorf("header of own frame %x of %s: version %d id %d system %d component %d sequence %d, want %+v",
				f.Bytes(), m.Name, f.GetVersion(), f.GetMessageID(), f.GetSenderSystemID(), f.GetSenderComponentID(), f.GetMessageSequence(), c.Head)
		}
		// as a receiver: through bytes
		g, err := mavlink2.FrameFromBytes(clone(f.Bytes()), uint16(len(f.Bytes())), true)
		if err != nil {
			return fmt.Errorf("own frame %x: %v", f.Bytes(), err)
		}
		got, err := ds.GetMessage(g)
		if err != nil {
			return fmt.Errorf("own frame %x of %s does not decode: %v", f.Bytes(), m.Name, err)
		}
		if err := checkIdentity(m, got); err != nil {
			return err
		}
		if err := checkFields(m, got, c.onWire(m)); err != nil {
			return err
		}
		again, err := ds.GetFrame(c.Head.V, c.Head.Sys, c.Head.Comp, c.Head.Seq, got)
		if err != nil {
			return fmt.Errorf("decoded %s does not encode: %v", m.Name, err)
		}
		return eqBytes("re-encoded "+m.Name, again.Bytes(), f.Bytes())
	})
}

func Test_C02(t *testing.T) {
	s := NewSuite(t, "C02", false)
	Phase(s, "bytes", N(200000, 4800000), genEncode, func(c encodeCase, i *Info) error {
		c.describe(i)
		m, msg, f, err := c.encode()
		if err != nil {
			return err
		}
		payload := c.Payload[:m.Min:m.Min]
		if c.Head.V == 2 {
			payload = ref.Trim(c.Payload)
		}
		want := ref.Build(ref.Header{V: c.Head.V, Seq: c.Head.Seq, Sys: c.Head.Sys, Comp: c.Head.Comp, ID: m.ID}, payload, m.CRC, nil)
		if err := eqBytes(fmt.Sprintf("V%d frame of %s/%s", c.Head.V, m.Pkg, m.Name), f.Bytes(), want); err != nil {
			return err
		}
		p, err := msg.Write(c.Head.V)
		if err != nil {
			return fmt.Errorf("payload of %s: %v", m.Name, err)
		}
		return eqBytes(fmt.Sprintf("V%d payload of %s/%s", c.Head.V, m.Pkg, m.Name), p, payload)
	})
}

// decodeCase is a conforming frame built by the reference encoder.
type decodeCase struct {
	Dialects []string   `json:"dialects"`
	Msg      MsgRef     `json:"msg"`
	Header   ref.Header `json:"header"`
	Payload  Hex        `json:"payload"` // as sent
	Sig      Hex        `json:"sig"`
	Prior    Hex        `json:"prior"` // what the message held before
	PriorExt bool       `json:"prior_ext"`
}

func genDecode(t *rapid.T) decodeCase {
	m := genMsg(t)
	for m.Variable {
		m = ref.ByDialect["common"][0]
	}
	h := genHead(t, m.ID)
	c := decodeCase{Dialects: genDialectsFor(t, m), Msg: MsgRef{m.Pkg, m.ID}}
	c.Header = ref.Header{V: h.V, Seq: h.Seq, Sys: h.Sys, Comp: h.Comp, ID: m.ID}
	full := genPayload(t, m)
	if h.V == 1 {
		c.Payload = full[:m.Min]
	} else {
		c.Header.Compat = byte(bits(t, 8, "compat"))
		switch uniform(t, 5, "length") {
		case 0:
			c.Payload = full // untruncated
		case 1:
			c.Payload = ref.Trim(full)
		case 2: // a sender that knows no extensions
			c.Payload = full[:m.Min]
		case 3: // partly truncated zeros
			n := len(ref.Trim(full))
			c.Payload = full[:n+uniform(t, len(full)-n+1, "tail")]
		default: // anything short
			c.Payload = full[:uniform(t, len(full)+1, "cut")]
		}
		if uniform(t, 4, "signed") == 0 {
			c.Header.Incompat = 1
			sig := make([]byte, 13)
			expand(sig, bits(t, 16, "sig"))
			c.Sig = sig
		}
	}
	c.Prior = genPayload(t, m)
	if uniform(t, 6, "prior") == 0 { // nearly, or exactly, what comes
		c.Prior = clone(full)
		if len(full) > 0 && uniform(t, 2, "but-for") == 0 {
			c.Prior[uniform(t, len(full), "at")] ^= 1 << uniform(t, 8, "bit")
			m.QuietNaNs(c.Prior)
		}
	}
	c.PriorExt = uniform(t, 2, "prior-ext") == 1
	return c
}

func (c decodeCase) full(m *ref.Msg) []byte {
	p := make([]byte, m.Max)
	copy(p, c.Payload)
	m.QuietNaNs(p) // a cut can't make a NaN, but keep the exclusion obvious
	return p
}

func Test_C03(t *testing.T) {
	s := NewSuite(t, "C03", false)
	Phase(s, "decode", N(200000, 4800000), genDecode, func(c decodeCase, i *Info) error {
		m := c.Msg.def()
		i.Label("v%d", c.Header.V)
		switch {
		case len(c.Payload) == 0:
			i.Label("empty-payload")
		case len(c.Payload) < m.Min:
			i.Label("shorter-than-base")
		case len(c.Payload) == m.Min && m.HasExt():
			i.Label("extensions-absent")
		case len(c.Payload) < m.Max:
			i.Label("extensions-partial")
		}
		if c.Sig != nil {
			i.Label("signed")
		}
		i.NonTrivial(len(ref.Trim(c.Payload)) > 1)
		raw := ref.Build(c.Header, c.Payload, m.CRC, c.Sig)
		f := frameOf(clone(raw))
		if err := dialects(c.Dialects).Validate(f); err != nil {
			return fmt.Errorf("conforming frame %x of %s rejected: %v", raw, m.Name, err)
		}
		got, err := dialects(c.Dialects).GetMessage(f)
		if err != nil {
			return fmt.Errorf("frame %x of %s does not decode: %v", raw, m.Name, err)
		}
		// decoding into a message that held something else before
		into, err := newMessage(m)
		if err != nil {
			return err
		}
		if err := setFields(m, into, c.Prior, c.PriorExt); err != nil {
			return err
		}
		if err := into.Read(f); err != nil {
			return fmt.Errorf("frame %x of %s does not decode into a used message: %v", raw, m.Name, err)
		}
		if err := eqBytes("the frame after decoding", f.Bytes(), raw); err != nil {
			return err
		}
		// the decoded messages are on their own from here
		for j := range f.Bytes() {
			f.Bytes()[j] ^= 0xa5
		}
		for k, msg := range []mavlink2.Message{got, into} {
			what := []string{"decoded", "decoded into a used message"}[k]
			if err := checkIdentity(m, msg); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if err := checkFields(m, msg, c.full(m)); err != nil {
				return fmt.Errorf("%s: frame %x: %v", what, raw, err)
			}
			want := 1
			if c.Header.V == 2 && m.HasExt() {
				want = 2
			}
			if msg.GetVersion() != want {
				return fmt.Errorf("%s: %s from a V%d frame (extensions defined: %v) reports version %d", what, m.Name, c.Header.V, m.HasExt(), msg.GetVersion())
			}
		}
		return nil
	})
}

// charField is a text field and its accessors' names.
type charField struct {
	m *ref.Msg
	f ref.Field
}

var charFields = func() (out []charField) {
	for _, m := range ref.Messages {
		for _, f := range m.Fields {
			if f.Char && f.Len > 0 && !m.Variable {
				out = append(out, charField{m, f})
			}
		}
	}
	return
}()

type textCase struct {
	Msg    MsgRef `json:"msg"`
	Field  string `json:"field"`
	Prior  Hex    `json:"prior"`
	Values []Hex  `json:"values"` // set one after the other
	V      int    `json:"v"`
}

func Test_C14(t *testing.T) {
	s := NewSuite(t, "C14", false)
	Phase(s, "text", N(64000, 1800000), func(t *rapid.T) textCase {
		cf := charFields[uniform(t, len(charFields), "field")]
		c := textCase{Msg: MsgRef{cf.m.Pkg, cf.m.ID}, Field: cf.f.Name, Prior: genPayload(t, cf.m), V: 2}
		if cf.m.ID < 256 && !cf.f.Ext && uniform(t, 2, "v") == 0 {
			c.V = 1
		}
		for k := 1 + uniform(t, 3, "sets"); k > 0; k-- {
			var n int
			switch uniform(t, 4, "length-kind") {
			case 0:
				n = max(0, cf.f.Len-1+uniform(t, 4, "near-full"))
			case 1:
				n = uniform(t, 3*cf.f.Len+1, "any-length")
			default:
				n = uniform(t, cf.f.Len+1, "fitting")
			}
			b := make([]byte, n)
			switch uniform(t, 3, "text-kind") {
			case 0:
				for i := range b {
					b[i] = 'A' + byte(i%26)
				}
			case 1: // any text without NUL, multi-byte and invalid UTF-8 included
				expand(b, bits(t, 24, "text"))
				for i := range b {
					if b[i] == 0 {
						b[i] = 0xe2
					}
				}
			default:
				u := []byte(strings.Repeat("é漢", n))
				copy(b, u)
			}
			if len(c.Values) > 0 && uniform(t, 6, "related") == 0 { // to what was set before: the same, a part of it, more
				b = clone(c.Values[len(c.Values)-1])
				switch uniform(t, 3, "relation") {
				case 0:
					b = b[:uniform(t, len(b)+1, "part")]
				case 1:
					b = append(b, "and more"[:1+uniform(t, 8, "more")]...)
				}
			}
			c.Values = append(c.Values, b)
		}
		if uniform(t, 4, "prior") == 0 { // the field holds the text already, with something behind it
			v := c.Values[0][:min(len(c.Values[0]), cf.f.Len)]
			in := c.Prior[cf.f.Off : cf.f.Off+cf.f.Len]
			copy(in, v)
			if len(v) < len(in) && uniform(t, 4, "nul") > 0 {
				in[len(v)] = 0
			}
		}
		return c
	}, checkText)
}

func checkText(c textCase, i *Info) error {
	m := c.Msg.def()
	msg, err := newMessage(m)
	if err != nil {
		return err
	}
	if err := setFields(m, msg, c.Prior, true); err != nil {
		return err
	}
	v := reflect.ValueOf(msg)
	set, get := v.MethodByName("Set"+c.Field), v.MethodByName("Get"+c.Field)
	if !set.IsValid() || !get.IsValid() {
		return fmt.Errorf("%s has no Set%s/Get%s", m.Name, c.Field, c.Field)
	}
	var f ref.Field
	for _, x := range m.Fields {
		if x.Name == c.Field {
			f = x
		}
	}
	full := clone(c.Prior)
	getIs := func(want []byte, msg reflect.Value) error {
		got := msg.MethodByName("Get" + c.Field).Call(nil)[0].String()
		if got != string(want) {
			return fmt.Errorf("%s.Get%s() = %q, want %q", m.Name, c.Field, got, want)
		}
		return nil
	}
	cstr := func(b []byte) []byte {
		for i, x := range b {
			if x == 0 {
				return b[:i]
			}
		}
		return b
	}
	if err := getIs(cstr(full[f.Off:f.Off+f.Len]), v); err != nil {
		return fmt.Errorf("before setting: %v", err)
	}
	prev := -1
	for _, val := range c.Values {
		var serr error
		if e := set.Call([]reflect.Value{reflect.ValueOf(string(val))})[0]; !e.IsNil() {
			serr = e.Interface().(error)
		}
		if len(val) > f.Len {
			i.Label("too-long")
			if !errors.Is(serr, mavlink2.ErrValueTooLong) {
				return fmt.Errorf("%s.Set%s(%d bytes) on a field of %d reported %v, want the too-long error", m.Name, c.Field, len(val), f.Len, serr)
			}
		} else if serr != nil {
			return fmt.Errorf("%s.Set%s(%d bytes) on a field of %d: %v", m.Name, c.Field, len(val), f.Len, serr)
		}
		kept := val[:min(len(val), f.Len)]
		clear(full[f.Off : f.Off+f.Len])
		copy(full[f.Off:], kept)
		if len(kept) < prev {
			i.Label("shorter-than-before")
		}
		if len(kept) == f.Len {
			i.Label("fills-field")
		}
		prev = len(kept)
		i.NonTrivial(len(kept) > 0)
		if err := checkFields(m, msg, full); err != nil {
			return fmt.Errorf("after Set%s(%q): %v", c.Field, val, err)
		}
		if err := getIs(kept, v); err != nil {
			return err
		}
	}
	// and over the wire
	fr, err := dialects([]string{m.Pkg}).GetFrame(c.V, 1, 2, 3, msg)
	if err != nil {
		return fmt.Errorf("encoding %s: %v", m.Name, err)
	}
	got, err := dialects([]string{m.Pkg}).GetMessage(fr)
	if err != nil {
		return fmt.Errorf("decoding %s: %v", m.Name, err)
	}
	if err := getIs(c.Values[len(c.Values)-1][:prev], reflect.ValueOf(got)); err != nil {
		return fmt.Errorf("after encoding and decoding: %v", err)
	}
	return nil
}

type unknownCase struct {
	Dialects []string   `json:"dialects"`
	Header   ref.Header `json:"header"`
	Payload  Hex        `json:"payload"`
	Sig      Hex        `json:"sig"`
	CRC      byte       `json:"crc_extra"`
	Used     usedObject `json:"used"`
}

// usedObject is an unknown message that is decoded into a second time.
type usedObject struct {
	ID  uint32 `json:"id"`
	V   int    `json:"v"`
	Raw Hex    `json:"raw"`
}

func (o usedObject) read(h ref.Header, frame, payload []byte) error {
	old := clone(o.Raw)
	u := &mavlink2.UnknownMessage{ID: o.ID, Version: o.V, Raw: old}
	if err := u.Read(frameOf(clone(frame))); err != nil {
		return fmt.Errorf("reading frame %x into a used unknown message: %v", frame, err)
	}
	if u.ID != h.ID || u.Version != h.V {
		return fmt.Errorf("frame %x read into a used unknown message gives ID %d version %d", frame, u.ID, u.Version)
	}
	return eqBytes(fmt.Sprintf("payload of frame %x read into a used unknown message", frame), u.Raw, payload)
}

func Test_C15(t *testing.T) {
	s := NewSuite(t, "C15", false)
	Phase(s, "unknown", N(120000, 2400000), func(t *rapid.T) unknownCase {
		c := unknownCase{Dialects: genAnyDialects(t, 0), CRC: byte(bits(t, 8, "crc"))}
		v := 1 + uniform(t, 2, "v")
		var id uint32
		if uniform(t, 3, "id-kind") == 0 { // known elsewhere
			id = genMsg(t).ID
		} else {
			id = uint32(bits(t, 24, "id"))
			if uniform(t, 2, "small") == 0 {
				id &= 0x3ff
			}
		}
		if v == 1 {
			id &= 0xff
		}
		for ref.Find(c.Dialects, id) != nil {
			id++
			if v == 1 {
				id &= 0xff
			}
		}
		c.Header = ref.Header{V: v, ID: id, Seq: byte(bits(t, 8, "seq")), Sys: byte(bits(t, 8, "sys")), Comp: byte(bits(t, 8, "comp"))}
		c.Payload = genBytes(t, uniform(t, 256, "len"), "payload")
		if v == 2 && uniform(t, 4, "signed") == 0 {
			c.Header.Incompat = 1
			c.Sig = genBytes(t, 13, "sig")
		}
		c.Used = usedObject{ID: uint32(bits(t, 24, "used-id")), V: 1 + uniform(t, 2, "used-v"), Raw: genBytes(t, uniform(t, 256, "used-len"), "used")}
		return c
	}, func(c unknownCase, i *Info) error {
		i.Label("v%d", c.Header.V)
		i.Label("dialects=%d", len(c.Dialects))
		i.NonTrivial(len(c.Payload) > 0)
		raw := ref.Build(c.Header, c.Payload, c.CRC, c.Sig)
		f := frameOf(clone(raw))
		ds := dialects(c.Dialects)
		if err := ds.Validate(f); !errors.Is(err, mavlink2.ErrUnknownMessage) {
			return fmt.Errorf("validating frame %x of an unknown message: %v", raw, err)
		}
		msg, err := ds.GetMessage(f)
		if !errors.Is(err, mavlink2.ErrUnknownMessage) {
			return fmt.Errorf("decoding frame %x of an unknown message reported %v", raw, err)
		}
		if err := eqBytes("the frame after decoding", f.Bytes(), raw); err != nil {
			return err
		}
		for j := range f.Bytes() {
			f.Bytes()[j] ^= 0x5a
		}
		u, ok := msg.(*mavlink2.UnknownMessage)
		if !ok || u == nil {
			return fmt.Errorf("decoding frame %x of an unknown message gave %T", raw, msg)
		}
		if u.ID != c.Header.ID || u.GetID() != c.Header.ID || u.Version != c.Header.V || u.GetVersion() != c.Header.V {
			return fmt.Errorf("unknown message of frame %x has ID %d version %d", raw, u.ID, u.Version)
		}
		if err := eqBytes("raw payload of the unknown message", u.Raw, c.Payload); err != nil {
			return err
		}
		// an object that held another message before, of whatever ID, version and length
		if err := c.Used.read(c.Header, raw, c.Payload); err != nil {
			return err
		}
		if u.GetDialect() == "" || u.GetMessageName() == "" {
			return fmt.Errorf("unknown message has no name")
		}
		for v := 1; v <= 2; v++ {
			w, err := u.Write(v)
			if err != nil {
				return fmt.Errorf("writing the unknown message: %v", err)
			}
			if err := eqBytes("re-written payload", w, c.Payload); err != nil {
				return err
			}
			if g, err := ds.GetFrame(v, 1, 1, 1, u); !errors.Is(err, mavlink2.ErrUnknownMessage) {
				return fmt.Errorf("framing an unknown message gave %v, error %v", g, err)
			}
		}
		return checkLines(u.String(), [][2]string{{"ID", fmt.Sprint(c.Header.ID)}, {"Version", fmt.Sprint(c.Header.V)}, {"Raw", fmt.Sprintf("%x", []byte(c.Payload))}})
	})
}

// checkLines checks that a rendering consists of "label: value" lines, among them the wanted
// ones. Alignment and anything after the value (units) are free.
func checkLines(text string, want [][2]string) error {
	if strings.Contains(text, "%!") {
		return fmt.Errorf("rendering has formatting errors: %q", text)
	}
	have := map[string][]string{}
	for _, l := range strings.Split(text, "\n") {
		if k, v, ok := strings.Cut(l, ":"); ok {
			k = strings.TrimSpace(k)
			have[k] = append(have[k], strings.TrimSpace(v))
		}
	}
	for _, w := range want {
		found := false
		for _, v := range have[w[0]] { // a message can have a field called Name, too
			found = found || v == w[1] || strings.HasPrefix(v, w[1]+" ")
		}
		if !found {
			return fmt.Errorf("rendering shows %s as %q, want %q", w[0], have[w[0]], w[1])
		}
	}
	return nil
}

func Test_C19(t *testing.T) {
	s := NewSuite(t, "C19", false)
	Phase(s, "string", N(120000, 2400000), func(t *rapid.T) encodeCase {
		m := genMsg(t)
		return encodeCase{Msg: MsgRef{m.Pkg, m.ID}, Payload: genPayload(t, m), ExtSet: uniform(t, 2, "ext") == 1}
	}, func(c encodeCase, i *Info) error {
		m := c.Msg.def()
		msg, err := newMessage(m)
		if err != nil {
			return err
		}
		if err := setFields(m, msg, c.Payload, c.ExtSet); err != nil {
			return err
		}
		str, ok := msg.(fmt.Stringer)
		if !ok {
			return fmt.Errorf("%s has no String method", m.Name)
		}
		i.Label("ext=%v", c.ExtSet && m.HasExt())
		i.NonTrivial(len(ref.Trim(c.Payload)) > 1)
		want := [][2]string{{"Name", m.Dialect + "/" + m.Name}}
		v := reflect.ValueOf(msg).Elem()
		absent := []string{}
		for _, f := range m.Fields {
			if f.Ext && !c.ExtSet {
				absent = append(absent, f.Name)
				continue
			}
			want = append(want, [2]string{f.Name, fmt.Sprint(v.FieldByName(f.Name).Interface())})
		}
		text := str.String()
		if err := checkLines(text, want); err != nil {
			return fmt.Errorf("%s: %v", m.Name, err)
		}
		for _, a := range absent {
			for _, l := range strings.Split(text, "\n") {
				if k, _, ok := strings.Cut(l, ":"); ok && strings.TrimSpace(k) == a {
					return fmt.Errorf("%s without extension values shows %s", m.Name, a)
				}
			}
		}
		return nil
	})
}

// versionCase asks for a version a message cannot be carried in.
type versionCase struct {
	Msg      MsgRef `json:"msg"`
	Dialects []string
	V        int `json:"v"`
	Payload  Hex `json:"payload"`
}

// oddFrame is a frame of a version nobody knows.
type oddFrame struct {
	mavlink2.FrameV2
	v int
}

func (f oddFrame) GetVersion() int { return f.v }

func Test_C21(t *testing.T) {
	s := NewSuite(t, "C21", false)
	Phase(s, "version", N(120000, 2400000), func(t *rapid.T) versionCase {
		var m *ref.Msg
		if uniform(t, 2, "high-id") == 0 {
			var high []*ref.Msg
			for _, x := range ref.Messages {
				if x.ID > 255 {
					high = append(high, x)
				}
			}
			m = high[uniform(t, len(high), "msg")]
		} else {
			m = genMsg(t)
		}
		vs := []int{1, 0, 3, -1, 1, 2, 255, 256, 257, 258, 1 << 31, 1<<32 + 1, 1<<32 + 2, -2, 4}
		return versionCase{MsgRef{m.Pkg, m.ID}, genDialectsFor(t, m), vs[uniform(t, len(vs), "version")], genPayload(t, m)}
	}, func(c versionCase, i *Info) error {
		m := c.Msg.def()
		msg, err := newMessage(m)
		if err != nil {
			return err
		}
		p := clone(c.Payload)
		if m.Variable {
			reflect.ValueOf(msg).Elem().FieldByName("PayloadLength").SetUint(uint64(len(p) - 5))
		}
		if err := setFields(m, msg, p, true); err != nil {
			return err
		}
		var wantErr, wantReadErr error
		switch {
		case c.V != 1 && c.V != 2:
			wantErr, wantReadErr = mavlink2.ErrUnsupportedVersion, mavlink2.ErrUnsupportedVersion
			i.Label("unsupported")
		case c.V == 1 && m.ID > 255:
			wantErr, wantReadErr = mavlink2.ErrEncodeV2MessageV1Frame, mavlink2.ErrDecodeV2MessageV1Frame
			i.Label("v2-only-message")
		default:
			i.Label("fine")
		}
		i.NonTrivial(wantErr != nil)
		f, err := dialects(c.Dialects).GetFrame(c.V, 1, 2, 3, msg)
		if !errors.Is(err, wantErr) || (err == nil) != (wantErr == nil) {
			return fmt.Errorf("framing %s (ID %d) as version %d reported %v, want %v", m.Name, m.ID, c.V, err, wantErr)
		}
		if wantErr != nil && f != nil {
			return fmt.Errorf("framing %s (ID %d) as version %d gave a frame along with the error: %x", m.Name, m.ID, c.V, f.Bytes())
		}
		b, err := msg.Write(c.V)
		if !errors.Is(err, wantErr) || (err == nil) != (wantErr == nil) {
			return fmt.Errorf("writing %s (ID %d) as version %d reported %v, want %v", m.Name, m.ID, c.V, err, wantErr)
		}
		if wantErr != nil && len(b) != 0 {
			return fmt.Errorf("writing %s (ID %d) as version %d gave a payload along with the error", m.Name, m.ID, c.V)
		}
		// decoding: a V1 frame (which has room for the low ID byte only) or an odd one
		other := make([]byte, len(p)) // all different from what the message holds
		for k := range other {
			other[k] = p[k]>>1 + 1
			if other[k] == p[k] {
				other[k] += 2
			}
		}
		raw := ref.Build(ref.Header{V: 2, ID: m.ID}, other, m.CRC, nil)
		var in mavlink2.Frame = mavlink2.FrameV2(raw)
		if c.V == 1 {
			in = mavlink2.FrameV1(ref.Build(ref.Header{V: 1, ID: m.ID}, other, m.CRC, nil))
		} else if c.V != 2 {
			in = oddFrame{mavlink2.FrameV2(raw), c.V}
		}
		into, err := newMessage(m)
		if err != nil {
			return err
		}
		if err := setFields(m, into, p, true); err != nil {
			return err
		}
		err = into.Read(in)
		if !errors.Is(err, wantReadErr) || (err == nil) != (wantReadErr == nil) {
			return fmt.Errorf("decoding %s (ID %d) from a version %d frame reported %v, want %v", m.Name, m.ID, c.V, err, wantReadErr)
		}
		if wantReadErr != nil {
			if err := checkFields(m, into, p); err != nil {
				return fmt.Errorf("after refusing a version %d frame: %v", c.V, err)
			}
			if v := reflect.ValueOf(into).Elem().FieldByName("HasExtensionFieldValues"); v.IsValid() && !v.Bool() {
				return fmt.Errorf("%s lost its extension values by refusing a version %d frame", m.Name, c.V)
			}
		}
		return nil
	})
	// messages that write themselves without looking at the version: only the framing can refuse it
	Phase(s, "framing", N(20000, 400000), func(t *rapid.T) framingCase {
		c := framingCase{ID: uint32(bits(t, []int{3, 8, 9, 16, 24}[uniform(t, 5, "bits")], "id")), Unknown: uniform(t, 2, "unknown") == 0,
			Payload: genBytes(t, uniform(t, 256, "len"), "payload")}
		switch uniform(t, 3, "version-kind") {
		case 0:
			c.V = uniform(t, 3, "version")
		case 1: // low bits as in a version there is
			c.V = 1 + uniform(t, 2, "version") + 1<<(1+uniform(t, 62, "bit"))
		default:
			c.V = int(bits(t, 64, "version"))
		}
		return c
	}, func(c framingCase, i *Info) error {
		own := &stubDialect{k: 1, ids: map[uint32]string{c.ID: "known"}}
		var msg mavlink2.Message = &stubMessage{dialect: 1, id: c.ID, raw: clone(c.Payload)}
		if c.Unknown {
			msg = &mavlink2.UnknownMessage{ID: c.ID, Version: c.V, Raw: clone(c.Payload)}
		}
		var want error
		switch {
		case c.V != 1 && c.V != 2:
			want = mavlink2.ErrUnsupportedVersion
			i.Label("unsupported")
		case c.V == 1 && c.ID > 255:
			want = mavlink2.ErrEncodeV2MessageV1Frame
			i.Label("v2-only-message")
		default:
			i.Label("fine")
		}
		i.NonTrivial(want != nil)
		f, err := mavlink2.Dialects{own}.GetFrame(c.V, 1, 2, 3, msg)
		if !errors.Is(err, want) || (err == nil) != (want == nil) || (f == nil) != (want != nil) {
			return fmt.Errorf("framing message %d as version %d gave %v, %v; want error %v", c.ID, c.V, f, err, want)
		}
		if f != nil && (f.GetVersion() != c.V || f.GetMessageID() != c.ID) {
			return fmt.Errorf("framing message %d as version %d gave %x", c.ID, c.V, f.Bytes())
		}
		return nil
	})
}

type framingCase struct {
	ID      uint32 `json:"id"`
	V       int    `json:"v"`
	Unknown bool   `json:"unknown"`
	Payload Hex    `json:"payload"`
}

type purityCase struct {
	Enc  encodeCase `json:"enc"`
	Pad  Hex        `json:"pad"` // bytes after the frame in the same buffer
	Flip []int      `json:"flip"`
}

func Test_C22(t *testing.T) {
	s := NewSuite(t, "C22", false)
	Phase(s, "any-frame", N(60000, 1600000), genAnyFrame, checkAnyFrame)
	Phase(s, "variable-length", N(24000, 480000), genExtHops, checkExtHops)
	Phase(s, "purity", N(96000, 2400000), func(t *rapid.T) purityCase {
		c := purityCase{Enc: genEncode(t)}
		c.Pad = genBytes(t, uniform(t, 40, "pad"), "pad")
		for k := uniform(t, 3, "flips"); k > 0; k-- {
			c.Flip = append(c.Flip, uniform(t, 4096, "flip"))
		}
		return c
	}, func(c purityCase, i *Info) error {
		c.Enc.describe(i)
		m, msg, f, err := c.Enc.encode()
		if err != nil {
			return err
		}
		ds := dialects(c.Enc.Dialects)
		names := func(what string) error {
			if err := checkFields(m, msg, c.Enc.Payload); err != nil {
				return fmt.Errorf("%s changed the message: %v", what, err)
			}
			if got := msg.GetVersion() == 2; got != c.Enc.ExtSet {
				return fmt.Errorf("%s changed the message: has extension values = %v", what, got)
			}
			return nil
		}
		if err := names("encoding"); err != nil {
			return err
		}
		first := clone(f.Bytes())
		// another frame of the same message is equal and separate
		g, err := ds.GetFrame(c.Enc.Head.V, c.Enc.Head.Sys, c.Enc.Head.Comp, c.Enc.Head.Seq, msg)
		if err != nil {
			return err
		}
		if err := eqBytes("second frame of the same message", g.Bytes(), first); err != nil {
			return err
		}
		for j := range g.Bytes() {
			g.Bytes()[j] ^= 0xff
		}
		_ = append(g.Bytes(), 1, 2, 3)
		if err := eqBytes("first frame after writing to the second", f.Bytes(), first); err != nil {
			return err
		}
		if err := names("writing to a frame"); err != nil {
			return err
		}
		// validating and decoding, valid or not, leave the frame and what follows it alone
		buf := append(clone(first), c.Pad...)
		for _, fl := range c.Flip {
			if bit := fl % (8 * len(first)); bit >= 24 { // not the version, length and flags
				buf[bit/8] ^= 1 << (bit % 8)
			}
		}
		want := clone(buf)
		view, err := mavlink2.FrameFromBytes(buf, uint16(len(first)), false)
		if err != nil {
			return err
		}
		err1 := ds.Validate(view)
		if err := eqBytes("buffer after validating", buf, want); err != nil {
			return err
		}
		if err2 := ds.Validate(view); (err1 == nil) != (err2 == nil) || !errors.Is(err2, err1) {
			return fmt.Errorf("validating frame %x twice: %v, then %v", want[:len(first)], err1, err2)
		}
		m1, e1 := ds.GetMessage(view)
		m2, e2 := ds.GetMessage(view)
		if err := eqBytes("buffer after decoding", buf, want); err != nil {
			return err
		}
		if (e1 == nil) != (e2 == nil) || !errors.Is(e2, e1) {
			return fmt.Errorf("decoding frame %x twice: %v, then %v", want[:len(first)], e1, e2)
		}
		if m1 != nil && reflect.ValueOf(m1).Pointer() == reflect.ValueOf(m2).Pointer() {
			return fmt.Errorf("decoding twice gave the same message object")
		}
		if e1 == nil && m1.GetID() == m.ID {
			full := make([]byte, m.Max)
			p, _, _ := ref.Parse(want)
			copy(full, p.Payload)
			// change one result, look at the other
			if err := setFields(m, m1, make([]byte, m.Max), false); err != nil {
				return err
			}
			m.QuietNaNs(full)
			if err := checkFields(m, m2, full); err != nil {
				return fmt.Errorf("two decoded messages share state: %v", err)
			}
		}
		// a copied frame is independent of the buffer, both ways
		cp, err := mavlink2.FrameFromBytes(buf, uint16(len(first)), true)
		if err != nil {
			return err
		}
		if err := eqBytes("copied frame", cp.Bytes(), want[:len(first)]); err != nil {
			return err
		}
		for j := range buf {
			buf[j] ^= 0x77
		}
		if err := eqBytes("copied frame after changing the buffer", cp.Bytes(), want[:len(first)]); err != nil {
			return err
		}
		copy(buf, want)
		for j := range cp.Bytes() {
			cp.Bytes()[j] ^= 0x33
		}
		_ = append(cp.Bytes(), 9, 9, 9)
		if err := eqBytes("buffer after changing the copied frame", buf, want); err != nil {
			return err
		}
		i.NonTrivial(true)
		return nil
	})
}

// anyFrameCase is a frame of any kind, from anyone, in a larger buffer.
type anyFrameCase struct {
	Dialects []string `json:"dialects"`
	Frame    Hex      `json:"frame"`
	Pad      Hex      `json:"pad"`
	Length   int      `json:"length"` // of the copy
}

func genAnyFrame(t *rapid.T) anyFrameCase {
	c := anyFrameCase{Dialects: genDialects(t)}
	switch uniform(t, 8, "kind") {
	case 0: // any length there is
		n := 1 + uniform(t, 600, "len")
		if uniform(t, 20, "huge") == 0 {
			n = 1 + uniform(t, 65535, "len")
		}
		c.Frame = genBytes(t, n, "bytes")
		c.Frame[0] = byte(0xfd + uniform(t, 2, "v"))
	case 1: // unknown to everybody, perhaps signed
		h := ref.Header{V: 2, Seq: byte(bits(t, 8, "seq")), Sys: byte(bits(t, 8, "sys")), Comp: byte(bits(t, 8, "comp")), ID: uint32(bits(t, 24, "id"))}
		var sig []byte
		if uniform(t, 2, "signed") == 0 {
			h.Incompat, sig = byte(bits(t, 8, "flags"))|1, genBytes(t, 13, "sig")
		}
		n := uniform(t, 256, "len")
		if uniform(t, 3, "full") == 0 {
			n = 255
		}
		c.Frame = ref.Build(h, genBytes(t, n, "payload"), byte(bits(t, 8, "crc")), sig)
	default:
		c.Frame = genFrame(t, c.Dialects)
	}
	switch uniform(t, 8, "damage") {
	case 0:
		c.Frame[uniform(t, len(c.Frame), "at")] ^= byte(1 + bits(t, 7, "by"))
		if c.Frame[0] < 0xfd || c.Frame[0] > 0xfe {
			c.Frame[0] = 0xfd
		}
	case 1:
		c.Frame = c.Frame[:1+uniform(t, len(c.Frame), "cut")]
	}
	c.Pad = genBytes(t, uniform(t, 2, "padded")*uniform(t, 40, "pad"), "pad")
	c.Length = len(c.Frame)
	if uniform(t, 3, "other-length") == 0 {
		c.Length = uniform(t, min(65535, len(c.Frame)+len(c.Pad))+1, "length")
	}
	return c
}

func checkAnyFrame(c anyFrameCase, i *Info) error {
	buf := append(clone(c.Frame), c.Pad...)
	want := clone(buf)
	ds := dialects(c.Dialects)
	view, err := mavlink2.FrameFromBytes(buf[:len(c.Frame)], uint16(min(65535, len(c.Frame))), false)
	if err != nil {
		return err
	}
	err1 := ds.Validate(view)
	if err := eqBytes("buffer after validating", buf, want); err != nil {
		return err
	}
	if err2 := ds.Validate(view); (err1 == nil) != (err2 == nil) || !errors.Is(err2, err1) {
		return fmt.Errorf("validating frame %x twice: %v, then %v", c.Frame, err1, err2)
	}
	m1, e1 := ds.GetMessage(view)
	text := fmt.Sprint(m1)
	m2, e2 := ds.GetMessage(view)
	if err := eqBytes("buffer after decoding", buf, want); err != nil {
		return err
	}
	if (e1 == nil) != (e2 == nil) || !errors.Is(e2, e1) || text != fmt.Sprint(m2) || text != fmt.Sprint(m1) {
		return fmt.Errorf("decoding frame %x twice: %v %s, then %v %v", c.Frame, e1, text, e2, m2)
	}
	i.Label("valid=%v", err1 == nil)
	i.Label("decodes=%v", e1 == nil)
	if u, ok := m1.(*mavlink2.UnknownMessage); ok {
		i.Label("unknown")
		for j := range u.Raw {
			u.Raw[j] ^= 0x5a
		}
		_ = append(u.Raw, 1, 2, 3)
		if err := eqBytes("buffer after writing to the unknown message", buf, want); err != nil {
			return err
		}
		if text != fmt.Sprint(m2) {
			return fmt.Errorf("writing to one unknown message decoded from %x changed the other to %v", c.Frame, m2)
		}
	}
	if c.Length == 0 {
		return nil
	}
	i.NonTrivial(true)
	if c.Length > 279 {
		i.Label("longer-than-279")
	}
	// copies are independent of the buffer and of each other
	src := buf
	if c.Length == len(c.Frame) {
		src = buf[:c.Length:c.Length]
	}
	var cps [2]mavlink2.Frame
	for k := range cps {
		if cps[k], err = mavlink2.FrameFromBytes(src, uint16(c.Length), true); err != nil {
			return err
		}
		if err := eqBytes("copied frame", cps[k].Bytes(), want[:c.Length]); err != nil {
			return err
		}
	}
	for j := range buf {
		buf[j] ^= 0x77
	}
	if err := eqBytes("copied frame after changing the buffer", cps[0].Bytes(), want[:c.Length]); err != nil {
		return err
	}
	copy(buf, want)
	for j := range cps[0].Bytes() {
		cps[0].Bytes()[j] ^= 0x33
	}
	_ = append(cps[0].Bytes(), 9, 9, 9)
	if err := eqBytes("another copy after changing one", cps[1].Bytes(), want[:c.Length]); err != nil {
		return err
	}
	return eqBytes("buffer after changing the copied frame", buf, want)
}

type v2extCase struct {
	Head     Head   `json:"head"`
	Type     uint16 `json:"type"`
	Net      byte   `json:"net"`
	Sys      byte   `json:"sys"`
	Comp     byte   `json:"comp"`
	Prior    Hex    `json:"prior"`
	Payload  Hex    `json:"payload"`
	Dialects []string
}

type v2ext interface {
	mavlink2.Message
	GetPayload() []byte
	SetPayloadSlice([]byte) error
}

func Test_C23(t *testing.T) {
	s := NewSuite(t, "C23", false)
	Phase(s, "extension", N(120000, 2400000), genV2Ext, checkV2Ext)
}

func genV2Ext(t *rapid.T) v2extCase {
	m := ref.ByDialect["common"][248]
	c := v2extCase{Head: genHead(t, 248), Dialects: genDialectsFor(t, m)}
	c.Type, c.Net, c.Sys, c.Comp = uint16(bits(t, 16, "type")), byte(bits(t, 8, "net")), byte(bits(t, 8, "tsys")), byte(bits(t, 8, "tcomp"))
	if uniform(t, 4, "zero-head") == 0 {
		c.Type, c.Net, c.Sys, c.Comp = 0, 0, 0, 0
	}
	n := uniform(t, 250, "len")
	switch uniform(t, 4, "len-kind") {
	case 0:
		n = uniform(t, 4, "short")
	case 1:
		n = 246 + uniform(t, 12, "long")
	}
	c.Payload = genBytes(t, n, "payload")
	c.Prior = genBytes(t, uniform(t, 250, "prior-len"), "prior")
	return c
}

func checkV2Ext(c v2extCase, i *Info) error {
	m := ref.ByDialect["common"][248]
	made, err := newMessage(m)
	if err != nil {
		return err
	}
	msg, ok := made.(v2ext)
	if !ok {
		return fmt.Errorf("%T lacks the payload accessors", made)
	}
	i.Label("v%d", c.Head.V)
	i.NonTrivial(len(c.Payload) > 0)
	v := reflect.ValueOf(msg).Elem()
	v.FieldByName("MessageType").SetUint(uint64(c.Type))
	v.FieldByName("TargetNetwork").SetUint(uint64(c.Net))
	v.FieldByName("TargetSystem").SetUint(uint64(c.Sys))
	v.FieldByName("TargetComponent").SetUint(uint64(c.Comp))
	if err := msg.SetPayloadSlice(c.Prior); err != nil {
		return fmt.Errorf("setting %d bytes: %v", len(c.Prior), err)
	}
	err = msg.SetPayloadSlice(c.Payload)
	kept := c.Payload
	if len(kept) > 249 {
		kept = kept[:249]
		i.Label("too-long")
		if !errors.Is(err, mavlink2.ErrValueTooLong) {
			return fmt.Errorf("setting %d bytes reported %v", len(c.Payload), err)
		}
	} else if err != nil {
		return fmt.Errorf("setting %d bytes: %v", len(c.Payload), err)
	}
	if err := eqBytes("payload after setting it", msg.GetPayload(), kept); err != nil {
		return err
	}
	ds := dialects(c.Dialects)
	f, err := ds.GetFrame(c.Head.V, c.Head.Sys, c.Head.Comp, c.Head.Seq, msg)
	if err != nil {
		return fmt.Errorf("encoding: %v", err)
	}
	full := append([]byte{byte(c.Type), byte(c.Type >> 8), c.Net, c.Sys, c.Comp}, kept...)
	wire := full
	if c.Head.V == 2 {
		wire = ref.Trim(full)
		if len(wire) < 5 {
			i.Label("truncated-below-fixed")
		} else if len(wire) < len(full) {
			i.Label("truncated")
		}
	}
	want := ref.Build(ref.Header{V: c.Head.V, Seq: c.Head.Seq, Sys: c.Head.Sys, Comp: c.Head.Comp, ID: 248}, wire, m.CRC, nil)
	if err := eqBytes("frame", f.Bytes(), want); err != nil {
		return err
	}
	if err := eqBytes("payload after encoding", msg.GetPayload(), kept); err != nil {
		return err
	}
	if err := ds.Validate(f); err != nil {
		return fmt.Errorf("own frame %x does not validate: %v", f.Bytes(), err)
	}
	back, err := ds.GetMessage(f)
	if err != nil {
		return fmt.Errorf("own frame %x does not decode: %v", f.Bytes(), err)
	}
	for j := range f.Bytes() {
		f.Bytes()[j] ^= 0x3c
	}
	if err := checkIdentity(m, back); err != nil {
		return err
	}
	full254 := make([]byte, m.Max)
	copy(full254, full)
	if err := checkFields(m, back, full254); err != nil {
		return err
	}
	got := back.(v2ext).GetPayload()
	wantPayload := kept
	if c.Head.V == 2 { // trailing zero bytes do not survive truncation
		wantPayload = nil
		if len(wire) > 5 {
			wantPayload = wire[5:]
		}
	}
	if err := eqBytes("decoded payload", got, wantPayload); err != nil {
		return err
	}
	// and into an object that has held another payload
	used, err := newMessage(m)
	if err != nil {
		return err
	}
	if err := used.(v2ext).SetPayloadSlice(c.Prior); err != nil {
		return fmt.Errorf("setting %d bytes: %v", len(c.Prior), err)
	}
	if err := used.Read(frameOf(want)); err != nil {
		return fmt.Errorf("frame %x is not read: %v", want, err)
	}
	if err := checkFields(m, used, full254); err != nil {
		return fmt.Errorf("read into a used object: %v", err)
	}
	return eqBytes("payload read into a used object", used.(v2ext).GetPayload(), wantPayload)
}

// A message of variable length may be used like any other.
type extHop struct {
	Head    Head `json:"head"`
	Edit    bool `json:"edit"` // set anew before encoding
	Fixed   Hex  `json:"fixed"`
	Payload Hex  `json:"payload"`
}

type extHopsCase struct {
	Dialects []string   `json:"dialects"`
	Header   ref.Header `json:"header"`
	Payload  Hex        `json:"payload"` // as sent, all of it
	Sig      Hex        `json:"sig"`
	Hops     []extHop   `json:"hops"`
}

func genExtHops(t *rapid.T) extHopsCase {
	m := ref.ByDialect["common"][248]
	c := extHopsCase{Dialects: genDialectsFor(t, m)}
	length := func() int {
		switch uniform(t, 3, "len-kind") {
		case 0:
			return uniform(t, 4, "short")
		case 1:
			return 249 - uniform(t, 4, "long")
		}
		return uniform(t, 250, "len")
	}
	h := genHead(t, 248)
	c.Header = ref.Header{V: h.V, Seq: h.Seq, Sys: h.Sys, Comp: h.Comp, ID: 248}
	c.Payload = genBytes(t, 5+length(), "payload")
	if h.V == 2 {
		c.Header.Compat = byte(bits(t, 8, "compat"))
		switch uniform(t, 3, "truncated") {
		case 0:
			c.Payload = ref.Trim(c.Payload)
		case 1:
			n := len(ref.Trim(c.Payload))
			c.Payload = c.Payload[:n+uniform(t, len(c.Payload)-n+1, "tail")]
		}
		if uniform(t, 4, "signed") == 0 {
			c.Header.Incompat, c.Sig = 1, genBytes(t, 13, "sig")
		}
	}
	for k := 1 + uniform(t, 3, "hops"); k > 0; k-- {
		hop := extHop{Head: genHead(t, 248), Edit: uniform(t, 3, "edit") == 0}
		if hop.Edit {
			hop.Fixed, hop.Payload = genBytes(t, 5, "fixed"), genBytes(t, length(), "payload")
		}
		c.Hops = append(c.Hops, hop)
	}
	return c
}

// checkExtHops decodes and encodes a V2_EXTENSION again and again.
func checkExtHops(c extHopsCase, i *Info) error {
	m := ref.ByDialect["common"][248]
	ds := dialects(c.Dialects)
	i.NonTrivial(len(c.Payload) > 5)
	raw := ref.Build(c.Header, c.Payload, m.CRC, c.Sig)
	f := frameOf(clone(raw))
	v := c.Header.V
	for k, hop := range c.Hops {
		i.Label("v%d-to-v%d", v, hop.Head.V)
		p, _, _ := ref.Parse(f.Bytes())
		sent := clone(f.Bytes())
		held := clone(p.Payload) // fixed fields, then exactly the payload
		for len(held) < 5 {
			held = append(held, 0)
		}
		if err := ds.Validate(f); err != nil {
			return fmt.Errorf("hop %d: frame %x rejected: %v", k, sent, err)
		}
		got, err := ds.GetMessage(f)
		if err != nil {
			return fmt.Errorf("hop %d: frame %x does not decode: %v", k, sent, err)
		}
		other, err := ds.GetMessage(f)
		if err != nil {
			return fmt.Errorf("hop %d: frame %x does not decode again: %v", k, sent, err)
		}
		if err := eqBytes(fmt.Sprintf("hop %d: the frame after decoding", k), f.Bytes(), sent); err != nil {
			return err
		}
		for j := range f.Bytes() {
			f.Bytes()[j] ^= 0x55
		}
		msg, ok := got.(v2ext)
		if !ok {
			return fmt.Errorf("%T lacks the payload accessors", got)
		}
		holds := func(what string, msg mavlink2.Message, held []byte) error {
			full := make([]byte, m.Max)
			copy(full, held[:5])
			fixed := *m // what lies beyond the payload's end is nobody's business
			fixed.Fields = nil
			for _, x := range m.Fields {
				if x.Off < 5 {
					fixed.Fields = append(fixed.Fields, x)
				}
			}
			if err := checkFields(&fixed, msg, full); err != nil {
				return fmt.Errorf("hop %d: %s: %v", k, what, err)
			}
			return eqBytes(fmt.Sprintf("hop %d: %s: payload", k, what), msg.(v2ext).GetPayload(), held[5:])
		}
		if err := holds("decoded", msg, held); err != nil {
			return err
		}
		was := clone(held)
		if hop.Edit {
			i.Label("edited")
			held = append(clone(hop.Fixed), hop.Payload...)
			e := reflect.ValueOf(msg).Elem()
			e.FieldByName("MessageType").SetUint(uint64(held[0]) | uint64(held[1])<<8)
			e.FieldByName("TargetNetwork").SetUint(uint64(held[2]))
			e.FieldByName("TargetSystem").SetUint(uint64(held[3]))
			e.FieldByName("TargetComponent").SetUint(uint64(held[4]))
			if err := msg.SetPayloadSlice(clone(hop.Payload)); err != nil {
				return fmt.Errorf("hop %d: setting %d bytes: %v", k, len(hop.Payload), err)
			}
		}
		g, err := ds.GetFrame(hop.Head.V, hop.Head.Sys, hop.Head.Comp, hop.Head.Seq, msg)
		if err != nil {
			return fmt.Errorf("hop %d: encoding as version %d: %v", k, hop.Head.V, err)
		}
		wire := held
		if hop.Head.V == 2 {
			wire = ref.Trim(held)
		}
		want := ref.Build(ref.Header{V: hop.Head.V, Seq: hop.Head.Seq, Sys: hop.Head.Sys, Comp: hop.Head.Comp, ID: 248}, wire, m.CRC, nil)
		what := fmt.Sprintf("hop %d: from version %d to %d", k, v, hop.Head.V)
		if err := eqBytes(what, g.Bytes(), want); err != nil {
			return err
		}
		if err := holds("after encoding", msg, held); err != nil {
			return err
		}
		if err := holds("decoded on its own", other, was); err != nil {
			return err
		}
		again, err := ds.GetFrame(hop.Head.V, hop.Head.Sys, hop.Head.Comp, hop.Head.Seq, msg)
		if err != nil {
			return fmt.Errorf("%s, again: %v", what, err)
		}
		for j := range again.Bytes() {
			again.Bytes()[j] ^= 0xff
		}
		_ = append(again.Bytes(), 1, 2, 3)
		if err := eqBytes(what+", after writing to another frame of it", g.Bytes(), want); err != nil {
			return err
		}
		if err := holds("after writing to a frame", msg, held); err != nil {
			return err
		}
		f, v = g, hop.Head.V
	}
	return nil
}
