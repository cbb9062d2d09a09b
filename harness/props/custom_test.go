package props

import (
	"errors"
	"fmt"
	"testing"

	mavlink2 "github.com/botlink/go-mavlink2"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// A dialect someone wrote on their own, in front of or behind bundled ones, and a message of
// it (or a raw one) that is framed, validated, decoded and carried by a stream.
type customCase struct {
	Before  []string `json:"before"` // bundled dialects that do not define the ID
	After   []string `json:"after"`
	ID      uint32   `json:"id"`
	CRC     byte     `json:"crc"`
	Min     int      `json:"min"`
	Max     int      `json:"max"`
	V       int      `json:"v"`
	Head    Head     `json:"head"`
	Payload Hex      `json:"payload"`
	Raw     bool     `json:"raw"`  // the message is an UnknownMessage
	Fail    bool     `json:"fail"` // the message cannot be written
	Lend    bool     `json:"lend"` // writing gives away the message's own memory
	Spare   int      `json:"spare"`
	Stream  bool     `json:"stream"`
	Chunks  []int    `json:"chunks"`
}

var errStubWrite = errors.New("this message cannot be written")

func genCustom(t *rapid.T) customCase {
	c := customCase{CRC: byte(bits(t, 8, "crc")), V: 1 + uniform(t, 2, "v"), Raw: uniform(t, 3, "raw") == 0}
	switch uniform(t, 5, "id-kind") {
	case 0:
		c.ID = uint32(bits(t, 8, "id"))
	case 1:
		c.ID = []uint32{0, 1, 127, 128, 254, 255, 256, 257, 0xfffe, 0xffff, 0x10000, 0x10001, 0x7fffff, 0x800000, 0xfffffe, 0xffffff, 0xfd, 0xfdfd, 0xfefefe}[uniform(t, 19, "id")]
	case 2:
		c.ID = uint32(bits(t, 16, "id"))
	case 3:
		c.ID = 1 << uniform(t, 24, "bit")
	default:
		c.ID = uint32(bits(t, 24, "id"))
	}
	if uniform(t, 12, "odd-version") == 0 {
		c.V = []int{0, 3, -1, 255, 257, 258, 1<<32 + 1}[uniform(t, 7, "version")]
	}
	n := uniform(t, 256, "len")
	switch uniform(t, 6, "length") {
	case 0:
		n = []int{0, 1, 2, 254, 255, 256, 257, 511, 512, 700}[uniform(t, 10, "len")]
	case 1:
		n = uniform(t, 20, "len")
	}
	c.Payload = genBytes(t, n, "payload")
	c.Max = uniform(t, 256, "max")
	c.Min = uniform(t, c.Max+1, "min")
	switch uniform(t, 4, "limits") {
	case 0:
		c.Max = 255
		c.Min = uniform(t, 3, "min")
	case 2: // limits that exclude each other, or that nothing can reach
		c.Min, c.Max = uniform(t, 300, "odd-min"), uniform(t, 700, "odd-max")
	case 1: // just so
		c.Max = min(255, max(0, n+uniform(t, 3, "max-off")-1))
		c.Min = min(c.Max, max(0, n+uniform(t, 3, "min-off")-1))
	}
	if uniform(t, 8, "nothing") == 0 { // metadata without any value set
		c.CRC, c.Min, c.Max = 0, 0, 0
		if uniform(t, 2, "empty") == 0 {
			c.Payload = Hex{}
		}
	}
	c.Head = Head{Sys: byte(bits(t, 8, "sys")), Comp: byte(bits(t, 8, "comp")), Seq: byte(bits(t, 8, "seq"))}
	for _, side := range []*[]string{&c.Before, &c.After} {
		k := uniform(t, 3, "bundled")
		if uniform(t, 20, "long-list") == 0 {
			k = uniform(t, 60, "bundled")
		}
		for ; k > 0; k-- {
			d := pkgs[uniform(t, len(pkgs), "dialect")]
			if side == &c.After || ref.ByDialect[d][c.ID] == nil {
				*side = append(*side, d)
			}
		}
	}
	c.Fail = uniform(t, 20, "fail") == 0
	c.Lend = uniform(t, 3, "lend") == 0
	c.Spare = uniform(t, 4, "spare") * uniform(t, 12, "spare-x")
	c.Stream = uniform(t, 4, "stream") == 0
	if c.Stream {
		c.Chunks = genChunks(t)
	}
	return c
}

func Test_C26(t *testing.T) {
	s := NewSuite(t, "C26", true)
	Phase(s, "custom", N(60000, 1200000), genCustom, func(c customCase, i *Info) error {
		own := &stubDialect{k: 7, ids: map[uint32]string{c.ID: "known"}, meta: map[uint32]mavlink2.MessageMeta{
			c.ID: {CRCExtra: c.CRC, MinimumLength: uint(c.Min), MaximumLength: uint(c.Max)}}}
		ds := append(dialects(c.Before), own)
		ds = append(ds, dialects(c.After)...)

		// the payload, in the message's memory, and what comes behind it there
		memory := append(clone(c.Payload), make([]byte, c.Spare)...)
		for k := range c.Spare {
			memory[len(c.Payload)+k] = byte(k) ^ 0x5a
		}
		before := clone(memory)
		var msg mavlink2.Message = &stubMessage{dialect: 7, id: c.ID, raw: memory[:len(c.Payload)], lend: c.Lend}
		if c.Raw {
			msg = &mavlink2.UnknownMessage{ID: c.ID, Version: 2, Raw: memory[:len(c.Payload)]}
		}
		var wantErr error
		switch {
		case c.V != 1 && c.V != 2:
			wantErr = mavlink2.ErrUnsupportedVersion
		case c.Fail && !c.Raw:
			msg.(*stubMessage).fail = errStubWrite
			wantErr = errStubWrite
		case c.V == 1 && c.ID > 255:
			wantErr = mavlink2.ErrEncodeV2MessageV1Frame
		case len(c.Payload) > 255:
			wantErr = mavlink2.ErrMessageTooLong
		}
		f, err := ds.GetFrame(c.V, c.Head.Sys, c.Head.Comp, c.Head.Seq, msg)
		if err := eqBytes("the message's memory after framing it", memory, before); err != nil {
			return err
		}
		if wantErr != nil {
			i.Label("refused")
			i.NonTrivial(true)
			if f != nil {
				return fmt.Errorf("framing message %d with %d bytes as version %d gave %x, error %v", c.ID, len(c.Payload), c.V, f.Bytes(), err)
			}
			// of several reasons any will do
			ok := errors.Is(err, wantErr)
			if c.V == 1 && c.ID > 255 && len(c.Payload) > 255 {
				ok = ok || errors.Is(err, mavlink2.ErrMessageTooLong)
			}
			if c.Fail && !c.Raw && c.V == 1 && c.ID > 255 {
				ok = ok || errors.Is(err, mavlink2.ErrEncodeV2MessageV1Frame)
			}
			if !ok {
				return fmt.Errorf("framing message %d with %d bytes as version %d reported %v, want %v", c.ID, len(c.Payload), c.V, err, wantErr)
			}
			return nil
		}
		if err != nil || f == nil {
			return fmt.Errorf("framing message %d with %d bytes as version %d reported %v", c.ID, len(c.Payload), c.V, err)
		}
		raw := ref.Build(ref.Header{V: c.V, Seq: c.Head.Seq, Sys: c.Head.Sys, Comp: c.Head.Comp, ID: c.ID}, c.Payload, c.CRC, nil)
		if err := eqBytes(fmt.Sprintf("V%d frame of message %d", c.V, c.ID), f.Bytes(), raw); err != nil {
			return err
		}
		i.Label("v%d", c.V)
		if c.ID > 0xffff {
			i.Label("three-byte-id")
		}
		i.NonTrivial(len(c.Payload) > 0)

		if c.Lend || c.Raw {
			i.Label("lent")
		}
		for k := range memory { // the frame is on its own
			memory[k] ^= 0xff
		}
		if err := eqBytes("frame after changing its message", f.Bytes(), raw); err != nil {
			return err
		}
		for k := range memory {
			memory[k] ^= 0xff
		}

		n := len(c.Payload)
		var faults []error
		if c.V == 1 && n < c.Min {
			faults = append(faults, mavlink2.ErrMessageTooShort)
		}
		if n > c.Max {
			faults = append(faults, mavlink2.ErrMessageTooLong)
		}
		valid := len(faults) == 0
		i.Label("valid=%v", valid)
		verr := ds.Validate(f)
		ok := valid && verr == nil
		for _, x := range faults {
			ok = ok || errors.Is(verr, x)
		}
		if !ok {
			return fmt.Errorf("frame %x of message %d (%d to %d bytes) validates with %v, want %v", raw, c.ID, c.Min, c.Max, verr, faults)
		}
		got, err := ds.GetMessage(f)
		if err != nil {
			return fmt.Errorf("frame %x of message %d does not decode: %v", raw, c.ID, err)
		}
		sm, isStub := got.(*stubMessage)
		if !isStub || sm.dialect != 7 || sm.id != c.ID {
			return fmt.Errorf("frame %x of message %d decodes as %T", raw, c.ID, got)
		}
		if err := eqBytes("decoded payload", sm.raw, c.Payload); err != nil {
			return err
		}
		// a damaged one is told apart with the dialect's own checksum
		bad := clone(raw)
		bad[len(bad)-1] ^= 0x40
		if err := ds.Validate(frameOf(bad)); err == nil || valid && !errors.Is(err, mavlink2.ErrInvalidChecksum) {
			return fmt.Errorf("frame %x of message %d with a damaged checksum validates with %v", bad, c.ID, err)
		}
		if !c.Stream {
			return nil
		}
		i.Label("stream")
		frames, err := readCase{Stream: append(append(clone(raw), 0, 1, 2), make([]byte, 300)...), Chunks: c.Chunks, End: "eof"}.deframeWith(t, ds, nil, nil)
		if err != nil {
			return err
		}
		if !valid {
			for _, g := range frames {
				if string(g.Bytes()) == string(raw) {
					return fmt.Errorf("invalid frame %x was delivered", raw)
				}
			}
			return nil
		}
		if len(frames) == 0 {
			return fmt.Errorf("valid frame %x was not delivered", raw)
		}
		return eqBytes("delivered frame", frames[0].Bytes(), raw)
	})
}
