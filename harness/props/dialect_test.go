package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	mavlink2 "github.com/botlink/go-mavlink2"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// idCase looks a run of message IDs up in a dialect.
type idCase struct {
	Pkg  string `json:"pkg"`
	From uint32 `json:"from"`
	N    uint32 `json:"n"`
}

func checkID(pkg string, id uint32, i *Info) error {
	d := libDialects[pkg]
	m := ref.ByDialect[pkg][id]
	for _, x := range ref.ByDialect[pkg] { // what its messages call it, it calls itself
		if n, ok := d.(interface{ GetName() string }); ok && n.GetName() != x.Dialect {
			return fmt.Errorf("dialect %s calls itself %q", x.Dialect, n.GetName())
		}
		break
	}
	meta, err := d.GetMeta(id)
	if m == nil {
		if !errors.Is(err, mavlink2.ErrUnknownMessage) {
			return fmt.Errorf("%s has no message %d, but its description is %+v, error %v", pkg, id, meta, err)
		}
	} else {
		if err != nil {
			return fmt.Errorf("%s: description of message %d (%s): %v", pkg, id, m.Name, err)
		}
		if meta.CRCExtra != m.CRC || meta.MinimumLength != uint(m.Min) || meta.MaximumLength != uint(m.Max) {
			return fmt.Errorf("%s: message %d (%s) is described as %+v, want CRC extra %d, %d to %d bytes", pkg, id, m.Name, meta, m.CRC, m.Min, m.Max)
		}
	}
	if id >= 1<<24 {
		return nil
	}
	f := mavlink2.FrameV2(ref.Build(ref.Header{V: 2, ID: id}, []byte{0}, 0, nil))
	msg, err := d.GetMessage(f)
	if m == nil {
		if !errors.Is(err, mavlink2.ErrUnknownMessage) || msg != nil {
			return fmt.Errorf("%s has no message %d, but decodes it as %T, error %v", pkg, id, msg, err)
		}
		return nil
	}
	i.NonTrivial(true)
	i.Label("defined")
	if err != nil {
		return fmt.Errorf("%s does not decode message %d (%s): %v", pkg, id, m.Name, err)
	}
	if err := checkIdentity(m, msg); err != nil {
		return err
	}
	h, ok := msg.(interface{ HasExtensionFields() bool })
	if !ok || h.HasExtensionFields() != m.HasExt() {
		return fmt.Errorf("%s: message %d (%s) does not tell whether it has extension fields (%v)", pkg, id, m.Name, m.HasExt())
	}
	p, err := msg.Write(2)
	if err != nil || len(p) != 1 || p[0] != 0 {
		return fmt.Errorf("%s: zero message %d (%s) is written as %x, error %v", pkg, id, m.Name, p, err)
	}
	if id < 256 {
		n := m.Min
		p, err := msg.Write(1)
		if err != nil || len(p) != n {
			return fmt.Errorf("%s: zero message %d (%s) is written for V1 in %d bytes, want %d, error %v", pkg, id, m.Name, len(p), n, err)
		}
	}
	return nil
}

func checkIDs(c idCase, i *Info) error {
	for k := uint32(0); k < c.N; k++ {
		if err := checkID(c.Pkg, c.From+k, i); err != nil {
			return err
		}
	}
	i.Label("ids=%d", c.N)
	return nil
}

func Test_C04(t *testing.T) {
	s := NewSuite(t, "C04", false)
	// the IDs any dialect uses, and everything around them, one by one
	Phase(s, "near", N(96000, 1200000), func(t *rapid.T) idCase {
		m := genMsg(t)
		c := idCase{Pkg: pkgs[uniform(t, len(pkgs), "pkg")], From: m.ID, N: 1}
		switch uniform(t, 4, "how") {
		case 0:
			c.Pkg = m.Pkg
		case 1:
			c.From ^= 1 << uniform(t, 32, "bit")
		case 2:
			c.From += uint32(uniform(t, 7, "off")) - 3
		}
		return c
	}, checkIDs)
	// runs of IDs anywhere; the thorough tier covers the 24-bit space about 20 times over
	Phase(s, "runs", N(3200, 144000), func(t *rapid.T) idCase {
		c := idCase{Pkg: pkgs[uniform(t, len(pkgs), "pkg")], N: 2048}
		switch uniform(t, 3, "range") {
		case 0:
			c.From = uint32(uniform(t, 34, "low-run")) * 2048
		case 1:
			c.From = uint32(bits(t, 13, "run")) * 2048
		default:
			c.From = uint32(bits(t, 32, "from"))
		}
		return c
	}, checkIDs)
}

// ---- validation ----

type validateCase struct {
	Dialects []string `json:"dialects"`
	Frame    Hex      `json:"frame"` // possibly truncated, possibly with more bytes after it
}

// genFrame draws a frame that is valid under the dialects or nearly so.
func genFrame(t *rapid.T, ds []string) []byte {
	var m *ref.Msg
	if len(ds) == 0 || uniform(t, 8, "foreign") == 0 {
		m = genMsg(t)
	} else {
		m = genMsg(t, ds...)
	}
	if r := ref.Find(ds, m.ID); r != nil && uniform(t, 8, "shadowed") != 0 {
		m = r
	}
	h := genHead(t, m.ID)
	hd := ref.Header{V: h.V, Seq: h.Seq, Sys: h.Sys, Comp: h.Comp, ID: m.ID}
	p := genBytes(t, m.Max, "payload")
	if h.V == 1 {
		p = p[:m.Min]
	} else {
		hd.Compat = byte(bits(t, 3, "compat"))
		switch uniform(t, 3, "length") {
		case 0:
			p = ref.Trim(p)
		case 1:
			p = p[:uniform(t, len(p)+1, "cut")]
		}
	}
	switch uniform(t, 8, "odd-length") {
	case 0:
		n := uniform(t, 256, "n")
		if uniform(t, 2, "near") == 0 {
			near := []int{m.Min, m.Max}[uniform(t, 2, "near-which")] + uniform(t, 5, "near-off") - 2
			n = min(255, max(0, near))
		}
		q := make([]byte, n)
		copy(q, p)
		p = q
	}
	var sig []byte
	if h.V == 2 && uniform(t, 5, "signed") == 0 {
		hd.Incompat = 1
		sig = genBytes(t, 13, "sig")
	}
	if h.V == 2 && uniform(t, 10, "odd-flags") == 0 {
		hd.Incompat |= byte(bits(t, 8, "incompat")) &^ 1
	}
	crc := m.CRC
	if uniform(t, 10, "other-crc") == 0 {
		crc = genMsg(t).CRC
	}
	f := ref.Build(hd, p, crc, sig)
	switch uniform(t, 12, "mutation") {
	case 0: // flip bits
		for k := 1 + uniform(t, 3, "flips"); k > 0; k-- {
			b := 8 + uniform(t, 8*len(f)-8, "flip")
			f[b/8] ^= 1 << (b % 8)
		}
	case 1: // wrong checksum, close by or simply swapped
		at := len(f) - 2 - len(sig)
		switch uniform(t, 4, "checksum") {
		case 0:
			f[at], f[at+1] = f[at+1], f[at]
		case 1:
			f[at] ^= byte(1 + uniform(t, 255, "x"))
		case 2:
			f[at+1] ^= byte(1 + uniform(t, 255, "x"))
		default:
			f[at], f[at+1] = 0, 0
		}
	case 2: // swap two bytes
		a, b := 1+uniform(t, len(f)-1, "a"), 1+uniform(t, len(f)-1, "b")
		f[a], f[b] = f[b], f[a]
	}
	return f
}

func Test_C05(t *testing.T) {
	s := NewSuite(t, "C05", false)
	check := func(c validateCase, i *Info) error {
		raw := clone(c.Frame)
		f, err := mavlink2.FrameFromBytes(raw, uint16(len(raw)), false)
		if err != nil {
			return fmt.Errorf("bytes %x: %v", raw, err)
		}
		err = dialects(c.Dialects).Validate(f)
		p, _, short := ref.Parse(c.Frame)
		if short {
			i.Label("incomplete")
			i.NonTrivial(true)
			if !errors.Is(err, mavlink2.ErrFrameTooShort) {
				return fmt.Errorf("incomplete frame %x under %v: %v", c.Frame, c.Dialects, err)
			}
			return nil
		}
		faults := ref.Faults(c.Dialects, c.Frame)
		i.Label("v%d", p.V)
		if len(faults) == 0 {
			i.Label("valid")
		}
		for _, x := range faults {
			i.Label("fault:%s", x)
		}
		if len(faults) != 1 || faults[0] != ref.Unknown {
			i.NonTrivial(true)
		}
		if err := checkVerdict(c.Dialects, c.Frame, err); err != nil {
			return err
		}
		return eqBytes("frame after validating", raw, c.Frame)
	}
	Phase(s, "validate", N(320000, 7200000), func(t *rapid.T) validateCase {
		c := validateCase{Dialects: genDialects(t)}
		if uniform(t, 20, "no-dialects") == 0 {
			c.Dialects = nil
		}
		if uniform(t, 12, "junk") == 0 {
			b := genBytes(t, 1+uniform(t, 300, "len"), "bytes")
			b[0] = 0xfd + byte(uniform(t, 2, "start"))
			c.Frame = b
			return c
		}
		f := genFrame(t, c.Dialects)
		switch uniform(t, 8, "ending") {
		case 0:
			f = f[:1+uniform(t, len(f), "cut")]
		case 1, 2:
			f = append(f, genBytes(t, uniform(t, 40, "more"), "more")...)
		}
		c.Frame = f
		return c
	}, check)
	RawPhase(s, "validate", func(b []byte) validateCase {
		b = append(b, make([]byte, max(0, 4-len(b)))...)
		c := validateCase{Dialects: rawDialects(b[0])}
		c.Frame = rawStream(c.Dialects, append([]byte{0xfd + b[1]&1}, b[3:]...), b[2])
		return c
	}, check)
}

type corruptCase struct {
	Dialects []string `json:"dialects"`
	Frame    Hex      `json:"frame"`
	Flips    []int    `json:"flips"` // bit positions in transmission order
	Kind     string   `json:"kind"`
}

func Test_C06(t *testing.T) {
	s := NewSuite(t, "C06", false)
	Phase(s, "corrupt", N(240000, 6000000), func(t *rapid.T) corruptCase {
		m := genMsg(t)
		c := corruptCase{Dialects: genDialectsFor(t, m)}
		h := genHead(t, m.ID)
		hd := ref.Header{V: h.V, Seq: h.Seq, Sys: h.Sys, Comp: h.Comp, ID: m.ID}
		p := genBytes(t, m.Max, "payload")
		var sig []byte
		first := 2 // first byte that may change
		if h.V == 1 {
			p = p[:m.Min]
		} else {
			first = 3
			p = ref.Trim(p)
			hd.Compat = byte(bits(t, 8, "compat"))
			if uniform(t, 4, "signed") == 0 {
				hd.Incompat, sig = 1, genBytes(t, 13, "sig")
			}
		}
		c.Frame = ref.Build(hd, p, m.CRC, sig)
		end := len(c.Frame) - len(sig)
		var free []int // bits outside length, flags, ID
		for by := first; by < end; by++ {
			if h.V == 1 && by == 5 || h.V == 2 && by >= 7 && by <= 9 {
				continue
			}
			for k := 0; k < 8; k++ {
				free = append(free, 8*by+k)
			}
		}
		inFree := func(b int) bool {
			by := b / 8
			return by >= first && by < end && !(h.V == 1 && by == 5) && !(h.V == 2 && by >= 7 && by <= 9)
		}
		pick := func(label string) int { return free[int(bits(t, 20, label))%len(free)] }
		flip := map[int]bool{}
		switch uniform(t, 4, "kind") {
		case 0:
			c.Kind = "burst"
			// up to 16 bits, within the covered part or within the checksum
			b := pick("start")
			lo, hi := 8*(end-2), 8*end
			if b < lo {
				lo, hi = 0, lo
			}
			flip[b] = true
			n := uniform(t, 16, "burst")
			for k, x := 1, bits(t, 15, "pattern"); k <= n; k, x = k+1, x>>1 {
				if x&1 == 1 && b+k >= lo && b+k < hi && inFree(b+k) {
					flip[b+k] = true
				}
			}
		case 1:
			c.Kind = "one"
			flip[pick("bit")] = true
		case 2:
			c.Kind = "two"
			flip[pick("bit")] = true
			flip[pick("bit")] = true
		default:
			c.Kind = "odd"
			for k := 0; k < 3+2*uniform(t, 4, "count"); k++ {
				flip[pick("bit")] = true
			}
			for len(flip)%2 == 0 {
				flip[pick("bit")] = true
			}
		}
		for _, b := range free {
			if flip[b] {
				c.Flips = append(c.Flips, b)
			}
		}
		return c
	}, func(c corruptCase, i *Info) error {
		i.Label("%s", c.Kind)
		i.NonTrivial(len(c.Flips) > 0)
		ds := dialects(c.Dialects)
		if err := ds.Validate(frameOf(clone(c.Frame))); err != nil {
			return fmt.Errorf("intact frame %x rejected: %v", c.Frame, err)
		}
		bad := clone(c.Frame)
		for _, b := range c.Flips {
			bad[b/8] ^= 1 << (b % 8)
		}
		if err := ds.Validate(frameOf(bad)); !errors.Is(err, mavlink2.ErrInvalidChecksum) {
			return fmt.Errorf("frame %x with bits %v flipped: %v, want the checksum error", c.Frame, c.Flips, err)
		}
		// bits that change, and change back, while a program holds the frame
		f := frameOf(bad)
		for k := range 3 {
			for _, b := range c.Flips {
				bad[b/8] ^= 1 << (b % 8)
			}
			if err := ds.Validate(f); k%2 == 0 && err != nil {
				return fmt.Errorf("frame %x with bits %v flipped and flipped back: %v", c.Frame, c.Flips, err)
			} else if k%2 == 1 && !errors.Is(err, mavlink2.ErrInvalidChecksum) {
				return fmt.Errorf("frame %x with bits %v flipped since it was validated: %v, want the checksum error", c.Frame, c.Flips, err)
			}
		}
		return nil
	})
	// every other value of the checksum, every single bit, every burst at one place
	Phase(s, "sweep", N(480, 20000), func(t *rapid.T) corruptCase {
		m := genMsg(t)
		c := corruptCase{Dialects: genDialectsFor(t, m), Kind: "sweep"}
		h := genHead(t, m.ID)
		hd := ref.Header{V: h.V, Seq: h.Seq, Sys: h.Sys, Comp: h.Comp, ID: m.ID}
		p := genBytes(t, m.Max, "payload")
		var sig []byte
		if h.V == 1 {
			p = p[:m.Min]
		} else {
			switch uniform(t, 4, "short") {
			case 0:
				p = nil
			case 1:
				p = p[:uniform(t, 1+min(m.Max, 12), "short-len")]
			}
			p = ref.Trim(p)
			hd.Compat = byte(bits(t, 8, "compat"))
			if uniform(t, 4, "signed") == 0 {
				hd.Incompat, sig = 1, genBytes(t, 13, "sig")
			}
		}
		c.Frame = ref.Build(hd, p, m.CRC, sig)
		return c
	}, func(c corruptCase, i *Info) error {
		i.NonTrivial(true)
		ds := dialects(c.Dialects)
		p, _, _ := ref.Parse(c.Frame)
		i.Label("sweep v%d, payload %d to %d", p.V, len(p.Payload)/64*64, len(p.Payload)/64*64+63)
		if err := ds.Validate(frameOf(clone(c.Frame))); err != nil {
			return fmt.Errorf("intact frame %x rejected: %v", c.Frame, err)
		}
		bad := clone(c.Frame)
		f := frameOf(bad)
		end := p.Total - len(p.Sig)
		reject := func(what string, a ...any) error {
			if err := ds.Validate(f); !errors.Is(err, mavlink2.ErrInvalidChecksum) {
				return fmt.Errorf("frame %x, %s, is %x: %v, want the checksum error", c.Frame, fmt.Sprintf(what, a...), bad, err)
			}
			return nil
		}
		if err := ds.Validate(f); err != nil {
			return fmt.Errorf("intact frame %x rejected: %v", bad, err)
		}
		for x := 1; x < 1<<16; x++ {
			bad[end-2], bad[end-1] = c.Frame[end-2]^byte(x), c.Frame[end-1]^byte(x>>8)
			if err := reject("checksum changed by %04x", x); err != nil {
				return err
			}
		}
		copy(bad, c.Frame)
		for by := 2; by < end-2; by++ {
			if p.V == 1 && by == 5 || p.V == 2 && (by == 2 || by >= 7 && by <= 9) {
				continue
			}
			for x := 1; x < 256; x++ {
				bad[by] = c.Frame[by] ^ byte(x)
				if err := reject("byte %d changed", by); err != nil {
					return err
				}
			}
			bad[by] = c.Frame[by]
		}
		return nil
	})
}

// ---- checksum ----

type crcOp struct {
	Op   string `json:"op"` // write, sum, reset
	Data Hex    `json:"data"`
	Cap  int    `json:"cap"`            // spare capacity of Data
	Nil  bool   `json:"nil,omitempty"`  // no slice at all; Data is empty
	Look bool   `json:"look,omitempty"` // compare the sum after this operation
	// the data that many times over, if more than 1
	Repeat int `json:"repeat,omitempty"`
}

func Test_C13(t *testing.T) {
	s := NewSuite(t, "C13", false)
	Phase(s, "history", N(120000, 2400000), func(t *rapid.T) []crcOp {
		ops := []crcOp{}
		look := uniform(t, 2, "look") == 1
		for k := 1 + uniform(t, 12, "ops"); k > 0; k-- {
			o := crcOp{Op: []string{"write", "write", "write", "sum", "sum", "reset"}[uniform(t, 6, "op")]}
			if o.Op != "reset" {
				n := uniform(t, 9, "len")
				if uniform(t, 6, "long") == 0 {
					n = uniform(t, 700, "len")
				}
				o.Data = genBytes(t, n, "data")
				o.Cap = uniform(t, 4, "cap")
				if uniform(t, 12, "nil") == 0 {
					o.Data, o.Nil = nil, true
				}
				if o.Op == "write" && uniform(t, 500, "huge") == 0 {
					o.Repeat = 1 + uniform(t, 70000<<uniform(t, 5, "larger"), "times")/(1+n)
				}
			}
			o.Look = look
			ops = append(ops, o)
		}
		return ops
	}, func(ops []crcOp, i *Info) error {
		var h mavlink2.X25CRC
		h.Reset()
		var sofar []byte
		writes := 0
		for k, o := range ops {
			if o.Repeat > 1 {
				o.Data = bytes.Repeat(o.Data, o.Repeat)
			}
			if len(o.Data) > 1<<15 {
				i.Label("huge")
			}
			data := append(make([]byte, 0, len(o.Data)+o.Cap), o.Data...)
			if o.Nil {
				data = nil
			}
			switch o.Op {
			case "write":
				n, err := h.Write(data)
				if n != len(data) || err != nil {
					return fmt.Errorf("op %d: writing %d bytes returned %d, %v", k, len(data), n, err)
				}
				sofar = append(sofar, data...)
				if len(data) > 0 {
					writes++
				}
			case "sum":
				got := h.Sum(data)
				c := ref.CRC(sofar)
				if err := eqBytes(fmt.Sprintf("op %d: sum after %x", k, sofar), got, append(clone(o.Data), byte(c), byte(c>>8))); err != nil {
					return err
				}
			case "reset":
				h.Reset()
				sofar = nil
			}
			if err := eqBytes(fmt.Sprintf("op %d: argument of %s afterwards", k, o.Op), data, o.Data); err != nil {
				return err
			}
			if h.Size() != 2 {
				return fmt.Errorf("size is %d", h.Size())
			}
			// looking at the sum after every step changes nothing either, nor does not looking
			if !o.Look && k < len(ops)-1 {
				continue
			}
			c := ref.CRC(sofar)
			if err := eqBytes(fmt.Sprintf("op %d (%s): sum after %x", k, o.Op, sofar), h.Sum(nil), []byte{byte(c), byte(c >> 8)}); err != nil {
				return err
			}
		}
		i.Label("writes=%d", min(writes, 4))
		i.NonTrivial(writes > 1)
		return nil
	})
}

// ---- frames ----

func Test_C16(t *testing.T) {
	s := NewSuite(t, "C16", false)
	Phase(s, "accessors", N(200000, 3600000), func(t *rapid.T) Hex {
		var b []byte
		if uniform(t, 3, "real") == 0 {
			b = genFrame(t, pkgs)
		} else {
			n := uniform(t, 256, "len")
			if uniform(t, 3, "len-kind") == 0 {
				n = []int{0, 1, 2, 127, 128, 243, 244, 254, 255}[uniform(t, 9, "len")]
			}
			b = genBytes(t, n+25, "bytes")
			b[0] = 0xfd + byte(uniform(t, 2, "start"))
			b[1] = byte(n)
		}
		p, _, short := ref.Parse(b)
		if short {
			b = append(b, make([]byte, 280)...)
			p, _, _ = ref.Parse(b)
		}
		return b[:p.Total]
	}, func(raw Hex, i *Info) error {
		p, _, _ := ref.Parse(raw)
		f, err := mavlink2.FrameFromBytes(clone(raw), uint16(len(raw)), true)
		if err != nil {
			return fmt.Errorf("frame %x: %v", raw, err)
		}
		i.Label("v%d", p.V)
		i.NonTrivial(p.Len > 0)
		type cmp struct {
			what      string
			got, want any
		}
		cs := []cmp{
			{"version", f.GetVersion(), p.V},
			{"message length", f.GetMessageLength(), uint(p.Len)},
			{"sequence", f.GetMessageSequence(), uint(p.Seq)},
			{"system ID", f.GetSenderSystemID(), p.Sys},
			{"component ID", f.GetSenderComponentID(), p.Comp},
			{"message ID", f.GetMessageID(), p.ID},
			{"checksum", f.GetChecksum(), p.Checksum},
			{"payload", fmt.Sprintf("%x", f.GetMessageBytes()), fmt.Sprintf("%x", p.Payload)},
			{"checksum input", fmt.Sprintf("%x", f.GetChecksumInput()), fmt.Sprintf("%x", p.Covered)},
			{"bytes", fmt.Sprintf("%x", f.Bytes()), fmt.Sprintf("%x", []byte(raw))},
		}
		lines := [][2]string{{"Version", fmt.Sprint(p.V)}, {"MessageLength", fmt.Sprint(p.Len)}, {"SenderSystemID", fmt.Sprint(p.Sys)},
			{"SenderComponentID", fmt.Sprint(p.Comp)}, {"MessageID", fmt.Sprint(p.ID)}}
		if p.V == 2 {
			f2, ok := f.(mavlink2.FrameV2)
			if !ok {
				return fmt.Errorf("frame %x is %T", raw, f)
			}
			cs = append(cs, cmp{"incompatibility flags", f2.GetIncompatibilityFlags(), p.Incompat},
				cmp{"compatibility flags", f2.GetCompatibilityFlags(), p.Compat},
				cmp{"signature", fmt.Sprintf("%x", f2.GetSignature()), fmt.Sprintf("%x", p.Sig)},
				cmp{"signed", f2.GetSignature() != nil, p.Incompat&1 == 1})
			lines = append(lines, [2]string{"IncompatibilityFlags", fmt.Sprint(p.Incompat)}, [2]string{"CompatibilityFlags", fmt.Sprint(p.Compat)},
				[2]string{"Checksum", fmt.Sprintf("0x%x", p.Checksum)}, [2]string{"Signed", fmt.Sprint(p.Sig != nil)})
			if p.Sig != nil {
				i.Label("signed")
				lines = append(lines, [2]string{"Signature", fmt.Sprintf("%x", p.Sig)})
			}
			if p.Compat&1 == 1 {
				i.Label("compat-bit-0")
			}
		} else if _, ok := f.(mavlink2.FrameV1); !ok {
			return fmt.Errorf("frame %x is %T", raw, f)
		} else {
			lines = append(lines, [2]string{"Checksum", fmt.Sprint(p.Checksum)})
		}
		for _, c := range cs {
			if c.got != c.want {
				return fmt.Errorf("frame %x: %s is %v, want %v", raw, c.what, c.got, c.want)
			}
		}
		str, ok := f.(fmt.Stringer)
		if !ok {
			return fmt.Errorf("%T has no String method", f)
		}
		if err := checkLines(str.String(), lines); err != nil {
			return fmt.Errorf("frame %x: %v", raw, err)
		}
		if p.Sig == nil && strings.Contains(str.String(), "Signature:") {
			return fmt.Errorf("frame %x has no signature but renders as %q", raw, str.String())
		}
		return eqBytes("frame afterwards", f.Bytes(), raw)
	})
}

// ---- hostile bytes ----

type hostileCase struct {
	Dialects []string `json:"dialects"`
	Bytes    Hex      `json:"bytes"`
	N        uint16   `json:"n"` // length argument
	Copy     bool     `json:"copy"`
}

func Test_C18(t *testing.T) {
	s := NewSuite(t, "C18", false)
	check := func(c hostileCase, i *Info) error {
		raw := clone(c.Bytes)
		f, err := mavlink2.FrameFromBytes(raw, c.N, c.Copy)
		start := len(raw) > 0 && (raw[0] == 0xfd || raw[0] == 0xfe)
		switch {
		case len(raw) == 0 || c.Copy && int(c.N) > len(raw):
			i.Label("too-short")
			// with a wrong start byte as well, either reason is right
			if !errors.Is(err, mavlink2.ErrFrameTooShort) && (len(raw) == 0 || start || !errors.Is(err, mavlink2.ErrUnknownStartByte)) {
				return fmt.Errorf("a frame of %d bytes from %d bytes %x: %v, want the too-short error", c.N, len(raw), raw, err)
			}
		case !start:
			i.Label("bad-start")
			if !errors.Is(err, mavlink2.ErrUnknownStartByte) {
				return fmt.Errorf("a frame starting with %#x: %v", raw[0], err)
			}
		case err != nil:
			return fmt.Errorf("a frame of %d bytes from %x: %v", c.N, raw, err)
		}
		if err != nil {
			if f != nil {
				return fmt.Errorf("bytes %x: a frame along with error %v", raw, err)
			}
			return nil
		}
		want := raw
		if c.Copy {
			want = raw[:c.N]
		}
		if err := eqBytes("frame", f.Bytes(), want); err != nil {
			return err
		}
		if len(want) == 0 {
			i.Label("empty-copy")
		}
		ds := dialects(c.Dialects)
		verr := ds.Validate(f)
		msg, merr := ds.GetMessage(f)
		short := true
		if len(want) > 0 {
			_, _, short = ref.Parse(want)
		}
		i.NonTrivial(true)
		if short {
			i.Label("incomplete-frame")
			if !errors.Is(verr, mavlink2.ErrFrameTooShort) || !errors.Is(merr, mavlink2.ErrFrameTooShort) {
				return fmt.Errorf("incomplete frame %x: validating says %v, decoding %v", want, verr, merr)
			}
			if msg != nil {
				return fmt.Errorf("incomplete frame %x decodes as %T", want, msg)
			}
			return nil
		}
		i.Label("complete-frame")
		if err := checkVerdict(c.Dialects, want, verr); err != nil {
			return err
		}
		// a complete frame of a known message decodes even when it is not valid (streams can
		// hand such frames out); whatever comes out is safe to use
		if msg != nil {
			if merr == nil {
				i.Label("decoded")
			}
			if str, ok := msg.(fmt.Stringer); ok {
				if strings.Contains(str.String(), "%!") {
					return fmt.Errorf("frame %x renders as %q", want, str.String())
				}
			}
			_ = fmt.Sprint(f)
			if e, ok := msg.(v2ext); ok && merr == nil {
				i.Label("variable-length")
				if n := len(e.GetPayload()); n > 249 {
					return fmt.Errorf("payload of %d bytes", n)
				}
			}
			for v := 1; v <= 2; v++ {
				ds.GetFrame(v, 1, 1, 1, msg)
			}
		}
		return nil
	}
	Phase(s, "hostile", N(320000, 7200000), func(t *rapid.T) hostileCase {
		c := hostileCase{Dialects: genDialects(t), Copy: uniform(t, 2, "copy") == 1}
		var b []byte
		switch uniform(t, 4, "kind") {
		case 0:
			b = genBytes(t, uniform(t, 300, "len"), "bytes")
		case 1:
			b = genBytes(t, 1+uniform(t, 30, "len"), "bytes")
			b[0] = 0xfd + byte(uniform(t, 2, "start"))
		default: // a frame with a lying header, or cut
			b = genFrame(t, c.Dialects)
			if k := uniform(t, 4, "lie"); k == 0 {
				b[1] = byte(bits(t, 8, "length"))
			} else if k == 1 {
				b[2] ^= 1
			} else if k == 2 {
				// a known message of an unexpected length, 248 in particular
				b[1] = byte(249 + uniform(t, 7, "length"))
				id := genMsg(t).ID
				if uniform(t, 2, "which") == 0 {
					id = 248
				}
				b = append(b, genBytes(t, 300, "fill")...)
				if b[0] == 0xfe {
					b[5] = byte(id)
				} else {
					b[7], b[8], b[9] = byte(id), byte(id>>8), byte(id>>16)
				}
			}
			if uniform(t, 2, "whole") == 0 {
				b = b[:uniform(t, len(b)+1, "cut")]
			}
		}
		c.Bytes = b
		switch uniform(t, 4, "n-kind") {
		case 0:
			c.N = uint16(bits(t, 16, "n"))
		case 1:
			c.N = uint16(uniform(t, len(b)+2, "n"))
		default:
			c.N = uint16(len(b))
		}
		return c
	}, check)
	RawPhase(s, "hostile", func(b []byte) hostileCase {
		b = append(b, make([]byte, max(0, 5-len(b)))...)
		c := hostileCase{Dialects: rawDialects(b[0]), Copy: b[1]&1 == 1}
		c.Bytes = rawStream(c.Dialects, b[4:], b[2])
		c.N = uint16(len(c.Bytes))
		if b[1]&2 != 0 {
			c.N = uint16(b[3]) | uint16(b[1])>>2<<8
		}
		return c
	}, check)
}

// ---- dialect order ----

// stubDialect is a dialect made up by a case.
type stubDialect struct {
	k    int
	ids  map[uint32]string // known, error, wrapped-unknown
	meta map[uint32]mavlink2.MessageMeta
	junk bool // errors come along with values that mean nothing
}

var stubErrs = []error{errors.New("stub failed"), io.ErrUnexpectedEOF}

func (d *stubDialect) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	switch d.ids[id] {
	case "known":
		return d.meta[id], nil
	case "error":
		return d.junkMeta(), stubErrs[d.k%2]
	}
	return d.junkMeta(), mavlink2.ErrUnknownMessage
}

func (d *stubDialect) junkMeta() (m mavlink2.MessageMeta) {
	if d.junk {
		m = mavlink2.MessageMeta{CRCExtra: byte(d.k), MinimumLength: 3, MaximumLength: 30}
	}
	return
}

func (d *stubDialect) junkMessage(id uint32) mavlink2.Message {
	if d.junk {
		return &stubMessage{dialect: d.k, id: id, raw: []byte{1}}
	}
	return nil
}

type stubMessage struct {
	dialect int
	id      uint32
	raw     []byte
	fail    error
	lend    bool // gives away its own memory
}

func (m *stubMessage) GetVersion() int        { return 1 }
func (m *stubMessage) GetDialect() string     { return fmt.Sprint("stub", m.dialect) }
func (m *stubMessage) GetMessageName() string { return "Stub" }
func (m *stubMessage) GetID() uint32          { return m.id }
func (m *stubMessage) Read(f mavlink2.Frame) error {
	m.raw = clone(f.GetMessageBytes())
	return nil
}
func (m *stubMessage) Write(int) ([]byte, error) {
	if m.fail != nil {
		return m.raw, m.fail // along with what it has written so far
	}
	if m.lend {
		return m.raw, nil
	}
	return clone(m.raw), nil
}

func (d *stubDialect) GetMessage(f mavlink2.Frame) (mavlink2.Message, error) {
	switch d.ids[f.GetMessageID()] {
	case "known":
		m := &stubMessage{dialect: d.k, id: f.GetMessageID()}
		return m, m.Read(f)
	case "error":
		return d.junkMessage(f.GetMessageID()), stubErrs[d.k%2]
	}
	return d.junkMessage(f.GetMessageID()), mavlink2.ErrUnknownMessage
}

type orderEntry struct {
	Pkg   string            `json:"pkg,omitempty"` // a real dialect, or
	Kinds map[uint32]string `json:"kinds,omitempty"`
	CRCs  map[uint32]byte   `json:"crcs,omitempty"`
	Min   int               `json:"min,omitempty"`
	Max   *int              `json:"max,omitempty"` // nil: 255
	Junk  bool              `json:"junk,omitempty"`
}

func (e orderEntry) limits() (int, int) {
	if e.Max == nil {
		return e.Min, 255
	}
	return e.Min, *e.Max
}

type orderCase struct {
	Order   []orderEntry `json:"order"`
	V       int          `json:"v"`
	ID      uint32       `json:"id"`
	Payload Hex          `json:"payload"`
	By      int          `json:"by"` // whose checksum the frame carries
}

func Test_C20(t *testing.T) {
	s := NewSuite(t, "C20", false)
	Phase(s, "order", N(120000, 2400000), func(t *rapid.T) orderCase {
		// IDs several dialects define differently, and free ones
		shared := []uint32{150, 151, 152, 170, 172, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 188, 191, 192, 193, 201, 202, 0, 1, 999, 10001, 8000}
		c := orderCase{ID: shared[uniform(t, len(shared), "id")], V: 2}
		if c.ID < 256 {
			c.V = 1 + uniform(t, 2, "v")
		}
		n := uniform(t, 7, "n")
		if uniform(t, 12, "long-list") == 0 { // most of it does not know the message
			for lead := uniform(t, 80, "lead"); lead > 0; lead-- {
				c.Order = append(c.Order, orderEntry{Kinds: map[uint32]string{}, CRCs: map[uint32]byte{}})
			}
		}
		for range n {
			if uniform(t, 2, "real") == 0 {
				from := pkgs
				if uniform(t, 2, "definer") == 0 {
					from = nil
					for _, p := range pkgs {
						if ref.ByDialect[p][c.ID] != nil {
							from = append(from, p)
						}
					}
				}
				if len(from) == 0 {
					from = pkgs
				}
				c.Order = append(c.Order, orderEntry{Pkg: from[uniform(t, len(from), "pkg")]})
				continue
			}
			e := orderEntry{Kinds: map[uint32]string{}, CRCs: map[uint32]byte{}}
			if kind := []string{"unknown", "unknown", "known", "known", "error"}[uniform(t, 5, "kind")]; kind != "unknown" {
				e.Kinds[c.ID] = kind
				e.CRCs[c.ID] = byte(bits(t, 8, "crc"))
				if uniform(t, 3, "limits") == 0 {
					hi := uniform(t, 61, "max")
					if uniform(t, 3, "no-max") == 0 {
						hi = 0
					}
					e.Min, e.Max = uniform(t, hi+1, "min"), &hi
				}
				if uniform(t, 4, "no-crc") == 0 {
					e.CRCs[c.ID] = 0
				}
			}
			e.Junk = uniform(t, 4, "junk") == 0
			c.Order = append(c.Order, e)
		}
		c.Payload = genBytes(t, uniform(t, 60, "len"), "payload")
		if uniform(t, 8, "no-payload") == 0 {
			c.Payload = nil
		}
		c.By = uniform(t, n+1, "by") + len(c.Order) - n
		return c
	}, func(c orderCase, i *Info) error {
		var ds mavlink2.Dialects
		// the first entry that does not call the message unknown decides
		decider := -1
		definers := 0
		crcOf := func(k int) (byte, bool) {
			if k >= len(c.Order) {
				return 0, false
			}
			e := c.Order[k]
			if e.Pkg != "" {
				if m := ref.ByDialect[e.Pkg][c.ID]; m != nil {
					return m.CRC, true
				}
				return 0, false
			}
			return e.CRCs[c.ID], e.Kinds[c.ID] == "known"
		}
		for k, e := range c.Order {
			hit := false
			if e.Pkg != "" {
				ds = append(ds, libDialects[e.Pkg])
				hit = ref.ByDialect[e.Pkg][c.ID] != nil
			} else {
				d := &stubDialect{k: k, ids: e.Kinds, meta: map[uint32]mavlink2.MessageMeta{}, junk: e.Junk}
				lo, hi := e.limits()
				for id, crc := range e.CRCs {
					d.meta[id] = mavlink2.MessageMeta{CRCExtra: crc, MinimumLength: uint(lo), MaximumLength: uint(hi)}
				}
				ds = append(ds, d)
				hit = e.Kinds[c.ID] != ""
			}
			if hit {
				definers++
				if decider < 0 {
					decider = k
				}
			}
		}
		i.NonTrivial(definers > 1)
		i.Label("definers=%d", definers)
		if decider >= 16 {
			i.Label("far-down-the-list")
		}
		crc, _ := crcOf(c.By)
		raw := ref.Build(ref.Header{V: c.V, ID: c.ID}, c.Payload, crc, nil)
		f := frameOf(raw)
		msg, gerr := ds.GetMessage(f)
		verr := ds.Validate(f)
		out := &stubMessage{id: c.ID, raw: c.Payload}
		fr, ferr := ds.GetFrame(c.V, 1, 2, 3, out)
		if decider < 0 {
			i.Label("unknown")
			u, ok := msg.(*mavlink2.UnknownMessage)
			if !errors.Is(gerr, mavlink2.ErrUnknownMessage) || !errors.Is(verr, mavlink2.ErrUnknownMessage) || !errors.Is(ferr, mavlink2.ErrUnknownMessage) || !ok || fr != nil {
				return fmt.Errorf("unknown message: decoding %T %v, validating %v, framing %v", msg, gerr, verr, ferr)
			}
			return eqBytes("unknown message", u.Raw, c.Payload)
		}
		e := c.Order[decider]
		if e.Pkg == "" && e.Kinds[c.ID] == "error" {
			i.Label("dialect-error")
			want := stubErrs[decider%2]
			if !errors.Is(gerr, want) || !errors.Is(verr, want) || !errors.Is(ferr, want) || fr != nil {
				return fmt.Errorf("dialect %d failed with %q: decoding reported %v, validating %v, framing %v", decider, want, gerr, verr, ferr)
			}
			return nil
		}
		wantCRC, _ := crcOf(decider)
		if gerr != nil || msg == nil {
			return fmt.Errorf("decoding reported %v", gerr)
		}
		minL, maxL := e.limits()
		if e.Pkg == "" {
			i.Label("stub-decides")
			if msg.GetDialect() != fmt.Sprint("stub", decider) {
				return fmt.Errorf("message decoded by %s, want dialect %d", msg.GetDialect(), decider)
			}
		} else {
			i.Label("real-decides")
			m := ref.ByDialect[e.Pkg][c.ID]
			minL, maxL = m.Min, m.Max
			if err := checkIdentity(m, msg); err != nil {
				return fmt.Errorf("dialect %d decides: %v", decider, err)
			}
		}
		if ferr != nil || fr == nil {
			return fmt.Errorf("framing reported %v", ferr)
		}
		if err := eqBytes("frame", fr.Bytes(), ref.Build(ref.Header{V: c.V, ID: c.ID, Seq: 3, Sys: 1, Comp: 2}, c.Payload, wantCRC, nil)); err != nil {
			return err
		}
		var faults []error
		if c.V == 1 && len(c.Payload) < minL {
			faults = append(faults, mavlink2.ErrMessageTooShort)
		}
		if len(c.Payload) > maxL {
			faults = append(faults, mavlink2.ErrMessageTooLong)
		}
		if crc != wantCRC {
			faults = append(faults, mavlink2.ErrInvalidChecksum)
		}
		if len(faults) == 0 {
			if verr != nil {
				return fmt.Errorf("frame %x, dialect %d decides: %v", raw, decider, verr)
			}
			return nil
		}
		for _, x := range faults {
			if errors.Is(verr, x) {
				return nil
			}
		}
		return fmt.Errorf("frame %x, dialect %d decides: %v, want one of %v", raw, decider, verr, faults)
	})
}
