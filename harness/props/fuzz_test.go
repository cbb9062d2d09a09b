package props

import (
	"encoding/binary"
	"os"
	"strings"
	"testing"

	"verif/harness/ref"
)

// Coverage-guided fuzzing (thorough tier only) drives the same generators and checkers as the
// random runs: the fuzzer's bytes replace the random bits a generator draws. A failing case is
// recorded as plain data, so its replay needs no fuzzing.
type fuzzing struct {
	property, phase string
	data            []byte
	at              int
}

// fuzz is set while fuzzing.
var fuzz *fuzzing

// bit takes the next bit of the fuzzer's bytes; behind them are zeros.
func (z *fuzzing) bit() (b uint64) {
	if z.at < 8*len(z.data) {
		b = uint64(z.data[z.at/8]>>(z.at%8)) & 1
	}
	z.at++
	return b
}

// RawPhase says how the fuzzer's bytes make a case of a phase. In fuzzing with the phase's name
// and "-raw", cases are made that way.
func RawPhase[C any](s *Suite, phase string, make func([]byte) C, check func(C, *Info) error) {
	if fuzz == nil {
		if replay == nil {
			s.st.Labels["phase:"+phase+"-raw"] += 0
		}
		return
	}
	if fuzz.property != s.id || fuzz.phase != phase+"-raw" {
		return
	}
	c := make(fuzz.data)
	if err := s.run(phase, c, func(i *Info) error { return check(c, i) }, &Info{}); err != nil {
		writeFail(os.Getenv("VERIF_FAIL"), s.id, phase, "fail", err.Error(), c)
		s.t.Fatalf("%s/%s: %v", s.id, phase, err)
	}
}

// rawDialects takes dialects from a byte.
func rawDialects(b byte) []string {
	switch b & 7 {
	case 0, 1, 2, 3:
		return []string{"common"}
	case 4, 5:
		return []string{"ardupilotmega", "common"}
	case 6:
		return []string{"common", pkgs[int(b>>3)%len(pkgs)]}
	}
	return pkgs[int(b>>3)%len(pkgs):]
}

// rawStream gives the fuzzer the checksums it could never guess: those of the candidates which
// the mask selects are put right.
func rawStream(ds []string, stream []byte, mask byte) []byte {
	out := clone(stream)
	k := 0
	for at := 0; at < len(out); at++ {
		p, ok, short := ref.Parse(out[at:])
		if !ok || short {
			continue
		}
		m := ref.Find(ds, p.ID)
		if m == nil {
			continue
		}
		k++
		if mask>>(k%8)&1 == 0 {
			continue
		}
		n := len(p.Payload) + 6
		if p.V == 2 {
			n += 4
		}
		crc := ref.CRC(append(clone(out[at+1:at+n]), m.CRC))
		binary.LittleEndian.PutUint16(out[at+n:], crc)
		at += n + 1 + len(p.Sig)
	}
	return out
}

func rawRead(b []byte, invalid bool) readCase {
	b = append(b, make([]byte, max(0, 6-len(b)))...)
	c := readCase{Dialects: rawDialects(b[0]), Invalid: invalid, End: "eof", Chunks: []int{}}
	if b[1]&1 != 0 {
		c.End = "error"
	}
	c.EndWith, c.EndOnce = b[1]&2 != 0, b[1]&4 != 0
	for _, n := range b[2:4] {
		if n > 0 {
			c.Chunks = append(c.Chunks, int(n)*(1+int(b[1]>>5)))
		}
	}
	c.Stream = rawStream(c.Dialects, b[5:], b[4])
	return c
}

var allTests = map[string]func(*testing.T){
	"C01": Test_C01,
	"C02": Test_C02,
	"C03": Test_C03,
	"C04": Test_C04,
	"C05": Test_C05,
	"C06": Test_C06,
	"C07": Test_C07,
	"C08": Test_C08,
	"C09": Test_C09,
	"C10": Test_C10,
	"C11": Test_C11,
	"C12": Test_C12,
	"C13": Test_C13,
	"C14": Test_C14,
	"C15": Test_C15,
	"C16": Test_C16,
	"C17": Test_C17,
	"C18": Test_C18,
	"C19": Test_C19,
	"C20": Test_C20,
	"C21": Test_C21,
	"C22": Test_C22,
	"C23": Test_C23,
	"C24": Test_C24,
	"C25": Test_C25,
	"C26": Test_C26,
	"C27": Test_C27,
	"C28": Test_C28,
	"C29": Test_C29,
	"C30": Test_C30,
	"C31": Test_C31,
	"C32": Test_C32,
	"C33": Test_C33,
}

func Fuzz_Phase(f *testing.F) {
	target := os.Getenv("VERIF_FUZZ")
	if target == "" {
		f.Skip("no VERIF_FUZZ")
	}
	z := &fuzzing{}
	z.property, z.phase, _ = strings.Cut(target, "/")
	test := allTests[z.property]
	if test == nil {
		f.Fatal("no such property: ", target)
	}
	for k := range 200 {
		b := make([]byte, 16+k*8)
		expand(b, seedFor(target, k))
		if k%4 == 3 { // what raw cases look like
			for j := 0; j+12 < len(b); j += 24 {
				b[j+6] = byte(0xfd + j/24%2)
				b[j+7] %= 12
				binary.LittleEndian.PutUint16(b[j+8:], 0)
			}
		}
		f.Add(b)
	}
	fuzz = z
	f.Fuzz(func(t *testing.T, data []byte) {
		if len(data) > 4096 {
			return
		}
		z.data, z.at = data, 0
		test(t)
	})
}
