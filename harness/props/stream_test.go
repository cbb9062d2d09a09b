package props

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime/debug"
	"slices"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/util"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// transport is an in-memory io.ReadWriteCloser whose every move the test decides.
type transport struct {
	mu    sync.Mutex
	cond  *sync.Cond
	inbox []byte
	// chunks are the sizes reads return, over and over; empty: as much as fits
	chunks  []int
	next    int
	endErr  error         // what reads return once the inbox is empty
	endWith bool          // return endErr together with the last bytes
	lag     time.Duration // every read and write takes that long
	endOnce bool          // endErr is given once without bytes; whoever reads on gets errAfter
	ended   bool

	writes   [][]byte // accepted
	attempts int
	failAt   int // attempt that fails, counted from 1; 0: none
	failErr  error
	failN    int // how many bytes the failing write claims
	stalled  bool
	onWrite  func([]byte)

	closed  bool
	closes  int
	onClose func()

	closeErr error // what Close returns
}

func newTransport() *transport {
	t := &transport{}
	t.cond = sync.NewCond(&t.mu)
	return t
}

func (t *transport) feed(b []byte) {
	t.mu.Lock()
	t.inbox = append(t.inbox, b...)
	t.cond.Broadcast()
	t.mu.Unlock()
}

func (t *transport) end(err error, with bool) {
	t.mu.Lock()
	t.endErr, t.endWith = err, with
	t.cond.Broadcast()
	t.mu.Unlock()
}

func (t *transport) set(f func()) {
	t.mu.Lock()
	f()
	t.cond.Broadcast()
	t.mu.Unlock()
}

func (t *transport) Read(p []byte) (int, error) {
	if t.lag > 0 {
		time.Sleep(t.lag)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	for len(t.inbox) == 0 && t.endErr == nil && !t.closed {
		t.cond.Wait()
	}
	if t.closed {
		return 0, io.ErrClosedPipe
	}
	if len(t.inbox) == 0 {
		if t.endOnce && t.ended {
			return 0, errAfter
		}
		t.ended = true
		return 0, t.endErr
	}
	n := min(len(p), len(t.inbox))
	if len(t.chunks) > 0 { // a size of 0: a read that returns nothing, which readers must bear
		n = min(n, t.chunks[t.next%len(t.chunks)])
		t.next++
	}
	copy(p, t.inbox[:n])
	// scribble over the rest of the caller's buffer: a reader may use it as scratch space
	for i := n; i < len(p) && i < n+64; i++ {
		p[i] = 0xfd
	}
	t.inbox = t.inbox[n:]
	if len(t.inbox) == 0 && t.endErr != nil && t.endWith {
		// as io.Reader has it, the next read says so again: an error that came with enough
		// bytes may be passed over (io.ReadAtLeast does)
		return n, t.endErr
	}
	return n, nil
}

func (t *transport) Write(p []byte) (int, error) {
	if t.lag > 0 {
		time.Sleep(t.lag)
	}
	n, err := t.write(p)
	if err == nil && t.onWrite != nil {
		t.onWrite(clone(p)) // may lock the other transport
	}
	return n, err
}

func (t *transport) write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for t.stalled && !t.closed {
		t.cond.Wait()
	}
	if t.closed {
		return 0, io.ErrClosedPipe
	}
	t.attempts++
	if t.attempts == t.failAt {
		return min(t.failN, len(p)), t.failErr
	}
	t.writes = append(t.writes, clone(p))
	return len(p), nil
}

func (t *transport) Close() error {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.closes++
	t.closed = true
	t.cond.Broadcast()
	if t.onClose != nil {
		t.onClose()
	}
	return t.closeErr
}

// group runs goroutines of a case and keeps the first panic.
type group struct {
	wg  sync.WaitGroup
	mu  sync.Mutex
	err error
}

func (g *group) fail(err error) {
	g.mu.Lock()
	if g.err == nil {
		g.err = err
	}
	g.mu.Unlock()
}

func (g *group) failed() error {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.err
}

func (g *group) Go(f func()) {
	g.wg.Add(1)
	go func() {
		defer g.wg.Done()
		defer func() {
			if r := recover(); r != nil {
				g.fail(fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack())))
			}
		}()
		f()
	}()
}

// bubble runs f under synctest: time is virtual, and goroutines that can never go on, or
// outlive f, are an error.
func bubble(t *testing.T, f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if err == nil {
				err = fmt.Errorf("goroutines left blocked: %v", r)
			}
		}
	}()
	synctest.Test(t, func(*testing.T) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		err = f()
	})
	return err
}

type recorder struct {
	mu      sync.Mutex
	read    [][]byte
	written [][]byte
	err     error
}

func (r *recorder) LogRead(b []byte) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.read = append(r.read, clone(b))
	return r.err
}

func (r *recorder) LogWritten(b []byte) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.written = append(r.written, clone(b))
	return r.err
}

// ---- reading ----

type readCase struct {
	Dialects []string `json:"dialects"`
	Stream   Hex      `json:"stream"`
	Chunks   []int    `json:"chunks"`
	End      string   `json:"end"`           // eof, error
	Err      string   `json:"err,omitempty"` // kind of error
	EndWith  bool     `json:"end_with"`
	EndOnce  bool     `json:"end_once"`
	Invalid  bool     `json:"invalid"`
	LogErr   bool     `json:"log_err"`
	Lag      int      `json:"lag,omitempty"`    // ms every read takes
	Pause    int      `json:"pause,omitempty"`  // ms the consumer rests after each frame
	Repeat   int      `json:"repeat,omitempty"` // the stream that many times over, if more than 1
	Many     *many    `json:"many,omitempty"`   // frames behind the stream, before it is repeated
	Sends    int      `json:"sends,omitempty"`  // frames sent meanwhile; 0: no write loop, -1: no write channel either

	stopAfter int // the consumer closes the stream at that frame; 0: never
}

func (c readCase) bytes() []byte {
	return bytes.Repeat(append(clone(c.Stream), c.Many.bytes()...), max(1, c.Repeat))
}

// many is a great number of small frames, all different.
type many struct {
	N    int  `json:"n"`
	V    int  `json:"v"`    // 0: both versions in turn
	Bad  int  `json:"bad"`  // every Bad-th is damaged; 0: none
	Gap  int  `json:"gap"`  // noise between frames
	Turn bool `json:"turn"` // system and component IDs change instead of sequence numbers
}

func (m *many) frame(k int) []byte {
	v := m.V
	if v == 0 {
		v = 1 + (k+k>>16)%2 // the same system and component once more, in the other version
	}
	def := ref.ByDialect["common"][0]
	h := ref.Header{V: v, Seq: byte(k), Sys: byte(k >> 8), Comp: byte(k >> 16)}
	if m.Turn {
		h.Seq, h.Sys, h.Comp = byte(k>>16), byte(k), byte(k>>8)
	}
	p := make([]byte, def.Min)
	p[0], p[1], p[2], p[4] = byte(k), byte(k>>8), byte(k>>16), 1
	if v == 2 {
		p = p[:5]
	}
	b := ref.Build(h, p, def.CRC, nil)
	if m.Bad > 0 && k%m.Bad == m.Bad-1 {
		b[len(b)-1] ^= 0x10
	}
	return b
}

func (m *many) bytes() (out []byte) {
	if m == nil {
		return nil
	}
	for k := range m.N {
		out = append(out, make([]byte, m.Gap)...)
		out = append(out, m.frame(k)...)
	}
	return out
}

func (m *many) frames() (out []Hex) {
	if m == nil {
		return nil
	}
	for k := range m.N {
		out = append(out, m.frame(k))
	}
	return out
}

// genMany draws counts around the places where small counters and tables end.
func genMany(t *rapid.T) *many {
	m := &many{V: uniform(t, 3, "v"), Gap: uniform(t, 3, "gap") * uniform(t, 4, "gap-n"), Turn: uniform(t, 2, "turn") == 1}
	switch uniform(t, 4, "many") {
	case 0:
		m.N = 250 + uniform(t, 1000, "n")
	case 1:
		m.N = 1000 + uniform(t, 20000, "n")
	default:
		m.N = 65500 + uniform(t, 5000, "n")
	}
	if uniform(t, 3, "bad") > 0 {
		m.Bad = 1 + uniform(t, 9, "bad-n")
	}
	return m
}

// genLong draws a stream of very many frames.
func genLong(t *rapid.T, invalid bool) readCase {
	c := readCase{Dialects: []string{"common"}, Invalid: invalid, Many: genMany(t), End: "eof"}
	c.Stream = genStream(t, c.Dialects)
	if uniform(t, 2, "big-chunks") == 0 {
		c.Chunks = []int{1 + uniform(t, 4000, "chunk")}
	} else {
		c.Chunks = genChunks(t)
	}
	return c
}

// genNoisy draws a stream with very much noise.
func genNoisy(t *rapid.T, invalid bool) readCase {
	c := genLong(t, invalid)
	if uniform(t, 2, "in-one") == 0 {
		c.Many.N = 1 + uniform(t, 30, "n")
		c.Many.Gap = (1<<[]int{16, 20, 21}[uniform(t, 3, "noise")] + uniform(t, 600, "noise-x") - 300) / (1 + uniform(t, c.Many.N, "parts"))
	} else { // the frames come while a counter of noise bytes ends
		c.Many.N = 30000 + uniform(t, 40000, "n")
		c.Many.Gap = 20 + uniform(t, 60, "noise")
	}
	return c
}

var (
	errTransport = errors.New("the transport failed")
	errAfter     = errors.New("the transport was read again after it had failed")
)

// genStream draws a byte stream: frames, damaged frames, noise, false starts.
func genStream(t *rapid.T, ds []string) (out []byte) {
	n := 1 + uniform(t, 9, "segments")
	switch k := uniform(t, 600, "long"); {
	case k < 50:
		n = 10 + uniform(t, 60, "segments")
	case k == 50:
		n = 100 + uniform(t, 500, "segments")
	}
	for k := 0; k < n; k++ {
		switch uniform(t, 13, "segment") {
		case 0, 1, 2, 3, 4, 5: // a frame, mostly valid
			out = append(out, genFrame(t, ds)...)
		case 6: // noise
			b := genBytes(t, 1+uniform(t, 30, "len"), "noise")
			out = append(out, b...)
		case 7: // a false start: the bytes that follow are taken for its contents
			v := byte(0xfd + uniform(t, 2, "start"))
			b := []byte{v, byte(bits(t, 8, "len"))}
			b = append(b, genBytes(t, uniform(t, 14, "n"), "false")...)
			out = append(out, b...)
		case 8: // start bytes in a row
			for j := 1 + uniform(t, 5, "n"); j > 0; j-- {
				out = append(out, byte(0xfd+uniform(t, 2, "start")))
			}
		case 9: // a frame cut short
			f := genFrame(t, ds)
			out = append(out, f[:uniform(t, len(f), "cut")]...)
		case 10: // frames within the payload of a damaged frame
			inner := genFrame(t, ds)
			if len(inner) < 240 {
				p := append(genBytes(t, uniform(t, 6, "pre"), "pre"), inner...)
				p = append(p, genBytes(t, uniform(t, 6, "post"), "post")...)
				f := ref.Build(ref.Header{V: 1 + uniform(t, 2, "v"), ID: uint32(bits(t, 8, "id"))}, p, byte(bits(t, 8, "crc")), nil)
				out = append(out, f...)
			}
		case 11: // a frame twice
			f := genFrame(t, ds)
			out = append(append(out, f...), f...)
		default: // a maximum length candidate
			b := make([]byte, 280)
			b[0], b[1], b[2] = 0xfd, 0xff, byte(uniform(t, 2, "signed"))
			k := uniform(t, 281, "cut")
			out = append(out, b[:k]...)
		}
	}
	return out
}

func genChunks(t *rapid.T) []int {
	switch uniform(t, 5, "chunking") {
	case 0:
		return []int{1}
	case 1:
		return []int{}
	case 2:
		return []int{1 + uniform(t, 600, "chunk")}
	case 3:
		return []int{1 + uniform(t, 12, "chunk")}
	}
	var out []int
	for k := 1 + uniform(t, 6, "chunks"); k > 0; k-- {
		n := 1 + uniform(t, 20, "chunk")
		if uniform(t, 3, "big") == 0 {
			n = 1 + uniform(t, 400, "chunk")
		}
		out = append(out, n)
	}
	if uniform(t, 4, "empty-read") == 0 {
		out = append(out, 0)
	}
	return out
}

func genRead(t *rapid.T, invalid bool) readCase {
	c := readCase{Dialects: genDialects(t), Invalid: invalid}
	c.Stream = genStream(t, c.Dialects)
	c.Chunks = genChunks(t)
	c.End = []string{"eof", "eof", "error"}[uniform(t, 3, "end")]
	if c.End == "error" {
		c.Err = genErr(t)
	}
	c.EndWith = uniform(t, 2, "end-with") == 1
	c.EndOnce = uniform(t, 2, "end-once") == 1
	if uniform(t, 5, "lagging") == 0 {
		c.Lag = 1 + uniform(t, 500, "lag")
	}
	if uniform(t, 5, "pausing") == 0 {
		c.Pause = 1 + uniform(t, 500, "pause")
	}
	switch k := uniform(t, 300, "repeat"); {
	case k < 10:
		c.Repeat = 2 + uniform(t, 8, "times")
	case k == 10:
		c.Repeat = 2 + uniform(t, 300, "times")
		c.Repeat = max(1, min(c.Repeat, 250000/(1+len(c.Stream))))
	}
	if k := uniform(t, 6, "sending"); k < 2 {
		c.Sends = k*(1+uniform(t, 12, "sends")) - 1
	}
	n := 2*len(c.Stream)*max(1, c.Repeat) + 100
	if c.Lag > 0 && uniform(t, 3, "very-slow") == 0 {
		c.Lag = genAge(t, n)
	}
	if c.Pause > 0 && uniform(t, 3, "very-long") == 0 {
		c.Pause = genAge(t, n)
	}
	return c
}

func (c readCase) endErr() error {
	if c.End == "error" {
		return transportErr(c.Err)
	}
	return io.EOF
}

// ways in which a transport may fail; "" is an error without any further meaning
var errKinds = []string{"timeout", "temporary", "op", "again", "unexpected-eof", "short-write", "closed-pipe", "no-progress", "checksum", "unknown", "too-short", "canceled", "no-address",
	"deadline", "user-closed", "channel-closed", "net-closed", "os-closed", "too-long", "start-byte", "buffer-full"}

func genErr(t *rapid.T) string {
	if uniform(t, 2, "error-kind") == 0 {
		return ""
	}
	return errKinds[uniform(t, len(errKinds), "error")]
}

// genWriteErr draws from the kinds of errors writes can have.
func genWriteErr(t *rapid.T) string {
	if uniform(t, 8, "end-of-input") == 0 {
		return []string{"eof", "wrapped-eof"}[uniform(t, 2, "which")]
	}
	return genErr(t)
}

var errWrappedEOF = fmt.Errorf("the line: %w", io.EOF)

type tempError struct{}

func (*tempError) Error() string   { return "the line is busy" }
func (*tempError) Timeout() bool   { return true }
func (*tempError) Temporary() bool { return true }

var errTemp = &tempError{}

func transportErr(kind string) error {
	switch kind {
	case "timeout":
		return os.ErrDeadlineExceeded
	case "temporary":
		return errTemp
	case "op":
		return errOp
	case "again":
		return syscall.EAGAIN
	case "unexpected-eof":
		return io.ErrUnexpectedEOF
	case "short-write":
		return io.ErrShortWrite
	case "closed-pipe":
		return io.ErrClosedPipe
	case "no-progress":
		return io.ErrNoProgress
	case "checksum":
		return mavlink2.ErrInvalidChecksum
	case "unknown":
		return mavlink2.ErrUnknownMessage
	case "too-short":
		return mavlink2.ErrFrameTooShort
	case "canceled":
		return context.Canceled
	case "no-address":
		return util.ErrNoAddress
	case "deadline":
		return context.DeadlineExceeded
	case "user-closed":
		return mavlink2.ErrUserClosed
	case "channel-closed":
		return mavlink2.ErrWriteChannelClosed
	case "net-closed":
		return net.ErrClosed
	case "os-closed":
		return os.ErrClosed
	case "too-long":
		return mavlink2.ErrMessageTooLong
	case "start-byte":
		return mavlink2.ErrUnknownStartByte
	case "buffer-full":
		return bufio.ErrBufferFull
	case "eof":
		return io.EOF
	case "wrapped-eof":
		return errWrappedEOF
	}
	return errTransport
}

var errOp = &net.OpError{Op: "read", Net: "udp", Err: syscall.ECONNREFUSED}

func endMatches(got, injected error) bool {
	if injected == io.EOF { // the end in the middle of a frame may be told apart
		return errors.Is(got, io.EOF) || errors.Is(got, io.ErrUnexpectedEOF)
	}
	return errors.Is(got, injected)
}

func (c readCase) describe(i *Info, want []ref.Delivery) {
	switch {
	case c.Sends < 0:
		i.Label("no-write-channel")
	case c.Sends > 0:
		i.Label("sends-meanwhile")
	}
	valid, invalid := 0, 0
	end := 0
	for _, d := range want {
		if d.Valid {
			valid++
			end = d.Off + len(d.Bytes)
		} else {
			invalid++
		}
		if d.Bytes[0] == 0xfd && d.Bytes[2]&1 == 1 {
			i.Label("signed")
		}
	}
	i.Label("valid=%s", bucket(valid))
	if invalid > 0 {
		i.Label("has-invalid")
	}
	total := len(c.bytes())
	if end < total {
		i.Label("incomplete-or-invalid-tail")
	}
	for _, n := range []int{4096, 65536} {
		if total > n {
			i.Label("longer-than-%d", n)
		}
		if len(want) > n {
			i.Label("more-than-%d-frames", n)
		}
	}
	i.NonTrivial(len(want) > 0)
}

func bucket(n int) string {
	switch {
	case n < 3:
		return fmt.Sprint(n)
	case n < 8:
		return "3-7"
	}
	return "8+"
}

// deframe runs a stream over the case's bytes and returns the frames it delivers.
func (c readCase) deframe(t *testing.T, logger *recorder, use func(k int, f mavlink2.Frame)) (frames []mavlink2.Frame, err error) {
	return c.deframeWith(t, dialects(c.Dialects), logger, use)
}

func (c readCase) deframeWith(t *testing.T, ds mavlink2.Dialects, logger *recorder, use func(k int, f mavlink2.Frame)) (frames []mavlink2.Frame, err error) {
	err = bubble(t, func() error {
		tr := newTransport()
		tr.chunks, tr.endOnce, tr.lag = c.Chunks, c.EndOnce, time.Duration(c.Lag)*time.Millisecond
		tr.feed(c.bytes())
		tr.end(c.endErr(), c.EndWith)
		var st *mavlink2.FrameStream
		in := make(chan mavlink2.Frame)
		if c.Sends < 0 {
			in = nil
		}
		if logger != nil {
			st = mavlink2.NewFrameStreamWithLogger(tr, in, ds, c.Invalid, logger)
		} else {
			st = mavlink2.NewFrameStream(tr, in, ds, c.Invalid)
		}
		ctx, cancel := context.WithCancel(context.Background())
		var g group
		g.Go(func() { st.ReadContext(ctx) })
		if c.Sends > 0 {
			g.Go(func() { st.WriteContext(ctx) })
			g.Go(func() {
				for k := range c.Sends {
					raw := meanwhile(k)
					if c.Lag+c.Pause > 0 {
						time.Sleep(time.Duration(c.Lag+c.Pause) * time.Millisecond)
					}
					select {
					case in <- frameOf(raw):
					case <-st.Closed():
						return
					}
				}
			})
		}
		g.Go(func() {
			for f := range st.Read() {
				if f == nil {
					g.fail(fmt.Errorf("a nil frame was delivered"))
					return
				}
				frames = append(frames, f)
				if use != nil {
					use(len(frames)-1, f)
				}
				if len(frames) == c.stopAfter {
					st.Close()
				}
				if c.Pause > 0 {
					time.Sleep(time.Duration(c.Pause) * time.Millisecond)
				}
			}
		})
		if c.Lag+c.Pause > 0 { // as long as it can take, byte by byte, every second read empty
			time.Sleep(time.Duration((c.Lag+c.Pause)*(2*len(c.bytes())+100)) * time.Millisecond)
		}
		synctest.Wait()
		gone := g.failed()
		var cerr error
		select {
		case <-st.Closed():
			cerr = st.GetCloseErr()
		default:
			if gone == nil {
				gone = fmt.Errorf("the stream is still open after the transport ended (%d frames delivered)", len(frames))
			}
		}
		cancel()
		st.Close()
		g.wg.Wait()
		if gone != nil {
			return gone
		}
		if err := g.failed(); err != nil {
			return err
		}
		if c.stopAfter > 0 && c.stopAfter <= len(frames) {
			if !errors.Is(cerr, mavlink2.ErrUserClosed) && !endMatches(cerr, c.endErr()) {
				return fmt.Errorf("the stream was closed by its receiver and reports %v", cerr)
			}
		} else if !endMatches(cerr, c.endErr()) {
			return fmt.Errorf("the transport ended with %q, the stream with %v", c.endErr(), cerr)
		}
		return nil
	})
	return
}

// meanwhile is the k-th frame sent by a stream that reads.
func meanwhile(k int) []byte {
	return ref.Build(ref.Header{V: 1 + k%2, Seq: byte(k)}, []byte{1, 0xfd, 3, 4, 0xfe, 6, 7, 8, byte(k)}, 50, nil)
}

func (c readCase) compare(frames []mavlink2.Frame, want []ref.Delivery) error {
	for k, w := range want {
		if k >= len(frames) {
			return fmt.Errorf("frame %d of %d was not delivered: %x at offset %d", k, len(want), w.Bytes, w.Off)
		}
		f := frames[k]
		if !bytes.Equal(f.Bytes(), w.Bytes) {
			return fmt.Errorf("frame %d is %x, want %x from offset %d", k, f.Bytes(), w.Bytes, w.Off)
		}
		v := 1
		if w.Bytes[0] == 0xfd {
			v = 2
		}
		if f.GetVersion() != v {
			return fmt.Errorf("frame %d (%x) is of version %d", k, f.Bytes(), f.GetVersion())
		}
	}
	if len(frames) > len(want) {
		return fmt.Errorf("%d frames delivered, want %d; the first surplus one is %x", len(frames), len(want), frames[len(want)].Bytes())
	}
	return nil
}

func Test_C07(t *testing.T) {
	s := NewSuite(t, "C07", true)
	check := func(c readCase, i *Info) error {
		want := ref.Scan(c.Dialects, c.bytes(), false)
		c.describe(i, want)
		frames, err := c.deframe(t, nil, nil)
		if err != nil {
			return err
		}
		return c.compare(frames, want)
	}
	Phase(s, "deframe", N(32000, 960000), func(t *rapid.T) readCase { return genRead(t, false) }, check)
	Phase(s, "long", N(6, 150), func(t *rapid.T) readCase { return genLong(t, false) }, check)
	Phase(s, "noisy", N(4, 100), func(t *rapid.T) readCase { return genNoisy(t, false) }, check)
	RawPhase(s, "deframe", func(b []byte) readCase { return rawRead(b, false) }, check)
}

func Test_C08(t *testing.T) {
	s := NewSuite(t, "C08", true)
	check := func(c readCase, i *Info) error {
		want := ref.Scan(c.Dialects, c.bytes(), true)
		c.describe(i, want)
		frames, err := c.deframe(t, nil, nil)
		if err != nil {
			return err
		}
		if err := c.compare(frames, want); err != nil {
			return err
		}
		for k, f := range frames {
			if err := dialects(c.Dialects).Validate(f); (err == nil) != want[k].Valid {
				return fmt.Errorf("delivered frame %d (%x) validates with %v, want valid=%v", k, f.Bytes(), err, want[k].Valid)
			}
		}
		return nil
	}
	Phase(s, "deframe-all", N(32000, 960000), func(t *rapid.T) readCase { return genRead(t, true) }, check)
	Phase(s, "long", N(6, 150), func(t *rapid.T) readCase { return genLong(t, true) }, check)
	Phase(s, "noisy", N(4, 100), func(t *rapid.T) readCase { return genNoisy(t, true) }, check)
	RawPhase(s, "deframe-all", func(b []byte) readCase { return rawRead(b, true) }, check)
}

// keepCase is a readCase whose consumer may close the stream once it has had enough.
type keepCase struct {
	readCase
	Enough int `json:"enough,omitempty"` // frames; 0: never
}

func Test_C09(t *testing.T) {
	s := NewSuite(t, "C09", true)
	check := func(c keepCase, i *Info) error { return checkKept(t, c, i) }
	Phase(s, "independent", N(28000, 800000), func(t *rapid.T) keepCase {
		c := keepCase{readCase: genRead(t, uniform(t, 3, "invalid") == 0)}
		c.LogErr = uniform(t, 4, "log-err") == 0
		if uniform(t, 4, "enough") == 0 {
			c.Enough = 1 + uniform(t, 10, "enough")
		}
		return c
	}, check)
	Phase(s, "long", N(4, 100), func(t *rapid.T) keepCase {
		return keepCase{readCase: genLong(t, uniform(t, 3, "invalid") == 0)}
	}, check)
	Phase(s, "write-log", N(12000, 320000), genWrite, func(c writeCase, i *Info) error {
		return checkWrite(t, c, i, true)
	})
}

func checkKept(t *testing.T, c keepCase, i *Info) error {
	want := ref.Scan(c.Dialects, c.bytes(), c.Invalid)
	c.describe(i, want)
	log := &recorder{}
	if c.LogErr {
		log.err = errors.New("the log is full")
		i.Label("logger-fails")
	}
	var bad error
	c.stopAfter = c.Enough
	stopped := c.Enough > 0 && c.Enough <= len(want)
	if stopped {
		i.Label("closed-by-receiver")
	}
	frames, err := c.deframe(t, log, func(k int, f mavlink2.Frame) {
		// at once: exactly the bytes that came in, even when everybody else's were overwritten
		if bad == nil && k < len(want) {
			if e := eqBytes(fmt.Sprintf("frame %d on delivery", k), f.Bytes(), want[k].Bytes); e != nil {
				bad = e
			}
		}
		if k%2 == 1 {
			b := f.Bytes()
			for j := range b {
				b[j] ^= 0xff
			}
			b = b[:cap(b)]
			for j := range b {
				b[j] ^= 0x0f
			}
		}
	})
	if err != nil {
		return err
	}
	if bad != nil {
		return bad
	}
	if stopped {
		// the stream may have been offering the next frame when it was closed
		if n := len(frames); n != c.Enough {
			return fmt.Errorf("%d frames delivered before the stream was closed, and %d after", c.Enough, n-c.Enough)
		}
	} else if len(frames) != len(want) {
		return fmt.Errorf("%d frames delivered, want %d", len(frames), len(want))
	}
	for k, f := range frames {
		if k%2 == 0 {
			if err := eqBytes(fmt.Sprintf("frame %d at the end", k), f.Bytes(), want[k].Bytes); err != nil {
				return err
			}
		}
	}
	if n := len(log.read); n != len(frames) && !(stopped && n == len(frames)+1 && n <= len(want)) {
		return fmt.Errorf("%d frames logged as read, want the %d delivered", n, len(frames))
	}
	for k := range log.read {
		if err := eqBytes(fmt.Sprintf("frame %d in the log", k), log.read[k], want[k].Bytes); err != nil {
			return err
		}
	}
	if n := len(log.written); n > max(0, c.Sends) {
		return fmt.Errorf("%d frames logged as written, %d were sent", n, max(0, c.Sends))
	}
	for k, b := range log.written {
		if err := eqBytes(fmt.Sprintf("frame %d logged as written", k), b, meanwhile(k)); err != nil {
			return err
		}
	}
	return nil
}

// ---- writing ----

type writeCase struct {
	Frames []Hex  `json:"frames"`
	Buffer int    `json:"buffer"`  // capacity of the write channel
	FailAt int    `json:"fail_at"` // 0: no failure
	FailN  int    `json:"fail_n"`
	Err    string `json:"err,omitempty"`    // kind of failure
	Lag    int    `json:"lag,omitempty"`    // ms every write takes
	Idle   int    `json:"idle,omitempty"`   // ms the sender rests before each frame
	Busy   Hex    `json:"busy,omitempty"`   // arrives at every write and is read
	End    string `json:"end"`              // channel (closed), user, cancel
	Repeat int    `json:"repeat,omitempty"` // all frames that many times over
	Many   *many  `json:"many,omitempty"`   // more frames
	LogErr bool   `json:"log_err,omitempty"`
	Own    []int  `json:"own,omitempty"`   // indices of frames of a type the user wrote
	Again  []int  `json:"again,omitempty"` // indices of sends of the very same frame as before
	Reuse  bool   `json:"reuse,omitempty"` // the sender keeps all its frames in one buffer, one after the other
}

// ownFrame is a frame of a type the library does not know.
type ownFrame struct {
	mavlink2.Frame
	note string
}

func genLongWrite(t *rapid.T) writeCase {
	c := genWrite(t)
	c.Repeat, c.Lag, c.Idle, c.Busy, c.Many = 0, 0, 0, nil, genMany(t)
	c.Reuse = false
	if c.FailAt > 0 {
		c.FailAt += uniform(t, c.Many.N, "fail-later")
	}
	return c
}

func genWrite(t *rapid.T) writeCase {
	c := writeCase{Buffer: uniform(t, 4, "buffer") * uniform(t, 3, "buffer-x"), End: []string{"channel", "channel", "user", "cancel"}[uniform(t, 4, "end")]}
	n := uniform(t, 12, "frames")
	for k := 0; k < n; k++ {
		f := genFrame(t, pkgs)
		switch uniform(t, 30, "odd") {
		case 0: // frames are written as they are
			f = f[:1+uniform(t, len(f), "cut")]
		case 1:
			f = append(f, genBytes(t, uniform(t, 300, "more"), "more")...)
		case 2:
			f = nil
		}
		if uniform(t, 10, "own") == 0 {
			c.Own = append(c.Own, k)
		}
		if uniform(t, 12, "again") == 0 && k > 0 {
			c.Again = append(c.Again, k)
		}
		c.Frames = append(c.Frames, f)
	}
	c.LogErr = uniform(t, 3, "log-err") == 0
	if uniform(t, 100, "repeat") == 0 {
		c.Repeat = 2 + uniform(t, 48, "times")
	}
	if uniform(t, 5, "lagging") == 0 {
		c.Lag = 1 + uniform(t, 5000, "lag")
		if uniform(t, 3, "very-slow") == 0 {
			c.Lag = genAge(t, 50*n+20)
		}
	}
	if uniform(t, 8, "idle") == 0 {
		c.Idle = genAge(t, 50*n+20)
	}
	if c.Lag == 0 && uniform(t, 6, "reuse") == 0 {
		c.Reuse, c.Again = true, nil
		c.Idle = max(c.Idle, 1) // that is when everything sent is written
	}
	if uniform(t, 4, "busy") == 0 {
		c.Busy = genStream(t, pkgs)
	}
	if n > 0 && uniform(t, 3, "fail") == 0 {
		c.FailAt = 1 + uniform(t, n*max(1, c.Repeat), "fail-at")
		c.FailN = uniform(t, 2, "fail-n") * uniform(t, 300, "fail-bytes")
		c.Err = genWriteErr(t)
		c.Frames = slices.DeleteFunc(c.Frames, func(f Hex) bool { return len(f) == 0 })
		if len(c.Frames) == 0 {
			c.FailAt = 0
		} else {
			c.FailAt = min(c.FailAt, len(c.Frames)*max(1, c.Repeat))
		}
	}
	return c
}

func checkWrite(t *testing.T, c writeCase, i *Info, checkLog bool) error {
	i.Label("end:%s", c.End)
	if c.FailAt > 0 {
		i.Label("write-fails")
	}
	if c.Repeat > 1 {
		i.Label("many-frames")
		c.Frames = slices.Repeat(c.Frames, c.Repeat)
	}
	if c.Many != nil {
		c.Frames = append(slices.Clone(c.Frames), c.Many.frames()...)
		if len(c.Frames) > 65536 {
			i.Label("more-than-65536-frames")
		}
	}
	if len(c.Again) > 0 {
		c.Frames = slices.Clone(c.Frames)
		for _, k := range c.Again {
			if k < len(c.Frames) {
				i.Label("same-frame-again")
				c.Frames[k] = c.Frames[k-1]
			}
		}
	}
	i.NonTrivial(len(c.Frames) > 1)
	return bubble(t, func() error {
		tr := newTransport()
		tr.failAt, tr.failErr, tr.failN = c.FailAt, transportErr(c.Err), c.FailN
		tr.lag = time.Duration(c.Lag) * time.Millisecond
		in := make(chan mavlink2.Frame, c.Buffer)
		log := &recorder{}
		if c.LogErr {
			log.err = errors.New("the log is full")
		}
		st := mavlink2.NewFrameStreamWithLogger(tr, in, dialects(pkgs), false, log)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var g group
		var kept []mavlink2.Frame
		var one [800]byte
		if c.Reuse {
			i.Label("one-buffer")
		}
		for k, f := range c.Frames {
			if slices.Contains(c.Again, k) {
				kept = append(kept, kept[k-1])
				continue
			}
			var frame mavlink2.Frame = mavlink2.FrameV2{}
			if len(f) > 0 {
				frame = frameOf(clone(f))
				if c.Reuse {
					switch frame.(type) {
					case mavlink2.FrameV1:
						frame = mavlink2.FrameV1(one[:len(f)])
					default:
						frame = mavlink2.FrameV2(one[:len(f)])
					}
				}
			}
			if slices.Contains(c.Own, k) {
				i.Label("own-frame-type")
				frame = &ownFrame{frame, "mine"}
			}
			kept = append(kept, frame)
		}
		done := false
		if len(c.Busy) > 0 {
			i.Label("reading-meanwhile")
			tr.feed(c.Busy)
			tr.onWrite = func([]byte) { tr.feed(c.Busy) }
			g.Go(func() { st.ReadContext(ctx) })
			g.Go(func() {
				for f := range st.Read() {
					for k := range f.Bytes() {
						f.Bytes()[k] = 0xfd
					}
				}
			})
		}
		g.Go(func() { st.WriteContext(ctx) })
		g.Go(func() {
			for k, f := range kept {
				if c.Idle > 0 {
					time.Sleep(time.Duration(c.Idle) * time.Millisecond)
				}
				if c.Reuse {
					copy(one[:], c.Frames[k])
				}
				select {
				case st.Write() <- f:
				case <-st.Closed():
				}
			}
			if c.End == "channel" {
				close(in)
			}
			done = true
		})
		if c.Lag+c.Idle > 0 {
			if c.Lag+c.Idle > 3600*1000 {
				i.Label("days")
			}
			time.Sleep(time.Duration((c.Lag+c.Idle)*(len(c.Frames)+20)) * time.Millisecond)
		}
		synctest.Wait()
		var problem error
		var wantErr error
		want := c.Frames
		switch {
		case c.FailAt > 0:
			want, wantErr = c.Frames[:c.FailAt-1], transportErr(c.Err)
		case c.End == "channel":
			wantErr = mavlink2.ErrWriteChannelClosed
		}
		isClosed := func() bool {
			select {
			case <-st.Closed():
				return true
			default:
				return false
			}
		}
		if e := g.failed(); e != nil {
			problem = e
		} else if isClosed() != (wantErr != nil) {
			problem = fmt.Errorf("after sending %d frames the stream is closed: %v (%v), want %v", len(c.Frames), isClosed(), st.GetCloseErr(), wantErr)
		} else if wantErr != nil && !errors.Is(st.GetCloseErr(), wantErr) {
			problem = fmt.Errorf("the stream closed with %v, want %v", st.GetCloseErr(), wantErr)
		} else if wantErr == nil && !done {
			problem = fmt.Errorf("the write loop stopped taking frames")
		}
		switch c.End {
		case "user":
			st.Close()
		case "cancel":
			cancel()
		}
		synctest.Wait()
		if problem == nil && !isClosed() {
			problem = fmt.Errorf("the stream is open after %s", c.End)
		}
		if problem == nil && wantErr == nil {
			wantErr = map[string]error{"user": mavlink2.ErrUserClosed, "cancel": context.Canceled}[c.End]
			if !errors.Is(st.GetCloseErr(), wantErr) {
				problem = fmt.Errorf("the stream closed with %v, want %v", st.GetCloseErr(), wantErr)
			}
		}
		cancel()
		st.Close()
		g.wg.Wait()
		if problem != nil {
			return problem
		}
		for k, f := range kept {
			if c.Reuse && (k+1 < len(kept) || !done) {
				continue // by now it holds another one
			}
			if err := eqBytes(fmt.Sprintf("frame %d after writing", k), f.Bytes(), c.Frames[k]); err != nil {
				return err
			}
		}
		// a frame without any bytes need not be written; what matters is that the others are
		empty := func(b []byte) bool { return len(b) == 0 }
		want = slices.DeleteFunc(slices.Clone(want), func(f Hex) bool { return len(f) == 0 })
		tr.writes = slices.DeleteFunc(tr.writes, empty)
		log.written = slices.DeleteFunc(log.written, empty)
		if len(tr.writes) != len(want) {
			return fmt.Errorf("the transport got %d writes, want one for each of %d frames", len(tr.writes), len(want))
		}
		for k := range want {
			if err := eqBytes(fmt.Sprintf("write %d", k), tr.writes[k], want[k]); err != nil {
				return err
			}
		}
		if !checkLog {
			return nil
		}
		if len(log.written) != len(want) || len(log.read) != 0 && len(c.Busy) == 0 {
			return fmt.Errorf("%d frames logged as written and %d as read, want %d and none", len(log.written), len(log.read), len(want))
		}
		for k := range want {
			if err := eqBytes(fmt.Sprintf("logged write %d", k), log.written[k], want[k]); err != nil {
				return err
			}
		}
		return nil
	})
}

func Test_C10(t *testing.T) {
	s := NewSuite(t, "C10", true)
	check := func(c writeCase, i *Info) error { return checkWrite(t, c, i, false) }
	Phase(s, "write", N(40000, 1200000), genWrite, check)
	Phase(s, "long", N(6, 150), genLongWrite, check)
}

// ---- two streams linked ----

type linkCase struct {
	Dialects []string  `json:"dialects"`
	Frames   [2][]Hex  `json:"frames"` // valid ones, by sender
	Chunks   [2][]int  `json:"chunks"`
	Noise    [2][]Hex  `json:"noise"` // put on the line before the k-th frame; no start bytes
	Closer   int       `json:"closer"`
	Buffer   [2]int    `json:"buffer"`
	Repeat   int       `json:"repeat,omitempty"` // all frames that many times over
	Lag      [2]int    `json:"lag"`              // ms every read and write takes
	Many     *[2]*many `json:"many,omitempty"`   // more frames
	Flood    [2]int    `json:"flood,omitempty"`  // so many bytes of noise before the first frame
}

func Test_C25(t *testing.T) {
	s := NewSuite(t, "C25", true)
	gen := func(t *rapid.T) linkCase {
		c := linkCase{Dialects: genDialects(t), Closer: uniform(t, 2, "closer")}
		for side := range 2 {
			c.Chunks[side] = genChunks(t)
			c.Buffer[side] = uniform(t, 3, "buffer")
			for k := uniform(t, 9, "frames"); k > 0; k-- {
				m := genMsg(t, c.Dialects...)
				m = ref.Find(c.Dialects, m.ID)
				h := genHead(t, m.ID)
				p := genBytes(t, m.Max, "payload")
				if h.V == 1 {
					p = p[:m.Min]
				} else {
					n := len(ref.Trim(p))
					switch uniform(t, 4, "length") { // what senders do, and what they might
					case 0:
						n += uniform(t, len(p)-n+1, "tail")
					case 1:
						n = uniform(t, len(p)+1, "cut")
					}
					p = p[:n]
				}
				hd := ref.Header{V: h.V, Seq: h.Seq, Sys: h.Sys, Comp: h.Comp, ID: m.ID}
				var sig []byte
				if h.V == 2 && uniform(t, 5, "signed") == 0 {
					hd.Incompat, sig = 1, genBytes(t, 13, "sig")
				}
				c.Frames[side] = append(c.Frames[side], ref.Build(hd, p, m.CRC, sig))
				noise := genBytes(t, uniform(t, 2, "noisy")*uniform(t, 20, "noise-n"), "noise")
				for j := range noise {
					if noise[j] >= 0xfd {
						noise[j] = 0x55
					}
				}
				c.Noise[side] = append(c.Noise[side], noise)
			}
		}
		if uniform(t, 100, "repeat") == 0 {
			c.Repeat = 2 + uniform(t, 60, "times")
		} else if uniform(t, 100, "flood") == 0 {
			c.Flood[uniform(t, 2, "flooded")] = uniform(t, 3000<<uniform(t, 7, "flood-times"), "flood-bytes")
		}
		if uniform(t, 4, "lagging") == 0 {
			for side := range 2 {
				c.Lag[side] = uniform(t, 3, "lag") * (1 + uniform(t, 1000, "lag"))
			}
			if uniform(t, 3, "very-slow") == 0 && c.Repeat == 0 {
				n := 1000
				for side := range 2 {
					n += 2*c.Flood[side] + 2*310*len(c.Frames[side])
				}
				c.Lag[uniform(t, 2, "slow-side")] = genAge(t, 3*n)
			}
		}
		return c
	}
	check := func(c linkCase, i *Info) error {
		if c.Many != nil {
			for side := range 2 {
				c.Frames[side] = append(slices.Clone(c.Frames[side]), c.Many[side].frames()...)
			}
		}
		if c.Repeat > 1 {
			i.Label("many-frames")
			for side := range 2 {
				c.Frames[side] = slices.Repeat(c.Frames[side], c.Repeat)
				c.Noise[side] = slices.Repeat(c.Noise[side], c.Repeat)
			}
		}
		i.NonTrivial(len(c.Frames[0]) > 0 && len(c.Frames[1]) > 0)
		i.Label("frames=%s", bucket(len(c.Frames[0])+len(c.Frames[1])))
		return bubble(t, func() error {
			var tr [2]*transport
			var st [2]*mavlink2.FrameStream
			var got [2][]mavlink2.Frame
			var in [2]chan mavlink2.Frame
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			var g group
			for side := range 2 {
				tr[side] = newTransport()
				tr[side].chunks = c.Chunks[side]
				tr[side].lag = time.Duration(c.Lag[side]) * time.Millisecond
			}
			settle := func() {
				if n := 1000; c.Lag[0]+c.Lag[1] > 0 {
					for side, fs := range c.Frames {
						n += 2*c.Flood[side] + 2*310*len(fs) // every second read may be empty
					}
					time.Sleep(time.Duration((c.Lag[0]+c.Lag[1])*n) * time.Millisecond)
				}
				synctest.Wait()
			}
			for side := range 2 {
				peer := tr[1-side]
				k := 0
				tr[side].onWrite = func(b []byte) {
					if k == 0 && c.Flood[side] > 0 {
						i.Label("flood-of-noise")
						peer.feed(bytes.Repeat([]byte{0, 0xfc, 0xff, 0x55, 0xf}, 1+c.Flood[side]/5))
					}
					if k < len(c.Noise[side]) {
						peer.feed(c.Noise[side][k])
					}
					k++
					peer.feed(b)
				}
				tr[side].onClose = func() {
					// the line goes down: the peer reads what is under way, then the end
					g.Go(func() { peer.end(io.EOF, false) })
				}
				in[side] = make(chan mavlink2.Frame, c.Buffer[side])
				st[side] = mavlink2.NewFrameStream(tr[side], in[side], dialects(c.Dialects), false)
				g.Go(func() { st[side].ReadContext(ctx) })
				g.Go(func() { st[side].WriteContext(ctx) })
				g.Go(func() {
					for f := range st[side].Read() {
						got[side] = append(got[side], f)
					}
				})
				g.Go(func() {
					for _, f := range c.Frames[side] {
						select {
						case st[side].Write() <- frameOf(clone(f)):
						case <-st[side].Closed():
						}
					}
				})
			}
			settle()
			problem := g.failed()
			if problem == nil {
				for side := range 2 {
					if e := st[side].GetCloseErr(); e != nil {
						problem = fmt.Errorf("side %d closed while the line was up: %v", side, e)
					}
				}
			}
			compare := func() error {
				for side := range 2 {
					want := c.Frames[1-side]
					if len(got[side]) != len(want) {
						return fmt.Errorf("side %d received %d frames of %d", side, len(got[side]), len(want))
					}
					for k := range want {
						if err := eqBytes(fmt.Sprintf("frame %d received by side %d", k, side), got[side][k].Bytes(), want[k]); err != nil {
							return err
						}
						if _, err := dialects(c.Dialects).GetMessage(got[side][k]); err != nil {
							return fmt.Errorf("frame %d received by side %d does not decode: %v", k, side, err)
						}
					}
				}
				return nil
			}
			if problem == nil {
				problem = compare()
			}
			st[c.Closer].Close()
			settle()
			if problem == nil {
				for side := range 2 {
					e := st[side].GetCloseErr()
					if side == c.Closer && !errors.Is(e, mavlink2.ErrUserClosed) || side != c.Closer && !endMatches(e, io.EOF) {
						problem = fmt.Errorf("after side %d closed, side %d reports %v", c.Closer, side, e)
					}
				}
			}
			st[1-c.Closer].Close()
			cancel()
			g.wg.Wait()
			if problem == nil {
				problem = compare()
			}
			return problem
		})
	}
	Phase(s, "link", N(16000, 480000), gen, check)
	Phase(s, "long", N(4, 100), func(t *rapid.T) linkCase {
		c := gen(t)
		c.Dialects, c.Frames, c.Noise, c.Repeat, c.Lag = []string{"common"}, [2][]Hex{}, [2][]Hex{}, 0, [2]int{}
		c.Many = &[2]*many{genMany(t), genMany(t)}
		c.Flood = [2]int{uniform(t, 2, "flooded") * uniform(t, 3<<20, "flood-bytes")}
		for side := range 2 {
			c.Many[side].Bad = 0
			if c.Chunks[side] = genChunks(t); len(c.Chunks[side]) == 1 {
				c.Chunks[side][0] *= 16
			}
		}
		return c
	}, check)
}
