package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// A lifecycle case is a sequence of steps; the operations of one step run concurrently.
// After each step everything settles and the stream is compared with the model.
type lifeCase struct {
	Steps  [][]string `json:"steps"`
	Buffer int        `json:"buffer"`
	Chunks []int      `json:"chunks"`    // what reads return
	Cut    int        `json:"cut"`       // where a frame that arrives by halves is cut
	Err    [2]string  `json:"err"`       // how the transport fails to read, to write
	Shared bool       `json:"shared"`    // both loops have the same context
	Log    int        `json:"log"`       // 1: there is a logger; 2: it fails
	CloseE bool       `json:"close_err"` // closing the transport reports an error
	Rest   int        `json:"rest"`      // ms
	Reps   int        `json:"reps"`      // Go picks among ready channels at random: repeat
}

// operations:
//
//	read write              start the read, write loop
//	readT writeT            the same with a context that times out after 1 s
//	close                   Close
//	cancelR cancelW         cancel the loop's context
//	sleep rest              let 2 s, up to years pass
//	feed                    two frames arrive (with noise between)
//	flood deluge            300 frames arrive, are sent
//	half                    part of the next frame arrives
//	eof err                 the transport ends, fails
//	drain                   someone starts taking delivered frames
//	take                    someone takes one
//	send                    someone sends a frame
//	closeW                  the write channel is closed
//	stall fail              transport writes block, fail from now on
var lifeOps = []string{"read", "write", "readT", "writeT", "close", "cancelR", "cancelW", "sleep", "rest", "feed", "feed", "flood", "deluge", "half", "eof", "err", "drain", "take", "send", "closeW", "stall", "fail"}

func genLife(t *rapid.T) lifeCase {
	c := lifeCase{Buffer: uniform(t, 3, "buffer"), Reps: 4, Cut: uniform(t, 24, "cut")}
	if uniform(t, 2, "chunked") == 1 {
		c.Chunks = genChunks(t)
	}
	c.Err = [2]string{genErr(t), genWriteErr(t)}
	c.Rest = genAge(t, 100)
	c.Shared, c.Log, c.CloseE = uniform(t, 4, "shared") == 0, uniform(t, 3, "log"), uniform(t, 3, "close-err") == 0
	// start like a program would, then do anything
	switch uniform(t, 4, "start") {
	case 0:
		c.Steps = append(c.Steps, []string{"read", "write", "drain"})
	case 1:
		c.Steps = append(c.Steps, []string{"read", "write"})
	case 2:
		c.Steps = append(c.Steps, []string{"readT", "write"})
	}
	for k := 1 + uniform(t, 7, "steps"); k > 0; k-- {
		var step []string
		n := 1
		if uniform(t, 2, "concurrent") == 0 {
			n = 1 + uniform(t, 4, "ops")
		}
		for ; n > 0; n-- {
			step = append(step, lifeOps[uniform(t, len(lifeOps), "op")])
		}
		c.Steps = append(c.Steps, step)
	}
	return c
}

var (
	lifeFrames = func() [][]byte {
		m := ref.ByDialect["common"][0]
		var out [][]byte
		for k := range 1300 {
			v := 1 + k%2
			p := make([]byte, 9)
			p[0], p[1] = byte(k+1), byte((k+1)>>8)
			p[8] = 3
			out = append(out, ref.Build(ref.Header{V: v, Seq: byte(k)}, p, m.CRC, nil))
		}
		return out
	}()
	errWrite = errors.New("the transport does not take it")
)

// life is one run of a case: the stream, its surroundings and the model.
type life struct {
	st  *mavlink2.FrameStream
	tr  *transport
	in  chan mavlink2.Frame
	g   group
	ctx [2]context.Context // read, write; nil: loop not started
	can [2]context.CancelFunc

	loopDone [2]atomic.Bool
	allCtx   [2]context.Context
	allCan   [2]context.CancelFunc
	quit     chan struct{}

	mu      sync.Mutex
	got     []mavlink2.Frame
	readEnd bool // a consumer saw the channel closed
	early   error

	fed      int
	cut      int
	rests    time.Duration
	rest     []byte // of a frame that has begun to arrive
	draining bool
	takers   atomic.Int32
	took     bool
	sent     int
	pending  atomic.Int32
	wclosed  bool
	stalled  bool
	failing  bool
	errs     [2]error
	ended    error
	first    error // close error when first seen
}

func (l *life) closed() bool {
	select {
	case <-l.st.Closed():
		return true
	default:
		return false
	}
}

func (l *life) consume(f mavlink2.Frame, ok bool) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if ok {
		l.got = append(l.got, f)
		return
	}
	l.readEnd = true
	// whoever learns from the channel that the stream is over can ask why
	if l.st.GetCloseErr() == nil && l.early == nil {
		l.early = fmt.Errorf("the read channel is closed but the stream gives no reason")
	}
}

// do starts an operation; it returns the closing reasons the operation may give at once.
func (l *life) do(op string) {
	start := func(k int, timeout bool) {
		if l.ctx[k] != nil {
			return
		}
		l.ctx[k], l.can[k] = l.allCtx[k], l.allCan[k]
		if timeout {
			l.ctx[k], l.can[k] = context.WithTimeout(l.allCtx[k], time.Second)
		}
		ctx := l.ctx[k]
		l.g.Go(func() {
			if k == 0 {
				l.st.ReadContext(ctx)
			} else {
				l.st.WriteContext(ctx)
			}
			l.loopDone[k].Store(true)
		})
	}
	switch op {
	case "read":
		start(0, false)
	case "write":
		start(1, false)
	case "readT":
		start(0, true)
	case "writeT":
		start(1, true)
	case "close":
		l.g.Go(func() {
			l.st.Close()
			if !l.closed() {
				l.g.fail(fmt.Errorf("Close returned and the stream is open"))
			}
			if l.st.GetCloseErr() == nil {
				l.g.fail(fmt.Errorf("Close returned and the stream gives no reason"))
			}
		})
	case "cancelR":
		l.g.Go(l.allCan[0])
	case "cancelW":
		l.g.Go(l.allCan[1])
	case "sleep":
		time.Sleep(2 * time.Second)
	case "rest":
		time.Sleep(l.rests)
	case "feed", "flood":
		n := 2
		if op == "flood" {
			n = 300
		}
		for range n {
			if l.fed < len(lifeFrames) {
				if l.rest == nil {
					l.rest = append([]byte{1, 2, 3}, lifeFrames[l.fed]...)
				}
				l.tr.feed(l.rest)
				l.rest = nil
				l.fed++
			}
		}
	case "half":
		if l.rest == nil && l.fed < len(lifeFrames) {
			b := append([]byte{1, 2, 3}, lifeFrames[l.fed]...)
			cut := 1 + (l.cut+l.fed*7)%(len(b)-1)
			l.tr.feed(b[:cut])
			l.rest = b[cut:]
		}
	case "eof":
		if l.ended == nil {
			l.ended = io.EOF
			l.tr.end(io.EOF, false)
		}
	case "err":
		if l.ended == nil {
			l.ended = l.errs[0]
			l.tr.end(l.errs[0], false)
		}
	case "drain":
		if l.draining {
			return
		}
		l.draining = true
		l.g.Go(func() {
			for {
				f, ok := <-l.st.Read()
				l.consume(f, ok)
				if !ok {
					return
				}
			}
		})
	case "take":
		l.took = true
		l.takers.Add(1)
		l.g.Go(func() {
			select {
			case f, ok := <-l.st.Read():
				l.consume(f, ok)
			case <-l.quit:
			}
			l.takers.Add(-1)
		})
	case "send":
		if l.wclosed || l.sent >= len(lifeFrames) {
			return
		}
		f := frameOf(clone(lifeFrames[l.sent]))
		l.sent++
		l.pending.Add(1)
		l.g.Go(func() {
			defer l.pending.Add(-1)
			select {
			case l.st.Write() <- f:
			case <-l.st.Closed():
			}
		})
	case "deluge":
		if l.wclosed {
			return
		}
		fs := lifeFrames[l.sent:min(len(lifeFrames), l.sent+300)]
		l.sent += len(fs)
		l.pending.Add(1)
		l.g.Go(func() {
			defer l.pending.Add(-1)
			for _, b := range fs {
				select {
				case l.st.Write() <- frameOf(clone(b)):
				case <-l.st.Closed():
					return
				}
			}
		})
	case "closeW":
		if !l.wclosed && l.pending.Load() == 0 {
			l.wclosed = true
			close(l.in)
		}
	case "stall":
		if !l.failing {
			l.stalled = true
			l.tr.set(func() { l.tr.stalled = true })
		}
	case "fail":
		l.failing = true
		l.tr.set(func() {
			l.tr.failAt, l.tr.failErr = l.tr.attempts+1, l.errs[1]
		})
	}
}

// reasons gives what must and what may have closed the stream by now.
func (l *life) reasons(closeCalled bool) (must, may []error) {
	if closeCalled {
		must = append(must, mavlink2.ErrUserClosed)
	}
	for k := range 2 {
		if l.ctx[k] != nil && l.ctx[k].Err() != nil {
			must = append(must, l.ctx[k].Err())
		}
	}
	if l.ctx[0] != nil && l.ended != nil {
		if l.draining || l.fed == 0 {
			must = append(must, l.ended)
		} else {
			may = append(may, l.ended)
		}
	}
	if l.ctx[1] != nil && l.wclosed {
		if !l.stalled {
			must = append(must, mavlink2.ErrWriteChannelClosed)
		} else {
			may = append(may, mavlink2.ErrWriteChannelClosed)
		}
	}
	if l.ctx[1] != nil && l.failing && l.sent > 0 {
		l.tr.mu.Lock()
		if l.tr.failAt > 0 && l.tr.attempts >= l.tr.failAt {
			must = append(must, l.errs[1])
		} else {
			may = append(may, l.errs[1])
		}
		l.tr.mu.Unlock()
	}
	return
}

func (l *life) check(closeCalled *bool) error {
	if err := l.g.failed(); err != nil {
		return err
	}
	l.mu.Lock()
	early := l.early
	got := append([]mavlink2.Frame{}, l.got...)
	readEnd := l.readEnd
	l.mu.Unlock()
	if early != nil {
		return early
	}
	seenFrames := map[int]bool{}
	for k, f := range got {
		if k >= l.fed {
			return fmt.Errorf("%d frames delivered, %d arrived", len(got), l.fed)
		}
		if l.took {
			// several takers: which of them got which frame first is not seen from here
			b := f.Bytes()
			if len(b) < 11 {
				return fmt.Errorf("frame %x never arrived", b)
			}
			n := int(b[len(b)-11]) + int(b[len(b)-10])<<8 - 1
			if n < 0 || n >= l.fed || seenFrames[n] {
				return fmt.Errorf("frame %x was delivered twice or never arrived", f.Bytes())
			}
			seenFrames[n] = true
			k = n
		}
		if err := eqBytes(fmt.Sprintf("delivered frame %d", k), f.Bytes(), lifeFrames[k]); err != nil {
			return err
		}
	}
	must, may := l.reasons(*closeCalled)
	closed := l.closed()
	cerr := l.st.GetCloseErr()
	if l.first != nil {
		if !closed || cerr != l.first {
			return fmt.Errorf("the stream was closed with %q; later closed=%v with %v", l.first, closed, cerr)
		}
	}
	if !closed {
		if len(must) > 0 {
			return fmt.Errorf("the stream is open, though it should have closed with %v", must)
		}
		if cerr != nil {
			return fmt.Errorf("the stream is open and reports the close reason %q", cerr)
		}
		if l.tr.closes != 0 {
			return fmt.Errorf("the stream is open and its transport closed")
		}
		if readEnd {
			return fmt.Errorf("the stream is open and its read channel closed")
		}
		for k := range 2 {
			if l.loopDone[k].Load() {
				return fmt.Errorf("the stream is open, but its %s loop has returned", []string{"read", "write"}[k])
			}
		}
		if l.ctx[0] != nil && l.draining && len(got) != l.fed {
			return fmt.Errorf("%d of %d frames delivered", len(got), l.fed)
		}
		if l.ctx[1] != nil && !l.stalled && !l.failing {
			if n := len(l.tr.writes); n != l.sent || l.pending.Load() != 0 {
				return fmt.Errorf("%d of %d sent frames were written", n, l.sent)
			}
		}
		return nil
	}
	if l.first == nil {
		ok := false
		for _, w := range append(append([]error{}, must...), may...) {
			if w == io.EOF && endMatches(cerr, io.EOF) || errors.Is(cerr, w) {
				ok = true
			}
		}
		if !ok {
			return fmt.Errorf("the stream closed with %v; the reasons it has are %v and %v", cerr, must, may)
		}
		l.first = cerr
	}
	if l.tr.closes != 1 {
		return fmt.Errorf("the transport was closed %d times", l.tr.closes)
	}
	for k := range 2 {
		if l.ctx[k] != nil && !l.loopDone[k].Load() {
			return fmt.Errorf("the stream is closed, but its %s loop still runs", []string{"read", "write"}[k])
		}
	}
	if l.takers.Load() > 0 || l.draining && !readEnd {
		return fmt.Errorf("the stream is closed, but its read channel is not")
	}
	select {
	case f, ok := <-l.st.Read():
		if ok {
			return fmt.Errorf("the stream is closed and still delivers %x", f.Bytes())
		}
	default:
		return fmt.Errorf("the stream is closed, but its read channel is not")
	}
	if l.pending.Load() > 0 {
		return fmt.Errorf("someone sending is not told that the stream is closed")
	}
	return nil
}

func runLife(t *testing.T, c lifeCase, i *Info) error {
	return bubble(t, func() error {
		l := &life{tr: newTransport(), in: make(chan mavlink2.Frame, c.Buffer), quit: make(chan struct{})}
		l.tr.chunks, l.cut, l.rests = c.Chunks, c.Cut, time.Duration(c.Rest)*time.Millisecond
		l.errs = [2]error{transportErr(c.Err[0]), transportErr(c.Err[1])}
		if c.Err[1] == "" {
			l.errs[1] = errWrite
		}
		if c.CloseE {
			l.tr.closeErr = errors.New("the transport does not close cleanly")
		}
		switch c.Log {
		case 0:
			l.st = mavlink2.NewFrameStream(l.tr, l.in, dialects([]string{"common"}), false)
		default:
			log := &recorder{}
			if c.Log == 2 {
				log.err = errors.New("the log is full")
			}
			l.st = mavlink2.NewFrameStreamWithLogger(l.tr, l.in, dialects([]string{"common"}), false, log)
		}
		for k := range 2 {
			l.allCtx[k], l.allCan[k] = context.WithCancel(context.Background())
		}
		if c.Shared {
			l.allCan[1]()
			l.allCtx[1], l.allCan[1] = l.allCtx[0], l.allCan[0]
		}
		// someone who waits for the end and asks for the reason at once
		var seen error
		l.g.Go(func() {
			<-l.st.Closed()
			if seen = l.st.GetCloseErr(); seen == nil {
				l.g.fail(fmt.Errorf("the stream is closed but gives no reason"))
			}
		})
		closeCalled := false
		var problem error
		steps := append(append([][]string{}, c.Steps...), []string{"close"}, []string{"close", "close"})
		for k, step := range steps {
			var startNow []string
			for _, op := range step {
				startNow = append(startNow, op)
				if op == "closeW" {
					// closing a channel someone may be sending on is the caller's mistake
					for _, o := range step {
						if o == "send" || o == "deluge" {
							startNow = startNow[:len(startNow)-1]
							break
						}
					}
				}
			}
			before := l.closed()
			for _, op := range startNow {
				l.do(op)
				if op == "close" {
					closeCalled = true
				}
			}
			synctest.Wait()
			if problem = l.check(&closeCalled); problem != nil {
				problem = fmt.Errorf("step %d %v: %v", k, step, problem)
				break
			}
			if !before && l.closed() && k < len(c.Steps) {
				i.Label("closed-by:%v", reasonName(l.first))
				i.NonTrivial(true)
				if len(step) > 1 {
					i.Label("closed-in-concurrent-step")
				}
			}
		}
		// let everything go. A closed stream has let go by itself, whether or not the contexts
		// of its loops are ever cancelled: the bubble reports goroutines that have not
		l.st.Close()
		if problem != nil {
			l.allCan[0]()
			l.allCan[1]()
		}
		close(l.quit)
		l.g.wg.Wait()
		if problem == nil && seen != l.first {
			problem = fmt.Errorf("the reason changed from %v to %v", seen, l.first)
		}
		return problem
	})
}

func reasonName(err error) string {
	switch {
	case errors.Is(err, mavlink2.ErrUserClosed):
		return "close"
	case errors.Is(err, mavlink2.ErrWriteChannelClosed):
		return "write-channel"
	case errors.Is(err, context.Canceled):
		return "cancel"
	case errors.Is(err, context.DeadlineExceeded):
		return "deadline"
	case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
		return "eof"
	case errors.Is(err, errTransport):
		return "read-error"
	case errors.Is(err, errWrite):
		return "write-error"
	}
	return "transport-error"
}

func Test_C11(t *testing.T) {
	s := NewSuite(t, "C11", true)
	Phase(s, "lifecycle", N(24000, 800000), genLife, func(c lifeCase, i *Info) error {
		reps := c.Reps
		if replay != nil {
			reps = 400
		}
		for k := range reps {
			info := i
			if k > 0 {
				info = &Info{}
			}
			if err := runLife(t, c, info); err != nil {
				return err
			}
		}
		return nil
	})
}
