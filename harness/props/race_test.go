package props

import (
	"context"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// The tests of this file run in a binary built with the race detector: a data race ends
// the process, and the driver reports it.

// chanTransport is a transport with as little synchronization of its own as possible, so
// that it does not hide races of the stream's goroutines behind its locks.
type chanTransport struct {
	in     chan []byte
	rest   []byte
	end    chan struct{}
	endErr error
	closed chan struct{}
	once   sync.Once
	out    [][]byte // only the write loop touches it
	failAt int
	n      int
	lag    time.Duration // how long closing takes
}

func (c *chanTransport) Read(p []byte) (int, error) {
	if len(c.rest) == 0 {
		select {
		case b := <-c.in:
			c.rest = b
		default:
			select {
			case b := <-c.in:
				c.rest = b
			case <-c.closed:
				return 0, io.ErrClosedPipe
			case <-c.end:
				select {
				case b := <-c.in:
					c.rest = b
				default:
					return 0, c.endErr
				}
			}
		}
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *chanTransport) Write(p []byte) (int, error) {
	select {
	case <-c.closed:
		return 0, io.ErrClosedPipe
	default:
	}
	c.n++
	if c.n == c.failAt {
		return 0, errWrite
	}
	c.out = append(c.out, clone(p))
	return len(p), nil
}

func (c *chanTransport) Close() error {
	if c.lag > 0 {
		time.Sleep(c.lag)
	}
	c.once.Do(func() { close(c.closed) })
	return nil
}

type raceCase struct {
	Chunks   []Hex    `json:"chunks"`
	Send     []Hex    `json:"send"`
	Senders  int      `json:"senders"`
	Readers  int      `json:"readers"`
	Pollers  int      `json:"pollers"`
	Closers  []string `json:"closers"` // close, cancelR, cancelW, eof, closeW
	DelayUs  int      `json:"delay_us"`
	FailAt   int      `json:"fail_at"`
	Buffer   int      `json:"buffer"`
	Logger   bool     `json:"logger"`
	Decode   bool     `json:"decode"`
	Scribble bool     `json:"scribble"`
	CloseUs  int      `json:"close_us"` // how long closing the transport takes
	Shared   bool     `json:"shared"`   // both loops have the same context
	Streams  int      `json:"streams"`  // that many independent streams do the same at once
}

func Test_C12(t *testing.T) {
	s := NewSuite(t, "C12", true)
	ds := []string{"common", "ardupilotmega"}
	Phase(s, "race", N(3600, 120000), func(t *rapid.T) raceCase {
		c := raceCase{Senders: uniform(t, 4, "senders"), Readers: uniform(t, 4, "readers"), Pollers: 1 + uniform(t, 3, "pollers"),
			DelayUs: uniform(t, 3, "delay") * uniform(t, 400, "us"), Buffer: uniform(t, 3, "buffer"), Logger: uniform(t, 2, "logger") == 1,
			Decode: uniform(t, 2, "decode") == 1, Scribble: uniform(t, 2, "scribble") == 1,
			CloseUs: max(0, uniform(t, 4, "close-lag")-2) * uniform(t, 300, "us"), Shared: uniform(t, 4, "shared") == 0,
			Streams: 1 + uniform(t, 2, "streams")}
		for k := uniform(t, 8, "chunks"); k > 0; k-- {
			c.Chunks = append(c.Chunks, genFrame(t, ds))
		}
		for k := uniform(t, 8, "sends"); k > 0; k-- {
			c.Send = append(c.Send, genFrame(t, ds))
		}
		if uniform(t, 5, "fail") == 0 {
			c.FailAt = 1 + uniform(t, 4, "fail-at")
		}
		kinds := []string{"close", "cancelR", "cancelW", "eof", "closeW", "close"}
		for k := 1 + uniform(t, 4, "closers"); k > 0; k-- {
			c.Closers = append(c.Closers, kinds[uniform(t, len(kinds), "closer")])
		}
		return c
	}, func(c raceCase, i *Info) error {
		reps := 2
		if replay != nil {
			reps = 150
		}
		i.NonTrivial(len(c.Chunks) > 0 && c.Readers > 0 || len(c.Send) > 0 && c.Senders > 0)
		for _, k := range c.Closers {
			i.Label("closer:%s", k)
		}
		for range reps {
			var g group
			for range max(1, c.Streams) {
				g.Go(func() {
					if err := runRace(ds, c); err != nil {
						g.fail(err)
					}
				})
			}
			g.wg.Wait()
			if err := g.failed(); err != nil {
				return err
			}
		}
		return nil
	})
}

// plainLogger counts without synchronization: reads and writes are logged by one goroutine each.
type plainLogger struct{ read, written int }

func (p *plainLogger) LogRead(b []byte) error    { p.read += len(b); return nil }
func (p *plainLogger) LogWritten(b []byte) error { p.written += len(b); return nil }

func runRace(ds []string, c raceCase) error {
	tr := &chanTransport{in: make(chan []byte, len(c.Chunks)), end: make(chan struct{}), closed: make(chan struct{}), endErr: io.EOF, failAt: c.FailAt,
		lag: time.Duration(c.CloseUs) * time.Microsecond}
	for _, b := range c.Chunks {
		tr.in <- clone(b)
	}
	in := make(chan mavlink2.Frame, c.Buffer)
	var st *mavlink2.FrameStream
	if c.Logger {
		st = mavlink2.NewFrameStreamWithLogger(tr, in, dialects(ds), c.Decode, &plainLogger{})
	} else {
		st = mavlink2.NewFrameStream(tr, in, dialects(ds), c.Decode)
	}
	rctx, rcancel := context.WithCancel(context.Background())
	wctx, wcancel := context.WithCancel(context.Background())
	defer rcancel()
	defer wcancel()
	if c.Shared {
		wcancel()
		wctx, wcancel = rctx, rcancel
	}
	var g group
	var line []byte
	for _, b := range c.Chunks {
		line = append(line, b...)
	}
	arrived := map[string]int{} // how many of each frame can be delivered
	for _, d := range ref.Scan(ds, line, c.Decode) {
		arrived[string(d.Bytes)]++
	}
	g.Go(func() { st.ReadContext(rctx) })
	g.Go(func() { st.WriteContext(wctx) })
	got := make([][]string, c.Readers) // each reader its own: no synchronization that could hide a race
	for r := range c.Readers {
		g.Go(func() {
			for f := range st.Read() {
				got[r] = append(got[r], string(f.Bytes()))
				if c.Decode {
					if msg, err := dialects(ds).GetMessage(f); err == nil {
						_ = fmt.Sprint(msg)
					}
				}
				if c.Scribble {
					b := f.Bytes()
					for k := range b {
						b[k] = 0xfd
					}
				}
			}
			if st.GetCloseErr() == nil {
				g.fail(fmt.Errorf("the read channel is closed but the stream gives no reason"))
			}
		})
	}
	var senders sync.WaitGroup
	for k := range c.Senders {
		senders.Add(1)
		g.Go(func() {
			defer senders.Done()
			for j := k; j < len(c.Send); j += c.Senders {
				f := frameOf(clone(c.Send[j]))
				select {
				case st.Write() <- f:
				case <-st.Closed():
				}
			}
		})
	}
	for range c.Pollers {
		g.Go(func() {
			for {
				st.GetCloseErr()
				select {
				case <-st.Closed():
					if st.GetCloseErr() == nil {
						g.fail(fmt.Errorf("the stream is closed but gives no reason"))
					}
					return
				case <-time.After(20 * time.Microsecond):
				}
			}
		})
	}
	if c.DelayUs > 0 {
		time.Sleep(time.Duration(c.DelayUs) * time.Microsecond)
	}
	var once, eof sync.Once
	for _, k := range c.Closers {
		g.Go(func() {
			switch k {
			case "close":
				st.Close()
			case "cancelR":
				rcancel()
			case "cancelW":
				wcancel()
			case "eof":
				eof.Do(func() { close(tr.end) })
				if c.Readers == 0 {
					st.Close()
				}
			case "closeW":
				senders.Wait()
				once.Do(func() { close(in) })
			}
		})
	}
	g.wg.Wait()
	if err := g.failed(); err != nil {
		return err
	}
	if f, ok := <-st.Read(); ok {
		return fmt.Errorf("the stream is closed and delivers %x", f.Bytes())
	}
	for _, fs := range got {
		for _, f := range fs {
			if arrived[f]--; arrived[f] < 0 {
				return fmt.Errorf("%x was delivered, which did not arrive (again)", f)
			}
		}
	}
	// what got through got through whole
	sent := map[string]int{}
	for _, b := range c.Send {
		sent[string(b)]++
	}
	for _, w := range tr.out {
		if sent[string(w)]--; sent[string(w)] < 0 {
			return fmt.Errorf("the transport got %x, which nobody sent (again)", w)
		}
	}
	return nil
}

// ---- the codec, concurrently ----

type codecCase struct {
	Enc     []encodeCase `json:"enc"`
	Frames  []codecFrame `json:"frames"` // any frames, rejected ones among them
	Text    Hex          `json:"text"`   // what the text setters are given
	Workers int          `json:"workers"`
	Shared  bool         `json:"shared"` // workers share messages and frames
}

type codecFrame struct {
	Dialects []string `json:"dialects"`
	Frame    Hex      `json:"frame"`
}

// frameUse is everything a frame can be used for without changing it.
func frameUse(names []string, f mavlink2.Frame, text string) (error, string) {
	ds := dialects(names)
	if err := checkVerdict(names, f.Bytes(), ds.Validate(f)); err != nil {
		return err, ""
	}
	out := fmt.Sprint(f, f.GetVersion(), f.GetMessageLength(), f.GetMessageSequence(), f.GetSenderSystemID(), f.GetSenderComponentID(),
		f.GetMessageID(), f.GetChecksum(), f.GetMessageBytes(), f.GetChecksumInput())
	if f2, ok := f.(mavlink2.FrameV2); ok {
		out += fmt.Sprint(f2.GetIncompatibilityFlags(), f2.GetCompatibilityFlags(), f2.GetSignature())
	}
	g, err := mavlink2.FrameFromBytes(f.Bytes(), uint16(len(f.Bytes())), true)
	if err != nil {
		return err, ""
	}
	if err := eqBytes("copied frame", g.Bytes(), f.Bytes()); err != nil {
		return err, ""
	}
	msg, err := ds.GetMessage(f)
	out += fmt.Sprint(err)
	if msg != nil {
		out += messageUse(msg) + messageSet(msg, text) + messageUse(msg)
		if _, ok := msg.(*mavlink2.UnknownMessage); ok {
			w, err := msg.Write(f.GetVersion())
			out += fmt.Sprintf("%x %v", w, err)
			_, err = ds.GetFrame(f.GetVersion(), 1, 2, 3, msg)
			out += fmt.Sprint(err)
		}
	}
	return nil, out
}

// messageUse prints a message and calls all its getters.
func messageUse(msg mavlink2.Message) string {
	out := fmt.Sprint(msg)
	v := reflect.ValueOf(msg)
	for k := range v.NumMethod() {
		m := v.Method(k)
		if n := v.Type().Method(k).Name; m.Type().NumIn() == 0 && (strings.HasPrefix(n, "Get") || strings.HasPrefix(n, "Has")) {
			out += fmt.Sprintln(n, m.Call(nil)[0])
		}
	}
	return out
}

// messageSet calls all setters of a message.
func messageSet(msg mavlink2.Message, text string) (out string) {
	v := reflect.ValueOf(msg)
	for k := range v.NumMethod() {
		m := v.Method(k)
		if !strings.HasPrefix(v.Type().Method(k).Name, "Set") || m.Type().NumIn() != 1 {
			continue
		}
		switch m.Type().In(0) {
		case reflect.TypeFor[string]():
			out += fmt.Sprintln(m.Call([]reflect.Value{reflect.ValueOf(text)}))
		case reflect.TypeFor[[]byte]():
			out += fmt.Sprintln(m.Call([]reflect.Value{reflect.ValueOf([]byte(text))}))
		}
	}
	return out
}

func Test_C24(t *testing.T) {
	s := NewSuite(t, "C24", true)
	Phase(s, "codec", N(2600, 90000), func(t *rapid.T) codecCase {
		c := codecCase{Workers: 2 + uniform(t, 5, "workers"), Shared: uniform(t, 2, "shared") == 1}
		for k := 1 + uniform(t, 5, "messages"); k > 0; k-- {
			c.Enc = append(c.Enc, genEncode(t))
			if uniform(t, 4, "with-text") == 0 {
				m := charFields[uniform(t, len(charFields), "field")].m
				c.Enc = append(c.Enc, encodeCase{Msg: MsgRef{m.Pkg, m.ID}, Dialects: []string{m.Pkg}, Head: genHead(t, m.ID), Payload: genPayload(t, m)})
			}
		}
		for k := uniform(t, 6, "frames"); k > 0; k-- {
			ds := genAnyDialects(t, 0)
			f := genFrame(t, ds)
			if uniform(t, 5, "raw-payload") == 0 {
				ds = []string{"common"}
				m := ref.Find(ds, 248)
				h := genHead(t, m.ID)
				f = ref.Build(ref.Header{V: h.V, Seq: h.Seq, Sys: h.Sys, Comp: h.Comp, ID: m.ID}, genBytes(t, m.Min+[]int{0, 1, 17, 129, 248, 249}[uniform(t, 6, "n")], "payload"), m.CRC, nil)
			}
			c.Frames = append(c.Frames, codecFrame{ds, f})
		}
		c.Text = genBytes(t, uniform(t, 60, "text"), "text")
		return c
	}, func(c codecCase, i *Info) error {
		i.NonTrivial(true)
		i.Label("shared=%v", c.Shared)
		type item struct {
			m    *ref.Msg
			ds   mavlink2.Dialects
			want []byte
			full []byte
		}
		var items []item
		var msgs []mavlink2.Message
		var frames []mavlink2.Frame
		prepare := func(e encodeCase, m *ref.Msg) (mavlink2.Message, error) {
			msg, err := newMessage(m)
			if err == nil {
				err = setFields(m, msg, e.Payload, e.ExtSet)
			}
			return msg, err
		}
		for _, e := range c.Enc {
			m := e.Msg.def()
			payload := []byte(e.Payload[:m.Min])
			if e.Head.V == 2 {
				payload = ref.Trim(e.Payload)
			}
			want := ref.Build(ref.Header{V: e.Head.V, Seq: e.Head.Seq, Sys: e.Head.Sys, Comp: e.Head.Comp, ID: m.ID}, payload, m.CRC, nil)
			items = append(items, item{m, dialects(e.Dialects), want, e.onWire(m)})
			msg, err := prepare(e, m)
			if err != nil {
				return err
			}
			msgs = append(msgs, msg)
			frames = append(frames, frameOf(clone(want)))
		}
		var raw []codecFrame
		var others []mavlink2.Frame
		for _, f := range c.Frames {
			p, _, short := ref.Parse(f.Frame)
			if short {
				f.Frame = append(clone(f.Frame), make([]byte, 280)...)
				p, _, _ = ref.Parse(f.Frame)
			}
			f.Frame = f.Frame[:p.Total]
			raw = append(raw, f)
			others = append(others, frameOf(clone(f.Frame)))
		}
		// what each worker saw, to be compared with what is seen alone, afterwards: alone
		// before could fill caches and hide races
		uses := make([][]string, c.Workers)
		sets := make([][]string, c.Workers)
		texts := make([][]string, c.Workers)
		var g group
		start := make(chan struct{})
		for w := range c.Workers {
			uses[w] = make([]string, len(raw))
			sets[w] = make([]string, len(items))
			texts[w] = make([]string, len(items))
			g.Go(func() {
				<-start
				for k := range raw {
					k := (k + w) % len(raw)
					f := others[k]
					if !c.Shared {
						f = frameOf(clone(raw[k].Frame))
					}
					var err error
					if err, uses[w][k] = frameUse(raw[k].Dialects, f, string(c.Text)); err != nil {
						g.fail(err)
						return
					}
				}
				for k := range items {
					k := (k + w) % len(items)
					own, err := prepare(c.Enc[k], items[k].m)
					if err != nil {
						g.fail(err)
						return
					}
					if c.Shared {
						texts[w][k] = messageUse(msgs[k])
					} else {
						texts[w][k] = messageUse(own)
					}
					sets[w][k] = messageSet(own, string(c.Text)) + messageUse(own)
				}
				for round := range 3 {
					for k := range items {
						k := (k + w + round) % len(items)
						it, e := items[k], c.Enc[k]
						msg, frame := msgs[k], frames[k]
						if !c.Shared {
							var err error
							if msg, err = prepare(e, it.m); err != nil {
								g.fail(err)
								return
							}
							frame = frameOf(clone(it.want))
						}
						err := func() error {
							f, err := it.ds.GetFrame(e.Head.V, e.Head.Sys, e.Head.Comp, e.Head.Seq, msg)
							if err != nil {
								return err
							}
							if err := eqBytes("frame of "+it.m.Name, f.Bytes(), it.want); err != nil {
								return err
							}
							if err := it.ds.Validate(frame); err != nil {
								return fmt.Errorf("frame %x rejected: %v", it.want, err)
							}
							got, err := it.ds.GetMessage(frame)
							if err != nil {
								return err
							}
							if err := checkFields(it.m, got, it.full); err != nil {
								return err
							}
							if round == 0 {
								_ = fmt.Sprint(msg, frame)
							}
							return eqBytes("frame afterwards", frame.Bytes(), it.want)
						}()
						if err != nil {
							g.fail(err)
							return
						}
					}
				}
			})
		}
		close(start)
		g.wg.Wait()
		if err := g.failed(); err != nil {
			return err
		}
		same := func(what string, together, alone string) error {
			if together != alone {
				return fmt.Errorf("%s: used alone it shows as %q, at the same time as others as %q", what, alone, together)
			}
			return nil
		}
		for w := range c.Workers {
			for k, f := range raw {
				err, alone := frameUse(f.Dialects, frameOf(clone(f.Frame)), string(c.Text))
				if err == nil {
					err = same(fmt.Sprintf("frame %x under %v", f.Frame, f.Dialects), uses[w][k], alone)
				}
				if err != nil {
					return err
				}
			}
			for k, it := range items {
				own, err := prepare(c.Enc[k], it.m)
				if err != nil {
					return err
				}
				if err := same(it.m.Name, texts[w][k], messageUse(own)); err != nil {
					return err
				}
				if err := same(it.m.Name+" after setting its texts", sets[w][k], messageSet(own, string(c.Text))+messageUse(own)); err != nil {
					return err
				}
			}
		}
		return nil
	})
}
