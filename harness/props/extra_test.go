package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"regexp"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/util"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// ---- announcements of invalid frames ----

var number = regexp.MustCompile(`\d+`)

// capture runs f with standard output going to a file and returns what was printed.
type capture struct{ file *os.File }

func newCapture(t *testing.T) *capture {
	f, err := os.CreateTemp("", "stdout")
	must(err)
	must(os.Remove(f.Name()))
	t.Cleanup(func() { f.Close() })
	return &capture{f}
}

func (c *capture) run(f func() error) (string, error) {
	must(c.file.Truncate(0))
	_, err := c.file.Seek(0, io.SeekStart)
	must(err)
	old := os.Stdout
	os.Stdout = c.file
	defer func() { os.Stdout = old }()
	err = f()
	_, serr := c.file.Seek(0, io.SeekStart)
	must(serr)
	b, rerr := io.ReadAll(c.file)
	must(rerr)
	return string(b), err
}

func Test_C27(t *testing.T) {
	s := NewSuite(t, "C27", true)
	var out *capture
	check := func(c readCase, i *Info) error {
		if out == nil {
			out = newCapture(t)
		}
		all := ref.Scan(c.Dialects, c.bytes(), true)
		want := map[string]int{}
		total := 0
		for _, d := range all {
			if d.Valid {
				continue
			}
			p, ok, _ := ref.Parse(d.Bytes)
			if !ok {
				return infra(fmt.Errorf("reference delivered the unparsable %x", d.Bytes))
			}
			total++
			want[fmt.Sprint([]int{p.V, int(p.ID), int(p.Sys), int(p.Comp)})] = 1
		}
		i.Label("kinds=%s", bucket(len(want)))
		if total > len(want) {
			i.Label("repeated")
		}
		i.NonTrivial(len(want) > 0)
		text, err := out.run(func() error {
			_, err := c.deframe(t, nil, nil)
			return err
		})
		if err != nil {
			return err
		}
		got := map[string]int{}
		for _, line := range bytes.Split([]byte(text), []byte("\n")) {
			if len(bytes.TrimSpace(line)) == 0 {
				continue
			}
			var ns []int
			for _, n := range number.FindAll(line, -1) {
				v := 0
				fmt.Sscan(string(n), &v)
				ns = append(ns, v)
			}
			key := fmt.Sprint(ns)
			if want[key] == 0 {
				return fmt.Errorf("%q was printed, but no invalid frame has these values (%v)", line, keys(want))
			}
			if got[key]++; got[key] > 1 {
				return fmt.Errorf("%q was printed more than once", line)
			}
		}
		for k := range want {
			if got[k] == 0 {
				return fmt.Errorf("the invalid frame with version, message, system and component %s was not announced", k)
			}
		}
		return nil
	}
	Phase(s, "announce", N(24000, 600000), func(t *rapid.T) readCase {
		c := genRead(t, uniform(t, 2, "invalid") == 0)
		if c.Repeat > 20 {
			c.Repeat = 20
		}
		return c
	}, check)
	// many kinds, all of them again later
	Phase(s, "kinds", N(150, 4000), func(t *rapid.T) readCase {
		c := genLong(t, uniform(t, 2, "invalid") == 0)
		if c.Many.N > 2000 {
			c.Many.N = 60 + uniform(t, 600, "kinds")
			if uniform(t, 10, "more") == 0 {
				c.Many.N = 1000 + uniform(t, 8000, "kinds")
			}
		}
		c.Many.Turn, c.Many.Bad, c.Repeat = true, 1+uniform(t, 2, "bad"), 1+uniform(t, 3, "again")
		return c
	}, check)
	// more kinds than small counters count, the first ones again later
	Phase(s, "most-kinds", N(4, 60), func(t *rapid.T) readCase {
		c := genLong(t, uniform(t, 2, "invalid") == 0)
		c.Many.N, c.Many.V = 65500+uniform(t, 3000, "kinds"), uniform(t, 3, "v")
		if c.Many.V == 0 && uniform(t, 2, "all") == 0 {
			c.Many.N = 131072
		}
		c.Many.Turn, c.Many.Bad, c.Many.Gap, c.Repeat = true, 1, 0, 2
		return c
	}, check)
}

func keys(m map[string]int) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	return
}

// ---- the UDP adapter, concurrently ----

type udpRaceCase struct {
	Peers   int    `json:"peers"`
	Send    []Hex  `json:"send"` // datagrams, by the peers in turn
	Writers int    `json:"writers"`
	Write   []Hex  `json:"write"`
	Late    []bool `json:"late"` // written once something was read, unless nothing is
	DelayUs int    `json:"delay_us"`
	Closers int    `json:"closers"` // 0: closed at the end
}

func Test_C28(t *testing.T) {
	s := NewSuite(t, "C28", true)
	Phase(s, "udp-race", N(1000, 30000), func(t *rapid.T) udpRaceCase {
		c := udpRaceCase{Peers: 1 + uniform(t, 3, "peers"), Writers: 1 + uniform(t, 4, "writers")*(1+uniform(t, 4, "more")),
			DelayUs: uniform(t, 3, "delay") * uniform(t, 300, "us"), Closers: uniform(t, 3, "closers")}
		for k := uniform(t, 8, "send"); k > 0; k-- {
			c.Send = append(c.Send, append([]byte{byte(k)}, genBytes(t, raceSize(t), "data")...))
		}
		for k := uniform(t, 12, "write") + uniform(t, c.Writers, "each"); k > 0; k-- {
			c.Write = append(c.Write, append([]byte{byte(k)}, genBytes(t, raceSize(t), "data")...))
			c.Late = append(c.Late, uniform(t, 3, "late") == 0)
		}
		return c
	}, checkUDPRace)
}

// raceSize is the size of a datagram, less two bytes; the socket holds a dozen of the largest.
func raceSize(t *rapid.T) int {
	if uniform(t, 8, "large") == 0 {
		return 1000 + uniform(t, 8000, "len")
	}
	return uniform(t, 100, "len")
}

func checkUDPRace(c udpRaceCase, i *Info) error {
	i.NonTrivial(len(c.Send) > 0 && len(c.Write) > 0)
	i.Label("closers=%d", c.Closers)
	u, port, err := openUDP("127.0.0.1")
	if err != nil {
		return err
	}
	var peers []*net.UDPConn
	for range c.Peers {
		p, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			u.Close()
			return infra(err)
		}
		defer p.Close()
		peers = append(peers, p)
	}
	dst := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
	var g group
	var first = -1 // the peer whose datagram the one reader got first
	var read [][]byte
	readDone := make(chan struct{})
	allRead := make(chan struct{})
	someRead := make(chan struct{})
	var haveRead atomic.Bool
	var closing atomic.Bool
	g.Go(func() {
		defer close(readDone)
		buf := make([]byte, 1<<16)
		for { // it goes on waiting for more while others write, until the adapter is closed
			if len(read) == len(c.Send) {
				close(allRead)
			}
			n, err := u.Read(buf)
			if err != nil {
				if !closing.Load() {
					g.fail(fmt.Errorf("reading: %v", err))
				}
				return
			}
			read = append(read, clone(buf[:n]))
			if haveRead.CompareAndSwap(false, true) {
				close(someRead)
			}
		}
	})
	// the datagrams carry the sender in a last byte
	for k := range peers {
		g.Go(func() {
			for j := k; j < len(c.Send); j += c.Peers {
				if _, err := peers[k].WriteToUDP(append(clone(c.Send[j]), byte(k)), dst); err != nil && !closing.Load() {
					g.fail(infra(err))
				}
			}
		})
	}
	written := make([][][]byte, c.Writers)
	var writers sync.WaitGroup
	for k := range c.Writers {
		writers.Add(1)
		g.Go(func() {
			defer writers.Done()
			for j := k; j < len(c.Write); j += c.Writers {
				if c.Late[j] {
					select {
					case <-someRead:
					case <-allRead:
					case <-readDone:
					}
				}
				known := haveRead.Load()
				n, err := u.Write(append(clone(c.Write[j]), byte(j)))
				switch {
				case known && errors.Is(err, util.ErrNoAddress):
					g.fail(fmt.Errorf("a write after the first datagram was read reports %q", err))
				case err == nil && n == len(c.Write[j])+1:
					written[k] = append(written[k], append(clone(c.Write[j]), byte(j)))
				case err == nil:
					g.fail(fmt.Errorf("a write of %d bytes took %d", len(c.Write[j])+1, n))
				case !errors.Is(err, util.ErrNoAddress) && !closing.Load():
					g.fail(fmt.Errorf("writing: %v", err))
				}
			}
		})
	}
	finish := func() {
		closing.Store(true)
		u.Close()
	}
	for range c.Closers {
		g.Go(func() {
			if c.DelayUs > 0 {
				time.Sleep(time.Duration(c.DelayUs) * time.Microsecond)
			}
			finish()
		})
	}
	if err := withTimeout("using the adapter", func() error {
		if c.Closers == 0 {
			select {
			case <-allRead:
			case <-readDone: // it failed
			}
			writers.Wait()
			finish()
		}
		g.wg.Wait()
		finish()
		return nil
	}); err != nil {
		u.Close()
		return err
	}
	if err := g.failed(); err != nil {
		return err
	}
	// what was read was sent
	sent := map[string]int{}
	for j, b := range c.Send {
		sent[string(append(clone(b), byte(j%c.Peers)))]++
	}
	for k, b := range read {
		if sent[string(b)]--; sent[string(b)] < 0 {
			return fmt.Errorf("read %x, which nobody sent (again)", b)
		}
		if k == 0 {
			first = int(b[len(b)-1])
		}
	}
	if c.Closers == 0 && len(read) != len(c.Send) {
		return fmt.Errorf("%d datagrams read of %d", len(read), len(c.Send))
	}
	// what was written reached the first sender and nobody else
	want := map[string]int{}
	n := 0
	for _, ws := range written {
		for _, w := range ws {
			want[string(w)]++
			n++
		}
	}
	if n > 0 && first < 0 && c.Closers == 0 {
		return fmt.Errorf("%d writes succeeded before anything was read", n)
	}
	if first < 0 && n > 0 { // the reader's first datagram was cut off by Close
		return nil
	}
	buf := make([]byte, 1<<16)
	for p, peer := range peers {
		for k := 0; p == first && k < n; k++ {
			peer.SetReadDeadline(time.Now().Add(readTimeout))
			m, _, err := peer.ReadFromUDP(buf)
			if err != nil {
				return fmt.Errorf("only %d of %d writes reached the first sender: %v", k, n, err)
			}
			if want[string(buf[:m])]--; want[string(buf[:m])] < 0 {
				return fmt.Errorf("the first sender got %x, which was not written (again)", buf[:m])
			}
		}
		peer.SetReadDeadline(time.Now().Add(100 * time.Microsecond))
		if m, _, err := peer.ReadFromUDP(buf); err == nil {
			return fmt.Errorf("peer %d (the first sender is %d) got %x, which was not for it", p, first, buf[:m])
		}
	}
	return nil
}

// ---- from one protocol version to the other ----

type convertCase struct {
	decodeCase
	To   []Head `json:"to"`
	Edit []Hex  `json:"edit"` // if not empty: the values stored before the k-th encoding
}

func Test_C29(t *testing.T) {
	s := NewSuite(t, "C29", false)
	Phase(s, "variable-length", N(24000, 480000), genExtHops, checkExtHops)
	Phase(s, "convert", N(60000, 1400000), func(t *rapid.T) convertCase {
		c := convertCase{decodeCase: genDecode(t)}
		for k := 1 + uniform(t, 3, "hops"); k > 0; k-- {
			h := genHead(t, 0)
			c.To = append(c.To, h)
			var edit Hex
			if uniform(t, 3, "edit") == 0 {
				edit = genPayload(t, c.Msg.def())
			}
			c.Edit = append(c.Edit, edit)
		}
		return c
	}, func(c convertCase, i *Info) error {
		m := c.Msg.def()
		ds := dialects(c.Dialects)
		raw := ref.Build(c.Header, c.Payload, m.CRC, c.Sig)
		values := c.full(m)
		f := frameOf(clone(raw))
		v := f.GetVersion()
		i.NonTrivial(len(ref.Trim(values)) > 1)
		for k, h := range c.To {
			if err := ds.Validate(f); err != nil {
				return fmt.Errorf("hop %d: frame %x rejected: %v", k, f.Bytes(), err)
			}
			msg, err := ds.GetMessage(f)
			if err != nil {
				return fmt.Errorf("hop %d: frame %x does not decode: %v", k, f.Bytes(), err)
			}
			if err := checkFields(m, msg, values); err != nil {
				return fmt.Errorf("hop %d: %v", k, err)
			}
			i.Label("v%d-to-v%d", v, h.V)
			before := values // f still holds them if the encoding is refused
			if k < len(c.Edit) && len(c.Edit[k]) > 0 {
				i.Label("edited")
				mark := reflect.ValueOf(msg).Elem().FieldByName("HasExtensionFieldValues")
				if err := setFields(m, msg, c.Edit[k], mark.IsValid() && mark.Bool()); err != nil {
					return err
				}
				values = clone(c.Edit[k])
			}
			g, err := ds.GetFrame(h.V, h.Sys, h.Comp, h.Seq, msg)
			if h.V == 1 && m.ID > 255 {
				i.Label("refused")
				if g != nil || !errors.Is(err, mavlink2.ErrEncodeV2MessageV1Frame) {
					return fmt.Errorf("hop %d: message %d as version 1: %v", k, m.ID, err)
				}
				values = before
				continue
			}
			if err != nil {
				return fmt.Errorf("hop %d: encoding the decoded %s as version %d: %v", k, m.Name, h.V, err)
			}
			if h.V == 1 {
				clear(values[m.Min:])
			}
			payload := values[:m.Min]
			if h.V == 2 {
				payload = ref.Trim(values)
			}
			want := ref.Build(ref.Header{V: h.V, Seq: h.Seq, Sys: h.Sys, Comp: h.Comp, ID: m.ID}, payload, m.CRC, nil)
			if err := eqBytes(fmt.Sprintf("hop %d: %s from version %d to %d", k, m.Name, v, h.V), g.Bytes(), want); err != nil {
				return err
			}
			f, v = g, h.V
		}
		return nil
	})
}

// ---- relaying ----

type relayCase struct {
	readCase
	Hops   int   `json:"hops"`   // streams behind the first pair
	Buffer []int `json:"buffer"` // capacity of each write channel
	Both   bool  `json:"both"`   // the sending streams read, too
}

// Frames go from stream to stream; between two of them lies a pipe without any buffer.
func Test_C30(t *testing.T) {
	s := NewSuite(t, "C30", true)
	gen := func(t *rapid.T, rc readCase) relayCase {
		c := relayCase{readCase: rc, Hops: uniform(t, 4, "hops"), Both: uniform(t, 2, "both") == 1}
		if c.Repeat > 10 {
			c.Repeat = 10
		}
		c.Lag, c.Pause = 0, 0
		if c.Invalid {
			c.Hops = 0 // invalid frames may overlap: the next scan sees something else
		}
		for range c.Hops + 1 {
			c.Buffer = append(c.Buffer, uniform(t, 3, "buffer")*uniform(t, 5, "buffer-x"))
		}
		return c
	}
	check := func(c relayCase, i *Info) error {
		want := ref.Scan(c.Dialects, c.bytes(), c.Invalid)
		c.describe(i, want)
		i.Label("hops=%d", c.Hops)
		ds := dialects(c.Dialects)
		var problem error
		sink := newTransport()
		err := bubble(t, func() error {
			src := newTransport()
			src.chunks, src.endOnce = c.Chunks, c.EndOnce
			src.feed(c.bytes())
			src.end(c.endErr(), c.EndWith)
			var g group
			var all []*mavlink2.FrameStream
			ctx := context.Background()
			from := mavlink2.NewFrameStream(src, make(chan mavlink2.Frame), ds, c.Invalid)
			all = append(all, from)
			head := from
			g.Go(func() { head.ReadContext(ctx) })
			for k := 0; k <= c.Hops; k++ {
				var out, next io.ReadWriteCloser = sink, nil
				if k < c.Hops {
					out, next = net.Pipe()
				}
				in := make(chan mavlink2.Frame, c.Buffer[k])
				to := mavlink2.NewFrameStream(out, in, ds, false)
				all = append(all, to)
				prev := from
				g.Go(func() { to.WriteContext(ctx) })
				if c.Both {
					g.Go(func() { to.ReadContext(ctx) })
					g.Go(func() {
						for f := range to.Read() {
							g.fail(fmt.Errorf("frame %x came from nowhere", f.Bytes()))
						}
					})
				}
				g.Go(func() { // the relay
					for f := range prev.Read() {
						select {
						case to.Write() <- f:
						case <-to.Closed():
						}
					}
					close(in)
				})
				if next != nil {
					from = mavlink2.NewFrameStream(next, make(chan mavlink2.Frame), ds, false)
					all = append(all, from)
					f := from
					g.Go(func() { f.ReadContext(ctx) })
				}
			}
			synctest.Wait()
			if problem = g.failed(); problem == nil {
				for k, st := range all {
					e := st.GetCloseErr()
					ok := false
					switch {
					case k == 0:
						ok = endMatches(e, c.endErr())
					case k%2 == 1:
						ok = errors.Is(e, mavlink2.ErrWriteChannelClosed)
					default:
						ok = endMatches(e, io.EOF)
					}
					if !ok {
						problem = fmt.Errorf("after the source ended with %q, stream %d of %d reports %v", c.endErr(), k, len(all), e)
						break
					}
				}
			}
			for _, st := range all {
				st.Close()
			}
			g.wg.Wait()
			if problem == nil {
				problem = g.failed()
			}
			return nil
		})
		if problem != nil {
			return problem
		}
		if err != nil {
			return err
		}
		for k, w := range want {
			if k >= len(sink.writes) {
				return fmt.Errorf("frame %d of %d did not get through: %x", k, len(want), w.Bytes)
			}
			if err := eqBytes(fmt.Sprintf("frame %d at the end of the line", k), sink.writes[k], w.Bytes); err != nil {
				return err
			}
		}
		if len(sink.writes) > len(want) {
			return fmt.Errorf("%d frames at the end of the line, want %d", len(sink.writes), len(want))
		}
		return nil
	}
	Phase(s, "relay", N(12000, 320000), func(t *rapid.T) relayCase {
		return gen(t, genRead(t, uniform(t, 4, "invalid") == 0))
	}, check)
	Phase(s, "long", N(4, 100), func(t *rapid.T) relayCase {
		return gen(t, genLong(t, uniform(t, 4, "invalid") == 0))
	}, check)
}

// ---- byte helpers ----

type bytesCase struct {
	Data  Hex `json:"data"`
	Spare Hex `json:"spare"` // behind the data, in the same array
}

func Test_C31(t *testing.T) {
	s := NewSuite(t, "C31", false)
	check := func(c bytesCase, i *Info) error {
		i.NonTrivial(len(c.Data) > 1)
		whole := append(clone(c.Data), c.Spare...)
		in := whole[:len(c.Data)]
		got := util.TruncateV2(in)
		want := ref.Trim(c.Data)
		if err := eqBytes(fmt.Sprintf("truncated %x", c.Data), got, want); err != nil {
			return err
		}
		if len(want) < len(c.Data) {
			i.Label("truncated")
		}
		n := util.CStrLen(in)
		if k := bytes.IndexByte(c.Data, 0); n != k && !(k < 0 && n == len(c.Data)) {
			return fmt.Errorf("the length of %x is given as %d", c.Data, n)
		}
		return eqBytes("the buffer", whole, append(clone(c.Data), c.Spare...))
	}
	Phase(s, "helpers", N(60000, 1200000), func(t *rapid.T) bytesCase {
		n := uniform(t, 20, "n")
		switch uniform(t, 40, "size") {
		case 0, 1, 2, 3, 4, 5, 6, 7, 8, 9:
			n = uniform(t, 300, "n")
		case 10, 11, 12, 13, 14, 15, 16, 17, 18, 19:
			n = uniform(t, 4, "n")
		case 20:
			n = uniform(t, 3000, "n")
		case 21:
			if n = uniform(t, 6000, "n"); n < 20 {
				n += 65530
			}
		}
		c := bytesCase{Data: genBytes(t, n, "data")}
		if c.Data == nil {
			c.Data = Hex{}
		}
		if uniform(t, 3, "text") == 0 { // no early zero byte
			for k := range c.Data[:uniform(t, n+1, "until")] {
				c.Data[k] |= 1
			}
		}
		c.Spare = genBytes(t, uniform(t, 10, "spare"), "spare")
		return c
	}, check)
	// large slices, by what they consist of
	Phase(s, "large", N(200, 4000), func(t *rapid.T) largeCase {
		c := largeCase{N: 1<<[]int{8, 12, 15, 16, 17, 18, 20}[uniform(t, 7, "size")] + uniform(t, 9, "around") - 4, Fill: byte(1 + bits(t, 7, "fill"))}
		if uniform(t, 4, "some") > 0 { // the end of the text, near the end or anywhere
			c.Text = c.N - uniform(t, 1+c.N>>(4*uniform(t, 6, "near")), "rest")
		}
		if uniform(t, 2, "more") == 0 {
			c.Last = 1 + uniform(t, c.N, "last")
		}
		return c
	}, func(c largeCase, i *Info) error {
		return check(bytesCase{Data: c.bytes(), Spare: Hex{1, 0}}, i)
	})
}

// largeCase is a slice of N bytes, of which the first Text ones are Fill, and one behind them may be, too.
type largeCase struct {
	N    int  `json:"n"`
	Text int  `json:"text"`
	Fill byte `json:"fill"`
	Last int  `json:"last"`
}

func (c largeCase) bytes() Hex {
	b := append(bytes.Repeat(Hex{c.Fill}, c.Text), make(Hex, c.N-c.Text)...)
	if c.Last > 0 {
		b[c.Last-1] = c.Fill
	}
	return b
}

// ---- closing from within ----

type callbackCase struct {
	Frames int    `json:"frames"` // that arrive, and are sent
	At     int    `json:"at"`     // which call closes
	Where  string `json:"where"`  // log-read, log-written, read, write, consumer
	How    string `json:"how"`    // close, cancelR, cancelW
	Buffer int    `json:"buffer"`
	Shared bool   `json:"shared"`  // both loops have the same context
	LogErr bool   `json:"log_err"` // the logger reports errors
	Bad    bool   `json:"bad"`     // every second frame is invalid, and they are asked for
	Chunks []int  `json:"chunks"`
	Burst  bool   `json:"burst"` // the frames arrive at once
	Takes  int    `json:"takes"` // the consumer stops after so many; 0: it takes all
	After  string `json:"after"` // what the consumer that closes does then: goes on taking frames (""), leaves, waits for the close
}

type hookLogger struct {
	read, written func()
	fail          bool
}

func (h *hookLogger) err() error {
	if h.fail {
		return errors.New("the log is full")
	}
	return nil
}

func (h *hookLogger) LogRead([]byte) error    { h.read(); return h.err() }
func (h *hookLogger) LogWritten([]byte) error { h.written(); return h.err() }

type hookTransport struct {
	*transport
	read, write func()
}

func (h *hookTransport) Read(p []byte) (int, error) {
	h.read()
	return h.transport.Read(p)
}

func (h *hookTransport) Write(p []byte) (int, error) {
	h.write()
	return h.transport.Write(p)
}

func genCallback(t *rapid.T) callbackCase {
	return callbackCase{
		Frames: 1 + uniform(t, 6*(1+uniform(t, 6, "more")), "frames"),
		At:     1 + uniform(t, 4*(1+uniform(t, 4, "later")), "at"),
		Chunks: genChunks(t),
		Where:  []string{"log-read", "log-written", "read", "write", "consumer"}[uniform(t, 5, "where")],
		How:    []string{"close", "close", "cancelR", "cancelW"}[uniform(t, 4, "how")],
		Buffer: uniform(t, 3, "buffer"),
		Shared: uniform(t, 4, "shared") == 0,
		LogErr: uniform(t, 3, "log-err") == 0,
		Bad:    uniform(t, 3, "bad") == 0,
		Burst:  uniform(t, 2, "burst") == 0,
		Takes:  max(0, uniform(t, 16, "takes")-8),
		After:  []string{"", "leave", "wait"}[uniform(t, 3, "after")],
	}
}

// checkCallback has the stream closed by the logger, the transport or the consumer
// while the stream calls it.
func checkCallback(t *testing.T, c callbackCase, i *Info) error {
	i.Label("from:%s", c.Where)
	return bubble(t, func() error {
		tr := newTransport()
		tr.chunks = c.Chunks
		rctx, rcancel := context.WithCancel(context.Background())
		wctx, wcancel := context.WithCancel(context.Background())
		defer rcancel()
		defer wcancel()
		if c.Shared {
			wcancel()
			wctx, wcancel = rctx, rcancel
		}
		var st *mavlink2.FrameStream
		var mu sync.Mutex
		calls, fired := 0, false
		hook := func(where string) func() {
			return func() {
				if where != c.Where {
					return
				}
				mu.Lock()
				calls++
				now := calls == c.At
				if now {
					fired = true
				}
				mu.Unlock()
				if !now {
					return
				}
				switch c.How {
				case "close":
					st.Close()
				case "cancelR":
					rcancel()
				case "cancelW":
					wcancel()
				}
			}
		}
		in := make(chan mavlink2.Frame, c.Buffer)
		st = mavlink2.NewFrameStreamWithLogger(&hookTransport{tr, hook("read"), hook("write")}, in,
			dialects([]string{"common"}), c.Bad, &hookLogger{hook("log-read"), hook("log-written"), c.LogErr})
		var g group
		g.Go(func() { st.ReadContext(rctx) })
		g.Go(func() { st.WriteContext(wctx) })
		got := 0
		g.Go(func() {
			onFrame := hook("consumer")
			for range st.Read() {
				got++
				onFrame()
				if got == c.Takes {
					return
				}
				mu.Lock()
				own := fired && c.Where == "consumer"
				mu.Unlock()
				if own && c.After != "" {
					if c.After == "wait" {
						<-st.Closed()
					}
					return
				}
			}
		})
		g.Go(func() {
			for k := range c.Frames {
				select {
				case st.Write() <- frameOf(clone(lifeFrames[k])):
				case <-st.Closed():
					return
				}
			}
		})
		live, due := ref.Live{Dialects: []string{"common"}, Invalid: c.Bad}, 0
		var line []byte
		for k := range c.Frames {
			f := clone(lifeFrames[k])
			if c.Bad && k%2 == 1 { // an invalid one, which is asked for
				f[len(f)-1] ^= 0x11
			}
			tr.feed(f)
			line = append(line, f...)
			due = live.Due(line)
			if !c.Burst {
				synctest.Wait()
			}
		}
		synctest.Wait()
		if c.Takes > 0 && due > c.Takes {
			i.Label("consumer-stops")
			due = c.Takes
		}
		problem := g.failed()
		closed := false
		select {
		case <-st.Closed():
			closed = true
		default:
		}
		mu.Lock()
		wanted := fired
		mu.Unlock()
		i.NonTrivial(wanted)
		if wanted {
			i.Label("closed-from:%s", c.Where)
		}
		reason := map[string]error{"close": mavlink2.ErrUserClosed, "cancelR": context.Canceled, "cancelW": context.Canceled}[c.How]
		switch {
		case problem != nil:
		case closed != wanted:
			problem = fmt.Errorf("closed: %v, want %v (%v)", closed, wanted, st.GetCloseErr())
		case closed && !errors.Is(st.GetCloseErr(), reason):
			problem = fmt.Errorf("closed with %v, want %v", st.GetCloseErr(), reason)
		case closed && tr.closes != 1:
			problem = fmt.Errorf("the transport was closed %d times", tr.closes)
		case !closed && (got != due || len(tr.writes) != c.Frames):
			problem = fmt.Errorf("%d frames delivered and %d written, want %d and %d", got, len(tr.writes), due, c.Frames)
		}
		st.Close()
		g.wg.Wait()
		if problem == nil {
			problem = g.failed()
		}
		return problem
	})
}

func Test_C32(t *testing.T) {
	s := NewSuite(t, "C32", true)
	Phase(s, "callback", N(16000, 400000), genCallback, func(c callbackCase, i *Info) error {
		return checkCallback(t, c, i)
	})
}

// ---- delivery without delay ----

type promptCase struct {
	readCase
	Bursts []int `json:"bursts"`         // how many bytes arrive at a time, over and over
	Rest   int   `json:"rest,omitempty"` // ms between bursts
}

func Test_C33(t *testing.T) {
	s := NewSuite(t, "C33", true)
	check := func(c promptCase, i *Info) error {
		line := c.bytes()
		want := ref.Scan(c.Dialects, line, c.Invalid)
		c.describe(i, want)
		var frames []mavlink2.Frame
		early := 0
		err := bubble(t, func() error {
			tr := newTransport()
			tr.chunks = c.Chunks
			st := mavlink2.NewFrameStream(tr, make(chan mavlink2.Frame), dialects(c.Dialects), c.Invalid)
			var g group
			g.Go(func() { st.ReadContext(context.Background()) })
			g.Go(func() {
				for f := range st.Read() {
					frames = append(frames, f)
				}
			})
			var problem error
			live := ref.Live{Dialects: c.Dialects, Invalid: c.Invalid}
			for k, at := 0, 0; at < len(line) && problem == nil; k++ {
				n := min(c.Bursts[k%len(c.Bursts)], len(line)-at)
				if c.Rest > 0 {
					time.Sleep(time.Duration(c.Rest) * time.Millisecond)
				}
				tr.feed(line[at : at+n])
				at += n
				synctest.Wait()
				due := live.Due(line[:at])
				switch {
				case g.failed() != nil:
					problem = g.failed()
				case len(frames) < due:
					problem = fmt.Errorf("after %d bytes %d of the %d complete frames are delivered; missing is %x", at, len(frames), due, want[len(frames)].Bytes)
				case st.GetCloseErr() != nil:
					problem = fmt.Errorf("after %d bytes the stream closed with %v", at, st.GetCloseErr())
				}
				early = max(early, due*min(1, len(line)-at))
			}
			st.Close()
			g.wg.Wait()
			if problem == nil {
				problem = g.failed()
			}
			return problem
		})
		if err != nil {
			return err
		}
		i.Label("due-before-the-end=%s", bucket(early))
		for k, f := range frames {
			if k >= len(want) {
				return fmt.Errorf("%x was delivered, which is no frame of the stream", f.Bytes())
			}
			if err := eqBytes(fmt.Sprintf("frame %d", k), f.Bytes(), want[k].Bytes); err != nil {
				return err
			}
		}
		return nil
	}
	Phase(s, "prompt", N(16000, 400000), func(t *rapid.T) promptCase {
		c := promptCase{readCase: genRead(t, uniform(t, 4, "invalid") == 0)}
		c.Lag, c.Pause, c.Repeat = 0, 0, min(c.Repeat, 3)
		if uniform(t, 4, "resting") == 0 {
			c.Rest = genAge(t, 3*len(c.Stream)+1)
		}
		for k := 1 + uniform(t, 6, "bursts"); k > 0; k-- {
			n := 1 + uniform(t, 40, "burst")
			if uniform(t, 3, "big") == 0 {
				n = 1 + uniform(t, 400, "burst")
			}
			c.Bursts = append(c.Bursts, n)
		}
		return c
	}, check)
	Phase(s, "long", N(3, 60), func(t *rapid.T) promptCase {
		c := promptCase{readCase: genLong(t, uniform(t, 4, "invalid") == 0)}
		for k := 1 + uniform(t, 6, "bursts"); k > 0; k-- {
			c.Bursts = append(c.Bursts, 100+uniform(t, 3000, "burst"))
		}
		return c
	}, check)
	RawPhase(s, "prompt", func(b []byte) promptCase {
		b = append(b, make([]byte, max(0, 2-len(b)))...)
		return promptCase{readCase: rawRead(b[2:], b[0]&1 == 1), Bursts: []int{1 + int(b[0]>>1), 1 + int(b[1])}}
	}, check)
}
