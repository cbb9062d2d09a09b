package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"slices"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// ---- back-pressure ----

type pressureCase struct {
	Many   *many `json:"many"` // what arrives, and what is to be sent
	Buffer int   `json:"buffer"`
	Chunks []int `json:"chunks"`
	// the receiver takes Take frames at a time and the transport as many, resting for Rest
	// seconds before each; the last time both take all there is
	Take []int `json:"take"`
	Rest int   `json:"rest"`
	Only int   `json:"only"` // 1: only the receiver is held back, 2: only the transport
}

const (
	// what a stream may have taken from its transport beyond what it delivered: far more
	// than any frame needs, far less than what arrives
	maxAhead = 128 << 10
	// what it may have taken from senders beyond the channel's capacity
	maxQueued = 64
)

// gate lets a number of frames through.
type gate struct {
	mu   sync.Mutex
	cond *sync.Cond
	n    int
	open bool
}

func newGate(open bool) *gate {
	g := &gate{open: open}
	g.cond = sync.NewCond(&g.mu)
	return g
}

func (g *gate) add(n int) {
	g.mu.Lock()
	g.n += n
	g.mu.Unlock()
	g.cond.Broadcast()
}

func (g *gate) unlock() {
	g.mu.Lock()
	g.open = true
	g.mu.Unlock()
	g.cond.Broadcast()
}

func (g *gate) pass() {
	g.mu.Lock()
	for g.n == 0 && !g.open {
		g.cond.Wait()
	}
	if !g.open {
		g.n--
	}
	g.mu.Unlock()
}

func Test_C35(t *testing.T) {
	s := NewSuite(t, "C35", true)
	Phase(s, "pressure", N(100, 3000), func(t *rapid.T) pressureCase {
		c := pressureCase{Many: genMany(t), Buffer: uniform(t, 3, "buffer") * uniform(t, 40, "buffer-x"), Chunks: genChunks(t)}
		c.Many.N = 10000 + uniform(t, 10000, "n")
		if len(c.Chunks) == 1 {
			c.Chunks[0] += uniform(t, 4000, "chunk")
		}
		c.Many.Bad = 0
		for k := 1 + uniform(t, 4, "takes"); k > 0; k-- {
			c.Take = append(c.Take, uniform(t, 3, "take")*uniform(t, 200, "take-n"))
		}
		c.Rest = uniform(t, 2, "rest") * genAge(t, 100) / 1000
		c.Only = uniform(t, 3, "only")
		return c
	}, func(c pressureCase, i *Info) error {
		i.NonTrivial(true)
		i.Label("only=%d", c.Only)
		line := c.Many.bytes()
		frames := c.Many.frames()
		return bubble(t, func() error {
			tr := newTransport()
			tr.chunks = c.Chunks
			tr.feed(line)
			receiver, sink := newGate(c.Only == 2), newGate(c.Only == 1)
			ht := &hookTransport{tr, func() {}, sink.pass}
			in := make(chan mavlink2.Frame, c.Buffer)
			st := mavlink2.NewFrameStream(ht, in, dialects([]string{"common"}), false)
			var g group
			var mu sync.Mutex
			var got []mavlink2.Frame
			sent := 0
			ctx := context.Background()
			g.Go(func() { st.ReadContext(ctx) })
			g.Go(func() { st.WriteContext(ctx) })
			g.Go(func() {
				for {
					receiver.pass()
					f, ok := <-st.Read()
					if !ok {
						return
					}
					mu.Lock()
					got = append(got, f)
					mu.Unlock()
				}
			})
			g.Go(func() {
				for _, f := range frames {
					select {
					case st.Write() <- frameOf(clone(f)):
						mu.Lock()
						sent++
						mu.Unlock()
					case <-st.Closed():
						return
					}
				}
			})
			size := func(n int) (total int) { // of the first n frames on the line
				for _, f := range frames[:n] {
					total += len(f) + c.Many.Gap
				}
				return
			}
			var problem error
			allowed := 0
			look := func(last bool) {
				synctest.Wait()
				if problem != nil {
					return
				}
				mu.Lock()
				defer mu.Unlock()
				tr.mu.Lock()
				left, written := len(tr.inbox), len(tr.writes)
				tr.mu.Unlock()
				due := [2]int{min(allowed, len(frames)), min(allowed, len(frames))}
				if last || c.Only == 2 {
					due[0] = len(frames)
				}
				if last || c.Only == 1 {
					due[1] = len(frames)
				}
				switch {
				case g.failed() != nil:
					problem = g.failed()
				case st.GetCloseErr() != nil:
					problem = fmt.Errorf("the stream closed with %v", st.GetCloseErr())
				case len(got) != due[0]:
					problem = fmt.Errorf("the receiver asked for %d frames of %d and has %d", due[0], len(frames), len(got))
				case written != due[1]:
					problem = fmt.Errorf("the transport takes %d writes and got %d", due[1], written)
				case len(line)-left > size(len(got))+maxAhead:
					problem = fmt.Errorf("%d frames (%d bytes) were received, but %d bytes taken from the transport", len(got), size(len(got)), len(line)-left)
				case sent > written+c.Buffer+maxQueued:
					problem = fmt.Errorf("%d frames were written and %d taken from the senders, with a channel for %d", written, sent, c.Buffer)
				}
			}
			for _, n := range c.Take {
				if c.Rest > 0 {
					time.Sleep(time.Duration(c.Rest) * time.Second)
				}
				look(false)
				allowed += n
				receiver.add(n)
				sink.add(n)
				look(false)
			}
			receiver.unlock()
			sink.unlock()
			look(true)
			st.Close()
			g.wg.Wait()
			if problem == nil {
				problem = g.failed()
			}
			if problem != nil {
				return problem
			}
			for k, f := range frames {
				if err := eqBytes(fmt.Sprintf("delivered frame %d", k), got[k].Bytes(), f); err != nil {
					return err
				}
				if err := eqBytes(fmt.Sprintf("written frame %d", k), tr.writes[k], f); err != nil {
					return err
				}
			}
			return nil
		})
	})
}

// ---- streams side by side ----

type sideCase struct {
	readCase
	Send  []Hex  `json:"send"`
	State string `json:"state"` // runs, deaf (nobody receives), stuck (writes block), silent (reads block), closed, failing
}

type sidesCase struct {
	Earlier int        `json:"earlier"` // streams that were closed just before
	Streams []sideCase `json:"streams"`
	Times   int        `json:"times,omitempty"` // that many of each, if more than one
}

func Test_C36(t *testing.T) {
	s := NewSuite(t, "C36", true)
	Phase(s, "side-by-side", N(6000, 160000), func(t *rapid.T) sidesCase {
		var c sidesCase
		var shared []byte // some streams get the same bytes and judge them differently
		for k := 2 + uniform(t, 5, "streams"); k > 0; k-- {
			sc := sideCase{readCase: genRead(t, uniform(t, 3, "invalid") == 0)}
			sc.Repeat, sc.Lag, sc.Pause = 0, 0, 0
			if shared == nil {
				shared = sc.Stream
			} else if uniform(t, 2, "same") == 0 {
				sc.Stream = shared
			}
			sc.State = []string{"runs", "runs", "runs", "deaf", "stuck", "silent", "closed", "failing"}[uniform(t, 8, "state")]
			for n := uniform(t, 5, "send"); n > 0; n-- {
				sc.Send = append(sc.Send, genFrame(t, sc.Dialects))
			}
			c.Streams = append(c.Streams, sc)
		}
		c.Earlier = max(0, uniform(t, 6, "earlier")-2)
		return c
	}, func(c sidesCase, i *Info) error { return checkSides(t, c, i) })
	// very many
	Phase(s, "crowd", N(60, 1500), func(t *rapid.T) sidesCase {
		var c sidesCase
		for k := 1 + uniform(t, 4, "kinds"); k > 0; k-- {
			sc := sideCase{readCase: genRead(t, uniform(t, 3, "invalid") == 0)}
			sc.Repeat, sc.Lag, sc.Pause = 0, 0, 0
			sc.State = []string{"runs", "runs", "deaf", "stuck", "silent", "closed", "failing"}[uniform(t, 7, "state")]
			for n := uniform(t, 3, "send"); n > 0; n-- {
				sc.Send = append(sc.Send, genFrame(t, sc.Dialects))
			}
			c.Streams = append(c.Streams, sc)
		}
		c.Times = 10 + uniform(t, 120, "times")
		c.Earlier = max(0, uniform(t, 30, "earlier")-15)
		return c
	}, func(c sidesCase, i *Info) error { return checkSides(t, c, i) })
	Phase(s, "long", N(3, 60), func(t *rapid.T) sidesCase {
		var c sidesCase
		for k := 1 + uniform(t, 3, "streams"); k > 0; k-- {
			sc := sideCase{readCase: genLong(t, uniform(t, 3, "invalid") == 0), State: "runs"}
			for n := uniform(t, 5, "send"); n > 0; n-- {
				sc.Send = append(sc.Send, genFrame(t, sc.Dialects))
			}
			c.Streams = append(c.Streams, sc)
		}
		other := sideCase{readCase: genRead(t, false), State: []string{"runs", "deaf", "stuck", "silent", "closed", "failing"}[uniform(t, 6, "state")]}
		other.Repeat, other.Lag, other.Pause = 0, 0, 0
		c.Streams = append(c.Streams, other)
		return c
	}, func(c sidesCase, i *Info) error { return checkSides(t, c, i) })
}

func checkSides(t *testing.T, c sidesCase, i *Info) error {
	base := c.Streams
	for k := 1; k < c.Times; k++ {
		c.Streams = append(c.Streams, base...)
	}
	n := len(c.Streams)
	i.Label("streams=%s", bucket(n))
	var wants [][]ref.Delivery
	running, other := 0, 0
	for _, sc := range c.Streams {
		wants = append(wants, ref.Scan(sc.Dialects, sc.bytes(), sc.Invalid))
		if sc.State == "runs" {
			running++
		} else {
			i.Label("beside:%s", sc.State)
			other++
		}
	}
	i.NonTrivial(running > 1 || running > 0 && other > 0)
	return bubble(t, func() error {
		var g group
		sts := make([]*mavlink2.FrameStream, n)
		trs := make([]*transport, n)
		logs := make([]*recorder, n)
		got := make([][]mavlink2.Frame, n)
		quit := make(chan struct{})
		ctx := context.Background()
		// others that have just been closed, with loops that have not noticed yet
		var earlier []*mavlink2.FrameStream
		for k := range c.Earlier {
			sc := c.Streams[k%n]
			tr := newTransport()
			tr.chunks = sc.Chunks
			tr.stalled = k%2 == 1
			st := mavlink2.NewFrameStream(tr, make(chan mavlink2.Frame, 8), dialects(sc.Dialects), sc.Invalid)
			g.Go(func() { st.ReadContext(ctx) })
			g.Go(func() { st.WriteContext(ctx) })
			for _, f := range sc.Send {
				st.Write() <- frameOf(clone(f))
			}
			if k%4 < 2 {
				g.Go(func() {
					for range st.Read() {
					}
				})
			}
			tr.feed(sc.bytes())
			earlier = append(earlier, st)
		}
		if c.Earlier%2 == 0 {
			synctest.Wait()
		}
		for _, st := range earlier {
			st.Close()
		}
		for k, sc := range c.Streams {
			tr := newTransport()
			tr.chunks = sc.Chunks
			trs[k], logs[k] = tr, &recorder{}
			tr.stalled = sc.State == "stuck"
			if sc.State == "failing" {
				tr.failAt, tr.failErr = 1, errTransport
			}
			in := make(chan mavlink2.Frame)
			sts[k] = mavlink2.NewFrameStreamWithLogger(tr, in, dialects(sc.Dialects), sc.Invalid, logs[k])
		}
		for k, sc := range c.Streams {
			st := sts[k]
			g.Go(func() { st.ReadContext(ctx) })
			g.Go(func() { st.WriteContext(ctx) })
			if sc.State != "deaf" {
				g.Go(func() {
					for f := range st.Read() {
						got[k] = append(got[k], f)
					}
				})
			}
			g.Go(func() {
				for _, f := range sc.Send {
					select {
					case st.Write() <- frameOf(clone(f)):
					case <-st.Closed():
						return
					case <-quit:
						return
					}
				}
			})
			if sc.State != "silent" {
				trs[k].feed(sc.bytes())
			}
			if sc.State == "closed" {
				g.Go(st.Close)
			}
		}
		// time for nothing in particular
		time.Sleep(time.Minute)
		synctest.Wait()
		problem := g.failed()
		for k, sc := range c.Streams {
			if problem != nil {
				break
			}
			st, tr := sts[k], trs[k]
			e := st.GetCloseErr()
			switch sc.State {
			case "closed":
				if !errors.Is(e, mavlink2.ErrUserClosed) {
					problem = fmt.Errorf("stream %d was closed and reports %v", k, e)
				}
			case "failing":
				if len(sc.Send) > 0 && !errors.Is(e, errTransport) {
					problem = fmt.Errorf("stream %d failed and reports %v", k, e)
				}
			default:
				if e != nil {
					problem = fmt.Errorf("stream %d (%s) closed with %v", k, sc.State, e)
				}
			}
			if problem == nil && (sc.State == "runs" || sc.State == "deaf" || sc.State == "silent") {
				if len(tr.writes) != len(sc.Send) {
					problem = fmt.Errorf("stream %d (%s) wrote %d frames of %d", k, sc.State, len(tr.writes), len(sc.Send))
				}
			}
			if problem == nil && (sc.State == "runs" || sc.State == "stuck") {
				// what may be incomplete stays so until the line ends
				live := ref.Live{Dialects: sc.Dialects, Invalid: sc.Invalid}
				if due := live.Due(sc.bytes()); len(got[k]) < due {
					problem = fmt.Errorf("stream %d (%s) delivered %d of %d complete frames", k, sc.State, len(got[k]), due)
				}
			}
		}
		// now the running ones end
		for k, sc := range c.Streams {
			if sc.State == "runs" {
				trs[k].end(io.EOF, false)
			}
		}
		synctest.Wait()
		for k, sc := range c.Streams {
			if problem == nil && sc.State == "runs" && !endMatches(sts[k].GetCloseErr(), io.EOF) {
				problem = fmt.Errorf("the line of stream %d ended, the stream reports %v", k, sts[k].GetCloseErr())
			}
			if problem == nil && slices.Contains([]string{"deaf", "stuck", "silent"}, sc.State) && sts[k].GetCloseErr() != nil {
				problem = fmt.Errorf("stream %d closed with %v when others ended", k, sts[k].GetCloseErr())
			}
		}
		for _, st := range sts {
			st.Close()
		}
		close(quit)
		g.wg.Wait()
		if problem == nil {
			problem = g.failed()
		}
		if problem != nil {
			return problem
		}
		for k, sc := range c.Streams {
			want := wants[k]
			if sc.State == "runs" {
				if err := sc.compare(got[k], want); err != nil {
					return fmt.Errorf("stream %d of %d: %v", k, n, err)
				}
			}
			for j, f := range got[k] {
				if j >= len(want) {
					return fmt.Errorf("stream %d (%s) delivered %x, which did not arrive there", k, sc.State, f.Bytes())
				}
				if err := eqBytes(fmt.Sprintf("frame %d of stream %d", j, k), f.Bytes(), want[j].Bytes); err != nil {
					return err
				}
			}
			for j, b := range logs[k].read {
				if j >= len(want) || string(b) != string(want[j].Bytes) {
					return fmt.Errorf("stream %d (%s) logged %x as frame %d", k, sc.State, b, j)
				}
			}
			if len(logs[k].written) != len(trs[k].writes) {
				return fmt.Errorf("stream %d (%s) wrote %d frames and logged %d", k, sc.State, len(trs[k].writes), len(logs[k].written))
			}
			for j, b := range trs[k].writes {
				if j >= len(sc.Send) || string(b) != string(sc.Send[j]) || string(logs[k].written[j]) != string(b) {
					return fmt.Errorf("stream %d (%s) wrote %x as frame %d", k, sc.State, b, j)
				}
			}
		}
		return nil
	})
}

// ---- the example program ----

type exampleCase struct {
	Peers     int   `json:"peers"`
	Datagrams []Hex `json:"datagrams"`
	From      []int `json:"from"`             // which peer sends each
	Rounds    int   `json:"rounds,omitempty"` // that often, if more than once
	Idle      []int `json:"idle,omitempty"`   // ms nothing happens before each round
}

func (c exampleCase) idle() time.Duration {
	sum := 0
	for _, ms := range c.Idle {
		sum += ms
	}
	return time.Duration(sum) * time.Millisecond
}

// The program's address is fixed in its source.
const examplePort = 14551

func Test_C34(t *testing.T) {
	s := NewSuite(t, "C34", false)
	names := []string{"common", "ardupilotmega"}
	gen := func(t *rapid.T) exampleCase {
		c := exampleCase{Peers: 1 + uniform(t, 3, "peers")}
		for k := uniform(t, 12, "datagrams"); k > 0; k-- {
			var d []byte
			switch uniform(t, 8, "what") {
			case 0:
				d = genStream(t, names)
			case 1:
				d = genBytes(t, uniform(t, 100, "len"), "noise")
			case 2: // part of a frame
				d = genFrame(t, names)
				d = d[:uniform(t, len(d), "cut")]
			case 3: // what other dialects define
				d = genFrame(t, pkgs)
			default:
				for j := 1 + uniform(t, 4, "frames"); j > 0; j-- {
					d = append(d, genFrame(t, names)...)
				}
			}
			c.Datagrams = append(c.Datagrams, d[:min(len(d), 1400)])
			c.From = append(c.From, uniform(t, c.Peers, "peer"))
		}
		return c
	}
	large := func(t *rapid.T) exampleCase { // and one datagram may have very many frames
		c := gen(t)
		if uniform(t, 10, "large") == 0 {
			d := genFrame(t, names)
			for k := uniform(t, 4, "frames"); k > 0; k-- {
				d = append(d, genFrame(t, names)...)
			}
			c.Datagrams = append(c.Datagrams, bytes.Repeat(d, 1+uniform(t, 30000/len(d), "times")))
			c.From = append(c.From, uniform(t, c.Peers, "peer"))
		}
		return c
	}
	check := func(c exampleCase, i *Info) error { return checkExample(c, names, i) }
	Phase(s, "example", N(500, 10000), large, check)
	Phase(s, "idle", N(1, 6), func(t *rapid.T) exampleCase {
		c := gen(t)
		c.Rounds = 2
		c.Idle = []int{pauses[uniform(t, len(pauses), "pause")], longPause}
		if uniform(t, 2, "first") == 0 {
			c.Idle[0], c.Idle[1] = c.Idle[1], c.Idle[0]
		}
		return c
	}, check)
	Phase(s, "long", N(6, 80), func(t *rapid.T) exampleCase {
		c := gen(t)
		c.Rounds = 20 + uniform(t, 150, "rounds")
		return c
	}, check)
}

// bound tells whether a UDP socket on this machine has the port.
func bound(port int) bool {
	for _, n := range []string{"/proc/net/udp", "/proc/net/udp6"} {
		b, err := os.ReadFile(n)
		if err == nil && bytes.Contains(b, []byte(fmt.Sprintf(":%04X ", port))) && localPort(b, port) {
			return true
		}
	}
	return false
}

func localPort(table []byte, port int) bool {
	for _, line := range bytes.Split(table, []byte("\n"))[1:] {
		f := bytes.Fields(line)
		if len(f) > 1 && bytes.HasSuffix(f[1], []byte(fmt.Sprintf(":%04X", port))) {
			return true
		}
	}
	return false
}

func await(what string, f func() bool) error {
	for end := time.Now().Add(readTimeout); !f(); time.Sleep(200 * time.Microsecond) {
		if time.Now().After(end) {
			return fmt.Errorf("%s: not within %v", what, readTimeout)
		}
	}
	return nil
}

var logTime = regexp.MustCompile(`(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)

// printed brings what the program prints to a form that leaves time and spacing out.
func printed(s string) string {
	return strings.Join(strings.Fields(logTime.ReplaceAllString(s, "")), " ")
}

type output struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (o *output) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.Write(p)
}

func (o *output) String() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.String()
}

// tail is the last part of what was printed.
func (o *output) tail() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	b := o.b.Bytes()
	return printed(string(b[max(0, len(b)-4000):]))
}

func checkExample(c exampleCase, names []string, i *Info) error {
	program := os.Getenv("VERIF_EXAMPLE")
	if program == "" {
		return infra(fmt.Errorf("VERIF_EXAMPLE is not set"))
	}
	if err := await("the port of the example program to be free", func() bool { return !bound(examplePort) }); err != nil {
		return infra(err)
	}
	runtime.LockOSThread() // Pdeathsig: the program must not outlive this process
	defer runtime.UnlockOSThread()
	var out output
	cmd := exec.Command(program)
	cmd.Stderr = &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return infra(err)
	}
	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	stop := func() {
		cmd.Process.Kill()
		<-exited
	}
	gone := func() error {
		select {
		case err := <-exited:
			exited <- err
			return fmt.Errorf("the program ended (%v) and printed\n%s", err, out.String())
		default:
			return nil
		}
	}
	if err := await("opening the port", func() bool { return bound(examplePort) || gone() != nil }); err != nil {
		stop()
		return err
	}
	var peers []*net.UDPConn
	for range c.Peers {
		p, err := net.DialUDP("udp4", nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: examplePort})
		if err != nil {
			stop()
			return infra(err)
		}
		defer p.Close()
		peers = append(peers, p)
	}
	var all []byte
	send := func(peer int, d []byte) {
		if len(d) > 0 {
			peers[peer].Write(d) // an error here means that the program is gone, which is seen below
			all = append(all, d...)
		}
	}
	var err error
	for round := range max(1, c.Rounds) {
		if round < len(c.Idle) {
			time.Sleep(time.Duration(c.Idle[round]) * time.Millisecond)
		}
		for k, d := range c.Datagrams {
			send(c.From[k], d)
		}
		// no candidate stays incomplete; then a last message
		mark := ref.Build(ref.Header{V: 2, ID: 0, Sys: 0xaa}, []byte{byte(round), byte(round >> 8), 0xad, 0xde, 7, 7, 7, 7, 7}, ref.ByDialect["common"][0].CRC, nil)
		send(0, append(make([]byte, 300), mark...))
		last, _ := dialects(names).GetMessage(frameOf(mark))
		lastText := printed(fmt.Sprintln(last))
		err = await("printing the last message", func() bool {
			return strings.HasSuffix(out.tail(), lastText) || gone() != nil
		})
		if err != nil {
			err = fmt.Errorf("%v; so far it printed\n%s", err, out.String())
			break
		}
	}
	var want string
	n := 0
	for _, d := range ref.Scan(names, all, false) {
		msg, err := dialects(names).GetMessage(frameOf(d.Bytes))
		if err != nil {
			stop()
			return fmt.Errorf("frame %x does not decode: %v", d.Bytes, err)
		}
		want += fmt.Sprintln(msg)
		n++
	}
	i.Label("messages=%s", bucket(n-1))
	i.NonTrivial(n > 1)
	i.Label("peers=%d", c.Peers)
	for _, d := range c.Datagrams {
		if len(d) > 4096 {
			i.Label("large")
		}
	}
	if err == nil {
		err = gone()
	}
	if err == nil {
		if got := printed(out.String()); got != printed(want) {
			err = fmt.Errorf("the program printed\n%s\nwant\n%s", got, printed(want))
		}
	}
	buf := make([]byte, 2000)
	for k, p := range peers {
		p.SetReadDeadline(time.Now().Add(100 * time.Microsecond))
		if m, rerr := p.Read(buf); rerr == nil && err == nil {
			err = fmt.Errorf("the program sent %x to peer %d", buf[:m], k)
		}
	}
	if err == nil {
		err = gone()
	}
	stop()
	return err
}
