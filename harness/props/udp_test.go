package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"slices"
	"sync"
	"testing"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/util"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// All UDP traffic stays on the loopback interface.

// openUDP opens an adapter on a free port.
func openUDP(addr string) (*util.UDPReadWriteCloser, int, error) {
	var last error
	for range 200 {
		probe, err := net.ListenPacket("udp", "127.0.0.1:0")
		if err != nil {
			return nil, 0, infra(err)
		}
		port := probe.LocalAddr().(*net.UDPAddr).Port
		probe.Close()
		u, err := util.NewUDPReadWriteCloser(addr, port)
		if err == nil {
			return u, port, nil
		}
		last = err
		time.Sleep(time.Millisecond)
	}
	// the ports of a machine are never all taken: the adapter does not open
	return nil, 0, fmt.Errorf("opening a free port fails: %v", last)
}

// infraError is trouble of the surroundings, not of the code.
type infraError struct{ error }

func infra(err error) error { return infraError{err} }

// readTimeout is how long loopback traffic may take. Reaching it on a lost datagram is
// confirmed by replay before it is reported.
const readTimeout = 10 * time.Second

type udpOp struct {
	Op    string `json:"op"` // send (peer), read, write, wait (a read waits while others write, until a datagram comes)
	Peer  int    `json:"peer"`
	Data  Hex    `json:"data"`
	Buf   int    `json:"buf"`
	Write []Hex  `json:"write,omitempty"` // written while the read waits
	Idle  int    `json:"idle,omitempty"`  // ms nothing happens before, or while the read waits
}

type udpCase struct {
	Addr  string `json:"addr"`
	Peers int    `json:"peers"`
	// 0: all peers have one IP address and differ in the port; 1: each has its own; 2: and all the same port
	Spread int     `json:"spread"`
	V6     []bool  `json:"v6,omitempty"` // peers that use IPv6
	Ops    []udpOp `json:"ops"`
}

// withTimeout runs f; a nil result channel read means it did not come back in time.
func withTimeout(what string, f func() error) error {
	ch := make(chan error, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- fmt.Errorf("%s panicked: %v", what, r)
			}
		}()
		ch <- f()
	}()
	select {
	case err := <-ch:
		return err
	case <-time.After(readTimeout):
		return fmt.Errorf("%s did not return within %v", what, readTimeout)
	}
}

// genDatagram draws a size: the usual, none, more than the network takes in one piece, all UDP can hold.
func genDatagram(t *rapid.T) int {
	switch k := uniform(t, 60, "size"); {
	case k < 6:
		return 1000 + uniform(t, 5000, "len")
	case k == 6:
		return 65507 - uniform(t, 3, "len")*uniform(t, 30000, "less")
	case k < 10:
		return 0
	}
	return uniform(t, 300, "len")
}

// room draws a size that fits what a socket holds by default (some 200 KB, its own overhead
// included) besides what was sent to it before.
func room(t *rapid.T, used *int) int {
	n := genDatagram(t)
	if *used+n+n/4+1500 > 120000 {
		n %= 100
	}
	*used += n + n/4 + 1500
	return n
}

func Test_C17(t *testing.T) {
	s := NewSuite(t, "C17", true)
	Phase(s, "idle", N(1, 6), genUDPIdle, checkUDPIdle)
	Phase(s, "many", N(3, 60), func(t *rapid.T) udpManyCase {
		c := udpManyCase{Rounds: 70000}
		switch uniform(t, 3, "rounds-kind") {
		case 0:
			c.Rounds = 1 + uniform(t, 3000, "rounds")
		case 1:
			c.Rounds = 1 + uniform(t, 20000, "rounds")
		}
		peers := 1 + uniform(t, 4, "peers")
		for k := 1 + uniform(t, 12, "pattern"); k > 0; k-- {
			c.Pattern = append(c.Pattern, uniform(t, peers, "peer"))
			c.Writes = append(c.Writes, uniform(t, 3, "writes"))
		}
		return c
	}, checkUDPMany)
	Phase(s, "adapter", N(3000, 120000), genUDP, checkUDP)
	Phase(s, "stream", N(800, 36000), func(t *rapid.T) udpStreamCase {
		c := udpStreamCase{}
		used := 0
		for k := 1 + uniform(t, 6, "datagrams"); k > 0; k-- {
			var d []byte
			for j := 1 + uniform(t, 3, "frames"); j > 0; j-- {
				d = append(d, genFrame(t, []string{"common"})...)
			}
			if uniform(t, 6, "large") == 0 { // all of one datagram is to be delivered, however many frames it has
				all := clone(d)
				for n := 2 + uniform(t, 40, "times")*(1+uniform(t, 6, "more")); n > 0 && len(all)+len(d) <= 65507; n-- {
					all = append(all, d...)
				}
				d = all
			}
			if size := len(d) + len(d)/4 + 1500; used+size < 120000 {
				used += size
				c.Datagrams = append(c.Datagrams, d)
			}
		}
		for k := uniform(t, 5, "replies"); k > 0; k-- {
			c.Replies = append(c.Replies, genFrame(t, []string{"common"}))
		}
		return c
	}, checkUDPStream)
}

func genUDP(t *rapid.T) udpCase {
	c := udpCase{Addr: []string{"127.0.0.1", "0.0.0.0", "", "[::1]", "[::]"}[uniform(t, 5, "addr")], Peers: 1 + uniform(t, 3, "peers"), Spread: uniform(t, 3, "spread")}
	if !ipv6() && c.Addr != "" && c.Addr[0] == '[' {
		c.Addr = "127.0.0.1"
	}
	for k := 0; k < c.Peers && ipv6(); k++ {
		c.V6 = append(c.V6, c.Addr == "[::1]" || (c.Addr == "" || c.Addr == "[::]") && uniform(t, 2, "v6") == 0)
	}
	queued, in, out := 0, 0, 0
	for k := 1 + uniform(t, 14, "ops"); k > 0; k-- {
		o := udpOp{Op: []string{"send", "read", "write"}[uniform(t, 3, "op")]}
		switch o.Op {
		case "send":
			o.Peer = uniform(t, c.Peers, "peer")
			o.Data = genBytes(t, room(t, &in), "data")
			queued++
		case "read":
			if queued == 0 {
				o.Op, o.Buf, o.Peer = "wait", 65536, uniform(t, c.Peers, "peer")
				o.Data = genBytes(t, room(t, &in), "data")
				for n := uniform(t, 3, "meanwhile"); n > 0; n-- {
					o.Write = append(o.Write, genBytes(t, room(t, &out), "data"))
				}
				break
			}
			queued--
			o.Buf = 65536
			if uniform(t, 4, "small") == 0 {
				o.Buf = 1 + uniform(t, 300, "buf")
			}
		case "write":
			if uniform(t, 30, "too-large") == 0 {
				limit := 65507
				if len(c.V6) > 0 {
					limit = 65527
				}
				o.Data = genBytes(t, limit+1+uniform(t, 8000, "len"), "data")
				break
			}
			o.Data = genBytes(t, room(t, &out), "data")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// udpIdleCase is several histories side by side in which nothing happens for a long time.
type udpIdleCase struct {
	Cases []udpCase `json:"cases"`
}

func (c udpIdleCase) idle() time.Duration {
	longest := 0
	for _, u := range c.Cases {
		sum := 0
		for _, o := range u.Ops {
			sum += o.Idle
		}
		longest = max(longest, sum)
	}
	return time.Duration(longest) * time.Millisecond
}

// pauses are as long as programs like to wait, and a bit, in ms.
var pauses = []int{150, 550, 1050, 2050, 3050, 5100, 10200, 15200, 20200, 30300}

const longPause = 60400

func genUDPIdle(t *rapid.T) (c udpIdleCase) {
	for k := range 10 {
		u := genUDP(t)
		at := uniform(t, len(u.Ops), "at")
		u.Ops[at].Idle = pauses[uniform(t, len(pauses), "pause")]
		if k < 3 { // a read that waits for long, the first one or not
			o := udpOp{Op: "wait", Data: genBytes(t, uniform(t, 50, "len"), "data"), Buf: 65536, Idle: longPause}
			u.Ops[at].Idle = 0
			if k == 0 {
				u.Ops = []udpOp{o, {Op: "write", Data: Hex{1, 2, 3}}}
			} else {
				queued := 0
				for _, o := range u.Ops {
					queued += map[string]int{"send": 1, "read": -1}[o.Op]
				}
				for range queued {
					u.Ops = append(u.Ops, udpOp{Op: "read", Buf: 65536})
				}
				u.Ops = append(u.Ops, o)
			}
		} else if k == 3 { // a write after a long time
			u.Ops[at].Idle = 0
			u.Ops = append(u.Ops, udpOp{Op: "write", Data: Hex{4, 5}, Idle: longPause})
		} else if k == 4 { // another sender after a long time
			if u.Peers == 1 {
				u.Peers = 2
				u.V6 = append(u.V6, u.V6...)
			}
			u.Ops = []udpOp{
				{Op: "send", Data: Hex{1}},
				{Op: "read", Buf: 65536},
				{Op: "send", Data: Hex{2}, Peer: 1, Idle: longPause},
				{Op: "read", Buf: 65536},
				{Op: "write", Data: Hex{3}},
			}
		}
		c.Cases = append(c.Cases, u)
	}
	return
}

func checkUDPIdle(c udpIdleCase, i *Info) error {
	errs := make(chan error, len(c.Cases))
	for _, u := range c.Cases {
		go func() {
			defer func() {
				if r := recover(); r != nil {
					errs <- fmt.Errorf("panic: %v", r)
				}
			}()
			errs <- checkUDP(u, &Info{})
		}()
	}
	i.NonTrivial(true)
	for range c.Cases {
		if err := <-errs; err != nil {
			return err // the others end by themselves
		}
	}
	return nil
}

// udpManyCase is a long history of the same few steps: a peer sends, the adapter reads and writes.
type udpManyCase struct {
	Rounds  int   `json:"rounds"`
	Pattern []int `json:"pattern"` // who sends, in turn
	Writes  []int `json:"writes"`  // and how many writes follow
}

// idle leaves time for a busy machine.
func (c udpManyCase) idle() time.Duration { return time.Minute }

func checkUDPMany(c udpManyCase, i *Info) error {
	u, port, err := openUDP("127.0.0.1")
	if err != nil {
		return err
	}
	defer u.Close()
	var peers []*net.UDPConn
	for range slices.Max(c.Pattern) + 1 {
		p, err := net.DialUDP("udp4", nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
		if err != nil {
			return infra(err)
		}
		defer p.Close()
		peers = append(peers, p)
	}
	i.NonTrivial(c.Rounds > 1000)
	for _, n := range []int{1 << 16, 1 << 12, 1 << 8, 0} {
		if c.Rounds > n {
			i.Label("rounds>%d", n)
			break
		}
	}
	first := peers[c.Pattern[0]]
	buf := make([]byte, 100)
	work := func() error {
		for round := range c.Rounds {
			k := round % len(c.Pattern)
			d := []byte{byte(round), byte(round >> 8), byte(round >> 16), byte(k)}
			if _, err := peers[c.Pattern[k]].Write(d); err != nil {
				return infra(err)
			}
			n, err := u.Read(buf)
			if err != nil || !bytes.Equal(buf[:n], d) {
				return fmt.Errorf("round %d: read %x, %v; want the datagram %x", round, buf[:n], err, d)
			}
			for j := range c.Writes[k] {
				d[3] = byte(100 + j)
				if n, err := u.Write(d); err != nil || n != len(d) {
					return fmt.Errorf("round %d: write %d returned %d, %v", round, j, n, err)
				}
				first.SetReadDeadline(time.Now().Add(readTimeout / 2))
				n, err := first.Read(buf)
				if err != nil {
					return fmt.Errorf("round %d: write %d did not reach the first sender: %v", round, j, err)
				}
				if err := eqBytes(fmt.Sprintf("round %d: write %d", round, j), buf[:n], d); err != nil {
					return err
				}
			}
		}
		return nil
	}
	if err := work(); err != nil { // the watchdog sees to a read that does not end
		return err
	}
	for k, p := range peers {
		p.SetReadDeadline(time.Now().Add(100 * time.Microsecond))
		if n, err := p.Read(buf); err == nil {
			return fmt.Errorf("peer %d got %x, which was not for it", k, buf[:n])
		}
	}
	return nil
}

// ipv6 tells whether the loopback interface has IPv6, and sockets that serve both.
var ipv6 = sync.OnceValue(func() bool {
	u, err := net.ListenPacket("udp", ":0")
	if err != nil {
		return false
	}
	defer u.Close()
	port := u.LocalAddr().(*net.UDPAddr).Port
	for _, ip := range []net.IP{net.IPv6loopback, net.IPv4(127, 0, 0, 1)} {
		p, err := net.DialUDP("udp", nil, &net.UDPAddr{IP: ip, Port: port})
		if err != nil {
			return false
		}
		defer p.Close()
		if _, err := p.Write([]byte{1}); err != nil {
			return false
		}
		buf := make([]byte, 9)
		u.SetReadDeadline(time.Now().Add(time.Second))
		_, from, err := u.ReadFrom(buf)
		if err != nil {
			return false
		}
		if _, err := u.WriteTo(buf[:1], from); err != nil {
			return false
		}
		p.SetReadDeadline(time.Now().Add(time.Second))
		if _, err := p.Read(buf); err != nil {
			return false
		}
	}
	return true
})

// openPeer opens the socket of peer k.
func openPeer(c udpCase, k int, peers []*net.UDPConn) (*net.UDPConn, error) {
	if k < len(c.V6) && c.V6[k] {
		a := &net.UDPAddr{IP: net.IPv6loopback}
		if c.Spread == 2 && k > 0 {
			a.Port = peers[0].LocalAddr().(*net.UDPAddr).Port
			if p, err := net.ListenUDP("udp6", a); err == nil {
				return p, nil
			}
			a.Port = 0 // taken
		}
		return net.ListenUDP("udp6", a)
	}
	a := &net.UDPAddr{IP: net.IPv4(127, 0, 0, byte(1+k*min(c.Spread, 1)))}
	if c.Spread == 2 && k > 0 {
		a.Port = peers[0].LocalAddr().(*net.UDPAddr).Port
		if p, err := net.ListenUDP("udp4", a); err == nil {
			return p, nil
		}
		a.Port = 0
	}
	return net.ListenUDP("udp4", a)
}

func checkUDP(c udpCase, i *Info) error {
	u, port, err := openUDP(c.Addr)
	if err != nil {
		return err
	}
	closed := false
	defer func() {
		if !closed {
			u.Close()
		}
	}()
	if u2, err := util.NewUDPReadWriteCloser(c.Addr, port); err == nil {
		if u2 != nil {
			u2.Close()
		}
		return fmt.Errorf("a second adapter opened the port of the first")
	}
	var peers []*net.UDPConn
	for k := range c.Peers {
		p, err := openPeer(c, k, peers)
		if err != nil {
			return infra(err)
		}
		defer p.Close()
		peers = append(peers, p)
	}
	// dst is where peer k finds the adapter
	dst := func(k int) *net.UDPAddr {
		if k < len(c.V6) && c.V6[k] {
			return &net.UDPAddr{IP: net.IPv6loopback, Port: port}
		}
		return &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
	}
	for k := range peers {
		if k < len(c.V6) && c.V6[k] {
			i.Label("IPv6")
		}
		for j := range k {
			a, b := peers[j].LocalAddr().(*net.UDPAddr), peers[k].LocalAddr().(*net.UDPAddr)
			if a.Port == b.Port {
				i.Label("same-port-other-IP")
			}
		}
	}
	type dgram struct {
		peer int
		data []byte
	}
	var queue []dgram
	first := -1
	var replies [][]byte
	for k, o := range c.Ops {
		if o.Op != "wait" {
			time.Sleep(time.Duration(o.Idle) * time.Millisecond)
		}
		switch o.Op {
		case "send":
			if _, err := peers[o.Peer].WriteToUDP(o.Data, dst(o.Peer)); err != nil {
				return infra(err)
			}
			queue = append(queue, dgram{o.Peer, o.Data})
		case "read":
			buf := make([]byte, o.Buf)
			var n int
			if err := withTimeout("reading", func() (err error) { n, err = u.Read(buf); return }); err != nil {
				return fmt.Errorf("op %d: reading with %d datagrams waiting: %v", k, len(queue), err)
			}
			d := queue[0]
			queue = queue[1:]
			want := d.data[:min(len(d.data), len(buf))]
			if n != len(want) || !bytes.Equal(buf[:n], want) {
				return fmt.Errorf("op %d: read %x, want the datagram %x", k, buf[:min(n, len(buf))], want)
			}
			if first < 0 {
				first = d.peer
			} else if d.peer != first {
				i.Label("read-from-another-peer")
			}
		case "wait":
			buf := make([]byte, o.Buf)
			type result struct {
				n   int
				err error
			}
			done := make(chan result, 1)
			go func() { n, err := u.Read(buf); done <- result{n, err} }()
			if k%2 == 0 {
				time.Sleep(100 * time.Microsecond)
			}
			select {
			case r := <-done:
				return fmt.Errorf("op %d: a read with no datagram waiting returned %d, %v", k, r.n, r.err)
			case <-time.After(time.Duration(o.Idle) * time.Millisecond):
			}
			for _, w := range o.Write {
				i.Label("write-while-a-read-waits")
				var n int
				var err error
				if err := withTimeout("writing while a read waits", func() error { n, err = u.Write(clone(w)); return nil }); err != nil {
					return fmt.Errorf("op %d: %v", k, err)
				}
				if first < 0 {
					if !errors.Is(err, util.ErrNoAddress) || n != 0 {
						return fmt.Errorf("op %d: writing before anything was read returned %d, %v; want the no-address error", k, n, err)
					}
					continue
				}
				if err != nil || n != len(w) {
					return fmt.Errorf("op %d: writing %d bytes while a read waits returned %d, %v", k, len(w), n, err)
				}
				replies = append(replies, w)
			}
			if _, err := peers[o.Peer].WriteToUDP(o.Data, dst(o.Peer)); err != nil {
				return infra(err)
			}
			select {
			case r := <-done:
				if r.err != nil || !bytes.Equal(buf[:r.n], o.Data) {
					return fmt.Errorf("op %d: the read that waited got %x, %v; want the datagram %x", k, buf[:r.n], r.err, o.Data)
				}
			case <-time.After(readTimeout):
				return fmt.Errorf("op %d: a read did not return within %v of a datagram", k, readTimeout)
			}
			if first < 0 {
				first = o.Peer
			}
		case "write":
			b := clone(o.Data)
			n, err := u.Write(b)
			if err2 := eqBytes("data after writing", b, o.Data); err2 != nil {
				return err2
			}
			if first < 0 {
				i.Label("write-before-read")
				if !errors.Is(err, util.ErrNoAddress) || n != 0 {
					return fmt.Errorf("op %d: writing before anything was read returned %d, %v; want the no-address error", k, n, err)
				}
				continue
			}
			if len(b) > 65527 || len(b) > 65507 && len(c.V6) == 0 {
				// no datagram can hold it; that changes nothing for the others
				i.Label("too-large")
				if err == nil {
					return fmt.Errorf("op %d: writing %d bytes, more than a datagram holds, returned %d, %v", k, len(b), n, err)
				}
				continue
			}
			i.Label("write")
			i.NonTrivial(true)
			if err != nil || n != len(b) {
				return fmt.Errorf("op %d: writing %d bytes returned %d, %v", k, len(b), n, err)
			}
			replies = append(replies, o.Data)
		}
	}
	// the first sender gets everything, the others nothing
	buf := make([]byte, 65536)
	for p, peer := range peers {
		if p == first {
			for k, want := range replies {
				peer.SetReadDeadline(time.Now().Add(readTimeout))
				n, _, err := peer.ReadFromUDP(buf)
				if err != nil {
					return fmt.Errorf("reply %d of %d did not reach the first sender: %v", k, len(replies), err)
				}
				if err := eqBytes(fmt.Sprintf("reply %d", k), buf[:n], want); err != nil {
					return err
				}
			}
		}
	}
	for p, peer := range peers {
		// what was sent above is there by now: loopback delivers synchronously
		peer.SetReadDeadline(time.Now().Add(200 * time.Microsecond))
		if n, _, err := peer.ReadFromUDP(buf); err == nil {
			return fmt.Errorf("peer %d (the first sender is %d) got %x, which was not for it", p, first, buf[:n])
		}
	}
	for k, d := range queue {
		big := make([]byte, 65536)
		var n int
		if err := withTimeout("reading", func() (err error) { n, err = u.Read(big); return }); err != nil {
			return fmt.Errorf("reading waiting datagram %d: %v", k, err)
		}
		if err := eqBytes("waiting datagram", big[:n], d.data); err != nil {
			return err
		}
	}
	// closing ends a blocked read, later calls fail
	blocked := make(chan error, 1)
	go func() { _, err := u.Read(make([]byte, 10)); blocked <- err }()
	if len(c.Ops)%2 == 0 {
		time.Sleep(100 * time.Microsecond)
	}
	closed = true
	if err := u.Close(); err != nil {
		return fmt.Errorf("closing: %v", err)
	}
	select {
	case err := <-blocked:
		if err == nil {
			return fmt.Errorf("a read that was blocked during Close succeeded")
		}
	case <-time.After(readTimeout):
		return fmt.Errorf("Close does not end a blocked read")
	}
	if n, err := u.Write([]byte{1}); err == nil || n > 0 {
		return fmt.Errorf("writing after Close succeeded")
	} else if (first >= 0 || len(queue) > 0) && errors.Is(err, util.ErrNoAddress) {
		return fmt.Errorf("writing after Close reports %q, although something was read before", err)
	}
	return nil
}

type udpStreamCase struct {
	Datagrams []Hex `json:"datagrams"`
	Replies   []Hex `json:"replies"`
}

func checkUDPStream(c udpStreamCase, i *Info) error {
	u, port, err := openUDP("127.0.0.1")
	if err != nil {
		return err
	}
	peer, err := net.DialUDP("udp4", nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
	if err != nil {
		u.Close()
		return infra(err)
	}
	defer peer.Close()
	other, err := net.DialUDP("udp4", nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
	if err != nil {
		u.Close()
		return infra(err)
	}
	defer other.Close()
	var all []byte
	for _, d := range c.Datagrams {
		all = append(all, d...)
	}
	// a last frame nobody can overlook, then padding so that no candidate stays incomplete
	mark := ref.Build(ref.Header{V: 2, ID: 0, Sys: 0xaa}, []byte{7, 7, 7, 7, 7, 7, 7, 7, 7}, ref.ByDialect["common"][0].CRC, nil)
	tail := append(make([]byte, 300), mark...)
	want := ref.Scan([]string{"common"}, append(clone(all), tail...), false)
	in := make(chan mavlink2.Frame)
	st := mavlink2.NewFrameStream(u, in, dialects([]string{"common"}), false)
	defer st.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var g group
	g.Go(func() { st.ReadContext(ctx) })
	g.Go(func() { st.WriteContext(ctx) })
	for _, d := range append(append([]Hex{}, c.Datagrams...), tail) {
		if len(d) == 0 {
			continue
		}
		if _, err := peer.Write(d); err != nil {
			return infra(err)
		}
	}
	i.NonTrivial(len(want) > 1)
	i.Label("frames=%s", bucket(len(want)))
	for _, d := range c.Datagrams {
		if len(d) > 4096 {
			i.Label("large")
			break
		}
	}
	for k, w := range want {
		select {
		case f, ok := <-st.Read():
			if !ok {
				return fmt.Errorf("the stream closed with %v before frame %d of %d", st.GetCloseErr(), k, len(want))
			}
			if err := eqBytes(fmt.Sprintf("frame %d", k), f.Bytes(), w.Bytes); err != nil {
				return err
			}
		case <-time.After(readTimeout):
			return fmt.Errorf("frame %d of %d did not arrive", k, len(want))
		}
	}
	buf := make([]byte, 4096)
	for k, r := range c.Replies {
		i.Label("reply")
		select {
		case st.Write() <- frameOf(clone(r)):
		case <-time.After(readTimeout):
			return fmt.Errorf("the stream does not take reply %d", k)
		}
		peer.SetReadDeadline(time.Now().Add(readTimeout))
		n, err := peer.Read(buf)
		if err != nil {
			return fmt.Errorf("reply %d did not arrive: %v", k, err)
		}
		if err := eqBytes(fmt.Sprintf("reply %d", k), buf[:n], r); err != nil {
			return err
		}
	}
	other.SetReadDeadline(time.Now().Add(100 * time.Microsecond))
	if n, err := other.Read(buf); err == nil {
		return fmt.Errorf("a stranger got %x", buf[:n])
	}
	if err := withTimeout("closing", func() error {
		if len(c.Replies)%2 == 0 {
			st.Close()
		} else {
			cancel()
		}
		g.wg.Wait()
		return nil
	}); err != nil {
		return err
	}
	if st.GetCloseErr() == nil {
		return fmt.Errorf("the closed stream gives no reason")
	}
	return g.failed()
}
