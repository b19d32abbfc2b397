//go:build go1.22

package main

// Simulated TCP. All harness code runs with node id 0, which is never
// preempted, so between two blocking operations it is atomic.

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type host struct {
	name  string // IP
	idx   int
	nid   int32 // node currently running there (0: none / harness)
	down  bool  // powered off: packets vanish
	lis   map[string]*simListener
	conns []*simConn
}

type netSim struct {
	rng     *rng
	hosts   map[string]*host
	byNid   map[int32]*host
	blocked map[[2]int]int // [src,dst] -> count
	slow    map[[2]int]int64
	latMin  int64 // ns
	latMax  int64
	spikePm int
	spikeNs int64
	split   bool // deliver in random small pieces
	nextID  int
	nextEph int
	conns   map[int]*simConn
	stats   map[string]int
	onConn  func(c *simConn)
	onDial  func(nid int32) // a new P2P connection (client side), to install taps
	onWrite func(c *simConn, b []byte)
}

func newNet(r *rng) *netSim {
	return &netSim{rng: r, hosts: map[string]*host{}, byNid: map[int32]*host{}, blocked: map[[2]int]int{},
		slow: map[[2]int]int64{}, latMin: 200e3, latMax: 2e6, conns: map[int]*simConn{}, stats: map[string]int{}, nextEph: 40000}
}

func (n *netSim) addHost(name string, idx int) *host {
	h := &host{name: name, idx: idx, lis: map[string]*simListener{}}
	n.hosts[name] = h
	return h
}

type pkt struct {
	at  int64
	b   []byte
	fin bool
	rst bool
	evs []func() // run on delivery
}

// pipe is one direction of a connection.
type pipe struct {
	src, dst *simConn
	q        []pkt
	buf      []byte
	bufLim   int
	eof, rst bool
	lastAt   int64
	inflight int
	tap      *tapDir
}

type simConn struct {
	net           *netSim
	id            int
	laddr, raddr  *net.TCPAddr
	h, ph         *host
	nid           int32
	in, out       *pipe
	closed        bool
	half          bool // peer vanished without notice
	rdl, wdl      int64
	rtm, wtm      *time.Timer
	notify        chan struct{}
	server        bool
	acceptedSince int64
	peer          *simConn
}

func (c *simConn) wake() {
	close(c.notify)
	c.notify = make(chan struct{})
}

// enter switches the calling goroutine to harness mode.
func enter() int32 {
	n := runtime.SimNode()
	if n != 0 {
		runtime.SimParkIfDead()
		runtime.SimSetNode(0)
	}
	return n
}

func leave(n int32) {
	if n != 0 {
		runtime.SimSetNode(n)
		runtime.SimParkIfDead()
	}
}

// waitOn blocks on ch as node n.
func waitOn(n int32, ch chan struct{}) {
	if n != 0 {
		runtime.SimSetNode(n)
		<-ch
		runtime.SimParkIfDead()
		runtime.SimSetNode(0)
		return
	}
	<-ch
}

func now() int64 { return runtime.SimNow() }

func (n *netSim) isBlocked(a, b *host) bool {
	return a != b && (n.blocked[[2]int{a.idx, b.idx}] > 0)
}

func (n *netSim) lat(a, b *host) int64 {
	if a == b {
		return 10e3 + n.rng.n64(40e3)
	}
	l := n.latMin + n.rng.n64(n.latMax-n.latMin+1)
	if n.spikePm > 0 && n.rng.n(1000) < n.spikePm {
		l += n.rng.n64(n.spikeNs + 1)
		n.stats["latency_spike"]++
	}
	if s := n.slow[[2]int{a.idx, b.idx}]; s > 0 {
		l += s/2 + n.rng.n64(s)
	}
	return l
}

func (p *pipe) send(b []byte, fin, rst bool, evs []func()) {
	n := p.src.net
	if p.src.half { // peer host is gone: into the void
		return
	}
	at := now() + n.lat(p.src.h, p.dst.h)
	if at < p.lastAt {
		at = p.lastAt
	}
	p.lastAt = at
	p.inflight += len(b)
	p.q = append(p.q, pkt{at: at, b: b, fin: fin, rst: rst, evs: evs})
	time.AfterFunc(time.Duration(at-now()), p.deliver)
}

func (p *pipe) deliver() {
	n := p.src.net
	for len(p.q) > 0 && p.q[0].at <= now() {
		if n.isBlocked(p.src.h, p.dst.h) {
			return // re-scheduled on heal
		}
		k := p.q[0]
		p.q = p.q[1:]
		p.inflight -= len(k.b)
		if p.dst.h.down || p.dst.closed {
			if p.dst.closed && len(k.b) > 0 && !p.dst.h.down && !p.src.closed && !p.src.in.rst {
				// data to a closed socket: reset
				p.dst.out.send(nil, false, true, nil)
			}
			p.src.wake()
			continue
		}
		if len(k.b) > 0 && !p.rst && !p.eof {
			p.buf = append(p.buf, k.b...)
			for _, f := range k.evs {
				f()
			}
		}
		if k.fin {
			p.eof = true
		}
		if k.rst {
			p.rst = true
		}
		p.dst.wake()
		p.src.wake()
	}
}

// heal re-schedules everything held by a partition a->b.
func (n *netSim) heal(a, b *host) {
	redo := func(p *pipe) {
		d := 20e6 + n.rng.n64(1500e6)
		base := now() + d
		for i := range p.q {
			if p.q[i].at < base {
				p.q[i].at = base
			}
		}
		if p.lastAt < base {
			p.lastAt = base
		}
		time.AfterFunc(time.Duration(d), p.deliver)
	}
	for _, c := range n.sorted() {
		if c.h == a && c.ph == b && len(c.out.q) > 0 {
			redo(c.out)
		}
		// the sending side may have been closed meanwhile; its last bytes
		// and its FIN are still sent again
		if c.h == b && c.ph == a && len(c.in.q) > 0 && c.peer.closed {
			redo(c.in)
		}
	}
}

func (n *netSim) sorted() []*simConn {
	var out []*simConn
	for id := 0; id <= n.nextID; id++ {
		if c := n.conns[id]; c != nil {
			out = append(out, c)
		}
	}
	return out
}

func (n *netSim) block(a, b int, on bool) {
	k := [2]int{a, b}
	if on {
		n.blocked[k]++
		return
	}
	if n.blocked[k] == 0 {
		return
	}
	n.blocked[k]--
	if n.blocked[k] == 0 {
		delete(n.blocked, k)
		n.heal(n.hostIdx(a), n.hostIdx(b))
	}
}

func (n *netSim) unblockAll() {
	for a := 0; a < 300; a++ {
		for b := 0; b < 300; b++ {
			if n.blocked[[2]int{a, b}] > 0 {
				n.blocked[[2]int{a, b}] = 1
				n.block(a, b, false)
			}
		}
	}
	n.slow = map[[2]int]int64{}
}

func (n *netSim) hostIdx(i int) *host {
	for _, h := range n.hosts {
		if h.idx == i {
			return h
		}
	}
	return nil
}

// killNode closes everything a dead process owned (the kernel does it).
func (n *netSim) killNode(nid int32, rst bool) {
	for _, h := range n.hosts {
		for a, l := range h.lis {
			if l.nid == nid {
				l.closed = true
				delete(h.lis, a)
				close(l.notify)
				l.notify = make(chan struct{})
			}
		}
	}
	for _, c := range n.sorted() {
		if c.nid == nid && !c.closed {
			c.abort(rst)
		}
	}
}

func (c *simConn) abort(rst bool) {
	c.closed = true
	if rst {
		c.out.send(nil, false, true, nil)
	} else {
		c.out.send(nil, true, false, nil)
	}
	delete(c.net.conns, c.id)
	c.wake()
}

// hostDown: power loss. Nobody is told; peers are half-open.
func (n *netSim) hostDown(h *host) {
	h.down = true
	for a, l := range h.lis {
		l.closed = true
		delete(h.lis, a)
		close(l.notify)
		l.notify = make(chan struct{})
	}
	for _, c := range n.sorted() {
		if c.h == h {
			c.closed = true
			c.out.q = nil
			delete(n.conns, c.id)
			p := c.peer
			p.half = true
			time.AfterFunc(time.Duration(150e9), func() { n.halfReset(p) })
			c.wake()
		}
	}
}

func (n *netSim) halfReset(p *simConn) {
	if !p.closed && p.half && !p.in.rst {
		p.in.rst = true
		p.wake()
	}
}

func (n *netSim) hostUp(h *host) {
	h.down = false
	for _, c := range n.sorted() {
		if c.ph == h && c.half {
			d := 50e6 + n.rng.n64(4e9)
			cc := c
			time.AfterFunc(time.Duration(d), func() { n.halfReset(cc) })
		}
	}
}

// resetBetween resets established connections between two hosts.
func (n *netSim) resetBetween(a, b int) int {
	k := 0
	for _, c := range n.sorted() {
		if c.h.idx == a && c.ph.idx == b && !c.closed {
			c.in.rst = true
			c.peer.in.rst = true
			c.wake()
			c.peer.wake()
			k++
		}
	}
	return k
}

// ------------------------------------------------------------- net.Conn

type netErr struct {
	s       string
	timeout bool
}

func (e *netErr) Error() string   { return e.s }
func (e *netErr) Timeout() bool   { return e.timeout }
func (e *netErr) Temporary() bool { return e.timeout }

func opErr(op string, c *simConn, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: err}
}

func (c *simConn) Read(b []byte) (int, error) {
	nd := enter()
	defer leave(nd)
	if len(b) == 0 {
		return 0, nil
	}
	for {
		if c.closed {
			return 0, opErr("read", c, net.ErrClosed)
		}
		if c.in.rst {
			return 0, opErr("read", c, os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if c.rdl != 0 && now() >= c.rdl {
			return 0, opErr("read", c, os.ErrDeadlineExceeded)
		}
		if len(c.in.buf) > 0 {
			m := len(c.in.buf)
			if m > len(b) {
				m = len(b)
			}
			if c.net.split && m > 1 && c.net.rng.n(4) == 0 {
				m = 1 + c.net.rng.n(m)
			}
			copy(b, c.in.buf[:m])
			c.in.buf = c.in.buf[m:]
			c.peer.wake()
			return m, nil
		}
		if c.in.eof {
			return 0, io.EOF
		}
		waitOn(nd, c.notify)
	}
}

const sndWindow = 1 << 20

func (c *simConn) Write(b []byte) (int, error) {
	nd := enter()
	defer leave(nd)
	for {
		if c.closed {
			return 0, opErr("write", c, net.ErrClosed)
		}
		if c.in.rst {
			return 0, opErr("write", c, os.NewSyscallError("write", syscall.ECONNRESET))
		}
		if c.wdl != 0 && now() >= c.wdl {
			return 0, opErr("write", c, os.ErrDeadlineExceeded)
		}
		if c.out.inflight+len(c.out.buf) < sndWindow {
			break
		}
		waitOn(nd, c.notify)
	}
	if c.net.onWrite != nil {
		c.net.onWrite(c, b)
	}
	d := append([]byte(nil), b...)
	if c.out.tap != nil {
		c.out.tap.feed(c.out, d)
	} else {
		c.out.send(d, false, false, nil)
	}
	if c.closed {
		return 0, opErr("write", c, net.ErrClosed)
	}
	return len(b), nil
}

func (c *simConn) Close() error {
	nd := enter()
	defer leave(nd)
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	if c.out.tap != nil {
		c.out.tap.flush(c.out)
	}
	c.abort(len(c.in.buf) > 0)
	return nil
}

func (c *simConn) LocalAddr() net.Addr  { return c.laddr }
func (c *simConn) RemoteAddr() net.Addr { return c.raddr }

func (c *simConn) setDL(t time.Time, dl *int64, tm **time.Timer) {
	nd := enter()
	defer leave(nd)
	if *tm != nil {
		(*tm).Stop()
		*tm = nil
	}
	if t.IsZero() {
		*dl = 0
	} else {
		d := time.Until(t)
		if d < 0 {
			d = 0
		}
		*dl = now() + int64(d)
		if *dl == 0 {
			*dl = 1
		}
		*tm = time.AfterFunc(d, func() { c.wake() })
	}
	c.wake()
}

func (c *simConn) SetDeadline(t time.Time) error {
	c.setDL(t, &c.rdl, &c.rtm)
	c.setDL(t, &c.wdl, &c.wtm)
	return nil
}
func (c *simConn) SetReadDeadline(t time.Time) error  { c.setDL(t, &c.rdl, &c.rtm); return nil }
func (c *simConn) SetWriteDeadline(t time.Time) error { c.setDL(t, &c.wdl, &c.wtm); return nil }

// ------------------------------------------------------------- listener

type simListener struct {
	net    *netSim
	h      *host
	nid    int32
	addr   *net.TCPAddr
	q      []*simConn
	closed bool
	notify chan struct{}
}

func (l *simListener) wake() {
	close(l.notify)
	l.notify = make(chan struct{})
}

func (l *simListener) Accept() (net.Conn, error) {
	nd := enter()
	defer leave(nd)
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			return c, nil
		}
		waitOn(nd, l.notify)
	}
}

func (l *simListener) Close() error {
	nd := enter()
	defer leave(nd)
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	delete(l.h.lis, strconv.Itoa(l.addr.Port))
	for _, c := range l.q {
		if !c.closed {
			c.abort(true)
		}
	}
	l.wake()
	return nil
}
func (l *simListener) Addr() net.Addr { return l.addr }

func splitAddr(a string) (string, int, error) {
	i := strings.LastIndexByte(a, ':')
	if i < 0 {
		return "", 0, errors.New("missing port in address " + a)
	}
	h := strings.Trim(a[:i], "[]")
	p, err := strconv.Atoi(a[i+1:])
	return h, p, err
}

func (n *netSim) listen(h *host, nid int32, address string) (net.Listener, error) {
	_, port, err := splitAddr(address)
	if err != nil {
		return nil, err
	}
	key := strconv.Itoa(port)
	ad := &net.TCPAddr{IP: net.ParseIP(h.name), Port: port}
	if l := h.lis[key]; l != nil && !l.closed {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Addr: ad, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &simListener{net: n, h: h, nid: nid, addr: ad, notify: make(chan struct{})}
	h.lis[key] = l
	return l, nil
}

// hookListen is net.SimListen.
func (n *netSim) hookListen(network, address string) (net.Listener, error) {
	nd := enter()
	defer leave(nd)
	h := n.byNid[nd]
	if h == nil {
		return nil, fmt.Errorf("sim: listen from unknown node %d", nd)
	}
	return n.listen(h, nd, address)
}

// hookDial is net.SimDial.
func (n *netSim) hookDial(ctx context.Context, d *net.Dialer, network, address string) (net.Conn, error) {
	nd := enter()
	defer leave(nd)
	h := n.byNid[nd]
	if h == nil {
		return nil, fmt.Errorf("sim: dial from unknown node %d", nd)
	}
	if n.onDial != nil {
		n.onDial(nd)
	}
	dl := int64(0)
	if d.Timeout > 0 {
		dl = now() + int64(d.Timeout)
	}
	if !d.Deadline.IsZero() {
		if t := now() + int64(time.Until(d.Deadline)); dl == 0 || t < dl {
			dl = t
		}
	}
	return n.dial(ctx, nd, h, network, address, dl)
}

func (n *netSim) dial(ctx context.Context, nd int32, h *host, network, address string, dl int64) (net.Conn, error) {
	fail := func(e error) error { return &net.OpError{Op: "dial", Net: network, Err: e} }
	if !strings.HasPrefix(network, "tcp") {
		return nil, fail(net.UnknownNetworkError(network))
	}
	hn, port, err := splitAddr(address)
	if err != nil {
		return nil, fail(err)
	}
	to := n.hosts[hn]
	if to == nil {
		return nil, fail(&net.DNSError{Err: "no such host", Name: hn, IsNotFound: true})
	}
	if t, ok := ctx.Deadline(); ok {
		if x := now() + int64(time.Until(t)); dl == 0 || x < dl {
			dl = x
		}
	}
	hard := now() + 127e9
	sleep := func(d int64) error { // interruptible
		if d < 0 {
			d = 0
		}
		lim := hard
		if dl != 0 && dl < lim {
			lim = dl
		}
		out := false
		if now()+d > lim {
			d = lim - now()
			if d < 0 {
				d = 0
			}
			out = true
		}
		ch := make(chan struct{})
		fired := false
		tm := time.AfterFunc(time.Duration(d), func() {
			if !fired {
				fired = true
				close(ch)
			}
		})
		if done := ctx.Done(); done != nil {
			if nd != 0 {
				runtime.SimSetNode(nd)
			}
			select {
			case <-ch:
			case <-done:
			}
			if nd != 0 {
				runtime.SimParkIfDead()
				runtime.SimSetNode(0)
			}
			fired = true
			tm.Stop()
			if ctx.Err() == context.Canceled {
				return fail(errors.New("operation was canceled"))
			}
			if ctx.Err() != nil {
				return fail(&netErr{"i/o timeout", true})
			}
		} else {
			waitOn(nd, ch)
		}
		if out {
			return fail(&netErr{"i/o timeout", true})
		}
		return nil
	}
	backoff := int64(1e9)
	for {
		if err := sleep(n.lat(h, to)); err != nil {
			return nil, err
		}
		if n.isBlocked(h, to) || n.isBlocked(to, h) || to.down {
			n.stats["syn_lost"]++
			if err := sleep(backoff); err != nil {
				return nil, err
			}
			if backoff < 64e9 {
				backoff *= 2
			}
			continue
		}
		l := to.lis[strconv.Itoa(port)]
		if l == nil || l.closed {
			if err := sleep(n.lat(to, h)); err != nil {
				return nil, err
			}
			n.stats["conn_refused"]++
			return nil, fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
		}
		n.nextEph++
		la := &net.TCPAddr{IP: net.ParseIP(h.name), Port: 40000 + n.nextEph%20000}
		cli := &simConn{net: n, id: n.nextID, laddr: la, raddr: l.addr, h: h, ph: to, nid: nd, notify: make(chan struct{})}
		srv := &simConn{net: n, id: n.nextID + 1, laddr: l.addr, raddr: la, h: to, ph: h, nid: l.nid, notify: make(chan struct{}), server: true}
		n.nextID += 2
		cli.peer, srv.peer = srv, cli
		a := &pipe{src: cli, dst: srv}
		b := &pipe{src: srv, dst: cli}
		cli.out, cli.in, srv.in, srv.out = a, b, a, b
		n.conns[cli.id] = cli
		n.conns[srv.id] = srv
		n.stats["conns"]++
		if n.onConn != nil {
			n.onConn(cli)
		}
		l.q = append(l.q, srv)
		l.wake()
		if err := sleep(n.lat(to, h)); err != nil {
			if !cli.closed {
				cli.abort(true)
			}
			return nil, err
		}
		return cli, nil
	}
}
