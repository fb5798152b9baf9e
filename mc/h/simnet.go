//go:build go1.22

package main

// A deterministic in-memory network.  It replaces net.Dial and net.Listen of
// the whole process (hooks added to package net by the build overlay), so the
// code under test, gorilla/websocket and net/http run unmodified on top of it.
//
// Nothing in here synchronises goroutines as seen by the race detector except
// one edge per direction of a connection: a Read that returns data acquires
// what the Writes into that direction released.

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

type simPipe struct {
	buf     []byte
	closed  bool // writer side closed: EOF after buf
	rclosed bool // reader side closed: writes fail
	reset   bool // connection reset
	stall   bool // writes accepted, nothing delivered (silent loss)
	full    bool // writes block (peer does not drain)
	limit   int  // if > 0, the pipe is reset after this many bytes were written
	written int
	waitR   []uintptr
	waitW   []uintptr
	tag     byte
}

//go:norace
func wakeAll(l *[]uintptr) {
	w := *l
	*l = nil
	for _, g := range w {
		runtime.McReady(g)
	}
}

type simConn struct {
	rx, tx  *simPipe
	laddr   simAddr
	raddr   simAddr
	closed  bool
	rd, wd  time.Time
	rdTimer *time.Timer
	wdTimer *time.Timer
	tap     *simPipe // copy of what this side writes
	// frames captured for the harness
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

type simListener struct {
	addr    string
	backlog []*simConn
	closed  bool
	wait    []uintptr
}

type simNet struct {
	listeners []*simListener // no maps here: map operations are race-instrumented
	conns     []*simConn
	ephemeral int
	refuse    string  // a port that refuses although somebody listens
	dials     []int64 // virtual times of dial attempts
	tapAll    bool    // tap every new connection
	// what happens to the next dial of a port: 0 connects, 1 is refused, 2 is
	// never answered (the kernel gives up after 127 s)
	gate func(port string) int
	// sees every connection that is made, before it is used
	onPair func(client, server *simConn)
}

var sn *simNet

func portOf(address string) string {
	if i := strings.LastIndexByte(address, ':'); i >= 0 {
		p := address[i+1:]
		switch p {
		case "http":
			return "80"
		}
		return p
	}
	return address
}

//go:norace
func simDial(ctx context.Context, network, address string) (net.Conn, error) {
	runtime.McYield()
	if ctx != nil && ctx.Err() != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: ctx.Err()}
	}
	p := portOf(address)
	sn.dials = append(sn.dials, runtime.McNow())
	l := sn.listener(p)
	how := 0
	if sn.gate != nil {
		how = sn.gate(p)
	}
	if how == 2 {
		t := time.NewTimer(127 * time.Second)
		defer t.Stop()
		if ctx == nil {
			ctx = context.Background()
		}
		select {
		case <-t.C:
			return nil, &net.OpError{Op: "dial", Net: network, Addr: linkLocal, Err: os.NewSyscallError("connect", syscall.ETIMEDOUT)}
		case <-ctx.Done():
			return nil, &net.OpError{Op: "dial", Net: network, Err: ctx.Err()}
		}
	}
	if l == nil || sn.refuse == p || how == 1 {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: linkLocal, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	a, b := newSimPair(p)
	l.backlog = append(l.backlog, b)
	wakeAll(&l.wait)
	return a, nil
}

//go:norace
func newSimPair(port string) (client, server *simConn) {
	sn.ephemeral++
	ca := simAddr("10.0.0.1:" + itoa(40000+sn.ephemeral))
	sa := simAddr("10.0.0.2:" + port)
	c2s, s2c := &simPipe{}, &simPipe{}
	client = &simConn{rx: s2c, tx: c2s, laddr: ca, raddr: sa}
	server = &simConn{rx: c2s, tx: s2c, laddr: sa, raddr: ca}
	if sn.tapAll {
		client.tap, server.tap = &simPipe{}, &simPipe{}
	}
	sn.conns = append(sn.conns, client, server)
	if sn.onPair != nil {
		sn.onPair(client, server)
	}
	return
}

//go:norace
func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}

//go:norace
func simListen(ctx context.Context, network, address string) (net.Listener, error) {
	p := portOf(address)
	if l := sn.listener(p); l != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &simListener{addr: p}
	sn.listeners = append(sn.listeners, l)
	return l, nil
}

//go:norace
func (s *simNet) listener(port string) *simListener {
	for _, l := range s.listeners {
		if l.addr == port && !l.closed {
			return l
		}
	}
	return nil
}

//go:norace
func (l *simListener) Accept() (net.Conn, error) {
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if len(l.backlog) > 0 {
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			return c, nil
		}
		l.wait = append(l.wait, runtime.McSelf())
		runtime.McPark()
	}
}

//go:norace
func (l *simListener) Close() error {
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	for _, c := range l.backlog {
		c.shut()
	}
	l.backlog = nil
	wakeAll(&l.wait)
	return nil
}
func (l *simListener) Addr() net.Addr { return simAddr("10.0.0.2:" + l.addr) }

//go:norace
func pastDeadline(t time.Time) bool {
	return !t.IsZero() && t.UnixNano()-946684800000000000 <= runtime.McNow()
}

// the address in the errors of the network: the zone of an IPv6 address has a
// character that is special in formats
const linkLocal = simAddr("[fe80::1%eth0]:9000")

var errReset = &net.OpError{Op: "read", Net: "tcp", Addr: linkLocal, Err: os.NewSyscallError("read", syscall.ECONNRESET)}
var errPipe = &net.OpError{Op: "write", Net: "tcp", Addr: linkLocal, Err: os.NewSyscallError("write", syscall.EPIPE)}

//go:norace
func (c *simConn) Read(p []byte) (int, error) {
	runtime.McYield()
	for {
		if c.closed {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		}
		if pastDeadline(c.rd) {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		x := c.rx
		if x.reset {
			return 0, errReset
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(x.buf) > 0 {
			n := rawCopy(p, x.buf)
			x.buf = x.buf[n:]
			raceAcquire(unsafe.Pointer(&x.tag))
			raceWriteRange(p[:n])
			return n, nil
		}
		if x.closed {
			raceAcquire(unsafe.Pointer(&x.tag))
			return 0, io.EOF
		}
		x.waitR = append(x.waitR, runtime.McSelf())
		runtime.McPark()
	}
}

//go:norace
func (c *simConn) Write(p []byte) (int, error) {
	runtime.McYield()
	for {
		if c.closed {
			return 0, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
		}
		if pastDeadline(c.wd) {
			return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		x := c.tx
		if x.rclosed || x.reset {
			return 0, errPipe
		}
		if !x.full {
			break
		}
		x.waitW = append(x.waitW, runtime.McSelf())
		runtime.McPark()
	}
	x := c.tx
	if c.tap != nil {
		c.tap.buf = rawAppend(c.tap.buf, p)
	}
	raceReadRange(p)
	raceReleaseMerge(unsafe.Pointer(&x.tag))
	x.written += len(p)
	if x.limit > 0 && x.written >= x.limit {
		n := len(p) - (x.written - x.limit)
		if !x.stall {
			x.buf = rawAppend(x.buf, p[:n])
		}
		// the connection breaks here: what was written arrives, then EOF for
		// the peer; this side sees a reset
		x.closed = true
		x.rclosed = true
		c.rx.reset = true
		wakeAll(&x.waitR)
		wakeAll(&c.rx.waitR)
		if n < len(p) {
			return n, errPipe
		}
		return n, nil
	}
	if !x.stall {
		x.buf = rawAppend(x.buf, p)
		wakeAll(&x.waitR)
	}
	return len(p), nil
}

//go:norace
func (c *simConn) shut() {
	if c.closed {
		return
	}
	c.closed = true
	raceReleaseMerge(unsafe.Pointer(&c.tx.tag))
	c.tx.closed = true
	c.rx.rclosed = true
	wakeAll(&c.tx.waitR)
	wakeAll(&c.rx.waitR)
	wakeAll(&c.tx.waitW)
	wakeAll(&c.rx.waitW)
	if c.rdTimer != nil {
		c.rdTimer.Stop()
	}
	if c.wdTimer != nil {
		c.wdTimer.Stop()
	}
}

//go:norace
func (c *simConn) Close() error {
	runtime.McYield()
	if c.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	c.shut()
	return nil
}

// cut breaks the connection: both sides see a reset, buffered data is lost.
//
//go:norace
func (c *simConn) cut() {
	for _, x := range []*simPipe{c.rx, c.tx} {
		x.reset = true
		x.buf = nil
		wakeAll(&x.waitR)
		wakeAll(&x.waitW)
	}
}

func (c *simConn) LocalAddr() net.Addr  { return c.laddr }
func (c *simConn) RemoteAddr() net.Addr { return c.raddr }

func (c *simConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

//go:norace
func (c *simConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return &net.OpError{Op: "set", Net: "tcp", Err: net.ErrClosed}
	}
	if t.IsZero() && c.rd.IsZero() {
		return nil
	}
	c.rd = t
	if c.rdTimer != nil {
		c.rdTimer.Stop()
		c.rdTimer = nil
	}
	if !t.IsZero() {
		if pastDeadline(t) {
			wakeAll(&c.rx.waitR)
		} else {
			c.rdTimer = time.AfterFunc(time.Until(t), func() { c.wakeR() })
		}
	}
	return nil
}

//go:norace
func (c *simConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return &net.OpError{Op: "set", Net: "tcp", Err: net.ErrClosed}
	}
	if t.IsZero() && c.wd.IsZero() {
		return nil
	}
	c.wd = t
	if c.wdTimer != nil {
		c.wdTimer.Stop()
		c.wdTimer = nil
	}
	if !t.IsZero() {
		if pastDeadline(t) {
			wakeAll(&c.tx.waitW)
		} else {
			c.wdTimer = time.AfterFunc(time.Until(t), func() { c.wakeW() })
		}
	}
	return nil
}

//go:norace
func (c *simConn) wakeR() { wakeAll(&c.rx.waitR) }

//go:norace
func (c *simConn) wakeW() { wakeAll(&c.tx.waitW) }

// setFull makes writes of the other side block (or unblocks them).
//
//go:norace
func (c *simConn) setPeerBlocked(b bool) {
	c.rx.full = b
	if !b {
		wakeAll(&c.rx.waitW)
	}
}

//go:norace
func newSimNet() {
	sn = &simNet{}
	sn.conns = make([]*simConn, 0, 64)
}

// closeAll ends the execution's network.
//
//go:norace
func (s *simNet) closeAll() {
	for _, l := range s.listeners {
		if !l.closed {
			l.Close()
		}
	}
	for _, c := range s.conns {
		c.shut()
	}
}

func init() {
	net.McDial = simDial
	net.McListen = simListen
}

var errTimeout = errors.New("timeout")

// copies that the race detector does not see (the harness is not the code
// under test)

//go:norace
func rawCopy(d, s []byte) int {
	n := len(s)
	if len(d) < n {
		n = len(d)
	}
	for i := 0; i < n; i++ {
		d[i] = s[i]
	}
	return n
}

//go:norace
func rawAppend(d, s []byte) []byte {
	n := len(d)
	if n+len(s) > cap(d) {
		nd := make([]byte, n, 2*(n+len(s)))
		rawCopy(nd, d)
		d = nd
	}
	d = d[:n+len(s)]
	rawCopy(d[n:], s)
	return d
}
