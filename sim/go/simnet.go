package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Net is the simulated network: reliable byte streams (TCP) between simulated
// addresses with per-packet delay, partitions, resets and host death.
type Net struct {
	w         *World
	rng       *Rng
	listeners map[string]*Listener
	conns     map[*Conn]struct{}
	nextPort  int
	nextID    int
	blocked   map[[2]string]bool // host pair (sorted): packets are held back
	refused   map[[2]string]bool // host pair (sorted): connects are refused
	BaseLat   time.Duration
	Jitter    time.Duration
	slow      map[[2]string]time.Duration
}

func NewNet(w *World, seed uint64, base, jitter time.Duration) *Net {
	return &Net{w: w, rng: NewRng(seed), listeners: map[string]*Listener{}, conns: map[*Conn]struct{}{},
		nextPort: 20000, blocked: map[[2]string]bool{}, refused: map[[2]string]bool{}, slow: map[[2]string]time.Duration{}, BaseLat: base, Jitter: jitter}
}

func pair(a, b string) [2]string {
	if a > b {
		a, b = b, a
	}
	return [2]string{a, b}
}

func (n *Net) delay(a, b string) time.Duration {
	d := n.BaseLat + n.slow[pair(a, b)]
	if n.Jitter > 0 {
		d += time.Duration(n.rng.Intn(int(n.Jitter)))
		if n.rng.Intn(50) == 0 { // the occasional retransmission
			d += 5 * n.Jitter
		}
	}
	return d
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func hostOf(addr string) string {
	if i := strings.LastIndexByte(addr, ':'); i >= 0 {
		return addr[:i]
	}
	return addr
}

type seg struct {
	b   []byte
	at  time.Time
	eof bool
	rst bool
}

// Conn is one end of a simulated connection.
type Conn struct {
	n        *Net
	id       int
	node     uint32 // owner
	local    string
	remote   string
	peer     *Conn
	in       []seg
	lastAt   time.Time // delivery time of the last packet sent to the peer
	notify   chan struct{}
	rdl, wdl time.Time
	closed   bool
	eof      bool
	rst      bool
	lhost    string
	rhost    string
	rxBytes  int64
	dialed   bool
	free     bool // the peer gave up on this connection: its end is not held back
}

// giveUp makes a store learn promptly that its client abandoned a connection,
// whatever is wrong with the network: no packet still under way arrives after
// that. (Without this no lock of bounded duration could protect the store.)
func (c *Conn) giveUp(s seg) bool {
	if !c.dialed || c.rhost != hostOf(s3Addr) {
		return false
	}
	p := c.peer
	if p.closed {
		return true
	}
	now := time.Now()
	held := c.n.blocked[pair(c.lhost, c.rhost)]
	var in []seg
	for _, x := range p.in {
		if !held && !x.at.After(now) {
			in = append(in, x)
		}
	}
	s.at = now.Add(c.n.BaseLat)
	p.in = append(in, s)
	p.free = true
	p.wake()
	return true
}

func (c *Conn) wake() {
	close(c.notify)
	c.notify = make(chan struct{})
}

func (c *Conn) Read(p []byte) (int, error) {
	runtime.VerifGate()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		now := time.Now()
		if !c.rdl.IsZero() && !now.Before(c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if c.rst {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
		}
		if len(p) == 0 {
			return 0, nil
		}
		held := c.n.blocked[pair(c.lhost, c.rhost)] && !c.free
		if len(c.in) > 0 && !held && !c.in[0].at.After(now) {
			s := &c.in[0]
			if s.rst {
				c.rst = true
				c.in = nil
				continue
			}
			if s.eof {
				c.eof = true
				return 0, io.EOF // keep the marker in place
			}
			k := copy(p, s.b)
			s.b = s.b[k:]
			c.rxBytes += int64(k)
			if len(s.b) == 0 {
				c.in = c.in[1:]
			}
			return k, nil
		}
		var tm *time.Timer
		var tc <-chan time.Time
		until := time.Time{}
		if len(c.in) > 0 && !held {
			until = c.in[0].at
		}
		if !c.rdl.IsZero() && (until.IsZero() || c.rdl.Before(until)) {
			until = c.rdl
		}
		if !until.IsZero() {
			tm = time.NewTimer(until.Sub(now))
			tc = tm.C
		}
		nf := c.notify
		select {
		case <-nf:
		case <-tc:
		}
		if tm != nil {
			tm.Stop()
		}
	}
}

func (c *Conn) send(s seg) {
	p := c.peer
	at := time.Now().Add(c.n.delay(c.lhost, c.rhost))
	if at.Before(c.lastAt) {
		at = c.lastAt
	}
	c.lastAt = at
	s.at = at
	if p.closed {
		return
	}
	p.in = append(p.in, s)
	p.wake()
}

func (c *Conn) Write(p []byte) (int, error) {
	runtime.VerifGate()
	if c.closed {
		return 0, net.ErrClosed
	}
	if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
		return 0, os.ErrDeadlineExceeded
	}
	if c.rst || c.rstArrived() {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
	}
	c.send(seg{b: append([]byte(nil), p...)})
	return len(p), nil
}

func (c *Conn) rstArrived() bool {
	now := time.Now()
	for _, s := range c.in {
		if s.rst && !s.at.After(now) {
			return true
		}
	}
	return c.peer.closed && c.eof
}

func (c *Conn) Close() error {
	runtime.VerifGate()
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	unread := len(c.in) > 0 && !c.in[0].eof && !c.in[0].rst
	c.in = nil
	delete(c.n.conns, c)
	if !c.giveUp(seg{eof: true}) {
		c.send(seg{eof: true})
		if unread {
			c.send(seg{rst: true})
		}
	}
	c.wake()
	return nil
}

// Reset drops the connection abruptly.
func (c *Conn) Reset() {
	if c.closed {
		return
	}
	c.closed = true
	c.in = nil
	delete(c.n.conns, c)
	if !c.giveUp(seg{rst: true}) {
		c.send(seg{rst: true})
	}
	c.wake()
}

func (c *Conn) LocalAddr() net.Addr  { return simAddr(c.local) }
func (c *Conn) RemoteAddr() net.Addr { return simAddr(c.remote) }
func (c *Conn) SetDeadline(t time.Time) error {
	c.rdl, c.wdl = t, t
	c.fixDeadline()
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.rdl = t
	c.fixDeadline()
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error { c.wdl = t; return nil }

// A deadline set by a node with a skewed clock carries that node's wall time,
// but also a monotonic reading, which is what comparisons use; deadlines in the
// distant past (net/http's aLongTimeAgo) have none.
func (c *Conn) fixDeadline() { c.wake() }

type Listener struct {
	n       *Net
	addr    string
	node    uint32
	backlog []*Conn
	notify  chan struct{}
	closed  bool
}

func (n *Net) Listen(addr string, node uint32) *Listener {
	if l := n.listeners[addr]; l != nil && !l.closed {
		panic("simnet: address in use: " + addr)
	}
	l := &Listener{n: n, addr: addr, node: node, notify: make(chan struct{})}
	n.listeners[addr] = l
	return l
}

func (l *Listener) Accept() (net.Conn, error) {
	runtime.VerifGate()
	for {
		if l.closed {
			return nil, net.ErrClosed
		}
		if len(l.backlog) > 0 {
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			return c, nil
		}
		nf := l.notify
		<-nf
	}
}

func (l *Listener) Close() error {
	runtime.VerifGate()
	if l.closed {
		return nil
	}
	l.closed = true
	delete(l.n.listeners, l.addr)
	for _, c := range l.backlog {
		c.Reset()
	}
	l.backlog = nil
	close(l.notify)
	l.notify = make(chan struct{})
	return nil
}
func (l *Listener) Addr() net.Addr { return simAddr(l.addr) }

var errRefused = &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}

type dialTimeout struct{}

func (dialTimeout) Error() string   { return "dial: i/o timeout" }
func (dialTimeout) Timeout() bool   { return true }
func (dialTimeout) Temporary() bool { return true }

func (n *Net) Dial(ctx context.Context, d *net.Dialer, network, address string) (net.Conn, error) {
	if !strings.HasPrefix(network, "tcp") {
		return nil, errors.New("simnet: unsupported network " + network)
	}
	runtime.VerifGate()
	node := runtime.VerifNode()
	src := n.w.hostOfNode(node)
	dst := hostOf(address)
	timeout := 60 * time.Second
	if d != nil && d.Timeout > 0 {
		timeout = d.Timeout
	}
	deadline := time.Now().Add(timeout)
	rtt := n.delay(src, dst) + n.delay(src, dst)
	wait := func(dur time.Duration) error {
		if dur <= 0 {
			return ctx.Err()
		}
		t := time.NewTimer(dur)
		defer t.Stop()
		select {
		case <-t.C:
			return nil
		case <-ctx.Done():
			return &net.OpError{Op: "dial", Net: "tcp", Err: ctx.Err()}
		}
	}
	if err := wait(rtt); err != nil {
		return nil, err
	}
	for n.blocked[pair(src, dst)] { // SYN lost; retried
		if time.Now().After(deadline) {
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: dialTimeout{}}
		}
		if err := wait(time.Second); err != nil {
			return nil, err
		}
	}
	l := n.listeners[address]
	if l == nil || l.closed || n.refused[pair(src, dst)] {
		return nil, errRefused
	}
	n.nextPort++
	la := src + ":" + strconv.Itoa(n.nextPort)
	n.nextID++
	a := &Conn{n: n, id: n.nextID, node: node, local: la, remote: address, lhost: src, rhost: dst, dialed: true, notify: make(chan struct{})}
	b := &Conn{n: n, id: n.nextID, node: l.node, local: address, remote: la, lhost: dst, rhost: src, notify: make(chan struct{})}
	a.peer, b.peer = b, a
	n.conns[a] = struct{}{}
	n.conns[b] = struct{}{}
	l.backlog = append(l.backlog, b)
	close(l.notify)
	l.notify = make(chan struct{})
	return a, nil
}

func (n *Net) sortedConns() []*Conn {
	cs := make([]*Conn, 0, len(n.conns))
	for c := range n.conns {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool {
		if cs[i].id != cs[j].id {
			return cs[i].id < cs[j].id
		}
		return cs[i].local < cs[j].local
	})
	return cs
}

// KillNode tears down everything a dead process had open.
func (n *Net) KillNode(node uint32) {
	for _, c := range n.sortedConns() {
		if c.node == node {
			c.Reset()
		}
	}
	var ls []*Listener
	for _, l := range n.listeners {
		if l.node == node {
			ls = append(ls, l)
		}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].addr < ls[j].addr })
	for _, l := range ls {
		l.Close()
	}
}

// Block holds back all packets between two hosts until Unblock.
func (n *Net) Block(a, b string) { n.blocked[pair(a, b)] = true }
func (n *Net) Unblock(a, b string) {
	if !n.blocked[pair(a, b)] {
		return
	}
	delete(n.blocked, pair(a, b))
	for _, c := range n.sortedConns() {
		if pair(c.lhost, c.rhost) == pair(a, b) {
			c.wake()
		}
	}
}

// Cut resets all connections between two hosts and refuses new ones until Uncut.
func (n *Net) Cut(a, b string) {
	n.refused[pair(a, b)] = true
	for _, c := range n.sortedConns() {
		if pair(c.lhost, c.rhost) == pair(a, b) {
			c.Reset()
		}
	}
}
func (n *Net) Uncut(a, b string) { delete(n.refused, pair(a, b)) }

func (n *Net) HealAll() {
	for p := range n.refused {
		delete(n.refused, p)
	}
	var ps [][2]string
	for p := range n.blocked {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return fmt.Sprint(ps[i]) < fmt.Sprint(ps[j]) })
	for _, p := range ps {
		n.Unblock(p[0], p[1])
	}
	for p := range n.slow {
		delete(n.slow, p)
	}
}

// OpenConns counts the connections a node has open to an address.
func (n *Net) OpenConns(node uint32, remote string) int {
	k := 0
	for c := range n.conns {
		if c.node == node && c.remote == remote {
			k++
		}
	}
	return k
}
