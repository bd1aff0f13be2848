// Package sim is an in-memory network the checks control: how the stream is
// cut into reads, short writes, resets and closes.
package sim

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Addr string

func (a Addr) Network() string { return "tcp" }
func (a Addr) String() string  { return string(a) }

// Listener hands out the connections given to Dial.
type Listener struct {
	ch     chan net.Conn
	errs   chan error
	closed chan struct{}
	once   sync.Once
	late   atomic.Int32 // Accept calls after Close
}

// a caller that goes on calling Accept on a closed listener is parked after
// this many calls, so that virtual time can go on and the check can see it
const maxLate = 1000

func NewListener() *Listener {
	return &Listener{ch: make(chan net.Conn), errs: make(chan error), closed: make(chan struct{})}
}

func (l *Listener) Accept() (net.Conn, error) {
	if l.late.Load() > maxLate {
		select {}
	}
	c, err := l.accept()
	if errors.Is(err, net.ErrClosed) {
		l.late.Add(1)
	}
	return c, err
}

func (l *Listener) accept() (net.Conn, error) {
	select {
	case <-l.closed:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: net.ErrClosed}
	default:
	}
	select {
	case c := <-l.ch:
		return c, nil
	case err := <-l.errs:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: err}
	case <-l.closed:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: net.ErrClosed}
	}
}

func (l *Listener) Close() error {
	err := error(&net.OpError{Op: "close", Net: "tcp", Addr: l.Addr(), Err: net.ErrClosed})
	l.once.Do(func() { close(l.closed); err = nil })
	return err
}

func (l *Listener) Addr() net.Addr { return Addr("0.0.0.0:8080") }

// Dial connects from the given remote address; false if nobody accepts.
func (l *Listener) Dial(remote string) (*Peer, bool) {
	c := NewConn(remote)
	give := time.NewTimer(20 * time.Second)
	defer give.Stop()
	select {
	case l.ch <- c:
		return &Peer{c}, true
	case <-l.closed:
	case <-give.C:
	}
	return nil, false
}

// Fail makes one Accept fail with a passing error; false if nobody accepts.
func (l *Listener) Fail(e syscall.Errno) bool {
	give := time.NewTimer(20 * time.Second)
	defer give.Stop()
	select {
	case l.errs <- os.NewSyscallError("accept4", e):
		return true
	case <-l.closed:
	case <-give.C:
	}
	return false
}

// Conn is the server's end.
type Conn struct {
	remote string
	mu     sync.Mutex
	cond   *sync.Cond
	in     [][]byte // chunks the next reads return, never merged
	eof    bool     // peer closed its side
	reset  bool     // peer reset: one ECONNRESET, then EOF
	rstRep bool
	closed bool // closed by the server
	closes int
	out    []byte
	writes int
	short  func(n int) int // how many of n bytes a write accepts
	slow   time.Duration   // time a write takes after its bytes went out
	gate   chan struct{}   // reads wait until it is closed
	stall  int             // writes block once this many bytes wait; 0: never
	reads  int

	rd, wd time.Time // read and write deadlines
}

func NewConn(remote string) *Conn {
	c := &Conn{remote: remote}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *Conn) op(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.LocalAddr(), Addr: c.RemoteAddr(), Err: err}
}

func (c *Conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if g := c.gate; g != nil && len(c.in) > 0 {
			c.mu.Unlock()
			<-g
			c.mu.Lock()
			c.gate = nil
		}
		switch {
		case c.closed:
			return 0, c.op("read", net.ErrClosed)
		case passed(c.rd):
			return 0, c.op("read", os.ErrDeadlineExceeded)
		case c.reset:
			if !c.rstRep {
				c.rstRep = true
				return 0, c.op("read", os.NewSyscallError("read", syscall.ECONNRESET))
			}
			return 0, io.EOF
		case len(c.in) > 0:
			n := copy(p, c.in[0])
			if n == len(c.in[0]) {
				c.in = c.in[1:]
			} else {
				c.in[0] = c.in[0][n:]
			}
			c.reads++
			return n, nil
		case c.eof:
			return 0, io.EOF
		}
		c.cond.Wait()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, c.op("write", net.ErrClosed)
	}
	if passed(c.wd) {
		return 0, c.op("write", os.ErrDeadlineExceeded)
	}
	if c.reset {
		return 0, c.op("write", os.NewSyscallError("write", syscall.EPIPE))
	}
	for c.stall > 0 && len(c.out)+len(p) > c.stall { // the peer does not read
		c.cond.Wait()
		if c.closed {
			return 0, c.op("write", net.ErrClosed)
		}
		if passed(c.wd) {
			return 0, c.op("write", os.ErrDeadlineExceeded)
		}
		if c.reset {
			return 0, c.op("write", os.NewSyscallError("write", syscall.EPIPE))
		}
	}
	n := len(p)
	if c.short != nil && n > 0 {
		n = c.short(n)
	}
	c.out = append(c.out, p[:n]...)
	c.writes++
	if d := c.slow; d > 0 {
		c.mu.Unlock()
		time.Sleep(d)
		c.mu.Lock()
	}
	return n, nil
}

func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if c.closed {
		return c.op("close", net.ErrClosed)
	}
	c.closed = true
	c.cond.Broadcast()
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return Addr("10.0.0.1:8080") }
func (c *Conn) RemoteAddr() net.Addr { return Addr(c.remote) }

// passed tells whether a deadline is over; as on a TCP connection, reads and
// writes then fail until the deadline is moved, whatever data is waiting.
func passed(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *Conn) deadline(p *time.Time, t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.op("set", net.ErrClosed)
	}
	*p = t
	c.cond.Broadcast()
	if d := time.Until(t); !t.IsZero() && d > 0 {
		time.AfterFunc(d, func() {
			c.mu.Lock()
			defer c.mu.Unlock()
			c.cond.Broadcast()
		})
	}
	return nil
}

func (c *Conn) SetReadDeadline(t time.Time) error  { return c.deadline(&c.rd, t) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.deadline(&c.wd, t) }
func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

// Peer is the other end of a Conn, driven by the check.
type Peer struct{ *Conn }

// Chunks queues the data as separate segments; reads never cross them.
func (p *Peer) Chunks(chunks ...[]byte) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, c := range chunks {
		if len(c) > 0 {
			p.in = append(p.in, append([]byte{}, c...))
		}
	}
	p.cond.Broadcast()
}

// Hangup closes the peer's side in an orderly way.
func (p *Peer) Hangup() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.eof = true
	p.cond.Broadcast()
}

// Reset aborts the connection; unread data is lost.
func (p *Peer) Reset() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.reset = true
	p.in = nil
	p.cond.Broadcast()
}

// Take returns what the server wrote since the last Take.
func (p *Peer) Take() []byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	b := p.out
	p.out = nil
	return b
}

// Closed tells whether the server closed its end.
func (p *Peer) Closed() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.closed
}

// Gone tells whether either side ended the connection.
func (p *Peer) Gone() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.closed || p.eof || p.reset
}

// Unread is the number of bytes the server has not read yet.
func (p *Peer) Unread() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := 0
	for _, c := range p.in {
		n += len(c)
	}
	return n
}

// ShortWrites sets how many of n bytes each write accepts (at least 1).
func (p *Peer) ShortWrites(f func(n int) int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.short = f
}

// SlowWrites makes every write take some time, during which others can write.
func (p *Peer) SlowWrites(d time.Duration) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.slow = d
}

// Gate makes reads wait for the gate; close it to release several
// connections at the same moment.
func (p *Peer) Gate(g chan struct{}) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.gate = g
}

// Stall makes writes block while more than n bytes would wait to be read, as
// for a peer that stopped reading; 0 lets everything through again.
func (p *Peer) Stall(n int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.stall = n
	p.cond.Broadcast()
}
