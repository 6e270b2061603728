package simrt

import (
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"
	"weak"
)

// NetWorld is the simulated TCP network.
type NetWorld struct {
	s         *Sim
	listeners map[string]*Listener
	nextPort  int
	Conns     []*core
	Dials     int64
	Refused   int64
	BytesSent int64
	Segments  int64

	// defaults for new connections, settable by the scenario
	MaxSeg int // largest segment; 0 = unlimited
	// MaxAccepted limits the open connections a listener can have; then accept
	// fails for lack of descriptors.
	MaxAccepted map[string]int
	MaxDelay    int64 // largest per-segment delay in ns
	Short       bool  // reads may return less than what is available
	Window      int   // bytes in flight before a writer blocks
	// DialHook may refuse or delay a connection attempt
	DialHook func(addr string, n int64) (delay int64, err error)
}

func newNetWorld(s *Sim) *NetWorld {
	return &NetWorld{s: s, listeners: map[string]*Listener{}, nextPort: 40000, Window: 256 * 1024}
}

func Net() *NetWorld { return S.Net }

func normAddr(a string) string {
	h, p, err := net.SplitHostPort(a)
	if err != nil {
		return a
	}
	switch h {
	case "", "0.0.0.0", "localhost", "::", "::1":
		h = "127.0.0.1"
	}
	return h + ":" + p
}

func tcpAddr(a string) net.Addr {
	h, p, _ := net.SplitHostPort(a)
	port := 0
	fmt.Sscan(p, &port)
	ip := net.ParseIP(h)
	if ip == nil {
		ip = net.IPv4(10, 0, 0, 1)
	}
	return &net.TCPAddr{IP: ip, Port: port}
}

// Listener is a simulated listening socket.
type Listener struct {
	nw      *NetWorld
	addr    string
	backlog []*core
	closed  bool
	w       WaitQ
	proc    *Proc
	open    []*core // accepted
}

func Listen(addr string) (*Listener, error) {
	s := need()
	s.yield("listen")
	a := normAddr(addr)
	if l := s.Net.listeners[a]; l != nil && !l.closed {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Addr: tcpAddr(a), Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &Listener{nw: s.Net, addr: a, proc: s.cur.proc}
	l.w.Fresh()
	s.Net.listeners[a] = l
	if l.proc != s.rootP {
		l.proc.OnExit(func() { l.shut() })
	}
	return l, nil
}

func (nw *NetWorld) Listening(addr string) bool {
	l := nw.listeners[normAddr(addr)]
	return l != nil && !l.closed
}

func (nw *NetWorld) ListenerOf(addr string) *Listener { return nw.listeners[normAddr(addr)] }

func (l *Listener) shut() {
	if l.closed {
		return
	}
	l.closed = true
	for _, c := range l.backlog {
		c.abort()
	}
	l.backlog = nil
	l.w.WakeAll()
}

func (l *Listener) Accept() (net.Conn, error) {
	s := need()
	s.yield("accept")
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: tcpAddr(l.addr), Err: net.ErrClosed}
		}
		if n := l.nw.MaxAccepted[l.addr]; n > 0 && len(l.backlog) > 0 && l.inUse() >= n {
			Fault("accept_emfile")
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: tcpAddr(l.addr), Err: os.NewSyscallError("accept4", syscall.EMFILE)}
		}
		if len(l.backlog) > 0 {
			c := l.backlog[0]
			l.open = append(l.open, c)
			l.backlog = l.backlog[1:]
			c.own(s.cur.proc)
			h := &Conn{c}
			c.handle = weak.Make(h)
			return h, nil
		}
		l.w.Wait("accept")
	}
}

// inUse counts the accepted connections that neither side has ended. One that
// the peer has ended and the program has dropped is closed by its finalizer.
func (l *Listener) inUse() int {
	k := l.open[:0]
	for _, c := range l.open {
		if !c.closed && !c.in.eof && !c.in.rst {
			k = append(k, c)
		}
	}
	l.open = k
	return len(k)
}

// Held counts the connections of a process that neither side has ended.
func (nw *NetWorld) Held(p *Proc) int {
	n := 0
	for _, c := range nw.Conns {
		if c.proc == p && !c.closed && !c.in.eof && !c.in.rst {
			n++
		}
	}
	return n
}

// Kept counts the accepted connections of a process that the peer has ended and
// that the program still has: no finalizer will close them.
func (nw *NetWorld) Kept(p *Proc) int {
	for range 3 { // what is in a pool goes at the second
		runtime.GC()
	}
	n := 0
	for _, c := range nw.Conns {
		if c.proc == p && !c.closed && (c.in.eof || c.in.rst) && c.handle.Value() != nil {
			n++
		}
	}
	return n
}

func (l *Listener) Close() error {
	if _, ok := quiet(); !ok {
		return nil
	}
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: tcpAddr(l.addr), Err: net.ErrClosed}
	}
	l.shut()
	return nil
}

func (l *Listener) Addr() net.Addr { return tcpAddr(l.addr) }

func (l *Listener) AcceptTCP() (*Conn, error) {
	c, err := l.Accept()
	if err != nil {
		return nil, err
	}
	return c.(*Conn), nil
}

// pipe is one direction of a connection.
type pipe struct {
	buf      []byte
	inflight int
	lastAt   int64
	eof      bool // FIN has arrived
	rst      bool
	rd       WaitQ
	wr       WaitQ
	total    int64 // bytes accepted from the writer
	got      int64 // bytes consumed by the reader
}

// Conn is one end of a simulated TCP connection.
// Conn is what a program has of a connection.
type Conn struct{ *core }

type core struct {
	handle        weak.Pointer[Conn]
	nw            *NetWorld
	id            int
	in, out       *pipe
	peer          *core
	local, remote string
	closed        bool
	wclosed       bool
	proc          *Proc
	rdl, wdl      int64 // deadlines, ns of simulated time; 0 = none
	MaxSeg        int
	MaxDelay      int64
	Short         bool
	Window        int
	Stalled       bool // written data stays in flight until released
	held          []func()
	OnDeliver     func(total int64) // bytes written here that have reached the peer
}

func (c *core) own(p *Proc) {
	c.proc = p
	if p != c.nw.s.rootP {
		p.OnExit(func() { c.doClose() })
	}
}

func opErr(op string, c *core, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: tcpAddr(c.local), Addr: tcpAddr(c.remote), Err: err}
}

// Dial connects to addr.
func Dial(addr string, timeout int64) (net.Conn, error) {
	s := need()
	s.yield("dial")
	nw := s.Net
	a := normAddr(addr)
	nw.Dials++
	var delay int64
	var err error
	if nw.DialHook != nil {
		delay, err = nw.DialHook(a, nw.Dials)
	}
	if timeout > 0 && delay > timeout {
		Sleep(timeout)
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: tcpAddr(a), Err: os.ErrDeadlineExceeded}
	}
	if delay > 0 {
		Sleep(delay)
	}
	if err == nil {
		l := nw.listeners[a]
		if l != nil && !l.closed {
			nw.nextPort++
			la := fmt.Sprintf("127.0.0.1:%d", nw.nextPort)
			x, y := &pipe{}, &pipe{}
			for _, p := range []*pipe{x, y} {
				p.rd.Fresh()
				p.wr.Fresh()
			}
			c := &core{nw: nw, id: len(nw.Conns), in: x, out: y, local: la, remote: a, MaxSeg: nw.MaxSeg, MaxDelay: nw.MaxDelay, Short: nw.Short, Window: nw.Window}
			d := &core{nw: nw, id: len(nw.Conns) + 1, in: y, out: x, local: a, remote: la, MaxSeg: nw.MaxSeg, MaxDelay: nw.MaxDelay, Short: nw.Short, Window: nw.Window}
			c.peer, d.peer = d, c
			nw.Conns = append(nw.Conns, c, d)
			c.own(s.cur.proc)
			l.backlog = append(l.backlog, d)
			l.w.WakeOne(false)
			return &Conn{c}, nil
		}
		err = os.NewSyscallError("connect", syscall.ECONNREFUSED)
	}
	nw.Refused++
	return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: tcpAddr(a), Err: err}
}

func (c *core) LocalAddr() net.Addr  { return tcpAddr(c.local) }
func (c *core) RemoteAddr() net.Addr { return tcpAddr(c.remote) }

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }
func (timeoutErr) Unwrap() error   { return os.ErrDeadlineExceeded }

func (c *core) Read(b []byte) (int, error) {
	s := need()
	s.yield("read")
	p := c.in
	for {
		if c.closed {
			return 0, opErr("read", c, net.ErrClosed)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if p.rst {
			return 0, opErr("read", c, os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if c.rdl != 0 && s.now >= c.rdl {
			return 0, opErr("read", c, timeoutErr{})
		}
		if n := len(p.buf); n > 0 {
			if n > len(b) {
				n = len(b)
			}
			if c.Short && n > 1 {
				n -= s.choose(n)
			}
			copy(b, p.buf[:n])
			p.buf = p.buf[n:]
			p.got += int64(n)
			p.wr.WakeAll()
			return n, nil
		}
		if p.eof {
			return 0, io.EOF
		}
		p.rd.Wait("conn read")
		p.rd.Drop()
	}
}

func (c *core) Write(b []byte) (int, error) {
	s := need()
	s.yield("write")
	p := c.out
	n := 0
	for n < len(b) {
		if c.closed || c.wclosed {
			return n, opErr("write", c, net.ErrClosed)
		}
		if p.rst {
			return n, opErr("write", c, os.NewSyscallError("write", syscall.EPIPE))
		}
		if c.peer.closed {
			// the peer answers with a reset
			p.rst = true
			c.in.rst = c.in.rst || len(c.in.buf) == 0 && !c.in.eof
			return n, opErr("write", c, os.NewSyscallError("write", syscall.EPIPE))
		}
		if c.wdl != 0 && s.now >= c.wdl {
			return n, opErr("write", c, timeoutErr{})
		}
		room := c.Window - p.inflight - len(p.buf)
		if room <= 0 {
			p.wr.Wait("conn write")
			p.wr.Drop()
			continue
		}
		k := len(b) - n
		if k > room {
			k = room
		}
		if c.MaxSeg > 0 && k > 1 {
			m := 1 + s.choose(c.MaxSeg)
			if m < k {
				k = m
			}
		}
		c.ship(append([]byte(nil), b[n:n+k]...))
		n += k
	}
	return n, nil
}

func (c *core) ship(data []byte) {
	s, p := c.nw.s, c.out
	p.inflight += len(data)
	p.total += int64(len(data))
	c.nw.BytesSent += int64(len(data))
	c.nw.Segments++
	c.later(func() {
		p.inflight -= len(data)
		if p.rst || c.peer.closed {
			return
		}
		p.buf = append(p.buf, data...)
		p.rd.WakeAll()
		if c.OnDeliver != nil {
			c.OnDeliver(c.Delivered())
		}
	})
	_ = s
}

// later runs fn after this direction's next in-order delay.
func (c *core) later(fn func()) {
	s, p := c.nw.s, c.out
	if c.Stalled {
		c.held = append(c.held, fn)
		return
	}
	var d int64
	if c.MaxDelay > 0 {
		// mostly short, sometimes the full delay
		switch s.choose(4) {
		case 0:
		case 1, 2:
			d = int64(s.choose(1000)) * c.MaxDelay / 10000
		case 3:
			d = int64(s.choose(1000)) * c.MaxDelay / 1000
		}
	}
	s.sync()
	at := s.now + d
	if at < p.lastAt {
		at = p.lastAt
	}
	p.lastAt = at
	if at <= s.now {
		fn()
		return
	}
	s.after(at-s.now, fn)
}

// Release ends a stall: everything held is delivered in order.
func (c *core) Release() {
	c.Stalled = false
	h := c.held
	c.held = nil
	for _, f := range h {
		c.later(f)
	}
}

func (c *core) doClose() {
	if c.closed {
		return
	}
	c.closed = true
	if !c.wclosed {
		c.wclosed = true
		p := c.out
		s := c.nw.s
		if s.ended {
			return
		}
		// process exit runs here too, so the delay must not draw while dying
		at := s.now
		if at < p.lastAt {
			at = p.lastAt
		}
		fin := func() { p.eof = true; p.rd.WakeAll() }
		if c.Stalled {
			c.held = append(c.held, fin)
		} else if at <= s.now {
			fin()
		} else {
			s.pushEv(&event{at: at, fn: fin})
		}
	}
	c.in.rd.WakeAll()
	c.in.wr.WakeAll()
	c.out.wr.WakeAll()
}

func (c *core) Close() error {
	s, ok := quiet()
	if s == nil || !ok {
		if c.nw.s.killing || s == nil {
			return nil
		}
		c.doClose()
		return nil
	}
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.doClose()
	s.yield("close")
	return nil
}

// CloseWrite sends FIN but keeps reading.
func (c *core) CloseWrite() error {
	if c.wclosed {
		return opErr("close", c, net.ErrClosed)
	}
	c.wclosed = true
	p := c.out
	c.later(func() { p.eof = true; p.rd.WakeAll() })
	return nil
}

// abort resets the connection: undelivered data is lost on both sides.
func (c *core) abort() {
	for _, p := range []*pipe{c.in, c.out} {
		p.rst = true
		p.buf = nil
		p.rd.WakeAll()
		p.wr.WakeAll()
	}
}

// Reset injects a connection reset.
func (c *core) Reset() { c.abort() }

// PeerConsumed says how many bytes written here the peer has read.
func (c *core) PeerConsumed() int64 { return c.out.got }

// Delivered says how many bytes written here have reached the peer's buffer.
func (c *core) Delivered() int64 { return c.out.got + int64(len(c.out.buf)) }

func (c *core) PeerClosed() bool { return c.peer.closed }

func dlNS(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	n := MonoOf(t)
	if n <= 0 {
		n = 1
	}
	return n
}

func (c *core) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *core) SetReadDeadline(t time.Time) error {
	s := need()
	c.rdl = dlNS(t)
	if c.rdl != 0 {
		s.after(c.rdl-s.now, func() { c.in.rd.WakeAll() })
	}
	return nil
}

func (c *core) SetWriteDeadline(t time.Time) error {
	s := need()
	c.wdl = dlNS(t)
	if c.wdl != 0 {
		s.after(c.wdl-s.now, func() { c.out.wr.WakeAll() })
	}
	return nil
}

// tuning calls of *net.TCPConn that the program may make
func (c *core) SetKeepAlive(bool) error                      { return nil }
func (c *core) SetKeepAlivePeriod(d time.Duration) error     { return nil }
func (c *core) SetKeepAliveConfig(net.KeepAliveConfig) error { return nil }
func (c *core) SetNoDelay(bool) error                        { return nil }
func (c *core) SetLinger(int) error                          { return nil }
func (c *core) SetReadBuffer(int) error                      { return nil }
func (c *core) SetWriteBuffer(int) error                     { return nil }

// HostOf returns host:port of a URL host.
func HostOf(h string) string {
	if !strings.Contains(h, ":") {
		h += ":80"
	}
	return normAddr(h)
}
