package sim

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"
)

// Outcome of one network write.
type Outcome struct {
	Kind string // "" or ok, err (nothing sent), part (K bytes sent, then an error), stall (nothing until released, timed out or closed)
	K    int
}

var ErrNet = errors.New("fake network error")

// FConn is the server's side of a fake TCP connection.
type FConn struct {
	W            *World
	ID           int
	mu           sync.Mutex
	in           [][]byte // segments not yet read
	inErr        error    // returned once in is empty
	wake         chan struct{}
	rdl, wdl     time.Time
	rset, wset   bool
	dlch         chan struct{} // closed when a deadline changes
	Closed       bool
	closed       chan struct{}
	Wire         []byte // accepted bytes
	nw           int
	Plan         func(n int, b []byte) Outcome
	FailDL       func(kind string) error
	Started      func(p []byte) // a write has started
	LogDL        bool           // log the read deadlines
	Release      chan struct{}  // stalled writes continue when closed
	MaxRead      int
	Coalesce     bool // a read returns as much as there is, not just a segment
	CloseErr     error
	Raw          bool // don't log
	busy         int
	ReadsBlocked int
}

func (w *World) NewFConn() *FConn {
	c := &FConn{W: w, ID: len(w.Conns) + 1, wake: make(chan struct{}), dlch: make(chan struct{}), closed: make(chan struct{}), Release: make(chan struct{})}
	w.Conns = append(w.Conns, c)
	return c
}

// Feed appends segments to the input.
func (c *FConn) Feed(segs ...[]byte) {
	c.mu.Lock()
	for _, s := range segs {
		if len(s) > 0 {
			c.in = append(c.in, append([]byte(nil), s...))
		}
	}
	close(c.wake)
	c.wake = make(chan struct{})
	c.mu.Unlock()
}

// FeedErr ends the input with an error (io.EOF for an orderly end).
func (c *FConn) FeedErr(err error) {
	c.mu.Lock()
	c.inErr = err
	close(c.wake)
	c.wake = make(chan struct{})
	c.mu.Unlock()
}

func (c *FConn) Unread() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, s := range c.in {
		n += len(s)
	}
	return n
}

func ms(d time.Duration) int {
	// rounded up, so that a deadline within a limit stays within it
	return int((d + time.Millisecond - 1) / time.Millisecond)
}

func (c *FConn) Read(p []byte) (int, error) {
	first := true
	for {
		c.mu.Lock()
		if c.Closed {
			c.mu.Unlock()
			return 0, net.ErrClosed
		}
		dl := c.rdl
		if !dl.IsZero() && !time.Now().Before(dl) {
			c.mu.Unlock()
			c.log(M{"e": "rd", "r": "timeout"})
			return 0, os.ErrDeadlineExceeded
		}
		if len(p) == 0 {
			c.mu.Unlock()
			return 0, nil
		}
		if len(c.in) > 0 {
			if c.Coalesce && len(c.in) > 1 {
				c.in = [][]byte{bytes.Join(c.in, nil)}
			}
			s := c.in[0]
			n := copy(p, s)
			if c.MaxRead > 0 && n > c.MaxRead {
				n = c.MaxRead
			}
			if n == len(s) {
				c.in = c.in[1:]
			} else {
				c.in[0] = s[n:]
			}
			c.mu.Unlock()
			return n, nil
		}
		if c.inErr != nil {
			err := c.inErr
			c.mu.Unlock()
			c.log(M{"e": "rd", "r": "err"})
			return 0, err
		}
		wake, dlch := c.wake, c.dlch
		c.mu.Unlock()
		if first {
			first = false
			d := -1
			if !dl.IsZero() {
				d = ms(time.Until(dl))
			}
			c.log(M{"e": "rd", "r": "block", "dl": d})
		}
		var tch <-chan time.Time
		var t *time.Timer
		if !dl.IsZero() {
			t = time.NewTimer(time.Until(dl))
			tch = t.C
		}
		select {
		case <-wake:
		case <-dlch:
		case <-tch:
		case <-c.closed:
		}
		if t != nil {
			t.Stop()
		}
	}
}

func (c *FConn) log(e M) {
	if c.Raw {
		return
	}
	e["c"] = c.ID
	c.W.Log(e)
}

func (c *FConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	if c.Closed {
		c.mu.Unlock()
		c.log(M{"e": "wx"}) // refused: the connection is closed
		return 0, net.ErrClosed
	}
	if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
		c.mu.Unlock()
		c.log(M{"e": "ws", "n": len(p), "dl": 0, "p": append([]byte(nil), p...), "from": len(c.Wire)})
		c.log(M{"e": "we", "r": "timeout", "n": 0, "from": len(c.Wire), "to": len(c.Wire), "mut": false, "dur": 0})
		return 0, os.ErrDeadlineExceeded
	}
	c.nw++
	var o Outcome
	if c.Plan != nil {
		o = c.Plan(c.nw, p)
	}
	d := -1
	if !c.wdl.IsZero() {
		d = ms(time.Until(c.wdl))
	}
	c.busy++
	busy := c.busy
	at := len(c.Wire)
	rel := c.Release
	c.mu.Unlock()
	// The bytes as they are when Write was called: the caller may not change them until it returns.
	was := append([]byte(nil), p...)
	c.log(M{"e": "ws", "n": len(p), "dl": d, "conc": busy, "p": was, "from": at})
	if c.Started != nil {
		c.Started(was)
	}
	kind, dur := o.Kind, 0
	if kind == "stall" {
		t := time.Now()
		kind = c.stall(rel)
		dur = int(time.Since(t) / time.Millisecond)
	} else {
		c.W.Step("net")
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.busy--
	if c.Closed && kind != "timeout" {
		kind = "closed"
	}
	from := len(c.Wire)
	n := len(p)
	var err error
	switch kind {
	case "err":
		n, err = 0, ErrNet
	case "part":
		n, err = min(o.K, len(p)), ErrNet
	case "timeout":
		n, err = min(o.K, len(p)), os.ErrDeadlineExceeded
	case "closed":
		n, err = 0, net.ErrClosed
	default:
		kind = "ok"
	}
	c.Wire = append(c.Wire, p[:n]...)
	e := M{"e": "we", "r": kind, "n": n, "from": from, "to": len(c.Wire), "mut": !bytes.Equal(was, p), "dur": dur}
	c.log(e)
	return n, err
}

func (c *FConn) stall(rel chan struct{}) string {
	for {
		c.mu.Lock()
		dl, dlch := c.wdl, c.dlch
		c.mu.Unlock()
		if !dl.IsZero() && !time.Now().Before(dl) {
			return "timeout"
		}
		var tch <-chan time.Time
		var t *time.Timer
		if !dl.IsZero() {
			t = time.NewTimer(time.Until(dl))
			tch = t.C
		}
		r := ""
		select {
		case <-rel:
			r = "ok"
		case <-c.closed:
			r = "closed"
		case <-dlch:
		case <-tch:
			r = "timeout"
		}
		if t != nil {
			t.Stop()
		}
		if r != "" {
			return r
		}
	}
}

func (c *FConn) Close() error {
	c.mu.Lock()
	if c.Closed {
		c.mu.Unlock()
		return net.ErrClosed
	}
	c.Closed = true
	close(c.closed)
	c.mu.Unlock()
	c.log(M{"e": "rawclose"})
	return c.CloseErr
}

// ReleaseStalls lets the stalled writes continue (later ones stall again).
func (c *FConn) ReleaseStalls() {
	c.mu.Lock()
	defer c.mu.Unlock()
	close(c.Release)
	c.Release = make(chan struct{})
}

func (c *FConn) IsClosed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.Closed }

func (c *FConn) setDL(kind string, r, w bool, t time.Time) error {
	if c.FailDL != nil {
		if err := c.FailDL(kind); err != nil {
			c.log(M{"e": "dlfail", "k": kind})
			return err
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.Closed {
		return net.ErrClosed
	}
	if r {
		c.rdl = t
		if c.LogDL {
			d := -1
			if !t.IsZero() {
				d = ms(time.Until(t))
			}
			c.log(M{"e": "dl", "d": d})
		}
	}
	if w {
		c.wdl = t
	}
	close(c.dlch)
	c.dlch = make(chan struct{})
	return nil
}
func (c *FConn) SetDeadline(t time.Time) error      { return c.setDL("rw", true, true, t) }
func (c *FConn) SetReadDeadline(t time.Time) error  { return c.setDL("r", true, false, t) }
func (c *FConn) SetWriteDeadline(t time.Time) error { return c.setDL("w", false, true, t) }

type addr struct{}

func (addr) Network() string          { return "fake" }
func (addr) String() string           { return "fake" }
func (c *FConn) LocalAddr() net.Addr  { return addr{} }
func (c *FConn) RemoteAddr() net.Addr { return addr{} }

// RW is the http.ResponseWriter of an upgrade request.
type RW struct {
	C          *FConn
	H          http.Header
	Status     int
	Body       strings.Builder
	Hijacked   bool
	Early      []byte // bytes the client sent before the response, in the server's buffer already
	RBuf, WBuf int
	HijackErr  error
	Order      []string
}

func (r *RW) Header() http.Header { return r.H }
func (r *RW) WriteHeader(s int) {
	if r.Status == 0 {
		r.Status = s
	}
}
func (r *RW) Write(b []byte) (int, error) {
	if r.Hijacked {
		return 0, http.ErrHijacked
	}
	if r.Status == 0 {
		r.Status = 200
	}
	return r.Body.Write(b)
}
func (r *RW) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if r.HijackErr != nil {
		return nil, nil, r.HijackErr
	}
	r.Hijacked = true
	rb, wb := r.RBuf, r.WBuf
	if rb == 0 {
		rb = 4096
	}
	if wb == 0 {
		wb = 4096
	}
	br := bufio.NewReaderSize(r.C, rb)
	if len(r.Early) > 0 {
		r.C.mu.Lock()
		r.C.in = append([][]byte{r.Early}, r.C.in...)
		r.C.mu.Unlock()
		br.Peek(len(r.Early))
	}
	return r.C, bufio.NewReadWriter(br, bufio.NewWriterSize(r.C, wb)), nil
}

// GoodReq is a valid upgrade request.
func GoodReq() *http.Request {
	h := http.Header{}
	h.Set("Upgrade", "websocket")
	h.Set("Connection", "Upgrade")
	h.Set("Sec-Websocket-Version", "13")
	h.Set("Sec-Websocket-Key", "dGhlIHNhbXBsZSBub25jZQ==")
	return &http.Request{Method: "GET", Header: h, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
}

// NewRW returns a response writer on a new fake connection.
func (w *World) NewRW() *RW { return &RW{C: w.NewFConn(), H: http.Header{}} }

var _ io.Writer = (*RW)(nil)

// Busy is the number of writes in progress.
func (c *FConn) Busy() int { c.mu.Lock(); defer c.mu.Unlock(); return c.busy }
